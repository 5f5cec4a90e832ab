prop='C19'
needs='two threads of a range server (its own application thread and a listener) reading the same datastore at the same time'
breaks='GETs of one datastore run at the same time in several threads and change its statistics concurrently'
edits=[('src/datastore/datastore.cpp','''Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
    std::lock_guard<std::mutex> lock(mutex);
''','''Message::Response::BGet *Datastore::Datastore::operate(Message::Request::BGet *req) {
    // reading does not change anything
''')]
demo=r'''
// NP=2
// one datastore never runs two operations at the same time
#include "common.hpp"

static std::atomic<int> inside{0};
static std::atomic<bool> overlapped{false};

static int encode(void *src, const size_t n, void **dst, size_t *dn, void *) {
    if (g_active) {
        if (inside++) overlapped = true;
        pause_ms(2);
        inside--;
    }
    *dst = ::operator new(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, encode, nullptr, encode, nullptr);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    if (g_rank == 0) {
        put(&hx, "0:k", "p", "v");
        expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    g_active = true;
    for (int i = 0; i < 40; i++) {
        std::string got;
        expect(get(&hx, "0:k", "p", got) && (got == "v"), "GET");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    expect(!overlapped, "operations of one datastore overlap");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
