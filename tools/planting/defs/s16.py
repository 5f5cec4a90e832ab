prop='C15'
needs='a maximum request size, and an operation large enough to push a packet that is not full yet over it'
breaks='a request may be larger than the configured maximum, because what is about to be added is not counted'
edits=[('src/hxhim/ops/impl.cpp','''         (((*queue.rbegin())->size() + additional_size) > hx->p->queues.max_per_request.size))) {''','''         ((*queue.rbegin())->size() > hx->p->queues.max_per_request.size - std::min(additional_size, sizeof(std::size_t))))) {''')]
demo=r'''
// NP=2
// no request is larger than the configured maximum (unless it has only one operation)
#include "common.hpp"

static std::atomic<int> largest{0};

extern "C" int MPI_Isend(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm comm, MPI_Request *req) {
    if (g_active && g_rank == 0 && n > largest) largest = n;
    return PMPI_Isend(buf, n, t, dst, tag, comm, req);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.size = 1000;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    MPI_Barrier(MPI_COMM_WORLD);
    if (g_rank == 0) {
        g_active = true;
        const std::string big(600, 'x');
        std::vector<std::string> keys;
        for (int i = 0; i < 8; i++) keys.push_back("1:k" + std::to_string(i));
        for (const std::string &k : keys) put(&hx, k, "p", big);
        expect(finish(hxhim::FlushPuts(&hx)) == 8, "PUTs");
        g_active = false;
        expect(largest > 600 && largest <= 1000, "largest request: " + std::to_string(largest));
    }
    MPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
