prop='C07'
needs='a PUT queued while the background thread is processing an earlier batch (below or at the threshold), and a FlushPuts called before that batch is done'
breaks='FlushPuts only waits for the batch that was already running: a later batch grabbed by the background thread is neither applied nor reported when FlushPuts returns'
edits=[('src/hxhim/private.cpp','    for(int i = 0; i < 2; i++) {','    for(int i = 0; i < (clear_queued?2:1); i++) {')]
demo=r'''
// background PUTs: everything queued before FlushPuts has a result and is readable after it
#include "common.hpp"

static std::atomic<int> in_encode{0};

// the storage takes some time for every string
static int slow_encode(void *src, const size_t n, void **dst, size_t *dn, void *) {
    in_encode++;
    if (g_active) {
        pause_ms(20);
    }
    *dst = ::operator new(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.async = 1;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, slow_encode, nullptr, slow_encode, nullptr);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    g_active = true;
    for (int i = 0; i < 20; i++) {
        const std::string s1 = "0:a" + std::to_string(i), s2 = "0:b" + std::to_string(i), p = "p", v = "value";
        const int before = in_encode;
        put(&hx, s1, p, v);
        for (int w = 0; w < 2000 && in_encode == before; w++) { // until it is being processed
            pause_ms(1);
        }
        put(&hx, s2, p, v);
        const size_t n = finish(hxhim::FlushPuts(&hx));
        expect(n == 2, "2 PUTs were queued before FlushPuts, results: " + std::to_string(n) + " in round " + std::to_string(i));
        std::string got;
        expect(get(&hx, s1, p, got) && got == v && get(&hx, s2, p, got) && got == v, "flushed PUT is not readable");
    }
    g_active = false;
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
