prop='C08'
needs='background PUTs, and a flush at a moment when everything queued has been taken by the background thread, which is still working on it'
breaks='a flush does not wait for the batch that the background thread is working on, so its results are missing and its PUTs may not be visible yet'
edits=[('src/hxhim/private.cpp',"""    for(int i = 0; i < 2; i++) {
        hx->p->async_puts.done_check = false;
""","""    std::size_t queued = 0;
    {
        std::lock_guard<std::mutex> queue_lock(hx->p->queues.puts.mutex);
        queued = hx->p->queues.puts.count;
    }

    // there is nothing to wait for if there is nothing in the queue (Open waits for the thread to start)
    for(int i = (queued || clear_queued || !hx->p->async_puts.results)?0:2; i < 2; i++) {
        hx->p->async_puts.done_check = false;
""")]
demo=r'''
// a flush waits for the PUTs that the background thread has already taken
#include "common.hpp"

static int slow(void *src, const size_t n, void **dst, size_t *dn, void *) {
    if (g_active) pause_ms(5);
    *dst = ::operator new(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.async = 4;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, slow, nullptr, slow, nullptr);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    g_active = true;
    std::vector<std::string> keys;
    for (int i = 0; i < 8; i++) keys.push_back("0:k" + std::to_string(i));
    for (int i = 0; i < 4; i++) put(&hx, keys[i], "p", "v");
    pause_ms(300); // completed
    for (int i = 4; i < 8; i++) put(&hx, keys[i], "p", "v");
    pause_ms(20);  // being worked on
    const size_t got = finish(hxhim::FlushPuts(&hx));
    expect(got == 8, "results: " + std::to_string(got));
    g_active = false;
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
