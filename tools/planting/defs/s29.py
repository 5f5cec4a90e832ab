prop='C07'
needs='PUTs queued while the background thread is sending a batch'
breaks='the number of waiting PUTs is reset after the batch is sent instead of when it is taken, so PUTs that were queued in the meantime are not counted and the threshold is not noticed'
edits=[('src/hxhim/init.cpp','''            hx->p->queues.puts.count = 0;
            hx->p->queues.puts.flushed = false;
''','''            hx->p->queues.puts.flushed = false;
'''),('src/hxhim/init.cpp','''            hx->p->async_puts.done_check = true;
        }
''','''            hx->p->async_puts.done_check = true;
        }

        {
            std::lock_guard<std::mutex> queue_lock(hx->p->queues.puts.mutex);
            hx->p->queues.puts.count = 0;
        }
''')]
demo=r'''
// PUTs are sent without a flush once enough of them wait, also if they were
// queued while the previous ones were being sent
#include "common.hpp"
#include "utils/memory.hpp"

static std::atomic<int> encoded{0};

static int slow(void *src, size_t n, void **dst, size_t *dn, void *) {
    if (*(char *) src == 'o') {
        encoded++;
        if (g_active) pause_ms(300);
    }
    *dst = alloc(n);
    memcpy(*dst, src, n);
    *dn = n;
    return HXHIM_SUCCESS;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.async = 2;
    set_options(&hx, o);
    hxhim_set_transform_function(&hx, HXHIM_DATA_BYTE, slow, nullptr, slow, nullptr);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    g_active = true;
    put(&hx, "0:a", "p", "o1");
    put(&hx, "0:b", "p", "o2");
    for (int i = 0; i < 5000 && !encoded; i++) pause_ms(1);
    expect(encoded, "the first batch has to be sent");
    put(&hx, "0:c", "p", "o3");
    put(&hx, "0:d", "p", "o4");
    g_active = false;
    for (int i = 0; i < 4000 && encoded < 4; i++) pause_ms(1);
    expect(encoded == 4, "the second batch has to be sent without a flush");
    expect(finish(hxhim::FlushPuts(&hx)) == 4, "every PUT has a result");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
