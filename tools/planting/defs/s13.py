prop='C17'
needs='Close while PUTs are still queued (never flushed) with background PUTs enabled'
breaks='the request packets that were still queued are never freed'
edits=[('src/hxhim/private.cpp','''                    // clear out queued items for a target single range server
                    for(Message::Request::BPut *bput : target) {
                        destruct(bput);
                    }
                    target.clear();
''','''                    // clear out queued items for a target single range server
                    target.clear();
''')]
demo=r'''
// a session gives back all of its memory, even if PUTs were never flushed
#include <malloc.h>
#include <new>
#include "common.hpp"

static std::atomic<long> live{0};
static void *take(size_t n) {
    void *p = malloc(n ? n : 1);
    if (!p) abort();
    live += malloc_usable_size(p);
    return p;
}
static void give(void *p) { if (p) { live -= malloc_usable_size(p); free(p); } }
void *operator new(size_t n) { return take(n); }
void *operator new[](size_t n) { return take(n); }
void operator delete(void *p) noexcept { give(p); }
void operator delete[](void *p) noexcept { give(p); }
void operator delete(void *p, size_t) noexcept { give(p); }
void operator delete[](void *p, size_t) noexcept { give(p); }

static void session() {
    hxhim_t hx;
    Opts o;
    o.ops = 1000;
    o.async = 1000;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    static const std::string s = "0:a";
    for (int i = 0; i < 10; i++) put(&hx, s, "p", "v");
    hxhim::Close(&hx);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    for (int i = 0; i < 3; i++) session();
    const long before = live;
    for (int i = 0; i < 10; i++) session();
    const long grown = live - before;
    expect(grown < 100000, "10 sessions leaked " + std::to_string(grown) + " bytes");
    MPI_Finalize();
    return 0;
}
'''
