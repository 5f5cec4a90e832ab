prop='C23'
needs='more operations for one datastore than fit into a request packet'
breaks='the time at which a further packet was allocated is written into the first packet, so results say that their packet was allocated when other operations were queued, or never'
edits=[('src/hxhim/ops/impl.cpp','''    queue.back()->timestamps.allocate = allocate;
    queue.back()->timestamps.allocate.end = ::Stats::now();
''','''    queue.front()->timestamps.allocate = allocate;
    queue.front()->timestamps.allocate.end = ::Stats::now();
''')]
demo=r'''
// the first operation of each packet carries the time at which the packet was
// allocated, which lies between the queueing of the previous operation and its own
#include "common.hpp"
#include "hxhim/Results.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.ops = 2;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    for (int i = 0; i < 5; i++) {
        const std::string s = "0:" + std::to_string(i);
        put(&hx, s, "p", "o");
        pause_ms(5);
    }
    hxhim::Results *res = hxhim::FlushPuts(&hx);
    expect(res && res->Size() == 5, "every PUT has a result");
    int n = 0;
    for (res->GoToHead(); res->ValidIterator(); res->GoToNext(), n++) {
        hxhim::Result::Timestamps *t = nullptr;
        expect(res->Timestamps(&t) == HXHIM_SUCCESS && t, "timestamps");
        expect((n % 2 == 0) == (t->alloc != nullptr), "only the first operation of a packet carries its allocation");
        if (t->alloc) {
            expect(t->alloc->start <= t->alloc->end && t->alloc->end <= t->transport.start, "order");
            expect(t->alloc->start.time_since_epoch().count() > 0, "allocation is missing");
            auto far = t->transport.start - t->alloc->start;
            (void) far;
            static ::Stats::Chronopoint last;
            expect(last < t->alloc->start && t->alloc->start - last >= std::chrono::milliseconds(n ? 8 : 0), "allocated for the wrong packet");
            last = t->alloc->end;
        }
    }
    hxhim::Results::Destroy(res);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
