prop='C01'
needs='a limit on the size of a request, a small and a large PUT that do not fit into one request, and a later PUT of the pair of the large one'
breaks='a later PUT is placed into an earlier request that still has room: the older value overwrites the newer one'
edits=[('src/hxhim/ops/impl.cpp','''    if (queue.empty()                                                   ||
        // last packet doesn't have an empty slot
        ((*queue.rbegin())->count >= hx->p->queues.max_per_request.ops) ||
        // has slots, but serialized buffer would be too big
        (hx->p->queues.max_per_request.size &&
         (((*queue.rbegin())->size() + additional_size) > hx->p->queues.max_per_request.size))) {
        new_request(hx, queue);
    }

    return *(queue.rbegin());
''','''    // use the space that is left in packets that are already queued
    for(Request_t *req : queue) {
        // has an empty slot
        if ((req->count < hx->p->queues.max_per_request.ops) &&
            // and the serialized buffer would not be too big
            (!hx->p->queues.max_per_request.size ||
             ((req->size() + additional_size) <= hx->p->queues.max_per_request.size))) {
            return req;
        }
    }

    new_request(hx, queue);
    return *(queue.rbegin());
''')]
demo=r'''
// the last of the PUTs of a pair that were queued is the one that stays
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.size = 500;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    put(&hx, "0:a", "p", "small");
    put(&hx, "0:b", "p", std::string(450, 'x'));
    put(&hx, "0:b", "p", "new");
    expect(finish(hxhim::FlushPuts(&hx)) == 3, "PUT");
    hxhim::Get(&hx, ptr("0:b"), 3, HXHIM_DATA_BYTE, ptr("p"), 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
    hxhim::Results *res = hxhim::FlushGets(&hx);
    void *object = nullptr;
    std::size_t len = 0;
    res->GoToHead();
    expect(res->ValidIterator() && (res->Object(&object, &len, nullptr) == HXHIM_SUCCESS), "GET");
    expect(std::string((char *) object, len) == "new", "the last PUT stays");
    hxhim::Results::Destroy(res);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
