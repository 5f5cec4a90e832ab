prop='C01'
needs='a maximum request size, a large PUT that does not fit in the last packet, and a later small PUT of the same pair, in one flush'
breaks='a later PUT can be placed into an earlier packet than the PUT before it, so the older value wins'
edits=[('src/hxhim/ops/impl.cpp','''    return *(queue.rbegin());
}

/**
 * get_packet''','''    // use up the space in the packets that were not filled completely
    for(Request_t *req : queue) {
        if ((req->count < hx->p->queues.max_per_request.ops) &&
            (!hx->p->queues.max_per_request.size ||
             ((req->size() + additional_size) <= hx->p->queues.max_per_request.size))) {
            return req;
        }
    }

    return queue.back();
}

/**
 * get_packet''')]
demo=r'''
// the last PUT of a pair wins
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.size = 1000;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string k = "0:k", other = "0:other", mid(500, 'm'), big(800, 'b');
    put(&hx, other, "p", mid);
    put(&hx, k, "p", big);
    put(&hx, k, "p", "last");
    expect(finish(hxhim::FlushPuts(&hx)) == 3, "PUTs");
    std::string got;
    expect(get(&hx, k, "p", got), "GET");
    expect(got == "last", "read back a value of " + std::to_string(got.size()) + " bytes");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
