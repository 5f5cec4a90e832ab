prop='C18'
needs='more than one datastore per range server and an Open that fails on a later datastore after opening earlier ones'
breaks='the datastores that had been opened stay open (and locked) after the failed Open, so they cannot be opened again'
edits=[('src/hxhim/init.cpp','''        if (!ds) {
            return HXHIM_ERROR;
        }
    }
''','''        if (ds == nullptr) {
            // there is no complete set of datastores
            rs->datastores.ds.clear();
            return HXHIM_ERROR;
        }
    }
''')]
demo=r'''
// a failed Open leaves nothing open: it can be repeated once the cause is gone
#include "common.hpp"

static int open_with(size_t per_server, int create) {
    hxhim_t hx;
    Opts o;
    o.leveldb = 1;
    o.create = create;
    o.per_server = per_server;
    set_options(&hx, o);
    const int rc = hxhim::Open(&hx);
    if (rc == HXHIM_SUCCESS) {
        hxhim::Close(&hx);
    }
    return rc;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    expect(open_with(1, 1) == HXHIM_SUCCESS, "first Open");                      // only datastore 0 exists now
    expect(open_with(2, 0) != HXHIM_SUCCESS, "datastore 1 does not exist");
    expect(open_with(1, 0) == HXHIM_SUCCESS, "datastore 0 cannot be opened any more");
    expect(open_with(2, 1) == HXHIM_SUCCESS, "both datastores can be created");
    MPI_Finalize();
    return 0;
}
'''
