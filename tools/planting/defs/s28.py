prop='C13'
needs='ranks that choose their own new data set names, one of which is the name that rank already uses'
breaks='a rank that already uses the new name leaves the collective change early, so the ranks fall out of step and the job hangs'
edits=[('src/hxhim/hxhim.cpp','''    // all ranks stop
    MPI_Barrier(hx->p->bootstrap.comm);

    decltype(hx->p->range_server.datastores) *rs_ds = &hx->p->range_server.datastores;
    rs_ds->basename = basename;
''','''    decltype(hx->p->range_server.datastores) *rs_ds = &hx->p->range_server.datastores;

    // nothing to reopen
    if (rs_ds->basename == basename) {
        return res;
    }

    // all ranks stop
    MPI_Barrier(hx->p->bootstrap.comm);

    rs_ds->basename = basename;
''')]
demo=r'''
// NP=2
// each rank may select its own new name
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.name = "a";
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string k = std::to_string(g_rank) + ":k";
    put(&hx, k, "p", "v");
    expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
    // the datastore of rank 0 stays, the other one is changed
    hxhim::Results::Destroy(hxhim::ChangeDatastoreName(&hx, g_rank?"b":"a", false, false, false));
    std::string v;
    expect(get(&hx, "0:k", "p", v) && v == "v", "the pair of the datastore that kept its name is missing");
    expect(!get(&hx, "1:k", "p", v), "the pair of the old data set is visible in the new one");
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
