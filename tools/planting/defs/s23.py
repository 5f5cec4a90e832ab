prop='C21'
needs='an endpoint group listed in a configuration source, and more than one rank'
breaks='the ranks of a configured endpoint group are added to the default group (all ranks) instead of replacing it'
edits=[('src/hxhim/config.cpp','''        hxhim_clear_endpoint_group(hx);
        if (endpointgroup->second == "ALL") {
''','''        if (endpointgroup->second == "ALL") {
            hxhim_clear_endpoint_group(hx);
''')]
demo=r'''
// NP=2
// ranks that the configured endpoint group does not list are not reachable
#include "common.hpp"

int main(int argc, char **argv) {
    setenv("HXHIM_ENDPOINTGROUP", "0", 1);
    setenv("HXHIM_ENDPOINT_GROUP", "0", 1);
    setenv("HXHIM_TRANSPORT_ENDPOINT_GROUP", "0", 1);
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    if (g_rank == 0) {
        put(&hx, "1:k", "p", "v");
        expect(finish(hxhim::FlushPuts(&hx)) == 0, "rank 1 is not part of the endpoint group");
        put(&hx, "0:k", "p", "v");
        expect(finish(hxhim::FlushPuts(&hx)) == 1, "rank 0 is reachable");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
