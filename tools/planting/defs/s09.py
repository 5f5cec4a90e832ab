prop='C02'
needs='one flush that talks to at least three remote range servers in the same round'
breaks='the responses of all but the first and the last remote server are lost, so those operations have no result'
edits=[('include/transport/backend/MPI/EndpointGroup.tpp','''                tail->next = brm;
                tail = brm;
''','''                tail->next = brm;
''')]
demo=r'''
// NP=4
// every PUT has a result, however many servers one flush has to talk to
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    MPI_Barrier(MPI_COMM_WORLD);
    std::vector<std::string> keys;
    for (int ds = 0; ds < g_size; ds++) keys.push_back(std::to_string(ds) + ":key" + std::to_string(g_rank));
    for (const std::string &k : keys) put(&hx, k, "p", "v");
    const size_t n = finish(hxhim::FlushPuts(&hx));
    expect(n == keys.size(), "results: " + std::to_string(n));
    for (const std::string &k : keys) hxhim::Get(&hx, ptr(k), k.size(), HXHIM_DATA_BYTE, (void *) "p", 1, HXHIM_DATA_BYTE, HXHIM_DATA_BYTE);
    const size_t g = finish(hxhim::FlushGets(&hx));
    expect(g == keys.size(), "GET results: " + std::to_string(g));
    MPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
