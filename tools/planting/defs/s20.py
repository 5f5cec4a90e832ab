prop='C05'
needs='a rank that closes while others are still issuing operations to it'
breaks='Close stops answering the other ranks before they have arrived at Close, so their operations never finish'
edits=[('src/hxhim/hxhim.cpp','''    if (comm != MPI_COMM_NULL) {
        MPI_Barrier(comm);
    }

    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
    destroy::running(hx);
''','''    destroy::running(hx);
    if (comm != MPI_COMM_NULL) {
        MPI_Barrier(comm);
    }

    mlog(HXHIM_CLIENT_DBG, "Rank %d No longer accepting user input", rank);
''')]
demo=r'''
// NP=2
// a rank that closes early still answers the ranks that have not closed yet
#include "common.hpp"

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    std::atomic<bool> done{false};
    std::thread watchdog;
    if (g_rank == 0) {
        watchdog = std::thread([&done]() {
            for (int i = 0; i < 200; i++) {
                if (done) return;
                pause_ms(100);
            }
            fail("operations on a rank that is closing never finish");
        });
        pause_ms(500);
        put(&hx, "1:k", "p", "v");
        expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
        std::string got;
        expect(get(&hx, "1:k", "p", got) && got == "v", "GET");
        done = true;
        watchdog.join();
    }
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
