prop='C05'
needs='a rank whose writes to another server are flushed as part of the Sync after that server has already synced its datastores'
breaks='Sync no longer waits for the flushes of the other ranks before syncing: writes that were part of the collective Sync are not durable when it returns'
edits=[('src/hxhim/ops/SYNC.cpp','''    MPI_Barrier(hx->p->bootstrap.comm);

    decltype(hx->p->range_server) *rs = &hx->p->range_server;
    if (rs->id > -1) {''','''    decltype(hx->p->range_server) *rs = &hx->p->range_server;
    if (rs->id > -1) {'''),('src/hxhim/ops/SYNC.cpp','''            sync->timestamps.recv.result.end = ::Stats::now();
        }
    }

    return res;''','''            sync->timestamps.recv.result.end = ::Stats::now();
        }
    }

    // all datastores have been synced once everyone arrives
    MPI_Barrier(hx->p->bootstrap.comm);

    return res;''')]
demo=r'''
// NP=2
// a PUT flushed by a slow rank as part of the Sync is durable when Sync returns
#include "common.hpp"
#include <fcntl.h>
#include <sys/stat.h>
#include <unistd.h>

// size of the log file when it was synced the last time
static std::atomic<long> durable{0}, written{0};
extern "C" int fdatasync(int fd) {
    struct stat st;
    fstat(fd, &st);
    durable = st.st_size;
    return 0;
}

static long log_size(const std::string &dir) {
    long n = 0;
    FILE *f = popen(("cat " + dir + "/*.log | wc -c").c_str(), "r");
    expect(f && fscanf(f, "%ld", &n) == 1, "cannot read the datastore");
    pclose(f);
    return n;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.client = 2; // only rank 0 is a server
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string s = "0:s", p = "p", v = "value";
    if (g_rank == 1) {
        put(&hx, s, p, v);
        pause_ms(400);
    }
    expect(finish(hxhim::Sync(&hx)) == 1, "Sync");
    MPI_Barrier(MPI_COMM_WORLD);
    if (g_rank == 0) {
        const long n = log_size(scratch() + "/db/ds-0");
        expect(durable >= n, "Sync returned with " + std::to_string(n) + " bytes written but only " + std::to_string(durable) + " synced");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
