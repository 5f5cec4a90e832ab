prop='C04'
needs='two clients whose size and data messages interleave at one range server (size of A, then the whole request of B, then the data of A)'
breaks='the server takes the data of whichever client comes first for the size it just received: requests are mixed up or truncated'
edits=[('src/transport/backend/MPI/RangeServer.cpp','''MPI_Irecv(*data, *len, MPI_CHAR, status.MPI_SOURCE, TRANSPORT_MPI_DATA_REQUEST_TAG''','''MPI_Irecv(*data, *len, MPI_CHAR, MPI_ANY_SOURCE, TRANSPORT_MPI_DATA_REQUEST_TAG''')]
demo=r'''
// NP=3
// requests of two clients whose messages reach the server interleaved
#include "common.hpp"
#include "transport/backend/MPI/constants.h"

// rank 1 is slow between the size and the data of a request
extern "C" int MPI_Isend(const void *buf, int n, MPI_Datatype t, int dst, int tag, MPI_Comm c, MPI_Request *r) {
    if (g_active && g_rank == 1 && tag == TRANSPORT_MPI_DATA_REQUEST_TAG) {
        pause_ms(600);
    }
    return PMPI_Isend(buf, n, t, dst, tag, c, r);
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.client = 3;
    o.listeners = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    std::thread([]() { pause_ms(15000); fail("requests were lost"); }).detach();
    const std::string s = "0:" + std::to_string(g_rank), p = "predicate", v(g_rank == 1?40:4000, 'a' + g_rank);
    MPI_Barrier(MPI_COMM_WORLD);
    if (g_rank) {
        g_active = true;
        if (g_rank == 2) {
            pause_ms(200);
        }
        put(&hx, s, p, v);
        expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT failed");
        g_active = false;
    }
    MPI_Barrier(MPI_COMM_WORLD);
    if (g_rank) {
        std::string got;
        expect(get(&hx, s, p, got) && got == v, "wrong value");
    }
    MPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
