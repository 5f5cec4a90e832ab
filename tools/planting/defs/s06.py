prop='C13'
needs='a rank that returns from ChangeDatastoreName and uses a datastore of a server that has not changed its datastores yet'
breaks='the collective change does not wait for all ranks any more: writes after it can land in the old data set'
edits=[('src/hxhim/hxhim.cpp','''                if (hists->find(hist_name) == hists->end()){
                    ds->AddHistogram(hist_name, hx->p->histograms.config);
                }
            }
        }
    }

    MPI_Barrier(hx->p->bootstrap.comm);
''','''                if (hists->find(hist_name) == hists->end()){
                    ds->AddHistogram(hist_name, hx->p->histograms.config);
                }
            }
        }
    }
''')]
demo=r'''
// NP=2
// a PUT after the change of the name is found in the new data set only
#include "common.hpp"

// rank 0, the server, is slow to leave barriers
extern "C" int MPI_Barrier(MPI_Comm c) {
    const int rc = PMPI_Barrier(c);
    if (g_active && g_rank == 0) {
        pause_ms(300);
    }
    return rc;
}

int main(int argc, char **argv) {
    start_mpi(&argc, &argv);
    hxhim_t hx;
    Opts o;
    o.client = 2;
    o.leveldb = 1;
    set_options(&hx, o);
    expect(hxhim::Open(&hx) == HXHIM_SUCCESS, "Open");
    const std::string s = "0:s", p = "p", v = "value";
    g_active = true;
    hxhim::Results::Destroy(hxhim::ChangeDatastoreName(&hx, "other", false, false, false));
    if (g_rank == 1) {
        put(&hx, s, p, v);
        expect(finish(hxhim::FlushPuts(&hx)) == 1, "PUT");
    }
    PMPI_Barrier(MPI_COMM_WORLD);
    g_active = false;
    if (g_rank == 1) {
        std::string got;
        pause_ms(700);
        expect(get(&hx, s, p, got) && got == v, "a PUT after the change is not in the new data set");
    }
    PMPI_Barrier(MPI_COMM_WORLD);
    hxhim::Close(&hx);
    MPI_Finalize();
    return 0;
}
'''
