// Calls around a session: what it says about itself, and what must be refused
// before it is open, while it is open and after it was closed.
#include "api.hpp"
#include "sim.hpp"
#include "hxhim/RangeServer.hpp"
#include <cmath>
#include <sstream>
#include <cstring>
using std::string;
using std::to_string;
using std::vector;

string api_info(hxhim_t *hx, bool capi, int ids, const vector<string> &names, string (*func_name)(hxhim_hash_t), string (*args_name)(void *)) {
    string out;
    auto say = [&](const string &what, int rc, const string &value) { out += what + "=" + (rc == HXHIM_SUCCESS ? value : rc == HXHIM_ERROR ? "error" : "rc " + to_string(rc)) + "\n"; };
#define CALL(cxx, c, ...) (capi ? c(__VA_ARGS__) : hxhim::cxx(__VA_ARGS__))
    MPI_Comm comm = MPI_COMM_NULL;
    int rank = -7, size = -7, rc;
    rc = CALL(GetMPI, hxhimGetMPI, hx, &comm, &rank, &size);
    say("mpi", rc, to_string(rank) + "/" + to_string(size) + (comm == MPI_COMM_WORLD ? " world" : " other"));
    say("mpi none", CALL(GetMPI, hxhimGetMPI, hx, nullptr, nullptr, nullptr), "");
    int again = -7;
    rc = CALL(GetMPI, hxhimGetMPI, hx, nullptr, &again, nullptr);
    say("mpi rank", rc, to_string(again));
    size_t n = 77, m = 77;
    rc = CALL(GetRangeServerCount, hxhimGetRangeServerCount, hx, &n);
    say("servers", rc, to_string(n));
    rc = CALL(GetRangeServerClientToServerRatio, hxhimGetRangeServerClientToServerRatio, hx, &n, &m);
    say("ratio", rc, to_string(n) + ":" + to_string(m));
    rc = CALL(GetRangeServerClientToServerRatio, hxhimGetRangeServerClientToServerRatio, hx, nullptr, &m);
    say("ratio servers", rc, to_string(m));
    rc = CALL(GetDatastoreCount, hxhimGetDatastoreCount, hx, &n);
    say("datastores", rc, to_string(n));
    for (int id = -1; id <= ids; id++) {
        int r = -7, o = -7;
        rc = CALL(GetDatastoreLocation, hxhimGetDatastoreLocation, hx, id, &r, &o);
        say("location " + to_string(id), rc, to_string(r) + "+" + to_string(o));
        r = o = -7;
        rc = CALL(GetDatastoreLocation, hxhimGetDatastoreLocation, hx, id, id % 2 ? &r : nullptr, id % 2 ? nullptr : &o);
        say("location part " + to_string(id), rc, id % 2 ? to_string(r) : "+" + to_string(o));
    }
    const char *name = nullptr;
    hxhim_hash_t func = nullptr;
    void *args = nullptr;
    rc = CALL(GetHash, hxhimGetHash, hx, &name, &func, &args);
    say("hash", rc, string(name ? name : "none") + " " + (rc == HXHIM_SUCCESS ? func_name(func) + args_name(args) : ""));
    for (auto &t : names) {
        int exists = -7;
        rc = CALL(HaveHistogram, hxhimHaveHistogram, hx, t.data(), t.size(), &exists);
        say("histogram " + t, rc, exists == 0 ? "no" : exists > 0 ? "yes" : "none");
        if (CALL(HaveHistogram, hxhimHaveHistogram, hx, t.data(), t.size(), nullptr) != HXHIM_ERROR) out += "histogram without result was accepted\n";
    }
    // the stream belongs to the caller
    std::ostringstream print;
    const int same = CALL(GetMPI, hxhimGetMPI, hx, nullptr, nullptr, nullptr);
    if (hxhim::GetPrintBufferContents(hx, print) != same) out += "print buffer differs\n";
    if (!print.good()) out += "print buffer: the stream cannot be used any more\n";
#undef CALL
    return out;
}

// instances to call with: this one, and none
#define EACH(hx, initialized) for (hxhim_t *h : vector<hxhim_t *>(initialized ? vector<hxhim_t *>{hx} : vector<hxhim_t *>{hx, nullptr}))
#define REFUSE(call) do { if (bad.empty()) { const int rc = call; if (rc != HXHIM_ERROR) bad = string(#call) + " returned " + to_string(rc); } } while (0)
#define NOTHING(call) do { if (bad.empty()) { auto *r = call; if (r) { if (r->Size()) bad = string(#call) + " returned results"; else bad = string(#call) + " returned a list of results"; hxhim::Results::Destroy(r); } } } while (0)
#define CNOTHING(call) do { if (bad.empty()) { auto *r = call; if (hxhim_results_valid(r) == HXHIM_SUCCESS) bad = string(#call) + " returned a valid list of results"; hxhim_results_destroy(r); } } while (0)

namespace {
int refuse_all(hxhim_t *, void *, const size_t, void *, const size_t, void *) { return -1; }
int reject(void *, const size_t, void **, size_t *, void *) { return HXHIM_ERROR; }
int one_bucket(const double *, const size_t, double **, size_t *, void *) { return 0; }
} // namespace

string api_refuse_settings(hxhim_t *hx, bool initialized, uint64_t seed) {
    string bad;
    EACH(hx, initialized) {
        vector<std::function<void()>> calls = {
            [&] { REFUSE(hxhim_set_mpi_bootstrap(h, MPI_COMM_SELF)); },
            [&] { REFUSE(hxhim_set_debug_level(h, 1)); },
            [&] { REFUSE(hxhim_set_client_ratio(h, 7)); },
            [&] { REFUSE(hxhim_set_server_ratio(h, 9)); },
            [&] { REFUSE(hxhim_set_datastores_per_server(h, 5)); },
            [&] { REFUSE(hxhim_set_open_init_datastore(h, 0)); },
            [&] { REFUSE(hxhim_datastore_histograms(h, 0, 0)); },
            [&] { REFUSE(hxhim_set_datastore_name(h, "/nowhere", "wrong", "-wrong")); },
            [&] { REFUSE(hxhim_set_datastore_in_memory(h)); },
            [&] { REFUSE(hxhim_set_datastore_leveldb(h, 0)); },
            [&] { REFUSE(hxhim_set_datastore_rocksdb(h, 0)); },
            [&] { REFUSE(hxhim_set_hash_name(h, "RANK_MOD_DATASTORES")); },
            [&] { REFUSE(hxhim_set_hash_function(h, "wrong", refuse_all, nullptr)); },
            [&] { REFUSE(hxhim_set_transform_numeric_values(h, '~', '~', 1, 1)); },
            [&] { REFUSE(hxhim_set_transform_function(h, hxhim_data_t::HXHIM_DATA_BYTE, reject, nullptr, reject, nullptr)); },
            [&] { REFUSE(hxhim_set_transport_null(h)); },
            [&] { REFUSE(hxhim_set_transport_mpi(h, 3)); },
            [&] { REFUSE(hxhim_add_endpoint_to_group(h, 0)); },
            [&] { REFUSE(hxhim_clear_endpoint_group(h)); },
            [&] { REFUSE(hxhim_set_start_async_puts_at(h, 1)); },
            [&] { REFUSE(hxhim_set_start_async_puts_at(h, 0)); },
            [&] { REFUSE(hxhim_set_maximum_ops_per_request(h, 1)); },
            [&] { REFUSE(hxhim_set_maximum_size_per_request(h, 1)); },
            [&] { REFUSE(hxhim_set_histogram_first_n(h, 1)); },
            [&] { REFUSE(hxhim_set_histogram_bucket_gen_name(h, "STURGES_FORMULA")); },
            [&] { REFUSE(hxhim_set_histogram_bucket_gen_function(h, one_bucket, nullptr)); },
            [&] { REFUSE(hxhim_add_histogram_track_predicate(h, "wrong", 5)); },
            [&] { REFUSE(hxhim::Open(h)); },
            [&] { REFUSE(hxhimOpen(h)); },
            [&] { REFUSE(hxhim::OpenOne(h, "/nowhere/at-0")); },
            [&] { REFUSE(hxhimOpenOne(h, "/nowhere/at-0", 13)); },
        };
        const size_t from = seed % calls.size();
        for (size_t i = 0; i < calls.size(); i++) calls[(from + i) % calls.size()]();
    }
    return bad;
}

string api_refuse_operations(hxhim_t *hx, bool initialized, uint64_t seed) {
    string bad;
    char s[] = "subject", p[] = "predicate", o[] = "object";
    double d = 1;
    float f = 1;
    const hxhim_data_t t = hxhim_data_t::HXHIM_DATA_BYTE;
    const hxhim_put_permutation_t perm = HXHIM_PUT_SPO;
    const hxhim_getop_t eq = hxhim_getop_t::HXHIM_GETOP_EQ;
    void *ss[] = {s}, *ps[] = {p}, *os[] = {o};
    double *ds[] = {&d};
    float *fs[] = {&f};
    size_t sl[] = {7}, pl[] = {9}, ol[] = {6}, nrec[] = {1};
    hxhim_data_t ts[] = {t};
    hxhim_put_permutation_t perms[] = {perm};
    hxhim_getop_t eqs[] = {eq};
    int rs[] = {0};
    const char *names[] = {p};
    EACH(hx, initialized) {
#define BOTH(f, ...) [&] { REFUSE(hxhim::f(h, __VA_ARGS__)); }, [&] { REFUSE(hxhim##f(h, __VA_ARGS__)); }
        vector<std::function<void()>> calls = {
            BOTH(Put, s, 7, t, p, 9, t, o, 6, t, perm),
            BOTH(PutDouble, s, 7, t, p, 9, t, &d, perm),
            BOTH(PutFloat, s, 7, t, p, 9, t, &f, perm),
            BOTH(Get, s, 7, t, p, 9, t, t),
            BOTH(GetDouble, s, 7, t, p, 9, t),
            BOTH(GetFloat, s, 7, t, p, 9, t),
            BOTH(GetOp, s, 7, t, p, 9, t, t, 1, eq),
            BOTH(GetOpDouble, s, 7, t, p, 9, t, 1, eq),
            BOTH(GetOpFloat, s, 7, t, p, 9, t, 1, eq),
            BOTH(Delete, s, 7, t, p, 9, t),
            BOTH(BPut, ss, sl, ts, ps, pl, ts, os, ol, ts, perms, 1),
            BOTH(BPutSingleType, ss, sl, ts, ps, pl, ts, os, ol, t, perms, 1),
            BOTH(BPutDouble, ss, sl, ts, ps, pl, ts, ds, perms, 1),
            BOTH(BPutFloat, ss, sl, ts, ps, pl, ts, fs, perms, 1),
            BOTH(BGet, ss, sl, ts, ps, pl, ts, ts, 1),
            BOTH(BGetSingleType, ss, sl, ts, ps, pl, ts, t, 1),
            BOTH(BGetDouble, ss, sl, ts, ps, pl, ts, 1),
            BOTH(BGetFloat, ss, sl, ts, ps, pl, ts, 1),
            BOTH(BGetOp, ss, sl, ts, ps, pl, ts, ts, nrec, eqs, 1),
            BOTH(BGetOpSingleType, ss, sl, ts, ps, pl, ts, t, nrec, eqs, 1),
            BOTH(BGetOpDouble, ss, sl, ts, ps, pl, ts, nrec, eqs, 1),
            BOTH(BGetOpFloat, ss, sl, ts, ps, pl, ts, nrec, eqs, 1),
            BOTH(BDelete, ss, sl, ts, ps, pl, ts, 1),
            BOTH(Histogram, 0, p, 9),
            BOTH(BHistogram, rs, names, pl, 1),
            [&] { NOTHING(hxhim::FlushPuts(h)); }, [&] { CNOTHING(hxhimFlushPuts(h)); },
            [&] { NOTHING(hxhim::FlushGets(h)); }, [&] { CNOTHING(hxhimFlushGets(h)); },
            [&] { NOTHING(hxhim::FlushGetOps(h)); }, [&] { CNOTHING(hxhimFlushGetOps(h)); },
            [&] { NOTHING(hxhim::FlushDeletes(h)); }, [&] { CNOTHING(hxhimFlushDeletes(h)); },
            [&] { NOTHING(hxhim::FlushHistograms(h)); }, [&] { CNOTHING(hxhimFlushHistograms(h)); },
            [&] { NOTHING(hxhim::Flush(h)); }, [&] { CNOTHING(hxhimFlush(h)); },
            [&] { NOTHING(hxhim::Sync(h)); }, [&] { CNOTHING(hxhimSync(h)); },
            [&] { NOTHING(hxhim::ChangeHash(h, "x", refuse_all, nullptr)); }, [&] { CNOTHING(hxhimChangeHash(h, "x", 1, refuse_all, nullptr)); },
            [&] { NOTHING(hxhim::ChangeDatastoreName(h, "x", true, true, true)); }, [&] { CNOTHING(hxhimChangeDatastoreName(h, "x", 1, 1, 1, 1)); },
        };
#undef BOTH
        if (!initialized) {
            calls.push_back([&] { REFUSE(hxhim::Close(h)); });
            calls.push_back([&] { REFUSE(hxhimClose(h)); });
        }
        const size_t from = seed % calls.size();
        for (size_t i = 0; i < calls.size(); i++) calls[(from + i) % calls.size()]();
    }
    return bad;
}

string api_invalid_settings(hxhim_t *h) {
    string bad;
    REFUSE(hxhim_set_mpi_bootstrap(h, MPI_COMM_NULL));
    REFUSE(hxhim_set_client_ratio(h, 0));
    REFUSE(hxhim_set_server_ratio(h, 0));
    REFUSE(hxhim_set_datastores_per_server(h, 0));
    REFUSE(hxhim_set_hash_name(h, "NO_SUCH_HASH"));
    REFUSE(hxhim_set_hash_function(h, "wrong", nullptr, nullptr));
    REFUSE(hxhim_add_endpoint_to_group(h, -1));
    REFUSE(hxhim_set_histogram_bucket_gen_name(h, "NO_SUCH_GENERATOR"));
    REFUSE(hxhim_set_histogram_bucket_gen_function(h, nullptr, nullptr));
    return bad;
}
