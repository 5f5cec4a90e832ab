// Executes one incarnation of a plan: every rank is a simulated thread that
// runs its part of the program against the real library.
#include "plan.hpp"
#include "conf.hpp"
#include "api.hpp"
#include "simmpi.hpp"

#include <algorithm>
#include <cmath>
#include <cstdlib>
#include <cstring>
#include <set>
#include <unordered_map>

#include <mpi.h>
#include "hxhim/hxhim.hpp"
#include "utils/elen.hpp"
#include "hxhim/config.hpp"
#include "hxhim/options.hpp"
#include "hxhim/private/accessors.hpp"
#include "hxhim/private/Results.hpp"
#include "message/Unpacker.hpp"
#include "transport/backend/MPI/constants.h"

namespace sim { void alloc_init(); }
extern "C" uint32_t sim_p_spurious;

using namespace sim;
using std::string;
using std::vector;

extern "C" void (*sim_mlog_hook)(const char *text);

namespace {

const Plan *plan;
int g_inc, nranks;

// ------------------------------------------------------------ user buffers
struct Ident { int64_t id; };
std::unordered_map<const void *, int64_t> *identities;

struct Buf { char *p; size_t n; };

// what C23 knows about the session of a rank
struct Timing {
    struct Call { uint64_t op; int kind; bool bulk; int64_t t0, t1; size_t n, hits; };
    vector<Call> calls;           // that queued operations
    std::unordered_map<uint64_t, size_t> call_of;
    int64_t opened = 0, epoch = 0, flush_began = 0;
    size_t pending[5] = {}; bool vague[5] = {};       // results expected from the next flush of the kind; not known exactly
    size_t singles[5] = {}, bulks[5] = {}, singles_max[5] = {}, bulks_max[5] = {};
    size_t items[5] = {}, allocs[5] = {};             // results with timing records, and with that of a packet
    std::map<int, size_t> items_of[5];                // per datastore
    int64_t in_calls[2][5] = {};
    string summary;
    int summaries = 0;
    int session = 0;              // every rank opens the same ones
    struct Logged { size_t puts = 0, put_bytes = 0, gets = 0, get_bytes = 0; int lines = 0; };
    std::map<int, Logged> logged; // what the datastores of this rank said when they were closed
};

// what all ranks saw of a datastore in a session
struct Served { size_t puts = 0, put_bytes = 0, gets = 0, get_bytes = 0, getops = 0, undelivered = 0; };
std::map<int, std::map<int, Served>> served;
std::map<int, size_t> unsent, unsent_reads;           // per session: queued when it was closed

struct RankState {
    hxhim_t hx{};
    bool inited = false, open = false;
    vector<Buf> bufs[5];          // put get getop del hist
    size_t live_before = 0;
    uint64_t ops = 0;
    struct Held { hxhim::Results *res; hxhim_results_t *cres; uint64_t op; string text; vector<Buf> bufs[5]; int mask; };
    vector<Held> held;            // results that are kept for a while
    Timing time;
};
RankState *rs_;

int kind_index(const string &b) { return b == "put" ? 0 : b == "get" ? 1 : b == "getop" ? 2 : b == "del" ? 3 : 4; }

// exact-size heap copy of the bytes, so that overruns and late reads show
char *user_buf(RankState &r, int kind, const string &bytes, int64_t id) {
    char *p = new char[bytes.size()];
    memcpy(p, bytes.data(), bytes.size());
    r.bufs[kind].push_back({p, bytes.size()});
    if (id >= 0) (*identities)[p] = id;
    return p;
}
void drop_bufs(RankState &r, const vector<Buf> *old, int mask) {
    for (int k = 0; k < 5; k++) {
        if (!(mask >> k & 1)) continue;
        for (auto &b : old[k]) { identities->erase(b.p); delete[] b.p; }
    }
}
int64_t identify(const void *p) {
    auto it = identities->find(p);
    return it == identities->end() ? -1 : it->second;
}

// ------------------------------------------------------------ barrier of the driver
struct Barrier { int waiting = 0; uint64_t round = 0; } bar_;
void driver_barrier() {
    uint64_t my = bar_.round;
    if (++bar_.waiting == nranks) {
        bar_.waiting = 0;
        bar_.round++;
        wake(&bar_);
        return;
    }
    while (bar_.round == my) wait_on(&bar_, "driver barrier");
}

void ev(Event e) { e.rank = rank(); e.seq = seqno(); history_add(e); }

// ------------------------------------------------------------ hashes
// placement by content; args: number of datastores is asked from the library
int hash_fnv(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    size_t n = 0;
    hxhim::GetDatastoreCount(hx, &n);
    uint64_t h = 1469598103934665603ull ^ (uint64_t)(uintptr_t)args;
    for (size_t i = 0; i < sl; i++) h = (h ^ ((unsigned char *)s)[i]) * 1099511628211ull;
    h = (h ^ 0x100) * 1099511628211ull;
    for (size_t i = 0; i < pl; i++) h = (h ^ ((unsigned char *)p)[i]) * 1099511628211ull;
    return (int)(mix64(h) % (n ? n : 1));
}
// as above, by subject only, so that a range read finds its neighbours
int hash_subject(hxhim_t *hx, void *s, const size_t sl, void *, const size_t, void *args) {
    return hash_fnv(hx, s, sl, nullptr, 0, args);
}
// refuses some pairs
int hash_refuse(hxhim_t *hx, void *s, const size_t sl, void *p, const size_t pl, void *args) {
    if (sl && ((unsigned char *)s)[0] == 'r') return -1;
    return hash_fnv(hx, s, sl, p, pl, args);
}
// everything on the last datastore
int hash_last(hxhim_t *hx, void *, const size_t, void *, const size_t, void *) {
    size_t n = 0;
    hxhim::GetDatastoreCount(hx, &n);
    return (int)n - 1;
}
hxhim_hash_t hash_by_name(const string &n) {
    if (n == "fnv" || n == "fnv2") return hash_fnv;
    if (n == "subj") return hash_subject;
    if (n == "refuse") return hash_refuse;
    if (n == "last") return hash_last;
    if (n == "zero") return hxhim_hash_DatastoreZero;
    if (n == "sum") return hxhim_hash_SumModDatastores;
    if (n == "rank") return hxhim_hash_RankModDatastores;
    return nullptr;                   // one of the library, set by its name
}
hxhim_hash_t any_hash(const string &n) {
    if (hash_by_name(n)) return hash_by_name(n);
    auto it = hxhim::config::HASHES.find(n);
    return it == hxhim::config::HASHES.end() ? nullptr : it->second;
}
string hash_func_name(hxhim_hash_t f) {
    for (const char *n : {"fnv", "subj", "refuse", "last", "zero", "sum", "rank"}) if (hash_by_name(n) == f) return n;
    for (auto &h : hxhim::config::HASHES) if (h.second == f) return h.first;
    return "unknown";
}
string hash_args_name(void *p) { return p == (void *)77 ? "2" : p ? "?" : ""; }
void *hash_args(const string &n) { return n == "fnv2" ? (void *)77 : nullptr; }

// ------------------------------------------------------------ transform functions
struct XfExtra { int type, dir, mask; };
XfExtra xf_extra[2][8];
int xf_apply(bool enc, void *src, const size_t n, void **dst, size_t *dst_size, void *extra) {
    const XfExtra *x = (const XfExtra *)extra;
    if (!src || !dst || !dst_size || !x || x->dir != (enc ? 1 : 2)) return HXHIM_ERROR;
    string out;
    const string in((const char *)src, n);
    if (!(enc ? xf_encode(x->mask, x->type, in, &out) : xf_decode(x->mask, x->type, in, &out))) return HXHIM_ERROR;
    *dst_size = out.size();
    if (enc && out == in) { *dst = src; return HXHIM_SUCCESS; }   // encoded in place
    *dst = alloc(out.size());
    memcpy(*dst, out.data(), out.size());
    return HXHIM_SUCCESS;
}
int xf_enc(void *src, const size_t n, void **dst, size_t *dst_size, void *extra) { return xf_apply(true, src, n, dst, dst_size, extra); }
int xf_dec(void *src, const size_t n, void **dst, size_t *dst_size, void *extra) { return xf_apply(false, src, n, dst, dst_size, extra); }
// set first and then replaced: must never be called
int xf_stale(void *, const size_t, void **, size_t *, void *) { return HXHIM_ERROR; }
// a bucket generator of the user: the one it names, if it is called with its own argument
const string own_gens[] = {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10"};
int own_gen;
int own_buckets(const double *first, const size_t n, double **buckets, size_t *size, void *extra) {
    if (extra != &own_gen) return HISTOGRAM_ERROR;
    return hxhim::config::HISTOGRAM_BUCKET_GENERATORS.at(own_gens[own_gen])(first, n, buckets, size, hxhim::config::HISTOGRAM_BUCKET_GENERATOR_EXTRA_ARGS.at(own_gens[own_gen]));
}

// a setting that is valid has to be accepted
#define SET(call) do { const int set_rc = call; if (set_rc != HXHIM_SUCCESS) { Quiet q; violation("setting-refused", "rank %d: %s returned %d before Open", rank(), #call, set_rc); } } while (0)
int cfg_int(const char *k, long d) { return (int)plan->geti(g_inc, k, d); }
void set_transforms(hxhim_t *hx, int mask, bool decoy) {
    for (int type : {1, 2, 6, 7}) {
        if (!xf_custom(mask, type)) continue;
        if (decoy) SET(hxhim_set_transform_function(hx, (hxhim_data_t)type, xf_stale, nullptr, xf_stale, nullptr));
        XfExtra *e = &xf_extra[0][type], *d = &xf_extra[1][type];
        *e = {type, 1, mask};
        *d = {type, 2, mask};
        if (type == 1 && !cfg_int("xinplace", 0)) SET(hxhim_set_transform_function(hx, (hxhim_data_t)type, nullptr, nullptr, nullptr, nullptr));
        else SET(hxhim_set_transform_function(hx, (hxhim_data_t)type, xf_enc, e, xf_dec, d));
    }
}

// ------------------------------------------------------------ configuration

// names that start with % are different on each rank
string rank_name(const string &s) { return s.compare(0, 1, "%") ? s : s.substr(1) + "r" + std::to_string(rank()); }

bool configure_session(RankState &r) {
    hxhim_t *hx = &r.hx;
    r.hx.p = nullptr;
    int ok = hxhim::Init(hx, MPI_COMM_WORLD);
    if (ok != HXHIM_SUCCESS) return false;
    r.inited = true;
    string v;
    if (!conf_has("debug")) SET(hxhim_set_debug_level(hx, 0));
    if (!conf_has("client_ratio")) SET(hxhim_set_client_ratio(hx, cfg_int("client_ratio", 1)));
    if (!conf_has("server_ratio")) SET(hxhim_set_server_ratio(hx, cfg_int("server_ratio", 1)));
    if (!conf_has("per_server")) SET(hxhim_set_datastores_per_server(hx, cfg_int("per_server", 1)));
    SET(hxhim_set_open_init_datastore(hx, cfg_int("open_init", 1)));
    if (!conf_has("hist_io")) SET(hxhim_datastore_histograms(hx, cfg_int("hist_read", 1), cfg_int("hist_write", 1)));
    if (!conf_has("name")) SET(hxhim_set_datastore_name(hx, plan->get(g_inc, "prefix", SIMDISK "/db").c_str(), rank_name(plan->get(g_inc, "basename", "a")).c_str(), plan->get(g_inc, "postfix", "").c_str()));
    v = plan->get(g_inc, "backend", "mem");
    int create = cfg_int("create", 1);
    if (conf_has("backend")) {}
    else if (v == "mem") SET(hxhim_set_datastore_in_memory(hx));
    else if (v == "leveldb") SET(hxhim_set_datastore_leveldb(hx, create));
    else SET(hxhim_set_datastore_rocksdb(hx, create));
    v = plan->get(g_inc, "hash", "fnv");
    if (conf_has("hash")) {}
    else if (hash_by_name(v)) SET(hxhim_set_hash_function(hx, v.c_str(), hash_by_name(v), hash_args(v)));
    else SET(hxhim_set_hash_name(hx, v.c_str()));
    if (!conf_has("egroup") && (plan->get(g_inc, "egroup", "") != "" || plan->get(g_inc, "conf.egroup", "") != "")) {
        SET(hxhim_clear_endpoint_group(hx));
        const string g = plan->get(g_inc, "egroup", "");
        for (int i = 0; i < nranks; i++) if (g == "" || in_group(g, i)) SET(hxhim_add_endpoint_to_group(hx, i));
    }
    if (conf_has("transport")) {}
    else if (plan->get(g_inc, "transport", "mpi") == "null") SET(hxhim_set_transport_null(hx));
    else SET(hxhim_set_transport_mpi(hx, cfg_int("listeners", 1)));
    if (!conf_has("async")) SET(hxhim_set_start_async_puts_at(hx, cfg_int("async", 0)));
    if (!conf_has("max_ops") && cfg_int("max_ops", 0)) SET(hxhim_set_maximum_ops_per_request(hx, cfg_int("max_ops", 0)));
    if (!conf_has("max_size")) SET(hxhim_set_maximum_size_per_request(hx, cfg_int("max_size", 0)));
    if (!conf_has("first_n")) SET(hxhim_set_histogram_first_n(hx, cfg_int("first_n", 4)));
    v = plan->get(g_inc, "hist_gen", "");
    if (cfg_int("hist_fn", 0) && !conf_has("hist_gen")) {
        // the same, but as a function of the user with an argument of its own
        own_gen = 0;
        for (int i = 0; i < 7; i++) if (own_gens[i] == v) own_gen = i;
        SET(hxhim_set_histogram_bucket_gen_name(hx, v == "RICE_RULE" ? "UNIFORM_LOG2" : "RICE_RULE"));
        SET(hxhim_set_histogram_bucket_gen_function(hx, own_buckets, &own_gen));
    }
    else if (!v.empty() && !conf_has("hist_gen")) {
        if (rank() % 2) SET(hxhim_set_histogram_bucket_gen_name(hx, v));
        else {
            SET(hxhim_set_histogram_bucket_gen_function(hx, own_buckets, nullptr));
            SET(hxhim_set_histogram_bucket_gen_name(hx, v.c_str()));
        }
    }
    if (cfg_int("elen", 0) && !conf_has("elen")) SET(hxhim_set_transform_numeric_values(hx, elen::NEG_SYMBOL, elen::POS_SYMBOL, elen::encode::FLOAT_PRECISION, elen::encode::DOUBLE_PRECISION));
    if (cfg_int("xform", 0)) set_transforms(hx, cfg_int("xform", 0), cfg_int("xdecoy", 0));
    for (int i = 0; i < 3; i++) {
        v = plan->get(g_inc, "track" + std::to_string(i), "");
        if (!v.empty() && !conf_has("track")) { Elem e = parse_elem(v, 0, 0); if (i % 2) SET(hxhim_add_histogram_track_predicate(hx, e.bytes)); else SET(hxhim_add_histogram_track_predicate(hx, e.bytes.data(), e.bytes.size())); }
    }
    if (cfg_int("badset", 0)) {
        const string bad = api_invalid_settings(hx);
        if (!bad.empty()) violation("accepted-misuse", "%s", bad.c_str());
    }
    return true;
}

// ------------------------------------------------------------ results
void take(Event &e, string &dst, const void *p, size_t n) {
    if (p && n) dst.assign((const char *)p, n);
    (void)e;
}

// the two interfaces to results
struct CxxResults {
    hxhim::Results *r;
    bool valid() { return r; }
    size_t size() { return r->Size(); }
    void head() { r->GoToHead(); }
    bool more() { return r->ValidIterator(); }
    void next() { r->GoToNext(); }
    hxhim::Results *list() { return r; }
    int Op(hxhim_op_t *v) { return r->Op(v); }
    int Status(int *v) { return r->Status(v); }
    int RangeServer(int *v) { return r->RangeServer(v); }
    int Subject(void **p, size_t *n, hxhim_data_t *t) { return r->Subject(p, n, t); }
    int Predicate(void **p, size_t *n, hxhim_data_t *t) { return r->Predicate(p, n, t); }
    int Object(void **p, size_t *n, hxhim_data_t *t) { return r->Object(p, n, t); }
    int Hist(::Histogram::Histogram **h) { return r->Histogram(h); }
    bool hist(const char **, size_t *, double **, size_t **, size_t *) { return false; }
};
struct CResults {
    hxhim_results_t *r;
    bool valid() { return hxhim_results_valid(r) == HXHIM_SUCCESS; }
    size_t size() { size_t n = 0; hxhim_results_size(r, &n); return n; }
    void head() { hxhim_results_goto_head(r); }
    bool more() { return hxhim_results_valid_iterator(r) == HXHIM_SUCCESS; }
    void next() { hxhim_results_goto_next(r); }
    hxhim::Results *list() { return r->res; }
    int Op(hxhim_op_t *v) { return hxhim_result_op(r, v); }
    int Status(int *v) { return hxhim_result_status(r, v); }
    int RangeServer(int *v) { return hxhim_result_range_server(r, v); }
    int Subject(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_subject(r, p, n, t); }
    int Predicate(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_predicate(r, p, n, t); }
    int Object(void **p, size_t *n, hxhim_data_t *t) { return hxhim_result_object(r, p, n, t); }
    int Hist(::Histogram::Histogram **h) { return r->res->Histogram(h); }      // the values seen so far are only shown to C++
    bool hist(const char **name, size_t *nl, double **b, size_t **c, size_t *n) { return hxhim_result_histogram(r, name, nl, b, c, n) == HXHIM_SUCCESS; }
};

// ------------------------------------------------------------ timing records (C23)
int64_t vtime() { return (int64_t)(1700000000987654321ull + now_ns()); }         // what the clocks read
int64_t tick(const ::Stats::Chronopoint &p) { return std::chrono::duration_cast<std::chrono::nanoseconds>(p.time_since_epoch()).count(); }
bool timed() { return plan->prop == "C23"; }

const char *const KIND[5] = {"PUT", "GET", "GETOP", "DELETE", "HISTOGRAM"};
int kind_of(hxhim_op_t op) {
    return op == hxhim_op_t::HXHIM_PUT ? 0 : op == hxhim_op_t::HXHIM_GET ? 1 : op == hxhim_op_t::HXHIM_GETOP ? 2 : op == hxhim_op_t::HXHIM_DELETE ? 3 : op == hxhim_op_t::HXHIM_HISTOGRAM ? 4 : -1;
}

// what a datastore must have counted, whatever else it did
void tally(hxhim::Results *res, int k, int ds) {
    int st = -1;
    void *p = nullptr;
    size_t n = 0;
    hxhim_data_t t;
    Served &d = served[rs_[rank()].time.session][ds];
    res->Status(&st);
    const bool plain = cfg_int("xform", 0) == 0;
    auto bytes = [&](int rc) { return rc == HXHIM_SUCCESS && plain && t == hxhim_data_t::HXHIM_DATA_BYTE ? n : 0; };
    if (k == 0) {
        d.puts++;
        if (st == HXHIM_SUCCESS) { d.put_bytes += bytes(res->Subject(&p, &n, &t)); d.put_bytes += bytes(res->Predicate(&p, &n, &t)); }
    }
    else if (k == 1 || k == 2) {
        if (k == 1) d.gets++; else { d.getops++; d.gets += st == HXHIM_SUCCESS; }
        if (st == HXHIM_SUCCESS) d.get_bytes += bytes(res->Object(&p, &n, &t));
    }
    else if (k == 4) d.gets++;
}

// one result of flush `opid`; `got` counts the timing records of its kind
void check_timing(hxhim::Results *res, hxhim_op_t op, int rs, int64_t ident_s, uint64_t opid, size_t *got) {
    RankState &r = rs_[rank()];
    hxhim::Result::Timestamps *t = nullptr;
    if (res->Timestamps(&t) != HXHIM_SUCCESS || !t) { violation("no-timing", "a result of operation %llu has no timing record", (unsigned long long)opid); return; }
    const int64_t now = vtime(), begin = r.time.flush_began;
    const int64_t made0 = tick(t->recv.result.start), made1 = tick(t->recv.result.end);
    const int64_t h0 = tick(t->send.hash.start), h1 = tick(t->send.hash.end), i0 = tick(t->send.insert.start), i1 = tick(t->send.insert.end);
    auto &tr = t->transport;
    const int64_t seq[] = {h0, h1, i0, i1, tick(tr.start), tick(tr.pack.start), tick(tr.pack.end), tick(tr.send_start), tick(tr.recv_end), tick(tr.unpack.start), tick(tr.unpack.end),
                           tick(tr.cleanup_rpc.start), tick(tr.cleanup_rpc.end), tick(tr.end), made0, made1, now};
    static const char *const name[] = {"the start of hashing", "the end of hashing", "the start of queueing", "the end of queueing", "the start of the exchange", "the start of packing", "the end of packing", "the start of sending",
                                       "the end of receiving", "the start of unpacking", "the end of unpacking", "the start of the cleanup", "the end of the cleanup", "the end of the exchange", "the start of the result", "the end of the result", "the return of the flush"};
    if (op == hxhim_op_t::HXHIM_SYNC) {
        if (made0 < begin || made1 < made0 || made1 > now || h0 < begin || i1 < h0 || tick(tr.end) < tick(tr.start) || tick(tr.start) < begin || tick(tr.end) > now)
            violation("bad-timing", "the timing record of a SYNC result of operation %llu lies outside of the call", (unsigned long long)opid);
        return;
    }
    const int k = kind_of(op);
    if (k < 0) return;
    tally(res, k, rs);
    // the records of a GETOP share the timing of the first one
    if (k == 2 && !h0 && !made1) return;
    got[k]++;
    r.time.items[k]++;
    r.time.items_of[k][rs]++;
    // some datastores cannot be reached
    const bool cut = plan->get(g_inc, "transport", "mpi") == "null" || !plan->get(g_inc, "egroup", "").empty();
    if (!seq[4] && !cut) {
        violation("no-timing", "the %s result of operation %llu (datastore %d) says nothing about when it was sent and received", KIND[k], (unsigned long long)opid, rs);
        return;
    }
    for (int i = 0, last = -1; i < 17; i++) {
        if (i >= 4 && i < 14 && cut && !seq[i]) continue;            // it did not get there
        if (last >= 0 && seq[last] > seq[i]) {
            violation("bad-timing", "in a %s result of operation %llu (datastore %d) %s (%lld) is later than %s (%lld)", KIND[k], (unsigned long long)opid, rs, name[last], (long long)(seq[last] - r.time.opened), name[i], (long long)(seq[i] - r.time.opened));
            return;
        }
        last = i;
    }
    if (h0 < r.time.epoch) violation("bad-timing", "a %s result of operation %llu was hashed at %lld, before the epoch of the session (%lld)", KIND[k], (unsigned long long)opid, (long long)h0, (long long)r.time.epoch);
    // the call that queued it
    Timing::Call *c = nullptr;
    if (ident_s >= 0) {
        auto it = r.time.call_of.find((uint64_t)ident_s >> 24);
        if (it != r.time.call_of.end()) c = &r.time.calls[it->second];
        if (c && c->kind != k) c = nullptr;
        if (c && (h0 < c->t0 || i1 > c->t1)) {
            violation("wrong-timing", "the %s result of operation %llu says that it was queued at %lld-%lld, but it was at %lld-%lld", KIND[k], (unsigned long long)c->op, (long long)(h0 - r.time.opened), (long long)(i1 - r.time.opened), (long long)(c->t0 - r.time.opened), (long long)(c->t1 - r.time.opened));
            return;
        }
    } else {
        for (auto &x : r.time.calls) if (x.kind == k && h0 >= x.t0 && i1 <= x.t1) c = &x;
        if (!c) { violation("wrong-timing", "a %s result of operation %llu says that it was queued at %lld-%lld, when no such call was made", KIND[k], (unsigned long long)opid, (long long)(h0 - r.time.opened), (long long)(i1 - r.time.opened)); return; }
        if (++c->hits > c->n) { violation("wrong-timing", "%zu %s results say that they were queued by operation %llu, which queued %zu", c->hits, KIND[k], (unsigned long long)c->op, c->n); return; }
    }
    if (t->alloc) {
        r.time.allocs[k]++;
        const int64_t a0 = tick(t->alloc->start), a1 = tick(t->alloc->end);
        if (a0 > a1 || (c && (a0 < c->t0 || a1 > c->t1)))
            violation("wrong-timing", "the packet of a %s result of operation %llu says that it was allocated at %lld-%lld, which is not when its first operation was queued", KIND[k], (unsigned long long)opid, (long long)(a0 - r.time.opened), (long long)(a1 - r.time.opened));
    }
    if (k != 0 && seq[4] && seq[4] < begin) violation("bad-timing", "a %s of operation %llu was sent at %lld, before the flush at %lld", KIND[k], (unsigned long long)opid, (long long)(seq[4] - r.time.opened), (long long)(begin - r.time.opened));
}

void flush_timing(RankState &r, int mask, uint64_t opid, const size_t *got) {
    for (int k = 0; k < 5; k++) {
        if (!(mask >> k & 1)) { if (got[k]) violation("wrong-timing", "operation %llu returned %s results", (unsigned long long)opid, KIND[k]); continue; }
        if (!r.time.vague[k] && got[k] != r.time.pending[k]) violation("no-timing", "%zu %s were queued, and %zu results of operation %llu have timing records", r.time.pending[k], KIND[k], got[k], (unsigned long long)opid);
        r.time.pending[k] = 0;
        r.time.vague[k] = false;
    }
}

void mlog_text(const char *text) {
    int on = 0, ds = 0;
    size_t n = 0, bytes = 0;
    char what[8];
    if (sscanf(text, "Rank %d Datastore %d: %zu %7[A-Z]s (%zu bytes)", &on, &ds, &n, what, &bytes) == 5) {
        Quiet q;
        auto &l = rs_[rank()].time.logged[ds];
        if (string(what) == "PUT") { l.puts = n; l.put_bytes = bytes; } else { l.gets = n; l.get_bytes = bytes; }
        l.lines++;
        return;
    }
    if (!strstr(text, "Single Ops")) return;
    Quiet q;
    RankState &r = rs_[rank()];
    r.time.summary = text;
    r.time.summaries++;
}

// the summary that Close logs
void check_summary(RankState &r) {
    if (r.time.summaries != 1) { violation("summary", "Close logged %d summaries on rank %d", r.time.summaries, rank()); return; }
    std::istringstream in(r.time.summary);
    string line;
    int section = -1;
    std::map<string, int> kinds;
    for (int k = 0; k < 5; k++) kinds[KIND[k]] = k;
    size_t single[5] = {}, bulk[5] = {}, packets[5] = {}, out[5] = {};
    double fill[5] = {}, dur[2][5] = {};
    std::map<int, size_t> out_of[5];
    size_t max_ops = 0;
    while (getline(in, line)) {
        if (line.find("Single Ops") != string::npos) { section = 0; continue; }
        if (line.find("Bulk Ops") != string::npos) { section = 1; continue; }
        if (line.find("Fill Rate") != string::npos) { section = 2; continue; }
        if (line.find("Outgoing") != string::npos) { section = 3; continue; }
        char kind[64];
        if (section < 0 || sscanf(line.c_str(), " %63s", kind) != 1) continue;
        string kn = kind;
        if (kn.rfind("HXHIM_", 0) == 0) kn = kn.substr(6);
        if (kn == "DEL") kn = "DELETE";
        if (!kinds.count(kn)) continue;
        const int k = kinds[kn];
        size_t n = 0; double x = 0; int ds = 0;
        const char *rest = strstr(line.c_str(), kind) + strlen(kind);
        if (section < 2) {
            if (sscanf(rest, " count: %zu duration: %lf", &n, &x) < 2) continue;
            (section ? bulk : single)[k] = n;
            dur[section][k] = x;
        } else if (section == 2) {
            size_t mx = 0;
            if (sscanf(rest, " count: %zu average filled: %lf/%zu", &n, &x, &mx) < 3) continue;
            packets[k] = n; fill[k] = x; max_ops = mx;
        } else if (sscanf(rest, " -> %d: %zu", &ds, &n) == 2) { out[k] += n; out_of[k][ds] += n; }
    }
    auto bad = [&](const char *fmt, auto... a) { violation("summary", fmt, a...); };
    for (int k = 0; k < 5; k++) {
        if (single[k] < r.time.singles[k] || single[k] > r.time.singles_max[k]) return bad("the summary of rank %d counts %zu single %s calls, and %zu were made", rank(), single[k], KIND[k], r.time.singles_max[k]);
        if (bulk[k] < r.time.bulks[k] || bulk[k] > r.time.bulks_max[k]) return bad("the summary of rank %d counts %zu bulk %s calls, and %zu were made", rank(), bulk[k], KIND[k], r.time.bulks_max[k]);
        for (int b = 0; b < 2; b++)
            if (dur[b][k] < 0 || dur[b][k] > r.time.in_calls[b][k] / 1e9 + 0.002) return bad("the summary of rank %d says that its %s %s calls took %f s, and all of them took %f s", rank(), b ? "bulk" : "single", KIND[k], dur[b][k], r.time.in_calls[b][k] / 1e9);
        if (packets[k] != out[k]) return bad("the summary of rank %d counts %zu %s packets, and %zu by destination", rank(), packets[k], KIND[k], out[k]);
        // what the last flush, that of Close, sent had no results to count
        const size_t lo = r.time.items[k], hi = r.time.vague[k] ? SIZE_MAX : r.time.items[k] + r.time.pending[k];
        const double sum = fill[k] * packets[k], slack = packets[k] * 0.00051 + 0.01;
        if (sum + slack < lo || (hi != SIZE_MAX && sum - slack > hi) || (packets[k] ? !hi : lo))
            return bad("the summary of rank %d says that %zu %s packets were filled with %f operations on average, and %zu to %zu were sent", rank(), packets[k], KIND[k], fill[k], lo, hi);
        if (hi == lo && packets[k] != r.time.allocs[k]) return bad("the summary of rank %d counts %zu %s packets, and %zu results are the first of their packet", rank(), packets[k], KIND[k], r.time.allocs[k]);
        for (auto &d : r.time.items_of[k]) {
            const size_t n = out_of[k].count(d.first) ? out_of[k][d.first] : 0;
            if (!n || (max_ops && n * max_ops < d.second)) return bad("the summary of rank %d counts %zu %s packets for datastore %d, which answered %zu operations", rank(), n, KIND[k], d.first, d.second);
            if (hi == lo && n > d.second) return bad("the summary of rank %d counts %zu %s packets for datastore %d, which answered %zu operations", rank(), n, KIND[k], d.first, d.second);
        }
        if (hi == lo) for (auto &d : out_of[k]) if (!r.time.items_of[k].count(d.first)) return bad("the summary of rank %d counts %s packets for datastore %d, which answered nothing", rank(), KIND[k], d.first);
    }
    // every rank has got its results by now
    const bool cut = plan->get(g_inc, "transport", "mpi") == "null" || !plan->get(g_inc, "egroup", "").empty();
    for (auto &l : r.time.logged) {
        if (l.second.lines != 2) return bad("datastore %d logged %d summaries", l.first, l.second.lines);
        const Served &d = served[r.time.session][l.first];
        const size_t more = unsent[r.time.session], reads = unsent_reads[r.time.session];
        if (cut) continue;
        if (l.second.puts < d.puts || (more != SIZE_MAX && l.second.puts > d.puts + more)) return bad("datastore %d says that it had %zu PUTs, and it answered %zu", l.first, l.second.puts, d.puts);
        if (l.second.gets < d.gets || (reads != SIZE_MAX && !d.getops && l.second.gets > d.gets + reads)) return bad("datastore %d says that it had %zu GETs, and it answered %zu", l.first, l.second.gets, d.gets);
        if (l.second.put_bytes < d.put_bytes) return bad("datastore %d says that %zu bytes were PUT, and its keys alone had %zu", l.first, l.second.put_bytes, d.put_bytes);
        if (l.second.get_bytes < d.get_bytes) return bad("datastore %d says that GETs read %zu bytes, and they returned %zu", l.first, l.second.get_bytes, d.get_bytes);
    }
}

// Everything a caller can see of a result, read through the public accessors.
template <typename R> void record_results(R acc, uint64_t opid, int mask, vector<Event> *into = nullptr) {
    R *res = &acc;
    size_t got[5] = {};
    auto ev = [&](const Event &e) { if (into) into->push_back(e); else ::ev(e); };
    int64_t n = -1;
    if (res->valid()) {
        n = 0;
        const size_t size = res->size();
        for (res->head(); res->more(); res->next()) {
            Event e;
            e.type = EV_RESULT;
            e.op = opid;
            e.idx = n++;
            hxhim_op_t op = hxhim_op_t::HXHIM_INVALID;
            int status = 0, rs = -99;
            res->Op(&op);
            res->Status(&status);
            res->RangeServer(&rs);
            e.a = op; e.b = status; e.c = rs;
            if (op == hxhim_op_t::HXHIM_PUT || op == hxhim_op_t::HXHIM_GET || op == hxhim_op_t::HXHIM_DELETE || op == hxhim_op_t::HXHIM_GETOP) {
                void *p = nullptr; size_t len = 0; hxhim_data_t t = (hxhim_data_t)0;
                if (res->Subject(&p, &len, &t) == HXHIM_SUCCESS) {
                    e.d = identify(p); e.f |= (int64_t)t;
                    take(e, e.s0, p, len);
                }
                p = nullptr; len = 0; t = (hxhim_data_t)0;
                if (res->Predicate(&p, &len, &t) == HXHIM_SUCCESS) {
                    e.e = identify(p); e.f |= (int64_t)t << 8;
                    take(e, e.s1, p, len);
                }
                if (op == hxhim_op_t::HXHIM_GET || op == hxhim_op_t::HXHIM_GETOP) {
                    p = nullptr; len = 0; t = (hxhim_data_t)0;
                    if (res->Object(&p, &len, &t) == HXHIM_SUCCESS) {
                        e.f |= (int64_t)t << 16;
                        take(e, e.s2, p, len);
                    }
                }
            } else if (op == hxhim_op_t::HXHIM_HISTOGRAM && status == HXHIM_SUCCESS) {
                const char *name = nullptr; size_t name_len = 0, size = 0; double *buckets = nullptr; size_t *counts = nullptr;
                ::Histogram::Histogram *h = nullptr;
                if (res->Hist(&h) == HXHIM_SUCCESS && h) {
                    size_t first_n = 0, cached = 0; double *cache = nullptr;
                    h->get_name(&name, &name_len);
                    take(e, e.s0, name, name_len);
                    h->get_cache(&first_n, &cache, &cached);
                    if (h->get(&buckets, &counts, &size) == HISTOGRAM_SUCCESS && counts) {
                        e.d = 1;       // buckets exist
                        const char *cname = nullptr; size_t cname_len = 0, csize = 0; double *cb = nullptr; size_t *cc = nullptr;
                        if (res->hist(&cname, &cname_len, &cb, &cc, &csize)) { name = cname; name_len = cname_len; buckets = cb; counts = cc; size = csize; e.s0.clear(); take(e, e.s0, name, name_len); }
                        e.s1.assign((const char *)counts, size * sizeof *counts);
                        e.s2.assign((const char *)buckets, size * sizeof *buckets);
                    } else {
                        e.d = 0;
                        e.e = cached;
                        e.s2.assign((const char *)cache, cached * sizeof *cache);
                    }
                }
            }
            ev(e);
            if (timed() && !into) check_timing(res->list(), op, rs, op == hxhim_op_t::HXHIM_GETOP || op == hxhim_op_t::HXHIM_HISTOGRAM ? -1 : e.d, opid, got);
        }
        if ((size_t)n != size) violation("result-count", "a list of results says that it has %zu elements, and %lld are found in it (operation %llu)", size, (long long)n, (unsigned long long)opid);
    }
    Event e;
    e.type = EV_RESEND;
    e.op = opid;
    e.a = n;
    ev(e);
    if (timed() && !into && n >= 0) flush_timing(rs_[rank()], mask, opid, got);
}

// what a list of results says, as one string
string print_results(hxhim::Results *res, hxhim_results_t *cres, uint64_t opid) {
    vector<Event> v;
    if (cres) record_results(CResults{cres}, opid, 0, &v);
    else record_results(CxxResults{res}, opid, 0, &v);
    string s;
    for (auto &e : v) {
        for (int64_t x : {e.a, e.b, e.c, e.f}) s += std::to_string(x) + " ";
        for (const string *x : {&e.s0, &e.s1, &e.s2}) s += std::to_string(x->size()) + ":" + *x + " ";
        s += "\n";
    }
    return s;
}

// leaves the quiet mode of the driver for a call into the library
struct Loud {
    Loud();
    ~Loud();
};
} // namespace

namespace {
Loud::Loud() { sim::quiet_leave(); }
Loud::~Loud() { sim::quiet_enter(); }

// ------------------------------------------------------------ queueing calls
// whether this call goes through the C interface
bool use_c(const Op &op) { return cfg_int("capi", 0) && (mix64(op.id * 31 + 5) & 1); }
#define EITHER(cxx, c, ...) (capi ? c(__VA_ARGS__) : hxhim::cxx(__VA_ARGS__))

struct Args {
    vector<void *> s, p, o;
    vector<size_t> sl, pl, ol, nrec;
    vector<hxhim_data_t> st, pt, ot;
    vector<hxhim_put_permutation_t> perm;
    vector<hxhim_getop_t> getop;
    vector<int> rs;
    vector<double *> od;
    vector<float *> of;
    size_t n = 0;
};

int do_queue(RankState &r, const Op &op) {
    hxhim_t *hx = &r.hx;
    const string b = base_kind(op.kind);
    const int k = kind_index(b);
    auto tr = op.triples();
    // Argument arrays live exactly as long as the call; buffers until the flush.
    Args a;
    for (auto &t : tr) {
        auto mk = [&](const Elem &e, int which) -> void * {
            if (e.null) return nullptr;
            return user_buf(r, k, e.bytes, ident(op.id, t.idx, which));
        };
        a.s.push_back(mk(t.s, 0)); a.sl.push_back(t.s.bytes.size()); a.st.push_back((hxhim_data_t)t.s.type);
        a.p.push_back(mk(t.p, 1)); a.pl.push_back(t.p.bytes.size()); a.pt.push_back((hxhim_data_t)t.p.type);
        void *o = t.has_o ? mk(t.o, 2) : nullptr;
        a.o.push_back(o); a.ol.push_back(t.o.bytes.size());
        a.ot.push_back((hxhim_data_t)(t.has_o ? t.o.type : t.otype));
        a.od.push_back((double *)o); a.of.push_back((float *)o);
        a.perm.push_back((hxhim_put_permutation_t)t.perm);
        a.nrec.push_back(t.nrec); a.getop.push_back((hxhim_getop_t)t.getop);
        a.rs.push_back(t.rs);
        a.n++;
    }
    // heap copies of exact size for the arrays, to catch reads past the end
    auto arr = [&](auto &v) {
        using T = typename std::remove_reference<decltype(v[0])>::type;
        T *p = (T *)new char[v.size() * sizeof(T)];
        for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
        return p;
    };
    void **s = arr(a.s), **p = arr(a.p), **o = arr(a.o);
    size_t *sl = arr(a.sl), *pl = arr(a.pl), *ol = arr(a.ol), *nrec = arr(a.nrec);
    hxhim_data_t *st = arr(a.st), *pt = arr(a.pt), *ot = arr(a.ot);
    hxhim_put_permutation_t *perm = arr(a.perm);
    hxhim_getop_t *go = arr(a.getop);
    int *rs = arr(a.rs);
    double **od = arr(a.od);
    float **of = arr(a.of);
    int rc = -1;
    const bool bulk = op.kind[0] == 'b';
    if (timed()) {
        // before the call: PUTs can be sent while it runs
        size_t n = a.n;
        if (k == 0) { n = 0; for (auto x : a.perm) n += __builtin_popcount((unsigned)x & 63); }
        r.time.call_of[op.id] = r.time.calls.size();
        r.time.calls.push_back({op.id, k, bulk, vtime(), INT64_MAX, n, 0});
    }
    {
        Loud l;
        const string &kd = op.kind;
        const bool capi = use_c(op) || kd == "putc" || kd == "bputc" || kd == "getc";
        if (kd == "put") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Put, hxhimPut, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], o[i], ol[i], ot[i], perm[i]); }
        else if (kd == "putc") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Put, hxhimPut, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], o[i], ol[i], ot[i], perm[i]); }
        else if (kd == "putd") { for (size_t i = 0; i < a.n; i++) rc = EITHER(PutDouble, hxhimPutDouble, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], od[i], perm[i]); }
        else if (kd == "putf") { for (size_t i = 0; i < a.n; i++) rc = EITHER(PutFloat, hxhimPutFloat, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], of[i], perm[i]); }
        else if (kd == "bput") rc = EITHER(BPut, hxhimBPut, hx, s, sl, st, p, pl, pt, o, ol, ot, perm, a.n);
        else if (kd == "bputc") rc = EITHER(BPut, hxhimBPut, hx, s, sl, st, p, pl, pt, o, ol, ot, perm, a.n);
        else if (kd == "bputst") rc = EITHER(BPutSingleType, hxhimBPutSingleType, hx, s, sl, st, p, pl, pt, o, ol, ot[0], perm, a.n);
        else if (kd == "bputd") rc = EITHER(BPutDouble, hxhimBPutDouble, hx, s, sl, st, p, pl, pt, od, perm, a.n);
        else if (kd == "bputf") rc = EITHER(BPutFloat, hxhimBPutFloat, hx, s, sl, st, p, pl, pt, of, perm, a.n);
        else if (kd == "get") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Get, hxhimGet, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], ot[i]); }
        else if (kd == "getc") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Get, hxhimGet, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], ot[i]); }
        else if (kd == "getd") { for (size_t i = 0; i < a.n; i++) rc = EITHER(GetDouble, hxhimGetDouble, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i]); }
        else if (kd == "getf") { for (size_t i = 0; i < a.n; i++) rc = EITHER(GetFloat, hxhimGetFloat, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i]); }
        else if (kd == "bget") rc = EITHER(BGet, hxhimBGet, hx, s, sl, st, p, pl, pt, ot, a.n);
        else if (kd == "bgetst") rc = EITHER(BGetSingleType, hxhimBGetSingleType, hx, s, sl, st, p, pl, pt, ot[0], a.n);
        else if (kd == "bgetd") rc = EITHER(BGetDouble, hxhimBGetDouble, hx, s, sl, st, p, pl, pt, a.n);
        else if (kd == "bgetf") rc = EITHER(BGetFloat, hxhimBGetFloat, hx, s, sl, st, p, pl, pt, a.n);
        else if (kd == "getop") { for (size_t i = 0; i < a.n; i++) rc = EITHER(GetOp, hxhimGetOp, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], ot[i], nrec[i], go[i]); }
        else if (kd == "getopd") { for (size_t i = 0; i < a.n; i++) rc = EITHER(GetOpDouble, hxhimGetOpDouble, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], nrec[i], go[i]); }
        else if (kd == "getopf") { for (size_t i = 0; i < a.n; i++) rc = EITHER(GetOpFloat, hxhimGetOpFloat, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i], nrec[i], go[i]); }
        else if (kd == "bgetop") rc = EITHER(BGetOp, hxhimBGetOp, hx, s, sl, st, p, pl, pt, ot, nrec, go, a.n);
        else if (kd == "bgetopst") rc = EITHER(BGetOpSingleType, hxhimBGetOpSingleType, hx, s, sl, st, p, pl, pt, ot[0], nrec, go, a.n);
        else if (kd == "bgetopd") rc = EITHER(BGetOpDouble, hxhimBGetOpDouble, hx, s, sl, st, p, pl, pt, nrec, go, a.n);
        else if (kd == "bgetopf") rc = EITHER(BGetOpFloat, hxhimBGetOpFloat, hx, s, sl, st, p, pl, pt, nrec, go, a.n);
        else if (kd == "del") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Delete, hxhimDelete, hx, s[i], sl[i], st[i], p[i], pl[i], pt[i]); }
        else if (kd == "bdel") rc = EITHER(BDelete, hxhimBDelete, hx, s, sl, st, p, pl, pt, a.n);
        else if (kd == "hist") { for (size_t i = 0; i < a.n; i++) rc = EITHER(Histogram, hxhimHistogram, hx, rs[i], (const char *)p[i], pl[i]); }
        else if (kd == "bhist") rc = EITHER(BHistogram, hxhimBHistogram, hx, rs, (const char **)p, pl, a.n);
        else { Quiet q; harness_error("unknown operation %s", kd.c_str()); }
    }
    delete[] (char *)s; delete[] (char *)p; delete[] (char *)o; delete[] (char *)sl; delete[] (char *)pl; delete[] (char *)ol;
    delete[] (char *)nrec; delete[] (char *)st; delete[] (char *)pt; delete[] (char *)ot; delete[] (char *)perm; delete[] (char *)go;
    delete[] (char *)rs; delete[] (char *)od; delete[] (char *)of;
    if (timed()) {
        auto &c = r.time.calls.back();
        c.t1 = vtime();
        const bool sure = rc == HXHIM_SUCCESS && (bulk || a.n == 1);
        if (sure) r.time.pending[k] += c.n;
        else r.time.vague[k] = true;
        const size_t calls = bulk ? 1 : a.n;
        (bulk ? r.time.bulks_max : r.time.singles_max)[k] += calls;
        if (sure) (bulk ? r.time.bulks : r.time.singles)[k] += calls;
        r.time.in_calls[bulk][k] += c.t1 - c.t0;
    }
    return rc;
}

// ------------------------------------------------------------ flushing calls
void do_flush(RankState &r, const Op &op) {
    hxhim_t *hx = &r.hx;
    hxhim::Results *res = nullptr;
    hxhim_results_t *cres = nullptr;
    const int mask = flush_mask(op.kind);
    vector<Buf> old[5];
    for (int k = 0; k < 5; k++) if (mask >> k & 1) old[k].swap(r.bufs[k]);
    r.time.flush_began = vtime();
    {
        Loud l;
        const bool capi = use_c(op);
#define RESULTS(cxx, c, ...) (capi ? (void)(cres = c(__VA_ARGS__)) : (void)(res = hxhim::cxx(__VA_ARGS__)))
        if (op.kind == "flush") RESULTS(Flush, hxhimFlush, hx);
        else if (op.kind == "flushputs") RESULTS(FlushPuts, hxhimFlushPuts, hx);
        else if (op.kind == "flushgets") RESULTS(FlushGets, hxhimFlushGets, hx);
        else if (op.kind == "flushgetops") RESULTS(FlushGetOps, hxhimFlushGetOps, hx);
        else if (op.kind == "flushdels") RESULTS(FlushDeletes, hxhimFlushDeletes, hx);
        else if (op.kind == "flushhists") RESULTS(FlushHistograms, hxhimFlushHistograms, hx);
        else if (op.kind == "sync") RESULTS(Sync, hxhimSync, hx);
        else if (op.kind == "chname") {
            // base wh rh create
            const int wh = atoi(op.args[1].c_str()), rh = atoi(op.args[2].c_str()), create = atoi(op.args[3].c_str());
            const string name = rank_name(op.args[0]);
            if (capi) cres = hxhimChangeDatastoreName(hx, name.data(), name.size(), wh, rh, create);
            else res = hxhim::ChangeDatastoreName(hx, name, wh, rh, create);
        } else if (op.kind == "chhash") {
            if (capi) cres = hxhimChangeHash(hx, op.args[0].data(), op.args[0].size(), any_hash(op.args[1]), hash_args(op.args[1]));
            else res = hxhim::ChangeHash(hx, op.args[0], any_hash(op.args[1]), hash_args(op.args[1]));
        }
    }
    Event e;
    e.type = EV_RETURN;
    e.op = op.id;
    ev(e);
    if (cres) record_results(CResults{cres}, op.id, mask);
    else record_results(CxxResults{res}, op.id, mask);
    if (cfg_int("hold", 0) && mix64(op.id * 7 + 1) % 3 == 0 && (cres || res)) {
        r.held.push_back({res, cres, op.id, print_results(res, cres, op.id), {}, mask});
        for (int k = 0; k < 5; k++) r.held.back().bufs[k].swap(old[k]);         // results refer to the keys of the caller
    } else {
        Loud l;
        if (cres) hxhim_results_destroy(cres);
        else hxhim::Results::Destroy(res);
    }
    drop_bufs(r, old, mask);
}

// results belong to the caller: nothing that happened since changes them
void release_held(RankState &r, size_t keep) {
    while (r.held.size() > keep) {
        auto h = r.held.front();
        r.held.erase(r.held.begin());
        if (print_results(h.res, h.cres, h.op) != h.text) violation("results-changed", "the results of operation %llu on rank %d changed after they were returned", (unsigned long long)h.op, rank());
        {
            Loud l;
            if (h.cres) hxhim_results_destroy(h.cres);
            else hxhim::Results::Destroy(h.res);
        }
        drop_bufs(r, h.bufs, h.mask);
    }
}

int open_rc[64], agree_rc;

void init_session(RankState &r) {
    if (r.inited) return;
    Loud l;
    if (!configure_session(r)) { Quiet q; violation("init-error", "Init failed on rank %d", rank()); }
}

void run_op(RankState &r, const Op &op, int me) {
    Event inv;
    inv.type = EV_INVOKE;
    inv.op = op.id;
    const string b = base_kind(op.kind);
    if (!b.empty()) {
        if (!r.open) return;
        ev(inv);
        int rc = do_queue(r, op);
        Event e;
        e.type = EV_RETURN; e.op = op.id; e.a = rc;
        ev(e);
    } else if (flush_mask(op.kind) && op.kind != "close") {
        if (!r.open) return;
        ev(inv);
        do_flush(r, op);
        release_held(r, 6);
    } else if (op.kind == "open" || op.kind == "openone") {
        if (r.open) return;
        ev(inv);
        init_session(r);
        int rc;
        const int session = r.time.session + 1;
        r.time = Timing();
        r.time.session = session;
        r.time.opened = vtime();
        {
            Loud l;
            const bool capi = use_c(op);
            if (op.kind == "open") rc = EITHER(Open, hxhimOpen, &r.hx);
            else if (capi) rc = hxhimOpenOne(&r.hx, op.args[0].data(), op.args[0].size());
            else rc = hxhim::OpenOne(&r.hx, op.args[0]);
        }
        Event e;
        e.type = EV_RETURN; e.op = op.id; e.a = rc;
        ev(e);
        open_rc[me] = rc;
        driver_barrier();
        for (int i = 0; i < nranks; i++)
            if ((open_rc[i] == HXHIM_SUCCESS) != (open_rc[0] == HXHIM_SUCCESS))
                violation("open-disagrees", "Open returned %d on rank %d and %d on rank 0", open_rc[i], i, open_rc[0]);
        r.open = rc == HXHIM_SUCCESS;
        if (timed() && r.open) {
            struct timespec ts = {}, tc = {};
            ::Stats::Chronopoint cp;
            if (hxhim::GetEpoch(&r.hx, &ts) != HXHIM_SUCCESS || hxhimGetEpoch(&r.hx, &tc) != HXHIM_SUCCESS || hxhim::GetEpoch(&r.hx, cp) != HXHIM_SUCCESS) violation("epoch", "GetEpoch failed on rank %d", me);
            const int64_t a = ts.tv_sec * 1000000000ll + ts.tv_nsec, b = tc.tv_sec * 1000000000ll + tc.tv_nsec;
            if (a != b || a != tick(cp)) violation("epoch", "GetEpoch says %lld, %lld and %lld", (long long)a, (long long)b, (long long)tick(cp));
            // (ranks of a simulation share the variable that the epoch is kept in, so it is not compared between them)
            if (a <= 0 || a > vtime()) violation("epoch", "GetEpoch of rank %d says %lld at %lld", me, (long long)a, (long long)vtime());
            r.time.epoch = a;
        }
        if (!r.open) {
            r.inited = false;
            driver_barrier();
            if (me == 0) { mpi_check_clean("a failed Open"); fs_check_released("a failed Open"); }
            driver_barrier();
        } else if (me == 0) {
            size_t n = 0;
            hxhim::GetDatastoreCount(&r.hx, &n);
            Event i;
            i.type = EV_INFO; i.op = op.id; i.a = n;
            ev(i);
        }
    } else if (op.kind == "openmissing") {
        // some ranks do not find their datastores: Open fails everywhere
        if (r.open) return;
        ev(inv);
        init_session(r);
        if (op.args[0] == "*" || atoi(op.args[0].c_str()) == me) {
            if (op.args[1] == "leveldb") hxhim_set_datastore_leveldb(&r.hx, 0);
            else hxhim_set_datastore_rocksdb(&r.hx, 0);
            hxhim_set_datastore_name(&r.hx, SIMDISK "/db", "missing", "");
            hxhim_set_open_init_datastore(&r.hx, 1);
        }
        int rc;
        {
            Loud l;
            const bool capi = use_c(op);
            rc = EITHER(Open, hxhimOpen, &r.hx);
        }
        Event e;
        e.type = EV_RETURN; e.op = op.id; e.a = rc;
        ev(e);
        if (rc == HXHIM_SUCCESS) violation("open-error", "Open succeeded on rank %d although the datastores of rank %s do not exist", me, op.args[0].c_str());
        r.inited = false;
        driver_barrier();
        if (me == 0) {
            mpi_check_clean("a failed Open");
            fs_check_released("a failed Open");
            Event l;
            l.type = EV_LEAK; l.op = op.id; l.a = live_objects(); l.b = live_bytes();
            ev(l);
        }
        driver_barrier();
    } else if (op.kind == "close") {
        if (!r.open) return;
        ev(inv);
        if (timed()) {
            auto add = [](size_t &to, bool vague, size_t n) { to = vague || to == SIZE_MAX ? SIZE_MAX : to + n; };
            add(unsent[r.time.session], r.time.vague[0], r.time.pending[0]);
            for (int k : {1, 2, 4}) add(unsent_reads[r.time.session], r.time.vague[k] || (k == 2 && r.time.pending[k]), r.time.pending[k]);
        }
        int rc;
        {
            Loud l;
            const bool capi = use_c(op);
            rc = EITHER(Close, hxhimClose, &r.hx);
        }
        r.open = r.inited = false;
        if (timed()) check_summary(r);
        Event e;
        e.type = EV_RETURN; e.op = op.id; e.a = rc;
        ev(e);
        release_held(r, 0);
        vector<Buf> old[5];
        for (int k = 0; k < 5; k++) old[k].swap(r.bufs[k]);
        drop_bufs(r, old, M_ALL);
        driver_barrier();
        if (me == 0) {
            mpi_check_clean("Close");
            fs_check_released("Close");
            Event l;
            l.type = EV_LEAK; l.op = op.id; l.a = live_objects(); l.b = live_bytes();
            ev(l);
        }
        driver_barrier();
    } else if (op.kind == "init") {
        if (!r.open) init_session(r);
    } else if (op.kind == "abandon") {
        // never opened
        if (r.open || !r.inited) return;
        int rc;
        {
            Loud l;
            rc = mix64(op.id) & 1 ? hxhim::Close(&r.hx) : hxhimClose(&r.hx);
        }
        r.inited = false;
        if (rc != HXHIM_SUCCESS) violation("close-error", "Close of an instance that was not opened returned %d", rc);
        driver_barrier();
        if (me == 0) {
            mpi_check_clean("Close without Open");
            fs_check_released("Close without Open");
            Event l;
            l.type = EV_LEAK; l.op = op.id; l.a = live_objects(); l.b = live_bytes();
            ev(l);
        }
        driver_barrier();
    } else if (op.kind == "info") {
        vector<string> names;
        for (auto &a : op.args) names.push_back(parse_elem(a, 0, 0).bytes);
        Event e;
        e.type = EV_FACTS; e.op = op.id; e.a = r.open;
        {
            Loud l;
            e.s0 = api_info(&r.hx, mix64(op.id) & 1, nranks * cfg_int("per_server", 1) + 1, names, hash_func_name, hash_args_name);
        }
        ev(e);
    } else if (op.kind == "refuse") {
        string bad;
        {
            Loud l;
            if (r.open || !r.inited) bad = api_refuse_settings(&r.hx, r.open, mix64(op.id));
            if (!r.open && bad.empty()) bad = api_refuse_operations(&r.hx, r.inited, mix64(op.id));
        }
        if (!bad.empty()) violation("accepted-misuse", "rank %d, %s: %s", me, r.open ? "the session is open" : r.inited ? "initialized, not open" : "not initialized", bad.c_str());
    } else if (op.kind == "die") {
        crash_now(atoi(op.args[0].c_str()));
    } else if (op.kind == "bar") {
        driver_barrier();
    } else if (op.kind == "settle") {
        ev(inv);
        sleep_ns(1000000000ull); // longer than all delays
        Event e;
        e.type = EV_RETURN; e.op = op.id;
        ev(e);
    } else if (op.kind == "sleep") {
        sleep_ns(strtoull(op.args[0].c_str(), 0, 10) * 1000ull);
    } else {
        harness_error("unknown operation %s", op.kind.c_str());
    }
}

uint64_t op_counter;
CrashSpec crash_;

void rank_main(int me) {
    RankState &r = rs_[me];
    const Inc &n = plan->incs[g_inc];
    sim::quiet_enter();
    for (auto &op : n.ops) {
        if (op.rank >= 0 && op.rank != me) continue;
        if (op.rank >= nranks) continue;
        set_context(op.id);
        set_cover_tag((uint32_t)mix64(std::hash<string>()(op.kind)));
        if (++op_counter == crash_.at_op && crash_.at_op) crash_now(crash_.kind);
        progress();
        run_op(r, op, me);
    }
    sim::quiet_leave();
}

// ------------------------------------------------------------ packets
void packet(int src, int dst, int tag, const void *data, size_t len) {
    if (tag != TRANSPORT_MPI_DATA_REQUEST_TAG) return;
    Quiet q;
    string copy((const char *)data, len);
    Message::Request::Request *req = nullptr;
    if (Message::Unpacker::unpack(&req, &copy[0], len) != MESSAGE_SUCCESS || !req)
        violation("bad-packet", "request of %zu bytes from rank %d to rank %d cannot be decoded", len, src, dst);
    Event e;
    e.type = EV_PACKET;
    e.a = src; e.b = dst; e.c = req->dst; e.d = req->op; e.e = req->count; e.f = len;
    auto add = [&](void *s, void *p) {
        int64_t v[2] = {identify(s), identify(p)};
        e.s0.append((const char *)v, sizeof v);
    };
    for (size_t i = 0; i < req->count; i++) {
        if (req->op == hxhim_op_t::HXHIM_HISTOGRAM) continue;
        if (req->op == hxhim_op_t::HXHIM_GETOP) {
            auto g = static_cast<Message::Request::BGetOp *>(req);
            auto str = [](const Blob &b) { return b.data() ? string((const char *)b.data(), b.size()) : string(); };
            int64_t v[2] = {getop_print(g->ops[i], g->num_recs[i], g->object_types[i], str(g->subjects[i]), g->subjects[i].data_type(), str(g->predicates[i]), g->predicates[i].data_type()), 0};
            e.s0.append((const char *)v, sizeof v);
            continue;
        }
        auto sp = static_cast<Message::Request::SubjectPredicate *>(req);
        add(sp->orig.subjects[i], sp->orig.predicates[i]);
    }
    sh->c.req_packets++;
    if (req->count > 1) sh->c.req_multi++;
    delete req;
    ev(e);
}
} // namespace

[[noreturn]] void drive(const Plan &p, int inc) {
    plan = &p;
    g_inc = inc;
    nranks = (int)p.geti(inc, "ranks", 1);
    if (nranks < 1 || nranks > 16) harness_error("bad number of ranks");
    Strategy st = p.strategy(inc);
    const Inc &n = p.incs[inc];
    crash_ = n.crash;
    alloc_init();
    configure(st, n.crash, p.replay ? &n.choices : nullptr);
    mpi_configure(nranks, st.p_delay, st.max_delay, st.p_rendezvous, st.p_match);
    sim_p_spurious = st.p_spurious;
    fs_init();
    if (sh->disk_len) fs_load(sh->disk, sh->disk_len);
    *fs_faults = n.faults;
    fs_crash_at = n.crash.at_fsop;
    fs_crash_kind = n.crash.kind;
    conf_prepare(p, inc);
    on_mpi_send = packet;
    on_fault = [](int op, const string &path) {
        Event e;
        e.type = EV_FAULT; e.a = op; e.s0 = path;
        ev(e);
    };
    on_crash = [](int kind) {
        if (kind == 2) fs_power_loss();
        sh->disk_len = fs_save(sh->disk, DISK_CAP);
    };
    if (timed()) sim_mlog_hook = mlog_text;
    identities = new std::unordered_map<const void *, int64_t>();
    served.clear(); unsent.clear(); unsent_reads.clear();
    rs_ = new RankState[nranks];
    {
        Event e;
        e.type = EV_INC; e.a = inc;
        history_add(e);
    }
    run_ranks(nranks, rank_main);
    sh->disk_len = fs_save(sh->disk, DISK_CAP);
    sh->alloc_live = live_objects();
    finish(O_DONE);
}
