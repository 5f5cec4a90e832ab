// Judges the recorded history of a plan against small executable models.
#include "plan.hpp"

#include <algorithm>
#include <cmath>
#include <cstring>
#include <functional>
#include <set>
#include <sstream>
#include <unordered_map>
#include <unordered_set>

using std::map;
using std::string;
using std::vector;

namespace {

enum { R_PUT, R_GET, R_GETOP, R_DEL, R_SYNC, R_HIST };   // as in hxhim_op_t
const int OK = 3;                                        // HXHIM_SUCCESS
const int64_t INF = INT64_MAX / 2;

struct Fail { string cls, msg; };

string show(const string &b) {
    string s;
    char buf[8];
    for (size_t i = 0; i < b.size() && i < 40; i++) {
        unsigned char c = b[i];
        if (c >= 32 && c < 127 && c != '\\') s += c;
        else { snprintf(buf, sizeof buf, "\\x%02x", c); s += buf; }
    }
    if (b.size() > 40) { snprintf(buf, sizeof buf, "..."); s += buf; }
    return "\"" + s + "\"(" + std::to_string(b.size()) + ")";
}

struct Value {                // what a pair holds
    bool present = false;
    int type = 0;
    string bytes;
    bool operator==(const Value &o) const { return present == o.present && (!present || (type == o.type && bytes == o.bytes)); }
    bool operator<(const Value &o) const { return std::tie(present, type, bytes) < std::tie(o.present, o.type, o.bytes); }
    string str() const { return present ? "type " + std::to_string(type) + " " + show(bytes) : "absent"; }
};

// Floating point elements are stored with a configured number of digits, so
// they are compared at 6 and 12 significant digits (the workloads only write
// numbers with fewer).
string norm(int type, const string &b) {
    char buf[64];
    if (type == 5 && b.size() == 4) {
        float f;
        memcpy(&f, b.data(), 4);
        if (!std::isfinite(f)) return b;
        snprintf(buf, sizeof buf, "%.6g", (double)f);
        f = strtof(buf, nullptr);
        return string((const char *)&f, 4);
    }
    if (type == 6 && b.size() == 8) {
        double d;
        memcpy(&d, b.data(), 8);
        if (!std::isfinite(d)) return b;
        snprintf(buf, sizeof buf, "%.12g", d);
        d = strtod(buf, nullptr);
        return string((const char *)&d, 8);
    }
    return b;
}

struct Pair {
    int st = 0, pt = 0;
    string s, p;
    bool operator<(const Pair &o) const { return std::tie(s, p, st, pt) < std::tie(o.s, o.p, o.st, o.pt); }
    bool operator==(const Pair &o) const { return s == o.s && p == o.p && st == o.st && pt == o.pt; }
    string str() const { return "(" + show(s) + ":" + std::to_string(st) + "," + show(p) + ":" + std::to_string(pt) + ")"; }
};

// one queued request: a permutation of a PUT, a GET, a DELETE, ...
struct Item {
    int inc = 0, rank = 0, kind = 0;      // kind: index in flush mask order
    uint64_t op = 0;
    uint32_t idx = 0;
    int64_t ids = -1, idp = -1;           // identities expected in the result
    Pair key;
    Value val;                            // PUT
    string data_set;
    int64_t start = 0, flush_start = -1, end = INF;
    int64_t order = 0;                    // queueing order of the rank
    uint64_t flush_op = 0;
    int64_t limit = INF;                  // cannot take effect after this
    int64_t applied = INF;                // the background thread had enough PUTs and time to apply it by then
    bool flushed = false, have = false, maybe = false;
    bool refuse = false;                  // it cannot succeed: a transform function refuses one of its elements, or
    bool unreachable = false;             // its datastore cannot be reached from this rank
    int status = 0, rs = -1;
    Value got;
    Triple t;
    int hash_ds = -1;                     // expected placement, when known
    int wds = -1;                         // datastore of its set that holds it, when that is not its number in the session
    string hash;                          // placement function in force
    int seg = 0;                          // number of the data set change in the session
};

struct SyncPoint {                        // data of these datastores is durable
    int64_t start, end;
    string data_set;
    uint64_t op;
    std::set<int> ds;                     // empty: all
    bool all = false;
};

struct Seg {                              // use of one data set by one session
    string data_set;
    bool read = true, write = true, create = true, closed = false;
    int64_t start = 0, end_lo = 0, end_hi = 0;            // the collective that ended it
    vector<std::pair<int64_t, int64_t>> syncs;
};

struct Session {                          // one incarnation, digested
    vector<Seg> segs;
    vector<int64_t> opens;
    int inc = 0;
    vector<Item> items;
    vector<SyncPoint> syncs;
    bool crashed = false;
    int crash_kind = 0;
    int64_t end = 0;
};

uint64_t fnv_place(const string &s, const string &p, bool with_p, uint64_t salt, int n) {
    uint64_t h = 1469598103934665603ull ^ salt;
    for (unsigned char c : s) h = (h ^ c) * 1099511628211ull;
    h = (h ^ 0x100) * 1099511628211ull;
    if (with_p) for (unsigned char c : p) h = (h ^ c) * 1099511628211ull;
    return sim::mix64(h) % (n ? n : 1);
}
int place(const string &hash, const string &s, const string &p, int n, int rank) {
    if (hash == "rank") return rank % (n ? n : 1);
    if (hash == "fnv") return fnv_place(s, p, true, 0, n);
    if (hash == "fnv2") return fnv_place(s, p, true, 77, n);
    if (hash == "subj") return fnv_place(s, p, false, 0, n);
    if (hash == "last") return n - 1;
    if (hash == "zero") return 0;
    if (hash == "sum") { int v = 0; for (unsigned char c : s + p) v += c; return v % (n ? n : 1); }
    if (hash == "refuse") return !s.empty() && s[0] == 'r' ? -1 : (int)fnv_place(s, p, true, 0, n);
    return -2;                            // unknown
}

struct Topo {
    int ranks, cr, sr, per, servers, total;
    Topo(const Plan &p, int inc) {
        ranks = p.geti(inc, "ranks", 1);
        cr = p.geti(inc, "client_ratio", 1); sr = p.geti(inc, "server_ratio", 1); per = p.geti(inc, "per_server", 1);
        if (cr <= sr) servers = ranks;
        else servers = sr * (ranks / cr) + std::min(ranks % cr, sr);
        total = servers * per;
        if (p.get(inc, "one", "0") == "1") { servers = total = per = 1; }
    }
    int rank_of(int ds) const {
        int rs = ds / per;
        return sr >= cr ? rs : rs / sr * cr + rs % sr;
    }
    vector<int> of_rank(int r) const {
        vector<int> v;
        for (int i = 0; i < total; i++) if (rank_of(i) == r) v.push_back(i);
        return v;
    }
};

// order of operations on disk: subject, predicate, 0xff, lengths, types
string key_bytes(const Pair &k) {
    string s = k.s + k.p + '\xff';
    uint64_t a = k.s.size(), b = k.p.size();
    s.append((const char *)&a, 8);
    s.append((const char *)&b, 8);
    s += (char)k.st;
    s += (char)k.pt;
    return s;
}

struct Judge {
    const Plan &plan;
    const vector<Event> &hist;
    const RunInfo &info;
    map<string, uint64_t> &stats;
    vector<Session> sessions;
    vector<Fail> fails;
    bool has_faults = false;

    Judge(const Plan &p, const vector<Event> &h, const RunInfo &i, map<string, uint64_t> &s) : plan(p), hist(h), info(i), stats(s) {
        for (auto &n : p.incs) if (!n.faults.empty()) has_faults = true;
    }
    void fail(const string &cls, const string &msg) { fails.push_back({cls, msg}); }

    // sessions so far did not agree on the symbols numbers are encoded with, so what
    // depends on them may not be decodable any more
    bool mixed_numbers(int inc) {
        for (int i = 0; i < inc; i++) if (plan.get(i, "elen", "0") != plan.get(inc, "elen", "0")) return true;
        return false;
    }
    static bool symbol_bound(int type, const string &b) {
        if (type == 1 || type == 2) return !b.empty() && b.back() & 0x80;
        return type == 5 || type == 6;
    }
    int xform(int inc) { return plan.geti(inc, "xform", 0); }
    // -1: a placement function of the library, known only by its name
    static int placed(const string &hash, const string &s, const string &p, int n, int rank) { return std::max(place(hash, s, p, n, rank), -1); }
    // the rank may send requests to the server of this datastore
    bool reachable(int inc, const Topo &topo, int rank, int ds) {
        const int to = topo.rank_of(ds);
        if (to == rank) return true;
        if (plan.get(inc, "transport", "") == "null") return false;
        const string g = plan.get(inc, "egroup", "");
        return g.empty() || in_group(g, to);
    }
    // The default placement is by rank, so the same pair can live in several
    // datastores: what is known of a pair is then kept per datastore.
    bool split() { return plan.get(-1, "split", "0") == "1"; }
    string world_set(const Item &it) { return it.wds >= 0 ? it.data_set + "#" + std::to_string(it.wds) : it.hash == "rank" || split() ? it.data_set + "#" + std::to_string(it.hash_ds) : it.data_set; }
    static string plain_set(const string &set) { return set.substr(0, set.find('#')); }

    // Where the placement functions of the library put a pair is what the
    // results say, and they have to say the same everywhere.
    map<std::tuple<string, int, string, string>, std::pair<int, const Item *>> inferred;
    int where_is(const string &hash, const Pair &k, int n, int rank) {
        const int ds = place(hash, k.s, k.p, n, rank);
        if (ds != -2) return ds;
        auto f = inferred.find(std::make_tuple(hash, n, k.s, k.p));
        return f == inferred.end() ? -1 : f->second.first;
    }
    void infer_placement() {
        auto &at = inferred;
        auto key = [&](const Item &it) { return std::make_tuple(it.hash, Topo(plan, it.inc).total, it.key.s, it.t.p.null && it.kind != 0 ? string() : it.key.p); };
        for (auto &S : sessions) for (auto &it : S.items) {
            if (!it.have || it.hash_ds >= 0 || it.kind == 2 || it.kind == 4 || place(it.hash, "", "", 1, 0) != -2) continue;
            auto f = at.insert({key(it), {it.rs, &it}});
            stats["placements_inferred"]++;
            if (f.first->second.first != it.rs) {
                fail("wrong-server", "op " + std::to_string(it.op) + "." + std::to_string(it.idx) + " on " + it.key.str() + " went to datastore " + std::to_string(it.rs) + ", op " + std::to_string(f.first->second.second->op) + " to datastore " + std::to_string(f.first->second.first) + " with the same placement function (" + it.hash + ")");
                return;
            }
        }
        for (auto &S : sessions) for (auto &it : S.items) {
            if (it.hash_ds >= 0 || it.kind == 4 || place(it.hash, "", "", 1, 0) != -2) continue;
            auto f = at.find(key(it));
            if (f != at.end()) it.hash_ds = f->second.first;
        }
    }
    bool is_mem(int inc) { return plan.get(inc, "backend", "mem") == "mem"; }
    const Op *find_op(int inc, uint64_t id) {
        for (auto &o : plan.incs[inc].ops) if (o.id == id) return &o;
        return nullptr;
    }

    // faults of an incarnation can touch this datastore
    bool affected(int inc, int ds, const string &set) {
        for (auto &f : plan.incs[inc].faults) {
            if (f.match.empty()) return true;
            string dir = set + "-" + std::to_string(ds) + plan.get(inc, "postfix", "") + "/";
            if (f.match.find("-") == string::npos || f.match.find(dir) != string::npos || ("/" + dir).find(f.match) != string::npos) return true;
        }
        return false;
    }

    static Pair permuted(const Triple &t, uint32_t perm, Value *val, int *es, int *ep) {
        const Elem *e[3] = {&t.s, &t.p, &t.o};
        int a = 0, b = 1, c = 2;
        switch (perm) {
            case 0x01: a = 0; b = 1; c = 2; break;
            case 0x02: a = 0; b = 2; c = 1; break;
            case 0x04: a = 1; b = 0; c = 2; break;
            case 0x08: a = 1; b = 2; c = 0; break;
            case 0x10: a = 2; b = 0; c = 1; break;
            case 0x20: a = 2; b = 1; c = 0; break;
        }
        Pair k;
        k.s = e[a]->bytes; k.st = e[a]->type; k.p = e[b]->bytes; k.pt = e[b]->type;
        val->present = true; val->type = e[c]->type; val->bytes = norm(e[c]->type, e[c]->bytes);
        *es = a; *ep = b;
        return k;
    }

    // ------------------------------------------------------------ digest
    void digest() {
        int inc = -1;
        size_t i = 0;
        while (i < hist.size()) {
            if (hist[i].type != EV_INC) { i++; continue; }
            inc = hist[i].a;
            size_t j = i + 1;
            while (j < hist.size() && hist[j].type != EV_INC) j++;
            digest_inc(inc, i + 1, j);
            i = j;
        }
    }

    void digest_inc(int inc, size_t from, size_t to) {
        Session S;
        S.inc = inc;
        S.end = to;
        S.crashed = inc < (int)info.outcomes.size() && info.outcomes[inc] == sim::O_CRASHED;
        S.crash_kind = plan.incs[inc].crash.kind;
        Topo topo(plan, inc);
        struct RankQ {
            vector<size_t> pending[5];
            string set, hash;
            int64_t inv = -1;
            uint64_t cur = 0;
            vector<size_t> flushing;
            const Op *flush = nullptr;
            int64_t flush_ret = -1;
            vector<size_t> results;
            int64_t order = 0;
            bool in_call = false;
            int seg = -1;
            string hash_name;
            int wds = -1;                  // datastore of the set that the session has opened alone
            bool counted = false;          // pending[0] are all PUTs since nothing was waiting
            vector<size_t> due;            // PUTs that the background thread has to send without a flush
        };
        vector<RankQ> q(topo.ranks);
        for (auto &r : q) { r.set = plan.get(inc, "basename", "a"); r.hash = plan.get(inc, "hash", "fnv"); }
        map<uint64_t, vector<int64_t>> sync_inv;          // op -> invoke times
        map<uint64_t, map<int, int64_t>> sync_ret;
        map<uint64_t, map<int, vector<int>>> sync_status;
        map<uint64_t, string> sync_set;
        std::set<uint64_t> open_ops;

        auto queue_items = [&](RankQ &r, int rank, const Op *op, int64_t inv, bool accepted) {
            string b = base_kind(op->kind);
            int k = b == "put" ? 0 : b == "get" ? 1 : b == "getop" ? 2 : b == "del" ? 3 : 4;
            for (auto &t : op->triples()) {
                auto base = [&]() {
                    Item it;
                    it.inc = inc; it.rank = rank; it.kind = k; it.op = op->id; it.idx = t.idx; it.t = t;
                    it.start = inv; it.data_set = r.set; it.order = r.order++; it.maybe = !accepted; it.seg = r.seg; it.hash = r.hash; it.wds = r.wds;
                    return it;
                };
                if (refused(b, t, r.hash, topo)) continue;     // this element was not accepted
                auto add = [&](Item &it) {
                    const int xm = xform(inc);
                    if (k != 4) {
                        auto ok = [&](int type, const string &b) { Elem e; e.type = type; e.bytes = b; return xf_accepts(xm, e); };
                        it.refuse = !ok(it.key.st, it.key.s) || (!t.p.null && !ok(it.key.pt, it.key.p)) || (k == 0 && !ok(it.val.type, it.val.bytes));
                    }
                    if (k != 4) it.hash_ds = placed(r.hash, it.key.s, it.key.p, topo.total, rank);
                    if (k == 4) it.hash_ds = t.rs;
                    if (it.hash_ds >= 0 && !reachable(inc, topo, rank, it.hash_ds)) it.refuse = it.unreachable = true;
                    S.items.push_back(it);
                    r.pending[k].push_back(S.items.size() - 1);
                };
                if (k == 0) {
                    for (int bit = 0; bit < 6; bit++) {
                        if (!(t.perm >> bit & 1)) continue;
                        Item it = base();
                        int es, ep;
                        it.key = permuted(t, 1u << bit, &it.val, &es, &ep);
                        it.ids = ident(op->id, t.idx, es);
                        it.idp = ident(op->id, t.idx, ep);
                        add(it);
                    }
                } else {
                    Item it = base();
                    it.key.s = t.s.bytes; it.key.st = t.s.type; it.key.p = t.p.bytes; it.key.pt = t.p.type;
                    it.ids = ident(op->id, t.idx, 0);
                    it.idp = ident(op->id, t.idx, 1);
                    add(it);
                }
            }
        };

        auto enter = [&](RankQ &r, const Seg &g) {
            r.seg++;
            if (r.seg == (int)S.segs.size()) S.segs.push_back(g);
        };
        for (size_t h = from; h < to; h++) {
            const Event &e = hist[h];
            if (e.rank < 0 || e.rank >= topo.ranks) continue;
            RankQ &r = q[e.rank];
            if (e.type == EV_INVOKE) {
                r.inv = h;
                r.cur = e.op;
                r.in_call = true;
                const Op *op = find_op(inc, e.op);
                if (!op) continue;
                int mask = flush_mask(op->kind);
                if (mask) {
                    r.flush = op;
                    r.flushing.clear();
                    if (mask & 1) { r.counted = false; r.due.clear(); }
                    for (int k = 0; k < 5; k++) if (mask >> k & 1) {
                        for (size_t x : r.pending[k]) { S.items[x].flush_start = h; S.items[x].flush_op = op->id; r.flushing.push_back(x); }
                        r.pending[k].clear();
                    }
                    r.results.clear();
                    if (op->kind == "sync" || op->kind == "close" || op->kind == "chname" || op->kind == "chhash") {
                        if (r.seg >= 0 && r.seg < (int)S.segs.size()) {
                            Seg &g = S.segs[r.seg];
                            if (op->kind == "sync") { if (sync_inv[op->id].empty()) g.syncs.push_back({h, h}); g.syncs.back().first = h; }
                            else g.end_lo = h;
                        }
                        sync_inv[op->id].push_back(h);
                        sync_set[op->id] = r.set;
                    }
                }
            }
            else if (e.type == EV_RETURN) {
                r.in_call = false;
                const Op *op = find_op(inc, e.op);
                if (!op) continue;
                if (!base_kind(op->kind).empty()) {
                    // the valid elements of a bulk operation are queued in any case
                    if (e.a == OK || is_bulk(op->kind)) queue_items(r, e.rank, op, r.inv, true);
                    check_accept(e, *op, r.hash, topo);
                    // one batch may be sent early right after a flush, so twice the number is needed to be sure
                    const size_t at = plan.geti(inc, "async", 0);
                    if (r.counted && at && r.due.empty() && r.pending[0].size() + 1 >= 2 * at)
                        r.due.assign(r.pending[0].begin(), r.pending[0].begin() + std::min(at, r.pending[0].size()));
                }
                else if (op->kind == "settle") {
                    for (size_t x : r.due) { S.items[x].applied = std::min<int64_t>(S.items[x].applied, h); stats["due_puts"]++; }
                }
                else if (flush_mask(op->kind)) {
                    r.flush_ret = h;
                    if (flush_mask(op->kind) & 1) r.counted = true;
                    if (op->kind == "close") {
                        // work that was not flushed is dropped or done, not left for the next session
                        for (size_t x : r.flushing) { S.items[x].maybe = true; S.items[x].end = INF; S.items[x].limit = h; }
                        r.flushing.clear();
                        sync_ret[op->id][e.rank] = h;
                        if (e.a != OK && !has_faults) fail("close-error", "Close returned " + std::to_string(e.a) + " on rank " + std::to_string(e.rank));
                    }
                    if (op->kind == "sync" || op->kind == "chname" || op->kind == "chhash") sync_ret[op->id][e.rank] = h;
                    if (op->kind == "chname") { r.set = op->args[0]; r.wds = r.wds < 0 ? -1 : 0; }
                    if (op->kind == "chhash") { r.set = r.hash_name = op->args[0]; r.hash = op->args[1]; r.wds = r.wds < 0 ? -1 : 0; }
                    const int hw = plan.geti(inc, "hist_write", 1), hr = plan.geti(inc, "hist_read", 1);
                    if (r.seg >= 0 && r.seg < (int)S.segs.size()) {
                        Seg &g = S.segs[r.seg];
                        if (op->kind == "sync" && !g.syncs.empty()) g.syncs.back().second = h;
                        if (op->kind == "close" || op->kind == "chname" || op->kind == "chhash") {
                            g.end_hi = h; g.closed = true;
                            g.write = op->kind == "chname" ? atoi(op->args[1].c_str()) != 0 || hw : hw != 0;
                        }
                    }
                    if (op->kind == "chname" || op->kind == "chhash") {
                        Seg g;
                        g.data_set = r.set;
                        g.read = op->kind == "chname" ? atoi(op->args[2].c_str()) != 0 : hr != 0;
                        g.create = op->kind == "chname" ? atoi(op->args[3].c_str()) != 0 : true;
                        enter(r, g);
                    }
                }
                else if (op->kind == "open" || op->kind == "openone") {
                    r.set = plan.get(inc, "basename", "a");
                    r.hash = plan.get(inc, "hash", "fnv");
                    r.hash_name = r.hash;
                    r.wds = -1;
                    if (op->kind == "openone") { r.hash = "zero"; r.hash_name = "local"; r.set = plan.get(inc, "one_set", "a"); r.wds = plan.geti(inc, "one_ds", 0); }
                    if (e.a == OK) {
                        r.counted = true;
                        Seg g;
                        g.data_set = r.set;
                        g.read = plan.geti(inc, "hist_read", 1) != 0;
                        g.start = h;
                        enter(r, g);
                        if (open_ops.insert(op->id).second) S.opens.push_back(r.inv);
                    }
                    const bool expect_fail = plan.get(inc, "open_fails", "0") == "1";
                    if (e.a != OK && !has_faults && !expect_fail)
                        fail("open-error", "Open returned " + std::to_string(e.a) + " on rank " + std::to_string(e.rank));
                    // nothing went wrong while it ran: it has no reason to fail, whatever happened before
                    if (e.a != OK && !must_fail(*op)) {
                        bool fault = false, opening = false;
                        for (size_t x = from; x < h; x++) {
                            if (hist[x].type == EV_INVOKE && hist[x].op == op->id) opening = true;
                            if (hist[x].type == EV_FAULT && opening) fault = true;
                        }
                        if (!fault) fail("open-error", "Open returned " + std::to_string(e.a) + " on rank " + std::to_string(e.rank) + ", although no storage call failed while it ran");
                    }
                    if (e.a == OK && expect_fail && must_fail(*op))
                        fail("open-unexpected", "Open succeeded although a datastore cannot be opened");
                }
            }
            else if (e.type == EV_INFO) {
                if (e.a != topo.total) fail("wrong-count", "the session has " + std::to_string(e.a) + " datastores, expected " + std::to_string(topo.total));
            }
            else if (e.type == EV_FACTS) {
                if (const Op *op = find_op(inc, e.op)) check_facts(inc, e, *op, topo, r.hash_name, r.hash);
            }
            else if (e.type == EV_RESULT) {
                r.results.push_back(h);
            }
            else if (e.type == EV_RESEND) {
                if (!r.flush || r.flush->id != e.op) continue;
                if (e.a < 0) fail("null-results", r.flush->str() + " returned no result list on rank " + std::to_string(e.rank));
                match(S, r.flushing, r.results, *r.flush, e.rank, r.flush_ret, topo, sync_status[e.op][e.rank]);
                r.flushing.clear();
                r.flush = nullptr;
            }
        }
        // calls cut off by the crash
        for (int rk = 0; rk < topo.ranks; rk++) {
            RankQ &r = q[rk];
            if (r.in_call) {
                const Op *op = find_op(inc, r.cur);
                if (op && base_kind(op->kind) == "put") queue_items(r, rk, op, r.inv, false);
            }
            for (int k = 0; k < 5; k++) for (size_t x : r.pending[k]) S.items[x].maybe = true;
            for (size_t x : r.flushing) S.items[x].maybe = true;
        }
        // sync points
        for (auto &kv : sync_ret) {
            const uint64_t id = kv.first;
            const Op *op = find_op(inc, id);
            int64_t start = 0;
            for (int64_t t : sync_inv[id]) start = std::max(start, t);
            if ((int)sync_inv[id].size() < topo.ranks) continue;
            if (op->kind == "sync") {
                for (auto &rr : kv.second) {
                    vector<int> local = topo.of_rank(rr.first);
                    vector<int> &st = sync_status[id][rr.first];
                    if (st.size() != local.size()) {
                        // results were not all read yet when the run ended
                        if (!S.crashed) fail("sync-results", "Sync on rank " + std::to_string(rr.first) + " reported " + std::to_string(st.size()) + " datastores of " + std::to_string(local.size()));
                        continue;
                    }
                    SyncPoint sp;
                    sp.start = start; sp.end = rr.second; sp.data_set = sync_set[id]; sp.op = id;
                    for (size_t i = 0; i < local.size(); i++) {
                        if (st[i] == OK) sp.ds.insert(local[i]);
                        else if (!affected(inc, local[i], sync_set[id])) fail("spurious-error", "Sync of datastore " + std::to_string(local[i]) + " failed without a fault");
                    }
                    if (!sp.ds.empty()) S.syncs.push_back(sp);
                }
            } else if (!has_faults) {
                // every rank is through: the datastores have been closed
                if ((int)kv.second.size() < topo.ranks) continue;
                SyncPoint sp;
                sp.start = start; sp.end = 0; sp.data_set = sync_set[id]; sp.op = id; sp.all = true;
                for (auto &rr : kv.second) sp.end = std::max(sp.end, rr.second);
                if (op->kind == "close" || op->kind == "chname" || op->kind == "chhash") S.syncs.push_back(sp);
            }
        }
        sessions.push_back(std::move(S));
    }

    // arguments that no operation accepts, or that the hash has no place for
    static bool refused(const string &b, const Triple &t, const string &hash, const Topo &topo) {
        if (b == "hist") return t.rs < 0 || t.rs >= topo.total;
        if (b == "put") {
            if (t.s.null || t.p.null || t.o.null || t.s.bytes.empty() || t.p.bytes.empty() || t.o.bytes.empty()) return true;
            for (int bit = 0; bit < 6; bit++) {
                if (!(t.perm >> bit & 1)) continue;
                Value v;
                int es, ep;
                const Pair k = permuted(t, 1u << bit, &v, &es, &ep);
                if (place(hash, k.s, k.p, topo.total, 0) == -1) return true;
            }
            return false;
        }
        if (t.s.null || (b != "getop" && t.p.null)) return true;
        return place(hash, t.s.bytes, t.p.null ? "" : t.p.bytes, topo.total, 0) == -1;
    }
    void check_accept(const Event &e, const Op &op, const string &hash, const Topo &topo) {
        bool valid = true;
        for (auto &t : op.triples()) if (refused(base_kind(op.kind), t, hash, topo)) valid = false;
        if (valid && e.a != OK) fail("refused", op.str() + " returned " + std::to_string(e.a));
        if (!valid && e.a == OK) fail("accepted-invalid", op.str() + " was accepted");
    }

    static bool must_fail(const Op &op) { return std::count(op.args.begin(), op.args.end(), "must_fail"); }

    // ------------------------------------------------------------ what a session says about itself
    void check_facts(int inc, const Event &e, const Op &op, const Topo &topo, const string &hash_name, const string &hash) {
        using std::to_string;
        map<string, string> want;
        vector<string> track;
        for (int i = 0; i < 3; i++) { const string t = plan.get(inc, "track" + to_string(i), ""); if (t != "") track.push_back(parse_elem(t, 0, 0).bytes); }
        const bool open = e.a, one = plan.get(inc, "one", "0") == "1";
        const int cr = one ? 1 : topo.cr, sr = one ? 1 : topo.sr;
        auto fact = [&](const string &k, const string &v) { want[k] = open ? v : "error"; };
        fact("mpi", to_string(e.rank) + "/" + to_string(topo.ranks) + " world");
        fact("mpi none", "");
        fact("mpi rank", to_string(e.rank));
        fact("servers", to_string(topo.servers));
        fact("ratio", to_string(cr) + ":" + to_string(sr));
        fact("ratio servers", to_string(sr));
        fact("datastores", to_string(topo.total));
        const int ids = topo.ranks * (int)plan.geti(inc, "per_server", 1) + 1;
        for (int id = -1; id <= ids; id++) {
            const bool there = id >= 0 && id < topo.total;
            const string rk = there ? to_string(topo.rank_of(id)) : "", off = there ? "+" + to_string(id % topo.per) : "";
            fact("location " + to_string(id), there ? rk + off : "error");
            fact("location part " + to_string(id), there ? (id % 2 ? rk : off) : "error");
        }
        fact("hash", hash_name + " " + hash);
        for (auto &a : op.args) { const string n = parse_elem(a, 0, 0).bytes; fact("histogram " + n, std::count(track.begin(), track.end(), n) ? "yes" : "no"); }
        std::istringstream in(e.s0);
        string line;
        const string where = " on rank " + to_string(e.rank) + " (op " + to_string(op.id) + (open ? ")" : ", the session is not open)");
        while (std::getline(in, line)) {
            const size_t eq = line.find('=');
            const string k = line.substr(0, eq), v = eq == string::npos ? "" : line.substr(eq + 1);
            auto w = want.find(k);
            if (w == want.end()) { fail("wrong-fact", line + where); return; }
            if (w->second != v) { fail("wrong-fact", k + " is \"" + v + "\", expected \"" + w->second + "\"" + where); return; }
            want.erase(w);
            stats["facts"]++;
        }
        if (!want.empty()) fail("wrong-fact", want.begin()->first + " was not answered" + where);
    }

    // ------------------------------------------------------------ results <-> items
    void match(Session &S, vector<size_t> &flushing, vector<size_t> &results, const Op &flush, int rank, int64_t ret, const Topo &topo, vector<int> &sync_status) {
        std::multimap<std::tuple<int, int64_t, int64_t>, size_t> want;
        size_t want_getop = 0, want_hist = 0;
        uint64_t max_getop = 0;
        for (size_t x : flushing) {
            Item &it = S.items[x];
            it.end = std::min(ret, it.applied);
            it.flushed = true;
            if (it.kind == 2) { want_getop++; max_getop += std::max<uint64_t>(1, it.t.nrec); continue; }
            if (it.kind == 4) { want_hist++; continue; }
            int k = it.kind == 0 ? R_PUT : it.kind == 1 ? R_GET : R_DEL;
            want.insert({std::make_tuple(k, it.ids, it.idp), x});
        }
        size_t got_getop = 0, got_hist = 0;
        const string where = " (flush " + std::to_string(flush.id) + " " + flush.kind + " of rank " + std::to_string(rank) + ")";
        for (size_t h : results) {
            const Event &e = hist[h];
            stats["results"]++;
            if (e.b != OK && e.b != 4) fail("bad-status", "result with status " + std::to_string(e.b) + where);
            if (e.a == R_SYNC) {
                sync_status.push_back(e.b);
                if (flush.kind != "sync" && flush.kind != "chname" && flush.kind != "chhash") fail("extra-result", "SYNC result" + where);
                if (e.c != rank) fail("wrong-server", "SYNC result of " + std::to_string(e.c) + where);
                continue;
            }
            if (e.c < 0 || e.c >= topo.total) fail("wrong-server", "result with range server " + std::to_string(e.c) + " of " + std::to_string(topo.total) + where);
            if (e.a == R_GETOP) { got_getop++; continue; }
            if (e.a == R_HIST) { got_hist++; continue; }
            auto it = want.find(std::make_tuple((int)e.a, e.d, e.e));
            if (it == want.end()) {
                std::ostringstream m;
                m << "result of kind " << e.a << " status " << e.b << " for " << show(e.s0) << "," << show(e.s1) << " (op " << (e.d >> 24) << "." << (e.d >> 2 & 0xfffff) << ") matches no operation being flushed" << where;
                fail("extra-result", m.str());
                continue;
            }
            Item &item = S.items[it->second];
            want.erase(it);
            item.have = true;
            item.status = e.b;
            item.rs = e.c;
            if (e.s0 != item.key.s || (int)(e.f & 255) != item.key.st || e.s1 != item.key.p || (int)(e.f >> 8 & 255) != item.key.pt)
                fail("wrong-key", "result for " + item.key.str() + " carries " + show(e.s0) + ":" + std::to_string(e.f & 255) + "," + show(e.s1) + ":" + std::to_string(e.f >> 8 & 255) + where);
            if (item.hash_ds >= 0 && item.rs != item.hash_ds)
                fail("wrong-server", "result for " + item.key.str() + " says datastore " + std::to_string(item.rs) + ", the hash says " + std::to_string(item.hash_ds) + where);
            if (item.kind == 1 && e.b == OK) { item.got.present = true; item.got.type = e.f >> 16 & 255; item.got.bytes = norm(item.got.type, e.s2); }
            if (item.unreachable) {
                stats["unreachable"]++;
                if (e.b == OK) fail("wrong-server", "operation on " + item.key.str() + " succeeded although datastore " + std::to_string(item.hash_ds) + " cannot be reached from this rank" + where);
                continue;
            }
            if (item.refuse) {
                stats["refused_by_transform"]++;
                if (e.b == OK) fail("transform-ignored", string(item.kind == 0 ? "PUT" : item.kind == 1 ? "GET" : "DELETE") + " of " + item.key.str() + (item.kind == 0 ? " with " + item.val.str() : "") + " succeeded although it cannot be encoded" + where);
                continue;
            }
            if (item.kind == 1 && e.b == OK && !xf_readable(xform(S.inc), item.got.type, item.got.bytes)) fail("transform-ignored", "GET of " + item.key.str() + " returned " + item.got.str() + ", which the transform function does not decode" + where);
            if (e.b != OK && item.kind != 1) {
                if (!affected(S.inc, item.rs, item.data_set) && !(is_mem(S.inc) && item.kind == 3))
                    fail("spurious-error", string(item.kind == 0 ? "PUT" : "DELETE") + " of " + item.key.str() + " failed without a fault" + where);
                stats["failed_ops"]++;
            }
        }
        for (auto &w : want) {
            Item &it = S.items[w.second];
            fail("lost-result", string(it.kind == 0 ? "PUT" : it.kind == 1 ? "GET" : "DELETE") + " of " + it.key.str() + " (op " + std::to_string(it.op) + "." + std::to_string(it.idx) + ") has no result" + where);
        }
        if (got_getop < want_getop && !has_faults) {
            // every GETOP answers with at least one record or an error record
            bool strict = true;
            for (size_t x : flushing) if (S.items[x].kind == 2 && S.items[x].t.nrec == 0) strict = false;
            if (strict && plan.prop != "C10") fail("lost-result", std::to_string(want_getop) + " GETOPs queued, " + std::to_string(got_getop) + " results" + where);
        }
        if (got_getop && !want_getop) fail("extra-result", "GETOP result although none was queued" + where);
        if (got_getop > max_getop) fail("extra-result", std::to_string(got_getop) + " GETOP records, at most " + std::to_string(max_getop) + " were asked for" + where);
        if (got_hist != want_hist) fail(got_hist < want_hist ? "lost-result" : "extra-result", std::to_string(want_hist) + " histograms queued, " + std::to_string(got_hist) + " results" + where);
        if (want_hist || got_hist) { match_hist(S, flushing, results, where); hist_calls.push_back({S.inc, rank, ret, flush.id, flushing, results}); }
        if (want_getop || got_getop) getop_calls.push_back({S.inc, rank, ret, flush.id, flushing, results});
    }
    void match_hist(Session &S, vector<size_t> &flushing, vector<size_t> &results, const string &where) {
        // per datastore and name
        map<int, int> n;
        for (size_t x : flushing) if (S.items[x].kind == 4) n[S.items[x].t.rs]++;
        for (size_t h : results) if (hist[h].a == R_HIST) n[hist[h].c]--;
        for (auto &k : n) if (k.second) fail("wrong-server", "histogram results of datastore " + std::to_string(k.first) + " differ by " + std::to_string(-k.second) + where);
        map<std::pair<int, string>, int> names;
        for (size_t x : flushing) if (S.items[x].kind == 4) names[{S.items[x].t.rs, S.items[x].t.p.bytes}]++;
        for (size_t h : results) if (hist[h].a == R_HIST && hist[h].b == OK) {
            if (names[{(int)hist[h].c, hist[h].s0}]-- <= 0) fail("extra-result", "histogram " + show(hist[h].s0) + " of datastore " + std::to_string(hist[h].c) + " was not asked for" + where);
        }
    }
    struct GetopCall { int inc, rank; int64_t ret; uint64_t flush; vector<size_t> items, results; };
    vector<GetopCall> getop_calls, hist_calls;

    // ------------------------------------------------------------ linearizability per pair
    struct LOp {
        int64_t start, end, limit = INF;
        bool write = false, optional = false, sync = false, error = false;
        int val = 0;
        uint64_t preds = 0;
        const Item *item = nullptr;
        uint64_t id = 0;
    };
    struct St { int cur; uint64_t dur; bool operator<(const St &o) const { return std::tie(cur, dur) < std::tie(o.cur, o.dur); } };

    // map (data set, pair) -> possible states, values by index into vals
    struct KeyState { vector<Value> vals{Value()}; std::set<St> st{{0, 1}}; bool any = false; };   // any: too many possibilities to say
    map<std::pair<string, Pair>, KeyState> world;
    map<int, map<std::pair<string, Pair>, KeyState>> before;   // as it was when an incarnation started

    int vid(KeyState &k, const Value &v) {
        for (size_t i = 0; i < k.vals.size(); i++) if (k.vals[i] == v) return i;
        k.vals.push_back(v);
        return k.vals.size() - 1;
    }

    // values no state refers to go away; what is left is renumbered, absent stays 0
    static void compact(KeyState &k) {
        uint64_t used = 1;
        for (auto &s : k.st) used |= s.dur | 1ull << s.cur;
        vector<int> to(k.vals.size(), 0);
        vector<Value> vals;
        for (size_t i = 0; i < k.vals.size(); i++) if (used >> i & 1) { to[i] = vals.size(); vals.push_back(k.vals[i]); }
        std::set<St> st;
        for (auto &s : k.st) {
            uint64_t dur = 0;
            for (size_t i = 0; i < k.vals.size(); i++) if (s.dur >> i & 1) dur |= 1ull << to[i];
            st.insert({to[s.cur], dur});
        }
        k.vals.swap(vals);
        k.st.swap(st);
    }

    void linearize_all() {
        for (auto &S : sessions) {
            for (auto &it : S.items) if (it.kind == 2 && !is_mem(S.inc)) { before[S.inc] = world; break; }
            map<std::pair<string, Pair>, vector<const Item *>> by;
            for (auto &it : S.items) {
                if (it.kind != 0 && it.kind != 1 && it.kind != 3) continue;
                if (it.refuse) continue;
                if (it.kind == 1 && (!it.have)) continue;
                by[{world_set(it), it.key}].push_back(&it);
            }
            // pairs not touched in this incarnation keep their state, but a crash acts on them
            for (auto &w : world) if (!by.count(w.first)) by[w.first];
            for (auto &kv : by) {
                linearize(S, kv.first.first, kv.first.second, kv.second);
                if (fails.size()) return;
            }
        }
    }

    void linearize(Session &S, const string &wset, const Pair &key, vector<const Item *> &items) {
        KeyState &K = world[{wset, key}];
        const string set = plain_set(wset);
        const bool mem = is_mem(S.inc), volatile_backend = mem;
        if (volatile_backend && S.inc > 0) { K.st = {{0, 1}}; K.any = false; }
        if (K.any) return;
        compact(K);
        vector<LOp> ops;
        int ds = -1;
        for (auto *it : items) if (it->have) ds = it->rs; else if (it->hash_ds >= 0) ds = it->hash_ds;
        if (set.size() < wset.size()) ds = plan.get(S.inc, "one", "0") == "1" ? 0 : atoi(wset.c_str() + set.size() + 1);
        for (auto *it : items) {
            LOp o;
            o.item = it;
            o.start = it->kind == 0 ? it->start : it->flush_start;
            if (o.start < 0) continue;                      // never flushed: not applied
            o.end = it->end;
            o.limit = it->limit;
            if (it->kind == 3 && mem && it->have && it->status != OK && !it->maybe && !affected(S.inc, it->rs, set)) {
                o.val = 0;                                  // the pair was not there
            } else if (it->kind == 1) {
                if (it->status != OK && affected(S.inc, it->rs, set)) continue;
                o.val = vid(K, it->got);
                o.error = it->status != OK;
            } else {
                o.write = true;
                o.val = it->kind == 0 ? vid(K, it->val) : 0;
                if (!it->flushed || !it->have || it->maybe) { o.optional = true; o.end = INF; }
                else if (it->status != OK) {
                    o.optional = true;
                    o.end = INF;
                }
            }
            ops.push_back(o);
        }
        for (auto &sp : S.syncs) {
            if (sp.data_set != set) continue;
            if (!sp.all && (ds < 0 || !sp.ds.count(ds))) continue;
            LOp o;
            o.sync = true; o.start = sp.start; o.end = sp.end; o.id = sp.op;
            ops.push_back(o);
        }
        if (mem) {
            // contents go with the session: nothing to say about reopening
            bool reopened = false;
            for (auto &o : plan.incs[S.inc].ops) if (o.kind == "close") { if (&o != &plan.incs[S.inc].ops.back()) reopened = true; }
            if (reopened) return;
        }
        if (ops.size() > 62 || K.vals.size() > 62) { stats["lin_too_big"]++; K.any = true; return; }
        const int n = ops.size();
        // partial order
        for (int i = 0; i < n; i++)
            for (int j = 0; j < n; j++) {
                if (i == j) continue;
                bool before = ops[j].end < ops[i].start;
                const Item *a = ops[j].item, *b = ops[i].item;
                if (a && b && a->rank == b->rank && a->flushed && b->flushed) {
                    static const int rank_of_kind[5] = {0, 1, 2, 3, 4};
                    if (a->flush_op == b->flush_op) {
                        if (rank_of_kind[a->kind] < rank_of_kind[b->kind] || (a->kind == b->kind && a->order < b->order)) before = true;
                    }
                }
                // both still in the queue or in flight: applied in queue order
                if (a && b && a->rank == b->rank && a->kind == 0 && b->kind == 0 && a->order < b->order && !ops[i].optional && !ops[j].optional) before = true;
                // a write that was part of the collective comes before its sync
                if (a && ops[i].sync && a->flush_op == ops[i].id) before = true;
                if (before && !ops[j].optional) ops[i].preds |= 1ull << j;
            }
        vector<uint64_t> late(n, 0);                        // too late for i once one of these is done
        for (int i = 0; i < n; i++) if (ops[i].limit < INF) for (int j = 0; j < n; j++) if (ops[j].start > ops[i].limit) late[i] |= 1ull << j;
        uint64_t dark = 0;                                  // values that cannot be read back: their decoding fails
        if (const int xm = xform(S.inc)) for (size_t v = 1; v < K.vals.size(); v++) if (!xf_readable(xm, K.vals[v].type, K.vals[v].bytes)) dark |= 1ull << v;
        if (mixed_numbers(S.inc)) for (size_t v = 1; v < K.vals.size(); v++) if (symbol_bound(K.vals[v].type, K.vals[v].bytes)) dark |= 1ull << v;
        uint64_t need = 0;
        for (int i = 0; i < n; i++) if (!ops[i].optional) need |= 1ull << i;
        std::set<std::tuple<uint64_t, int, uint64_t>> seen;
        std::set<St> out;
        uint64_t best = 0;
        bool budget = true;
        std::function<void(uint64_t, int, uint64_t)> go = [&](uint64_t mask, int cur, uint64_t dur) {
            if (seen.size() > 300000) { budget = false; return; }
            if (!seen.insert(std::make_tuple(mask, cur, dur)).second) return;
            if (__builtin_popcountll(mask & need) > __builtin_popcountll(best & need)) best = mask;
            if ((mask & need) == need) {
                if (S.crashed) {
                    for (int v = 0; v < 62; v++) if (dur >> v & 1) out.insert({v, S.crash_kind == 2 ? 1ull << v : dur});
                } else out.insert({cur, dur});
            }
            for (int i = 0; i < n; i++) {
                if (mask >> i & 1) continue;
                if ((ops[i].preds & ~mask) || (late[i] & mask)) continue;
                const LOp &o = ops[i];
                if (o.sync) go(mask | 1ull << i, cur, 1ull << cur);
                else if (o.write) go(mask | 1ull << i, o.val, dur | 1ull << o.val);
                else if (o.val == cur || (o.error && cur != 0 && dark >> cur & 1)) go(mask | 1ull << i, cur, dur);
            }
        };
        for (auto &s : K.st) go(0, s.cur, s.dur);
        if (!budget) { stats["lin_budget"]++; K.any = true; return; }
        stats["lin_keys"]++;
        stats["lin_ops"] += n;
        for (auto &o : ops) if (!o.write && !o.sync) stats["reads_checked"]++;
        if (out.empty()) {
            std::ostringstream m;
            m << "no order of the operations on pair " << key.str() << " of data set '" << set << "' (datastore " << ds << ") explains what was read in incarnation " << S.inc << "; possible values at its start:";
            std::set<int> curs;
            for (auto &s : K.st) if (curs.insert(s.cur).second && curs.size() <= 8) m << " [" << K.vals[s.cur].str() << "]";
            bool phantom = false;
            vector<int> ord(n);
            for (int i = 0; i < n; i++) ord[i] = i;
            std::sort(ord.begin(), ord.end(), [&](int a, int b) { return ops[a].start < ops[b].start; });
            for (int i : ord) {
                const LOp &o = ops[i];
                m << "\n  ";
                if (o.sync) { m << "[" << o.start << "," << o.end << "] durable point (op " << o.id << ")"; continue; }
                m << "[" << o.start << "," << (o.end == INF ? string("-") : std::to_string(o.end)) << "] rank " << o.item->rank << " op " << o.item->op << "." << o.item->idx << " " << (o.write ? (o.item->kind == 0 ? "PUT " : "DELETE ") : "GET -> ") << K.vals[o.val].str();
                if (o.optional) m << " (not acknowledged)";
                if (!(best >> i & 1) && !o.optional) m << "   <-- cannot be placed";
                if (!o.write) {
                    bool known = false;
                    for (auto &w : ops) if (w.write && w.val == o.val) known = true;
                    for (auto &s : K.st) if (s.cur == o.val) known = true;
                    if (o.val == 0) known = true;
                    if (!known) phantom = true;
                }
            }
            // LevelDB drops the rest of a log it cannot read
            const bool dropped = log_error(S.inc, set, ds);
            fail(dropped ? "unreadable-log" : phantom ? "phantom-value" : "wrong-read", m.str());
            return;
        }
        K.st = out;
    }

    // ------------------------------------------------------------ packets
    void packets() {
        for (auto &S : sessions) {
            const long max_ops = plan.geti(S.inc, "max_ops", 0), max_size = plan.geti(S.inc, "max_size", 0);
            map<std::tuple<int, int, int>, vector<std::pair<int64_t, int64_t>>> sent;   // (rank, ds, kind) -> requests in order
            int inc = -1;
            for (auto &e : hist) {
                if (e.type == EV_INC) inc = e.a;
                if (inc != S.inc || e.type != EV_PACKET) continue;
                stats["packets"]++;
                if (max_ops && e.e > max_ops) fail("packet-ops", "request of kind " + std::to_string(e.d) + " from rank " + std::to_string(e.a) + " holds " + std::to_string(e.e) + " operations, the limit is " + std::to_string(max_ops));
                if (max_size && e.e > 1 && e.f > max_size) fail("packet-size", "request of kind " + std::to_string(e.d) + " from rank " + std::to_string(e.a) + " with " + std::to_string(e.e) + " operations has " + std::to_string(e.f) + " bytes, the limit is " + std::to_string(max_size));
                const int64_t *v = (const int64_t *)e.s0.data();
                for (size_t i = 0; i + 1 < e.s0.size() / 8; i += 2) sent[std::make_tuple((int)e.a, (int)e.c, (int)e.d)].push_back({v[i], v[i + 1]});
            }
            bool placements_known = true;
            for (auto &it : S.items) if (it.kind != 4 && it.hash_ds < 0) placements_known = false;
            if (S.crashed || !placements_known) continue;
            map<std::tuple<int, int, int>, vector<const Item *>> want;
            Topo topo(plan, S.inc);
            for (auto &it : S.items) {
                if (it.kind == 4 || it.hash_ds < 0 || it.maybe || it.unreachable) continue;
                if (topo.rank_of(it.hash_ds) == it.rank) continue;
                int k = it.kind == 0 ? R_PUT : it.kind == 1 ? R_GET : it.kind == 2 ? R_GETOP : R_DEL;
                want[std::make_tuple(it.rank, it.hash_ds, k)].push_back(&it);
            }
            for (auto &kv : want) {
                std::sort(kv.second.begin(), kv.second.end(), [](const Item *a, const Item *b) { return a->order < b->order; });
                auto &got = sent[kv.first];
                for (size_t i = 0; i < std::max(got.size(), kv.second.size()); i++) {
                    if (i < got.size() && i < kv.second.size()) {
                        int64_t ids = kv.second[i]->ids, idp = kv.second[i]->idp;
                        if (kv.second[i]->t.s.null) ids = -1;
                        if (kv.second[i]->t.p.null) idp = -1;
                        if (std::get<2>(kv.first) == R_GETOP) {
                            const Triple &t = kv.second[i]->t;
                            ids = getop_print(t.getop, t.nrec, t.otype, t.s.null ? "" : t.s.bytes, t.s.type, t.p.null ? "" : t.p.bytes, t.p.type);
                            idp = 0;
                        }
                        if (got[i].first == ids && got[i].second == idp) continue;
                    }
                    bool extra_unflushed = false;
                    for (auto &it : S.items) if (it.maybe && it.rank == std::get<0>(kv.first)) extra_unflushed = true;
                    if (extra_unflushed) break;
                    std::ostringstream m;
                    m << "requests of kind " << std::get<2>(kv.first) << " from rank " << std::get<0>(kv.first) << " to datastore " << std::get<1>(kv.first) << ": position " << i << " of " << kv.second.size() << " queued, " << got.size() << " sent: expected ";
                    if (i < kv.second.size()) m << "op " << kv.second[i]->op << "." << kv.second[i]->idx; else m << "nothing";
                    m << ", sent ";
                    if (i < got.size()) m << "op " << (got[i].first >> 24) << "." << (got[i].first >> 2 & 0xfffff); else m << "nothing";
                    fail("packet-order", m.str());
                    break;
                }
            }
        }
    }

#include "oracle_more.inc"

    Verdict run() {
        Verdict v;
        v.prop = plan.prop;
        digest();
        if (fails.empty()) infer_placement();
        if (fails.empty()) linearize_all();
        if (fails.empty() && (plan.prop == "C15" || plan.prop == "C04" || plan.prop == "C02" || plan.prop == "C21")) packets();
        if (fails.empty()) more();
        if (!fails.empty()) { v.ok = false; v.cls = fails[0].cls; v.msg = fails[0].msg; }
        return v;
    }
};
} // namespace

Verdict judge(const Plan &plan, const vector<Event> &hist, const RunInfo &info, map<string, uint64_t> &stats) {
    Judge j(plan, hist, info, stats);
    return j.run();
}
