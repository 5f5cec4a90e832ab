// Seeded generation of plans: what each property's runs look like.
#include "plan.hpp"
#include "conf.hpp"
#include <algorithm>
#include <array>
#include <cstdio>
#include <set>

using std::string;
using std::to_string;
using std::vector;

namespace {
struct Rng {
    uint64_t s;
    uint64_t next() { s += 0x9E3779B97F4A7C15ull; return sim::mix64(s); }
    uint64_t below(uint64_t n) { return n ? next() % n : 0; }
    int range(int a, int b) { return a + (int)below(b - a + 1); }
    bool p(int percent) { return below(100) < (uint64_t)percent; }
    template <typename T> const T &pick(const vector<T> &v) { return v[below(v.size())]; }
};

string H(const string &s) { return hex_elem(s); }

struct Mix {
    int put = 40, get = 30, getop = 0, del = 10, hist = 0;
    int bulk = 30;            // percent of bulk calls
    int types = 20;           // percent of typed (non BYTE) elements
    int perms = 15;           // percent of PUTs with more permutations
    int big = 10;             // percent of large values
    int max_big = 3000;
    int flush = 30;           // percent of steps followed by a flush
    int bar = 8, sync = 3;
    int sleep = 5;
    int floats = 0;           // percent of PUTs of float/double under a tracked name
    bool own_keys = false;    // every rank writes its own pairs
    bool null_args = false;   // a few invalid calls
    int nkeys = 5;
    int lookalike = 50;
    int max_bulk = 6;
    int ones = 0;                            // keys of all ones
    int huge = 0;                            // percent of values around and above 64 KiB, and of such keys
    bool nofloat = false;     // no float or double elements
    bool edges = true;        // values that may repeat
    int own_perm = -1;        // -1: as drawn
};

struct Gen {
    Rng r;
    Plan p;
    uint64_t next_id = 1;
    int ranks = 1, total = 1;
    struct Key { string s, p; int st = 7, pt = 7; };
    vector<Key> keys;

    void topology(int max_ranks, bool multi_ds = true) {
        // ranks, client ratio, server ratio, datastores per server
        static const vector<vector<int>> T = {
            {1, 1, 1, 1}, {1, 1, 1, 3}, {2, 1, 1, 1}, {2, 1, 1, 2}, {2, 2, 1, 1}, {2, 2, 1, 2}, {3, 1, 1, 1}, {3, 3, 1, 1},
            {3, 3, 1, 2}, {3, 1, 1, 2}, {3, 2, 1, 1}, {3, 3, 2, 1}, {4, 2, 1, 2}, {4, 1, 1, 1}, {4, 4, 1, 1}, {4, 4, 2, 2}, {4, 2, 1, 1}, {5, 2, 1, 1}, {4, 1, 2, 1}, {5, 3, 1, 2}, {2, 1, 1, 3}, {3, 2, 1, 3}};
        static const vector<int> W = {1, 1, 4, 4, 4, 4, 3, 4, 4, 3, 3, 2, 2, 2, 2, 2, 2, 1, 1, 1, 1, 1};
        for (;;) {
            if (r.p(15)) { // any shape, also those that do not divide evenly
                int n = r.range(1, max_ranks), cr = r.range(1, 5), sr = r.range(1, 4), per = multi_ds ? r.range(1, 3) : 1;
                bool large = r.p(12);
                if (large && max_ranks >= 4 && r.p(50)) { n = r.range(6, 11); cr = r.range(1, 4); sr = 1; }
                else if (large && multi_ds) { n = r.range(1, 2); cr = sr = 1; per = r.range(10, 13) / n + 1; }
                int servers = cr <= sr ? n : sr * (n / cr) + std::min(n % cr, sr);
                if (servers * per > (large ? 14 : 8)) continue;
                set_topology(n, cr, sr, per);
                return;
            }
            int sum = 0;
            for (int w : W) sum += w;
            int x = r.below(sum);
            size_t i = 0;
            while (x >= W[i]) x -= W[i++];
            auto &t = T[i];
            if (t[0] > max_ranks || (!multi_ds && t[3] > 1)) continue;
            set_topology(t[0], t[1], t[2], t[3]);
            return;
        }
    }
    void set_topology(int n, int cr, int sr, int per) {
        ranks = n;
        int servers = cr <= sr ? n : sr * (n / cr) + std::min(n % cr, sr);
        total = servers * per;
        p.cfg["ranks"] = to_string(n);
        p.cfg["client_ratio"] = to_string(cr);
        p.cfg["server_ratio"] = to_string(sr);
        p.cfg["per_server"] = to_string(per);
    }
    void strategy(bool stalls = false) {
        auto &s = p.strat;
        s["seed"] = to_string(r.next() >> 1);
        int mode = r.below(10);
        mode = mode < 5 ? 0 : mode < 8 ? 1 : 2;
        if (stalls && r.p(40)) mode = 2;
        s["mode"] = to_string(mode);
        static const vector<int> sw = {32, 128, 512, 2048, 8192, 20000};
        s["p_switch"] = to_string(r.pick(sw));
        static const vector<int> al = {0, 0, 8, 64, 512};
        s["p_alloc"] = to_string(r.pick(al));
        s["p_clock"] = to_string(r.p(50) ? 64 : 1024);
        if (mode == 1) { s["changes"] = to_string(r.range(1, 12)); s["horizon"] = to_string(r.p(50) ? 3000 : 20000); }
        if (mode == 2) { s["p_stall"] = to_string(r.p(50) ? 200 : 1500); s["stall_len"] = to_string(r.p(50) ? 200 : 3000); }
        if (r.p(70)) { s["p_delay"] = to_string(r.p(50) ? 6000 : 30000); s["max_delay"] = to_string(r.p(50) ? 50 : 2000); }
        if (r.p(40)) s["p_rendezvous"] = to_string(r.p(50) ? 8000 : 60000);
        if (r.p(60)) s["p_match"] = to_string(r.p(50) ? 10000 : 40000);
        if (r.p(40)) s["p_spurious"] = to_string(r.p(40) ? 500 : r.p(60) ? 8000 : 40000);
        if (r.p(20)) s["p_poll"] = "2000";
        if (r.p(20)) s["p_clockjump"] = "500";
        if (r.p(10)) p.cfg["mlog"] = "1";
    }
    void tuning() {
        auto &c = p.cfg;
        static const vector<string> hashes = {"fnv", "fnv", "fnv", "subj", "fnv2", "last", "zero", "sum"};
        c["hash"] = r.pick(hashes);
        if (r.p(10)) c["hash"] = "rank";                       // the default of the system
        else if (r.p(8)) {
            static const vector<string> lib = {"UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"};
            c["hash"] = r.pick(lib);
        }
        if (r.p(50)) c["capi"] = "1";                          // half of the calls go through the C interface
        c["listeners"] = to_string(r.p(50) ? 1 : r.range(1, 3));
        if (r.p(35)) c["async"] = to_string(r.range(1, 4));
        if (r.p(50)) c["max_ops"] = to_string(r.range(1, 5));
        if (r.p(40)) c["max_size"] = to_string(r.p(50) ? r.range(100, 1000) : r.range(1000, 6000));
        if (r.p(10)) c["postfix"] = "-pf";
        if (r.p(30)) c["elen"] = "1";
    }
    // some ranks cannot be reached from the others
    void unreachable(int percent) {
        if (ranks < 2 || !r.p(percent)) return;
        if (p.cfg["hash"].compare(0, 6, "UTHASH") == 0) p.cfg["hash"] = "fnv";
        if (r.p(25)) { p.cfg["transport"] = "null"; return; }
        string g;
        for (int i = 0; i < ranks; i++) if (r.p(50)) g += to_string(i) + ".";
        p.cfg["egroup"] = g.empty() ? "none" : g;
    }
    // the program's own transform functions; bad: percent of elements that they refuse
    int xmask = 0, xbad = 0;
    void xforms(int bad) {
        do xmask = r.below(16); while (!xmask);
        if (bad && r.p(40)) xmask |= XF_BADDECODE | XF_BYTE;
        xbad = bad;
        p.cfg["xform"] = to_string(xmask);
        if (r.p(30)) p.cfg["xdecoy"] = "1";
        if (r.p(40)) p.cfg["xinplace"] = "1";
    }
    string refused_elem(const string &tag) {
        vector<string> v;
        if (xmask & XF_BYTE) { v.push_back(H("!" + tag)); v.push_back(H("!" + tag)); }
        if (xmask & XF_BADDECODE) { v.push_back(H("^" + tag)); v.push_back(H("^" + tag)); }
        if (xmask & XF_DOUBLE) v.push_back("d666.25");
        if (xmask & XF_INT64) v.push_back("I666");
        return v.empty() ? H(tag) : r.pick(v);
    }
    void backend(int leveldb_percent, int rocks_percent = 0) {
        int x = r.below(100);
        if (x < rocks_percent) p.cfg["backend"] = "rocksdb";
        else if (x < rocks_percent + leveldb_percent) { p.cfg["backend"] = "leveldb"; if (r.p(40)) p.cfg["ldb_small"] = "1"; }
        else p.cfg["backend"] = "mem";
    }
    void pick_keys(const Mix &m) {
        static const vector<string> subs = {"a", "ab", "abc", "b", "s0", "s1", "s10"};
        static const vector<string> pre = {"c", "bc", "abc", "p", "p0", "q", "bcd"};
        keys.clear();
        std::vector<string> used;
        int guard = 0;
        while ((int)keys.size() < m.nkeys && guard++ < 1000) {
            Key k;
            auto el = [&](const vector<string> &v, int *type) -> string {
                *type = 7;
                if (xbad && r.p(xbad / 2)) return refused_elem("k" + to_string(r.below(3)));
                if (r.p(m.types)) {
                    if (r.p(25)) { // numbers at the ends of their ranges
                        static const vector<std::pair<int, string>> ends = {{1, "i-2147483648"}, {1, "i2147483647"}, {1, "i-10"}, {1, "i-9"}, {1, "i100"}, {2, "I-9223372036854775808"}, {2, "I9223372036854775807"}, {2, "I-100"}, {3, "u4294967295"}, {3, "u10"}, {4, "U18446744073709551615"}, {4, "U99"}};
                        auto &e = r.pick(ends);
                        *type = e.first;
                        return e.second;
                    }
                    int c = r.below(m.nofloat ? (xmask & XF_DOUBLE ? 5 : 4) : 6);
                    if (m.nofloat && c == 4) c = 5;
                    switch (c) {
                        case 0: *type = 1; return "i" + to_string(r.range(-2, 2));
                        case 1: *type = 2; return "I" + to_string(r.range(-2, 2));
                        case 2: *type = 3; return "u" + to_string(r.range(0, 3));
                        case 3: *type = 4; return "U" + to_string(r.range(0, 3));
                        case 4: *type = 5; return r.p(50) ? real(false) : "f" + to_string(r.range(0, 3)) + ".5";
                        default: *type = 6; return r.p(50) ? real(true) : "d" + to_string(r.range(0, 3)) + ".25";
                    }
                }
                if (m.huge && r.p(m.huge)) return H(r.pick(v) + string(r.p(50) ? 65536 : r.range(30000, 70000), 'y'));
                if (m.ones && r.p(m.ones)) return H(string(r.range(1, 2), '\xff'));
                if (r.p(8)) return H(string(1, '\0') + r.pick(v));
                if (r.p(8)) return H(r.pick(v) + '\xff');
                if (r.p(4)) return H(r.pick(v) + string(r.p(60) ? r.range(20, 300) : r.range(250, 700), 'z'));
                return H(r.pick(v));
            };
            if (r.p(m.lookalike) && !keys.empty()) {
                // same concatenation, another split, or another type
                static const vector<std::pair<string, string>> like = {{"a", "bc"}, {"ab", "c"}, {"abc", "d"}, {"a", "bcd"}, {"ab", "cd"}};
                auto &l = r.pick(like);
                k.s = H(l.first); k.p = H(l.second); k.st = k.pt = 7;
            } else { k.s = el(subs, &k.st); k.p = el(pre, &k.pt); }
            string sig = k.s + "/" + k.p;
            if (std::find(used.begin(), used.end(), sig) != used.end()) continue;
            used.push_back(sig);
            keys.push_back(k);
        }
    }
    Op op(int rank, const string &kind) { Op o; o.id = next_id++; o.rank = rank; o.kind = kind; return o; }
    // a floating point number of any magnitude
    string real(bool dbl) {
        const string c = dbl ? "d" : "f";
        if (r.p(15)) {
            static const vector<string> fe = {"f3.40282e38", "f-3.40282e38", "f1.17549e-38", "f1e-40", "f-1e-42", "finf", "f-inf", "f0", "f9e-8", "f-5e7", "f-9.5e8"},
                                        de = {"d1.79769e308", "d-1.79769e308", "d2.22507e-308", "d1e-309", "d-1e-310", "d5e-320", "dinf", "d-inf", "d0", "d3.1e307", "d-9e8", "d5e-11"};
            if (!(dbl && (xmask & XF_DOUBLE)) && p.prop != "C03" && r.p(8)) return c + "nan";   // (C03 varies what is refused)
            return r.pick(dbl ? de : fe);
        }
        const int e = r.p(50) ? r.range(-12, 12) : dbl ? r.range(-300, 300) : r.range(-36, 36);
        string d = to_string(r.range(1, 9));
        if (r.p(70)) d += "." + to_string(r.below(r.p(50) ? 10 : 10000));
        return c + (r.p(50) ? "-" : "") + d + "e" + to_string(e);
    }
    string value(const Mix &m, uint64_t id, size_t idx) {
        if (xbad && r.p(xbad)) return refused_elem("o" + to_string(id) + "." + to_string(idx));
        if (r.p(m.types)) {
            uint64_t u = id * 64 + idx;
            if (m.edges && r.p(20)) {
                if (m.nofloat) { static const vector<string> e = {"i0", "i-2147483648", "i2147483647", "i-1", "I0", "I-9223372036854775808", "I9223372036854775807", "u0", "u4294967295", "U0", "U18446744073709551615"}; return r.pick(e); }
                static const vector<string> edge = {"i0", "i-2147483648", "i2147483647", "i-1", "i-10", "I0", "I-9223372036854775808", "I9223372036854775807", "I-100", "u0", "u4294967295", "U0",
                    "U18446744073709551615", "f0", "f-1.5", "f0.001", "f-12345", "f1e10", "f-1e-10", "d0", "d-2.5", "d0.1", "d-0.003", "d1e15", "d-1e-15", "d9.99999999", "d1e100", "d-1e-100", "d1000000"};
                return r.pick(edge);
            }
            switch (r.below(m.nofloat ? 4 : 6)) {
                case 0: return "i" + to_string(u);
                case 1: return "I-" + to_string(u);
                case 2: return "u" + to_string(u);
                case 3: return "U" + to_string(u);
                case 4: return r.p(35) ? real(false) : "f" + to_string(u) + ".5";
                default: return r.p(35) ? real(true) : "d" + to_string(u) + ".25";
            }
        }
        if (m.edges && r.p(3)) { static const vector<string> tiny = {string(1, '\0'), "a", "\xff", "ab", string(2, '\0')}; return H(r.pick(tiny)); }
        if (m.huge && r.p(m.huge)) { static const vector<int> h = {32767, 32768, 65535, 65536, 65537, 70000, 131073, 262150, 600000, 1048577}; return "v" + to_string(r.pick(h)); }
        if (r.p(m.big)) return "v" + to_string(r.range(200, m.max_big));
        return "v" + to_string(r.range(12, 60));
    }
    uint32_t perm(const Mix &m) {
        if (m.own_perm >= 0) return m.own_perm;
        if (!r.p(m.perms)) return r.p(80) ? 1 : 1u << r.below(6);
        return 1 + r.below(63);
    }
    vector<string> track;
    // one queueing call of the given kind
    Op queue_op(int rank, const string &b, const Mix &m) {
        bool bulk = r.p(m.bulk);
        int n = bulk ? r.range(1, m.max_bulk) : 1;
        Op o = op(rank, "");
        auto key = [&]() -> Key & {
            if (m.own_keys) {
                vector<size_t> own;
                for (size_t i = 0; i < keys.size(); i++) if ((int)(i % ranks) == rank) own.push_back(i);
                if (!own.empty()) return keys[r.pick(own)];
            }
            return keys[r.below(keys.size())];
        };
        if (b == "put") {
            if (!track.empty() && r.p(m.floats)) {
                // a float or double under a tracked predicate
                bool dbl = r.p(60);
                int form = r.below(4);
                if (!bulk) o.kind = form == 0 ? (dbl ? "putd" : "putf") : form == 1 ? "putc" : "put";
                else o.kind = form == 0 ? (dbl ? "bputd" : "bputf") : form == 1 ? "bputst" : "bput";
                for (int i = 0; i < n; i++) {
                    string v = (dbl ? "d" : "f") + to_string(r.range(0, 40)) + "." + to_string(r.below(100));
                    if (r.p(12)) v = (dbl ? "d" : "f") + string(r.p(50) ? "-" : "") + to_string(r.range(1, 9)) + "e" + to_string(r.range(-12, 2));
                    if (dbl && (xmask & XF_DOUBLE) && r.p(xbad)) v = "d666.25";
                    o.args.push_back(to_string(i) + ":" + H("h" + to_string(r.below(30))) + "/" + r.pick(track) + "/" + v + "/1");
                }
                return o;
            }
            int form = r.below(6);
            bool single = bulk && form == 0;       // one object type
            o.kind = single ? "bputst" : bulk ? (form == 1 ? "bputc" : "bput") : (form == 1 ? "putc" : "put");
            if (form == 2 && !m.nofloat && r.p(50)) {
                o.kind = bulk ? "bputd" : "putd";
                for (int i = 0; i < n; i++) { Key &k = key(); o.args.push_back(to_string(i) + ":" + k.s + "/" + k.p + "/d" + to_string(o.id * 64 + i) + ".5/" + to_string(perm(m))); }
                return o;
            }
            for (int i = 0; i < n; i++) {
                Key &k = key();
                string v = single ? "v" + to_string(r.range(12, 80)) : value(m, o.id, i);
                o.args.push_back(to_string(i) + ":" + k.s + "/" + k.p + "/" + v + "/" + to_string(perm(m)));
            }
        } else if (b == "get") {
            int form = r.below(5);
            o.kind = bulk ? (form == 0 ? "bgetst" : "bget") : (form == 0 ? "getc" : "get");
            if (form == 1 && r.p(40)) o.kind = string(bulk ? "b" : "") + (r.p(50) ? "getd" : "getf");
            for (int i = 0; i < n; i++) { Key &k = key(); o.args.push_back(to_string(i) + ":" + k.s + "/" + k.p + "/7"); }
        } else if (b == "del") {
            o.kind = bulk ? "bdel" : "del";
            for (int i = 0; i < n; i++) { Key &k = key(); o.args.push_back(to_string(i) + ":" + k.s + "/" + k.p); }
        } else if (b == "getop") {
            int form = r.below(5);
            o.kind = bulk ? (form == 0 ? "bgetopst" : "bgetop") : "getop";
            string ot = "7";
            if (form == 1 && r.p(60)) { const bool d = r.p(50); ot = d ? "6" : "5"; o.kind = string(bulk ? "b" : "") + (d ? "getopd" : "getopf"); }
            for (int i = 0; i < n; i++) {
                Key &k = key();
                int g = r.below(7);
                string s = k.s, pr = k.p;
                if (r.p(12)) { static const vector<string> none = {"-", "-", "-i", "-I", "-u", "-U", "-f", "-d"}; pr = r.pick(none); }
                int cnt = r.p(8) ? 0 : r.p(60) ? r.range(1, 4) : r.range(5, 20);
                o.args.push_back(to_string(i) + ":" + s + "/" + pr + "/" + ot + "/" + to_string(cnt) + "/" + to_string(g));
            }
        } else if (b == "hist") {
            o.kind = bulk ? "bhist" : "hist";
            for (int i = 0; i < n; i++) o.args.push_back(to_string(i) + ":" + to_string(r.below(total)) + "/" + (track.empty() || r.p(10) ? H("nosuch") : r.pick(track)));
        }
        return o;
    }
    string which(const Mix &m) {
        int t = m.put + m.get + m.getop + m.del + m.hist;
        int x = r.below(t);
        if ((x -= m.put) < 0) return "put";
        if ((x -= m.get) < 0) return "get";
        if ((x -= m.getop) < 0) return "getop";
        if ((x -= m.del) < 0) return "del";
        return "hist";
    }
    string flush_kind(const string &b) {
        if (r.p(50)) return "flush";
        if (b == "put") return "flushputs";
        if (b == "get") return "flushgets";
        if (b == "getop") return "flushgetops";
        if (b == "del") return "flushdels";
        if (b == "hist") return "flushhists";
        return "flush";
    }
    void steps(Inc &n, const Mix &m, int count) {
        int cur = r.below(ranks);
        for (int i = 0; i < count; i++) {
            if (r.p(60)) cur = r.below(ranks);
            string b = which(m);
            n.ops.push_back(queue_op(cur, b, m));
            if (r.p(m.flush)) n.ops.push_back(op(cur, flush_kind(b)));
            if (r.p(m.bar)) n.ops.push_back(op(-1, "bar"));
            if (r.p(m.sync)) n.ops.push_back(op(-1, "sync"));
            if (r.p(m.sleep)) { Op o = op(r.below(ranks), "sleep"); o.args.push_back(to_string(r.range(1, 3000))); n.ops.push_back(o); }
        }
    }
    // more than a handful of items for one call, on pairs of their own
    void flood(Inc &n) {
        const int rk = r.below(ranks), count = r.range(60, 300);
        p.cfg.erase("max_size");
        if (r.p(60)) p.cfg.erase("max_ops"); else p.cfg["max_ops"] = to_string(r.range(50, 300));
        if (r.p(60)) p.cfg["hash"] = r.p(50) ? "zero" : "last";
        auto bulk = [&](int rank, const string &kind, const string &tail) {
            Op o = op(rank, kind);
            for (int i = 0; i < count; i++) o.args.push_back(to_string(i) + ":" + H("g" + to_string(i)) + "/" + H("q") + tail);
            n.ops.push_back(o);
        };
        Op o = op(rk, "bput");
        for (int i = 0; i < count; i++) o.args.push_back(to_string(i) + ":" + H("g" + to_string(i)) + "/" + H("q") + "/v" + to_string(r.range(12, 30)) + "/1");
        n.ops.push_back(o);
        if (r.p(50)) n.ops.push_back(op(rk, "flush"));
        all(n, "sync");
        bulk(r.below(ranks), "bget", "/7");
        if (r.p(40)) { all(n, "flush"); all(n, "bar"); bulk(r.below(ranks), "bdel", ""); }
        all(n, "flush");
    }
    // enough PUTs for the background thread, which has to send them without a flush
    void settle(Inc &n, const Mix &m) {
        const int cur = r.below(ranks), at = atoi(p.cfg["async"].c_str());
        n.ops.push_back(op(cur, r.p(70) ? "flushputs" : "flush"));
        Mix w = m;
        w.get = w.getop = w.del = w.hist = 0;
        vector<string> read;
        for (size_t want = 2 * at - (at > 0 && r.p(50)) + (r.p(60) ? 0 : r.below(3)); want > 0;) {
            Op o = queue_op(cur, "put", w);
            for (auto &t : o.triples()) if (!t.s.null && !t.p.null) want -= std::min<size_t>(want, __builtin_popcount(t.perm));
            for (auto &a : o.args) { const size_t x = a.find('/', a.find('/') + 1); read.push_back(a.substr(0, x)); }
            n.ops.push_back(o);
        }
        n.ops.push_back(op(cur, "settle"));
        const int who = r.p(60) ? cur : r.below(ranks);
        if (who != cur) { n.ops.push_back(op(-1, "bar")); }
        for (auto &a : read) { Op o = op(who, "get"); o.args.push_back(a + "/7"); n.ops.push_back(o); }
        n.ops.push_back(op(who, "flushgets"));
        if (r.p(50)) n.ops.push_back(op(cur, "settle"));
    }
    // every pair read by some rank, flushed
    void read_all(Inc &n, int who = -2) {
        vector<Key> all = keys;
        for (int k = 0; k < (int)all.size(); k++) {
            int rk = who == -2 ? r.below(ranks) : who;
            Op o = op(rk, "get");
            o.args.push_back("0:" + all[k].s + "/" + all[k].p + "/7");
            n.ops.push_back(o);
        }
        n.ops.push_back(op(-1, "flushgets"));
    }
    Inc &inc() { p.incs.emplace_back(); return p.incs.back(); }
    void open(Inc &n) { n.ops.push_back(op(-1, "open")); }
    void close(Inc &n) { n.ops.push_back(op(-1, "close")); }
    void openmissing(Inc &n) {
        Op o = op(-1, "openmissing");
        o.args = {r.p(50) ? "*" : "0", r.p(75) ? "leveldb" : "rocksdb"};
        n.ops.push_back(o);
    }
    void all(Inc &n, const string &k) { n.ops.push_back(op(-1, k)); }

    // ------------------------------------------------------------ the properties
    void basic(Mix m, int ldb, int max_ranks, int lo, int hi, int rocks = 4, int cut = 0) {
        topology(max_ranks);
        backend(ldb, rocks);
        tuning();
        unreachable(cut);
        strategy();
        m.nkeys = r.range(2, m.nkeys);
        pick_keys(m);
        Inc &n = inc();
        open(n);
        if (p.prop == "C02" && r.p(2)) flood(n);
        steps(n, m, r.range(lo, hi));
        all(n, "flush");
        all(n, "bar");
        read_all(n);
        close(n);
    }
    // ---- building blocks
    void crash(Inc &n, int lo_steps = 300, int hi_steps = 12000) {
        n.crash.kind = r.p(30) ? 1 : 2;
        int how = r.below(3);
        if (how == 0) n.crash.at_step = r.range(lo_steps, hi_steps);
        else if (how == 1) n.crash.at_fsop = r.range(1, 160);
        else n.crash.at_op = r.range(2, 60);
    }
    void die(Inc &n, int kind) { Op o = op(0, "die"); o.args.push_back(to_string(kind)); n.ops.push_back(o); }
    void chname(Inc &n, const string &name, int wh = 1, int rh = 1, int create = 1) {
        Op o = op(-1, "chname");
        o.args = {name, to_string(wh), to_string(rh), to_string(create)};
        n.ops.push_back(o);
    }
    void chhash(Inc &n, const string &name, const string &func) {
        Op o = op(-1, "chhash");
        o.args = {name, func};
        n.ops.push_back(o);
    }
    void tracked(int n) {
        for (int i = 0; i < n; i++) { track.push_back(H("h" + to_string(i))); p.cfg["track" + to_string(i)] = track.back(); }
        p.cfg["first_n"] = to_string(r.range(0, 6));
        static const vector<string> gens = {"10_BUCKETS", "SQUARE_ROOT_CHOICE", "STURGES_FORMULA", "RICE_RULE", "SCOTTS_NORMAL_REFERENCE_RULE", "UNIFORM_LOG2", "UNIFORM_LOG10", "10_BUCKETS"};
        if (r.p(80)) p.cfg["hist_gen"] = r.pick(gens);
        if (r.p(20)) p.cfg["hist_fn"] = "1";
    }
    // another shape with the same number of datastores
    void reshape(Inc &n, int max_ranks) {
        vector<vector<int>> fit;
        for (int most = 3; fit.empty() && most <= 14; most += 11)
        for (int R = 1; R <= max_ranks; R++) for (int cr = 1; cr <= R; cr++) for (int sr = 1; sr <= 3; sr++) for (int per = 1; per <= most; per++) {
            int servers = cr <= sr ? R : sr * (R / cr) + std::min(R % cr, sr);
            if (servers * per == total) fit.push_back({R, cr, sr, per});
        }
        if (fit.empty()) return;
        auto &t = r.pick(fit);
        n.cfg["ranks"] = to_string(t[0]); n.cfg["client_ratio"] = to_string(t[1]); n.cfg["server_ratio"] = to_string(t[2]); n.cfg["per_server"] = to_string(t[3]);
        ranks = t[0];
    }
    void retune(Inc &n) {
        if (r.p(50)) n.cfg["listeners"] = to_string(r.range(1, 3));
        if (r.p(50)) n.cfg["async"] = to_string(r.range(0, 4));
        if (r.p(50)) n.cfg["max_ops"] = to_string(r.range(0, 5));
        if (r.p(50)) n.cfg["max_size"] = r.p(30) ? "0" : to_string(r.range(100, 4000));
    }
    void persistent() { p.cfg["backend"] = r.p(25) ? "rocksdb" : "leveldb"; }
    // reads the six orders of a triple
    void read_orders(Inc &n, int rank, const string &s, const string &pr, const string &o) {
        const string e[3] = {s, pr, o};
        static const int ord[6][2] = {{0, 1}, {0, 2}, {1, 0}, {1, 2}, {2, 0}, {2, 1}};
        bool bulk = r.p(50);
        Op b = op(rank, "bget");
        for (int i = 0; i < 6; i++) {
            string a = e[ord[i][0]] + "/" + e[ord[i][1]] + "/7";
            if (bulk) { b.args.push_back(to_string(i) + ":" + a); continue; }
            Op g = op(rank, "get");
            g.args.push_back("0:" + a);
            n.ops.push_back(g);
        }
        if (bulk) n.ops.push_back(b);
    }

    // ------------------------------------------------------------ one program in several configurations
    void same_everywhere() {
        const int C = r.range(2, 4);
        Mix m;
        m.types = 25; m.edges = false; m.nofloat = false; m.nkeys = r.range(4, 10); m.max_big = 2500;
        ranks = C;
        pick_keys(m);
        vector<Op> prog;
        prog.push_back(op(-1, "open"));
        const int phases = r.range(2, 5);
        for (int ph = 0; ph < phases; ph++) {
            // per key: -1 only read in this phase, otherwise the client that owns it
            vector<int> owner(keys.size());
            for (auto &o : owner) o = r.p(35) ? -1 : (int)r.below(C);
            // two clients take turns at queueing; a key is used once between two flushes of its owner
            vector<std::vector<bool>> used(C, vector<bool>(keys.size(), false));
            const int steps = r.range(3, 14);
            for (int i = 0; i < steps; i++) {
                const int c = r.below(C);
                vector<int> mine, shared;
                for (size_t k = 0; k < keys.size(); k++) {
                    if (owner[k] == c && !used[c][k]) mine.push_back(k);
                    if (owner[k] < 0) shared.push_back(k);
                }
                const int what = r.below(100);
                auto sp = [&](int k) { return keys[k].s + "/" + keys[k].p; };
                if (what < 45 && !mine.empty()) {
                    int n = r.p(40) ? r.range(1, 4) : 1;
                    bool bulk = n > 1 || r.p(20);
                    Op o = op(c, bulk ? (r.p(20) ? "bputc" : "bput") : (r.p(20) ? "putc" : "put"));
                    for (int j = 0; j < n && !mine.empty(); j++) {
                        size_t w = r.below(mine.size());
                        int k = mine[w];
                        mine.erase(mine.begin() + w);
                        used[c][k] = true;
                        o.args.push_back(to_string(j) + ":" + sp(k) + "/" + value(m, o.id, j) + "/" + (r.p(25) ? to_string((r.below(64) & ~4) | 1) : "1"));
                    }
                    prog.push_back(o);
                } else if (what < 55 && !mine.empty()) {
                    int k = r.pick(mine);
                    used[c][k] = true;
                    Op o = op(c, r.p(30) ? "bdel" : "del");
                    o.args.push_back("0:" + sp(k));
                    prog.push_back(o);
                } else if (what < 80 && (!mine.empty() || !shared.empty())) {
                    vector<int> both = mine;
                    both.insert(both.end(), shared.begin(), shared.end());
                    bool bulk = r.p(40);
                    Op o = op(c, bulk ? "bget" : r.p(20) ? "getc" : "get");
                    int n = bulk ? r.range(1, 5) : 1;
                    for (int j = 0; j < n && !both.empty(); j++) {
                        int k = r.pick(both);
                        if (owner[k] >= 0) { if (used[c][k]) continue; used[c][k] = true; }
                        o.args.push_back(to_string(j) + ":" + sp(k) + "/7");
                    }
                    if (!o.args.empty()) prog.push_back(o);
                } else if (what < 86 && !shared.empty()) {
                    int k = r.pick(shared);
                    Op o = op(c, "getop");
                    o.args.push_back("0:" + sp(k) + "/7/1/0");
                    prog.push_back(o);
                }
                if (r.p(35)) { prog.push_back(op(c, "flush")); used[c].assign(keys.size(), false); }
            }
            prog.push_back(op(-1, "flush"));
            prog.push_back(op(-1, "bar"));
            if (r.p(15)) { prog.push_back(op(-1, "sync")); prog.push_back(op(-1, "bar")); }
        }
        for (size_t k = 0; k < keys.size(); k++) { Op o = op(r.below(C), "get"); o.args.push_back("0:" + keys[k].s + "/" + keys[k].p + "/7"); prog.push_back(o); }
        prog.push_back(op(-1, "flush"));
        prog.push_back(op(-1, "close"));
        const int configs = r.range(2, 4);
        p.cfg.clear();
        for (int i = 0; i < configs; i++) {
            Gen g;
            g.r.s = r.next();
            if (r.p(15)) g.set_topology(1, 1, 1, g.r.range(1, 4)); else g.topology(5);
            g.tuning();
            if (g.p.cfg["hash"] == "rank") g.p.cfg["hash"] = "fnv";   // what a GET finds depends on who asks
            g.backend(30, 12);
            Inc &n = inc();
            n.cfg = g.p.cfg;
            n.cfg["basename"] = "b" + to_string(i);
            if (g.ranks == 1 && r.p(50)) n.cfg["transport"] = "null";
            if (r.p(12)) { g.xforms(0); n.cfg["xform"] = g.p.cfg["xform"]; }
            for (auto o : prog) { if (o.rank >= 0) o.rank %= g.ranks; n.ops.push_back(o); }
        }
    }

    // ------------------------------------------------------------ the properties
    void run(const string &prop, const string &variant) {
        Mix m;
        static const std::set<string> huge = {"C01", "C02", "C05", "C06", "C07", "C10", "C11", "C13", "C14", "C15", "C16", "C17", "C20"};
        if (huge.count(prop) && r.p(4)) m.huge = r.range(1, 8);
        if (prop == "C01") {
            if (r.p(12)) xforms(r.p(50) ? 8 : 0);
            basic(m, 25, 5, 6, 36, 6, 5);
        } else if (prop == "C02") {
            if (r.p(30)) p.cfg["hold"] = "1";
            m.getop = 12; m.hist = 8; m.bulk = 50; m.perms = 25; m.max_bulk = 9;
            p.cfg["track0"] = H("h0"); track = {H("h0")}; m.floats = 20;
            m.nofloat = r.p(50);
            const bool refuse = r.p(15);
            basic(m, 15, 5, 6, 36, 4, 20);
            if (refuse) {
                // the hash has no place for some pairs
                p.cfg["hash"] = "refuse";
                for (auto &n : p.incs) for (auto &o : n.ops) for (auto &a : o.args) {
                    size_t at = a.find(":x61");
                    if (at != string::npos && !base_kind(o.kind).empty() && base_kind(o.kind) != "hist" && r.p(40)) a.replace(at, 4, ":x72");
                }
            }
        } else if (prop == "C03") {
            strategy();
            same_everywhere();
        } else if (prop == "C04") {
            m.big = 35; m.max_big = r.p(30) ? 20000 : 4000; m.bulk = 50; m.getop = 6; m.max_bulk = 8;
            if (r.p(10)) { m.huge = r.range(3, 12); m.big = 10; m.max_big = 3000; }
            do { p.cfg.clear(); topology(5); } while (ranks < 2);
            backend(10, 3);
            tuning();
            strategy();
            unreachable(10);
            p.cfg["listeners"] = to_string(r.range(1, 3));
            if (r.p(55)) p.cfg["async"] = to_string(r.range(1, 4));
            p.strat["p_delay"] = r.p(50) ? "12000" : "40000";
            p.strat["max_delay"] = r.p(50) ? "100" : "3000";
            if (r.p(60)) p.strat["p_rendezvous"] = r.p(50) ? "10000" : "65535";
            m.nkeys = r.range(2, 7);
            pick_keys(m);
            Inc &n = inc();
            open(n);
            if (r.p(4)) flood(n);
            steps(n, m, r.range(8, 40));
            all(n, "flush");
            all(n, "bar");
            read_all(n);
            close(n);
        } else if (prop == "C05") {
            topology(3);
            persistent();
            tuning();
            strategy();
            m.sync = 14; m.del = 15; m.nkeys = r.range(2, 6);
            m.max_big = r.p(20) ? 30000 : 3000;
            pick_keys(m);
            const int crashes = r.range(1, 3);
            for (int i = 0; i < crashes; i++) {
                Inc &n = inc();
                if (i) retune(n);
                open(n);
                if (i) { read_all(n); }
                steps(n, m, r.range(4, 22));
                if (r.p(50)) { all(n, "flush"); all(n, "sync"); }
                if (r.p(25)) { steps(n, m, r.range(1, 5)); }
                if (r.p(20)) { close(n); if (r.p(50)) { open(n); steps(n, m, r.range(1, 8)); } else die(n, 2); }
                if (r.p(15)) die(n, r.range(1, 2)); else crash(n, 300, i ? 8000 : 12000);
            }
            Inc &n = inc();
            open(n);
            read_all(n);
            close(n);
        } else if (prop == "C06") {
            topology(4);
            persistent();
            tuning();
            strategy();
            m.del = 20; m.nkeys = r.range(2, 6); m.sync = 2; m.flush = 25;
            if (r.p(12)) xforms(0);
            pick_keys(m);
            if (r.p(30)) { tracked(1); m.floats = 25; m.hist = 8; }
            const int incs = r.range(1, 3);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) { retune(n); if (r.p(60)) reshape(n, 4); }
                const int cycles = r.range(1, 3);
                for (int c = 0; c < cycles; c++) {
                    open(n);
                    if (r.p(60)) read_all(n);
                    steps(n, m, r.range(1, 12));
                    if (r.p(50)) all(n, "flush");
                    close(n);
                }
                if (i + 1 < incs && r.p(60)) { all(n, "bar"); die(n, r.range(1, 2)); }
            }
            Inc &n = inc();
            if (r.p(50)) reshape(n, 4);
            open(n);
            read_all(n);
            close(n);
        } else if (prop == "C07") {
            m.put = 70; m.get = 20; m.del = 5; m.getop = 3; m.bulk = 35; m.perms = 25; m.sleep = 15; m.flush = 18; m.own_keys = r.p(30);
            topology(4);
            backend(20, 4);
            tuning();
            strategy(true);
            p.cfg["async"] = to_string(r.range(1, 6));
            if (r.p(30)) p.cfg["max_ops"] = to_string(r.range(1, 3));
            m.nkeys = r.range(1, 6);
            pick_keys(m);
            Inc &n = inc();
            const int cycles = r.p(25) ? 2 : 1;
            for (int c = 0; c < cycles; c++) {
                open(n);
                steps(n, m, r.range(6, 32));
                if (r.p(30)) settle(n, m);
                if (r.p(70)) { all(n, r.p(60) ? "flushputs" : "flush"); all(n, "bar"); read_all(n); }
                close(n);
            }
        } else if (prop == "C08") {
            m.bar = 0; m.sync = 6; m.sleep = 10; m.flush = 40; m.getop = 5; m.hist = 3;
            topology(5);
            backend(15, 3);
            tuning();
            strategy(true);
            unreachable(10);
            if (r.p(50)) p.cfg["async"] = to_string(r.range(1, 3));
            m.nkeys = r.range(2, 5);
            pick_keys(m);
            const bool mem = p.cfg["backend"] == "mem";
            Inc &n = inc();
            const int cycles = r.p(35) ? 2 : 1;
            for (int c = 0; c < cycles; c++) {
                open(n);
                const int parts = r.range(1, 3);
                for (int q = 0; q < parts; q++) {
                    // some ranks have nothing to do and go ahead
                    const int save = ranks;
                    if (ranks > 1 && r.p(50)) ranks = r.range(1, ranks - 1);
                    steps(n, m, r.range(1, 14));
                    ranks = save;
                    const int x = r.below(5);
                    if (x == 0) all(n, "sync");
                    else if (x == 1 && !mem) chname(n, r.p(50) ? "n1" : "a");
                    else if (x == 2 && !mem) chhash(n, "n2", p.cfg["hash"]);
                    else if (x == 3) all(n, "flush");
                }
                close(n);
            }
        } else if (prop == "C09") {
            topology(3);
            persistent();
            tuning();
            strategy();
            m.sync = 10; m.nkeys = r.range(2, 6); m.del = 12; if (r.p(50)) { m.getop = 25; m.nofloat = true; } m.max_big = r.p(25) ? 60000 : 3000; m.big = 25;
            // writes that fail once or twice and then work again. After one, libleveldb cannot be relied
            // on to read its own log, so what a later session finds is not part of these runs
            const bool passing = p.cfg["backend"] == "leveldb" && r.p(25);
            if (passing) {
                m.bulk = 60; m.max_bulk = 10; m.big = 50; m.max_big = r.p(30) ? 12000 : 1500;
                m.nkeys = r.range(6, 14); m.put = 60; m.getop = 10; m.flush = 25;
                if (r.p(70)) { p.cfg.erase("max_size"); p.cfg.erase("max_ops"); }
            }
            pick_keys(m);
            Inc &a = inc();
            const int before = r.p(60) ? 1 : r.range(2, 4);          // more sessions leave more files
            for (int i = 0; i < before; i++) {
                open(a);
                steps(a, m, r.range(2, 12));
                all(a, "flush");
                close(a);
            }
            Inc &b = inc();
            const int faults = r.range(1, 2);
            for (int i = 0; i < faults; i++) {
                sim::FsFault f;
                static const vector<int> ops = {0, 0, 0, 1, 1, 2, 2, 3, 4, 5, 6};
                f.op = (sim::FsFaultOp)r.pick(ops);
                static const vector<int> errs = {5, 28, 28, 122};
                f.err = f.op == 2 ? 5 : f.op == 3 ? (r.p(50) ? 24 : 5) : r.pick(errs);
                // librocksdb resumes by itself after ENOSPC and then runs into an assertion of its own
                if (f.err == 28 && p.cfg["backend"] == "rocksdb") f.err = 5;
                f.nth = r.range(1, f.op <= 1 ? 40 : 8);
                f.count = f.op == 0 ? 0 : r.p(50) ? 0 : r.range(1, 3);
                if (r.p(70)) f.match = "a-" + to_string(r.below(total)) + (p.cfg.count("postfix") ? p.cfg["postfix"] : "") + "/";
                if (f.op == 0 && r.p(50)) f.shortw = true;
                if (f.op <= 1 && r.p(35)) { f.match = ".log"; f.nth = r.range(1, 10); }
                // reads of tables fail, those of logs do not
                if (f.op == 2 && r.p(60)) { f.match = p.cfg["backend"] == "rocksdb" ? ".sst" : ".ldb"; f.nth = r.range(1, 24); }
                if (passing) { f.op = (sim::FsFaultOp)0; f.err = r.p(50) ? 5 : 28; f.nth = r.range(1, r.p(50) ? 8 : 24); f.count = -r.range(1, 2); f.shortw = false; f.match = r.p(70) ? ".log" : ""; }
                b.faults.push_back(f);
            }
            open(b);
            steps(b, m, r.range(6, 24));
            all(b, "flush");
            if (passing) { all(b, "bar"); read_all(b); }
            else if (r.p(50)) all(b, "sync");
            if (r.p(70)) close(b); else die(b, r.range(1, 2));
            if (!passing) {
                Inc &c = inc();
                open(c);
                read_all(c);
                steps(c, m, r.range(0, 6));
                all(c, "flush");
                all(c, "bar");
                read_all(c);
                close(c);
            }
        } else if (prop == "C10") {
            m.nofloat = r.p(40); m.getop = 45; m.get = 8; m.del = 10; m.put = 40; m.nkeys = r.range(4, 14); m.types = r.p(50) ? 0 : 30; m.flush = 35; m.max_bulk = 5; m.perms = 8; m.ones = r.p(25) ? 30 : 0;
            topology(3);
            backend(35, 12);
            tuning();
            strategy();
            static const vector<string> hs = {"zero", "last", "subj", "fnv", "fnv"};
            p.cfg["hash"] = r.pick(hs);
            if (r.p(60)) p.cfg.erase("async");
            if (r.p(20)) { tracked(1); m.floats = 10; m.sync = 5; }
            if (r.p(15)) xforms(r.p(30) ? 4 : 0);
            pick_keys(m);
            Inc &n = inc();
            open(n);
            // something to walk over first
            if (r.p(70)) {
                const int rk = r.below(ranks);
                for (auto &k : keys) if (r.p(70)) { Op o = op(rk, "put"); o.args.push_back("0:" + k.s + "/" + k.p + "/v" + to_string(r.range(12, 40)) + "/1"); n.ops.push_back(o); }
                n.ops.push_back(op(rk, "flushputs"));
                all(n, "bar");
                if (r.p(20) && p.cfg["backend"] != "mem") { close(n); open(n); }
            }
            if (r.p(40)) m.own_keys = true;
            steps(n, m, r.range(4, 24));
            all(n, "flush");
            close(n);
        } else if (prop == "C11") {
            m.del = 35; m.put = 40; m.get = 25; m.getop = 4; m.lookalike = 85; m.types = 15; m.nkeys = r.range(2, 6); m.nofloat = r.p(50);
            topology(4);
            if (r.p(40)) { backend(50, 10); } else persistent();
            tuning();
            strategy();
            if (r.p(12)) xforms(r.p(50) ? 6 : 0);
            pick_keys(m);
            const bool mem = p.cfg["backend"] == "mem";
            const int incs = mem ? 1 : r.range(1, 3);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) retune(n);
                open(n);
                if (i) read_all(n);
                const int parts = mem ? 1 : r.range(1, 3);
                for (int q = 0; q < parts; q++) {
                    steps(n, m, r.range(4, 16));
                    all(n, "flush");
                    if (mem) break;
                    const int x = r.below(4);
                    if (x == 0) all(n, "sync");
                    else if (x == 1) { chname(n, "other"); if (r.p(40)) { steps(n, m, 3); all(n, "flush"); } chname(n, "a"); }
                    else if (x == 2) { close(n); open(n); }
                }
                if (mem || r.p(50)) { all(n, "bar"); read_all(n); close(n); }
                else if (r.p(50)) { all(n, "sync"); all(n, "bar"); die(n, 2); }
                else crash(n);
            }
            if (!mem) {
                Inc &n = inc();
                open(n);
                read_all(n);
                close(n);
            }
        } else if (prop == "C12") {
            topology(4);
            if (r.p(45)) backend(30, 10); else persistent();
            tuning();
            strategy();
            tracked(r.range(1, 3));
            m.floats = 80; m.put = 60; m.get = 8; m.del = 4; m.hist = 25; m.bulk = 55; m.max_bulk = 8; m.nkeys = 4; m.sync = 5; m.perms = 10;
            if (r.p(30)) { xforms(25); }
            pick_keys(m);
            const bool mem = p.cfg["backend"] == "mem";
            if (r.p(15)) p.cfg["hist_read"] = "0";
            if (r.p(15)) p.cfg["hist_write"] = "0";
            auto ask = [&](Inc &n) {
                for (int d = 0; d < total; d++) for (auto &t : track) if (r.p(80)) {
                    Op o = op(r.below(ranks), r.p(50) ? "hist" : "bhist");
                    o.args.push_back("0:" + to_string(d) + "/" + t);
                    n.ops.push_back(o);
                }
                all(n, r.p(50) ? "flush" : "flushhists");
            };
            const int incs = mem ? 1 : r.range(1, 3);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) retune(n);
                const int cycles = mem ? 1 : r.range(1, 2);
                for (int c = 0; c < cycles; c++) {
                    open(n);
                    if (r.p(60)) ask(n);
                    steps(n, m, r.range(4, 20));
                    if (!mem && r.p(35)) {
                        const bool hash = r.p(40);
                        if (hash) { if (r.p(50)) chhash(n, "hs", "subj"); else chhash(n, "hf", "fnv2"); }   // (one function per data set)
                        else chname(n, "other", r.below(2), r.below(2), 1);
                        if (r.p(50)) steps(n, m, r.range(1, 5));
                        if (hash) chhash(n, "a", p.cfg["hash"]);
                        else chname(n, "a", r.below(2), r.p(75), r.below(2));
                    }
                    all(n, "flush");
                    all(n, "bar");
                    ask(n);
                    if (i + 1 < incs && c + 1 == cycles && r.p(50)) { all(n, "sync"); all(n, "bar"); die(n, r.range(1, 2)); }
                    else close(n);
                }
            }
        } else if (prop == "C13") {
            topology(4);
            persistent();
            tuning();
            strategy();
            m.nkeys = r.range(2, 5); m.bar = 3; m.del = 15; m.getop = 4; m.nofloat = r.p(50);
            if (r.p(25)) { tracked(1); m.floats = 15; m.hist = 6; }
            pick_keys(m);
            static const vector<string> same = {"a", "n1", "n2", "n1"}, own = {"a", "%n1", "%n2", "n1"};
            const vector<string> &names = r.p(20) ? own : same;
            const int incs = r.range(1, 2);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) { n.cfg["basename"] = r.pick(names); retune(n); }
                open(n);
                const int parts = r.range(2, 5);
                for (int q = 0; q < parts; q++) {
                    steps(n, m, r.range(1, 9));
                    if (r.p(40)) read_all(n);
                    chname(n, r.pick(names), 1, r.p(80) ? 1 : 0, 1);
                }
                read_all(n);
                if (i + 1 < incs && r.p(40)) { all(n, "bar"); die(n, 2); } else close(n);
            }
            Inc &n = inc();
            n.cfg["basename"] = r.pick(names);
            open(n);
            read_all(n);
            close(n);
        } else if (prop == "C14") {
            topology(4);
            persistent();
            tuning();
            strategy();
            m.nkeys = r.range(2, 6); m.bar = 3; m.del = 12; m.getop = 3; m.nofloat = r.p(50);
            p.cfg["hash"] = "fnv";
            pick_keys(m);
            static const vector<std::pair<string, string>> funcs = {{"a", "fnv"}, {"h1", "subj"}, {"h2", "last"}, {"h3", "zero"}, {"h4", "fnv2"}, {"h5", "sum"}};
            const int incs = r.range(1, 2);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) retune(n);
                open(n);
                const int parts = r.range(2, 5);
                vector<std::pair<string, string>> some = {funcs[0], r.pick(funcs), r.pick(funcs)};
                for (int q = 0; q < parts; q++) {
                    steps(n, m, r.range(1, 9));
                    if (r.p(40)) read_all(n);
                    auto &f = r.pick(some);
                    chhash(n, f.first, f.second);
                }
                read_all(n);
                if (i + 1 < incs && r.p(40)) { all(n, "bar"); die(n, 2); } else close(n);
            }
            Inc &n = inc();
            auto &f = r.pick(funcs);
            n.cfg["basename"] = f.first;
            n.cfg["hash"] = f.second;
            open(n);
            read_all(n);
            close(n);
        } else if (prop == "C15") {
            m.bulk = 75; m.max_bulk = 14; m.getop = 10; m.hist = 4; m.big = 30; m.max_big = 1500; m.perms = 30; m.flush = 20;
            do { p.cfg.clear(); topology(4); } while (ranks < 2);
            backend(5, 1);
            tuning();
            strategy();
            if (r.p(75)) p.cfg["max_ops"] = to_string(r.range(1, 6)); else p.cfg.erase("max_ops");
            if (r.p(75)) p.cfg["max_size"] = to_string(r.p(30) ? r.range(1, 120) : r.range(120, 2500)); else p.cfg.erase("max_size");
            m.nkeys = r.range(2, 7);
            pick_keys(m);
            Inc &n = inc();
            open(n);
            steps(n, m, r.range(5, 24));
            all(n, "flush");
            all(n, "bar");
            read_all(n);
            close(n);
        } else if (prop == "C16") {
            topology(4);
            backend(20, 5);
            tuning();
            strategy();
            m.nkeys = r.range(2, 4); m.types = 30; m.nofloat = false;
            if (r.p(15)) xforms(r.p(50) ? 6 : 0);
            pick_keys(m);
            Inc &n = inc();
            open(n);
            const int count = r.range(2, 8);
            vector<std::array<string, 3>> made;
            auto obj = [&](uint64_t id) -> string {
                switch (r.below(8)) {
                    case 0: return "i" + to_string((int)id - 5);
                    case 1: return "U" + to_string(id);
                    case 2: return "d" + to_string(id) + ".5";
                    case 3: return "f" + to_string(id) + ".25";
                    case 4: return keys[r.below(keys.size())].s;        // collides with other pairs
                    default: return H("o" + to_string(id));
                }
            };
            for (int i = 0; i < count; i++) {
                const int rk = r.below(ranks);
                int nn = r.p(40) ? r.range(1, 4) : 1;
                Op o = op(rk, nn > 1 ? "bput" : r.p(20) ? "putc" : "put");
                for (int j = 0; j < nn; j++) {
                    auto &k = r.pick(keys);
                    string ob = obj(o.id * 8 + j);
                    o.args.push_back(to_string(j) + ":" + k.s + "/" + k.p + "/" + ob + "/" + to_string(r.p(70) ? r.below(64) : 1u << r.below(6)));
                    made.push_back({k.s, k.p, ob});
                }
                n.ops.push_back(o);
                if (r.p(60)) n.ops.push_back(op(rk, r.p(50) ? "flush" : "flushputs"));
                if (r.p(25)) { auto &t = r.pick(made); read_orders(n, r.below(ranks), t[0], t[1], t[2]); }
                if (r.p(15)) { auto &t = r.pick(made); Op d = op(r.below(ranks), "del"); d.args.push_back("0:" + t[r.below(3)] + "/" + t[r.below(3)]); n.ops.push_back(d); }
            }
            all(n, "flush");
            all(n, "bar");
            const int rd = r.below(ranks);
            for (auto &t : made) read_orders(n, r.p(70) ? rd : (int)r.below(ranks), t[0], t[1], t[2]);
            all(n, "flush");
            close(n);
        } else if (prop == "C17") {
            if (variant == "plain") {
                // the same session again and again
                topology(3);
                backend(25, 0);
                tuning();
                p.cfg["cycles"] = "1";
                m.getop = 10; m.hist = 8; m.nkeys = 4; m.bulk = 45; m.perms = 25;
                m.floats = 20;
                if (r.p(30)) xforms(r.p(60) ? 15 : 0);
                tracked(1);
                p.strat["seed"] = to_string(r.next() >> 1);
                p.strat["mode"] = "0";
                p.strat["p_switch"] = "512";
                m.sleep = 0; m.bar = 20;
                pick_keys(m);
                Inc &n = inc();
                Inc body;
                if (r.p(30)) {
                    if (r.p(50)) all(body, "init");
                    all(body, r.p(50) ? "info" : "refuse");
                    if (r.p(40)) all(body, "abandon");
                }
                const bool missing = r.p(20);
                if (missing) openmissing(body);
                if (!missing || r.p(50)) {
                    open(body);
                    if (r.p(20)) all(body, r.p(50) ? "info" : "refuse");
                    steps(body, m, r.range(3, 14));
                    if (r.p(60)) all(body, "flush");
                    close(body);
                }
                const int cycles = r.range(4, 6);
                for (int c = 0; c < cycles; c++) for (auto o : body.ops) { o.id = next_id++; n.ops.push_back(o); }
            } else {
                static const vector<string> others = {"C01", "C02", "C04", "C05", "C06", "C07", "C08", "C09", "C10", "C12", "C13", "C14", "C16", "C18", "C20", "C20", "C21", "C22", "C23"};
                run(r.pick(others), variant);
            }
        } else if (prop == "C18") {
            topology(4);
            persistent();
            tuning();
            strategy();
            m.nkeys = r.range(2, 5);
            pick_keys(m);
            Inc &a = inc();
            const bool before = r.p(80);
            if (before) {
                if (r.p(15)) openmissing(a);
                open(a);
                steps(a, m, r.range(2, 10));
                all(a, "flush");
                close(a);
            }
            const int tries = r.range(1, 2);
            for (int i = 0; i < tries; i++) {
                Inc &b = before || i ? inc() : a;
                b.cfg["open_fails"] = "1";
                const int how = before ? r.below(3) : 0;
                if (how == 2) {
                    // a datastore that was never created
                    b.cfg["create"] = "0";
                    b.cfg["basename"] = "missing";
                    Op o = op(-1, "open");
                    o.args.push_back("must_fail");
                    b.ops.push_back(o);
                    continue;
                }
                const string dir = "a-" + to_string(r.below(total)) + (p.cfg.count("postfix") ? p.cfg["postfix"] : "") + "/";
                sim::FsFault f;
                if (how == 0) { f.op = sim::FF_OPEN; f.err = r.p(50) ? 13 : 24; }
                else {
                    static const vector<int> ops = {2, 3, 3, 4, 6, 0};
                    f.op = (sim::FsFaultOp)r.pick(ops);
                    f.err = r.p(50) || p.cfg["backend"] == "rocksdb" ? 5 : 28;
                }
                f.match = dir;
                if (r.p(35)) { f.nth = 1; f.count = 0; }
                else { f.nth = r.range(1, 6); f.count = r.range(1, 3); }
                b.faults.push_back(f);
                Op o = op(-1, "open");
                if (f.op == sim::FF_OPEN && f.count == 0 && f.nth == 1) o.args.push_back("must_fail");
                b.ops.push_back(o);
                for (int q = 0; q < (f.count ? f.count + 1 : 1); q++) { if (r.p(30)) all(b, "bar"); open(b); }
                read_all(b);
                if (f.op != sim::FF_WRITE) { steps(b, m, r.range(0, 5)); all(b, "flush"); }
                close(b);
            }
            Inc &c = inc();
            open(c);
            read_all(c);
            steps(c, m, r.range(0, 6));
            all(c, "flush");
            all(c, "bar");
            read_all(c);
            close(c);
        } else if (prop == "C19") {
            static const vector<string> others = {"C01", "C02", "C04", "C07", "C07", "C08", "C10", "C12", "C12", "C13", "C14", "C20", "C23"};
            run(r.pick(others), variant);
        } else if (prop == "C20") {
            topology(4);
            if (r.p(40)) backend(45, 10); else persistent();
            tuning();
            strategy();
            xforms(r.p(70) ? r.range(3, 25) : 0);
            m.types = r.range(10, 60); m.getop = 22; m.del = 12; m.nofloat = r.p(80); m.nkeys = r.range(3, 9); m.perms = 20; m.bulk = 45; m.lookalike = 25;
            if (r.p(35)) { tracked(1); m.floats = 20; m.hist = 6; }
            const bool mem = p.cfg["backend"] == "mem";
            // the second session encodes numbers with other symbols
            const bool mixed = !mem && r.p(25);
            if (mixed) {
                const int types = m.types;
                m.types = 0;
                xbad = 0;
                pick_keys(m);
                m.types = types;
                m.own_perm = 1;
            } else pick_keys(m);
            const int incs = mem ? 1 : mixed ? 2 : r.range(1, 2);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (i) retune(n);
                if (i && mixed) n.cfg["elen"] = p.cfg["elen"] == "1" ? "0" : "1";
                open(n);
                if (i) read_all(n);
                steps(n, m, r.range(6, 24));
                all(n, "flush");
                all(n, "bar");
                read_all(n);
                if (i + 1 < incs && r.p(40)) { all(n, "sync"); all(n, "bar"); die(n, r.range(1, 2)); } else close(n);
            }
        } else if (prop == "C21") {
            m.nkeys = r.range(3, 8); m.getop = 8; m.nofloat = r.p(60); m.bulk = 45; m.sync = 2; m.del = 8;
            topology(5);
            if (r.p(25)) backend(0, 0); else persistent();
            tuning();
            static const vector<string> lib = {"zero", "rank", "sum", "UTHASH_BER", "UTHASH_SAX", "UTHASH_FNV", "UTHASH_OAT", "UTHASH_JEN", "UTHASH_SFH"};
            if (r.p(60)) p.cfg["hash"] = r.pick(lib);
            unreachable(15);
            strategy();
            if (r.p(50)) { tracked(r.range(1, 3)); m.floats = 45; m.hist = 15; if (r.p(30)) p.cfg["hist_read"] = "0"; if (r.p(30)) p.cfg["hist_write"] = "0"; }
            if (r.p(50)) p.cfg["basename"] = "base" + to_string(r.below(9));
            if (r.p(25)) p.cfg["prefix"] = SIMDISK "/some dir";
            pick_keys(m);
            const bool mem = p.cfg["backend"] == "mem";
            // where each setting of a session comes from
            auto sources = [&](Inc &n) {
                n.cfg["conf"] = to_string(1 + (r.next() >> 2));
                const int api = r.pick(vector<int>{0, 15, 50});
                for (auto &k : conf_keys()) {
                    if (r.p(20)) continue;
                    string v = r.p(api) ? "a" : string(1, "fev"[r.below(3)]);
                    const string lower = v == "a" ? (k == "track" ? "" : "fev") : v == "v" ? "fe" : v == "e" ? "f" : "";
                    for (char c : lower) if (r.p(45)) v += c;
                    n.cfg["conf." + k] = v;
                }
            };
            const int incs = mem ? 1 : r.range(1, 2);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                if (!i || r.p(60)) sources(n);
                if (!mem && !i && r.p(12)) {
                    // nothing is there yet
                    n.cfg["create"] = "0";
                    n.cfg["open_fails"] = "1";
                    Op o = op(-1, "open");
                    o.args.push_back("must_fail");
                    n.ops.push_back(o);
                    continue;
                }
                const int cycles = r.range(1, 2);
                for (int c = 0; c < cycles; c++) {
                    open(n);
                    if (i || c) read_all(n);
                    steps(n, m, r.range(3, 14));
                    all(n, "flush");
                    all(n, "bar");
                    read_all(n);
                    close(n);
                }
            }
            if (!mem) {
                // set through the API only
                Inc &n = inc();
                open(n);
                read_all(n);
                close(n);
            }
        } else if (prop == "C23") {
            m.getop = 14; m.hist = 8; m.bulk = 40; m.perms = 20; m.max_bulk = 7; m.sync = 5;
            p.cfg["track0"] = H("h0"); track = {H("h0")}; m.floats = 25;
            m.nofloat = r.p(50);
            basic(m, 25, 5, 6, 32, 4, 15);
            if (r.p(30)) {
                // another session, whose timing and counts start afresh
                m.getop = 0;
                Inc &n = p.incs[0];
                open(n);
                steps(n, m, r.range(3, 14));
                all(n, "flush");
                close(n);
            }
            if (r.p(25)) p.cfg["hold"] = "1";
            p.cfg["mlog"] = "1";             // the summary is read from the log
            for (auto &n : p.incs) if (!n.cfg.empty()) n.cfg["mlog"] = "1";
        } else if (prop == "C22") {
            m.nkeys = r.range(2, 6); m.getop = 6; m.bulk = 40; m.del = 8;
            const bool one = r.p(30);
            topology(one ? 3 : 6);
            if (one) persistent(); else backend(40, 10);
            tuning();
            if (one && p.cfg["hash"].compare(0, 6, "UTHASH") == 0) p.cfg["hash"] = "fnv";
            strategy();
            if (!one && r.p(60)) { tracked(r.range(1, 3)); m.floats = 25; m.hist = 6; }
            if (r.p(50)) p.cfg["badset"] = "1";
            if (r.p(50)) p.cfg["hold"] = "1";
            pick_keys(m);
            const bool mem = p.cfg["backend"] == "mem";
            const int world = ranks, stores = total;
            auto look = [&](Inc &n) {
                const int rk = r.p(60) ? -1 : (int)r.below(ranks);
                if (r.p(75)) {
                    Op o = op(rk, "info");
                    for (auto &t : track) if (r.p(60)) o.args.push_back(t);
                    for (const char *t : {"h", "h00", "x", "h3", "H0"}) if (r.p(20)) o.args.push_back(H(t));
                    n.ops.push_back(o);
                }
                if (r.p(60)) n.ops.push_back(op(r.p(70) ? rk : (int)r.below(ranks), "refuse"));
            };
            // what comes before a session
            auto approach = [&](Inc &n) {
                if (r.p(50)) look(n);
                if (r.p(40)) { all(n, "init"); look(n); if (r.p(30)) { all(n, "abandon"); look(n); } }
            };
            const bool rehash = r.p(50);
            auto session = [&](Inc &n) {
                look(n);
                const int parts = r.range(1, 3);
                for (int q = 0; q < parts; q++) {
                    steps(n, m, r.range(1, 8));
                    look(n);
                    if (!mem && r.p(30)) {
                        const bool alone = n.cfg.count("one");      // which does not create anything
                        if (alone || !rehash) chname(n, !alone && r.p(50) ? "n1" : "a");
                        else switch (r.below(3)) {
                            case 0: chhash(n, "h1", "fnv2"); break;
                            case 1: chhash(n, "h2", "last"); break;
                            default: chhash(n, "a", p.cfg["hash"]);
                        }
                        look(n);
                    }
                }
                all(n, "flush");
                all(n, "bar");
                if (r.p(50)) read_all(n);
                close(n);
                if (r.p(60)) look(n);
            };
            if (one) p.cfg["split"] = "1";
            const int incs = one ? 1 : r.range(1, 2);
            for (int i = 0; i < incs; i++) {
                Inc &n = inc();
                const int cycles = r.range(1, 2);
                for (int c = 0; c < cycles; c++) {
                    approach(n);
                    if (world > 1 && r.p(20)) {
                        // only for one process
                        n.cfg["open_fails"] = "1";
                        Op o = op(-1, "openone");
                        o.args = {SIMDISK "/db/a-0", "must_fail"};
                        n.ops.push_back(o);
                        approach(n);
                    }
                    open(n);
                    session(n);
                }
            }
            if (one) {
                // a single process looks into one of the datastores
                const int tries = r.range(1, 3);
                for (int i = 0; i < tries; i++) {
                    Inc &n = inc();
                    const int ds = r.below(stores);
                    n.cfg["ranks"] = "1"; n.cfg["one"] = "1"; n.cfg["one_ds"] = to_string(ds);
                    if (r.p(60)) { n.cfg["per_server"] = to_string(r.range(1, 3)); n.cfg["client_ratio"] = to_string(r.range(1, 3)); n.cfg["server_ratio"] = to_string(r.range(1, 2)); }
                    ranks = total = 1;
                    approach(n);
                    if (r.p(25)) {
                        n.cfg["open_fails"] = "1";
                        Op o = op(-1, "openone");
                        o.args = {SIMDISK "/db/missing-0", "must_fail"};
                        n.ops.push_back(o);
                        if (r.p(50)) approach(n);
                    }
                    Op o = op(-1, "openone");
                    o.args = {SIMDISK "/db/a-" + to_string(ds) + (p.cfg.count("postfix") ? p.cfg["postfix"] : "")};
                    n.ops.push_back(o);
                    if (r.p(70)) read_all(n);
                    session(n);
                }
                ranks = world; total = stores;
                Inc &n = inc();
                open(n);
                read_all(n);
                session(n);
            }
        } else basic(m, 25, 5, 6, 36);
    }
};
} // namespace

Plan generate(const string &prop, uint64_t seed, uint64_t index, const string &variant) {
    Gen g;
    uint64_t h = 0;
    for (char c : prop + "/" + variant) h = h * 131 + (unsigned char)c;
    g.r.s = sim::mix2(sim::mix2(seed, h), index);
    g.p.prop = prop;
    g.run(prop, variant);
    return g.p;
}
