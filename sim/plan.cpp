#include "plan.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <sstream>

using std::string;
using std::vector;

string hex_elem(const string &b) {
    static const char *d = "0123456789abcdef";
    string s = "x";
    for (unsigned char c : b) { s += d[c >> 4]; s += d[c & 15]; }
    return s;
}
static int unhex(char c) { return c >= 'a' ? c - 'a' + 10 : c - '0'; }

Elem parse_elem(const string &t, uint64_t op, uint32_t idx) {
    Elem e;
    const char *v = t.c_str() + 1;
    auto put = [&](int type, const void *p, size_t n) { e.type = type; e.bytes.assign((const char *)p, n); };
    if (t.empty() || t == "-") { e.null = true; return e; }
    // -i etc.: null with the given type
    if (t[0] == '-') {
        e = parse_elem(t.substr(1) + "0", op, idx);
        e.bytes.clear(); e.null = true;
        return e;
    }
    switch (t[0]) {
        case 'i': { int32_t x = atol(v); put(1, &x, 4); break; }
        case 'I': { int64_t x = atoll(v); put(2, &x, 8); break; }
        case 'u': { uint32_t x = strtoul(v, 0, 10); put(3, &x, 4); break; }
        case 'U': { uint64_t x = strtoull(v, 0, 10); put(4, &x, 8); break; }
        case 'f': { float x = strtof(v, 0); put(5, &x, 4); break; }
        case 'd': { double x = strtod(v, 0); put(6, &x, 8); break; }
        case 'v': {
            size_t n = strtoul(v, 0, 10);
            char h[48];
            snprintf(h, sizeof h, "v%llx.%x.", (unsigned long long)op, idx);
            e.type = 7;
            e.bytes = h;
            uint64_t x = sim::mix2(op, idx);
            while (e.bytes.size() < n) { x = sim::mix64(x); e.bytes += (char)(x >> 32); }
            e.bytes.resize(n);
            break;
        }
        case 'x': {
            e.type = 7;
            for (; v[0] && v[1]; v += 2) e.bytes += (char)(unhex(v[0]) << 4 | unhex(v[1]));
            break;
        }
        default: e.null = true;
    }
    return e;
}

string base_kind(const string &k) {
    static const char *names[] = {"getop", "put", "get", "del", "hist", nullptr};
    string b = is_bulk(k) ? k.substr(1) : k;
    for (int i = 0; names[i]; i++) if (b.compare(0, strlen(names[i]), names[i]) == 0) return names[i];
    return "";
}
int flush_mask(const string &k) {
    if (k == "flush" || k == "sync" || k == "chname" || k == "chhash") return M_ALL;
    if (k == "close") return M_ALL;
    if (k == "flushputs") return M_PUT;
    if (k == "flushgets") return M_GET;
    if (k == "flushgetops") return M_GETOP;
    if (k == "flushdels") return M_DEL;
    if (k == "flushhists") return M_HIST;
    return 0;
}

static vector<string> split(const string &s, char sep) {
    vector<string> v;
    string cur;
    for (char c : s) if (c == sep) { v.push_back(cur); cur.clear(); } else cur += c;
    v.push_back(cur);
    return v;
}

vector<Triple> Op::triples() const {
    vector<Triple> out;
    string b = base_kind(kind);
    if (b.empty()) return out;
    for (auto &a : args) {
        Triple t;
        t.spec = a;
        auto f = split(a, '/');
        // <idx>:s/p/... : the index is part of the text so that removing an
        // argument does not rename the others
        uint32_t idx = out.size();
        size_t colon = f[0].find(':');
        if (colon != string::npos) { idx = strtoul(f[0].c_str(), 0, 10); f[0] = f[0].substr(colon + 1); }
        f.resize(6);
        t.idx = idx;
        if (b == "hist") {
            t.rs = atoi(f[0].c_str());
            t.p = parse_elem(f[1], id, idx);
        } else {
            t.s = parse_elem(f[0], id, idx);
            t.p = parse_elem(f[1], id, idx);
            if (b == "put") {
                t.o = parse_elem(f[2], id, idx); t.has_o = true;
                t.perm = strtoul(f[3].c_str(), 0, 10);
            }
            if (b == "get") t.otype = f[2].empty() ? 7 : atoi(f[2].c_str());
            if (b == "getop") {
                t.otype = f[2].empty() ? 7 : atoi(f[2].c_str());
                t.nrec = strtoull(f[3].c_str(), 0, 10);
                t.getop = atoi(f[4].c_str());
            }
        }
        out.push_back(t);
    }
    return out;
}
string Op::str() const {
    std::ostringstream s;
    s << "op " << id << " ";
    if (rank < 0) s << "*"; else s << rank;
    s << " " << kind;
    for (auto &a : args) s << " " << a;
    return s.str();
}

string Plan::text() const {
    std::ostringstream s;
    s << "prop " << prop << "\n";
    if (!note.empty()) s << "note " << note << "\n";
    for (auto &c : cfg) s << "cfg " << c.first << " " << c.second << "\n";
    for (auto &c : strat) s << "strat " << c.first << " " << c.second << "\n";
    if (replay) s << "replay 1\n";
    for (size_t i = 0; i < incs.size(); i++) {
        const Inc &n = incs[i];
        s << "inc " << i << "\n";
        for (auto &c : n.cfg) s << "icfg " << c.first << " " << c.second << "\n";
        if (n.crash.kind) s << "crash " << n.crash.kind << " " << n.crash.at_fsop << " " << n.crash.at_step << " " << n.crash.at_op << "\n";
        for (auto &f : n.faults)
            s << "fault " << f.op << " " << f.err << " " << f.nth << " " << f.count << " " << (f.match.empty() ? "*" : f.match) << " " << f.shortw << "\n";
        for (auto &o : n.ops) s << o.str() << "\n";
        for (auto &c : n.choices) s << "choice " << c.key << " " << c.kind << " " << c.nth << " " << c.value << "\n";
    }
    return s.str();
}
bool Plan::parse(const string &text, string *err) {
    *this = Plan();
    std::istringstream in(text);
    string line;
    while (std::getline(in, line)) {
        if (line.empty() || line[0] == '#') continue;
        std::istringstream l(line);
        string w;
        l >> w;
        auto rest = [&]() { string r; std::getline(l, r); size_t i = r.find_first_not_of(' '); return i == string::npos ? string() : r.substr(i); };
        if (w == "prop") l >> prop;
        else if (w == "note") note = rest();
        else if (w == "cfg") { string k; l >> k; cfg[k] = rest(); }
        else if (w == "strat") { string k; l >> k; strat[k] = rest(); }
        else if (w == "replay") replay = true;
        else if (w == "inc") incs.push_back(Inc());
        else if (incs.empty()) { *err = "line before the first inc: " + line; return false; }
        else if (w == "icfg") { string k; l >> k; incs.back().cfg[k] = rest(); }
        else if (w == "crash") { auto &c = incs.back().crash; l >> c.kind >> c.at_fsop >> c.at_step >> c.at_op; }
        else if (w == "fault") {
            sim::FsFault f; int sw = 0;
            l >> f.op >> f.err >> f.nth >> f.count >> f.match >> sw;
            if (f.match == "*") f.match.clear();
            f.shortw = sw;
            incs.back().faults.push_back(f);
        }
        else if (w == "op") {
            Op o; string r, a;
            l >> o.id >> r >> o.kind;
            o.rank = r == "*" ? -1 : atoi(r.c_str());
            while (l >> a) o.args.push_back(a);
            incs.back().ops.push_back(o);
        }
        else if (w == "choice") {
            sim::ChoiceRec c{};
            l >> c.key >> c.kind >> c.nth >> c.value;
            incs.back().choices.push_back(c);
        }
        else { *err = "cannot parse: " + line; return false; }
    }
    if (incs.empty()) { *err = "no incarnation"; return false; }
    return true;
}
string Plan::get(int inc, const string &k, const string &d) const {
    if (inc >= 0 && inc < (int)incs.size()) {
        auto it = incs[inc].cfg.find(k);
        if (it != incs[inc].cfg.end()) return it->second;
    }
    auto it = cfg.find(k);
    return it == cfg.end() ? d : it->second;
}
long Plan::geti(int inc, const string &k, long d) const {
    string s = get(inc, k, "");
    return s.empty() ? d : atol(s.c_str());
}
sim::Strategy Plan::strategy(int inc) const {
    sim::Strategy s;
    auto g = [&](const char *k, uint64_t d) -> uint64_t { auto it = strat.find(k); return it == strat.end() ? d : strtoull(it->second.c_str(), 0, 10); };
    s.seed = sim::mix2(g("seed", 1), inc);
    s.mode = g("mode", 0);
#define G(x) s.x = g(#x, s.x)
    G(p_switch); G(p_alloc); G(p_clock); G(p_stall); G(stall_len); G(changes); G(horizon); G(p_delay); G(max_delay);
    G(p_rendezvous); G(p_match); G(p_spurious); G(p_poll); G(p_clockjump); G(max_steps);
#undef G
    return s;
}

// ---------------------------------------------------------------- history
static void w(string &o, const void *p, size_t n) { o.append((const char *)p, n); }
void history_add(const Event &e) {
    string o;
    w(o, &e.type, 1); w(o, &e.rank, 4); w(o, &e.seq, 8); w(o, &e.op, 8); w(o, &e.idx, 4);
    int64_t v[6] = {e.a, e.b, e.c, e.d, e.e, e.f};
    w(o, v, sizeof v);
    for (const string *s : {&e.s0, &e.s1, &e.s2}) { uint32_t n = s->size(); w(o, &n, 4); o += *s; }
    if (sim::sh->hist_len + o.size() > sim::HIST_CAP) sim::harness_error("history buffer full");
    memcpy(sim::sh->hist + sim::sh->hist_len, o.data(), o.size());
    sim::sh->hist_len += o.size();
}
vector<Event> history_read() {
    vector<Event> out;
    const uint8_t *p = sim::sh->hist, *end = p + sim::sh->hist_len;
    auto r = [&](void *d, size_t n) { memcpy(d, p, n); p += n; };
    while (p < end) {
        Event e;
        r(&e.type, 1); r(&e.rank, 4); r(&e.seq, 8); r(&e.op, 8); r(&e.idx, 4);
        int64_t v[6];
        r(v, sizeof v);
        e.a = v[0]; e.b = v[1]; e.c = v[2]; e.d = v[3]; e.e = v[4]; e.f = v[5];
        for (string *s : {&e.s0, &e.s1, &e.s2}) { uint32_t n; r(&n, 4); s->assign((const char *)p, n); p += n; }
        out.push_back(std::move(e));
    }
    return out;
}

// ---------------------------------------------------------------- user transform functions
bool not_a_number(int type, const string &b) {
    float f = 0;
    double d = 0;
    if (type == 5 && b.size() == 4) memcpy(&f, b.data(), 4);
    if (type == 6 && b.size() == 8) memcpy(&d, b.data(), 8);
    return f != f || d != d;
}
bool xf_encode(int mask, int type, const string &in, string *out) {
    out->clear();
    if (type == 7) {                                    // text: another alphabet, one byte longer
        if (in.empty() || in[0] == '!') return false;
        *out = "~";
        for (unsigned char c : in) *out += (char)(c ^ 0x2a);
        return true;
    }
    if (type == 1) { *out = in; return in.size() == 4; }   // no function: stored as it is
    if (in.size() != 8) return false;
    uint64_t u;
    memcpy(&u, in.data(), 8);
    if (type == 6) {
        double d;
        memcpy(&d, in.data(), 8);
        if (d == 666.25) return false;
        u = u >> 63 ? ~u : u | 1ull << 63;              // ascending
    } else {
        if (u == 666) return false;
        u = ~(u ^ 1ull << 63);                          // descending
    }
    for (int i = 7; i >= 0; i--) *out += (char)(u >> (8 * i));
    (void)mask;
    return true;
}
bool xf_decode(int mask, int type, const string &in, string *out) {
    out->clear();
    if (type == 7) {
        if (in.empty() || in[0] != '~') return false;
        for (size_t i = 1; i < in.size(); i++) *out += (char)(in[i] ^ 0x2a);
        return !((mask & XF_BADDECODE) && !out->empty() && (*out)[0] == '^');
    }
    if (type == 1) { *out = in; return true; }
    if (in.size() != 8) return false;
    uint64_t u = 0;
    for (unsigned char c : in) u = u << 8 | c;
    if (type == 6) u = u >> 63 ? u & ~(1ull << 63) : ~u;
    else u = ~u ^ 1ull << 63;
    out->assign((const char *)&u, 8);
    return true;
}
