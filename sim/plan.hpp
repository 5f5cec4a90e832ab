// A plan is everything one simulated run is made of: configuration, scheduling
// strategy, faults, the program every rank executes, and (in a replay file)
// the recorded choices of the scheduler.  It is plain text, one item per line.
#ifndef PLAN_HPP
#define PLAN_HPP
#include <cstdint>
#include <map>
#include <string>
#include <vector>
#include "sim.hpp"
#include "simfs.hpp"

struct Elem {                 // one subject, predicate or object
    int type = 7;             // hxhim_data_t
    std::string bytes;
    bool null = false;
};
// xHEX bytes | i/I/u/U integer | f/d real | vLEN generated unique value | - null
Elem parse_elem(const std::string &spec, uint64_t op, uint32_t idx);
std::string hex_elem(const std::string &bytes);

struct Triple {               // decoded argument of an operation
    std::string spec;
    uint32_t idx = 0;
    Elem s, p, o;
    uint32_t perm = 1;
    int otype = 7;
    uint64_t nrec = 0;
    int getop = 0;
    int rs = 0;
    bool has_o = false;
};

struct Op {
    uint64_t id = 0;
    int rank = -1;            // -1: every rank
    std::string kind;
    std::vector<std::string> args;
    std::vector<Triple> triples() const;
    std::string str() const;
};

struct Inc {
    std::map<std::string, std::string> cfg;   // overrides
    sim::CrashSpec crash;
    std::vector<sim::FsFault> faults;
    std::vector<Op> ops;
    std::vector<sim::ChoiceRec> choices;
};

struct Plan {
    std::string prop;
    std::string note;         // expected outcome, in replay files
    std::map<std::string, std::string> cfg;
    std::map<std::string, std::string> strat;
    std::vector<Inc> incs;
    bool replay = false;      // choices are given, nothing is drawn
    std::string text() const;
    bool parse(const std::string &text, std::string *err);
    std::string get(int inc, const std::string &k, const std::string &dflt) const;
    long geti(int inc, const std::string &k, long dflt) const;
    sim::Strategy strategy(int inc) const;
};
inline bool is_bulk(const std::string &k) { return !k.empty() && k[0] == 'b' && k != "bar"; }
// put get getop del hist, or ""
std::string base_kind(const std::string &k);
// "flush" "sync" ... : calls that return results; *mask gets the kinds they flush
enum { M_PUT = 1, M_GET = 2, M_GETOP = 4, M_DEL = 8, M_HIST = 16, M_ALL = 31 };
int flush_mask(const std::string &k);
// cfg egroup: ranks in the endpoint group, "0.2.", or "none"
inline bool in_group(const std::string &g, int rank) { return ("." + g).find("." + std::to_string(rank) + ".") != std::string::npos; }

// ---------------------------------------------------------------- user transform functions
// cfg xform: which types the program converts itself, and how
enum { XF_BYTE = 1, XF_DOUBLE = 2, XF_INT64 = 4, XF_INT32 = 8, XF_BADDECODE = 16 };
inline bool xf_custom(int mask, int type) {
    return (type == 7 && (mask & XF_BYTE)) || (type == 6 && (mask & XF_DOUBLE)) || (type == 2 && (mask & XF_INT64)) || (type == 1 && (mask & XF_INT32));
}
bool xf_encode(int mask, int type, const std::string &in, std::string *out);   // false: the function refuses
bool xf_decode(int mask, int type, const std::string &in, std::string *out);
bool not_a_number(int type, const std::string &b);                             // cannot be stored by the library's own functions
inline bool xf_accepts(int mask, const Elem &e) { std::string o; return xf_custom(mask, e.type) ? xf_encode(mask, e.type, e.bytes, &o) : !not_a_number(e.type, e.bytes); }
inline bool xf_readable(int mask, int type, const std::string &b) { std::string o, p; return !xf_custom(mask, type) || (xf_encode(mask, type, b, &o) && xf_decode(mask, type, o, &p)); }

// ---------------------------------------------------------------- history
enum EvType : uint8_t {
    EV_INC = 1,      // incarnation starts: a = number
    EV_INVOKE,       // operation starts
    EV_RETURN,       // a = return code
    EV_RESULT,       // op = flushing operation, idx = position; see below
    EV_RESEND,       // results of op complete: a = count, -1 null list
    EV_PACKET,       // request packet: a = src b = dst rank c = datastore, d = kind e = count f = bytes; s0 = (op,idx,elem) records
    EV_INFO,         // a = datastores, after open
    EV_LEAK,         // a = objects, b = bytes
    EV_FAULT,        // storage fault injected: a = kind, s0 = path
    EV_FACTS,        // what the accessors said: a = the session is open, s0 = one line per fact
};
// EV_RESULT: a = op kind, b = status, c = range server, d = subject identity,
// e = predicate identity (-1 unknown), f = types (s | p<<8 | o<<16);
// s0..s2 = subject, predicate, object bytes; histograms: s0 = name, s1 = counts, s2 = buckets
struct Event {
    EvType type;
    int rank = -1;
    uint64_t seq = 0, op = 0;
    uint32_t idx = 0;
    int64_t a = 0, b = 0, c = 0, d = -1, e = -1, f = 0;
    std::string s0, s1, s2;
};
void history_add(const Event &e);                 // child
std::vector<Event> history_read();                // parent
// identity of a user buffer: op << 24 | idx << 2 | element (0 s, 1 p, 2 o)
inline int64_t ident(uint64_t op, uint32_t idx, int elem) { return (int64_t)(op << 24 | (uint64_t)idx << 2 | elem); }

// GETOP requests carry no identities, so packets show this instead
inline int64_t getop_print(int op, uint64_t nrec, int otype, const std::string &s, int st, const std::string &p, int pt) {
    uint64_t h = sim::mix64(op * 1000003ull + nrec * 31 + otype);
    if (op == 3 || op == 4) return (int64_t)h;          // FIRST and LAST name nothing
    for (unsigned char c : s) h = sim::mix64(h ^ c);
    h = sim::mix64(h ^ 0x1000 ^ st);
    for (unsigned char c : p) h = sim::mix64(h ^ c);
    return (int64_t)sim::mix64(h ^ 0x2000 ^ (p.empty() ? 0 : pt));
}

// ---------------------------------------------------------------- parts
// driver.cpp: runs one incarnation in the current process; does not return
[[noreturn]] void drive(const Plan &plan, int inc);

struct Verdict {
    bool ok = true;
    std::string prop;      // property the finding belongs to
    std::string cls;       // stable class, e.g. "stale-read"
    std::string msg;
};
// oracle.cpp
struct RunInfo {
    std::vector<uint32_t> outcomes;    // per incarnation
    std::vector<std::string> hashes;
};
Verdict judge(const Plan &plan, const std::vector<Event> &hist, const RunInfo &info, std::map<std::string, uint64_t> &stats);
// workload.cpp
Plan generate(const std::string &prop, uint64_t seed, uint64_t index, const std::string &variant);
#endif
