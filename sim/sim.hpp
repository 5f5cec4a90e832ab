// Core of the deterministic simulator: one process, real pthreads that run one
// at a time, every scheduling decision, delay and fault drawn from one seed
// (or read back from a recorded trace).
#ifndef SIM_HPP
#define SIM_HPP

#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace sim {

// ---------------------------------------------------------------- choices
// A choice is identified by (key of the deciding thread, kind, how many
// choices of that kind the thread made before).  0 is always the quiet
// default: keep running the current thread, deliver at once, no fault.
enum Kind : uint32_t {
    K_SCHED = 1,     // which thread runs next (value = thread key)
    K_DELAY,         // message delay (value = microseconds)
    K_MATCH,         // order in which wildcard receives see messages
    K_SENDMODE,      // 1 = send completes only when the receiver takes it
    K_SPURIOUS,      // spurious wake-up of a condition variable
    K_SIGNAL,        // which waiter a signal wakes
    K_TEAR,          // how much of the unsynced data survives a power loss
    K_META,          // how much of the unsynced metadata survives
    K_STALL,         // stall of a thread (value = steps)
    K_POLL,          // run a polling thread although nothing changed
    K_CLOCK,         // extra clock advance (value = microseconds)
    K_SHORT,         // short read or write (value = bytes not transferred)
    K_MAX
};
const char *kind_name(uint32_t kind);

// A choice in generate mode is gen(random), recorded when it is not 0; in
// replay mode it is the recorded value, or 0.
template <typename F> uint64_t choose(Kind kind, F gen);
bool     choice_begin(Kind kind, uint64_t *rnd, uint64_t *value, uint64_t *nth);
void     choice_record(Kind kind, uint64_t nth, uint64_t value);
template <typename F> uint64_t choose(Kind kind, F gen) {
    uint64_t rnd, value, nth;
    if (choice_begin(kind, &rnd, &value, &nth)) {   // generate
        value = gen(rnd);
        if (value) choice_record(kind, nth, value);
    }
    return value;
}
// p of 65536
inline uint64_t flip(Kind kind, uint32_t p) {
    return choose(kind, [p](uint64_t r) -> uint64_t { return (r & 0xffff) < p; });
}
// choices of the calling thread are from now on counted afresh under this key,
// so that removing an earlier operation from a plan leaves them alone
void set_context(uint64_t id);

// ---------------------------------------------------------------- strategy
struct Strategy {
    uint64_t seed = 1;
    int mode = 0;              // 0 random walk, 1 priorities with change points, 2 random walk with stalls
    uint32_t p_switch = 64;    // of 65536, per point
    uint32_t p_alloc = 8;      // of 65536, at allocations and instrumented accesses
    uint32_t p_clock = 64;     // of 65536, at clock reads
    uint32_t p_stall = 0;      // of 65536
    uint32_t stall_len = 0;
    uint32_t changes = 0;      // change points (mode 1)
    uint32_t horizon = 20000;  // steps over which change points are spread
    uint32_t p_delay = 0;      // of 65536, per message
    uint32_t max_delay = 0;    // microseconds
    uint32_t p_rendezvous = 0; // of 65536, per message
    uint32_t p_match = 0;
    uint32_t p_spurious = 0;
    uint32_t p_poll = 0;
    uint32_t p_clockjump = 0;  // of 65536, per clock read
    uint64_t max_steps = 3000000;
};

// ---------------------------------------------------------------- faults
// Storage faults and crashes are part of the plan, not of the trace.
struct CrashSpec {
    int kind = 0;              // 0 none, 1 process kill (written data survives), 2 power loss
    uint64_t at_fsop = 0;      // before the n-th mutating storage operation (1 based), 0 = unused
    uint64_t at_step = 0;      // at the n-th scheduling step, 0 = unused
    uint64_t at_op = 0;        // when the n-th driver operation starts (1 based), 0 = unused
};

enum PointKind { PT_MUTEX, PT_COND, PT_MPI, PT_FS, PT_ALLOC, PT_CLOCK, PT_THREAD, PT_ACCESS, PT_DRIVER, PT_KINDS };

// ---------------------------------------------------------------- shared area
static const size_t HIST_CAP   = 24u << 20;
static const size_t CHOICE_CAP = 1u << 20;     // entries
static const size_t DISK_CAP   = 48u << 20;
static const size_t MSG_CAP    = 16384;

struct ChoiceRec { uint64_t key; uint64_t nth; uint32_t kind; uint32_t pad; uint64_t value; };

enum Outcome : uint32_t { O_NONE = 0, O_DONE, O_CRASHED, O_VIOLATION, O_HARNESS };

struct Counters {
    uint64_t steps, switches, threads, sim_ns;
    uint64_t points[PT_KINDS];
    uint64_t msgs, msg_delayed, msg_rendezvous, msg_bytes, wildcard_multi;
    uint64_t cond_spurious, stalls, clock_jumps, polls_spurious, prio_changes;
    uint64_t fs_ops, fs_syncs, fs_write_err, fs_sync_err, fs_read_err, fs_open_err, fs_rename_err, fs_nospace, fs_short;
    uint64_t crash_kill, crash_power, crash_lost_bytes, crash_torn_files, crash_lost_meta;
    uint64_t accesses, races_checked;
    uint64_t req_packets, req_multi, allocs, frees;
};
static const size_t COVER_BITS = 1u << 16;

struct Shared {
    uint32_t outcome;
    uint32_t pad;
    char     viol_class[64];       // e.g. "hang", "mpi-truncate"
    char     message[MSG_CAP];
    uint64_t trace_hash;           // hash over every scheduling decision and event
    uint64_t state_hash;           // order-insensitive hash of interleaving context, for counting distinct ones
    Counters c;
    uint64_t hist_len;
    uint64_t choice_len;
    uint64_t choice_dropped;
    uint64_t disk_len;
    int64_t  alloc_live;           // live objects at the end of the run minus at the start
    uint8_t  cover[COVER_BITS / 8]; // which preemption contexts were reached
    ChoiceRec choices[CHOICE_CAP];
    uint8_t  hist[HIST_CAP];
    uint8_t  disk[DISK_CAP];
};
extern Shared *sh;

void shared_create();              // parent, once

// ---------------------------------------------------------------- control
void configure(const Strategy &s, const CrashSpec &c, const std::vector<ChoiceRec> *replay);
// runs fn(rank) as one simulated thread per rank; returns when all are done.
void run_ranks(int nranks, const std::function<void(int)> &fn);

[[noreturn]] void violation(const char *cls, const char *fmt, ...) __attribute__((format(printf, 2, 3)));
[[noreturn]] void harness_error(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void finish(Outcome o);
void crash_now(int kind);          // ends the incarnation the way the machine would

bool active();                     // on a simulated thread
bool quiet();                      // inside the simulator or the driver
int  rank();                       // rank of the current simulated thread (-1 outside)
uint64_t seqno();                  // next global event number
uint64_t steps();
uint64_t now_ns();
void progress();                   // something observable happened
void trace_mix(uint64_t v);        // add to the event hash
void log(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
extern bool logging;

// ---------------------------------------------------------------- scheduling
void point(PointKind k);                       // possible preemption
void wait_on(const void *obj, const char *what);           // block until wake(obj)
bool wait_on_until(const void *obj, uint64_t deadline_ns); // false on timeout
void wake(const void *obj, bool all = true);
void poll_pause();                             // a poll found nothing
void poll_done();                              // a poll succeeded
void at_time(uint64_t t_ns, const std::function<void()> &fn); // network events
void sleep_ns(uint64_t ns);

// no preemption while such an object lives (code of the simulator itself)
struct Quiet { Quiet(); ~Quiet(); };
void quiet_enter();
void quiet_leave();

// hooks used by other parts of the simulator
extern std::function<void(int)> on_crash;      // called with kind before an incarnation dies

// vector clocks for the data race detector (happens-before edges)
void hb_acquire(const void *obj);
void hb_release(const void *obj);
void hb_thread_start(int parent, int child);
void hb_thread_join(int joiner, int joined);
int  thread_id();                              // dense id, -1 outside
void set_cover_tag(uint32_t tag);              // what the calling thread is doing, for coverage

int64_t live_objects();                        // heap objects of the code under test
int64_t live_bytes();

uint64_t mix64(uint64_t x);
inline uint64_t mix2(uint64_t a, uint64_t b) { return mix64(a * 0x9E3779B97F4A7C15ull + b); }

} // namespace sim
#endif
