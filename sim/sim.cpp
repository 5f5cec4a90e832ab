// Scheduler, choices, virtual clock, crash handling.  See sim.hpp.
#include "sim.hpp"
#include "real.hpp"

#include <algorithm>
#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <execinfo.h>
#include <linux/futex.h>
#include <map>
#include <signal.h>
#include <sys/mman.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <unordered_map>

namespace sim {

Shared *sh = nullptr;
bool logging = false;
std::function<void(int)> on_crash;

const char *kind_name(uint32_t kind) {
    static const char *n[] = {"?", "sched", "delay", "match", "sendmode", "spurious", "signal", "tear",
                              "meta", "stall", "poll", "clock", "short"};
    return kind < K_MAX ? n[kind] : "?";
}

uint64_t mix64(uint64_t x) {
    x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull;
    x ^= x >> 27; x *= 0x94d049bb133111ebull;
    x ^= x >> 31;
    return x;
}

void shared_create() {
    sh = (Shared *) mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE,
                         MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    if (sh == MAP_FAILED) {
        perror("mmap shared");
        exit(3);
    }
}

// ------------------------------------------------------------------ threads
enum State { RUNNABLE, BLOCKED, POLLING, DONE };

struct Thread {
    int       id = 0;
    uint64_t  key = 0;
    uint64_t  ctx = 0;
    uint64_t  children = 0;
    uint64_t  nth[K_MAX] = {};
    uint64_t  nth_sched = 0;
    int       rank = -1;
    State     state = RUNNABLE;
    const void *obj = nullptr;
    const char *what = "";
    uint64_t  deadline = 0;      // 0: none
    bool      timed_out = false;
    bool      spurious = false;
    uint64_t  poll_epoch = 0;
    uint64_t  stalled_until = 0;
    uint64_t  prio = 0;
    uint32_t  tag = 0;
    int       gate = 0;
    int       quiet = 0;
    uint64_t  polls = 0;
    void    *(*fn)(void *) = nullptr;
    void     *arg = nullptr;
    void     *ret = nullptr;
    pthread_t handle{};
    bool      is_rank = false;
    std::string name;
};

static __thread Thread *self = nullptr;
static std::vector<Thread *> *threads;
static Thread *current = nullptr;
static int main_gate = 0;
static int ranks_left = 0;

static Strategy strat;
static CrashSpec crash;
static bool replaying = false;
static std::unordered_map<uint64_t, uint64_t> *replay;

static uint64_t nsteps = 0, clock_ns = 0, event_seq = 0, epoch = 1, idle = 0, run_len = 0;
static std::vector<uint64_t> *change_points;
static size_t next_change = 0;
static uint64_t low_prio = 1u << 20;

struct Ev { std::function<void()> fn; };
static std::map<std::pair<uint64_t, uint64_t>, Ev> *events;
static uint64_t ev_seq = 0;

static void futex_wait(int *p) {
    while (__atomic_load_n(p, __ATOMIC_ACQUIRE) == 0)
        syscall(SYS_futex, p, FUTEX_WAIT_PRIVATE, 0, nullptr, nullptr, 0);
    __atomic_store_n(p, 0, __ATOMIC_RELAXED);
}
static void futex_post(int *p) {
    __atomic_store_n(p, 1, __ATOMIC_RELEASE);
    syscall(SYS_futex, p, FUTEX_WAKE_PRIVATE, 1, nullptr, nullptr, 0);
}

bool active() { return self && !self->quiet; }
bool quiet() { return !self || self->quiet; }
int  rank() { return self ? self->rank : -1; }
int  thread_id() { return self ? self->id : -1; }
uint64_t seqno() { return ++event_seq; }
uint64_t steps() { return nsteps; }
uint64_t now_ns() { return clock_ns; }
void progress() { idle = 0; epoch++; }
void trace_mix(uint64_t v) { sh->trace_hash = mix64(sh->trace_hash * 0x100000001b3ull ^ v); }
void set_cover_tag(uint32_t tag) { if (self) self->tag = tag; }

Quiet::Quiet()  { if (self) self->quiet++; }
Quiet::~Quiet() { if (self) self->quiet--; }
void quiet_enter() { if (self) self->quiet++; }
void quiet_leave() { if (self) self->quiet--; }

void set_context(uint64_t id) {
    if (!self) return;
    self->ctx = mix2(self->key, id + 0x51ed);
    memset(self->nth, 0, sizeof(self->nth));
}

void log(const char *fmt, ...) {
    if (!logging) return;
    char buf[2048];
    va_list ap;
    va_start(ap, fmt);
    vsnprintf(buf, sizeof buf, fmt, ap);
    va_end(ap);
    char line[2300];
    int n = snprintf(line, sizeof line, "[%8lu %9.3fms t%-2d r%d] %s\n", (unsigned long) nsteps, clock_ns / 1e6,
                     self ? self->id : -1, self ? self->rank : -1, buf);
    if (real::write(2, line, n) < 0) {}
}

// ------------------------------------------------------------------ choices
static inline uint64_t choice_id(uint64_t key, uint64_t kind, uint64_t nth) {
    return mix2(key ^ mix64(kind * 0x9E37), nth);
}

bool choice_begin(Kind kind, uint64_t *rnd, uint64_t *value, uint64_t *nth) {
    static Thread outside;
    Thread *t = self ? self : &outside;
    *nth = t->nth[kind]++;
    const uint64_t id = choice_id(t->ctx, kind, *nth);
    if (replaying) {
        auto it = replay->find(id);
        *value = it == replay->end() ? 0 : it->second;
        return false;
    }
    *rnd = mix64(id ^ mix64(strat.seed));
    *value = 0;
    return true;
}

static uint64_t record_key(Kind kind) {
    (void) kind;
    return self ? self->ctx : 0;
}

void choice_record(Kind kind, uint64_t nth, uint64_t value) {
    if (sh->choice_len >= CHOICE_CAP) {
        sh->choice_dropped++;
        return;
    }
    ChoiceRec &c = sh->choices[sh->choice_len++];
    c.key = record_key(kind);
    c.nth = nth;
    c.kind = kind;
    c.pad = 0;
    c.value = value;
}

// ------------------------------------------------------------------ endings
void finish(Outcome o) {
    sh->outcome = o;
    sh->c.steps = nsteps;
    sh->c.sim_ns = clock_ns;
    sh->c.threads = threads ? threads->size() : 0;
    _exit(0);
}

static void set_message(const char *cls, const char *fmt, va_list ap) {
    snprintf(sh->viol_class, sizeof sh->viol_class, "%s", cls);
    vsnprintf(sh->message, sizeof sh->message, fmt, ap);
}

void violation(const char *cls, const char *fmt, ...) {
    if (sh->outcome == O_NONE) {
        va_list ap;
        va_start(ap, fmt);
        set_message(cls, fmt, ap);
        va_end(ap);
        log("VIOLATION %s: %s", cls, sh->message);
        trace_mix(0xdead);
    }
    finish(O_VIOLATION);
}

void harness_error(const char *fmt, ...) {
    va_list ap;
    va_start(ap, fmt);
    set_message("harness", fmt, ap);
    va_end(ap);
    log("HARNESS %s", sh->message);
    finish(O_HARNESS);
}

void crash_now(int kind) {
    if (self) self->quiet++;
    log("CRASH kind %d", kind);
    trace_mix(0xc4a5 + kind);
    if (kind == 1) sh->c.crash_kill++;
    else sh->c.crash_power++;
    if (on_crash) on_crash(kind);
    finish(O_CRASHED);
}

static std::string symbolize(void *pc) {
    Dl_info di;
    if (dladdr(pc, &di) && di.dli_sname) return di.dli_sname;
    char b[64];
    const char *f = di.dli_fname ? strrchr(di.dli_fname, '/') : nullptr;
    snprintf(b, sizeof b, "%s+%lx", f ? f + 1 : "?", (unsigned long) ((char *) pc - (char *) di.dli_fbase));
    return b;
}

static void on_signal(int sig, siginfo_t *si, void *) {
    if (self) self->quiet++;
    if (sh->outcome == O_NONE) {
        void *bt[32];
        const int n = backtrace(bt, 32);
        std::string s;
        for (int i = 2; i < n && s.size() < 3000; i++) s += " " + symbolize(bt[i]);
        const char *name = sig == SIGSEGV ? "SIGSEGV" : sig == SIGABRT ? "SIGABRT" : sig == SIGBUS ? "SIGBUS" :
                           sig == SIGFPE ? "SIGFPE" : sig == SIGILL ? "SIGILL" : "signal";
        snprintf(sh->viol_class, sizeof sh->viol_class, "crash");
        snprintf(sh->message, sizeof sh->message, "%s in the code under test (%s address) at:%s", name,
                 sig == SIGSEGV && (uintptr_t) si->si_addr < 65536 ? "null" : "bad", s.c_str());
        log("CRASHED %s", sh->message);
    }
    finish(O_VIOLATION);
}

// ------------------------------------------------------------------ scheduling
static std::string thread_report() {
    std::string s;
    for (Thread *t : *threads) {
        if (t->state == DONE) continue;
        char b[200];
        snprintf(b, sizeof b, " [t%d rank %d %s%s %s]", t->id, t->rank,
                 t->state == BLOCKED ? "blocked in " : t->state == POLLING ? "polling in " : "running",
                 t->state == RUNNABLE ? "" : t->what, t->name.c_str());
        s += b;
    }
    return s;
}

static void run_due_events() {
    while (!events->empty() && events->begin()->first.first <= clock_ns) {
        Ev e = std::move(events->begin()->second);
        events->erase(events->begin());
        trace_mix(0xe0e0);
        e.fn();
    }
}

void at_time(uint64_t t_ns, const std::function<void()> &fn) {
    (*events)[std::make_pair(t_ns, ev_seq++)] = Ev{fn};
}

static inline bool eligible(Thread *t) { return t->state == RUNNABLE; }

static Thread *pick_from(std::vector<Thread *> &cand, Thread *from) {
    if (cand.size() == 1) return cand[0];
    // quiet default: the next one after the current thread
    Thread *def = cand[0];
    if (from) {
        for (Thread *t : cand)
            if (t->id > from->id) { def = t; break; }
    }
    const uint64_t nth = from ? from->nth[K_SCHED]++ : 0;
    const uint64_t id = choice_id(from ? from->ctx : 0, K_SCHED, nth);
    if (replaying) {
        auto it = replay->find(id);
        if (it != replay->end())
            for (Thread *t : cand)
                if (t->key == it->second) return t;
        return def;
    }
    Thread *pick;
    if (strat.mode == 1) {
        pick = cand[0];
        for (Thread *t : cand)
            if (t->prio > pick->prio) pick = t;
    }
    else {
        std::vector<Thread *> c2;
        for (Thread *t : cand)
            if (t->stalled_until <= nsteps) c2.push_back(t);
        if (c2.empty()) c2 = cand;
        pick = c2[mix64(id ^ mix64(strat.seed)) % c2.size()];
    }
    if (pick != def) {
        Thread *me = self;
        (void) me;
        if (sh->choice_len < CHOICE_CAP) {
            ChoiceRec &c = sh->choices[sh->choice_len++];
            c.key = from ? from->ctx : 0;
            c.nth = nth;
            c.kind = K_SCHED;
            c.pad = 0;
            c.value = pick->key;
        }
        else sh->choice_dropped++;
    }
    return pick;
}

static void cover(Thread *a, uint32_t ka, Thread *b) {
    const uint64_t h = mix2(mix2(a ? a->tag * 16 + ka : 1, b ? b->tag : 2), (a && b && a->rank == b->rank)) % COVER_BITS;
    sh->cover[h / 8] |= 1 << (h % 8);
}

// The current thread cannot continue (or gives way): decide who does.
static Thread *pick_next(Thread *from) {
    static std::vector<Thread *> cand;
    for (;;) {
        run_due_events();
        cand.clear();
        for (Thread *t : *threads)
            if (eligible(t)) cand.push_back(t);
        if (!cand.empty()) return pick_from(cand, from);
        if (++idle > 20000)
            violation("hang", "no progress: every thread only waits or polls:%s", thread_report().c_str());
        for (Thread *t : *threads)
            if (t->state == POLLING && t->poll_epoch < epoch) cand.push_back(t);
        if (!cand.empty()) {
            Thread *t = pick_from(cand, from);
            t->state = RUNNABLE;
            t->poll_epoch = epoch;
            return t;
        }
        uint64_t ev_t = events->empty() ? UINT64_MAX : events->begin()->first.first;
        Thread *timed = nullptr;
        for (Thread *t : *threads)
            if (t->state == BLOCKED && t->deadline && (!timed || t->deadline < timed->deadline)) timed = t;
        if (ev_t == UINT64_MAX && !timed) {
            for (Thread *t : *threads)
                if (t->state == POLLING) cand.push_back(t);
            if (!cand.empty()) {
                Thread *t = pick_from(cand, from);
                t->state = RUNNABLE;
                t->poll_epoch = epoch;
                return t;
            }
            violation("hang", "deadlock: nothing can run and no message is in flight:%s", thread_report().c_str());
        }
        if (timed && timed->deadline <= ev_t) {
            if (clock_ns < timed->deadline) clock_ns = timed->deadline;
            timed->timed_out = true;
            timed->state = RUNNABLE;
            timed->obj = nullptr;
            epoch++;
        }
        else {
            if (clock_ns < ev_t) clock_ns = ev_t;
            epoch++;
        }
    }
}

static void switch_to(Thread *next, uint32_t kind) {
    Thread *me = self;
    if (next == me) return;
    sh->c.switches++;
    run_len = 0;
    trace_mix(next->key ^ nsteps);
    cover(me, kind, next);
    current = next;
    futex_post(&next->gate);
    if (me) futex_wait(&me->gate);
}

static uint32_t p_for(PointKind k) {
    switch (k) {
        case PT_ALLOC: case PT_ACCESS: return strat.p_alloc;
        case PT_CLOCK: return strat.p_clock;
        case PT_MPI: case PT_FS: case PT_DRIVER: return strat.p_switch * 4;
        default: return strat.p_switch;
    }
}

void point(PointKind kind) {
    Thread *me = self;
    if (!me || me->quiet) return;
    nsteps++;
    sh->c.points[kind]++;
    clock_ns += 100;
    if (crash.at_step && nsteps == crash.at_step) crash_now(crash.kind);
    if (nsteps > strat.max_steps)
        violation("hang", "still running after %lu steps:%s", (unsigned long) nsteps, thread_report().c_str());
    if (!events->empty() && events->begin()->first.first <= clock_ns) {
        me->quiet++;
        run_due_events();
        me->quiet--;
    }
    const uint64_t nth = me->nth[K_SCHED]++;
    const uint64_t id = choice_id(me->ctx, K_SCHED, nth);
    Thread *next = nullptr;
    if (++run_len > 60000) {                 // fairness, not a choice
        run_len = 0;
        for (size_t i = 1; i <= threads->size() && !next; i++) {
            Thread *t = (*threads)[(me->id + i) % threads->size()];
            if (t != me && (t->state == RUNNABLE || t->state == POLLING)) next = t;
        }
    }
    else if (replaying) {
        auto it = replay->find(id);
        if (it != replay->end()) {
            for (Thread *t : *threads)
                if (t->key == it->second && (t->state == RUNNABLE || t->state == POLLING)) next = t;
        }
    }
    else {
        const uint64_t r = mix64(id ^ mix64(strat.seed));
        if (strat.mode == 1) {
            if (next_change < change_points->size() && nsteps >= (*change_points)[next_change]) {
                next_change++;
                me->prio = --low_prio;
                sh->c.prio_changes++;
                for (Thread *t : *threads)
                    if (t != me && t->state == RUNNABLE && (!next || t->prio > next->prio)) next = t;
            }
            else if ((r & 0xffff) < p_for(kind) / 2) {
                for (Thread *t : *threads)
                    if (t != me && t->state == RUNNABLE && t->prio > me->prio && (!next || t->prio > next->prio)) next = t;
            }
        }
        else {
            if (strat.p_stall && ((r >> 40) & 0xffff) < strat.p_stall) {
                me->stalled_until = nsteps + strat.stall_len;
                sh->c.stalls++;
            }
            if ((r & 0xffff) < p_for(kind) || me->stalled_until > nsteps) {
                Thread *c[128];
                int n = 0;
                const bool polls = strat.p_poll && ((r >> 24) & 0xffff) < strat.p_poll;
                for (Thread *t : *threads)
                    if (n < 128 && t != me && ((t->state == RUNNABLE && t->stalled_until <= nsteps) || (polls && t->state == POLLING)))
                        c[n++] = t;
                if (n) next = c[(r >> 16) % n];
                if (next && next->state == POLLING) sh->c.polls_spurious++;
            }
        }
        if (next) {
            if (sh->choice_len < CHOICE_CAP) {
                ChoiceRec &c = sh->choices[sh->choice_len++];
                c.key = me->ctx;
                c.nth = nth;
                c.kind = K_SCHED;
                c.pad = 0;
                c.value = next->key;
            }
            else sh->choice_dropped++;
        }
    }
    if (next && next != me) {
        next->state = RUNNABLE;
        epoch++;
        me->quiet++;
        switch_to(next, kind);
        me->quiet--;
    }
}

static void block(const void *obj, const char *what, uint64_t deadline, State st) {
    Thread *me = self;
    me->quiet++;
    me->state = st;
    me->obj = obj;
    me->what = what;
    me->deadline = deadline;
    me->timed_out = false;
    nsteps++;
    clock_ns += 100;
    if (nsteps > strat.max_steps)
        violation("hang", "still running after %lu steps:%s", (unsigned long) nsteps, thread_report().c_str());
    if (crash.at_step && nsteps == crash.at_step) crash_now(crash.kind);
    if (st == BLOCKED) epoch++;
    Thread *n = pick_next(me);
    switch_to(n, 15);
    me->obj = nullptr;
    me->deadline = 0;
    me->quiet--;
}

void wait_on(const void *obj, const char *what) {
    if (!self) harness_error("wait_on outside a simulated thread (%s)", what);
    block(obj, what, 0, BLOCKED);
}

bool wait_on_until(const void *obj, uint64_t deadline_ns) {
    if (!self) harness_error("wait_on_until outside a simulated thread");
    block(obj, "timed wait", deadline_ns ? deadline_ns : 1, BLOCKED);
    return !self->timed_out;
}

void wake(const void *obj, bool all) {
    if (all) {
        for (Thread *t : *threads)
            if (t->state == BLOCKED && t->obj == obj) {
                t->state = RUNNABLE;
                t->obj = nullptr;
            }
        return;
    }
    std::vector<Thread *> w;
    for (Thread *t : *threads)
        if (t->state == BLOCKED && t->obj == obj) w.push_back(t);
    if (w.empty()) return;
    const size_t i = w.size() == 1 ? 0 : choose(K_SIGNAL, [&](uint64_t r) { return r % w.size(); });
    Thread *t = w[i % w.size()];
    t->state = RUNNABLE;
    t->obj = nullptr;
}

void poll_pause() {
    Thread *me = self;
    if (!me) return;
    me->polls++;
    block(nullptr, "MPI_Test", 0, POLLING);
}
void poll_ready(int tid) {
    Thread *t = (*threads)[tid];
    if (t->state == POLLING) t->state = RUNNABLE;
}
void poll_done() { progress(); }

void sleep_ns(uint64_t ns) {
    if (!self) return;
    block(nullptr, "sleep", clock_ns + (ns ? ns : 1), BLOCKED);
}

// ------------------------------------------------------------------ threads
static const uintptr_t STACK_BASE = 0x300000000000ull;
static const size_t STACK_SIZE = 4u << 20, STACK_STRIDE = 8u << 20;

static void *trampoline(void *p) {
    Thread *t = (Thread *) p;
    self = t;
    futex_wait(&t->gate);
    t->quiet--;
    t->ret = t->fn(t->arg);
    t->quiet++;
    hb_release(t);
    t->state = DONE;
    sh->trace_hash ^= 0;
    log("thread %d ends", t->id);
    wake(t);
    progress();
    if (t->is_rank && --ranks_left == 0) {
        futex_post(&main_gate);
    }
    else {
        Thread *n = pick_next(t);
        trace_mix(n->key ^ nsteps);
        current = n;
        futex_post(&n->gate);
    }
    for (;;) pause();            // never run thread-exit code outside the schedule
    return nullptr;
}

static Thread *new_thread(void *(*fn)(void *), void *arg, int rk, bool is_rank) {
    Thread *t = new Thread;
    t->id = threads->size();
    t->fn = fn;
    t->arg = arg;
    t->rank = rk;
    t->is_rank = is_rank;
    t->quiet = 1;
    if (self) t->key = mix2(self->key, ++self->children);
    else t->key = mix2(0x7a6b, t->id);
    t->ctx = t->key;
    t->prio = (1u << 21) + (mix64(t->key ^ mix64(strat.seed)) & 0xfffff);
    t->tag = is_rank ? 1 : 2;
    threads->push_back(t);
    pthread_attr_t at;
    pthread_attr_init(&at);
    void *stk = mmap((void *) (STACK_BASE + t->id * STACK_STRIDE), STACK_SIZE, PROT_READ | PROT_WRITE,
                     MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (stk != (void *) (STACK_BASE + t->id * STACK_STRIDE)) harness_error("cannot map stack %d", t->id);
    pthread_attr_setstack(&at, stk, STACK_SIZE);
    if (real::pthread_create(&t->handle, &at, trampoline, t)) harness_error("pthread_create failed");
    pthread_attr_destroy(&at);
    hb_thread_start(self ? self->id : -1, t->id);
    return t;
}

int thread_create(pthread_t *h, void *(*fn)(void *), void *arg) {
    Thread *t;
    {
        Quiet q;
        if (threads->size() > 2000) violation("threads", "more than 2000 threads were started");
        t = new_thread(fn, arg, self->rank, false);
        log("starts thread %d", t->id);
        *h = t->handle;
        progress();
    }
    point(PT_THREAD);
    return 0;
}

static Thread *find_thread(pthread_t h) {
    for (Thread *t : *threads)
        if (pthread_equal(t->handle, h)) return t;
    return nullptr;
}

int thread_join(pthread_t h, void **ret) {
    Thread *t = find_thread(h);
    if (!t) return ESRCH;
    point(PT_THREAD);
    while (t->state != DONE) wait_on(t, "pthread_join");
    hb_acquire(t);
    if (ret) *ret = t->ret;
    return 0;
}

int rank_of(int tid) { return (*threads)[tid]->rank; }
const char *thread_name(int tid) { return (*threads)[tid]->name.c_str(); }

bool is_sim_thread(pthread_t h) { return threads && find_thread(h); }
bool on_sim_thread() { return self; }
void set_thread_name(pthread_t h, const char *n) {
    Thread *t = find_thread(h);
    Quiet q;
    if (t && n) t->name = n;
}

void configure(const Strategy &s, const CrashSpec &c, const std::vector<ChoiceRec> *rep) {
    strat = s;
    crash = c;
    threads = new std::vector<Thread *>;
    threads->reserve(512);
    events = new std::map<std::pair<uint64_t, uint64_t>, Ev>;
    change_points = new std::vector<uint64_t>;
    for (uint32_t i = 0; i < s.changes; i++)
        change_points->push_back(1 + mix64(mix2(s.seed, 0xc4a0 + i)) % (s.horizon ? s.horizon : 1));
    std::sort(change_points->begin(), change_points->end());
    replaying = rep;
    if (rep) {
        replay = new std::unordered_map<uint64_t, uint64_t>;
        replay->reserve(rep->size() * 2 + 16);
        for (const ChoiceRec &r : *rep) (*replay)[choice_id(r.key, r.kind, r.nth)] = r.value;
    }
    sh->trace_hash = 0x12345;
    void *warm[4];
    backtrace(warm, 4);          // loads libgcc before any simulated thread exists

    static char altstack[65536];
    stack_t ss = {};
    ss.ss_sp = altstack;
    ss.ss_size = sizeof altstack;
    sigaltstack(&ss, nullptr);
    struct sigaction sa = {};
    sa.sa_sigaction = on_signal;
    sa.sa_flags = SA_SIGINFO;
#ifdef SIM_ASAN
    const int sigs[] = {SIGABRT};
#else
    const int sigs[] = {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGILL};
#endif
    for (int sig : sigs) sigaction(sig, &sa, nullptr);
}

struct RankArg { const std::function<void(int)> *fn; int rank; };
static void *rank_main(void *p) {
    RankArg *a = (RankArg *) p;
    (*a->fn)(a->rank);
    return nullptr;
}

void run_ranks(int n, const std::function<void(int)> &fn) {
    std::vector<RankArg> args(n);
    ranks_left = n;
    for (int i = 0; i < n; i++) {
        args[i].fn = &fn;
        args[i].rank = i;
        Thread *t = new_thread(rank_main, &args[i], i, true);
        t->name = "main";
    }
    std::vector<Thread *> cand(threads->begin(), threads->end());
    Thread *first = cand[0];
    if (strat.mode == 1)
        for (Thread *t : cand)
            if (t->prio > first->prio) first = t;
    current = first;
    futex_post(&first->gate);
    futex_wait(&main_gate);
}

#ifndef SIM_RACE
void hb_acquire(const void *) {}
void hb_release(const void *) {}
void hb_thread_start(int, int) {}
#endif

} // namespace sim
