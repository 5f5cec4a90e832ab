// Threads, locks, condition variables, clocks and sleeping: interposed so that
// simulated threads meet the scheduler instead of the operating system.
// Outside simulated threads everything goes to the real functions.
#include "real.hpp"
#include "sim.hpp"

#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <pthread.h>
#include <sched.h>
#include <semaphore.h>
#include <sys/random.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

using namespace sim;

#ifdef SIM_ASAN
extern "C" int __interceptor_pthread_create(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *);
#endif
#define REAL(name) ((decltype(&::name)) ([]() -> void * { static void *p = nullptr; if (!p) p = dlsym(RTLD_NEXT, #name); return p; }()))

namespace sim { namespace real {
int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*f)(void *), void *arg) {
#ifdef SIM_ASAN
    return __interceptor_pthread_create(h, a, f, arg);
#else
    return REAL(pthread_create)(h, a, f, arg);
#endif
}
ssize_t write(int fd, const void *b, size_t n) { return REAL(write)(fd, b, n); }
} }

static inline bool insim() { return on_sim_thread(); }

// mutexes: owner is thread id + 1
struct MutexView { int lock; unsigned count; int owner; unsigned nusers; int kind; };
static inline MutexView *mv(pthread_mutex_t *m) { return (MutexView *) m; }

static int mutex_lock(pthread_mutex_t *m, uint64_t deadline) {
    const int me = thread_id() + 1;
    MutexView *v = mv(m);
    if (!quiet()) point(PT_MUTEX);
    if (v->owner == me) {
        if ((v->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; }
        if ((v->kind & 3) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    while (v->owner) {
        if (deadline) { if (!wait_on_until(m, deadline) && v->owner) return ETIMEDOUT; }
        else wait_on(m, "mutex");
    }
    v->owner = me;
    v->count = 1;
    hb_acquire(m);
    return 0;
}
static int mutex_unlock(pthread_mutex_t *m, bool pre) {
    const int me = thread_id() + 1;
    MutexView *v = mv(m);
    if (v->owner != me) {
        if ((v->kind & 3) != PTHREAD_MUTEX_NORMAL) return EPERM;
        violation("mutex-misuse", "a thread unlocks a mutex it does not hold (held by %d)", v->owner - 1);
    }
    if (--v->count) return 0;
    hb_release(m);
    v->owner = 0;
    wake(m);
    if (pre && !quiet()) point(PT_MUTEX);
    return 0;
}

extern "C" {

int pthread_mutex_lock(pthread_mutex_t *m) {
    if (!insim()) return REAL(pthread_mutex_lock)(m);
    return mutex_lock(m, 0);
}
int pthread_mutex_trylock(pthread_mutex_t *m) {
    if (!insim()) return REAL(pthread_mutex_trylock)(m);
    point(PT_MUTEX);
    MutexView *v = mv(m);
    const int me = thread_id() + 1;
    if (v->owner) {
        if (v->owner == me && (v->kind & 3) == PTHREAD_MUTEX_RECURSIVE) { v->count++; return 0; }
        poll_pause();
        if (v->owner) return EBUSY;
    }
    v->owner = me;
    v->count = 1;
    hb_acquire(m);
    return 0;
}
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *ts) {
    if (!insim()) return REAL(pthread_mutex_timedlock)(m, ts);
    return mutex_lock(m, (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec);
}
int pthread_mutex_unlock(pthread_mutex_t *m) {
    if (!insim()) return REAL(pthread_mutex_unlock)(m);
    return mutex_unlock(m, true);
}
int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (!insim()) return REAL(pthread_mutex_destroy)(m);
    memset(m, 0, sizeof *m);
    return 0;
}

static const uint64_t EPOCH_NS = 1700000000987654321ull;

extern uint32_t sim_p_spurious;

static int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, uint64_t deadline) {
    if (!quiet()) point(PT_COND);
    const uint64_t spurious = quiet() || !sim_p_spurious ? 0 :
        choose(K_SPURIOUS, [](uint64_t r) -> uint64_t { return (r & 0xffff) < sim_p_spurious ? 1 + ((r >> 16) % 8) : 0; });
    MutexView *v = mv(m);
    const unsigned depth = v->count;
    v->count = 1;
    mutex_unlock(m, false);
    bool ok = true;
    if (spurious) {
        sh->c.cond_spurious++;
        sleep_ns(1000ull << (spurious - 1));
    }
    else if (deadline) ok = wait_on_until(c, deadline);
    else wait_on(c, "condition variable");
    while (v->owner) wait_on(m, "mutex (after condition wait)");
    v->owner = thread_id() + 1;
    v->count = depth;
    hb_acquire(m);
    return ok ? 0 : ETIMEDOUT;
}
uint32_t sim_p_spurious = 0;

static uint64_t abs_deadline(const struct timespec *ts) {
    uint64_t t = (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec;
    // both clocks read EPOCH_NS + simulated time
    return t > EPOCH_NS ? t - EPOCH_NS : 1;
}

int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!insim()) return REAL(pthread_cond_wait)(c, m);
    return cond_wait(c, m, 0);
}
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *ts) {
    if (!insim()) return REAL(pthread_cond_timedwait)(c, m, ts);
    return cond_wait(c, m, abs_deadline(ts));
}
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *ts) {
    if (!insim()) return ENOSYS;
    return cond_wait(c, m, abs_deadline(ts));
}
int pthread_cond_signal(pthread_cond_t *c) {
    if (!insim()) return REAL(pthread_cond_signal)(c);
    point(PT_COND);
    wake(c, false);
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!insim()) return REAL(pthread_cond_broadcast)(c);
    point(PT_COND);
    wake(c, true);
    return 0;
}
int pthread_cond_destroy(pthread_cond_t *c) {
    if (!insim()) return REAL(pthread_cond_destroy)(c);
    return 0;
}

// read-write locks: first int: readers, second: writer id + 1
struct RwView { int readers; int writer; };
static inline RwView *rv(pthread_rwlock_t *r) { return (RwView *) r; }
int pthread_rwlock_init(pthread_rwlock_t *r, const pthread_rwlockattr_t *a) {
    if (!insim()) return REAL(pthread_rwlock_init)(r, a);
    memset(r, 0, sizeof *r);
    return 0;
}
int pthread_rwlock_destroy(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_destroy)(r);
    return 0;
}
int pthread_rwlock_rdlock(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_rdlock)(r);
    point(PT_MUTEX);
    while (rv(r)->writer) wait_on(r, "rwlock");
    rv(r)->readers++;
    hb_acquire(r);
    return 0;
}
int pthread_rwlock_wrlock(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_wrlock)(r);
    point(PT_MUTEX);
    while (rv(r)->writer || rv(r)->readers) wait_on(r, "rwlock");
    rv(r)->writer = thread_id() + 1;
    hb_acquire(r);
    return 0;
}
int pthread_rwlock_tryrdlock(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_tryrdlock)(r);
    if (rv(r)->writer) { poll_pause(); if (rv(r)->writer) return EBUSY; }
    rv(r)->readers++;
    hb_acquire(r);
    return 0;
}
int pthread_rwlock_trywrlock(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_trywrlock)(r);
    if (rv(r)->writer || rv(r)->readers) { poll_pause(); if (rv(r)->writer || rv(r)->readers) return EBUSY; }
    rv(r)->writer = thread_id() + 1;
    hb_acquire(r);
    return 0;
}
int pthread_rwlock_unlock(pthread_rwlock_t *r) {
    if (!insim()) return REAL(pthread_rwlock_unlock)(r);
    hb_release(r);
    if (rv(r)->writer) rv(r)->writer = 0;
    else rv(r)->readers--;
    wake(r);
    point(PT_MUTEX);
    return 0;
}

// semaphores: value in the first int
int sem_init(sem_t *s, int sharedp, unsigned v) {
    if (!insim()) return REAL(sem_init)(s, sharedp, v);
    *(int *) s = v;
    return 0;
}
int sem_destroy(sem_t *s) { return insim() ? 0 : REAL(sem_destroy)(s); }
int sem_wait(sem_t *s) {
    if (!insim()) return REAL(sem_wait)(s);
    point(PT_MUTEX);
    while (*(int *) s == 0) wait_on(s, "semaphore");
    --*(int *) s;
    hb_acquire(s);
    return 0;
}
int sem_trywait(sem_t *s) {
    if (!insim()) return REAL(sem_trywait)(s);
    if (*(int *) s == 0) { poll_pause(); if (*(int *) s == 0) { errno = EAGAIN; return -1; } }
    --*(int *) s;
    hb_acquire(s);
    return 0;
}
int sem_post(sem_t *s) {
    if (!insim()) return REAL(sem_post)(s);
    hb_release(s);
    ++*(int *) s;
    wake(s);
    point(PT_MUTEX);
    return 0;
}

int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    if (!insim()) return REAL(pthread_once)(o, fn);
    if (*(volatile int *) o == 2) return 0;
    while (*(volatile int *) o == 64) wait_on(o, "pthread_once");
    if (*(volatile int *) o == 2) { hb_acquire(o); return 0; }
    *(volatile int *) o = 64;
    fn();
    hb_release(o);
    *(volatile int *) o = 2;
    wake(o);
    return 0;
}

// initialisation of function-level statics
int __cxa_guard_acquire(int64_t *g) {
    volatile unsigned char *b = (volatile unsigned char *) g;
    if (b[0]) { if (insim()) hb_acquire(g); return 0; }
    if (!insim()) { b[1] = 1; return 1; }
    while (b[1]) wait_on(g, "static initialisation");
    if (b[0]) { hb_acquire(g); return 0; }
    b[1] = 1;
    return 1;
}
void __cxa_guard_release(int64_t *g) {
    volatile unsigned char *b = (volatile unsigned char *) g;
    if (insim()) hb_release(g);
    b[0] = 1;
    b[1] = 0;
    if (insim()) wake(g);
}
void __cxa_guard_abort(int64_t *g) {
    volatile unsigned char *b = (volatile unsigned char *) g;
    b[1] = 0;
    if (insim()) wake(g);
}

int pthread_create(pthread_t *h, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!insim()) return REAL(pthread_create)(h, a, fn, arg);
    return thread_create(h, fn, arg);
}
int pthread_join(pthread_t h, void **ret) {
    if (!insim() || !is_sim_thread(h)) return REAL(pthread_join)(h, ret);
    return thread_join(h, ret);
}
int pthread_detach(pthread_t h) {
    if (!insim() || !is_sim_thread(h)) return REAL(pthread_detach)(h);
    return 0;
}
int pthread_setname_np(pthread_t h, const char *n) {
    if (!insim()) return 0;
    set_thread_name(h, n);
    return 0;
}

static uint64_t read_clock() {
    point(PT_CLOCK);
    return EPOCH_NS + now_ns();
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (!insim()) return REAL(clock_gettime)(id, ts);
    const uint64_t t = read_clock();
    ts->tv_sec = t / 1000000000ull;
    ts->tv_nsec = t % 1000000000ull;
    return 0;
}
int gettimeofday(struct timeval *tv, void *tz) {
    if (!insim()) return REAL(gettimeofday)(tv, tz);
    const uint64_t t = read_clock();
    tv->tv_sec = t / 1000000000ull;
    tv->tv_usec = t % 1000000000ull / 1000;
    return 0;
}
time_t time(time_t *out) {
    if (!insim()) return REAL(time)(out);
    const time_t t = read_clock() / 1000000000ull;
    if (out) *out = t;
    return t;
}
int nanosleep(const struct timespec *ts, struct timespec *rem) {
    if (!insim()) return REAL(nanosleep)(ts, rem);
    sleep_ns((uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec);
    return 0;
}
int clock_nanosleep(clockid_t id, int flags, const struct timespec *ts, struct timespec *rem) {
    if (!insim()) return REAL(clock_nanosleep)(id, flags, ts, rem);
    uint64_t t = (uint64_t) ts->tv_sec * 1000000000ull + ts->tv_nsec;
    if (flags & TIMER_ABSTIME) { const uint64_t n = EPOCH_NS + now_ns(); t = t > n ? t - n : 1; }
    sleep_ns(t);
    return 0;
}
int usleep(useconds_t us) {
    if (!insim()) return REAL(usleep)(us);
    sleep_ns((uint64_t) us * 1000);
    return 0;
}
unsigned sleep(unsigned s) {
    if (!insim()) return REAL(sleep)(s);
    sleep_ns((uint64_t) s * 1000000000ull);
    return 0;
}
int sched_yield() {
    if (!insim()) return REAL(sched_yield)();
    poll_pause();
    return 0;
}
int sched_getcpu() { return 0; }

static uint64_t rnd_state = 0x243f6a8885a308d3ull;
static void fill_random(void *p, size_t n) {
    unsigned char *b = (unsigned char *) p;
    for (size_t i = 0; i < n; i++) b[i] = (rnd_state = mix64(rnd_state + 0x9E3779B97F4A7C15ull)) >> 32;
}
ssize_t getrandom(void *p, size_t n, unsigned flags) {
    if (!insim()) return REAL(getrandom)(p, n, flags);
    fill_random(p, n);
    return n;
}
int getentropy(void *p, size_t n) {
    if (!insim()) return REAL(getentropy)(p, n);
    fill_random(p, n);
    return 0;
}
uint32_t sim_random32() {
    uint32_t v;
    fill_random(&v, sizeof v);
    return v;
}
}

// std::random_device
extern "C" unsigned _ZNSt13random_device9_M_getvalEv(void *) { return sim_random32(); }
