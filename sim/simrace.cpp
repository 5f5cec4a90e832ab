// The run-time library behind -fsanitize=thread for the race build: vector
// clocks over the simulated synchronisation instead of real threads.  Two
// accesses of threads of the same rank to the same bytes, at least one of them
// a plain write, that nothing orders are a race, in whatever order the schedule
// ran them.  Ranks are processes of their own: accesses of different ranks never
// conflict.  Freeing memory counts as writing it.
#ifdef SIM_RACE
#include "sim.hpp"
#include <algorithm>
#include <cstdio>
#include <cstring>
#include <cxxabi.h>
#include <dlfcn.h>
#include <map>
#include <string>
#include <sys/mman.h>
#include <unordered_map>
#include <vector>

namespace sim {
int rank_of(int tid);
const char *thread_name(int tid);
}
using namespace sim;

namespace {
typedef std::vector<uint32_t> VC;
struct T { VC c; };
std::vector<T> *ts;
std::map<uintptr_t, VC> *syncs;

struct Acc { uint64_t pc : 48, mask : 8, write : 1, atomic : 1, used : 1, freed : 1; uint32_t clk; uint32_t tid; };
const int SLOTS = 6;
struct Cell { Acc a[SLOTS]; };
struct Page { Cell c[512]; };
std::unordered_map<uintptr_t, Page *> *pages;
uintptr_t last_no = 0;
Page *last_page = nullptr;

void setup() {
    if (ts) return;
    ts = new std::vector<T>;
    syncs = new std::map<uintptr_t, VC>;
    pages = new std::unordered_map<uintptr_t, Page *>;
}
Page *page_of(uintptr_t a, bool make) {
    const uintptr_t no = a >> 12;
    if (no == last_no && last_page) return last_page;
    auto it = pages->find(no);
    if (it == pages->end()) {
        if (!make) return nullptr;
        void *p = mmap(nullptr, sizeof(Page), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (p == MAP_FAILED) harness_error("no memory for the race detector");
        it = pages->emplace(no, (Page *) p).first;
    }
    last_no = no;
    return last_page = it->second;
}
void join(VC &a, const VC &b) {
    if (a.size() < b.size()) a.resize(b.size());
    for (size_t i = 0; i < b.size(); i++) if (a[i] < b[i]) a[i] = b[i];
}
T &me(int tid) {
    setup();
    if ((int) ts->size() <= tid) ts->resize(tid + 1);
    T &t = (*ts)[tid];
    if ((int) t.c.size() <= tid) t.c.resize(tid + 1);
    if (!t.c[tid]) t.c[tid] = 1;
    return t;
}
std::string where(uintptr_t pc) {
    Dl_info i;
    if (dladdr((void *) (pc - 1), &i) && i.dli_sname) {
        int st = 0;
        char *d = abi::__cxa_demangle(i.dli_sname, nullptr, nullptr, &st);
        std::string s, full = st == 0 && d ? d : i.dli_sname;
        int depth = 0;
        for (char c : full) {                       // without template arguments and parameters
            if (c == '<' || c == '(') { if (!depth++) s += c; continue; }
            if (c == '>' || c == ')') depth--;
            if (!depth || (depth < 0)) s += c;
        }
        return s.substr(0, 160);
    }
    char b[32];
    snprintf(b, sizeof b, "pc %lx", (unsigned long) pc);
    return b;
}
void race(uintptr_t addr, int size, int tid, bool write, bool freed, uintptr_t pc, const Acc &o) {
    const char *what = freed ? "free" : write ? "write" : "read";
    violation("data-race", "%s in %s (thread '%s') is not ordered after %s in %s (thread '%s') of the same %d bytes, rank %d [pc %lx %lx]",
              what, where(pc).c_str(), thread_name(tid), o.freed ? "free" : o.write ? "write" : "read", where(o.pc).c_str(), thread_name(o.tid), size, rank_of(tid),
              (unsigned long) pc, (unsigned long) (uint64_t) o.pc);
}
inline void touch(uintptr_t addr, int size, bool write, bool atomic, uintptr_t pc, bool freed = false) {
    if (!active() || quiet() || sh->outcome != O_NONE) return;
    const int tid = thread_id();
    Quiet q;
    T &t = me(tid);
    sh->c.accesses++;
    while (size > 0) {
        const int off = addr & 7, n = std::min(size, 8 - off);
        const uint32_t mask = ((1u << n) - 1) << off;
        Cell &c = page_of(addr, true)->c[(addr & 4095) >> 3];
        int put = -1, oldest = 0;
        uint32_t old_clk = ~0u;
        for (int i = 0; i < SLOTS; i++) {
            Acc &a = c.a[i];
            if (!a.used) { if (put < 0) put = i; continue; }
            if (a.clk < old_clk) { old_clk = a.clk; oldest = i; }
            const bool ordered = a.tid == (uint32_t) tid || (a.tid < t.c.size() && t.c[a.tid] >= a.clk);
            if (ordered) {
                // what this access makes superfluous
                if ((a.mask & ~mask) == 0 && (write ? (!atomic || a.atomic) : (!a.write && (!atomic || a.atomic)))) {
                    if (put < 0 || c.a[put].used) put = i; else a.used = 0;
                }
                continue;
            }
            if (!(a.mask & mask) || (!a.write && !write) || (a.atomic && atomic) || rank_of(a.tid) != rank_of(tid)) continue;
            sh->c.races_checked++;
            race(addr, n, tid, write, freed, pc, a);
        }
        if (put < 0) put = oldest;
        Acc &a = c.a[put];
        a.pc = pc; a.mask = mask; a.write = write; a.atomic = atomic; a.used = 1; a.freed = freed; a.clk = t.c[tid]; a.tid = tid;
        addr += n;
        size -= n;
    }
}
void acq(int tid, uintptr_t o) {
    T &t = me(tid);
    auto it = syncs->find(o);
    if (it != syncs->end()) join(t.c, it->second);
}
void rel(int tid, uintptr_t o, bool over = false) {
    T &t = me(tid);
    VC &v = (*syncs)[o];
    if (over) v = t.c; else join(v, t.c);
    t.c[tid]++;
}
} // namespace

namespace sim {
void hb_acquire(const void *o) { const int t = thread_id(); if (t < 0) return; Quiet q; acq(t, (uintptr_t) o); }
void hb_release(const void *o) { const int t = thread_id(); if (t < 0) return; Quiet q; rel(t, (uintptr_t) o); }
void hb_thread_start(int parent, int child) {
    Quiet q;
    me(child);
    if (parent < 0) return;
    me(parent);
    T &c = (*ts)[child], &p = (*ts)[parent];
    join(c.c, p.c);
    p.c[parent]++;
}
void hb_alloc(const void *p, size_t n) {
    if (!pages || !n) return;
    Quiet q;
    uintptr_t a = (uintptr_t) p & ~7ul, e = ((uintptr_t) p + n + 7) & ~7ul;
    auto i = syncs->lower_bound(a);
    while (i != syncs->end() && i->first < e) i = syncs->erase(i);
    while (a < e) {
        const uintptr_t pe = std::min(e, (a | 4095) + 1);
        if (Page *pg = page_of(a, false)) memset(&pg->c[(a & 4095) >> 3], 0, (pe - a) / 8 * sizeof(Cell));
        a = pe;
    }
}
void hb_free(const void *p, size_t n) { touch((uintptr_t) p, n < 4096 ? n : 4096, true, false, (uintptr_t) __builtin_return_address(0), true); }
}

#define PC ((uintptr_t) __builtin_return_address(0))
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void *a) { touch((uintptr_t) a, n, false, false, PC); } \
    void __tsan_write##n(void *a) { touch((uintptr_t) a, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void *a) { touch((uintptr_t) a, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void *a) { touch((uintptr_t) a, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *a) { touch((uintptr_t) a, n, false, false, PC); } \
    void __tsan_volatile_write##n(void *a) { touch((uintptr_t) a, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, unsigned long n) { touch((uintptr_t) a, n, false, false, PC); }
void __tsan_write_range(void *a, unsigned long n) { touch((uintptr_t) a, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) touch((uintptr_t) p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { touch((uintptr_t) p, 8, false, false, PC); }

// memcpy and relatives of the instrumented code (renamed in its object files)
void *race_memcpy(void *d, const void *s, size_t n) { touch((uintptr_t) s, n, false, false, PC); touch((uintptr_t) d, n, true, false, PC); return memcpy(d, s, n); }
void *race_memmove(void *d, const void *s, size_t n) { touch((uintptr_t) s, n, false, false, PC); touch((uintptr_t) d, n, true, false, PC); return memmove(d, s, n); }
void *race_memset(void *d, int c, size_t n) { touch((uintptr_t) d, n, true, false, PC); return memset(d, c, n); }
int race_memcmp(const void *a, const void *b, size_t n) { touch((uintptr_t) a, n, false, false, PC); touch((uintptr_t) b, n, false, false, PC); return memcmp(a, b, n); }

static bool acquires(int mo) { return mo == __ATOMIC_ACQUIRE || mo == __ATOMIC_CONSUME || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static bool releases(int mo) { return mo == __ATOMIC_RELEASE || mo == __ATOMIC_ACQ_REL || mo == __ATOMIC_SEQ_CST; }
static void before(const volatile void *a, int size, bool write, uintptr_t pc) {
    if (!active() || quiet()) return;
    point(PT_ACCESS);
    touch((uintptr_t) a, size, write, true, pc);
}
static void edge(const volatile void *a, int mo, bool load, bool store) {
    if (!active() || quiet()) return;
    const int t = thread_id();
    Quiet q;
    if (load && acquires(mo)) acq(t, (uintptr_t) a);
    if (store && releases(mo)) rel(t, (uintptr_t) a, !load);
}
#define AT(bits, type) \
    type __tsan_atomic##bits##_load(const volatile type *a, int mo) { before(a, bits / 8, false, PC); type v = __atomic_load_n(a, __ATOMIC_SEQ_CST); edge(a, mo, true, false); return v; } \
    void __tsan_atomic##bits##_store(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, false, true); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_exchange(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_add(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_sub(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_and(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_or(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_xor(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    type __tsan_atomic##bits##_fetch_nand(volatile type *a, type v, int mo) { before(a, bits / 8, true, PC); edge(a, mo, true, true); return __atomic_fetch_nand(a, v, __ATOMIC_SEQ_CST); } \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile type *a, type *c, type v, int mo, int fmo) { before(a, bits / 8, true, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); edge(a, ok ? mo : fmo, true, ok); return ok; } \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile type *a, type *c, type v, int mo, int fmo) { before(a, bits / 8, true, PC); bool ok = __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); edge(a, ok ? mo : fmo, true, ok); return ok; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
}
#endif
