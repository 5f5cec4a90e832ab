// operator new and delete of the code under test: addresses that do not depend
// on the machine, red zones, poisoning and a quarantine (so that overflows,
// use after free and double frees show), accounting, and a preemption point at
// every allocation.  Not used in the address sanitizer build.
#include "sim.hpp"
#include "real.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <new>
#include <sys/mman.h>

using namespace sim;

static int64_t live_n = 0, live_b = 0;
namespace sim {
int64_t live_objects() { return live_n; }
int64_t live_bytes() { return live_b; }
}

#ifdef SIM_ASAN
extern "C" {
void __asan_set_error_report_callback(void (*)(const char *));
int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void *, size_t), void (*)(const volatile void *));
}
extern "C" const char *__asan_default_options() {
    return "detect_leaks=0:abort_on_error=0:exitcode=77:handle_abort=0:allocator_may_return_null=1:"
           "detect_stack_use_after_return=0:quarantine_size_mb=32:malloc_context_size=12:alloc_dealloc_mismatch=0";
}
static void on_report(const char *r) {
    Quiet q;
    if (sh && sh->outcome == O_NONE) {
        const char *p = strstr(r, "AddressSanitizer");
        snprintf(sh->viol_class, sizeof sh->viol_class, "memory");
        // first line and the first frames without addresses
        size_t o = 0;
        const char *s = p ? p : r;
        for (int line = 0; *s && line < 40 && o < sizeof sh->message - 2; s++) {
            if (*s == '\n') line++;
            sh->message[o++] = *s;
        }
        sh->message[o] = 0;
        finish(O_VIOLATION);
    }
}
static void on_malloc(const volatile void *, size_t n) {
    if (on_sim_thread() && !quiet()) { live_n++; live_b += n; sh->c.allocs++; }
}
static void on_free(const volatile void *p) {
    (void) p;
    if (p && on_sim_thread() && !quiet()) { live_n--; sh->c.frees++; }
}
namespace sim { void alloc_init() {
    __asan_set_error_report_callback(on_report);
    (void) on_malloc; (void) on_free;
} }
#else

#ifdef SIM_RACE
namespace sim { void hb_alloc(const void *, size_t); void hb_free(const void *, size_t); }
#endif

namespace {
struct Head { uint64_t size; uint32_t magic; uint16_t cls; uint16_t lib; };
static_assert(sizeof(Head) == 16, "");
const uint32_t LIVE = 0xA11C0DE5, FREED = 0xF4EEF4EE;
const uintptr_t BASE = 0x200000000000ull;
const size_t REGION = 24ull << 30;
const size_t TAIL = 16;
uintptr_t top = 0;
struct Free { Free *next; };
const int NCLS = 256;
Free *fl[NCLS];
size_t cls_size[NCLS];
int ncls = 0;
const int QLEN = 256;
void *quar[QLEN];
int qpos = 0;

void init() {
    void *p = mmap((void *) BASE, REGION, PROT_READ | PROT_WRITE,
                   MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_FIXED_NOREPLACE, -1, 0);
    if (p != (void *) BASE) abort();
    top = BASE;
    for (size_t s = 32; s <= 1024; s += 16) cls_size[ncls++] = s;
    for (size_t s = 1024; s < (8ull << 30) && ncls < NCLS; s *= 2)
        for (int q = 5; q <= 8; q++) cls_size[ncls++] = s / 4 * q;
}
int find_cls(size_t n) {
    if (n <= 1024) return n <= 32 ? 0 : (int) ((n - 32 + 15) / 16);
    int lo = 62, hi = ncls - 1;
    while (lo < hi) {
        int m = (lo + hi) / 2;
        if (cls_size[m] >= n) hi = m; else lo = m + 1;
    }
    return lo;
}
const char *hexdump(const void *p) {
    static char b[64];
    const unsigned char *c = (const unsigned char *) p;
    for (int i = 0; i < 16; i++) snprintf(b + 2 * i, 3, "%02x", c[i]);
    return b;
}
void *get(size_t n) {
    if (!top) init();
    const size_t need = sizeof(Head) + n + TAIL;
    if (need > (6ull << 30)) return nullptr;
    const int c = find_cls(need);
    char *p;
    if (fl[c]) {
        p = (char *) fl[c];
        fl[c] = fl[c]->next;
    }
    else {
        p = (char *) top;
        top += cls_size[c];
        if (top > BASE + REGION) return nullptr;
    }
    Head *h = (Head *) p;
    h->size = n;
    h->magic = LIVE;
    h->cls = c;
    h->lib = 0;
    char *u = p + sizeof(Head);
    memset(u, 0xCD, n < 65536 ? n : 65536);
    memset(u + n, 0xFB, TAIL);
    return u;
}
bool all_is(const unsigned char *p, unsigned char v, size_t n) {
    for (size_t i = 0; i < n; i++) if (p[i] != v) return false;
    return true;
}
void really_free(void *u) {
    Head *h = (Head *) ((char *) u - sizeof(Head));
    const size_t n = h->size < 4096 ? h->size : 4096;
    if (h->magic != FREED || !all_is((unsigned char *) u, 0xDD, n))
        violation("memory", "freed memory was written to afterwards (object of %lu bytes, now %s)",
                  (unsigned long) h->size, hexdump(u));
    const int c = h->cls;
    Free *f = (Free *) h;
    f->next = fl[c];
    fl[c] = f;
}
void put(void *u) {
    Head *h = (Head *) ((char *) u - sizeof(Head));
    if ((uintptr_t) u < BASE || (uintptr_t) u >= BASE + REGION || ((uintptr_t) u & 15))
        violation("memory", "free of a pointer that was never allocated");
    if (h->magic == FREED) violation("memory", "object of %lu bytes freed twice", (unsigned long) h->size);
    if (h->magic != LIVE) violation("memory", "free of something that is not the start of an object");
    if (!all_is((unsigned char *) u + h->size, 0xFB, TAIL))
        violation("memory", "write beyond the end of an object of %lu bytes", (unsigned long) h->size);
#ifdef SIM_RACE
    if (h->lib) hb_free(u, h->size);
#endif
    if (h->lib) { live_n--; live_b -= h->size; sh->c.frees++; }
    h->magic = FREED;
    memset(u, 0xDD, h->size < 65536 ? h->size : 65536);
    void *old = quar[qpos];
    quar[qpos] = u;
    qpos = (qpos + 1) % QLEN;
    if (old) really_free(old);
}
void *lib_new(size_t n) {
    const bool lib = on_sim_thread() && !quiet();
    if (lib) point(PT_ALLOC);
    void *p = get(n);
    if (!p) {
        if (lib) violation("memory", "absurd allocation of %lu bytes", (unsigned long) n);
        abort();
    }
    if (lib) {
        ((Head *) ((char *) p - sizeof(Head)))->lib = 1;
        live_n++;
        live_b += n;
        sh->c.allocs++;
    }
#ifdef SIM_RACE
    hb_alloc(p, n);
#endif
    return p;
}
}

namespace sim { void alloc_init() {} }

// RocksDB asks for the size of objects it got from new
extern "C" size_t malloc_usable_size(void *p) noexcept {
    if ((uintptr_t) p >= BASE && (uintptr_t) p < BASE + REGION) return ((Head *) ((char *) p - sizeof(Head)))->size;
    static size_t (*real)(void *) = nullptr;
    if (!real) real = (size_t (*)(void *)) dlsym(RTLD_NEXT, "malloc_usable_size");
    return real ? real(p) : 0;
}

void *operator new(size_t n) { return lib_new(n); }
void *operator new[](size_t n) { return lib_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return lib_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return lib_new(n); }
void operator delete(void *p) noexcept { if (p) put(p); }
void operator delete[](void *p) noexcept { if (p) put(p); }
void operator delete(void *p, size_t) noexcept { if (p) put(p); }
void operator delete[](void *p, size_t) noexcept { if (p) put(p); }
void operator delete(void *p, const std::nothrow_t &) noexcept { if (p) put(p); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { if (p) put(p); }
// over-aligned objects: not tracked
void *operator new(size_t n, std::align_val_t a) { void *p = nullptr; if (posix_memalign(&p, (size_t) a < 16 ? 16 : (size_t) a, n)) abort(); return p; }
void *operator new[](size_t n, std::align_val_t a) { return operator new(n, a); }
void operator delete(void *p, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, std::align_val_t) noexcept { free(p); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { free(p); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { free(p); }
#endif
