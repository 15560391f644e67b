// Run-time of the memory-access callbacks the compiler inserts (-fsanitize=thread
// without its library): an access to memory another simulated thread has used
// without synchronisation in between is reported as sharing.
#include "sched.hpp"

#include <cerrno>
#include <cstdarg>
#include <cstdio>
#include <dlfcn.h>
#include <pthread.h>

namespace sim {
namespace {

constexpr int MAXT = 8;
constexpr std::size_t CELLS = 1 << 17, SYNCS = 64;

struct Cell {                       // eight bytes of memory
    std::uintptr_t key;
    u64 gen;
    unsigned wclk[MAXT], rclk[MAXT];     // clock of the accessing thread
    u8 wmask[MAXT], rmask[MAXT];
};
struct Sync { const void* p; unsigned vc[MAXT]; };

Cell* cells = nullptr;
u64 gen = 1;
std::size_t used;
bool on = false;
unsigned vc[MAXT][MAXT];
Sync syncs[SYNCS];
std::size_t nsyncs;
const char* where[MAXT];
bool found;
char what[400];
thread_local char *lo = nullptr, *hi = nullptr;       // this thread's stack
thread_local bool busy = false;

Cell* cell(std::uintptr_t key, bool make) {
    std::size_t i = (std::size_t) (key * 0x9E3779B97F4A7C15ull >> 40) % CELLS;
    for (;; i = (i + 1) % CELLS) {
        Cell& c = cells[i];
        if (c.gen != gen) {
            if (!make || used > CELLS / 2) return nullptr;
            ++used;
            std::memset(&c, 0, sizeof c);
            c.key = key;
            c.gen = gen;
            return &c;
        }
        if (c.key == key) return &c;
    }
}
void report(int me, int other, bool w, bool ow, const void* pc) {
    if (found) return;
    found = true;
    Dl_info d{};
    u64 off = dladdr(pc, &d) ? (u64) ((const char*) pc - (const char*) d.dli_fbase) : 0;
    std::snprintf(what, sizeof what, "thread %d %s memory in \"%s\" that thread %d %s in \"%s\", without synchronisation between them (at +0x%llx)",
        me, w ? "writes" : "reads", where[me] ? where[me] : "?", other, ow ? "wrote" : "read", where[other] ? where[other] : "?", (unsigned long long) off);
}
void access(const void* p, std::size_t n, bool w, const void* pc) {
    if (!on) return;
    int me = current_thread();
    if (me < 0 || busy || n == 0 || !K.in_op || pause_depth) return;
    if (!lo) {
        busy = true;
        pthread_attr_t a;
        void* base;
        std::size_t size;
        if (pthread_getattr_np(pthread_self(), &a) == 0) {
            pthread_attr_getstack(&a, &base, &size);
            lo = (char*) base;
            hi = lo + size;
            pthread_attr_destroy(&a);
        }
        busy = false;
    }
    if ((const char*) p >= lo && (const char*) p < hi) return;
    busy = true;
    struct Free { ~Free() { busy = false; } } free_at_end;
    std::uintptr_t a = (std::uintptr_t) p, e = a + n;
    while (a < e) {
        std::uintptr_t key = a >> 3, next = (key + 1) << 3;
        unsigned from = (unsigned) (a & 7), to = (unsigned) ((next < e ? next : e) - (key << 3));
        u8 mask = (u8) (((1u << to) - 1) & ~((1u << from) - 1));
        a = next;
        Cell* c = cell(key, true);
        if (!c) return;
        for (int t = 0; t < MAXT; ++t) {
            if (t == me) continue;
            if ((c->wmask[t] & mask) && c->wclk[t] > vc[me][t]) report(me, t, w, true, pc);
            if (w && (c->rmask[t] & mask) && c->rclk[t] > vc[me][t]) report(me, t, w, false, pc);
        }
        unsigned now = vc[me][me];
        unsigned& clk = w ? c->wclk[me] : c->rclk[me];
        u8& m = w ? c->wmask[me] : c->rmask[me];
        if (clk != now) { clk = now; m = 0; }
        m |= mask;
    }
}

} // namespace

void race_begin() {
    if (!cells) cells = (Cell*) std::calloc(CELLS, sizeof (Cell));
    ++gen;
    used = 0;
    nsyncs = 0;
    found = false;
    std::memset(vc, 0, sizeof vc);
    for (int i = 0; i < MAXT; ++i) {
        vc[i][i] = 1;
        where[i] = nullptr;
    }
    on = true;
}
const char* race_end() {
    on = false;
    return found ? what : nullptr;
}
void race_access(const void* p, std::size_t n, bool w) { access(p, n, w, __builtin_return_address(0)); }
void race_where(const char* s) { if (current_thread() >= 0) where[current_thread()] = s; }
// every use of a synchronisation object both acquires and releases it
void race_sync(const void* p) {
    int me = current_thread();
    if (!on || me < 0) return;
    Sync* s = nullptr;
    for (std::size_t i = 0; i < nsyncs; ++i) if (syncs[i].p == p) s = &syncs[i];
    if (!s) {
        if (nsyncs == SYNCS) { on = false; return; }
        s = &syncs[nsyncs++];
        std::memset(s, 0, sizeof *s);
        s->p = p;
    }
    for (int t = 0; t < MAXT; ++t) {
        unsigned m = s->vc[t] > vc[me][t] ? s->vc[t] : vc[me][t];
        s->vc[t] = vc[me][t] = m;
    }
    ++vc[me][me];
}
// memory that starts a new life
void race_forget(const void* p, std::size_t n) {
    if (!on) return;
    for (std::uintptr_t k = (std::uintptr_t) p >> 3, e = ((std::uintptr_t) p + n + 7) >> 3; k < e; ++k)
        if (Cell* c = cell(k, false)) {
            std::memset(c->wmask, 0, sizeof c->wmask);
            std::memset(c->rmask, 0, sizeof c->rmask);
        }
}

} // namespace sim

#define PC __builtin_return_address(0)
using sim::access;
extern "C" {

void __tsan_init() {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit() {}
#define RW(n) \
    void __tsan_read##n(void* p) { sim::access(p, n, false, PC); } \
    void __tsan_write##n(void* p) { sim::access(p, n, true, PC); } \
    void __tsan_unaligned_read##n(void* p) { sim::access(p, n, false, PC); } \
    void __tsan_unaligned_write##n(void* p) { sim::access(p, n, true, PC); } \
    void __tsan_volatile_read##n(void* p) { sim::access(p, n, false, PC); } \
    void __tsan_volatile_write##n(void* p) { sim::access(p, n, true, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_vptr_update(void** p, void* v) { if (*p != v) sim::access(p, sizeof *p, true, PC); }
void __tsan_vptr_read(void** p) { sim::access(p, sizeof *p, false, PC); }
void __tsan_read_range(void* p, std::size_t n) { sim::access(p, n, false, PC); }
void __tsan_write_range(void* p, std::size_t n) { sim::access(p, n, true, PC); }

#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T* a, int) { sim::race_sync((const void*) a); return __atomic_load_n(a, __ATOMIC_SEQ_CST); } \
    void __tsan_atomic##bits##_store(volatile T* a, T v, int) { sim::race_sync((const void*) a); __atomic_store_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_exchange(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_exchange_n(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_add(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_fetch_add(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_fetch_sub(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_and(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_fetch_and(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_or(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_fetch_or(a, v, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T* a, T v, int) { sim::race_sync((const void*) a); return __atomic_fetch_xor(a, v, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T* a, T* c, T v, int, int) { \
        sim::race_sync((const void*) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T* a, T* c, T v, int, int) { \
        sim::race_sync((const void*) a); return __atomic_compare_exchange_n(a, c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T* a, T c, T v, int, int) { \
        sim::race_sync((const void*) a); __atomic_compare_exchange_n(a, &c, v, false, __ATOMIC_SEQ_CST, __ATOMIC_SEQ_CST); return c; }
AT(8, std::uint8_t) AT(16, std::uint16_t) AT(32, std::uint32_t) AT(64, std::uint64_t)
void __tsan_atomic_thread_fence(int) { sim::race_sync((const void*) 1); }
void __tsan_atomic_signal_fence(int) {}

// calls from the library and the scenario to these go through here (--wrap)
void* __real_memcpy(void*, const void*, std::size_t);
void* __real_memmove(void*, const void*, std::size_t);
void* __real_memset(void*, int, std::size_t);
int __real_memcmp(const void*, const void*, std::size_t);
std::size_t __real_strlen(const char*);
void* __real_memchr(const void*, int, std::size_t);
char* __real_strcpy(char*, const char*);
char* __real_strncpy(char*, const char*, std::size_t);
char* __real_strcat(char*, const char*);
int __real_vsnprintf(char*, std::size_t, const char*, va_list);
void* __real_malloc(std::size_t);
void* __real_calloc(std::size_t, std::size_t);
void* __real_realloc(void*, std::size_t);
void* __real___cxa_allocate_exception(std::size_t);
int __real_pthread_once(pthread_once_t*, void (*)());
void* __wrap_memcpy(void* d, const void* s, std::size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memcpy(d, s, n);
}
void* __wrap_memmove(void* d, const void* s, std::size_t n) {
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_memmove(d, s, n);
}
void* __wrap_memset(void* d, int c, std::size_t n) {
    access(d, n, true, PC);
    return __real_memset(d, c, n);
}
int __wrap_memcmp(const void* a, const void* b, std::size_t n) {
    access(a, n, false, PC);
    access(b, n, false, PC);
    return __real_memcmp(a, b, n);
}
std::size_t __wrap_strlen(const char* s) {
    std::size_t n = __real_strlen(s);
    access(s, n + 1, false, PC);
    return n;
}
void* __wrap_memchr(const void* s, int c, std::size_t n) {
    void* p = __real_memchr(s, c, n);
    access(s, p ? (std::size_t) ((const char*) p - (const char*) s) + 1 : n, false, PC);
    return p;
}
char* __wrap_strcpy(char* d, const char* s) {
    std::size_t n = __real_strlen(s) + 1;
    access(s, n, false, PC);
    access(d, n, true, PC);
    return __real_strcpy(d, s);
}
char* __wrap_strncpy(char* d, const char* s, std::size_t n) {
    access(s, strnlen(s, n), false, PC);
    access(d, n, true, PC);
    return __real_strncpy(d, s, n);
}
char* __wrap_strcat(char* d, const char* s) {
    std::size_t n = __real_strlen(s) + 1, m = __real_strlen(d);
    access(s, n, false, PC);
    access(d, m + n, true, PC);
    return __real_strcat(d, s);
}
int __wrap_vsnprintf(char* d, std::size_t n, const char* f, va_list a) {
    int k = __real_vsnprintf(d, n, f, a);
    if (k >= 0 && n) access(d, (std::size_t) k < n ? (std::size_t) k + 1 : n, true, PC);
    return k;
}
int __wrap_snprintf(char* d, std::size_t n, const char* f, ...) {
    va_list a;
    va_start(a, f);
    int k = __wrap_vsnprintf(d, n, f, a);
    va_end(a);
    return k;
}
int __wrap_sprintf(char* d, const char* f, ...) {
    va_list a;
    va_start(a, f);
    int k = __wrap_vsnprintf(d, (std::size_t) 1 << 30, f, a);
    va_end(a);
    return k;
}
void* __wrap_malloc(std::size_t n) {
    void* p = __real_malloc(n);
    if (p) sim::race_forget(p, n);
    return p;
}
void* __wrap_calloc(std::size_t n, std::size_t m) {
    void* p = __real_calloc(n, m);
    if (p) sim::race_forget(p, n * m);
    return p;
}
void* __wrap_realloc(void* q, std::size_t n) {
    void* p = __real_realloc(q, n);
    if (p) sim::race_forget(p, n);
    return p;
}
void* __wrap___cxa_allocate_exception(std::size_t n) {
    void* p = __real___cxa_allocate_exception(n);
    if (p) sim::race_forget(p, n);
    return p;
}
int __wrap_pthread_once(pthread_once_t* o, void (*f)()) {
    sim::race_sync(o);
    int r = __real_pthread_once(o, f);
    sim::race_sync(o);
    return r;
}

} // extern "C"
