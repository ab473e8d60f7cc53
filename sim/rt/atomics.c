// Every atomic access compiled into the simulated crates is a call to one of these functions: the
// crates are built with LLVM's ThreadSanitizer pass (`-C passes=function(tsan)`), but linked with
// this file instead of the sanitizer runtime.
//
// Accesses made by simulated library code (`sim_in_lib` set for the running thread) are handed to
// the simulator, which may switch threads before and after and decides which value a load sees.
// Everything else is performed as is.
#include <stdint.h>
#include <stdbool.h>

typedef int morder;

// set by the simulator: is this thread inside a library call of a simulated thread?
__thread bool sim_in_lib = false;

void sim_set_in_lib(bool v) { sim_in_lib = v; }
bool sim_get_in_lib(void) { return sim_in_lib; }

// provided by the simulator (rust)
extern void sim_before(const void *addr, int kind);
extern void sim_after(const void *addr, int kind);
// value a load observes; `cur` is what memory holds
extern uint64_t sim_observe(const void *addr, uint64_t cur, int mo);
extern void sim_stored(const void *addr, uint64_t old, uint64_t val, int mo, bool rmw);
// a lock-like compare-exchange would fail: run somebody else first; false: nobody can run
extern bool sim_contended(void);
extern void sim_fence(void);

// The simulator is compiled with the same flags: it runs with the flag off.
#define OUT(call) do { sim_in_lib = false; call; sim_in_lib = true; } while (0)

#define SEQ __ATOMIC_SEQ_CST
enum { LOAD = 1, STORE = 2, RMW = 3, FENCE = 4 };

static bool contended(void) {
    bool r;
    OUT(r = sim_contended());
    return r;
}

// What the standard library's reader-writer lock holds while a writer has it: a reader would go to
// sleep in code that was compiled elsewhere. Let it come later, as it would have to anyway.
#define WRITE_LOCKED(bits, v) (bits == 32 && ((v) & 0x3fffffffu) == 0x3fffffffu)

#define contended_cas(bits, p, c, mo)                                                              \
    ((((c) == 0 && ((mo) == 2 || (mo) == 4 || (mo) == 5))                                          \
      || WRITE_LOCKED(bits, __atomic_load_n(p, SEQ))) && contended())

#define DEF(bits)                                                                                  \
    typedef uint##bits##_t a##bits;                                                                \
    a##bits __tsan_atomic##bits##_load(const volatile a##bits *p, morder mo) {                     \
        if (!sim_in_lib) return __atomic_load_n(p, SEQ);                                           \
        a##bits v;                                                                                 \
        OUT(sim_before((const void *)p, LOAD));                                                    \
        for (int i = 0; i < 5000 && WRITE_LOCKED(bits, __atomic_load_n(p, SEQ)) && contended(); i++) {} \
        OUT(v = (a##bits)sim_observe((const void *)p, __atomic_load_n(p, SEQ), mo));               \
        OUT(sim_after((const void *)p, LOAD));                                                     \
        return v;                                                                                  \
    }                                                                                              \
    void __tsan_atomic##bits##_store(volatile a##bits *p, a##bits v, morder mo) {                  \
        if (!sim_in_lib) { __atomic_store_n(p, v, SEQ); return; }                                  \
        OUT(sim_before((const void *)p, STORE));                                                   \
        a##bits old = __atomic_exchange_n(p, v, SEQ);                                              \
        OUT(sim_stored((const void *)p, old, v, mo, false));                                       \
        OUT(sim_after((const void *)p, STORE));                                                    \
    }                                                                                              \
    RMWOP(bits, exchange, v)                                                                       \
    RMWOP(bits, fetch_add, (a##bits)(o + v))                                                       \
    RMWOP(bits, fetch_sub, (a##bits)(o - v))                                                       \
    RMWOP(bits, fetch_and, (a##bits)(o & v))                                                       \
    RMWOP(bits, fetch_or, (a##bits)(o | v))                                                        \
    RMWOP(bits, fetch_xor, (a##bits)(o ^ v))                                                       \
    RMWOP(bits, fetch_nand, (a##bits)(~(o & v)))                                                   \
    a##bits __tsan_atomic##bits##_compare_exchange_val(volatile a##bits *p, a##bits c, a##bits v,  \
                                                       morder mo, morder fmo) {                    \
        (void)fmo;                                                                                 \
        if (!sim_in_lib) {                                                                         \
            __atomic_compare_exchange_n(p, &c, v, false, SEQ, SEQ);                                \
            return c;                                                                              \
        }                                                                                          \
        OUT(sim_before((const void *)p, RMW));                                                     \
        /* taking a free lock: wait until it is free, as the thread would */                       \
        for (int i = 0; i < 5000 && __atomic_load_n(p, SEQ) != c && contended_cas(bits, p, c, mo); i++) {} \
        a##bits old = c;                                                                           \
        if (__atomic_compare_exchange_n(p, &old, v, false, SEQ, SEQ))                              \
            OUT(sim_stored((const void *)p, old, v, mo, true));                                    \
        else                                                                                       \
            OUT(sim_stored((const void *)p, old, old, mo, true));                                  \
        OUT(sim_after((const void *)p, RMW));                                                      \
        return old;                                                                                \
    }                                                                                              \
    bool __tsan_atomic##bits##_compare_exchange_strong(volatile a##bits *p, a##bits *c, a##bits v, \
                                                       morder mo, morder fmo) {                    \
        a##bits e = *c;                                                                            \
        *c = __tsan_atomic##bits##_compare_exchange_val(p, e, v, mo, fmo);                         \
        return *c == e;                                                                            \
    }                                                                                              \
    bool __tsan_atomic##bits##_compare_exchange_weak(volatile a##bits *p, a##bits *c, a##bits v,   \
                                                     morder mo, morder fmo) {                      \
        return __tsan_atomic##bits##_compare_exchange_strong(p, c, v, mo, fmo);                    \
    }

#define RMWOP(bits, name, expr)                                                                    \
    a##bits __tsan_atomic##bits##_##name(volatile a##bits *p, a##bits v, morder mo) {              \
        bool sim = sim_in_lib;                                                                     \
        if (sim) OUT(sim_before((const void *)p, RMW));                                            \
        a##bits o = __atomic_load_n(p, SEQ);                                                       \
        while (!__atomic_compare_exchange_n(p, &o, (expr), false, SEQ, SEQ)) {}                    \
        if (sim) {                                                                                 \
            OUT(sim_stored((const void *)p, o, (expr), mo, true));                                 \
            OUT(sim_after((const void *)p, RMW));                                                  \
        }                                                                                          \
        return o;                                                                                  \
    }

DEF(8)
DEF(16)
DEF(32)
DEF(64)

void __tsan_atomic_thread_fence(morder mo) {
    (void)mo;
    __atomic_thread_fence(SEQ);
    if (sim_in_lib) {
        OUT(sim_before(0, FENCE));
        OUT(sim_fence());
        OUT(sim_after(0, FENCE));
    }
}
void __tsan_atomic_signal_fence(morder mo) { (void)mo; __atomic_signal_fence(SEQ); }

void __tsan_init(void) {}
void __tsan_func_entry(void *pc) { (void)pc; }
void __tsan_func_exit(void) {}
void __tsan_ignore_thread_begin(void) {}
void __tsan_ignore_thread_end(void) {}
void __tsan_vptr_read(void **p) { (void)p; }
void __tsan_vptr_update(void **p, void *v) { (void)p; (void)v; }

// Plain accesses, in the build that instruments them too
extern void sim_plain(const void *addr, uint64_t size, bool write);
bool sim_tracing = false;
bool sim_dirty = false; // has anybody written plain memory the others can see?
uint64_t sim_plain_count = 0;
#define PLAIN(a, n, w)                                                                             \
    do {                                                                                           \
        if (__builtin_expect(sim_in_lib && sim_tracing, 0)) {                                      \
            sim_plain_count++;                                                                     \
            if ((w) || sim_dirty)                                                                  \
                OUT(sim_plain((a), (n), (w)));                                                     \
        }                                                                                          \
    } while (0)
#define RW(n)                                                                                      \
    void __tsan_read##n(void *a) { PLAIN(a, n, false); }                                           \
    void __tsan_write##n(void *a) { PLAIN(a, n, true); }                                           \
    void __tsan_read_write##n(void *a) { PLAIN(a, n, true); }                                      \
    void __tsan_unaligned_read##n(void *a) { PLAIN(a, n, false); }                                 \
    void __tsan_unaligned_write##n(void *a) { PLAIN(a, n, true); }                                 \
    void __tsan_unaligned_read_write##n(void *a) { PLAIN(a, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *a, uint64_t n) { PLAIN(a, n, false); }
void __tsan_write_range(void *a, uint64_t n) { PLAIN(a, n, true); }
void *__tsan_memcpy(void *d, const void *s, uint64_t n) {
    PLAIN(s, n, false); PLAIN(d, n, true);
    return __builtin_memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, uint64_t n) {
    PLAIN(s, n, false); PLAIN(d, n, true);
    return __builtin_memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, uint64_t n) {
    PLAIN(d, n, true);
    return __builtin_memset(d, c, n);
}
