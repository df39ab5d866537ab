// Run time for -fsanitize=thread instrumentation under the controlled scheduler: vector clocks, data race and
// use-after-free detection, exact with respect to the happens-before order of the explored schedule.
#include "hzsched.h"
#include "mc.h"
#include <cstdlib>
#include <cstring>
#include <link.h>
#include <new>
#include <unordered_map>
#include <vector>
#include <dlfcn.h>

namespace sched { void note_atomic(const void *addr, bool is_load); }

namespace {
    constexpr int MAXF = 64;
    struct VC {
        uint32_t c[MAXF];
    };
    VC vc[MAXF];
    int nf = 1, cur = 0;
    bool on = false, busy = false;

    struct Cell {
        uint32_t clk;
        uint8_t fiber, mask;
        bool write, atomic;
        const void *pc;
    };
    struct Granule {
        uint64_t key;       // addr >> 3
        uint32_t gen;
        uint8_t n, freed;   // freed: byte mask
        Cell small[5];
        std::vector<Cell> *more;
    };
    constexpr int BITS = 18;
    Granule *tab;
    uint32_t gen = 0;
    uint64_t used = 0;

    struct Sync { uint32_t gen; VC vc; };
    std::unordered_map<const void *, Sync> *syncs;

    struct Freed { void *p; };
    std::vector<Freed> *quarantine;
    uintptr_t tls_lo = 0, tls_hi = 0;

    int find_tls(struct dl_phdr_info *i, size_t, void *) {
        for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_TLS && i->dlpi_tls_data) {
            auto a = (uintptr_t) i->dlpi_tls_data, b = a + i->dlpi_phdr[k].p_memsz;
            if (!tls_lo || a < tls_lo) tls_lo = a;
            if (b > tls_hi) tls_hi = b;
        }
        return 0;
    }

    Granule *granule(uintptr_t key) {
        uint64_t mask = (1ull << BITS) - 1, i = (key * 0x9e3779b97f4a7c15ull) >> (64 - BITS);
        for (uint64_t k = 0; k <= mask; k++, i = (i + 1) & mask) {
            auto &g = tab[i];
            if (g.gen != gen) {
                if (++used > (mask * 3) / 4) mc::internal_error("race monitor: shadow table full");
                g.gen = gen;
                g.key = key;
                g.n = 0;
                g.freed = 0;
                if (g.more) g.more->clear();
                return &g;
            }
            if (g.key == key) return &g;
        }
        return nullptr;
    }

    Granule *find(uintptr_t key) {
        uint64_t mask = (1ull << BITS) - 1, i = (key * 0x9e3779b97f4a7c15ull) >> (64 - BITS);
        for (;; i = (i + 1) & mask) {
            auto &g = tab[i];
            if (g.gen != gen) return nullptr;
            if (g.key == key) return &g;
        }
    }

    std::string sym(const void *pc) {
        Dl_info d;
        char b[64];
        if (dladdr(pc, &d) && d.dli_sname) return std::string(d.dli_sname);
        snprintf(b, sizeof b, "%p", pc);
        return b;
    }

    __attribute__((noinline)) void race_found(const Cell &c, uintptr_t a, int size, bool write, const void *pc) {
        busy = true;
        char b[512];
        snprintf(b, sizeof b, "thread %d %s %d bytes at %#lx in %s, not ordered with thread %d's earlier %s in %s", cur,
                 write ? "writes" : "reads", size, (unsigned long) a, sym(pc).c_str(), c.fiber, c.write ? "write" : "read", sym(c.pc).c_str());
        mc::fail("data race", b);
    }

    void access_granule(uintptr_t key, uint8_t mask, bool write, bool atomic, uintptr_t addr, int size, const void *pc) {
        auto *g = granule(key);
        if (g->freed & mask) {
            busy = true;
            char b[256];
            snprintf(b, sizeof b, "thread %d %s %d bytes of released memory at %#lx in %s", cur, write ? "writes" : "reads", size, (unsigned long) addr, sym(pc).c_str());
            mc::fail("use after free", b);
        }
        uint32_t myclk = vc[cur].c[cur];
        bool placed = false;
        auto visit = [&](Cell &c) {
            if (c.fiber == cur) {
                if (c.write == write && c.atomic == atomic && (c.mask & mask) == c.mask && !placed) {
                    c.clk = myclk;
                    c.mask = mask;
                    c.pc = pc;
                    placed = true;
                }
                return;
            }
            if (!(c.mask & mask) || !(c.write || write)) return;
            if (c.atomic && atomic) return;
            if (c.clk > vc[cur].c[c.fiber]) race_found(c, addr, size, write, pc);
        };
        for (int i = 0; i < g->n; i++) visit(g->small[i]);
        if (g->more) for (auto &c: *g->more) visit(c);
        if (!placed) {
            Cell c{myclk, (uint8_t) cur, mask, write, atomic, pc};
            if (g->n < 5) g->small[g->n++] = c;
            else {
                if (!g->more) { busy = true; g->more = new std::vector<Cell>; busy = false; }
                busy = true;
                g->more->push_back(c);
                busy = false;
            }
        }
    }

    inline void access(const void *p, size_t n, bool write, bool atomic, const void *pc) {
        if (!on || busy || n == 0) return;
        auto a = (uintptr_t) p;
        if (a >= tls_lo && a < tls_hi) return;
        uintptr_t e = a + n;
        for (uintptr_t k = a >> 3; k <= (e - 1) >> 3; k++) {
            uintptr_t lo = k << 3;
            unsigned f = a > lo ? a - lo : 0, t = e < lo + 8 ? e - lo : 8;
            uint8_t m = (uint8_t) (((1u << t) - 1) & ~((1u << f) - 1));
            access_granule(k, m, write, atomic, a, (int) n, pc);
        }
    }

    void clear_range(const void *p, size_t n) {
        auto a = (uintptr_t) p;
        for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
            auto *g = find(k);
            if (!g) continue;
            g->n = 0;
            g->freed = 0;
            if (g->more) g->more->clear();
        }
    }

    void init() {
        static bool done = false;
        if (done) return;
        done = true;
        busy = true;
        tab = (Granule *) calloc(1ull << BITS, sizeof(Granule));
        syncs = new std::unordered_map<const void *, Sync>;
        quarantine = new std::vector<Freed>;
        dl_iterate_phdr(find_tls, nullptr);
        // errno, eh globals and the like of libc/libstdc++ are covered as well
        busy = false;
    }
}

namespace race {
    void reset() {
        init();
        on = false;
        for (auto &q: *quarantine) free(q.p);
        quarantine->clear();
        syncs->clear();
        gen++;
        used = 0;
        nf = 1;
        cur = 0;
        memset(vc, 0, sizeof vc);
        vc[0].c[0] = 1;
        on = sched::knobs.races;
    }

    void fiber_start(int parent, int child, const void *, const void *) {
        if (!on) return;
        for (int i = 0; i < MAXF; i++) if (vc[parent].c[i] > vc[child].c[i]) vc[child].c[i] = vc[parent].c[i];
        vc[child].c[child]++;
        vc[parent].c[parent]++;
        if (child + 1 > nf) nf = child + 1;
    }

    void fiber_switch(int to) { cur = to; }

    void acquire(const void *a) {
        if (!on) return;
        busy = true;
        auto it = syncs->find(a);
        if (it != syncs->end()) for (int i = 0; i < nf; i++) if (it->second.vc.c[i] > vc[cur].c[i]) vc[cur].c[i] = it->second.vc.c[i];
        busy = false;
    }

    void release(const void *a) {
        if (!on) return;
        busy = true;
        auto &s = (*syncs)[a];
        for (int i = 0; i < nf; i++) if (vc[cur].c[i] > s.vc.c[i]) s.vc.c[i] = vc[cur].c[i];
        vc[cur].c[cur]++;
        busy = false;
    }

    void join(int) {}

    void finish() {
        on = false;
        for (auto &q: *quarantine) free(q.p);
        quarantine->clear();
    }
}

// ------------------------------------------------------------ allocation
static void *do_new(size_t n, size_t al = 0) {
    size_t m = n ? n : 1;
    void *p = al > 16 ? aligned_alloc(al, (m + al - 1) / al * al) : malloc(m);
    if (!p) throw std::bad_alloc();
    if (on && !busy) { if (m < (1 << 16)) memset(p, 0xCD, m); clear_range(p, m); }
    return p;
}

extern "C" size_t malloc_usable_size(void *);

static void do_delete(void *p, const void *pc) {
    if (!p) return;
    if (!on || busy) { free(p); return; }
    size_t n = malloc_usable_size(p);
    if (n >= (1 << 16)) { free(p); return; }
    auto a = (uintptr_t) p;
    access(p, n, true, false, pc);
    for (uintptr_t k = a >> 3; k <= (a + n - 1) >> 3; k++) {
        auto *g = granule(k);
        if (g->freed) mc::fail("double free", sym(pc));
        uintptr_t e = a + n, lo = k << 3;
        unsigned t = e < lo + 8 ? e - lo : 8;
        g->freed = (uint8_t) ((1u << t) - 1);
    }
    busy = true;
    quarantine->push_back({p});
    busy = false;
}

#define PC __builtin_return_address(0)
void *operator new(size_t n) { return do_new(n); }
void *operator new[](size_t n) { return do_new(n); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return do_new(n); }
void *operator new(size_t n, std::align_val_t a) { return do_new(n, (size_t) a); }
void *operator new[](size_t n, std::align_val_t a) { return do_new(n, (size_t) a); }
void operator delete(void *p) noexcept { do_delete(p, PC); }
void operator delete[](void *p) noexcept { do_delete(p, PC); }
void operator delete(void *p, size_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, size_t) noexcept { do_delete(p, PC); }
void operator delete(void *p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { do_delete(p, PC); }

// ------------------------------------------------------------ instrumentation callbacks
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_ignore_thread_begin() {}
void __tsan_ignore_thread_end() {}
#define RW(n) \
    void __tsan_read##n(void *p) { access(p, n, false, false, PC); } \
    void __tsan_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false, false, PC); } \
    void __tsan_unaligned_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_read_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_read_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false, false, PC); } \
    void __tsan_volatile_write##n(void *p) { access(p, n, true, false, PC); } \
    void __tsan_unaligned_volatile_read##n(void *p) { access(p, n, false, false, PC); } \
    void __tsan_unaligned_volatile_write##n(void *p) { access(p, n, true, false, PC); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, size_t n) { access(p, n, false, false, PC); }
void __tsan_write_range(void *p, size_t n) { access(p, n, true, false, PC); }
void __tsan_vptr_update(void **p, void *v) { if (*p != v) access(p, 8, true, false, PC); }
void __tsan_vptr_read(void **p) { access(p, 8, false, false, PC); }
void *__tsan_memcpy(void *d, const void *s, size_t n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return memcpy(d, s, n);
}
void *__tsan_memmove(void *d, const void *s, size_t n) {
    access(s, n, false, false, PC);
    access(d, n, true, false, PC);
    return memmove(d, s, n);
}
void *__tsan_memset(void *d, int c, size_t n) {
    access(d, n, true, false, PC);
    return memset(d, c, n);
}
}

namespace {
    template<typename T> struct A {
        static void pre(const volatile void *p, bool load, bool store, const void *pc) {
            auto *q = (const void *) p;
            if (!on || busy) return;
            sched::note_atomic(q, load && !store);
            access(q, sizeof(T), store, true, pc);
            if (load) race::acquire(q);
        }
        static void post(const volatile void *p, bool store) { if (on && !busy && store) race::release((const void *) p); }
    };
}
#define ATOMICS(bits, T) \
extern "C" T __tsan_atomic##bits##_load(const volatile T *p, int) { A<T>::pre(p, true, false, PC); return *p; } \
extern "C" void __tsan_atomic##bits##_store(volatile T *p, T v, int) { A<T>::pre(p, false, true, PC); A<T>::post(p, true); *p = v; } \
extern "C" T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = o + v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = o - v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = o & v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = o | v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = o ^ v; return o; } \
extern "C" T __tsan_atomic##bits##_fetch_nand(volatile T *p, T v, int) { A<T>::pre(p, true, true, PC); A<T>::post(p, true); T o = *p; *p = ~(o & v); return o; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { \
    A<T>::pre(p, true, true, PC); if (*p == *e) { A<T>::post(p, true); *p = v; return 1; } *e = *p; return 0; } \
extern "C" int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { \
    A<T>::pre(p, true, true, PC); if (*p == *e) { A<T>::post(p, true); *p = v; return 1; } *e = *p; return 0; } \
extern "C" T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { \
    A<T>::pre(p, true, true, PC); T o = *p; if (o == e) { A<T>::post(p, true); *p = v; } return o; }
ATOMICS(8, uint8_t)
ATOMICS(16, uint16_t)
ATOMICS(32, uint32_t)
ATOMICS(64, uint64_t)
ATOMICS(128, unsigned __int128)
extern "C" void __tsan_atomic_thread_fence(int) {}
extern "C" void __tsan_atomic_signal_fence(int) {}

// Exceptions live in storage that operator new never sees.
#include <dlfcn.h>
extern "C" void *__cxa_allocate_exception(size_t n) noexcept {
    static void *(*real)(size_t) = (void *(*)(size_t)) dlsym(RTLD_NEXT, "__cxa_allocate_exception");
    void *p = real(n);
    if (on && !busy) clear_range(p, n);
    return p;
}
