#include "hzsched.h"
#include "mc.h"
#include <algorithm>
#include <cerrno>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fcntl.h>
#include <map>
#include <memory>
#include <pthread.h>
#include <semaphore.h>
#include <cstdarg>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <linux/futex.h>
#include <ucontext.h>
#include <unistd.h>
#include <vector>
#ifdef HZV_ASAN
#include <sanitizer/asan_interface.h>
#include <sanitizer/common_interface_defs.h>
#endif

extern "C" void *__cxa_get_globals();

namespace sched {
    Knobs knobs;
    void forget_waits();
    namespace {
        struct Fiber {
            int id = 0;
            ucontext_t ctx{};
            char *stack = nullptr;
            size_t stack_size = 0;
            bool done = false, detached = false, daemon = false, quiescing = false, yielded = false, joined = false;
            void *(*fn)(void *) = nullptr;
            void *arg = nullptr, *ret = nullptr;
            // blocking condition; null: runnable
            std::function<bool()> pred;
            const char *what = "";
            const void *obj = nullptr;
            bool can_time_out = false, timed_out = false;
            int err = 0;
            struct { void *caught; unsigned uncaught; } eh{};
            void *fake_stack = nullptr;
            uint64_t spin = 0;
        };

        constexpr size_t STACK = 4096 * 1024;
        constexpr int MAXF = 60;
        bool g_active = false;
        std::vector<std::unique_ptr<Fiber>> fibers;
        Fiber *cur = nullptr;
        std::vector<char *> stack_pool;
        std::vector<Fiber *> cond_waiters_tmp;
        uint64_t switches = 0, ops = 0;
        constexpr uint64_t MAX_OPS = 3000000;

        struct EhGlobals { void *caught; unsigned int uncaught; };

        // named semaphores
        struct NamedSem { std::string name; sem_t *sem; };
        std::vector<NamedSem> named;

        bool enabled(Fiber *f) {
            if (f->done) return false;
            if (!f->pred) return true;
            return f->pred();
        }

        void switch_to(Fiber *t) {
            if (t == cur) return;
            Fiber *f = cur;
            auto *g = (EhGlobals *) __cxa_get_globals();
            f->eh.caught = g->caught;
            f->eh.uncaught = g->uncaught;
            f->err = errno;
            g->caught = t->eh.caught;
            g->uncaught = t->eh.uncaught;
            cur = t;
            switches++;
            if (race::fiber_switch) race::fiber_switch(t->id);
#ifdef HZV_ASAN
            __sanitizer_start_switch_fiber(f->done ? nullptr : &f->fake_stack, t->stack, t->stack_size);
#endif
            swapcontext(&f->ctx, &t->ctx);
#ifdef HZV_ASAN
            __sanitizer_finish_switch_fiber(f->fake_stack, nullptr, nullptr);
#endif
            errno = cur->err;
        }

        [[noreturn]] void deadlock() {
            mc::fail(knobs.deadlock_sig, "no thread can run: " + where());
        }

        bool main_done = false;

        // Pick and run the next fiber. `can_continue`: the current one is able to go on.
        void reschedule(const char *what, bool can_continue, mc::Kind kind = mc::PREEMPT) {
            if (++ops > MAX_OPS) mc::fail("livelock", "the threads keep running without finishing: " + where());
            Fiber *cand[MAXF + 2];
            bool timeout_cand[MAXF + 2];
            int n = 0;
            if (can_continue && !cur->yielded) { timeout_cand[n] = false; cand[n++] = cur; }
            for (auto &f: fibers) {
                if (f.get() == cur && can_continue && !cur->yielded) continue;
                if (f->yielded && f.get() != cur) { /* still a candidate: others have not run since */ }
                if (f.get() == cur && cur->yielded) continue;
                if (enabled(f.get())) { timeout_cand[n] = false; cand[n++] = f.get(); }
            }
            if (n == 0 && can_continue) { cur->yielded = false; return; }
            bool free_switch = !(can_continue && !cur->yielded);
            if (n == 0) {
                // only time can help: every timed wait may expire
                for (auto &f: fibers) if (!f->done && f->can_time_out) { timeout_cand[n] = true; cand[n++] = f.get(); }
                if (n == 0) {
                    // done? the main fiber decides
                    if (main_done && fibers[0]->pred == nullptr) { deadlock(); }
                    deadlock();
                }
            } else if (kind != mc::FREE) {
                // a timed wait may also expire early, as a deviation
                ;
            }
            unsigned k = 0;
            if (n > 1 && !knobs.frozen) k = mc::choose(n, free_switch && !knobs.delays ? mc::FREE : mc::PREEMPT, what);
            Fiber *t = cand[k];
            cur->yielded = false;
            if (timeout_cand[k]) { t->timed_out = true; }
            t->pred = nullptr;
            switch_to(t);
        }

        void block(std::function<bool()> pred, const char *what, const void *obj, bool can_time_out = false) {
            Fiber *f = cur;
            f->what = what;
            f->obj = obj;
            f->can_time_out = can_time_out;
            f->timed_out = false;
            f->pred = std::move(pred);
            if (f->pred()) {   // callers come here right after a scheduling point
                f->pred = nullptr;
                f->can_time_out = false;
                f->what = "";
                return;
            }
            // f stays blocked until its predicate holds
            reschedule(what, false);
            f->pred = nullptr;
            f->can_time_out = false;
            f->what = "";
        }

        // Loop: after being chosen the predicate may have been falsified by nobody (single OS thread), so once is enough.

        char *get_stack() {
            if (!stack_pool.empty()) {
                char *s = stack_pool.back();
                stack_pool.pop_back();
#ifdef HZV_ASAN
                __asan_unpoison_memory_region(s, STACK);   // frames that never returned
#endif
                return s;
            }
            char *s = (char *) mmap(nullptr, STACK + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (s == MAP_FAILED) mc::internal_error("mmap stack");
            mprotect(s, 4096, PROT_NONE);
            return s + 4096;
        }

        struct ThreadExit {};

        void fiber_end(Fiber *f) {
            f->done = true;
            if (race::release) race::release(f);
            // hand over; free choice
            Fiber *cand[MAXF + 2];
            int n = 0;
            for (auto &g: fibers) if (g.get() != f && enabled(g.get())) cand[n++] = g.get();
            bool to = false;
            if (n == 0) {
                for (auto &g: fibers) if (!g->done && g->can_time_out) { cand[n++] = g.get(); to = true; }
                if (n == 0) deadlock();
            }
            unsigned k = n > 1 && !knobs.frozen ? mc::choose(n, knobs.delays ? mc::PREEMPT : mc::FREE, "thread end") : 0;
            if (to) cand[k]->timed_out = true;
            cand[k]->pred = nullptr;
            switch_to(cand[k]);
            abort();
        }

        void trampoline() {
            Fiber *f = cur;
#ifdef HZV_ASAN
            __sanitizer_finish_switch_fiber(nullptr, nullptr, nullptr);
#endif
            try {
                f->ret = f->fn(f->arg);
            } catch (ThreadExit &) {
            }
            fiber_end(f);
        }

        int spawn(void *(*fn)(void *), void *arg, bool detached) {
            if (fibers.size() >= MAXF) {
                // the place of a thread that is over, when nobody can name it any more
                for (auto &g: fibers) {
                    if (race::fiber_start || !g->done || !g->detached || g.get() == cur) continue;
                    int id = g->id;
                    char *stack = g->stack;
#ifdef HZV_ASAN
                    __asan_unpoison_memory_region(stack, STACK);
#endif
                    *g = Fiber();
                    g->id = id;
                    g->fn = fn;
                    g->arg = arg;
                    g->detached = detached;
                    g->stack = stack;
                    g->stack_size = STACK;
                    getcontext(&g->ctx);
                    g->ctx.uc_stack.ss_sp = stack;
                    g->ctx.uc_stack.ss_size = STACK;
                    g->ctx.uc_link = nullptr;
                    makecontext(&g->ctx, trampoline, 0);
                    return id;
                }
                mc::internal_error("too many threads");
            }
            auto f = std::make_unique<Fiber>();
            f->id = (int) fibers.size();
            f->fn = fn;
            f->arg = arg;
            f->detached = detached;
            f->stack = get_stack();
            f->stack_size = STACK;
            getcontext(&f->ctx);
            f->ctx.uc_stack.ss_sp = f->stack;
            f->ctx.uc_stack.ss_size = STACK;
            f->ctx.uc_link = nullptr;
            makecontext(&f->ctx, trampoline, 0);
            if (race::fiber_start) race::fiber_start(cur->id, f->id, f->stack, f->stack + STACK);
            int id = f->id;
            fibers.push_back(std::move(f));
            return id;
        }

        // ------------------------------------------------------ objects living in the pthread types' memory
        struct Mutex { uint32_t magic; int32_t owner; uint32_t count; };   // owner: fiber id + 1

        int mutex_kind(pthread_mutex_t *m) { return m->__data.__kind & 3; }

        Mutex &mx(pthread_mutex_t *m) { return *reinterpret_cast<Mutex *>(m); }
    }

    bool active() { return g_active; }

    int self() { return cur ? cur->id : 0; }

    int nfibers() { return (int) fibers.size(); }

    std::string where() {
        std::string s;
        for (auto &f: fibers) {
            if (f->done) continue;
            s += "thread " + std::to_string(f->id) + " in " + (f->pred || f->what[0] ? f->what : "running") + "; ";
        }
        return s;
    }

    void hb_release(const void *a) { if (race::release) race::release(a); }

    void hb_acquire(const void *a) { if (race::acquire) race::acquire(a); }

    void point(const char *what) {
        if (!g_active) return;
        cur->spin = 0;
        mc::step();
        if (fibers.size() > 1) reschedule(what, true);
    }

    void yield() {
        if (!g_active || fibers.size() < 2) return;
        cur->yielded = true;
        reschedule("yield", true);
    }

    bool others_enabled() {
        for (auto &f: fibers) if (f.get() != cur && enabled(f.get())) return true;
        return false;
    }

    void wait_until(const std::function<bool()> &pred, const char *what) {
        if (!g_active) return;
        point(what);
        block(pred, what, nullptr);
    }

    void wait_quiescent() {
        if (!g_active) return;
        Fiber *me = cur;
        mc::step();
        // several threads may wait for quiescence at once: a younger one goes first, and the older ones wait for it
        me->quiescing = true;
        block([me] {
            for (auto &f: fibers) {
                if (f.get() == me || (f->quiescing && f->id < me->id)) continue;
                if (enabled(f.get())) return false;
            }
            return true;
        }, "quiescence", nullptr);
        me->quiescing = false;
    }

    void set_daemon(bool d) { cur->daemon = d; }

    int64_t named_sem_value(const std::string &n) {
        for (auto &x: named) if (x.name == n) return *(int32_t *) x.sem;
        return -1;
    }

    int named_sem_count() { return (int) named.size(); }

    Result run(const std::function<void()> &main, bool drain) {
        knobs.deadlock_sig = knobs.deadlock_sig.empty() ? "deadlock" : knobs.deadlock_sig;
        for (auto &f: fibers) if (f->stack && f->id) stack_pool.push_back(f->stack);
        fibers.clear();
        for (auto &x: named) free(x.sem);
        named.clear();
        auto f0 = std::make_unique<Fiber>();
#ifdef HZV_ASAN
        {
            static char *lo = nullptr;
            static size_t size = 0;
            if (!lo) {
                pthread_attr_t at;
                void *p;
                pthread_getattr_np(pthread_self(), &at);
                pthread_attr_getstack(&at, &p, &size);
                pthread_attr_destroy(&at);
                lo = (char *) p;
            }
            f0->stack = lo;
            f0->stack_size = size;
        }
#endif
        cur = f0.get();
        fibers.push_back(std::move(f0));
        main_done = false;
        ops = 0;
        forget_waits();
        if (race::reset) race::reset();
        g_active = true;
        main();
        Result r;
        main_done = true;
        if (drain) {
            auto finished = [] {
                for (auto &f: fibers) {
                    if (f->id == 0 || f->done) continue;
                    if (f->daemon && f->pred && !f->pred()) continue;
                    return false;
                }
                return true;
            };
            if (!finished()) block(finished, "end of main", nullptr);
        }
        for (auto &f: fibers) if (f->id && !f->done) r.blocked++;
        if (race::finish) race::finish();
        g_active = false;
        return r;
    }
}

using namespace sched;

extern "C" void hzv_io_point(const char *what) { if (g_active && knobs.io_points) sched::point(what); }
extern "C" void hzv_hb_acq_rel(const void *p) {
    if (!g_active) return;
    if (race::acquire) race::acquire(p);
    if (race::release) race::release(p);
}

#define REAL(name) ((decltype(&name)) dlsym(RTLD_NEXT, #name))
#define EXPORT extern "C" __attribute__((visibility("default"), used))

// ------------------------------------------------------------ mutexes
static int lock_mutex(pthread_mutex_t *m, bool timed) {
    auto &x = mx(m);
    if (!g_active) { x.owner = 1; x.count++; return 0; }
    int me = cur->id + 1;
    sched::point("mutex lock");
    if (x.owner == me) {
        if (mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
        if (mutex_kind(m) == PTHREAD_MUTEX_ERRORCHECK) return EDEADLK;
    }
    if (x.owner != 0) {
        block([&x] { return x.owner == 0; }, "mutex lock", m, timed);
        if (x.owner != 0) return ETIMEDOUT;
    }
    x.owner = me;
    x.count = 1;
    sched::hb_acquire(m);
    return 0;
}

EXPORT int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *a) {
    int kind = 0;
    if (a) pthread_mutexattr_gettype(a, &kind);
    memset(m, 0, sizeof *m);
    m->__data.__kind = kind;
    return 0;
}
EXPORT int pthread_mutex_destroy(pthread_mutex_t *m) {
    if (g_active && mx(m).owner != 0) mc::fail("mutex destroyed while locked", sched::where());
    return 0;
}
EXPORT int pthread_mutex_lock(pthread_mutex_t *m) { return lock_mutex(m, false); }
EXPORT int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return lock_mutex(m, true); }
EXPORT int pthread_mutex_clocklock(pthread_mutex_t *m, clockid_t, const struct timespec *) { return lock_mutex(m, true); }
EXPORT int pthread_mutex_trylock(pthread_mutex_t *m) {
    auto &x = mx(m);
    if (!g_active) { if (x.owner) return EBUSY; x.owner = 1; x.count = 1; return 0; }
    sched::point("mutex trylock");
    int me = cur->id + 1;
    if (x.owner == me && mutex_kind(m) == PTHREAD_MUTEX_RECURSIVE) { x.count++; return 0; }
    if (x.owner) return EBUSY;
    x.owner = me;
    x.count = 1;
    sched::hb_acquire(m);
    return 0;
}
EXPORT int pthread_mutex_unlock(pthread_mutex_t *m) {
    auto &x = mx(m);
    if (!g_active) { if (x.count) x.count--; if (!x.count) x.owner = 0; return 0; }
    if (x.owner == 0) mc::fail("unlock of a mutex that is not locked", sched::where());
    if (x.owner != cur->id + 1) mc::fail("unlock of a mutex locked by another thread", sched::where());
    if (--x.count == 0) {
        sched::hb_release(m);
        x.owner = 0;
    }
    return 0;
}

// ------------------------------------------------------------ rwlocks
namespace { struct RW { int32_t writer, readers; }; RW &rw(pthread_rwlock_t *l) { return *reinterpret_cast<RW *>(l); } }
EXPORT int pthread_rwlock_init(pthread_rwlock_t *l, const pthread_rwlockattr_t *) { memset(l, 0, sizeof *l); return 0; }
EXPORT int pthread_rwlock_destroy(pthread_rwlock_t *) { return 0; }
EXPORT int pthread_rwlock_rdlock(pthread_rwlock_t *l) {
    if (!g_active) return 0;
    sched::point("rwlock rdlock");
    auto &x = rw(l);
    if (x.writer) block([&x] { return x.writer == 0; }, "rwlock rdlock", l);
    x.readers++;
    sched::hb_acquire(l);
    return 0;
}
EXPORT int pthread_rwlock_wrlock(pthread_rwlock_t *l) {
    if (!g_active) return 0;
    sched::point("rwlock wrlock");
    auto &x = rw(l);
    if (x.writer || x.readers) block([&x] { return x.writer == 0 && x.readers == 0; }, "rwlock wrlock", l);
    x.writer = cur->id + 1;
    sched::hb_acquire(l);
    return 0;
}
EXPORT int pthread_rwlock_tryrdlock(pthread_rwlock_t *l) {
    if (!g_active) return 0;
    sched::point("rwlock tryrdlock");
    auto &x = rw(l);
    if (x.writer) return EBUSY;
    x.readers++;
    sched::hb_acquire(l);
    return 0;
}
EXPORT int pthread_rwlock_trywrlock(pthread_rwlock_t *l) {
    if (!g_active) return 0;
    sched::point("rwlock trywrlock");
    auto &x = rw(l);
    if (x.writer || x.readers) return EBUSY;
    x.writer = cur->id + 1;
    sched::hb_acquire(l);
    return 0;
}
EXPORT int pthread_rwlock_unlock(pthread_rwlock_t *l) {
    if (!g_active) return 0;
    auto &x = rw(l);
    sched::hb_release(l);
    if (x.writer) x.writer = 0;
    else if (x.readers > 0) x.readers--;
    else mc::fail("unlock of a rwlock that is not locked");
    return 0;
}

// ------------------------------------------------------------ condition variables
// Waiters are registered by address; a waiter's ticket becomes true when it is woken.
namespace {
    struct Waiter { const void *cond; Fiber *f; bool woken; };
    std::vector<Waiter *> waiters;

    int cond_wait(pthread_cond_t *c, pthread_mutex_t *m, bool timed) {
        if (!g_active) return 0;
        auto &x = mx(m);
        if (x.owner != cur->id + 1) mc::fail("condition wait without holding the mutex");
        if (knobs.spurious && mc::choose(2, mc::WAKE, "spurious wakeup")) {
            sched::hb_release(m);
            uint32_t cnt = x.count;
            x.owner = 0;
            block([&x] { return x.owner == 0; }, "condition wait (spurious wakeup)", c);
            x.owner = cur->id + 1;
            x.count = cnt;
            sched::hb_acquire(m);
            return 0;
        }
        Waiter w{c, cur, false};
        waiters.push_back(&w);
        sched::hb_release(m);
        uint32_t cnt = x.count;
        x.owner = 0;
        x.count = 0;
        Fiber *f = cur;
        mc::step();
        // woken, and the mutex is free
        bool expired = false;
        block([&w, &x] { return w.woken && x.owner == 0; }, "condition wait", c, timed);
        if (f->timed_out && !w.woken) expired = true;
        waiters.erase(std::remove(waiters.begin(), waiters.end(), &w), waiters.end());
        if (x.owner != 0) block([&x] { return x.owner == 0; }, "condition wait: relock", c);
        x.owner = cur->id + 1;
        x.count = cnt;
        sched::hb_acquire(m);
        return expired ? ETIMEDOUT : 0;
    }
}
EXPORT int pthread_cond_init(pthread_cond_t *c, const pthread_condattr_t *) { memset(c, 0, sizeof *c); return 0; }
EXPORT int pthread_cond_destroy(pthread_cond_t *) { return 0; }
EXPORT int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) { return cond_wait(c, m, false); }
EXPORT int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { return cond_wait(c, m, true); }
EXPORT int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { return cond_wait(c, m, true); }
EXPORT int pthread_cond_signal(pthread_cond_t *c) {
    if (!g_active) return 0;
    sched::point("condition notify_one");
    std::vector<Waiter *> v;
    for (auto *w: waiters) if (w->cond == c && !w->woken) v.push_back(w);
    if (v.empty()) return 0;
    unsigned k = v.size() > 1 && !knobs.frozen ? mc::choose(v.size(), mc::FREE, "which waiter") : 0;
    v[k]->woken = true;
    return 0;
}
EXPORT int pthread_cond_broadcast(pthread_cond_t *c) {
    if (!g_active) return 0;
    sched::point("condition notify_all");
    for (auto *w: waiters) if (w->cond == c) w->woken = true;
    return 0;
}

// ------------------------------------------------------------ threads
EXPORT int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!g_active) return EAGAIN;    // nothing under test may start threads outside an execution
    if (knobs.spawn_faults && mc::choose(2, mc::FAULT, "thread creation")) return EAGAIN;
    int det = PTHREAD_CREATE_JOINABLE;
    if (a) pthread_attr_getdetachstate(a, &det);
    int id = spawn(fn, arg, det == PTHREAD_CREATE_DETACHED);
    *t = (pthread_t) (0x7000 + id);
    sched::point("thread create");
    return 0;
}
EXPORT int pthread_join(pthread_t t, void **ret) {
    if (!g_active) return ESRCH;
    long id = (long) t - 0x7000;
    if (id < 0 || id >= (long) fibers.size()) return ESRCH;
    Fiber *f = fibers[id].get();
    if (f == cur) return EDEADLK;
    if (f->joined || f->detached) return EINVAL;
    sched::point("thread join");
    if (!f->done) block([f] { return f->done; }, "thread join", f);
    f->joined = true;
    sched::hb_acquire(f);
    if (ret) *ret = f->ret;
    return 0;
}
EXPORT int pthread_detach(pthread_t t) {
    long id = (long) t - 0x7000;
    if (g_active && id >= 0 && id < (long) fibers.size()) fibers[id]->detached = true;
    return 0;
}
EXPORT pthread_t pthread_self(void) {
    static auto real = REAL(pthread_self);
    if (!g_active) return real();
    return (pthread_t) (0x7000 + cur->id);
}
EXPORT void pthread_exit(void *r) {
    if (!g_active || cur->id == 0) { _exit(0); }
    cur->ret = r;
    throw ThreadExit{};
}
EXPORT int sched_yield(void) {
    if (g_active) sched::yield();
    else syscall(SYS_sched_yield);
    return 0;
}
EXPORT int pthread_once(pthread_once_t *o, void (*fn)(void)) {
    int *st = (int *) o;     // 0 new, 1 running, 2 done
    if (!g_active) { if (*st != 2) { *st = 1; fn(); *st = 2; } return 0; }
    sched::point("once");
    while (*st == 1) block([st] { return *st != 1; }, "once", o);
    if (*st == 0) {
        *st = 1;
        try { fn(); } catch (...) { *st = 0; throw; }
        *st = 2;
        sched::hb_release(o);
    }
    sched::hb_acquire(o);
    return 0;
}

// ------------------------------------------------------------ function-local statics
EXPORT int __cxa_guard_acquire(uint64_t *g) {
    auto *b = (volatile uint8_t *) g;
    if (b[0]) { if (g_active) sched::hb_acquire(g); return 0; }
    while (b[1]) {
        if (!g_active) abort();
        block([b] { return b[1] == 0; }, "static initialisation", (void *) g);
        if (b[0]) { sched::hb_acquire(g); return 0; }
    }
    b[1] = 1;
    return 1;
}
EXPORT void __cxa_guard_release(uint64_t *g) {
    auto *b = (volatile uint8_t *) g;
    b[1] = 0;
    b[0] = 1;
    if (g_active) sched::hb_release(g);
}
EXPORT void __cxa_guard_abort(uint64_t *g) { ((volatile uint8_t *) g)[1] = 0; }

// ------------------------------------------------------------ semaphores
namespace { int32_t &sv(sem_t *s) { return *reinterpret_cast<int32_t *>(s); } }
EXPORT int sem_init(sem_t *s, int, unsigned v) { memset(s, 0, sizeof *s); sv(s) = (int) v; return 0; }
EXPORT int sem_destroy(sem_t *) { return 0; }
EXPORT sem_t *sem_open(const char *name, int flags, ...) {
    va_list ap;
    va_start(ap, flags);
    mode_t mode = 0;
    unsigned val = 0;
    if (flags & O_CREAT) { mode = va_arg(ap, mode_t); val = va_arg(ap, unsigned); }
    va_end(ap);
    (void) mode;
    if (g_active) sched::point("sem_open");
    if (name[0] != '/' || strlen(name) > 251 || strchr(name + 1, '/') || !name[1]) { errno = EINVAL; return SEM_FAILED; }
    for (auto &x: named) if (x.name == name) {
        if ((flags & O_CREAT) && (flags & O_EXCL)) { errno = EEXIST; return SEM_FAILED; }
        return x.sem;
    }
    if (!(flags & O_CREAT)) { errno = ENOENT; return SEM_FAILED; }
    sem_t *s = (sem_t *) calloc(1, sizeof(sem_t));
    sv(s) = (int) val;
    named.push_back({name, s});
    return s;
}
EXPORT int sem_close(sem_t *) { return 0; }
EXPORT int sem_unlink(const char *name) {
    for (size_t i = 0; i < named.size(); i++) if (named[i].name == name) { named[i].name = "/unlinked " + named[i].name; return 0; }
    errno = ENOENT;
    return -1;
}
static int sem_take(sem_t *s, bool timed) {
    if (!g_active) { if (sv(s) > 0) { sv(s)--; return 0; } abort(); }
    sched::point("sem wait");
    if (sv(s) <= 0) {
        Fiber *f = cur;
        block([s] { return sv(s) > 0; }, "sem wait", s, timed);
        if (f->timed_out && sv(s) <= 0) { errno = ETIMEDOUT; return -1; }
    }
    sv(s)--;
    sched::hb_acquire(s);
    return 0;
}
EXPORT int sem_wait(sem_t *s) { return sem_take(s, false); }
EXPORT int sem_timedwait(sem_t *s, const struct timespec *) { return sem_take(s, true); }
EXPORT int sem_clockwait(sem_t *s, clockid_t, const struct timespec *) { return sem_take(s, true); }
EXPORT int sem_trywait(sem_t *s) {
    if (g_active) sched::point("sem trywait");
    if (sv(s) <= 0) { errno = EAGAIN; return -1; }
    sv(s)--;
    if (g_active) sched::hb_acquire(s);
    return 0;
}
EXPORT int sem_post(sem_t *s) {
    if (g_active) { sched::point("sem post"); sched::hb_release(s); }
    sv(s)++;
    return 0;
}
EXPORT int sem_getvalue(sem_t *s, int *v) { *v = sv(s); return 0; }

// ------------------------------------------------------------ time
EXPORT int nanosleep(const struct timespec *t, struct timespec *r) {
    if (g_active) { sched::yield(); return 0; }
    return (int) syscall(SYS_nanosleep, t, r);
}
EXPORT int clock_nanosleep(clockid_t c, int fl, const struct timespec *t, struct timespec *r) {
    if (g_active) { sched::yield(); return 0; }
    long k = syscall(SYS_clock_nanosleep, c, fl, t, r);
    return k < 0 ? errno : 0;
}
EXPORT int usleep(useconds_t u) { struct timespec t{u / 1000000, long(u % 1000000) * 1000}; return nanosleep(&t, nullptr); }
EXPORT unsigned sleep(unsigned s) { struct timespec t{(time_t) s, 0}; nanosleep(&t, nullptr); return 0; }

// ------------------------------------------------------------ futex (std::atomic::wait, std::counting_semaphore, futures)
namespace {
    struct Futex { int *addr; bool woken; };
    std::vector<Futex *> futexes;
}
static long raw_syscall(long n, long a, long b, long c, long d, long e, long f) {
    long ret;
    register long r10 asm("r10") = d;
    register long r8 asm("r8") = e;
    register long r9 asm("r9") = f;
    asm volatile("syscall" : "=a"(ret) : "a"(n), "D"(a), "S"(b), "d"(c), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    if (ret < 0 && ret > -4096) { errno = (int) -ret; return -1; }
    return ret;
}
EXPORT long syscall(long n, ...) noexcept {
    va_list ap;
    va_start(ap, n);
    long a = va_arg(ap, long), b = va_arg(ap, long), c = va_arg(ap, long), d = va_arg(ap, long), e = va_arg(ap, long), f = va_arg(ap, long);
    va_end(ap);
    if (n == SYS_futex && g_active) {
        int op = (int) b & FUTEX_CMD_MASK;
        int *addr = (int *) a;
        if (op == FUTEX_WAIT || op == FUTEX_WAIT_BITSET) {
            sched::point("futex wait");
            if (*addr != (int) c) { errno = EAGAIN; return -1; }
            Futex w{addr, false};
            futexes.push_back(&w);
            Fiber *fb = cur;
            block([&w] { return w.woken; }, "futex wait", addr, d != 0);
            futexes.erase(std::remove(futexes.begin(), futexes.end(), &w), futexes.end());
            sched::hb_acquire(addr);
            if (fb->timed_out && !w.woken) { errno = ETIMEDOUT; return -1; }
            return 0;
        }
        if (op == FUTEX_WAKE || op == FUTEX_WAKE_BITSET) {
            sched::point("futex wake");
            sched::hb_release(addr);
            int k = 0;
            for (auto *w: futexes) if (w->addr == addr && !w->woken && k < (int) c) { w->woken = true; k++; }
            return k;
        }
    }
    return raw_syscall(n, a, b, c, d, e, f);
}

// ------------------------------------------------------------ files below the scratch directory are shared state
static bool scratch_path(const char *p) {
    return g_active && knobs.io_points && p && !strncmp(p, mc::scratch().c_str(), mc::scratch().size());
}
EXPORT FILE *fopen(const char *p, const char *mode) {
    static auto real = REAL(fopen);
    if (scratch_path(p)) sched::point("fopen");
    return real(p, mode);
}
EXPORT FILE *fopen64(const char *p, const char *mode) {
    static auto real = REAL(fopen64);
    if (scratch_path(p)) sched::point("fopen");
    return real(p, mode);
}
EXPORT int stat(const char *p, struct stat *b) noexcept {
    static auto real = REAL(stat);
    if (scratch_path(p)) sched::point("stat");
    return real(p, b);
}
EXPORT int access(const char *p, int m) noexcept {
    if (scratch_path(p)) sched::point("access");
    return (int) syscall(SYS_access, p, m);
}
EXPORT int remove(const char *p) noexcept {
    static auto real = REAL(remove);
    if (scratch_path(p)) sched::point("remove");
    return real(p);
}

// used by tsan_rt
namespace sched {
    void note_atomic(const void *addr, bool is_load) {
        if (!g_active) return;
        if (is_load) { if (++cur->spin > 200) { cur->spin = 0; yield(); } }
        else cur->spin = 0;
        if (knobs.atomics_are_points) { mc::step(); if (fibers.size() > 1) reschedule("atomic", true); }
        (void) addr;
    }
    void forget_waits() { waiters.clear(); futexes.clear(); }
}
