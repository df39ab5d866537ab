// Controlled scheduler: every pthread-level operation of the process is interposed and all "threads" are fibers
// of one OS thread; the explorer decides who runs at every synchronisation operation. See DESIGN.md "Scheduler".
#ifndef HZV_SCHED_H
#define HZV_SCHED_H

#include <cstdint>
#include <functional>
#include <string>

namespace sched {
    // Run main as fiber 0 until it returns AND report a deadlock if nobody can run before that.
    // After it returned, remaining fibers (detached threads) are run to completion if `drain`; those that can never
    // finish are reported as a deadlock unless allow_blocked(name) says it is fine (e.g. a server waiting for clients).
    struct Result { int blocked = 0; };
    Result run(const std::function<void()> &main, bool drain = true);

    bool active();
    int self();                       // fiber number
    int nfibers();
    void point(const char *what);     // scheduling point
    void yield();                     // let any other enabled fiber run (no cost)
    // Block until pred() is true (evaluated by the scheduler).
    void wait_until(const std::function<bool()> &pred, const char *what);
    // Block until no other fiber can run (all finished or blocked). One fiber at a time may do this.
    void wait_quiescent();
    // Fibers blocked in this kind of wait at the end are acceptable (set per fiber, by the fiber).
    void set_daemon(bool);
    // true if some other fiber could run right now
    bool others_enabled();
    // a happens-before edge
    void hb_release(const void *addr);
    void hb_acquire(const void *addr);
    // a description of what every fiber waits for
    std::string where();

    // knobs, reset by run()
    struct Knobs {
        bool atomics_are_points = false;
        bool io_points = false;           // hzv_io_point and fopen/stat below scratch
        bool spurious = false;            // spurious wakeups of condition waits (kind WAKE)
        bool races = true;                // report data races (only meaningful in the instrumented variant)
        bool spawn_faults = false;        // creating a thread may fail (kind FAULT)
        bool delays = false;              // also the choice of the next thread when one blocks or ends counts as a preemption
        bool frozen = false;              // one fixed schedule from here on (epilogues of a scenario)
        std::string deadlock_sig = "deadlock";
    };
    extern Knobs knobs;

    // called when a named semaphore etc. must be forgotten: automatic at run()
    int64_t named_sem_value(const std::string &name);   // -1 if absent
    int named_sem_count();
}

// race detector (tsan_rt.cpp); weak so that sched works without it
namespace race {
    void reset() __attribute__((weak));
    void fiber_start(int parent, int child, const void *stack_lo, const void *stack_hi) __attribute__((weak));
    void fiber_switch(int to) __attribute__((weak));
    void acquire(const void *addr) __attribute__((weak));
    void release(const void *addr) __attribute__((weak));
    void join(int child) __attribute__((weak));
    void finish() __attribute__((weak));
}
#endif
