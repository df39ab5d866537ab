// Explicit-state / stateless model checking engine: exhaustive enumeration of inputs and of choice sequences,
// executed directly on the implementation in forked workers. See DESIGN.md "Engine".
#ifndef HZV_MC_H
#define HZV_MC_H

#include <cstdint>
#include <cstdarg>
#include <cstdio>
#include <functional>
#include <string>
#include <string_view>
#include <vector>

namespace mc {
    // ---------------------------------------------------------------- inside an execution
    // Kinds of choices. FREE ones are always branched completely; a non-zero answer of any other kind is a
    // deviation and is bounded by Opts.
    enum Kind : uint8_t {
        FREE = 0, PREEMPT = 1, WAKE = 2, FAULT = 3, DATA = 4, NKIND = 5
    };

    unsigned choose(unsigned n, Kind kind = FREE, const char *what = "");

    // The property is broken: record it, end this worker. `sig` identifies the failing thing; it must not
    // depend on anything random.
    [[noreturn]] void fail(const std::string &sig, const std::string &msg = "");

    [[noreturn]] void failf(const char *sig, const char *fmt, ...) __attribute__((format(printf, 2, 3)));

    inline void require(bool ok, const char *sig, const std::string &msg = "") { if (!ok) fail(sig, msg); }

    // Harness misuse or replay divergence: an error of the check, never a violation.
    [[noreturn]] void internal_error(const std::string &msg);

    // What the execution did, for samples and replay files (bounded).
    void logf(const char *fmt, ...) __attribute__((format(printf, 1, 2)));

    // Label used in the signature of a crash or hang.
    void context(const std::string &c);

    // Distinct states and observed outcomes; transitions.
    void state(uint64_t hash);
    void outcome(uint64_t hash);
    void step(uint64_t n = 1);
    // reject this execution as not meaningful (it is counted separately)
    void vacuous();

    // true when an execution is being re-run alone (to confirm or to replay)
    bool replaying();

    uint64_t hash_bytes(const void *p, size_t n, uint64_t seed = 0xcbf29ce484222325ull);
    inline uint64_t hash_str(std::string_view s, uint64_t seed = 0xcbf29ce484222325ull) { return hash_bytes(s.data(), s.size(), seed); }
    inline uint64_t mix(uint64_t a, uint64_t b) {
        a = (a + 0x9e3779b97f4a7c15ull) * 0xff51afd7ed558ccdull;
        a ^= a >> 32;
        a += b * 0xc4ceb9fe1a85ec53ull + 1;
        a *= 0x9fb21c651e98df25ull;
        return a ^ (a >> 29);
    }

    // per-process scratch directory (exists, empty at process start, on tmpfs); removed at the end
    const std::string &scratch();

    // ---------------------------------------------------------------- in hzv_main
    struct Opts {
        int total = 1000;                      // bound on the sum of all deviations
        int kinds[NKIND] = {1000, 2, 1, 1, 1000};
        bool fork_each = false;                // one process per execution (when in-process state can leak)
        double hang_s = 10;                    // wall time after which an execution is suspected to hang
        double cap_s = 0;                      // 0: the remaining time of the check
        uint64_t max_steps = 200000;           // choice points per execution
        int workers = 0;                       // 0: number of cores
        std::string bounds;                    // text for the evidence
    };

    bool thorough();
    uint64_t seed();

    // All i in [0,n).
    void enumerate(const std::string &phase, uint64_t n, const std::function<void(uint64_t)> &body, Opts o = {});

    // All choice sequences of body within the bounds.
    void explore(const std::string &phase, const std::function<void()> &body, Opts o = {});

    // a fact for the evidence file
    void bound(const std::string &key, const std::string &value);
    void assume(const std::string &text);

    // Set by the engine when an execution must be judged before exit of the process (used by sched)
    extern std::function<void()> on_execution_begin;
    extern std::function<void()> on_execution_end;
}

// Each harness provides these.
extern const char *hzv_property;
void hzv_main();

#endif
