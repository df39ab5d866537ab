// C25: all interleavings of acquirers and releasers on the real Semaphore.
#include <cstdint>
#include <hzip_core/utils/semaphore.h>
#include "mc.h"
#include "hzsched.h"
#include <thread>
#include <vector>

const char *hzv_property = "C25";

// A scenario: initial count and one program per thread, each a string over A (acquire) and R (release).
struct Scenario { int count; std::vector<std::string> progs; };

static void run(const Scenario &sc) {
    // Monitors: harness variables are only touched by one fiber at a time (cooperative), and are not instrumented.
    sched::knobs = sched::Knobs();
    sched::knobs.spurious = true;
    int started_rel = 0, done_acq = 0, done_rel = 0, waiting = 0;
    std::string trace;
    // Would the programs get stuck on an ideal semaphore? Then a blocked end is legitimate.
    sched::run([&] {
        Semaphore s(sc.count);
        std::vector<std::thread> ts;
        int finished = 0;
        int total_threads = (int) sc.progs.size();
        for (int t = 0; t < total_threads; t++) {
            ts.emplace_back([&, t] {
                for (char c: sc.progs[t]) {
                    if (c == 'A') {
                        waiting++;
                        s.acquire();
                        waiting--;
                        done_acq++;
                        trace += "A" + std::to_string(t) + " ";
                        if (done_acq > sc.count + started_rel)
                            mc::fail("more acquisitions than permits", trace);
                        sched::point("inside");
                    } else {
                        started_rel++;
                        s.release();
                        done_rel++;
                        trace += "R" + std::to_string(t) + " ";
                    }
                }
                finished++;
            });
        }
        // Quiescence: everyone finished, or nobody but this thread can run. With a permit free nobody may wait.
        while (finished < total_threads) {
            sched::wait_quiescent();
            if (finished == total_threads) break;
            int free = sc.count + done_rel - done_acq;
            if (free > 0 && waiting > 0) mc::failf("a thread waits although a permit is free", "%d permits free, %d waiting: %s; %s", free, waiting, trace.c_str(), sched::where().c_str());
            if (waiting == 0) mc::fail("deadlock", sched::where());
            if (started_rel != done_rel) mc::fail("release blocks", sched::where());
            // a legitimate end: let the stuck ones go
            mc::outcome(mc::hash_str(trace + "stuck"));
            started_rel++;
            s.release();
            done_rel++;
        }
        for (auto &t: ts) t.join();
        mc::outcome(mc::hash_str(trace));
    });
    mc::logf("count %d;", sc.count);
    for (auto &p: sc.progs) mc::logf(" [%s]", p.c_str());
    mc::logf(" -> %s", trace.c_str());
    mc::state(mc::mix(mc::hash_str(trace), sc.count));
}

void hzv_main() {
    std::vector<Scenario> v;
    bool th = mc::thorough();
    // all multisets of programs over short strings
    std::vector<std::string> P2 = {"A", "R", "AR", "AA", "RR", "RA"};
    for (int c = 0; c <= 2; c++)
        for (size_t i = 0; i < P2.size(); i++) for (size_t j = i; j < P2.size(); j++) v.push_back({c, {P2[i], P2[j]}});
    std::vector<Scenario> v3;
    for (int c = 0; c <= 2; c++)
        for (size_t i = 0; i < P2.size(); i++) for (size_t j = i; j < P2.size(); j++) for (size_t k = j; k < P2.size(); k++)
            if (th || (P2[i] + P2[j] + P2[k]).size() <= 4 || (P2[i] == "AR" && P2[j] == "AR" && P2[k] == "AR")) v3.push_back({c, {P2[i], P2[j], P2[k]}});
    std::vector<Scenario> v4 = {{1, {"AR", "AR", "AR", "AR"}}, {2, {"AR", "AR", "AR", "AR"}}, {0, {"A", "A", "R", "R"}}, {0, {"A", "A", "A", "RRR"}}, {1, {"A", "A", "R", "AR"}}, {0, {"A", "A", "RR", "AR"}}};
    auto go = [&](const std::string &name, std::vector<Scenario> &s, int pre, double cap) {
        mc::Opts o;
        o.kinds[mc::PREEMPT] = pre;
        o.kinds[mc::WAKE] = 1;
        o.cap_s = cap;
        o.bounds = std::to_string(s.size()) + " scenarios, at most " + std::to_string(pre) + " preemptions and 1 spurious wakeup; free choice at every blocking point";
        mc::explore(name, [&] { run(s[mc::choose((unsigned) s.size(), mc::FREE, "scenario")]); }, o);
    };
    go("2 threads", v, th ? 8 : 6, 0);
    go("3 threads", v3, th ? 4 : 3, 0);
    go("4 threads", v4, th ? 4 : 3, th ? 600 : 60);
}
