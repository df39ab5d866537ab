// C27: cache slots under sequential histories of (re)configuration and requests, and under all interleavings of requests.
#include <cstdint>
#include <map>
#include <set>
#include <string>
#include <thread>
#include <vector>
#include <hzip_core/runtime/cache_provider.h>
#include <loguru/loguru.hpp>
#include "hzsched.h"
#include "mc.h"

const char *hzv_property = "C27";
using hzruntime::CacheProvider;

// What the requests since the last configuration returned.
struct Pool {
    uint64_t n = 0, page = 0;
    std::string file;
    std::vector<const void *> order;            // slot of every request
    std::map<const void *, const void *> lock;  // slot -> its lock
    std::map<const void *, std::string> name;

    void fresh(const std::string &f, uint64_t k, uint64_t pg) {
        n = k;
        page = pg;
        file = f;
        order.clear();
        lock.clear();
        name.clear();
    }
    void got(const rainman::cache *c, const std::mutex *m) {
        if (c->page_size() != page) mc::fail("a slot has a wrong page size");
        if (c->filename().compare(0, file.size(), file) != 0) mc::fail("a slot has a wrong file", c->filename());
        for (auto &x: lock) {
            if (x.first == c && x.second != m) mc::fail("a slot is handed out with another slot's lock");
            if (x.first != c && x.second == m) mc::fail("two slots share a lock");
        }
        for (auto &x: name) if (x.first != c && x.second == c->filename()) mc::fail("two slots share a file");
        lock[c] = m;
        name[c] = c->filename();
        if (lock.size() > n) mc::failf("more slots than configured", "%llu", (unsigned long long) n);
        order.push_back(c);
    }
    // sequential: strictly in turn
    void in_turn() {
        size_t k = order.size();
        for (size_t i = 1; i < n && i < k; i++)
            if (order[k - 1] == order[k - 1 - i]) mc::failf("slots are not served in turn", "the same slot again after %zu of %llu requests", i, (unsigned long long) n);
        if (k > n && order[k - 1] != order[k - 1 - n]) mc::fail("slots are not served in turn", "the order changes");
    }
};

static void sequential(int depth) {
    std::string log;
    sched::knobs = sched::Knobs();
    sched::run([&] {
        Pool p;
        for (int i = 0; i < depth; i++) {
            unsigned a = i == 0 ? 1 + mc::choose(5, mc::FREE, "configure") : mc::choose(6, mc::FREE, "operation");
            if (a == 0) {
                for (int k = 0; k < 3; k++) {
                    auto r = CacheProvider::get_cache();
                    p.got(&r.first, &r.second);
                    p.in_turn();
                    std::scoped_lock<std::mutex> l(r.second);
                    mc::step();
                }
                log += "g";
            } else {
                uint64_t n = a == 5 ? 7 : a, page = 64 * (i + 1);
                std::string f = "f" + std::to_string(i);
                CacheProvider::init_cache(f, n, page);
                p.fresh(f, n, page);
                log += std::to_string(n);
                mc::step();
            }
        }
        // a full round at the end
        std::set<const void *> all;
        for (uint64_t k = 0; k < p.n; k++) {
            auto r = CacheProvider::get_cache();
            p.got(&r.first, &r.second);
            p.in_turn();
            all.insert(&r.first);
        }
        if (all.size() != p.n) mc::fail("some slots are never used", log);
    });
    mc::logf("%s", log.c_str());
    mc::state(mc::hash_str(log));
}

static void concurrent(unsigned threads, unsigned each) {
    sched::knobs = sched::Knobs();
    sched::run([&] {
        uint64_t before = mc::choose(3, mc::FREE, "earlier slots"), n = 1 + mc::choose(4, mc::FREE, "slots"), pre = mc::choose(3, mc::FREE, "earlier requests");
        if (before) {
            CacheProvider::init_cache("old", before * 3, 64);
            for (uint64_t i = 0; i < before + pre; i++) CacheProvider::get_cache();
        }
        CacheProvider::init_cache("new", n, 128);
        Pool p;
        p.fresh("new", n, 128);
        for (uint64_t i = 0; i < pre; i++) { auto r = CacheProvider::get_cache(); p.got(&r.first, &r.second); }
        std::map<const void *, int> users;
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++) ts.emplace_back([&] {
            for (unsigned k = 0; k < each; k++) {
                auto r = CacheProvider::get_cache();
                p.got(&r.first, &r.second);
                std::scoped_lock<std::mutex> l(r.second);
                if (users[&r.first]++) mc::fail("two threads use a slot at once");
                sched::point("in use");
                users[&r.first]--;
            }
        });
        for (auto &t: ts) t.join();
        uint64_t total = p.order.size();
        std::map<const void *, uint64_t> cnt;
        for (auto *c: p.order) cnt[c]++;
        uint64_t lo = total / n, hi = (total + n - 1) / n;
        if (cnt.size() != std::min(n, total)) mc::fail("some slots are never used");
        for (auto &x: cnt) if (x.second < lo || x.second > hi) mc::failf("slots are not served in turn", "%llu of %llu requests on one of %llu slots", (unsigned long long) x.second, (unsigned long long) total, (unsigned long long) n);
        uint64_t h = n;
        for (auto *c: p.order) h = mc::mix(h, mc::hash_str(p.name[c]));
        mc::outcome(h);
    });
}

static void unconfigured() {
    sched::knobs = sched::Knobs();
    sched::run([&] {
        // no slot exists: an error, not a crash
        CacheProvider::init_cache("none", 0, 64);
        bool threw = false;
        try { CacheProvider::get_cache(); } catch (...) { threw = true; }
        if (!threw) mc::fail("a slot is handed out although none exists");
        CacheProvider::init_cache("some", 2, 64);
        CacheProvider::get_cache();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.fork_each = false;
    int d = th ? 7 : 6;
    o.bounds = "all sequences of " + std::to_string(d) + " steps, each a configuration to 1, 2, 3, 4 or 7 slots or three requests";
    mc::explore("histories", [&] { sequential(d); }, o);
    o.bounds = "no slots";
    mc::explore("no slots", unconfigured, o);
    o.kinds[mc::PREEMPT] = th ? 5 : 3;
    o.bounds = "36 configuration histories, 2 threads with 3 requests each, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions; data races";
    mc::explore("2 threads", [&] { concurrent(2, 3); }, o);
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "36 configuration histories, 3 threads with 2 requests each, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions; data races";
    mc::explore("3 threads", [&] { concurrent(3, 2); }, o);
    mc::assume("the page file itself (rainman submodule) is not modelled");
}
