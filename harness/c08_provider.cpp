// C08: one archive instance per file, failed opens hurt nobody else, closing makes everything durable.
#include <thread>
#include <hzip_network/api/providers/archive_provider.h>
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C08";

static void put(HZ_Archive *a, const std::string &path, int tag) {
    Model m;
    m.alg = 1;
    m.data = content(tag, 2);
    auto b = rainman::ptr<HZ_Blob>();
    b->data = Real::bytes(content(tag, 3));
    b->size = 3;
    a->inject_mstate(Real::mstate(m), b);
    a->create_file(path, b, 1);
}

static bool has(HZ_Archive *a, const std::string &path, int tag) {
    try {
        auto b = a->read_file(path);
        return b.size() == 1 && Real::bytes(b[0].data, b[0].size) == content(tag, 3);
    } catch (const std::exception &) {
        return false;
    }
}

// the requests: several spellings of two files, a damaged file, a directory, a missing directory
struct Req { const char *name; int file; };
static const Req REQ[] = {{"a.hz", 0}, {"./a.hz", 0}, {"sub/../a.hz", 0}, {"link.hz", 0}, {"b.hz", 1}, {"bad.hz", -1}, {"sub", -1}, {"none/x.hz", -1}, {"trunc.hz", -1}};
static const unsigned NREQ = sizeof REQ / sizeof *REQ;

static std::string prepare(bool present) {
    std::string dir = mc::scratch() + "/p";
    (void) !system(("rm -rf " + dir + " && mkdir -p " + dir + "/sub").c_str());
    for (auto n: {"bad.hz", "trunc.hz", "a.hz", "b.hz"}) {
        if (!present && (n[0] == 'a' || n[0] == 'b') && n[1] == '.') continue;
        HZ_Archive a(dir + "/" + n);
        a.load();
        if (n[1] == '.') put(&a, "/old", n[0]);
        a.close();
    }
    if (present) (void) !symlink("a.hz", (dir + "/link.hz").c_str());
    FILE *f = fopen((dir + "/bad.hz").c_str(), "rb+");
    fseek(f, 11, SEEK_SET);
    fputc(0x7, f);
    fclose(f);
    (void) !truncate((dir + "/trunc.hz").c_str(), 6);
    return dir;
}

static void finish(hzapi::ArchiveProvider &p, const std::string &dir, const std::vector<std::pair<int, std::string>> &stored, bool present) {
    sched::knobs.io_points = false;
    p.close();
    for (int f = 0; f < 2; f++) {
        HZ_Archive a(dir + (f ? "/b.hz" : "/a.hz"));
        a.load();
        if (present && !has(&a, "/old", f ? 'b' : 'a')) mc::fail("something stored earlier is lost");
        for (auto &s: stored) if (s.first == f && !has(&a, s.second, s.second[2])) mc::fail("something stored through the provider is not durable", s.second);
        a.close();
    }
}

static void sequence(int depth, bool present) {
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a request for an archive blocks forever";
    rand_k = 0;
    hzv_rand_hook = rand_plain;
    sched::run([&] {
        auto dir = prepare(present);
        hzapi::ArchiveProvider p;
        HZ_Archive *inst[2] = {};
        std::vector<rainman::ptr<HZ_Archive>> keep;
        std::vector<std::pair<int, std::string>> stored;
        for (int i = 0; i < depth; i++) {
            unsigned k = mc::choose(1 + NREQ, mc::FREE, "request");
            if (k == 0) break;
            auto &q = REQ[k - 1];
            if (!present && std::string(q.name) == "link.hz") { mc::vacuous(); break; }
            mc::logf("%s; ", q.name);
            mc::context(q.name);
            rainman::option<rainman::ptr<HZ_Archive>> a;
            bool threw = false;
            try { a = p.provide(dir + "/" + q.name); } catch (const std::exception &) { threw = true; }
            mc::step();
            if (q.file < 0) {
                if (!threw) mc::fail("opening something that is no archive reports no error", q.name);
                continue;
            }
            if (threw) mc::fail("an archive cannot be obtained", q.name);
            auto x = a.inner();
            keep.push_back(x);
            if (inst[q.file] && inst[q.file] != x.pointer()) mc::fail("two instances of one file", q.name);
            if (inst[1 - q.file] == x.pointer()) mc::fail("one instance for two files", q.name);
            inst[q.file] = x.pointer();
            if (present && !has(x.pointer(), "/old", q.file ? 'b' : 'a')) mc::fail("the instance belongs to another file", q.name);
            std::string path = "/f" + std::to_string(i);
            put(x.pointer(), path, path[2]);
            stored.push_back({q.file, path});
        }
        mc::context("close");
        finish(p, dir, stored, present);
        mc::state(mc::mix(stored.size(), inst[0] != nullptr));
    });
    hzv_rand_hook = nullptr;
}

static void concurrent(unsigned threads, unsigned each) {
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a request for an archive blocks forever";
    rand_k = 0;
    hzv_rand_hook = rand_plain;
    sched::run([&] {
        bool present = mc::choose(2, mc::FREE, "files present");
        auto dir = prepare(present);
        hzapi::ArchiveProvider p;
        std::vector<std::pair<int, std::string>> stored;
        HZ_Archive *inst[2] = {};
        std::vector<std::vector<const Req *>> plan(threads);
        static const int PICK[] = {0, 1, 4, 5};
        unsigned lo = 0;               // sessions are interchangeable
        for (auto &t: plan) for (unsigned k = 0; k < each; k++) {
            unsigned c = k == 0 ? lo += mc::choose(4 - lo, mc::FREE, "request") : mc::choose(4, mc::FREE, "request");
            t.push_back(&REQ[PICK[c]]);
        }
        sched::knobs.io_points = true;
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++) ts.emplace_back([&, t] {
            for (unsigned k = 0; k < each; k++) {
                auto &q = *plan[t][k];
                bool threw = false;
                try {
                    auto x = p.provide(dir + "/" + q.name);
                    if (q.file < 0) mc::fail("opening something that is no archive reports no error", q.name);
                    if (inst[q.file] && inst[q.file] != x.pointer()) mc::fail("two instances of one file", q.name);
                    if (inst[1 - q.file] == x.pointer()) mc::fail("one instance for two files", q.name);
                    inst[q.file] = x.pointer();
                    std::string path = "/f" + std::to_string(t * 3 + k);
                    put(x.pointer(), path, path[2]);
                    stored.push_back({q.file, path});
                } catch (const std::exception &e) {
                    threw = true;
                    if (q.file >= 0) mc::fail("an archive cannot be obtained", std::string(q.name) + ": " + e.what());
                }
                mc::step();
            }
        });
        for (auto &t: ts) t.join();
        finish(p, dir, stored, present);
        uint64_t h = present;
        for (auto &s: stored) h = mc::mix(h, mc::hash_str(s.second) + s.first);
        mc::outcome(h);
    });
    hzv_rand_hook = nullptr;
}

// requests while everything is being closed: what could be stored is durable
static void closing(unsigned threads) {
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a request for an archive blocks forever";
    rand_k = 0;
    hzv_rand_hook = rand_plain;
    sched::run([&] {
        bool present = mc::choose(2, mc::FREE, "files present");
        auto dir = prepare(present);
        std::vector<std::pair<int, std::string>> stored;
        {
            hzapi::ArchiveProvider p;
            std::vector<const Req *> plan;
            unsigned lo = 0;
            static const int PICK[] = {0, 1, 4, 5};
            for (unsigned t = 0; t < threads; t++) plan.push_back(&REQ[PICK[lo += mc::choose(4 - lo, mc::FREE, "request")]]);
            if (mc::choose(2, mc::FREE, "one is open already")) {
                auto x = p.provide(dir + "/a.hz");
                put(x.pointer(), "/f9", '9');
                stored.push_back({0, "/f9"});
            }
            sched::knobs.io_points = true;
            std::vector<std::thread> ts;
            for (unsigned t = 0; t < threads; t++) ts.emplace_back([&, t] {
                auto &q = *plan[t];
                try {
                    auto x = p.provide(dir + "/" + q.name);
                    std::string path = "/f" + std::to_string(t);
                    put(x.pointer(), path, path[2]);
                    stored.push_back({q.file, path});
                } catch (const std::exception &) {}
                mc::step();
            });
            p.close();
            for (auto &t: ts) t.join();
            sched::knobs.io_points = false;
        }
        for (int f = 0; f < 2; f++) {
            HZ_Archive a(dir + (f ? "/b.hz" : "/a.hz"));
            a.load();
            if (present && !has(&a, "/old", f ? 'b' : 'a')) mc::fail("something stored earlier is lost");
            for (auto &s: stored) if (s.first == f && !has(&a, s.second, s.second[2])) mc::fail("something stored through the provider is not durable", s.second);
            a.close();
        }
        mc::outcome(mc::mix(stored.size(), present));
    });
    hzv_rand_hook = nullptr;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    int d = th ? 5 : 4;
    o.bounds = "all sequences of up to " + std::to_string(d) + " requests out of 9: two files, one of them in 4 spellings (dot, dot-dot, symbolic link), another version, truncated, a directory, a missing directory; files present";
    mc::explore("requests, files present", [&] { sequence(d, true); }, o);
    o.bounds = "the same, files absent at first, up to " + std::to_string(d - 1) + " requests";
    mc::explore("requests, files absent", [&] { sequence(d - 1, false); }, o);
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "2 sessions with one request each out of 4 at once, files present or absent, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions at synchronisation and file accesses; data races";
    mc::explore("2 sessions", [&] { concurrent(2, 1); }, o);
    o.kinds[mc::PREEMPT] = th ? 2 : 1;
    o.bounds = "2 sessions with two requests each, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("2 sessions, 2 requests", [&] { concurrent(2, 2); }, o);
    o.bounds = "3 sessions with one request each, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("3 sessions", [&] { concurrent(3, 1); }, o);
    o.kinds[mc::PREEMPT] = th ? 4 : 3;
    o.bounds = "one session with a request while everything is closed, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions; what could be stored is there afterwards";
    mc::explore("closing, one session", [&] { closing(1); }, o);
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "two sessions while everything is closed, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("closing, two sessions", [&] { closing(2); }, o);
}
