// C06: an archive is open in at most one place at a time, also while it is created; everyone gets a turn and sees
// everything stored before.
#include <thread>
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C06";

struct Shared {
    int holders = 0;
    int opened = 0;
    std::vector<std::string> stored;   // by holders that closed the archive
};

static void put(HZ_Archive *a, const std::string &path, int tag) {
    Model m;
    m.alg = 1;
    m.data = content(tag, 2);
    auto b = rainman::ptr<HZ_Blob>();
    b->data = Real::bytes(content(tag, 3));
    b->size = 3;
    b->o_size = tag;
    a->inject_mstate(Real::mstate(m), b);
    a->create_file(path, b, 1);
}

static void check(HZ_Archive *a, const std::vector<std::string> &paths, const char *when) {
    for (auto &p: paths) {
        try {
            auto b = a->read_file(p);
            int tag = std::stoi(p.substr(2));
            if (b.size() != 1 || Real::bytes(b[0].data, b[0].size) != content(tag, 3) || (int) b[0].o_size != tag) mc::fail("an opener reads something else than was stored", p);
        } catch (const std::exception &e) {
            mc::fail("an opener misses what another one stored", std::string(when) + " " + p + ": " + e.what());
        }
    }
}

static void opener(const std::string &file, Shared &s, int who, int rounds, bool use_load) {
    for (int k = 0; k < rounds; k++) {
        HZ_Archive *a = nullptr;
        try {
            a = new HZ_Archive(file);
            if (++s.holders > 1) mc::fail("two places have the archive open at once");
            a->load();
        } catch (const std::exception &e) {
            mc::fail("opening fails", e.what());
        }
        s.opened++;
        check(a, s.stored, "after opening");
        std::string p = "/f" + std::to_string(10 * (who + 1) + k);
        sched::point("holding");
        try {
            if (use_load) put(a, p, 10 * (who + 1) + k);
        } catch (const std::exception &e) {
            mc::fail("storing fails", e.what());
        }
        sched::point("holding");
        if (s.holders != 1) mc::fail("two places have the archive open at once");
        // from here on the next one may open it
        if (use_load) s.stored.push_back(p);
        s.holders--;
        a->close();
        delete a;
    }
}

// spelling: whether the openers name the file differently
static void contend(int n, int rounds, int initial, bool spellings) {
    sched::knobs = sched::Knobs();
    sched::knobs.io_points = true;
    sched::knobs.deadlock_sig = "an opener waits forever";
    rand_k = 0;
    hzv_rand_hook = rand_plain;
    std::string dir = mc::scratch(), file = dir + "/t.hz";
    ::remove(file.c_str());
    sched::run([&] {
        Shared s;
        if (initial) {
            sched::knobs.io_points = false;
            HZ_Archive a(file);
            a.load();
            put(&a, "/f5", 5);
            s.stored.push_back("/f5");
            a.close();
            sched::knobs.io_points = true;
        }
        std::vector<std::thread> ts;
        std::string names[] = {file, dir + "/./t.hz", dir + "//sub/../t.hz"};
        for (int i = 0; i < n; i++) ts.emplace_back([&, i] { opener(names[spellings ? i % 3 : 0], s, i, rounds, true); });
        for (auto &t: ts) t.join();
        sched::knobs.io_points = false;
        if (s.opened != n * rounds) mc::fail("an opener never got its turn");
        HZ_Archive a(file);
        a.load();
        check(&a, s.stored, "at the end");
        auto l = a.list_file_system("/");
        if (l.size() != s.stored.size()) mc::fail("the archive holds something else than was stored");
        a.close();
        uint64_t h = initial;
        for (auto &p: s.stored) h = mc::mix(h, mc::hash_str(p));
        mc::outcome(h);
    });
    hzv_rand_hook = nullptr;
}

// Openings that fail give the archive free for the next one.
static void failing() {
    sched::knobs = sched::Knobs();
    sched::knobs.io_points = true;
    sched::knobs.deadlock_sig = "an opener waits forever after another one failed";
    rand_k = 0;
    hzv_rand_hook = rand_plain;
    std::string dir = mc::scratch() + "/d";
    std::string good = dir + "/t.hz";
    (void) !system(("rm -rf " + dir + " && mkdir " + dir).c_str());
    sched::run([&] {
        sched::knobs.io_points = false;
        unsigned kind = mc::choose(4, mc::FREE, "why it fails");
        std::string bad = dir + "/bad.hz";
        if (kind == 0) {               // another version
            { HZ_Archive a(bad); a.load(); a.close(); }
            FILE *f = fopen(bad.c_str(), "rb+");
            fseek(f, 11, SEEK_SET);
            fputc(0x7, f);
            fclose(f);
        } else if (kind == 1) {        // truncated
            { HZ_Archive a(bad); a.load(); a.close(); }
            (void) !truncate(bad.c_str(), 6);
        } else if (kind == 2) {        // a directory
            (void) !system(("mkdir " + bad).c_str());
        } else bad = dir + "/none/bad.hz";   // no such directory
        sched::knobs.io_points = true;
        int errors = 0;
        std::vector<std::thread> ts;
        for (int i = 0; i < 2; i++) ts.emplace_back([&] {
            try {
                auto *a = new HZ_Archive(bad);
                a->load();
                mc::fail("opening something that is no archive succeeds");
            } catch (const std::exception &) {
                errors++;
            }
        });
        for (auto &t: ts) t.join();
        if (errors != 2) mc::fail("an opener never got its turn");
        // it works once the reason is gone
        if (kind == 2) (void) !system(("rmdir " + bad).c_str());
        else if (kind == 3) (void) !system(("mkdir " + dir + "/none").c_str());
        else ::remove(bad.c_str());
        Shared s;
        opener(bad, s, 0, 2, true);
        mc::outcome(kind);
    });
    hzv_rand_hook = nullptr;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.cap_s = 0;
    o.kinds[mc::PREEMPT] = th ? 4 : 3;
    o.bounds = "2 openers, 2 rounds each, file absent at first, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions at synchronisation and file accesses";
    mc::explore("creating", [] { contend(2, 2, 0, false); }, o);
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "3 openers, file absent, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("three creating", [] { contend(3, 1, 0, false); }, o);
    o.bounds = "2 openers with different spellings of the path, file present or absent, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("spellings", [] { contend(2, 1, mc::choose(2, mc::FREE, "present"), true); }, o);
    o.bounds = "3 openers, file present, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("present", [] { contend(3, 1, 1, false); }, o);
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "2 openers of something unusable (other version, truncated, directory, no directory), then it is repaired and opened";
    mc::explore("failing", failing, o);
    mc::assume("openers are threads here; the lock is a named semaphore, which other processes share in the same way; a process that dies while it holds an archive is not considered");
}
