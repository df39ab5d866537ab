// C01: a closed and reopened archive is what it was, and goes on like one that was never closed.
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C01";

static const Universe U{{"/a", "/a/b", "/d/e", "/d", "/bb", "/c"}, {"/m", "/k/m", "/k"}, {"/", "/a", "/d", "/k", "/none"}};

// The same history on two archives, one of which is closed and reopened now and then.
static void twins(const Menu &m, int depth, bool rejected) {
    session([&](const std::string &dir) {
        Real a(dir + "/t.hz"), b(dir + "/u.hz");
        Ref f;
        a.open();
        b.open();
        Op op, last;
        bool any = false, fresh = false;
        for (int i = 0; i < depth; i++) {
            auto ops = m.offer(f, any ? &last : nullptr);
            if (rejected) {
                ops.push_back(Op{CREATE, "/a/b", {{0, 1, FRESH}, {0, 1, UNKNOWN}}, ""});
                ops.push_back(Op{CREATE, "/a/b", {{0, 2, FRESH}}, ""});
                ops.push_back(Op{REMOVE, "/d", {}, ""});
                ops.push_back(Op{INSTALL, "/m/x", {}, "", 4});
                ops.push_back(Op{UNINSTALL, "/m", {}, ""});
            }
            if (any && last.kind != REOPEN) ops.push_back(Op{REOPEN, "", {}, ""});
            unsigned k = mc::choose(1 + ops.size(), mc::FREE, "operation");
            if (k == 0) break;
            op = ops[k - 1];
            any = true;
            last = op;
            mc::logf("%s; ", op.str().c_str());
            mc::step();
            if (op.kind == REOPEN) {
                auto before = a.observe(U);
                a.close();
                a.open();
                auto after = a.observe(U);
                if (before != after) mc::fail("contents differ after reopening", difference(after, before));
                fresh = true;
                continue;
            }
            unsigned tag = f.tag;
            ModelP an = f.anon.empty() ? nullptr : f.anon.back();
            f.apply(op);
            bool x = a.apply(op, tag, an, f.made), y = b.apply(op, tag, an, f.made);
            if (x != y) mc::fail("an operation has another outcome after reopening", op.str() + (x ? " accepted" : " rejected: " + a.error) + ", without reopening " + (y ? "accepted" : "rejected: " + b.error));
        }
        auto got = a.observe(U);
        if (fresh) {
            auto want = b.observe(U);
            if (got != want) mc::fail("operations after reopening have another meaning", difference(got, want));
        }
        mc::state(mc::hash_str(got));
        // close, open, close, open
        for (int k = 0; k < 2; k++) {
            a.close();
            a.open();
            auto again = a.observe(U);
            if (again != got) mc::fail("contents differ after reopening", difference(again, got));
        }
        a.close();
        b.close();
    });
}

static const int LEN[] = {0, 1, 2, 7, 8, 9, 15, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4097, 65535, 65536, 65537};
static const int NLEN = sizeof LEN / sizeof *LEN;

static void shapes(uint64_t i) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        int n = LEN[i % NLEN];
        int w = i / NLEN;
        std::string name = "/n";
        Op x;
        if (w == 0) x = Op{CREATE, name, {{3, n, FRESH}}, ""};
        if (w == 1) x = Op{CREATE, name, {{n, 3, FRESH}}, ""};
        if (w == 2) x = Op{INSTALL, name, {}, "", n};
        if (w == 3) { name += std::string(n, 'x') + "/y"; x = Op{ENTRY, name, {{1, 1, FRESH}}, ""}; }
        if (w == 4) { if (n > 300) { mc::vacuous(); r.close(); return; } x = Op{CREATE, name, std::vector<PartSpec>(n, PartSpec{1, 2, FRESH}), ""}; }
        if (w == 5) { name = "/"; for (int k = 1; k < 256; k++) if (k != '/' && k != ' ' && k != '\\' && (k + n) % 3) name += char(k); x = Op{CREATE, name, {{1, 1, FRESH}}, ""}; }
        Universe u{{"/first", name, "/z", "/n"}, {name, "/n"}, {"/", "/n"}};
        for (auto &o: {Op{CREATE, "/first", {{1, 5, FRESH}}, ""}, x, Op{CREATE, "/z", {{1, 5, FRESH}, {0, 0, FRESH}}, ""}}) {
            unsigned tag = f.tag;
            f.apply(o);
            r.apply(o, tag, nullptr, f.made);
        }
        for (int k = 0; k < 2; k++) {
            auto before = r.observe(u);
            r.close();
            r.open();
            auto after = r.observe(u);
            if (before != after) mc::fail("contents differ after reopening", difference(after, before).substr(0, 2000));
            mc::state(mc::hash_str(after));
            Op o{k ? UNINSTALL : REMOVE, name, {}, ""};
            f.apply(o);
            r.apply(o, 0, nullptr, f.made);
        }
        r.close();
    });
}

// Closing without having loaded, repeatedly opening without doing anything.
static void idle() {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        unsigned first = mc::choose(3, mc::FREE, "first opening");
        if (first == 0) { auto *a = new HZ_Archive(r.file); a->close(); delete a; }
        r.open();
        if (first == 2) {
            Op o{CREATE, "/a", {{1, 2, FRESH}}, ""};
            f.apply(o);
            r.apply(o, 0, nullptr, f.made);
        }
        auto want = r.observe(U);
        r.close();
        for (int i = 0; i < 3; i++) {
            if (mc::choose(2, mc::FREE, "load")) {
                r.open();
                if (r.observe(U) != want) mc::fail("contents differ after reopening");
                r.close();
            } else {
                auto *a = new HZ_Archive(r.file);
                a->close();
                delete a;
            }
        }
        r.open();
        auto got = r.observe(U);
        if (got != want) mc::fail("contents differ after reopening", difference(got, want));
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.bounds = "opened and closed with and without loading";
    mc::explore("idle", idle, o);

    Menu tree;
    tree.paths = {"/a", "/d/e"};
    tree.mpaths = {"/m"};
    tree.puts = {{CREATE, {{1, 2, FRESH}}}, {ENTRY, {{0, 3, SHARED}, {2, 1, SHARED}}}};
    int d = th ? 8 : 7;
    o.bounds = "all valid histories of up to " + std::to_string(d) + " operations: create/remove of 2 paths with 1 or 2 parts, install/uninstall, close and reopen anywhere; against a twin that stays open";
    mc::explore("histories", [&] { twins(tree, d, false); }, o);

    Menu reuse;
    reuse.symmetric = true;
    reuse.paths = {"/a", "/bb", "/c"};
    reuse.mpaths = {"/m"};
    reuse.puts = {{CREATE, {{0, 1, FRESH}}}, {CREATE, {{0, 10, FRESH}}}, {CREATE, {{1, 1, SHARED}, {0, 11, SHARED}}}, {CREATE, {}}};
    int e = th ? 7 : 6;
    o.bounds = "all valid histories of up to " + std::to_string(e) + " operations: create (4 shapes) at the first free of 3 paths, remove, install/uninstall, close and reopen anywhere";
    mc::explore("space reuse", [&] { twins(reuse, e, false); }, o);

    int g = th ? 5 : 4;
    o.bounds = "all histories of up to " + std::to_string(g) + " valid and rejected operations (5 of these: unknown model, file in the way, directory, ...)";
    mc::explore("rejected operations", [&] { twins(tree, g, true); }, o);
    o.bounds = "24 lengths from 0 to 65537 of payload, header, model and name; number of parts; all characters";
    o.hang_s = 60;
    mc::enumerate("shapes", 6 * NLEN, shapes, o);
    mc::assume("close() makes data durable; no crash in between is considered");
}
