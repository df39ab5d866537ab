// C02: while open, an archive behaves like a map from paths to contents.
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C02";

static const Universe U{{"/a", "/a/b", "/a/c", "/d/e", "/d", "/d/e/f", "/ab", "/", "/x/y", "/bb"}, {"/m", "/m/n", "/k/m", "/k", "/"}, {"/", "/a", "/d", "/d/e", "/a/", "/k", "/m", "/none"}};

static void history(const Menu &m, int depth) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        Op op, last;
        bool any = false;
        for (int i = 0; i < depth; i++) {
            if (!pick(m, f, any ? &last : nullptr, op)) break;
            any = true;
            last = op;
            both(r, f, op);
            if (op.kind == READALL) r.observe(U);
        }
        auto got = r.observe(U), want = f.observe(U);
        if (got != want) mc::fail("the archive does not answer as a map would", difference(got, want));
        mc::state(mc::hash_str(want));
        mc::outcome(mc::hash_str(got));
        r.close();
    });
}

// Payloads, headers, models and names of every kind of length; a neighbour stored before and after.
static const int LEN[] = {0, 1, 2, 7, 8, 9, 15, 63, 64, 65, 127, 128, 255, 256, 257, 511, 1023, 1024, 1025, 4095, 4097, 65535, 65536, 65537};
static const int NLEN = sizeof LEN / sizeof *LEN;

static void shapes(uint64_t i) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        int n = LEN[i % NLEN];
        int what_ = i / NLEN;
        Op first{CREATE, "/first", {{1, 5, FRESH}}, ""}, x, after{CREATE, "/z", {{1, 5, FRESH}, {0, 0, FRESH}}, ""};
        std::string name = "/n";
        if (what_ == 0) x = Op{CREATE, name, {{3, n, FRESH}}, ""};
        if (what_ == 1) x = Op{CREATE, name, {{n, 3, FRESH}}, ""};
        if (what_ == 2) x = Op{INSTALL, name, {}, "", n};
        if (what_ == 3) { name += std::string(n, 'x') + "/y"; x = Op{ENTRY, name, {{1, 1, FRESH}}, ""}; }
        if (what_ == 4) { if (n > 300) { mc::vacuous(); r.close(); return; } x = Op{CREATE, name, std::vector<PartSpec>(n, PartSpec{1, 2, FRESH}), ""}; }
        if (what_ == 5) { for (int k = 0; k < n && k < 300; k++) name += "/d"; x = Op{CREATE, name, {{1, 1, FRESH}}, ""}; }
        if (what_ == 6) { name = "/"; for (int k = 1; k < 256; k++) if (k != '/' && k != ' ' && k != '\\' && (k + n) % 3) name += char(k); x = Op{CREATE, name, {{1, 1, FRESH}}, ""}; }
        Universe u{{"/first", name, "/z", "/n"}, {name, "/n"}, {"/", "/n"}};
        both(r, f, first);
        both(r, f, x);
        both(r, f, after);
        auto got = r.observe(u), want = f.observe(u);
        if (got != want) mc::fail("the archive does not answer as a map would", difference(got, want).substr(0, 2000));
        mc::state(mc::hash_str(want));
        both(r, f, Op{what_ == 2 ? UNINSTALL : REMOVE, name, {}, ""});
        both(r, f, Op{CREATE, "/again", {{2, 9, FRESH}}, ""});
        u.files.push_back("/again");
        got = r.observe(u), want = f.observe(u);
        if (got != want) mc::fail("the archive does not answer as a map would", difference(got, want).substr(0, 2000));
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    Menu tree;
    tree.paths = {"/a", "/a/b", "/a/c", "/d/e"};
    tree.mpaths = {"/m", "/k/m"};
    tree.puts = {{CREATE, {{1, 2, FRESH}}}, {ENTRY, {{0, 3, SHARED}, {2, 1, SHARED}}}};
    int d = th ? 7 : 6;
    o.bounds = "all valid histories of up to " + std::to_string(d) + " operations: create/remove of 4 paths with 1 or 2 parts, install/uninstall of 2 model paths";
    mc::explore("paths", [&] { history(tree, d); }, o);

    Menu reuse;
    reuse.symmetric = true;
    reuse.paths = {"/a", "/bb", "/a/c"};
    reuse.mpaths = {"/m"};
    reuse.puts = {{CREATE, {{0, 1, FRESH}}}, {CREATE, {{0, 10, FRESH}}}, {CREATE, {{1, 1, SHARED}, {0, 10, SHARED}}}, {CREATE, {}}, {ENTRY, {{0, 11, FRESH}}}};
    reuse.readall = true;
    int e = th ? 7 : 6;
    o.bounds = "all valid histories of up to " + std::to_string(e) + " operations: create (5 shapes, 0 to 2 parts) at the first free of 3 paths, remove, install/uninstall, read everything";
    mc::explore("space reuse", [&] { history(reuse, e); }, o);
    o.bounds = "24 lengths from 0 to 65537 of payload, header, model, name; number of parts, depth of directories, and all characters";
    o.hang_s = 60;
    mc::enumerate("shapes", 7 * NLEN, shapes, o);
    mc::assume("identifiers: every value is offered twice and again after reopening");
}
