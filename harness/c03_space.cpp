// C03: the archive's file image is a tiling of well-formed records, one for each live item, and freed space is used.
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C03";

static void compare(const Layout &l, const Ref &f) {
    auto got = meaning(l), want = meaning(f);
    if (got != want) mc::fail("the records are not those of the live items", difference(got, want));
}

static uint64_t length_of(const Op &o) {
    if (o.kind == ANON) return 0xC0 + o.size * 8;
    if (o.kind == ORPHAN) return 0x140 + (o.parts[0].header + o.parts[0].size) * 8;
    return 0;
}

static void history(const Menu &m, int depth) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        Op op, last;
        bool any = false;
        Layout before = parse(live_image(), false);
        for (int i = 0; i < depth; i++) {
            if (!pick(m, f, any ? &last : nullptr, op)) break;
            any = true;
            last = op;
            unsigned tag = f.tag;
            ModelP an = f.anon.empty() ? nullptr : f.anon.back();
            mc::logf("%s; ", op.str().c_str());
            mc::step();
            f.apply(op);
            if (!r.apply(op, tag, an, f.made)) mc::fail("a valid operation is rejected", op.str() + ": " + r.error);
            Layout after = parse(live_image(), false);
            compare(after, f);
            // one record more, and it fitted somewhere
            if (uint64_t n = length_of(op)) {
                bool fits = false;
                for (auto x: before.free_lengths()) if (x == n || x >= n + 0x48) fits = true;
                if (fits && after.end > before.end) mc::fail("free space that fits is not used", op.str());
            }
            if (after.end < before.end) mc::fail("the archive lost space at its end", op.str());
            if ((op.kind == REMOVE || op.kind == UNINSTALL || op.kind == UNANON || op.kind == READALL) && after.end != before.end) mc::fail("the archive grows although nothing was stored", op.str());
            before = after;
        }
        r.close();
        Layout closed = parse(file_bytes(r.file), true);
        compare(closed, f);
        if (any && closed.end != before.end) mc::fail("the archive ends elsewhere after closing");
        uint64_t h = 0;
        for (auto &x: closed.recs) h = mc::mix(h, mc::mix(x.type, x.len));
        mc::state(h);
        mc::outcome(h);
    });
}

// Storing the same things again and again after removing them must not grow the archive for ever.
static void cycles(uint64_t i) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        static const int S[] = {0, 1, 2, 9, 10, 11, 40};
        int s1 = S[i % 7], s2 = S[i / 7 % 7];
        bool reopen = i / 49 % 2, shared = i / 98;
        std::vector<Op> round;
        if (shared) round.push_back(Op{INSTALL, "/m", {}, "", s2});
        Src src = shared ? SHARED : FRESH;
        round.push_back(Op{CREATE, "/a", {{1, s1, src}}, "/m"});
        round.push_back(Op{CREATE, "/bb", {{0, s2, src}, {2, s1, src}}, "/m"});
        round.push_back(Op{REMOVE, "/a", {}, ""});
        round.push_back(Op{REMOVE, "/bb", {}, ""});
        if (shared) round.push_back(Op{UNINSTALL, "/m", {}, ""});
        if (reopen) round.push_back(Op{REOPEN, "", {}, ""});
        uint64_t end[12];
        for (int k = 0; k < 12; k++) {
            for (auto &o: round) {
                unsigned tag = f.tag;
                f.apply(o);
                if (!r.apply(o, tag, nullptr, f.made)) mc::fail("a valid operation is rejected", o.str() + ": " + r.error);
                mc::step();
            }
            Layout l = parse(live_image(), false);
            compare(l, f);
            end[k] = l.end;
        }
        // every round needs the same room: at the latest after a few rounds it is found among the freed pieces
        if (end[11] != end[5]) mc::failf("the archive keeps growing", "%llu, %llu, ... %llu bits", (unsigned long long) end[0], (unsigned long long) end[5], (unsigned long long) end[11]);
        mc::state(mc::mix(end[0], end[11]));
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    Menu frag;
    frag.symmetric = true;
    frag.paths = {"/a", "/b", "/c"};
    frag.mpaths = {"/m"};
    frag.puts = {{CREATE, {{0, 1, SHARED}}}, {CREATE, {{0, 2, SHARED}}}, {CREATE, {{1, 9, SHARED}}}, {CREATE, {{0, 11, SHARED}}}};
    int d = th ? 9 : 8;
    o.bounds = "all valid histories of up to " + std::to_string(d) + " operations: create with payloads of 1, 2, 10, 11 bytes (differences around the size of an empty record) at the first free of 3 paths, remove, install/uninstall";
    mc::explore("fragments", [&] { history(frag, d); }, o);

    Menu mix;
    mix.symmetric = true;
    mix.paths = {"/a", "/bb"};
    mix.mpaths = {"/m"};
    mix.msizes = {17, 8};
    mix.puts = {{CREATE, {{0, 1, FRESH}}}, {ENTRY, {{0, 10, FRESH}, {1, 0, FRESH}}}, {CREATE, {}}};
    mix.anon = mix.drop_anon = mix.orphan = true;
    mix.reopen = true;
    int e = th ? 7 : 6;
    o.bounds = "all valid histories of up to " + std::to_string(e) + " operations: create, remove, install, uninstall, anonymous models of 2 sizes, parts on their own, reopen";
    mc::explore("kinds of records", [&] { history(mix, e); }, o);
    o.bounds = "12 rounds of storing and removing the same things, 7x7 sizes, own or shared models, with and without reopening";
    mc::enumerate("cycles", 196, cycles, o);
    mc::assume("the image is read with an independent parser of the documented record formats");
}
