// C37: whatever is in a file, opening it as an archive and using what opens ends, with results or errors.
#include "archive_common.h"
#include <fstream>

using namespace arc;
const char *hzv_property = "C37";

struct Shape { const char *name; std::vector<Op> ops; };

static Op op(Kind k, const std::string &p, std::vector<PartSpec> parts = {}, const std::string &m = "", int size = 0) {
    Op o;
    o.kind = k;
    o.path = p;
    o.parts = std::move(parts);
    o.mpath = m;
    o.size = size;
    return o;
}

static const std::vector<Shape> &shapes() {
    static const std::vector<Shape> s = {
        {"empty", {}},
        {"file", {op(CREATE, "/a", {{2, 3, FRESH}})}},
        {"shared model", {op(INSTALL, "/m", {}, "", 2), op(CREATE, "/d/f", {{1, 2, SHARED}}, "/m")}},
        {"holes", {op(CREATE, "/a", {{0, 9, FRESH}}), op(CREATE, "/b", {{0, 1, FRESH}}), op(REMOVE, "/a")}},
        {"several", {op(INSTALL, "/k/m", {}, "", 1), op(CREATE, "/a", {{2, 1, SHARED}, {0, 0, SHARED}}, "/k/m"), op(CREATE, "/d/e/g", {{0, 3, FRESH}}), op(INSTALL, "/n", {}, "", 3)}},
    };
    return s;
}

static std::string path() { return mc::scratch() + "/x.hza"; }

static void put(const Bytes &b) { std::ofstream(path(), std::ios::binary | std::ios::trunc).write((const char *) b.data(), b.size()); }

static Bytes get() {
    std::ifstream f(path(), std::ios::binary);
    return Bytes((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
}

static const Bytes &image(unsigned s) {
    static std::vector<Bytes> made(shapes().size());
    if (made[s].empty()) {
        sched::knobs = sched::Knobs();
        hzv_rand_hook = rand_plain;
        sched::run([&] {
            unlink(path().c_str());
            Real r(path());
            Ref f;
            r.open();
            for (auto &o: shapes()[s].ops) {
                unsigned tag = f.tag;
                auto anon = f.anon.empty() ? nullptr : f.anon.back();
                f.apply(o);
                if (!r.apply(o, tag, anon, f.made)) mc::internal_error("a shape cannot be made: " + r.error);
            }
            r.close();
        });
        hzv_rand_hook = nullptr;
        made[s] = get();
    }
    return made[s];
}

// every use of an open archive may fail, with an error
static void walk(HZ_Archive &a, bool models, const std::string &dir, int depth) {
    std::vector<HZ_ArchiveTrieListElement> l;
    try { l = models ? a.list_mstate_system(dir) : a.list_file_system(dir); } catch (const std::exception &) { return; }
    for (auto &e: l) {
        auto p = (dir == "/" ? "" : dir) + "/" + e.entry;
        mc::step();
        if (!e.is_leaf) { if (depth < 12) walk(a, models, p, depth + 1); continue; }
        try {
            if (models) { auto m = a.read_mstate(p); for (uint64_t i = 0; i < m->size(); i++) (void) m->data[i]; }
            else {
                auto f = a.read_file(p);
                for (uint64_t i = 0; i < f.size(); i++) for (uint64_t k = 0; k < f[i].size; k++) (void) f[i].data[k];
            }
        } catch (const std::exception &) {}
        try { if (models) { auto b = rainman::ptr<HZ_Blob>(); a.inject_mstate(p, b); } else a.read_file_entry(p); } catch (const std::exception &) {}
    }
}

template<typename F> static void may_fail(F f) { try { f(); } catch (const std::exception &) {} mc::step(); }

static void remove_all(HZ_Archive &a, bool models, const std::string &dir, int depth) {
    std::vector<HZ_ArchiveTrieListElement> l;
    may_fail([&] { l = models ? a.list_mstate_system(dir) : a.list_file_system(dir); });
    for (auto &e: l) {
        auto p = (dir == "/" ? "" : dir) + "/" + e.entry;
        if (!e.is_leaf && depth < 12) remove_all(a, models, p, depth + 1);
        may_fail([&] { if (models) a.uninstall_mstate(p); else a.remove_file(p); });
    }
}

static void add(HZ_Archive &a, const std::string &name) {
    may_fail([&] {
        Model m;
        m.alg = 1;
        m.data = content(3, 2);
        auto b = rainman::ptr<HZ_Blob>();
        b->data = Real::bytes(content(7, 3));
        b->size = 3;
        a.inject_mstate(Real::mstate(m), b);
        a.create_file(name, b, 1);
    });
}

static void judge(const Bytes &damaged, unsigned shape) {
    const Bytes &good = image(shape);
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "the archive stays locked";
    hzv_rand_hook = rand_plain;
    rand_k = 1000;
    put(damaged);
    rainman::detail::hzv_limit = 16 << 20;
    rainman::detail::hzv_refused = 0;
    bool opened = false;
    sched::run([&] {
        for (int round = 0; round < 2; round++) {
            HZ_Archive a(path());
            mc::context(round ? "reopening" : "opening");
            try { a.load(); } catch (const std::exception &) {
                if (round == 0 && get() != damaged) mc::fail("a file that cannot be opened is changed");
                break;
            }
            opened = true;
            mc::context("reading");
            walk(a, false, "/", 0);
            walk(a, true, "/", 0);
            if (round == 0) {
                mc::context("changing");
                add(a, "/new");
                remove_all(a, false, "/", 0);
                add(a, "/new2");
                remove_all(a, true, "/", 0);
            }
            mc::context("closing");
            may_fail([&] { a.close(); });
        }
        mc::context("");
        if (rainman::detail::hzv_refused) mc::fail("asks for memory out of proportion to the file");
        // the archive can be had by others again
        put(good);
        HZ_Archive a(path());
        try { a.load(); } catch (const std::exception &e) { mc::fail("an intact archive cannot be opened afterwards", e.what()); }
        a.close();
    });
    rainman::detail::hzv_limit = 1ull << 33;
    hzv_rand_hook = nullptr;
    mc::outcome(opened);
}

static const uint64_t VALUES[] = {0, 1, 8, 0x40, 0x48, 0x88, 0x100, 0x140, 1000, 1ull << 20, 1ull << 32, 1ull << 40, 1ull << 58, 1ull << 61, (1ull << 61) - 1, 1ull << 63,
    ~0ull, -8ull, -0x40ull, -0x48ull, -0x49ull, -0x50ull, -0x88ull, -0x90ull, -0x100ull, -0x140ull, -0x148ull};
static const unsigned NV = sizeof VALUES / sizeof *VALUES;

static void field(Bytes &b, uint64_t bit, uint64_t v, unsigned n = 64) {
    for (unsigned i = 0; i < n; i++, bit++) {
        uint8_t m = 0x80 >> (bit & 7);
        if (v >> (n - 1 - i) & 1) b[bit >> 3] |= m;
        else b[bit >> 3] &= ~m;
    }
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool t = mc::thorough();
    mc::assume("file contents are read through the bit stream stand-in (reading past the end is an error)");
    mc::Opts o;
    o.hang_s = 2;
    unsigned n = shapes().size();
    for (unsigned s = 0; s < n; s++) image(s);
    // anything of up to three bytes, markers of every kind first
    mc::enumerate("short files", 1 + 256 + 65536 + (t ? 1 << 22 : 0), [](uint64_t i) {
        Bytes b;
        if (i >= 65793) { i -= 65793; b = {uint8_t(i >> 16 & 3), uint8_t(i >> 8), uint8_t(i), 0xff}; b[0] = b[0] == 3 ? 0xff : b[0]; }
        else if (i >= 257) { i -= 257; b = {uint8_t(i >> 8), uint8_t(i)}; }
        else if (i) b = {uint8_t(i - 1)};
        mc::logf("file %s", hex(b).c_str());
        judge(b, 0);
    }, o);
    uint64_t total = 0;
    for (unsigned s = 0; s < n; s++) total += image(s).size();
    auto at = [n](uint64_t &i) { unsigned s = 0; while (i >= image(s).size()) i -= image(s++).size(); (void) n; return s; };
    mc::enumerate("cut short", total, [&](uint64_t i) {
        unsigned s = at(i);
        mc::logf("shape '%s', cut to %lu of %zu bytes", shapes()[s].name, i, image(s).size());
        judge(Bytes(image(s).begin(), image(s).begin() + i), s);
    }, o);
    mc::enumerate("one byte changed", total * 255, [&](uint64_t i) {
        unsigned d = 1 + i % 255;
        i /= 255;
        unsigned s = at(i);
        Bytes b = image(s);
        b[i] ^= d;
        mc::logf("shape '%s', byte %lu is %02x instead of %02x", shapes()[s].name, i, b[i], image(s)[i]);
        judge(b, s);
    }, o);
    mc::enumerate("one number changed", total * 8 * NV, [&](uint64_t i) {
        uint64_t v = VALUES[i % NV];
        i /= NV;
        unsigned sub = i % 8;
        i /= 8;
        unsigned s = at(i);
        Bytes b = image(s);
        uint64_t bit = i * 8 + sub;
        if (bit + 64 > b.size() * 8) return mc::vacuous();
        field(b, bit, v);
        mc::logf("shape '%s', the number at bit %lu is %lx", shapes()[s].name, bit, v);
        judge(b, s);
    }, o);
    // two numbers of one shape: every pair of record fields
    std::vector<std::vector<uint64_t>> fields(n);
    uint64_t pairs = 0;
    std::vector<uint64_t> from;
    static const uint64_t W[] = {0, 1, 0x40, 0x148, 1ull << 61, 1ull << 63, -8ull, -0x48ull, -0x90ull, -0x140ull};
    static const unsigned NW = 10;
    for (unsigned s = 0; s < n; s++) {
        for (auto &r: parse(image(s), true).recs) {
            uint64_t c = r.sof + 72;
            fields[s].push_back(r.sof + 8);
            if (r.type == 'F' || r.type == 'A') fields[s].push_back(c + 8);
            if (r.type == 'F') fields[s].push_back(c + 72 + 8 * r.path.size() - 6);
            if (r.type == 'B') { fields[s].push_back(c + 64); fields[s].push_back(c + 256 + 8 * r.header.size()); }
            if (r.type == 'M') fields[s].push_back(c + 128);
        }
        from.push_back(pairs);
        pairs += fields[s].size() * (fields[s].size() - 1) / 2 * NW * NW;
    }
    mc::enumerate("two numbers changed", pairs, [&](uint64_t i) {
        unsigned s = n - 1;
        while (from[s] > i) s--;
        i -= from[s];
        uint64_t v = W[i % NW], w = W[i / NW % NW];
        i /= NW * NW;
        unsigned x = 0, y = 1, k = fields[s].size();
        while (i >= k - 1 - x) { i -= k - 1 - x; x++; }
        y = x + 1 + i;
        Bytes b = image(s);
        field(b, fields[s][x], v);
        field(b, fields[s][y], w);
        mc::logf("shape '%s', the numbers at bits %lu and %lu are %lx and %lx", shapes()[s].name, fields[s][x], fields[s][y], v, w);
        judge(b, s);
    }, o);
}
