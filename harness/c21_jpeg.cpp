// C21: JPEG coefficients: read == what an independent writer wrote, and read(write(read(f))) == read(f).
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <loguru/loguru.hpp>
#include <hzip_core/preprocessor/jpeg_codec.h>
#include <sanitizer/allocator_interface.h>
#include "mc.h"
#include "jpeg_common.h"

const char *hzv_property = "C21";
using namespace jw;

struct Got {
    bool ok = false;
    char what[200] = "";
    int w = 0, h = 0, nc = 0;
    std::vector<std::array<int, 4>> comps; // id, h, v, q
    std::vector<std::vector<std::array<int, 64>>> b;
    std::array<std::array<int, 64>, 4> q{};
    bool has[4] = {};
    B again; // what write() wrote
    bool written = false;
    bool operator==(const Got &o) const { return w == o.w && h == o.h && nc == o.nc && comps == o.comps && b == o.b && q == o.q && !memcmp(has, o.has, 4); }
};

static void read_write(const B &f, Got &g) {
    try {
        hzj_iface in(const_cast<uint8_t *>(f.data()), f.size());
        auto image = in.read();
        auto &h = image.header;
        g.w = h.image_width; g.h = h.image_height; g.nc = h.num_components;
        g.b.resize(g.nc);
        for (int c = 0; c < g.nc; c++) {
            auto &s = h.comp_specs.at(c);
            g.comps.push_back({s.component_id, s.h_samp_factor, s.v_samp_factor, s.q_table_no});
            for (auto a : image.mcus.coeff_arrays[c]) { std::array<int, 64> x; for (int i = 0; i < 64; i++) x[i] = a[i / 8][i % 8]; g.b[c].push_back(x); }
        }
        for (int t = 0; t < 4; t++) { g.has[t] = !h.qtables[t].is_empty; for (int i = 0; i < 64; i++) g.q[t][i] = h.qtables[t].cof[i]; }
        g.ok = true;
        char *p = nullptr; size_t n = 0;
        FILE *out = open_memstream(&p, &n);
        try { in.write(image, out); g.written = true; } catch (std::exception &e) { snprintf(g.what, sizeof g.what, "%s", e.what()); }
        fclose(out);
        g.again.assign(p, p + n);
        free(p);
    } catch (std::exception &e) { snprintf(g.what, sizeof g.what, "%s", e.what()); }
}
static size_t own(const Got &g) {
    size_t n = g.comps.capacity() * sizeof g.comps[0] + g.b.capacity() * sizeof g.b[0] + g.again.capacity();
    for (auto &x : g.b) n += x.capacity() * sizeof x[0];
    return n;
}
static Got read(const B &f) {
    Got g;
    size_t before = __sanitizer_get_current_allocated_bytes();
    read_write(f, g);
    size_t now = __sanitizer_get_current_allocated_bytes() - own(g);
    if (now != before) mc::failf("memory is not released", "%ld bytes after %s", (long) (now - before), !g.ok ? g.what : !g.written ? "a failed write" : "a round trip");
    mc::step();
    return g;
}

static std::string str(const Jpeg &m, const Style &s) {
    std::string d = std::to_string(m.w) + " x " + std::to_string(m.h) + ", components";
    for (auto &c : m.c) d += " " + std::to_string(c.h) + "x" + std::to_string(c.v);
    if (!s.interleaved) d += ", a scan per component";
    if (s.restart) d += ", restart every " + std::to_string(s.restart);
    if (s.progressive) d += ", progressive " + std::to_string(s.progressive);
    return d;
}
// the same image again, from what was written
static void again(const Got &g, const std::string &d, bool must) {
    if (!g.written) {
        if (must) mc::failf("an image is not written", "%s: %s", d.c_str(), g.what);
        return;
    }
    Got a = read(g.again);
    if (!a.ok) mc::failf("a written image is not read", "%s: %s", d.c_str(), a.what);
    if (a.w != g.w || a.h != g.h || a.nc != g.nc) mc::failf("the dimensions change", "%s: %d x %d x %d become %d x %d x %d", d.c_str(), g.w, g.h, g.nc, a.w, a.h, a.nc);
    for (int c = 0; c < g.nc; c++) {
        if (a.comps[c] != g.comps[c]) mc::failf("a component changes", "%s: component %d", d.c_str(), c);
        if (a.b[c].size() != g.b[c].size()) mc::failf("the number of blocks changes", "%s: component %d has %zu, not %zu", d.c_str(), c, a.b[c].size(), g.b[c].size());
        for (size_t i = 0; i < g.b[c].size(); i++) for (int k = 0; k < 64; k++) if (a.b[c][i][k] != g.b[c][i][k]) mc::failf("a coefficient changes", "%s: component %d block %zu coefficient %d: %d becomes %d", d.c_str(), c, i, k, g.b[c][i][k], a.b[c][i][k]);
        int t = g.comps[c][3];
        if (a.q[t] != g.q[t]) mc::failf("a quantisation table changes", "%s: table %d", d.c_str(), t);
    }
}
static Got check(const Jpeg &m, const Style &st, bool must = true) {
    Got g = read(write(m, st));
    std::string d = str(m, st);
    if (!g.ok) { if (must) mc::failf("a valid image is not read", "%s: %s", d.c_str(), g.what); return g; }
    if (g.w != (int) m.w || g.h != (int) m.h) mc::failf("the dimensions are wrong", "%s: %d x %d", d.c_str(), g.w, g.h);
    if (g.nc != (int) m.c.size()) mc::failf("the number of components is wrong", "%s: %d", d.c_str(), g.nc);
    for (int c = 0; c < g.nc; c++) {
        auto &x = m.c[c];
        if (g.comps[c] != std::array<int, 4>{x.id, x.h, x.v, x.tq}) mc::failf("a component is wrong", "%s: component %d", d.c_str(), c);
        if (g.b[c].size() != x.b.size()) mc::failf("the number of blocks is wrong", "%s: component %d has %zu, not %zu", d.c_str(), c, g.b[c].size(), x.b.size());
        for (size_t i = 0; i < x.b.size(); i++) for (int k = 0; k < 64; k++) if (g.b[c][i][k] != x.b[i][k]) mc::failf("a coefficient is wrong", "%s: component %d block %zu coefficient %d is %d, not %d", d.c_str(), c, i, k, g.b[c][i][k], x.b[i][k]);
    }
    for (int t = 0; t < 4; t++) {
        if (g.has[t] != m.has[t]) mc::failf("a quantisation table is wrong", "%s: table %d", d.c_str(), t);
        if (g.has[t]) for (int k = 0; k < 64; k++) if (g.q[t][k] != m.q[t][k]) mc::failf("a quantisation table is wrong", "%s: table %d entry %d is %d, not %d", d.c_str(), t, k, g.q[t][k], m.q[t][k]);
    }
    again(g, d, must);
    return g;
}
static uint64_t rnd(uint64_t &s) { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s; }
static Jpeg image(uint32_t w, uint32_t h, const std::vector<std::array<int, 2>> &samp, int content, int ids = 0) {
    Jpeg m; m.w = w; m.h = h;
    int i = 0;
    for (auto &s : samp) { m.c.push_back({ids == 1 ? "RGBK"[i] : ids == 2 ? 200 - i : i + 1, s[0], s[1], i ? 1 : 0}); i++; }
    m.shape();
    uint64_t r = 88172645463325252ull + content;
    for (int t = 0; t < 2; t++) { m.has[t] = true; for (int k = 0; k < 64; k++) m.q[t][k] = content == 3 ? 1 + rnd(r) % 65535 : 1 + (k * 3 + t * 7 + content) % 255; }
    if (samp.size() == 1) m.has[1] = false;
    uint64_t n = 1;
    for (auto &c : m.c) for (auto &b : c.b) {
        n++;
        if (content == 0) { b[0] = (int) (n * 7 % 2048) - 1024; b[n % 63 + 1] = (int) (n % 2047) - 1023; } // every block distinct
        else if (content == 1) { for (int k = 0; k < 64; k++) b[k] = (int) (rnd(r) % 2047) - 1023; } // full
        else if (content == 2) { for (int k = 0; k < 64; k++) if (rnd(r) % 8 == 0) b[k] = (int) (rnd(r) % 7) - 3; } // sparse
        else { b[0] = n & 1 ? 1023 : -1024; b[63] = n & 2 ? 1023 : -1023; } // extremes
    }
    return m;
}
// whatever it is: an error or a consistent image, which survives a round trip or cannot be written
static void anything(const B &f, const std::string &d, bool error = false) {
    Got g = read(f);
    if (!g.ok) { mc::outcome(0); return; }
    if (error) mc::failf("a truncated image is read", "%s: %d x %d", d.c_str(), g.w, g.h);
    int hm = 1, vm = 1; for (auto &c : g.comps) { hm = std::max(hm, c[1]); vm = std::max(vm, c[2]); }
    for (int c = 0; c < g.nc; c++) {
        uint64_t want = (uint64_t) ((g.w * g.comps[c][1] + 8 * hm - 1) / (8 * hm)) * ((g.h * g.comps[c][2] + 8 * vm - 1) / (8 * vm));
        if (g.b[c].size() != want) mc::failf("the number of blocks does not fit the dimensions", "%s: component %d has %zu of %d x %d", d.c_str(), c, g.b[c].size(), g.w, g.h);
    }
    again(g, d, false);
    mc::outcome(g.written ? 1 : 2);
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    using S = std::vector<std::array<int, 2>>;
    std::vector<S> modes = {{{1, 1}}, {{2, 2}}, {{2, 1}}, {{4, 4}}, {{1, 3}}, {{1, 1}, {1, 1}, {1, 1}}, {{2, 1}, {1, 1}, {1, 1}}, {{1, 2}, {1, 1}, {1, 1}}, {{2, 2}, {1, 1}, {1, 1}}, {{4, 1}, {1, 1}, {1, 1}}, {{1, 4}, {1, 1}, {1, 1}}, {{4, 2}, {1, 1}, {1, 1}},
        {{2, 2}, {2, 1}, {2, 1}}, {{2, 2}, {1, 2}, {1, 2}}, {{1, 1}, {2, 2}, {1, 1}}, {{1, 2}, {2, 1}, {1, 1}}, {{3, 1}, {1, 1}, {1, 1}}, {{3, 2}, {1, 1}, {1, 1}}, {{3, 1}, {2, 1}, {1, 1}}, {{2, 2}, {2, 2}, {2, 2}}, {{1, 1}, {1, 1}}, {{2, 1}, {1, 2}},
        {{1, 1}, {1, 1}, {1, 1}, {1, 1}}, {{2, 2}, {1, 1}, {1, 1}, {2, 2}}, {{2, 1}, {1, 1}, {1, 1}, {2, 1}}, {{4, 4}, {1, 1}, {1, 1}}, {{4, 4}, {4, 4}, {4, 4}, {4, 4}}};
    std::vector<Style> styles;
    { Style s; styles.push_back(s);
      s.interleaved = false; styles.push_back(s);
      s = Style(); s.restart = 1; s.pad = 77; styles.push_back(s);
      s = Style(); s.restart = 3; s.interleaved = false; s.comments = true; styles.push_back(s);
      s = Style(); s.progressive = 1; styles.push_back(s);
      s = Style(); s.progressive = 2; s.pad = -9; s.restart = 2; styles.push_back(s);
      s = Style(); s.fill = true; s.jfif = 0; s.pad = -1000; styles.push_back(s);
      s = Style(); s.interleaved = false; s.progressive = 2; styles.push_back(s); }
    mc::Opts o;
    uint32_t steps = th ? 34 : 18;
    // sizes around every boundary of blocks and MCUs
    std::vector<uint32_t> sizes;
    if (th) for (uint32_t i = 1; i <= 50; i++) sizes.push_back(i);
    else for (uint32_t i : {1, 2, 7, 8, 9, 15, 16, 17, 23, 24, 25, 31, 32, 33, 40, 41}) sizes.push_back(i);
    (void) steps;
    o.bounds = std::to_string(modes.size()) + " component layouts x " + std::to_string(sizes.size()) + "^2 sizes x 8 file layouts x 4 contents";
    mc::enumerate("valid images", modes.size() * sizes.size() * sizes.size(), [&](uint64_t i) {
        auto &s = modes[i % modes.size()]; uint64_t k = i / modes.size();
        uint32_t w = sizes[k % sizes.size()], h = sizes[k / sizes.size()];
        for (size_t st = 0; st < styles.size(); st++) for (int content = 0; content < 4; content++) {
            if (!th && content != (int) ((i + st) & 3) && content) continue;
            check(image(w, h, s, content), styles[st]);
        }
    }, o);

    o.bounds = "all sizes up to 50 x 50 of the layouts 1x1, 2x2+1x1+1x1, 2x1+1x1+1x1, 1x2+1x1+1x1; rows and columns of up to 65500 pixels";
    mc::enumerate("all small sizes", 50 * 50 + 24, [&](uint64_t i) {
        if (i < 2500) { for (int s : {0, 6, 7, 8}) check(image(i % 50 + 1, i / 50 + 1, modes[s], 0), styles[i & 7]); return; }
        i -= 2500;
        uint32_t n = std::vector<uint32_t>{255, 256, 257, 2049, 32769, 65500}[i % 6]; i /= 6;
        check(i & 1 ? image(n, 1 + i / 2 * 9, modes[8], 0) : image(1 + i / 2 * 9, n, modes[8], 0), styles[0]);
    }, o);

    // colour: component identifiers and the markers that tell the colour space
    o.bounds = "1-4 components x 3 kinds of identifiers x JFIF marker x Adobe marker with transform 0, 1, 2";
    mc::enumerate("colour spaces", 4 * 3 * 2 * 4, [&](uint64_t i) {
        S s(i % 4 + 1, {1, 1}); i /= 4; int ids = i % 3; i /= 3;
        for (int k : {0, 1, 2}) { if (k) s[0] = {2, k}; Style st; st.jfif = i & 1; st.adobe = (int) (i >> 1) - 1; check(image(17, 9, s, 0, ids), st, !((s.size() == 3 && st.adobe == 2) || (s.size() == 4 && st.adobe == 1))); }
    }, o);

    // one block: every value of every coefficient, and every distance between two coefficients
    o.bounds = "every value in -1023..1023 (DC -1024..1023) of each of the 64 coefficients; every pair of positions x 4 x 4 values";
    mc::enumerate("coefficient values", 64 * 33, [&](uint64_t i) {
        int k = i % 64, part = i / 64;
        Jpeg m = image(128, 64, {{1, 1}}, 2);
        if (part < 32) {
            // 64 values in a row, each in a block of its own, with neighbours that differ
            for (int j = 0; j < 128; j++) { Block b{}; int v = part * 64 + j / 2 - 1024; if (k && v < -1023) v = -1023; b[k] = j & 1 ? 0 : v; m.c[0].b[j] = b; }
            for (int p = 0; p < 3; p++) { Style s; s.progressive = p; check(m, s); }
            return;
        }
        Jpeg n = image(512, 128, {{1, 1}}, 2); // 1024 blocks
        int vals[4] = {1, -2, 255, -1023};
        for (int x = 0; x < 16; x++) for (int j = 0; j < 64; j++) { Block b{}; b[zz[k]] = vals[x & 3]; if (j != k) b[zz[j]] = vals[x >> 2]; n.c[0].b[x * 64 + j] = b; }
        for (int p = 0; p < 3; p++) { Style s; s.progressive = p; check(n, s); }
    }, o);

    // all contents of small alphabets: four coefficients of two blocks
    o.bounds = "two blocks with all values of {-1, 0, 1, 2} at 4 positions each, 3 sets of positions";
    mc::enumerate("small contents", 65536 / 64 * 3, [&](uint64_t i) {
        static const int pos[3][4] = {{0, 1, 2, 3}, {0, 17, 18, 63}, {1, 33, 34, 62}};
        Jpeg m = image(128, 64, {{1, 1}}, 2);
        for (int j = 0; j < 64; j++) { uint64_t c = i / 3 * 64 + j; for (int x = 0; x < 2; x++) { Block b{}; for (int p = 0; p < 4; p++, c /= 4) b[zz[pos[i % 3][p]]] = (int) (c % 4) - 1; m.c[0].b[j * 2 + x] = b; } }
        for (int p = 0; p < 3; p++) { Style s; s.progressive = p; check(m, s); }
    }, o);

    // differences between the DC coefficients of neighbours
    o.bounds = "all pairs of 23 boundary DC values of neighbours, in every layout";
    mc::enumerate("DC differences", modes.size(), [&](uint64_t i) {
        std::vector<int> v = {-1024, -1023, -513, -512, -511, -256, -128, -33, -8, -3, -2, -1, 0, 1, 2, 3, 7, 64, 255, 511, 512, 1022, 1023};
        Jpeg m = image(600, 300, modes[i], 2);
        for (auto &c : m.c) { size_t n = 0; for (auto &b : c.b) { b = Block{}; size_t p = n / 2 % (v.size() * v.size()); b[0] = n & 1 ? v[p / v.size()] : v[p % v.size()]; n++; } }
        for (auto &s : styles) check(m, s);
    }, o);

    // coefficients that no 8-bit image has, but a file can hold: the same or an error
    o.bounds = "every coefficient x values +-2^10..+-2^14, with DC differences up to 2^15";
    mc::enumerate("values beyond the range", 64 * 12, [&](uint64_t i) {
        int k = i % 64, e = i / 64; int v = 1 << (e / 2 + 9); if (e & 1) v = -v - 1;
        for (int n = 1; n <= 2; n++) for (int d = -1; d <= 1; d++) {
            Jpeg m = image(16, 8, {{1, 1}}, 2);
            m.c[0].b[0][k] = v + d; if (n > 1) m.c[0].b[1][k] = -v;
            for (int p = 0; p < 3; p++) { Style s; s.progressive = p; Got g = check(m, s, false); mc::outcome(!g.ok ? 0 : g.written ? 1 : 2); }
        }
    }, o);

    // tables
    o.bounds = "each component with any of 4 tables; every 16-bit value in one entry; every entry with 6 boundary values";
    mc::enumerate("quantisation tables", 64 + 512 + 64, [&](uint64_t i) {
        if (i < 64) {
            Jpeg m = image(17, 17, modes[8], 0);
            for (int t = 0; t < 4; t++) { m.has[t] = false; for (int k = 0; k < 64; k++) m.q[t][k] = 1 + t * 50 + k; }
            for (int c = 0; c < 3; c++) { m.c[c].tq = i >> (2 * c) & 3; m.has[m.c[c].tq] = true; }
            check(m, Style()); for (bool &x : m.has) x = true; check(m, Style());
            return;
        }
        i -= 64;
        if (i < 512) { for (int j = 0; j < 128; j++) { Jpeg m = image(8, 8, {{1, 1}}, 2); int v = i * 128 + j; if (v) { m.q[0][v % 64] = v; check(m, Style()); } } return; }
        i -= 512;
        for (int v : {1, 2, 255, 256, 257, 65535}) { Jpeg m = image(8, 8, {{1, 1}}, 2); m.q[0][i] = v; check(m, Style()); }
    }, o);

    // damage
    struct F { B f; Style st; std::string d; };
    std::vector<F> files;
    for (size_t k = 0; k < (th ? 64 : 24); k++) { auto &s = modes[(k * 5 + (k >= modes.size())) % modes.size()]; Style st = styles[k & 7]; auto m = image(9 + k % 9, 7 + k % 12, s, k & 1 ? 2 : 0); files.push_back({write(m, st), st, str(m, st)}); }
    uint64_t total = 0; std::vector<uint64_t> start; for (auto &f : files) { start.push_back(total); total += f.f.size(); }
    auto at = [&](uint64_t i, size_t &f, size_t &p) { f = std::upper_bound(start.begin(), start.end(), i) - start.begin() - 1; p = i - start[f]; };
    o.bounds = "every proper prefix of " + std::to_string(files.size()) + " files";
    mc::enumerate("truncated files", total, [&](uint64_t i) {
        size_t f, p; at(i, f, p);
        B b(files[f].f.begin(), files[f].f.begin() + p);
        anything(b, files[f].d + ", the first " + std::to_string(p) + " bytes", true);
    }, o);
    o.bounds = "every byte of " + std::to_string(files.size()) + " files x 12 other values, lost, doubled; bytes of the headers x all values";
    mc::enumerate("damaged files", total, [&](uint64_t i) {
        size_t f, p; at(i, f, p);
        auto &g = files[f].f;
        std::string d = files[f].d + ", byte " + std::to_string(p);
        B b = g;
        std::vector<int> vals = {0, 1, 2, 17, 63, 64, 127, 128, 0xC0, 0xD9, 254, 255};
        for (int x = 0; x < 8; x++) vals.push_back(g[p] ^ 1 << x);
        if (f < 3 && p < 160) { vals.clear(); for (int v = 0; v < 256; v++) vals.push_back(v); }
        for (int v : vals) if (v != g[p]) { b[p] = v; anything(b, d + " is " + std::to_string(v)); }
        b = g; b.erase(b.begin() + p); anything(b, d + " lost");
        b = g; b.insert(b.begin() + p, g[p]); anything(b, d + " doubled");
    }, o);
    o.bounds = "all sequences of up to 6 segments of a file (SOI, DQT, SOF, DHT, SOS with data, EOI, restart interval, second SOF)";
    std::vector<B> seg;
    { Jpeg m = image(9, 9, {{2, 1}, {1, 1}, {1, 1}}, 2); Style st; st.jfif = 0; B f = write(m, st);
      // split at the markers
      size_t p = 0; auto cut = [&](size_t q) { seg.emplace_back(f.begin() + p, f.begin() + q); p = q; };
      cut(2);
      while (p < f.size()) { int mk = f[p + 1]; if (mk == 0xDA) { cut(f.size() - 2); cut(f.size()); break; } size_t at = p + 2 + (f[p + 2] << 8 | f[p + 3]); while (f[at + 1] == mk) at += 2 + (f[at + 2] << 8 | f[at + 3]); cut(at); }
      seg.push_back({255, 0xDD, 0, 4, 0, 1});
      seg.push_back({255, 0xC0, 0, 11, 8, 0, 8, 0, 8, 1, 1, 0x11, 0}); }
    uint64_t n = seg.size(), all = 1, pw = 1; int depth = th ? 7 : 6;
    for (int k = 1; k <= depth; k++) { pw *= n; all += pw; }
    mc::enumerate("sequences of segments", (all + 255) / 256, [&](uint64_t i) {
        for (uint64_t j = i * 256; j < std::min(all, (i + 1) * 256); j++) {
            uint64_t c = j, pw2 = 1; int len = 0; while (c >= pw2) { c -= pw2; pw2 *= n; len++; }
            B b; std::string d = "segments";
            std::vector<int> ids; for (int k = 0; k < len; k++) { ids.push_back(c % n); c /= n; }
            if (len && ids[0]) { if (len > 3) continue; } // without SOI nothing is read
            for (int x : ids) { b.insert(b.end(), seg[x].begin(), seg[x].end()); d += " " + std::to_string(x); }
            anything(b, d);
        }
    }, o);
    o.bounds = "an empty buffer, a missing file, an empty file, a directory; a file read by name";
    mc::enumerate("files", 5, [&](uint64_t i) {
        std::string dir = mc::scratch(), p = dir + "/x.jpg";
        Jpeg m = image(17, 9, modes[8], 1); B f = write(m, Style());
        if (i == 0) { Got g = read({}); mc::require(!g.ok, "an empty buffer is read"); return; }
        if (i == 2 || i == 4) { FILE *o = fopen(p.c_str(), "wb"); if (i == 4) fwrite(f.data(), 1, f.size(), o); fclose(o); }
        if (i == 3) p = dir;
        bool ok = false;
        try { hzj_iface in(p); auto im = in.read(); ok = true; mc::require(im.header.image_width == 17 && im.mcus.coeff_arrays[0][0][0][0] == m.c[0].b[0][0], "a file is read as something else"); } catch (std::exception &) {}
        mc::require(ok == (i == 4), i == 4 ? "a file is not read" : "what is no file is read");
        mc::step();
    }, o);
}
