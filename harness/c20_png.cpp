// C20: the PNG reader, against an independent writer, with truncations and corruptions.
#include <cstdint>
#include <cstring>
#include <string>
#include <vector>
#include <hzip_core/preprocessor/png_bundle.h>
#include "mc.h"
#include "png_common.h"

const char *hzv_property = "C20";
using namespace pngw;

struct Got { bool ok = false; std::string what; uint32_t w, h; int depth, type, interlace, compression, filter, channels; std::vector<uint16_t> s; std::vector<uint8_t> palette; };
static bool operator==(const Got &a, const Got &b) { return a.ok == b.ok && (!a.ok || (a.w == b.w && a.h == b.h && a.depth == b.depth && a.type == b.type && a.channels == b.channels && a.s == b.s && a.palette == b.palette)); }

static Got read(const B &f) {
    Got g;
    uint64_t live = rainman::detail::live_bytes();
    try {
        auto p = rainman::ptr<uint8_t>(f.size());
        for (size_t i = 0; i < f.size(); i++) p[i] = f[i];
        auto b = PNGBundleBuilder(p).read_bundle();
        g.ok = true;
        g.w = b.ihdr.width; g.h = b.ihdr.height; g.depth = b.ihdr.bit_depth; g.type = b.ihdr.color_type;
        g.interlace = b.ihdr.interlace_method; g.compression = b.ihdr.compression_method; g.filter = b.ihdr.filter_method;
        g.channels = b.nchannels;
        g.s.resize(b.buf.size());
        for (size_t i = 0; i < g.s.size(); i++) g.s[i] = b.buf[i];
        if (g.type == 3) for (size_t i = 0; i < b.plte.colors.size(); i++) { g.palette.push_back(b.plte.colors[i].red); g.palette.push_back(b.plte.colors[i].green); g.palette.push_back(b.plte.colors[i].blue); }
    } catch (std::exception &e) { g.what = e.what(); }
    if (rainman::detail::live_bytes() != live) mc::failf("memory is not released", "%ld bytes after reading %zu bytes (%s)", (long) (rainman::detail::live_bytes() - live), f.size(), g.ok ? "an image" : "an error");
    mc::step();
    return g;
}
static std::string str(const Image &m, const Style &s) {
    return std::to_string(m.w) + " x " + std::to_string(m.h) + " type " + std::to_string(m.type) + " depth " + std::to_string(m.depth) + (s.interlace ? " interlaced" : "") + " filter " + std::to_string(s.filter) + " IDAT of " + std::to_string(s.idat) + " extra " + std::to_string(s.extra);
}

static Got check(const Image &m, const Style &st) {
    Got g = read(write(m, st));
    std::string d = str(m, st);
    if (!g.ok) mc::failf("a valid image is not read", "%s: %s", d.c_str(), g.what.c_str());
    if (g.w != m.w || g.h != m.h) mc::failf("the dimensions are wrong", "%s: %u x %u", d.c_str(), g.w, g.h);
    if (g.depth != m.depth || g.type != m.type || g.interlace != st.interlace || g.compression || g.filter) mc::failf("the header is wrong", "%s: depth %d type %d interlace %d compression %d filter %d", d.c_str(), g.depth, g.type, g.interlace, g.compression, g.filter);
    if (g.channels != m.channels()) mc::failf("the channel count is wrong", "%s: %d", d.c_str(), g.channels);
    if (g.s.size() != m.s.size()) mc::failf("the number of samples is wrong", "%s: %zu, not %zu", d.c_str(), g.s.size(), m.s.size());
    for (size_t i = 0; i < m.s.size(); i++) if (g.s[i] != m.s[i]) mc::failf("a sample is wrong", "%s: sample %zu is %u, not %u", d.c_str(), i, g.s[i], m.s[i]);
    if (m.type == 3 && g.palette != m.palette) mc::failf("the palette is wrong", "%s: %zu colours, not %zu", d.c_str(), g.palette.size() / 3, m.palette.size() / 3);
    return g;
}

// damaged: an error, or nothing that matters was hit
static void damaged(const B &f, const Got &good, const char *sig, const std::string &d) {
    Got g = read(f);
    if (g.ok && !(g == good)) mc::failf(sig, "%s: %u x %u depth %d type %d, %zu samples", d.c_str(), g.w, g.h, g.depth, g.type, g.s.size());
    mc::outcome(g.ok);
}
// whatever it is: an error or a consistent image
static void anything(const B &f, const std::string &d) {
    Got g = read(f);
    if (!g.ok) { mc::outcome(0); return; }
    if (g.s.size() != (uint64_t) g.w * g.h * g.channels) mc::failf("the number of samples does not fit the dimensions", "%s: %zu for %u x %u x %d", d.c_str(), g.s.size(), g.w, g.h, g.channels);
    for (size_t i = 0; i < g.s.size(); i++) if (g.depth < 16 && g.s[i] >> g.depth) mc::failf("a sample is beyond its depth", "%s: %u", d.c_str(), g.s[i]);
    mc::outcome(1);
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    auto &ks = kinds();
    unsigned side = th ? 17 : 10;
    mc::Opts o;
    o.bounds = "15 colour types and depths x all sizes up to " + std::to_string(side) + " x " + std::to_string(side) + " x interlacing x 6 filter choices x 3 chunk layouts";
    mc::enumerate("valid images", ks.size() * side * side, [&](uint64_t i) {
        auto k = ks[i % ks.size()];
        uint32_t w = i / ks.size() % side + 1, h = i / ks.size() / side + 1;
        for (int inter = 0; inter < 2; inter++) for (int filter = 0; filter < 6; filter++) for (int layout = 0; layout < 3; layout++)
            check(image(w, h, k, (filter + layout) & 3), {inter, filter, layout == 0 ? (size_t) 1 << 20 : layout == 1 ? 1 : 7, (int) (i + filter) & 15, layout == 2 ? 3u : 65535u});
    }, o);
    std::vector<std::pair<uint32_t, uint32_t>> longs;
    for (uint32_t n = side; n <= (th ? 300 : 70); n++) { longs.push_back({n, 1}); longs.push_back({1, n}); longs.push_back({n, 2}); longs.push_back({3, n}); }
    for (uint32_t n: {255, 256, 257, 1000, 1023, 1024, 8191, 65535, 65536, 65537, 70000}) { longs.push_back({n, 1}); longs.push_back({1, n}); longs.push_back({n, 3}); }
    longs.push_back({300, 300});
    mc::Opts ol;
    ol.bounds = "rows and columns up to 70000";
    mc::enumerate("long images", longs.size() * ks.size(), [&](uint64_t i) {
        auto [w, h] = longs[i / ks.size()];
        for (int inter = 0; inter < 2; inter++) check(image(w, h, ks[i % ks.size()], i & 3), {inter, 5, (size_t) (w * h > 5000 ? 8192 : 40), 0});
    }, ol);
    unsigned bits = th ? 16 : 12;
    std::vector<Image> shapes;
    for (auto k: ks) for (uint32_t w = 1; w <= bits; w++) for (uint32_t h = 1; w * h <= bits; h++) { Image m = image(w, h, k, 0); if (m.s.size() * k.depth <= bits && m.s.size() * k.depth > bits / 2) shapes.push_back(m); }
    mc::Opts oc;
    oc.bounds = "all contents of " + std::to_string(shapes.size()) + " shapes with up to " + std::to_string(bits) + " bits";
    mc::enumerate("contents", shapes.size(), [&](uint64_t i) {
        Image m = shapes[i];
        for (uint64_t x = 0; x < 1ull << (m.s.size() * m.depth); x++) {
            uint64_t y = x;
            for (auto &e: m.s) { e = y & ((1u << m.depth) - 1); y >>= m.depth; }
            check(m, {(int) (x >> 1 & 1), (int) (x % 6), 1 << 20, 0});
        }
    }, oc);
    mc::Opts ov;
    ov.bounds = "every value of a sample of each depth; palettes of 1 to 256 colours";
    mc::enumerate("values and palettes", 16, [&](uint64_t part) {
        for (auto k: ks) {
            uint32_t n = 1u << k.depth;
            uint32_t from = (uint64_t) n * part / 16, to = (uint64_t) n * (part + 1) / 16;
            if (from == to) continue;
            Image m = image(to - from, 1, k, 0);
            for (int c = 0; c < m.channels(); c++) for (uint32_t v = from; v < to; v++) m.s[(size_t) c * (to - from) + v - from] = (v * (2 * c + 1)) & (n - 1);
            check(m, {(int) (part & 1), 5, 1000, 0});
        }
        for (int colours = part * 16 + 1; colours <= (int) part * 16 + 16; colours++) for (int depth: {1, 2, 4, 8}) {
            if (colours > 1 << depth) continue;
            Image m = image(5, 3, {3, depth}, 0);
            m.palette.resize(colours * 3);
            for (auto &e: m.s) e %= colours;
            check(m, {0, 0, 1 << 20, 0});
        }
    }, ov);

    // ---- truncations and corruptions
    struct F { Image m; Style s; B b; Got good; };
    std::vector<F> files;
    for (size_t i = 0; i < ks.size(); i++) for (int v = 0; v < (th ? 6 : 3); v++) {
        F f;
        f.m = image(v == 2 ? 5 : 3 - v % 3, v == 2 ? 9 : 2 + v % 3, ks[i], 0);
        f.s = {v & 1, v == 0 ? 0 : 5, (size_t) (v == 0 ? 1 << 20 : v == 1 ? 9 : 30), v == 2 ? 15 : 0};
        if (f.m.type == 3) { f.m.palette.resize(6); for (auto &e: f.m.s) e %= 2; }
        f.b = write(f.m, f.s);
        files.push_back(f);
    }
    mc::Opts ot;
    ot.bounds = "every truncation of " + std::to_string(files.size()) + " files, and every truncation followed by zeros";
    mc::enumerate("truncations", files.size(), [&](uint64_t i) {
        auto &f = files[i];
        Got good = check(f.m, f.s);
        for (size_t n = 0; n < f.b.size(); n++) {
            B t(f.b.begin(), f.b.begin() + n);
            Got g = read(t);
            if (g.ok) mc::failf("a truncated image is accepted", "%s: the first %zu of %zu bytes", str(f.m, f.s).c_str(), n, f.b.size());
            t.resize(f.b.size() + 16);
            damaged(t, good, "a damaged image is accepted", str(f.m, f.s) + ": zeros from byte " + std::to_string(n));
        }
        B more = f.b;
        more.insert(more.end(), {1, 2, 3, 4});
        if (!(read(more) == good)) mc::failf("bytes after the image matter", "%s", str(f.m, f.s).c_str());
    }, ot);
    mc::Opts ob;
    ob.bounds = std::string("every byte of the files replaced by ") + (th ? "every other value" : "every other value (small files) or 24 values");
    ob.hang_s = 300;
    mc::enumerate("corruptions", files.size(), [&](uint64_t i) {
        auto &f = files[i];
        Got good = check(f.m, f.s);
        for (size_t n = 0; n < f.b.size(); n++) for (int x = 1; x < 256; x++) {
            if (!th && f.b.size() > 110 && (x & (x - 1)) && x % 15) continue;
            B t = f.b;
            t[n] ^= x;
            damaged(t, good, "a damaged image is accepted", str(f.m, f.s) + ": byte " + std::to_string(n) + " ^ " + std::to_string(x));
        }
        // one byte lost or one too many, at every place
        for (size_t n = 0; n < f.b.size(); n++) {
            B t = f.b;
            t.erase(t.begin() + n);
            damaged(t, good, "a damaged image is accepted", str(f.m, f.s) + ": byte " + std::to_string(n) + " lost");
            t = f.b;
            t.insert(t.begin() + n, t[n]);
            damaged(t, good, "a damaged image is accepted", str(f.m, f.s) + ": byte " + std::to_string(n) + " doubled");
        }
    }, ob);
    // ---- with right checksums: the chunks' contents
    mc::Opts oh;
    oh.bounds = "IHDR bytes with every value, IDAT and PLTE bytes with every bit flipped, with right checksums; lengths of PLTE and IHDR";
    oh.hang_s = 300;
    mc::enumerate("wrong contents", files.size(), [&](uint64_t i) {
        auto &f = files[i];
        auto cs = chunks(f.m, f.s);
        std::string d = str(f.m, f.s);
        for (size_t c = 0; c < cs.size(); c++) {
            auto &type = cs[c].type;
            for (size_t n = 0; n < cs[c].data.size(); n++) for (int v = 1; v < 256; v++) {
                bool ihdr = type == "IHDR";
                if (!ihdr && (v & (v - 1)) && v != 255) continue;
                if (ihdr && (n == 0 || n == 1 || n == 4 || n == 5) && v > 3) continue;      // no images of a terabyte
                auto t = cs;
                t[c].data[n] ^= v;
                if (ihdr) {
                    uint64_t w = 0, h = 0;
                    for (int q = 0; q < 4; q++) { w = w << 8 | t[c].data[q]; h = h << 8 | t[c].data[4 + q]; }
                    if (w * h > 1u << 22 && w < 1u << 31 && h < 1u << 31 && (w <= 1000000 && h <= 1000000)) continue;
                }
                anything(file(t), d + ": " + type + " byte " + std::to_string(n) + " ^ " + std::to_string(v));
            }
            for (size_t len = 0; len <= cs[c].data.size() + 4; len++) {
                auto t = cs;
                t[c].data.resize(len);
                anything(file(t), d + ": " + type + " of " + std::to_string(len));
            }
        }
    }, oh);
    mc::Opts op;
    op.bounds = "all orders, omissions and repetitions of the chunks of an image: every sequence up to length 5";
    op.hang_s = 300;
    mc::enumerate("wrong order", 6 * 4, [&](uint64_t i) {
        Kind k = i < 6 ? Kind{3, 2} : i < 12 ? Kind{2, 8} : i < 18 ? Kind{0, 16} : Kind{6, 8};
        Image m = image(3, 2, k, 0);
        if (k.type == 3) { m.palette.resize(12); }
        auto cs = chunks(m, {0, 0, 12, 0});
        // IHDR, PLTE (a suggestion where there need be none), two IDAT, IEND, a text
        std::vector<Chunk> al;
        for (auto &c: cs) if (c.type != "PLTE" && al.size() < 3) al.push_back(c);
        for (auto &c: cs) if (c.type == "IDAT" && &c != &cs[k.type == 3 ? 2 : 1] && al.size() > 2) { al[2].data.clear(); break; }
        al[2].data.clear();
        bool first = true;
        for (auto &c: cs) if (c.type == "IDAT") { if (!first) al[2].data.insert(al[2].data.end(), c.data.begin(), c.data.end()); first = false; }
        al.push_back({"PLTE", {1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12}});
        al.push_back({"IEND", {}});
        al.push_back({"tEXt", {'k', 0, 'v'}});
        uint64_t total = 6 * 6 * 6 * 6;
        for (uint64_t x = 0; x < total; x++) for (int len = 1; len <= 5; len++) {
            std::vector<Chunk> seq = {al[i % 6]};
            uint64_t y = x;
            for (int j = 1; j < len; j++) { seq.push_back(al[y % 6]); y /= 6; }
            if (y) continue;
            anything(file(seq), "a sequence of chunks");
        }
    }, op);
    mc::Opts os;
    os.bounds = "all texts up to length 2, the signature with each byte changed, empty input";
    mc::enumerate("no image", 257, [&](uint64_t i) {
        std::vector<B> t = {{}};
        if (i == 256) { B s = {0x89, 'P', 'N', 'G', 13, 10, 26, 10}; t.push_back(s); for (int n = 0; n < 8; n++) for (int v = 1; v < 256; v++) { B q = files[0].b; q[n] ^= v; t.push_back(q); } }
        else { t.push_back({(uint8_t) i}); for (int j = 0; j < 256; j++) t.push_back({(uint8_t) i, (uint8_t) j}); }
        for (auto &b: t) if (read(b).ok) mc::failf("no image is accepted as one", "%zu bytes", b.size());
    }, os);
}
