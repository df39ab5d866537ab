// C19: what the image codec writes, decoded by a reference decoder and compared with the image.
#include <cstdint>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <hzip_codec/sharingan/sharingan.h>
#include <hzip_core/kernel/hzrans/hzrans64.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/runtime/cache_provider.h>
#include "mc.h"
#include "hzsched.h"
#include "png_common.h"

const char *hzv_property = "C19";
using namespace pngw;

struct Params { uint64_t cw = 64, ch = 64, order = 3, rate = 32; bool set = false; };
static std::string str(const Image &m, const Params &p) {
    return std::to_string(m.w) + " x " + std::to_string(m.h) + " type " + std::to_string(m.type) + " depth " + std::to_string(m.depth) +
        (p.set ? " chunks " + std::to_string(p.cw) + " x " + std::to_string(p.ch) + " order " + std::to_string(p.order) + " rate " + std::to_string(p.rate) : "");
}

// ---------------------------------------------------------------- the reference decoder
struct Bits {
    const B &b;
    size_t at = 0;
    uint64_t get(int n) {
        uint64_t v = 0;
        for (int i = 0; i < n; i++, at++) {
            if (at / 8 >= b.size()) mc::fail("the header is incomplete");
            v = v << 1 | (b[at / 8] >> (7 - at % 8) & 1);
        }
        return v;
    }
};
struct Rans {
    std::vector<uint32_t> w;
    size_t at = 2;
    uint64_t x = 0;
    explicit Rans(const B &d) {
        if (d.size() % 4 || d.size() < 8) mc::failf("the data is no sequence of words", "%zu bytes", d.size());
        for (size_t i = 0; i < d.size(); i += 4) w.push_back((uint32_t) d[i] << 24 | d[i + 1] << 16 | d[i + 2] << 8 | d[i + 3]);
        x = (uint64_t) w[1] << 32 | w[0];
    }
    void advance(uint64_t ls, uint64_t bs, const std::string &d) {
        x = ls * (x >> 24) + (x & 0xffffff) - bs;
        if (x < 1ull << 31) {
            if (at >= w.size()) mc::failf("the data is incomplete", "%s", d.c_str());
            x = x << 32 | w[at++];
        }
    }
    uint32_t uniform(const std::string &d) {
        uint32_t s = (x & 0xffffff) >> 16;
        advance(65536, (uint64_t) s << 16, d);
        return s;
    }
    uint32_t get(const uint64_t *freq, const std::string &d) {
        static uint64_t table[256];
        hzrans64_t st;
        st.size = 256; st.scale = 24; st.ftable = table;
        hzrans64_create_ftable_nf(&st, freq);
        uint64_t p = x & 0xffffff, bs = 0;
        for (uint32_t s = 0; s < 256; s++) {
            if (p < bs + table[s]) { advance(table[s], bs, d); return s; }
            bs += table[s];
        }
        mc::failf("the data does not fit the model", "%s", d.c_str());
    }
};

static std::vector<uint16_t> decode(const Image &m, const B &data, const Params &q, const std::string &d) {
    size_t n = (size_t) m.w * m.h, chans = m.channels();
    bool deep = m.depth > 8;
    int shift = deep ? m.depth - 8 : 0;
    std::vector<uint16_t> v(n * chans);
    Rans r(data);
    uint32_t cx = (m.w + q.cw - 1) / q.cw, cy = (m.h + q.ch - 1) / q.ch;
    for (size_t c = 0; c < chans; c++) {
        // a model for each chunk; the samples come in the order of the image
        std::vector<std::vector<uint64_t>> models((size_t) cx * cy);
        std::vector<uint16_t> lead(n);
        for (uint32_t Y = 0; Y < m.h; Y++) for (uint32_t X = 0; X < m.w; X++) {
            auto &f = models[(Y / q.ch) * cx + X / q.cw];
            if (f.empty()) f.assign(65536, 0);
            uint32_t x = X % q.cw, y = Y % q.ch;
            size_t i = (size_t) Y * m.w + X;
            uint32_t s;
            if (x) {
                s = r.get(&f[lead[i - 1] * 256], d);
                f[lead[i - 1] * 256 + s] += q.rate;
                if (y && q.order > 1) f[lead[i - m.w] * 256 + s] += q.rate;
                if (y && q.order > 2) f[lead[i - m.w - 1] * 256 + s] += q.rate >> 1;
            } else if (y && q.order > 1) {
                s = r.get(&f[lead[i - m.w] * 256], d);
                f[lead[i - m.w] * 256 + s] += q.rate;
            } else s = r.uniform(d);
            lead[i] = s;
            v[c * n + i] = s << shift;
        }
    }
    if (deep) for (size_t c = 0; c < chans; c++) {
        std::vector<std::vector<uint64_t>> models((size_t) cx * cy);
        for (uint32_t Y = 0; Y < m.h; Y++) for (uint32_t X = 0; X < m.w; X++) {
            auto &f = models[(Y / q.ch) * cx + X / q.cw];
            if (f.empty()) { f.assign(256, 0); f[0] = 1; }
            uint32_t s = X % q.cw || Y % q.ch ? r.get(f.data(), d) : r.uniform(d);
            f[s] += q.rate << 1;
            v[c * n + (size_t) Y * m.w + X] |= s;
        }
    }
    if (r.at != r.w.size() || r.x != 1ull << 31) mc::failf("data remains after the last sample", "%s: %zu of %zu words", d.c_str(), r.at, r.w.size());
    uint32_t mask = (1u << m.depth) - 1;
    if (m.type != 3) for (size_t c = 0; c < chans; c++) for (uint32_t y = 0; y < m.h; y++) for (uint32_t x = 0; x < m.w; x++) {
        auto *p = &v[c * n + (size_t) y * m.w + x];
        int64_t a = x ? p[-1] : 0, b = y ? p[-(int64_t) m.w] : 0, e = x && y ? p[-(int64_t) m.w - 1] : 0, pred;
        if (x && y) {
            int64_t t = std::abs(a + b - e), da = std::abs(a - t), db = std::abs(b - t), dc = std::abs(e - t);
            pred = da <= db && da <= dc ? a : db <= dc ? b : e;
        } else pred = a + b;
        *p = (*p + pred) & mask;
    }
    if (m.type == 2 || m.type == 6) for (size_t i = 0; i < n; i++) {
        uint32_t Y = v[i], co = v[i + n], cg = v[i + 2 * n];
        uint32_t g = (Y - (cg >> 1)) & mask, t = (g + cg) & mask, red = (t - (co >> 1)) & mask, blue = (red + co) & mask;
        v[i] = red; v[i + n] = g; v[i + 2 * n] = blue;
    }
    return v;
}

static rainman::ptr<HZ_Blob> blob_of(const B &f, const Params &q) {
    auto b = rainman::ptr<HZ_Blob>();
    b->data = rainman::ptr<uint8_t>(f.size());
    for (size_t i = 0; i < f.size(); i++) b->data[i] = f[i];
    b->size = b->o_size = f.size();
    if (q.set) {
        b->codec_params.params["chunk_width"] = std::to_string(q.cw);
        b->codec_params.params["chunk_height"] = std::to_string(q.ch);
        b->codec_params.params["locality_context_order"] = std::to_string(q.order);
        b->codec_params.params["learning_rate"] = std::to_string(q.rate);
    }
    return b;
}

struct Out { B header, data; uint64_t o_size; int alg; };
static Out compress(const B &f, const Params &q) {
    auto b = blob_of(f, q);
    auto c = hzcodec::Sharingan().compress(b);
    Out o;
    for (uint64_t i = 0; i < c->header.size(); i++) o.header.push_back(c->header.raw[i]);
    if (c->size > c->data.size()) mc::failf("the size is wrong", "%lu of %lu bytes", c->size, c->data.size());
    for (uint64_t i = 0; i < c->size; i++) o.data.push_back(c->data[i]);
    o.o_size = c->o_size;
    o.alg = c->mstate->alg;
    for (size_t i = 0; i < f.size(); i++) if (b->data[i] != f[i]) mc::fail("the file is changed by compressing it");
    return o;
}
static void verify(const Image &m, const Style &st, const Params &q, const Out &o, size_t fsize) {
    std::string d = str(m, q);
    if (o.o_size != fsize) mc::failf("the original size is wrong", "%s: %lu, not %zu", d.c_str(), o.o_size, fsize);
    if (o.alg != hzcodec::algorithms::SHARINGAN) mc::failf("the algorithm is wrong", "%s: %d", d.c_str(), o.alg);
    Bits h{o.header};
    Image g;
    uint64_t chans = h.get(8);
    g.w = h.get(32); g.h = h.get(32); g.depth = h.get(8); g.type = h.get(8);
    uint64_t inter = h.get(8), filter = h.get(8), compression = h.get(8), colours = h.get(32);
    if (g.w != m.w || g.h != m.h || g.depth != m.depth || g.type != m.type || (int) chans != m.channels() || (int) inter != st.interlace || filter || compression)
        mc::failf("the header is wrong", "%s: %u x %u type %d depth %d, %lu channels, interlace %lu filter %lu compression %lu", d.c_str(), g.w, g.h, g.type, g.depth, chans, inter, filter, compression);
    if (m.type == 3) {
        if (colours * 3 != m.palette.size()) mc::failf("the palette is wrong", "%s: %lu colours", d.c_str(), colours);
        for (size_t i = 0; i < m.palette.size(); i++) if (h.get(8) != m.palette[i]) mc::failf("the palette is wrong", "%s: byte %zu", d.c_str(), i);
    }
    auto v = decode(g, o.data, q, d);
    for (size_t i = 0; i < v.size(); i++) if (v[i] != m.s[i]) mc::failf("a sample is wrong", "%s: sample %zu is %u, not %u", d.c_str(), i, v[i], m.s[i]);
    mc::step(v.size());
}
static void check(const Image &m, const Style &st = {}, const Params &q = {}) {
    B f = write(m, st);
    uint64_t live = rainman::detail::live_bytes();
    verify(m, st, q, compress(f, q), f.size());
    if (rainman::detail::live_bytes() != live) mc::failf("memory is not released", "%s: %ld bytes", str(m, q).c_str(), (long) (rainman::detail::live_bytes() - live));
}

#ifndef C19_SCHED
void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    auto &ks = kinds();
    hzruntime::Config::opencl_support_enabled = false;
    hzruntime::CacheProvider::init_cache("c19", 1, 1 << 20);
    unsigned side = th ? 12 : 7;
    mc::Opts o;
    o.bounds = "15 colour types and depths x all sizes up to " + std::to_string(side) + " x " + std::to_string(side) + " x 4 contents, interlaced or not";
    mc::enumerate("shapes", ks.size() * side * side, [&](uint64_t i) {
        uint32_t w = i / ks.size() % side + 1, h = i / ks.size() / side + 1;
        for (int pat = 0; pat < 4; pat++) check(image(w, h, ks[i % ks.size()], pat), {pat & 1, 5, 1 << 20, 0});
    }, o);
    unsigned bits = th ? 14 : 9;
    std::vector<Image> shapes;
    for (auto k: ks) for (uint32_t w = 1; w <= bits; w++) for (uint32_t h = 1; w * h <= bits; h++) {
        Image m = image(w, h, k, 0);
        if (m.s.size() * k.depth <= bits && m.s.size() * k.depth > bits / 2) shapes.push_back(m);
    }
    mc::Opts oc;
    oc.bounds = "all contents of " + std::to_string(shapes.size()) + " shapes with up to " + std::to_string(bits) + " bits";
    oc.hang_s = 300;
    mc::enumerate("contents", shapes.size(), [&](uint64_t i) {
        Image m = shapes[i];
        for (uint64_t x = 0; x < 1ull << (m.s.size() * m.depth); x++) {
            uint64_t y = x;
            for (auto &e: m.s) { e = y & ((1u << m.depth) - 1); y >>= m.depth; }
            check(m);
        }
    }, oc);
    mc::Opts ov;
    ov.bounds = "every value of a sample of each depth, in every channel; all contents of 2 x 2 images over 3 (4) extreme values; palettes of 1 to 256 colours";
    ov.hang_s = 300;
    mc::enumerate("values", 64, [&](uint64_t part) {
        for (auto k: ks) {
            uint32_t n = 1u << k.depth, from = (uint64_t) n * part / 64, to = (uint64_t) n * (part + 1) / 64;
            if (from == to) continue;
            for (uint32_t at = from; at < to; at += 1024) {
                uint32_t len = std::min(to - at, 1024u);
                Image m = image(len, 1, k, 0);
                for (int c = 0; c < m.channels(); c++) for (uint32_t v = 0; v < len; v++) m.s[(size_t) c * len + v] = ((at + v) * (2 * c + 1)) & (n - 1);
                check(m);
            }
            uint32_t mask = n - 1;
            std::vector<uint16_t> ext = {0, (uint16_t) mask, (uint16_t) (mask / 2 + 1), (uint16_t) (mask / 2)};
            unsigned a = th ? 4 : 3;
            Image m = image(2, 2, k, 0);
            if (m.channels() <= 2) {
                uint64_t total = 1;
                for (size_t j = 0; j < m.s.size(); j++) total *= a;
                for (uint64_t x = part; x < total; x += 64 * (total > 10000 ? 8 : 1)) {
                    uint64_t y = x;
                    for (auto &e: m.s) { e = ext[y % a]; y /= a; }
                    check(m);
                }
            }
        }
        for (int colours = part * 4 + 1; colours <= (int) part * 4 + 4; colours++) for (int depth: {1, 2, 4, 8}) {
            if (colours > 1 << depth) continue;
            Image m = image(5, 3, {3, depth}, 0);
            m.palette.resize(colours * 3);
            for (auto &e: m.s) e %= colours;
            check(m);
        }
    }, ov);
    unsigned cs = th ? 6 : 4;
    mc::Opts op;
    op.bounds = "all images up to " + std::to_string(cs) + " x " + std::to_string(cs) + " x all chunk sizes up to " + std::to_string(cs) + " x " + std::to_string(cs) + " x orders 0 to 3 x rates 1 to 65536";
    op.hang_s = 300;
    mc::enumerate("chunks", cs * cs * cs * cs, [&](uint64_t i) {
        uint32_t w = i % cs + 1, h = i / cs % cs + 1, cw = i / cs / cs % cs + 1, ch = i / cs / cs / cs + 1;
        uint64_t rates[] = {32, 1, 0, 255, 65536, 33};
        for (auto k: {Kind{0, 8}, Kind{2, 16}, Kind{3, 4}, Kind{4, 16}}) for (uint64_t order = 0; order <= 3; order++)
            check(image(w, h, k, (i + order) & 3), {}, {cw, ch, order, rates[(i + order + k.depth) % 6], true});
    }, op);
    std::vector<std::pair<uint32_t, uint32_t>> big;
    for (uint32_t a: {1, 2, 63, 64, 65, 127, 128, 129}) for (uint32_t b: {1, 2, 63, 64, 65, 129}) big.push_back({a, b});
    big.push_back({1000, 3});
    big.push_back({3, 1000});
    mc::Opts ob;
    ob.bounds = "sizes around one and two default chunks, all colour types and depths";
    ob.hang_s = 300;
    mc::enumerate("default chunks", big.size() * ks.size(), [&](uint64_t i) {
        auto [w, h] = big[i / ks.size()];
        check(image(w, h, ks[i % ks.size()], i % 3), {(int) (i & 1), 5, 8192, 0});
    }, ob);
    // malformed files are refused, and nothing stays behind
    mc::Opts ot;
    ot.bounds = "every truncation and every inverted byte of 15 files";
    mc::enumerate("malformed", ks.size(), [&](uint64_t i) {
        Image m = image(3, 2, ks[i], 0);
        B f = write(m, {0, 5, 20, 0});
        auto good = compress(f, {});
        auto bad = [&](const B &t, const char *what, size_t at) {
            uint64_t live = rainman::detail::live_bytes();
            bool ok = true;
            try {
                auto o = compress(t, {});
                if (o.header != good.header || o.data != good.data) mc::failf("a damaged image is compressed", "type %d depth %d, %s %zu", m.type, m.depth, what, at);
            } catch (std::exception &) { ok = false; }
            if (ok && t.size() < f.size()) mc::failf("a truncated image is compressed", "type %d depth %d, %zu bytes", m.type, m.depth, at);
            if (rainman::detail::live_bytes() != live) mc::failf("memory is not released", "%s %zu: %ld bytes", what, at, (long) (rainman::detail::live_bytes() - live));
            mc::step();
        };
        for (size_t n = 0; n < f.size(); n++) {
            bad(B(f.begin(), f.begin() + n), "truncated at", n);
            B t = f;
            t[n] ^= 0xff;
            bad(t, "inverted byte", n);
        }
        check(m);
    }, ot);
}
#else
void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "two images at once, 1 or 2 caches, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("two at once", [&] {
        int a = mc::choose(3, mc::FREE, "first"), b = mc::choose(3, mc::FREE, "second"), caches = mc::choose(2, mc::FREE, "caches") + 1;
        if (b < a) { mc::vacuous(); return; }
        Kind k[3] = {{0, 8}, {2, 16}, {3, 2}};
        Image m[2] = {image(2, 2, k[a], 0), image(3, 1, k[b], 1)};
        B f[2] = {write(m[0]), write(m[1])};
        Out out[2];
        sched::knobs = sched::Knobs();
        sched::run([&] {
            hzruntime::Config::opencl_support_enabled = false;
            hzruntime::CacheProvider::init_cache("c19", caches, 1 << 20);
            std::thread t0([&] { out[0] = compress(f[0], {}); });
            std::thread t1([&] { out[1] = compress(f[1], {}); });
            t0.join();
            t1.join();
        });
        for (int i = 0; i < 2; i++) verify(m[i], {}, {}, out[i], f[i].size());
    }, o);
}
#endif
