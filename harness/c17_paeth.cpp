// C17: image prediction. All images of small bit counts (the filter must be injective), and larger ones against an inverse.
#include <cstdint>
#include <cstring>
#include <set>
#include <string>
#include <vector>
#include <hzip_core/models/paeth.h>
#include "mc.h"

const char *hzv_property = "C17";
using hzmodels::LinearU16PaethDifferential;
typedef std::vector<uint16_t> V;

static rainman::ptr<uint16_t> ptr(const V &v) {
    auto p = rainman::ptr<uint16_t>(v.size());
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}

struct Shape { uint64_t w, h, c; int depth; };
static std::string str(const Shape &s) { return std::to_string(s.w) + " x " + std::to_string(s.h) + " x " + std::to_string(s.c) + " depth " + std::to_string(s.depth); }
static std::string str(const V &v) { std::string t; for (size_t i = 0; i < v.size() && i < 24; i++) t += std::to_string(v[i]) + " "; return t; }

static V filter(const V &v, const Shape &s, bool inplace) {
    auto in = ptr(v);
    auto out = LinearU16PaethDifferential::filter(in, s.w, s.h, s.c, inplace, s.depth);
    if (out.size() != v.size()) mc::failf("the filtered image has another size", "%s", str(s).c_str());
    if (inplace && !v.empty() && out.pointer() != in.pointer()) mc::failf("the filter does not work in place", "%s", str(s).c_str());
    if (!inplace) for (size_t i = 0; i < v.size(); i++) if (in[i] != v[i]) mc::failf("the filter changes its input", "%s: %s", str(s).c_str(), str(v).c_str());
    V r(v.size());
    for (size_t i = 0; i < v.size(); i++) {
        r[i] = out[i];
        if (r[i] >> s.depth && s.depth < 16) mc::failf("a residual is out of range", "%s: %s-> %u", str(s).c_str(), str(v).c_str(), r[i]);
    }
    return r;
}

static uint32_t predict(const uint16_t *p, uint64_t x, uint64_t y, uint64_t w) {
    if (!x && !y) return 0;
    if (!y) return p[x - 1];
    if (!x) return p[(y - 1) * w];
    int64_t a = p[y * w + x - 1], b = p[(y - 1) * w + x], c = p[(y - 1) * w + x - 1], d = std::abs(a + b - c);
    int64_t da = std::abs(a - d), db = std::abs(b - d), dc = std::abs(c - d);
    return da <= db && da <= dc ? a : db <= dc ? b : c;
}
static V invert(const V &r, const Shape &s) {
    V v(r.size());
    uint32_t m = s.depth == 16 ? 65535 : (1u << s.depth) - 1;
    for (uint64_t c = 0; c < s.c; c++) for (uint64_t y = 0; y < s.h; y++) for (uint64_t x = 0; x < s.w; x++) {
        auto *p = v.data() + c * s.w * s.h;
        p[y * s.w + x] = (r[c * s.w * s.h + y * s.w + x] + predict(p, x, y, s.w)) & m;
    }
    return v;
}

static uint64_t pack(const V &v, int depth) { uint64_t x = 0; for (auto e: v) x = x << depth | e; return x; }
static V unpack(uint64_t x, size_t n, int depth) { V v(n); for (size_t i = n; i--; x >>= depth) v[i] = x & ((1u << depth) - 1); return v; }

void hzv_main() {
    bool th = mc::thorough();
    uint64_t bits = th ? 24 : 20;
    std::vector<Shape> shapes;
    for (int d = 1; d <= 10; d++) for (uint64_t w = 1; w <= bits; w++) for (uint64_t h = 1; w * h <= bits; h++) for (uint64_t c = 1; c <= 4; c++)
        if (w * h * c * d <= bits && w * h * c * d + d > bits - (th ? 6 : 4) * (uint64_t) d) shapes.push_back({w, h, c, d});
    mc::Opts o;
    o.bounds = "all contents of " + std::to_string(shapes.size()) + " shapes with up to " + std::to_string(bits) + " bits";
    o.hang_s = 300;
    mc::enumerate("every image has its own residuals", shapes.size(), [&](uint64_t i) {
        auto s = shapes[i];
        size_t n = s.w * s.h * s.c;
        std::vector<uint64_t> seen((1ull << (n * s.depth)) / 64 + 1);
        for (uint64_t x = 0; x < 1ull << (n * s.depth); x++) {
            V v = unpack(x, n, s.depth);
            V r = filter(v, s, x & 1);
            uint64_t y = pack(r, s.depth);
            if (seen[y / 64] >> (y % 64) & 1) mc::failf("two images have the same residuals", "%s: one is %s", str(s).c_str(), str(v).c_str());
            seen[y / 64] |= 1ull << (y % 64);
            if (x < 4096 && filter(v, s, !(x & 1)) != r) mc::failf("in place and on a copy differ", "%s: %s", str(s).c_str(), str(v).c_str());
        }
        mc::step(1ull << (n * s.depth));
        mc::state(i);
    }, o);
    // all contents over an alphabet of extreme values
    struct Deep { Shape s; unsigned k; };
    std::vector<Deep> deep;
    for (int d: {2, 4, 8, 10, 12, 15, 16}) for (uint64_t w = 1; w <= 4; w++) for (uint64_t h = 1; h <= 4; h++) for (uint64_t c = 1; c <= 4; c++) {
        size_t n = w * h * c;
        for (unsigned k: {3u, 4u, 5u, 8u}) {
            uint64_t t = 1;
            bool ok = true;
            for (size_t i = 0; i < n && ok; i++) ok = (t *= k) <= (th ? 2000000u : 200000u);
            if (ok) deep.push_back({{w, h, c, d}, k});
        }
    }
    mc::Opts e;
    e.bounds = "all contents over 3 to 8 extreme values of " + std::to_string(deep.size()) + " shapes up to 4 x 4 x 4, depths 2 to 16";
    e.hang_s = 300;
    mc::enumerate("extreme values", deep.size(), [&](uint64_t i) {
        auto &s = deep[i].s;
        unsigned k = deep[i].k;
        uint32_t m = s.depth == 16 ? 65535 : (1u << s.depth) - 1;
        uint32_t all[8] = {0, m, m / 2, m / 2 + 1, 1, m - 1, m / 4, m - m / 4};
        size_t n = s.w * s.h * s.c;
        uint64_t t = 1;
        for (size_t j = 0; j < n; j++) t *= k;
        V v(n);
        for (uint64_t x = 0; x < t; x++) {
            uint64_t y = x;
            for (size_t j = 0; j < n; j++, y /= k) v[j] = all[y % k];
            V r = filter(v, s, x & 1);
            if (invert(r, s) != v) mc::failf("an image is not restored", "%s: %s-> %s-> %s", str(s).c_str(), str(v).c_str(), str(r).c_str(), str(invert(r, s)).c_str());
            if (!(x & 7) && filter(v, s, !(x & 1)) != r) mc::failf("in place and on a copy differ", "%s: %s", str(s).c_str(), str(v).c_str());
        }
        mc::step(t);
    }, e);
    // all neighbourhoods of small depth: every a, b, c, t
    mc::Opts q;
    q.bounds = "all 2 x 2 images of depths up to " + std::to_string(th ? 7 : 6);
    q.hang_s = 300;
    mc::enumerate("neighbourhoods", 7 * 64, [=](uint64_t i) {
        int d = i / 64 + 1;
        if (d > (th ? 7 : 6)) { mc::vacuous(); return; }
        uint64_t total = 1ull << 4 * d;
        Shape s{2, 2, 1, d};
        for (uint64_t x = i % 64; x < total; x += 64) {
            V v = unpack(x, 4, d), r = filter(v, s, x >> 6 & 1);
            if (invert(r, s) != v) mc::failf("an image is not restored", "%s: %s-> %s", str(s).c_str(), str(v).c_str(), str(r).c_str());
        }
        mc::step(total / 64);
    }, q);
    // sizes
    unsigned side = th ? 40 : 20;
    mc::Opts z;
    z.bounds = "all sizes up to " + std::to_string(side) + " x " + std::to_string(side) + " and long rows and columns, 1 to 4 channels, depths 1 to 16";
    std::vector<Shape> sizes;
    for (uint64_t w = 0; w <= side; w++) for (uint64_t h = 0; h <= side; h++) for (uint64_t c = 1; c <= 4; c++) sizes.push_back({w, h, c, 0});
    for (uint64_t l: {255, 256, 257, 1000, 65535, 65536, 65537, 70000}) for (uint64_t c = 1; c <= 2; c++) { sizes.push_back({l, 1, c, 0}); sizes.push_back({1, l, c, 0}); sizes.push_back({l, 2, c, 0}); sizes.push_back({2, l, c, 0}); }
    sizes.push_back({300, 300, 3, 0});
    mc::enumerate("sizes", sizes.size(), [&](uint64_t i) {
        Shape s = sizes[i];
        size_t n = s.w * s.h * s.c;
        bool big = n > 10000;
        for (s.depth = 1; s.depth <= 16; s.depth++) {
            if (big && s.depth != 8 && s.depth != 16 && s.depth != 1) continue;
            uint32_t m = s.depth == 16 ? 65535 : (1u << s.depth) - 1;
            for (int pat = 0; pat < 5; pat++) {
                V v(n);
                for (size_t j = 0; j < n; j++) v[j] = (pat == 0 ? j * 2654435761u >> 7 : pat == 1 ? j : pat == 2 ? -j * 3 : pat == 3 ? (j % 3 == 1 ? m : 0) : m) & m;
                V r = filter(v, s, false);
                if (invert(r, s) != v) mc::failf("an image is not restored", "%s: %s", str(s).c_str(), str(v).c_str());
                if (filter(v, s, true) != r) mc::failf("in place and on a copy differ", "%s: %s", str(s).c_str(), str(v).c_str());
            }
        }
    }, z);
    // The predictor for single samples: what comes later does not matter
    mc::Opts p;
    p.bounds = "all images up to 3 x 3 x 2 over 3 values, every sample";
    mc::enumerate("predictor", 9 * 2, [](uint64_t i) {
        uint32_t w = i % 3 + 1, h = i / 3 % 3 + 1, chans = i / 9 + 1;
        size_t n = w * h;
        uint64_t total = 1;
        for (size_t j = 0; j < n; j++) total *= 3;
        for (uint64_t x = 0; x < total; x++) {
            auto run = [&](auto zero) {
                typedef decltype(zero) T;
                T vals[3] = {0, (T) -1, (T) 1};
                auto a = rainman::ptr<T>(n * chans);
                for (uint32_t ch = 0; ch < chans; ch++) {
                    uint64_t y = x;
                    for (size_t j = 0; j < n * chans; j++) a[j] = 2;
                    for (size_t j = 0; j < n; j++, y /= 3) a[ch * n + j] = vals[y % 3];
                    hzmodels::PaethModel<T> m(a, w, h, ch);
                    std::vector<T> all;
                    for (uint32_t r = 0; r < h; r++) for (uint32_t c = 0; c < w; c++) all.push_back(m.predict(c, r));
                    // decoding: later samples are not known yet
                    auto b = rainman::ptr<T>(n * chans);
                    for (size_t j = 0; j < n * chans; j++) b[j] = 77;
                    hzmodels::PaethModel<T> dm(b, w, h, ch);
                    for (uint32_t r = 0; r < h; r++) for (uint32_t c = 0; c < w; c++) {
                        T got = dm.predict(c, r);
                        if (got != all[r * w + c]) mc::failf("a prediction depends on what comes later", "%u x %u, sample %u %u", w, h, c, r);
                        b[ch * n + r * w + c] = (T) (a[ch * n + r * w + c] - all[r * w + c] + got);
                    }
                }
            };
            run((uint8_t) 0);
            run((uint16_t) 0);
            run((int32_t) 0);
            run((int64_t) 0);
        }
        mc::step(total);
    }, p);
}
