// C16: colour transforms, all pixels of small depths, boundary values of the others, all small image sizes.
#include <cstdint>
#include <set>
#include <string>
#include <vector>
#include <hzip_core/preprocessor/color.h>
#include "mc.h"

const char *hzv_property = "C16";
using hztrans::LinearU16XColorTransformer;
typedef std::vector<uint16_t> V;

static rainman::ptr<uint16_t> ptr(const V &v) {
    auto p = rainman::ptr<uint16_t>(v.size());
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}

static std::string px(const V &v, size_t i, size_t n) { return "(" + std::to_string(v[i]) + " " + std::to_string(v[i + n]) + " " + std::to_string(v[i + 2 * n]) + ")"; }

// One image of w x h pixels with 3 or more planes, there and back.
static void there_and_back(const V &v, uint64_t w, uint64_t h, uint8_t depth, bool inplace) {
    uint64_t n = w * h;
    LinearU16XColorTransformer t(w, h, depth);
    auto in = ptr(v);
    auto coded = t.rgb_to_ycocg(in, inplace);
    if (coded.size() < v.size()) mc::failf("the transformed image is smaller", "%lu x %lu", (unsigned long) w, (unsigned long) h);
    if (inplace && n && coded.pointer() != in.pointer()) mc::fail("the transform does not work in place");
    for (uint64_t i = 0; !inplace && i < v.size(); i++) if (in[i] != v[i]) mc::failf("the transform changes its input", "pixel %s of %lu x %lu", px(v, i % n, n).c_str(), (unsigned long) w, (unsigned long) h);
    uint64_t lim = 1ull << depth, hash = depth;
    for (uint64_t i = 0; i < 3 * n; i++) {
        if (coded[i] >= lim) mc::failf("a coded value is out of range", "pixel %s depth %d: %u in plane %lu", px(v, i % n, n).c_str(), depth, coded[i], (unsigned long) (i / n));
        hash = hash * 31 + coded[i];
    }
    for (uint64_t i = 3 * n; i < v.size(); i++) if (coded[i] != v[i]) mc::fail("another plane is changed");
    V before(coded.pointer(), coded.pointer() + v.size());
    auto back = t.ycocg_to_rgb(coded, inplace);
    for (uint64_t i = 0; !inplace && i < v.size(); i++) if (coded[i] != before[i]) mc::fail("the inverse changes its input");
    for (uint64_t i = 0; i < v.size(); i++)
        if (back[i] != v[i]) {
            if (i >= 3 * n) mc::fail("another plane is changed");
            mc::failf("a pixel is not restored", "%s depth %d, plane %lu: %u (%lu x %lu)", px(v, i % n, n).c_str(), depth, (unsigned long) (i / n), back[i], (unsigned long) w, (unsigned long) h);
        }
    mc::step(n);
    mc::state(hash);
}

static V boundary(int depth) {
    std::set<uint32_t> s;
    uint32_t m = (1u << depth) - 1;
    for (int k = 0; k <= depth; k++) for (int d = -2; d <= 2; d++) { int64_t x = (1ll << k) + d; if (x >= 0 && x <= m) s.insert(x); }
    for (int d = 0; d < 4; d++) { s.insert(std::min<uint32_t>(d, m)); s.insert(m - std::min<uint32_t>(d, m)); s.insert(std::min<uint32_t>(m, m / 3 + d)); }
    return V(s.begin(), s.end());
}

// The pixel by pixel transform
template<typename T>
static void pixels(const char *name, T r, T g, T b) {
    using namespace hztrans;
    RGBColorTransformer<T> f(RGB_TO_YCOCG), i(YCOCG_TO_RGB), f2(YCOCG), i2(YCOCG, true);
    auto c = f.transform(ColorTransformPixel<T>{r, g, b});
    auto c2 = f2.transform(ColorTransformPixel<T>{r, g, b});
    if (c.x != c2.x || c.y != c2.y || c.z != c2.z) mc::failf("the two names of a transform differ", "%s", name);
    auto d = i.transform(c), d2 = i2.transform(c);
    if (d.x != r || d.y != g || d.z != b || d2.x != r || d2.y != g || d2.z != b)
        mc::failf("a pixel is not restored", "RGBColorTransformer<%s> (%ld %ld %ld): (%ld %ld %ld)", name, (long) r, (long) g, (long) b, (long) d.x, (long) d.y, (long) d.z);
}

void hzv_main() {
    bool th = mc::thorough();
    // depth 8: all of them, the image has one red value
    for (int depth: th ? std::vector<int>{8, 9, 10} : std::vector<int>{8, 9}) {
        uint64_t side = 1ull << depth;
        mc::Opts o;
        o.bounds = "all pixels of depth " + std::to_string(depth);
        mc::enumerate("all pixels, depth " + std::to_string(depth), side, [=](uint64_t r) {
            V v(3 * side * side);
            for (uint64_t g = 0; g < side; g++) for (uint64_t b = 0; b < side; b++) {
                uint64_t i = g * side + b;
                v[i] = r; v[i + side * side] = g; v[i + 2 * side * side] = b;
            }
            there_and_back(v, side, side, depth, r & 1);
            if (depth == 8) there_and_back(v, side, side, depth, !(r & 1));
        }, o);
    }
    mc::Opts s;
    s.bounds = "all pixels of depths 1 to 7";
    mc::enumerate("small depths", 7, [](uint64_t x) {
        int depth = x + 1;
        uint64_t n = 1ull << (3 * depth);
        V v(3 * n);
        for (uint64_t i = 0; i < n; i++) { v[i] = i >> 2 * depth; v[i + n] = i >> depth & ((1 << depth) - 1); v[i + 2 * n] = i & ((1 << depth) - 1); }
        for (int inplace = 0; inplace < 2; inplace++) there_and_back(v, n, 1, depth, inplace);
    }, s);
    // deeper: all values of one channel, boundary values of the others
    mc::Opts d;
    d.bounds = "depths 10 to 16: all values of each channel against all boundary values of the others";
    mc::enumerate("deep samples", 7 * 3 * 128, [](uint64_t x) {
        int depth = 10 + x % 7;
        int channel = x / 7 % 3;
        V b = boundary(depth);
        uint64_t k = x / 21;
        if (k >= b.size()) { mc::vacuous(); return; }
        uint64_t n = (1ull << depth) * b.size();
        V v(3 * n);
        for (uint64_t i = 0; i < n; i++) {
            uint16_t vals[3] = {(uint16_t) (i % (1ull << depth)), b[k], b[i >> depth]};
            for (int c = 0; c < 3; c++) v[i + c * n] = vals[(c + 3 - channel) % 3];
        }
        there_and_back(v, 1ull << depth, b.size(), depth, k & 1);
    }, d);
    // sizes
    unsigned side = th ? 24 : 12;
    mc::Opts z;
    z.bounds = "all images up to " + std::to_string(side) + " x " + std::to_string(side) + ", 3 or 4 planes, all depths";
    mc::enumerate("sizes", (side + 1) * (side + 1) * 16, [=](uint64_t x) {
        unsigned w = x % (side + 1), h = x / (side + 1) % (side + 1), depth = x / ((side + 1) * (side + 1)) + 1;
        uint32_t m = (1u << depth) - 1;
        for (unsigned planes = 3; planes <= 4; planes++) for (int inplace = 0; inplace < 2; inplace++) for (unsigned pat = 0; pat < 4; pat++) {
            V v(planes * w * h);
            for (size_t i = 0; i < v.size(); i++) v[i] = (pat == 0 ? i * 2654435761u >> 9 : pat == 1 ? i : pat == 2 ? -i * 7 : (i & 1 ? m : 0)) & m;
            there_and_back(v, w, h, depth, inplace);
        }
    }, z);
    mc::Opts p;
    p.bounds = "all 8 bit pixels as 8, 16, 32 and 64 bit numbers; 16 bit boundary values";
    mc::enumerate("single pixels", 256, [](uint64_t r) {
        for (int g = 0; g < 256; g++) for (int b = 0; b < 256; b++) {
            pixels<uint8_t>("uint8_t", r, g, b);
            pixels<int8_t>("int8_t", r, g, b);
            pixels<uint16_t>("uint16_t", r, g, b);
            pixels<int16_t>("int16_t", r, g, b);
            pixels<int32_t>("int32_t", r, g, b);
            pixels<uint64_t>("uint64_t", r, g, b);
        }
        mc::step(65536);
    }, p);
    mc::enumerate("single deep pixels", 1, [](uint64_t) {
        V b = boundary(16);
        for (auto x: b) for (auto y: b) for (auto z: b) { pixels<uint16_t>("uint16_t", x, y, z); pixels<int16_t>("int16_t", x, y, z); pixels<int32_t>("int32_t", x, y, z); pixels<int64_t>("int64_t", x, y, z); }
        // others are refused
        using namespace hztrans;
        for (auto t: {RGB_TO_YCBCR, YCBCR_TO_RGB}) {
            bool refused = false;
            try { RGBColorTransformer<int>(t).transform(ColorTransformPixel<int>{1, 2, 3}); } catch (std::exception &) { refused = true; }
            if (!refused) mc::fail("an unknown transform is not refused");
        }
    });
}
