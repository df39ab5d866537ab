// C15: for every grid up to the bound, the traversal is compared with an independently computed zigzag order.
#include <hzip_core/preprocessor/zigzag.h>
#include "mc.h"
#include <vector>

const char *hzv_property = "C15";

typedef std::pair<uint32_t, uint32_t> cell;

// Standard zigzag scan: diagonals d = x + y in increasing order; from (0,0) the scan first moves right, so odd
// diagonals run downwards (x decreasing) and even ones upwards (x increasing).
static std::vector<cell> reference(uint32_t w, uint32_t h) {
    std::vector<cell> v;
    if (w == 0 || h == 0) return v;
    for (uint64_t d = 0; d + 1 < (uint64_t) w + h; d++) {
        uint64_t lo = d >= h ? d - h + 1 : 0, hi = d < w ? d : w - 1;   // range of x
        if (d & 1) for (uint64_t x = hi + 1; x-- > lo;) v.emplace_back(x, d - x);
        else for (uint64_t x = lo; x <= hi; x++) v.emplace_back(x, d - x);
    }
    return v;
}

static void check(uint32_t w, uint32_t h, bool log) {
    auto ref = reference(w, h);
    if (log) mc::logf("grid %u x %u: %zu cells", w, h, ref.size());
    auto t = hztrans::ZigZagTransformer(w, h);
    size_t i = 0;
    auto msg = [&](const char *what, uint32_t x, uint32_t y) {
        return std::string(what) + " in a grid of " + std::to_string(w) + " x " + std::to_string(h) + " at step " + std::to_string(i) + ": (" +
               std::to_string(x) + "," + std::to_string(y) + ")" + (i < ref.size() ? " expected (" + std::to_string(ref[i].first) + "," + std::to_string(ref[i].second) + ")" : "");
    };
    // range-based loop, the way the library uses it
    for (auto p: t) {
        if (i >= ref.size()) mc::fail("visits more cells than the grid has", msg("extra cell", p.x, p.y));
        if (p.x != ref[i].first || p.y != ref[i].second) mc::fail("wrong order", msg("wrong cell", p.x, p.y));
        i++;
    }
    if (i != ref.size()) mc::fail("stops early", msg("missing cells", 0, 0));
    // both increment forms advance by one cell; iterators of the same grid compare by position
    i = 0;
    auto a = t.begin(), b = t.begin(), e = t.end();
    for (; a != e; ++a, b++, i++) {
        if (i >= ref.size()) mc::fail("visits more cells than the grid has", msg("extra cell", (*a).x, (*a).y));
        if ((*a).x != ref[i].first || (*a).y != ref[i].second) mc::fail("wrong order", msg("prefix increment", (*a).x, (*a).y));
        if ((*b).x != ref[i].first || (*b).y != ref[i].second) mc::fail("wrong order", msg("postfix increment", (*b).x, (*b).y));
        if (!(a == b)) mc::fail("iterators at the same cell differ", msg("", 0, 0));
        if (a == e || b == e) mc::fail("comparison", msg("equal to end before the end", (*a).x, (*a).y));
    }
    if (i != ref.size()) mc::fail("stops early", msg("missing cells", 0, 0));
    if (!(b == e)) mc::fail("iterators at the same cell differ", "postfix traversal does not reach end()");
    mc::step(2 * ref.size());
    mc::outcome(mc::mix(w, h));
}

// the cell-level successor, also used by other code: from every cell of the grid
static void successor(uint32_t w, uint32_t h) {
    auto ref = reference(w, h);
    for (size_t i = 0; i < ref.size(); i++) {
        hztrans::ZigZagTransformer::zigzag_pair p{.x = ref[i].first, .y = ref[i].second};
        p.next(w, h);
        uint32_t ex = i + 1 < ref.size() ? ref[i + 1].first : w, ey = i + 1 < ref.size() ? ref[i + 1].second : h;
        if (p.x != ex || p.y != ey) mc::failf("wrong successor", "grid %u x %u, cell (%u,%u) -> (%u,%u), expected (%u,%u)", w, h, ref[i].first, ref[i].second, p.x, p.y, ex, ey);
        hztrans::ZigZagTransformer::zigzag_pair q{.x = ex, .y = ey};
        if (!(p == q) || p != q) mc::fail("comparison", "equal positions compare as different");
        q.x++;
        if (p == q || !(p != q)) mc::fail("comparison", "different positions compare as equal");
    }
    mc::step(ref.size());
}

void hzv_main() {
    uint32_t M = mc::thorough() ? 128 : 64;
    mc::bound("grids", "all width,height in 0.." + std::to_string(M) + "; plus all 1 x n, n x 1, 2 x n, n x 2, 3 x n, n x 3 up to n=" + (mc::thorough() ? "20000" : "4000"));
    mc::Opts o;
    o.bounds = "every width and height up to " + std::to_string(M);
    mc::enumerate("all grids", (uint64_t) (M + 1) * (M + 1), [&](uint64_t i) { check(i % (M + 1), i / (M + 1), true); }, o);
    o.bounds = "successor of every cell of every grid up to " + std::to_string(M);
    mc::enumerate("successor of every cell", (uint64_t) M * M, [&](uint64_t i) { successor(i % M + 1, i / M + 1); }, o);
    // long thin grids, every length
    uint64_t L = mc::thorough() ? 20000 : 4000;
    o.bounds = "thickness 1..3, every length up to " + std::to_string(L);
    mc::enumerate("long thin grids", L * 6, [&](uint64_t i) {
        uint32_t n = i / 6 + 1, k = i % 3 + 1;
        if ((i / 3) % 2) check(n, k, i < 12); else check(k, n, i < 12);
    }, o);
    // sizes where 8/16-bit truncation would show
    static const uint32_t big[] = {127, 128, 129, 255, 256, 257, 511, 512, 65535, 65536, 65537, 70001};
    o.bounds = "large dimensions {127..512}^2 and {65535,65536,65537,70001} x {1,2,3,8}";
    mc::enumerate("large grids", 64 + 64, [&](uint64_t i) {
        if (i < 64) check(big[i % 8], big[i / 8], false);
        else {
            i -= 64;
            static const uint32_t thin[] = {1, 2, 3, 8, 1, 2, 3, 8};
            uint32_t a = big[8 + i % 4], b = thin[(i / 4) % 4];
            if (i / 16 < 2) check(a, b, false); else check(b, a, false);
        }
    }, o);
}
