// C14: Burrows-Wheeler and move-to-front transforms with their inverses, all short sequences over several alphabets, all
// lengths up to a bound for a set of content families.
#include <hzip_core/preprocessor/burrows_wheeler.h>
#include <hzip_core/preprocessor/move_to_front.h>
#include "mc.h"
#include <numeric>

const char *hzv_property = "C14";

typedef std::vector<int> Seq;
template<class T> static rainman::ptr<T> to_ptr(const Seq &s) {
    auto p = rainman::ptr<T>(s.size());
    for (size_t i = 0; i < s.size(); i++) p[i] = (T) s[i];
    return p;
}
template<class T> static Seq from_ptr(const rainman::ptr<T> &p) {
    Seq s;
    for (uint64_t i = 0; i < p.size(); i++) s.push_back(p[i]);
    return s;
}
static std::string show(const Seq &s) {
    std::string r = "length " + std::to_string(s.size()) + " [";
    for (size_t i = 0; i < s.size() && i < 40; i++) r += " " + std::to_string(s[i]);
    return r + (s.size() > 40 ? " ... ]" : " ]");
}

template<class T, class M> static void bwt(const Seq &s, uint64_t K, bool count) {
    auto p = to_ptr<T>(s);
    uint64_t index;
    {
        hztrans::BurrowsWheelerTransformer<T, M> t(p, K);
        index = t.transform();
    }
    if (p.size() != s.size()) mc::fail("burrows-wheeler changes the length", show(s));
    Seq mid = from_ptr(p);
    if (index > s.size()) mc::fail("burrows-wheeler index out of range", show(s) + ": " + std::to_string(index));
    if (count) mc::outcome(mc::hash_bytes(mid.data(), mid.size() * sizeof(int), index));
    for (int x: mid) if (x < 0 || (uint64_t) x >= K) mc::fail("burrows-wheeler leaves the alphabet", show(s) + " -> " + show(mid));
    {
        hztrans::BurrowsWheelerTransformer<T, M> t(p, K);
        t.invert(index);
    }
    if (from_ptr(p) != s) mc::fail("burrows-wheeler inverse does not restore", show(s) + " -> " + show(mid) + " index " + std::to_string(index) + " -> " + show(from_ptr(p)));
}
template<class T> static void mtf(const Seq &s, int K) {
    auto p = to_ptr<T>(s);
    hztrans::MoveToFrontTransformer<T> same(p, K);
    same.transform();
    Seq mid = from_ptr(p);
    for (int x: mid) if (x < 0 || x >= K) mc::fail("move-to-front leaves the alphabet", show(s) + " -> " + show(mid));
    {
        hztrans::MoveToFrontTransformer<T> t(p, K);    // the other side has only the data
        t.invert();
    }
    if (from_ptr(p) != s) mc::fail("move-to-front inverse does not restore", show(s) + " -> " + show(mid) + " -> " + show(from_ptr(p)));
    same.transform();                                  // and the object can be used again
    if (from_ptr(p) != mid) mc::fail("a second use of the transformer differs", show(s));
    same.invert();
    if (from_ptr(p) != s) mc::fail("a second use of the transformer differs", show(s));
}
// as the codec uses them, one after the other
static void both(const Seq &s) {
    auto p = to_ptr<int16_t>(s);
    uint64_t index;
    {
        hztrans::BurrowsWheelerTransformer<int16_t, int32_t> b(p, 0x100);
        index = b.transform();
        hztrans::MoveToFrontTransformer m(p, 0x100);
        m.transform();
    }
    hztrans::MoveToFrontTransformer m(p, 0x100);
    m.invert();
    hztrans::BurrowsWheelerTransformer<int16_t, int32_t> b(p, 0x100);
    b.invert(index);
    if (from_ptr(p) != s) mc::fail("transforms in sequence do not restore", show(s));
}

static Seq word(uint64_t i, const Seq &alpha, int &len) {      // i-th word in length order
    uint64_t k = alpha.size(), c = 1;
    len = 0;
    while (i >= c) { i -= c; c *= k; len++; }
    Seq s(len);
    for (int j = len - 1; j >= 0; j--) { s[j] = alpha[i % k]; i /= k; }
    return s;
}
static uint64_t words(uint64_t k, int len) {
    uint64_t t = 0, c = 1;
    for (int i = 0; i <= len; i++, c *= k) t += c;
    return t;
}

void hzv_main() {
    bool th = mc::thorough();
    struct A { const char *n; Seq a; int len; };
    std::vector<A> as = {
        {"{0}", {0}, 40}, {"{0,255}", {0, 255}, th ? 17 : 14}, {"{97,98}", {97, 98}, th ? 16 : 12},
        {"{0,1,255}", {0, 1, 255}, th ? 10 : 8}, {"{0,1,2,254,255}", {0, 1, 2, 254, 255}, th ? 7 : 6},
    };
    for (auto &a: as) {
        mc::Opts o;
        o.bounds = std::string("all sequences over ") + a.n + " up to length " + std::to_string(a.len);
        mc::enumerate(std::string("words-") + a.n, words(a.a.size(), a.len), [&](uint64_t i) {
            int len;
            Seq s = word(i, a.a, len);
            mc::logf("%s", show(s).c_str());
            bwt<int16_t, int32_t>(s, 0x100, true);
            mtf<int16_t>(s, 0x100);
            both(s);
            mc::step(s.size() + 1);
        }, o);
    }
    // alphabets smaller than 256: the declared size is the whole story
    for (int K: {1, 2, 3, 4}) {
        int len = K == 1 ? 30 : K == 2 ? (th ? 15 : 12) : K == 3 ? (th ? 9 : 7) : (th ? 8 : 6);
        Seq al(K);
        std::iota(al.begin(), al.end(), 0);
        mc::Opts o;
        o.bounds = "declared alphabet " + std::to_string(K) + ", all sequences up to length " + std::to_string(len) + ", 16/32/64-bit elements";
        mc::enumerate("alphabet-" + std::to_string(K), words(K, len), [&](uint64_t i) {
            int l;
            Seq s = word(i, al, l);
            mc::logf("%s", show(s).c_str());
            bwt<int16_t, int32_t>(s, K, true);
            bwt<int32_t, int32_t>(s, K, false);
            bwt<int64_t, int64_t>(s, K, false);
            mtf<int16_t>(s, K);
            mtf<int32_t>(s, K);
            mtf<uint8_t>(s, K);
            mc::step(6 * s.size() + 1);
        }, o);
    }
    // every pair and triple of byte values in the positions that matter
    {
        mc::Opts o;
        o.bounds = "all byte pairs x y in the words x, xy, xyx, xxy, xyy, xyxyx";
        mc::enumerate("byte-pairs", 65536, [&](uint64_t i) {
            int x = i >> 8, y = i & 255;
            for (const Seq &s: {Seq{x}, Seq{x, y}, Seq{x, y, x}, Seq{x, x, y}, Seq{x, y, y}, Seq{x, y, x, y, x}}) {
                bwt<int16_t, int32_t>(s, 0x100, false);
                mtf<int16_t>(s, 0x100);
            }
            mc::step(6);
        }, o);
    }
    // every length for constant, periodic, almost periodic and staircase contents
    {
        int maxlen = th ? 1500 : 400;
        int kinds = 14;
        mc::Opts o;
        o.bounds = "every length up to " + std::to_string(maxlen) + " of 14 content families (constant, periods 2-7, one symbol changed at each end/middle, staircases up and down, Fibonacci, Thue-Morse, de Bruijn-like)";
        mc::enumerate("lengths", (uint64_t) (maxlen + 1) * kinds, [&](uint64_t i) {
            int n = i / kinds, k = i % kinds;
            Seq s(n);
            for (int j = 0; j < n; j++) switch (k) {
                case 0: s[j] = 255; break;
                case 1: case 2: case 3: case 4: case 5: case 6: s[j] = (j % (k + 1)) * 40; break;
                case 7: s[j] = j == n - 1 ? 1 : 0; break;
                case 8: s[j] = j == 0 ? 0 : 255; break;
                case 9: s[j] = j == n / 2 ? 7 : 9; break;
                case 10: s[j] = j & 255; break;
                case 11: s[j] = 255 - (j & 255); break;
                case 12: { long f = (long) ((j + 2) * 0.6180339887498949) - (long) ((j + 1) * 0.6180339887498949); s[j] = f; break; }
                default: s[j] = __builtin_popcount(j) & 1 ? 255 : 0;
            }
            mc::logf("%s", show(s).c_str());
            bwt<int16_t, int32_t>(s, 0x100, n <= 100);
            mtf<int16_t>(s, 0x100);
            both(s);
            mc::step(n);
        }, o);
    }
    // large inputs around the codec's block limits: one of each family
    {
        Seq sizes = th ? Seq{65535, 65536, 65537, 200000, 1 << 20, (1 << 22)} : Seq{65535, 65536, 65537, 200000};
        mc::Opts o;
        o.hang_s = 600;
        o.bounds = "4 content families at " + std::to_string(sizes.size()) + " large lengths up to " + std::to_string(sizes.back());
        mc::enumerate("large", sizes.size() * 4, [&](uint64_t i) {
            int n = sizes[i / 4], k = i % 4;
            Seq s(n);
            uint32_t r = 12345;
            for (int j = 0; j < n; j++) {
                r = r * 1664525 + 1013904223;
                s[j] = k == 0 ? 0 : k == 1 ? j & 255 : k == 2 ? (r >> 24) : (int) (j % 1000 == 0);
            }
            mc::logf("family %d %s", k, show(s).c_str());
            both(s);
            mc::step(n);
        }, o);
    }
}
