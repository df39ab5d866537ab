// C24: delta coding and its inverse, all short sequences over an alphabet with extremes and all lengths up to a bound.
#include <hzip_core/preprocessor/delta.h>
#include "mc.h"
#include <climits>
#include <cstring>
#include <memory>

const char *hzv_property = "C24";

static void check(const std::vector<int> &v, bool log) {
    size_t n = v.size();
    std::unique_ptr<int[]> buf(new int[n]);           // exact size: the sanitizer sees any other access
    if (n) memcpy(buf.get(), v.data(), n * sizeof(int));
    if (log) {
        std::string s;
        for (int x: v) s += std::to_string(x) + " ";
        mc::logf("data [ %s]", s.c_str());
    }
    auto show = [&](size_t i, long long got, long long want) {
        std::string s = "length " + std::to_string(n) + " data";
        for (size_t k = 0; k < n && k < 20; k++) s += " " + std::to_string(v[k]);
        return s + ": element " + std::to_string(i) + " is " + std::to_string(got) + ", expected " + std::to_string(want);
    };
    {
        hztrans::DeltaTransformer t(buf.get(), n);
        t.transform();
    }
    for (size_t i = 0; i < n; i++) {
        int want = i ? (int) ((unsigned) v[i] - (unsigned) v[i - 1]) : v[i];
        if (buf[i] != want) mc::fail("not the successive differences", show(i, buf[i], want));
    }
    {
        hztrans::DeltaTransformer t(buf.get(), n);    // a fresh transformer: the state is in the data
        t.invert();
    }
    for (size_t i = 0; i < n; i++) if (buf[i] != v[i]) mc::fail("inverse does not restore", show(i, buf[i], v[i]));
    // the same object, and the other order (invert first is the running sum)
    {
        hztrans::DeltaTransformer t(buf.get(), n);
        t.invert();
        unsigned sum = 0;
        for (size_t i = 0; i < n; i++) {
            sum += (unsigned) v[i];
            if (buf[i] != (int) sum) mc::fail("inverse is not the running sum", show(i, buf[i], (int) sum));
        }
        t.transform();
        for (size_t i = 0; i < n; i++) if (buf[i] != v[i]) mc::fail("transform does not undo invert", show(i, buf[i], v[i]));
        t.transform();
        t.transform();
        t.invert();
        t.invert();
        for (size_t i = 0; i < n; i++) if (buf[i] != v[i]) mc::fail("nested use does not restore", show(i, buf[i], v[i]));
    }
    mc::step(8 * n + 1);
    mc::outcome(mc::hash_bytes(v.data(), n * 4, n));
}

void hzv_main() {
    static const int A[] = {0, 1, -1, 5, INT_MAX, INT_MIN, INT_MAX - 1, 1 << 16};
    const int K = 8;
    int L = mc::thorough() ? 7 : 6;
    mc::assume("signed overflow in the transform wraps, as compiled by clang for /repo's build");
    for (int len = 0; len <= L; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= K;
        mc::Opts o;
        o.bounds = "all sequences of this length over {0,1,-1,5,INT_MAX,INT_MIN,INT_MAX-1,65536}";
        mc::enumerate("length " + std::to_string(len), n, [&](uint64_t i) {
            std::vector<int> v(len);
            uint64_t x = i;
            for (auto &e: v) { e = A[x % K]; x /= K; }
            check(v, true);
        }, o);
    }
    uint64_t M = mc::thorough() ? 9000 : 2500;
    mc::Opts o;
    o.bounds = "every length up to " + std::to_string(M) + " x 4 contents (constant, alternating extremes, ramp, mixed)";
    mc::enumerate("every length", (M + 1) * 4, [&](uint64_t i) {
        std::vector<int> v(i / 4);
        uint32_t z = 12345;
        for (size_t k = 0; k < v.size(); k++) {
            z = z * 1664525 + 1013904223;
            v[k] = i % 4 == 0 ? 7 : i % 4 == 1 ? (k & 1 ? INT_MIN : INT_MAX) : i % 4 == 2 ? (int) (k * 3) : (int) z;
        }
        check(v, false);
    }, o);
    static const uint64_t big[] = {65535, 65536, 65537, 131071, 131072, 131073, 1000003};
    o.bounds = "lengths around 2^16 and 2^17, and 1000003";
    mc::enumerate("large lengths", 7, [&](uint64_t i) {
        std::vector<int> v(big[i]);
        uint32_t z = 99;
        for (auto &e: v) { z = z * 1664525 + 1013904223; e = (int) z; }
        check(v, false);
    }, o);
}
