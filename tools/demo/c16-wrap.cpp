#include <cstdint>
#include <cstdio>
#include <hzip_core/preprocessor/color.h>
int main() {
    hzruntime::Config::opencl_support_enabled = false;
    for (int depth : {1, 2, 3, 4, 5}) {
        uint64_t m = (1ull << depth) - 1, n = (m + 1) * (m + 1) * (m + 1);
        auto p = rainman::ptr<uint16_t>(3 * n);
        for (uint64_t i = 0; i < n; i++) { p[i] = i & m; p[i + n] = i >> depth & m; p[i + 2 * n] = i >> (2 * depth); }
        hztrans::LinearU16XColorTransformer t(n, 1, depth);
        auto back = t.ycocg_to_rgb(t.rgb_to_ycocg(p, false), false);
        for (uint64_t i = 0; i < 3 * n; i++) if (back[i] != p[i]) { printf("depth %d: sample %d of pixel %d is %d, not %d\n", depth, (int) (i / n), (int) (i % n), back[i], p[i]); return 1; }
    }
    return 0;
}
