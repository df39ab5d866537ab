#include <cstdint>
#include <cstdio>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/models/paeth.h>
int main() {
    hzruntime::Config::opencl_support_enabled = false;
    for (int w = 1; w < 5; w++) for (int h = 1; h < 5; h++) {
        auto a = rainman::ptr<uint16_t>(w * h), b = rainman::ptr<uint16_t>(w * h);
        for (int i = 0; i < w * h; i++) a[i] = b[i] = (i * 37 + 100 * (i % 3)) & 255;
        auto x = hzmodels::LinearU16PaethDifferential::filter(a, w, h, 1, false, 8);
        auto y = hzmodels::LinearU16PaethDifferential::filter(b, w, h, 1, true, 8);
        for (int i = 0; i < w * h; i++) if (x[i] != y[i]) { printf("%d x %d: residual %d is %d on a copy and %d in place\n", w, h, i, x[i], y[i]); return 1; }
    }
    return 0;
}
