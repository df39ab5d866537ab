#include <cstdint>
#include <cstdio>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_codec/sharingan/state_transition.h>
int main() {
    hzruntime::Config::opencl_support_enabled = false;
    hzruntime::CacheProvider::init_cache("cache", 1, 1 << 16);
    // every sample must have a transition of its own: with a narrow frequency, at a place of the 2^24 of the model
    for (int h = 1; h <= 6; h++) for (int w = 1; w <= 3; w++) {
        auto p = rainman::ptr<uint16_t>(w * h);
        for (int i = 0; i < w * h; i++) p[i] = 1 + i * 3;
        PNGBundle b(p, 1);
        b.ihdr.width = w; b.ihdr.height = h; b.ihdr.bit_depth = 16;
        SharinganStateTransition t(b, 2, 3, 3, 32);
        auto a = t.dynamic_precode().first;
        for (uint64_t i = 0; i < a.size(); i++) {
            auto x = a.get(i);
            if (!x.ls || (uint64_t) x.bs + x.ls > 1 << 24) { printf("%d x %d: transition %d of %d is not set\n", w, h, (int) i, (int) a.size()); return 1; }
        }
    }
    return 0;
}
