#include <cstdint>
#include <cstdio>
#include <string>
#include <algorithm>
#include "png_common.h"
#include <hzip_core/preprocessor/png_bundle.h>
int main() {
    loguru::g_stderr_verbosity = -10;
    for (auto k : pngw::kinds()) for (int w = 1; w < 4; w++) for (int h = 1; h < 4; h++) {
        auto m = pngw::image(w, h, k, 0);
        auto f = pngw::write(m);
        auto p = rainman::ptr<uint8_t>(f.size());
        for (size_t i = 0; i < f.size(); i++) p[i] = f[i];
        auto b = PNGBundleBuilder(p).read_bundle();
        for (size_t i = 0; i < m.s.size(); i++) if (b.buf[i] != m.s[i]) { printf("type %d depth %d, %d x %d: sample %d is wrong\n", k.type, k.depth, w, h, (int) i); return 1; }
    }
    return 0;
}
