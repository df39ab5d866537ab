#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <hzip_core/preprocessor/jpeg_codec.h>
#include "jpeg_common.h"
int main() {
    for (int v : {1, 16, 255, 256, 1000, 65535}) {
        jw::Jpeg m; m.w = 17; m.h = 9;
        m.c.push_back({1, 2, 1, 0}); m.c.push_back({2, 1, 1, 0}); m.c.push_back({3, 1, 1, 0});
        m.shape();
        m.has[0] = true; for (int k = 0; k < 64; k++) m.q[0][k] = k ? k : v;
        for (auto &c : m.c) for (auto &b : c.b) b[0] = 5, b[9] = -3;
        auto f = jw::write(m, {});
        hzj_iface a(f.data(), f.size());
        auto image = a.read();
        char *p = nullptr; size_t n = 0;
        FILE *o = open_memstream(&p, &n);
        hzj_iface(f.data(), f.size()).write(image, o);
        fclose(o);
        hzj_iface b((uint8_t *) p, n);
        auto again = b.read();
        if (again.header.qtables[0].cof[0] != v || image.header.qtables[0].cof[0] != v) { printf("a table entry of %d becomes %d\n", v, again.header.qtables[0].cof[0]); return 1; }
        for (int c = 0; c < 3; c++) for (size_t i = 0; i < m.c[c].b.size(); i++) for (int k = 0; k < 64; k++)
            if (again.mcus.coeff_arrays[c].at(i)[k / 8][k % 8] != m.c[c].b[i][k]) { printf("a coefficient changes\n"); return 1; }
    }
    return 0;
}
