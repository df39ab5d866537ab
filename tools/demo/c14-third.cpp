#include <hzip_core/preprocessor/burrows_wheeler.h>
#include <hzip_core/preprocessor/move_to_front.h>
#include <cstdio>
#include <string>
int main() {
    for (int n = 0; n <= 14; n++)
        for (uint32_t w = 0; w < (1u << n); w++) {
            auto d = rainman::ptr<int16_t>(n);
            for (int i = 0; i < n; i++) d[i] = (w >> i) & 1;
            auto b = hztrans::BurrowsWheelerTransformer<int16_t, int32_t>(d, 0x100);
            auto idx = b.transform();
            auto c = hztrans::BurrowsWheelerTransformer<int16_t, int32_t>(d, 0x100);
            c.invert(idx);
            for (int i = 0; i < n; i++) if (d[i] != (int16_t) ((w >> i) & 1)) { printf("FAILED: sequence %x of length %d\n", w, n); return 1; }
        }
    puts("ok");
}
