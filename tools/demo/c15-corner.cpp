#include <hzip_core/preprocessor/zigzag.h>
#include <cstdio>
#include <vector>
int main() {
    for (uint32_t w = 1; w <= 12; w++) for (uint32_t h = 1; h <= 12; h++) {
        hztrans::ZigZagTransformer z(w, h);
        std::vector<int> seen(w * h); uint64_t n = 0;
        uint32_t lx = 0, ly = 0;
        for (auto it = z.begin(); it != z.end() && n <= w * h; it++, n++) {
            if (it.x >= w || it.y >= h || seen[it.y * w + it.x]++) { printf("FAILED: %ux%u\n", w, h); return 1; }
            lx = it.x; ly = it.y;
        }
        if (n != w * h || lx != w - 1 || ly != h - 1) { printf("FAILED: %ux%u visits %lu cells\n", w, h, n); return 1; }
    }
    puts("ok");
}
