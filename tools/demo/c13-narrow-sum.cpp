#include <hzip_core/kernel/hzrans/hzrans64.h>
#include <cstdio>
#include <cstdlib>
#include <unistd.h>
int main() {
    alarm(20);
    for (uint64_t big: {1ull << 20, 1ull << 31, 1ull << 32, 3ull << 32}) for (int scale: {12, 16, 24}) {
        hzrans64_t s; hzrans64_codec_init(&s, 4, scale);
        uint64_t f[4] = {big, 1, big / 2, 0}, sum = 0;
        hzrans64_create_ftable_nf(&s, f);
        for (int i = 0; i < 4; i++) { if (!s.ftable[i]) { printf("a zero entry\n"); return 1; } sum += s.ftable[i]; }
        if (sum != 1ull << scale) { printf("the table sums to %lu, not 2^%d\n", sum, scale); return 1; }
        if (s.ftable[0] < s.ftable[2]) { printf("the more frequent symbol gets less\n"); return 1; }
    }
    return 0;
}
