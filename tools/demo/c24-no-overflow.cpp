#include <hzip_core/preprocessor/delta.h>
#include <cstdio>
#include <climits>
int main() {
    int v[] = {0, 1, -1, INT_MAX, INT_MIN, INT_MAX - 1, INT_MIN + 1};
    for (int a: v) for (int b: v) for (int c: v) {
        int d[3] = {a, b, c};
        hztrans::DeltaTransformer t(d, 3);
        t.transform();
        if (d[1] != (int) ((unsigned) b - (unsigned) a)) { printf("difference of %d and %d: %d\n", b, a, d[1]); return 1; }
        t.invert();
        if (d[0] != a || d[1] != b || d[2] != c) { printf("%d %d %d is not restored\n", a, b, c); return 1; }
    }
    return 0;
}
