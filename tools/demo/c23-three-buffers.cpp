#include <hzip_core/utils/stack.h>
#include <cstdio>
int main() {
    HZ_Stack<uint32_t> s;
    for (uint64_t i = 0; i < 300000; i++) {
        s.push(i);
        if (i % 9973 == 0 && s.size() != i + 1) { printf("FAILED: size %lu after %lu pushes\n", s.size(), i + 1); return 1; }
    }
    for (uint64_t i = 300000; i-- > 0;) { if (s.top() != i) { puts("FAILED: order"); return 1; } s.pop(); }
    if (!s.empty()) { puts("FAILED: not empty"); return 1; }
    puts("ok");
}
