#include <cstdio>
#include <algorithm>
#include <terminal.h>
int main() {
    for (uint64_t n: {0ull, 1ull, 1024ull, (1ull << 53) + 1, 12345678901234567ull, (1ull << 62) + 1})
        if (conv_to_bytes(std::to_string(n) + "b") != n) { printf("%lub is %lu bytes\n", n, conv_to_bytes(std::to_string(n) + "b")); return 1; }
    return 0;
}
