#include <hzip_core/utils/utils.h>
#include <cstdio>
#include <cstdlib>
int main() {
    for (int n = 1; n <= 64; n++)
        for (int k = 1; k <= 3; k++) {
            std::vector<bin_t> v;
            for (int i = 0; i < k; i++) v.push_back(bin_t{.obj = (uint64_t) 1 + 0, .n = (HZ_UINT) n});
            try {
                auto raw = hz_vecbin_to_raw(v);
                auto s = bitio::stream(raw.pointer(), raw.size());
                for (int i = 0; i < k; i++) if (s.read(n) != 1) { printf("FAILED: %d values of %d bits\n", k, n); return 1; }
            } catch (std::exception &e) { printf("FAILED: %d values of %d bits: %s\n", k, n, e.what()); return 1; }
        }
    puts("ok");
}
