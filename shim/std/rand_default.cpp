#include <cstdint>
// Default source: a fixed sequence of distinct values. A harness may set hzv_rand_hook.
uint64_t (*hzv_rand_hook)() = nullptr;
uint64_t hzv_rand_state = 0;
extern "C" uint64_t hzv_rand64() {
    if (hzv_rand_hook) return hzv_rand_hook();
    uint64_t z = (hzv_rand_state += 0x9e3779b97f4a7c15ull);
    z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
    z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
    return z ^ (z >> 31);
}

static unsigned issued = 0;
extern "C" unsigned int hzv_rand_device() { return 0xa5000000u + (++issued & 0xffffff); }
extern "C" int hzv_rand_issued(uint64_t v) { return v > 0xa5000000u && v <= 0xa5ffffffu; }
