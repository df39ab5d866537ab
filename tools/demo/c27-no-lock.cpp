#include <hzip_core/runtime/cache_provider.h>
#include <cstdio>
#include <dlfcn.h>
#include <atomic>
#include <thread>
#include <pthread.h>
#include <unistd.h>
// the first request is held inside its critical section; the second one must wait for it
static std::atomic<int> inside{0}, second_done{0}, armed{0};
static int hold(int r) {
    if (r == 0 && armed.exchange(0)) { inside = 1; for (int i = 0; i < 500 && !second_done; i++) usleep(1000); }
    return r;
}
extern "C" int pthread_mutex_lock(pthread_mutex_t *m) noexcept {
    static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_lock");
    return hold(real(m));
}
extern "C" int pthread_mutex_trylock(pthread_mutex_t *m) noexcept {
    static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_trylock");
    return hold(real(m));
}
int main() {
    hzruntime::CacheProvider::init_cache("cache", 4, 1 << 12);
    armed = 1;
    bool overtaken = false;
    void *first = nullptr, *second = nullptr;
    std::thread a([&] { auto x = hzruntime::CacheProvider::get_cache(); first = &x.second; overtaken = second_done; });
    while (!inside) usleep(100);
    std::thread b([&] { auto x = hzruntime::CacheProvider::get_cache(); second = &x.second; second_done = 1; });
    a.join(); b.join();
    if (overtaken) { printf("two requests were within the rotation at once%s\n", first == second ? " and got the same slot" : ""); return 1; }
    return 0;
}
