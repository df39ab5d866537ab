#include "arc.h"
#include <atomic>
#include <dlfcn.h>
#include <thread>
#include <unistd.h>
static std::atomic<int> loaded{0}, slow{0};
// after the release of the archive's lock, the closing thread pauses until the next opener is done (or for a second)
extern "C" int sem_post(sem_t *s) noexcept {
    static auto real = (int (*)(sem_t *)) dlsym(RTLD_NEXT, "sem_post");
    int r = real(s);
    if (slow.exchange(0)) for (int i = 0; i < 1000 && !loaded; i++) usleep(1000);
    return r;
}
int main() {
    auto p = file(); done(p);
    HZ_Archive a(p); a.load();
    auto id = a.install_mstate(model(4, 1));
    for (auto f: {"/x", "/y", "/d/e/f"}) a.create_file(f, part(id, 3, 9), 1);
    int bad = 0;
    std::thread t([&] {
        try {
            HZ_Archive b(p); b.load();
            for (auto f: {"/x", "/y", "/d/e/f"}) if (!b.check_file_exists(f)) bad = 1;
            loaded = 1;
            if (!bad) b.close();
        } catch (...) { bad = 2; loaded = 1; }
    });
    usleep(100000);
    slow = 1;
    a.close();
    t.join();
    done(p);
    if (bad) { printf("the next opener does not find what was stored before (%d)\n", bad); _exit(1); }
    return 0;
}
