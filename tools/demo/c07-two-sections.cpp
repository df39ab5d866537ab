#include "arc.h"
#include <dlfcn.h>
#include <functional>
#include <pthread.h>
static thread_local std::function<void()> then;
// the other thread's operations come right after this thread gave up the lock for the first time
extern "C" int pthread_mutex_unlock(pthread_mutex_t *m) noexcept {
    static auto real = (int (*)(pthread_mutex_t *)) dlsym(RTLD_NEXT, "pthread_mutex_unlock");
    int r = real(m);
    if (then) { auto f = then; then = nullptr; f(); }
    return r;
}
int main() {
    auto p = file(); done(p);
    HZ_Archive a(p); a.load();
    a.install_mstate("/m", model(4, 1));
    bool failed = false;
    std::string path = "/m";
    then = [&] {
        // "/m" is what it was, then it is replaced: a reader sees the old or the new one, or, in between, that there is none
        a.uninstall_mstate("/m");
        a.install_mstate("/m", model(4, 7));
    };
    rainman::ptr<HZ_MState> r;
    try { r = a.read_mstate(path); } catch (std::exception &e) { failed = std::string(e.what()).find("Mstate not found") == std::string::npos; if (failed) printf("%s\n", e.what()); }
    then = nullptr;
    a.close(); done(p);
    if (failed) { printf("reading a model failed in a way no order of the operations explains\n"); return 1; }
    CHECK(r->size() == 4 && (r->data[0] == 1 || r->data[0] == 7));
    return 0;
}
