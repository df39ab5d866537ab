#include "svc.h"
#include <sys/wait.h>
static std::string path;
static std::string name() { return "/" + hz_sha512(path); }
int main() {
    loguru::g_stderr_verbosity = -10;
    path = std::string(getenv("PWD")) + "/m.hz";
    sem_unlink(name().c_str());
    if (fork() == 0) {
        auto api = new hzapi::Api(1);
        api->process(1)->protect("key");
        auto port = serve(api);
        Cl c;
        if (!c.connect(port) || !c.handshake("key")) failed("no server");
        using namespace hzapi;
        uint64_t alg = 1, n = 3;
        if (!(c.byte(API_CTL_STREAM) && c.byte(STREAM_CTL_WRITE_MSTATE) && c.byte(MSTATE_CTL_ARCHIVE) && c.str(path) && c.byte(MSTATE_CTL_ADDR) && c.str("/m")
              && c.byte(MSTATE_CTL_STREAM) && c.u64(alg) && c.u64(n) && c.put("abc", 3) && c.message())) failed("the model is refused");
        api->shutdown();
        _exit(0);
    }
    int st;
    wait(&st);
    if (st) return 1;
    // in a process of its own: the archive is free again and has the model
    pid_t p = fork();
    if (p == 0) {
        alarm(10);
        HZ_Archive a(path);
        a.load();
        auto m = a.read_mstate("/m");
        _exit(m->size() == 3 && !memcmp(m->data.pointer(), "abc", 3) ? 0 : 1);
    }
    waitpid(p, &st, 0);
    sem_unlink(name().c_str());
    if (st) failed("a stored model is lost, or its archive is still locked");
    puts("ok"); fflush(stdout);
    _exit(0);
}
