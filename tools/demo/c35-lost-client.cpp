#include "svc.h"
int main() {
    loguru::g_stderr_verbosity = -10;
    auto api = new hzapi::Api(1);
    api->process(1)->protect("key");
    auto port = serve(api);
    Cl a, b;
    uint64_t x;
    if (!a.connect(port) || !a.challenge(x)) failed("no server");
    a.close();
    if (!b.connect(port) || !b.handshake("key") || !b.health()) failed("the only slot is never free again");
    puts("ok"); fflush(stdout);
    _exit(0);
}
