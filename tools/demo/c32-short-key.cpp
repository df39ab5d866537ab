#include "svc.h"
int main() {
    loguru::g_stderr_verbosity = -10;
    auto api = new hzapi::Api(2);
    api->process(1)->protect("key");
    auto port = serve(api);
    Cl a, b;
    if (!a.connect(port)) failed("no server");
    if (a.handshake("key", 1ull << 40)) failed("a wrong answer is accepted");
    if (!b.connect(port) || !b.handshake("key") || !b.health()) failed("the right answer is refused");
    puts("ok"); fflush(stdout);
    _exit(0);
}
