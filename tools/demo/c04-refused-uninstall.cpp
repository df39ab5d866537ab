#include "arc.h"
int main() {
    auto p = file(); unlink(p.c_str());
    HZ_Archive a(p); a.load();
    a.install_mstate("/m", model(20, 50));
    auto b = part(0, 10, 1);
    a.inject_mstate("/m", b);
    a.create_file("/f", b, 1);
    CHECK(throws([&] { a.uninstall_mstate("/m"); }));      // in use
    CHECK(a.check_mstate_exists("/m"));
    a.remove_file("/f");                                    // last user
    CHECK(a.check_mstate_exists("/m"));                     // still installed
    auto m = a.read_mstate("/m");
    CHECK(m->size() == 20); CHECK(m->data[0] == 50);
    a.uninstall_mstate("/m");
    CHECK(!a.check_mstate_exists("/m"));
    a.close(); done(p);
    puts("ok");
}
