#include "arc.h"
int main() {
    auto p = file(); done(p);
    uint64_t id;
    {
        HZ_Archive a(p); a.load();
        a.install_mstate("/m", model(4, 1));
        auto b = part(0, 3, 9);
        a.inject_mstate("/m", b); id = b->mstate_id;
        a.create_file("/f", b, 1);
        CHECK(throws([&] { a.uninstall_mstate(id); }));
        CHECK(throws([&] { a.uninstall_mstate("/m"); }));
        has(a, "/f", 3, 9);
        a.close();
    }
    {
        HZ_Archive a(p); a.load();
        if (throws([&] { has(a, "/f", 3, 9); a.read_mstate("/m"); })) { printf("the model is gone after a refused uninstall and a reopening\n"); return 1; }
        a.close();
    }
    done(p);
    return 0;
}
