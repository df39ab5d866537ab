#include "arc.h"
int main() {
    auto p = file(); done(p);
    {
        HZ_Archive a(p); a.load();
        auto id = a.install_mstate(model(4, 1));
        for (auto f: {"/x", "/y", "/d/e/f"}) a.create_file(f, part(id, 3, 9), 1);
        a.remove_file("/d/e/f");
        for (auto &e: a.list_file_system("/")) if (e.entry == "d") { printf("the directory d is listed after its only file was removed\n"); return 1; }
                a.create_file("/d", part(id, 3, 9), 1);
        has(a, "/d", 3, 9); has(a, "/x", 3, 9); has(a, "/y", 3, 9);
        a.close();
    }
    done(p);
    return 0;
}
