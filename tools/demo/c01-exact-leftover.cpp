#include "arc.h"
int main() {
    auto p = file();
    for (uint64_t extra = 0; extra <= 24; extra++) {
        unlink(p.c_str());
        {
            HZ_Archive a(p); a.load();
            uint64_t m = a.install_mstate(model(4, 9));
            // three parts in a row; the middle one is removed and a slightly shorter one takes its place
            auto x = a.write_blob(part(m, 40, 1)); (void) x;
            a.create_file("/keep0", part(m, 10, 3), 1);
            auto g = part(m, 60 + extra, 5);
            for (uint64_t i = 40; i < 60 + extra; i++) g->data[i] = 0xff;
            a.create_file("/gone", g, 1);
            a.create_file("/keep1", part(m, 30, 7), 1);
            a.remove_file("/gone");
            a.create_file("/in", part(m, 60, 11), 1);
            has(a, "/keep0", 10, 3); has(a, "/keep1", 30, 7); has(a, "/in", 60, 11);
            a.close();
        }
        {
            HZ_Archive a(p); a.load();
            has(a, "/keep0", 10, 3); has(a, "/keep1", 30, 7); has(a, "/in", 60, 11);
            CHECK(a.list_file_system("/").size() == 3);
            a.close();
        }
    }
    done(p);
    puts("ok");
}
