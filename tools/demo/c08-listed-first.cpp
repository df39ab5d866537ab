#include "arc.h"
#include <hzip_network/api/providers/archive_provider.h>
#include <fstream>
#include <unistd.h>
int main() {
    auto p = file(); done(p);
    std::ofstream(p) << "\x01";
    hzapi::ArchiveProvider prov;
    CHECK(throws([&] { prov.provide(p); }));
    unlink(p.c_str());
    if (throws([&] { auto a = prov.provide(p); a->check_file_exists("/x"); })) { printf("the archive cannot be used after a failed opening\n"); return 1; }
    prov.close();
    done(p);
    return 0;
}
