#include <hzip_core/utils/validation.h>
#include <cstdio>
int main() {
    for (int n = 0; n < 12; n++) {
        std::string ok = "/" + std::string(n, 'a') + "/b", bad = "/" + std::string(n, 'a') + "//b";
        if (n == 0) ok = "/b";
        try { hz_validate_path(ok); } catch (...) { printf("FAILED: %s is refused\n", ok.c_str()); return 1; }
        bool refused = false;
        try { hz_validate_path(bad); } catch (...) { refused = true; }
        if (!refused) { printf("FAILED: %s is accepted\n", bad.c_str()); return 1; }
    }
    puts("ok");
}
