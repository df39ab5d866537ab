#include <hzip_network/api/handlers/query.h>
#include <hzip_network/api/api_enums.h>
#include <loguru/loguru.hpp>
#include <sys/socket.h>
#include <thread>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <unistd.h>
#include <hzip_core/utils/utils.h>
using namespace hzapi;
static int c;
static void put(const void *p, size_t n) { if (write(c, p, n) != (ssize_t) n) exit(2); }
static void get(void *p, size_t n) { if (recv(c, p, n, MSG_WAITALL) != (ssize_t) n) { puts("FAILED: the reply is incomplete"); _exit(1); } }
static void sync_() { uint8_t w; get(&w, 1); if (w != COMMON_CTL_SUCCESS) { puts("FAILED: error frame"); _exit(1); } }
static void byte(uint8_t b) { sync_(); put(&b, 1); }
static void str(const std::string &s) { uint16_t n = s.size(); sync_(); put(&n, 2); sync_(); put(s.data(), n); }
int main() {
    loguru::g_stderr_verbosity = -10;
    std::string path = std::string(getenv("PWD")) + "/a.hza";
    auto provider = rainman::ptr<hzapi::ArchiveProvider>();
    std::string lng(300, 'n');
    {
        auto a = provider->provide(path);
        HZ_ArchiveFile f{}; f.blob_ids = rainman::ptr<uint64_t>(0);
        a->create_file_entry("/" + lng, f);
    }
    int fd[2]; if (socketpair(AF_UNIX, SOCK_STREAM, 0, fd)) return 2;
    c = fd[0];
    timeval tv{5, 0}; setsockopt(c, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
    std::thread([&] { try { hzapi::Query(fd[1], "x", 1, provider).start(); } catch (...) {} close(fd[1]); }).detach();
    byte(QUERY_CTL_ARCHIVE); str(path);
    byte(QUERY_CTL_TARGET); str("/");
    byte(QUERY_CTL_PIGGYBACK);
    byte(QUERY_CTL_LIST_FILE_SYSTEM);
    uint64_t count; sync_(); get(&count, 8);
    if (count != 1) { puts("FAILED: count"); return 1; }
    uint16_t len; sync_(); get(&len, 2);
    std::string name(len, 0); sync_(); get(name.data(), len);
    bool leaf; sync_(); get(&leaf, 1);
    provider->close();
    sem_unlink(("/" + hz_sha512(path)).c_str());
    if (name != lng || !leaf) { printf("FAILED: listed name has %d characters\n", (int) len); fflush(stdout); _exit(1); }
    puts("ok"); fflush(stdout);
    _exit(0);
}
