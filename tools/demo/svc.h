// A client of the real service over loopback
#include <hzip_network/api/api.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_core/utils/utils.h>
#include <loguru/loguru.hpp>
#include <sys/socket.h>
#include <netinet/in.h>
#include <arpa/inet.h>
#include <semaphore.h>
#include <thread>
#include <chrono>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <atomic>
#include <unistd.h>
static void failed(const char *why) { printf("FAILED: %s\n", why); fflush(stdout); _exit(1); }
struct Cl {
    int fd = -1;
    bool gone = false;
    bool connect(uint16_t port, int timeout = 10) {
        for (int i = 0; i < 100; i++) {
            fd = socket(AF_INET, SOCK_STREAM, 0);
            sockaddr_in a{};
            a.sin_family = AF_INET; a.sin_port = htons(port); a.sin_addr.s_addr = htonl(0x7f000001);
            timeval tv{timeout, 0};
            setsockopt(fd, SOL_SOCKET, SO_RCVTIMEO, &tv, sizeof tv);
            if (::connect(fd, (sockaddr *) &a, sizeof a) == 0) return true;
            ::close(fd);
            usleep(50000);
        }
        return false;
    }
    bool put(const void *p, size_t n) { return sync_() && send(fd, p, n, MSG_NOSIGNAL) == (ssize_t) n; }
    bool get(void *p, size_t n) { if (gone || recv(fd, p, n, MSG_WAITALL) != (ssize_t) n) { gone = true; return false; } return true; }
    // false: the connection ended or a refusal came
    bool sync_() {
        uint8_t w;
        if (!get(&w, 1)) return false;
        if (w == 0) return true;
        uint16_t n;
        if (!get(&n, 2)) return false;
        std::string m(n, 0);
        get(m.data(), n);
        return false;
    }
    bool field(void *p, size_t n) { return sync_() && get(p, n); }
    bool byte(uint8_t b) { return put(&b, 1); }
    bool u64(uint64_t v) { return put(&v, 8); }
    bool str(const std::string &s) { uint16_t n = s.size(); return put(&n, 2) && put(s.data(), n); }
    bool message() { uint16_t n; if (!field(&n, 2)) return false; std::string m(n, 0); return field(m.data(), n); }
    static uint64_t answer(uint64_t x, const std::string &key) {
        unsigned char b[8];
        memcpy(b, &x, 8);
        for (size_t i = 0; i < key.size(); i++) b[i % 8] ^= (unsigned char) key[i];
        memcpy(&x, b, 8);
        return x;
    }
    bool challenge(uint64_t &x) { return field(&x, 8); }
    bool handshake(const std::string &key, uint64_t flip = 0) {
        uint64_t x;
        return challenge(x) && u64(answer(x, key) ^ flip) && message();
    }
    bool health() { return byte(hzapi::API_CTL_HEALTH_CHECK) && message(); }
    void close() { ::close(fd); }
};
static uint16_t serve(hzapi::Api *api) {
    uint16_t port = 20000 + getpid() % 20000;
    std::thread([=] { try { api->start("127.0.0.1", port); } catch (std::exception &e) { puts(e.what()); fflush(stdout); _exit(3); } }).detach();
    return port;
}
