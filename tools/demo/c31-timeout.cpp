#include <cstdio>
#include <cerrno>
#include <sys/socket.h>
#include <sys/time.h>
#include <unistd.h>
#include <hzip_network/api/handlers/socket_class.h>
struct S : hzapi::SocketInterface {
    S(int s) : SocketInterface(s, "x", 1) {}
    using SocketInterface::t_recv;
};
int main() {
    int p[2];
    if (socketpair(AF_UNIX, SOCK_STREAM, 0, p)) return 3;
    timeval t{0, 200000};
    setsockopt(p[0], SOL_SOCKET, SO_RCVTIMEO, &t, sizeof t);
    S s(p[0]);
    char b[8] = {};
    for (int n: {0, 3, 7}) {
        if (write(p[1], "abcdefg", n) != n) return 3;
        try { s.t_recv(b, 8); } catch (std::exception &) { continue; }
        printf("%d of 8 bytes were taken for success\n", n);
        return 1;
    }
    return 0;
}
