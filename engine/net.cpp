#include "net.h"
#include "mc.h"
#include "hzsched.h"
#include <arpa/inet.h>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstring>
#include <deque>
#include <dlfcn.h>
#include <netinet/in.h>
#include <poll.h>
#include <sys/select.h>
#include <sys/socket.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <unistd.h>

namespace net {
    Knobs knobs;
    namespace {
        constexpr int BASE = 600;   // below FD_SETSIZE
        struct Listener { int fd; uint16_t port = 0; bool listening = false, closed = false, shut = false; int refused = 0; std::deque<std::shared_ptr<Conn>> backlog; };
        std::map<int, std::shared_ptr<Conn>> conns;     // open or closed, by descriptor
        std::vector<std::shared_ptr<Conn>> conn_list;
        std::map<int, std::shared_ptr<Listener>> listeners;
        int next_fd = BASE;
        uint16_t next_port = 40000;

        bool is_fake(int fd) { return fd >= BASE && fd < BASE + 400; }

        void pt(const char *w) { if (sched::active() && knobs.yield_points) sched::point(w); }

        void block(const std::function<bool()> &p, const char *w) {
            if (p()) return;
            if (!sched::active()) mc::fail("blocked for ever", w);
            sched::wait_until(p, w);
        }
        bool fault(unsigned n, const char *what, unsigned *k) {
            *k = mc::choose(n + 1, mc::FAULT, what);
            return *k != 0;
        }
        Conn *conn(int fd, const char *what) {
            auto it = conns.find(fd);
            if (it == conns.end()) return nullptr;
            if (it->second->server_closes) {
                mc::fail(std::string("a closed socket is used: ") + what);
            }
            return it->second.get();
        }
    }

    void reset() {
        conns.clear();
        conn_list.clear();
        listeners.clear();
        next_fd = BASE;
        next_port = 40000;
        knobs = Knobs();
    }

    void Conn::put(const void *p, size_t n) {
        if (client_closed || client_half) return;
        to_server.append((const char *) p, n);
        sent_by_client.append((const char *) p, n);
    }

    bool Conn::ended() const { return (server_closes || reset || server_shut) && to_client.empty(); }

    std::string Conn::get(size_t n) {
        block([this, n] { return to_client.size() >= n || server_closes || reset || server_shut; }, "client recv");
        std::string r = to_client.substr(0, n);
        to_client.erase(0, r.size());
        return r;
    }

    void Conn::close() { client_closed = true; }

    void Conn::half_close() { client_half = true; }

    std::shared_ptr<Conn> make(int *fd) {
        auto c = std::make_shared<Conn>();
        c->fd = next_fd++;
        c->accepted = true;
        c->port = next_port++;
        conns[c->fd] = c;
        conn_list.push_back(c);
        *fd = c->fd;
        return c;
    }

    bool listening(uint16_t port) {
        for (auto &l: listeners) if (l.second->listening && !l.second->closed && !l.second->shut && l.second->port == port) return true;
        return false;
    }

    std::shared_ptr<Conn> connect(uint16_t port) {
        for (auto &l: listeners) if (l.second->listening && !l.second->closed && !l.second->shut && l.second->port == port) {
            auto c = std::make_shared<Conn>();
            c->port = next_port++;
            l.second->backlog.push_back(c);
            conn_list.push_back(c);
            return c;
        }
        return nullptr;
    }

    int open_server_fds() {
        int n = 0;
        for (auto &c: conns) if (!c.second->server_closes) n++;
        return n;
    }

    int open_listeners() {
        int n = 0;
        for (auto &l: listeners) if (!l.second->closed) n++;
        return n;
    }

    std::vector<std::shared_ptr<Conn>> all() { return conn_list; }

    // lengths to try when only part of n bytes gets through
    unsigned partial_options(size_t n) { return n <= 1 ? 0 : n <= 4 ? (unsigned) n - 1 : 3; }
    size_t partial(size_t n, unsigned k) { if (n <= 4) return k + 1; return k == 0 ? 1 : k == 1 ? n / 2 : n - 1; }

    ssize_t do_send(int fd, const char *buf, size_t n, int flags) {
        pt("send");
        Conn *c = conn(fd, "send");
        if (!c) { errno = EBADF; return -1; }
        auto sigpipe = [&] {
            if (!(flags & MSG_NOSIGNAL)) {
                struct sigaction sa{};
                sigaction(SIGPIPE, nullptr, &sa);
                if (sa.sa_handler == SIG_DFL) mc::fail("SIGPIPE kills the process", "send() to a client that is gone, without MSG_NOSIGNAL");
            }
            errno = EPIPE;
            return (ssize_t) -1;
        };
        if (c->client_closed || c->reset || c->server_shut) return sigpipe();
        if (knobs.send_faults) {
            unsigned po = knobs.short_send ? partial_options(n) : (n > 1 ? 1 : 0), k;
            // time out with nothing sent; lost; lost, with the signal; partial amounts, the rest timing out or lost
            if (fault(4 + 2 * po, "send", &k)) {
                c->faults++;
                k--;
                if (k == 0) { errno = EAGAIN; return -1; }
                if (k == 1) { c->reset = true; errno = ECONNRESET; return -1; }
                if (k == 2) { c->reset = true; c->client_closed = true; return sigpipe(); }
                if (k == 3) { errno = EINTR; return -1; }
                k -= 4;
                size_t m = knobs.short_send ? partial(n, k / 2) : n - 1;
                if (k & 1) c->reset = true;
                c->to_client.append(buf, m);
                c->sent_by_server.append(buf, m);
                return (ssize_t) m;
            }
        }
        c->to_client.append(buf, n);
        c->sent_by_server.append(buf, n);
        return (ssize_t) n;
    }

    ssize_t do_recv(int fd, char *buf, size_t n, int flags) {
        pt("recv");
        Conn *c = conn(fd, "recv");
        if (!c) { errno = EBADF; return -1; }
        if (n == 0) return 0;
        if (c->server_shut) return 0;
        unsigned k = 0;
        unsigned po = knobs.short_send ? partial_options(n) : (n > 1 ? 1 : 0);
        if (knobs.recv_faults && fault(4 + 3 * po, "recv", &k)) {
            c->faults++;
            k--;
            if (k == 0) { errno = EAGAIN; return -1; }
            if (k == 1) { c->reset = true; c->client_closed = true; errno = ECONNRESET; return -1; }
            if (k == 2) { c->client_closed = true; c->to_server.clear(); return 0; }
            if (k == 3) { errno = EINTR; return -1; }
            k -= 4;
            size_t m = knobs.short_send ? partial(n, k / 3) : n - 1;
            unsigned how = k % 3;    // interrupted; end of file after m bytes; reset after m bytes
            block([c, m] { return c->to_server.size() >= m || c->client_closed || c->client_half || c->reset; }, "recv");
            if (m > c->to_server.size()) m = c->to_server.size();
            memcpy(buf, c->to_server.data(), m);
            c->to_server.erase(0, m);
            if (how == 1) { c->client_closed = true; c->to_server.clear(); }
            if (how == 2) { c->reset = true; c->client_closed = true; c->to_server.clear(); if (m == 0) { errno = ECONNRESET; return -1; } }
            return (ssize_t) m;
        }
        bool all = flags & MSG_WAITALL;
        bool nonblock = flags & MSG_DONTWAIT;
        if (!nonblock) {
            auto rec = [c] { return c->client_closed || c->client_half || c->reset || c->server_shut; };
            if (all) block([c, n, rec] { return c->to_server.size() >= n || rec(); }, "recv");
            else block([c, rec] { return !c->to_server.empty() || rec(); }, "recv");
        }
        size_t m = std::min(n, c->to_server.size());
        if (m == 0) {
            if (c->reset) { errno = ECONNRESET; return -1; }
            if (!(c->client_closed || c->client_half || c->server_shut) && nonblock) { errno = EAGAIN; return -1; }
            return 0;
        }
        if (!all && m > 1) {   // the network may deliver it in pieces
            unsigned o = partial_options(m);
            unsigned q = mc::choose(o + 1, mc::FREE, "segment");
            if (q) m = partial(m, q - 1);
        }
        memcpy(buf, c->to_server.data(), m);
        if (!(flags & MSG_PEEK)) c->to_server.erase(0, m);
        return (ssize_t) m;
    }
}

using namespace net;
#define EXPORT extern "C" __attribute__((visibility("default"), used))

EXPORT int socket(int, int, int) noexcept {
    auto l = std::make_shared<Listener>();
    l->fd = next_fd++;
    listeners[l->fd] = l;
    return l->fd;
}
EXPORT int bind(int fd, const struct sockaddr *a, socklen_t) noexcept {
    auto it = listeners.find(fd);
    if (it == listeners.end()) { errno = EBADF; return -1; }
    unsigned k;
    if (net::knobs.bind_faults && fault(1, "bind", &k)) { errno = EADDRINUSE; return -1; }
    it->second->port = ntohs(((const sockaddr_in *) a)->sin_port);
    return 0;
}
EXPORT int listen(int fd, int) noexcept {
    auto it = listeners.find(fd);
    if (it == listeners.end()) { errno = EBADF; return -1; }
    unsigned k;
    if (net::knobs.bind_faults && fault(1, "listen", &k)) { errno = EADDRINUSE; return -1; }
    it->second->listening = true;
    return 0;
}
static int do_accept(int fd, struct sockaddr *a, socklen_t *l) {
    auto it = listeners.find(fd);
    if (it == listeners.end()) { errno = EBADF; return -1; }
    auto li = it->second;
    if (li->closed || li->shut) {
        // A server that keeps trying to accept on a socket that is gone would do so for ever: let it a few times.
        if (++li->refused > 3 && sched::active()) {
            sched::set_daemon(true);
            sched::wait_until([] { return false; }, "accept on a closed socket");
        }
        errno = li->closed ? EBADF : EINVAL;
        return -1;
    }
    unsigned k;
    pt("accept");
    net::block([li] { return !li->backlog.empty() || li->closed || li->shut; }, "accept");
    if (li->closed) { errno = EBADF; return -1; }
    if (li->shut) { errno = EINVAL; return -1; }
    if (net::knobs.accept_faults && fault(3, "accept", &k)) {
        if (k == 1) { li->backlog.front()->reset = true; li->backlog.pop_front(); errno = ECONNABORTED; }
        else errno = k == 2 ? EMFILE : EINTR;
        return -1;
    }
    auto c = li->backlog.front();
    li->backlog.pop_front();
    c->fd = next_fd++;
    c->accepted = true;
    conns[c->fd] = c;
    if (a && l) {
        sockaddr_in s{};
        s.sin_family = AF_INET;
        s.sin_port = htons(c->port);
        s.sin_addr.s_addr = htonl(0x7f000001);
        memcpy(a, &s, std::min<size_t>(*l, sizeof s));
        *l = sizeof s;
    }
    return c->fd;
}
EXPORT int accept(int fd, struct sockaddr *a, socklen_t *l) { return do_accept(fd, a, l); }
EXPORT int accept4(int fd, struct sockaddr *a, socklen_t *l, int) { return do_accept(fd, a, l); }
EXPORT int setsockopt(int fd, int level, int opt, const void *value, socklen_t len) noexcept {
    if (listeners.count(fd)) return 0;
    if (!conns.count(fd) || conns[fd]->server_closes) { errno = EBADF; return -1; }
    unsigned k;
    if (net::knobs.sockopt_faults && fault(1, "setsockopt", &k)) { conns[fd]->faults++; errno = EINVAL; return -1; }
    if (level == SOL_SOCKET && (opt == SO_RCVTIMEO || opt == SO_SNDTIMEO) && value && len == sizeof(timeval)) {
        timeval tv;
        memcpy(&tv, value, sizeof tv);
        conns[fd]->has_timeout = tv.tv_sec || tv.tv_usec;
        (opt == SO_RCVTIMEO ? conns[fd]->recv_timeout : conns[fd]->send_timeout) = tv.tv_sec * 1000000ll + tv.tv_usec;
    }
    return 0;
}
EXPORT int getsockopt(int, int, int, void *v, socklen_t *l) noexcept { if (v && l) memset(v, 0, *l); return 0; }
EXPORT int shutdown(int fd, int) noexcept {
    if (listeners.count(fd)) { if (listeners[fd]->closed) { errno = EBADF; return -1; } listeners[fd]->shut = true; return 0; }
    if (!conns.count(fd) || conns[fd]->server_closes) { errno = EBADF; return -1; }
    conns[fd]->server_shut = true;
    return 0;
}
EXPORT int close(int fd) {
    if (!is_fake(fd)) return (int) syscall(SYS_close, fd);
    if (listeners.count(fd)) {
        if (listeners[fd]->closed) { mc::fail("a listening socket is closed twice"); }
        listeners[fd]->closed = true;
        return 0;
    }
    if (!conns.count(fd)) { errno = EBADF; return -1; }
    auto c = conns[fd];
    if (c->server_closes) mc::fail("a socket is closed twice");
    pt("close");
    c->server_closes++;
    if (net::knobs.on_close) net::knobs.on_close(fd);
    return 0;
}
EXPORT ssize_t send(int fd, const void *b, size_t n, int fl) { return do_send(fd, (const char *) b, n, fl); }
EXPORT ssize_t sendto(int fd, const void *b, size_t n, int fl, const struct sockaddr *, socklen_t) { return do_send(fd, (const char *) b, n, fl); }
EXPORT ssize_t sendmsg(int fd, const struct msghdr *m, int fl) {
    std::string s;
    for (size_t i = 0; i < m->msg_iovlen; i++) s.append((const char *) m->msg_iov[i].iov_base, m->msg_iov[i].iov_len);
    return do_send(fd, s.data(), s.size(), fl);
}
EXPORT ssize_t recv(int fd, void *b, size_t n, int fl) { return do_recv(fd, (char *) b, n, fl); }
EXPORT ssize_t recvfrom(int fd, void *b, size_t n, int fl, struct sockaddr *, socklen_t *) { return do_recv(fd, (char *) b, n, fl); }
EXPORT ssize_t write(int fd, const void *b, size_t n) {
    if (is_fake(fd)) return do_send(fd, (const char *) b, n, 0);
    return syscall(SYS_write, fd, b, n);
}
EXPORT ssize_t writev(int fd, const struct iovec *v, int cnt) {
    if (!is_fake(fd)) return syscall(SYS_writev, fd, v, cnt);
    std::string s;
    for (int i = 0; i < cnt; i++) s.append((const char *) v[i].iov_base, v[i].iov_len);
    return do_send(fd, s.data(), s.size(), 0);
}
EXPORT ssize_t read(int fd, void *b, size_t n) {
    if (is_fake(fd)) return do_recv(fd, (char *) b, n, 0);
    return syscall(SYS_read, fd, b, n);
}
