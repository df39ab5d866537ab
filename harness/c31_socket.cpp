// C31: every way the network can answer the socket layer's calls, on the real SocketInterface and ApiInstance.
#include <cstdint>
#include <cstring>
#include <hzip_network/api/api.h>
#include <hzip_network/api/handlers/socket_class.h>
#include <hzip_core/utils/utils.h>
#include <loguru/loguru.hpp>
#include "hzsched.h"
#include "mc.h"
#include "net.h"

const char *hzv_property = "C31";

struct Iface : hzapi::SocketInterface {
    Iface(int s) : hzapi::SocketInterface(s, "peer", 1) {}
    using SocketInterface::t_send;
    using SocketInterface::t_recv;
    using SocketInterface::t_recv_sync;
    using SocketInterface::error;
    using SocketInterface::success;
};

static std::string pattern(size_t n, unsigned salt) {
    std::string s(n, 0);
    for (size_t i = 0; i < n; i++) s[i] = (char) (i * 7 + i / 251 + salt * 31 + 1);
    return s;
}

struct Op { char kind; size_t n; };   // S send, R receive with sync, r receive raw, Y sync, E error, K success

static std::string le16(size_t n) { uint16_t v = (uint16_t) n; return std::string((char *) &v, 2); }

static void one(net::Conn &c, Iface &f, Op op, unsigned salt, bool &alive) {
    size_t base = c.sent_by_server.size();
    std::string frame, payload = pattern(op.n, salt);
    std::string ok(1, '\0'), err(1, '\xff');
    int faults = c.faults;
    const size_t GUARD = 32;
    std::vector<uint8_t> buf(op.n + 2 * GUARD, 0xA5);
    size_t had = c.to_server.size();
    bool threw = false;
    std::string what;
    switch (op.kind) {
        case 'S': frame = ok + payload; break;
        case 'R': case 'Y': frame = ok; break;
        case 'r': break;
        case 'E': frame = err + le16(op.n) + payload.substr(0, op.n & 0xffff); break;
        case 'K': frame = ok + le16(op.n) + ok + payload.substr(0, op.n & 0xffff); break;
    }
    try {
        switch (op.kind) {
            case 'S': f.t_send(payload.data(), op.n); break;
            case 'R': f.t_recv(buf.data() + GUARD, op.n, true); break;
            case 'r': f.t_recv(buf.data() + GUARD, op.n, false); break;
            case 'Y': f.t_recv_sync(); break;
            case 'E': f.error(payload); break;
            case 'K': f.success(payload); break;
        }
    } catch (std::exception &e) {
        threw = true;
        what = e.what();
    }
    std::string out = c.sent_by_server.substr(base);
    mc::logf("%c(%zu)%s", op.kind, op.n, threw ? " failed" : "");
    mc::state(mc::mix(mc::mix(op.kind, op.n), mc::mix(threw, out.size())));
    mc::step();
    for (size_t i = 0; i < GUARD; i++)
        if (buf[i] != 0xA5 || buf[GUARD + op.n + i] != 0xA5) mc::fail("bytes outside the caller's buffer are touched");
    if (threw) {
        if (c.faults == faults && had >= (op.kind == 'R' || op.kind == 'r' ? op.n : 0) && !c.client_closed)
            mc::failf("a transfer without any fault failed", "%c(%zu): %s", op.kind, op.n, what.c_str());
        if (op.kind == 'E') mc::fail("reporting an error throws");
        if (frame.compare(0, out.size(), out) != 0) mc::failf("wrong bytes are sent", "%c(%zu)", op.kind, op.n);
        alive = false;
        return;
    }
    if (op.kind == 'E') {
        // best effort; what goes out is the frame or a beginning of it
        if (frame.compare(0, out.size(), out) != 0) mc::failf("wrong bytes are sent", "error(%zu): %zu bytes", op.n, out.size());
        if (c.faults == faults && !c.client_closed && out != frame) mc::fail("an error frame is not sent completely");
        if (c.faults != faults) alive = false;
        return;
    }
    if (out != frame) mc::failf(out.size() < frame.size() ? "a failed send is taken for success" : "wrong bytes are sent", "%c(%zu): %zu of %zu bytes", op.kind, op.n, out.size(), frame.size());
    if (op.kind == 'R' || op.kind == 'r') {
        if (had < op.n) mc::failf("a failed receive is taken for success", "%c(%zu) with %zu bytes sent by the peer", op.kind, op.n, had);
        if (memcmp(buf.data() + GUARD, payload.data(), op.n) != 0) mc::failf(c.faults == faults ? "wrong bytes are received" : "a failed receive is taken for success", "%c(%zu)", op.kind, op.n);
    }
}

static void program(const std::vector<Op> &ops, bool faults, size_t truncate) {
    net::reset();
    net::knobs.send_faults = net::knobs.recv_faults = faults;
    net::knobs.short_send = true;
    int fd;
    auto c = net::make(&fd);
    // the peer sends everything that will be received, less `truncate` bytes, then possibly vanishes
    std::string all;
    for (size_t i = 0; i < ops.size(); i++) if (ops[i].kind == 'R' || ops[i].kind == 'r') all += pattern(ops[i].n, (unsigned) i);
    if (truncate) { c->put(all.substr(0, all.size() - std::min(truncate, all.size()))); c->half_close(); }
    else c->put(all);
    {
        Iface f(fd);
        bool alive = true;
        for (size_t i = 0; i < ops.size() && alive; i++) one(*c, f, ops[i], (unsigned) i, alive);
    }
    if (c->server_closes > 1) mc::fail("a socket is closed twice");
}

// A whole session with a fault at any of its socket calls: the socket is closed exactly once, the permit is given back once.
static const char *KEY = "hybridzip";

static std::string session_script(unsigned kind, uint64_t token) {
    std::string s((char *) &token, 8);
    switch (kind) {
        case 0: s += "\xff"; break;                              // close
        case 1: s += "\x02\xff"; break;                          // health check, close
        case 2: s += "\x02\x02\x55\x02\xff"; break;              // invalid command in between
        case 3: s += "\x02"; break;                              // vanishes
        case 4: s[3] ^= 0x40; s += "\x02"; break;                // wrong answer
        case 5: s = s.substr(0, 5); break;                       // short answer
        case 6: s += std::string("\x01\x06", 2) + "\xff"; break; // query memory usage, close
        case 7: s += std::string("\x01\x07\x03\x00" "abc", 7) + "\xff"; break; // bad target
        case 8: s += std::string("\x00\x00\x00", 3) + "\xff"; break;  // encode stream without algorithm
        case 9: s += std::string("\x00\x01\x05\x00", 4) + "\xff"; break;
    }
    return s;
}

static void session() {
    unsigned kind = mc::choose(10, mc::FREE, "script");
    sched::knobs = sched::Knobs();
    sched::run([&] {
        net::reset();
        net::knobs.send_faults = net::knobs.recv_faults = true;
        int fd;
        auto c = net::make(&fd);
        auto sem = rainman::ptr<Semaphore>(1, 1);
        auto proc = rainman::ptr<HZ_Processor>(1, 1);
        auto prov = rainman::ptr<hzapi::ArchiveProvider>();
        sem->acquire();
        bool done = false;
        {
            hzapi::ApiInstance inst(fd, proc, KEY, sem, "127.0.0.1", 7, prov);
            extern uint64_t hzv_rand_state;
            hzv_rand_state = 0;
            uint64_t z = 0x9e3779b97f4a7c15ull;
            z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull;
            z = (z ^ (z >> 27)) * 0x94d049bb133111ebull;
            z ^= z >> 31;
            c->put(session_script(kind, z));
            c->half_close();
            mc::context("session " + std::to_string(kind));
            inst.start();
            done = true;
            if (!c->faults && kind != 4 && kind != 5 && c->sent_by_server.find("Handshake successful") == std::string::npos)
                mc::internal_error("the session script does not authenticate");
        }
        if (c->server_closes == 0) mc::fail("the socket is never closed");
        if (net::open_server_fds() != 0) mc::fail("the socket is never closed");
        mc::logf("script %u: %zu bytes sent, %d faults", kind, c->sent_by_server.size(), c->faults);
        mc::outcome(mc::hash_str(c->sent_by_server, kind));
        mc::step();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    {
        std::vector<size_t> sizes;
        for (size_t i = 0; i <= 600; i++) sizes.push_back(i);
        for (size_t i: {1023, 1024, 4095, 4096, 4097, 65534, 65535}) sizes.push_back(i);
        if (th) for (size_t i = 601; i < 3000; i++) sizes.push_back(i);
        std::vector<Op> ops;
        for (size_t n: sizes) for (char k: {'S', 'R', 'r', 'E', 'K'}) ops.push_back({k, n});
        for (size_t n: {65536, 65537, 200000}) for (char k: {'S', 'R', 'r'}) ops.push_back({k, n});
        mc::Opts o;
        o.bounds = "every operation with every size up to " + std::to_string(th ? 3000 : 600) + " and sizes around 2^10, 2^12, 2^16; peer sends all, or 1, half or all bytes too few";
        mc::enumerate("one operation, no faults", ops.size() * 4, [&](uint64_t i) {
            Op op = ops[i / 4];
            size_t tr = i % 4 == 0 ? 0 : i % 4 == 1 ? 1 : i % 4 == 2 ? (op.n + 1) / 2 : op.n;
            if (op.kind != 'R' && op.kind != 'r') tr = 0;
            program({op}, false, tr);
        }, o);
    }
    {
        std::vector<Op> one;
        for (size_t n: {0, 1, 2, 3, 4, 8, 9}) for (char k: {'S', 'R', 'r', 'E', 'K'}) one.push_back({k, n});
        one.push_back({'Y', 0});
        mc::Opts o;
        o.kinds[mc::FAULT] = th ? 4 : 3;
        o.bounds = "one operation, every fault (time out, interruption, reset, end of stream, broken pipe, partial transfer of every length) at every socket call, up to " + std::to_string(o.kinds[mc::FAULT]) + " faults";
        mc::explore("one operation, faults", [&] { program({one[mc::choose(one.size(), mc::FREE, "op")]}, true, 0); }, o);
        std::vector<Op> two = {{'S', 1}, {'S', 3}, {'R', 1}, {'R', 4}, {'r', 2}, {'r', 5}, {'Y', 0}, {'E', 3}, {'K', 2}};
        o.kinds[mc::FAULT] = th ? 3 : 2;
        o.bounds = "all sequences of 3 operations out of 9, up to " + std::to_string(o.kinds[mc::FAULT]) + " faults";
        mc::explore("three operations, faults", [&] {
            std::vector<Op> p;
            for (int i = 0; i < 3; i++) p.push_back(two[mc::choose(two.size(), mc::FREE, "op")]);
            program(p, true, 0);
        }, o);
    }
    {
        mc::Opts o;
        o.kinds[mc::FAULT] = th ? 2 : 1;
        o.kinds[mc::PREEMPT] = 0;
        o.bounds = "10 session scripts, faults at every socket call, up to " + std::to_string(o.kinds[mc::FAULT]);
        mc::explore("sessions, faults", session, o);
    }
}
