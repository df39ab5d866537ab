// C35: the connection limit holds and no slot is ever lost. More clients than slots against the real server over in-memory
// sockets, ending in every way, with faults while accepting and serving, under all schedules up to the bound.
#include "net_common.h"

const char *hzv_property = "C35";
using namespace svc;

enum End { WORD, VANISH, HALF, RESET, WRONG, EARLY, REQUEST, END_KINDS };
static const char *end_name[] = {"says goodbye", "vanishes", "stops sending", "loses the connection", "answers wrongly", "vanishes before the answer", "vanishes in a request"};

static const unsigned EITHER_TIMEOUT = 1000;
struct Cli {
    Client c;
    unsigned end = 0;
    bool greeted = false;       // a challenge arrived
    bool leaving = false;       // it begins to end the session
    bool go = false, done = false;
    bool over() const { return done || c.c->server_closes || c.c->reset; }
    bool live() const { return greeted && !leaving && !over(); }
};

static void scenario(unsigned N, unsigned M, unsigned kinds, bool faults, unsigned threads_timeout, bool requests) {
    std::string dir = mc::scratch();
    unlink((dir + "/t.hz").c_str());
    net::reset();
    Server s;
    if (threads_timeout == EITHER_TIMEOUT) threads_timeout = 5 * mc::choose(2, mc::FREE, "timeout set");
    s.start(N, "key", threads_timeout);
    std::vector<std::unique_ptr<Cli>> v;
    for (unsigned i = 0; i < M; i++) {
        v.push_back(std::make_unique<Cli>());
        v.back()->end = mc::choose(kinds, mc::FREE, "way to end");
    }
    auto live = [&] { unsigned n = 0; for (auto &c: v) n += c->live(); return n; };
    auto limit = [&] { if (live() > N) mc::failf("more sessions than slots", "%u sessions for %u slots", live(), N); };
    if (faults) net::knobs.accept_faults = net::knobs.sockopt_faults = net::knobs.send_faults = net::knobs.recv_faults = sched::knobs.spawn_faults = true;
    // clients are no threads of the service
    for (unsigned i = 0; i < M; i++) if (!v[i]->c.connect()) mc::internal_error("no server");
    for (unsigned i = 0; i < M; i++) {
        Cli *x = v[i].get();
        bool sf = sched::knobs.spawn_faults;
        sched::knobs.spawn_faults = false;
        std::thread([x, &limit, requests] {
            try {
                x->c.get_challenge();
                x->greeted = true;
                limit();
                mc::step();
                if (x->end != WRONG && x->end != EARLY) {
                    x->c.put(le(Client::answer(x->c.challenge, "key"), 8));
                    x->c.message();
                    if (requests) {
                        Req h;
                        ask(x->c, h);
                    }
                }
                sched::wait_until([x] { return x->go || x->over(); }, "client idle");
                x->leaving = true;
                switch (x->end) {
                    case WORD: x->c.put(byte(hzapi::API_CTL_CLOSE)); break;
                    case WRONG: x->c.put(le(~Client::answer(x->c.challenge, "key"), 8)); break;
                    case HALF: x->c.c->half_close(); break;
                    case RESET: x->c.c->reset = true; break;
                    case REQUEST: x->c.put(byte(hzapi::API_CTL_QUERY)); x->c.close(); break;
                    default: x->c.close();
                }
            } catch (Gone &) {
                if (!x->leaving && !x->c.c->faults && !x->c.c->reset && !sched::knobs.spawn_faults) mc::fail("a session ends by itself");
            } catch (Refused &e) {
                if (!x->leaving && !x->c.c->faults) mc::failf("the right key is refused", "%s", e.msg.c_str());
            }
            x->leaving = true;
            if (x->end == WORD || x->end == HALF || x->end == WRONG) sched::wait_until([x] { return x->c.c->server_closes || x->c.c->reset; }, "the end of the session");
            x->c.close();
            x->done = true;
        }).detach();
        sched::knobs.spawn_faults = sf;
    }
    std::string hist;
    while (true) {
        sched::wait_quiescent();
        limit();
        std::vector<Cli *> up;
        unsigned waiting = 0;
        for (auto &c: v) {
            if (c->live()) up.push_back(c.get());
            else if (!c->greeted && !c->over()) waiting++;
            else if (c->c.c->accepted && !c->c.c->server_closes) mc::failf("the socket of an ended session stays open", "client %d", (int) (&c - &v[0]));
        }
        if (waiting && up.size() < N) mc::failf("a client is not served although there is a slot", "%zu sessions, %u slots, %u clients waiting", up.size(), N, waiting);
        mc::state(mc::mix(up.size(), waiting));
        if (up.empty()) break;
        unsigned k = mc::choose(up.size(), mc::FREE, "who ends");
        mc::logf("a client %s", end_name[up[k]->end]);
        hist += end_name[up[k]->end];
        mc::context(end_name[up[k]->end]);
        up[k]->go = true;
    }
    mc::outcome(mc::hash_str(hist));
    // all slots are there
    net::knobs = net::Knobs();
    sched::knobs.spawn_faults = false;
    sched::knobs.frozen = true;
    if (net::open_server_fds()) mc::fail("the socket of an ended session stays open");
    std::vector<Client> d(N + 1);
    for (auto &c: d) if (!c.connect()) mc::fail("the server no longer listens");
    sched::wait_quiescent();
    for (unsigned i = 0; i < N; i++) if (d[i].c->to_client.empty()) mc::failf("a slot is lost", "%u of %u clients are served", i, N);
    if (!d[N].c->to_client.empty()) mc::failf("more sessions than slots", "%u sessions for %u slots", N + 1, N);
    for (unsigned i = 0; i <= N; i++) {
        if (i == N) sched::wait_quiescent();
        try {
            d[i].handshake("key");
            Req h;
            if (!ask(d[i], h).ok) mc::fail("a session is not served");
        } catch (Gone &) { mc::fail("a session ends by itself"); }
        catch (Refused &) { mc::fail("the right key is refused"); }
        if (i == 0 || i == N) d[i].close();
    }
    for (auto &c: d) c.close();
    sched::wait_quiescent();
    if (net::open_server_fds()) mc::fail("the socket of an ended session stays open");
    s.api->shutdown();
    s.forget();
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    auto run = [](auto f) {
        sched::knobs = sched::Knobs();
        sched::knobs.deadlock_sig = "a session never ends";
        sched::run(f);
    };
    struct Cfg { const char *name; unsigned n, extra, kinds; int preempt; unsigned faults, timeout; bool requests; };      // preempt < 0: one schedule
    std::vector<Cfg> cfgs;
    cfgs = {
        {"one slot", 1, 1, END_KINDS, th ? 3 : 2, 0, 0, false},
        {"one slot, three clients", 1, 2, END_KINDS, -1, 0, 0, true},
        {"one slot, faults", 1, 1, END_KINDS, -1, 3, EITHER_TIMEOUT, false},
        {"two slots, all endings", 2, 2, END_KINDS, -1, 0, 0, true},
        {"two slots, faults", 2, 1, 3, -1, th ? 3u : 2u, EITHER_TIMEOUT, false},
        {"faults and schedules", 1, 1, 3, 0, 1, 5, false},
        {"three slots", 3, 1, END_KINDS, -1, 0, 0, true},
        {"two slots, schedules", 2, 1, 1, th ? 1 : 0, 0, 0, false},
    };
    if (th) cfgs.push_back({"two slots, faults and schedules", 2, 1, 1, 0, 1, 5, false});
    for (auto &c: cfgs) {
        mc::Opts o;
        o.kinds[mc::PREEMPT] = std::max(c.preempt, 0);
        o.kinds[mc::FAULT] = c.faults;
        o.bounds = std::to_string(c.n + c.extra) + " clients, " + std::to_string(c.n) + " slots, " + std::to_string(c.kinds) + " ways to end in any order, " + (c.preempt < 0 ? "one schedule" : "all schedules with up to " + std::to_string(c.preempt) + " preemptions") + ", up to " + std::to_string(c.faults) + " faults";
        mc::explore(c.name, [&] { run([&] { sched::knobs.frozen = c.preempt < 0; scenario(c.n, c.n + c.extra, c.kinds, c.faults, c.timeout, c.requests); }); }, o);
    }
}
