// C32: nobody without the key gets past the handshake. Every kind of answer to the real server's challenge over in-memory
// sockets: one bit off, somebody else's, earlier ones, short ones, with faults in between; the service must not be
// reached, the connection ends and the slot comes back.
#include "net_common.h"

const char *hzv_property = "C32";
using namespace svc;
extern uint64_t hzv_rand_state;

static std::string image;
static const std::string FILE_TEXT = "secret";

static const std::vector<std::string> &keys() {
    static std::vector<std::string> k = {
        "key", "", "k", std::string("\xff\x00\x80\x7f\x01", 5), "sevenby", "eightbyt", "ninebytes", "sixteen bytes!!!", "a key of twenty-one..", std::string(64, 'q') + "zz"};
    return k;
}

static void prepare() {
    sched::knobs = sched::Knobs();
    sched::run([&] {
        sched::knobs.frozen = true;
        std::string f = mc::scratch() + "/image.hz";
        {
            HZ_Archive a(f);
            a.load();
            auto raw = rainman::ptr<HZ_Blob>();
            raw->data = rainman::ptr<uint8_t>(FILE_TEXT.size());
            memcpy(raw->data.pointer(), FILE_TEXT.data(), FILE_TEXT.size());
            raw->o_size = raw->size = FILE_TEXT.size();
            a.inject_mstate(rainman::ptr<HZ_MState>(), raw);
            HZ_ArchiveFile e{};
            e.blob_ids = rainman::ptr<uint64_t>(1);
            e.blob_ids[0] = a.write_blob(raw);
            a.create_file_entry("/f", e);
            a.close();
        }
        image = slurp(f);
        unlink(f.c_str());
    });
}

// what the server sent is nothing but the challenge, go-aheads for the answer, and perhaps a refusal
static void nothing_served(const net::Conn &c, const std::string &what) {
    const std::string &s = c.sent_by_server;
    size_t i = 0;
    auto bad = [&](const char *w) { mc::failf(w, "%s: the server sent %zu bytes", what.c_str(), s.size()); };
    if (s.size() > 9) {
        if (s[i = 9] == 0) i++;
        if (i < s.size()) {
            if ((uint8_t) s[i] != 0xff) bad("a client without the key is served");
            if (s.size() - i >= 3) {
                uint16_t n;
                memcpy(&n, &s[i + 1], 2);
                if (s.size() - i - 3 > n) bad("a client without the key is served");
            }
        }
    }
}

struct Run {
    std::string dir, key;
    Server s;
    bool faults = false;
    Run(const std::string &key, uint64_t slots = 1, time_t timeout = 0) : key(key) {
        dir = mc::scratch();
        spew(dir + "/t.hz", image);
        net::reset();
        s.start(slots, key, timeout);
    }
    // requests as one string, sent without waiting
    std::string eager() {
        std::string e;
        Req h, d, x;
        d.kind = DELETE_FILE; d.archive = dir + "/t.hz"; d.target = "/f";
        x.kind = DECODE; x.archive = dir + "/t.hz"; x.target = "/f"; x.piggy = true;
        for (auto &r: {h, x, d}) for (auto &f: fields(r)) e += f;
        return e;
    }
    void refused(Client &c, const std::string &what) {
        sched::wait_quiescent();
        nothing_served(*c.c, what);
        if (c.c->server_closes != 1) mc::failf("the connection is not closed", "%s", what.c_str());
    }
    void served(Client &c, const std::string &what) {
        Req h;
        try {
            if (!ask(c, h).ok) mc::failf("the client with the key is not served", "%s", what.c_str());
            Req x;
            x.kind = DECODE; x.archive = dir + "/t.hz"; x.target = "/f"; x.piggy = true;
            auto a = ask(c, x);
            if (!a.ok || a.data != FILE_TEXT) mc::failf("the client with the key is not served", "%s: %s", what.c_str(), a.refusal.c_str());
        } catch (Gone &) { mc::failf("the client with the key is not served", "%s", what.c_str()); }
    }
    // a right client succeeds
    void right(const std::string &what, std::vector<uint64_t> *challenges = nullptr) {
        Client c;
        if (!c.connect()) mc::failf("the server is gone", "%s", what.c_str());
        try { c.handshake(key); }
        catch (Gone &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
        catch (Refused &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
        if (challenges) challenges->push_back(c.challenge);
        served(c, what);
        c.close();
        sched::wait_quiescent();
        if (c.c->server_closes != 1) mc::failf("the connection is not closed", "%s: after the session", what.c_str());
    }
    void end(const std::string &what) {
        net::knobs = net::Knobs();
        right(what + ", then the right answer");
        sched::wait_quiescent();
        if (net::open_server_fds()) mc::failf("a socket stays open", "%s", what.c_str());
        s.api->shutdown();
        Archive want;
        want.files["/f"] = FILE_TEXT;
        auto d = compare(contents(dir + "/t.hz"), want);
        if (!d.empty()) mc::failf("a client without the key changes an archive", "%s: %s", what.c_str(), d.c_str());
        s.forget();
    }
};

// answers that are all wrong unless they happen to be the right one
static std::vector<std::pair<std::string, uint64_t>> wrong(uint64_t challenge, const std::string &key) {
    std::vector<std::pair<std::string, uint64_t>> v;
    uint64_t right = Client::answer(challenge, key);
    for (int i = 0; i < 64; i++) v.push_back({"the right answer with bit " + std::to_string(i) + " changed", right ^ (1ull << i)});
    for (int i = 0; i < 8; i++) v.push_back({"the right answer with byte " + std::to_string(i) + " cleared", right & ~(0xffull << (8 * i))});
    v.push_back({"zero", 0});
    v.push_back({"all ones", ~0ull});
    v.push_back({"the complement", ~right});
    v.push_back({"the challenge", challenge});
    v.push_back({"the bytes swapped", __builtin_bswap64(right)});
    v.push_back({"one more", right + 1});
    v.push_back({"one less", right - 1});
    v.push_back({"the challenge swapped", __builtin_bswap64(challenge)});
    v.push_back({"the lower half only", right & 0xffffffff});
    v.push_back({"the upper half only", right & ~0xffffffffull});
    for (auto &k: keys()) v.push_back({"the answer under another key", Client::answer(challenge, k)});
    v.push_back({"the answer under the default key", Client::answer(challenge, "hybridzip")});
    if (!key.empty()) {
        v.push_back({"the answer under the key without its last letter", Client::answer(challenge, key.substr(0, key.size() - 1))});
        v.push_back({"the answer under the key with another last letter", Client::answer(challenge, key.substr(0, key.size() - 1) + "#")});
        v.push_back({"the answer under the key without its first letter", Client::answer(challenge, key.substr(1))});
    }
    v.push_back({"the answer under a longer key", Client::answer(challenge, key + "#")});
    if (key.size() > 8) v.push_back({"the answer under the first 8 letters of the key", Client::answer(challenge, key.substr(0, 8))});
    return v;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    prepare();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    auto knobs = [] {
        sched::knobs = sched::Knobs();
        sched::knobs.frozen = true;          // one session at a time: the schedule does not matter
        sched::knobs.deadlock_sig = "a session never ends";
    };
    {
        auto N = wrong(1, "a long key").size() + 1;
        o.bounds = std::to_string(keys().size()) + " keys of length 0-66; the right answer and " + std::to_string(N) + " wrong ones (every single bit, other keys, ...), alone or with requests sent ahead";
        mc::explore("answers", [&] {
            auto &key = keys()[mc::choose(keys().size(), mc::FREE, "key")];
            unsigned k = mc::choose(N + 1, mc::FREE, "answer"), eager = mc::choose(3, mc::FREE, "requests ahead");
            knobs();
            sched::run([&] {
                Run r(key);
                Client c;
                if (!c.connect()) mc::internal_error("no server");
                if (eager == 2) c.c->put(r.eager());             // even before the challenge: taken for an answer, a wrong one
                c.get_challenge();
                auto w = wrong(c.challenge, key);
                w.push_back({"the right answer", Client::answer(c.challenge, key)});
                if (k >= w.size()) { mc::vacuous(); sched::wait_quiescent(); c.close(); r.end("nothing"); return; }
                bool is_right = w[k].second == w.back().second;
                std::string what = w[k].first + (eager ? ", with requests" : "");
                mc::logf("key of %zu letters, %s", key.size(), what.c_str());
                mc::context(what);
                mc::state(mc::mix(k, key.size()));
                mc::step();
                if (eager == 2) {
                    uint64_t first;
                    memcpy(&first, r.eager().data(), 8);
                    if (first == w.back().second) mc::internal_error("lucky guess");
                    c.c->put(le(w[k].second, 8));
                    r.refused(c, what);
                } else if (is_right) {
                    try { c.put(le(w[k].second, 8)); c.message(); }
                    catch (Gone &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
                    catch (Refused &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
                    r.served(c, what);
                } else {
                    try { c.put(le(w[k].second, 8)); }
                    catch (Gone &) { mc::fail("the answer is not waited for"); }
                    if (eager) c.c->put(r.eager());
                    r.refused(c, what);
                }
                c.close();
                r.end(what);
            });
        }, o);
    }
    {
        int n = th ? 6 : 5;
        o.bounds = "all histories of " + std::to_string(n) + " sessions, each answering rightly, wrongly, as in any earlier session, or with any earlier challenge";
        mc::explore("replays", [&] {
            auto key = keys()[mc::choose(2, mc::FREE, "key") * 7];
            knobs();
            sched::run([&] {
                Run r(key);
                std::vector<uint64_t> challenges;
                for (int i = 0; i < n; i++) {
                    unsigned k = mc::choose(2 + 2 * i, mc::FREE, "answer");
                    Client c;
                    if (!c.connect()) mc::fail("the server is gone");
                    try { c.get_challenge(); }
                    catch (Gone &) { mc::fail("no challenge"); }
                    for (auto x: challenges) if (x == c.challenge) mc::failf("a challenge is used twice", "session %d", i);
                    uint64_t right = Client::answer(c.challenge, key);
                    uint64_t a = k == 0 ? right : k == 1 ? right ^ 1 : k < 2u + i ? Client::answer(challenges[k - 2], key) : challenges[k - 2 - i];
                    challenges.push_back(c.challenge);
                    std::string what = k == 0 ? "the right answer" : k == 1 ? "a wrong answer" : k < 2u + i ? "the answer of session " + std::to_string(k - 2) : "the challenge of session " + std::to_string(k - 2 - i);
                    mc::logf("session %d: %s", i, what.c_str());
                    mc::context(what);
                    mc::step();
                    if (a == right) {
                        try { c.put(le(a, 8)); c.message(); }
                        catch (Gone &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
                        catch (Refused &) { mc::failf("the right answer is refused", "%s", what.c_str()); }
                        r.served(c, what);
                    } else {
                        try { c.put(le(a, 8)); } catch (Gone &) { mc::fail("the answer is not waited for"); }
                        r.refused(c, what);
                    }
                    c.close();
                    sched::wait_quiescent();
                }
                r.end("replays");
            });
        }, o);
    }
    {
        mc::Opts o2 = o;
        if (th) o2.kinds[mc::PREEMPT] = 2;
        o2.bounds = std::string(th ? "all schedules with up to 2 preemptions; " : "") + "two sessions at once: all orders of two challenges and two answers, each answer right, wrong, or the right one of the other session";
        mc::explore("two at once", [&] {
            auto key = keys()[mc::choose(2, mc::FREE, "key") * 7];
            unsigned order = mc::choose(6, mc::FREE, "order"), ka = mc::choose(3, mc::FREE, "first"), kb = mc::choose(3, mc::FREE, "second");
            knobs();
            sched::run([&] {
                Run r(key, 2);
                Client c[2];
                static const int ORD[6][4] = {{0, 1, 0, 1}, {0, 1, 1, 0}, {1, 0, 0, 1}, {1, 0, 1, 0}, {0, 0, 1, 1}, {1, 1, 0, 0}};
                unsigned k[2] = {ka, kb};
                int met[2] = {0, 0};
                bool ok[2] = {false, false};
                sched::knobs.frozen = false;
                for (int j = 0; j < 2; j++) { if (!c[j].connect()) mc::internal_error("no server"); }
                for (int i: ORD[order]) {
                    mc::logf("session %d: %s", i, met[i] ? "answer" : "challenge");
                    if (!met[i]++) { c[i].get_challenge(); continue; }
                    uint64_t right = Client::answer(c[i].challenge, key), a = k[i] == 0 ? right : k[i] == 1 ? right ^ (1ull << 63) : Client::answer(c[1 - i].challenge, key);
                    if (k[i] == 2 && !met[1 - i]) { a = right ^ 2; }
                    ok[i] = a == right;
                    mc::step();
                    try { c[i].put(le(a, 8)); if (ok[i]) c[i].message(); }
                    catch (Gone &) { mc::fail("the right answer is refused"); }
                    catch (Refused &) { mc::fail("the right answer is refused"); }
                    sched::wait_quiescent();
                }
                sched::knobs.frozen = true;
                if (met[0] == 2 && met[1] == 2 && c[0].challenge == c[1].challenge) mc::failf("a challenge is used twice", "in two sessions at once");
                for (int i: {0, 1}) if (ok[i]) r.served(c[i], "two at once"); else r.refused(c[i], "two at once");
                for (int i: {0, 1}) c[i].close();
                sched::wait_quiescent();
                r.end("two at once");
            });
        }, o2);
    }
    {
        o.bounds = "0-8 bytes of the right or a wrong answer, then the client closes, closes its sending side, or loses the connection; before or after the challenge was read";
        mc::explore("short answers", [&] {
            unsigned n = mc::choose(9, mc::FREE, "bytes"), how = mc::choose(3, mc::FREE, "end"), early = mc::choose(2, mc::FREE, "challenge unread"), bad = mc::choose(2, mc::FREE, "wrong");
            auto key = keys()[mc::choose(2, mc::FREE, "key") * 7];
            knobs();
            sched::run([&] {
                Run r(key);
                Client c;
                if (!c.connect()) mc::internal_error("no server");
                uint64_t a = 0;
                if (!early) {
                    c.get_challenge();
                    a = Client::answer(c.challenge, key) ^ (bad ? 1 : 0);
                }
                c.c->put(le(a, 8).substr(0, n));
                bool is_right = !early && !bad && n == 8;
                auto ending = [&] {
                    if (how == 0) c.close(); else if (how == 1) c.c->half_close(); else c.c->reset = true;
                };
                mc::step();
                if (is_right) {
                    sched::wait_quiescent();
                    ending();
                    sched::wait_quiescent();
                    if (c.c->server_closes != 1) mc::failf("the connection is not closed", "after the session");
                } else {
                    if (n < 8) ending();
                    r.refused(c, "a short answer of " + std::to_string(n) + " bytes");
                }
                c.close();
                r.end("short answers");
            });
        }, o);
    }
    {
        mc::Opts f = o;
        f.kinds[mc::FAULT] = th ? 3 : 2;
        f.bounds = "right and wrong answers with up to " + std::to_string(f.kinds[mc::FAULT]) + " faults (timeouts, interruptions, partial transfers, lost connections) at any send or receive";
        mc::explore("faults", [&] {
            unsigned k = mc::choose(4, mc::FREE, "answer"), timeout = mc::choose(2, mc::FREE, "timeout set");
            auto key = keys()[mc::choose(2, mc::FREE, "key") * 7];
            knobs();
            sched::run([&] {
                Run r(key, 1, timeout ? 5 : 0);
                net::knobs.send_faults = net::knobs.recv_faults = true;
                Client c;
                if (!c.connect()) mc::internal_error("no server");
                mc::step();
                bool success = false;
                try {
                    c.get_challenge();
                    uint64_t right = Client::answer(c.challenge, key);
                    uint64_t a = k == 0 ? right : k == 1 ? right ^ (1ull << 40) : k == 2 ? 0 : c.challenge;
                    k = a == right ? 0 : k;
                    c.put(le(a, 8));
                    c.message();
                    success = true;
                    if (k) mc::failf("a client without the key is served", "with %d faults", c.c->faults);
                    net::knobs.send_faults = net::knobs.recv_faults = false;
                    sched::wait_quiescent();          // the server may already wait for a request
                    if (!c.c->faults) r.served(c, "with faults");
                } catch (Gone &) {
                    if (!k && !c.c->faults) mc::failf("the right answer is refused", "without any fault");
                } catch (Refused &) {
                    if (!k && !c.c->faults) mc::failf("the right answer is refused", "without any fault");
                }
                net::knobs.send_faults = net::knobs.recv_faults = false;
                if (!success) {
                    sched::wait_quiescent();
                    if (k) nothing_served(*c.c, "with faults");
                    if (c.c->server_closes != 1) mc::failf("the connection is not closed", "after %d faults", c.c->faults);
                }
                mc::outcome(mc::mix(k, success));
                c.close();
                r.end("faults");
            });
        }, f);
    }
    {
        // The challenge depends on nothing but the random source, and on all of it
        auto first = [&](uint64_t state, int n) {
            std::vector<uint64_t> v;
            knobs();
            sched::run([&] {
                hzv_rand_state = state;
                Run r("key", 1);
                for (int i = 0; i < n; i++) {
                    Client c;
                    if (!c.connect()) mc::internal_error("no server");
                    c.get_challenge();
                    v.push_back(c.challenge);
                    c.close();
                    sched::wait_quiescent();
                }
                r.end("challenges");
            });
            return v;
        };
        std::string dir = mc::scratch();
        const int R = 8, S = 48;
        o.bounds = std::to_string(R) + " runs of the service over different random sources, " + std::to_string(S) + " sessions each: no challenge occurs twice and every bit varies";
        // every run in a process of its own
        o.fork_each = true;
        mc::explore("fresh runs", [&] {
            unsigned k = mc::choose(R, mc::FREE, "random source");
            auto v = first(0x1234567 + 0x1000003ull * k, S);
            uint64_t ones = 0, zeros = 0;
            std::set<uint64_t> seen;
            for (auto x: v) {
                ones |= x;
                zeros |= ~x;
                if (!seen.insert(x).second) mc::failf("a challenge is used twice", "in %d sessions", S);
                mc::step();
            }
            if (~(ones & zeros)) mc::failf("part of the challenge never varies", "bits %016lx", ~(ones & zeros));
            std::ofstream f(dir + "/challenges." + std::to_string(k));
            for (auto x: v) f << x << "\n";
        }, o);
        o.fork_each = false;
        mc::enumerate("fresh", 1, [&](uint64_t) {
            std::map<uint64_t, int> seen;
            for (int k = 0; k < R; k++) {
                std::ifstream f(dir + "/challenges." + std::to_string(k));
                uint64_t x;
                int n = 0;
                while (f >> x) {
                    n++;
                    auto it = seen.insert({x, k});
                    if (!it.second) mc::failf("a restarted service repeats a challenge", "challenge %d", n);
                }
                if (n != S) mc::internal_error("no challenges");
            }
        }, o);
    }
}
