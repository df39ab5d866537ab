// C36: graceful shutdown makes every stored file durable. The real server over in-memory sockets is shut down after every
// short history of requests and at every point of a request; what the archives then hold is compared with the replies.
#include "net_common.h"

const char *hzv_property = "C36";
using namespace svc;

static std::string image, light_image;     // with and without a model, which takes long to write and read
static std::string model_bytes;

static rainman::ptr<uint8_t> mem(const std::string &s) {
    auto p = rainman::ptr<uint8_t>(s.size());
    memcpy(p.pointer(), s.data(), s.size());
    return p;
}

static void prepare(bool light) {
    sched::knobs = sched::Knobs();
    sched::run([&] {
        sched::knobs.frozen = true;
        std::string f = mc::scratch() + "/image.hz";
        {
            HZ_Archive a(f);
            a.load();
            if (!light) {
            auto b = rainman::ptr<HZ_Blob>();
            b->data = mem(text(3));
            b->o_size = b->size = text(3).size();
            auto m = hzcodec::CodecProvider::algorithm_to_codec((ALGORITHM) VIC)->train(b);
            model_bytes = std::string((const char *) m->data.pointer(), m->size());
            a.install_mstate("/m", m);
            }
            auto raw = rainman::ptr<HZ_Blob>();
            raw->data = mem(text(1));
            raw->o_size = raw->size = text(1).size();
            a.inject_mstate(rainman::ptr<HZ_MState>(), raw);
            HZ_ArchiveFile e{};
            e.blob_ids = rainman::ptr<uint64_t>(1);
            e.blob_ids[0] = a.write_blob(raw);
            a.create_file_entry("/f", e);
            a.close();
        }
        (light ? light_image : image) = slurp(f);
        unlink(f.c_str());
    });
}

static World world0(const std::string &dir, bool light = false) {
    World w;
    auto &a = w.archives[dir + "/t.hz"];
    a.files["/f"] = text(1);
    if (!light) a.models["/m"] = {VIC, model_bytes};
    w.archives[dir + "/u.hz"];
    return w;
}

static std::vector<Req> menu(const std::string &dir) {
    std::vector<Req> m;
    std::string T = dir + "/t.hz", U = dir + "/u.hz";
    typedef std::optional<std::string> S;
    S no;
    auto add = [&](Kind k, S a, S t, S mo, int d, bool p) { Req r; r.kind = k; r.archive = a; r.target = t; r.model = mo; r.alg = VIC; r.data = text(d); r.piggy = p; m.push_back(r); };
    add(ENCODE, T, "/g", no, 3, false);
    add(DELETE_FILE, T, "/f", no, 0, false);
    add(ENCODE, U, "/d/z", no, 4, false);
    add(ENCODE, T, "/f", "/m", 3, true);
    add(WRITE_MODEL, T, no, "/n", 2, false);
    add(DECODE, T, "/f", no, 0, true);
    add(TRAIN, T, no, "/k", 2, false);
    add(DELETE_MODEL, T, "/m", no, 0, false);
    add(ENCODE, T, "/f/x", no, 4, false);                // below a file: rejected
    add(EXISTS, U, "/d", no, 0, true);
    add(DELETE_FILE, U, "/d/z", no, 0, false);
    add(ENCODE, T, "/e", no, 0, false);
    return m;
}

typedef std::map<std::string, std::string> Disk;
static Disk disk(const std::string &dir) {
    Disk d;
    for (auto n: {"/t.hz", "/u.hz"}) if (access((dir + n).c_str(), F_OK) == 0) d[n] = slurp(dir + n);
    return d;
}
// Must be one of the worlds
static void expect(const std::string &dir, const std::vector<World> &worlds, const char *when) {
    std::string why, all;
    std::map<std::string, Archive> got;
    for (auto &w: worlds) {
        why = "";
        for (auto &a: w.archives) {
            std::string n = a.first.substr(a.first.rfind('/')), f = dir + n;
            if (access(f.c_str(), F_OK) != 0) {
                if (!a.second.files.empty() || !a.second.models.empty()) why = n + " is missing";
                continue;
            }
            mc::context(std::string("reading the archives ") + when);
            if (!got.count(n)) {
                try { got[n] = contents(f); }
                catch (std::exception &e) { mc::failf("an archive is not readable", "%s %s: %s", n.c_str(), when, e.what()); }
            }
            auto x = compare(got[n], a.second);
            if (!x.empty()) why = n + ": " + x;
        }
        if (why.empty()) return;
        all += "; " + why;
    }
    mc::failf("an archive is not what the replies said", "%s%s", when, all.c_str());
}

static void copy_out(const Disk &d, const std::string &dir) {
    for (auto n: {"/t.hz", "/u.hz"}) unlink((dir + n).c_str());
    for (auto &f: d) spew(dir + f.first, f.second);
}

struct Session {
    Client c;
    std::vector<Req> reqs;
    unsigned done = 0;                   // requests answered
    bool pending = false, gone = false, shut_before = false;
    int64_t limit = -1;
    std::vector<std::pair<Req, Answer>> answers;
    std::vector<bool> late;              // overlapped with, or followed, the shutdown
};

static bool down = false;

static void drive(Session &s) {
    try {
        for (auto &r: s.reqs) {
            s.pending = true;
            auto a = ask(s.c, r);
            s.pending = false;
            mc::logf("%s%s; ", down ? "late " : "", a.ok ? "done" : ("refused: " + a.refusal).c_str());
            s.answers.push_back({r, a});
            s.late.push_back(down);
            mc::step();
            if (r.kind == CLOSE) return;
        }
    } catch (Gone &) {
        s.gone = true;
    }
}

// the worlds that the answers permit
static std::vector<World> one_order(World w, const std::vector<Session *> &ss) {
    std::vector<World> worlds = {w};
    for (auto *s: ss) {
        for (size_t i = 0; i < s->answers.size(); i++) {
            auto &r = s->answers[i].first;
            auto &a = s->answers[i].second;
            std::vector<World> next;
            for (auto x: worlds) {
                if (!s->late[i]) { judge(x, r, a); next.push_back(x); continue; }
                World y = x;
                bool can = verdict(y, r) != NO;
                if (can) next.push_back(y);
                if (!a.ok) next.push_back(x);
            }
            worlds = next;
        }
        if (s->pending) {
            auto &r = s->reqs[s->answers.size()];
            std::vector<World> next;
            for (auto x: worlds) {
                next.push_back(x);
                World y = x;
                if (verdict(y, r) != NO) next.push_back(y);
            }
            worlds = next;
        }
    }
    return worlds;
}

static std::vector<World> permitted(const World &w, std::vector<Session *> ss) {
    auto v = one_order(w, ss);
    if (ss.size() == 2) {
        std::swap(ss[0], ss[1]);
        for (auto &x: one_order(w, ss)) v.push_back(x);
    }
    if (v.empty()) mc::fail("a request that must be refused succeeds");
    return v;
}

// The service comes back and serves the same
static void restart(const std::string &dir, const std::vector<World> &worlds) {
    Server s;
    s.start(1, "key");
    Client c;
    if (!c.connect()) mc::fail("the service does not come back");
    std::string why;
    try {
        c.handshake("key");
        std::map<std::string, std::string> all;
        for (auto &w: worlds) for (auto &a: w.archives) for (auto &f: a.second.files) all[a.first + "|" + f.first] = "";
        for (auto &w: worlds) {
            why = "";
            for (auto &a: w.archives) for (auto &f: a.second.files) {
                auto &got = all[a.first + "|" + f.first];
                if (got.empty()) {
                    Req r; r.kind = DECODE; r.archive = a.first; r.target = f.first; r.piggy = true;
                    auto x = ask(c, r);
                    got = (x.ok ? "+" : "-") + x.data;
                }
                if (got != "+" + f.second) why = f.first;
            }
            if (why.empty()) break;
        }
    } catch (Gone &) { mc::fail("the service does not serve after a restart"); }
    catch (Refused &) { mc::fail("the service does not serve after a restart"); }
    if (!why.empty()) mc::failf("a file is not served after a restart", "%s", why.c_str());
    c.close();
    sched::wait_quiescent();
    s.api->shutdown();
    s.forget();
}

static void after(const std::string &dir, Server &s, const Disk &at_return, const World &w, const std::vector<Session *> &ss) {
    sched::knobs.frozen = true;
    sched::wait_quiescent();
    auto worlds = permitted(w, ss);
    Disk end = disk(dir);
    fflush(nullptr);                     // The process may end any time now
    end = disk(dir);
    if (end != at_return) mc::fail("the disk changes after the shutdown", "an archive file is written when it is no longer locked");
    expect(dir, worlds, "after the shutdown");
    for (auto *x: ss) x->c.close();
    sched::wait_quiescent();
    if (net::open_server_fds()) mc::fail("the socket of an ended session stays open");
    fflush(nullptr);
    if (disk(dir) != at_return) mc::fail("the disk changes after the shutdown", "when the sessions end");
    restart(dir, worlds);
    expect(dir, worlds, "after a restart");
    s.forget();
    expect(dir, worlds, "after everything");
}

static void fresh(const std::string &dir, bool light = false) {
    spew(dir + "/t.hz", light ? light_image : image);
    unlink((dir + "/u.hz").c_str());
    net::reset();
    down = false;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    prepare(false);
    prepare(true);
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    auto knobs = [] {
        sched::knobs = sched::Knobs();
        sched::knobs.frozen = true;
        sched::knobs.deadlock_sig = "something blocks after the shutdown";
    };
    unsigned N = menu("/x").size();
    {
        unsigned depth = th ? 3 : 2;
        o.bounds = "all histories of up to " + std::to_string(depth) + " of " + std::to_string(N) + " requests in one or two sessions, then a shutdown, then each request once more";
        mc::explore("between requests", [&] {
            std::string dir = mc::scratch();
            auto m = menu(dir);
            std::vector<Req> rs;
            for (unsigned i = 0; i < depth; i++) {
                unsigned k = mc::choose(N + (i > 0), mc::FREE, "request");
                if (k < N) rs.push_back(m[k]); else break;
            }
            unsigned late = mc::choose(N + 1, mc::FREE, "late request"), two = mc::choose(2, mc::FREE, "sessions");
            knobs();
            fresh(dir);
            sched::run([&] {
                Server s;
                s.start(2, "key");
                World w = world0(dir);
                Session a, b;
                for (auto *x: {&a, &b}) {
                    if (!x->c.connect()) mc::internal_error("no server");
                    x->c.handshake("key");
                }
                for (unsigned i = 0; i < rs.size(); i++) {
                    Session &x = two && i % 2 ? b : a;
                    mc::logf("%s; ", rs[i].str().c_str());
                    mc::context(rs[i].str());
                    x.reqs = {rs[i]};
                    drive(x);
                    if (x.answers.empty()) mc::failf("a request is not answered", "%s", rs[i].str().c_str());
                    judge(w, rs[i], x.answers.back().second);
                    x.answers.clear();
                    x.late.clear();
                }
                sched::wait_quiescent();
                s.api->shutdown();
                Disk d = disk(dir);
                down = true;
                mc::context("after the shutdown");
                a.reqs.clear();
                if (late < N) {
                    a.reqs = {m[late]};
                    mc::logf("shutdown, then %s", m[late].str().c_str());
                    drive(a);
                }
                mc::state(mc::mix(late, rs.size()));
                after(dir, s, d, w, {&a, &b});
            });
        }, o);
    }
    {
        // how many bytes each request moves
        auto length = [&](const std::vector<Req> &rs, bool light) {
            uint64_t n = 0;
            std::string dir = mc::scratch();
            knobs();
            fresh(dir, light);
            sched::run([&] {
                Server s;
                s.start(1, "key");
                Session a;
                a.c.connect();
                a.c.handshake("key");
                uint64_t n0 = a.c.moved;
                a.reqs = rs;
                drive(a);
                n = a.c.moved - n0;
                a.c.close();
                sched::wait_quiescent();
                s.api->shutdown();
                s.forget();
            });
            return n;
        };
        typedef std::vector<std::pair<std::vector<unsigned>, uint64_t>> Moments;
        auto moments = [&](const std::vector<std::vector<unsigned>> &seqs, bool light) {
            auto m = menu(mc::scratch());
            Moments at;
            for (auto &q: seqs) {
                std::vector<Req> rs;
                for (auto i: q) rs.push_back(m[i]);
                uint64_t n = length(rs, light);
                for (uint64_t k = 0; k <= n; k++) if (k < 400 || k + 64 > n) at.push_back({q, k});
            }
            return at;
        };
        auto during = [&](bool light, const std::vector<unsigned> &q, uint64_t k, bool two = false) {
            std::string dir = mc::scratch();
            auto m = menu(dir);
            knobs();
            fresh(dir, light);
            sched::run([&] {
                Server s;
                s.start(two ? 2 : 1, "key");
                World w = world0(dir, light);
                Session a, b;
                a.c.connect();
                a.c.handshake("key");
                uint64_t goal = a.c.moved + k;
                for (auto i: q) (two && !a.reqs.empty() ? b : a).reqs.push_back(m[i]);
                std::string what;
                for (auto &r: a.reqs) what += r.str() + "; ";
                bool over_b = false;
                if (two) {
                    for (auto &r: b.reqs) what += "other session: " + r.str() + "; ";
                    b.c.connect();
                    b.c.handshake("key");
                    Session *y = &b;
                    std::thread([y, &over_b] { drive(*y); over_b = true; }).detach();
                }
                mc::logf("%s shutdown after %lu bytes; ", what.c_str(), (unsigned long) k);
                mc::context(what);
                Session *x = &a;
                bool over = false;
                std::thread([x, &over] { drive(*x); over = true; }).detach();
                sched::wait_until([&] { return x->c.moved >= goal || over; }, "the moment of the shutdown");
                if (light) sched::knobs.frozen = false;
                down = true;                         // the answer may be a refusal from here on
                s.api->shutdown();
                Disk d = disk(dir);
                if (two) after(dir, s, d, w, {&a, &b}); else after(dir, s, d, w, {&a});
            });
        };
        {
            std::vector<std::vector<unsigned>> seqs;
            for (unsigned i = 0; i < N; i++) {
                seqs.push_back({i});
                if (th) for (unsigned j = 0; j < N; j++) seqs.push_back({j, i});
            }
            if (!th) for (auto x: std::vector<std::vector<unsigned>>{{0, 2}, {1, 3}, {2, 10}, {4, 3}, {6, 1}}) seqs.push_back(x);
            auto at = moments(seqs, false);
            o.bounds = std::to_string(seqs.size()) + " request sequences, shut down when the client has moved each number of bytes (" + std::to_string(at.size()) + " cases), one schedule";
            mc::explore("within requests", [&] {
                auto &x = at[mc::choose(at.size(), mc::FREE, "moment")];
                during(false, x.first, x.second);
            }, o);
        }
        {
            std::vector<std::vector<unsigned>> seqs = {{1}, {4}, {5}, {11}, {9}, {1, 4}, {4, 11}};
            auto at = moments(seqs, true);
            mc::Opts p = o;
            p.kinds[mc::PREEMPT] = th ? 3 : 2;
            p.bounds = std::to_string(seqs.size()) + " request sequences, shut down when the client has moved each number of bytes (" + std::to_string(at.size()) + " cases), all schedules from there on with up to " + std::to_string(p.kinds[mc::PREEMPT]) + " preemptions";
            mc::explore("within requests, schedules", [&] {
                auto &x = at[mc::choose(at.size(), mc::FREE, "moment")];
                during(true, x.first, x.second);
            }, p);
        }
        {
            Moments at;
            for (auto &q: std::vector<std::vector<unsigned>>{{0}, {0, 1}}) {    // takes longer: its end only
                auto v = moments({q}, true);
                unsigned n = std::min<size_t>(v.size(), q.size() > 1 ? 120 : 60);
                at.insert(at.end(), v.end() - n, v.end());
            }
            mc::Opts p = o;
            p.kinds[mc::PREEMPT] = th ? 2 : 1;
            p.bounds = "an upload alone and followed by a deletion, shut down when the client has moved all bytes but up to 120 (" + std::to_string(at.size()) + " cases), all schedules from there on with up to " + std::to_string(p.kinds[mc::PREEMPT]) + " preemptions";
            mc::explore("within uploads, schedules", [&] {
                auto &x = at[mc::choose(at.size(), mc::FREE, "moment")];
                during(true, x.first, x.second);
            }, p);
        }
        {
            // the first word moves on while the second is somewhere
            std::vector<std::vector<unsigned>> one = {{1}, {4}, {11}}, seqs;
            auto at = moments(one, true);
            if (!th) {                               // where it is carried out
                Moments close;
                for (size_t i = 0; i < at.size(); i++) if (i + 24 >= at.size() || at[i + 24].first != at[i].first) close.push_back(at[i]);
                at = close;
            }
            std::vector<unsigned> other = {4, 5, 11, 10};
            mc::Opts p = o;
            p.kinds[mc::PREEMPT] = 1;
            p.bounds = "two sessions with a request each (" + std::to_string(one.size() * other.size()) + " pairs), shut down when one has moved each number of bytes (" + std::to_string(at.size()) + " cases" + (th ? "" : ", the last 24 bytes") + "), all schedules from there on with up to " + std::to_string(p.kinds[mc::PREEMPT]) + " preemptions";
            mc::explore("two sessions, schedules", [&] {
                auto &x = at[mc::choose(at.size(), mc::FREE, "moment")];
                unsigned k = other[mc::choose(other.size(), mc::FREE, "other request")];
                during(true, {x.first[0], k == x.first[0] ? 5 : k}, x.second, true);
            }, p);
        }
    }
}
