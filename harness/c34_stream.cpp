// C34: streamed files round-trip, and a failed upload leaves no file. The real server over in-memory sockets with a small
// block size, so that short uploads have many parts, and a codec that can fail for chosen parts.
#include <functional>
#include <mutex>
#include <unordered_map>
#include <hzip_codec/compressor_base.h>
#include <hzip_codec/compressor_enums.h>
#include <hzip_codec/errors/codec.h>
#define private public
#include <hzip_codec/codec_provider.h>
#undef private
#include "net_common.h"

const char *hzv_property = "C34";
using namespace svc;
typedef hzcodec::CodecProvider Provider;

static rainman::ptr<uint8_t> mem(const std::string &s) {
    auto p = rainman::ptr<uint8_t>(s.size());
    memcpy(p.pointer(), s.data(), s.size());
    return p;
}

// Stands for VICTINI: it compresses what is constant, with the help of a model, and refuses parts with a '!'.
struct Toy : hzcodec::AbstractCodec {
    static std::string str(const rainman::ptr<uint8_t> &p, uint64_t n) { return std::string((const char *) p.pointer(), n); }
    static char key(const rainman::ptr<HZ_MState> &m) {
        if (m->size() < 2 || m->data[0] != 'T') throw CodecErrors::InvalidOperationException("Malformed mstate");
        return (char) m->data[1];
    }
    rainman::ptr<HZ_Blob> compress(const rainman::ptr<HZ_Blob> &blob) override {
        auto s = str(blob->data, blob->o_size);
        if (s.find('!') != std::string::npos) throw CodecErrors::InvalidOperationException("refused part");
        auto m = blob->mstate;
        if (m->is_empty()) m->data = mem(std::string("T") + (char) (s.empty() ? 0 : s[0] + 1));
        char k = key(m);
        bool constant = s.size() > 1 && s.find_first_not_of(s[0]) == std::string::npos;
        auto out = rainman::ptr<HZ_Blob>();
        out->header.raw = mem(constant ? std::string(1, (char) ~(s[0] ^ k)) : "raw!");
        out->data = mem(constant ? std::string(1, (char) (s[0] ^ k)) : s);
        out->size = constant ? 1 : s.size();
        out->o_size = s.size();
        out->mstate = m;
        out->mstate->alg = (ALGORITHM) VIC;
        return out;
    }
    rainman::ptr<HZ_Blob> decompress(const rainman::ptr<HZ_Blob> &blob) override {
        char k = key(blob->mstate);
        if (blob->size != 1 || blob->header.size() != 1 || (uint8_t) ~blob->header.raw[0] != blob->data[0])
            throw CodecErrors::InvalidOperationException("Malformed blob");
        auto out = rainman::ptr<HZ_Blob>();
        out->data = mem(std::string(blob->o_size, (char) (blob->data[0] ^ k)));
        out->size = out->o_size = blob->o_size;
        out->mstate = blob->mstate;
        return out;
    }
    rainman::ptr<HZ_MState> train(const rainman::ptr<HZ_Blob> &blob) override {
        auto m = blob->mstate;
        m->data = mem(std::string("T") + (char) blob->data[0]);
        m->alg = (ALGORITHM) VIC;
        return m;
    }
};
static hzcodec::AbstractCodec *real_codec;
template<typename P>
static bool set_codec(hzcodec::AbstractCodec *c) {
    if constexpr (requires { P::codec_map[(ALGORITHM) VIC] = c; }) { P::codec_map[(ALGORITHM) VIC] = c; return true; }
    return false;
}

static std::string image;                  // /f: three parts; /m: a model
static const std::string F = "aaaabcdecccccccc";       // blocks of 4: constant, mixed, constant, constant

static Req upload(const std::string &dir, const std::string &name, const std::string &data, bool piggy = false, const char *model = nullptr, const char *arch = "/t.hz") {
    Req r;
    r.kind = ENCODE; r.archive = dir + arch; r.target = name; r.alg = VIC; r.data = data; r.piggy = piggy;
    if (model) r.model = model;
    r.must_fail = data.find('!') != std::string::npos;
    return r;
}
static Req simple(Kind k, const std::string &dir, const std::string &name, const char *arch = "/t.hz") {
    Req r;
    r.kind = k; r.archive = dir + arch; r.target = name; r.piggy = true;
    return r;
}

static World world0(const std::string &dir) {
    World w;
    auto &a = w.archives[dir + "/t.hz"];
    a.files["/f"] = F;
    a.models["/m"] = {VIC, "T5"};
    w.archives[dir + "/u.hz"];
    return w;
}

static void fresh(const std::string &dir) {
    sched::knobs = sched::Knobs();
    sched::knobs.frozen = true;
    net::reset();
    unlink((dir + "/u.hz").c_str());
    if (!image.empty()) spew(dir + "/t.hz", image); else unlink((dir + "/t.hz").c_str());
}

struct Session {
    Client c;
    void open() {
        if (!c.connect()) mc::internal_error("no server");
        c.handshake("key");
    }
    bool reopen() {
        c = Client();
        try { if (!c.connect()) return false; c.handshake("key"); return true; }
        catch (Gone &) {} catch (Refused &) {}
        return false;
    }
    Answer must(World &w, const Req &r) {
        mc::logf("%s (%zu bytes) ", r.str().c_str(), r.data.size());
        mc::context(r.str());
        Answer a;
        try { a = ask(c, r); }
        catch (Gone &) { mc::failf("a request is not answered", "%s", r.str().c_str()); }
        mc::logf("%s; ", a.ok ? "done" : ("refused: " + a.refusal).c_str());
        judge(w, r, a);
        mc::step();
        return a;
    }
};

static void expect_disk(const std::string &dir, const World &w, const char *when) {
    for (auto &a: w.archives) {
        std::string n = a.first.substr(a.first.rfind('/')), f = dir + n;
        if (access(f.c_str(), F_OK) != 0) {
            if (!a.second.files.empty()) mc::failf("an archive is missing", "%s", n.c_str());
            continue;
        }
        Archive got;
        mc::context(std::string("reading the archives ") + when);
        try { got = contents(f); }
        catch (std::exception &e) { mc::failf("an archive is not readable", "%s %s: %s", n.c_str(), when, e.what()); }
        auto x = compare(got, a.second);
        if (!x.empty()) mc::failf("an archive is not what the replies said", "%s %s: %s", when, n.c_str(), x.c_str());
    }
}

static void finish(Server &s) {
    sched::knobs.frozen = true;
    sched::wait_quiescent();
    s.api->shutdown();
    s.forget();
}

static void with_server(const std::string &dir, uint64_t threads, const std::function<void(Server &, Session &)> &f, uint64_t slots = 2) {
    sched::run([&] {
        Server s;
        s.start(slots, "key", 0, threads);
        Session a;
        a.open();
        f(s, a);
        a.c.close();
        finish(s);
    });
}

static void prepare() {
    std::string dir = mc::scratch();
    image.clear();
    fresh(dir);
    with_server(dir, 1, [&](Server &, Session &a) {
        World w = World();
        Req m;
        m.kind = WRITE_MODEL; m.archive = dir + "/t.hz"; m.model = "/m"; m.alg = VIC; m.data = "T5";
        a.must(w, m);
        a.must(w, upload(dir, "/f", F));
    });
    image = slurp(dir + "/t.hz");
    unlink((dir + "/t.hz").c_str());
}

static std::vector<std::string> shapes(uint64_t n, uint64_t block) {
    std::set<std::string> s;
    std::string distinct, stripes, alternate, part, one;
    for (uint64_t i = 0; i < n; i++) {
        { char c = (char) (1 + i * 7); distinct += c == '!' ? 'A' : c; }
        stripes += (char) ('a' + i / block % 20);                        // every part constant
        alternate += i / block % 2 ? (char) ('a' + i % block) : 'z';      // every other part constant
        one += i / block == (n - 1) / block ? 'z' : (char) (40 + i % 3);
        part += (char) ('a' + i % block);                                // all parts the same
    }
    for (auto &x: {std::string(n, 'x'), std::string(n, '\0'), std::string(n, '\xff'), distinct, stripes, alternate, one, part}) s.insert(x);
    return std::vector<std::string>(s.begin(), s.end());
}

// uploads, then downloads in this and another session, then reading the archive
static void round_trips(uint64_t block, const std::vector<std::string> &datas, bool models, uint64_t threads) {
    std::string dir = mc::scratch();
    set_block_size<Provider>(block);
    fresh(dir);
    World w = world0(dir);
    sched::run([&] {
        Server s;
        s.start(2, "key", 0, threads);
        Session a, b;
        a.open();
        std::vector<std::string> names;
        std::vector<std::string> order;
        for (auto &d: datas) for (int piggy = 0; piggy < 2; piggy++) for (int model = 0; model <= models; model++) {
            std::string n = "/d" + std::to_string(names.size() % 3) + "/n" + std::to_string(names.size());
            names.push_back(n);
            mc::logf("block %lu, ", (unsigned long) block);
            a.must(w, upload(dir, n, d, piggy, model ? "/m" : nullptr));
            order.push_back(d);
            mc::state(mc::mix(block, mc::mix(d.size(), std::hash<std::string>()(d) * 4 + piggy * 2 + model)));
            auto r = a.must(w, simple(DECODE, dir, n));
            uint64_t want = (d.size() + block - 1) / block;
            if (r.parts != want) mc::failf("wrong number of parts", "%lu for %zu bytes in blocks of %lu", (unsigned long) r.parts, d.size(), (unsigned long) block);
        }
        b.open();
        for (auto it = names.rbegin(); it != names.rend(); ++it) b.must(w, simple(DECODE, dir, *it));
        b.must(w, simple(DECODE, dir, "/f"));
        a.c.close();
        b.c.close();
        finish(s);
        expect_disk(dir, w, "after the shutdown");
    });
}

static const char *parts_of(unsigned k) {      // parts of 3 bytes
    static const char *p[] = {"aaa", "bcd", "eee", "fff", "ghi", "jkl"};
    return p[k];
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    real_codec = Provider::algorithm_to_codec((ALGORITHM) VIC);
    uint64_t real_block = Provider::algorithm_to_bsize((ALGORITHM) VIC);
    static Toy toy;
    bool can = set_block_size<Provider>(4) && set_codec<Provider>(&toy);
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    if (!can) {
        mc::logf("the block size or the codec cannot be set: one large upload only");
        o.bounds = "one upload of two parts and a byte";
        mc::enumerate("large uploads", 1, [&](uint64_t) { round_trips(real_block, {std::string(2 * real_block + 1, 'x')}, false, 1); }, o);
        return;
    }
    least_model = 2;
    prepare();
    {
        struct Case { uint64_t block, n; std::vector<std::string> d; };
        std::vector<Case> cases;
        unsigned max = th ? 24 : 13, blocks = th ? 7 : 5;
        for (uint64_t b = 1; b <= blocks; b++) for (uint64_t n = 0; n <= max; n++) cases.push_back({b, n, shapes(n, b)});
        for (uint64_t b: {8, 16, 64}) for (uint64_t k = 0; k < 4; k++) for (int d = -1; d < 2; d++) if (b * k + d < 1000) cases.push_back({b, b * k + d, shapes(b * k + d, b)});
        unsigned len = th ? 9 : 7;
        for (uint64_t b = 1; b <= 3; b++) for (uint64_t n = 1; n <= len; n++) {
            std::vector<std::string> d;
            for (uint64_t k = 0; k < (1u << n); k++) {
                std::string s;
                for (uint64_t i = 0; i < n; i++) s += k >> i & 1 ? 'q' : 'p';
                d.push_back(s);
                if (d.size() == 32) { cases.push_back({b, n, d}); d.clear(); }
            }
            if (!d.empty()) cases.push_back({b, n, d});
        }
        o.bounds = "all sizes up to " + std::to_string(max) + " x block sizes up to " + std::to_string(blocks) + " x 8 kinds of contents, all contents over two letters up to length " + std::to_string(len) +
                   ", boundaries of up to three blocks of 8, 16, 64; with and without a model and parts sent back; 1 or 2 worker threads";
        mc::enumerate("round trips", cases.size() * 2, [&](uint64_t i) {
            auto &c = cases[i / 2];
            round_trips(c.block, c.d, true, 1 + i % 2);
        }, o);
        // many parts
        std::vector<std::pair<uint64_t, uint64_t>> many = {{1, 255}, {1, 256}, {1, 257}, {1, 600}, {2, 1023}};
        if (th) for (auto x: {std::pair<uint64_t, uint64_t>{1, 999}, {3, 2998}}) many.push_back(x);
        o.bounds = "up to 600 parts (thorough: 1000)";
        mc::enumerate("many parts", many.size(), [&](uint64_t i) { round_trips(many[i].first, {shapes(many[i].second, many[i].first)}, false, 1); }, o);
    }
    {
        // all sets of failing parts
        unsigned P = th ? 6 : 5;
        o.bounds = "all sets of failing parts of uploads of up to " + std::to_string(P) + " parts, the last part whole or short, with and without a model and parts sent back; two attempts, then a good one";
        uint64_t N = 0;
        std::vector<std::pair<unsigned, unsigned>> sets;
        for (unsigned p = 1; p <= P; p++) for (unsigned m = 1; m < (1u << p); m++) sets.push_back({p, m});
        N = sets.size();
        mc::enumerate("failing parts", N * 8, [&](uint64_t i) {
            auto [p, mask] = sets[i / 8];
            bool piggy = i & 1, shorter = i & 4;
            const char *model = i & 2 ? "/m" : nullptr;
            std::string bad, good;
            for (unsigned k = 0; k < p; k++) {
                std::string x = parts_of(k);
                if (shorter && k == p - 1) x = x.substr(0, 1);
                good += x;
                if (mask >> k & 1) x[k % x.size()] = '!';
                bad += x;
            }
            std::string dir = mc::scratch();
            set_block_size<Provider>(3);
            fresh(dir);
            World w = world0(dir);
            with_server(dir, 1, [&](Server &, Session &a) {
                for (int k = 0; k < 2; k++) {
                    a.must(w, upload(dir, "/x/y", bad, piggy, model));
                    a.must(w, simple(EXISTS, dir, "/x/y"));
                    a.must(w, simple(EXISTS, dir, "/x"));
                    a.must(w, simple(DECODE, dir, "/x/y"));
                }
                a.must(w, upload(dir, "/f", bad, piggy, model));        // the name is taken
                a.must(w, simple(DECODE, dir, "/f"));
                a.must(w, upload(dir, "/x/y", good, piggy, model));
                a.must(w, simple(DECODE, dir, "/x/y"));
                a.must(w, simple(DELETE_FILE, dir, "/x/y"));
                a.must(w, upload(dir, "/x/y", bad, piggy, model));
                a.must(w, simple(EXISTS, dir, "/x/y"));
                a.must(w, upload(dir, "/x", good + "z", piggy, model));
                a.must(w, simple(DECODE, dir, "/f"));
                mc::state(mc::mix(p, mask * 8 + i % 8));
            });
            expect_disk(dir, w, "after the shutdown");
        }, o);
    }
    // what happened to an upload that may have been interrupted
    enum Fate { STORED, ABSENT, UNKNOWN };
    auto resume = [](const std::string &dir, Session &a, World &w, const Req &r, Fate fate) {
        World y = w;
        bool can = r.kind == ENCODE && verdict(y, r) == YES;
        if (!a.reopen()) mc::fail("the service does not serve after a client has gone");
        if (r.kind == ENCODE) {
            auto x = ask(a.c, simple(EXISTS, dir, *r.target));
            if (!x.ok || x.data.size() != 1) mc::fail("a valid request is refused", "whether the file exists");
            if (x.data[0] && fate == ABSENT) mc::failf("an upload that was not completed leaves a file", "%s", r.str().c_str());
            if (x.data[0] && !can) mc::failf("an upload that must be refused leaves a file", "%s", r.str().c_str());
            if (!x.data[0] && fate == STORED) mc::failf("a completed upload left no file", "%s", r.str().c_str());
            if (x.data[0]) {
                verdict(w, r);
                a.must(w, simple(DECODE, dir, *r.target));
                a.must(w, simple(DELETE_FILE, dir, *r.target));
            } else a.must(w, simple(DECODE, dir, *r.target));
            a.must(w, upload(dir, *r.target, "qqqrst"));
            a.must(w, simple(DECODE, dir, *r.target));
        }
        a.must(w, simple(DECODE, dir, "/f"));
    };
    auto interrupted = [&](const std::string &dir, Server &s, Session &a, World &w, const Req &r) {
        Fate fate = UNKNOWN;
        uint64_t total = 0, g0 = a.c.given;
        for (auto &f: fields(r)) total += f.size();
        mc::logf("%s ", r.str().c_str());
        mc::context(r.str());
        try {
            auto x = ask(a.c, r);
            fate = x.ok ? STORED : ABSENT;
            mc::logf("%s; ", x.ok ? "done" : "refused");
            if (x.ok && r.kind == DECODE && x.data != F && !a.c.c->faults) mc::fail("a downloaded file differs from what was uploaded");
        } catch (Gone &) {
            mc::logf("the connection ends; ");
            if (a.c.given - g0 < total) fate = ABSENT;
        } catch (std::exception &e) {
            if (!a.c.c->faults) mc::failf("the parts sent back do not decode to the data", "%s", e.what());
            if (a.c.given - g0 < total) fate = ABSENT;
        } catch (Vanished &) {
            mc::logf("the client vanishes; ");
            if (a.c.given - g0 < total) fate = ABSENT;
        }
        return fate;
    };
    std::vector<std::function<Req(const std::string &)>> jobs;
    for (int piggy = 0; piggy < 2; piggy++) for (int model = 0; model < 2; model++)
        jobs.push_back([=](const std::string &dir) { return upload(dir, "/g/h", "aaabcddd!ddeee" + std::string(1, 'z'), piggy, model ? "/m" : nullptr); });
    for (int piggy = 0; piggy < 2; piggy++) for (int model = 0; model < 2; model++)
        jobs.push_back([=](const std::string &dir) { return upload(dir, "/g/h", "aaabcddddddeeez", piggy, model ? "/m" : nullptr); });
    jobs.push_back([](const std::string &dir) { return simple(DECODE, dir, "/f"); });
    {
        struct At { unsigned job; int64_t k; bool half; };
        std::vector<At> at;
        for (unsigned j = 0; j < jobs.size(); j++) {
            uint64_t n = 0;
            std::string dir = mc::scratch();
            set_block_size<Provider>(3);
            fresh(dir);
            with_server(dir, 1, [&](Server &, Session &a) {
                auto m0 = a.c.moved;
                ask(a.c, jobs[j](dir));
                n = a.c.moved - m0;
            });
            for (uint64_t k = 1; k <= n; k++) for (int half = 0; half < 2; half++) at.push_back({j, (int64_t) k, (bool) half});
        }
        o.bounds = "uploads and downloads of several parts (" + std::to_string(jobs.size()) + " requests), the client vanishing or no longer sending after every byte (" + std::to_string(at.size()) + " cases); then the name is used again";
        mc::enumerate("vanishing clients", at.size(), [&](uint64_t i) {
            auto &x = at[i];
            std::string dir = mc::scratch();
            set_block_size<Provider>(3);
            fresh(dir);
            World w = world0(dir);
            with_server(dir, 1, [&](Server &s, Session &a) {
                auto r = jobs[x.job](dir);
                a.c.life = x.k;
                a.c.half = x.half;
                auto fate = interrupted(dir, s, a, w, r);
                if (x.half) { sched::wait_quiescent(); a.c.close(); }
                mc::state(mc::mix(x.job * 2 + x.half, x.k));
                resume(dir, a, w, r, fate);
            }, 1);
            expect_disk(dir, w, "after the shutdown");
        }, o);
    }
    {
        mc::Opts p = o;
        p.kinds[mc::FAULT] = th ? 3 : 2;
        p.total = 3;
        p.bounds = "the same requests with up to " + std::to_string(p.kinds[mc::FAULT]) + " failing sends or receives in the server";
        mc::explore("network faults", [&] {
            unsigned j = mc::choose(jobs.size(), mc::FREE, "request");
            std::string dir = mc::scratch();
            set_block_size<Provider>(3);
            fresh(dir);
            World w = world0(dir);
            with_server(dir, 1, [&](Server &s, Session &a) {
                auto r = jobs[j](dir);
                net::knobs.send_faults = net::knobs.recv_faults = true;
                auto fate = interrupted(dir, s, a, w, r);
                net::knobs.send_faults = net::knobs.recv_faults = false;
                a.c.close();
                mc::state(mc::mix(j, fate));
                resume(dir, a, w, r, fate);
            }, 1);
            expect_disk(dir, w, "after the shutdown");
        }, p);
    }
    {
        // histories
        unsigned depth = th ? 6 : 5;
        auto menu = [](const std::string &dir) {
            return std::vector<Req>{
                    upload(dir, "/a", "aaaabbbbcccc"), upload(dir, "/a", "xyzwaaaaqrst", true, "/m"), upload(dir, "/a", "aaaabb!bcccc"), upload(dir, "/b", "bbbbaaaacccc"),
                    upload(dir, "/f", "zzzzz"), simple(DELETE_FILE, dir, "/a"), simple(DELETE_FILE, dir, "/f"), simple(DECODE, dir, "/a"), simple(DECODE, dir, "/f")};
        };
        unsigned N = menu("/x").size();
        o.bounds = "all histories of up to " + std::to_string(depth) + " of " + std::to_string(N) + " uploads, failing uploads, deletions and downloads, sessions taking turns";
        mc::explore("histories", [&] {
            std::vector<unsigned> h;
            for (unsigned i = 0; i < depth; i++) {
                unsigned k = mc::choose(N + (i > 0), mc::FREE, "request");
                if (k == N) break;
                h.push_back(k);
            }
            std::string dir = mc::scratch();
            set_block_size<Provider>(4);
            fresh(dir);
            World w = world0(dir);
            auto m = menu(dir);
            with_server(dir, 1, [&](Server &s, Session &a) {
                Session b;
                b.open();
                for (unsigned i = 0; i < h.size(); i++) (i % 2 ? b : a).must(w, m[h[i]]);
                for (auto n: {"/a", "/b", "/f"}) a.must(w, simple(DECODE, dir, n));
                b.c.close();
            });
            expect_disk(dir, w, "after the shutdown");
        }, o);
    }
    {
        // two sessions at once
        typedef std::vector<Req> Seq;
        auto seqs = [](const std::string &dir) {
            std::vector<Seq> v;
            v.push_back({upload(dir, "/a", "aaaabcde")});
            v.push_back({upload(dir, "/a", "zzzzyyyyx")});
            v.push_back({upload(dir, "/a", "aaaab!cc")});
            v.push_back({upload(dir, "/b", "bbbbcdef", true)});
            v.push_back({upload(dir, "/a/b", "kkkk")});
            v.push_back({simple(DECODE, dir, "/f")});
            v.push_back({simple(DELETE_FILE, dir, "/f")});
            v.push_back({simple(DELETE_FILE, dir, "/f"), upload(dir, "/f", "ttttuuuuvvvvwwww")});
            v.push_back({simple(DELETE_FILE, dir, "/f"), upload(dir, "/g", "1111222233334444")});
            v.push_back({upload(dir, "/b", "xxxx", false, nullptr, "/u.hz"), simple(DECODE, dir, "/b", "/u.hz")});
            v.push_back({upload(dir, "/b", "pqrsmmmm", false, "/m"), simple(DECODE, dir, "/b")});
            return v;
        };
        unsigned N = seqs("/x").size();
        std::vector<std::pair<unsigned, unsigned>> pairs;
        for (unsigned i = 0; i < N; i++) for (unsigned j = i; j < N; j++) pairs.push_back({i, j});
        std::vector<std::pair<unsigned, unsigned>> core = {{0, 1}, {0, 2}, {2, 2}, {0, 4}, {5, 6}, {5, 7}, {5, 8}, {1, 8}, {3, 10}};
        auto body = [&](unsigned threads, const std::vector<std::pair<unsigned, unsigned>> &pairs) {
            auto [i, j] = pairs[mc::choose(pairs.size(), mc::FREE, "pair of sessions")];
            std::string dir = mc::scratch();
            set_block_size<Provider>(4);
            fresh(dir);
            World w = world0(dir), final_world;
            Seq q[2] = {seqs(dir)[i], seqs(dir)[j]};
            with_server(dir, threads, [&](Server &s, Session &a) {
                Session b;
                b.open();
                sched::wait_quiescent();
                struct Out { std::vector<Answer> a; bool gone = false, over = false; } out[2];
                Session *x[2] = {&a, &b};
                std::string what;
                for (int k = 0; k < 2; k++) for (auto &r: q[k]) what += (k ? "session 2: " : "session 1: ") + r.str() + "; ";
                mc::logf("%s ", what.c_str());
                mc::context(what);
                sched::knobs.frozen = false;
                sched::knobs.delays = true;
                for (int k = 0; k < 2; k++) std::thread([&, k] {
                    try { for (auto &r: q[k]) { out[k].a.push_back(ask(x[k]->c, r)); mc::step(); } }
                    catch (Gone &) { out[k].gone = true; }
                    out[k].over = true;
                }).detach();
                sched::wait_until([&] { return out[0].over && out[1].over; }, "both sessions");
                sched::knobs.frozen = true;
                sched::wait_quiescent();
                for (auto &y: out) if (y.gone) mc::fail("a request is not answered", what);
                for (int k = 0; k < 2; k++) for (auto &y: out[k].a) mc::logf("%d %s; ", k + 1, y.ok ? "done" : ("refused: " + y.refusal).c_str());
                // some order must explain the answers
                std::vector<World> worlds;
                std::string why;
                std::function<void(World, unsigned, unsigned)> go = [&](World v, unsigned n0, unsigned n1) {
                    if (n0 == q[0].size() && n1 == q[1].size()) { worlds.push_back(v); return; }
                    for (int k = 0; k < 2; k++) {
                        unsigned n = k ? n1 : n0;
                        if (n == q[k].size()) continue;
                        auto &r = q[k][n];
                        auto &ans = out[k].a[n];
                        World y = v;
                        bool yes = verdict(y, r) != NO;
                        bool right = yes == ans.ok;
                        // A download that a deletion overtakes
                        if (yes && !ans.ok && r.kind == DECODE) for (auto &z: q[1 - k]) if (z.kind == DELETE_FILE && z.target == r.target) right = true;
                        if (right && ans.ok && r.kind == DECODE && ans.data != y.archives.at(*r.archive).files.at(*r.target)) right = false;
                        if (right && ans.ok && r.kind == ENCODE && r.piggy && ans.data != r.data) mc::fail("the parts sent back do not decode to the data", r.str());
                        if (right) go(y, n0 + !k, n1 + k);
                    }
                };
                go(w, 0, 0);
                if (worlds.empty()) {
                    std::string all;
                    for (int k = 0; k < 2; k++) for (size_t n = 0; n < q[k].size(); n++)
                        all += q[k][n].str() + (out[k].a[n].ok ? " succeeded " : " was refused ") + (q[k][n].kind == DECODE ? "[" + out[k].a[n].data + "]; " : "; ");
                    mc::fail("no order of the requests explains the answers", all);
                }
                for (int k = 0; k < 2; k++) for (auto &y: out[k].a) mc::outcome(mc::mix(i * N + j, y.ok));
                // what is stored
                std::map<std::string, std::string> got;
                for (auto n: {"/a", "/b", "/f", "/g", "/a/b"}) {
                    auto y = ask(a.c, simple(DECODE, dir, n));
                    if (y.ok) got[n] = y.data;
                }
                bool found = false;
                for (auto &v: worlds) if (v.archives.at(dir + "/t.hz").files == got) { found = true; final_world = v; }
                if (!found) {
                    std::string all;
                    for (auto &f: got) all += f.first + " [" + f.second + "] ";
                    mc::fail("the stored files are not what the answers say", what + "then: " + all);
                }
                b.c.close();
            });
            expect_disk(dir, final_world, "after the shutdown");
        };
        mc::Opts p = o;
        p.kinds[mc::PREEMPT] = th ? 2 : 1;
        p.total = 100;
        auto bounds = [&](const auto &v, unsigned t) { return std::to_string(v.size()) + " pairs of sessions with one or two requests, " + std::to_string(t) + " worker threads, all schedules with up to " + std::to_string(p.kinds[mc::PREEMPT]) + " delays"; };
        for (unsigned t = 1; t < 3; t++) {
            p.bounds = bounds(pairs, t);
            mc::explore(t > 1 ? "two sessions, two workers" : "two sessions", [&, t] { body(t, pairs); }, p);
        }
        p.kinds[mc::PREEMPT] = th ? 3 : 2;
        p.bounds = bounds(core, 2);
        mc::explore("two sessions, deeper", [&] { body(2, core); }, p);
    }
    {
        // the real codec
        set_codec<Provider>(real_codec);
        image.clear();
        least_model = 65536 * 8;
        std::vector<std::pair<uint64_t, uint64_t>> sizes = {{64, 0}, {64, 1}, {64, 64}, {64, 65}, {64, 128}, {64, 200}, {300, 700}};
        if (th) for (int d = -1; d < 2; d++) sizes.push_back({real_block, real_block + d});
        auto real = [&](uint64_t i) {
            auto [b, n] = sizes[i];
            std::string dir = mc::scratch();
            set_block_size<Provider>(b);
            fresh(dir);
            World w;
            w.archives[dir + "/t.hz"];
            std::vector<std::string> datas = {std::string(n, 'x')};
            if (n < 1000) for (auto &x: shapes(n, b)) datas.push_back(x);
            std::string text;
            for (uint64_t k = 0; k < n; k++) text += (char) ('a' + k * k % 23 % 7);
            datas.push_back(text);
            with_server(dir, 1, [&](Server &, Session &a) {
                for (size_t k = 0; k < datas.size(); k++) {
                    auto r = upload(dir, "/" + std::to_string(k), datas[k], k % 2);
                    r.must_fail = false;
                    a.must(w, r);
                    a.must(w, simple(DECODE, dir, "/" + std::to_string(k)));
                }
            });
            expect_disk(dir, w, "after the shutdown");
        };
        o.bounds = "the real codec, blocks of 64 and 300 (thorough: its own block size - 1, + 0, + 1)";
        o.hang_s = 120;
        mc::enumerate("real codec", sizes.size(), real, o);
    }
}
