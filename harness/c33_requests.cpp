// C33: every request gets exactly one well-formed reply and the session goes on. All short sequences of requests of every
// kind, valid and not, to the real server over in-memory sockets; every invalid word at every level; a client that vanishes
// at every byte; malformed contents; two sessions at once.
#include "net_common.h"

const char *hzv_property = "C33";
using namespace svc;

static std::string image;                 // an archive with a file and a model
static World world0(const std::string &dir);
static std::string model_bytes;           // VICTINI's model in it
static Req enc, part_vic;                 // a part that a client got from the server
static std::string part_model, part_header, part_data, part_text;

static std::vector<std::string> long_names() {
    std::vector<std::string> v;
    for (int n: {127, 128, 255, 256, 300, 1000, 32767, 32768, 65000}) v.push_back("/l/" + std::string(n, 'n'));
    for (int i = 0; i < 300; i++) v.push_back("/l/many/" + std::to_string(i) + (i % 3 ? "" : "/x"));
    return v;
}
static std::string long_model() { return "/l/" + std::string(257, 'm'); }

static rainman::ptr<uint8_t> mem(const std::string &s) {
    auto p = rainman::ptr<uint8_t>(s.size());
    memcpy(p.pointer(), s.data(), s.size());
    return p;
}

static void prepare() {
    sched::knobs = sched::Knobs();
    sched::run([&] {
        sched::knobs.frozen = true;
        std::string f = mc::scratch() + "/image.hz";
        auto codec = hzcodec::CodecProvider::algorithm_to_codec((ALGORITHM) VIC);
        {
            HZ_Archive a(f);
            a.load();
            auto b = rainman::ptr<HZ_Blob>();
            b->data = mem(text(3));
            b->o_size = b->size = text(3).size();
            auto m = codec->train(b);
            model_bytes = std::string((const char *) m->data.pointer(), m->size());
            a.install_mstate("/m", m);
            auto raw = rainman::ptr<HZ_Blob>();
            raw->data = mem(text(1));
            raw->o_size = raw->size = text(1).size();
            a.inject_mstate(rainman::ptr<HZ_MState>(), raw);
            HZ_ArchiveFile e{};
            e.blob_ids = rainman::ptr<uint64_t>(1);
            e.blob_ids[0] = a.write_blob(raw);
            a.create_file_entry("/f", e);
            auto bad = rainman::ptr<HZ_MState>();
            bad->alg = (ALGORITHM) VIC;
            bad->data = mem("xyz");
            a.install_mstate("/d/bad", bad);
            // long names, many entries, a file of no parts
            HZ_ArchiveFile none{};
            none.blob_ids = rainman::ptr<uint64_t>(0);
            for (auto &n: long_names()) a.create_file_entry(n, none);
            a.install_mstate(long_model(), bad);
            a.close();
        }
        image = slurp(f);
        unlink(f.c_str());
        part_text = text(3);
        auto b = rainman::ptr<HZ_Blob>();
        b->data = mem(part_text);
        b->o_size = b->size = part_text.size();
        auto c = codec->compress(b);
        part_model = std::string((const char *) c->mstate->data.pointer(), c->mstate->size());
        part_header = std::string((const char *) c->header.raw.pointer(), c->header.size());
        part_data = std::string((const char *) c->data.pointer(), c->size);
    });
}

static World world0(const std::string &dir) {
    World w;
    auto &a = w.archives[dir + "/t.hz"];
    a.files["/f"] = text(1);
    a.models["/m"] = {VIC, model_bytes};
    a.models["/d/bad"] = a.models[long_model()] = {VIC, "xyz"};
    for (auto &n: long_names()) a.files[n] = "";
    return w;
}

static std::vector<Req> menu(const std::string &dir, bool small, bool wild = false) {
    std::vector<Req> m;
    std::string T = dir + "/t.hz", U = dir + "/u.hz", N = dir + "/nowhere/x.hz";
    typedef std::optional<std::string> S;
    auto q = [&](Kind k, S a, S t, bool p) { Req r; r.kind = k; r.archive = a; r.target = t; r.piggy = p; m.push_back(r); };
    auto e = [&](Kind k, S a, S t, S mo, uint64_t alg, int d, bool p) { Req r; r.kind = k; r.archive = a; r.target = t; r.model = mo; r.alg = alg; r.data = text(d); r.piggy = p; m.push_back(r); };
    auto ms = [&](Kind k, S a, S mo, uint64_t alg, const std::string &d, bool p) { Req r; r.kind = k; r.archive = a; r.model = mo; r.alg = alg; r.data = d; r.piggy = p; m.push_back(r); };
    auto bad = [&](std::vector<std::string> w, const char *n) { Req r; r.kind = BAD; r.words = w; r.note = n; m.push_back(r); };
    S no;
    q(HEALTH, no, no, true);
    q(EXISTS, T, "/f", true);
    q(LIST, T, "/", true);
    q(DELETE_FILE, T, "/f", false);
    e(ENCODE, T, "/g", no, VIC, 3, false);
    e(ENCODE, T, "/f", no, VIC, 2, false);
    q(EXISTS, T, "bad", true);
    e(ENCODE, T, "/f/x", no, VIC, 4, false);                    // below a file: refused after the data were received
    e(ENCODE, T, "/f", "/m", VIC, 3, true);
    e(ENCODE, T, "/h", "/none", VIC, 4, false);
    { Req r; r.kind = DECODE; r.archive = T; r.target = "/g"; r.piggy = true; m.push_back(r); }
    { Req r; r.kind = DECODE; r.archive = T; r.target = "/f"; r.piggy = true; m.push_back(r); }
    q(DELETE_MODEL, T, "/m", false);
    bad({byte(0x55)}, "unknown word");
    if (small) return m;
    e(ENCODE, T, "/f", no, 77, 4, false);                       // unknown algorithm
    e(ENCODE, T, "/h", no, SHA, 4, false);                      // not an image
    e(ENCODE, T, "/h", "/d/bad", VIC, 4, false);                // a model that is none
    e(ENCODE, T, "/h", "/m", VIC, 3, false);
    e(ENCODE, no, no, no, VIC, 4, true);
    e(ENCODE, no, "/h", no, VIC, 4, false);                     // nowhere to store it
    e(ENCODE, no, "/h", no, VIC, 0, false);
    e(ENCODE, U, "/z", no, VIC, 0, false);
    e(ENCODE, no, no, no, VIC, 4, false);
    e(ENCODE, T, "/h", no, 0, 4, false);                        // no algorithm
    e(ENCODE, T, "relative", no, VIC, 4, false);
    e(ENCODE, N, "/h", no, VIC, 4, false);
    e(ENCODE, no, no, "/m", VIC, 4, true);                      // a model of no archive
    e(TRAIN, T, no, "/m", VIC, 3, false);
    e(TRAIN, U, no, "/m", VIC, 4, false);
    e(TRAIN, T, no, "/d/bad", VIC, 4, false);
    e(TRAIN, T, no, "/n", 77, 4, false);
    e(TRAIN, T, no, "/m/x", VIC, 4, false);                     // below a model
    e(TRAIN, T, no, no, VIC, 4, false);
    e(TRAIN, no, no, "/n", VIC, 4, false);
    e(TRAIN, T, no, "/n", 0, 4, false);
    q(EXISTS, U, "/z", true);
    q(EXISTS, T, "/f", false);
    q(EXISTS, no, "/f", true);
    q(EXISTS, T, no, true);
    q(EXISTS, N, "/f", true);
    q(LIST, T, "/none", true);
    q(LIST, T, "/f", false);
    q(LIST, no, "/", true);
    q(LISTM, T, "/", true);
    q(LISTM, T, "/d", true);
    q(LISTM, T, "//", true);
    q(LIST, T, "/l", true);
    q(LIST, T, "/l/many", true);
    q(LISTM, T, "/l", true);
    q(EXISTS, T, "/l/" + std::string(32768, 'n'), true);
    q(EXISTS, T, "/l/" + std::string(32766, 'n'), true);
    { Req r; r.kind = DECODE; r.archive = T; r.target = long_names()[3]; r.piggy = true; m.push_back(r); }
    ms(READ_MODEL, T, long_model(), 0, "", true);
    q(DELETE_FILE, T, "/none", false);
    q(DELETE_FILE, T, "a b", false);
    q(DELETE_FILE, no, "/f", false);
    q(DELETE_MODEL, T, "/d/bad", false);
    q(DELETE_MODEL, T, no, false);
    q(MEM, no, no, false);
    { Req r; r.kind = DECODE; r.archive = T; r.target = "/f"; m.push_back(r); }
    { Req r; r.kind = DECODE; r.target = "/f"; r.piggy = true; m.push_back(r); }
    { Req r; r.kind = DECODE; r.archive = T; r.piggy = true; m.push_back(r); }
    { Req r; r.kind = DECODE; r.archive = U; r.target = "/z"; r.piggy = true; m.push_back(r); }
    { Req r; r.kind = DECODE; r.archive = T; r.target = "//"; r.piggy = true; m.push_back(r); }
    ms(WRITE_MODEL, T, "/n", VIC, "abc", false);
    ms(WRITE_MODEL, T, "/m", VIC, "abc", false);
    ms(WRITE_MODEL, T, "/n", 5, "", false);
    ms(WRITE_MODEL, T, no, VIC, "abc", false);
    ms(WRITE_MODEL, no, "/n", VIC, "abc", false);
    ms(READ_MODEL, T, "/m", 0, "", true);
    ms(READ_MODEL, T, "/n", 0, "", true);
    ms(READ_MODEL, T, "/m", 0, "", false);
    ms(READ_MODEL, no, "/m", 0, "", true);
    ms(READ_MODEL, T, no, 0, "", true);
    bad({byte(hzapi::API_CTL_QUERY), byte(0x55)}, "unknown query");
    bad({byte(hzapi::API_CTL_STREAM), byte(0x55)}, "unknown stream");
    bad({byte(hzapi::API_CTL_STREAM), byte(0), byte(0x55)}, "unknown encode word");
    bad({byte(hzapi::API_CTL_STREAM), byte(1), byte(0x55)}, "unknown decode word");
    bad({byte(hzapi::API_CTL_STREAM), byte(2), byte(0x55)}, "unknown model word");
    bad({byte(hzapi::API_CTL_STREAM), byte(3), byte(0x55)}, "unknown model word");
    bad({byte(hzapi::API_CTL_STREAM), byte(1), byte(hzapi::DECODE_CTL_MSTATE_ADDR)}, "model address without archive");
    // parts sent back
    auto blob = [&](S a, S mo, bool in, bool p, const char *note) {
        Req r; r.kind = PART; r.archive = a; r.model = mo; r.piggy = p; r.alg = VIC; r.note = note;
        if (in) r.inline_model = part_model;
        r.header = part_header; r.data = part_data; r.o_size = part_text.size(); r.want = part_text;
        m.push_back(r);
        return m.size() - 1;
    };
    blob(no, no, true, true, "");
    m[blob(no, no, false, true, "no model")].must_fail = true;
    m[blob(no, no, true, false, "")].must_fail = true;
    { auto i = blob(no, no, true, true, "raw"); m[i].alg = UNC; m[i].header = ""; m[i].data = m[i].want = text(4); m[i].o_size = text(4).size(); m[i].inline_model = ""; }
    { auto i = blob(no, no, true, true, "raw, longer than it is"); m[i].alg = UNC; m[i].header = ""; m[i].data = text(4); m[i].o_size = text(4).size() + 9; m[i].inline_model = ""; m[i].must_fail = true; }
    if (!wild) return m;
    // contents that no server sent
    auto mal = [&](const char *n) -> Req & { auto i = blob(no, no, true, true, n); m[i].must_fail = true; return m[i]; };
    mal("no header").header = "";
    mal("short header").header = part_header.substr(0, 7);
    mal("position behind the end").header = le(part_text.size() + 1, 8);
    mal("huge position").header = le(~0ull, 8);
    mal("no data").data = "";
    mal("short data").data = part_data.substr(0, 4);
    mal("cut data").data = part_data.substr(0, part_data.size() - 4);
    mal("no model").inline_model = "";
    mal("short model").inline_model = part_model.substr(0, 1000);
    mal("model cut in the last row").inline_model = part_model.substr(0, 65536 * 8 - 8);
    mal("model of huge numbers").inline_model = std::string(65536 * 8, '\xff');
    { std::string h(65536 * 8, 0); for (size_t i = 0; i < h.size(); i += 8) h[i] = 0x40; mal("model whose numbers add up to 2^64").inline_model = h; }
    mal("huge length").o_size = 1ull << 60;
    mal("unknown algorithm").alg = 77;
    // anything may come out of these, but one reply
    auto any = [&](const char *n) -> Req & { auto i = blob(no, no, true, true, n); m[i].anything = true; return m[i]; };
    for (unsigned i: {0, 1, 17, 50, 89, 90}) any("another position").header = le(i, 8);
    for (size_t i = 0; i < part_data.size(); i++) { auto d = part_data; d[i] ^= 0x11; any("changed data").data = d; }
    for (uint64_t n: {0, 1, 7, 89, 91, 95, 400, 4000}) any("another length").o_size = n;
    any("other model").inline_model = std::string(65537 * 8, 0);
    any("longer header").header = part_header + "abc";
    for (size_t i: {0, 8, 511 * 8, 65535 * 8}) { auto d = part_model; d[i] ^= 0x7f; any("changed model").inline_model = d; }
    // models that are used later
    ms(WRITE_MODEL, T, "/huge", VIC, std::string(65536 * 8, '\xff'), false);
    e(ENCODE, T, "/h", "/huge", VIC, 3, false); m.back().must_fail = true;
    e(ENCODE, T, "/h", "/huge", VIC, 4, true); m.back().must_fail = true;
    e(TRAIN, T, no, "/huge", VIC, 3, false); m.back().must_fail = true;
    return m;
}

static void quiet(Client &c, bool more, const std::string &what) {
    sched::wait_quiescent();
    std::string rest = c.c->to_client;
    if (more && (c.c->ended() || c.c->server_closes)) mc::failf("the session ends", "after %s", what.c_str());
    if (more && rest != byte(0)) mc::failf(rest.empty() ? "the session does not go on" : "more than one reply", "after %s: %zu bytes are left, beginning with %02x", what.c_str(), rest.size(), rest.empty() ? 0 : (uint8_t) rest[0]);
    if (!more && !rest.empty()) mc::failf("more than one reply", "after %s", what.c_str());
    if (!more && !c.c->server_closes) mc::failf("the session is not closed", "after %s", what.c_str());
}

static void files(const std::string &dir) {
    spew(dir + "/t.hz", image);
    unlink((dir + "/u.hz").c_str());
}

// everything has ended: the next client is served, and the disk holds one of these worlds
static void afterwards(Server &s, const std::vector<World> &worlds) {
    sched::wait_quiescent();
    if (net::open_server_fds()) mc::fail("the socket of an ended session stays open");
    Client d;
    d.connect();
    try {
        d.handshake("key");
        Req h;
        h.kind = HEALTH;
        if (!ask(d, h).ok) mc::fail("the next session is not served");
    } catch (Gone &) { mc::fail("the next session is not served"); }
    catch (Refused &) { mc::fail("the next session is not served"); }
    d.close();
    sched::wait_quiescent();
    s.api->shutdown();
    std::map<std::string, Archive> got;
    std::string d1;
    for (auto &w: worlds) {
        d1 = "";
        for (auto &a: w.archives) {
            mc::context("reading the archives back");
            if (!got.count(a.first)) got[a.first] = contents(a.first);
            auto x = compare(got[a.first], a.second);
            if (!x.empty()) d1 = a.first.substr(a.first.rfind('/')) + ": " + x;
        }
        if (d1.empty()) break;
    }
    if (!d1.empty()) mc::failf("the archive is not what the replies said", "%s", d1.c_str());
    s.forget();
}

// a sequence of requests in one session, then the end
static void sequence(const std::vector<Req> &rs) {
    std::string dir = mc::scratch();
    files(dir);
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a request is never answered";
    sched::run([&] {
        net::reset();
        Server s;
        s.start(1, "key");
        World w = world0(dir);
        {
            Client c;
            if (!c.connect()) mc::internal_error("no server");
            try {
                c.handshake("key");
                quiet(c, true, "the handshake");
                for (auto &r: rs) {
                    mc::logf("%s", r.str().c_str());
                    mc::context(r.str());
                    auto a = ask(c, r);
                    mc::step();
                    mc::state(mc::mix(mc::hash_str(r.str()), a.ok));
                    judge(w, r, a);
                    quiet(c, r.kind != CLOSE, r.str());
                    if (r.kind == CLOSE) break;
                }
            } catch (Gone &) {
                mc::failf("the session ends", "in a request");
            } catch (Refused &e) {
                mc::failf("the right key is refused", "%s", e.msg.c_str());
            }
            c.close();
        }
        afterwards(s, {w});
    });
}

// A client that vanishes in the middle. Returns the bytes that a whole exchange moves.
static uint64_t vanishing(const Req &r, int64_t life, bool half) {
    std::string dir = mc::scratch();
    files(dir);
    sched::knobs = sched::Knobs();
    sched::knobs.deadlock_sig = "a session never ends";
    uint64_t moved = 0;
    sched::run([&] {
        if (life < 0) sched::knobs.frozen = true;
        net::reset();
        Server s;
        s.start(1, "key");
        World w = world0(dir), after = w;
        bool may = verdict(after, r) != NO;
        {
            Client c;
            if (!c.connect()) mc::internal_error("no server");
            mc::logf("%s, the client vanishes after %ld bytes%s", r.str().c_str(), life, half ? " (its sending side only)" : "");
            mc::context(r.str());
            try {
                c.life = life;
                c.half = half;
                c.handshake("key");
                ask(c, r);
                if (life >= 0) c.vanish();
            } catch (Vanished &) {
                mc::step();
            } catch (Gone &) {
                mc::failf("the session ends", "in a request");
            } catch (Refused &e) {
                mc::failf("the right key is refused", "%s", e.msg.c_str());
            }
            moved = c.moved;
            if (!half || life < 0) c.close();
        }
        if (may) afterwards(s, {w, after}); else afterwards(s, {w});
    });
    return moved;
}

// All words at every level
static const std::vector<std::pair<std::string, std::pair<std::vector<std::string>, std::set<int>>>> &levels() {
    using namespace hzapi;
    static std::vector<std::pair<std::string, std::pair<std::vector<std::string>, std::set<int>>>> v = {
        {"session", {{}, {API_CTL_STREAM, API_CTL_QUERY, API_CTL_HEALTH_CHECK, API_CTL_CLOSE}}},
        {"query", {{byte(API_CTL_QUERY)}, {QUERY_CTL_ARCHIVE, QUERY_CTL_TARGET, QUERY_CTL_PIGGYBACK, QUERY_CTL_CHECK_IF_FILE_EXISTS, QUERY_CTL_LIST_FILE_SYSTEM, QUERY_CTL_LIST_MSTATE_SYSTEM, QUERY_CTL_DELETE_FILE, QUERY_CTL_DELETE_MSTATE, QUERY_CTL_GET_MEM_USAGE}}},
        {"stream", {{byte(API_CTL_STREAM)}, {STREAM_CTL_ENCODE, STREAM_CTL_DECODE, STREAM_CTL_WRITE_MSTATE, STREAM_CTL_READ_MSTATE}}},
        {"encode", {{byte(API_CTL_STREAM), byte(STREAM_CTL_ENCODE)}, {ENCODE_CTL_STREAM, ENCODE_CTL_MSTATE_ADDR, ENCODE_CTL_ARCHIVE, ENCODE_CTL_DEST, ENCODE_CTL_ALGORITHM, ENCODE_CTL_PIGGYBACK, ENCODE_CTL_TRAIN}}},
        {"decode", {{byte(API_CTL_STREAM), byte(STREAM_CTL_DECODE)}, {DECODE_CTL_STREAM, DECODE_CTL_MSTATE_ADDR, DECODE_CTL_ARCHIVE, DECODE_CTL_SRC, DECODE_CTL_ALGORITHM, DECODE_CTL_PIGGYBACK, DECODE_CTL_MSTATE_STREAM, DECODE_CTL_BLOB_STREAM}}},
        {"write model", {{byte(API_CTL_STREAM), byte(STREAM_CTL_WRITE_MSTATE)}, {MSTATE_CTL_ARCHIVE, MSTATE_CTL_ADDR, MSTATE_CTL_STREAM, MSTATE_CTL_PIGGYBACK}}},
        {"read model", {{byte(API_CTL_STREAM), byte(STREAM_CTL_READ_MSTATE)}, {MSTATE_CTL_ARCHIVE, MSTATE_CTL_ADDR, MSTATE_CTL_STREAM, MSTATE_CTL_PIGGYBACK}}},
    };
    return v;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    prepare();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    {
        auto N = menu("/x", false).size();
        o.bounds = "all sequences of 1-2 requests out of " + std::to_string(N);
        mc::explore("sequences", [&] {
            auto m = menu(mc::scratch(), false);
            std::vector<Req> rs;
            for (int i = 0; i < 2; i++) {
                unsigned k = mc::choose(m.size() + (i == 1), mc::FREE, "request");
                if (k < m.size()) rs.push_back(m[k]);
            }
            sequence(rs);
        }, o);
    }
    {
        auto A = menu("/x", false).size(), N = menu("/x", false, true).size();
        o.bounds = std::to_string(N - A) + " requests with malformed contents, each followed by each of " + std::to_string(th ? menu("/x", true).size() : 3) + " requests";
        mc::explore("malformed contents", [&] {
            auto m = menu(mc::scratch(), false, true);
            std::vector<Req> rs = {m[A + mc::choose(N - A - 3, mc::FREE, "malformed")]};
            if (rs[0].kind == WRITE_MODEL) {
                unsigned k = mc::choose(3, mc::FREE, "use");
                rs.push_back(m[N - 3 + k]);
            }
            auto follow = menu(mc::scratch(), true);
            rs.push_back(follow[mc::choose(th ? follow.size() : 3, mc::FREE, "request")]);
            sequence(rs);
        }, o);
    }
    {
        o.bounds = "every byte that is no word at each of " + std::to_string(levels().size()) + " levels, at the start of a session and after a request";
        mc::explore("words", [&] {
            auto &l = levels()[mc::choose(levels().size(), mc::FREE, "level")];
            unsigned w = mc::choose(256, mc::FREE, "word"), again = mc::choose(2, mc::FREE, "again");
            if (l.second.second.count(w)) { mc::vacuous(); return; }
            Req r, h;
            r.kind = BAD;
            r.words = l.second.first;
            r.words.push_back(byte(w));
            r.note = l.first + " word " + std::to_string(w);
            if (again) sequence({r, r, h}); else sequence({h, r, h});
        }, o);
    }
    {
        auto m = menu(mc::scratch(), !th);
        std::vector<std::pair<unsigned, int64_t>> at;
        for (unsigned i = 0; i < m.size(); i++) {
            uint64_t n = vanishing(m[i], -1, false);
            for (uint64_t k = 1; k <= n; k += th || k < 64 || k + 64 > n ? 1 : 3)
                if (k < 700 || k + 64 > n || k % 65536 < 3) at.push_back({i, k});
        }
        o.cap_s = 600;
        o.bounds = std::to_string(m.size()) + " requests, the client vanishing (or only ceasing to send) after each byte of the exchange: " + std::to_string(2 * at.size()) + " cases";
        mc::explore("vanishing client", [&] {
            unsigned i = mc::choose(2 * at.size(), mc::FREE, "moment");
            vanishing(menu(mc::scratch(), !th)[at[i / 2].first], at[i / 2].second, i & 1);
        }, o);
    }
}
