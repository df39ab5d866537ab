// C05: a rejected operation changes nothing and leaves the archive usable.
#include <thread>
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C05";

static const Universe U{{"/a", "/a/b", "/d/e", "/d", "/new"}, {"/m", "/k/m", "/k", "/newm"}, {"/", "/a", "/d", "/k", "/m"}};

struct Rejected {
    std::string name;
    std::function<void()> f;
};

static rainman::ptr<HZ_Blob> parts(const Real &, std::vector<uint64_t> models) {
    auto b = rainman::ptr<HZ_Blob>(models.size());
    for (size_t i = 0; i < models.size(); i++) {
        b[i].data = Real::bytes(content(200 + i, 3));
        b[i].size = 3;
        b[i].o_size = 77;
        b[i].mstate_id = models[i];
    }
    return b;
}

static std::vector<Rejected> menu(Real &r, const Ref &f, uint64_t good) {
    std::vector<Rejected> v;
    auto *a = r.a;
    const uint64_t bad = 0xdeadbeefdeadull;
    auto add = [&](const std::string &n, std::function<void()> g) { v.push_back({n, std::move(g)}); };
    static const std::string MAL[] = {"", "a", "/a//b", "/x y", "/x\\y", std::string("/x\0y", 4), "x/", "//x"};
    auto two = [&](uint64_t x, uint64_t y) { return parts(r, {x, y}); };
    for (auto &p: {"/a", "/d/e", "/d", "/a/b", "/a/b/c", "/d/e/f", "/", "/q/r"}) {
        std::string s = p;
        bool can = addable(f.files, s);
        auto w = what(f.files, s);
        if (!can) {
            add("create_file " + s, [=] { a->create_file(s, two(good, good), 2); });
            add("create_file with no parts " + s, [=] { a->create_file(s, rainman::ptr<HZ_Blob>(0), 0); });
            add("create_file_entry " + s, [=] { a->create_file_entry(s, HZ_ArchiveFile(rainman::ptr<uint64_t>(0))); });
        } else {
            add("create_file with unknown models " + s, [=] { a->create_file(s, two(bad, bad), 2); });
            add("create_file whose second part has an unknown model " + s, [=] { a->create_file(s, two(good, bad), 2); });
            add("create_file_entry of an unknown part " + s, [=] {
                HZ_ArchiveFile e{};
                e.blob_ids = rainman::ptr<uint64_t>(1);
                e.blob_ids[0] = bad;
                a->create_file_entry(s, e);
            });
        }
        if (w != ITEM) {
            add("remove_file " + s, [=] { a->remove_file(s); });
            add("read_file " + s, [=] { a->read_file(s); });
            add("read_file_entry " + s, [=] { a->read_file_entry(s); });
        }
        if (w == NOTHING) add("list_file_system " + s, [=] { a->list_file_system(s); });
    }
    for (auto &p: {"/m", "/k/m", "/k", "/m/x", "/", "/none"}) {
        std::string s = p;
        auto w = what(f.models, s);
        if (!addable(f.models, s)) add("install_mstate " + s, [=] {
            Model m;
            m.alg = 1;
            m.data = content(9, 4);
            a->install_mstate(s, Real::mstate(m));
        });
        if (w != ITEM || f.models.at(s)->refs > 0) add("uninstall_mstate " + s, [=] { a->uninstall_mstate(s); });
        if (w != ITEM) {
            add("read_mstate " + s, [=] { a->read_mstate(s); });
            add("inject_mstate " + s, [=] { a->inject_mstate(s, parts(r, {0})); });
        }
        if (w == NOTHING) add("list_mstate_system " + s, [=] { a->list_mstate_system(s); });
    }
    for (auto &s: MAL) {
        std::string t = s;
        add("create_file with the malformed path '" + t + "'", [=] { a->create_file(t, two(good, good), 2); });
        add("remove_file with the malformed path '" + t + "'", [=] { a->remove_file(t); });
        add("read_file with the malformed path '" + t + "'", [=] { a->read_file(t); });
        add("install_mstate with the malformed path '" + t + "'", [=] { a->install_mstate(t, rainman::ptr<HZ_MState>()); });
        add("uninstall_mstate with the malformed path '" + t + "'", [=] { a->uninstall_mstate(t); });
        add("inject_mstate with the malformed path '" + t + "'", [=] { a->inject_mstate(t, parts(r, {0})); });
    }
    add("read_blob of an unknown part", [=] { a->read_blob(bad); });
    add("write_blob with an unknown model", [=] { a->write_blob(parts(r, {bad})); });
    for (auto &m: f.all) if (m->alive && m->refs > 0 && r.ids.count(m.get())) {
        uint64_t id = r.ids[m.get()];
        add("uninstall_mstate by identifier, in use", [=] { a->uninstall_mstate(id); });
        break;
    }
    return v;
}

static void run(const Menu &m, int depth, int count) {
    session([&](const std::string &dir) {
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        // a model that parts can refer to, and a prefix of valid operations
        Op first{ANON, "", {}, "", 6}, op;
        f.apply(first);
        r.apply(first, 0, nullptr, f.made);
        uint64_t good = r.ids[f.anon[0].get()];
        for (int i = 0; i < depth; i++) {
            if (!pick(m, f, nullptr, op)) break;
            unsigned tag = f.tag;
            mc::logf("%s; ", op.str().c_str());
            f.apply(op);
            r.apply(op, tag, f.anon.empty() ? nullptr : f.anon.back(), f.made);
        }
        std::string seen;
        std::multiset<std::string> stored;
        uint64_t end = 0;
        for (int k = 0; k < count; k++) {
            auto before = r.observe(U);
            Layout lb = parse(live_image(), false);
            auto mb = meaning(lb);
            auto bad = menu(r, f, good);
            auto &x = bad[mc::choose(bad.size(), mc::FREE, "rejected operation")];
            mc::logf("%s (to be rejected); ", x.name.c_str());
            mc::context(x.name.substr(0, x.name.find(' ')));
            mc::step();
            bool threw = false;
            try { x.f(); } catch (const std::exception &) { threw = true; }
            mc::outcome(mc::hash_str(x.name));
            if (!threw) mc::fail("an operation that must be rejected reports no error", x.name);
            auto after = r.observe(U);
            if (after != before) mc::fail("a rejected operation changes the contents", x.name + "\n" + difference(after, before));
            Layout la = parse(live_image(), false);
            auto ma = meaning(la);
            if (ma != mb) mc::fail("a rejected operation changes the stored records", x.name + "\n" + difference(ma, mb));
            if (la.end != lb.end) mc::fail("a rejected operation makes the archive grow", x.name);
            seen = after;
            stored = ma;
            end = la.end;
        }
        mc::context("");
        mc::state(mc::hash_str(seen));
        // the next operation, from this or another thread
        unsigned next = count > 1 ? 1 : mc::choose(5, mc::FREE, "next operation");
        bool other = next > 0;
        auto go = [&] {
            try {
                switch (next) {
                    case 0: break;
                    case 1: if (r.observe(U) != seen) mc::fail("contents differ in another thread"); break;
                    case 2: r.a->create_file("/new", parts(r, {good}), 1); break;
                    case 3: r.a->install_mstate("/newm", rainman::ptr<HZ_MState>()); break;
                    case 4: if (!f.files.empty()) r.a->remove_file(f.files.begin()->first); break;
                }
            } catch (const std::exception &e) {
                mc::fail("an operation after a rejected one fails", e.what());
            }
        };
        if (other) std::thread(go).join();
        else go();
        auto want = r.observe(U);
        r.close();
        r.open();
        auto got = r.observe(U);
        if (got != want) mc::fail("contents differ after a rejected operation and reopening", difference(got, want));
        if (next < 2) {
            Layout l = parse(live_image(), true);
            auto g = meaning(l);
            if (g != stored || l.end != end) mc::fail("a rejected operation changes the stored archive", difference(g, stored));
        }
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    Menu m;
    m.paths = {"/a", "/d/e"};
    m.mpaths = {"/m", "/k/m"};
    m.puts = {{CREATE, {{1, 2, FRESH}}}, {CREATE, {{0, 3, SHARED}, {2, 1, SHARED}}}};
    int d = th ? 4 : 3;
    o.bounds = "every rejected operation (about 100: wrong paths, conflicts, unknown models and parts, models in use, malformed paths) after all valid histories of up to " + std::to_string(d) + " operations, then nothing or one of 4 operations in another thread, then reopening";
    mc::explore("one rejected operation", [&] { run(m, d, 1); }, o);
    int e = th ? 2 : 1;
    o.bounds = "two rejected operations after all valid histories of up to " + std::to_string(e) + " operations";
    mc::explore("two rejected operations", [&] { run(m, e, 2); }, o);
}
