// C07: concurrent operations on one open archive act as if done one at a time.
#include <thread>
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C07";

enum CallKind { INJECT, OWN, PUT, WRITE, FILEENTRY, READ, EXISTS, LIST, DELETE, PUTM, DELM, READM, EXISTSM, LISTM, READPART };

struct Call {
    CallKind kind;
    std::string path;
    std::string str() const {
        static const char *N[] = {"inject model", "inject own model", "create file", "write part", "create entry", "read file", "file exists", "list", "remove", "install", "uninstall", "read model", "model exists", "list models", "read part"};
        return std::string(N[kind]) + (path.empty() ? "" : " " + path);
    }
};
typedef std::vector<Call> Program;

static const Universe U{{"/a", "/b", "/b/c", "/d/e", "/d"}, {"/m", "/u", "/n", "/n/x"}, {"/", "/b", "/d", "/n"}};

// what a thread stores: distinct contents per thread and call
static Bytes data_of(int t, size_t c) { return content(40 + t * 10 + c, 3 + t); }

struct RState {
    Ref f;
    std::vector<ModelP> inj;           // per thread
    std::vector<Part> part;            // per thread
    std::vector<bool> has_part;
};

static std::string join(const std::set<std::string> &s) {
    std::string r;
    for (auto &x: s) r += " " + x;
    return r;
}

static std::string file_str(const std::vector<Part> &ps) {
    std::string s = "file";
    for (auto &p: ps) s += " " + p.str();
    return s;
}

static std::string ref_call(RState &s, int t, size_t c, const Call &k) {
    Ref &f = s.f;
    auto part = [&] {
        Part p;
        p.header = content(90 + t, 1);
        p.data = data_of(t, c);
        p.o_size = 100 * t + c;
        p.model = s.inj[t];
        return p;
    };
    switch (k.kind) {
        case INJECT:
            if (what(f.models, k.path) != ITEM) return "error";
            s.inj[t] = f.models[k.path];
            return "model " + s.inj[t]->str();
        case OWN: {
            auto m = std::make_shared<Model>();
            m->alg = 1;
            m->data = content(70 + t * 10 + c, 2);
            f.all.push_back(m);
            s.inj[t] = m;
            return "ok";
        }
        case PUT: {
            auto p = part();
            if (!p.model || !p.model->alive || !addable(f.files, k.path)) return "error";
            p.model->refs++;
            f.files[k.path] = {p};
            return "ok";
        }
        case WRITE: {
            auto p = part();
            if (!p.model || !p.model->alive) return "error";
            p.model->refs++;
            s.part[t] = p;
            s.has_part[t] = true;
            f.orphans.push_back(p);
            return "ok";
        }
        case FILEENTRY: {
            if (!s.has_part[t] || !addable(f.files, k.path)) return "error";
            auto me = s.part[t].str();
            for (auto i = f.orphans.begin(); i != f.orphans.end(); ++i) if (i->str() == me) { f.orphans.erase(i); break; }
            f.files[k.path] = {s.part[t]};
            s.has_part[t] = false;
            return "ok";
        }
        case READPART: return s.has_part[t] ? s.part[t].str() : "error";
        case READ: return what(f.files, k.path) == ITEM ? file_str(f.files[k.path]) : "error";
        case EXISTS: return what(f.files, k.path) != NOTHING ? "yes" : "no";
        case LIST: return what(f.files, k.path) == NOTHING ? "error" : join(listing(f.files, k.path));
        case DELETE:
            if (what(f.files, k.path) != ITEM) return "error";
            for (auto &p: f.files[k.path]) f.unref(p.model);
            f.files.erase(k.path);
            return "ok";
        case PUTM: {
            if (!addable(f.models, k.path)) return "error";
            auto m = std::make_shared<Model>();
            m->alg = 2;
            m->data = content(20 + t * 10 + c, 4);
            m->installed = true;
            f.all.push_back(m);
            f.models[k.path] = m;
            return "ok";
        }
        case DELM:
            if (what(f.models, k.path) != ITEM || f.models[k.path]->refs > 0) return "error";
            f.models[k.path]->alive = f.models[k.path]->installed = false;
            f.models.erase(k.path);
            return "ok";
        case READM: return what(f.models, k.path) == ITEM ? "model " + f.models[k.path]->str() : "error";
        case EXISTSM: return what(f.models, k.path) != NOTHING ? "yes" : "no";
        case LISTM: return what(f.models, k.path) == NOTHING ? "error" : join(listing(f.models, k.path));
    }
    return "";
}

static std::string model_str(const rainman::ptr<HZ_MState> &s) {
    Model m;
    m.alg = s->alg;
    m.data = Real::bytes(s->data, s->size());
    return m.str();
}

struct TState {
    uint64_t model = 0xdeadbeefdeadull, part = 0;
    bool has_part = false;
};

static std::string real_call(HZ_Archive *a, TState &s, int t, size_t c, const Call &k) {
    auto blob = [&](size_t n) {
        auto b = rainman::ptr<HZ_Blob>(n);
        b[0].header.raw = Real::bytes(content(90 + t, 1));
        b[0].data = Real::bytes(data_of(t, c));
        b[0].size = data_of(t, c).size();
        b[0].o_size = 100 * t + c;
        b[0].mstate_id = s.model;
        return b;
    };
    auto list = [](const std::vector<HZ_ArchiveTrieListElement> &l) {
        std::multiset<std::string> m;
        for (auto &e: l) m.insert(e.entry + (e.is_leaf ? "" : "/"));
        std::string r;
        for (auto &x: m) r += " " + x;
        return r;
    };
    try {
        switch (k.kind) {
            case INJECT: {
                auto b = rainman::ptr<HZ_Blob>();
                a->inject_mstate(k.path, b);
                s.model = b->mstate_id;
                return "model " + model_str(b->mstate);
            }
            case OWN: {
                Model m;
                m.alg = 1;
                m.data = content(70 + t * 10 + c, 2);
                auto b = rainman::ptr<HZ_Blob>();
                a->inject_mstate(Real::mstate(m), b);
                s.model = b->mstate_id;
                return "ok";
            }
            case PUT: a->create_file(k.path, blob(1), 1); return "ok";
            case WRITE:
                s.part = a->write_blob(blob(1));
                s.has_part = true;
                return "ok";
            case FILEENTRY: {
                if (!s.has_part) return "error";
                HZ_ArchiveFile f{};
                f.blob_ids = rainman::ptr<uint64_t>(1);
                f.blob_ids[0] = s.part;
                a->create_file_entry(k.path, f);
                s.has_part = false;
                return "ok";
            }
            case READPART: {
                if (!s.has_part) return "error";
                return Real::part(*a->read_blob(s.part));
            }
            case READ: {
                auto b = a->read_file(k.path);
                std::string r = "file";
                for (uint64_t i = 0; i < b.size(); i++) r += " " + Real::part(b[i]);
                return r;
            }
            case EXISTS: return a->check_file_exists(k.path) ? "yes" : "no";
            case LIST: return list(a->list_file_system(k.path));
            case DELETE: a->remove_file(k.path); return "ok";
            case PUTM: {
                Model m;
                m.alg = 2;
                m.data = content(20 + t * 10 + c, 4);
                a->install_mstate(k.path, Real::mstate(m));
                return "ok";
            }
            case DELM: a->uninstall_mstate(k.path); return "ok";
            case READM: return "model " + model_str(a->read_mstate(k.path));
            case EXISTSM: return a->check_mstate_exists(k.path) ? "yes" : "no";
            case LISTM: return list(a->list_mstate_system(k.path));
        }
    } catch (const std::exception &) {
        return "error";
    }
    return "";
}

// The initial contents: /a with the model /m; /u is installed and unused; some free space.
static void initial(Real &r, Ref &f) {
    for (auto &o: {Op{INSTALL, "/m", {}, "", 4}, Op{INSTALL, "/u", {}, "", 4}, Op{CREATE, "/d/e", {{1, 4, FRESH}}, ""}, Op{CREATE, "/a", {{1, 2, SHARED}, {0, 5, SHARED}}, "/m"}, Op{REMOVE, "/d/e", {}, ""}}) {
        unsigned tag = f.tag;
        f.apply(o);
        r.apply(o, tag, nullptr, f.made);
    }
}

static Ref deep_copy(const Ref &f) {
    Ref g = f;
    std::map<Model *, ModelP> m;
    auto cp = [&](ModelP &p) {
        if (!p) return;
        auto &q = m[p.get()];
        if (!q) q = std::make_shared<Model>(*p);
        p = q;
    };
    for (auto &p: g.all) cp(p);
    for (auto &e: g.models) cp(e.second);
    for (auto &e: g.files) for (auto &p: e.second) cp(p.model);
    for (auto &p: g.orphans) cp(p.model);
    for (auto &p: g.anon) cp(p);
    return g;
}

static RState copy(const RState &s) {
    RState t = s;
    // models reachable from the threads' registers are all in f.all
    std::map<Model *, size_t> at;
    for (size_t i = 0; i < s.f.all.size(); i++) at[s.f.all[i].get()] = i;
    t.f = deep_copy(s.f);
    for (auto &p: t.inj) if (p) p = t.f.all[at[p.get()]];
    for (auto &p: t.part) if (p.model) p.model = t.f.all[at[p.model.get()]];
    return t;
}

static bool search(const RState &s, std::vector<size_t> pc, const std::vector<Program> &ps, const std::vector<std::vector<std::string>> &res, const std::string &final_obs, const std::multiset<std::string> &final_recs, int &results_fit) {
    bool end = true;
    for (size_t t = 0; t < ps.size(); t++) {
        if (pc[t] >= ps[t].size()) continue;
        end = false;
        RState n = copy(s);
        if (ref_call(n, t, pc[t], ps[t][pc[t]]) != res[t][pc[t]]) continue;
        auto q = pc;
        q[t]++;
        if (search(n, q, ps, res, final_obs, final_recs, results_fit)) return true;
    }
    if (!end) return false;
    results_fit++;
    return s.f.observe(U) == final_obs && meaning(s.f) == final_recs;
}

static const Program PROGS[] = {
    {{INJECT, "/u"}, {PUT, "/b"}},
    {{OWN, ""}, {PUT, "/b/c"}, {READ, "/b/c"}},
    {{DELETE, "/a"}, {DELM, "/m"}},
    {{DELM, "/u"}, {PUTM, "/u"}},
    {{PUTM, "/n"}, {INJECT, "/n"}, {WRITE, ""}},
    {{INJECT, "/m"}, {WRITE, ""}, {FILEENTRY, "/b"}},
    {{READ, "/a"}, {LIST, "/"}},
    {{EXISTS, "/b"}, {READ, "/b"}},
    {{READM, "/u"}, {LISTM, "/"}},
    {{EXISTSM, "/n"}, {PUTM, "/n/x"}, {READM, "/n/x"}},
    {{OWN, ""}, {WRITE, ""}, {READPART, ""}},
    {{OWN, ""}, {PUT, "/d"}, {DELETE, "/d"}},
};
static const unsigned NP = sizeof PROGS / sizeof *PROGS;

static void run(unsigned threads, bool single) {
    session([&](const std::string &dir) {
        hzv_rand_hook = rand_plain;
        Real r(dir + "/t.hz");
        RState s;
        r.open();
        initial(r, s.f);
        s.inj.resize(threads);
        s.part.resize(threads);
        s.has_part.resize(threads);
        std::vector<Program> ps;
        unsigned lo = 0;
        std::string log;
        for (unsigned t = 0; t < threads; t++) {
            lo += mc::choose(NP - lo, mc::FREE, "program");
            Program p = PROGS[lo];
            if (single && p.size() > 2) p.resize(2);
            ps.push_back(p);
            log += t ? " || " : "";
            for (auto &c: p) log += c.str() + "; ";
        }
        mc::logf("%s", log.c_str());
        std::vector<std::vector<std::string>> res(threads);
        std::vector<std::thread> ts;
        for (unsigned t = 0; t < threads; t++) ts.emplace_back([&, t] {
            TState st;
            for (size_t c = 0; c < ps[t].size(); c++) {
                res[t].push_back(real_call(r.a, st, t, c, ps[t][c]));
                mc::step();
            }
        });
        for (auto &t: ts) t.join();
        auto obs = r.observe(U);
        auto recs = meaning(parse(live_image(), false));
        int fit = 0;
        if (!search(s, std::vector<size_t>(threads), ps, res, obs, recs, fit)) {
            std::string m = log + "\n";
            for (unsigned t = 0; t < threads; t++) for (size_t c = 0; c < res[t].size(); c++) m += "thread " + std::to_string(t + 1) + " " + ps[t][c].str() + ": " + res[t][c] + "\n";
            mc::fail(fit ? "the final contents are those of no one-at-a-time order" : "the results are those of no one-at-a-time order", m + obs);
        }
        uint64_t h = mc::hash_str(obs);
        for (auto &x: res) for (auto &y: x) h = mc::mix(h, mc::hash_str(y));
        mc::outcome(h);
        r.close();
        r.open();
        auto again = r.observe(U);
        if (again != obs) mc::fail("the contents stored by concurrent operations differ after reopening", difference(again, obs));
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = th ? 5 : 3;
    o.bounds = "all pairs of 12 programs of 2-3 calls (create, write part + entry, remove, read, exists, list, install, uninstall, inject ...), at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions; data races";
    mc::explore("2 threads", [] { run(2, false); }, o);
    o.kinds[mc::PREEMPT] = th ? 2 : 1;
    o.bounds = "all triples of the programs cut to 2 calls, at most " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("3 threads", [] { run(3, true); }, o);
}
