// C12: everything that was encoded decodes to the original. All short histories of encode, train (succeeding and failing),
// remove, uninstall and reopen through the job processor and a real archive; then every file is decoded, in this or the next
// session, the way the server does it. Without an archive: encode and decode through the returned parts.
#include <hzip_codec/processor/processor.h>
#include <hzip_core/runtime/cache_provider.h>
#include "archive_common.h"
#include "png_common.h"

const char *hzv_property = "C12";
using namespace arc;
using hzcodec::algorithms::ALGORITHM;

static const ALGORITHM UNC = hzcodec::algorithms::UNCOMPRESSED, VIC = hzcodec::algorithms::VICTINI, UNKNOWN_ALG = (ALGORITHM) 77;

static Bytes text(int k) {
    Bytes b;
    switch (k) {
        case 0: break;
        case 1: b = {0x37, 0xfe, 0x00}; break;                                       // too short to gain
        case 2: b = Bytes(200, 0); break;
        case 3: for (int i = 0; i < 600; i++) b.push_back(i % 5 ? 'a' + i % 3 : 'z'); break;
        case 4: for (int i = 0; i < 256; i++) b.push_back(i * 167 + 13); break;     // no gain, all bytes
        default: b = Bytes(400, 0xff); b[399] = 1;
    }
    return b;
}
static rainman::ptr<uint8_t> mem(const Bytes &b) {
    auto p = rainman::ptr<uint8_t>(b.size());
    for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
    return p;
}
static Bytes bytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
    if (p.size() < n) mc::failf("fewer bytes than announced", "%lu of %lu", p.size(), n);
    Bytes b(n);
    for (uint64_t i = 0; i < n; i++) b[i] = p[i];
    return b;
}
static rainman::ptr<HZ_Blob> raw_blob(const Bytes &b) {
    auto p = rainman::ptr<HZ_Blob>();
    p->data = mem(b);
    p->o_size = p->size = b.size();
    return p;
}

struct Outcome { bool ok = false; std::string msg; int reports = 0; };

// one job, waited for the way the server waits
static Outcome run(HZ_Processor &p, const rainman::ptr<HZ_CodecJob> &c) {
    Outcome o;
    bool done = false;
    auto job = rainman::ptr<HZ_Job>();
    auto st = rainman::ptr<HZ_JobStub>();
    st->on_success = [&](const std::string &) { o.ok = true; o.reports++; };
    st->on_error = [&](const std::string &m) { o.msg = m; o.reports++; };
    st->on_completed = [&] { done = true; };
    job->type = HZ_Job::CODEC;
    job->codec = c;
    job->stub = st;
    p.cycle();
    p.run(job);
    sched::wait_until([&] { return done; }, "job");
    if (o.reports != 1) mc::fail("not exactly one outcome");
    return o;
}

struct World {
    HZ_Processor p{1};
    std::string path;
    rainman::option<rainman::ptr<HZ_Archive>> a;
    std::map<std::string, std::vector<Bytes>> files;     // what was stored
    std::map<std::string, Bytes> models;                 // installed models, as read back
    int named = 0;

    explicit World(const std::string &dir) : path(dir + "/t.hz") { open(); }
    void open() {
        auto x = rainman::ptr<HZ_Archive>(1, path);
        x->load();
        a = x;
    }
    HZ_Archive &ar() { return *a.inner().pointer(); }
    Bytes model_bytes(const std::string &m) {
        auto r = ar().read_mstate(m);
        Bytes b = bytes(r->data, r->size());
        b.push_back(r->alg);
        return b;
    }
    void models_unchanged(const char *after) {
        for (auto &m: models) {
            if (!ar().check_mstate_exists(m.first)) mc::failf("a model is gone", "%s, after %s", m.first.c_str(), after);
            if (model_bytes(m.first) != m.second) mc::failf("a model changed", "%s, after %s", m.first.c_str(), after);
        }
    }
    void encode(const std::vector<int> &parts, ALGORITHM alg, const std::string &model) {
        std::vector<uint64_t> ids;
        std::vector<Bytes> want;
        bool must = alg != UNKNOWN_ALG && (model.empty() || (alg == VIC && models.count(model) && models[model].back() == VIC));
        for (int t: parts) {
            auto c = rainman::ptr<HZ_CodecJob>();
            c->algorithm = alg;
            c->job_type = HZ_CodecJob::ENCODE;
            c->archive = a;
            if (!model.empty()) c->mstate_addr = model;
            c->blob = raw_blob(text(t));
            bool got = false;
            c->blob_id_callback = [&](uint64_t id) { ids.push_back(id); got = true; };
            auto o = run(p, c);
            if (!o.ok) {
                if (must) mc::failf("encoding fails", "text %d: %s", t, o.msg.c_str());
                mc::logf("  refused: %s", o.msg.c_str());
                return;
            }
            if (!got) mc::fail("encoding reports success but stores nothing");
            want.push_back(text(t));
        }
        std::string name = "/f" + std::to_string(named++);
        HZ_ArchiveFile f;
        f.blob_ids = rainman::ptr<uint64_t>(ids.size());
        for (size_t i = 0; i < ids.size(); i++) f.blob_ids[i] = ids[i];
        ar().create_file_entry(name, f);
        files[name] = want;
        models_unchanged("encoding");
    }
    void train(const std::string &m, ALGORITHM alg, int t) {
        auto c = rainman::ptr<HZ_CodecJob>();
        c->algorithm = alg;
        c->job_type = HZ_CodecJob::TRAIN;
        c->archive = a;
        c->mstate_addr = m;
        c->blob = raw_blob(text(t));
        auto o = run(p, c);
        if (o.ok) {
            if (alg != VIC) mc::fail("training with a codec that cannot be trained succeeds");
            if (!ar().check_mstate_exists(m)) mc::fail("training succeeds without a model");
            models[m] = model_bytes(m);
            if (models[m].back() != VIC) mc::fail("the trained model does not name its codec");
        } else {
            mc::logf("  refused: %s", o.msg.c_str());
            bool used = false;
            for (auto &f: files) (void) f, used = true;      // a model in use cannot be replaced
            if (alg == VIC && !used) mc::failf("training fails", "%s", o.msg.c_str());
            if (!models.count(m) && ar().check_mstate_exists(m)) mc::fail("failed training leaves a model behind", m);
        }
        models_unchanged("training");
    }
    void decode_all(const char *when) {
        for (auto &f: files) {
            auto e = ar().read_file_entry(f.first);
            if (e.blob_ids.size() != f.second.size()) mc::failf("file has a wrong number of parts", "%s %s", f.first.c_str(), when);
            for (uint64_t i = 0; i < e.blob_ids.size(); i++) {
                auto src = ar().read_blob(e.blob_ids[i]);
                auto c = rainman::ptr<HZ_CodecJob>();
                c->archive = a;
                c->job_type = HZ_CodecJob::DECODE;
                c->blob = src;
                c->algorithm = src->mstate->alg;
                Bytes got;
                bool called = false;
                c->blob_callback = [&](const rainman::ptr<HZ_Blob> &d) { got = bytes(d->data, d->o_size); called = true; };
                auto o = run(p, c);
                if (!o.ok || !called) mc::failf("decoding fails", "%s part %lu %s: %s", f.first.c_str(), i, when, o.msg.c_str());
                if (got != f.second[i]) mc::failf("decoded data differs from the original", "%s part %lu %s: %zu bytes, expected %zu; first %s, expected %s", f.first.c_str(), i, when, got.size(),
                                                  f.second[i].size(), hex(Bytes(got.begin(), got.begin() + std::min<size_t>(8, got.size()))).c_str(), hex(Bytes(f.second[i].begin(), f.second[i].begin() + std::min<size_t>(8, f.second[i].size()))).c_str());
            }
        }
    }
};

struct Act { std::string name; std::function<void(World &)> f; };

static std::vector<Act> menu(bool wide) {
    std::vector<Act> m;
    std::vector<int> texts = wide ? std::vector<int>{0, 1, 2, 3, 4, 5} : std::vector<int>{0, 1, 3};
    for (int t: texts) {
        m.push_back({"encode t" + std::to_string(t), [t](World &w) { w.encode({t}, VIC, ""); }});
        m.push_back({"encode t" + std::to_string(t) + " with m", [t](World &w) { w.encode({t}, VIC, "/m"); }});
    }
    m.push_back({"encode t3 t1 t3 with m", [](World &w) { w.encode({3, 1, 3}, VIC, "/m"); }});
    m.push_back({"store t3", [](World &w) { w.encode({3}, UNC, ""); }});
    m.push_back({"store t3 with m", [](World &w) { w.encode({3}, UNC, "/m"); }});
    m.push_back({"train m t5", [](World &w) { w.train("/m", VIC, 5); }});
    m.push_back({"train m t3", [](World &w) { w.train("/m", VIC, 3); }});
    m.push_back({"train m, not trainable", [](World &w) { w.train("/m", UNC, 3); }});
    m.push_back({"train m, unknown codec", [](World &w) { w.train("/m", UNKNOWN_ALG, 3); }});
    if (wide) {
        m.push_back({"encode t0 t0", [](World &w) { w.encode({0, 0}, VIC, ""); }});
        m.push_back({"store t0", [](World &w) { w.encode({0}, UNC, ""); }});
        m.push_back({"encode, unknown codec", [](World &w) { w.encode({3}, UNKNOWN_ALG, ""); }});
        m.push_back({"train m t0", [](World &w) { w.train("/m", VIC, 0); }});
    }
    m.push_back({"install m, untrained", [](World &w) {
        if (w.models.count("/m")) { mc::vacuous(); return; }
        w.ar().install_mstate("/m", rainman::ptr<HZ_MState>());
        w.models["/m"] = w.model_bytes("/m");
    }});
    m.push_back({"uninstall m", [](World &w) {
        try { w.ar().uninstall_mstate("/m"); w.models.erase("/m"); } catch (std::exception &) {}
    }});
    m.push_back({"remove f0", [](World &w) {
        if (!w.files.count("/f0")) return;
        w.ar().remove_file("/f0");
        w.files.erase("/f0");
    }});
    m.push_back({"reopen", [](World &w) { w.ar().close(); w.open(); }});
    return m;
}

static void history(const std::vector<Act> &m, int depth, std::vector<Act> prefix) {
    session([&](const std::string &dir) {
        hzv_rand_hook = rand_plain;
        World w(dir);
        std::string log;
        auto doit = [&](const Act &a) {
            mc::logf("%s", a.name.c_str());
            log += a.name + ";";
            a.f(w);
            mc::step();
        };
        for (auto &a: prefix) doit(a);
        for (int i = 0; i < depth; i++) doit(m[mc::choose(m.size(), mc::FREE, "operation")]);
        w.models_unchanged("all");
        w.decode_all("in the same session");
        w.ar().close();
        w.open();
        w.models_unchanged("reopening");
        w.decode_all("in the next session");
        w.ar().close();
        mc::state(mc::hash_str(log));
    });
}

// no archive: the parts go to the client, who keeps them and hands them back
static void piggyback() {
    session([&](const std::string &) {
        HZ_Processor p(1);
        for (ALGORITHM alg: {UNC, VIC}) for (int t = 0; t <= 5; t++) {
            auto c = rainman::ptr<HZ_CodecJob>();
            c->algorithm = alg;
            c->job_type = HZ_CodecJob::ENCODE;
            c->blob = raw_blob(text(t));
            Bytes model, header, data;
            uint64_t malg = 0, osize = 0;
            int calls = 0;
            c->blob_callback = [&](const rainman::ptr<HZ_Blob> &b) {
                calls++;
                malg = b->mstate->alg;
                model = bytes(b->mstate->data, b->mstate->size());
                header = bytes(b->header.raw, b->header.size());
                data = bytes(b->data, b->size);
                osize = b->o_size;
            };
            auto o = run(p, c);
            if (!o.ok || calls != 1) mc::failf("encoding fails", "text %d without archive: %s", t, o.msg.c_str());
            auto d = rainman::ptr<HZ_CodecJob>();
            d->algorithm = (ALGORITHM) malg;
            d->job_type = HZ_CodecJob::DECODE;
            auto b = rainman::ptr<HZ_Blob>();
            b->header.raw = mem(header);
            b->data = mem(data);
            b->size = data.size();
            b->o_size = osize;
            b->mstate->alg = (ALGORITHM) malg;
            b->mstate->data = mem(model);
            d->blob = b;
            Bytes got;
            d->blob_callback = [&](const rainman::ptr<HZ_Blob> &x) { got = bytes(x->data, x->o_size); };
            o = run(p, d);
            if (!o.ok || got != text(t)) mc::failf("decoded data differs from the original", "text %d, codec %d, without archive: %s", t, (int) alg, o.msg.c_str());
            mc::step();
        }
    });
}

// the image codec, with and without an archive
static void pictures() {
    size_t k = mc::choose(pngw::kinds().size(), mc::FREE, "kind");
    bool archive = mc::choose(2, mc::FREE, "archive");
    int size = mc::choose(3, mc::FREE, "size");
    auto m = pngw::image(size == 0 ? 1 : size == 1 ? 5 : 70, size == 0 ? 1 : size == 1 ? 3 : 66, pngw::kinds()[k], 0);
    Bytes f = pngw::write(m);
    // 0: the image; 1: no image, 2: half of one
    int what = mc::choose(3, mc::FREE, "contents");
    if (what == 1) f = text(3);
    if (what == 2) f.resize(f.size() / 2);
    session([&](const std::string &dir) {
        hzv_rand_hook = rand_plain;
        hzruntime::CacheProvider::init_cache(dir + "/cache", 1, 1 << 16);
        World w(dir);
        w.encode({3}, VIC, "");
        auto c = rainman::ptr<HZ_CodecJob>();
        c->algorithm = hzcodec::algorithms::SHARINGAN;
        c->job_type = HZ_CodecJob::ENCODE;
        if (archive) c->archive = w.a;
        c->blob = raw_blob(f);
        uint64_t id = 0;
        rainman::option<rainman::ptr<HZ_Blob>> parts;
        bool got = false;
        c->blob_id_callback = [&](uint64_t i) { id = i; got = true; };
        c->blob_callback = [&](const rainman::ptr<HZ_Blob> &b) { parts = b; got = true; };
        auto o = run(w.p, c);
        mc::step();
        if (o.ok != got) mc::fail("the outcome does not fit what was handed out");
        w.decode_all("after an image");
        if (!o.ok) { if (!what) mc::failf("encoding fails", "an image: %s", o.msg.c_str()); mc::outcome(0); return; }
        auto d = rainman::ptr<HZ_CodecJob>();
        d->job_type = HZ_CodecJob::DECODE;
        if (archive) { d->archive = w.a; d->blob = w.ar().read_blob(id); } else d->blob = parts.inner();
        d->algorithm = d->blob->mstate->alg;
        if (d->algorithm != hzcodec::algorithms::SHARINGAN) mc::fail("the parts of an image do not name its codec");
        Bytes back;
        bool called = false;
        d->blob_callback = [&](const rainman::ptr<HZ_Blob> &x) { back = bytes(x->data, x->o_size); called = true; };
        o = run(w.p, d);
        if (!o.ok || !called) mc::failf("decoding fails", "an image: %s", o.msg.c_str());
        if (back.empty()) mc::failf("the image codec decodes to nothing", "kind %zu, size %d, %zu bytes, archive %d", k, size, f.size(), archive);
        if (back != f) mc::failf("decoded data differs from the original", "an image: %zu bytes, expected %zu", back.size(), f.size());
        w.ar().close();
        mc::outcome(1);
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    o.kinds[mc::PREEMPT] = 0;
    auto narrow = menu(false), wide = menu(true);
    auto by = [&](const char *n) { for (auto &a: wide) if (a.name == n) return a; abort(); };
    o.bounds = "every codec and content without archive";
    mc::explore("parts", piggyback, o);
    o.bounds = "15 kinds of images x 3 sizes x image, no image, half an image x with and without archive";
    mc::explore("pictures", pictures, o);
    o.bounds = "all histories of " + std::to_string(th ? 3 : 2) + " operations out of " + std::to_string(wide.size()) + " from an empty archive";
    mc::explore("wide", [&] { history(wide, th ? 3 : 2, {}); }, o);
    o.bounds = "all histories of " + std::to_string(th ? 3 : 2) + " operations out of " + std::to_string(wide.size()) + " after: train m; train m, encode with m; train m, encode with m, remove; install an untrained model";
    std::vector<std::vector<Act>> pre = {{by("train m t5")}, {by("train m t5"), by("encode t3 with m")}, {by("train m t5"), by("encode t1 with m")}, {by("train m t3"), by("encode t3 with m"), by("remove f0")}, {by("install m, untrained")}};
    mc::explore("after-training", [&] { auto pr = pre[mc::choose(pre.size(), mc::FREE, "prefix")]; history(wide, th ? 3 : 2, pr); }, o);
    o.bounds = "all histories of " + std::to_string(th ? 4 : 3) + " operations out of " + std::to_string(narrow.size());
    mc::explore("deep", [&] { history(narrow, th ? 4 : 3, {}); }, o);
}
