// C04: a model lives exactly as long as something uses it.
#include "archive_common.h"

using namespace arc;
const char *hzv_property = "C04";

static const std::string PATHS[] = {"/a", "/b"};

// What the archive says about models
static void check_models(Real &r, const Ref &f, const std::vector<std::string> &mpaths) {
    for (auto &e: f.files) {
        rainman::ptr<HZ_Blob> b;
        try {
            b = r.a->read_file(e.first);
        } catch (const ArchiveErrors::MstateNotFoundException &) {
            mc::fail("a model in use is gone", "file " + e.first);
        } catch (const std::exception &x) {
            mc::fail("a stored file cannot be read", e.first + ": " + x.what());
        }
        for (uint64_t i = 0; i < e.second.size() && i < b.size(); i++) {
            Model m;
            m.alg = b[i].mstate->alg;
            m.data = Real::bytes(b[i].mstate->data, b[i].mstate->size());
            if (m.str() != e.second[i].model->str()) mc::fail("a stored part has another model", e.first + ": " + m.str() + ", expected " + e.second[i].model->str());
        }
    }
    for (auto &p: mpaths) {
        bool there = f.models.count(p);
        std::string got;
        try {
            auto s = r.a->read_mstate(p);
            Model m;
            m.alg = s->alg;
            m.data = Real::bytes(s->data, s->size());
            got = m.str();
        } catch (const std::exception &) {
            got = "none";
        }
        std::string want = there ? f.models.at(p)->str() : "none";
        if (got != want) mc::fail(there ? "an installed model is gone" : "an uninstalled model is still there", p + ": " + got + ", expected " + want);
    }
}

// Storing a part that refers to a model by its identifier works exactly as long as that model exists.
static void probe(Real &r, const Ref &f) {
    for (auto &m: f.all) {
        if (!r.ids.count(m.get())) continue;
        auto b = rainman::ptr<HZ_Blob>();
        b->data = rainman::ptr<uint8_t>(1);
        b->data[0] = 1;
        b->size = 1;
        b->mstate_id = r.ids[m.get()];
        // identifiers may have been given away again
        bool shared = false;
        for (auto &o: f.all) if (o != m && r.ids.count(o.get()) && r.ids[o.get()] == b->mstate_id) shared = true;
        if (shared) continue;
        bool ok = true;
        try { r.a->write_blob(b); } catch (const std::exception &) { ok = false; }
        if (m->alive && !ok) mc::fail("a model that must still exist is gone", m->str());
        if (!m->alive && ok) mc::fail("a model that nothing uses any more still exists", m->str());
    }
}

static void history(int depth, bool multi, bool all_ops) {
    session([&](const std::string &dir) {
        hzv_rand_hook = rand_plain;
        Real r(dir + "/t.hz");
        Ref f;
        r.open();
        std::vector<std::string> mp{"/m"};
        if (multi) mp.push_back("/k/m");
        Op last{READALL, "", {}, ""};
        uint64_t salt = 0;
        for (int i = 0; i < depth; i++) {
            std::vector<Op> ops;
            for (auto &p: PATHS) {
                if (f.files.count(p)) { ops.push_back(Op{REMOVE, p, {}, ""}); continue; }
                ops.push_back(Op{CREATE, p, {{0, 2, FRESH}}, ""});
                for (auto &m: f.models) {
                    ops.push_back(Op{CREATE, p, {{0, 2, SHARED}}, m.first});
                    if (all_ops) ops.push_back(Op{ENTRY, p, {{1, 1, SHARED}, {0, 1, SHARED}}, m.first});
                }
                if (!f.anon.empty() && f.anon.back()->alive) ops.push_back(Op{CREATE, p, {{0, 1, LASTANON}, {0, 1, LASTANON}}, ""});
                break;
            }
            if (f.files.size() == 1 && !f.files.count(PATHS[0])) ops.push_back(Op{REMOVE, PATHS[1], {}, ""});
            for (auto &m: mp) ops.push_back(Op{f.models.count(m) ? UNINSTALL : INSTALL, m, {}, "", 4});
            if (f.anon.size() < 2) ops.push_back(Op{ANON, "", {}, "", 5});
            if (!f.anon.empty()) ops.push_back(Op{UNANON, "", {}, ""});
            if (last.kind != REOPEN && i) ops.push_back(Op{REOPEN, "", {}, ""});
            unsigned k = mc::choose(1 + ops.size(), mc::FREE, "operation");
            if (k == 0) break;
            Op op = ops[k - 1];
            last = op;
            mc::logf("%s; ", op.str().c_str());
            mc::step();
            unsigned tag = f.tag;
            ModelP an = f.anon.empty() ? nullptr : f.anon.back();
            bool want = f.apply(op), got;
            if (op.kind == REOPEN) {
                r.close();
                r.a = new HZ_Archive(r.file);
                r.a->load();
                got = true;
            } else got = r.apply(op, tag, an, f.made);
            if (op.kind == UNINSTALL || op.kind == UNANON) {
                if (want && !got) mc::fail("an unused model cannot be removed", op.str() + ": " + r.error);
                if (!want && got) mc::fail("a model in use is removed", op.str());
                if (!got) check_models(r, f, mp);
            } else if (want != got) mc::fail(got ? "an operation that must be rejected is accepted" : "a valid operation on models is rejected", op.str() + ": " + r.error);
            if (op.kind == REMOVE) salt++;
        }
        check_models(r, f, mp);
        uint64_t h = salt;
        for (auto &m: f.all) h = mc::mix(h, m->alive * 100 + m->refs);
        mc::state(h);
        bool again = mc::choose(2, mc::FREE, "probe in the next session");
        if (again) {
            r.close();
            r.a = new HZ_Archive(r.file);
            r.a->load();
            check_models(r, f, mp);
        }
        probe(r, f);
        r.close();
    });
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    int d = th ? 8 : 7;
    o.bounds = "all histories of up to " + std::to_string(d) + " operations: store a file with its own, the installed or a shared anonymous model, remove, install/uninstall (also in use), anonymous model and its removal (also in use), reopen; then probe every model, in this or the next session";
    mc::explore("one installed model", [&] { history(d, false, false); }, o);
    int e = th ? 7 : 6;
    o.bounds = "the same with two installed models and entries of separately stored parts, up to " + std::to_string(e) + " operations";
    mc::explore("two installed models", [&] { history(e, true, true); }, o);
    mc::assume("a model installed under a path is only uninstalled by that path");
}
