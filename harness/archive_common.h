// Archives: the operations, a boring reference model of their meaning, observations, and an independent reader of
// the file format.
#ifndef ARCHIVE_COMMON_H
#define ARCHIVE_COMMON_H

#include <algorithm>
#include <cstdint>
#include <cstdio>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
#include <loguru/loguru.hpp>
#include <hzip_storage/archive/archive.h>
#include "mc.h"
#include "hzsched.h"

extern uint64_t (*hzv_rand_hook)();

namespace arc {
    typedef std::vector<uint8_t> Bytes;

    // Identifiers are drawn from a sequence with repetitions that starts over at every opening, so that every
    // identifier in use is offered again.
    inline uint64_t rand_k = 0;
    inline uint64_t rand_hook() { return ++rand_k / 2; }
    inline uint64_t rand_plain() { return 0x9e3779b97f4a7c15ull * ++rand_k; }

    enum Kind { CREATE, ENTRY, ORPHAN, REMOVE, INSTALL, UNINSTALL, ANON, UNANON, READALL, REOPEN };
    enum Src { FRESH, SHARED, LASTANON, UNKNOWN };   // where a part's model comes from

    struct PartSpec { int header, size; Src src; };

    struct Op {
        Kind kind;
        std::string path;              // of the file, or of the model
        std::vector<PartSpec> parts;
        std::string mpath;             // SHARED models
        int size = 0;                  // of a model

        std::string str() const {
            static const char *N[] = {"create", "entry", "part", "remove", "install", "uninstall", "anonymous model", "drop anonymous model", "read all", "reopen"};
            static const char *S[] = {"own", "shared", "anonymous", "unknown"};
            std::string s = N[kind];
            if (!path.empty()) s += " " + path;
            for (auto &p: parts) s += " [" + std::to_string(p.header) + "+" + std::to_string(p.size) + " " + S[p.src] + (p.src == SHARED ? " " + mpath : "") + "]";
            if (kind == INSTALL || kind == ANON) s += " size " + std::to_string(size);
            return s;
        }
    };

    inline Bytes content(unsigned tag, unsigned n) {
        Bytes b(n);
        for (unsigned i = 0; i < n; i++) b[i] = uint8_t(tag * 37 + i * 11 + (tag >> 3) + 1);
        return b;
    }

    inline std::string hex(const Bytes &b) {
        static const char *D = "0123456789abcdef";
        std::string s;
        for (auto c: b) { s += D[c >> 4]; s += D[c & 15]; }
        return s;
    }

    // ------------------------------------------------------------------ reference
    struct Model {
        int alg = 0;
        Bytes data;
        int refs = 0;
        bool installed = false, alive = true;
        uint64_t id = 0;               // filled in by Real
        std::string str() const { return std::to_string(alg) + ":" + hex(data); }
    };
    typedef std::shared_ptr<Model> ModelP;

    struct Part {
        Bytes header, data;
        uint64_t o_size = 0;
        ModelP model;
        std::string str() const { return hex(header) + "/" + hex(data) + "/" + std::to_string(o_size) + "/" + model->str(); }
    };

    inline std::vector<std::string> tokens(const std::string &p) {
        std::vector<std::string> t;
        std::string c;
        for (char x: p) {
            if (x == '/') { if (!c.empty()) t.push_back(c); c.clear(); } else c += x;
        }
        if (!c.empty()) t.push_back(c);
        return t;
    }

    inline bool well_formed(const std::string &p) {
        if (p.empty() || p[0] != '/') return false;
        for (size_t i = 0; i < p.size(); i++) {
            if (p[i] == 0 || p[i] == '\\' || p[i] == ' ') return false;
            if (i && p[i] == '/' && p[i - 1] == '/') return false;
        }
        return true;
    }

    enum What { NOTHING, ITEM, DIR };

    template<typename V>
    What what(const std::map<std::string, V> &m, const std::string &p) {
        auto t = tokens(p);
        if (t.empty()) return DIR;
        What w = NOTHING;
        for (auto &e: m) {
            auto u = tokens(e.first);
            if (u == t) return ITEM;
            if (u.size() > t.size() && std::equal(t.begin(), t.end(), u.begin())) w = DIR;
        }
        return w;
    }

    // could an item be added at p?
    template<typename V>
    bool addable(const std::map<std::string, V> &m, const std::string &p) {
        if (!well_formed(p) || what(m, p) != NOTHING) return false;
        auto t = tokens(p);
        std::string q;
        for (size_t i = 0; i + 1 < t.size(); i++) {
            q += "/" + t[i];
            if (what(m, q) == ITEM) return false;
        }
        return true;
    }

    template<typename V>
    std::string norm_find(const std::map<std::string, V> &m, const std::string &p) {
        for (auto &e: m) if (tokens(e.first) == tokens(p)) return e.first;
        return "";
    }

    template<typename V>
    std::set<std::string> listing(const std::map<std::string, V> &m, const std::string &dir) {
        auto t = tokens(dir);
        std::set<std::string> r;
        for (auto &e: m) {
            auto u = tokens(e.first);
            if (u.size() > t.size() && std::equal(t.begin(), t.end(), u.begin())) r.insert(u[t.size()] + (u.size() == t.size() + 1 ? "" : "/"));
        }
        return r;
    }

    struct Universe {
        std::vector<std::string> files, models, dirs;
    };

    struct Ref {
        std::map<std::string, std::vector<Part>> files;
        std::map<std::string, ModelP> models;
        std::vector<Part> orphans;
        std::vector<ModelP> anon;
        unsigned tag = 0;              // contents are distinct
        std::vector<ModelP> made;      // by the last operation, in the order of the real calls
        std::vector<ModelP> all;

        ModelP fresh(int size) {
            auto m = std::make_shared<Model>();
            m->alg = 1 + tag % 2;
            m->data = content(++tag + 100, size);
            made.push_back(m);
            all.push_back(m);
            return m;
        }

        void unref(const ModelP &m) {
            if (--m->refs == 0 && !m->installed) m->alive = false;
        }

        // What the parts of an operation are; false: injecting its model is an error
        bool parts(const Op &o, std::vector<Part> &out, bool &known) {
            known = true;
            for (auto &s: o.parts) {
                Part p;
                unsigned t = ++tag;
                p.header = content(t + 50, s.header);
                p.data = content(t, s.size);
                p.o_size = s.size * 3 + t;
                if (s.src == FRESH) p.model = fresh(3);
                if (s.src == SHARED) {
                    if (what(models, o.mpath) != ITEM) return false;
                    p.model = models[norm_find(models, o.mpath)];
                }
                if (s.src == LASTANON && !anon.empty()) p.model = anon.back();
                if (!p.model || !p.model->alive) known = false;
                out.push_back(p);
            }
            return true;
        }

        // The meaning of an operation; false: it is rejected. For ENTRY a rejection of the entry itself leaves the parts
        // that were written on their own.
        bool apply(const Op &o) {
            made.clear();
            std::vector<Part> ps;
            bool known;
            switch (o.kind) {
                case CREATE:
                    if (!parts(o, ps, known) || !known || !addable(files, o.path)) return false;
                    for (auto &p: ps) p.model->refs++;
                    files[o.path] = ps;
                    return true;
                case ENTRY:
                    if (!parts(o, ps, known)) return false;
                    for (auto &p: ps) {
                        if (!p.model || !p.model->alive) return false;
                        p.model->refs++;
                        orphans.push_back(p);
                    }
                    if (!addable(files, o.path)) return false;
                    orphans.resize(orphans.size() - ps.size());
                    files[o.path] = ps;
                    return true;
                case ORPHAN:
                    if (!parts(o, ps, known) || !known) return false;
                    ps[0].model->refs++;
                    orphans.push_back(ps[0]);
                    return true;
                case REMOVE: {
                    if (!well_formed(o.path) || what(files, o.path) != ITEM) return false;
                    auto k = norm_find(files, o.path);
                    for (auto &p: files[k]) unref(p.model);
                    files.erase(k);
                    return true;
                }
                case INSTALL: {
                    if (!addable(models, o.path)) { ++tag; return false; }
                    auto m = fresh(o.size);
                    m->installed = true;
                    models[o.path] = m;
                    return true;
                }
                case UNINSTALL: {
                    if (!well_formed(o.path) || what(models, o.path) != ITEM) return false;
                    auto k = norm_find(models, o.path);
                    if (models[k]->refs > 0) return false;
                    models[k]->alive = models[k]->installed = false;
                    models.erase(k);
                    return true;
                }
                case ANON:
                    anon.push_back(fresh(o.size));
                    return true;
                case UNANON:
                    if (anon.empty()) return true;
                    if (anon.back()->alive && anon.back()->refs > 0) return false;
                    anon.back()->alive = false;
                    anon.pop_back();
                    return true;
                case READALL:
                case REOPEN:
                    return true;
            }
            return true;
        }

        std::string observe(const Universe &u) const {
            std::string s;
            for (auto &p: u.files) {
                What w = what(files, p);
                s += p + (w == NOTHING ? " absent\n" : w == DIR ? " dir\n" : " file");
                if (w == ITEM) {
                    for (auto &x: files.at(norm_find(files, p))) s += " " + x.str();
                    s += "\n";
                }
            }
            for (auto &d: u.dirs) { s += "ls " + d; list(s, files, d); }
            for (auto &p: u.models) {
                What w = what(models, p);
                s += p + (w == NOTHING ? " absent\n" : w == DIR ? " dir\n" : " model " + models.at(norm_find(models, p))->str() + "\n");
            }
            for (auto &d: u.dirs) { s += "lsm " + d; list(s, models, d); }
            return s;
        }

        template<typename V>
        static void list(std::string &s, const std::map<std::string, V> &m, const std::string &d) {
            if (what(m, d) == NOTHING) { s += " error\n"; return; }
            for (auto &e: listing(m, d)) s += " " + e;
            s += "\n";
        }
    };

    // ------------------------------------------------------------------ the real thing
    struct Real {
        std::string file;
        HZ_Archive *a = nullptr;
        std::map<Model *, uint64_t> ids;
        std::vector<std::vector<uint64_t>> orphan_ids;
        std::string error;

        explicit Real(const std::string &f) : file(f) {}

        void open() {
            rand_k = 0;
            a = new HZ_Archive(file);
            a->load();
        }

        void close() {
            a->close();
            delete a;
            a = nullptr;
        }

        static rainman::ptr<uint8_t> bytes(const Bytes &b) {
            rainman::ptr<uint8_t> p(b.size());
            for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
            return p;
        }

        static Bytes bytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
            Bytes b(n);
            for (uint64_t i = 0; i < n; i++) b[i] = p[i];
            return b;
        }

        static rainman::ptr<HZ_MState> mstate(const Model &m) {
            auto p = rainman::ptr<HZ_MState>();
            p->alg = (hzcodec::algorithms::ALGORITHM) m.alg;
            p->data = bytes(m.data);
            return p;
        }

        // Same contents as the reference: its counter and last anonymous model before, the models it made.
        // Returns true when accepted.
        bool apply(const Op &o, unsigned before_tag, const ModelP &last_anon, const std::vector<ModelP> &made) {
            error.clear();
            try {
                size_t nm = 0;
                std::vector<Part> ps;
                auto blobs = rainman::ptr<HZ_Blob>(o.parts.size());
                if (o.kind == CREATE || o.kind == ENTRY || o.kind == ORPHAN) {
                    // contents exactly as Ref::parts makes them
                    unsigned tag = before_tag;
                    for (size_t i = 0; i < o.parts.size(); i++) {
                        auto &s = o.parts[i];
                        unsigned t = ++tag;
                        auto &b = blobs[i];
                        b.header = HZ_BlobHeader();
                        b.header.raw = bytes(content(t + 50, s.header));
                        b.data = bytes(content(t, s.size));
                        b.size = s.size;
                        b.o_size = s.size * 3 + t;
                        if (s.src == FRESH) {
                            auto m = made.at(nm++);
                            ++tag;
                            auto one = rainman::ptr<HZ_Blob>();
                            *one = b;
                            a->inject_mstate(mstate(*m), one);
                            b = *one;
                            ids[m.get()] = b.mstate_id;
                        } else if (s.src == SHARED) {
                            auto one = rainman::ptr<HZ_Blob>();
                            *one = b;
                            a->inject_mstate(o.mpath, one);
                            b = *one;
                        } else if (s.src == LASTANON && last_anon) {
                            b.mstate_id = ids[last_anon.get()];
                        } else {
                            b.mstate_id = 0xdeadbeefdeadull;
                        }
                    }
                }
                switch (o.kind) {
                    case CREATE:
                        a->create_file(o.path, blobs, o.parts.size());
                        break;
                    case ENTRY: {
                        HZ_ArchiveFile f{};
                        f.blob_ids = rainman::ptr<uint64_t>(o.parts.size());
                        for (size_t i = 0; i < o.parts.size(); i++) {
                            auto one = rainman::ptr<HZ_Blob>();
                            *one = blobs[i];
                            f.blob_ids[i] = a->write_blob(one);
                        }
                        a->create_file_entry(o.path, f);
                        break;
                    }
                    case ORPHAN: {
                        auto one = rainman::ptr<HZ_Blob>();
                        *one = blobs[0];
                        a->write_blob(one);
                        break;
                    }
                    case REMOVE:
                        a->remove_file(o.path);
                        break;
                    case INSTALL: {
                        Model m;
                        m.alg = 1 + before_tag % 2;
                        m.data = content(before_tag + 1 + 100, o.size);
                        a->install_mstate(o.path, mstate(m));
                        break;
                    }
                    case UNINSTALL:
                        a->uninstall_mstate(o.path);
                        break;
                    case ANON:
                        ids[made.at(0).get()] = a->install_mstate(mstate(*made.at(0)));
                        break;
                    case UNANON:
                        if (last_anon) a->uninstall_mstate(ids[last_anon.get()]);
                        else a->uninstall_mstate(uint64_t(0xdeadbeefdeadull));
                        break;
                    case READALL:
                        break;
                    case REOPEN:
                        close();
                        open();
                        break;
                }
                return true;
            } catch (const std::exception &e) {
                error = e.what();
                return false;
            }
        }

        template<typename F>
        static std::string listing(F f) {
            try {
                auto l = f();
                std::multiset<std::string> s;
                for (auto &e: l) s.insert(e.entry + (e.is_leaf ? "" : "/"));
                std::string r;
                for (auto &x: s) r += " " + x;
                return r + "\n";
            } catch (const std::exception &) {
                return " error\n";
            }
        }

        static std::string part(const HZ_Blob &b) {
            Model m;
            m.alg = b.mstate->alg;
            m.data = bytes(b.mstate->data, b.mstate->size());
            return hex(bytes(b.header.raw, b.header.size())) + "/" + hex(bytes(b.data, b.size)) + "/" + std::to_string(b.o_size) + "/" + m.str();
        }

        std::string observe(const Universe &u) {
            std::string s;
            for (auto &p: u.files) {
                bool ex = a->check_file_exists(p);
                s += p;
                try {
                    auto f = a->read_file(p);
                    auto e = a->read_file_entry(p);
                    s += ex ? " file" : " file that does not exist";
                    if (e.blob_ids.size() != f.size()) s += " (the entry has another number of parts)";
                    for (uint64_t i = 0; i < f.size(); i++) {
                        s += " " + part(f[i]);
                        auto one = a->read_blob(e.blob_ids[i]);
                        if (part(*one) != part(f[i])) s += " (read on its own: " + part(*one) + ")";
                    }
                    s += "\n";
                } catch (const std::exception &e) {
                    s += ex ? " dir\n" : " absent\n";
                }
            }
            for (auto &d: u.dirs) s += "ls " + d + listing([&] { return a->list_file_system(d); });
            for (auto &p: u.models) {
                bool ex = a->check_mstate_exists(p);
                s += p;
                try {
                    auto m = a->read_mstate(p);
                    Model x;
                    x.alg = m->alg;
                    x.data = bytes(m->data, m->size());
                    s += (ex ? " model " : " model that does not exist ") + x.str() + "\n";
                } catch (const std::exception &) {
                    s += ex ? " dir\n" : " absent\n";
                }
            }
            for (auto &d: u.dirs) s += "lsm " + d + listing([&] { return a->list_mstate_system(d); });
            return s;
        }
    };

    inline std::string difference(const std::string &got, const std::string &want) {
        std::istringstream a(got), b(want);
        std::string x, y;
        for (;;) {
            bool p = (bool) std::getline(a, x), q = (bool) std::getline(b, y);
            if (!p && !q) return "";
            if (!p) x = "(nothing)";
            if (!q) y = "(nothing)";
            if (x != y) return "got: " + x + "\nexpected: " + y;
        }
    }

    // ------------------------------------------------------------------ the file format
    struct Image {
        const Bytes &b;
        explicit Image(const Bytes &x) : b(x) {}
        uint64_t bits() const { return b.size() * 8; }
        uint64_t get(uint64_t pos, unsigned n) const {
            uint64_t v = 0;
            for (unsigned i = 0; i < n; i++) {
                if (pos + i >= bits()) mc::fail("a record reaches beyond the end of the archive");
                v = v << 1 | (b[(pos + i) >> 3] >> (7 - ((pos + i) & 7)) & 1);
            }
            return v;
        }
    };

    struct Record {
        char type;                     // V version, F file, A model path, B part, M model, E empty
        uint64_t sof, len;
        std::string path;
        std::vector<uint64_t> ids;     // parts of a file, model of a path
        uint64_t id = 0, mid = 0, o_size = 0, alg = 0;
        Bytes header, data;
    };

    struct Layout {
        std::vector<Record> recs;
        uint64_t end = 0;
        std::vector<uint64_t> free_lengths() const {
            std::vector<uint64_t> r;
            for (auto &x: recs) if (x.type == 'E') r.push_back(x.len);
            return r;
        }
    };

    // closed: the end marker must be there
    inline Layout parse(const Bytes &img, bool closed) {
        Image im(img);
        Layout l;
        uint64_t pos = 0;
        for (;;) {
            if (im.bits() - pos < 8) {
                if (closed) mc::fail("the archive has no end marker");
                break;
            }
            uint64_t m = im.get(pos, 8);
            if (m == 0xff) break;
            if (!closed && im.bits() - pos < 72) mc::fail("rubbish at the end of the archive");
            Record r;
            r.sof = pos;
            r.len = im.get(pos + 8, 64);
            if (r.len > im.bits() || pos + 72 + r.len > im.bits()) mc::failf("a record reaches beyond the end of the archive", "record at bit %llu, length %llu", (unsigned long long) pos, (unsigned long long) r.len);
            uint64_t c = pos + 72, need = 0;
            auto arr = [&](uint64_t n, Bytes &out) {
                if (n > r.len) mc::fail("a record's length does not agree with its contents");
                for (uint64_t i = 0; i < n; i++, c += 8) out.push_back(im.get(c, 8));
            };
            switch (m) {
                case 0:
                    r.type = 'E';
                    need = r.len;
                    break;
                case 1: {
                    uint64_t k = im.get(c, 8);
                    c += 8;
                    if (k == 0) {
                        r.type = 'V';
                        need = 0x20;
                        if (im.get(c, 24) != 0x100 || pos != 0) mc::fail("wrong version record");
                    } else if (k == 1 || k == 2) {
                        r.type = k == 1 ? 'F' : 'A';
                        uint64_t n = im.get(c, 64);
                        c += 64;
                        Bytes p;
                        arr(n, p);
                        r.path.assign(p.begin(), p.end());
                        if (k == 1) {
                            uint64_t q = im.get(c, 58);
                            c += 58;
                            if (q > r.len) mc::fail("a record's length does not agree with its contents");
                            for (uint64_t i = 0; i < q; i++, c += 64) r.ids.push_back(im.get(c, 64));
                        } else {
                            r.ids.push_back(im.get(c, 64));
                            c += 64;
                        }
                        need = c - pos - 72;
                    } else mc::fail("unknown record");
                    break;
                }
                case 2:
                    r.type = 'B';
                    r.id = im.get(c, 64);
                    c += 64;
                    need = im.get(c, 64);
                    c += 64;
                    arr(need, r.header);
                    r.o_size = im.get(c, 64);
                    r.mid = im.get(c + 64, 64);
                    c += 128;
                    need = im.get(c, 64);
                    c += 64;
                    arr(need, r.data);
                    need = c - pos - 72;
                    break;
                case 3:
                    r.type = 'M';
                    r.id = im.get(c, 64);
                    r.alg = im.get(c + 64, 64);
                    need = im.get(c + 128, 64);
                    c += 192;
                    arr(need, r.data);
                    need = c - pos - 72;
                    break;
                default:
                    mc::failf("unknown record", "marker %llu at bit %llu", (unsigned long long) m, (unsigned long long) pos);
            }
            if (need != r.len) mc::failf("a record's length does not agree with its contents", "record %c at bit %llu has length %llu, its contents need %llu", r.type, (unsigned long long) pos, (unsigned long long) r.len, (unsigned long long) need);
            l.recs.push_back(r);
            pos += 72 + r.len;
        }
        l.end = pos;
        return l;
    }

    // The live records, named by what they mean instead of by identifiers.
    inline std::multiset<std::string> meaning(const Layout &l) {
        std::map<uint64_t, std::string> models, parts;
        for (auto &r: l.recs) if (r.type == 'M') {
            if (models.count(r.id)) mc::fail("two models with one identifier");
            models[r.id] = std::to_string(r.alg) + ":" + hex(r.data);
        }
        std::multiset<std::string> out;
        for (auto &r: l.recs) if (r.type == 'M') out.insert("model " + models[r.id]);
        for (auto &r: l.recs) if (r.type == 'B') {
            if (parts.count(r.id)) mc::fail("two parts with one identifier");
            parts[r.id] = hex(r.header) + "/" + hex(r.data) + "/" + std::to_string(r.o_size) + "/" + (models.count(r.mid) ? models[r.mid] : "no model");
            out.insert("part " + parts[r.id]);
        }
        for (auto &r: l.recs) {
            if (r.type == 'A') out.insert("model path " + r.path + " " + (models.count(r.ids[0]) ? models[r.ids[0]] : "no model"));
            if (r.type == 'F') {
                std::string s = "file " + r.path;
                for (auto i: r.ids) s += " " + (parts.count(i) ? parts[i] : "no part");
                out.insert(s);
            }
        }
        return out;
    }

    inline std::multiset<std::string> meaning(const Ref &f) {
        std::multiset<std::string> out;
        for (auto &m: f.all) if (m->alive) out.insert("model " + m->str());
        for (auto &m: f.models) out.insert("model path " + m.first + " " + m.second->str());
        for (auto &p: f.orphans) out.insert("part " + p.str());
        for (auto &e: f.files) {
            std::string s = "file " + e.first;
            for (auto &p: e.second) {
                out.insert("part " + p.str());
                s += " " + p.str();
            }
            out.insert(s);
        }
        return out;
    }

    inline std::string difference(const std::multiset<std::string> &got, const std::multiset<std::string> &want) {
        std::string s;
        std::vector<std::string> d;
        std::set_difference(got.begin(), got.end(), want.begin(), want.end(), std::back_inserter(d));
        for (auto &x: d) s += "too much: " + x + "\n";
        d.clear();
        std::set_difference(want.begin(), want.end(), got.begin(), got.end(), std::back_inserter(d));
        for (auto &x: d) s += "missing: " + x + "\n";
        return s;
    }

    inline Bytes live_image() { return bitio::stream::hzv_last->hzv_image(); }

    inline Bytes file_bytes(const std::string &f) {
        Bytes b;
        FILE *fp = fopen(f.c_str(), "rb");
        if (!fp) return b;
        uint8_t t[4096];
        size_t n;
        while ((n = fread(t, 1, sizeof t, fp)) > 0) b.insert(b.end(), t, t + n);
        fclose(fp);
        return b;
    }

    // Which operations a phase uses; all those that are valid in the state are offered.
    struct Menu {
        std::vector<std::string> paths, mpaths;
        std::vector<std::pair<Kind, std::vector<PartSpec>>> puts;
        std::vector<int> msizes{3};
        bool anon = false, drop_anon = false, readall = false, reopen = false, orphan = false;
        bool symmetric = false;        // only the first free path is used

        std::vector<Op> offer(const Ref &f, const Op *last) const {
            std::vector<Op> r;
            for (auto &p: paths) {
                if (!addable(f.files, p)) continue;
                for (auto &k: puts) {
                    bool ok = true, shared = false;
                    for (auto &s: k.second) {
                        if (s.src == LASTANON && (f.anon.empty() || !f.anon.back()->alive)) ok = false;
                        if (s.src == SHARED) shared = true;
                    }
                    if (!ok) continue;
                    if (!shared) {
                        r.push_back(Op{k.first, p, k.second, ""});
                        continue;
                    }
                    for (auto &m: f.models) r.push_back(Op{k.first, p, k.second, m.first});
                }
                if (symmetric) break;
            }
            for (auto &e: f.files) r.push_back(Op{REMOVE, e.first, {}, ""});
            for (auto &p: mpaths) if (addable(f.models, p)) {
                for (int s: msizes) r.push_back(Op{INSTALL, p, {}, "", s});
                if (symmetric) break;
            }
            for (auto &e: f.models) if (e.second->refs == 0) r.push_back(Op{UNINSTALL, e.first, {}, ""});
            if (anon) for (int s: msizes) r.push_back(Op{ANON, "", {}, "", s});
            if (drop_anon && !f.anon.empty() && f.anon.back()->refs == 0) r.push_back(Op{UNANON, "", {}, ""});
            if (orphan && !f.models.empty()) r.push_back(Op{ORPHAN, "", {{1, 4, SHARED}}, f.models.begin()->first});
            if (readall && last && last->kind != READALL) r.push_back(Op{READALL, "", {}, ""});
            if (reopen && last && last->kind != REOPEN) r.push_back(Op{REOPEN, "", {}, ""});
            return r;
        }
    };

    // The next operation, or none: the history ends here.
    inline bool pick(const Menu &m, const Ref &f, const Op *last, Op &out) {
        auto ops = m.offer(f, last);
        unsigned i = mc::choose(1 + ops.size(), mc::FREE, "operation");
        if (i == 0) return false;
        out = ops[i - 1];
        return true;
    }

    // One execution: sched, a fresh archive file, deterministic identifiers.
    inline void session(const std::function<void(const std::string &)> &f) {
        sched::knobs = sched::Knobs();
        sched::knobs.deadlock_sig = "an operation blocks forever";
        rand_k = 0;
        hzv_rand_hook = rand_hook;
        std::string dir = mc::scratch();
        ::remove((dir + "/t.hz").c_str());
        ::remove((dir + "/u.hz").c_str());
        sched::run([&] { f(dir); });
        hzv_rand_hook = nullptr;
    }

    // Apply to both, compare acceptance. true: accepted
    inline bool both(Real &r, Ref &f, const Op &o) {
        unsigned tag = f.tag;
        ModelP last = f.anon.empty() ? nullptr : f.anon.back();
        mc::logf("%s; ", o.str().c_str());
        mc::context(o.str().substr(0, o.str().find(' ')));
        bool want = f.apply(o);
        bool got = r.apply(o, tag, last, f.made);
        mc::step();
        if (want && !got) mc::fail("a valid operation is rejected", o.str() + ": " + r.error);
        if (!want && got) mc::fail("an operation that must be rejected is accepted", o.str());
        mc::context("");
        return got;
    }
}
#endif
