// The network service: the real server on in-memory sockets, a lock-step client that knows the protocol, and a boring
// reference model of what the requests mean.
#ifndef NET_COMMON_H
#define NET_COMMON_H

#include <cstdint>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <optional>
#include <set>
#include <string>
#include <thread>
#include <unistd.h>
#include <vector>
#include <hzip_network/api/api.h>
#include <hzip_network/api/api_enums.h>
#include <hzip_codec/codec_provider.h>
#include "archive_common.h"
#include "hzsched.h"
#include "mc.h"
#include "net.h"

namespace svc {
    using hzcodec::algorithms::ALGORITHM;
    inline const uint64_t VIC = hzcodec::algorithms::VICTINI, SHA = hzcodec::algorithms::SHARINGAN, UNC = hzcodec::algorithms::UNCOMPRESSED;
    inline const uint16_t PORT = 1729;

    inline std::string le(uint64_t v, unsigned n) { return std::string((const char *) &v, n); }
    inline std::string byte(unsigned b) { return std::string(1, (char) b); }

    // ------------------------------------------------------------------ the server
    struct Server {
        hzapi::Api *api = nullptr;
        bool returned = false;

        void start(uint64_t slots, const std::string &key, time_t timeout = 0, uint64_t threads = 1) {
            api = new hzapi::Api(slots);
            api->process(threads)->protect(key)->timeout(timeval{timeout, 0});
            hzapi::Api *a = api;
            std::thread([a] {
                sched::set_daemon(true);
                try { a->start("127.0.0.1", PORT); }
                catch (std::exception &e) { mc::logf("the server stops: %s", e.what()); }
            }).detach();
            sched::wait_until([] { return net::listening(PORT); }, "server start");
        }
        // after shutdown()
        void forget() { sched::wait_quiescent(); delete api; api = nullptr; }
    };

    // ------------------------------------------------------------------ the client
    struct Gone {};                      // the server ended the connection
    struct Refused { std::string msg; };
    struct Vanished {};                  // the client is gone (by choice)
    struct Client {
        std::shared_ptr<net::Conn> c;
        uint64_t challenge = 0;
        int64_t life = -1;               // vanishes after so many more bytes in either direction
        uint64_t moved = 0;              // bytes in either direction
        uint64_t given = 0;              // bytes sent
        bool half = false;               // only its sending side vanishes

        static uint64_t answer(uint64_t challenge, const std::string &key) {
            unsigned char b[8];
            memcpy(b, &challenge, 8);
            for (size_t i = 0; i < key.size(); i++) b[i % 8] ^= (unsigned char) key[i];
            memcpy(&challenge, b, 8);
            return challenge;
        }
        void vanish() {
            if (half) c->half_close(); else c->close();
            throw Vanished();
        }
        std::string raw(size_t n) {
            size_t m = life >= 0 && (size_t) life < n ? life : n;
            // After a failed send or receive both may wait for each other: the client gives up
            if (net::knobs.send_faults || net::knobs.recv_faults) sched::wait_until([&] { return c->to_client.size() >= m || c->server_closes || c->reset || c->server_shut || c->faults; }, "client recv");
            if (c->faults && c->to_client.size() < m) {
                sched::wait_quiescent();
                if (c->to_client.size() < m) throw Gone();
            }
            auto s = c->get(m);
            moved += s.size();
            if (s.size() < m) throw Gone();
            if (life >= 0 && (life -= m) == 0) vanish();
            return s;
        }
        void give(const std::string &f) {
            size_t m = life >= 0 && (size_t) life < f.size() ? life : f.size();
            c->put(f.substr(0, m));
            moved += m;
            given += m;
            if (life >= 0 && (life -= m) == 0) vanish();
        }
        // After a failed send or receive the stream may have a hole
        template<typename... A>
        void broken(const char *fmt, A... a) {
            if (c->faults) throw Gone();
            mc::failf("malformed reply", fmt, a...);
        }
        // the server is about to receive or send a field
        void sync() {
            uint8_t b = raw(1)[0];
            if (b == 0) return;
            if (b != 0xff) broken("byte %02x where a reply starts", b);
            uint16_t n;
            memcpy(&n, raw(2).data(), 2);
            std::string m = raw(n);
            throw Refused{m};
        }
        // nothing is said but that the server is ready again
        void ready() {
            sched::wait_until([this] { return !c->to_client.empty() || c->server_closes || c->reset || c->server_shut; }, "client recv");
            if (c->to_client.empty()) throw Gone();
            if (c->to_client[0] != 0) sync();
        }
        void put(const std::string &f) { sync(); give(f); }
        std::string field(size_t n) { sync(); return raw(n); }
        uint64_t u64() { uint64_t v; memcpy(&v, field(8).data(), 8); return v; }
        uint16_t u16() { uint16_t v; memcpy(&v, field(2).data(), 2); return v; }
        std::string message() { auto n = u16(); return field(n); }

        bool connect() {
            c = net::connect(PORT);
            return c != nullptr;
        }
        void get_challenge() { challenge = u64(); }
        // Throws when the server does not agree
        void handshake(const std::string &key) {
            get_challenge();
            uint64_t a = answer(challenge, key);
            put(le(a, 8));
            message();
        }
        void close() { c->close(); }
    };

    // ------------------------------------------------------------------ what requests mean
    struct Model {
        uint64_t alg;
        std::string data;
        bool opaque = false;             // contents not predicted
        bool used = false;               // some part may depend on it
    };
    struct Archive {
        std::map<std::string, std::string> files;
        std::map<std::string, Model> models;
    };
    struct World { std::map<std::string, Archive> archives; };

    enum Kind { EXISTS, LIST, LISTM, DELETE_FILE, DELETE_MODEL, MEM, ENCODE, TRAIN, DECODE, WRITE_MODEL, READ_MODEL, PART, HEALTH, CLOSE, BAD };
    inline const char *kind_name[] = {"exists", "list", "list models", "delete", "delete model", "memory", "encode", "train", "decode", "write model", "read model", "decode part", "health", "close", "invalid"};

    struct Req {
        Kind kind = HEALTH;
        std::optional<std::string> archive, target, model;
        bool piggy = false;
        uint64_t alg = 0;
        std::string data;
        std::vector<std::string> words;         // BAD: fields
        std::optional<std::string> inline_model;  // PART
        std::string header;
        uint64_t o_size = 0;
        bool must_fail = false;                 // malformed contents
        bool anything = false;                  // PART: either a refusal or some data
        std::string want;                       // PART: decoded
        std::string note;

        std::string str() const {
            std::string s = kind_name[kind];
            if (archive) s += " in " + archive->substr(archive->rfind('/'));
            if (target) s += " " + *target;
            if (model) s += " model " + *model;
            if (kind == ENCODE || kind == TRAIN || kind == PART) s += " algorithm " + std::to_string(alg) + ", " + std::to_string(data.size()) + " bytes";
            if (kind == WRITE_MODEL) s += " algorithm " + std::to_string(alg) + ", " + std::to_string(data.size()) + " bytes";
            if (!piggy) s += " (no piggyback)";
            if (!note.empty()) s += " [" + note + "]";
            return s;
        }
    };

    inline bool openable(const std::string &archive) { return archive.find("/nowhere/") == std::string::npos; }
    // A model that can be used with VICTINI
    inline uint64_t least_model = 65536 * 8;
    inline bool usable(const Model &m) { return m.alg == VIC && (m.opaque || m.data.size() >= least_model); }

    enum Verdict { NO, YES, EITHER };
    // The meaning. NO: rejected, without effect. EITHER: not decided here (a model that parts may depend on cannot be
    // replaced or removed); w is then as if accepted.
    inline Verdict verdict(World &w, const Req &r);
    inline bool meaning(World &w, const Req &r, bool &either) {
        Archive *a = nullptr;
        if (r.archive) {
            if (!openable(*r.archive)) return false;
            a = &w.archives[*r.archive];
        }
        if (r.must_fail) return false;
        bool target_ok = !r.target || arc::well_formed(*r.target);
        switch (r.kind) {
            case HEALTH: case CLOSE: case MEM: return true;
            case BAD: return false;
            case EXISTS: return r.piggy && a && r.target && target_ok;
            case LIST: return r.piggy && a && r.target && target_ok && arc::what(a->files, *r.target) != arc::NOTHING;
            case LISTM: return r.piggy && a && r.target && target_ok && arc::what(a->models, *r.target) != arc::NOTHING;
            case DELETE_FILE: {
                if (!a || !r.target || !target_ok || arc::what(a->files, *r.target) != arc::ITEM) return false;
                a->files.erase(arc::norm_find(a->files, *r.target));
                return true;
            }
            case DELETE_MODEL: {
                if (!a || !r.target || !target_ok || arc::what(a->models, *r.target) != arc::ITEM) return false;
                auto k = arc::norm_find(a->models, *r.target);
                either = a->models[k].used;
                a->models.erase(k);
                return true;
            }
            case ENCODE: {
                if (!target_ok || r.alg != VIC) return false;
                bool stored = a && r.target;
                if (!stored && !r.piggy) return false;
                if (stored && !arc::addable(a->files, *r.target)) return false;
                if (r.model && !r.data.empty()) {
                    if (!a || !arc::well_formed(*r.model) || arc::what(a->models, *r.model) != arc::ITEM) return false;
                    auto &m = a->models[arc::norm_find(a->models, *r.model)];
                    if (!usable(m)) return false;
                    m.used = true;
                }
                if (stored) a->files[*r.target] = r.data;
                return true;
            }
            case TRAIN: {
                if (r.alg != VIC || !r.model || !a) return false;
                if (r.data.empty()) return true;
                if (!arc::well_formed(*r.model)) return false;
                auto k = arc::what(a->models, *r.model);
                if (k == arc::ITEM) {
                    auto &m = a->models[arc::norm_find(a->models, *r.model)];
                    if (!usable(m)) return false;
                    either = m.used;
                    m.opaque = true;
                    return true;
                }
                if (!arc::addable(a->models, *r.model)) return false;
                a->models[*r.model] = {VIC, "", true};
                return true;
            }
            case DECODE: return r.piggy && a && r.target && target_ok && arc::what(a->files, *r.target) == arc::ITEM;
            case WRITE_MODEL: {
                if (!a || !r.model || !arc::addable(a->models, *r.model)) return false;
                a->models[*r.model] = {r.alg, r.data};
                return true;
            }
            case READ_MODEL: return r.piggy && a && r.model && arc::well_formed(*r.model) && arc::what(a->models, *r.model) == arc::ITEM;
            case PART: either = r.anything; return !r.must_fail;
        }
        return false;
    }

    inline Verdict verdict(World &w, const Req &r) {
        bool either = false;
        World before = w;
        bool ok = meaning(w, r, either);
        if (!ok) {
            // a part that was written before the upload was rejected may still use the model
            std::optional<World> keep = before;
            if (r.kind == ENCODE && r.archive && openable(*r.archive)) {
                auto &a = keep->archives[*r.archive];
                if (r.model && a.models.count(*r.model)) a.models[*r.model].used = true;
            } else if (r.archive && openable(*r.archive)) keep->archives[*r.archive];
            w = *keep;
        }
        return !ok ? NO : either ? EITHER : YES;
    }

    // The request's fields, in a usual order
    inline std::vector<std::string> fields(const Req &r) {
        std::vector<std::string> f;
        auto lstr = [&](unsigned word, const std::string &s) {
            f.push_back(byte(word));
            f.push_back(le(s.size(), 2));
            f.push_back(s);
        };
        using namespace hzapi;
        switch (r.kind) {
            case HEALTH: f.push_back(byte(API_CTL_HEALTH_CHECK)); break;
            case CLOSE: f.push_back(byte(API_CTL_CLOSE)); break;
            case BAD: f = r.words; break;
            case EXISTS: case LIST: case LISTM: case DELETE_FILE: case DELETE_MODEL: case MEM:
                f.push_back(byte(API_CTL_QUERY));
                if (r.archive) lstr(QUERY_CTL_ARCHIVE, *r.archive);
                if (r.target) lstr(QUERY_CTL_TARGET, *r.target);
                if (r.piggy) f.push_back(byte(QUERY_CTL_PIGGYBACK));
                f.push_back(byte(r.kind == EXISTS ? QUERY_CTL_CHECK_IF_FILE_EXISTS : r.kind == LIST ? QUERY_CTL_LIST_FILE_SYSTEM : r.kind == LISTM ? QUERY_CTL_LIST_MSTATE_SYSTEM :
                              r.kind == DELETE_FILE ? QUERY_CTL_DELETE_FILE : r.kind == DELETE_MODEL ? QUERY_CTL_DELETE_MSTATE : QUERY_CTL_GET_MEM_USAGE));
                break;
            case ENCODE: case TRAIN:
                f.push_back(byte(API_CTL_STREAM));
                f.push_back(byte(STREAM_CTL_ENCODE));
                if (r.archive) lstr(ENCODE_CTL_ARCHIVE, *r.archive);
                if (r.target) lstr(ENCODE_CTL_DEST, *r.target);
                if (r.model) lstr(ENCODE_CTL_MSTATE_ADDR, *r.model);
                if (r.alg) { f.push_back(byte(ENCODE_CTL_ALGORITHM)); f.push_back(le(r.alg, 8)); }
                if (r.piggy) f.push_back(byte(ENCODE_CTL_PIGGYBACK));
                f.push_back(byte(r.kind == ENCODE ? ENCODE_CTL_STREAM : ENCODE_CTL_TRAIN));
                f.push_back(le(r.data.size(), 8));
                f.push_back(r.data);            // not in pieces: no further synchronisation
                break;
            case DECODE:
                f.push_back(byte(API_CTL_STREAM));
                f.push_back(byte(STREAM_CTL_DECODE));
                if (r.archive) lstr(DECODE_CTL_ARCHIVE, *r.archive);
                if (r.target) lstr(DECODE_CTL_SRC, *r.target);
                if (r.piggy) f.push_back(byte(DECODE_CTL_PIGGYBACK));
                f.push_back(byte(DECODE_CTL_STREAM));
                break;
            case WRITE_MODEL: case READ_MODEL:
                f.push_back(byte(API_CTL_STREAM));
                f.push_back(byte(r.kind == WRITE_MODEL ? STREAM_CTL_WRITE_MSTATE : STREAM_CTL_READ_MSTATE));
                if (r.archive) lstr(MSTATE_CTL_ARCHIVE, *r.archive);
                if (r.model) lstr(MSTATE_CTL_ADDR, *r.model);
                if (r.piggy && r.kind == READ_MODEL) f.push_back(byte(MSTATE_CTL_PIGGYBACK));
                f.push_back(byte(MSTATE_CTL_STREAM));
                if (r.kind == WRITE_MODEL) { f.push_back(le(r.alg, 8)); f.push_back(le(r.data.size(), 8)); f.push_back(r.data); }
                break;
            case PART:
                f.push_back(byte(API_CTL_STREAM));
                f.push_back(byte(STREAM_CTL_DECODE));
                if (r.archive) lstr(DECODE_CTL_ARCHIVE, *r.archive);
                if (r.model) lstr(DECODE_CTL_MSTATE_ADDR, *r.model);
                f.push_back(byte(DECODE_CTL_ALGORITHM));
                f.push_back(le(r.alg, 8));
                if (r.piggy) f.push_back(byte(DECODE_CTL_PIGGYBACK));
                if (r.inline_model) { f.push_back(byte(DECODE_CTL_MSTATE_STREAM)); f.push_back(le(r.inline_model->size(), 8)); f.push_back(*r.inline_model); }
                f.push_back(byte(DECODE_CTL_BLOB_STREAM));
                f.push_back(le(r.header.size(), 8));
                f.push_back(r.header);
                f.push_back(le(r.data.size(), 8));
                f.push_back(r.data);
                f.push_back(le(r.o_size, 8));
                break;
        }
        return f;
    }

    struct Answer { bool ok = false; std::string refusal; std::string data; uint64_t alg = 0; std::set<std::string> list; uint64_t parts = 0;
                    struct Part { uint64_t alg; std::string model, header, data; }; std::vector<Part> encoded; };

    inline Answer reply(Client &c, const Req &r) {
        Answer a;
        switch (r.kind) {
            case HEALTH: c.message(); break;
            case DELETE_FILE: case DELETE_MODEL: c.ready(); break;
            case CLOSE: case BAD: break;
            case EXISTS: a.data = c.field(1); break;
            case MEM: c.u64(); break;
            case LIST: case LISTM: {
                uint64_t n = c.u64();
                if (n > 1000) c.broken("a list of %lu", (unsigned long) n);
                for (uint64_t i = 0; i < n; i++) {
                    auto e = c.field(c.u16());
                    auto leaf = c.field(1);
                    if (!a.list.insert(e + (leaf[0] ? "" : "/")).second) mc::fail("wrong reply", "an entry is listed twice");
                }
                break;
            }
            case ENCODE: {
                std::string got;
                while (r.piggy && got.size() < r.data.size()) {
                    Answer::Part p;
                    p.alg = c.u64();
                    for (auto *x: {&p.model, &p.header, &p.data}) {
                        uint64_t n = c.u64();
                        if (n > (1u << 26)) c.broken("a part of %lu bytes", (unsigned long) n);
                        *x = c.field(n);
                    }
                    a.encoded.push_back(p);
                    if (p.alg == UNC) got += p.data;
                    else if (p.alg == VIC) {
                        if (got.size() + 1 > r.data.size()) c.broken("too many parts");
                        // how much this part holds is for the client to know: everything, or the block size
                        uint64_t n = std::min<uint64_t>(hzcodec::CodecProvider::algorithm_to_bsize((ALGORITHM) VIC), r.data.size() - got.size());
                        auto b = rainman::ptr<HZ_Blob>();
                        auto mem = [](const std::string &s) { auto p = rainman::ptr<uint8_t>(s.size()); memcpy(p.pointer(), s.data(), s.size()); return p; };
                        b->data = mem(p.data);
                        b->size = p.data.size();
                        b->o_size = n;
                        b->header.raw = mem(p.header);
                        b->mstate = rainman::ptr<HZ_MState>();
                        b->mstate->alg = (ALGORITHM) VIC;
                        b->mstate->data = mem(p.model);
                        auto d = hzcodec::CodecProvider::algorithm_to_codec((ALGORITHM) VIC)->decompress(b);
                        got.append((const char *) d->data.pointer(), n);
                    } else c.broken("a part with algorithm %lu", (unsigned long) p.alg);
                }
                a.data = got;
                c.message();
                break;
            }
            case TRAIN: case WRITE_MODEL: c.message(); break;
            case DECODE: {
                uint64_t n = a.parts = c.u64();
                if (n > 1000) c.broken("a file of %lu parts", (unsigned long) n);
                for (uint64_t i = 0; i < n; i++) {
                    uint64_t m = c.u64();
                    if (m > (1u << 26)) c.broken("a part of %lu bytes", (unsigned long) m);
                    a.data += c.field(m);
                }
                c.message();
                break;
            }
            case READ_MODEL: {
                a.alg = c.u64();
                uint64_t n = c.u64();
                if (n > (1u << 26)) c.broken("a model of %lu bytes", (unsigned long) n);
                a.data = c.field(n);
                c.message();
                break;
            }
            case PART: {
                uint64_t n = c.u64();
                if (n > (1u << 26)) c.broken("a part of %lu bytes", (unsigned long) n);
                a.data = c.field(n);
                c.message();
                break;
            }
        }
        a.ok = true;
        return a;
    }

    // One request, in lock step. Gone escapes.
    inline Answer ask(Client &c, const Req &r) {
        try {
            auto f = fields(r);
            for (auto &x: f) c.put(x);
            if (r.kind == BAD) {
                // whatever these fields are, they must end in a refusal
                c.sync();
                mc::failf("an invalid request is not refused", "%s", r.str().c_str());
            }
            return reply(c, r);
        } catch (Refused &e) {
            Answer a;
            a.refusal = e.msg;
            return a;
        }
    }

    // Is the answer the right one? Applies the request to the world.
    inline void judge(World &w, const Req &r, const Answer &a) {
        World after = w;
        Verdict v = verdict(after, r);
        std::string n = r.str();
        if (v == EITHER) v = a.ok ? YES : NO;
        else w = after;
        if (a.ok && v == YES) w = after;
        bool ok = v == YES;
        if (a.ok && !ok) mc::failf("a request that must be refused succeeds", "%s", n.c_str());
        if (!a.ok && ok) mc::failf("a valid request is refused", "%s: %s", n.c_str(), a.refusal.c_str());
        if (!ok) {
            if (a.refusal.empty()) mc::failf("a refusal says nothing", "%s", n.c_str());
            return;
        }
        const Archive *x = r.archive ? &after.archives.at(*r.archive) : nullptr;
        switch (r.kind) {
            case EXISTS: {
                bool want = arc::what(x->files, *r.target) != arc::NOTHING;
                if (a.data[0] != 0 && a.data[0] != 1) mc::failf("malformed reply", "%s", n.c_str());
                if ((bool) a.data[0] != want) mc::failf("wrong reply", "%s: %d", n.c_str(), a.data[0]);
                break;
            }
            case LIST: if (a.list != arc::listing(x->files, *r.target)) mc::failf("wrong reply", "%s: %zu entries", n.c_str(), a.list.size()); break;
            case LISTM: if (a.list != arc::listing(x->models, *r.target)) mc::failf("wrong reply", "%s: %zu entries", n.c_str(), a.list.size()); break;
            case ENCODE: if (r.piggy && a.data != r.data) mc::failf("the parts sent back do not decode to the data", "%s", n.c_str()); break;
            case DECODE: {
                auto &want = x->files.at(arc::norm_find(x->files, *r.target));
                if (a.data != want) mc::failf("a downloaded file differs from what was uploaded", "%s: %zu bytes for %zu", n.c_str(), a.data.size(), want.size());
                break;
            }
            case READ_MODEL: {
                auto &m = x->models.at(arc::norm_find(x->models, *r.model));
                if (a.alg != m.alg || (m.opaque ? a.data.size() < 65536 * 8 : a.data != m.data)) mc::failf("wrong reply", "%s: algorithm %lu, %zu bytes", n.c_str(), a.alg, a.data.size());
                break;
            }
            case PART: if (!r.anything && a.data != r.want) mc::failf("wrong reply", "%s: %zu bytes for %zu", n.c_str(), a.data.size(), r.want.size()); break;
            default:;
        }
    }

    // ------------------------------------------------------------------ archives as they are on disk
    // Contents of an archive file according to the real archive and codecs (in the current process). Throws when unreadable.
    inline Archive contents(const std::string &file) {
        Archive out;
        HZ_Archive a(file);
        a.load();
        struct Closer { HZ_Archive &a; ~Closer() { a.close(); } } closer{a};
        std::function<void(const std::string &, bool)> walk = [&](const std::string &dir, bool models) {
            auto l = models ? a.list_mstate_system(dir.empty() ? "/" : dir) : a.list_file_system(dir.empty() ? "/" : dir);
            for (auto &e: l) {
                std::string p = dir + "/" + e.entry;
                if (!e.is_leaf) { walk(p, models); continue; }
                if (models) {
                    auto m = a.read_mstate(p);
                    out.models[p] = {(uint64_t) m->alg, std::string((const char *) m->data.pointer(), m->size())};
                } else {
                    auto f = a.read_file(p);
                    std::string s;
                    for (uint64_t i = 0; i < f.size(); i++) {
                        auto b = rainman::ptr<HZ_Blob>();
                        *b = f[i];
                        auto d = hzcodec::CodecProvider::algorithm_to_codec(b->mstate->alg)->decompress(b);
                        s.append((const char *) d->data.pointer(), d->o_size);
                    }
                    out.files[p] = s;
                }
            }
        };
        walk("", false);
        walk("", true);
        return out;
    }

    inline std::string compare(const Archive &got, const Archive &want) {
        for (auto &f: want.files) {
            auto it = got.files.find(f.first);
            if (it == got.files.end()) return "file " + f.first + " is missing";
            if (it->second != f.second) return "file " + f.first + " has other contents";
        }
        for (auto &f: got.files) if (!want.files.count(f.first)) return "there is a file " + f.first;
        for (auto &m: want.models) {
            auto it = got.models.find(m.first);
            if (it == got.models.end()) return "model " + m.first + " is missing";
            if (it->second.alg != m.second.alg || (!m.second.opaque && it->second.data != m.second.data)) return "model " + m.first + " has other contents";
        }
        for (auto &m: got.models) if (!want.models.count(m.first)) return "there is a model " + m.first;
        return "";
    }

    inline std::string slurp(const std::string &f) {
        std::ifstream i(f, std::ios::binary);
        return std::string(std::istreambuf_iterator<char>(i), {});
    }
    inline void spew(const std::string &f, const std::string &s) {
        std::ofstream o(f, std::ios::binary | std::ios::trunc);
        o << s;
    }

    // texts
    inline std::string text(int k) {
        std::string s;
        switch (k) {
            case 0: return "";
            case 1: return "\x37\xfe\x01";
            case 2: return std::string(60, 'a');
            case 3: for (int i = 0; i < 90; i++) s += (char) (i % 5 ? 'a' + i % 3 : 'z'); return s;
            default: return std::string("\x01\x06\xff\x02\x02", 5) + std::string(40, '\x02');     // looks like requests
        }
    }

    // block size of VICTINI for this process, so that small uploads have several parts; false if it cannot be set
    template<typename P>
    bool set_block_size(uint64_t n) {
        if constexpr (requires { P::bsize_map[(ALGORITHM) VIC] = n; }) { P::bsize_map[(ALGORITHM) VIC] = n; return true; }
        return false;
    }
}
#endif
