// C09: the path index against a plain map of paths.
#include <map>
#include <set>
#include <string>
#include <vector>
#include <loguru/loguru.hpp>
#include <hzip_storage/archive/archive_trie.h>
#include "mc.h"

const char *hzv_property = "C09";

typedef std::vector<std::string> Path;

static Path split(const std::string &s) {
    Path p;
    std::string c;
    for (char x: s) {
        if (x == '/') { if (!c.empty()) p.push_back(c); c.clear(); } else c += x;
    }
    if (!c.empty()) p.push_back(c);
    return p;
}

struct Ref {
    std::map<Path, std::string> m;
    static bool below(const Path &p, const Path &q) { return q.size() > p.size() && std::equal(p.begin(), p.end(), q.begin()); }
    bool dir(const Path &p) const {
        if (p.empty()) return true;
        for (auto &e: m) if (below(p, e.first)) return true;
        return false;
    }
    bool has(const Path &p) const { return m.count(p) || dir(p); }
    bool set(const Path &p, const std::string &v) {
        if (dir(p)) return false;
        for (auto &e: m) if (below(e.first, p)) return false;
        m[p] = v;
        return true;
    }
    bool erase(const Path &p) {
        if (p.empty() || !has(p)) return false;
        for (auto i = m.begin(); i != m.end();) if (i->first == p || below(p, i->first)) i = m.erase(i); else ++i;
        return true;
    }
    std::multiset<std::string> list(const Path &p) const {
        std::multiset<std::string> r;
        std::set<std::string> seen;
        for (auto &e: m) if (below(p, e.first)) {
            auto k = e.first[p.size()];
            if (seen.insert(k).second) r.insert(k + (e.first.size() == p.size() + 1 ? "" : "/"));
        }
        return r;
    }
};

typedef HZ_ArchiveTrie<std::string> Trie;

static void compare(Trie &t, const Ref &f, const std::vector<std::string> &ask) {
    for (auto &s: ask) {
        Path p = split(s);
        if (t.contains(s) != f.has(p)) mc::fail(f.has(p) ? "a stored path is not found" : "a path that is not stored is found", s);
        bool threw = false;
        std::string v;
        try { v = t.get(s); } catch (const std::exception &) { threw = true; }
        if (f.m.count(p)) {
            if (threw) mc::fail("an item cannot be looked up", s);
            if (v != f.m.at(p)) mc::fail("a lookup gives another item's value", s + ": " + v + ", expected " + f.m.at(p));
        } else if (!threw) mc::fail("a lookup of something that is not an item is no error", s + ": '" + v + "'");
        threw = false;
        std::multiset<std::string> l;
        try { for (auto &e: t.children(s)) l.insert(e.entry + (e.is_leaf ? "" : "/")); } catch (const std::exception &) { threw = true; }
        if (threw != !f.has(p)) mc::fail(threw ? "a directory cannot be listed" : "listing something that does not exist is no error", s);
        if (!threw && l != f.list(p)) {
            std::string x = s + ":";
            for (auto &e: l) x += " " + e;
            x += " expected:";
            for (auto &e: f.list(p)) x += " " + e;
            mc::fail("wrong listing", x);
        }
        mc::step();
    }
}

static void history(const std::vector<std::string> &sets, const std::vector<std::string> &erases, const std::vector<std::string> &ask, int depth) {
    uint64_t before = rainman::detail::live_bytes();
    {
        Trie t;
        Ref f;
        for (int i = 0; i < depth; i++) {
            unsigned k = mc::choose(1 + sets.size() + erases.size(), mc::FREE, "operation");
            if (k == 0) break;
            bool want, got = true;
            std::string what;
            if (k <= sets.size()) {
                auto &s = sets[k - 1];
                std::string v = "value " + std::to_string(i) + " long enough to live on the heap";
                what = "set " + s;
                mc::context("set");
                want = f.set(split(s), v);
                try { t.set(s, v); } catch (const std::exception &) { got = false; }
            } else {
                auto &s = erases[k - 1 - sets.size()];
                what = "erase " + s;
                mc::context("erase");
                want = f.erase(split(s));
                try { t.erase(s); } catch (const std::exception &) { got = false; }
            }
            mc::logf("%s; ", what.c_str());
            if (want != got) mc::fail(got ? "an operation in conflict with the index is accepted" : "a valid operation is rejected", what);
            if (!got) { mc::context("after a rejected operation"); compare(t, f, ask); }
        }
        mc::context("queries");
        compare(t, f, ask);
        uint64_t h = 7;
        for (auto &e: f.m) { for (auto &x: e.first) h = mc::mix(h, mc::hash_str(x)); h = mc::mix(h, mc::hash_str(e.second)); }
        mc::state(h);
        mc::context("destruction");
    }
    if (rainman::detail::live_bytes() != before) mc::fail("storage of the index is leaked");
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    std::vector<std::string> ask{"/", "", "/a", "/a/b", "/a/c", "/a/b/c", "/d", "/a/", "//a//b", "a/b", "/ab", "/c", "/d/e/f", "/d/e", "/b", "/a/b/c/d"};
    int d = th ? 6 : 5;
    o.bounds = "all sequences of up to " + std::to_string(d) + " operations: set of 6 paths, erase of 7 (items, directories, missing, root); 16 queries in many spellings";
    mc::explore("deep", [&] { history({"/a", "/a/b", "/a/c", "/a/b/c", "/d", "/d/e/f"}, {"/a", "/a/b", "/a/c", "/a/b/c", "/d", "/d/e/f", "/"}, ask, d); }, o);
    o.bounds = "all sequences of up to " + std::to_string(d) + " operations with unusual spellings: extra slashes, no leading slash, trailing slash, empty path";
    mc::explore("spellings", [&] { history({"/a", "a/b", "//a//b/", "/d/"}, {"/a/", "a//b", "", "/", "d", "/none"}, ask, d); }, o);
    int w = th ? 8 : 7;
    o.bounds = "all sequences of up to " + std::to_string(w) + " operations on three siblings below one directory and one beside it";
    mc::explore("siblings", [&] { history({"/a/b", "/a/c", "/a/d", "/e"}, {"/a/b", "/a/c"}, {"/", "/a", "/a/b", "/a/c", "/a/d", "/e", "/b"}, w); }, o);
}
