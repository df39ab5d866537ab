// C30: size arguments and command line options.
#include <algorithm>
#include <cstdint>
#include <stdexcept>
#include <string>
#include <terminal.h>
#include "mc.h"

const char *hzv_property = "C30";

enum Kind { VALUE, ERROR, ZERO, UNSPECIFIED };

// What a size text means. Texts whose number part has trailing rubbish or a sign are left open.
static Kind meaning(const std::string &s, uint64_t &v) {
    v = 0;
    if (s.empty() || s.back() != 'b') return ZERO;
    int shift = 0;
    size_t cut = 1;
    if (s.size() >= 2) {
        char u = s[s.size() - 2];
        if (u == 'k') shift = 10, cut = 2;
        if (u == 'm') shift = 20, cut = 2;
        if (u == 'g') shift = 30, cut = 2;
    }
    std::string num = s.substr(0, s.size() - cut);
    if (num.empty() || !((num[0] >= '0' && num[0] <= '9') || num[0] == '-' || num[0] == '+' || isspace((unsigned char) num[0]))) return ERROR;
    unsigned __int128 x = 0;
    for (char c: num) {
        if (c < '0' || c > '9') return UNSPECIFIED;
        x = x * 10 + (c - '0');
        if (x >> 64) return ERROR;
    }
    if ((x << shift) >> 64) return UNSPECIFIED;
    v = (uint64_t) (x << shift);
    return VALUE;
}

static void check(const std::string &s, bool log = true) {
    if (log) mc::logf("conv_to_bytes(\"%s\")", s.c_str());
    uint64_t want, got = 0;
    Kind k = meaning(s, want);
    bool threw = false;
    try {
        got = conv_to_bytes(s);
    } catch (const std::exception &) {
        threw = true;
    }
    mc::step();
    mc::outcome(mc::mix(got, threw));
    if (k == UNSPECIFIED) { mc::vacuous(); return; }
    if (k == ERROR && !threw) mc::failf("accepts a suffix without a usable number", "\"%s\" -> %lu", s.c_str(), got);
    if (k != ERROR && threw) mc::failf("rejects", "\"%s\" raised an error", s.c_str());
    if (k != ERROR && got != want) mc::failf("wrong number of bytes", "\"%s\" -> %lu, expected %lu", s.c_str(), got, want);
}

static const char *SUF[] = {"b", "kb", "mb", "gb"};

// ---------------------------------------------------------------- options
struct Model {
    bool err = false, help = false;
    bool found[2] = {};
    std::string val[2];
};

static const char *TOK[] = {"-p", "--peak-size", "-v", "--verbose", "-h", "--help", "10mb", "7", "-5", "--verbose=3", "--peak-size=5kb", "-p=9b", "-pv",
                            "--bogus", "-x", "--peak", "", "-", "--verb=1", "--peak-sizes"};
static const int NTOK = 20;

static Model reference(const std::vector<std::string> &t) {
    Model m;
    int cur = -1;
    auto opt = [&](const std::string &n) { return n == "p" || n == "peak-size" ? 0 : n == "v" || n == "verbose" ? 1 : -1; };
    auto add = [&](const std::string &v) {
        if (cur < 0) return;
        if (m.val[cur].size()) m.val[cur] += " ";
        m.val[cur] += v;
    };
    for (auto &s: t) {
        if (s.empty()) continue;
        if (s == "-h" || s == "--help") { m.help = true; continue; }
        bool number = s == "7" || s == "-5";
        if (s.size() < 2 || s[0] != '-' || number) { add(s); continue; }
        std::string name = s.substr(s[1] == '-' ? 2 : 1), value;
        bool has = false;
        auto e = name.find('=');
        if (e != std::string::npos) { value = name.substr(e + 1); name = name.substr(0, e); has = true; }
        if (s[1] != '-' && name.size() > 1) {         // a group of short options
            for (char c: name) {
                int o = opt(std::string(1, c));
                if (o < 0) { m.err = true; return m; }
                m.found[o] = true;
            }
            cur = -1;
            continue;
        }
        int o = opt(name);
        if (o < 0) { m.err = true; return m; }
        m.found[o] = true;
        cur = o;
        if (has) add(value);
    }
    return m;
}

static void options(const std::vector<std::string> &t) {
    std::vector<const char *> argv{"hybridzip"};
    std::string line;
    for (auto &s: t) { argv.push_back(s.c_str()); line += " '" + s + "'"; }
    mc::logf("hybridzip%s", line.c_str());
    auto m = reference(t);
    auto p = build_parser();
    auto r = p.parse((int) argv.size(), argv.data());
    mc::step(t.size() + 1);
    if ((bool) r != m.err) mc::fail(m.err ? "an unknown option is not reported" : "a valid command line is rejected", line + ": " + r.what());
    if (m.err) { if (r.what().empty()) mc::fail("an error without a message", line); return; }
    if (p.exists("help") != m.help) mc::fail("help option", line);
    static const char *N[2][2] = {{"p", "peak-size"}, {"v", "verbose"}};
    for (int o = 0; o < 2; o++) for (int k = 0; k < 2; k++) {
        if (p.exists(N[o][k]) != m.found[o]) mc::fail("presence of an option", line + ": " + N[o][k]);
        auto v = t.empty() ? std::string() : p.get<std::string>(N[o][k]);
        if (v != m.val[o]) mc::fail("value of an option", line + ": " + N[o][k] + " is '" + v + "', expected '" + m.val[o] + "'");
    }
    mc::outcome(mc::hash_str(m.val[0] + "|" + m.val[1] + (m.found[0] ? "1" : "0") + (m.found[1] ? "1" : "0") + (m.help ? "h" : "")));
}

void hzv_main() {
    mc::Opts o;
    uint64_t M = mc::thorough() ? 1000000 : 200000;
    o.bounds = "every number below " + std::to_string(M) + " with every suffix";
    mc::enumerate("numbers x suffixes", M * 4, [&](uint64_t i) { check(std::to_string(i / 4) + SUF[i % 4]); }, o);
    o.bounds = "2^k-1, 2^k, 2^k+1, 10^k, 10^k-1 with every suffix and up to 2 leading zeros; numbers beyond 64 bits";
    mc::enumerate("boundaries", 64 * 5 * 4 * 3, [&](uint64_t i) {
        uint64_t k = i / 60, w = (i / 12) % 5;
        unsigned __int128 x = 0;
        if (w < 3) x = ((unsigned __int128) 1 << k) + w - 1;
        else { x = 1; for (uint64_t j = 0; j < k % 25; j++) x *= 10; if (w == 4) x--; }
        std::string s;
        do { s.insert(s.begin(), char('0' + (int) (x % 10))); x /= 10; } while (x);
        check(std::string((i / 4) % 3, '0') + s + SUF[i % 4]);
    }, o);
    static const char A[] = {'0', '1', '9', 'k', 'm', 'g', 'b', 'x'};
    int L = mc::thorough() ? 7 : 6;
    for (int len = 0; len <= L; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= 8;
        o.bounds = "all strings of this length over 0 1 9 k m g b x";
        mc::enumerate("texts of length " + std::to_string(len), n, [&](uint64_t i) {
            std::string s(len, 0);
            uint64_t x = i;
            for (auto &c: s) { c = A[x % 8]; x /= 8; }
            check(s);
        }, o);
    }
    int D = mc::thorough() ? 4 : 4;
    for (int len = 0; len <= D; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= NTOK;
        o.bounds = "all command lines of this many arguments over 20 arguments";
        mc::enumerate("command lines of length " + std::to_string(len), n, [&](uint64_t i) {
            std::vector<std::string> t;
            uint64_t x = i;
            for (int k = 0; k < len; k++) { t.push_back(TOK[x % NTOK]); x /= NTOK; }
            options(t);
        }, o);
    }
}
