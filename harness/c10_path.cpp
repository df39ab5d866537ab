// C10: the path validator against the definition, on every short string over the special characters.
#include <hzip_core/utils/validation.h>
#include "mc.h"
#include <vector>

const char *hzv_property = "C10";

static bool wellformed(const std::string &s) {
    if (s.empty() || s[0] != '/') return false;
    bool slash = false;
    for (unsigned char c: s) {
        if (c == 0 || c == '\\' || c == ' ') return false;
        if (c == '/' && slash) return false;
        slash = c == '/';
    }
    return true;
}

static std::string show(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c: s) {
        char b[8];
        if (c < 33 || c > 126) snprintf(b, 8, "\\x%02x", c); else snprintf(b, 8, "%c", c);
        o += b;
        if (o.size() > 200) break;
    }
    return o + "\" (length " + std::to_string(s.size()) + ")";
}

static void check(const std::string &s, bool log = true) {
    if (log) mc::logf("%s", show(s).c_str());
    bool ok = true, other = false;
    std::string copy = s;
    try {
        hz_validate_path(s);
    } catch (const UtilErrors::ValidationError &) {
        ok = false;
    } catch (...) {
        other = true;
    }
    if (other) mc::fail("unexpected kind of error", show(s));
    if (s != copy) mc::fail("the path was changed", show(s));
    bool want = wellformed(s);
    if (ok && !want) mc::fail("accepts a malformed path", show(s));
    if (!ok && want) mc::fail("rejects a well-formed path", show(s));
    mc::step(s.size() + 1);
    mc::outcome(ok);
}

void hzv_main() {
    static const char A[] = {'/', 'a', ' ', '\\', '\0', '.', '\xff', '\n'};
    int L = mc::thorough() ? 8 : 7;
    mc::Opts o;
    for (int len = 0; len <= L; len++) {
        uint64_t n = 1;
        for (int i = 0; i < len; i++) n *= 8;
        o.bounds = "all strings of this length over / a space backslash NUL . 0xff newline";
        mc::enumerate("length " + std::to_string(len), n, [&](uint64_t i) {
            std::string s(len, 0);
            uint64_t x = i;
            for (auto &c: s) { c = A[x % 8]; x /= 8; }
            check(s);
        }, o);
    }
    o.bounds = "every byte at every position of a 4-character path, pairs of bytes included";
    mc::enumerate("every byte pair", 65536 * 3, [&](uint64_t i) {
        std::string s = "/abc";
        s[i / 65536] = (char) (i & 255);
        s[i / 65536 + 1] = (char) ((i >> 8) & 255);
        check(s);
    }, o);
    // a defect at every position of long paths, every length
    static const char bad[] = {' ', '\\', '\0', '/', 'x'};
    uint64_t M = mc::thorough() ? 700 : 300;
    o.bounds = "paths of every length up to " + std::to_string(M) + " with one special character (or double slash) at every position";
    mc::enumerate("one defect in long paths", M * M * 5, [&](uint64_t i) {
        uint64_t len = i % M + 1, pos = (i / M) % M;
        if (pos >= len) return;
        std::string s(len, 'd');
        s[0] = '/';
        char c = bad[i / M / M];
        s[pos] = c;
        if (c == '/' && pos + 1 < len) s[pos + 1] = '/';
        check(s, i < 300);
    }, o);
    static const uint64_t big[] = {65535, 65536, 65537, 200000};
    o.bounds = "lengths around 2^16: good, and with a defect at the start, the middle and the end";
    mc::enumerate("very long paths", 4 * 5 * 4, [&](uint64_t i) {
        std::string s(big[i % 4], 'd');
        s[0] = '/';
        uint64_t w = (i / 4) % 4;
        uint64_t p = w == 1 ? 1 : w == 2 ? s.size() / 2 : s.size() - 1;
        if (w) s[p] = bad[i / 16];
        if (w && bad[i / 16] == '/') s[p - 1] = '/';
        check(s, false);
    }, o);
}
