// C29: the configuration from the environment: all combinations of set and unset variables, all malformed values, all hosts.
#include <algorithm>
#include <cstdint>
#include <cstdlib>
#include <functional>
#include <set>
#include <string>
#include <unistd.h>
#include <vector>
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/runtime/config.h>
#include <hzip_core/runtime/executor.h>
#include <loguru/loguru.hpp>
#ifdef HZIP_ENABLE_OPENCL
#include "fakecl.h"
#endif
#include "mc.h"

const char *hzv_property = "C29";
using hzruntime::Config;
typedef unsigned __int128 u128;

struct Var {
    const char *name;
    bool number;
    uint64_t max;                         // of a number
    std::vector<const char *> values;     // well-formed
    const char *def;
};
static std::vector<Var> vars = {
    {"HZIP_CACHE_FILE", false, 0, {"cf", "other.cache"}, "hzip"},
    {"HZIP_CACHE_PAGE_SIZE", true, 1 << 20, {"4096", "17"}, "131072"},
    {"HZIP_CACHE_COUNT", true, 64, {"1", "9"}, "4"},
    {"HZIP_API_THREADS", true, UINT64_MAX, {"3", "12"}, "1"},
    {"HZIP_API_PORT", true, 65535, {"80", "65535"}, "1729"},
    {"HZIP_API_TIMEOUT", true, UINT32_MAX, {"5", "86400"}, "100"},
    {"HZIP_API_KEY", false, 0, {"s3cret key", ""}, "hybridzip"},
    {"HZIP_PROCESSOR_THREADS", true, UINT64_MAX, {"2", "64"}, "1"},
    {"HZIP_MAX_MEM_USAGE", true, UINT64_MAX, {"1048576", "8589934592"}, "1073741824"},
#ifdef HZIP_ENABLE_OPENCL
    {"HZIP_OPENCL_KERNELS", true, UINT64_MAX, {"8", "1000"}, "32"},
    {"HZIP_OPENCL_DEVICE_REGEX", false, 0, {"xa", "b|c"}, ""},
#endif
};

#ifdef HZIP_ENABLE_OPENCL
static std::vector<std::vector<std::string>> hosts = {{}, {"xa"}, {"xa", "xb", "xc"}};
static void set_host(int h) {
    // -1: no platform; 0: a platform without devices
    std::vector<fakecl::Platform> ps;
    if (h >= 0) {
        fakecl::Platform p{"P", {}};
        for (auto &n: hosts[h]) p.devices.push_back({n});
        ps.push_back(p);
    }
    fakecl::host(ps);
}
#endif

// The value of one setting as it is in use
static std::string in_use(size_t i) {
    auto cache = [] {
        std::vector<const rainman::cache *> v;
        std::string file;
        uint64_t page = 0;
        for (int k = 0; k < 100; k++) {
            auto [c, m] = hzruntime::CacheProvider::get_cache();
            if (v.empty()) { file = c.filename(); page = c.page_size(); }
            else if (v[0] == &c) break;
            else if (c.page_size() != page) mc::fail("the caches have different page sizes");
            v.push_back(&c);
        }
        return std::tuple<std::string, uint64_t, uint64_t>(file, page, v.size());
    };
    switch (i) {
        case 0: { auto f = std::get<0>(cache()); auto p = f.find(".rain."); return p == std::string::npos ? f : f.substr(0, p); }
        case 1: return std::to_string(std::get<1>(cache()));
        case 2: return std::to_string(std::get<2>(cache()));
        case 3: return std::to_string(Config::api_threads);
        case 4: return std::to_string(Config::api_port);
        case 5: return std::to_string(Config::api_timeout);
        case 6: return Config::api_key;
        case 7: return std::to_string(Config::processor_threads);
        case 8: return std::to_string(Config::host_max_memory);
#ifdef HZIP_ENABLE_OPENCL
        case 9: return std::to_string(Config::opencl_kernels);
        case 10: return Config::opencl_device_regex;
#endif
    }
    return "";
}

typedef std::vector<const char *> Env;        // null: unset
static std::string text(const Env &e) {
    std::string s;
    for (size_t i = 0; i < e.size(); i++) if (e[i]) s += std::string(vars[i].name) + "='" + e[i] + "' ";
    return s;
}

static bool configure(const Env &e) {
    for (size_t i = 0; i < e.size(); i++) if (e[i]) setenv(vars[i].name, e[i], 1); else unsetenv(vars[i].name);
    mc::logf("%s", text(e).c_str());
    mc::step();
    try { Config::configure(); return true; }
    catch (std::exception &x) { mc::logf("-> %s", x.what()); return false; }
}

// but: a variable that is looked at otherwise
static void compare(const Env &e, size_t but = 99) {
    uint64_t h = 0;
    for (size_t i = 0; i < e.size(); i++) {
        auto got = in_use(i);
        h = mc::mix(h, mc::hash_str(got));
        if (i == but) continue;
        std::string want = e[i] ? e[i] : vars[i].def;
        if (got != want) mc::failf((std::string(vars[i].name) + (e[i] ? " does not take effect" : " has another default")).c_str(), "'%s' with %s", got.c_str(), text(e).c_str());
    }
    mc::state(h);
    mc::outcome(h);
}

static void devices(int host, const char *regex) {
#ifdef HZIP_ENABLE_OPENCL
    std::vector<std::string> want, got;
    if (host > 0) for (auto &n: hosts[host]) {
        std::string r = regex ? regex : "";
        if (r.empty() || r == "." || r == "x" || (r == "xa" && n == "xa") || (r == "b|c" && n != "xa")) want.push_back(n);
    }
    try { for (auto &d: hzopencl::DeviceProvider::get_devices()) got.push_back(fakecl::device_name(d())); } catch (std::exception &) {}
    if (got != want) {
        std::string a, b;
        for (auto &x: got) a += x + " ";
        for (auto &x: want) b += x + " ";
        mc::failf("HZIP_OPENCL_DEVICE_REGEX does not take effect", "devices %sinstead of %s", a.c_str(), b.c_str());
    }
    if (Config::opencl_support_enabled != !want.empty()) mc::fail("the support of accelerators is reported wrongly", want.empty() ? "there is none" : "there is one");
    if ((hzruntime::get_best_executor() == hzruntime::OPENCL) != !want.empty()) mc::fail("the wrong executor is chosen");
#else
    if (Config::opencl_support_enabled || hzruntime::get_best_executor() != hzruntime::CPU) mc::fail("there is an accelerator without support for any");
#endif
}

static bool digits(const std::string &s) { return !s.empty() && s.find_first_not_of("0123456789") == std::string::npos; }

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    size_t n = vars.size();
    mc::Opts o;
    o.fork_each = true;        // the settings start with their defaults

    uint64_t total = 1;
    for (size_t i = 0; i < n; i++) total *= 3;
    o.bounds = "every variable unset or with one of 2 values";
    mc::enumerate("combinations", total, [&](uint64_t x) {
        chdir(mc::scratch().c_str());
        Env e;
        for (size_t i = 0; i < n; i++, x /= 3) e.push_back(x % 3 ? vars[i].values[x % 3 - 1] : nullptr);
#ifdef HZIP_ENABLE_OPENCL
        set_host(2);
#endif
        if (!configure(e)) mc::failf("a correct configuration is refused", "%s", text(e).c_str());
        compare(e);
        devices(2, n > 10 ? e[10] : nullptr);
    }, o);

    // every value of one variable, with each other variable set or not
    static std::vector<std::string> values = {"", "0", "1", "7", "abc", "12abc", "abc12", "-1", "-0", "1e3", "0x10", "1.5", "1,5", "1_000", "1 2", "--1", "5x", "5 x", "\t", " ", "1\n2", "12kb",
        "63", "255", "256", "65535", "65536", "65537", "67265", "1048575", "2147483647", "2147483648", "4294967295", "4294967296", "4294967297", "4294967396", "9223372036854775807",
        "9223372036854775808", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744073709553345", "99999999999999999999999999", "-18446744073709551615", "1234567", "4097",
        "007", "+5", " 5", "5 "};
    for (int d = 0; d < 10; d++) for (const char *s: {"#x", "x#", "-#", "#-", "#.0", "#e1"}) {
        std::string v = s;
        v.replace(v.find('#'), 1, 1, (char) ('0' + d));
        values.push_back(v);
    }
    if (mc::thorough()) for (int a = 1; a < 256; a++) for (const char *s: {"#", "#1", "1#", "1#1"}) {
        std::string v = s;
        v.replace(v.find('#'), 1, 1, (char) a);
        values.push_back(v);
    }
    struct Case { size_t var; size_t value; int other; };
    std::vector<Case> cases;
    for (size_t i = 0; i < n; i++) for (size_t v = 0; v < values.size(); v++)
        for (int k = -1; k < (int) n; k++) if (k != (int) i) cases.push_back({i, v, k});
    mc::Opts q = o;
    q.bounds = "each variable with each of " + std::to_string(values.size()) + " values, alone or with one other variable";
    mc::enumerate("values", cases.size(), [&](uint64_t x) {
        chdir(mc::scratch().c_str());
        auto &c = cases[x];
        auto &v = vars[c.var];
        std::string val = values[c.value];
        Env e(n, nullptr);
        e[c.var] = val.c_str();
        if (c.other >= 0) e[c.other] = vars[c.other].values[0];
#ifdef HZIP_ENABLE_OPENCL
        set_host(-1);         // a host without accelerator starts normally
#endif
        std::string label = "'" + val + "' for " + v.name;
        if (!v.number) {
            bool ok = configure(e);
            if (!ok) mc::failf("a correct configuration is refused", "%s", text(e).c_str());
            compare(e);
            return;
        }
        bool fits = digits(val), exact = true;
        u128 num = 0;
        if (fits) for (char ch: val) { num = num * 10 + (ch - '0'); if (num > UINT64_MAX) { fits = false; break; } }
        if (fits && val.size() > 1 && val[0] == '0') exact = false;       // 007 is 7
        bool lenient = val == "+5" || val == " 5" || val == "5 ";
        if (c.var == 1 || c.var == 2) {
            if (fits && (num == 0 || num > v.max)) { mc::vacuous(); return; }    // resources, not configuration
        } else if (fits && num > v.max) fits = false;
        bool ok = configure(e);
        if (lenient) { if (ok && in_use(c.var) != "5") mc::failf("a malformed number becomes another value", "%s", label.c_str()); return; }
        if (!fits) {
            if (ok) mc::failf(digits(val) ? "a number that is too large becomes another value" : "a malformed number becomes another value", "%s: '%s'", label.c_str(), in_use(c.var).c_str());
            return;
        }
        if (!ok) { if (exact) mc::failf("a correct configuration is refused", "%s", text(e).c_str()); return; }
        if (in_use(c.var) != std::to_string((uint64_t) num)) mc::failf((std::string(v.name) + " does not take effect").c_str(), "%s: '%s'", label.c_str(), in_use(c.var).c_str());
        compare(e, c.var);
        devices(-1, nullptr);
    }, q);

#ifdef HZIP_ENABLE_OPENCL
    static std::vector<const char *> regex = {nullptr, "", "x", ".", "xa", "b|c", "nothing", "(", "["};
    mc::Opts d = o;
    d.bounds = "4 hosts x 9 filters x number of kernels set or not";
    mc::enumerate("hosts", 4 * regex.size() * 2, [&](uint64_t x) {
        chdir(mc::scratch().c_str());
        int host = (int) (x % 4) - 1;
        const char *r = regex[x / 4 % regex.size()];
        Env e(n, nullptr);
        e[9] = x / 4 / regex.size() ? "5" : nullptr;
        e[10] = r;
        set_host(host);
        mc::logf("%d devices", host < 0 ? 0 : (int) hosts[host].size());
        bool ok = configure(e);
        bool bad = r && (*r == '(' || *r == '[');
        if (bad) { if (ok && host > 0) mc::fail("a malformed filter is not reported", r); return; }
        if (!ok) mc::failf(host > 0 ? "a correct configuration is refused" : "a host without accelerators does not start", "%s", text(e).c_str());
        compare(e);
        devices(host, r);
    }, d);
#endif
}
