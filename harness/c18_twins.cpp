// C18: transforms with a CPU and an OpenCL implementation. The programs are compiled from the sources the code registers, and
// run by a fake OpenCL runtime; results are compared for all small shapes, work divisions and orders of commands.
#include <cstdint>
#include <cstring>
#include <string>
#include <thread>
#include <vector>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/preprocessor/color.h>
#include <hzip_core/models/paeth.h>
#include <hzip_codec/sharingan/state_transition.h>
#include <hzip_core/runtime/cache_provider.h>
#include "fakecl.h"
#include "mc.h"
#include "hzsched.h"

const char *hzv_property = "C18";
typedef std::vector<uint16_t> V;
using hztrans::LinearU16XColorTransformer;
using hzmodels::LinearU16PaethDifferential;

static rainman::ptr<uint16_t> ptr(const V &v) {
    auto p = rainman::ptr<uint16_t>(v.size());
    for (size_t i = 0; i < v.size(); i++) p[i] = v[i];
    return p;
}
static V vec(const rainman::ptr<uint16_t> &p) { V v(p.size()); for (size_t i = 0; i < v.size(); i++) v[i] = p[i]; return v; }

struct Work { uint64_t kernels = 8; size_t local = 1; bool reverse = false; };
static std::vector<Work> works() {
    std::vector<Work> w;
    for (uint64_t k: {1, 2, 3, 5, 32, 100}) for (size_t l: {1, 2, 4, 64}) for (int r = 0; r < 2; r++) w.push_back({k, l, (bool) r});
    return w;
}
static void set(const Work &w) {
    hzruntime::Config::opencl_kernels = w.kernels;
    fakecl::knobs.local_size = w.local;
    fakecl::knobs.reverse = w.reverse;
}
static std::string str(const Work &w) { return std::to_string(w.kernels) + " kernels, groups of " + std::to_string(w.local) + (w.reverse ? ", backwards" : ""); }

static V pattern(size_t n, int pat, int depth) {
    uint32_t m = (1u << depth) - 1;
    V v(n);
    for (size_t i = 0; i < n; i++) v[i] = pat == 0 ? (i * 2654435761u >> 9) & m : pat == 1 ? i & m : pat == 2 ? ((i * i) % 3 ? m : 0) : (i * 40503u >> 3);
    return v;
}

static void same(const char *what, const V &cpu, const V &cl, const std::string &detail) {
    if (cpu.size() != cl.size()) mc::failf((std::string(what) + " differs").c_str(), "%s: sizes %zu and %zu", detail.c_str(), cpu.size(), cl.size());
    for (size_t i = 0; i < cpu.size(); i++) if (cpu[i] != cl[i]) mc::failf((std::string(what) + " differs").c_str(), "%s: sample %zu is %u on the CPU and %u with OpenCL", detail.c_str(), i, cpu[i], cl[i]);
}

static void color(const V &v, uint64_t w, uint64_t h, int depth, bool inplace, bool back, const Work &wk) {
    set(wk);
    LinearU16XColorTransformer t(w, h, depth);
    auto a = ptr(v), b = ptr(v);
    auto x = back ? t.cpu_ycocg_to_rgb(a, inplace) : t.cpu_rgb_to_ycocg(a, inplace);
    auto y = back ? t.opencl_ycocg_to_rgb(b, inplace) : t.opencl_rgb_to_ycocg(b, inplace);
    std::string d = std::to_string(w) + " x " + std::to_string(h) + " depth " + std::to_string(depth) + " samples " + std::to_string(v.size()) + (inplace ? " in place, " : ", ") + str(wk);
    const char *name = back ? "ycocg_to_rgb" : "rgb_to_ycocg";
    same(name, vec(x), vec(y), d);
    same("the input after the transform", vec(a), vec(b), d);
    mc::step(v.size());
}

static void paeth(const V &v, uint64_t w, uint64_t h, uint64_t c, int depth, bool inplace, const Work &wk) {
    set(wk);
    auto a = ptr(v), b = ptr(v);
    auto x = LinearU16PaethDifferential::cpu_filter(a, w, h, c, inplace, depth), y = LinearU16PaethDifferential::opencl_filter(b, w, h, c, inplace, depth);
    std::string d = std::to_string(w) + " x " + std::to_string(h) + " x " + std::to_string(c) + " depth " + std::to_string(depth) + (inplace ? " in place, " : ", ") + str(wk);
    same("the Paeth filter", vec(x), vec(y), d);
    same("the input after the filter", vec(a), vec(b), d);
    mc::step(v.size());
}

static PNGBundle bundle(const V &v, uint32_t w, uint32_t h, uint8_t c, int depth) {
    PNGBundle b(ptr(v), c);
    b.ihdr.width = w;
    b.ihdr.height = h;
    b.ihdr.bit_depth = depth;
    return b;
}
static std::vector<uint64_t> pairs(const rainman::virtual_array<SSTPair> &a) {
    std::vector<uint64_t> v(a.size());
    for (size_t i = 0; i < v.size(); i++) { auto p = a.get(i); v[i] = (uint64_t) p.ls << 32 | p.bs; }
    return v;
}
struct Params { uint64_t cw = 64, ch = 64; uint8_t order = 3; uint64_t rate = 32; };
static void precode(const V &v, uint32_t w, uint32_t h, uint8_t c, int depth, const Params &p, const Work &wk, bool dispatch = false) {
    set(wk);
    auto b = bundle(v, w, h, c, depth);
    auto x = [&] { SharinganStateTransition t(b, p.cw, p.ch, p.order, p.rate); return pairs(t.cpu_dynamic_precode().first); }();
    auto y = [&] { SharinganStateTransition t(b, p.cw, p.ch, p.order, p.rate); return pairs(dispatch ? t.dynamic_precode().first : t.opencl_dynamic_precode().first); }();
    std::string d = std::to_string(w) + " x " + std::to_string(h) + " x " + std::to_string(c) + " depth " + std::to_string(depth) + " chunks " + std::to_string(p.cw) + " x " + std::to_string(p.ch) + " order " +
        std::to_string(p.order) + " rate " + std::to_string(p.rate) + ", " + str(wk);
    if (x.size() != y.size()) mc::failf("the state transitions differ", "%s: sizes %zu and %zu", d.c_str(), x.size(), y.size());
    for (size_t i = 0; i < x.size(); i++) if (x[i] != y[i])
        mc::failf("the state transitions differ", "%s: number %zu of %zu is (%u, %u) on the CPU and (%u, %u) with OpenCL", d.c_str(), i, x.size(), (uint32_t) (x[i] >> 32), (uint32_t) x[i], (uint32_t) (y[i] >> 32), (uint32_t) y[i]);
    same("the image after the precoding", v, vec(b.buf), d);
    mc::step(x.size());
}

static void host(int devices) {
    fakecl::Platform p{"P", {}};
    for (int i = 0; i < devices; i++) p.devices.push_back({"d" + std::to_string(i), CL_DEVICE_TYPE_GPU});
    fakecl::host({p});
    hzopencl::DeviceProvider::load_devices();
    hzruntime::Config::opencl_support_enabled = true;
}
static void programs() {
    LinearU16XColorTransformer::register_opencl_program();
    LinearU16PaethDifferential::register_opencl_program();
    SharinganStateTransition::register_opencl_program();
}

#ifndef C18_SCHED
void hzv_main() {
    bool th = mc::thorough();
    fakecl::knobs.compile = true;
    hzruntime::CacheProvider::init_cache("c18", 1, 1 << 20);
    host(1);
    bool ok = true;
    try { programs(); } catch (std::exception &e) { ok = false; }       // compiled here once, for all workers
    mc::Opts po;
    po.bounds = "3 programs compiled from the registered sources";
    mc::enumerate("programs", 1, [&](uint64_t) {
        try { programs(); } catch (std::exception &e) { mc::fail("an OpenCL program does not build", e.what()); }
    }, po);
    if (!ok) return;
    auto ws = works();

    // ---- colour
    unsigned side = th ? 12 : 8;
    mc::Opts o;
    o.bounds = "all images up to " + std::to_string(side) + " x " + std::to_string(side) + " x 48 work divisions, 3 or 4 planes, both directions, in place or not, all depths";
    mc::enumerate("colour: shapes", side * side * ws.size(), [&](uint64_t i) {
        uint64_t w = i % side + 1, h = i / side % side + 1;
        auto &wk = ws[i / (side * side)];
        for (int depth = 1; depth <= 16; depth++) for (int planes = 3; planes <= 4; planes++) for (int f = 0; f < 4; f++) {
            int pat = (depth + planes + f + i) & 3;
            color(pattern(w * h * planes, pat, depth), w, h, depth, f & 1, f & 2, wk);
            if (th) color(pattern(w * h * planes, pat ^ 1, depth), w, h, depth, f & 1, f & 2, wk);
        }
    }, o);
    mc::Opts o8;
    o8.bounds = "all pixels of depth 8, both directions";
    mc::enumerate("colour: all pixels of depth 8", 256, [&](uint64_t r) {
        V v(3 * 65536);
        for (size_t i = 0; i < 65536; i++) { v[i] = r; v[i + 65536] = i >> 8; v[i + 131072] = i & 255; }
        color(v, 256, 256, 8, r & 1, false, {32, 1, false});
        color(v, 256, 256, 8, r & 1, true, {7, 4, true});
    }, o8);
    mc::Opts od;
    od.bounds = "all pixels of depths 1 to 6, boundary values of depths 7 to 16 (and values beyond the depth)";
    mc::enumerate("colour: other depths", 16 * 2, [&](uint64_t x) {
        int depth = x / 2 + 1;
        V b;
        uint32_t m = (1u << depth) - 1;
        if (depth <= 6) for (uint32_t i = 0; i <= m; i++) b.push_back(i);
        else for (int s = 0; s < depth; s++) for (int d = -1; d <= 1; d++) b.push_back(((1u << s) + d) & m), b.push_back((m - (1u << s) + d) & m);
        for (uint32_t e: {m, m + 1, 2 * m + 1, 65535u}) b.push_back(e);
        size_t n = b.size() * b.size() * b.size();
        V v(3 * n);
        for (size_t i = 0; i < n; i++) { v[i] = b[i % b.size()]; v[i + n] = b[i / b.size() % b.size()]; v[i + 2 * n] = b[i / b.size() / b.size()]; }
        color(v, n, 1, depth, x & 1, x & 1, {32, 1, false});
        color(v, 1, n, depth, !(x & 1), x & 1, {1000, 64, true});
    }, od);

    // ---- Paeth
    unsigned ps = th ? 8 : 5;
    mc::Opts p;
    p.bounds = "all images up to " + std::to_string(ps) + " x " + std::to_string(ps) + " x 4 x 48 work divisions, in place or not, depths 1, 2, 4, 8, 15, 16";
    mc::enumerate("paeth: shapes", ps * ps * ws.size(), [&](uint64_t i) {
        uint64_t w = i % ps + 1, h = i / ps % ps + 1;
        auto &wk = ws[i / (ps * ps)];
        for (uint64_t c = 1; c <= 4; c++) for (int depth: {1, 2, 4, 8, 15, 16}) for (int f = 0; f < 2; f++) for (int pat = 0; pat < 3; pat++)
            paeth(pattern(w * h * c, pat, depth), w, h, c, depth, f, wk);
    }, p);
    mc::Opts pn;
    pn.bounds = std::string("all neighbourhoods (a, b, c, t) of depth ") + (th ? "4 and 5" : "4") + ", and of all boundary values of depths 8 and 16";
    pn.hang_s = 300;
    mc::enumerate("paeth: neighbourhoods", th ? 4 * 64 : 3 * 64, [&](uint64_t x) {
        // many 2 x 2 neighbourhoods in one image, as 2 x 2 channels
        int mode = x / 64;
        V b;
        int depth = mode == 0 ? 4 : mode == 1 ? 8 : mode == 2 ? 16 : 5;
        uint32_t m = (1u << depth) - 1;
        if (mode == 0 || mode == 3) for (uint32_t i = 0; i <= m; i++) b.push_back(i);
        else b = {0, 1, 2, (uint16_t) (m / 4), (uint16_t) (m / 3), (uint16_t) (m / 2), (uint16_t) (m / 2 + 1), (uint16_t) (m - m / 4), (uint16_t) (m - 1), (uint16_t) m};
        uint64_t k = b.size(), total = k * k * k * k;
        V v;
        for (uint64_t y = x % 64; y < total; y += 64) for (uint64_t z = 0, t = y; z < 4; z++, t /= k) v.push_back(b[t % k]);
        // a channel costs a whole round trip: interleave as one image of 2 rows whose column pairs are the neighbourhoods
        size_t n = v.size() / 4;
        V img(4 * n);
        for (size_t i = 0; i < n; i++) { img[2 * i] = v[4 * i]; img[2 * i + 1] = v[4 * i + 1]; img[2 * n + 2 * i] = v[4 * i + 2]; img[2 * n + 2 * i + 1] = v[4 * i + 3]; }
        paeth(img, 2 * n, 2, 1, depth, x & 1, {32, 1, (bool) (x & 2)});
    }, pn);

    // ---- Sharingan
    unsigned ss = th ? 6 : 4;
    mc::Opts s;
    s.bounds = "all images up to " + std::to_string(ss) + " x " + std::to_string(ss) + " x all chunks up to " + std::to_string(ss) + " x " + std::to_string(ss) + ", orders 1 to 3, 1 or 3 channels, depths 1, 2, 4, 8, 16";
    s.hang_s = 300;
    mc::enumerate("sharingan: shapes", ss * ss * ss * ss, [&](uint64_t i) {
        uint32_t w = i % ss + 1, h = i / ss % ss + 1, cw = i / ss / ss % ss + 1, ch = i / ss / ss / ss % ss + 1;
        for (int order = 1; order <= 3; order++) for (int c: {1, 3}) for (int depth: {1, 2, 4, 8, 16}) {
            int pat = (order + c + depth + i) % 3;
            precode(pattern(w * h * c, pat, depth), w, h, c, depth, {cw, ch, (uint8_t) order, (uint64_t) (i % 5 ? 32 : 3)}, ws[i % ws.size()]);
        }
    }, s);
    mc::Opts sc;
    sc.bounds = "all contents of 2 x 2, 3 x 2 and 2 x 3 images over 3 values; rates 0 to 2^20; sizes around the default chunk";
    sc.hang_s = 300;
    mc::enumerate("sharingan: contents", 81, [&](uint64_t i) {
        for (int k = 0; k < 9; k++) for (auto [w, h]: {std::pair<uint32_t, uint32_t>{3, 2}, {2, 3}}) for (int depth: {8, 16}) {
            V v(6);
            uint64_t y = i * 9 + k;
            for (auto &e: v) { e = (depth == 8 ? V{0, 255, 7} : V{0, 65535, 0x0701})[y % 3]; y /= 3; }
            precode(v, w, h, 1, depth, {64, 64, (uint8_t) (i % 3 + 1), 32}, {8, 1, (bool) (i & 1)});
        }
        for (uint64_t rate: {0ull, 1ull, 2ull, 31ull, 33ull, 255ull, 65536ull, 1048576ull}) precode(pattern(24, i % 3, i & 1 ? 8 : 16), 6, 4, 1, i & 1 ? 8 : 16, {(i % 7) + 1, (i % 5) + 1, (uint8_t) (i % 4), rate}, {8, 1, (bool) (i & 2)});
    }, sc);
    std::vector<std::pair<uint32_t, uint32_t>> big = {{63, 2}, {64, 2}, {65, 3}, {2, 63}, {2, 64}, {3, 65}, {65, 65}, {129, 2}, {1, 130}, {64, 64}};
    mc::Opts sb = sc;
    sb.bounds = "sizes around the default chunk size, depths 8 and 16";
    mc::enumerate("sharingan: default chunks", big.size() * 2 * 2, [&](uint64_t i) {
        auto [w, h] = big[i % big.size()];
        int depth = i / big.size() % 2 ? 16 : 8, c = i / big.size() / 2 ? 3 : 1;
        for (int pat = 0; pat < 3; pat++) precode(pattern(w * h * c, pat, depth), w, h, c, depth, {}, {32, (size_t) (i % 2 ? 4 : 1), (bool) (i & 1)});
    }, sb);

    // ---- what the callers use: large images go to the device
    mc::Opts d;
    d.bounds = "images just below and above the sizes from which OpenCL is used";
    d.hang_s = 600;
    mc::enumerate("dispatch", 14, [&](uint64_t i) {
        fakecl::knobs.local_size = 64;
        set({32, 64, (bool) (i & 1)});
        if (i < 8) {
            uint64_t w = 1000, h = i & 4 ? 1001 : 1000;
            V v = pattern(w * h * 3, i & 3, 8);
            hzruntime::Config::opencl_support_enabled = false;
            LinearU16XColorTransformer cpu(w, h, 8);
            V a = vec(cpu.rgb_to_ycocg(ptr(v), false)), a2 = vec(cpu.ycocg_to_rgb(ptr(v), false));
            hzruntime::Config::opencl_support_enabled = true;
            LinearU16XColorTransformer t(w, h, 8);
            bool in = i & 1;
            same("rgb_to_ycocg", a, vec(t.rgb_to_ycocg(ptr(v), in)), "a large image");
            same("ycocg_to_rgb", a2, vec(t.ycocg_to_rgb(ptr(v), in)), "a large image");
        } else if (i < 12) {
            uint64_t w = 128, h = i & 1 ? 129 : 128;
            V v = pattern(w * h * 3, i & 3, 8);
            hzruntime::Config::opencl_support_enabled = false;
            V a = vec(LinearU16PaethDifferential::filter(ptr(v), w, h, 3, false, 8));
            hzruntime::Config::opencl_support_enabled = true;
            same("the Paeth filter", a, vec(LinearU16PaethDifferential::filter(ptr(v), w, h, 3, i & 2, 8)), "a large image");
        } else {
            uint32_t w = 1000, h = i & 1 ? 1001 : 1000;
            V v(w * h);
            for (size_t j = 0; j < v.size(); j++) v[j] = (j * 2654435761u >> 28);
            precode(v, w, h, 1, 4, {}, {32, 64, false}, true);
        }
    }, d);

    // ---- devices that fail: an error, never another result
    mc::Opts f;
    f.kinds[mc::FAULT] = th ? 2 : 1;
    f.bounds = std::string("every OpenCL call failing, up to ") + (th ? "2" : "1") + " failures";
    mc::explore("failing devices", [&] {
        int what = mc::choose(6, mc::FREE, "operation");
        set({3, 2, false});
        hzruntime::Config::opencl_support_enabled = true;
        V v = pattern(27, 0, 16);
        LinearU16XColorTransformer t(3, 3, 16);
        auto in = ptr(v);
        for (int attempt = 0; attempt < 2; attempt++) {      // the second one without failures: nothing stays locked
            fakecl::knobs.faults = attempt == 0;
            int live = fakecl::live();
            try {
                V out, want;
                if (what < 2) { out = vec(what ? t.opencl_ycocg_to_rgb(in) : t.opencl_rgb_to_ycocg(in)); want = vec(what ? t.cpu_ycocg_to_rgb(in) : t.cpu_rgb_to_ycocg(in)); }
                else if (what == 2) { out = vec(LinearU16PaethDifferential::opencl_filter(in, 3, 3, 3)); want = vec(LinearU16PaethDifferential::cpu_filter(in, 3, 3, 3)); }
                else if (what == 3) { auto tmp = ptr(v); out = vec(t.opencl_rgb_to_ycocg(tmp, true)); want = vec(t.cpu_rgb_to_ycocg(in)); }
                else {
                    int depth = what == 4 ? 8 : 16;
                    auto b = bundle(pattern(27, 0, depth), 3, 3, 3, depth);
                    std::vector<uint64_t> x, y;
                    { SharinganStateTransition st(b, 2, 2); x = pairs(st.opencl_dynamic_precode().first); }
                    { SharinganStateTransition st(b, 2, 2); y = pairs(st.cpu_dynamic_precode().first); }
                    if (x != y) mc::failf("the state transitions differ", "with a failing device, attempt %d", attempt);
                }
                same("a result with a failing device", want, out, "operation " + std::to_string(what));
                mc::logf("operation %d: done", what);
                mc::outcome(what * 2);
            } catch (std::exception &e) {
                if (attempt == 1) mc::failf("an operation fails after a device failed", "operation %d: %s", what, e.what());
                mc::logf("operation %d: %s", what, e.what());
                mc::outcome(what * 2 + 1);
            }
            if (fakecl::live() != live) mc::failf("OpenCL objects are not released", "operation %d, attempt %d: %d more than before", what, attempt, fakecl::live() - live);
            same("the input", v, vec(in), "operation " + std::to_string(what));
        }
        fakecl::knobs.faults = false;
    }, f);
}
#else
// Two or three images at once, on one device or two.
void hzv_main() {
    bool th = mc::thorough();
    fakecl::knobs.compile = true;
    host(2);
    try { programs(); } catch (std::exception &) { return; }     // reported by the other binary
    mc::Opts o;
    o.kinds[mc::PREEMPT] = th ? 3 : 2;
    o.bounds = "two images at once, 4 x 4 operations, 1 or 2 devices, programs known or not, up to " + std::to_string(o.kinds[mc::PREEMPT]) + " preemptions";
    mc::explore("two at once", [&] {
        int devices = mc::choose(2, mc::FREE, "devices") + 1, a = mc::choose(4, mc::FREE, "first"), b = mc::choose(4, mc::FREE, "second"), known = mc::choose(2, mc::FREE, "known");
        if (b < a) { mc::vacuous(); return; }
        sched::knobs = sched::Knobs();
        sched::run([&] {
            sched::knobs.frozen = true;
            host(devices);
            hzruntime::CacheProvider::init_cache("c18", 1, 1 << 20);
            if (known) programs();
            set({3, 2, false});
            V v[2] = {pattern(12, 0, 16), pattern(12, 1, 16)}, out[2], want[2];
            int op[2] = {a, b};
            auto work = [&](int i, bool cl) {
                LinearU16XColorTransformer t(2, 2, 16);
                auto in = ptr(v[i]);
                switch (op[i]) {
                    case 0: return vec(cl ? t.opencl_rgb_to_ycocg(in) : t.cpu_rgb_to_ycocg(in));
                    case 1: return vec(cl ? t.opencl_ycocg_to_rgb(in, true) : t.cpu_ycocg_to_rgb(in, true));
                    case 2: return vec(cl ? LinearU16PaethDifferential::opencl_filter(in, 2, 2, 3) : LinearU16PaethDifferential::cpu_filter(in, 2, 2, 3));
                    default: {
                        auto bd = bundle(V(v[i].begin(), v[i].begin() + 4), 2, 2, 1, 16);
                        SharinganStateTransition st(bd, 2, 1);
                        V r;
                        for (auto x: pairs(cl ? st.opencl_dynamic_precode().first : st.cpu_dynamic_precode().first)) for (int k = 0; k < 4; k++) r.push_back(x >> 16 * k);
                        return r;
                    }
                }
            };
            for (int i = 0; i < 2; i++) want[i] = work(i, false);
            sched::knobs.frozen = false;
            std::thread t0([&] { out[0] = work(0, true); });
            std::thread t1([&] { out[1] = work(1, true); });
            t0.join();
            t1.join();
            for (int i = 0; i < 2; i++) same("a result next to another one", want[i], out[i], "operation " + std::to_string(op[i]) + " next to " + std::to_string(op[1 - i]));
        });
    }, o);
}
#endif
