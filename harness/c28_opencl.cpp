// C28: device discovery, filters, program registration and lookup over a fake OpenCL runtime: all histories up to a depth, with
// failing calls, and (C28_SCHED) all schedules of concurrent calls.
#include <algorithm>
#include <cstdint>
#include <iostream>
#include <regex>
#include <set>
#include <sstream>
#include <string>
#include <thread>
#include <vector>
#include <hzip_core/opencl/cl_helper.h>
#include "fakecl.h"
#include "mc.h"
#include "hzsched.h"

const char *hzv_property = "C28";
using namespace hzopencl;
typedef std::vector<std::string> Names;

static const char *GOOD = "__kernel void run(int x) {} __kernel void other(int x) {}";
static const char *BAD_ON_B = "__kernel void run(int x) {} // bad on b";          // a build error
static const char *ERR_ON_C = "__kernel void run(int x) {} // error on c";        // another error

static cl_int build(const std::string &src, const std::string &dev) {
    if (src.find("bad on b") != std::string::npos && dev == "xb") return CL_BUILD_PROGRAM_FAILURE;
    if (src.find("error on c") != std::string::npos && dev == "xc") return CL_OUT_OF_HOST_MEMORY;
    return CL_SUCCESS;
}

struct Host { const char *text; std::vector<fakecl::Platform> p; cl_int error; cl_device_type type; Names names; bool ok; };
static const cl_device_type ALL = CL_DEVICE_TYPE_ALL, GPU = CL_DEVICE_TYPE_GPU, CPU = CL_DEVICE_TYPE_CPU;
static const std::vector<Host> &hosts() {
    static std::vector<Host> h = {
        {"no platform", {}, 0, ALL, {}, true},
        {"a platform without devices", {{"P", {}}}, 0, ALL, {}, true},
        {"{a}", {{"P", {{"xa", GPU}}}}, 0, ALL, {"xa"}, true},
        {"{b c}", {{"P", {{"xb", GPU}, {"xc", CPU}}}}, 0, ALL, {"xb", "xc"}, true},
        {"{a} {} {b c}", {{"P", {{"xa", GPU}}}, {"E", {}}, {"Q", {{"xb", GPU}, {"xc", CPU}}}}, 0, ALL, {"xa", "xb", "xc"}, true},
        {"only CPUs of {a} {b c}", {{"P", {{"xa", GPU}}}, {"Q", {{"xb", GPU}, {"xc", CPU}}}}, 0, CPU, {"xc"}, true},
        {"the platform discovery fails", {{"P", {{"xa", GPU}}}}, CL_OUT_OF_HOST_MEMORY, ALL, {}, false},
        {"the second platform fails", {{"P", {{"xa", GPU}}}, {"Q", {{"xb", GPU}}, CL_OUT_OF_RESOURCES}}, 0, ALL, {}, false},
    };
    return h;
}

static void set_host(const Host &h) {
    fakecl::host(h.p);
    fakecl::knobs.platform_error = h.error;
}

static std::string name_of(const cl::Device &d) { return fakecl::device_name(d()); }
static std::string join(const Names &v) { std::string s; for (auto &x: v) s += x + " "; return s; }

static Names loaded() {
    Names out;
    bool empty = DeviceProvider::empty();
    try {
        for (auto &d: DeviceProvider::get_devices()) out.push_back(name_of(d));
        if (empty != out.empty()) mc::fail("empty() and get_devices() disagree", join(out));
    }
    catch (...) { if (!empty) mc::fail("devices are loaded, but not given out"); }
    std::sort(out.begin(), out.end());
    return out;
}

#ifndef C28_SCHED
// What was done, and what must be.
struct World {
    Names devices;
    std::set<std::string> programs;        // certainly registered; others may be
    std::set<std::string> possibly;        // registered before a change of the devices
    std::vector<cl_device_id> window;      // devices of the latest lookups in a row
    std::vector<std::pair<cl_device_id, std::mutex *>> mutexes;
    std::vector<cl::Kernel> held;

    void changed(const Names &d) {
        devices = d;
        std::sort(devices.begin(), devices.end());
        possibly.insert(programs.begin(), programs.end());
        programs.clear();
        window.clear();
        mutexes.clear();
    }

    void given(const char *what, const cl::Program &p, std::mutex &m) {
        auto ds = p.getInfo<CL_PROGRAM_DEVICES>();
        if (ds.size() != 1) mc::failf("a program of several devices", "%s", what);
        cl_device_id id = ds[0]();
        bool is_loaded = false;
        for (auto &d: DeviceProvider::get_devices()) is_loaded |= d() == id;
        if (!is_loaded) mc::failf("a lookup gave a device that is not loaded", "%s gave %s; loaded: %s", what, fakecl::device_name(id).c_str(), join(devices).c_str());
        if (!fakecl::built(p())) mc::failf("a lookup gave a program that was not built", "%s on %s", what, fakecl::device_name(id).c_str());
        size_t n = devices.size();
        for (size_t i = window.size() - std::min(window.size(), n - 1); i < window.size(); i++)
            if (window[i] == id) {
                std::string w;
                for (auto x: window) w += fakecl::device_name(x);
                mc::failf("lookups do not rotate over the devices", "%s after %s; loaded: %s", fakecl::device_name(id).c_str(), w.c_str(), join(devices).c_str());
            }
        window.push_back(id);
        for (auto &[d, x]: mutexes) if ((d == id) != (x == &m)) mc::fail("the mutex of a lookup is not that of its device", fakecl::device_name(id));
        mutexes.push_back({id, &m});
        m.lock();           // it is usable and free
        m.unlock();
    }

    void lookup(const std::string &prog, const char *kernel) {      // null: the program; "": the default kernel
        std::string what = "lookup of " + prog + (kernel ? std::string(".") + (*kernel ? kernel : "run") : "");
        bool exists = !kernel || !*kernel || std::string(kernel) == "run" || (std::string(kernel) == "other" && prog == "p");
        mc::context(what);
        try {
            if (!kernel) {
                auto [p, m] = ProgramProvider::get(prog);
                given(what.c_str(), p, m);
            } else {
                auto [k, m] = *kernel ? KernelProvider::get(prog, kernel) : KernelProvider::get(prog);
                auto fn = k.getInfo<CL_KERNEL_FUNCTION_NAME>();
                if (std::string(fn.c_str()) != (*kernel ? kernel : "run")) mc::failf("a lookup gave another kernel", "%s: %s", what.c_str(), fn.c_str());
                given(what.c_str(), k.getInfo<CL_KERNEL_PROGRAM>(), m);
                held.push_back(k);
            }
            mc::logf("%s: %s;", what.c_str(), fakecl::device_name(window.back()).c_str());
            if (!exists) mc::failf("an unknown kernel was found", "%s", what.c_str());
            if (!programs.count(prog) && !possibly.count(prog)) mc::failf("a program that was never registered was found", "%s", what.c_str());
            // it survived a change of the devices: then it stays
            programs.insert(prog);
        } catch (std::exception &e) {
            mc::logf("%s: %s;", what.c_str(), e.what());
            window.clear();
            if (exists && programs.count(prog) && !failing) mc::failf("a registered program cannot be looked up", "%s: %s", what.c_str(), e.what());
        }
    }

    bool failing = false;

    void load(const Host &h) {
        set_host(h);
        mc::context("load");
        try {
            DeviceProvider::load_devices(h.type);
            mc::logf("load %s;", h.text);
            if (!h.ok) mc::failf("a failed discovery is not reported", "%s", h.text);
            changed(h.names);
        } catch (std::exception &e) {
            mc::logf("load %s: %s;", h.text, e.what());
            if (h.ok && !failing) mc::failf("the discovery fails", "%s: %s", h.text, e.what());
            after_failure();
        }
        settle();
    }

    // A failure leaves what there was, or nothing.
    void after_failure() {
        window.clear();
        Names now = loaded();
        if (now != devices && !now.empty()) mc::failf("a failure leaves other devices", "%s instead of %s", join(now).c_str(), join(devices).c_str());
        if (now != devices) changed(now);
    }

    void filter(const char *re, bool valid) {
        mc::context("filter");
        try {
            DeviceProvider::filter_devices(re);
            mc::logf("filter %s;", re);
            if (!valid) mc::failf("an invalid filter is not reported", "%s", re);
            Names d;
            for (auto &x: devices) if (std::regex_search(x, std::regex(re))) d.push_back(x);
            changed(d);
        } catch (std::exception &e) {
            mc::logf("filter %s: %s;", re, e.what());
            if (valid && !devices.empty() && !failing) mc::failf("a filter fails", "%s: %s", re, e.what());
            after_failure();
        }
        settle();
    }

    void reg(const std::string &prog, const char *src) {
        std::string what = "register " + prog + (src == GOOD ? "" : src == BAD_ON_B ? " (bad on b)" : " (error on c)");
        mc::context(what);
        bool bad = false;
        for (auto &d: devices) bad |= build(src, d) != CL_SUCCESS;
        try {
            ProgramProvider::register_program(prog, src);
            mc::logf("%s;", what.c_str());
            if (devices.empty()) { /* nothing to build for */ }
            else if (bad && !programs.count(prog) && !possibly.count(prog)) mc::failf("a failed build is not reported", "%s on %s", what.c_str(), join(devices).c_str());
            else programs.insert(prog);
        } catch (std::exception &e) {
            mc::logf("%s: %s;", what.c_str(), e.what());
            if (!bad && !devices.empty() && !failing) mc::failf("a program cannot be registered", "%s: %s", what.c_str(), e.what());
        }
    }

    void list() {
        std::stringstream s;
        auto *old = std::cout.rdbuf(s.rdbuf());
        try {
            DeviceProvider::list_available_devices();
            std::cout.rdbuf(old);
        } catch (std::exception &e) {
            std::cout.rdbuf(old);
            if (!failing && !fakecl::knobs.platform_error && current_ok) mc::failf("the listing fails", "%s", e.what());
            return;
        }
    }
    bool current_ok = true;

    void settle() {
        auto now = loaded();
        if (now != devices) mc::failf("the loaded devices are not those expected", "%s instead of %s", join(now).c_str(), join(devices).c_str());
    }

    // Every registered program is served by every device in turn; a new one too.
    void probe() {
        bool f = fakecl::knobs.faults;
        fakecl::knobs.faults = false;
        failing = false;
        settle();
        auto ps = programs;
        for (auto &p: ps) {
            for (size_t i = 0; i < 2 * devices.size() + 1; i++) lookup(p, i & 1 ? "" : nullptr);
        }
        lookup("never", "");
        lookup("never", nullptr);
        reg("new", GOOD);
        if (!devices.empty()) {
            window.clear();
            for (size_t i = 0; i < 2 * devices.size(); i++) lookup("new", "");
            for (auto &p: ps) lookup(p, "");
        } else lookup("new", "");
        fakecl::knobs.faults = f;
    }
};

static const int NOPS = 19;
static void op(World &w, unsigned o) {
    mc::step();
    if (o < 8) { w.current_ok = hosts()[o].ok; w.load(hosts()[o]); return; }
    switch (o) {
        case 8: w.filter("b|c", true); break;
        case 9: w.filter("^$|nothing", true); break;
        case 10: w.filter("a", true); break;
        case 11: w.filter("(", false); break;
        case 12: w.reg("p", GOOD); break;
        case 13: w.reg("q", BAD_ON_B); break;
        case 14: w.reg("q", ERR_ON_C); break;
        case 15: w.lookup("p", nullptr); break;
        case 16: w.lookup("p", "other"); break;
        case 17: w.lookup("p", "missing"); break;
        case 18: w.lookup("q", ""); break;
    }
}

static void fresh(World &w) {
    fakecl::knobs = fakecl::Knobs();
    fakecl::knobs.build = build;
    auto none = [](std::vector<fakecl::Arg> &, size_t) {};
    fakecl::kernels = {{"run", none}, {"other", none}};
    // no devices and no programs, as at the start of the process
    set_host(hosts()[0]);
    try { DeviceProvider::load_devices(); } catch (std::exception &e) { mc::fail("a host without platforms fails", e.what()); }
    ProgramProvider::clear();
    w.changed({});
    w.possibly.clear();
}

static void finish(World &w) {
    w.list();
    w.probe();
    std::string s = join(w.devices);
    for (auto &p: w.programs) s += p;
    for (auto &k: w.held) if (std::string(k.getInfo<CL_KERNEL_FUNCTION_NAME>().c_str()).empty()) mc::fail("a kernel given out is no longer valid");
    w.held.clear();
    mc::outcome(mc::hash_str(s));
}

void hzv_main() {
    int depth = mc::thorough() ? 6 : 5;
    mc::Opts o;
    o.bounds = "all histories of " + std::to_string(depth) + " of 19 discoveries, filters, registrations and lookups";
    mc::explore("histories", [&] {
        World w;
        fresh(w);
        for (int i = 0; i < depth; i++) op(w, mc::choose(NOPS, mc::FREE, "operation"));
        finish(w);
    }, o);
    int fdepth = mc::thorough() ? 4 : 3;
    mc::Opts f;
    f.kinds[mc::FAULT] = mc::thorough() ? 2 : 2;
    f.bounds = "all histories of " + std::to_string(fdepth) + " operations after {a} {b c} was loaded and p registered, any 2 OpenCL calls fail";
    mc::explore("failing calls", [&] {
        World w;
        fresh(w);
        op(w, 4);
        op(w, 12);
        fakecl::knobs.faults = true;
        for (int i = 0; i < fdepth; i++) {
            w.failing = true;
            op(w, mc::choose(NOPS, mc::FREE, "operation"));
        }
        fakecl::knobs.faults = false;
        finish(w);
    }, f);
    // a long rotation: no counter overflows or drifts
    mc::enumerate("rotations", 3 * (mc::thorough() ? 20000 : 2000), [&](uint64_t i) {
        World w;
        fresh(w);
        int n = (int) (i % 3) + 1;
        uint64_t steps = i / 3;
        std::vector<fakecl::Device> ds;
        Names names;
        for (int k = 0; k < n; k++) { names.push_back(std::string(1, (char) ('a' + k))); ds.push_back({names.back(), GPU}); }
        Host h{"n devices", {{"P", ds}}, 0, ALL, names, true};
        w.load(h);
        w.reg("p", GOOD);
        for (uint64_t s = 0; s < steps % 40; s++) w.lookup("p", nullptr);
        w.load(hosts()[steps % 6]);
        w.probe();
    });
}
#else
// Concurrent calls. Instrumented code is watched for data races.

struct Shared {
    bool fixed = true;                            // no call changes the devices
    std::vector<std::pair<cl_device_id, int>> busy;
    std::string trace;
};

static void use(Shared &s, const cl::Program &p, std::mutex &m) {
    if (!fakecl::built(p())) mc::fail("a lookup gave a program that was not built");
    cl_device_id id = p.getInfo<CL_PROGRAM_DEVICES>()[0]();
    std::scoped_lock<std::mutex> lock(m);
    if (s.fixed) for (auto &b: s.busy) if (b.first == id) mc::fail("two users of one device at once", s.trace);
    s.busy.push_back({id, 0});
    sched::point("using the device");
    for (size_t i = 0; i < s.busy.size(); i++) if (s.busy[i].first == id) { s.busy.erase(s.busy.begin() + i); break; }
    s.trace += fakecl::device_name(id);
}

static const char *OPS = "LNSFXPQGKOED";
static void op(Shared &s, char c) {
    s.trace += c;
    try {
        switch (c) {
            case 'L': DeviceProvider::load_devices(); break;                         // all
            case 'S': DeviceProvider::load_devices(CL_DEVICE_TYPE_CPU); break;       // fewer
            case 'N': DeviceProvider::load_devices(CL_DEVICE_TYPE_ACCELERATOR); break;   // none
            case 'F': DeviceProvider::filter_devices("b|c"); break;
            case 'X': DeviceProvider::filter_devices("nothing"); break;
            case 'P': ProgramProvider::register_program("p", GOOD); break;
            case 'Q': ProgramProvider::register_program("q", BAD_ON_B); break;
            case 'G': { auto [p, m] = ProgramProvider::get("p"); use(s, p, m); break; }
            case 'K': { auto [k, m] = KernelProvider::get("p"); use(s, k.getInfo<CL_KERNEL_PROGRAM>(), m); break; }
            case 'O': { auto [k, m] = KernelProvider::get("p", "other"); use(s, k.getInfo<CL_KERNEL_PROGRAM>(), m); break; }
            case 'E': DeviceProvider::empty(); break;
            case 'D': for (auto &d: DeviceProvider::get_devices()) if (name_of(d).empty()) mc::fail("a device without a name"); break;
        }
        s.trace += "+ ";
    } catch (std::exception &e) { s.trace += std::string("(") + e.what() + ") "; }
}

static void run(bool prepared, const std::vector<std::string> &progs) {
    sched::knobs = sched::Knobs();
    fakecl::knobs = fakecl::Knobs();
    fakecl::knobs.build = build;
    auto none = [](std::vector<fakecl::Arg> &, size_t) {};
    fakecl::kernels = {{"run", none}, {"other", none}};
    Shared s;
    for (auto &p: progs) for (char c: p) s.fixed &= !strchr("LNSFX", c);
    std::string label;
    for (auto &p: progs) label += "[" + p + "] ";
    sched::run([&] {
        sched::knobs.frozen = true;
        set_host(hosts()[0]);
        DeviceProvider::load_devices();
        ProgramProvider::clear();
        set_host(hosts()[4]);
        if (prepared) {
            DeviceProvider::load_devices();
            ProgramProvider::register_program("p", GOOD);
        }
        sched::knobs.frozen = false;
        std::vector<std::thread> ts;
        for (size_t t = 0; t < progs.size(); t++) ts.emplace_back([&, t] { for (char c: progs[t]) op(s, c); });
        for (auto &t: ts) t.join();
        sched::knobs.frozen = true;
        // what is left is consistent: a program can be registered, and lookups rotate over exactly the devices
        auto now = loaded();
        mc::outcome(mc::hash_str(s.trace + join(now)));
        try { ProgramProvider::register_program("p", GOOD); } catch (std::exception &e) {
            if (!now.empty()) mc::failf("a program cannot be registered afterwards", "%s: %s", s.trace.c_str(), e.what());
        }
        for (int round = 0; round < 2 && !now.empty(); round++) {
            Names got;
            for (size_t i = 0; i < now.size(); i++) {
                try {
                    auto [p, m] = ProgramProvider::get("p");
                    got.push_back(fakecl::device_of(p()));
                    m.lock();
                    m.unlock();
                } catch (std::exception &e) { mc::failf("a program cannot be looked up afterwards", "%s: %s", s.trace.c_str(), e.what()); }
            }
            std::sort(got.begin(), got.end());
            if (got != now) mc::failf("lookups do not rotate over the devices", "%s: %s instead of %s", s.trace.c_str(), join(got).c_str(), join(now).c_str());
        }
        sched::knobs.frozen = false;
    });
    mc::logf("%s%s -> %s", prepared ? "" : "(nothing loaded) ", label.c_str(), s.trace.c_str());
    mc::state(mc::hash_str(s.trace));
}

void hzv_main() {
    bool th = mc::thorough();
    std::string ops = OPS;
    std::vector<std::vector<std::string>> pairs, longer, three;
    for (char a: ops) for (char b: ops) if (a <= b) pairs.push_back({std::string(1, a), std::string(1, b)});
    // a lookup needs a registration after each change
    std::vector<std::string> two = {"LP", "PG", "PK", "FP", "NL", "GG", "SP", "GE", "XL", "QG", "PO", "DG"};
    for (auto &a: two) for (auto &b: two) if (a <= b) longer.push_back({a, b});
    for (auto &a: two) for (char b: ops) longer.push_back({a, std::string(1, b)});
    std::string core = th ? ops : std::string("LFPGK");
    for (char a: core) for (char b: core) for (char c: core) if (a <= b && b <= c) three.push_back({std::string(1, a), std::string(1, b), std::string(1, c)});
    auto phase = [](const char *name, const std::vector<std::vector<std::string>> &v, int preempt, double cap) {
        mc::Opts o;
        o.kinds[mc::PREEMPT] = preempt;
        o.bounds = std::to_string(v.size()) + " combinations, from a prepared host and from nothing, " + std::to_string(preempt) + " preemptions";
        o.cap_s = cap;
        mc::explore(name, [&] {
            unsigned i = mc::choose(v.size(), mc::FREE, "programs");
            bool prepared = mc::choose(2, mc::FREE, "prepared") == 0;
            run(prepared, v[i]);
        }, o);
    };
    phase("two calls", pairs, th ? 4 : 3, 0);
    phase("two threads", longer, th ? 3 : 2, 0);
    phase("three calls", three, th ? 3 : 2, 0);
}
#endif
