#include "fakecl.h"
#include "mc.h"
#include <cstring>
#include <deque>
#include <memory>
#include <dlfcn.h>
#include <fstream>
#include <regex>
#include <set>
#include <sstream>
#include <unistd.h>

static const uint32_t MAGIC = 0x0c1f00d5;
struct Obj { uint32_t magic = MAGIC; int refs = 1; };
struct _cl_platform_id { fakecl::Platform p; std::vector<_cl_device_id *> devices; };
struct _cl_device_id { fakecl::Device d; _cl_platform_id *platform; };
struct _cl_context : Obj { std::vector<_cl_device_id *> devices; };
struct Compiled { bool ok = false; std::string log; struct K { void (*call)(void *); std::vector<unsigned> sizes; std::vector<bool> pointer; }; std::map<std::string, K> kernels; };
struct _cl_program : Obj { _cl_context *ctx; std::string src; cl_int status = 1; bool ok = false; const Compiled *compiled = nullptr; };
struct _cl_kernel : Obj { _cl_program *prog; std::string name; std::vector<fakecl::Arg> args; const Compiled::K *k = nullptr; };
struct _cl_mem : Obj { _cl_context *ctx; std::vector<uint8_t> data; uint64_t size; void *guard; };
struct _cl_command_queue : Obj { _cl_context *ctx; bool out_of_order = false; std::vector<std::vector<std::function<void()>>> todo{{}}; };
struct _cl_event : Obj {};

namespace fakecl {
    Knobs knobs;
    std::map<std::string, Kernel> kernels;
    static std::deque<_cl_platform_id> all_platforms;      // never freed within a process
    static std::deque<_cl_device_id> all_devices;
    static std::vector<_cl_platform_id *> now;
    static int nlive = 0;
    static std::set<void *> mems;        // an 8-byte number is not mistaken for a buffer
    static uint64_t ncalls = 0;

    void host(const std::vector<Platform> &platforms) {
        now.clear();
        for (auto &p: platforms) {
            all_platforms.push_back({p, {}});
            auto *x = &all_platforms.back();
            for (auto &d: p.devices) {
                all_devices.push_back({d, x});
                x->devices.push_back(&all_devices.back());
            }
            now.push_back(x);
        }
    }
    int live() { return nlive; }
    uint64_t calls() { return ncalls; }
    std::string device_name(cl_device_id d) { return d->d.name; }
    std::string device_of(cl_program p) { return p->ctx->devices.at(0)->d.name; }
    bool built(cl_program p) { return p->ok; }

    // ---------------------------------------------------------------- programs from source, with clang's OpenCL C front end
    static size_t item_id, item_count, item_local;
    static std::map<std::string, Compiled> compiled;
    static std::string strip_comments(const std::string &s) {
        return std::regex_replace(std::regex_replace(s, std::regex("//[^\n]*"), ""), std::regex("/\\*([^*]|\\*[^/])*\\*/"), " ");
    }
    static const Compiled &compile(const std::string &src) {
        auto it = compiled.find(src);
        if (it != compiled.end()) return it->second;
        auto &c = compiled[src];
        // a wrapper for each kernel that takes its arguments from slots of 8 bytes
        std::string clean = strip_comments(src), text = src + "\n";
        std::regex decl("(?:__kernel|\\bkernel)\\s+void\\s+(\\w+)\\s*\\(([^)]*)\\)");
        struct P { std::string name; std::vector<std::string> types; };
        std::vector<P> found;
        for (std::sregex_iterator m(clean.begin(), clean.end(), decl), e; m != e; ++m) {
            P p{(*m)[1], {}};
            std::stringstream ps((*m)[2]);
            for (std::string x; std::getline(ps, x, ',');) {
                std::smatch t;
                if (!std::regex_match(x, t, std::regex("\\s*([\\s\\S]*?)\\b(\\w+)\\s*"))) continue;
                p.types.push_back(t[1]);
            }
            std::string args, sizes;
            for (size_t i = 0; i < p.types.size(); i++) {
                auto at = "(a + " + std::to_string(8 * i) + ")";
                bool ptr = p.types[i].find('*') != std::string::npos;
                args += std::string(i ? ", " : "") + (ptr ? "(" + p.types[i] + ") *(__global ulong *)" + at : "*(__global " + p.types[i] + " *)" + at);
                sizes += "sizeof(" + p.types[i] + "), ";
            }
            text += "__kernel void hzv_call_" + p.name + "(__global uchar *a) { " + p.name + "(" + args + "); }\n__constant uint hzv_sizes_" + p.name + "[] = {" + sizes + "0};\n";
            found.push_back(p);
        }
        char dir[] = "/dev/shm/hzvcl.XXXXXX";
        if (!mkdtemp(dir)) mc::internal_error("no scratch directory for a program");
        std::string d = dir;
        std::ofstream(d + "/k.cl") << text;
#ifdef HZV_ASAN
        std::string flags = "-fsanitize=address ";
#else
        std::string flags;
#endif
        std::string cmd = "clang-18 -x cl -cl-std=CL2.0 -w -O1 -g1 -fPIC -shared " + flags + "-o " + d + "/k.so " + d + "/k.cl >" + d + "/log 2>&1";
        c.ok = system(cmd.c_str()) == 0;
        std::stringstream log;
        log << std::ifstream(d + "/log").rdbuf();
        c.log = log.str();
        if (c.ok) {
            void *h = dlopen((d + "/k.so").c_str(), RTLD_NOW | RTLD_LOCAL);
            if (!h) mc::internal_error(std::string("cannot load a program: ") + dlerror());
            for (auto &p: found) {
                Compiled::K k;
                k.call = (void (*)(void *)) dlsym(h, ("hzv_call_" + p.name).c_str());
                auto *z = (const unsigned *) dlsym(h, ("hzv_sizes_" + p.name).c_str());
                if (!k.call || !z) mc::internal_error("cannot find the kernel " + p.name);
                for (size_t i = 0; i < p.types.size(); i++) {
                    k.pointer.push_back(p.types[i].find('*') != std::string::npos);
                    k.sizes.push_back(z[i]);
                }
                c.kernels[p.name] = k;
            }
        }
        for (const char *f: {"/k.cl", "/k.so", "/log"}) unlink((d + f).c_str());
        rmdir(dir);
        return c;
    }

    static bool fails(const char *what) {
        ncalls++;
        return knobs.faults && mc::choose(2, mc::FAULT, what);
    }
    template<typename T>
    static T *check(T *o, const char *what) {
        if (!o) mc::failf("invalid OpenCL object", "null in %s", what);
        if (o->magic != MAGIC || o->refs <= 0) mc::failf("invalid OpenCL object", "a released object in %s", what);
        return o;
    }
    template<typename T>
    static cl_int retain(T *o, const char *what) { check(o, what)->refs++; return 0; }
    template<typename T>
    static bool release(T *o, const char *what) {
        if (--check(o, what)->refs) return false;
        o->magic = 0;          // kept, so that a later use is noticed
        nlive--;
        return true;
    }
    template<typename T>
    static T *make() { nlive++; return new T(); }

    static cl_int put(const void *src, size_t n, size_t size, void *value, size_t *ret) {
        if (ret) *ret = n;
        if (value) {
            if (size < n) return CL_INVALID_VALUE;
            memcpy(value, src, n);
        }
        return CL_SUCCESS;
    }
    static cl_int put(const std::string &s, size_t size, void *value, size_t *ret) { return put(s.c_str(), s.size() + 1, size, value, ret); }
}
using namespace fakecl;

#define ITEM(name) extern __attribute__((visibility("default"))) size_t name(unsigned d)
ITEM(get_global_id) { return d ? 0 : item_id; }
ITEM(get_global_size) { return d ? 1 : item_count; }
ITEM(get_local_size) { return d ? 1 : item_local; }
ITEM(get_local_id) { return d ? 0 : item_id % item_local; }
ITEM(get_group_id) { return d ? 0 : item_id / item_local; }
ITEM(get_num_groups) { return d ? 1 : item_count / item_local; }

extern "C" {
cl_int clGetPlatformIDs(cl_uint n, cl_platform_id *out, cl_uint *count) {
    if (fails("clGetPlatformIDs")) return CL_OUT_OF_HOST_MEMORY;
    if (knobs.platform_error) return knobs.platform_error;
    if (count) *count = now.size();
    if (now.empty()) return -1001;      // as the ICD loader
    for (cl_uint i = 0; out && i < n && i < now.size(); i++) out[i] = now[i];
    return CL_SUCCESS;
}
cl_int clGetPlatformInfo(cl_platform_id p, cl_platform_info what, size_t size, void *value, size_t *ret) {
    if (what == CL_PLATFORM_VERSION) return put(std::string("OpenCL 2.0 fake"), size, value, ret);
    if (what == CL_PLATFORM_NAME) return put(p->p.name, size, value, ret);
    return put(std::string(""), size, value, ret);
}
cl_int clGetDeviceIDs(cl_platform_id p, cl_device_type type, cl_uint n, cl_device_id *out, cl_uint *count) {
    if (fails("clGetDeviceIDs")) return CL_OUT_OF_RESOURCES;
    if (p->p.error) return p->p.error;
    std::vector<cl_device_id> m;
    for (auto *d: p->devices) if (type == CL_DEVICE_TYPE_ALL || (d->d.type & type)) m.push_back(d);
    if (count) *count = m.size();
    if (m.empty()) return CL_DEVICE_NOT_FOUND;
    for (cl_uint i = 0; out && i < n && i < m.size(); i++) out[i] = m[i];
    return CL_SUCCESS;
}
cl_int clGetDeviceInfo(cl_device_id d, cl_device_info what, size_t size, void *value, size_t *ret) {
    cl_uint one = 1;
    switch (what) {
        case CL_DEVICE_PLATFORM: return put(&d->platform, sizeof d->platform, size, value, ret);
        case CL_DEVICE_TYPE: return put(&d->d.type, sizeof d->d.type, size, value, ret);
        case CL_DEVICE_NAME:
            if (!value && fails("clGetDeviceInfo")) return CL_OUT_OF_RESOURCES;
            return put(d->d.name, size, value, ret);
        case CL_DEVICE_VERSION: return put(std::string("OpenCL 2.0 fake"), size, value, ret);
        case CL_DEVICE_MAX_CLOCK_FREQUENCY: case CL_DEVICE_MAX_COMPUTE_UNITS: return put(&one, sizeof one, size, value, ret);
        default: return CL_INVALID_VALUE;
    }
}
cl_int clRetainDevice(cl_device_id) { return 0; }
cl_int clReleaseDevice(cl_device_id) { return 0; }

cl_context clCreateContext(const cl_context_properties *, cl_uint n, const cl_device_id *d, void (CL_CALLBACK *)(const char *, const void *, size_t, void *), void *, cl_int *err) {
    if (fails("clCreateContext")) { if (err) *err = CL_OUT_OF_HOST_MEMORY; return nullptr; }
    auto *c = make<_cl_context>();
    c->devices.assign(d, d + n);
    if (err) *err = 0;
    return c;
}
cl_int clRetainContext(cl_context c) { return retain(c, "clRetainContext"); }
cl_int clReleaseContext(cl_context c) { release(c, "clReleaseContext"); return 0; }
cl_int clGetContextInfo(cl_context c, cl_context_info what, size_t size, void *value, size_t *ret) {
    check(c, "clGetContextInfo");
    if (what == CL_CONTEXT_DEVICES) return put(c->devices.data(), c->devices.size() * sizeof(cl_device_id), size, value, ret);
    if (what == CL_CONTEXT_NUM_DEVICES) { cl_uint n = c->devices.size(); return put(&n, sizeof n, size, value, ret); }
    return CL_INVALID_VALUE;
}
cl_program clCreateProgramWithSource(cl_context c, cl_uint n, const char **s, const size_t *len, cl_int *err) {
    check(c, "clCreateProgramWithSource");
    if (fails("clCreateProgramWithSource")) { if (err) *err = CL_OUT_OF_HOST_MEMORY; return nullptr; }
    auto *p = make<_cl_program>();
    p->ctx = c;
    clRetainContext(c);
    for (cl_uint i = 0; i < n; i++) p->src += len && len[i] ? std::string(s[i], len[i]) : std::string(s[i]);
    if (err) *err = 0;
    return p;
}
cl_int clRetainProgram(cl_program p) { return retain(p, "clRetainProgram"); }
cl_int clReleaseProgram(cl_program p) { if (release(p, "clReleaseProgram")) clReleaseContext(p->ctx); return 0; }
cl_int clBuildProgram(cl_program p, cl_uint, const cl_device_id *, const char *, void (CL_CALLBACK *)(cl_program, void *), void *) {
    check(p, "clBuildProgram");
    p->status = 0;
    if (fails("clBuildProgram")) { p->status = -11; return CL_OUT_OF_HOST_MEMORY; }
    cl_int e = knobs.build ? knobs.build(p->src, device_of(p)) : CL_SUCCESS;
    if (e == CL_SUCCESS && knobs.compile) {
        p->compiled = &compile(p->src);
        if (!p->compiled->ok) e = CL_BUILD_PROGRAM_FAILURE;
    }
    p->status = e;
    p->ok = e == CL_SUCCESS;
    return e;
}
cl_int clGetProgramBuildInfo(cl_program p, cl_device_id, cl_program_build_info what, size_t size, void *value, size_t *ret) {
    check(p, "clGetProgramBuildInfo");
    cl_build_status st = p->ok ? CL_BUILD_SUCCESS : knobs.build_status_error ? CL_BUILD_ERROR : CL_BUILD_NONE;
    if (what == CL_PROGRAM_BUILD_STATUS) return put(&st, sizeof st, size, value, ret);
    if (what == CL_PROGRAM_BUILD_LOG) return put(p->compiled ? p->compiled->log : std::string("log of the build"), size, value, ret);
    return put(std::string(""), size, value, ret);
}
cl_int clGetProgramInfo(cl_program p, cl_program_info what, size_t size, void *value, size_t *ret) {
    check(p, "clGetProgramInfo");
    cl_uint n = p->ctx->devices.size();
    if (what == CL_PROGRAM_NUM_DEVICES) return put(&n, sizeof n, size, value, ret);
    if (what == CL_PROGRAM_DEVICES) return put(p->ctx->devices.data(), n * sizeof(cl_device_id), size, value, ret);
    if (what == CL_PROGRAM_CONTEXT) { clRetainContext(p->ctx); p->ctx->refs--; return put(&p->ctx, sizeof p->ctx, size, value, ret); }
    return CL_INVALID_VALUE;
}
cl_kernel clCreateKernel(cl_program p, const char *name, cl_int *err) {
    check(p, "clCreateKernel");
    cl_int e = 0;
    if (fails("clCreateKernel")) e = CL_OUT_OF_HOST_MEMORY;
    else if (!p->ok) e = CL_INVALID_PROGRAM_EXECUTABLE;
    else if (p->compiled) { if (!p->compiled->kernels.count(name)) e = CL_INVALID_KERNEL_NAME; }
    else if (!kernels.count(name) || p->src.find(std::string(" ") + name + "(") == std::string::npos) e = CL_INVALID_KERNEL_NAME;
    if (err) *err = e;
    if (e) return nullptr;
    auto *k = make<_cl_kernel>();
    k->prog = p;
    k->name = name;
    if (p->compiled) k->k = &p->compiled->kernels.at(name);
    clRetainProgram(p);
    return k;
}
cl_int clRetainKernel(cl_kernel k) { return retain(k, "clRetainKernel"); }
cl_int clReleaseKernel(cl_kernel k) { if (release(k, "clReleaseKernel")) clReleaseProgram(k->prog); return 0; }
cl_int clGetKernelInfo(cl_kernel k, cl_kernel_info what, size_t size, void *value, size_t *ret) {
    check(k, "clGetKernelInfo");
    if (what == CL_KERNEL_CONTEXT) return put(&k->prog->ctx, sizeof(cl_context), size, value, ret);
    if (what == CL_KERNEL_PROGRAM) return put(&k->prog, sizeof(cl_program), size, value, ret);
    if (what == CL_KERNEL_FUNCTION_NAME) return put(k->name, size, value, ret);
    return CL_INVALID_VALUE;
}
cl_int clGetKernelWorkGroupInfo(cl_kernel k, cl_device_id, cl_kernel_work_group_info what, size_t size, void *value, size_t *ret) {
    check(k, "clGetKernelWorkGroupInfo");
    if (what == CL_KERNEL_PREFERRED_WORK_GROUP_SIZE_MULTIPLE || what == CL_KERNEL_WORK_GROUP_SIZE) return put(&knobs.local_size, sizeof(size_t), size, value, ret);
    return CL_INVALID_VALUE;
}
cl_int clSetKernelArg(cl_kernel k, cl_uint i, size_t size, const void *value) {
    check(k, "clSetKernelArg");
    if (k->k) {
        if (i >= k->k->sizes.size()) return CL_INVALID_ARG_INDEX;
        if (size != k->k->sizes[i]) return CL_INVALID_ARG_SIZE;
        void *m;
        if (k->k->pointer[i]) { memcpy(&m, value, sizeof m); if (m && !mems.count(m)) return CL_INVALID_MEM_OBJECT; }
    }
    if (k->args.size() <= i) k->args.resize(i + 1);
    k->args[i].bytes = std::string((const char *) value, size);
    k->args[i].mem = nullptr;
    return 0;
}
cl_mem clCreateBuffer(cl_context c, cl_mem_flags flags, size_t size, void *host, cl_int *err) {
    check(c, "clCreateBuffer");
    cl_int e = 0;
    if (fails("clCreateBuffer")) e = CL_MEM_OBJECT_ALLOCATION_FAILURE;
    else if (size == 0) e = CL_INVALID_BUFFER_SIZE;
    else if ((flags & CL_MEM_COPY_HOST_PTR) && !host) e = CL_INVALID_HOST_PTR;
    if (err) *err = e;
    if (e) return nullptr;
    auto *m = make<_cl_mem>();
    mems.insert(m);
    m->ctx = c;
    clRetainContext(c);
    m->size = size;
    m->data.resize(size);
    if (flags & CL_MEM_COPY_HOST_PTR) memcpy(m->data.data(), host, size);
    else for (size_t i = 0; i < size; i++) m->data[i] = (uint8_t) (0xa5 ^ i * 7);   // not initialised
    return m;
}
cl_int clRetainMemObject(cl_mem m) { return retain(m, "clRetainMemObject"); }
cl_int clReleaseMemObject(cl_mem m) { if (release(m, "clReleaseMemObject")) { clReleaseContext(m->ctx); std::vector<uint8_t>().swap(m->data); } return 0; }
cl_command_queue clCreateCommandQueueWithProperties(cl_context c, cl_device_id d, const cl_queue_properties *props, cl_int *err) {
    check(c, "clCreateCommandQueueWithProperties");
    bool known = false;
    for (auto *x: c->devices) known |= x == d;
    cl_int e = fails("clCreateCommandQueue") ? CL_OUT_OF_HOST_MEMORY : known ? 0 : CL_INVALID_DEVICE;
    if (err) *err = e;
    if (e) return nullptr;
    auto *q = make<_cl_command_queue>();
    q->ctx = c;
    for (; props && props[0]; props += 2) if (props[0] == CL_QUEUE_PROPERTIES && (props[1] & CL_QUEUE_OUT_OF_ORDER_EXEC_MODE_ENABLE)) q->out_of_order = true;
    clRetainContext(c);
    return q;
}
cl_command_queue clCreateCommandQueue(cl_context c, cl_device_id d, cl_command_queue_properties p, cl_int *err) {
    cl_queue_properties props[] = {CL_QUEUE_PROPERTIES, p, 0};
    return clCreateCommandQueueWithProperties(c, d, props, err);
}
// Commands run when somebody waits for them; between two barriers those of an out-of-order queue run in either order.
static void run_queue(cl_command_queue q) {
    for (auto &part: q->todo) {
        if (q->out_of_order && knobs.reverse) for (size_t i = part.size(); i--;) part[i]();
        else for (auto &f: part) f();
    }
    q->todo = {{}};
}
cl_int clRetainCommandQueue(cl_command_queue q) { return retain(q, "clRetainCommandQueue"); }
cl_int clReleaseCommandQueue(cl_command_queue q) { if (check(q, "clReleaseCommandQueue")->refs == 1) run_queue(q); if (release(q, "clReleaseCommandQueue")) clReleaseContext(q->ctx); return 0; }
cl_int clFinish(cl_command_queue q) { check(q, "clFinish"); run_queue(q); return 0; }
cl_int clFlush(cl_command_queue q) { check(q, "clFlush"); return 0; }
cl_int clEnqueueBarrierWithWaitList(cl_command_queue q, cl_uint, const cl_event *, cl_event *) { check(q, "clEnqueueBarrierWithWaitList"); q->todo.emplace_back(); return 0; }
cl_int clRetainEvent(cl_event) { return 0; }
cl_int clReleaseEvent(cl_event) { return 0; }
cl_int clEnqueueNDRangeKernel(cl_command_queue q, cl_kernel k, cl_uint dim, const size_t *offset, const size_t *global, const size_t *local, cl_uint, const cl_event *, cl_event *ev) {
    check(q, "clEnqueueNDRangeKernel");
    check(k, "clEnqueueNDRangeKernel");
    if (ev) *ev = nullptr;
    if (fails("clEnqueueNDRangeKernel")) return CL_OUT_OF_RESOURCES;
    if (dim != 1 || !global || !global[0]) return CL_INVALID_WORK_DIMENSION;
    if (local && (local[0] == 0 || global[0] % local[0])) return CL_INVALID_WORK_GROUP_SIZE;
    auto args = k->args;
    std::vector<cl_mem> used;
    for (auto &a: args) if (a.bytes.size() == sizeof(cl_mem)) {
        // a buffer?
        void *p;
        memcpy(&p, a.bytes.data(), sizeof p);
        if ((uintptr_t) p < 4096 || ((uintptr_t) p & 7)) continue;
        if (!mems.count(p)) continue;
        auto *m = (cl_mem) p;
        check(m, "clEnqueueNDRangeKernel (a buffer)");
        a.mem = m->data.data();
        a.mem_size = m->size;
        clRetainMemObject(m);
        used.push_back(m);
    }
    auto enqueue = [&](std::function<void()> f) {
        clRetainKernel(k);
        q->todo.back().push_back([=] { f(); for (auto m: used) clReleaseMemObject(m); clReleaseKernel(k); });
        return CL_SUCCESS;
    };
    auto refuse = [&](cl_int e) { for (auto m: used) clReleaseMemObject(m); return e; };
    size_t o = offset ? offset[0] : 0;
    size_t count = global[0], loc = local ? local[0] : 1;
    bool reverse = knobs.reverse;
    if (k->k) {
        if (args.size() != k->k->sizes.size()) return refuse(CL_INVALID_KERNEL_ARGS);
        std::vector<uint64_t> slots(args.size() + 1);
        for (size_t i = 0; i < args.size(); i++) {
            if (args[i].bytes.empty()) return refuse(CL_INVALID_KERNEL_ARGS);
            if (k->k->pointer[i]) slots[i] = (uint64_t) args[i].mem;
            else memcpy(&slots[i], args[i].bytes.data(), args[i].bytes.size());
        }
        auto call = k->k->call;
        return enqueue([=]() mutable {
            item_count = count;
            item_local = loc;
            for (size_t i = 0; i < count; i++) {
                item_id = o + (reverse ? count - 1 - i : i);
                call(slots.data());
            }
        });
    }
    auto *f = &kernels.at(k->name);
    return enqueue([=]() mutable { for (size_t i = 0; i < count; i++) (*f)(args, o + (reverse ? count - 1 - i : i)); });
}
cl_int clEnqueueReadBuffer(cl_command_queue q, cl_mem m, cl_bool wait, size_t off, size_t n, void *dst, cl_uint, const cl_event *, cl_event *ev) {
    check(q, "clEnqueueReadBuffer");
    check(m, "clEnqueueReadBuffer");
    if (ev) *ev = nullptr;
    if (fails("clEnqueueReadBuffer")) return CL_OUT_OF_RESOURCES;
    if (off + n > m->size) return CL_INVALID_VALUE;
    clRetainMemObject(m);
    q->todo.back().push_back([=] { memcpy(dst, m->data.data() + off, n); clReleaseMemObject(m); });
    if (wait) run_queue(q);
    return 0;
}
cl_int clEnqueueWriteBuffer(cl_command_queue q, cl_mem m, cl_bool wait, size_t off, size_t n, const void *src, cl_uint, const cl_event *, cl_event *ev) {
    check(q, "clEnqueueWriteBuffer");
    check(m, "clEnqueueWriteBuffer");
    if (ev) *ev = nullptr;
    if (off + n > m->size) return CL_INVALID_VALUE;
    clRetainMemObject(m);
    q->todo.back().push_back([=] { memcpy(m->data.data() + off, src, n); clReleaseMemObject(m); });
    if (wait) run_queue(q);
    return 0;
}
cl_int clEnqueueFillBuffer(cl_command_queue q, cl_mem m, const void *pattern, size_t pn, size_t off, size_t n, cl_uint, const cl_event *, cl_event *ev) {
    check(q, "clEnqueueFillBuffer");
    check(m, "clEnqueueFillBuffer");
    if (ev) *ev = nullptr;
    if (off + n > m->size || !pn || n % pn) return CL_INVALID_VALUE;
    clRetainMemObject(m);
    std::string bytes((const char *) pattern, pn);
    q->todo.back().push_back([=] { for (size_t i = 0; i < n; i += pn) memcpy(m->data.data() + off + i, bytes.data(), pn); clReleaseMemObject(m); });
    return 0;
}
}
