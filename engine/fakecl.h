// An OpenCL runtime without hardware: platforms and devices as configured, programs that build or not, kernels that are C++
// functions called once per work item. Every handle is checked.
#ifndef FAKECL_H
#define FAKECL_H
#define CL_TARGET_OPENCL_VERSION 200
#include <CL/cl.h>
#include <cstdint>
#include <functional>
#include <map>
#include <string>
#include <vector>

namespace fakecl {
    struct Device { std::string name; cl_device_type type = CL_DEVICE_TYPE_GPU; };
    struct Platform { std::string name; std::vector<Device> devices; cl_int error = 0; };   // error: of its device discovery
    struct Arg { std::string bytes; void *mem = nullptr; size_t mem_size = 0; };
    typedef std::function<void(std::vector<Arg> &args, size_t global_id)> Kernel;

    struct Knobs {
        bool faults = false;                 // any call that can fail may fail (a FAULT choice)
        cl_int platform_error = 0;           // of the platform discovery
        size_t local_size = 1;               // preferred work group size multiple
        bool reverse = false;                // work items run in reverse order
        std::function<cl_int(const std::string &source, const std::string &device)> build;   // result of building
        bool compile = false;                // programs are compiled from their source (and cached) instead of taken from `kernels`
        bool build_status_error = true;      // what the build status says after a failed build
    };
    extern Knobs knobs;
    extern std::map<std::string, Kernel> kernels;      // by name; a program has those whose name its source contains

    void host(const std::vector<Platform> &platforms);  // what there is from now on; devices handed out stay valid
    int live();                                          // objects not released
    std::string device_of(cl_program p);
    std::string device_name(cl_device_id d);
    bool built(cl_program p);
    uint64_t calls();
}
#endif
