#include "fakecl.cpp"
#include <hzip_core/opencl/cl_helper.h>
using namespace hzopencl;
int main() {
    for (int n = 1; n <= 6; n++) {
        fakecl::Platform p{"P", {}};
        for (int i = 0; i < n; i++) p.devices.push_back({"d" + std::to_string(i)});
        fakecl::host({p});
        DeviceProvider::load_devices();
        ProgramProvider::register_program("p", "__kernel void run(int x) {}");
        std::set<std::string> seen;
        for (int i = 0; i < n; i++) seen.insert(fakecl::device_of(ProgramProvider::get("p").first()));
        if ((int) seen.size() != n) { printf("%d devices, but only %zu are used\n", n, seen.size()); return 1; }
    }
    return 0;
}
