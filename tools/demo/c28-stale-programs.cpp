#include "fakecl.cpp"
#include <hzip_core/opencl/cl_helper.h>
using namespace hzopencl;
int main() {
    fakecl::host({{"P", {{"da"}, {"db"}, {"dc"}}}});
    DeviceProvider::load_devices();
    ProgramProvider::register_program("p", "__kernel void run(int x) {}");
    DeviceProvider::filter_devices("b|c");
    ProgramProvider::register_program("p", "__kernel void run(int x) {}");
    for (int i = 0; i < 4; i++) {
        auto d = fakecl::device_of(ProgramProvider::get("p").first());
        if (d == "da") { printf("a lookup gives the excluded device\n"); return 1; }
    }
    return 0;
}
