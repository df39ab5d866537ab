#include "fakecl.cpp"
#include <hzip_core/opencl/cl_helper.h>
#include <hzip_core/runtime/runtime.h>
#include <hzip_core/models/paeth.h>
int main() {
    using hzmodels::LinearU16PaethDifferential;
    fakecl::host({{"P", {{"d", CL_DEVICE_TYPE_GPU}}}});
    fakecl::knobs.compile = true;
    hzopencl::DeviceProvider::load_devices();
    hzruntime::Config::opencl_support_enabled = true;
    for (int kernels : {1, 2, 4, 7}) for (int local : {1, 4}) for (int w = 1; w < 6; w++) for (int h = 1; h < 6; h++) {
        hzruntime::Config::opencl_kernels = kernels;
        fakecl::knobs.local_size = local;
        auto a = rainman::ptr<uint16_t>(w * h), b = rainman::ptr<uint16_t>(w * h);
        for (int i = 0; i < w * h; i++) a[i] = b[i] = (i * 37 + 100 * (i % 3)) & 255;
        auto x = LinearU16PaethDifferential::cpu_filter(a, w, h, 1, false, 8);
        auto y = LinearU16PaethDifferential::opencl_filter(b, w, h, 1, false, 8);
        for (int i = 0; i < w * h; i++) if (x[i] != y[i]) { printf("%d x %d, %d kernels: residual %d is %d on the CPU and %d with OpenCL\n", w, h, kernels, i, x[i], y[i]); return 1; }
    }
    return 0;
}
