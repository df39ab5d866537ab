#include <cstdio>
#include <cstdlib>
#include <hzip_core/runtime/config.h>
int main() {
    setenv("HZIP_API_THREADS", "8", 1);
    unsetenv("HZIP_PROCESSOR_THREADS");
    hzruntime::Config::configure();
    if (hzruntime::Config::api_threads != 8 || hzruntime::Config::processor_threads != 1) { printf("%lu sessions, %lu threads\n", hzruntime::Config::api_threads, hzruntime::Config::processor_threads); return 1; }
    return 0;
}
