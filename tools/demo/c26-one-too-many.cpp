#include <hzip_codec/processor/processor.h>
#include <hzip_codec/codec_provider.h>
#include <loguru/loguru.hpp>
#include <atomic>
#include <chrono>
#include <cstdio>
int main() {
    loguru::g_stderr_verbosity = -10;
    static std::atomic<int> running{0}, most{0}, completed{0};
    HZ_Processor p(2);
    for (int i = 0; i < 6; i++) {
        auto job = rainman::ptr<HZ_Job>(); auto stub = rainman::ptr<HZ_JobStub>(); auto codec = rainman::ptr<HZ_CodecJob>();
        codec->algorithm = hzcodec::algorithms::VICTINI; codec->job_type = HZ_CodecJob::ENCODE;
        auto b = rainman::ptr<HZ_Blob>(1); b->o_size = b->size = 64; b->data = rainman::ptr<uint8_t>(64); b->mstate = rainman::ptr<HZ_MState>();
        for (int k = 0; k < 64; k++) b->data[k] = k & 3;
        codec->blob = b;
        codec->blob_callback = [](const rainman::ptr<HZ_Blob> &) {
            int n = ++running; int m = most; while (m < n && !most.compare_exchange_weak(m, n)) {}
            std::this_thread::sleep_for(std::chrono::milliseconds(150));
            running--;
        };
        stub->on_completed = [] { completed++; };
        job->codec = codec; job->stub = stub; job->type = HZ_Job::CODEC;
        p.run(job);
    }
    for (int i = 0; i < 2000 && completed < 6; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
    std::this_thread::sleep_for(std::chrono::milliseconds(50));
    if (completed != 6 || most > 2) { printf("FAILED: %d completed, %d at once with 2 threads\n", completed.load(), most.load()); _exit(1); }
    puts("ok"); fflush(stdout);
    _exit(0);
}
