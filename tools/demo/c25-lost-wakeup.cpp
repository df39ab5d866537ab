#include <hzip_core/utils/semaphore.h>
#include <thread>
#include <vector>
#include <atomic>
#include <chrono>
#include <cstdio>
#include <cstdlib>
int main() {
    for (int round = 0; round < 200; round++) {
        auto *s = new Semaphore(0);
        std::atomic<int> through{0};
        std::vector<std::thread> w;
        for (int i = 0; i < 4; i++) w.emplace_back([&] { s->acquire(); through++; });
        std::this_thread::sleep_for(std::chrono::milliseconds(5));
        for (int i = 0; i < 4; i++) s->release();
        for (int i = 0; i < 300 && through < 4; i++) std::this_thread::sleep_for(std::chrono::milliseconds(10));
        if (through < 4) { printf("FAILED: %d of 4 permits were taken, the others wait for ever\n", through.load()); _exit(1); }
        for (auto &t : w) t.join();
        delete s;
    }
    puts("ok");
}
