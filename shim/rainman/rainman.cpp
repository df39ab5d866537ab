#include "rainman.h"
#include <cstdio>

namespace rainman::detail {
    static std::atomic<uint64_t> g_live{0};
    static std::atomic<uint64_t> g_peak{UINT64_MAX};
    static constexpr uint64_t MAGIC = 0x52a1a3a9b10c4ull;

    // Registry of live blocks: a spin lock, so that it is no scheduling point of a controlled scheduler.
    static std::atomic_flag g_lock = ATOMIC_FLAG_INIT;
    static constexpr uint64_t NBUCKET = 4096;
    struct node {
        void *p;
        node *next;
    };
    static node *g_reg[NBUCKET];

    static uint64_t bucket(void *p) { return (reinterpret_cast<uintptr_t>(p) >> 4) * 0x9e3779b97f4a7c15ull >> 52; }

    static void lock() { while (g_lock.test_and_set(std::memory_order_acquire)) {}}

    static void unlock() { g_lock.clear(std::memory_order_release); }

    void *block_alloc(uint64_t bytes, uint64_t count, void (*destroy)(void *, uint64_t)) {
        if (bytes > hzv_limit) {
            hzv_refused++;
            throw AllocationError();
        }
        auto *b = static_cast<block *>(::operator new(sizeof(block) + bytes));
        b->magic = MAGIC;
        b->bytes = bytes;
        b->count = count;
        b->destroy = destroy;
        auto *p = reinterpret_cast<unsigned char *>(b + 1);
        memset(p, 0xCD, bytes);      // contents of fresh memory are unspecified
        auto *n = static_cast<node *>(malloc(sizeof(node)));
        n->p = p;
        lock();
        auto &h = g_reg[bucket(p)];
        n->next = h;
        h = n;
        unlock();
        g_live += bytes;
        return p;
    }

    void block_free(void *p) {
        node *found = nullptr;
        lock();
        for (node **q = &g_reg[bucket(p)]; *q; q = &(*q)->next) {
            if ((*q)->p == p) {
                found = *q;
                *q = found->next;
                break;
            }
        }
        unlock();
        if (!found) return;   // not ours
        free(found);
        auto *b = static_cast<block *>(p) - 1;
        if (b->destroy) b->destroy(p, b->count);
        g_live -= b->bytes;
        memset(p, 0xDD, b->bytes);
        ::operator delete(b);
    }

    uint64_t live_bytes() { return g_live; }

    uint64_t get_peak() { return g_peak; }

    void set_peak(uint64_t v) { g_peak = v; }

    void bounds_error(const char *what, uint64_t index, uint64_t size) {
        fprintf(stderr, "OUT-OF-BOUNDS: %s index %llu of %llu\n", what, (unsigned long long) index,
                (unsigned long long) size);
        abort();
    }
}
