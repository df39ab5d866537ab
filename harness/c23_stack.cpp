// C23: all operation sequences on the buffered stack, around its buffer boundaries, against a plain list.
#include <cstdint>
#include <memory>
#include <string>
#include <hzip_core/utils/stack.h>
#include "mc.h"

const char *hzv_property = "C23";

template<typename T> static uint64_t buffer_size() {
    if constexpr (requires(HZ_Stack<T> s) { s.bufsize; }) { HZ_Stack<T> s; return s.bufsize; }
    else return 0x10000;
}

template<typename T> struct Val;
template<> struct Val<uint32_t> { static uint32_t of(uint64_t i) { return (uint32_t) (i * 2654435761u + 17); } };
template<> struct Val<uint64_t> { static uint64_t of(uint64_t i) { return i * 0x9e3779b97f4a7c15ull + 3; } };
struct Wide { uint64_t a; uint32_t b; bool operator==(const Wide &o) const { return a == o.a && b == o.b; } };
template<> struct Val<Wide> { static Wide of(uint64_t i) { return {i * 77 + 1, (uint32_t) ~i}; } };

template<typename T> struct Run {
    std::unique_ptr<HZ_Stack<T>> s = std::make_unique<HZ_Stack<T>>();
    std::vector<T> list;
    uint64_t seq = 0;
    std::string log;

    void look(const char *after) {
        if (s->empty() != list.empty()) mc::fail("empty() is wrong", log);
        if (s->size() != list.size()) mc::failf("size() is wrong", "%s: %llu instead of %zu", log.c_str(), (unsigned long long) s->size(), list.size());
        if (!list.empty() && !(s->top() == list.back())) mc::fail("top() is wrong", log + " after " + after);
        mc::step();
        mc::state(mc::mix(list.size(), 1));
    }
    void push(uint64_t n) {
        for (uint64_t i = 0; i < n; i++) { auto v = Val<T>::of(seq++); s->push(v); list.push_back(v); }
        log += " push*" + std::to_string(n);
        look("push");
    }
    void pop(uint64_t n) {
        for (uint64_t i = 0; i < n; i++) {
            if (!list.empty()) {
                if (!(s->top() == list.back())) mc::fail("top() is wrong", log);
                list.pop_back();
            }
            s->pop();
        }
        log += " pop*" + std::to_string(n);
        look("pop");
    }
};

template<typename T> static void sequence(const std::vector<int64_t> &alpha, int depth, int64_t start) {
    uint64_t before = rainman::Allocator().alloc_size();
    {
        Run<T> r;
        r.look("start");
        if (start) r.push(start);
        for (int i = 0; i < depth; i++) {
            int64_t a = alpha[mc::choose(alpha.size(), mc::FREE, "op")];
            if (a > 0) r.push(a); else r.pop(-a);
        }
        mc::logf("%s", r.log.c_str());
    }
    if (rainman::Allocator().alloc_size() != before) mc::fail("memory is not released");
}

void hzv_main() {
    bool th = mc::thorough();
    int64_t B = (int64_t) buffer_size<uint32_t>();
    if (B < 2 || B > (1 << 22)) B = 0x10000;
    mc::bound("buffer size", std::to_string(B));
    mc::Opts o;
    {
        int d = th ? 13 : 11;
        o.bounds = "all sequences of " + std::to_string(d) + " pushes and pops, from the empty stack";
        mc::explore("small, empty", [&] { sequence<uint32_t>({1, -1}, d, 0); }, o);
    }
    {
        int d = th ? 10 : 8;
        o.bounds = "all sequences of " + std::to_string(d) + " pushes and pops, from every size within 3 of 1, 2 and 3 buffers";
        mc::explore("small, at boundaries", [&] {
            int64_t k = 1 + mc::choose(3, mc::FREE, "buffers"), off = (int64_t) mc::choose(7, mc::FREE, "offset") - 3;
            sequence<uint32_t>({1, -1}, d, k * B + off);
        }, o);
    }
    {
        int d = th ? 6 : 5;
        o.bounds = "all sequences of " + std::to_string(d) + " bulk operations of 1, one buffer less 1, one buffer, one buffer plus 1, two buffers";
        mc::explore("bulk", [&] { sequence<uint32_t>({1, -1, B - 1, -(B - 1), B, -B, B + 1, -(B + 1), -2 * B}, d, 0); }, o);
        o.bounds = "all sequences of 3 bulk operations, other element types";
        mc::explore("bulk, 64 bit", [&] { sequence<uint64_t>({1, -1, B - 1, -(B - 1), B, -B, 2 * B + 1, -2 * B}, 3, 0); }, o);
        mc::explore("bulk, struct", [&] { sequence<Wide>({1, -1, B - 1, -(B - 1), B, -B, 2 * B + 1, -2 * B}, 3, 0); }, o);
    }
    // use after being emptied, with many elements in between
    {
        uint64_t n = th ? 400 : 120;
        o.bounds = "fill to n, empty, fill again to m, for all n, m below " + std::to_string(n);
        mc::enumerate("reuse", n * n, [n](uint64_t i) {
            Run<uint32_t> r;
            r.push(i / n);
            r.pop(i / n);
            r.push(i % n);
            r.pop(i % n);
            r.pop(1);
            r.push(2);
            r.pop(1);
        }, o);
    }
}
