// Stand-in for the missing submodule other/rainman (github.com/supercmmetry/rainman).
// Written from the way /repo uses the library; see DESIGN.md "Stand-ins" for the assumed contract.
#ifndef HZV_RAINMAN_H
#define HZV_RAINMAN_H

#include <atomic>
#include <cstddef>
#include <cstdint>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <new>
#include <optional>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <unordered_map>
#include <utility>
#include <vector>
#include <thread>

// The reference counts order the last use before the release; a controlled scheduler wants to know.
extern "C" __attribute__((weak)) void hzv_hb_acq_rel(const void *);

namespace rainman {
    namespace detail {
        // Every block carries a header, and live blocks are registered: rfree() of a pointer that the
        // allocator did not hand out is ignored (libpng hands us some that it obtained with malloc()).
        struct alignas(16) block {
            uint64_t magic;
            uint64_t bytes;
            uint64_t count;
            void (*destroy)(void *, uint64_t);
        };

        void *block_alloc(uint64_t bytes, uint64_t count, void (*destroy)(void *, uint64_t));
        void block_free(void *p);
        // for the checks: the largest request that is granted, and how many were not
        inline uint64_t hzv_limit = 1ull << 33, hzv_refused = 0;
        uint64_t live_bytes();
        uint64_t get_peak();
        void set_peak(uint64_t v);
        [[noreturn]] void bounds_error(const char *what, uint64_t index, uint64_t size);
    }

    struct AllocationError : std::bad_alloc {
    };

    class Allocator {
    public:
        Allocator() = default;

        template<typename T>
        T *rmalloc(uint64_t n = 1) {
            return static_cast<T *>(detail::block_alloc(n * sizeof(T), n, nullptr));
        }

        template<typename T, typename... Args>
        T *rnew(uint64_t n, Args &&... args) {
            void (*d)(void *, uint64_t) = nullptr;
            if constexpr (!std::is_trivially_destructible_v<T>) {
                d = [](void *p, uint64_t k) {
                    auto *t = static_cast<T *>(p);
                    for (uint64_t i = 0; i < k; i++) t[i].~T();
                };
            }
            auto *p = static_cast<T *>(detail::block_alloc(n * sizeof(T), 0, d));
            auto *b = reinterpret_cast<detail::block *>(p) - 1;
            try {
                for (uint64_t i = 0; i < n; i++) {
                    if constexpr (sizeof...(Args) == 0) {
                        new(p + i) T;   // no value-initialization is assumed
                    } else {
                        new(p + i) T(args...);
                    }
                    b->count = i + 1;
                }
            } catch (...) {
                detail::block_free(p);
                throw;
            }
            return p;
        }

        template<typename T>
        void rfree(T *p) {
            if (p != nullptr) detail::block_free((void *) p);
        }

        void peak_size(uint64_t v) { detail::set_peak(v); }

        uint64_t peak_size() const { return detail::get_peak(); }

        uint64_t alloc_size() const { return detail::live_bytes(); }
    };

    class memmgr : public Allocator {
    };

    // Shared, counted array. The default constructor makes one default-constructed element.
    template<typename T>
    class ptr {
    private:
        struct ctl {
            uint64_t refs{1};
            T *data{};
            bool owned{true};
        };
        ctl *_ctl{};
        T *_p{};
        uint64_t _n{};

        __attribute__((disable_sanitizer_instrumentation)) static void retain(ctl *c) {
            if (c) __atomic_fetch_add(&c->refs, 1, __ATOMIC_RELAXED);
        }

        __attribute__((disable_sanitizer_instrumentation)) void drop() {
            if (_ctl != nullptr && hzv_hb_acq_rel) hzv_hb_acq_rel(_ctl);
            if (_ctl != nullptr && __atomic_fetch_sub(&_ctl->refs, 1, __ATOMIC_ACQ_REL) == 1) {
                if (_ctl->owned) Allocator().rfree(_ctl->data);
                delete _ctl;
            }
            _ctl = nullptr;
        }

        void adopt(T *p, uint64_t n, bool owned) {
            _ctl = new ctl;
            _ctl->data = p;
            _ctl->owned = owned;
            _p = p;
            _n = n;
        }

        template<typename U> friend
        class ptr2d;

        template<typename U> friend
        class row_view;

        ptr(ctl *c, T *p, uint64_t n) : _ctl(c), _p(p), _n(n) {
            retain(_ctl);
        }

    public:
        using inner_type = T;

        ptr() { adopt(Allocator().template rnew<T>(1), 1, true); }

        template<typename... Args>
        explicit ptr(uint64_t n, Args &&... args) {
            adopt(Allocator().template rnew<T>(n, std::forward<Args>(args)...), n, true);
        }

        ptr(T *p, uint64_t n) { adopt(p, n, false); }

        ptr(const ptr &o) : _ctl(o._ctl), _p(o._p), _n(o._n) {
            retain(_ctl);
        }

        ptr(ptr &&o) noexcept: _ctl(o._ctl), _p(o._p), _n(o._n) {
            // the moved-from handle keeps sharing: callers of the real library never see a null ptr
            retain(_ctl);
        }

        ptr &operator=(const ptr &o) {
            if (this != &o) {
                retain(o._ctl);
                drop();
                _ctl = o._ctl;
                _p = o._p;
                _n = o._n;
            }
            return *this;
        }

        ~ptr() { drop(); }

        T &operator[](uint64_t i) const {
#ifndef HZV_NO_BOUNDS
            if (i >= _n) [[unlikely]] detail::bounds_error("rainman::ptr", i, _n);
#endif
            return _p[i];
        }

        T &operator*() const { return *_p; }

        T *operator->() const { return _p; }

        ptr operator+(uint64_t k) const { return ptr(_ctl, _p + k, _n - k); }

        T *pointer() const { return _p; }

        T *get() const { return _p; }

        T *data() const { return _p; }

        T *begin() const { return _p; }

        T *end() const { return _p + _n; }

        uint64_t size() const { return _n; }

        bool empty() const { return _n == 0; }

        bool operator==(const ptr &o) const { return _p == o._p; }

        bool operator!=(const ptr &o) const { return _p != o._p; }

        bool operator==(std::nullptr_t) const { return _p == nullptr; }

        bool operator!=(std::nullptr_t) const { return _p != nullptr; }

        explicit operator bool() const { return _p != nullptr; }

        void swap(ptr &o) {
            std::swap(_ctl, o._ctl);
            std::swap(_p, o._p);
            std::swap(_n, o._n);
        }
    };

    template<typename T, typename... Args>
    ptr<T> make_ptr(uint64_t n = 1, Args &&... args) { return ptr<T>(n, std::forward<Args>(args)...); }

    template<typename T>
    class option {
    private:
        std::optional<T> _v;
    public:
        option() = default;

        option(const T &v) : _v(v) {}

        option(const option &) = default;

        option &operator=(const option &) = default;

        option &operator=(const T &v) {
            _v = v;
            return *this;
        }

        template<typename U, typename = std::enable_if_t<std::is_convertible_v<U, T> && !std::is_same_v<std::decay_t<U>, option> && !std::is_same_v<std::decay_t<U>, T>>>
        option &operator=(U &&u) {
            _v = T(std::forward<U>(u));
            return *this;
        }

        bool is_some() const { return _v.has_value(); }

        bool is_none() const { return !_v.has_value(); }

        // inner() of an empty option is a programming error
        T &inner() { return _v.value(); }

        const T &inner() const { return _v.value(); }

        T unwrap() const { return _v.value(); }
    };

    template<typename T>
    class row_view {
    private:
        ptr<T> *_base;
        uint64_t _off, _n;
    public:
        row_view(ptr<T> *base, uint64_t off, uint64_t n) : _base(base), _off(off), _n(n) {}

        T &operator[](uint64_t i) const {
#ifndef HZV_NO_BOUNDS
            if (i >= _n) [[unlikely]] detail::bounds_error("rainman::ptr2d row", i, _n);
#endif
            return _base->_p[_off + i];
        }

        T *pointer() const { return _base->_p + _off; }

        uint64_t size() const { return _n; }

        operator ptr<T>() const { return ptr<T>(_base->_ctl, _base->_p + _off, _n); }
    };

    template<typename T>
    class ptr2d {
    private:
        mutable ptr<T> _flat;
        uint64_t _off{}, _rows{}, _cols{};

        template<typename U> friend
        class ptr3d;

        ptr2d(const ptr<T> &flat, uint64_t off, uint64_t r, uint64_t c) : _flat(flat), _off(off), _rows(r), _cols(c) {}

    public:
        ptr2d() : _flat(uint64_t(0)) {}

        ptr2d(uint64_t r, uint64_t c) : _flat(r * c), _rows(r), _cols(c) {}

        row_view<T> operator[](uint64_t i) const {
#ifndef HZV_NO_BOUNDS
            if (i >= _rows) [[unlikely]] detail::bounds_error("rainman::ptr2d", i, _rows);
#endif
            return row_view<T>(&_flat, _off + i * _cols, _cols);
        }

        uint64_t size() const { return _rows; }
    };

    template<typename T>
    class ptr3d {
    private:
        mutable ptr<T> _flat;
        uint64_t _a{}, _b{}, _c{};
    public:
        ptr3d() : _flat(uint64_t(0)) {}

        ptr3d(uint64_t a, uint64_t b, uint64_t c) : _flat(a * b * c), _a(a), _b(b), _c(c) {}

        ptr2d<T> operator[](uint64_t i) const {
#ifndef HZV_NO_BOUNDS
            if (i >= _a) [[unlikely]] detail::bounds_error("rainman::ptr3d", i, _a);
#endif
            return ptr2d<T>(_flat, i * _b * _c, _b, _c);
        }

        uint64_t size() const { return _a; }
    };

    template<typename T>
    ptr2d<T> make_ptr2d(uint64_t r, uint64_t c) { return ptr2d<T>(r, c); }

    template<typename T>
    ptr3d<T> make_ptr3d(uint64_t a, uint64_t b, uint64_t c) { return ptr3d<T>(a, b, c); }
}

#include "cache.h"

#endif
