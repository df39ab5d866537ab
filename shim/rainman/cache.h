// Stand-in for rainman's file-backed cache: the pages live in memory.
#ifndef HZV_RAINMAN_CACHE_H
#define HZV_RAINMAN_CACHE_H

#include <cstdint>
#include <memory>
#include <string>
#include <vector>

namespace rainman {
    class cache {
    private:
        std::string _filename;
        uint64_t _page_size{};
    public:
        cache() = default;

        cache(const std::string &filename, uint64_t page_size) : _filename(filename), _page_size(page_size) {}

        const std::string &filename() const { return _filename; }

        uint64_t page_size() const { return _page_size; }
    };

    namespace detail {
        [[noreturn]] void bounds_error(const char *what, uint64_t index, uint64_t size);
    }

    template<typename T>
    class virtual_array {
    private:
        std::shared_ptr<std::vector<T>> _v;
        cache *_cache;
    public:
        virtual_array(cache &c, uint64_t n) : _v(std::make_shared<std::vector<T>>(n)), _cache(&c) {
            for (auto &x: *_v) for (uint64_t i = 0; i < sizeof(T); i++) reinterpret_cast<unsigned char *>(&x)[i] = 0xCD;
        }

        uint64_t size() const { return _v->size(); }

        T &operator[](uint64_t i) const {
            if (i >= _v->size()) detail::bounds_error("rainman::virtual_array", i, _v->size());
            return (*_v)[i];
        }

        T get(uint64_t i) const { return (*this)[i]; }

        void set(const T &v, uint64_t i) { (*this)[i] = v; }
    };
}

#endif
