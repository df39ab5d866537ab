// Stand-in for the missing submodule other/bitio (github.com/supercmmetry/bitio): a bit stream, most
// significant bit first, over a FILE or a caller's buffer. See DESIGN.md "Stand-ins" for the assumed contract.
#ifndef HZV_BITIO_H
#define HZV_BITIO_H

#include <cstdint>
#include <cstdio>
#include <exception>
#include <stdexcept>
#include <string>
#include <vector>

namespace bitio {
    struct bitio_exception : std::runtime_error {
        using std::runtime_error::runtime_error;
    };

    class stream {
    private:
        FILE *_file{};
        uint8_t *_buf{};
        uint64_t _size{};          // bytes
        uint64_t _pos{};           // bits
        bool _loaded{};
        std::vector<uint8_t> _img; // file image
        uint64_t _lo{UINT64_MAX}, _hi{};   // dirty byte range

        void load();

        void need(uint64_t bytes, bool writing);

    public:
        stream() = default;

        explicit stream(FILE *fp, uint64_t buffer_size = 1024) : _file(fp) {
            (void) buffer_size;
            hzv_note(this);
        }

        stream(uint8_t *buf, uint64_t n) : _buf(buf), _size(n), _loaded(true) {}

        stream(const stream &) = delete;

        stream &operator=(const stream &) = delete;

        ~stream();

        // n <= 64 bits
        uint64_t read(uint64_t n);

        void write(uint64_t obj, uint64_t n);

        void seek(int64_t bits) { _pos += bits; }

        void seek_to(uint64_t bits) { _pos = bits; }

        uint64_t tell() const { return _pos; }

        uint64_t size() {
            load();
            return _file ? _img.size() : _size;
        }

        void flush();

        void close();

        // for the checks: the file stream opened last, and its current contents
        static inline stream *hzv_last{};

        __attribute__((disable_sanitizer_instrumentation, noinline)) static void hzv_note(stream *s) { hzv_last = s; }

        const std::vector<uint8_t> &hzv_image() {
            load();
            return _img;
        }
    };
}

#endif
