#include "bitio.h"
#include <cstring>

// The explorer may want to see (and schedule, or fail) the stream's file accesses.
extern "C" __attribute__((weak)) void hzv_io_point(const char *what);

namespace bitio {
    void stream::load() {
        if (_loaded) return;
        if (!_file) throw bitio_exception("bitio: stream is not open");
        if (hzv_io_point) hzv_io_point("bitio.load");
        _loaded = true;
        uint8_t tmp[4096];
        fseek(_file, 0, SEEK_SET);
        size_t k;
        while ((k = fread(tmp, 1, sizeof tmp, _file)) > 0) _img.insert(_img.end(), tmp, tmp + k);
        clearerr(_file);
    }

    void stream::need(uint64_t bytes, bool writing) {
        load();
        if (_buf) {
            if (bytes > _size) throw bitio_exception("bitio: end of buffer");
        } else if (bytes > _img.size()) {
            if (!writing) throw bitio_exception("bitio: end of file");
            if (bytes > (1ull << 30)) throw bitio_exception("bitio: file too large");
            _img.resize(bytes);
        }
    }

    uint64_t stream::read(uint64_t n) {
        if (n == 0) return 0;
        if (n > 64 || _pos > (1ull << 40)) throw bitio_exception("bitio: bad read");
        need((_pos + n + 7) >> 3, false);
        const uint8_t *b = _buf ? _buf : _img.data();
        if (n == 8 && (_pos & 7) == 0) {
            _pos += 8;
            return b[(_pos >> 3) - 1];
        }
        uint64_t v = 0;
        while (n > 0) {
            uint64_t in = _pos & 7, take = 8 - in < n ? 8 - in : n;
            uint64_t bits = (uint64_t(b[_pos >> 3]) >> (8 - in - take)) & ((1u << take) - 1);
            v = (v << take) | bits;
            _pos += take;
            n -= take;
        }
        return v;
    }

    void stream::write(uint64_t obj, uint64_t n) {
        if (n == 0) return;
        if (n > 64 || _pos > (1ull << 40)) throw bitio_exception("bitio: bad write");
        need((_pos + n + 7) >> 3, true);
        uint8_t *b = _buf ? _buf : _img.data();
        if (!_buf) {
            uint64_t f = _pos >> 3, l = (_pos + n - 1) >> 3;
            if (f < _lo) _lo = f;
            if (l + 1 > _hi) _hi = l + 1;
        }
        while (n > 0) {
            uint64_t in = _pos & 7, take = 8 - in < n ? 8 - in : n;
            uint64_t bits = (obj >> (n - take)) & ((1u << take) - 1);
            uint8_t sh = 8 - in - take;
            uint8_t mask = uint8_t(((1u << take) - 1) << sh);
            b[_pos >> 3] = uint8_t((b[_pos >> 3] & ~mask) | (bits << sh));
            _pos += take;
            n -= take;
        }
    }

    void stream::flush() {
        if (!_file || !_loaded) return;
        if (hzv_io_point) hzv_io_point("bitio.flush");
        if (_lo < _hi) {
            fseek(_file, (long) _lo, SEEK_SET);
            fwrite(_img.data() + _lo, 1, _hi - _lo, _file);
            _lo = UINT64_MAX;
            _hi = 0;
        }
        fflush(_file);
    }

    void stream::close() {
        flush();
        if (_file) fclose(_file);
        _file = nullptr;
        _loaded = false;
        _img.clear();
    }

    // What was not flushed is not persistent; the handle itself is released.
    stream::~stream() {
        if (_file) fclose(_file);
    }
}
