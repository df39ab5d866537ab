// An independent PNG writer (stored deflate blocks, all filters, Adam7) for the checks of the image code.
#ifndef PNG_COMMON_H
#define PNG_COMMON_H
#include <cstdint>
#include <string>
#include <vector>

namespace pngw {
    typedef std::vector<uint8_t> B;
    inline uint32_t crc(const uint8_t *p, size_t n) {
        uint32_t c = 0xffffffffu;
        for (size_t i = 0; i < n; i++) { c ^= p[i]; for (int k = 0; k < 8; k++) c = c & 1 ? 0xedb88320u ^ c >> 1 : c >> 1; }
        return ~c;
    }
    inline void be32(B &b, uint32_t v) { for (int s = 24; s >= 0; s -= 8) b.push_back(v >> s); }
    struct Chunk { std::string type; B data; };
    inline B file(const std::vector<Chunk> &chunks) {
        B b = {0x89, 'P', 'N', 'G', 13, 10, 26, 10};
        for (auto &c: chunks) {
            be32(b, c.data.size());
            size_t at = b.size();
            b.insert(b.end(), c.type.begin(), c.type.end());
            b.insert(b.end(), c.data.begin(), c.data.end());
            be32(b, crc(b.data() + at, b.size() - at));
        }
        return b;
    }
    inline B zlib(const B &raw, size_t block) {
        B z = {0x78, 0x01};
        size_t i = 0;
        do {
            size_t n = std::min(block, raw.size() - i);
            z.push_back(i + n == raw.size());
            z.push_back(n); z.push_back(n >> 8); z.push_back(~n); z.push_back(~n >> 8);
            z.insert(z.end(), raw.begin() + i, raw.begin() + i + n);
            i += n;
        } while (i < raw.size());
        uint32_t a = 1, b = 0;
        for (auto x: raw) { a = (a + x) % 65521; b = (b + a) % 65521; }
        be32(z, b << 16 | a);
        return z;
    }

    struct Image {
        uint32_t w, h;
        int type, depth;                       // colour type as in IHDR
        std::vector<uint16_t> s;               // planar
        std::vector<uint8_t> palette;          // r g b ...
        int channels() const { return type == 0 || type == 3 ? 1 : type == 2 ? 3 : type == 4 ? 2 : 4; }
    };
    struct Style { int interlace = 0, filter = 0; size_t idat = 1 << 20; int extra = 0; size_t block = 65535; };

    inline void rows(const Image &m, const Style &st, uint32_t x0, uint32_t y0, uint32_t dx, uint32_t dy, B &raw) {
        int ch = m.channels();
        uint32_t pw = m.w > x0 ? (m.w - x0 + dx - 1) / dx : 0, ph = m.h > y0 ? (m.h - y0 + dy - 1) / dy : 0;
        if (!pw || !ph) return;
        size_t bits = (size_t) ch * m.depth, stride = (pw * bits + 7) / 8, bpp = bits < 8 ? 1 : bits / 8;
        B prev(stride);
        for (uint32_t y = 0; y < ph; y++) {
            B row(stride);
            size_t bit = 0;
            for (uint32_t x = 0; x < pw; x++) for (int c = 0; c < ch; c++) {
                uint16_t v = m.s[(size_t) c * m.w * m.h + (size_t) (y0 + y * dy) * m.w + x0 + x * dx];
                for (int k = m.depth - 1; k >= 0; k--, bit++) row[bit / 8] |= (v >> k & 1) << (7 - bit % 8);
            }
            int f = st.filter == 5 ? (y + x0) % 5 : st.filter;
            raw.push_back(f);
            for (size_t i = 0; i < stride; i++) {
                int a = i >= bpp ? row[i - bpp] : 0, b = prev[i], c = i >= bpp ? prev[i - bpp] : 0, p = a + b - c;
                int pa = std::abs(p - a), pb = std::abs(p - b), pc = std::abs(p - c);
                int paeth = pa <= pb && pa <= pc ? a : pb <= pc ? b : c;
                raw.push_back(row[i] - (f == 0 ? 0 : f == 1 ? a : f == 2 ? b : f == 3 ? (a + b) / 2 : paeth));
            }
            prev = row;
        }
    }
    inline std::vector<Chunk> chunks(const Image &m, const Style &st) {
        std::vector<Chunk> out;
        B h;
        be32(h, m.w); be32(h, m.h);
        h.push_back(m.depth); h.push_back(m.type); h.push_back(0); h.push_back(0); h.push_back(st.interlace);
        out.push_back({"IHDR", h});
        if (st.extra & 1) out.push_back({"gAMA", {0, 0, 0xb1, 0x8f}});
        if (m.type == 3) out.push_back({"PLTE", m.palette});
        if (st.extra & 2) {
            if (m.type == 3) out.push_back({"tRNS", {0, 128}});
            else if (m.type == 0) out.push_back({"tRNS", {0, 1}});
            else if (m.type == 2) out.push_back({"tRNS", {0, 1, 0, 1, 0, 0}});
        }
        if (st.extra & 4) out.push_back({"tEXt", {'k', 0, 'v'}}), out.push_back({"prVt", {1, 2, 3}});
        if ((st.extra & 8) && m.type == 2) out.push_back({"PLTE", {9, 8, 7, 6, 5, 4}});
        B raw;
        if (!st.interlace) rows(m, st, 0, 0, 1, 1, raw);
        else {
            static const int p[7][4] = {{0, 0, 8, 8}, {4, 0, 8, 8}, {0, 4, 4, 8}, {2, 0, 4, 4}, {0, 2, 2, 4}, {1, 0, 2, 2}, {0, 1, 1, 2}};
            for (auto &q: p) rows(m, st, q[0], q[1], q[2], q[3], raw);
        }
        B z = zlib(raw, st.block);
        for (size_t i = 0; i < z.size(); i += st.idat) out.push_back({"IDAT", B(z.begin() + i, z.begin() + std::min(z.size(), i + st.idat))});
        if (st.extra & 4) out.push_back({"tEXt", {'e', 0, 'w'}});
        out.push_back({"IEND", {}});
        return out;
    }
    inline B write(const Image &m, const Style &st = {}) { return file(chunks(m, st)); }

    struct Kind { int type, depth; };
    inline const std::vector<Kind> &kinds() {
        static std::vector<Kind> k = {{0, 1}, {0, 2}, {0, 4}, {0, 8}, {0, 16}, {2, 8}, {2, 16}, {3, 1}, {3, 2}, {3, 4}, {3, 8}, {4, 8}, {4, 16}, {6, 8}, {6, 16}};
        return k;
    }
    inline Image image(uint32_t w, uint32_t h, Kind k, int pat) {
        Image m{w, h, k.type, k.depth, {}, {}};
        size_t n = (size_t) w * h * m.channels();
        uint32_t mask = (1u << k.depth) - 1;
        m.s.resize(n);
        for (size_t i = 0; i < n; i++) m.s[i] = (pat == 0 ? i * 2654435761u >> 7 : pat == 1 ? i : pat == 2 ? (i % 3 ? mask : 0) : mask) & mask;
        if (k.type == 3) for (uint32_t i = 0; i < 3u << k.depth; i++) m.palette.push_back(i * 37 + pat);
        return m;
    }
}
#endif
