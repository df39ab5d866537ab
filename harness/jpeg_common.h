// An independent JPEG writer: quantised coefficients in, a file out (sequential and progressive Huffman coding).
#pragma once
#include <cstdint>
#include <cstdlib>
#include <string>
#include <vector>
#include <array>
#include <algorithm>

namespace jw {
using B = std::vector<uint8_t>;
using Block = std::array<int, 64>; // natural order
inline const int zz[64] = {0, 1, 8, 16, 9, 2, 3, 10, 17, 24, 32, 25, 18, 11, 4, 5, 12, 19, 26, 33, 40, 48, 41, 34, 27, 20, 13, 6, 7, 14, 21, 28, 35, 42, 49, 56, 57, 50, 43, 36, 29, 22, 15, 23, 30, 37, 44, 51, 58, 59, 52, 45, 38, 31, 39, 46, 53, 60, 61, 54, 47, 55, 62, 63};

struct Comp { int id, h, v, tq; uint32_t bw = 0, bh = 0; std::vector<Block> b{}; };
struct Jpeg {
    uint32_t w, h;
    std::vector<Comp> c;
    std::array<std::array<uint16_t, 64>, 4> q{}; // natural order
    bool has[4] = {false, false, false, false};
    int hmax() const { int m = 1; for (auto &x : c) m = std::max(m, x.h); return m; }
    int vmax() const { int m = 1; for (auto &x : c) m = std::max(m, x.v); return m; }
    // fits one scan
    bool joint() const { int n = 0; for (auto &x : c) n += x.h * x.v; return c.size() <= 4 && n <= 10; }
    void shape() { for (auto &x : c) { x.bw = (w * x.h + 8 * hmax() - 1) / (8 * hmax()); x.bh = (h * x.v + 8 * vmax() - 1) / (8 * vmax()); x.b.assign(x.bw * x.bh, Block{}); } }
};
struct Style {
    bool interleaved = true;
    int restart = 0;      // MCUs between restart markers
    int progressive = 0;  // 1: spectral selection, 2: with successive approximation
    int jfif = 1, adobe = -1; // adobe: transform
    bool comments = false, fill = false;
    int pad = 0;          // what the blocks beyond the component contain
};

struct Writer {
    B o;
    uint32_t acc = 0; int n = 0;
    void byte(int x) { o.push_back((uint8_t) x); }
    void word(int x) { byte(x >> 8); byte(x & 255); }
    void put(uint32_t v, int l) { for (int i = l - 1; i >= 0; i--) { acc = acc << 1 | ((v >> i) & 1); if (++n == 8) { byte(acc); if ((acc & 255) == 255) byte(0); acc = 0; n = 0; } } }
    void flush() { while (n) put(1, 1); }
    // a table with a code for every symbol: 16 codes of 5 bits for DC; 128 of 9 and 128 of 10 bits for AC
    void dc(int s) { put(s, 5); }
    void ac(int s) { s < 128 ? put(s, 9) : put(256 + s - 128, 10); }
    static int cat(int v) { v = std::abs(v); int n = 0; while (v) { n++; v >>= 1; } return n; }
    void value(int v) { int c = cat(v); put((v < 0 ? v - 1 : v) & ((1 << c) - 1), c); }
    void diff(int d) { dc(cat(d)); value(d); }
    void seq(const Block &b, int &last) {
        diff(b[0] - last); last = b[0];
        int r = 0;
        for (int k = 1; k < 64; k++) {
            int v = b[zz[k]];
            if (!v) { r++; continue; }
            while (r > 15) { ac(0xF0); r -= 16; }
            ac(r << 4 | cat(v)); value(v); r = 0;
        }
        if (r) ac(0);
    }
    int eobrun = 0;
    void eob() { if (eobrun) { int r = 0; while (eobrun >> (r + 1)) r++; ac(r << 4); put(eobrun & ((1 << r) - 1), r); eobrun = 0; } }
    void acfirst(const Block &b, int ss, int se, int al) {
        int r = 0;
        for (int k = ss; k <= se; k++) {
            int v = b[zz[k]]; v = v < 0 ? -(-v >> al) : v >> al;
            if (!v) { r++; continue; }
            eob();
            while (r > 15) { ac(0xF0); r -= 16; }
            ac(r << 4 | cat(v)); value(v); r = 0;
        }
        if (r && ++eobrun == 0x7fff) eob();
    }
    void acrefine(const Block &b, int ss, int se, int al) {
        int end = 0, r = 0; std::vector<int> br;
        auto fl = [&] { for (int x : br) put(x, 1); br.clear(); };
        for (int k = ss; k <= se; k++) if (std::abs(b[zz[k]]) >> al == 1) end = k;
        for (int k = ss; k <= se; k++) {
            int v = b[zz[k]], a = std::abs(v) >> al;
            if (!a) { r++; continue; }
            while (r > 15 && k <= end) { ac(0xF0); fl(); r -= 16; }
            if (a > 1) { br.push_back(a & 1); continue; }
            ac(r << 4 | 1); put(v > 0, 1); fl(); r = 0;
        }
        if (r || br.size()) { ac(0); fl(); }
    }
};

inline B write(const Jpeg &m, const Style &s) {
    Writer w;
    auto marker = [&](int x) { if (s.fill) w.byte(255); w.byte(255); w.byte(x); };
    w.byte(255); w.byte(0xD8);
    if (s.jfif) { marker(0xE0); w.word(16); for (char c : {'J', 'F', 'I', 'F', '\0'}) w.byte(c); w.word(0x0102); w.byte(1); w.word(300); w.word(72); w.word(0); }
    if (s.adobe >= 0) { marker(0xEE); w.word(14); for (char c : {'A', 'd', 'o', 'b', 'e'}) w.byte(c); w.word(100); w.word(0); w.word(0); w.byte(s.adobe); }
    if (s.comments) { marker(0xFE); w.word(5); w.byte('a'); w.byte(255); w.byte(0xD9); marker(0xE5); w.word(2); }
    for (int t = 0; t < 4; t++) if (m.has[t]) {
        bool big = false; for (int x : m.q[t]) big |= x > 255;
        marker(0xDB); w.word(big ? 131 : 67); w.byte((big ? 16 : 0) | t);
        for (int k = 0; k < 64; k++) big ? w.word(m.q[t][zz[k]]) : w.byte(m.q[t][zz[k]]);
    }
    marker(s.progressive ? 0xC2 : 0xC1); w.word(8 + 3 * m.c.size()); w.byte(8); w.word(m.h); w.word(m.w); w.byte(m.c.size());
    for (auto &c : m.c) { w.byte(c.id); w.byte(c.h << 4 | c.v); w.byte(c.tq); }
    marker(0xC4); w.word(19 + 16); w.byte(0); for (int l = 1; l <= 16; l++) w.byte(l == 5 ? 16 : 0); for (int i = 0; i < 16; i++) w.byte(i);
    marker(0xC4); w.word(19 + 256); w.byte(16); for (int l = 1; l <= 16; l++) w.byte(l == 9 || l == 10 ? 128 : 0); for (int i = 0; i < 256; i++) w.byte(i);
    if (s.restart) { marker(0xDD); w.word(4); w.word(s.restart); }

    uint32_t mx = (m.w + 8 * m.hmax() - 1) / (8 * m.hmax()), my = (m.h + 8 * m.vmax() - 1) / (8 * m.vmax());
    auto scan = [&](std::vector<int> cs, int ss, int se, int ah, int al) {
        marker(0xDA); w.word(6 + 2 * cs.size()); w.byte(cs.size());
        for (int c : cs) { w.byte(m.c[c].id); w.byte(0); }
        w.byte(ss); w.byte(se); w.byte(ah << 4 | al);
        std::vector<int> last(m.c.size(), 0);
        auto block = [&](int c, const Block &b) {
            if (!s.progressive) w.seq(b, last[c]);
            else if (ss) ah ? w.acrefine(b, ss, se, al) : w.acfirst(b, ss, se, al);
            else if (ah) w.put((b[0] >> al) & 1, 1);
            else { int v = b[0] >> al; w.diff(v - last[c]); last[c] = v; }
        };
        uint32_t done = 0, rst = 0;
        auto mcu = [&](auto body) {
            if (s.restart && done && done % s.restart == 0) { w.eob(); w.flush(); w.byte(255); w.byte(0xD0 + (rst++ & 7)); last.assign(m.c.size(), 0); }
            body(); done++;
        };
        if (cs.size() == 1) for (auto &b : m.c[cs[0]].b) mcu([&] { block(cs[0], b); });
        else for (uint32_t y = 0; y < my; y++) for (uint32_t x = 0; x < mx; x++) mcu([&] {
            for (int ci : cs) { auto &c = m.c[ci]; for (int v = 0; v < c.v; v++) for (int h = 0; h < c.h; h++) {
                uint32_t bx = x * c.h + h, by = y * c.v + v;
                if (bx < c.bw && by < c.bh) block(ci, c.b[by * c.bw + bx]);
                else { Block p{}; p[0] = s.pad; p[9] = s.pad & 7; block(ci, p); }
            } }
        });
        w.eob(); w.flush();
    };
    std::vector<int> all; for (size_t i = 0; i < m.c.size(); i++) all.push_back(i);
    std::vector<std::vector<int>> groups;
    if (s.interleaved && m.joint()) groups.push_back(all); else for (int i : all) groups.push_back({i});
    if (!s.progressive) for (auto &g : groups) scan(g, 0, 63, 0, 0);
    else {
        int al = s.progressive == 2 ? 1 : 0;
        for (auto &g : groups) scan(g, 0, 0, 0, al);
        for (int i : all) { scan({i}, 1, 5, 0, al * 2); scan({i}, 6, 63, 0, al); }
        if (al) { for (int i : all) { scan({i}, 1, 5, 2, 1); } for (auto &g : groups) scan(g, 0, 0, 1, 0); for (int i : all) scan({i}, 1, 63, 1, 0); }
    }
    marker(0xD9);
    return w.o;
}
}
