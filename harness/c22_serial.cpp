// C22: every serialisation helper against its reader and against an independent bit-level reference.
#include <cstdint>
#include <string>
#include <vector>
#include <hzip_core/utils/utils.h>
#include <hzip_core/blob/blob.h>
#include <loguru/loguru.hpp>
#include "mc.h"

const char *hzv_property = "C22";

// ---------------------------------------------------------------- 64-bit values as bytes
static void u64_case(uint64_t v) {
    rainman::ptr<uint8_t> b(8);
    hz_u64_to_u8buf(v, b);
    uint64_t r = 0;
    for (int i = 7; i >= 0; i--) r = r << 8 | b[i];
    if (r != v) mc::failf("64-bit value is stored wrongly", "%#llx", (unsigned long long) v);
    if (hz_u8buf_to_u64(b) != v) mc::failf("64-bit value is read back wrongly", "%#llx", (unsigned long long) v);
}

// ---------------------------------------------------------------- byte and word packing
static void pack_case(uint64_t n, unsigned salt) {
    rainman::ptr<uint8_t> a(n);
    for (uint64_t i = 0; i < n; i++) a[i] = (uint8_t) (salt == 0 ? 0 : salt == 1 ? 255 : i * 37 + salt * 11 + i / 256 + 1);
    auto w = hz_u8_to_u32ptr(a, n);
    if (w.size() != (n + 3) / 4) mc::failf("packed size is wrong", "%llu bytes", (unsigned long long) n);
    for (uint64_t i = 0; i < n; i++)
        if (((w[i / 4] >> (24 - 8 * (i & 3))) & 255) != a[i]) mc::failf("packing bytes loses one", "byte %llu of %llu", (unsigned long long) i, (unsigned long long) n);
    auto back = hz_u32_to_u8ptr(w, w.size());
    if (back.size() != w.size() * 4) mc::fail("unpacked size is wrong");
    for (uint64_t i = 0; i < n; i++)
        if (back[i] != a[i]) mc::failf("packed bytes are not restored", "byte %llu of %llu", (unsigned long long) i, (unsigned long long) n);
}

static void unpack_case(uint64_t n, unsigned salt) {
    rainman::ptr<uint32_t> a(n);
    for (uint64_t i = 0; i < n; i++) a[i] = (uint32_t) (salt == 0 ? 0 : salt == 1 ? ~0u : (i + 1) * 2654435761u * (salt + 1));
    auto b = hz_u32_to_u8ptr(a, n);
    auto r = hz_u8_to_u32ptr(b, b.size());
    if (r.size() != n) mc::fail("word round trip changes the size");
    for (uint64_t i = 0; i < n; i++) if (r[i] != a[i]) mc::failf("words are not restored", "word %llu of %llu", (unsigned long long) i, (unsigned long long) n);
}

// ---------------------------------------------------------------- prefix codes
static void gamma_case(uint64_t v) {
    auto c = hz_elias_gamma(v);
    if (c.n == 0 || c.n > 64) mc::failf("prefix code has a wrong length", "%llu", (unsigned long long) v);
    if (c.n < 64 && (c.obj >> c.n)) mc::failf("prefix code does not fit its length", "%llu", (unsigned long long) v);
    uint64_t pos = 0;
    // what follows in the stream must not matter: ones, then zeroes
    for (int follow = 0; follow < 2; follow++) {
        pos = 0;
        auto rd = [&](uint64_t k) {
            uint64_t r = 0;
            while (k--) {
                r = r << 1 | (pos < c.n ? (c.obj >> (c.n - 1 - pos)) & 1 : (uint64_t) follow);
                pos++;
                if (pos > 400) mc::failf("prefix code is not terminated", "%llu", (unsigned long long) v);
            }
            return r;
        };
        auto back = hz_elias_gamma_inv(rd);
        if (back.obj != v) mc::failf("prefix code is read back wrongly", "%llu -> %llu", (unsigned long long) v, (unsigned long long) back.obj);
        if (pos != c.n) mc::failf("prefix code reports a wrong size", "%llu", (unsigned long long) v);
    }
}

static void unary_case(uint64_t v) {
    std::string bits;
    hz_unary_write(v, [&](uint64_t o, uint8_t n) {
        if (n != 1) mc::fail("unary code writes several bits at once");
        bits += (char) ('0' + (o & 1));
        if (bits.size() > v + 10) mc::failf("unary code does not end", "%llu", (unsigned long long) v);
    });
    if (bits.size() != v) mc::failf("unary code has a wrong length", "%llu", (unsigned long long) v);
    size_t pos = 0;
    uint64_t r = hz_unary_read([&](uint8_t) -> uint64_t { return pos < bits.size() ? bits[pos++] - '0' : (pos++, 1); });
    if (r != v || pos != bits.size()) mc::failf("unary code is read back wrongly", "%llu -> %llu", (unsigned long long) v, (unsigned long long) r);
}

// ---------------------------------------------------------------- bit lists
static void bits_case(const std::vector<bin_t> &v) {
    std::string bits;
    for (auto &b: v) for (int i = (int) b.n - 1; i >= 0; i--) bits += (char) ('0' + ((b.obj >> i) & 1));
    auto raw = hz_vecbin_to_raw(v);
    if (raw.size() != (bits.size() + 7) / 8) mc::failf("bit list has a wrong size", "%zu bits, %llu bytes", bits.size(), (unsigned long long) raw.size());
    for (size_t i = 0; i < bits.size(); i++)
        if (((raw[i / 8] >> (7 - i % 8)) & 1) != bits[i] - '0') mc::failf("bit list is stored wrongly", "bit %zu of %zu", i, bits.size());
}

// ---------------------------------------------------------------- key/value headers
static void params_case(const std::vector<std::pair<std::string, std::string>> &kv) {
    HZ_Params p;
    for (auto &x: kv) p.params[x.first] = x.second;
    auto raw = p.to_byte_array();
    uint64_t bytes = 8;
    for (auto &x: p.params) bytes += 16 + x.first.size() + x.second.size();
    if (raw.size() != bytes) mc::fail("parameter list has a wrong size");
    auto q = HZ_Params::from_byte_array(raw);
    if (q.params != p.params) mc::fail("parameters are not restored");
    for (uint64_t cut = 0; cut < bytes; cut++) {
        rainman::ptr<uint8_t> part(cut);
        for (uint64_t i = 0; i < cut; i++) part[i] = raw[i];
        bool threw = false;
        try { HZ_Params::from_byte_array(part); } catch (std::exception &) { threw = true; }
        if (!threw) mc::failf("truncated parameters are read as if complete", "%llu of %llu bytes", (unsigned long long) cut, (unsigned long long) bytes);
    }
    mc::step(bytes + 1);
}

static void params_get() {
    HZ_Params p;
    p.params["a"] = "17";
    p.params["n"] = "-5";
    p.params["s"] = "text";
    p.params["big"] = "18446744073709551615";
    p.params["e"] = "";
    if (p.get<uint64_t>("a", "3") != 17 || p.get<uint64_t>("x", "3") != 3 || p.get<int64_t>("n", "3") != -5 || p.get<int64_t>("x", "-3") != -3
        || p.get<std::string>("s", "d") != "text" || p.get<std::string>("x", "d") != "d" || p.get<std::string>("e", "d") != ""
        || p.get<uint64_t>("big", "0") != ~0ull) mc::fail("a parameter is read wrongly");
    try { p.get<uint64_t>("s", "3"); mc::fail("a non-numeric parameter is accepted as a number"); } catch (std::logic_error &) {}
    if (p.params.size() != 5) mc::fail("reading parameters changes them");
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    mc::Opts o;
    {
        std::vector<uint64_t> v;
        for (int i = 0; i < 64; i++) for (int j = i; j < 64; j++) for (int s = 0; s < 2; s++) {
            uint64_t x = (1ull << i) | (1ull << j);
            v.push_back(s ? ~x : x);
        }
        for (int sh = 0; sh < 64; sh += 8) for (uint64_t b = 0; b < 256; b++) for (uint64_t c: {0x0ull, 0x5a5a5a5a5a5a5a5aull, ~0ull}) v.push_back((c & ~(255ull << sh)) | b << sh);
        for (uint64_t x = 0; x < (th ? 2000000u : 200000u); x++) v.push_back(x);
        o.bounds = "values with at most two bits set or clear, every byte at every position in three contexts, all values below " + std::string(th ? "2000000" : "200000");
        mc::enumerate("64-bit values", v.size(), [&](uint64_t i) { u64_case(v[i]); }, o);
    }
    {
        uint64_t n = th ? 4200 : 1100;
        o.bounds = "every length up to " + std::to_string(n) + ", 4 contents";
        mc::enumerate("bytes to words", n * 4, [](uint64_t i) { pack_case(i / 4, i % 4); }, o);
        mc::enumerate("words to bytes", n * 4, [](uint64_t i) { unpack_case(i / 4, i % 4); }, o);
        // every content of up to 2 bytes at every position in a word
        o.bounds = "every pair of byte values at every position of two words";
        mc::enumerate("byte contents", 65536, [](uint64_t i) {
            for (int p = 0; p < 7; p++) {
                rainman::ptr<uint8_t> a(8);
                for (int k = 0; k < 8; k++) a[k] = (uint8_t) (k * 19);
                a[p] = i >> 8;
                a[p + 1] = i & 255;
                auto b = hz_u32_to_u8ptr(hz_u8_to_u32ptr(a, 8), 2);
                for (int k = 0; k < 8; k++) if (a[k] != b[k]) mc::fail("packed bytes are not restored");
            }
        }, o);
    }
    {
        std::vector<uint64_t> v;
        for (uint64_t i = 0; i < (th ? (1u << 22) : (1u << 19)); i++) v.push_back(i);
        for (int b = 1; b < 31; b++) for (int64_t d = -300; d <= 300; d++) { int64_t x = (1ll << b) + d; if (x >= 0 && x < (1ll << 31)) v.push_back(x); }
        for (int64_t d = 1; d <= 300; d++) v.push_back((1ull << 31) - d);
        o.bounds = "all integers below 2^19 (2^22), 300 around every power of two up to 2^31 (longer codes do not fit the 64-bit result)";
        mc::enumerate("gamma code", v.size(), [&](uint64_t i) { gamma_case(v[i]); }, o);
        o.bounds = "1.." + std::string(th ? "20000" : "4000");
        mc::enumerate("unary code", th ? 20000 : 4000, [](uint64_t i) { unary_case(i + 1); }, o);
    }
    {
        // all width sequences of length <= 3 out of 65 widths (4 over boundary widths)
        o.bounds = "all sequences of up to 3 entries of widths 0..64, 5 over 8 boundary widths; contents all ones / alternating / with rubbish above the width";
        auto val = [](uint64_t i, unsigned n, unsigned s) -> uint64_t {
            uint64_t m = n >= 64 ? ~0ull : (1ull << n) - 1;
            if (s == 0) return m;
            if (s == 1) return (0xa5c3f00f12345678ull * (i + 1)) & m;
            return 0xa5c3f00f12345678ull * (i + 1);
        };
        mc::enumerate("bit lists", 65 * 65 * 65, [&](uint64_t i) {
            unsigned w[3] = {(unsigned) (i % 65), (unsigned) (i / 65 % 65), (unsigned) (i / 4225)};
            for (unsigned s = 0; s < 3; s++) {
                std::vector<bin_t> v;
                for (int k = 0; k < 3; k++) v.push_back(bin_t{.obj = val(k + i, w[k], s), .n = w[k]});
                bits_case(v);
                v.pop_back();
                bits_case(v);
                v.pop_back();
                bits_case(v);
            }
        }, o);
        static const unsigned W[8] = {1, 3, 7, 8, 9, 32, 33, 64};
        mc::enumerate("long bit lists", 8 * 8 * 8 * 8 * 8, [&](uint64_t i) {
            std::vector<bin_t> v;
            uint64_t x = i;
            for (int k = 0; k < 5; k++, x /= 8) v.push_back(bin_t{.obj = val(k + i, W[x % 8], 1), .n = W[x % 8]});
            bits_case(v);
        }, o);
        mc::enumerate("empty bit list", 1, [&](uint64_t) { bits_case({}); }, o);
    }
    {
        std::vector<std::string> T = {"", "a", "b", "ab", std::string("\0", 1), "\xff", std::string("x\0y\x80", 4), std::string(300, 'q'), "\n", std::string(255, '\xfe')};
        o.bounds = "all lists of up to 2 entries over 10 keys and 10 values, truncated at every byte; 3 entries over 5x5";
        mc::enumerate("parameters", 1 + 100 + 10000, [&](uint64_t i) {
            std::vector<std::pair<std::string, std::string>> kv;
            if (i > 0 && i <= 100) kv.push_back({T[(i - 1) / 10], T[(i - 1) % 10]});
            if (i > 100) { uint64_t x = i - 101; kv.push_back({T[x / 1000], T[x / 100 % 10]}); kv.push_back({T[x / 10 % 10], T[x % 10]}); }
            params_case(kv);
        }, o);
        // every byte value in key and value
        mc::enumerate("parameter bytes", 65536, [&](uint64_t i) { 
            HZ_Params p;
            p.params[std::string(1, (char) (i >> 8))] = std::string(1, (char) i);
            if (HZ_Params::from_byte_array(p.to_byte_array()).params != p.params) mc::fail("parameters are not restored");
        }, o);
        // a count or a length larger than what follows
        mc::enumerate("oversized counts", 64, [&](uint64_t i) {
            HZ_Params p;
            p.params["key"] = "value";
            auto raw = p.to_byte_array();
            for (uint64_t at: {0u, 8u, 19u}) {
                rainman::ptr<uint8_t> r(raw.size());
                for (uint64_t k = 0; k < raw.size(); k++) r[k] = raw[k];
                r[at + i / 8] |= (uint8_t) (0x80 >> (i % 8));
                if (r[at + i / 8] == raw[at + i / 8]) continue;
                // (bounded by what the buffer holds: a huge length ends at the end of the buffer)
                bool threw = false;
                try { HZ_Params::from_byte_array(r); } catch (std::exception &) { threw = true; }
                if (!threw) mc::fail("oversized counts are accepted");
            }
        }, o);
        mc::enumerate("typed parameters", 1, [&](uint64_t) { params_get(); }, o);
    }
}
