// C13: the entropy coder. All normalised tables of a bounded family, all symbol sequences over them, every boundary state of
// the coder, coupled tables, long and skewed streams.
#include <hzip_core/kernel/hzrans/hzrans64_codec.h>
#include "mc.h"
#include <numeric>

const char *hzv_property = "C13";

typedef std::vector<uint64_t> U;
static std::string show(const U &v) {
    std::string s = "[";
    for (size_t i = 0; i < v.size() && i < 30; i++) s += " " + std::to_string(v[i]);
    return s + (v.size() > 30 ? " ...]" : " ]");
}

struct St {    // a coder state that gives its memory back
    hzrans64_t s;
    St(uint64_t size, uint64_t scale) { hzrans64_codec_init(&s, size, scale); }
    ~St() { hzrans64_destroy(&s); }
};

static U normalise(const U &freq, uint64_t scale) {
    St t(freq.size(), scale), u(freq.size(), scale);
    std::unique_ptr<uint64_t[]> f(new uint64_t[freq.size()]);
    for (size_t i = 0; i < freq.size(); i++) f[i] = u.s.ftable[i] = freq[i];
    hzrans64_create_ftable_nf(&t.s, f.get());
    hzrans64_create_ftable_nf(&u.s, u.s.ftable);      // the image coder normalises in place
    U r(t.s.ftable, t.s.ftable + freq.size());
    std::string ctx = "frequencies " + show(freq) + " scale " + std::to_string(scale) + " give " + show(r);
    unsigned __int128 sum = 0;
    for (size_t i = 0; i < freq.size(); i++) {
        if (r[i] == 0) mc::fail("normalisation leaves a zero entry", ctx);
        if (u.s.ftable[i] != r[i]) mc::fail("normalising in place differs", ctx);
        if (f[i] != freq[i]) mc::fail("normalisation changes its input", ctx);
        sum += r[i];
    }
    if (sum != (unsigned __int128) 1 << scale) mc::fail("normalised table has the wrong total", ctx);
    return r;
}

// The direct interface: as many coders' worth of tables as the sequence asks for.
struct Direct {
    HZ_Stack<uint32_t> stack;
    void roundtrip(const std::vector<const U *> &tab, const U &seq, uint64_t scale, const char *what) {
        St e(tab[0]->size(), scale);
        uint64_t x0 = e.s.x;
        for (size_t i = seq.size(); i--;) {
            memcpy(e.s.ftable, tab[i]->data(), tab[i]->size() * 8);
            hzrans64_add_to_seq(&e.s, seq[i]);
            hzrans64_encode_s(&e.s, &stack);
        }
        hzrans64_enc_flush(&e.s, &stack);
        uint64_t n = e.s.count;
        if (stack.size() != n) mc::failf("word count differs from the stream", "%s: %lu counted, %lu written", what, n, stack.size());
        auto data = rainman::ptr<uint32_t>(n);
        for (uint64_t i = 0; i < n; i++) { data[i] = stack.top(); stack.pop(); }
        St d(tab[0]->size(), scale);
        hzrans64_dec_load_state(&d.s, data);
        for (size_t i = 0; i < seq.size(); i++) {
            memcpy(d.s.ftable, tab[i]->data(), tab[i]->size() * 8);
            uint64_t sym = hzrans64_inv_bs(&d.s, d.s.x & d.s.mask);
            if (sym != seq[i]) mc::failf("decoded symbol differs", "%s: symbol %zu of %s is %lu, scale %lu, table %s", what, i, show(seq).c_str(), sym, scale, show(*tab[i]).c_str());
            hzrans64_add_to_seq(&d.s, sym);
            hzrans64_decode_s(&d.s, data);
        }
        if (d.s.x != x0) mc::failf("decoder does not end in the initial state", "%s: %s scale %lu ends in %lx", what, show(seq).c_str(), scale, d.s.x);
        if (d.s.count != n) mc::failf("decoder leaves part of the stream", "%s: %s: %lu of %lu words read", what, show(seq).c_str(), d.s.count, n);
        mc::outcome(mc::hash_bytes(&data[0], n * 4, scale));
    }
};

static Direct &direct() { static thread_local Direct d; return d; }

// The encoder and decoder objects, driven the way the codecs drive them (cross codecs chosen by the caller).
static void objects(const std::vector<const U *> &tab, const U &seq, uint64_t scale, bool context_decoder) {
    uint64_t K = tab[0]->size(), n = seq.size();
    auto cum = [](const U &t, uint64_t s) { return std::accumulate(t.begin(), t.begin() + s, (uint64_t) 0); };
    hzrans64_encoder enc;
    enc.set_header(K, scale, n);
    enc.set_size(n);
    uint64_t i = n, calls = 0;
    enc.set_cross_encoder([&](const rainman::ptr<hzrans64_t> &state, const rainman::ptr<HZ_Stack<uint32_t>> &) {
        i--;
        calls++;
        state->ls = (*tab[i])[seq[i]];
        state->bs = cum(*tab[i], seq[i]);
    });
    auto out = enc.encode();
    if (calls != n) mc::fail("encoder does not ask for every symbol once", std::to_string(calls) + " of " + std::to_string(n));
    if (out.data.size() != out.n) mc::fail("word count differs from the stream", std::to_string(out.n) + " of " + std::to_string(out.data.size()));
    hzrans64_decoder dec;
    dec.set_header(K, scale, n);
    auto sym = rainman::ptr<uint64_t>();
    if (context_decoder) dec.override_symbol_ptr(sym);
    uint64_t j = 0;
    rainman::option<rainman::ptr<hzrans64_t>> keep;
    U got;
    dec.set_cross_decoder([&](const rainman::ptr<hzrans64_t> &state, const rainman::ptr<HZ_Stack<uint32_t>> &) {
        const U &t = *tab[j++];
        uint64_t bs = state->x & state->mask, s = 0, c = 0;
        while (s + 1 < K && c + t[s] <= bs) c += t[s++];
        state->ls = t[s];
        state->bs = c;
        *sym = s;
        got.push_back(s);
        keep = state;
    });
    auto res = dec.decode(out.data);
    if (res.n != n || res.data.size() != n) mc::fail("decoder reports a wrong length", std::to_string(res.n) + " for " + std::to_string(n));
    for (uint64_t k = 0; k < n; k++) {
        if (got[k] != seq[k]) mc::fail("decoded symbol differs", "objects: symbol " + std::to_string(k) + " of " + show(seq) + " is " + std::to_string(got[k]));
        if (context_decoder && res.data[k] != seq[k]) mc::fail("decoder does not return the symbol of the cross decoder", show(seq));
    }
    if (keep.is_some()) {
        auto &s = keep.inner();
        if (s->x != s->lower_bound) mc::fail("decoder does not end in the initial state", "objects: " + show(seq));
        if (s->count != out.n) mc::fail("decoder leaves part of the stream", "objects: " + show(seq));
    }
}

void hzv_main() {
    bool th = mc::thorough();
    // 1. normalisation
    static const uint64_t F[] = {0, 1, 2, 7, 255, 65535, 1ull << 32};
    const int NF = 7;
    for (int K = 1; K <= (th ? 6 : 5); K++) {
        uint64_t N = 1;
        for (int i = 0; i < K; i++) N *= NF;
        mc::Opts o;
        o.bounds = "all frequency vectors of " + std::to_string(K) + " entries over {0,1,2,7,255,65535,2^32}, every scale from the smallest that fits to 31";
        mc::enumerate("normalise-" + std::to_string(K), N, [&](uint64_t i) {
            U f;
            for (int k = 0; k < K; k++) { f.push_back(F[i % NF]); i /= NF; }
            mc::logf("frequencies %s", show(f).c_str());
            for (uint64_t sc = 0; sc <= 31; sc++) if ((1ull << sc) >= (uint64_t) K) {
                U t = normalise(f, sc);
                mc::outcome(mc::hash_bytes(t.data(), t.size() * 8));
                mc::step();
            }
        }, o);
    }
    {
        mc::Opts o;
        o.bounds = "alphabets of 2..300 and 65536 entries, 8 families of frequencies, every scale from the smallest that fits to 31";
        std::vector<int> Ks;
        for (int k = 2; k <= 300; k++) Ks.push_back(k);
        Ks.push_back(65536);
        mc::enumerate("normalise-wide", Ks.size() * 8, [&](uint64_t i) {
            int K = Ks[i / 8], fam = i % 8;
            U f(K);
            for (int k = 0; k < K; k++) switch (fam) {
                case 0: f[k] = 0; break;
                case 1: f[k] = k; break;
                case 2: f[k] = k == 0 ? 1ull << 32 : 0; break;
                case 3: f[k] = k == K - 1 ? 1ull << 32 : 1; break;
                case 4: f[k] = 1ull << 31; break;
                case 5: f[k] = (k * 2654435761u) >> 8; break;
                case 6: f[k] = k & 1 ? 3 : 0; break;
                default: f[k] = 1ull << (k % 31);
            }
            mc::logf("frequencies %s of %d", show(f).c_str(), K);
            for (uint64_t sc = 0; sc <= 31; sc++) if ((1ull << sc) >= (uint64_t) K) { normalise(f, sc); mc::step(); }
        }, o);
    }
    // 2. every table with total 2^scale, every symbol, every boundary state: one step and back
    {
        struct C { int K, scale; };
        std::vector<C> cs = {{1, 0}, {1, 4}, {2, 1}, {2, 3}, {2, 5}, {3, 2}, {3, 4}, {4, 4}, {5, 3}};
        if (th) { cs.push_back({3, 6}); cs.push_back({4, 5}); cs.push_back({8, 4}); }
        for (auto c: cs) {
            std::vector<U> tabs;
            U cur;
            std::function<void(int, uint64_t)> gen = [&](int k, uint64_t left) {
                if (k == 1) { cur.push_back(left); tabs.push_back(cur); cur.pop_back(); return; }
                for (uint64_t v = 1; v + k - 1 <= left; v++) { cur.push_back(v); gen(k - 1, left - v); cur.pop_back(); }
            };
            gen(c.K, 1ull << c.scale);
            int len = c.K == 1 ? 12 : c.K == 2 ? 6 : c.K == 3 ? 4 : c.K == 8 ? 2 : 3;
            if (th && c.K > 1 && c.K < 8) len++;
            uint64_t words = 1;
            for (int i = 0; i < len; i++) words *= c.K;
            mc::Opts o;
            o.bounds = "all " + std::to_string(tabs.size()) + " tables of " + std::to_string(c.K) + " symbols with total 2^" + std::to_string(c.scale) +
                       ": every symbol from every boundary state; all sequences up to length " + std::to_string(len) + ", two tables alternating";
            mc::enumerate("tables-" + std::to_string(c.K) + "-" + std::to_string(c.scale), tabs.size(), [&](uint64_t i) {
                const U &t = tabs[i], &t2 = tabs[(i * 7 + 3) % tabs.size()];
                mc::logf("table %s alternating with %s", show(t).c_str(), show(t2).c_str());
                // boundary states
                St s(c.K, c.scale);
                memcpy(s.s.ftable, t.data(), t.size() * 8);
                for (uint64_t sym = 0; sym < t.size(); sym++) {
                    uint64_t lo = s.s.lower_bound, ub = t[sym] * ((lo >> c.scale) << 32);
                    std::vector<uint64_t> xs;
                    for (uint64_t b: {lo, ub, (lo << 32)})
                        for (int64_t d = -70; d <= 70; d++) xs.push_back(b + d);
                    for (uint64_t x: xs) {
                        if (x < lo || x >= lo << 32) continue;
                        auto &st = direct().stack;
                        s.s.x = x;
                        s.s.count = 0;
                        hzrans64_add_to_seq(&s.s, sym);
                        hzrans64_encode_s(&s.s, &st);
                        uint64_t y = s.s.x;
                        uint64_t n = s.s.count;
                        auto data = rainman::ptr<uint32_t>(n);
                        for (uint64_t k = 0; k < n; k++) { data[k] = st.top(); st.pop(); }
                        if (!st.empty()) mc::fail("word count differs from the stream", show(t));
                        uint64_t back = hzrans64_inv_bs(&s.s, y & s.s.mask);
                        if (back != sym) mc::failf("decoded symbol differs", "from state %lx symbol %lu comes back as %lu, table %s", x, sym, back, show(t).c_str());
                        s.s.count = 0;
                        hzrans64_decode_s(&s.s, data);
                        if (s.s.x != x || s.s.count != n) mc::failf("a decoding step does not undo the encoding step", "%lx -> %lx -> %lx, symbol %lu of %s", x, y, s.s.x, sym, show(t).c_str());
                        mc::step();
                    }
                }
                for (int l = 0; l <= len; l++) {
                    uint64_t w = 1;
                    for (int k = 0; k < l; k++) w *= c.K;
                    for (uint64_t q = 0; q < w; q++) {
                        U seq;
                        uint64_t r = q;
                        for (int k = 0; k < l; k++) { seq.push_back(r % c.K); r /= c.K; }
                        std::vector<const U *> a(l + 1, &t), b;
                        for (int k = 0; k <= l; k++) b.push_back(k & 1 ? &t2 : &t);
                        direct().roundtrip(a, seq, c.scale, "one table");
                        direct().roundtrip(b, seq, c.scale, "alternating tables");
                        mc::step(2 * l);
                    }
                }
            }, o);
        }
    }
    // 3. long streams: every table family at every scale, every sequence family, functions and objects
    {
        const int FAM = 6, SEQ = 6;
        std::vector<int> lens = th ? std::vector<int>{0, 1, 2, 3, 17, 300, 5000, 70000, 150000} : std::vector<int>{0, 1, 2, 3, 17, 300, 5000};
        std::vector<int> Ks = {1, 2, 3, 16, 255, 256};
        uint64_t N = 32ull * Ks.size() * FAM;
        mc::Opts o;
        o.bounds = "alphabets 1,2,3,16,255,256 x 6 table families x every scale that fits x 6 sequence families x lengths up to " + std::to_string(lens.back()) + ", tables chosen by the previous symbol";
        mc::enumerate("streams", N, [&](uint64_t i) {
            uint64_t scale = i % 32;
            int K = Ks[i / 32 % Ks.size()], fam = i / 32 / Ks.size();
            if ((1ull << scale) < (uint64_t) K) { mc::vacuous(); return; }
            std::vector<U> tabs;
            for (int v = 0; v < 3; v++) {
                U f(K);
                for (int k = 0; k < K; k++) switch (fam) {
                    case 0: f[k] = 1; break;
                    case 1: f[k] = k == v % K ? 1u << 30 : 0; break;
                    case 2: f[k] = k == K - 1 ? 1u << 30 : 0; break;
                    case 3: f[k] = 1ull << (k % 20); break;
                    case 4: f[k] = (k + v) * 17 % 101; break;
                    default: f[k] = k >= K / 2 ? 0 : 100000;
                }
                tabs.push_back(normalise(f, scale));
            }
            mc::logf("alphabet %d scale %lu tables %s", K, scale, show(tabs[0]).c_str());
            for (int len: lens) {
                if (len > 20000 && scale % 6) continue;
                for (int sf = 0; sf < SEQ; sf++) {
                    U seq(len);
                    uint32_t r = 1 + i;
                    for (int k = 0; k < len; k++) {
                        r = r * 1664525 + 1013904223;
                        switch (sf) {
                            case 0: seq[k] = 0; break;
                            case 1: seq[k] = K - 1; break;
                            case 2: seq[k] = k % K; break;
                            case 3: seq[k] = (r >> 16) % K; break;
                            case 4: seq[k] = k == len / 2 ? K - 1 : 0; break;
                            default: seq[k] = (k / 100) % K;
                        }
                    }
                    std::vector<const U *> tb;
                    for (int k = 0; k <= len; k++) tb.push_back(&tabs[k == 0 ? 0 : k <= len ? seq[k - 1] % 3 : 0]);
                    if (len <= 300) {
                        direct().roundtrip(tb, seq, scale, "stream");
                        objects(tb, seq, scale, sf != 2);
                    } else if (sf < 4 && scale % 4 == 0) objects(tb, seq, scale, true);
                    mc::step(len);
                }
            }
        }, o);
    }
}
