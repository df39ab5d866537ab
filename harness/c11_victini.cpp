// C11: the context-mixing codec. All short inputs over small alphabets, every length of a set of content families, private,
// reused and trained models; every result is judged by decompressing it from nothing but its stored parts.
#include <hzip_codec/codec_provider.h>
#include <loguru/loguru.hpp>
#include "mc.h"

const char *hzv_property = "C11";

typedef std::vector<uint8_t> B;
static std::string show(const B &s) {
    std::string r = "length " + std::to_string(s.size()) + " [";
    for (size_t i = 0; i < s.size() && i < 24; i++) r += " " + std::to_string(s[i]);
    return r + (s.size() > 24 ? " ... ]" : " ]");
}
static rainman::ptr<uint8_t> mem(const B &b) {
    auto p = rainman::ptr<uint8_t>(b.size());
    for (size_t i = 0; i < b.size(); i++) p[i] = b[i];
    return p;
}
static B bytes(const rainman::ptr<uint8_t> &p, uint64_t n) {
    if (p.size() < n) mc::failf("fewer bytes than announced", "%lu of %lu", p.size(), n);
    B b(n);
    for (uint64_t i = 0; i < n; i++) b[i] = p[i];
    return b;
}
static hzcodec::AbstractCodec *codec() { return hzcodec::CodecProvider::algorithm_to_codec(hzcodec::algorithms::VICTINI); }
static rainman::ptr<HZ_Blob> blob_of(const B &b) {
    auto p = rainman::ptr<HZ_Blob>();
    p->data = mem(b);
    p->size = b.size();
    p->o_size = b.size();
    return p;
}
// a model as another session sees it: its bytes and its algorithm
struct Model {
    B data;
    uint64_t alg = 0;
    Model() = default;
    explicit Model(const rainman::ptr<HZ_MState> &m) : data(bytes(m->data, m->size())), alg(m->alg) {}
    rainman::ptr<HZ_MState> load() const {
        auto m = rainman::ptr<HZ_MState>();
        m->alg = (hzcodec::algorithms::ALGORITHM) alg;
        m->data = mem(data);
        return m;
    }
};
static void decode_check(const rainman::ptr<HZ_Blob> &c, const Model &model, const B &want, const char *what) {
    if (c->o_size != want.size()) mc::failf("compressed blob has the wrong original size", "%s: %s: %lu", what, show(want).c_str(), c->o_size);
    auto d = rainman::ptr<HZ_Blob>();
    d->header.raw = mem(bytes(c->header.raw, c->header.size()));
    d->data = mem(bytes(c->data, c->size));
    d->size = c->size;
    d->o_size = c->o_size;
    d->status = true;
    d->mstate = model.load();
    for (int pass = 0; pass < 2; pass++) {       // the same stored blob can be read again
        auto r = codec()->decompress(d);
        if (r->o_size != want.size()) mc::failf("decompressed size differs", "%s: %s: %lu", what, show(want).c_str(), r->o_size);
        B got = bytes(r->data, r->o_size);
        if (got != want) {
            size_t i = 0;
            while (got[i] == want[i]) i++;
            mc::failf("decompressed bytes differ", "%s: %s: byte %zu is %u, expected %u (pass %d)", what, show(want).c_str(), i, got[i], want[i], pass + 1);
        }
        if (want.size() > 2000) break;
    }
}
// compress with whatever model the blob carries, twice; the model afterwards is the one to decode with
static void roundtrip(const B &s, const Model *trained, const char *what) {
    auto b = blob_of(s);
    if (trained) b->mstate = trained->load();
    for (int rep = 0; rep < (s.size() > 2000 ? 1 : 2); rep++) {
        auto c = codec()->compress(b);
        if (bytes(b->data, b->o_size) != s || b->o_size != s.size()) mc::failf("compressing changes its input", "%s: %s", what, show(s).c_str());
        if (c->size > c->data.size()) mc::failf("fewer bytes than announced", "%lu of %lu", c->data.size(), c->size);
        Model m(c->mstate);
        if (m.alg != hzcodec::algorithms::VICTINI) mc::failf("the model does not name its codec", "%s: %s", what, show(s).c_str());
        if (trained && (m.data != trained->data || m.alg != trained->alg)) mc::failf("compressing changes a trained model", "%s: %s", what, show(s).c_str());
        decode_check(c, m, s, what);
        // worth it or not: the verdict is about this result
        auto original = mem(s);
        uint64_t packed = c->size;
        B packed_bytes = bytes(c->data, c->size);
        c->evaluate(original);
        if (c->status) {
            if (packed >= s.size()) mc::failf("a result that is not smaller is declared worth keeping", "%s: %s -> %lu", what, show(s).c_str(), packed);
            if (c->size != packed || bytes(c->data, c->size) != packed_bytes || c->mstate->alg != m.alg || bytes(c->mstate->data, c->mstate->size()) != m.data)
                mc::failf("judging a good result changes it", "%s: %s", what, show(s).c_str());
            decode_check(c, Model(c->mstate), s, what);
        } else {
            if (packed < s.size()) mc::failf("a smaller result is declared worthless", "%s: %s -> %lu", what, show(s).c_str(), packed);
            if (c->size != s.size() || c->o_size != s.size() || bytes(c->data, c->size) != s) mc::failf("a rejected result is not the original data", "%s: %s", what, show(s).c_str());
            if (!c->mstate->is_empty()) mc::failf("a rejected result keeps a model", "%s: %s", what, show(s).c_str());
            auto raw = hzcodec::CodecProvider::algorithm_to_codec(c->mstate->alg)->decompress(c);   // as the pipeline picks it
            if (raw->o_size != s.size() || bytes(raw->data, raw->o_size) != s) mc::failf("a rejected result does not decode to the original", "%s: %s", what, show(s).c_str());
        }
        mc::outcome(mc::hash_bytes(packed_bytes.data(), packed_bytes.size(), packed));
        mc::step(s.size() + 1);
    }
}
static Model train(const std::vector<B> &texts) {
    Model m;
    for (auto &t: texts) {
        auto b = blob_of(t);
        b->mstate = m.load();
        auto r = codec()->train(b);
        if (bytes(b->data, b->o_size) != t) mc::fail("training changes its input", show(t));
        m = Model(r);
        if (m.alg != hzcodec::algorithms::VICTINI) mc::fail("the model does not name its codec", show(t));
    }
    return m;
}
// The same model after seeing its text so often that the heaviest context weighs about 2^39 (the format: 65536 big-endian counts).
static bool heavier(Model &m) {
    if (m.data.size() < 65536 * 8) return false;
    auto get = [&](int i) { uint64_t v = 0; for (int k = 0; k < 8; k++) v = v << 8 | m.data[i * 8 + k]; return v; };
    uint64_t top = 0;
    for (int r = 0; r < 256; r++) {
        uint64_t sum = 0;
        for (int c = 0; c < 256; c++) {
            uint64_t v = get(r * 256 + c);
            if (v == 0 || v > 1ull << 32) return false;      // not the format as we know it
            sum += v;
        }
        top = std::max(top, sum);
    }
    uint64_t f = (1ull << 39) / top;
    for (int i = 0; i < 65536; i++) {
        uint64_t v = get(i);
        v = 1 + (v - 1) * f;
        for (int k = 7; k >= 0; k--) { m.data[i * 8 + k] = v; v >>= 8; }
    }
    return true;
}

static B family(int k, int n) {
    B s(n);
    uint32_t r = 99 + k;
    for (int j = 0; j < n; j++) {
        r = r * 1664525 + 1013904223;
        switch (k) {
            case 0: s[j] = 0; break;
            case 1: s[j] = 255; break;
            case 2: s[j] = j & 255; break;
            case 3: s[j] = r >> 24; break;
            case 4: s[j] = j % 3 ? 'a' : 'b'; break;
            case 5: s[j] = (r >> 28) < 3 ? 255 : 'x'; break;
            case 6: s[j] = 255 - (j / 7); break;
            default: s[j] = j == n - 1 ? 1 : 0;
        }
    }
    return s;
}
static const int FAMS = 8;
static B word(uint64_t i, const B &alpha) {
    uint64_t k = alpha.size(), c = 1;
    int len = 0;
    while (i >= c) { i -= c; c *= k; len++; }
    B s(len);
    for (int j = len - 1; j >= 0; j--) { s[j] = alpha[i % k]; i /= k; }
    return s;
}
static uint64_t words(uint64_t k, int len) {
    uint64_t t = 0, c = 1;
    for (int i = 0; i <= len; i++, c *= k) t += c;
    return t;
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    bool th = mc::thorough();
    struct A { const char *n; B a; int len; };
    std::vector<A> as = {{"{0,255}", {0, 255}, th ? 12 : 7}, {"{97,98,99}", {97, 98, 99}, th ? 7 : 4}, {"{0,1,2,254,255}", {0, 1, 2, 254, 255}, th ? 5 : 3}};
    for (auto &a: as) {
        mc::Opts o;
        o.bounds = std::string("private model: all inputs over ") + a.n + " up to length " + std::to_string(a.len);
        mc::enumerate(std::string("words-") + a.n, words(a.a.size(), a.len), [&](uint64_t i) {
            B s = word(i, a.a);
            mc::logf("%s", show(s).c_str());
            roundtrip(s, nullptr, "private model");
        }, o);
    }
    {
        mc::Opts o;
        uint64_t N = th ? 65536 : 256 + 256;
        o.bounds = th ? "private model: all byte pairs" : "private model: all single bytes, all pairs x (x+1)";
        mc::enumerate("bytes", N, [&](uint64_t i) {
            B s = th ? B{(uint8_t) (i >> 8), (uint8_t) i} : i < 256 ? B{(uint8_t) i} : B{(uint8_t) i, (uint8_t) (i + 1)};
            mc::logf("%s", show(s).c_str());
            roundtrip(s, nullptr, "private model");
        }, o);
    }
    {
        int maxlen = th ? 700 : 40;
        std::vector<int> lens;
        for (int i = 0; i <= maxlen; i++) lens.push_back(i);
        for (int e: {64, 255, 256, 257, 511, 512, 1000, 4096, 20000}) if (e > maxlen) lens.push_back(e);
        mc::Opts o;
        o.bounds = "private model: every length up to " + std::to_string(maxlen) + " and boundary lengths up to 20000 of 8 content families";
        mc::enumerate("lengths", lens.size() * FAMS, [&](uint64_t i) {
            B s = family(i % FAMS, lens[i / FAMS]);
            mc::logf("family %d %s", (int) (i % FAMS), show(s).c_str());
            roundtrip(s, nullptr, "private model");
        }, o);
    }
    // models trained on other data: every pair and every ordered pair of trainings against every input family
    {
        std::vector<B> texts = {{}, {255}, {0, 255}, family(0, 300), family(2, 600), family(3, 2000), family(5, 3000), family(0, 60000)};
        std::vector<std::vector<B>> histories;
        std::vector<std::string> names;
        for (size_t i = 0; i < texts.size(); i++) { histories.push_back({texts[i]}); names.push_back("t" + std::to_string(i)); }
        for (size_t i = 0; i < texts.size(); i++)
            for (size_t j = 0; j < texts.size(); j++) if (th || (i + 3 * j) % 5 == 0) { histories.push_back({texts[i], texts[j]}); names.push_back("t" + std::to_string(i) + " t" + std::to_string(j)); }
        histories.push_back(std::vector<B>(th ? 40 : 10, family(0, 200000)));
        names.push_back("200000 zeros repeatedly");
        size_t plain = histories.size();
        for (auto t: {7, 4, 6}) { histories.push_back({texts[t]}); names.push_back("t" + std::to_string(t) + " very many times"); }
        std::vector<B> in;
        for (uint64_t w = 0; w < words(2, th ? 5 : 3); w++) in.push_back(word(w, {0, 255}));
        for (int f = 0; f < FAMS; f++) for (int n: {1, 2, 3, 50, 700}) in.push_back(family(f, n));
        mc::Opts o;
        o.bounds = std::to_string(histories.size()) + " training histories (8 texts" + (th ? ", all ordered pairs" : ", a fifth of the ordered pairs") + ", one repeated training, three scaled to the weight of 10^10 trained bytes) x " + std::to_string(in.size()) + " inputs";
        mc::enumerate("trained", histories.size(), [&](uint64_t i) {
            Model m = train(histories[i]);
            if (i >= plain && !heavier(m)) { mc::vacuous(); return; }
            for (auto &s: in) {
                mc::logf("model trained on %s; input %s", names[i].c_str(), show(s).c_str());
                roundtrip(s, &m, ("model trained on " + names[i]).c_str());
            }
        }, o);
    }
    {
        std::vector<int> sizes = th ? std::vector<int>{65536, 65537, 300000, 1 << 20, (1 << 22) - 1, 1 << 22} : std::vector<int>{65536, 65537, 150000};
        mc::Opts o;
        o.hang_s = 800;
        o.bounds = "8 content families at " + std::to_string(sizes.size()) + " large sizes up to " + std::to_string(sizes.back()) + " (4194304 is the codec's block size)";
        mc::enumerate("large", sizes.size() * FAMS, [&](uint64_t i) {
            B s = family(i % FAMS, sizes[i / FAMS]);
            mc::logf("family %d %s", (int) (i % FAMS), show(s).c_str());
            roundtrip(s, nullptr, "private model");
        }, o);
    }
}
