// C29: the program itself, started with an environment: what the service does follows it.
#include <hzip_codec/compressor_base.h>
#include <hzip_codec/compressor_enums.h>
#include <hzip_codec/errors/codec.h>
#include <csignal>
#include <functional>
#include <mutex>
#include <unordered_map>
#define private public
#include <hzip_codec/codec_provider.h>
#undef private
#include "net_common.h"
#include <hzip_core/runtime/cache_provider.h>
#include <hzip_core/runtime/config.h>
#include <loguru/loguru.hpp>

// The program. Its signal handlers are not installed.
extern "C" __attribute__((visibility("default"))) sighandler_t signal(int, sighandler_t) noexcept { return SIG_DFL; }
#define main hz_main
#include <main.cpp>
#undef main

const char *hzv_property = "C29";
using namespace svc;

// A codec that takes its time
static unsigned working, limit_seen;
static bool go;
struct Slow : hzcodec::AbstractCodec {
    rainman::ptr<HZ_Blob> compress(const rainman::ptr<HZ_Blob> &) override {
        working++;
        limit_seen = std::max(limit_seen, working);
        sched::wait_until([] { return go; }, "compressing");
        working--;
        throw CodecErrors::InvalidOperationException("refused part");
    }
    rainman::ptr<HZ_Blob> decompress(const rainman::ptr<HZ_Blob> &) override { throw CodecErrors::InvalidOperationException("no"); }
    rainman::ptr<HZ_MState> train(const rainman::ptr<HZ_Blob> &) override { throw CodecErrors::InvalidOperationException("no"); }
};
typedef hzcodec::CodecProvider Provider;
template<typename P>
static bool set_codec(hzcodec::AbstractCodec *c) {
    if constexpr (requires { P::codec_map[(ALGORITHM) VIC] = c; }) { P::codec_map[(ALGORITHM) VIC] = c; return true; }
    return false;
}

static void scenario(unsigned A, unsigned P, const char *port, const char *timeout, const char *key, const char *mem, const char *cache) {
    std::string dir = mc::scratch();
    chdir(dir.c_str());
    net::reset();
    go = false;
    working = limit_seen = 0;
    auto env = [](const char *n, const char *v) { if (v) setenv(n, v, 1); else unsetenv(n); if (v) mc::logf("%s='%s'", n, v); };
    env("HZIP_API_THREADS", A ? std::to_string(A).c_str() : nullptr);
    env("HZIP_PROCESSOR_THREADS", P ? std::to_string(P).c_str() : nullptr);
    env("HZIP_API_PORT", port);
    env("HZIP_API_TIMEOUT", timeout);
    env("HZIP_API_KEY", key);
    env("HZIP_MAX_MEM_USAGE", mem);
    env("HZIP_CACHE_COUNT", cache);
    unsigned slots = A ? A : 1, threads = P ? P : 1;
    uint16_t pt = port ? atoi(port) : 1729;
    std::string k = key ? key : "hybridzip";
    static const char *args[] = {"hybridzip", nullptr};
    std::thread([] {
        sched::set_daemon(true);
        hz_main(1, args);
    }).detach();
    sched::wait_quiescent();
    for (uint32_t p = 0; p < 65536; p++) if (net::listening(p) != (p == pt)) mc::failf("HZIP_API_PORT does not take effect", p == pt ? "nobody listens on port %u" : "port %u is listened on", p);
    if (rainman::Allocator().peak_size() != (mem ? strtoull(mem, nullptr, 10) : 1073741824ull)) mc::fail("HZIP_MAX_MEM_USAGE does not take effect");
    std::vector<Client> c(slots + 1);
    auto dial = [&](Client &x) { x.c = net::connect(pt); if (!x.c) mc::fail("the server no longer listens"); };
    // another key is refused
    for (std::string wrong: {k + "x", std::string("hybridzip?"), std::string("y")}) {
        Client x;
        dial(x);
        try { x.handshake(wrong); mc::fail("HZIP_API_KEY does not take effect", "another key is accepted"); } catch (Gone &) {} catch (Refused &) {}
        x.close();
        sched::wait_quiescent();
    }
    for (auto &x: c) dial(x);
    sched::wait_quiescent();
    unsigned served = 0;
    for (auto &x: c) served += !x.c->to_client.empty();
    if (served != slots) mc::failf("HZIP_API_THREADS does not take effect", "%u of %u clients are served", served, slots + 1);
    int64_t us = (timeout ? atoll(timeout) : 100) * 1000000ll;
    for (unsigned i = 0; i < slots; i++) {
        if (c[i].c->recv_timeout != us || c[i].c->send_timeout != us) mc::failf("HZIP_API_TIMEOUT does not take effect", "%ld and %ld us", (long) c[i].c->recv_timeout, (long) c[i].c->send_timeout);
        try { c[i].handshake(k); }
        catch (Gone &) { mc::fail("HZIP_API_KEY does not take effect", "the key is refused"); }
        catch (Refused &) { mc::fail("HZIP_API_KEY does not take effect", "the key is refused"); }
    }
    // every session uploads something to an archive of its own
    unsigned done = 0;
    for (unsigned i = 0; i < slots; i++) std::thread([&, i] {
        Req r;
        r.kind = ENCODE;
        r.archive = dir + "/t" + std::to_string(i) + ".hz";
        unlink(r.archive->c_str());
        r.target = "/f";
        r.alg = VIC;
        r.data = "some data";
        try { ask(c[i], r); } catch (Gone &) { mc::fail("a session ends by itself"); }
        done++;
    }).detach();
    sched::wait_quiescent();
    if (Provider::algorithm_to_codec((ALGORITHM) VIC)) {
        if (working != std::min(slots, threads)) mc::failf("HZIP_PROCESSOR_THREADS does not take effect", "%u of %u jobs run at once", working, slots);
    }
    go = true;
    sched::wait_quiescent();
    if (done != slots) mc::fail("a request is not answered");
    if (limit_seen > threads) mc::failf("HZIP_PROCESSOR_THREADS does not take effect", "%u of %u jobs run at once", limit_seen, slots);
    if (cache || true) {
        std::set<const void *> seen;
        for (int i = 0; i < 50; i++) seen.insert(&hzruntime::CacheProvider::get_cache().first);
        if (seen.size() != (cache ? strtoull(cache, nullptr, 10) : 4)) mc::fail("HZIP_CACHE_COUNT does not take effect");
    }
    for (auto &x: c) x.close();
    sched::wait_quiescent();
    mc::outcome(mc::mix(working, served));
}

void hzv_main() {
    loguru::g_stderr_verbosity = -10;
    static Slow slow;
    if (!set_codec<Provider>(&slow)) mc::assume("the jobs running at once cannot be observed: no codec can be installed");
    unsigned top = mc::thorough() ? 5 : 4;
    mc::Opts o;
    o.fork_each = true;
    o.kinds[mc::PREEMPT] = 0;
    o.bounds = "the program with 0-" + std::to_string(top) + " sessions x threads (0: unset) x 3 ports x 3 time limits x 3 keys x 2 memory limits x 2 caches; one schedule";
    mc::explore("the program", [&] {
        unsigned A = mc::choose(top + 1, mc::FREE, "sessions"), P = mc::choose(top + 1, mc::FREE, "threads");
        static const char *ports[] = {nullptr, "80", "65535"}, *timeouts[] = {nullptr, "7", "86400"}, *keys[] = {nullptr, "s3cret", "a longer key than 8 bytes"}, *mems[] = {nullptr, "4294967297"}, *caches[] = {nullptr, "2"};
        auto port = ports[mc::choose(3, mc::FREE, "port")];
        auto timeout = timeouts[mc::choose(3, mc::FREE, "time limit")];
        auto key = keys[mc::choose(3, mc::FREE, "key")];
        auto mem = mems[mc::choose(2, mc::FREE, "memory")];
        auto cache = caches[mc::choose(2, mc::FREE, "cache")];
        sched::knobs = sched::Knobs();
        sched::knobs.frozen = true;
        sched::run([&] { scenario(A, P, port, timeout, key, mem, cache); });
    }, o);
}
