#include "svc.h"
#include <filesystem>
// an upload of two parts is downloaded again
int main() {
    loguru::g_stderr_verbosity = -10;
    char d[] = "/tmp/hz-demo-XXXXXX";
    if (!mkdtemp(d)) return 2;
    std::string dir = d, archive = dir + "/t.hz", data;
    const uint64_t block = 0x400000, n = block + 5;
    for (uint64_t i = 0, x = 1; i < n; i++) { x = x * 6364136223846793005ull + 1442695040888963407ull; data += (char) (x >> 60); }
    data.replace(block, 5, "\xf1\xf2\xf3\xf4\xf5");
    auto api = new hzapi::Api(1);
    api->process(1)->protect("key");
    auto port = serve(api);
    auto done = [&](const char *why) {
        std::error_code e;
        std::filesystem::remove_all(dir, e);
        if (why) failed(why);
    };
    Cl a;
    if (!a.connect(port, 200) || !a.handshake("key")) done("no server");
    using namespace hzapi;
    bool ok = a.byte(API_CTL_STREAM) && a.byte(STREAM_CTL_ENCODE) && a.byte(ENCODE_CTL_ARCHIVE) && a.str(archive) && a.byte(ENCODE_CTL_DEST) && a.str("/f") &&
              a.byte(ENCODE_CTL_ALGORITHM) && a.u64(hzcodec::algorithms::VICTINI) && a.byte(ENCODE_CTL_STREAM) && a.u64(n) && a.put(data.data(), n) && a.message();
    if (!ok) done("the upload is refused");
    ok = a.byte(API_CTL_STREAM) && a.byte(STREAM_CTL_DECODE) && a.byte(DECODE_CTL_ARCHIVE) && a.str(archive) && a.byte(DECODE_CTL_SRC) && a.str("/f") &&
         a.byte(DECODE_CTL_PIGGYBACK) && a.byte(DECODE_CTL_STREAM);
    uint64_t parts = 0;
    std::string got;
    ok = ok && a.field(&parts, 8) && parts < 10;
    for (uint64_t i = 0; ok && i < parts; i++) {
        uint64_t m = 0;
        ok = a.field(&m, 8) && m <= block;
        std::string p(m, 0);
        ok = ok && a.field(p.data(), m);
        got += p;
    }
    ok = ok && a.message();
    done(!ok ? "the download fails" : got != data ? "the downloaded file differs" : nullptr);
    puts("ok"); fflush(stdout);
    _exit(0);
}
