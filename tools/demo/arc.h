#include <hzip_storage/archive/archive.h>
#include <cstdio>
#include <cstdlib>
#include <string>
#include <loguru/loguru.hpp>
#include <hzip_core/utils/utils.h>
// small helpers around the real archive
inline rainman::ptr<HZ_MState> model(uint64_t n, uint8_t c) {
    auto m = rainman::ptr<HZ_MState>();
    m->alg = hzcodec::algorithms::VICTINI;
    m->data = rainman::ptr<uint8_t>(n);
    for (uint64_t i = 0; i < n; i++) m->data[i] = c + i;
    return m;
}
inline rainman::ptr<HZ_Blob> part(uint64_t model_id, uint64_t n, uint8_t c) {
    auto b = rainman::ptr<HZ_Blob>(1);
    b->header = HZ_BlobHeader();
    b->header.raw = rainman::ptr<uint8_t>(2);
    b->header.raw[0] = c; b->header.raw[1] = n;
    b->size = n; b->o_size = n + 1; b->mstate_id = model_id;
    b->data = rainman::ptr<uint8_t>(n);
    for (uint64_t i = 0; i < n; i++) b->data[i] = c + i;
    return b;
}
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s (line %d)\n", #x, __LINE__); exit(1); } } while (0)
inline void has(HZ_Archive &a, const std::string &path, uint64_t n, uint8_t c) {
    auto b = a.read_file(path);
    CHECK(b.size() == 1); CHECK(b[0].size == n); CHECK(b[0].header.size() == 2); CHECK(b[0].header.raw[0] == c);
    for (uint64_t i = 0; i < n; i++) CHECK(b[0].data[i] == (uint8_t) (c + i));
}
template<typename F> bool throws(F f) { try { f(); } catch (...) { return true; } return false; }
// the archive's lock is named after the path: a scratch path of our own
inline std::string file() { loguru::g_stderr_verbosity = -10; return std::string(getenv("PWD") ? getenv("PWD") : "/tmp") + "/a.hza"; }
inline void done(const std::string &p) { sem_unlink(("/" + hz_sha512(p)).c_str()); }
