#include <hzip_codec/victini/victini.h>
#include <cstdio>
#include <cstdlib>
#include <string>
static void trip(const std::string &s) {
    auto b = rainman::ptr<HZ_Blob>(1);
    b->o_size = b->size = s.size(); b->data = rainman::ptr<uint8_t>(s.size()); b->mstate = rainman::ptr<HZ_MState>();
    for (size_t i = 0; i < s.size(); i++) b->data[i] = s[i];
    auto c = hzcodec::Victini().compress(b);
    auto d = hzcodec::Victini().decompress(c);
    for (size_t i = 0; i < s.size(); i++) if (d->data[i] != (uint8_t) s[i]) { printf("FAILED: byte %zu of a sequence of %zu\n", i, s.size()); exit(1); }
}
int main() {
    std::string s;
    trip("hello hello hello");
    for (int i = 0; i < 300; i++) s += (char) (i * 7);
    trip(s); trip(std::string("\0\xff\0\xff", 4)); trip("aaaa\xff" "bbbb");
    puts("ok");
}
