#include <hzip_storage/archive/archive_trie.h>
#include <cstdio>
#include <cstdlib>
#define CHECK(x) do { if (!(x)) { printf("FAILED: %s (line %d)\n", #x, __LINE__); exit(1); } } while (0)
int main() {
    HZ_ArchiveTrie<uint64_t> t;
    t.set("/a/b/c", 1); t.set("/x", 2); t.set("/d/e", 3); t.set("/d/f", 4);
    t.erase("/d/e");
    CHECK(t.contains("/d/f")); CHECK(t.get("/d/f") == 4);
    t.erase("/a/b/c");
    CHECK(!t.contains("/a/b/c")); CHECK(!t.contains("/a/b"));
    CHECK(!t.contains("/a"));
    for (auto &e : t.children("/")) CHECK(e.entry == "x" || e.entry == "d");
    t.set("/a", 5);
    CHECK(t.get("/a") == 5);
    puts("ok");
}
