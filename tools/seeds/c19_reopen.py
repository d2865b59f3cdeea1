ID="c19-refused-start-moves"; PROP="C19"
NEEDS="an attempt to open a section while another one is being read, after which reading goes on"
BREAKS="a refused attempt to open a second section moves the read position there"
EDITS=[("c/binfile_utils.cpp","""        if (readingSection != NULL)
        {
            throw new std::range_error("Already reading a section");
        }

        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;
""","""        pos = (u_int64_t)(sections[sectionId][sectionPos].start) - (u_int64_t)addr;

        if (readingSection != NULL)
        {
            throw new std::range_error("Already reading a section");
        }
""",1)]

KIT=""
FILES={"main.cpp":r'''
#include <binfile_utils.hpp>
#include <zkey_utils.hpp>
#include <wtns_utils.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
struct Buf { std::string b; void u32(uint32_t v) { b.append((char *)&v, 4); } void u64(uint64_t v) { b.append((char *)&v, 8); } void str(const std::string &s) { b += s; } };
static std::string file(const char *type, uint32_t ver, std::vector<std::pair<uint32_t, std::string>> ss) {
    Buf f; f.str(type); f.u32(ver); f.u32(ss.size());
    for (auto &s : ss) { f.u32(s.first); f.u64(s.second.size()); f.str(s.second); }
    return f.b;
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception *e) { return true; } catch (std::exception &e) { return true; } return false; }
int main() {
    std::string f = file("test", 1, {{7, "abcdefgh"}, {9, "xyz!"}});
    BinFileUtils::BinFile b((void *)f.data(), f.size(), "test", 1);
    b.startReadSection(7);
    if (b.readU32LE() != *(uint32_t *)"abcd") return 1;
    if (!throws([&] { b.startReadSection(9); })) return 1;
    uint32_t v = b.readU32LE();
    if (v != *(uint32_t *)"efgh") { printf("read %.4s\n", (char *)&v); return 1; }
    if (throws([&] { b.endReadSection(); })) return 1;
    return 0;
}
'''}
DEMO=r'''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/inc"
printf "#pragma once\n#include <cstdint>\n#include <cstring>\nnamespace ThreadUtils { inline void parcpy(void *d, const void *s, uint64_t n, int) { if (n) memcpy(d, s, n); } }\n" > "$w/inc/thread_utils.hpp"
g++ -w -std=c++17 -O1 -include stdexcept -fopenmp -I"$w/inc" -I"$repo/c" "$d/main.cpp" "$repo/c/binfile_utils.cpp" "$repo/c/zkey_utils.cpp" "$repo/c/wtns_utils.cpp" -lgmp -o "$w/main"
cd "$w"
timeout 60 ./main
'''
