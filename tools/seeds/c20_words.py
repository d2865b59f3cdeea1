ID="c20-prime-by-words"; PROP="C20"
NEEDS="a proving key whose scalar prime has a length that is no multiple of eight bytes"
BREAKS="the scalar prime is read as whole 64-bit words, so its last bytes are lost"
EDITS=[("c/zkey_utils.cpp","mpz_import(h->rPrime, h->n8r , -1, 1, -1, 0, f->read(h->n8r));","mpz_import(h->rPrime, h->n8r/8, -1, 8, -1, 0, f->read(h->n8r));",1)]

KIT=""
FILES={"main.cpp":r'''
#include <binfile_utils.hpp>
#include <zkey_utils.hpp>
#include <wtns_utils.hpp>
#include <cstdio>
#include <cstring>
#include <memory>
#include <stdexcept>
#include <string>
#include <vector>
struct Buf { std::string b; void u32(uint32_t v) { b.append((char *)&v, 4); } void u64(uint64_t v) { b.append((char *)&v, 8); } void str(const std::string &s) { b += s; } };
static std::string file(const char *type, uint32_t ver, std::vector<std::pair<uint32_t, std::string>> ss) {
    Buf f; f.str(type); f.u32(ver); f.u32(ss.size());
    for (auto &s : ss) { f.u32(s.first); f.u64(s.second.size()); f.str(s.second); }
    return f.b;
}
template <class F> bool throws(F f) { try { f(); } catch (std::exception *e) { return true; } catch (std::exception &e) { return true; } return false; }
static int run(uint32_t n8q, uint32_t n8r) {
    Buf h; std::string q, r;
    for (uint32_t i = 0; i < n8q; i++) q += (char)(i * 37 + 11); for (uint32_t i = 0; i < n8r; i++) r += (char)(i * 29 + 5);
    h.u32(n8q); h.str(q); h.u32(n8r); h.str(r); h.u32(5); h.u32(2); h.u32(8); h.str(std::string(n8q * 18, 'k'));
    Buf p; p.u32(1);
    std::string f = file("zkey", 1, {{1, p.b}, {2, h.b}, {4, std::string(3 * (12 + n8r), 'c')}});
    BinFileUtils::BinFile b((void *)f.data(), f.size(), "zkey", 1);
    auto z = ZKeyUtils::loadHeader(&b);
    mpz_t m; mpz_init(m); mpz_import(m, n8r, -1, 1, 0, 0, r.data());
    int bad = mpz_cmp(m, z->rPrime) != 0; mpz_import(m, n8q, -1, 1, 0, 0, q.data()); bad |= mpz_cmp(m, z->qPrime) != 0;
    bad |= z->n8r != n8r || z->nCoefs != 3 || z->nVars != 5 || z->nPublic != 2 || z->domainSize != 8;
    if (bad) printf("wrong header for %u/%u bytes\n", n8q, n8r);
    return bad;
}
int main() { return run(32, 32) | run(48, 32) | run(8, 4) | run(32, 28) | run(95, 33); }
'''}
DEMO=r'''d=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
w=$(mktemp -d /tmp/seeddemo.XXXXXX)
trap 'rm -rf "$w"' EXIT
mkdir "$w/inc"
printf "#pragma once\n#include <cstdint>\n#include <cstring>\nnamespace ThreadUtils { inline void parcpy(void *d, const void *s, uint64_t n, int) { if (n) memcpy(d, s, n); } }\n" > "$w/inc/thread_utils.hpp"
g++ -w -std=c++17 -O1 -include stdexcept -fopenmp -I"$w/inc" -I"$repo/c" "$d/main.cpp" "$repo/c/binfile_utils.cpp" "$repo/c/zkey_utils.cpp" "$repo/c/wtns_utils.cpp" -lgmp -o "$w/main"
cd "$w"
timeout 60 ./main
'''
