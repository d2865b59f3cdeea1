// Drives readers of sectioned files and header loaders, one printed event per call.
#include "binfile_utils.hpp"
#include "zkey_utils.hpp"
#include "wtns_utils.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>
#include <fcntl.h>
#include <unistd.h>
#include <stdexcept>
using namespace BinFileUtils;
typedef std::string S;
static S list(const unsigned char *p, size_t n) { S r = "["; for (size_t i = 0; i < n; i++) { if (i) r += ','; r += std::to_string(p[i]); } return r + "]"; }
static S num(uint64_t v, int n) { unsigned char b[8]; for (int i = 0; i < n; i++) b[i] = v >> (8 * i); return list(b, n); }
static S big(const mpz_t v, size_t n) {
    size_t len = mpz_sgn(v) ? (mpz_sizeinbase(v, 2) + 7) / 8 : 0; if (len < n) len = n;
    std::vector<unsigned char> b(len + 8); size_t c; mpz_export(b.data(), &c, -1, 1, -1, 0, v); return list(b.data(), len);
}
template <class F> static bool ok(F f) {
    try { f(); return true; }
    catch (const std::exception &) {}
    catch (std::invalid_argument *e) { delete e; } catch (std::range_error *e) { delete e; } catch (std::exception *) {} catch (...) {}
    return false;
}
static const char *st(bool b) { return b ? "ok" : "err"; }
int main(int argc, char **argv) {
    S dir = argv[1], line; std::map<int, std::unique_ptr<BinFile>> rs; int files = 0;
    setvbuf(stdout, 0, _IOLBF, 1 << 16);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); S c; int r; if (!(in >> c >> r)) continue;
        printf("{\"k\":\"%s\",\"r\":%d", c.c_str(), r); fflush(stdout);
        if (c == "new") { rs.clear(); }
        else if (c == "open") {
            S src, h, ty; uint32_t max; in >> src >> ty >> max >> h; std::vector<unsigned char> raw;
            for (size_t i = 0; i + 1 < h.size(); i += 2) raw.push_back(strtol(h.substr(i, 2).c_str(), 0, 16));
            unsigned char *buf = (unsigned char *)malloc(raw.size()); memcpy(buf, raw.data(), raw.size());
            std::unique_ptr<BinFile> f; bool o;
            if (src == "mem") o = ok([&] { f.reset(new BinFile(buf, raw.size(), ty, max)); });
            else {
                S name = dir + "/f" + std::to_string(files++); FILE *w = fopen(name.c_str(), "wb"); fwrite(buf, 1, raw.size(), w); fclose(w);
                o = ok([&] { if (src == "disk") f.reset(new BinFile(name, ty, max)); else f = openExisting(name, ty, max); });
                w = fopen(name.c_str(), "r+b"); for (size_t i = 0; i < raw.size(); i++) fputc(0xA5, w); fclose(w); unlink(name.c_str());
            }
            memset(buf, 0x5A, raw.size()); free(buf);
            if (o) rs[r] = std::move(f);
            printf(",\"src\":\"%s\",\"ty\":%s,\"max\":%s,\"b\":%s,\"st\":\"%s\"}\n", src.c_str(), list((const unsigned char *)ty.data(), ty.size()).c_str(), num(max, 4).c_str(), list(raw.data(), raw.size()).c_str(), st(o));
            continue;
        }
        else if (c == "missing") { bool o = ok([&] { BinFile f(dir + "/nothing-here", "zkey", 1); }); printf(",\"st\":\"%s\"", st(o)); }
        else {
            BinFile *f = rs[r].get(); if (!f) { puts(",\"none\":1}"); continue; }      // it was refused: that event is judged
            if (c == "start") { uint32_t id, pos; in >> id >> pos; bool o = ok([&] { f->startReadSection(id, pos); }); printf(",\"id\":%s,\"pos\":%s,\"st\":\"%s\"", num(id, 4).c_str(), num(pos, 4).c_str(), st(o)); }
            else if (c == "end") { int ch; in >> ch; bool o = ok([&] { if (ch == 2) f->endReadSection(); else f->endReadSection(ch); }); printf(",\"check\":%d,\"st\":\"%s\"", ch != 0, st(o)); }
            else if (c == "size") { uint32_t id, pos; in >> id >> pos; uint64_t v = 0; bool o = ok([&] { v = f->getSectionSize(id, pos); }); printf(",\"id\":%s,\"pos\":%s,\"st\":\"%s\",\"v\":%s", num(id, 4).c_str(), num(pos, 4).c_str(), st(o), num(v, 8).c_str()); }
            else if (c == "data") {
                uint32_t id, pos; in >> id >> pos; void *p = 0; uint64_t n = 0; bool o = ok([&] { p = f->getSectionData(id, pos); }); if (o) ok([&] { n = f->getSectionSize(id, pos); });
                printf(",\"id\":%s,\"pos\":%s,\"st\":\"%s\",\"v\":%s", num(id, 4).c_str(), num(pos, 4).c_str(), st(o), list((unsigned char *)p, o ? n : 0).c_str());
            }
            else if (c == "u32") printf(",\"v\":%s", num(f->readU32LE(), 4).c_str());
            else if (c == "u64") printf(",\"v\":%s", num(f->readU64LE(), 8).c_str());
            else if (c == "read") { uint64_t n; in >> n; void *p = f->read(n); printf(",\"n\":%lu,\"v\":%s", (unsigned long)n, list((unsigned char *)p, n).c_str()); }
            else if (c == "close") rs.erase(r);
            else if (c == "zkey") {
                std::unique_ptr<ZKeyUtils::Header> h; bool o = ok([&] { h = ZKeyUtils::loadHeader(f); });
                printf(",\"st\":\"%s\"", st(o));
                if (o) {
                    auto at = [&](void *p, int k) { return list((unsigned char *)p, (size_t)h->n8q * k); };
                    printf(",\"n8q\":%s,\"q\":%s,\"n8r\":%s,\"p\":%s,\"nVars\":%s,\"nPublic\":%s,\"domain\":%s,\"nCoefs\":%s", num(h->n8q, 4).c_str(), big(h->qPrime, h->n8q).c_str(), num(h->n8r, 4).c_str(), big(h->rPrime, h->n8r).c_str(), num(h->nVars, 4).c_str(), num(h->nPublic, 4).c_str(), num(h->domainSize, 4).c_str(), num(h->nCoefs, 8).c_str());
                    printf(",\"alpha1\":%s,\"beta1\":%s,\"beta2\":%s,\"gamma2\":%s,\"delta1\":%s,\"delta2\":%s", at(h->vk_alpha1, 2).c_str(), at(h->vk_beta1, 2).c_str(), at(h->vk_beta2, 4).c_str(), at(h->vk_gamma2, 4).c_str(), at(h->vk_delta1, 2).c_str(), at(h->vk_delta2, 4).c_str());
                }
            }
            else if (c == "wtns") {
                std::unique_ptr<WtnsUtils::Header> h; bool o = ok([&] { h = WtnsUtils::loadHeader(f); });
                printf(",\"st\":\"%s\"", st(o));
                if (o) printf(",\"n8\":%s,\"p\":%s,\"nVars\":%s", num(h->n8, 4).c_str(), big(h->prime, h->n8).c_str(), num(h->nVars, 4).c_str());
            }
            else { fprintf(stderr, "unknown %s\n", c.c_str()); return 3; }
        }
        puts("}");
    }
    return 0;
}
