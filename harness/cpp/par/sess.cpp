// Sessions over objects of their own, side by side in several threads: instrumented together with the code under test.
#include "progs.hpp"
#include <sstream>
#include <memory>
#include <thread>
#include <stdexcept>
#include <cstdio>
#include <semaphore.h>
#include <alt_bn128.hpp>
#include <misc.hpp>
#include <binfile_utils.hpp>
#include <zkey_utils.hpp>
#include <wtns_utils.hpp>
#include <splitparstr.hpp>
#include <naf.hpp>
#define VP_ALT
#include "../grp/zgroup.hpp"
std::map<std::string, Handler> &handlers() { static std::map<std::string, Handler> h; return h; }
FILE *vp_out;
#define DECL(NS) void NS##_toMpz(mpz_t, P##NS##Element); void NS##_fromMpz(P##NS##Element, mpz_t);
DECL(Fr) DECL(Fq)
typedef std::string S;
static S dir;
struct Rnd { uint64_t x; uint64_t operator()() { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; } unsigned operator()(unsigned n) { return (*this)() % n; } };
static S num(Rnd &g) {      // decimal text of some size
    static const char *const some[] = {"0", "1", "-1", "2147483647", "-2147483648", "4294967296", "21888242871839275222246405745257275088548364400416034343698204186575808495616"};
    if (g(3) == 0) return some[g(7)];
    S s; unsigned n = 1 + g(78); for (unsigned i = 0; i < n; i++) s += '0' + (i ? g(10) : 1 + g(9)); return s;
}
static S hex(const void *p, size_t n) { S r; char t[3]; for (size_t i = 0; i < n; i++) { snprintf(t, 3, "%02x", ((const uint8_t *)p)[i]); r += t; } return r; }
#define FIELD(NS, R) \
static S t_##NS(Rnd &g) {      /* the tagged layer */ \
    NS##Element a, b, r; S o; \
    NS##_str2element(&a, num(g).c_str()); NS##_str2element(&b, num(g).c_str()); if (g(2)) NS##_toMontgomery(&a, &a); if (g(2)) NS##_toNormal(&b, &b); \
    static void (*const bin[])(P##NS##Element, P##NS##Element, P##NS##Element) = {NS##_add, NS##_sub, NS##_mul, NS##_band, NS##_bor, NS##_bxor, NS##_shl, NS##_shr, NS##_lt, NS##_gt, NS##_leq, NS##_geq, NS##_eq, NS##_neq, NS##_land, NS##_lor, NS##_pow}; \
    bin[g(17)](&r, &a, &b); char *s = NS##_element2str(&r); o += s; o += ","; free(s); \
    switch (g(9)) { case 0: NS##_square(&r, &a); break; case 1: NS##_neg(&r, &b); break; case 2: NS##_bnot(&r, &a); break; case 3: NS##_lnot(&r, &b); break; case 4: NS##_copy(&r, &a); break; \
        case 5: if (NS##_isTrue(&b)) NS##_idiv(&r, &a, &b); break; case 6: if (NS##_isTrue(&b)) NS##_mod(&r, &a, &b); break; case 7: if (NS##_isTrue(&b)) NS##_div(&r, &a, &b); break; default: if (NS##_isTrue(&a)) NS##_inv(&r, &a); } \
    s = NS##_element2str(&r); o += s; free(s); \
    mpz_t m; mpz_init(m); NS##_toMpz(m, &r); mpz_add_ui(m, m, g(1000)); NS##_fromMpz(&a, m); mpz_clear(m); s = NS##_element2str(&a); o += ","; o += s; free(s); \
    return o; \
} \
static S c_##NS(Rnd &g) {      /* the class: the shared object or one made here */ \
    R own; R &F = g(2) ? R::field : own; R::Element a, b, r; S o; \
    F.fromString(a, std::to_string(g())); if (g(2)) F.fromString(b, S(num(g)).substr(0, 1) == "-" ? "77" : std::to_string(g())); else F.fromUI(b, g()); \
    switch (g(10)) { case 0: F.add(r, a, b); break; case 1: F.sub(r, a, b); break; case 2: F.mul(r, a, b); break; case 3: F.square(r, a); break; case 4: F.neg(r, a); break; \
        case 5: F.copy(r, a); if (!F.isZero(a)) F.inv(r, a); break; case 6: F.copy(r, b); if (!F.isZero(b)) F.div(r, a, b); break; case 7: { uint8_t s[3] = {(uint8_t)g(), (uint8_t)g(), (uint8_t)g()}; F.exp(r, a, s, 1 + g(3)); break; } \
        case 8: F.set(r, (int)g()); break; default: F.mul1(r, a, 1 + g(1000)); } \
    o = F.toString(r, 2 + g(35)); uint8_t d[40]; memset(d, 0, sizeof d); F.toRprBE(r, d, 40); o += "," + hex(d, 32); F.fromRprBE(b, d, 32); o += F.eq(r, b) ? "=" : "#"; \
    mpz_t m; mpz_init(m); F.toMpz(m, r); F.fromMpz(b, m); mpz_clear(m); o += F.eq(r, b) ? "=" : "#"; o += F.toString(b); \
    return o; }
FIELD(Fr, RawFr)
FIELD(Fq, RawFq)
using namespace AltBn128;
// a few operations of one level, on elements of its own; the field is shared or the session's own
template <class Fi, class B> static void common(Fi &F, B &below, Rnd &g, typename Fi::Element &x, typename Fi::Element &y, typename B::Element &c, S &o) {
    switch (g(15)) {
    case 0: F.add(x, x, y); break; case 1: F.sub(y, x, y); break; case 2: F.neg(x, y); break; case 3: F.mul(y, x, y); break; case 4: F.mulScalar(x, y, c); break;
    case 5: F.square(y, x); break; case 6: F.add(x, x, x); break; case 7: case 8: if (!F.isZero(x)) F.inv(x, x); break; case 9: case 10: if (!F.isZero(y)) F.div(x, x, y); break;
    case 11: o += F.eq(x, y) ? "=" : "#"; F.copy(y, x); break; case 12: o += F.isOne(x) ? "1" : "-"; F.copy(x, F.one()); F.add(x, x, y); break; case 13: o += F.toString(x, 2 + g(35)); break;
    default: { typename Fi::Element t; F.fromString(t, F.toString(x)); o += F.eq(t, x) ? "=" : "#"; F.mul(y, t, F.negOne()); } }
}
static void some(F2Element &x, Rnd &g) { F1.fromUI(x.a, g()); F1.fromUI(x.b, g()); }
static void some(F6Element &x, Rnd &g) { some(x.x, g); some(x.y, g); some(x.z, g); }
static S towers(Rnd &g) {
    S o; unsigned n = 2 + g(3); static F6Field<F2Field<RawFq>> another6; static F12Field<F6Field<F2Field<RawFq>>> another12;
    switch (g(3)) {
    case 0: { F2Field<RawFq> own(g(2) ? "-1" : "5"); bool mine = g(2); F2Field<RawFq> &F = mine ? own : F2; F2Element x, y; F1Element c; some(x, g); some(y, g); F1.fromUI(c, g());
        while (n--) switch (g(7)) { case 0: F.conjugate(y, x); break; case 2: F.dbl(y, x); break; case 1: if (!mine) F.mulXi(x, y); break; default: common(F, F1, g, x, y, c, o); }
        return o + F.toString(x) + F.toString(y, 16); }
    case 1: { F6Field<F2Field<RawFq>> own; auto &F = g(2) ? own : g(2) ? F6 : another6; F6Element x, y; F2Element c; F1Element d; some(x, g); some(y, g); some(c, g); F1.fromUI(d, g());
        while (n--) switch (g(10)) { case 0: F.mulTau(x, y); break; case 4: F.dbl(x, y); break; case 1: F.mulGFP(y, x, d); break; case 2: F.Frobenius(x, y); break; case 3: F.FrobeniusP2(y, x); break; default: common(F, F2, g, x, y, c, o); }
        return o + F.toString(x) + F.toString(y, 16); }
    default: { F12Field<F6Field<F2Field<RawFq>>> own; auto &F = g(2) ? own : g(2) ? F12 : another12; F12Element x, y; F6Element c; some(x.x, g); some(x.y, g); some(y.x, g); some(y.y, g); some(c, g);
        while (n--) switch (g(9)) { case 0: F.conjugate(x, y); break; case 1: { uint8_t s[2] = {(uint8_t)g(), (uint8_t)g()}; F.exp(y, x, s, 1 + g(2)); break; } case 2: F.Frobenius(x, y); break; case 3: F.FrobeniusP2(y, x); break; default: common(F, F6, g, x, y, c, o); }
        return o + F.toString(x) + F.toString(y, 16); } }
}
template <class C> static S group(C &c, Rnd &g) {
    typename C::Point p, q; typename C::PointAffine a, b; uint8_t s[2] = {(uint8_t)g(), (uint8_t)g()}; S o;
    if (g(2)) c.mulByScalar(p, c.one(), s, 1 + g(2)); else c.mulByScalar(p, c.oneAffine(), s, 1 + g(2));
    c.copy(a, p); c.dbl(q, a); c.copy(b, q);
    for (unsigned n = 2 + g(4); n--;) switch (g(24)) {
        case 0: c.add(q, q, a); break; case 1: c.add(q, p, q); break; case 2: c.add(p, a, b); break; case 3: c.add(q, a, p); break; case 4: c.add(a, p, q); break; case 5: c.add(b, p, a); break; case 6: c.add(a, a, b); break; case 7: c.add(b, b, p); break;
        case 8: c.sub(q, p, q); break; case 9: c.sub(p, q, a); break; case 10: c.sub(p, b, a); break; case 11: c.sub(q, a, q); break; case 12: c.sub(a, q, p); break; case 13: c.sub(b, q, a); break; case 14: c.sub(a, a, b); break; case 15: c.sub(b, a, q); break;
        case 16: c.dbl(p, q); break; case 17: c.dbl(q, b); break; case 18: c.dbl(a, q); break; case 19: c.dbl(b, a); break;
        case 20: c.neg(p, q); break; case 21: c.neg(q, a); c.neg(a, b); break; case 22: c.neg(b, p); break;
        default: c.copy(p, b); o += c.eq(a, b) ? "=" : "#"; o += c.eq(p, q) ? "=" : "#"; o += c.eq(b, p) ? "=" : "#"; o += c.isZero(a) ? "0" : "-"; o += c.isZero(q) ? "0" : "-"; c.copy(p, a); o += c.toString(p, 16); }
    if (g(4) == 0) { typename C::PointAffine v[3]; uint8_t k[3] = {(uint8_t)g(), (uint8_t)g(), 3}; c.copy(v[0], a); c.copy(v[1], q); c.copy(v[2], c.oneAffine()); c.multiMulByScalar(q, v, k, 1, 3, 1); }
    return o + c.toString(q, 10) + c.toString(p, 16) + (c.eq(p, a) ? "=" : "#");
}
static S curve(Rnd &g) { Curve<RawFq> own(F1, g(2) ? "0" : "7", "3", "1", "2"); return group(own, g); }
static S naf(Rnd &g) { unsigned n = 1 + g(6); std::vector<uint8_t> s(n), r((n + 2) * 8); for (auto &x : s) x = g() >> 8; buildNaf(r.data(), s.data(), n); return hex(r.data(), 8 * n + 2); }
static S split(Rnd &g) {
    S t, o; int d = 0; unsigned n = g(12); for (unsigned i = 0; i < n; i++) { unsigned k = g(5); if (k == 0) { t += '('; d++; } else if (k == 1 && d) { t += ')'; d--; } else if (k == 2) t += ','; else t += '0' + g(10); } while (d--) t += ')';
    for (auto &x : splitParStr(t)) o += x + ";"; return o;
}
static S zgroup(Rnd &g) {
    ZGroup G; unsigned n = 1 + g(6), ss = 1 + g(9); std::vector<ZGroup::PointAffine> b(n); std::vector<uint8_t> s(n * ss); for (auto &e : b) ZGroup::set(e, g()); for (auto &e : s) e = g() >> 8;
    ZGroup::Point q; ParallelMultiexp<ZGroup> m(G); m.multiexp(q, b.data(), s.data(), ss, n, 1); return std::to_string(q.v);
}
static S pool(Rnd &g) {      // a pool of one's own
    int n = 1 + g(3); ThreadPool p(n); std::vector<int> v(9, 0); p.parallelFor(0, 9, [&](int b, int e, int) { for (int i = b; i < e; i++) v[i] += i; }); S o = std::to_string(log2(1 + g(1000)));
    for (int x : v) o += "," + std::to_string(x); for (int x : ThreadPool::divideWork(1 + g(100), n)) o += "/" + std::to_string(x); return o;
}
static void le(std::vector<uint8_t> &v, uint64_t x, int n) { for (int i = 0; i < n; i++) v.push_back(i < 8 ? x >> (8 * i) : 0); }
static S file(Rnd &g) {      // a file of one's own
    int kind = g(3); std::vector<uint8_t> v; const char *ty = kind == 0 ? "wtns" : kind == 1 ? "zkey" : "abcd"; v.insert(v.end(), ty, ty + 4); le(v, 1, 4);
    std::vector<std::pair<int, std::vector<uint8_t>>> secs; std::vector<uint8_t> d;
    if (kind == 0) { le(d, 32, 4); for (int i = 0; i < 32; i++) d.push_back(g() >> 8); le(d, 5, 4); secs.push_back({1, d}); }
    else if (kind == 1) { le(d, 1, 4); secs.push_back({1, d}); d.clear(); for (int k = 0; k < 2; k++) { le(d, 32, 4); for (int i = 0; i < 32; i++) d.push_back(g() >> 8); } le(d, 7, 4); le(d, 2, 4); le(d, 8, 4); for (int i = 0; i < 576; i++) d.push_back(i); secs.push_back({2, d}); d.assign(88, 1); secs.push_back({4, d}); }
    else { unsigned n = g(4); for (unsigned i = 0; i < n; i++) { d.clear(); unsigned m = 8 * g(4); for (unsigned j = 0; j < m; j++) d.push_back(g() >> 8); secs.push_back({(int)g(3), d}); } }
    le(v, secs.size(), 4); for (auto &s : secs) { le(v, s.first, 4); le(v, s.second.size(), 8); v.insert(v.end(), s.second.begin(), s.second.end()); }
    S o;
    try {
        std::unique_ptr<BinFileUtils::BinFile> f(new BinFileUtils::BinFile(v.data(), v.size(), g(8) ? ty : "none", 1));
        if (kind == 0) { auto h = WtnsUtils::loadHeader(f.get()); char *t = mpz_get_str(0, 16, h->prime); o = t; free(t); o += "," + std::to_string(h->nVars); }
        else if (kind == 1) { auto h = ZKeyUtils::loadHeader(f.get()); char *t = mpz_get_str(0, 16, h->qPrime); o = t; free(t); t = mpz_get_str(0, 16, h->rPrime); o += t; free(t); o += "," + std::to_string(h->nCoefs) + "," + hex(h->vk_gamma2, 4); }
        else for (int k = 0; k < 4; k++) { uint32_t id = g(4); if (g(2)) { o += std::to_string(f->getSectionSize(id)) + ","; continue; } f->startReadSection(id); uint64_t n = f->getSectionSize(id); for (uint64_t i = 0; i < n; i += 8) o += std::to_string(f->readU64LE()); f->endReadSection(g(2)); }
    } catch (std::exception *e) { o += e->what(); delete e; } catch (const std::exception &e) { o += e.what(); }
    return o;
}
static S session(const S &kinds, uint64_t seed) {
    Rnd g{seed * 0x9E3779B97F4A7C15ULL + 88172645463325252ULL}; for (int i = 0; i < 9; i++) g();
    std::istringstream in(kinds); S k, o;
    while (std::getline(in, k, ',')) {
        if (k == "tfr") o += t_Fr(g); else if (k == "tfq") o += t_Fq(g); else if (k == "cfr") o += c_Fr(g); else if (k == "cfq") o += c_Fq(g); else if (k == "tower") o += towers(g); else if (k == "g1") o += group(G1, g); else if (k == "g2") o += group(G2, g);
        else if (k == "eng") { auto &e = Engine::engine; o += group(e.g1, g); RawFr::Element x; e.fr.fromUI(x, g()); e.fr.mul(x, x, x); o += e.fr.toString(x); }
        else if (k == "curve") o += curve(g); else if (k == "naf") o += naf(g); else if (k == "split") o += split(g); else if (k == "sum") o += zgroup(g); else if (k == "pool") o += pool(g); else if (k == "file") o += file(g);
        else { fprintf(stderr, "unknown session %s\n", k.c_str()); _exit(3); }
        o += ";";
    }
    return o;
}
// par <0 or 1> <seed> <kinds>|<kinds>|...: in turn or side by side
std::function<void()> makeProg(const S &text) {
    std::istringstream in(text); S w, all; int side; uint64_t seed; in >> w >> side >> seed >> all; std::vector<S> ks; { std::istringstream t(all); S k; while (std::getline(t, k, '|')) ks.push_back(k); }
    return [=] {
        std::vector<S> out(ks.size()); S res;
        if (side) {
            std::vector<std::thread> th; sem_t gate; sem_init(&gate, 0, 0);
            for (size_t i = 0; i < ks.size(); i++) th.emplace_back([&, i] { sem_wait(&gate); out[i] = session(ks[i], seed + i); });
            for (size_t i = 0; i < ks.size(); i++) sem_post(&gate);
            for (auto &t : th) t.join();
        } else for (size_t i = 0; i < ks.size(); i++) out[i] = session(ks[i], seed + i);
        for (auto &s : out) { uint64_t h = 1469598103934665603ULL; for (unsigned char c : s) h = (h ^ c) * 1099511628211ULL; char t[40]; snprintf(t, sizeof t, "%016llx", (unsigned long long)h); res += S(t) + "."; }
        vp_line("{\"k\":\"res\",\"t\":0,\"v\":\"" + res + "\"}");
    };
}
