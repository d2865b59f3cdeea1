// Makes, uses and drops objects of the library and calls its functions, printing what each call takes and gives back.
#include "track.hpp"
#include <alt_bn128.hpp>
#include <fft.hpp>
#include <binfile_utils.hpp>
#include <zkey_utils.hpp>
#include <wtns_utils.hpp>
#include <splitparstr.hpp>
#include <naf.hpp>
#include <functional>
#include <iostream>
#include <map>
#include <memory>
#include <sstream>
#include <vector>
#include <sys/stat.h>
#include <unistd.h>
using namespace AltBn128; typedef std::string S;
struct Obj { virtual ~Obj() {} virtual std::function<void()> use(std::istringstream &) = 0; };
static S dir; static int files;
static std::map<S, Obj *> objs;
static std::vector<unsigned char> unhex(const S &h) { std::vector<unsigned char> r; for (size_t i = 0; i + 1 < h.size(); i += 2) r.push_back(strtol(h.substr(i, 2).c_str(), 0, 16)); return r; }
static volatile uint64_t sink;
struct FftObj : Obj {
    FFT<RawFr> f; FftObj(uint64_t d) : f(d) {}
    std::function<void()> use(std::istringstream &in) override {
        S op; unsigned n; in >> op >> n; static std::vector<RawFr::Element> a; a.resize(n); for (unsigned i = 0; i < n; i++) Fr.fromUI(a[i], i * 77 + 3);
        if (op == "fft") return [this, n] { f.fft(a.data(), n); };
        if (op == "ifft") return [this, n] { f.ifft(a.data(), n); };
        if (op == "log2") return [this, n] { sink = f.log2(n); };
        return [this] { RawFr::Element e; Fr.copy(e, f.root(1, 1)); };
    }
};
struct PoolObj : Obj {
    ThreadPool p; PoolObj(int n) : p(n) {}
    std::function<void()> use(std::istringstream &in) override {
        S op; int n; in >> op >> n;
        if (op == "block") return [this] { p.parallelBlock([](int k, int n) { sink = k + n; }); };
        if (op == "wide") { uint64_t a = n, b = 2, c = 3, d = 4, e = 5; return [=] { p.parallelFor(0, n, [=](int x, int y, int k) { sink = a + b + c + d + e + x + y + k; }); }; }
        return [this, n] { p.parallelFor(0, n, [](int b, int e, int k) { sink = b + e + k; }); };
    }
};
struct FileObj : Obj {
    std::unique_ptr<BinFileUtils::BinFile> f;
    std::function<void()> use(std::istringstream &in) override {
        S op; uint32_t a = 0, b = 0; in >> op >> a >> b;
        if (op == "start") return [=] { f->startReadSection(a, b); };
        if (op == "end") return [=] { f->endReadSection(a); };
        if (op == "size") return [=] { sink = f->getSectionSize(a, b); };
        if (op == "data") return [=] { sink = (uint64_t)f->getSectionData(a, b); };
        if (op == "u32") return [=] { sink = f->readU32LE(); };
        if (op == "u64") return [=] { sink = f->readU64LE(); };
        return [=] { sink = (uint64_t)f->read(a); };
    }
};
struct WtnsObj : Obj { std::unique_ptr<WtnsUtils::Header> h; std::function<void()> use(std::istringstream &) override { return [this] { sink = h->nVars; }; } };
struct ZkeyObj : Obj { std::unique_ptr<ZKeyUtils::Header> h; std::function<void()> use(std::istringstream &) override { return [this] { sink = h->nVars; }; } };
struct FieldObj : Obj {
    F2Field<RawFq> f; FieldObj(const S &nr) : f(nr) {}
    std::function<void()> use(std::istringstream &in) override { return [this] { F2Element a, r; f.fromString(a, "(5,((7)))"); f.inv(r, a); f.mul(r, r, a); f.toString(r); f.toString(a, 16); }; }
};
struct CurveObj : Obj {
    Curve<RawFq> c; CurveObj(const S &a) : c(F1, a, "3", "1", "2") {}
    std::function<void()> use(std::istringstream &in) override { return [this] { uint8_t s[2] = {200, 3}; G1Point p; c.mulByScalar(p, c.one(), s, 2); c.add(p, p, c.one()); c.toString(p); }; }
};
struct EngineObj : Obj { Engine e; std::function<void()> use(std::istringstream &) override { return [this] { G2Point p; e.g2.dbl(p, e.g2.one()); e.g2.toString(p); }; } };
// makes the object inside the tracked region; left: what it made
static Obj *made;
static std::function<void()> make(const S &kind, std::istringstream &in) {
    if (kind == "fft") { uint64_t d; in >> d; return [d] { made = new FftObj(d); }; }
    if (kind == "pool") { int n; in >> n; return [n] { made = new PoolObj(n); }; }
    if (kind == "field") { S s; in >> s; return [s] { made = new FieldObj(s); }; }
    if (kind == "curve") { S s; in >> s; return [s] { made = new CurveObj(s); }; }
    if (kind == "engine") return [] { made = new EngineObj(); };
    if (kind == "file") {
        S src, ty, h; uint32_t max; in >> src >> ty >> max >> h; auto raw = unhex(h);
        if (src == "mem") return [=] { std::unique_ptr<FileObj> o(new FileObj); o->f.reset(new BinFileUtils::BinFile((void *)raw.data(), raw.size(), ty, max)); made = o.release(); };
        S name = dir + "/f" + std::to_string(files++);
        if (src != "none") { FILE *w = fopen(name.c_str(), "wb"); fwrite(raw.data(), 1, raw.size(), w); fclose(w); }
        bool ex = src == "exist";
        return [=] { std::unique_ptr<FileObj> o(new FileObj); if (ex) o->f = BinFileUtils::openExisting(name, ty, max); else o->f.reset(new BinFileUtils::BinFile(name, ty, max)); made = o.release(); };
    }
    if (kind == "wtns" || kind == "zkey") {
        S o; in >> o; FileObj *f = dynamic_cast<FileObj *>(objs[o]); if (!f) { fprintf(stderr, "no file %s\n", o.c_str()); exit(3); }
        if (kind == "wtns") return [f] { std::unique_ptr<WtnsObj> h(new WtnsObj); h->h = WtnsUtils::loadHeader(f->f.get()); made = h.release(); };
        return [f] { std::unique_ptr<ZkeyObj> h(new ZkeyObj); h->h = ZKeyUtils::loadHeader(f->f.get()); made = h.release(); };
    }
    fprintf(stderr, "unknown kind %s\n", kind.c_str()); exit(3);
}
template <class C, class P> static std::function<void()> sums(C &c, const S &op, unsigned n, unsigned ss, unsigned nt) {
    auto b = std::make_shared<std::vector<P>>(n); auto s = std::make_shared<std::vector<uint8_t>>(n * ss + 1); typename C::Point q; c.copy(q, c.one());
    for (unsigned i = 0; i < n; i++) { c.copy((*b)[i], q); c.dbl(q, q); } for (unsigned i = 0; i < n * ss; i++) (*s)[i] = i * 37 + 11;
    return [=, &c] { typename C::Point r; uint64_t x[2] = {n / 2 + 1, n / 3};
        if (op == "msm") c.multiMulByScalarMSM(r, b->data(), s->data(), ss, n, nt); else if (op == "mex") c.multiMulByScalar(r, b->data(), s->data(), ss, n, nt); else c.multiMulByScalar(r, b->data(), s->data(), ss, n, 2, x, nt); };
}
#define DECL(NS) void NS##_toMpz(mpz_t, P##NS##Element); void NS##_fromMpz(P##NS##Element, mpz_t);
DECL(Fr) DECL(Fq)
#define FIELD(NS, R, n) \
static std::function<void()> f_##NS(const S &op, std::istringstream &in) { \
    S v, w; in >> v >> w; if (w.empty()) w = "1"; int num = atoi(v.c_str()); unsigned radix = 10; in >> radix; \
    auto &F = R::field; \
    auto el = std::make_shared<std::vector<std::remove_pointer<P##NS##Element>::type>>(4); auto raw = std::make_shared<std::vector<R::Element>>(4); auto buf = std::make_shared<std::vector<uint8_t>>(512); \
    if (op != "parse" && op != "fromString") { NS##_str2element(&(*el)[0], v.c_str()); NS##_str2element(&(*el)[1], w.c_str()); if (radix == 16) { NS##_toMontgomery(&(*el)[0], &(*el)[0]); } F.fromString((*raw)[0], v); F.fromString((*raw)[1], w); } \
    auto e = el->data(); auto r = raw->data(); auto d = buf->data(); \
    if (op == "parse") return [=] { (void)el; NS##_str2element(e, v.c_str()); }; \
    if (op == "print") return [=] { (void)el; char *s = NS##_element2str(e); S k = track_kind(s); if (k == "arr") delete[] s; else if (k == "new") delete s; else free(s); }; \
    if (op == "idiv") return [=] { (void)el; NS##_idiv(e + 2, e, e + 1); }; \
    if (op == "mod") return [=] { (void)el; NS##_mod(e + 2, e, e + 1); }; \
    if (op == "pow") return [=] { (void)el; NS##_pow(e + 2, e, e + 1); }; \
    if (op == "inv") return [=] { (void)el; NS##_inv(e + 2, e); }; \
    if (op == "div") return [=] { (void)el; NS##_div(e + 2, e, e + 1); }; \
    if (op == "small") return [=] { (void)el; NS##_add(e + 2, e, e + 1); NS##_sub(e + 2, e, e + 1); NS##_mul(e + 2, e, e + 1); NS##_square(e + 2, e); NS##_neg(e + 2, e); NS##_band(e + 2, e, e + 1); NS##_shl(e + 2, e, e + 1); NS##_shr(e + 2, e, e + 1); NS##_lt(e + 2, e, e + 1); NS##_eq(e + 2, e, e + 1); NS##_toNormal(e + 2, e); NS##_toMontgomery(e + 2, e); NS##_copy(e + 3, e); sink = NS##_isTrue(e); }; \
    if (op == "mpz") return [=] { (void)el; mpz_t m; mpz_init(m); NS##_toMpz(m, e); NS##_fromMpz(e + 2, m); mpz_clear(m); }; \
    if (op == "fromString") return [=] { (void)raw; R::field.fromString(r[2], v, radix); }; \
    if (op == "toString") return [=] { (void)raw; R::field.toString(r[0], radix); }; \
    if (op == "fromUI") return [=] { (void)raw; R::field.fromUI(r[2], (unsigned long)num * 1234567891011UL); }; \
    if (op == "set") return [=] { (void)raw; R::field.set(r[2], num); r[3] = R::field.set(-num); }; \
    if (op == "rinv") return [=] { (void)raw; R::field.inv(r[2], r[0]); }; \
    if (op == "rdiv") return [=] { (void)raw; R::field.div(r[2], r[0], r[1]); }; \
    if (op == "rexp") return [=] { (void)raw; uint8_t s[4] = {7, 1, 0, 200}; R::field.exp(r[2], r[0], s, 4); }; \
    if (op == "rmpz") return [=] { (void)raw; mpz_t m; mpz_init(m); R::field.toMpz(m, r[0]); R::field.fromMpz(r[2], m); mpz_clear(m); }; \
    if (op == "toBE") return [=] { (void)raw; (void)buf; sink = R::field.toRprBE(r[0], d, 256); }; \
    if (op == "toBEshort") return [=] { (void)raw; (void)buf; sink = R::field.toRprBE(r[0], d, 5); }; \
    if (op == "fromBE") return [=] { (void)raw; (void)buf; sink = R::field.fromRprBE(r[2], d, 256); }; \
    if (op == "fromBEshort") return [=] { (void)raw; (void)buf; sink = R::field.fromRprBE(r[2], d, 5); }; \
    if (op == "object") return [=] { R x; R::Element a; x.copy(a, x.one()); }; \
    fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
FIELD(Fr, RawFr, 4)
FIELD(Fq, RawFq, 4)
static std::function<void()> plain(const S &grp, std::istringstream &in) {
    if (grp == "fr" || grp == "fq") { S op; in >> op; return grp == "fr" ? f_Fr(op, in) : f_Fq(op, in); }
    if (grp == "g1" || grp == "g2") {
        S op; unsigned n, ss, nt; in >> op >> n >> ss >> nt;
        if (op == "msm" || op == "mex" || op == "sec") return grp == "g1" ? sums<Curve<RawFq>, G1PointAffine>(G1, op, n, ss, nt) : sums<Curve<F2Field<RawFq>>, G2PointAffine>(G2, op, n, ss, nt);
        if (grp == "g1") return [=] { std::vector<uint8_t> s(ss, 0xB7); G1Point p; G1PointAffine a; G1.mulByScalar(p, G1.one(), s.data(), ss); G1.copy(a, p); G1.mulByScalar(p, a, s.data(), ss); G1.toString(p); G1.toString(p, 16); sink = G1.eq(p, a); };
        return [=] { std::vector<uint8_t> s(ss, 0xB7); G2Point p; G2PointAffine a; G2.mulByScalar(p, G2.one(), s.data(), ss); G2.copy(a, p); G2.mulByScalar(p, a, s.data(), ss); G2.toString(p); G2.toString(p, 16); sink = G2.eq(p, a); };
    }
    if (grp == "tower") { return [] {
        F2Element a, b; AltBn128::F2.fromString(a, "(3,(4))"); AltBn128::F2.inv(b, a); AltBn128::F2.toString(b, 16);
        F6Element x, y; AltBn128::F6.fromString(x, "((1,2),(3,4),(5,6))"); AltBn128::F6.inv(y, x); AltBn128::F6.mul(y, y, x); AltBn128::F6.Frobenius(y, x); AltBn128::F6.toString(y);
        F12Element v, w; AltBn128::F12.copy(v, AltBn128::F12.one()); AltBn128::F6.copy(v.x, x); AltBn128::F12.inv(w, v); uint8_t s[3] = {9, 0, 77}; AltBn128::F12.exp(w, v, s, 3); AltBn128::F12.toString(w); AltBn128::F12.fromString(v, AltBn128::F12.toString(w)); }; }
    if (grp == "naf") { unsigned n; in >> n; return [n] { std::vector<uint8_t> s(n, 0x6E), r((n + 2) * 8); buildNaf(r.data(), s.data(), n); }; }
    if (grp == "split") { S h; in >> h; auto v = unhex(h); S t(v.begin(), v.end()); return [t] { splitParStr(t); }; }
    if (grp == "divide") { int n, t; in >> n >> t; return [n, t] { ThreadPool::divideWork(n, t); }; }
    fprintf(stderr, "unknown group %s\n", grp.c_str()); exit(3);
}
static bool run(const std::function<void()> &f) {
    bool ok = true; alarm(90); track_on(true);
    try { f(); }
    catch (std::invalid_argument *e) { ok = false; delete e; } catch (std::range_error *e) { ok = false; delete e; }
    catch (const std::exception &) { ok = false; }
    track_on(false); alarm(0); return ok;
}
int main(int, char **argv) {
    dir = argv[1]; S line; static char ob[1 << 16]; setvbuf(stdout, ob, _IOFBF, sizeof ob);
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); S c, o, k; int w; if (!(in >> c)) continue;
        if (c == "fail") { int t, s; in >> t >> s; track_fail(t, s); continue; }
        in >> w; std::function<void()> f; bool quiet = false;
        if (c == "plain") { in >> k; f = plain(k, in); }
        else { in >> o; if (c == "make") { in >> k; f = make(k, in); made = 0; }
            else { if (!objs.count(o)) { fprintf(stderr, "no object %s\n", o.c_str()); return 3; } if (c == "use") f = objs[o]->use(in); else { Obj *p = objs[o]; f = [p] { delete p; }; } } }
        size_t at = line.find(' ', line.find(' ') + 1); S text = line.substr(at + 1); if (text.size() > 60) text.resize(60);
        printf("{\"k\":\"%s\",\"w\":%d,\"o\":\"%s\",\"op\":\"%s\"}\n", c.c_str(), w, o.c_str(), text.c_str()); fflush(stdout);
        bool ok = run(f);
        track_flush(); printf("{\"k\":\"end\",\"st\":\"%s\"}\n", ok ? "ok" : "refused"); fflush(stdout); track_fail(0, 0);
        if (c == "make" && ok) objs[o] = made;
        if (c == "drop") objs.erase(o);
    }
    _exit(0);
}
