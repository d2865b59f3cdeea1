// The programs: instrumented together with the code under test.
#include "progs.hpp"
#include <sstream>
#include <memory>
#include <stdexcept>
#include <cstdio>
#include "../grp/toy.hpp"
#include <iostream>
#include <splitparstr.hpp>
#include <misc.hpp>
#include <fft.hpp>
#include <curve.hpp>
#define VP_ALT
#include "../grp/zgroup.hpp"
uint32_t Toy::P = 97;
Toy Toy::field;
uint64_t Toy::bad() { abort(); }
std::map<std::string, Handler> &handlers() { static std::map<std::string, Handler> h; return h; }
FILE *vp_out;
static std::string S(long v) { return std::to_string(v); }

static void poolProg(const std::string &text) {
    std::istringstream in(text); std::string w; std::unique_ptr<ThreadPool> pool; int nt = 1;
    auto piece = [](int b, int e, int k) {
        vp_line("{\"k\":\"start\",\"t\":" + S(vp_self()) + ",\"b\":" + S(b) + ",\"e\":" + S(e) + ",\"w\":" + S(k) + "}");
        vp_point();
        vp_line("{\"k\":\"end\",\"t\":" + S(vp_self()) + ",\"b\":" + S(b) + ",\"e\":" + S(e) + ",\"w\":" + S(k) + "}");
    };
    while (in >> w) {
        if (w == "new") { in >> nt; pool.reset(new ThreadPool(nt)); vp_line("{\"k\":\"new\",\"t\":0,\"nt\":" + S(pool->getThreadCount()) + ",\"want\":" + S(nt) + "}"); }
        else if (w == "for") {
            int b, e; in >> b >> e; vp_line("{\"k\":\"for\",\"t\":0,\"b\":" + S(b) + ",\"e\":" + S(e) + "}");
            pool->parallelFor(b, e, [&](int b, int e, int k) { piece(b, e, k); });
            vp_line("{\"k\":\"ret\",\"t\":0}");
        } else if (w == "block") {
            vp_line("{\"k\":\"block\",\"t\":0}");
            pool->parallelBlock([&](int k, int n) { piece(k, n, k); });
            vp_line("{\"k\":\"ret\",\"t\":0}");
        } else if (w == "del") { vp_line("{\"k\":\"del\",\"t\":0}"); pool.reset(); vp_line("{\"k\":\"gone\",\"t\":0}"); }
        else if (w == "pause") vp_point();
    }
    vp_line("{\"k\":\"exit\",\"t\":0}");
}
static uint64_t mix(uint64_t &x) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; return x; }
static void res(const std::string &s) { vp_line("{\"k\":\"res\",\"t\":0,\"v\":\"" + s + "\"}"); }
static void algo(const std::string &text) {
    std::istringstream in(text); std::string w; in >> w; std::string r;
    uint64_t x = 88172645463325252ULL;
    if (w == "fft" || w == "ifft" || w == "roots") {
        unsigned p, dom, n; in >> p >> dom >> n; Toy::setPrime(p);
        FFT<Toy> f(dom);
        if (w == "roots") { unsigned d = f.log2(dom); for (unsigned i = 0; i < (1u << d); i++) r += Toy::field.toString(f.root(d, i)) + " "; res(r); return; }
        std::unique_ptr<Toy::Element[]> a(new Toy::Element[n]);
        for (unsigned i = 0; i < n; i++) Toy::field.fromUI(a[i], mix(x) % p);
        if (w == "fft") f.fft(a.get(), n); else f.ifft(a.get(), n);
        for (unsigned i = 0; i < n; i++) r += Toy::field.toString(a[i]) + " ";
        res(r);
    } else if (w == "msm" || w == "mex" || w == "sec") {
        unsigned nt, ss, n; in >> nt >> ss >> n;
        static ZGroup G; std::vector<ZGroup::PointAffine> b(n); std::vector<uint8_t> s(n * ss); std::vector<uint64_t> sec;
        for (auto &e : b) ZGroup::set(e, mix(x) % 5 ? mix(x) : 0);
        for (auto &e : s) { uint64_t v = mix(x); e = v % 7 ? v >> 8 : v % 2 ? 255 : 0; }
        unsigned long v; while (in >> v) sec.push_back(v);
        ZGroup::Point q; ZGroup::set(q, 0);
        if (w == "msm") { MSM<ZGroup, Toy> m(G); m.run(q, b.data(), s.data(), ss, n); }
        else { ParallelMultiexp<ZGroup> m(G); if (w == "mex") m.multiexp(q, b.data(), s.data(), ss, n, nt); else m.multiexp(q, b.data(), s.data(), ss, n, sec.size(), sec.data(), nt); }
        char t[32]; snprintf(t, sizeof t, "%llx", (unsigned long long)q.v); res(t);
    } else if (w == "cmsm" || w == "cmex") {
        unsigned nt, ss, n; in >> nt >> ss >> n; Toy::setPrime(97);
        Curve<Toy> c(Toy::field, "2", "3", "3", "6");      // y^2 = x^3 + 2x + 3 modulo 97
        std::vector<Curve<Toy>::PointAffine> b(n); std::vector<uint8_t> s(n * ss);
        Curve<Toy>::Point q; c.copy(q, c.one());
        for (auto &e : b) { if (mix(x) % 6 == 0) c.copy(e, c.zeroAffine()); else { c.copy(e, q); c.dbl(q, q); if (mix(x) % 3 == 0) c.add(q, q, c.one()); } }
        for (auto &e : s) e = mix(x) >> 9;
        if (w == "cmsm") c.multiMulByScalarMSM(q, b.data(), s.data(), ss, n, nt); else c.multiMulByScalar(q, b.data(), s.data(), ss, n, nt);
        res(c.toString(q));
    }
}
std::function<void()> makeProg(const std::string &text) {
    std::istringstream in(text); std::string w; in >> w; std::string rest; std::getline(in, rest);
    if (w == "pool") return [rest] { poolProg(rest); };
    if (w == "div") return [rest] { std::istringstream in(rest); int n, t; while (in >> n >> t) { auto v = ThreadPool::divideWork(n, t); std::string s; for (int x : v) s += (s.empty() ? "" : ",") + S(x); vp_line("{\"k\":\"div\",\"t\":0,\"n\":" + S(n) + ",\"nt\":" + S(t) + ",\"v\":[" + s + "]}"); } vp_line("{\"k\":\"exit\",\"t\":0}"); };
    if (w == "log2") return [rest] { std::istringstream in(rest); unsigned long n; while (in >> n) vp_line("{\"k\":\"log2\",\"t\":0,\"n\":" + std::to_string(n) + ",\"v\":" + std::to_string(log2((uint32_t)n)) + "}"); vp_line("{\"k\":\"exit\",\"t\":0}"); };
    std::string all = text; return [all] { algo(all); };
}
