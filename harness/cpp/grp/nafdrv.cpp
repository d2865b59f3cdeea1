#include "zgroup.hpp"
static ZGroup G;
static std::string bitsHex(const std::vector<int> &b) {     // most significant first, no leading zeros
    std::string s; int n = b.size();
    for (int i = (n + 3) / 4 - 1; i >= 0; i--) { int v = 0; for (int j = 3; j >= 0; j--) { int k = i * 4 + j; v = v * 2 + (k < n ? b[k] : 0); } if (v || s.size() || i == 0) s += "0123456789abcdef"[v]; }
    return s;
}
static void naf1(std::vector<uint8_t> sc) {
    unsigned n = sc.size(), len = (n + 2) * 8;
    Fenced s(sc.data(), n); std::vector<uint8_t> init(len, 0x77); Fenced r(init.data(), len);
    int sg = vp_guard([&] { buildNaf(r.p, s.p, n); }, 10);
    std::vector<int> pos(8 * n + 2), neg(8 * n + 2); bool bad = false;
    for (unsigned i = 0; i < 8 * n + 2; i++) { pos[i] = r.p[i] == 1; neg[i] = r.p[i] == 2; if (r.p[i] > 2) bad = true; }
    bool cl = memcmp(s.p, sc.data(), n) || !r.frontIntact() || !s.frontIntact();
    emit("{\"k\":\"naf\",\"s\":\"" + hexs(sc.data(), n) + "\",\"p\":\"" + bitsHex(pos) + "\",\"m\":\"" + bitsHex(neg) + "\",\"bad\":" + std::to_string(bad) + ",\"sig\":" + std::to_string(sg) + ",\"cl\":" + std::to_string(cl) + "}");
}
// naf <hex>...: recode;  nafall <bytes> <from> <to>: all scalars of that many bytes
static Reg r0("naf", [](In &in) { naf1(unhex(tok(in))); });
static Reg r1("nafall", [](In &in) { unsigned n = num(in); long a = num(in), b = num(in); for (long v = a; v < b; v++) { std::vector<uint8_t> s(n); for (unsigned i = 0; i < n; i++) s[i] = v >> (8 * i); naf1(s); } });
// nm <al> <base hex> <scalar hex>: multiply in the group of integers
static Reg r2("nm", [](In &in) {
    int al = num(in); uint64_t b = strtoull(tok(in).c_str(), 0, 16); std::string h = tok(in); auto sc = unhex(h);
    Fenced s(sc.data(), sc.size()); ZGroup::Point p, r; ZGroup::PointAffine a; ZGroup::set(p, b); ZGroup::set(a, b); memset(&r, 0x5a, sizeof r);
    int sg = vp_guard([&] { if (al == 1) nafMulByScalar<ZGroup, ZGroup::Point, ZGroup::Point>(G, p, p, s.p, sc.size()); else if (al == 2) G.mulByScalar(r, a, s.p, sc.size()); else G.mulByScalar(r, p, s.p, sc.size()); }, 10);
    bool cl = (sc.size() && memcmp(s.p, sc.data(), sc.size())) || a.v != b || (al != 1 && p.v != b);
    char v[32]; snprintf(v, sizeof v, "%llx", (unsigned long long)(al == 1 ? p.v : r.v)); char bb[32]; snprintf(bb, sizeof bb, "%llx", (unsigned long long)b);
    emit(std::string("{\"k\":\"nm\",\"al\":") + std::to_string(al) + ",\"b\":\"" + bb + "\",\"s\":\"" + h + "\",\"v\":\"" + v + "\",\"sig\":" + std::to_string(sg) + ",\"cl\":" + std::to_string(cl) + "}");
});
// zsum msm|mex|sec <threads> <scalarSize> <n> (base scalar)... [nx x...]
static Reg r3("zsum", [](In &in) {
    std::string w = tok(in); unsigned nt = num(in), ss = num(in), n = num(in);
    std::vector<ZGroup::PointAffine> bs(n); std::vector<uint8_t> sc; std::string hb, hs;
    for (unsigned i = 0; i < n; i++) {
        std::string b = tok(in), h = tok(in); ZGroup::set(bs[i], strtoull(b.c_str(), 0, 16));
        auto v = unhex(h); if (v.size() != ss) { fprintf(stderr, "scalar size\n"); exit(3); }
        sc.insert(sc.end(), v.begin(), v.end()); hb += (i ? ",\"" : "\"") + b + "\""; hs += (i ? ",\"" : "\"") + h + "\"";
    }
    std::vector<uint64_t> x; std::string xs;
    if (w == "sec") { int nx = num(in); for (int i = 0; i < nx; i++) { x.push_back(strtoull(tok(in).c_str(), 0, 10)); xs += (i ? "," : "") + std::to_string(std::min<uint64_t>(x[i], 1000000000)); } }    // a size beyond any base number is as good as any other
    auto bs0 = bs; auto x0 = x; Fenced s(sc.data(), sc.size()); Fenced fb((uint8_t *)bs.data(), n * sizeof bs[0]); auto *pb = (ZGroup::PointAffine *)fb.p;
    ZGroup::Point r; memset(&r, 0x5a, sizeof r); const int ot = vp_omp();
    int sg = vp_guard([&] {
        if (w == "msm") { MSM<ZGroup, Toy> m(G); m.run(r, pb, s.p, ss, n, nt); }
        else { ParallelMultiexp<ZGroup> m(G); if (w == "mex") m.multiexp(r, pb, s.p, ss, n, nt); else m.multiexp(r, pb, s.p, ss, n, x.size(), x.data(), nt); }
    }, 60);
    bool cl = (sc.size() && memcmp(s.p, sc.data(), sc.size())) || (n && memcmp(pb, bs0.data(), n * sizeof bs[0])) || x != x0 || (sg == 0 && vp_omp() != ot);    // the caller's OpenMP setting is put back
    vp_omp(ot);
    if (r.v != r.w[0] || r.v != r.w[2] || r.v >= ZGroup::M) cl = true;
    char v[32]; snprintf(v, sizeof v, "%llx", (unsigned long long)r.v);
    emit("{\"k\":\"" + w + "\",\"nt\":" + std::to_string(nt) + ",\"ss\":" + std::to_string(ss) + ",\"n\":" + std::to_string(n) + ",\"bs\":[" + hb + "],\"sc\":[" + hs + "],\"x\":[" + xs + "],\"sig\":" + std::to_string(sg) + ",\"cl\":" + std::to_string(cl) + ",\"v\":\"" + v + "\"}");
    if (sg == SIGALRM) { fflush(vp_out); _exit(0); }
});
