// The fields of the bn128 engine: constants and defining relations.  "bnf <0|1>": the namespace's or the engine's objects.
#include <alt_bn128.hpp>
#define VP_ALT
#include "tower.hpp"
typedef IORaw<RawFq> IOq; typedef IORaw<RawFr> IOr;
typedef LIO2<RawFq, IOq> L2; typedef LIO6<RawFq, IOq> L6; typedef LIO12<RawFq, IOq> L12;
template <class F, class L> void prime(const char *n, F &f) {
    typename F::Element z, o, m; f.copy(z, f.zero()); f.copy(o, f.one()); f.copy(m, f.negOne());
    Out s; s << "{\"k\":\"prime\",\"f\":\"" << n << "\",\"zero\":"; L::print(f, s, z); s << ",\"one\":"; L::print(f, s, o); s << ",\"neg1\":"; L::print(f, s, m);
    s << ",\"dec\":\"" << f.toString(m) << "\",\"bits\":" << F::MaxBits << ",\"bytes\":" << (F::MaxBits + 7) / 8 << "}"; emit(s.str());
}
template <class F1, class F2, class F6, class F12, class Fr> void all(F1 &f1, F2 &f2, F6 &f6, F12 &f12, Fr &fr) {
    prime<F1, IOq>("fq", f1); prime<Fr, IOr>("fr", fr);
    { typename F2::Element u, r; f1.copy(u.a, f1.zero()); f1.copy(u.b, f1.one()); f2.mul(r, u, u);
      Out s; s << "{\"k\":\"f2\",\"zero\":"; L2::print(f2, s, f2.zero()); s << ",\"one\":"; L2::print(f2, s, f2.one()); s << ",\"neg1\":"; L2::print(f2, s, f2.negOne()); s << ",\"rel\":"; L2::print(f2, s, r); s << "}"; emit(s.str()); }
    { typename F6::Element t, r; typename F2::Element x; f6.copy(t, f6.zero()); f2.copy(t.y, f2.one()); f6.mul(r, t, t); f6.mul(r, r, t); f6.F.mulXi(x, f2.one());
      Out s; s << "{\"k\":\"f6\",\"zero\":"; L6::print(f6, s, f6.zero()); s << ",\"one\":"; L6::print(f6, s, f6.one()); s << ",\"rel\":"; L6::print(f6, s, r); s << ",\"xi\":"; L2::print(f6.F, s, x); s << "}"; emit(s.str()); }
    { typename F12::Element w, r; f12.copy(w, f12.zero()); f6.copy(w.x, f6.one()); f12.mul(r, w, w);
      Out s; s << "{\"k\":\"f12\",\"zero\":"; L12::print(f12, s, f12.zero()); s << ",\"one\":"; L12::print(f12, s, f12.one()); s << ",\"rel\":"; L12::print(f12, s, r); s << "}"; emit(s.str()); }
}
static Reg r0("bnf", [](In &in) {
    using namespace AltBn128;
    int sg = num(in) ? vp_guard([] { Engine &e = Engine::engine; all(e.f1, e.f2, e.f6, e.f12, e.fr); }) : vp_guard([] { all(F1, F2, F6, F12, Fr); });
    if (sg) emit("{\"k\":\"crash\",\"sig\":" + std::to_string(sg) + "}");
});
