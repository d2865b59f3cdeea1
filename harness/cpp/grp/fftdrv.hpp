// Executes transforms.
#pragma once
#include "io.hpp"
#include <misc.hpp>
#include <stdexcept>
#include <fft.hpp>
template <class F, class FIO> struct FftDrv {
    // obj <dom>: construct;  fft|ifft|both <n> values;  root <d>: the table of that order
    FFT<F> *t = 0; F *f; unsigned dom = 0;
    void vec(Out &o, typename F::Element *a, unsigned n) { o << '['; for (unsigned i = 0; i < n; i++) { if (i) o << ','; FIO::print(*f, o, a[i]); } o << ']'; }
    void cmd(In &in) {
        std::string w = tok(in); Out o;
        if (w == "obj") {
            std::string ds = tok(in); unsigned long long d = strtoull(ds.c_str(), 0, 10); dom = d; std::string res = "ok"; t = 0;
            int sg = vp_guard([&] { try { t = new FFT<F>(d); } catch (std::range_error &) { res = "range"; } catch (...) { res = "other"; } }, 60);
            unsigned lg = 0; while ((2ULL << lg) <= d) lg++;
            o << "{\"k\":\"obj\",\"d\":" << lg << ",\"ds\":\"" << ds << "\",\"o\":\"" << res << "\",\"sig\":" << sg << "}"; emit(o.str());
            if (sg == SIGALRM) { fflush(vp_out); _exit(0); }
            if (sg) t = 0;
            return;
        }
        if (!t) return;
        if (w == "log2") { int m = num(in); o << "{\"k\":\"log2\",\"o\":["; for (int i = 1; i <= m; i++) o << (i > 1 ? "," : "") << t->log2(i); o << "]}"; emit(o.str()); return; }
        if (w == "root") {
            unsigned d = num(in), n = 1u << d; std::vector<typename F::Element> v(n);
            int sg = vp_guard([&] { for (unsigned i = 0; i < n; i++) v[i] = t->root(d, i); }, 20);
            o << "{\"k\":\"root\",\"d\":" << d << ",\"w\":"; vec(o, v.data(), n); o << ",\"sig\":" << sg << "}"; emit(o.str()); return;
        }
        if (w == "sparse") {      // a large vector with few entries: sampled values of both transforms, and the round trip everywhere
            unsigned d = num(in), n = 1u << d, c = num(in); std::vector<unsigned> js, ks; std::vector<typename F::Element> vs(c), fs, gs, rs;
            for (unsigned i = 0; i < c; i++) { js.push_back(num(in)); FIO::parse(*f, in, vs[i]); }
            unsigned m = num(in); for (unsigned i = 0; i < m; i++) ks.push_back(num(in));
            std::vector<typename F::Element> a(n), b(n); int same = 1;
            for (unsigned i = 0; i < n; i++) f->copy(a[i], f->zero());
            for (unsigned i = 0; i < c; i++) f->copy(a[js[i]], vs[i]);
            int sg = vp_guard([&] {
                b = a; t->ifft(b.data(), n); for (unsigned k : ks) gs.push_back(b[k]);
                b = a; t->fft(b.data(), n); for (unsigned k : ks) fs.push_back(b[k]);
                t->ifft(b.data(), n); for (unsigned i = 0; i < n; i++) if (!f->eq(a[i], b[i])) same = 0;
                for (unsigned k : ks) rs.push_back(t->root(d, k));
            }, 100);
            auto ints = [&](std::vector<unsigned> &x) { o << '['; for (size_t i = 0; i < x.size(); i++) o << (i ? "," : "") << x[i]; o << ']'; };
            o << "{\"k\":\"sparse\",\"d\":" << d << ",\"js\":"; ints(js); o << ",\"vs\":"; vec(o, vs.data(), c); o << ",\"ks\":"; ints(ks);
            if (!sg) { o << ",\"w1\":"; FIO::print(*f, o, t->root(d, 1)); o << ",\"f\":"; vec(o, fs.data(), m); o << ",\"g\":"; vec(o, gs.data(), m); o << ",\"r\":"; vec(o, rs.data(), m); }
            o << ",\"same\":" << same << ",\"sig\":" << sg << "}"; emit(o.str()); return;
        }
        unsigned n = num(in); std::vector<typename F::Element> v(n); for (auto &e : v) FIO::parse(*f, in, e);
        auto v0 = v; Fenced m((uint8_t *)v.data(), n * sizeof v[0]); auto *a = (typename F::Element *)m.p;
        std::vector<typename F::Element> mid(n);
        int sg = vp_guard([&] {
            if (w == "fft" || w == "both") t->fft(a, n);
            memcpy((void *)mid.data(), (void *)a, n * sizeof v[0]);
            if (w == "ifft" || w == "both") t->ifft(a, n);
        }, 60);
        unsigned d = 0; while ((2u << d) <= n) d++;
        typename F::Element w1; w1 = t->root(d, n > 1 ? 1 : 0);
        o << "{\"k\":\"" << w << "\",\"n\":" << n << ",\"d\":" << d << ",\"in\":"; vec(o, v0.data(), n);
        if (!sg) { o << ",\"mid\":"; vec(o, mid.data(), n); o << ",\"out\":"; vec(o, a, n); }
        o << ",\"w1\":"; FIO::print(*f, o, w1);
        o << ",\"sig\":" << sg << ",\"cl\":" << (int)!m.frontIntact() << "}"; emit(o.str());
        if (sg == SIGALRM) { fflush(vp_out); _exit(0); }
    }
};
