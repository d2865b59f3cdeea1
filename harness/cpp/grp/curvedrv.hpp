// Executes curve operations on tables of points in every operand form and aliasing, and walks over point registers.
#pragma once
#include "io.hpp"
#ifndef VP_ALT
#include <splitparstr.hpp>
#include <misc.hpp>
#include <curve.hpp>
#endif

template <class F, class FIO> struct CurveDrv {
    typedef Curve<F> C;
    typedef typename C::Point P;
    typedef typename C::PointAffine A;
    std::string tag;
    F *f = 0; C *c = 0;
    std::vector<P> tp; std::vector<A> ta;
    P rp[8]; A ra[4];

    void pr(Out &o, P &p) { o << '['; FIO::print(*f, o, p.x); o << ','; FIO::print(*f, o, p.y); o << ','; FIO::print(*f, o, p.zz); o << ','; FIO::print(*f, o, p.zzz); o << ']'; }
    void pr(Out &o, A &p) { o << '['; FIO::print(*f, o, p.x); o << ','; FIO::print(*f, o, p.y); o << ']'; }
    void rd(In &in, P &p) { FIO::parse(*f, in, p.x); FIO::parse(*f, in, p.y); FIO::parse(*f, in, p.zz); FIO::parse(*f, in, p.zzz); }
    void rd(In &in, A &p) { FIO::parse(*f, in, p.x); FIO::parse(*f, in, p.y); }

    template <class R, class X, class Y> void op2(const std::string &op, R &r, X &x, Y &y) { if (op == "add") c->add(r, x, y); else c->sub(r, x, y); }
    template <class R, class X> void op1(const std::string &op, R &r, X &x) { if (op == "dbl") c->dbl(r, x); else if (op == "neg") c->neg(r, x); else c->copy(r, x); }
    template <class T> static T *same(T *x, T *) { return x; }
    template <class T, class U> static T *same(T *, U *) { return 0; }
    // pointer to result storage for an alias mode, or null when the types do not allow it
    template <class R, class X, class Y> bool run2(Out &o, const std::string &op, int al, const X &x0, const Y &y0) {
        R r; X x = x0; Y y = y0; memset(&r, 0x5a, sizeof r);
        R *pr_ = &r; X *px = &x; Y *py = &y;
        if (al == 1 || al == 4) { pr_ = conv<R>(px); if (!pr_) return false; }
        if (al == 2) { pr_ = conv<R>(py); if (!pr_) return false; }
        if (al == 3 || al == 4) { py = conv<Y>(px); if (!py) return false; }
        int sg = vp_guard([&] { op2(op, *pr_, *px, *py); });
        pr(o, *pr_);
        if (sg) { emit("{\"k\":\"crash\",\"sig\":" + std::to_string(sg) + ",\"op\":\"" + op + "\"}"); }
        bool cl = false;
        if ((void *)pr_ != (void *)px && memcmp(&x, &x0, sizeof x)) cl = true;
        if ((void *)pr_ != (void *)py && py == &y && memcmp(&y, &y0, sizeof y)) cl = true;
        if (cl) emit("{\"k\":\"clobber\",\"op\":\"" + op + "\"}");
        return true;
    }
    template <class T> static T *conv(P *x) { return cv((T *)0, x); }
    template <class T> static T *conv(A *x) { return cv((T *)0, x); }
    static P *cv(P *, P *x) { return x; }
    static A *cv(A *, A *x) { return x; }
    static P *cv(P *, A *) { return 0; }
    static A *cv(A *, P *) { return 0; }

    template <class R, class X, class Y> void grid2(const std::string &op, const std::string &form, int al, std::vector<X> &xs, std::vector<Y> &ys) {
        for (auto &x : xs) {
            Out o, bs, rs; bool any = false; int cnt = 0;
            if (al == 3 || al == 4) {
                Y *yy = conv<Y>(&x); if (!yy) return;
                Y y = *yy;
                pr(bs, y); if (!run2<R>(rs, op, al, x, y)) return; any = true;
            } else for (auto &y : ys) {
                if (any) { bs << ','; rs << ','; }
                pr(bs, y); if (!run2<R>(rs, op, al, x, y)) return; any = true;
            }
            o << "{\"k\":\"op2\",\"op\":\"" << op << "\",\"f\":\"" << form << "\",\"al\":" << al << ",\"a\":"; pr(o, x);
            o << ",\"bs\":[" << bs.str() << "],\"rs\":[" << rs.str() << "]}";
            emit(o.str());
        }
    }
    template <class R, class X> void grid1(const std::string &op, const std::string &form, int al, std::vector<X> &xs) {
        Out o, as, rs; bool any = false;
        for (auto &x0 : xs) {
            R r; X x = x0; memset(&r, 0x5a, sizeof r); R *p = &r;
            if (al == 1) { p = conv<R>(&x); if (!p) return; }
            int sg = vp_guard([&] { op1(op, *p, x); });
            if (sg) emit("{\"k\":\"crash\",\"sig\":" + std::to_string(sg) + ",\"op\":\"" + op + "\"}");
            if (al == 0 && memcmp(&x, &x0, sizeof x)) emit("{\"k\":\"clobber\",\"op\":\"" + op + "\"}");
            if (any) { as << ','; rs << ','; } any = true;
            X y = x0; pr(as, y); pr(rs, *p);
        }
        o << "{\"k\":\"op1\",\"op\":\"" << op << "\",\"f\":\"" << form << "\",\"al\":" << al << ",\"as\":[" << as.str() << "],\"rs\":[" << rs.str() << "]}";
        emit(o.str());
    }
    template <class X, class Y> void grideq(const std::string &form, std::vector<X> &xs, std::vector<Y> &ys) {
        for (auto &x0 : xs) {
            Out o, bs, rs; bool any = false;
            for (auto &y0 : ys) {
                X x = x0; Y y = y0; bool v = false;
                int sg = vp_guard([&] { v = c->eq(x, y); });
                if (sg) emit("{\"k\":\"crash\",\"sig\":" + std::to_string(sg) + ",\"op\":\"eq\"}");
                if (memcmp(&x, &x0, sizeof x) || memcmp(&y, &y0, sizeof y)) emit("{\"k\":\"clobber\",\"op\":\"eq\"}");
                if (any) { bs << ','; rs << ','; } any = true;
                pr(bs, y); rs << (int)v;
            }
            o << "{\"k\":\"eq\",\"f\":\"" << form << "\",\"a\":"; X x = x0; pr(o, x);
            o << ",\"bs\":[" << bs.str() << "],\"rs\":[" << rs.str() << "]}";
            emit(o.str());
        }
    }
    template <class X> void zeros(const std::string &form, std::vector<X> &xs) {
        Out o, as, rs; bool any = false;
        for (auto &x : xs) { if (any) { as << ','; rs << ','; } any = true; pr(as, x); rs << (int)c->isZero(x); }
        o << "{\"k\":\"isz\",\"f\":\"" << form << "\",\"as\":[" << as.str() << "],\"rs\":[" << rs.str() << "]}"; emit(o.str());
    }
    void consts() {
        Out o; o << "{\"k\":\"const\",\"z\":"; pr(o, c->zero()); o << ",\"za\":"; pr(o, c->zeroAffine()); o << ",\"g\":"; pr(o, c->one()); o << ",\"ga\":"; pr(o, c->oneAffine());
        o << ",\"a\":"; FIO::print(*f, o, c->a()); o << ",\"b\":"; FIO::print(*f, o, c->b()); o << "}"; emit(o.str());
    }
    void grid(In &in) {
        std::string op = tok(in), form = tok(in); int al = num(in);
        #define G2(R, X, Y, xs, ys) grid2<R, X, Y>(op, form, al, xs, ys)
        if (op == "add" || op == "sub") {
            if (form == "PPP") G2(P, P, P, tp, tp); else if (form == "PPA") G2(P, P, A, tp, ta); else if (form == "PAA") G2(P, A, A, ta, ta); else if (form == "PAP") G2(P, A, P, ta, tp);
            else if (form == "APP") G2(A, P, P, tp, tp); else if (form == "APA") G2(A, P, A, tp, ta); else if (form == "AAA") G2(A, A, A, ta, ta); else if (form == "AAP") G2(A, A, P, ta, tp);
        } else if (op == "dbl" || op == "neg" || op == "copy") {
            if (form == "PP") grid1<P, P>(op, form, al, tp); else if (form == "PA") grid1<P, A>(op, form, al, ta); else if (form == "AP") grid1<A, P>(op, form, al, tp); else grid1<A, A>(op, form, al, ta);
        } else if (op == "eq") {
            if (form == "PP") grideq(form, tp, tp); else if (form == "PA") grideq(form, tp, ta); else if (form == "AP") grideq(form, ta, tp); else grideq(form, ta, ta);
        } else if (op == "isz") { if (form == "P") zeros(form, tp); else zeros(form, ta); }
    }
    // walk over registers: results, in whatever encoding the code left them, are the next operands
    struct Regd { bool aff; int i; };
    Regd reg(In &in) { std::string s = tok(in); return {s[0] == 'A', s[1] - '0'}; }
    void prr(Out &o, Regd r) { if (r.aff) pr(o, ra[r.i]); else pr(o, rp[r.i]); }
    void walk(In &in) {
        std::string op = tok(in);
        Out o;
        if (op == "set") {
            std::string rn = tok(in); Regd r{rn[0] == 'A', rn[1] - '0'};
            if (r.aff) rd(in, ra[r.i]); else rd(in, rp[r.i]);
            o << "{\"k\":\"set\",\"r\":\"" << rn << "\",\"v\":"; prr(o, r); o << "}"; emit(o.str()); return;
        }
        std::string rn = tok(in), an = tok(in), bn = tok(in);
        Regd r{rn[0] == 'A', rn[1] - '0'}, a{an[0] == 'A', an[1] - '0'}, b{bn[0] == 'A', bn[1] - '0'};
        std::string extra = "0"; int eqv = 0; std::vector<uint8_t> sc;
        if (op == "str") eqv = num(in);
        if (op == "mul") { extra = tok(in); if (extra == "-") extra = ""; sc = unhex(extra); }
        P op_[8]; A oa_[4]; memcpy(op_, rp, sizeof rp); memcpy(oa_, ra, sizeof ra);
        std::string str;
        int sg = vp_guard([&] {
            if (op == "add" || op == "sub") {
                if (r.aff) { if (a.aff) { if (b.aff) op2(op, ra[r.i], ra[a.i], ra[b.i]); else op2(op, ra[r.i], ra[a.i], rp[b.i]); } else { if (b.aff) op2(op, ra[r.i], rp[a.i], ra[b.i]); else op2(op, ra[r.i], rp[a.i], rp[b.i]); } }
                else { if (a.aff) { if (b.aff) op2(op, rp[r.i], ra[a.i], ra[b.i]); else op2(op, rp[r.i], ra[a.i], rp[b.i]); } else { if (b.aff) op2(op, rp[r.i], rp[a.i], ra[b.i]); else op2(op, rp[r.i], rp[a.i], rp[b.i]); } }
            } else if (op == "eq") {
                if (a.aff) eqv = b.aff ? c->eq(ra[a.i], ra[b.i]) : c->eq(ra[a.i], rp[b.i]); else eqv = b.aff ? c->eq(rp[a.i], ra[b.i]) : c->eq(rp[a.i], rp[b.i]);
            } else if (op == "isz") eqv = a.aff ? c->isZero(ra[a.i]) : c->isZero(rp[a.i]);
            else if (op == "str") str = eqv == 10 ? c->toString(rp[a.i]) : c->toString(rp[a.i], eqv);
            else if (op == "mul") { Fenced s(sc.data(), sc.size()); if (a.aff) c->mulByScalar(rp[r.i], ra[a.i], s.p, sc.size()); else c->mulByScalar(rp[r.i], rp[a.i], s.p, sc.size()); }
            else { if (r.aff) { if (a.aff) op1(op, ra[r.i], ra[a.i]); else op1(op, ra[r.i], rp[a.i]); } else { if (a.aff) op1(op, rp[r.i], ra[a.i]); else op1(op, rp[r.i], rp[a.i]); } }
        }, 20);
        bool q = op == "eq" || op == "isz" || op == "str", cl = false;
        for (int i = 0; i < 8; i++) if (!(!q && !r.aff && r.i == i) && memcmp(&rp[i], &op_[i], sizeof(P))) cl = true;
        for (int i = 0; i < 4; i++) if (!(!q && r.aff && r.i == i) && memcmp(&ra[i], &oa_[i], sizeof(A))) cl = true;
        o << "{\"k\":\"" << op << "\",\"r\":\"" << rn << "\",\"a\":\"" << an << "\",\"b\":\"" << bn << "\",\"s\":\"" << extra << "\",\"sig\":" << sg << ",\"cl\":" << (int)cl << ",\"o\":" << eqv << ",\"t\":" << jstr(str) << ",\"v\":";
        prr(o, r); o << "}"; emit(o.str());
    }
    void cmd(In &in) {
        std::string w = tok(in);
        if (w == "tabP") { int n = num(in); tp.resize(n); for (auto &p : tp) rd(in, p); }
        else if (w == "tabA") { int n = num(in); ta.resize(n); for (auto &p : ta) rd(in, p); }
        else if (w == "grid") grid(in);
        else if (w == "consts") consts();
        else if (w == "w") walk(in);
        else if (w == "new") { for (auto &p : rp) c->copy(p, c->zero()); for (auto &p : ra) c->copy(p, c->zeroAffine()); emit("{\"k\":\"new\"}"); }
        else msm(w, in);
    }
    // msm|mex|sec <threads> <scalarSize> <n> base indices (into tabA) scalars(hex) [nx x...]
    void msm(const std::string &w, In &in) {
        unsigned nt = num(in), ss = num(in), n = num(in);
        std::vector<A> bs(n); std::vector<uint8_t> sc; std::string hx, bi;
        for (auto &b : bs) { int i = num(in); b = ta.at(i); bi += (bi.empty() ? "" : ",") + std::to_string(i); }
        for (unsigned i = 0; i < n; i++) { std::string h = tok(in); auto v = unhex(h); if (v.size() != ss) { fprintf(stderr, "scalar size\n"); exit(3); } sc.insert(sc.end(), v.begin(), v.end()); hx += (i ? ",\"" : "\"") + h + "\""; }
        std::vector<uint64_t> x; std::string xs;
        if (w == "sec") { int nx = num(in); for (int i = 0; i < nx; i++) { x.push_back(strtoull(tok(in).c_str(), 0, 10)); xs += (i ? "," : "") + std::to_string(std::min<uint64_t>(x[i], 1000000000)); } }
        P r; memset(&r, 0x5a, sizeof r);
        Fenced s(sc.data(), sc.size()); std::vector<A> bs0 = bs; std::vector<uint64_t> x0 = x; const int ot = vp_omp();
        int sg = vp_guard([&] {
            if (w == "msm") c->multiMulByScalarMSM(r, bs.data(), s.p, ss, n, nt);
            else if (w == "mex") c->multiMulByScalar(r, bs.data(), s.p, ss, n, nt);
            else c->multiMulByScalar(r, bs.data(), s.p, ss, n, (uint32_t)x.size(), x.data(), nt);
        }, 60);
        bool cl = (sc.size() && memcmp(s.p, sc.data(), sc.size())) || (n && memcmp(bs.data(), bs0.data(), n * sizeof(A))) || x != x0 || (sg == 0 && vp_omp() != ot);
        vp_omp(ot);
        Out o; o << "{\"k\":\"" << w << "\",\"nt\":" << nt << ",\"ss\":" << ss << ",\"n\":" << n << ",\"bs\":[";
        for (unsigned i = 0; i < n; i++) { if (i) o << ','; pr(o, bs0[i]); }
        o << "],\"sc\":[" << hx << "],\"x\":[" << xs << "],\"sig\":" << sg << ",\"cl\":" << (int)cl << ",\"v\":"; pr(o, r); o << "}"; emit(o.str());
        if (sg == SIGALRM) _exit(0);
    }
};
