// Executes the operations of the quadratic, sextic and dodecic extensions on lists of operands, in every aliasing.
#pragma once
#include "io.hpp"
#ifndef VP_ALT
#include <splitparstr.hpp>
#include <f2field.hpp>
#include <f6field.hpp>
#include <f12field.hpp>
#endif
template <class F, class BIO> struct LIO2 {
    typedef F2Field<F> T;
    static void parse(T &f, In &in, typename T::Element &e) { BIO::parse(f.F, in, e.a); BIO::parse(f.F, in, e.b); }
    static void print(T &f, Out &o, typename T::Element &e) { o << '['; BIO::print(f.F, o, e.a); o << ','; BIO::print(f.F, o, e.b); o << ']'; }
};
template <class F, class BIO> struct LIO6 {
    typedef LIO2<F, BIO> L; typedef F6Field<F2Field<F>> T;
    static void parse(T &f, In &in, typename T::Element &e) { L::parse(f.F, in, e.x); L::parse(f.F, in, e.y); L::parse(f.F, in, e.z); }
    static void print(T &f, Out &o, typename T::Element &e) { o << '['; L::print(f.F, o, e.x); o << ','; L::print(f.F, o, e.y); o << ','; L::print(f.F, o, e.z); o << ']'; }
};
template <class F, class BIO> struct LIO12 {
    typedef LIO6<F, BIO> L; typedef F12Field<F6Field<F2Field<F>>> T;
    static void parse(T &f, In &in, typename T::Element &e) { L::parse(f.F, in, e.x); L::parse(f.F, in, e.y); }
    static void print(T &f, Out &o, typename T::Element &e) { o << '['; L::print(f.F, o, e.x); o << ','; L::print(f.F, o, e.y); o << ']'; }
};
template <class T> struct Ops {    // operations every level has
    typedef typename T::Element E;
    static bool bin(T &f, const std::string &op, E &r, E &a, E &b) {
        if (op == "add") f.add(r, a, b); else if (op == "sub") f.sub(r, a, b); else if (op == "mul") f.mul(r, a, b); else if (op == "div") f.div(r, a, b); else return false;
        return true;
    }
    static bool un(T &f, const std::string &op, E &r, E &a) {
        if (op == "neg") f.neg(r, a); else if (op == "square") f.square(r, a); else if (op == "inv") f.inv(r, a); else if (op == "copy") f.copy(r, a); else return false;
        return true;
    }
};
template <class F> bool un2(F2Field<F> &f, const std::string &op, typename F2Field<F>::Element &r, typename F2Field<F>::Element &a) {
    if (op == "conj") f.conjugate(r, a); else if (op == "mulXi") f.mulXi(r, a); else if (op == "dbl") f.dbl(r, a); else return Ops<F2Field<F>>::un(f, op, r, a);
    return true;
}
template <class B> bool un2(F6Field<B> &f, const std::string &op, typename F6Field<B>::Element &r, typename F6Field<B>::Element &a) {
    if (op == "mulTau") f.mulTau(r, a); else if (op == "dbl") f.dbl(r, a); else if (op == "frob") f.Frobenius(r, a); else if (op == "frob2") f.FrobeniusP2(r, a); else return Ops<F6Field<B>>::un(f, op, r, a);
    return true;
}
template <class B> bool un2(F12Field<B> &f, const std::string &op, typename F12Field<B>::Element &r, typename F12Field<B>::Element &a) {
    if (op == "conj") f.conjugate(r, a); else if (op == "frob") f.Frobenius(r, a); else if (op == "frob2") f.FrobeniusP2(r, a); else return Ops<F12Field<B>>::un(f, op, r, a);
    return true;
}
template <class T, class L, class S, class SIO, class G, class GIO> struct LevelDrv {
    typedef typename T::Element E;
    // <op> <al> <na> elements <nb> elements
    static void cmd(int lvl, T &f, S &sf, G &gf, std::function<void(E &, E &, typename S::Element &)> ms, std::function<void(E &, E &, typename G::Element &)> mg,
                    std::function<void(E &, E &, uint8_t *, unsigned)> ex, In &in) {
        std::string op = tok(in); int al = num(in);
        std::vector<E> as(num(in)); for (auto &a : as) L::parse(f, in, a);
        std::string head = "{\"l\":" + std::to_string(lvl) + ",\"op\":\"" + op + "\",\"al\":" + std::to_string(al);
        int ts = 0;
        #define GUARD(body) { int sg = vp_guard([&] body, 20); if (sg) { emit("{\"k\":\"crash\",\"sig\":" + std::to_string(sg) + ",\"op\":\"" + op + "\"}"); if (sg == SIGALRM) _exit(0); } }
        #define CLOB(c) if (c) emit("{\"k\":\"clobber\",\"op\":\"" + op + "\"}");
        if (op == "add" || op == "sub" || op == "mul" || op == "div" || op == "eq" || op == "muls" || op == "mulg") {
            int nb = num(in);
            std::vector<E> bs; std::vector<typename S::Element> ss; std::vector<typename G::Element> gs;
            if (op == "muls") { ss.resize(nb); for (auto &b : ss) SIO::parse(sf, in, b); }
            else if (op == "mulg") { gs.resize(nb); for (auto &b : gs) GIO::parse(gf, in, b); }
            else { bs.resize(nb); for (auto &b : bs) L::parse(f, in, b); }
            for (auto &a0 : as) {
                Out o, bo, ro;
                if (al == 3 || al == 4) nb = 1;      // both operands the same object
                for (int j = 0; j < nb; j++) {
                    E a = a0, r; memset(&r, 0x5a, sizeof r);
                    if (j) { bo << ','; ro << ','; }
                    if (op == "muls") { auto b = ss[j]; E *p = al == 1 ? &a : &r; GUARD({ ms(*p, a, b); }) CLOB(memcmp(&b, &ss[j], sizeof b) || (al == 0 && memcmp(&a, &a0, sizeof a))) SIO::print(sf, bo, b); L::print(f, ro, *p); continue; }
                    if (op == "mulg") { auto b = gs[j]; E *p = al == 1 ? &a : &r; GUARD({ mg(*p, a, b); }) CLOB(memcmp(&b, &gs[j], sizeof b) || (al == 0 && memcmp(&a, &a0, sizeof a))) GIO::print(gf, bo, b); L::print(f, ro, *p); continue; }
                    E b0 = al >= 3 ? a0 : bs[j], b = b0; E *pb = al >= 3 ? &a : &b, *p = al == 1 || al == 4 ? &a : al == 2 ? &b : &r;
                    if (op == "eq") { bool v = false; GUARD({ v = f.eq(a, *pb); }) L::print(f, bo, b0); ro << (int)v; CLOB(memcmp(&a, &a0, sizeof a) || memcmp(&b, &b0, sizeof b)) continue; }
                    GUARD({ Ops<T>::bin(f, op, *p, a, *pb); })
                    CLOB((p != &a && memcmp(&a, &a0, sizeof a)) || (p != &b && memcmp(&b, &b0, sizeof b)))
                    L::print(f, bo, b0); L::print(f, ro, *p);
                }
                o << head << ",\"k\":\"bin\",\"a\":"; L::print(f, o, a0); o << ",\"bs\":[" << bo.str() << "],\"rs\":[" << ro.str() << "]}"; emit(o.str());
            }
            return;
        }
        if (op == "exp") {
            std::vector<std::string> hx(num(in)); for (auto &h : hx) { h = tok(in); }
            for (auto &a0 : as) for (auto &h : hx) {
                auto sc = unhex(h == "-" ? "" : h); Fenced s(sc.data(), sc.size());
                E a = a0, r; memset(&r, 0x5a, sizeof r); E *p = al == 1 ? &a : &r;
                GUARD({ ex(*p, a, s.p, sc.size()); })
                CLOB((al == 0 && memcmp(&a, &a0, sizeof a)) || (sc.size() && memcmp(s.p, sc.data(), sc.size())))
                Out o; o << head << ",\"k\":\"exp\",\"a\":"; L::print(f, o, a0); o << ",\"s\":\"" << (h == "-" ? "" : h) << "\",\"r\":"; L::print(f, o, *p); o << '}'; emit(o.str());
            }
            return;
        }
        if (op == "isz" || op == "iso") {
            Out o, ao, ro; for (auto &a : as) { if (ts++) { ao << ','; ro << ','; } bool v = false; E a1 = a; GUARD({ v = op == "isz" ? f.isZero(a1) : f.isOne(a1); }) CLOB(memcmp(&a1, &a, sizeof a)) L::print(f, ao, a); ro << (int)v; }
            o << head << ",\"k\":\"un\",\"as\":[" << ao.str() << "],\"rs\":[" << ro.str() << "]}"; emit(o.str()); return;
        }
        if (op == "str") {     // text and back
            for (auto &a : as) {
                std::string t10, t16, dflt; E r; memset(&r, 0x5a, sizeof r);
                GUARD({ t10 = f.toString(a, 10); t16 = f.toString(a, 16); dflt = f.toString(a); f.fromString(r, t10); })
                Out o; o << head << ",\"k\":\"str\",\"a\":"; L::print(f, o, a); o << ",\"t\":" << jstr(t10) << ",\"u\":" << jstr(t16) << ",\"d\":" << jstr(dflt) << ",\"r\":"; L::print(f, o, r); o << '}'; emit(o.str());
            }
            return;
        }
        if (op == "parse") {   // <n> texts (hex)
            int n = num(in);
            while (n-- > 0) {
                auto v = unhex(tok(in)); std::string t(v.begin(), v.end()), pieces = tok(in); E r; memset(&r, 0x5a, sizeof r);
                GUARD({ f.fromString(r, t); })
                Out o; o << head << ",\"k\":\"parse\",\"t\":" << jstr(t) << ",\"p\":" << pieces << ",\"r\":"; L::print(f, o, r); o << '}'; emit(o.str());
            }
            return;
        }
        Out o, ao, ro;
        for (auto &a0 : as) {
            E a = a0, r; memset(&r, 0x5a, sizeof r); E *p = al == 1 ? &a : &r; bool known = true;
            GUARD({ known = un2(f, op, *p, a); })
            if (!known) { fprintf(stderr, "unknown op %s\n", op.c_str()); exit(3); }
            CLOB(al == 0 && memcmp(&a, &a0, sizeof a))
            if (ts++) { ao << ','; ro << ','; } L::print(f, ao, a0); L::print(f, ro, *p);
        }
        o << head << ",\"k\":\"un\",\"as\":[" << ao.str() << "],\"rs\":[" << ro.str() << "]}"; emit(o.str());
    }
};
template <class F, class BIO> struct TowerDrv {
    typedef F2Field<F> A2; typedef F6Field<A2> A6; typedef F12Field<A6> A12;
    typedef LIO2<F, BIO> L2; typedef LIO6<F, BIO> L6; typedef LIO12<F, BIO> L12;
    static void consts(A2 &f2) { Out o; o << "{\"k\":\"const\",\"l\":2,\"z\":"; L2::print(f2, o, f2.zero()); o << ",\"o\":"; L2::print(f2, o, f2.one()); o << ",\"n\":"; L2::print(f2, o, f2.negOne()); o << '}'; emit(o.str()); }
    static void consts(A6 &f) { Out o; o << "{\"k\":\"const\",\"l\":6,\"z\":"; L6::print(f, o, f.zero()); o << ",\"o\":"; L6::print(f, o, f.one()); o << ",\"n\":"; L6::print(f, o, f.negOne()); o << '}'; emit(o.str()); }
    static void consts(A12 &f) { Out o; o << "{\"k\":\"const\",\"l\":12,\"z\":"; L12::print(f, o, f.zero()); o << ",\"o\":"; L12::print(f, o, f.one()); o << ",\"n\":"; L12::print(f, o, f.negOne()); o << '}'; emit(o.str()); }
    template <class X, class Y, class Z> static void none(X &, Y &, Z &) { fprintf(stderr, "no such operation\n"); exit(3); }
    static void cmd(A2 &f2, A6 &f6, A12 &f12, In &in) {
        int lvl = num(in); std::string w = "";
        if (lvl == 0) { int k = num(in); if (k == 2) consts(f2); else { consts(f6); consts(f12); } return; }
        auto bad = [](auto &...) { fprintf(stderr, "no such operation\n"); exit(3); };
        if (lvl == 2) LevelDrv<A2, L2, F, BIO, F, BIO>::cmd(2, f2, f2.F, f2.F, [&](auto &r, auto &a, auto &b) { f2.mulScalar(r, a, b); }, [=](auto &r, auto &a, auto &b) { bad(r); }, [=](auto &r, auto &a, uint8_t *s, unsigned n) { bad(r); }, in);
        else if (lvl == 6) LevelDrv<A6, L6, A2, L2, F, BIO>::cmd(6, f6, f6.F, f6.F.F, [&](auto &r, auto &a, auto &b) { f6.mulScalar(r, a, b); }, [&](auto &r, auto &a, auto &b) { f6.mulGFP(r, a, b); }, [=](auto &r, auto &a, uint8_t *s, unsigned n) { bad(r); }, in);
        else LevelDrv<A12, L12, A6, L6, F, BIO>::cmd(12, f12, f12.F, f12.F.F.F, [&](auto &r, auto &a, auto &b) { f12.mulScalar(r, a, b); }, [=](auto &r, auto &a, auto &b) { bad(r); }, [&](auto &r, auto &a, uint8_t *s, unsigned n) { f12.exp(r, a, s, n); }, in);
    }
};
