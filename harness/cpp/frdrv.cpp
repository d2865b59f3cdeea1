// Driver for one generated field (Fr) in one backend.  Reads commands, executes them on the real code and writes a
// trace: one JSON object per command with everything observable.  It judges nothing.
//   S                      new session (registers reset)
//   L d type short limbs   set register d to a raw representation
//   O op d a b             tagged operation on registers
//   X d text               str2element
//   G op al at as al bt bs bl   one tagged operation on operands given in place; al as below
//   A op al at as al bt bs bl   the same operation twice: with aliasing al and with separate elements
//   R op al a b            raw operation, al = aliasing pattern (0 none, 1 r=a, 2 r=b, 3 a=b, 4 r=a=b)
//   C op al a b            class operation (RawFr), values are canonical (non-Montgomery) numbers, see runClass
#include "fr.hpp"
#include "tramp.h"
#include "guard.h"
#ifdef VP_ARM
#include "a64emu.h"
extern unsigned vp_arm_bad;
#endif
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <string>
#include <vector>
#include <iostream>
#include <sstream>
#include <map>
#pragma weak Fr_q
#pragma weak Fr_R2
#pragma weak Fr_R3
#ifdef VP_PART
namespace VP_NS {
#endif

static const int NREG = 8, N = Fr_N64;
struct Slot { uint64_t c0; FrElement e; uint64_t c1; };
static Slot R[NREG], SH[NREG];
static const uint64_t CAN = 0xC0FFEE11DEADBEEFULL;

static std::string hexOf(const uint64_t *v, int n = N) {
    std::string s; char b[20]; bool on = false;
    for (int i = n - 1; i >= 0; i--) {
        if (!on) { if (v[i] == 0 && i > 0) continue; sprintf(b, "%llx", (unsigned long long)v[i]); on = true; }
        else sprintf(b, "%016llx", (unsigned long long)v[i]);
        s += b;
    }
    return s;
}
static void parseHex(const std::string &h, uint64_t *v, int n = N) {
    for (int i = 0; i < n; i++) v[i] = 0;
    int k = 0;
    for (int i = (int)h.size() - 1; i >= 0; i--, k++) {
        char c = h[i]; uint64_t d = c <= '9' ? c - '0' : (c | 32) - 'a' + 10;
        if (k / 16 < n) v[k / 16] |= d << (4 * (k % 16));
    }
}
static std::string esc(const std::string &s) {
    std::string r; char b[8];
    for (unsigned char c : s) { if (c == '"' || c == '\\') { r += '\\'; r += c; } else if (c < 32 || c > 126) { sprintf(b, "\\u%04x", c); r += b; } else r += c; }
    return r;
}
static const char *tname(uint32_t t) {
    switch (t) { case 0: return "S"; case 0x40000000u: return "SM"; case 0x80000000u: return "L"; case 0xC0000000u: return "LM"; }
    return "BAD";
}
typedef void (*F3)(PFrElement, PFrElement, PFrElement);
typedef void (*F2)(PFrElement, PFrElement);
typedef int (*I1)(PFrElement);
static std::map<std::string, F3> f3 = {{"add", Fr_add}, {"sub", Fr_sub}, {"mul", Fr_mul}, {"band", Fr_band}, {"bor", Fr_bor},
    {"bxor", Fr_bxor}, {"shl", Fr_shl}, {"shr", Fr_shr}, {"eq", Fr_eq}, {"neq", Fr_neq}, {"lt", Fr_lt}, {"gt", Fr_gt},
    {"leq", Fr_leq}, {"geq", Fr_geq}, {"land", Fr_land}, {"lor", Fr_lor}, {"idiv", Fr_idiv}, {"mod", Fr_mod}, {"div", Fr_div}, {"pow", Fr_pow}};
static std::map<std::string, F2> f2 = {{"neg", Fr_neg}, {"square", Fr_square}, {"bnot", Fr_bnot}, {"lnot", Fr_lnot}, {"copy", Fr_copy},
    {"toNormal", Fr_toNormal}, {"toLongNormal", Fr_toLongNormal}, {"toMontgomery", Fr_toMontgomery}, {"inv", Fr_inv}};
static std::map<std::string, I1> i1 = {{"isTrue", Fr_isTrue}, {"toInt", Fr_toInt}};

static void resetRegs() {
    memset(R, 0, sizeof R);
    for (int i = 0; i < NREG; i++) { R[i].c0 = R[i].c1 = CAN; }
    memcpy(SH, R, sizeof R);
}
// registers (other than dst..dst+cnt-1) whose bytes changed, and damaged canaries
static std::string clobbers(int dst, int cnt) {
    std::string s;
    for (int i = 0; i < NREG; i++) {
        if (R[i].c0 != CAN || R[i].c1 != CAN) { s += "canary" + std::to_string(i) + " "; R[i].c0 = R[i].c1 = CAN; }
        if (i >= dst && i < dst + cnt) continue;
        if (memcmp(&R[i].e, &SH[i].e, sizeof(FrElement))) s += std::to_string(i) + " ";
    }
    memcpy(SH, R, sizeof R);
    return s;
}
static void emitReg(int d) {
    uint64_t v[N]; memcpy(v, R[d].e.longVal, sizeof v);
    printf("\"rt\":\"%s\",\"rs\":\"%d\",\"rl\":\"%s\"", tname(R[d].e.type), (int)R[d].e.shortVal, hexOf(v).c_str());
}
static uint64_t badregs;
template <typename A> static uint64_t call(void *fn, A a0, uint64_t a1 = 0, uint64_t a2 = 0) { return vp_tramp(fn, (uint64_t)a0, a1, a2, &badregs); }
static std::string badStr() {
    static const char *nm[] = {"rbx", "r12", "r13", "r14", "r15", "rsp"};
    std::string s; for (int i = 0; i < 6; i++) if (badregs >> i & 1) s += std::string(nm[i]) + " ";
#ifdef VP_ARM
    if (vp_arm_bad & a64::X19) s += "callee-saved ";
    if (vp_arm_bad & a64::SP) s += "sp ";
    if (vp_arm_bad & a64::WILD) s += "wild-store ";
    if (vp_arm_bad & a64::X18) s += "x18 ";
    if (vp_arm_bad & a64::RET) s += "no-return ";
    vp_arm_bad = 0;
#endif
    return s;
}

static void runTagged(const std::string &op, int d, int a, int b) {
    int sig = 0, cnt = 1; std::string o; badregs = 0;
    memcpy(SH, R, sizeof R);
    PFrElement D = &R[d].e, A = &R[a].e, B = &R[b].e;
    std::string ta = tname(A->type);
    if (f3.count(op)) sig = vp_guard([&] { call((void *)f3[op], D, (uint64_t)A, (uint64_t)B); });
    else if (f2.count(op)) sig = vp_guard([&] { call((void *)f2[op], D, (uint64_t)A); });
    else if (i1.count(op)) { int x = 0; sig = vp_guard([&] { x = (int)call((void *)i1[op], A); }); cnt = 0; o = std::to_string(x); }
    else if (op == "copyn") {
        // contiguous arrays: n = b elements starting at register a, copied to a scratch array and back into d..
        std::vector<FrElement> src(b + 1), dst(b + 1);
        for (int i = 0; i < b; i++) src[i] = R[a + i].e;
        memset(&src[b], 0x5a, sizeof(FrElement)); for (int i = 0; i <= b; i++) memset(&dst[i], 0xa5, sizeof(FrElement));
        std::vector<FrElement> src0 = src; FrElement tail = dst[b];
        sig = vp_guard([&] { call((void *)Fr_copyn, dst.data(), (uint64_t)src.data(), (uint64_t)b); });
        if (memcmp(src.data(), src0.data(), src.size() * sizeof(FrElement))) o += "src ";
        if (memcmp(&dst[b], &tail, sizeof tail)) o += "tail ";
        for (int i = 0; i < b; i++) R[d + i].e = dst[i];
        cnt = b;
    } else if (op == "toStr") {
        char *s = 0; cnt = 0;
        sig = vp_guard([&] { s = Fr_element2str(A); });
        if (s) o = s;
    } else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
    std::string br = badStr();
    std::string cl = clobbers(d, cnt);
    if (op == "copyn") {
        printf("{\"k\":\"copyn\",\"d\":%d,\"a\":%d,\"n\":%d,\"o\":\"%s\",\"rs\":[", d, a, b, o.c_str());
        for (int i = 0; i < b; i++) { printf("%s{", i ? "," : ""); emitReg(d + i); printf("}"); }
        printf("],\"cl\":\"%s\",\"br\":\"%s\",\"sig\":%d}\n", cl.c_str(), br.c_str(), sig);
        return;
    }
    printf("{\"k\":\"op\",\"op\":\"%s\",\"d\":%d,\"a\":%d,\"b\":%d,\"ta\":\"%s\",", op.c_str(), d, a, b, ta.c_str());
    emitReg(d);
    printf(",\"o\":\"%s\",\"cl\":\"%s\",\"br\":\"%s\",\"sig\":%d}\n", o.c_str(), cl.c_str(), br.c_str(), sig);
}

// ---- one self-contained tagged operation ---------------------------------------------------------------------------
struct Ev { std::string tag, s, l, o, cl, br; int sig; };
static void setElt(FrElement &e, const std::string &t, const std::string &s, const std::string &l) {
    e.type = strtoul(t.c_str(), 0, 16); e.shortVal = (int32_t)strtol(s.c_str(), 0, 10);
    uint64_t v[N]; parseHex(l, v); memcpy(e.longVal, v, sizeof v);
}
static std::string eltJson(const FrElement &e, const char *t, const char *s, const char *l) {
    uint64_t v[N]; memcpy(v, e.longVal, sizeof v);
    return std::string("\"") + t + "\":\"" + tname(e.type) + "\",\"" + s + "\":\"" + std::to_string((int)e.shortVal) + "\",\"" + l + "\":\"" + hexOf(v) + "\"";
}
static unsigned junkCount;
// runs op with aliasing al on copies of a and b; the result element goes to out
static Ev runG(const std::string &op, int al, const FrElement &a0, const FrElement &b0, FrElement &out) {
    static const uint32_t jt[] = {0x80000000u, 0xC0000000u, 0, 0x40000000u};
    Slot RR, AA, BB; Ev ev; badregs = 0;
    RR.c0 = RR.c1 = AA.c0 = AA.c1 = BB.c0 = BB.c1 = CAN;
    unsigned j = junkCount++;
    RR.e.type = jt[j % 4]; RR.e.shortVal = (int32_t)(j * 2654435761u);
    { uint64_t v[N]; for (int i = 0; i < N; i++) v[i] = 0x0123456789ABCDEFULL * (j + i + 3); memcpy(RR.e.longVal, v, sizeof v); }
    AA.e = a0; BB.e = b0;
    PFrElement r = &RR.e, a = &AA.e, b = &BB.e;
    if (al == 3 || al == 4) b = a;
    if (al == 1 || al == 4) r = a;
    if (al == 2) r = b;
    Slot R0 = RR, A0 = AA, B0 = BB;
    bool res = true;
    if (f3.count(op)) ev.sig = vp_guard([&] { call((void *)f3[op], r, (uint64_t)a, (uint64_t)b); });
    else if (f2.count(op)) ev.sig = vp_guard([&] { call((void *)f2[op], r, (uint64_t)a); });
    else if (i1.count(op)) { int x = 0; ev.sig = vp_guard([&] { x = (int)call((void *)i1[op], a); }); ev.o = std::to_string(x); res = false; }
    else if (op == "toStr") { char *s = 0; ev.sig = vp_guard([&] { s = Fr_element2str(a); }); if (s) ev.o = s; res = false; }
    else { fprintf(stderr, "bad op %s\n", op.c_str()); exit(3); }
    ev.br = badStr();
    if (RR.c0 != CAN || RR.c1 != CAN || AA.c0 != CAN || AA.c1 != CAN || BB.c0 != CAN || BB.c1 != CAN) ev.cl += "canary ";
    if (!(res && r == &AA.e) && memcmp(&AA.e, &A0.e, sizeof A0.e)) ev.cl += "a ";
    if (!(res && r == &BB.e) && memcmp(&BB.e, &B0.e, sizeof B0.e)) ev.cl += "b ";
    if (!(res && r == &RR.e) && memcmp(&RR.e, &R0.e, sizeof R0.e)) ev.cl += "r ";
    out = *r;
    return ev;
}
static void runGrid(bool pair, const std::string &op, int al, const FrElement &a, const FrElement &b) {
    FrElement r, u; Ev e = runG(op, al, a, b, r), f;
    printf("{\"k\":\"%s\",\"op\":\"%s\",\"al\":%d,%s,%s,%s", pair ? "a" : "g", op.c_str(), al, eltJson(a, "at", "as", "av").c_str(),
           eltJson(b, "bt", "bs", "bv").c_str(), eltJson(r, "rt", "rs", "rl").c_str());
    if (pair) {
        FrElement b2 = (al == 3 || al == 4) ? a : b;
        f = runG(op, 0, a, b2, u);
        printf(",%s,\"uo\":\"%s\",\"us_\":%d", eltJson(u, "ut", "us", "ul").c_str(), f.o.c_str(), f.sig);
    }
    printf(",\"o\":\"%s\",\"cl\":\"%s\",\"br\":\"%s\",\"sig\":%d}\n", e.o.c_str(), e.cl.c_str(), e.br.c_str(), e.sig);
}

// ---- raw layer -----------------------------------------------------------------------------------------------------
struct RawBuf { uint64_t c0[2]; uint64_t v[N]; uint64_t c1[2]; };
static void rb(RawBuf &x, const uint64_t *v) { x.c0[0] = x.c0[1] = x.c1[0] = x.c1[1] = CAN; memcpy(x.v, v, sizeof x.v); }
static bool rbOk(const RawBuf &x) { return x.c0[0] == CAN && x.c0[1] == CAN && x.c1[0] == CAN && x.c1[1] == CAN; }
struct RawOp { void *fn; int kind; };  // kind: 0 r,a,b  1 r,a  2 r,a,word  3 int(a,b)  4 int(a)  5 swap  6 r  7 r,word,a  8 r,word
static std::map<std::string, RawOp> rawOps = {
    {"rawAdd", {(void *)Fr_rawAdd, 0}}, {"rawSub", {(void *)Fr_rawSub, 0}}, {"rawMMul", {(void *)Fr_rawMMul, 0}},
    {"rawNeg", {(void *)Fr_rawNeg, 1}}, {"rawMSquare", {(void *)Fr_rawMSquare, 1}}, {"rawCopy", {(void *)Fr_rawCopy, 1}},
    {"rawToMontgomery", {(void *)Fr_rawToMontgomery, 1}}, {"rawFromMontgomery", {(void *)Fr_rawFromMontgomery, 1}},
    {"rawMMul1", {(void *)Fr_rawMMul1, 2}}, {"rawShl", {(void *)Fr_rawShl, 2}}, {"rawShr", {(void *)Fr_rawShr, 2}},
    {"rawIsEq", {(void *)Fr_rawIsEq, 3}}, {"rawIsZero", {(void *)Fr_rawIsZero, 4}}, {"rawSwap", {(void *)Fr_rawSwap, 5}},
#ifdef VP_HELPERS
    {"rawAddLS", {(void *)Fr_rawAddLS, 2}}, {"rawSubLS", {(void *)Fr_rawSubLS, 2}}, {"rawNegLS", {(void *)Fr_rawNegLS, 2}},
    {"rawSubSL", {(void *)Fr_rawSubSL, 7}}, {"rawCopyS2L", {(void *)Fr_rawCopyS2L, 8}}, {"rawCmp", {(void *)Fr_rawCmp, 3}},
    {"rawAnd", {(void *)Fr_rawAnd, 0}}, {"rawOr", {(void *)Fr_rawOr, 0}}, {"rawXor", {(void *)Fr_rawXor, 0}}, {"rawNot", {(void *)Fr_rawNot, 1}},
    {"rawSubRegular", {(void *)Fr_rawSubRegular, 0}},
#endif
};
static void runRaw(const std::string &op, int al, const std::string &ah, const std::string &bh) {
    if (!rawOps.count(op)) { printf("{\"k\":\"skip\",\"op\":\"%s\"}\n", op.c_str()); return; }
    RawOp ro = rawOps[op];
    uint64_t a[N], b[N], junk[N], w = strtoull(bh.c_str(), 0, 16);
    parseHex(ah, a); parseHex(bh, b);
    for (int i = 0; i < N; i++) junk[i] = 0x7777777777777777ULL * (i + 1);
    RawBuf RB, AB, BB; rb(RB, junk); rb(AB, a); rb(BB, b);
    if (ro.kind == 7) { rb(AB, b); w = strtoull(ah.c_str(), 0, 16); }  // word - a
    if (ro.kind == 8) w = strtoull(ah.c_str(), 0, 16);
    RawBuf *pr = &RB, *pa = &AB, *pb = &BB;
    if (al == 1) pr = pa; if (al == 2) pr = pb; if (al == 3) pb = pa; if (al == 4) { pb = pa; pr = pa; }
    uint64_t a0[N], b0[N]; memcpy(a0, pa->v, sizeof a0); memcpy(b0, pb->v, sizeof b0);
    std::string o, cl; badregs = 0; uint64_t rv = 0;
    int sig = vp_guard([&] {
        switch (ro.kind) {
        case 0: call(ro.fn, pr->v, (uint64_t)pa->v, (uint64_t)pb->v); break;
        case 1: call(ro.fn, pr->v, (uint64_t)pa->v); break;
        case 2: call(ro.fn, pr->v, (uint64_t)pa->v, w); break;
        case 3: rv = call(ro.fn, pa->v, (uint64_t)pb->v); break;
        case 4: rv = call(ro.fn, pa->v); break;
        case 5: call(ro.fn, pa->v, (uint64_t)pb->v); break;
        case 7: call(ro.fn, pr->v, w, (uint64_t)pa->v); break;
        case 8: call(ro.fn, pr->v, w); break;
        }
    });
    if (ro.kind == 3 || ro.kind == 4) { o = std::to_string((int)rv); pr = &RB; }
    if (ro.kind == 5) { o = hexOf(pb->v); pr = pa; }
    if (pa != pr && memcmp(a0, pa->v, sizeof a0)) cl += "a ";
    if (pb != pr && ro.kind != 5 && memcmp(b0, pb->v, sizeof b0)) cl += "b ";
    if (ro.kind >= 3 && ro.kind <= 5 && memcmp(RB.v, junk, sizeof junk)) cl += "r ";
    if (!rbOk(RB) || !rbOk(AB) || !rbOk(BB)) cl += "canary ";
    std::string br = badStr();
    printf("{\"k\":\"raw\",\"op\":\"%s\",\"al\":%d,\"a\":\"%s\",\"b\":\"%s\",\"r\":\"%s\",\"o\":\"%s\",\"cl\":\"%s\",\"br\":\"%s\",\"sig\":%d}\n",
           op.c_str(), al, ah.c_str(), bh.c_str(), hexOf(pr->v).c_str(), o.c_str(), cl.c_str(), br.c_str(), sig);
}

// ---- class layer ---------------------------------------------------------------------------------------------------
// Elements enter as Montgomery limbs (hex, computed by the planner) and leave as Montgomery limbs.
typedef RawFr::Element E;
static E elt(const std::string &h) { E e; parseHex(h, e.v); return e; }
static void runClass(const std::string &op, int al, const std::string &ah, const std::string &bh) {
    RawFr &F = RawFr::field;
    E a = elt("0"), b = elt("0"), r; for (int i = 0; i < N; i++) r.v[i] = 0x7777777777777777ULL;
    std::string o, cl; int sig = 0; bool res = true;
    auto bytesOf = [](const std::string &h) { std::vector<uint8_t> v; for (size_t i = 0; i + 1 < h.size(); i += 2) v.push_back(strtoul(h.substr(i, 2).c_str(), 0, 16)); return v; };
    auto hexb = [](const std::vector<uint8_t> &v) { std::string s; char c[4]; for (uint8_t x : v) { sprintf(c, "%02x", x); s += c; } return s; };
    if (op == "fromString") { sig = vp_guard([&] { F.fromString(r, ah, atoi(bh.c_str())); }); }
    else if (op == "toString") { a = elt(ah); sig = vp_guard([&] { o = F.toString(a, atoi(bh.c_str())); }); res = false; }
    else if (op == "set") { sig = vp_guard([&] { F.set(r, atoi(ah.c_str())); }); }
    else if (op == "set2") { sig = vp_guard([&] { r = F.set(atoi(ah.c_str())); }); }
    else if (op == "fromUI") { sig = vp_guard([&] { F.fromUI(r, strtoul(ah.c_str(), 0, 10)); }); }
    else if (op == "zero") r = F.zero(); else if (op == "one") r = F.one(); else if (op == "negOne") r = F.negOne();
    else if (op == "bytes") { o = std::to_string(F.bytes()); res = false; }
    else if (op == "consts") {
        const FrElement *k[3] = {&Fr_q, &Fr_R2, &Fr_R3}; char c[40];
        for (int i = 0; i < 3; i++) {
            if (!k[i]) { o += ",undefined"; continue; }
            sprintf(c, "%s%x:%x:", i ? "," : "", k[i]->type, (unsigned)k[i]->shortVal); o += c + hexOf(k[i]->longVal);
        }
        res = false;
    }
    else if (op == "maxbits") { o = std::to_string((int)RawFr::MaxBits); res = false; }
    else if (op == "toRprBE") {
        a = elt(ah); int n = atoi(bh.c_str());
        std::vector<uint8_t> buf(n + 16, 0xEE); int rc = 0;
        sig = vp_guard([&] { rc = F.toRprBE(a, buf.data(), n); });
        o = std::to_string(rc) + ":" + hexb(buf); res = false;
    } else if (op == "fromRprBE") {
        auto v = bytesOf(ah); int n = (int)v.size(); v.resize(n + 1); int rc = 0; E r0 = r;
        sig = vp_guard([&] { rc = F.fromRprBE(r, v.data(), n); });
        o = std::to_string(rc);
        if (rc < 0) { o += memcmp(r0.v, r.v, sizeof r.v) ? ":changed" : ":same"; res = false; }
    } else if (op == "toMpz") {
        a = elt(ah); mpz_t m; mpz_init(m); sig = vp_guard([&] { F.toMpz(m, a); }); char *s = mpz_get_str(0, 16, m); o = s; free(s); mpz_clear(m); res = false;
    } else if (op == "fromMpz") { mpz_t m; mpz_init_set_str(m, ah.c_str(), 16); sig = vp_guard([&] { F.fromMpz(r, m); }); mpz_clear(m); }
    else if (op == "exp") { a = elt(ah); auto v = bytesOf(bh); std::vector<uint8_t> c = v; c.push_back(0xff);
        if (al == 1) { r = a; sig = vp_guard([&] { F.exp(r, r, c.data(), v.size()); }); } else sig = vp_guard([&] { F.exp(r, a, c.data(), v.size()); }); }
    else if (op == "addi" || op == "subi" || op == "muli" || op == "iadd" || op == "isub" || op == "imul") {
        a = elt(ah); int i = atoi(bh.c_str());
        sig = vp_guard([&] { r = op == "addi" ? F.add(a, i) : op == "subi" ? F.sub(a, i) : op == "muli" ? F.mul(a, i) : op == "iadd" ? F.add(i, a) : op == "isub" ? F.sub(i, a) : F.mul(i, a); });
    } else {
        a = elt(ah); b = elt(bh); E *pr = &r, *pa = &a, *pb = &b;
        if (al == 1) pr = pa; if (al == 2) pr = pb; if (al == 3) pb = pa; if (al == 4) { pb = pa; pr = pa; }
        sig = vp_guard([&] {
            if (op == "add") F.add(*pr, *pa, *pb); else if (op == "sub") F.sub(*pr, *pa, *pb); else if (op == "mul") F.mul(*pr, *pa, *pb);
            else if (op == "div") F.div(*pr, *pa, *pb); else if (op == "inv") F.inv(*pr, *pa); else if (op == "neg") F.neg(*pr, *pa);
            else if (op == "mul1") F.mul1(*pr, *pa, strtoull(bh.c_str(), 0, 16)); else if (op == "square") F.square(*pr, *pa); else if (op == "copy") F.copy(*pr, *pa);
            else if (op == "vadd") *pr = F.add(*pa, *pb); else if (op == "vsub") *pr = F.sub(*pa, *pb); else if (op == "vmul") *pr = F.mul(*pa, *pb);
            else if (op == "vneg") *pr = F.neg(*pa); else if (op == "vsquare") *pr = F.square(*pa);
            else if (op == "toMontgomery") F.toMontgomery(*pr, *pa); else if (op == "fromMontgomery") F.fromMontgomery(*pr, *pa);
            else if (op == "swap") { F.swap(*pa, *pb); o = hexOf(pb->v); pr = pa; }
            else if (op == "eq") { o = F.eq(*pa, *pb) ? "1" : "0"; res = false; }
            else if (op == "isZero") { o = F.isZero(*pa) ? "1" : "0"; res = false; }
            else { fprintf(stderr, "bad class op %s\n", op.c_str()); _exit(3); }
        });
        E a0 = elt(ah), b0 = elt(bh);
        bool sw = op == "swap";
        if (!(res && pr == &a) && memcmp(a.v, a0.v, sizeof a.v)) cl += "a ";
        if (!(res && pr == &b) && !(sw && pb == &b) && memcmp(b.v, b0.v, sizeof b.v)) cl += "b ";
        if (pr == &a) r = a; if (pr == &b) r = b;
    }
    printf("{\"k\":\"class\",\"op\":\"%s\",\"al\":%d,\"a\":\"%s\",\"b\":\"%s\",\"r\":\"%s\",\"o\":\"%s\",\"cl\":\"%s\",\"br\":\"\",\"sig\":%d}\n",
           op.c_str(), al, esc(ah).c_str(), esc(bh).c_str(), res ? hexOf(r.v).c_str() : "", esc(o).c_str(), cl.c_str(), sig);
}

static void runLine(const std::string &line) {
        std::istringstream is(line);
        std::string c; is >> c;
        if (c == "S") { resetRegs(); printf("{\"k\":\"new\"}\n"); }
        else if (c == "L") {
            int d; std::string t, s, l; is >> d >> t >> s >> l;
            R[d].e.type = strtoul(t.c_str(), 0, 16); R[d].e.shortVal = (int32_t)strtol(s.c_str(), 0, 10);
            uint64_t v[N]; parseHex(l, v); memcpy(R[d].e.longVal, v, sizeof v);
            memcpy(SH, R, sizeof R);
            printf("{\"k\":\"load\",\"d\":%d,", d); emitReg(d); printf("}\n");
        } else if (c == "O") { std::string op; int d, a, b; is >> op >> d >> a >> b; runTagged(op, d, a, b); }
        else if (c == "X") {
            int d; std::string t; is >> d >> t; memcpy(SH, R, sizeof R);
            int sig = vp_guard([&] { Fr_str2element(&R[d].e, t.c_str()); });
            std::string cl = clobbers(d, 1);
            printf("{\"k\":\"str\",\"d\":%d,\"txt\":\"%s\",", d, t.c_str()); emitReg(d);
            printf(",\"cl\":\"%s\",\"br\":\"\",\"sig\":%d}\n", cl.c_str(), sig);
        } else if (c == "G" || c == "A") {
            std::string op, at, as, av, bt, bs, bv; int al; FrElement a, b;
            is >> op >> al >> at >> as >> av >> bt >> bs >> bv;
            memset(&a, 0, sizeof a); memset(&b, 0, sizeof b); setElt(a, at, as, av); setElt(b, bt, bs, bv);
            runGrid(c == "A", op, al, a, b);
        } else if (c == "R") { std::string op, a, b; int al; is >> op >> al >> a >> b; runRaw(op, al, a, b); }
        else if (c == "C") { std::string op, a, b; int al; is >> op >> al >> a >> b; if (a == "_") a = ""; if (b == "_") b = ""; runClass(op, al, a, b); }
}

#ifdef VP_PART   // one of several fields in one program (see coexist in lib/field_checks.py)
}
void VP_PART(const char *line) { static bool on = false; if (!on) { on = true; VP_NS::resetRegs(); } vp_guard_init(); VP_NS::runLine(line); }
#else
#ifdef VP_ROSTATICS
#include <sys/mman.h>
extern "C" char __start_vpstat[], __stop_vpstat[];
#endif
int main(int argc, char **argv) {
    vp_guard_init();
#ifdef VP_ROSTATICS     // whatever the assembly keeps in memory of its own is constant from here on
    if (((uintptr_t)__start_vpstat | (uintptr_t)__stop_vpstat) & 4095 || __stop_vpstat - __start_vpstat < 8192 || mprotect(__start_vpstat, __stop_vpstat - __start_vpstat, PROT_READ)) return 42;
#endif
    if (!freopen("/dev/null", "w", stderr)) {}
    resetRegs();
    std::string line;
    while (std::getline(std::cin, line)) runLine(line);
    fflush(stdout);
    return 0;
}
#endif
