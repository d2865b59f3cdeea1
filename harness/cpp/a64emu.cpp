#include "a64emu.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <unistd.h>
namespace a64 {
typedef unsigned __int128 u128; typedef __int128 i128;
static uint64_t X[32];     // X[31] is SP
static bool FN, FZ, FC, FV;
static uint64_t PC;
static const size_t STK = 1 << 16;
static uint8_t stackMem[STK] __attribute__((aligned(16)));
static const Range *WR; static int NW; static unsigned *BAD;
static uint64_t SP0;

[[noreturn]] static void unknown(uint32_t i) {
    printf("TOOL: A64 instruction %08x outside the emulated subset\n", i); fflush(stdout); _exit(42);
}
static inline uint64_t rz(unsigned r) { return r == 31 ? 0 : X[r]; }              // xzr
static inline uint64_t rsp(unsigned r) { return X[r]; }                           // sp
static inline void wz(unsigned r, uint64_t v, bool sf) { if (r != 31) X[r] = sf ? v : (uint32_t)v; }
static inline void wsp(unsigned r, uint64_t v, bool sf) { X[r] = sf ? v : (uint32_t)v; }
static inline int64_t sx(uint64_t v, int bits) { return (int64_t)(v << (64 - bits)) >> (64 - bits); }
static bool cond(unsigned c) {
    bool r;
    switch (c >> 1) {
    case 0: r = FZ; break; case 1: r = FC; break; case 2: r = FN; break; case 3: r = FV; break;
    case 4: r = FC && !FZ; break; case 5: r = FN == FV; break; case 6: r = FN == FV && !FZ; break; default: r = true;
    }
    return (c & 1) && c != 15 ? !r : r;
}
static uint64_t addc(uint64_t a, uint64_t b, bool c, bool sf, bool setf) {
    if (sf) {
        u128 s = (u128)a + b + c; uint64_t r = (uint64_t)s;
        if (setf) { FN = r >> 63; FZ = r == 0; FC = s >> 64; FV = ((a ^ r) & (b ^ r)) >> 63; }
        return r;
    }
    uint64_t s = (uint64_t)(uint32_t)a + (uint32_t)b + c; uint32_t r = (uint32_t)s;
    if (setf) { FN = r >> 31; FZ = r == 0; FC = s >> 32; FV = (((uint32_t)a ^ r) & ((uint32_t)b ^ r)) >> 31; }
    return r;
}
static uint64_t shiftv(uint64_t v, unsigned type, unsigned n, bool sf) {
    unsigned w = sf ? 64 : 32; if (!sf) v = (uint32_t)v; n %= w;
    if (n == 0) return v;
    switch (type) {
    case 0: v <<= n; break;
    case 1: v >>= n; break;
    case 2: v = sf ? (uint64_t)((int64_t)v >> n) : (uint64_t)(uint32_t)((int32_t)v >> n); break;
    default: v = (v >> n) | (v << (w - n));
    }
    return sf ? v : (uint32_t)v;
}
static uint64_t extendv(uint64_t v, unsigned opt, unsigned sh) {
    switch (opt) { case 0: v = (uint8_t)v; break; case 1: v = (uint16_t)v; break; case 2: v = (uint32_t)v; break; case 3: break;
        case 4: v = (int64_t)(int8_t)v; break; case 5: v = (int64_t)(int16_t)v; break; case 6: v = (int64_t)(int32_t)v; break; default: break; }
    return v << sh;
}
static bool bitmask(unsigned N, unsigned imms, unsigned immr, bool sf, uint64_t &wmask, uint64_t &tmask, bool logical) {
    int len = -1; unsigned x = (N << 6) | (~imms & 0x3f);
    for (int i = 6; i >= 0; i--) if (x >> i & 1) { len = i; break; }
    if (len < 1 && !( !logical)) return false;
    if (len < 1) return false;
    unsigned lev = (1u << len) - 1, S = imms & lev, R = immr & lev;
    if (logical && S == lev) return false;
    unsigned es = 1u << len, d = (S - R) & lev;
    uint64_t we = S == 63 ? ~0ULL : (1ULL << (S + 1)) - 1, te = d == 63 ? ~0ULL : (1ULL << (d + 1)) - 1;
    uint64_t m = es == 64 ? ~0ULL : (1ULL << es) - 1;
    uint64_t rot = R == 0 ? we : (((we >> R) | (we << (es - R))) & m);
    wmask = tmask = 0;
    for (unsigned i = 0; i < 64; i += es) { wmask |= (rot & m) << i; tmask |= (te & m) << i; if (es == 64) break; }
    if (!sf) { wmask = (uint32_t)wmask; tmask = (uint32_t)tmask; }
    return true;
}
static uint64_t load(uint64_t a, int n) { uint64_t v = 0; memcpy(&v, (void *)a, n); return v; }
static void store(uint64_t a, uint64_t v, int n) {
    bool ok = a >= (uint64_t)stackMem && a + n <= SP0;
    for (int i = 0; i < NW; i++) ok |= a >= WR[i].lo && a + n <= WR[i].hi;
    if (!ok) { *BAD |= WILD; if (a >= (uint64_t)stackMem && a + n <= (uint64_t)stackMem + STK) return; }
    memcpy((void *)a, &v, n);
}
static uint64_t base(unsigned n) { return rsp(n); }

static void step() {
    uint32_t i; memcpy(&i, (void *)PC, 4);
    uint64_t next = PC + 4;
    auto b = [&](int hi, int lo) -> uint32_t { return (i >> lo) & ((hi - lo == 31) ? ~0u : ((1u << (hi - lo + 1)) - 1)); };
    bool sf = i >> 31; unsigned rd = b(4, 0), rn = b(9, 5), rm = b(20, 16), ra = b(14, 10);
    unsigned w = sf ? 64 : 32;
    if (i == 0xd503201f || (i & 0xfffff01f) == 0xd503201f) { PC = next; return; }                       // hints
    if ((i & 0x1f000000) == 0x10000000) {                                                               // adr, adrp
        int64_t imm = sx((uint64_t)b(23, 5) << 2 | b(30, 29), 21);
        wz(rd, sf ? (PC & ~0xfffULL) + ((uint64_t)imm << 12) : PC + imm, true);
    } else if ((i & 0x1f800000) == 0x11000000) {                                                        // add/sub immediate
        uint64_t imm = (uint64_t)b(21, 10) << (b(22, 22) ? 12 : 0); bool sub = b(30, 30), S = b(29, 29);
        uint64_t a = rsp(rn), r = sub ? addc(a, sf ? ~imm : (uint32_t)~imm, 1, sf, S) : addc(a, imm, 0, sf, S);
        if (S) wz(rd, r, sf); else wsp(rd, r, sf);
    } else if ((i & 0x1f800000) == 0x12000000) {                                                        // logical immediate
        uint64_t m, t; if (!bitmask(b(22, 22), b(15, 10), b(21, 16), sf, m, t, true) || (!sf && b(22, 22))) unknown(i);
        uint64_t a = rz(rn), r; unsigned opc = b(30, 29);
        r = opc == 0 || opc == 3 ? a & m : opc == 1 ? a | m : a ^ m; if (!sf) r = (uint32_t)r;
        if (opc == 3) { FN = r >> (w - 1); FZ = r == 0; FC = FV = false; wz(rd, r, sf); } else wsp(rd, r, sf);
    } else if ((i & 0x1f800000) == 0x12800000) {                                                        // movn/z/k
        unsigned opc = b(30, 29), sh = b(22, 21) * 16; uint64_t v = (uint64_t)b(20, 5) << sh; if (!sf && sh > 16) unknown(i);
        if (opc == 0) wz(rd, ~v, sf); else if (opc == 2) wz(rd, v, sf); else if (opc == 3) wz(rd, (rz(rd) & ~(0xffffULL << sh)) | v, sf); else unknown(i);
    } else if ((i & 0x1f800000) == 0x13000000) {                                                        // bitfield
        unsigned opc = b(30, 29), immr = b(21, 16), imms = b(15, 10); uint64_t wm, tm; if (b(22, 22) != (unsigned)sf) unknown(i);
        if (!bitmask(b(22, 22), imms, immr, sf, wm, tm, false)) unknown(i);
        uint64_t src = sf ? rz(rn) : (uint32_t)rz(rn), dst = opc == 1 ? rz(rd) : 0;
        uint64_t rot = shiftv(src, 3, immr, sf), bot = (dst & ~wm) | (rot & wm), top = opc == 0 ? ((src >> imms & 1) ? ~0ULL : 0) : dst;
        if (opc == 3) unknown(i);
        wz(rd, (top & ~tm) | (bot & tm), sf);
    } else if ((i & 0x7fa00000) == 0x13800000) {                                                        // extr
        unsigned s = b(15, 10); if (b(22, 22) != (unsigned)sf) unknown(i);
        uint64_t hi = rz(rn), lo = rz(rm);
        if (sf) wz(rd, s ? (lo >> s) | (hi << (64 - s)) : lo, true); else { uint64_t c = (uint64_t)(uint32_t)hi << 32 | (uint32_t)lo; wz(rd, c >> s, false); }
    } else if ((i & 0x7c000000) == 0x14000000) {                                                        // b, bl
        if (sf) X[30] = next; next = PC + sx(b(25, 0), 26) * 4;
    } else if ((i & 0xff000010) == 0x54000000) { if (cond(b(3, 0))) next = PC + sx(b(23, 5), 19) * 4; }  // b.cond
    else if ((i & 0x7e000000) == 0x34000000) {                                                          // cbz, cbnz
        uint64_t v = sf ? rz(rd) : (uint32_t)rz(rd); if ((v == 0) != (bool)b(24, 24)) next = PC + sx(b(23, 5), 19) * 4;
    } else if ((i & 0x7e000000) == 0x36000000) {                                                        // tbz, tbnz
        unsigned bit = b(31, 31) << 5 | b(23, 19); if ((rz(rd) >> bit & 1) == b(24, 24)) next = PC + sx(b(18, 5), 14) * 4;
    } else if ((i & 0xff9ffc1f) == 0xd61f0000) {                                                        // br, blr, ret
        unsigned op = b(22, 21); uint64_t t = rz(rn); if (op == 3) unknown(i); if (op == 1) X[30] = next; next = t;
    } else if ((i & 0x3b000000) == 0x18000000) {                                                        // ldr literal
        unsigned opc = b(31, 30); if (b(26, 26) || opc == 3) unknown(i); uint64_t a = PC + sx(b(23, 5), 19) * 4;
        wz(rd, opc == 0 ? load(a, 4) : opc == 1 ? load(a, 8) : (uint64_t)(int64_t)(int32_t)load(a, 4), true);
    } else if ((i & 0x3a000000) == 0x28000000) {                                                        // ldp/stp
        unsigned opc = b(31, 30), mode = b(24, 23); if (b(26, 26) || opc == 1 || opc == 3) unknown(i);
        int n = opc == 2 ? 8 : 4; int64_t off = sx(b(21, 15), 7) * n; uint64_t a = base(rn);
        if (mode != 1) a += off;
        if (b(22, 22)) { uint64_t v = load(a, n), u = load(a + n, n); wz(rd, v, true); wz(ra, u, true); }
        else { store(a, rz(rd), n); store(a + n, rz(ra), n); }
        if (mode == 1) X[rn] = base(rn) + off; else if (mode == 3) X[rn] = a;
    } else if ((i & 0x3a000000) == 0x38000000) {                                                        // ldr/str register
        unsigned size = b(31, 30), opc = b(23, 22); if (b(26, 26)) unknown(i);
        int n = 1 << size; uint64_t a = base(rn); bool wb = false; uint64_t nb = 0;
        if (b(24, 24)) a += (uint64_t)b(21, 10) * n;
        else if (b(21, 21)) {
            if (b(11, 10) != 2) unknown(i);
            unsigned opt = b(15, 13); if (!(opt & 2)) unknown(i);
            a += extendv(rz(rm), opt, b(12, 12) ? size : 0);
        } else {
            int64_t off = sx(b(20, 12), 9); unsigned m = b(11, 10); if (m == 2) unknown(i);
            if (m == 0) a += off; else if (m == 1) { wb = true; nb = a + off; } else { a += off; wb = true; nb = a; }
        }
        if (opc == 0) store(a, rz(rd), n);
        else if (opc == 1) wz(rd, load(a, n), true);
        else { if (size == 3 || (opc == 3 && size == 2)) unknown(i); int64_t v = sx(load(a, n), 8 * n); wz(rd, v, opc == 2); }
        if (wb) X[rn] = nb;
    } else if ((i & 0x1f000000) == 0x0a000000) {                                                        // logical shifted
        unsigned s = b(15, 10); if (!sf && s > 31) unknown(i);
        uint64_t m = shiftv(rz(rm), b(23, 22), s, sf), a = rz(rn), r; if (b(21, 21)) m = ~m;
        unsigned opc = b(30, 29); r = opc == 0 || opc == 3 ? a & m : opc == 1 ? a | m : a ^ m; if (!sf) r = (uint32_t)r;
        if (opc == 3) { FN = r >> (w - 1); FZ = r == 0; FC = FV = false; }
        wz(rd, r, sf);
    } else if ((i & 0x1f200000) == 0x0b000000) {                                                        // add/sub shifted
        unsigned s = b(15, 10); if (b(23, 22) == 3 || (!sf && s > 31)) unknown(i);
        uint64_t m = shiftv(rz(rm), b(23, 22), s, sf); bool sub = b(30, 30), S = b(29, 29);
        wz(rd, sub ? addc(rz(rn), ~m, 1, sf, S) : addc(rz(rn), m, 0, sf, S), sf);
    } else if ((i & 0x1fe00000) == 0x0b200000) {                                                        // add/sub extended
        uint64_t m = extendv(rz(rm), b(15, 13), b(12, 10)); bool sub = b(30, 30), S = b(29, 29);
        uint64_t r = sub ? addc(rsp(rn), ~m, 1, sf, S) : addc(rsp(rn), m, 0, sf, S);
        if (S) wz(rd, r, sf); else wsp(rd, r, sf);
    } else if ((i & 0x1fe0fc00) == 0x1a000000) {                                                        // adc/sbc
        bool sub = b(30, 30), S = b(29, 29); uint64_t m = rz(rm); wz(rd, addc(rz(rn), sub ? ~m : m, FC, sf, S), sf);
    } else if ((i & 0x3fe00410) == 0x3a400000) {                                                        // ccmn/ccmp
        uint64_t m = b(11, 11) ? rm : rz(rm); bool sub = b(30, 30);
        if (cond(b(15, 12))) { if (sub) addc(rz(rn), ~m, 1, sf, true); else addc(rz(rn), m, 0, sf, true); }
        else { FN = b(3, 3); FZ = b(2, 2); FC = b(1, 1); FV = b(0, 0); }
    } else if ((i & 0x3fe00800) == 0x1a800000) {                                                        // csel family
        uint64_t r; bool inv = b(30, 30), o2 = b(10, 10);
        if (cond(b(15, 12))) r = rz(rn); else { r = rz(rm); if (inv) r = ~r; if (o2) r += 1; }
        wz(rd, r, sf);
    } else if ((i & 0x7fe00000) == 0x1b000000) {                                                        // madd/msub
        uint64_t p = rz(rn) * rz(rm); wz(rd, b(15, 15) ? rz(ra) - p : rz(ra) + p, sf);
    } else if ((i & 0xff600000) == 0x9b200000) {                                                        // s/umaddl, s/umsubl
        uint64_t p = b(23, 23) ? (uint64_t)(uint32_t)rz(rn) * (uint32_t)rz(rm) : (uint64_t)((int64_t)(int32_t)rz(rn) * (int32_t)rz(rm));
        wz(rd, b(15, 15) ? rz(ra) - p : rz(ra) + p, true);
    } else if ((i & 0xffe08000) == 0x9bc00000) wz(rd, (uint64_t)(((u128)rz(rn) * rz(rm)) >> 64), true);  // umulh
    else if ((i & 0xffe08000) == 0x9b400000) wz(rd, (uint64_t)(((i128)(int64_t)rz(rn) * (int64_t)rz(rm)) >> 64), true);
    else if ((i & 0x7fe00000) == 0x1ac00000) {                                                          // 2-source
        uint64_t a = sf ? rz(rn) : (uint32_t)rz(rn), m = sf ? rz(rm) : (uint32_t)rz(rm);
        switch (b(15, 10)) {
        case 2: wz(rd, m ? a / m : 0, sf); break;
        case 3: if (sf) wz(rd, m == 0 ? 0 : m == ~0ULL ? 0 - a : (uint64_t)((int64_t)a / (int64_t)m), true); else wz(rd, (uint32_t)m == 0 ? 0 : (uint32_t)m == ~0u ? 0 - a : (uint64_t)(uint32_t)((int32_t)a / (int32_t)m), false); break;
        case 8: case 9: case 10: case 11: wz(rd, shiftv(a, b(11, 10), m % w, sf), sf); break;
        default: unknown(i);
        }
    } else if ((i & 0x7fff0000) == 0x5ac00000) {                                                        // 1-source
        uint64_t a = sf ? rz(rn) : (uint32_t)rz(rn), r = 0;
        switch (b(15, 10)) {
        case 0: for (unsigned k = 0; k < w; k++) if (a >> k & 1) r |= 1ULL << (w - 1 - k); break;
        case 2: if (sf) r = (uint64_t)__builtin_bswap32((uint32_t)a) | (uint64_t)__builtin_bswap32(a >> 32) << 32; else r = __builtin_bswap32((uint32_t)a); break;
        case 3: if (!sf) unknown(i); r = __builtin_bswap64(a); break;
        case 4: r = w; for (unsigned k = 0; k < w; k++) if (a >> (w - 1 - k) & 1) { r = k; break; } break;
        default: unknown(i);
        }
        wz(rd, r, sf);
    } else unknown(i);
    PC = next;
}

uint64_t run(uint64_t pc, uint64_t a0, uint64_t a1, uint64_t a2, const Range *w, int nw, unsigned *bad) {
    static uint64_t salt = 0x9E3779B97F4A7C15ULL;
    const uint64_t LINK = 0x4242424242424240ULL;
    for (int k = 0; k < 31; k++) { salt = salt * 6364136223846793005ULL + 1442695040888963407ULL; X[k] = salt | 1ULL << 63; }
    FN = salt >> 60 & 1; FZ = salt >> 59 & 1; FC = salt >> 58 & 1; FV = salt >> 57 & 1;
    X[0] = a0; X[1] = a1; X[2] = a2; X[30] = LINK;
    SP0 = (uint64_t)stackMem + STK - 256; X[31] = SP0; WR = w; NW = nw; BAD = bad;
    uint64_t keep[32]; memcpy(keep, X, sizeof X);
    PC = pc;
    for (long n = 0; PC != LINK; n++) { if (n > 4000000) { *bad |= RET; break; } step(); }
    for (int k = 19; k <= 29; k++) if (X[k] != keep[k]) *bad |= X19;
    if (X[18] != keep[18]) *bad |= X18;
    if (X[31] != SP0) *bad |= SP;
    return X[0];
}
}
