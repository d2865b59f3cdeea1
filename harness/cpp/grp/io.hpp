// Reading commands and writing trace lines.
#pragma once
#ifdef _OPENMP
#include <omp.h>
inline int vp_omp() { return omp_get_max_threads(); }
inline void vp_omp(int n) { omp_set_num_threads(n); }
#else
inline int vp_omp() { return 1; }
inline void vp_omp(int) {}
#endif
#include <cstdio>
#include <cstring>
#include <cctype>
#include <iostream>
#include <sstream>
#include <vector>
#include <map>
#include <functional>
#include "../guard.h"
#include "toy.hpp"
typedef std::istringstream In;
typedef std::ostringstream Out;
typedef std::function<void(In &)> Handler;
std::map<std::string, Handler> &handlers();
struct Reg { Reg(const char *n, Handler h) { handlers()[n] = h; } };
extern FILE *vp_out;
inline void emit(const std::string &s) { fputs(s.c_str(), vp_out); fputc('\n', vp_out); }
inline std::string tok(In &in) { std::string s; if (!(in >> s)) { fprintf(stderr, "command too short\n"); exit(3); } return s; }
inline long num(In &in) { return atol(tok(in).c_str()); }
inline std::string hexs(const uint8_t *p, size_t n) { static const char *d = "0123456789abcdef"; std::string s; for (size_t i = 0; i < n; i++) { s += d[p[i] >> 4]; s += d[p[i] & 15]; } return s; }
inline std::vector<uint8_t> unhex(const std::string &s) { std::vector<uint8_t> v; for (size_t i = 0; i + 1 < s.size(); i += 2) v.push_back(strtol(s.substr(i, 2).c_str(), 0, 16)); return v; }
inline std::string jstr(const std::string &s) {
    std::string o = "\"";
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { o += '\\'; o += c; }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\u%04x", c); o += b; }
        else o += c;
    }
    return o + "\"";
}
template <class F> struct IO;
template <> struct IO<Toy> {
    static void parse(Toy &f, In &in, Toy::Element &e) { f.fromUI(e, num(in)); }
    static void print(Toy &f, Out &o, Toy::Element &e) { uint32_t lo = e.v, hi = e.v >> 32; if (lo != hi || lo >= Toy::P) emit("{\"k\":\"noncanon\"}"); o << lo % Toy::P; }
};
// generated Raw classes: hexadecimal residue; a stored form that is not canonical is reported by itself
template <class R> struct IORaw {
    static void parse(R &f, In &in, typename R::Element &e) { f.fromString(e, tok(in), 16); }
    static void print(R &f, Out &o, typename R::Element &e) {
        typename R::Element t; f.fromString(t, f.toString(e));
        if (memcmp(&t, &e, sizeof t)) emit("{\"k\":\"noncanon\"}");
        o << '"' << f.toString(e, 16) << '"';
    }
};
// a copy of bytes that ends at an inaccessible page (and starts, as far as alignment lets it, right after the page before)
#include <sys/mman.h>
struct Fenced {
    uint8_t *base, *p; size_t len, tot, n;
    Fenced(const uint8_t *src, size_t n) : n(n) {
        len = (n + 4095) / 4096 * 4096; if (!len) len = 4096;
        tot = len + 8192;
        base = (uint8_t *)mmap(0, tot, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        memset(base, 0xa5, tot);
        p = base + 4096 + len - n;
        if (n) memcpy(p, src, n);
        mprotect(base, 4096, PROT_NONE); mprotect(base + 4096 + len, 4096, PROT_NONE);
    }
    ~Fenced() { munmap(base, tot); }
    bool frontIntact() { for (uint8_t *q = base + 4096; q < p; q++) if (*q != 0xa5) return false; return true; }
};
