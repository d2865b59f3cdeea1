// Runs splitParStr on texts and prints what came out, one line each.
#include "splitparstr.hpp"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csetjmp>
#include <csignal>
#include <iostream>
#include <sstream>
#include <functional>
#include <sys/time.h>
#include <sys/resource.h>
static sigjmp_buf away; static volatile sig_atomic_t inside, bad;
static void handler(int s) { if (inside) { inside = 0; siglongjmp(away, s); } _Exit(90); }
static void quoted(const std::string &s) {
    putchar('[');
    for (size_t i = 0; i < s.size(); i++) {
        if (i) putchar(',');
        unsigned char c = s[i];
        if (c == '"' || c == '\\') printf("\"\\%c\"", c); else if (c < 32 || c > 126) printf("\"\\u%04x\"", c); else printf("\"%c\"", c);
    }
    putchar(']');
}
static bool balanced(const std::string &s) { long d = 0; for (char c : s) { d += c == '('; d -= c == ')'; if (d < 0) return false; } return d == 0; }
static void one(const std::string &s, bool all = true) {
    static std::vector<std::string> res; static const char *st; res = std::vector<std::string>(); st = "ok";
    struct itimerval t = {{0, 0}, {3, 0}}, z = {{0, 0}, {0, 0}};
    int sig = sigsetjmp(away, 1);
    if (!sig) {
        inside = 1; setitimer(ITIMER_VIRTUAL, &t, 0);
        try { res = splitParStr(s); } catch (...) { st = "throw"; }
        inside = 0;
    } else { st = sig == SIGVTALRM ? "hang" : "crash"; bad = bad + 1; }
    setitimer(ITIMER_VIRTUAL, &z, 0);
    if (!all && !sig) return;
    printf("{\"k\":\"split\",\"st\":\"%s\",\"s\":", st); quoted(s); printf(",\"r\":[");
    if (!strcmp(st, "ok")) for (size_t i = 0; i < res.size(); i++) { if (i) putchar(','); quoted(res[i]); }
    puts("]}");
    if (bad >= 3) { fflush(stdout); _Exit(0); }
}
int main() {
    static char stack[1 << 16]; stack_t ss = {}; ss.ss_sp = stack; ss.ss_size = sizeof stack; sigaltstack(&ss, 0);
    struct sigaction sa = {}; sa.sa_handler = handler; sa.sa_flags = SA_ONSTACK | SA_NODEFER;
    for (int s : {SIGSEGV, SIGBUS, SIGABRT, SIGFPE, SIGVTALRM}) sigaction(s, &sa, 0);
    struct rlimit rl = {8u << 20, 8u << 20}; setrlimit(RLIMIT_STACK, &rl); rl = {2048ul << 20, 2048ul << 20}; setrlimit(RLIMIT_AS, &rl);
    std::string line; long count = 0;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string c; in >> c;
        if (c == "hex") { std::string h, s; in >> h; for (size_t i = 0; i + 1 < h.size(); i += 2) s += (char)strtol(h.substr(i, 2).c_str(), 0, 16); one(s); }
        // every text of a length over an alphabet; unbalanced ones are reported only when they do not end
        else if (c == "all") {
            std::string alpha; int n; in >> n; std::getline(in, alpha); alpha = alpha.substr(1);
            std::string s(n, ' ');
            std::function<void(int, long)> rec = [&](int i, long d) { if (i == n) { count++; one(s, d == 0 && balanced(s)); return; } for (char a : alpha) { s[i] = a; rec(i + 1, d + (a == '(') - (a == ')')); } };
            rec(0, 0);
        }
        // every balanced text
        else if (c == "bal") {
            std::string alpha; int n; in >> n; std::getline(in, alpha); alpha = alpha.substr(1);
            std::string s(n, ' ');
            std::function<void(int, long)> rec = [&](int i, long d) { if (d < 0 || d > n - i) return; if (i == n) { count++; one(s); return; } for (char a : alpha) { s[i] = a; rec(i + 1, d + (a == '(') - (a == ')')); } };
            rec(0, 0);
        }
    }
    fflush(stdout); fprintf(stderr, "#inputs %ld\n", count); _Exit(0);
}
