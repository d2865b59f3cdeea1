// Runs programs over the thread pool and the parallel algorithms under many schedules and prints each distinct trace once.
#include "progs.hpp"
#include <cstdio>
#include <cstdlib>
#include <iostream>
#include <sstream>
#include <unordered_set>
#include <unistd.h>
static std::unordered_set<std::string> seen;
static std::string progText; static std::function<void()> prog;
static long runs, fresh, maxDistinct = 1L << 30;
static RunOut one(const Sched &s) {
    RunOut r = vp_run(s, prog); runs++;
    static int bad = 0;
    if (r.status) {      // a run that does not end need not be told at length, nor many times
        size_t at = 0; int n = 0; while (n < 3000 && (at = r.lines.find('\n', at)) != std::string::npos) at++, n++;
        if (n == 3000 && at < r.lines.size()) { r.lines.resize(at); r.lines += "{\"k\":\"stuck\",\"t\":0,\"how\":\"endless\"}\n"; }
        else if (r.status >= 90) { fprintf(stderr, "runtime limit %d in %s\n", r.status, progText.c_str()); exit(3); }
        bad++;
    }
    if (seen.insert(r.lines).second) {
        fresh++;
        std::string how = "strat " + std::to_string(s.strat) + " seed " + std::to_string(s.seed) + (s.fine ? " fine" : "");
        if (s.strat >= 2) { how += " given"; for (int g : s.given) how += " " + std::to_string(g); }
        printf("{\"k\":\"run\",\"t\":0,\"how\":\"%s\"}\n%s", how.c_str(), r.lines.c_str());
    }
    if (bad >= 3) { fflush(stdout); fprintf(stderr, "#runs %ld distinct %ld\n", runs, fresh); _exit(0); }
    return r;
}
int main() {
    std::string line;
    Sched base;
    while (std::getline(std::cin, line)) {
        std::istringstream in(line); std::string c; if (!(in >> c) || c[0] == '#') continue;
        if (c == "prog") { std::getline(in, progText); prog = makeProg(progText); seen.clear(); base = Sched(); printf("{\"k\":\"prog\",\"t\":0,\"p\":\"%s\"}\n", progText.c_str()); }
        else if (c == "vary") { std::getline(in, progText); prog = makeProg(progText); printf("{\"k\":\"vary\",\"t\":0,\"p\":\"%s\"}\n", progText.c_str()); }      // the same problem with other threads
        else if (c == "set") { std::string k; long v; while (in >> k >> v) { if (k == "procs") base.processors = v; else if (k == "fine") base.fine = v; else if (k == "races") base.races = v; else if (k == "spurious") base.spurious = v; else if (k == "depth") base.depth = v; else if (k == "span") base.span = v; else if (k == "limit") base.limit = v; else if (k == "strat") base.strat = v; } }
        else if (c == "many") { long seed, n; in >> seed >> n; for (long i = 0; i < n; i++) { Sched s = base; s.seed = seed + i; one(s); } }
        else if (c == "given") { Sched s = base; s.strat = 3; int v; while (in >> v) s.given.push_back(v); one(s); }
        else if (c == "replay") { Sched s = base; s.strat = 2; int v; while (in >> v) s.given.push_back(v); one(s); }
        else if (c == "dfs") {        // every schedule with at most so many preemptions
            int bound; long most; in >> bound >> most; Sched s = base; s.strat = 2; long n = 0; bool all = false;
            while (n++ < most) {
                RunOut r = one(s);
                if (r.status == 1 || r.status == 2) break;
                int cost = 0; std::vector<int> pre(r.choices.size());
                for (size_t i = 0; i < r.choices.size(); i++) { pre[i] = cost; cost += r.choices[i].cont && r.choices[i].took > 0; }
                long i = (long)r.choices.size() - 1;
                for (; i >= 0; i--) { auto &ch = r.choices[i]; if (ch.took + 1 < ch.n && pre[i] + (ch.cont ? 1 : 0) <= bound) break; }
                if (i < 0) { all = true; break; }
                s.given.clear(); for (long k = 0; k < i; k++) s.given.push_back(r.choices[k].took); s.given.push_back(r.choices[i].took + 1);
            }
            if (all) fprintf(stderr, "#complete\n");
        } else if (c == "stat") { fflush(stdout); fprintf(stderr, "#runs %ld distinct %ld\n", runs, fresh); }
        else { fprintf(stderr, "unknown command %s\n", c.c_str()); return 3; }
    }
    fflush(stdout);
    _exit(0);
}
