// A cooperative scheduler under the thread library: exactly one thread of the program under test runs at a time and every
// synchronisation operation (and, in the fine mode, every instrumented memory access) is a point where the schedule may switch.
#pragma once
#include <cstdint>
#include <string>
#include <functional>
#include <vector>
struct Sched {
    int strat = 0;                  // 0 random walk, 1 priorities with change points, 2 given choices then first, 3 given thread order
    uint64_t seed = 1;
    bool fine = false;              // memory accesses are points too
    bool races = false;             // log accesses
    long span = 0;                  // ... among so many first steps
    int depth = 3;                  // change points of strategy 1
    int spurious = 0;               // budget of spurious wake-ups
    std::vector<int> given;         // choices (2) or thread ids (3)
    long limit = 2000000;           // steps before the run counts as stuck
    int processors = 4;             // what hardware_concurrency answers
};
struct Choice { uint8_t n, took, cont; };   // options, index taken, whether option 0 continues the running thread
struct RunOut { std::string lines; std::vector<Choice> choices; int status; };
// Runs fn in a child process under the schedule; its trace lines are collected.
RunOut vp_run(const Sched &s, const std::function<void()> &fn);
void vp_line(const std::string &s);       // a line of the trace (from any managed thread)
void vp_point();                          // an explicit scheduling point
int vp_self();                            // id of the running managed thread
