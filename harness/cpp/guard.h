// Runs one call under signal protection: a crash, abort, arithmetic fault or hang inside the code under test
// becomes an observable outcome ("sig") instead of ending the driver.
#pragma once
#include <csetjmp>
#include <csignal>
#include <cstdlib>
#include <unistd.h>
#include <sys/time.h>
static sigjmp_buf vp_jb;
static volatile sig_atomic_t vp_in = 0;
static void vp_handler(int s) {
    if (!vp_in) { signal(s, SIG_DFL); raise(s); return; }
    siglongjmp(vp_jb, s);
}
static void vp_guard_init() {
    static char stk[1 << 16];
    stack_t ss; ss.ss_sp = stk; ss.ss_size = sizeof stk; ss.ss_flags = 0;
    sigaltstack(&ss, 0);
    struct sigaction sa;
    sa.sa_handler = vp_handler; sigemptyset(&sa.sa_mask); sa.sa_flags = SA_NODEFER | SA_ONSTACK;
    const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
    for (int s : sigs) sigaction(s, &sa, 0);
    // abort()/assert text would only clutter the log
}
template <typename F> int vp_guard(F f, unsigned secs = 10) {
    int s = sigsetjmp(vp_jb, 1);
    if (s == 0) { vp_in = 1; alarm(secs); f(); }
    alarm(0); vp_in = 0;
    return s;
}
