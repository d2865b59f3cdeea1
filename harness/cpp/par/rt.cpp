#include "rt.hpp"
#include <pthread.h>
#include <semaphore.h>
#include <dlfcn.h>
#include <unistd.h>
#include <sched.h>
#include <cerrno>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <csignal>
#include <thread>
#include <map>
#include <unordered_map>
#include <algorithm>
#include <ctime>
#include <sys/mman.h>
#include <sys/wait.h>
#include <sys/syscall.h>
#include <linux/futex.h>

// ---- memory: never reused inside a run, so that an address stands for one object ---------------------------------
static bool active = false;
static char *bump = 0, *bumpEnd = 0;
extern "C" void *__libc_malloc(size_t); extern "C" void __libc_free(void *); extern "C" void *__libc_realloc(void *, size_t); extern "C" void *__libc_calloc(size_t, size_t); extern "C" void *__libc_memalign(size_t, size_t);
static bool inBump(void *p) { return bump && (char *)p >= bumpEnd - (1L << 32) && (char *)p < bumpEnd; }
static void *bumpAlloc(size_t n, size_t al = 16) {
    uintptr_t b = ((uintptr_t)bump + 16 + al - 1) / al * al; char *p = (char *)b; ((size_t *)p)[-1] = n; bump = p + ((n + 15) & ~15UL);
    if (bump >= bumpEnd) { _exit(97); }
    return p;
}
extern "C" void *malloc(size_t n) { return active ? bumpAlloc(n) : __libc_malloc(n); }
extern "C" void free(void *p) { if (p && !inBump(p)) __libc_free(p); }
extern "C" void *calloc(size_t a, size_t b) { if (!active) return __libc_calloc(a, b); void *p = bumpAlloc(a * b); memset(p, 0, a * b); return p; }
extern "C" void *realloc(void *p, size_t n) {
    if (!active && !inBump(p)) return __libc_realloc(p, n);
    void *q = bumpAlloc(n); if (p) { size_t o = inBump(p) ? ((size_t *)p)[-1] : n; memcpy(q, p, o < n ? o : n); } return q;
}
extern "C" void *memalign(size_t al, size_t n) { return active ? bumpAlloc(n, al) : __libc_memalign(al, n); }
extern "C" void *aligned_alloc(size_t al, size_t n) { return memalign(al, n); }
extern "C" int posix_memalign(void **r, size_t al, size_t n) { *r = memalign(al, n); return 0; }

// ---- threads ------------------------------------------------------------------------------------------------------
enum { READY, ON_MUTEX, ON_COND, ON_JOIN, ON_SEM, ON_TEAM, ON_BARRIER, DONE };
struct Acc { uintptr_t a; uint32_t n; bool w; };
struct T {
    int id, st; const void *obj; uint32_t fut; pthread_t real; void *(*fn)(void *); void *arg, *ret; int prio; bool daemon;
    std::vector<Acc> acc;
};
static const int MAXT = 320;
static T th[MAXT]; static int nth = 0;
static __thread T *me = 0;
static __thread int quiet = 0;
static T *cur = 0;
static Sched cfg;
static uint64_t rng;
static long steps = 0;
static std::vector<long> changeAt;
static int lowPrio = 0, spuriousLeft = 0; static size_t givenAt = 0;
struct Shared { size_t len; size_t nch; int status; Choice ch[1 << 20]; char text[1]; };
static Shared *out = 0; static const size_t OUT = 96UL << 20;

static uint64_t rnd() { rng ^= rng << 13; rng ^= rng >> 7; rng ^= rng << 17; return rng; }
static long fx(uint32_t *p, int op, uint32_t v) { return syscall(SYS_futex, p, op | FUTEX_PRIVATE_FLAG, v, 0, 0, 0); }
static void addText(const char *s, size_t n) { if (sizeof(Shared) + out->len + n + 2 < OUT) { memcpy(out->text + out->len, s, n); out->len += n; out->text[out->len++] = '\n'; } else out->status = 96; }
void vp_line(const std::string &s) { addText(s.data(), s.size()); }
int vp_self() { return me ? me->id : -1; }
static void flushSegs();
static void finish(int st) { out->status = out->status ? out->status : st; _exit(0); }
static void stuck(const char *how) {
    quiet++; std::string s = std::string("{\"k\":\"stuck\",\"t\":0,\"how\":\"") + how + "\"}"; addText(s.data(), s.size()); finish(1);
}
static void sleepSelf() { T *s = me; while (__atomic_load_n(&s->fut, __ATOMIC_SEQ_CST) == 0) fx(&s->fut, FUTEX_WAIT, 0); s->fut = 0; }
static void resume(T *t) { cur = t; __atomic_store_n(&t->fut, 1, __ATOMIC_SEQ_CST); fx(&t->fut, FUTEX_WAKE, 1); }

// the next thread among those that can go on
static T *choose() {
    if (++steps > cfg.limit) stuck("endless");
    T *opt[MAXT]; int n = 0;
    bool cont = me && me->st == READY;
    if (cont) opt[n++] = me;
    for (int i = 0; i < nth; i++) if (th[i].st == READY && &th[i] != me) opt[n++] = &th[i];
    if (spuriousLeft > 0 && cfg.strat < 2 && rnd() % 16 == 0) {      // wake somebody for no reason
        T *sl[MAXT]; int m = 0;
        for (int i = 0; i < nth; i++) if (th[i].st == ON_COND) sl[m++] = &th[i];
        if (m && n) { spuriousLeft--; T *t = sl[rnd() % m]; t->st = READY; opt[n++] = t; }
    }
    if (!n) stuck("deadlock");
    int k = 0;
    if (cfg.strat == 0) k = n > 1 ? rnd() % n : 0;
    else if (cfg.strat == 1) {
        for (long c : changeAt) if (c == steps && cont) me->prio = --lowPrio;
        for (int i = 1; i < n; i++) if (opt[i]->prio > opt[k]->prio) k = i;
    } else if (cfg.strat == 2) { k = n > 1 && givenAt < cfg.given.size() ? std::min(cfg.given[givenAt], n - 1) : 0; if (n > 1) givenAt++; }
    else { if (givenAt < cfg.given.size()) { int want = cfg.given[givenAt++]; for (int i = 0; i < n; i++) if (opt[i]->id == want) { k = i; break; } } }
    if (n > 1 && out->nch < (1 << 20)) out->ch[out->nch++] = Choice{(uint8_t)n, (uint8_t)k, (uint8_t)cont};
    return opt[k];
}
static void point() { if (!active || !me || quiet) return; T *t = choose(); if (t != me) { resume(t); sleepSelf(); } }
void vp_point() { point(); }
static void block(int st, const void *o) { me->st = st; me->obj = o; T *t = choose(); if (t != me) { resume(t); sleepSelf(); } }
static void wakeAll(int st, const void *o) { for (int i = 0; i < nth; i++) if (th[i].st == st && th[i].obj == o) th[i].st = READY; }

// ---- the log of accesses, cut at every synchronisation ------------------------------------------------------------
struct Ev { int kind, t; uintptr_t o; std::vector<Acc> acc; };      // 0 segment, 1 acquire, 2 release
static std::vector<Ev> evs;
static void sync(int kind, const void *o) {
    if (!cfg.races || !active || !me) return;
    quiet++;
    if (me->acc.size()) { evs.push_back(Ev{0, me->id, 0, {}}); evs.back().acc.swap(me->acc); }
    evs.push_back(Ev{kind, me->id, (uintptr_t)o, {}});
    quiet--;
}
static void acq(const void *o) { sync(1, o); }
static void rel(const void *o) { sync(2, o); }
static inline void access(const void *p, size_t n, bool w) {
    if (!active || !me || quiet) return;
    if (cfg.fine) point();
    if (cfg.races) { auto &v = me->acc; if (v.size()) { auto &l = v.back(); if (l.a == (uintptr_t)p && l.n == n && l.w == w) return; } quiet++; v.push_back(Acc{(uintptr_t)p, (uint32_t)n, w}); quiet--; }
}
static std::string hexBits(std::vector<int> &ids) {      // a number with those bits
    std::sort(ids.begin(), ids.end());
    int top = ids.empty() ? 0 : ids.back(); std::string s(top / 4 + 1, '0');
    for (int b : ids) { char &c = s[top / 4 - b / 4]; int v = (c <= '9' ? c - '0' : c - 'a' + 10) | (1 << (b % 4)); c = v < 10 ? '0' + v : 'a' + v - 10; }
    return s;
}
static void flushSegs() {
    if (!cfg.races) return;
    quiet++;
    for (int i = 0; i < nth; i++) if (th[i].acc.size()) { evs.push_back(Ev{0, th[i].id, 0, {}}); evs.back().acc.swap(th[i].acc); }
    // bytes touched by two threads, one of them writing, and the same bytes for all of them together
    struct B { uint64_t all = 0; bool w = false; };
    std::unordered_map<uintptr_t, B> bytes;
    for (auto &e : evs) if (!e.kind) for (auto &a : e.acc) for (uint32_t k = 0; k < a.n; k++) { auto &b = bytes[a.a + k]; b.all |= 1ULL << e.t; b.w |= a.w; }
    // bytes with the same history are one location
    std::unordered_map<uintptr_t, std::string> hist;
    for (size_t i = 0; i < evs.size(); i++) if (!evs[i].kind) for (auto &a : evs[i].acc) for (uint32_t k = 0; k < a.n; k++) {
        auto &b = bytes[a.a + k]; if (!b.w || !(b.all & (b.all - 1))) continue;
        auto &h = hist[a.a + k]; std::string m = std::to_string(i) + (a.w ? "w" : "r");
        if (h.size() < m.size() + 1 || h.compare(h.size() - m.size() - 1, m.size(), m)) h += m + ",";
    }
    std::unordered_map<std::string, int> ids; std::unordered_map<uintptr_t, int> loc; std::map<uintptr_t, int> obj;
    for (auto &h : hist) { auto it = ids.emplace(h.second, (int)ids.size()).first; loc[h.first] = it->second; }
    for (auto &e : evs) {
        std::string s;
        if (e.kind) { auto it = obj.emplace(e.o, (int)obj.size() + 1).first; s = std::string("{\"k\":\"") + (e.kind == 1 ? "acq" : "rel") + "\",\"t\":" + std::to_string(e.t) + ",\"o\":" + std::to_string(it->second) + "}"; }
        else {
            std::vector<int> r, w;
            for (auto &a : e.acc) for (uint32_t k = 0; k < a.n; k++) { auto it = loc.find(a.a + k); if (it != loc.end()) (a.w ? w : r).push_back(it->second); }
            if (r.empty() && w.empty()) continue;
            s = "{\"k\":\"seg\",\"t\":" + std::to_string(e.t) + ",\"r\":\"" + hexBits(r) + "\",\"w\":\"" + hexBits(w) + "\"" + (r.empty() ? ",\"nr\":1" : ",\"nr\":0") + (w.empty() ? ",\"nw\":1}" : ",\"nw\":0}");
        }
        addText(s.data(), s.size());
    }
    quiet--;
}

// ---- one run ------------------------------------------------------------------------------------------------------
static void onSignal(int s) { std::string t = "{\"k\":\"crash\",\"t\":0,\"sig\":" + std::to_string(s) + "}"; addText(t.data(), t.size()); out->status = 2; _exit(0); }
RunOut vp_run(const Sched &s, const std::function<void()> &fn) {
    if (!out) out = (Shared *)mmap(0, OUT, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    out->len = 0; out->nch = 0; out->status = 0;
    fflush(stdout);
    pid_t p = fork();
    if (!p) {
        const int sigs[] = {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGALRM};
        for (int x : sigs) signal(x, onSignal);
        alarm(30);
        cfg = s; rng = s.seed * 0x9E3779B97F4A7C15ULL + 0x1234567; for (int i = 0; i < 8; i++) rnd();
        spuriousLeft = s.spurious;
        char *m = (char *)mmap(0, 1L << 32, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        bump = m; bumpEnd = m + (1L << 32);
        if (s.strat == 1) for (int i = 0; i < s.depth; i++) changeAt.push_back(1 + rnd() % (s.span ? s.span : s.fine ? 3000 : 120));
        T &t = th[nth++]; t.id = 0; t.st = READY; t.fut = 0; t.prio = rnd() % 1000; me = cur = &t;
        active = true;
        fn();
        quiet++;
        flushSegs();
        finish(0);
    }
    int st; waitpid(p, &st, 0);
    RunOut r; r.status = out->status; r.lines.assign(out->text, out->len); r.choices.assign(out->ch, out->ch + out->nch);
    if (!WIFEXITED(st) || WEXITSTATUS(st)) { r.status = 2; r.lines += "{\"k\":\"crash\",\"t\":0,\"sig\":" + std::to_string(st) + "}\n"; }
    return r;
}
unsigned std::thread::hardware_concurrency() noexcept { return cfg.processors; }

// ---- pthread ------------------------------------------------------------------------------------------------------
template <class F> static F real(const char *n) { return (F)dlsym(RTLD_NEXT, n); }
static void *trampoline(void *x) {
    me = (T *)x; sleepSelf();
    acq((char *)me + 1);
    me->ret = me->fn(me->arg);
    point();
    rel((char *)me + 2);
    quiet++;
    me->st = DONE; wakeAll(ON_JOIN, me);
    T *s = me; T *t = choose(); me = 0; (void)s;
    resume(t);
    return 0;
}
static T *spawn(void *(*fn)(void *), void *arg) {
    if (nth == MAXT) { fprintf(stderr, "too many threads\n"); _exit(98); }
    T &t = th[nth]; t.id = nth; t.fut = 0; t.fn = fn; t.arg = arg; t.prio = rnd() % 1000; t.st = READY; nth++;
    quiet++;
    static auto mk = real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create");
    // a stack of its own: never reused, as the heap
    const size_t ST = 4UL << 20; char *st = (char *)mmap(0, ST, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
    pthread_attr_t at; pthread_attr_init(&at); pthread_attr_setstack(&at, st, ST);
    if (mk(&t.real, &at, trampoline, &t)) { fprintf(stderr, "no thread\n"); _exit(98); }
    quiet--;
    return &t;
}
extern "C" {
int pthread_create(pthread_t *r, const pthread_attr_t *a, void *(*fn)(void *), void *arg) {
    if (!active) return real<int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *)>("pthread_create")(r, a, fn, arg);
    point();
    rel((char *)&th[nth] + 1);
    T *t = spawn(fn, arg); *r = (pthread_t)t;
    point();
    return 0;
}
int pthread_join(pthread_t r, void **ret) {
    if (!active) return real<int (*)(pthread_t, void **)>("pthread_join")(r, ret);
    T *t = (T *)r; point();
    while (t->st != DONE) block(ON_JOIN, t);
    acq((char *)t + 2);
    if (ret) *ret = t->ret;
    return 0;
}
int pthread_detach(pthread_t r) { return active ? 0 : real<int (*)(pthread_t)>("pthread_detach")(r); }
int sched_yield() { if (active && me && !quiet) { point(); return 0; } return syscall(SYS_sched_yield); }
int nanosleep(const struct timespec *a, struct timespec *b) { if (active && me && !quiet) { point(); return 0; } return syscall(SYS_nanosleep, a, b); }
int clock_nanosleep(clockid_t c, int f, const struct timespec *a, struct timespec *b) { if (active && me && !quiet) { point(); return 0; } return syscall(SYS_clock_nanosleep, c, f, a, b); }
}
static std::map<const void *, int> *owners;      // mutex -> owner id + 1
static int &owner(const void *m) { quiet++; if (!owners) owners = new std::map<const void *, int>; int &r = (*owners)[m]; quiet--; return r; }
static void take(const void *m) { int &o = owner(m); while (o) block(ON_MUTEX, m); o = me->id + 1; acq(m); }
static void give(const void *m) { rel(m); owner(m) = 0; wakeAll(ON_MUTEX, m); }
extern "C" {
int pthread_mutex_lock(pthread_mutex_t *m) { if (!active || !me || quiet) return 0; point(); if (owner(m) == me->id + 1 && !(m->__data.__kind & 1)) stuck("relock"); take(m); return 0; }
int pthread_mutex_trylock(pthread_mutex_t *m) { if (!active || !me || quiet) return 0; point(); if (owner(m)) return EBUSY; owner(m) = me->id + 1; acq(m); return 0; }
int pthread_mutex_timedlock(pthread_mutex_t *m, const struct timespec *) { return pthread_mutex_lock(m); }
int pthread_mutex_unlock(pthread_mutex_t *m) { if (!active || !me || quiet) return 0; give(m); point(); return 0; }
int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    if (!active || !me || quiet) return 0;
    point(); give(m); block(ON_COND, c); take(m); return 0;
}
// a timed wait may end at any moment
static int timed(pthread_cond_t *c, pthread_mutex_t *m) { point(); give(m); point(); take(m); return ETIMEDOUT; }
int pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m, const struct timespec *) { if (!active || !me || quiet) return 0; return timed(c, m); }
int pthread_cond_clockwait(pthread_cond_t *c, pthread_mutex_t *m, clockid_t, const struct timespec *) { if (!active || !me || quiet) return 0; return timed(c, m); }
int pthread_cond_signal(pthread_cond_t *c) {
    if (!active || !me || quiet) return 0;
    point();
    T *sl[MAXT]; int n = 0;
    for (int i = 0; i < nth; i++) if (th[i].st == ON_COND && th[i].obj == c) sl[n++] = &th[i];
    if (n) sl[n > 1 && cfg.strat < 2 ? rnd() % n : 0]->st = READY;
    return 0;
}
int pthread_cond_broadcast(pthread_cond_t *c) { if (!active || !me || quiet) return 0; point(); wakeAll(ON_COND, c); return 0; }
int pthread_cond_init(pthread_cond_t *, const pthread_condattr_t *) { return 0; }
int pthread_cond_destroy(pthread_cond_t *) { return 0; }
int pthread_mutex_init(pthread_mutex_t *m, const pthread_mutexattr_t *) { memset(m, 0, sizeof *m); return 0; }
int pthread_mutex_destroy(pthread_mutex_t *) { return 0; }
}
static std::map<const void *, int> *sems;
static int &semv(const void *m) { quiet++; if (!sems) sems = new std::map<const void *, int>; int &r = (*sems)[m]; quiet--; return r; }
extern "C" {
int sem_init(sem_t *s, int, unsigned v) { semv(s) = v; return 0; }
int sem_destroy(sem_t *) { return 0; }
int sem_post(sem_t *s) { if (!active || !me) return 0; point(); rel(s); semv(s)++; wakeAll(ON_SEM, s); return 0; }
int sem_wait(sem_t *s) { if (!active || !me) return 0; point(); while (!semv(s)) block(ON_SEM, s); semv(s)--; acq(s); return 0; }
int sem_trywait(sem_t *s) { point(); if (!semv(s)) { errno = EAGAIN; return -1; } semv(s)--; acq(s); return 0; }
}

// statics set up on first use
extern "C" {
int __cxa_guard_acquire(char *g) {
    bool on = active && me && !quiet;
    if (on) point();
    for (;;) {
        if (g[0]) { if (on) acq(g); return 0; }
        if (!g[1]) { g[1] = 1; return 1; }
        if (!on) { fprintf(stderr, "recursive static\n"); _exit(98); }
        block(ON_MUTEX, g + 1);
    }
}
void __cxa_guard_release(char *g) { if (active && me && !quiet) rel(g); g[1] = 0; g[0] = 1; wakeAll(ON_MUTEX, g + 1); if (active && me && !quiet) point(); }
void __cxa_guard_abort(char *g) { g[1] = 0; wakeAll(ON_MUTEX, g + 1); }
}

// ---- OpenMP -------------------------------------------------------------------------------------------------------
struct Team { int n, arrived, gen; void (*fn)(void *); void *data; long long lo, hi, step, chunk, next; bool loopUp; unsigned loopSeen[MAXT], loopNo, loopLeft; unsigned single, singleSeen[MAXT]; };
static int ompMax = 0, ompN = 0;
static T *ompT[MAXT];
static __thread int ompId = 0;
static __thread Team *team = 0;
static Team *jobOf[MAXT]; static int leftover;
static int idOf(T *t) { for (int i = 1; i <= ompN; i++) if (ompT[i] == t) return i; return 0; }
static void *ompWorker(void *) {
    for (;;) {
        while (!jobOf[me->id]) block(ON_TEAM, me);
        Team *j = jobOf[me->id]; acq(&j->n); team = j; ompId = idOf(me);
        j->fn(j->data);
        point(); rel(&j->arrived);
        jobOf[me->id] = 0; team = 0;
        if (--leftover == 0) wakeAll(ON_TEAM, j);
    }
    return 0;
}
extern "C" {
int omp_get_max_threads() { return ompMax ? ompMax : cfg.processors; }
int omp_get_num_procs() { return cfg.processors; }
void omp_set_num_threads(int n) { ompMax = n; }
int omp_get_num_threads() { return team ? team->n : 1; }
int omp_get_thread_num() { return team ? ompId : 0; }
int omp_in_parallel() { return team != 0; }
int omp_get_thread_limit() { return 64; }
void omp_set_dynamic(int) {}
int omp_get_dynamic() { return 0; }
void omp_set_nested(int) {}
int omp_get_level() { return team != 0; }
double omp_get_wtime() { return 0; }
static struct { bool on; long lo, hi, st, ch; } pend;      // bounds of a combined parallel loop
static void bounds(Team *j) { if (pend.on) { pend.on = false; j->lo = pend.lo; j->hi = pend.hi; j->step = pend.st; j->chunk = pend.ch > 0 ? pend.ch : 1; j->next = pend.lo; } }
void GOMP_parallel(void (*fn)(void *), void *data, unsigned nt, unsigned) {
    int n = nt ? nt : omp_get_max_threads();
    if (team || n < 2 || !active) { Team *o = team; Team one; memset(&one, 0, sizeof one); one.n = 1; bounds(&one); int oi = ompId; team = &one; ompId = 0; fn(data); team = o; ompId = oi; return; }
    quiet++; Team *j = (Team *)calloc(1, sizeof(Team)); quiet--; j->n = n; j->fn = fn; j->data = data; bounds(j);
    while (ompN < n - 1) { ompN++; ompT[ompN] = spawn(ompWorker, 0); }
    rel(&j->n); leftover = n - 1;
    for (int i = 1; i < n; i++) { jobOf[ompT[i]->id] = j; ompT[i]->st = READY; }
    team = j; ompId = 0;
    point();
    fn(data);
    point(); rel(&j->arrived);
    while (leftover) block(ON_TEAM, j);
    acq(&j->arrived);
    team = 0;
}
void GOMP_barrier() {
    if (!team || team->n < 2) return;
    Team *j = team; point(); rel(&j->gen); int g = j->gen;
    if (++j->arrived == j->n) { j->arrived = 0; j->gen++; wakeAll(ON_BARRIER, j); } else while (j->gen == g) block(ON_BARRIER, j);
    acq(&j->gen); point();
}
static char critical, atomicLock;
void GOMP_critical_start() { if (active) { point(); take(&critical); } }
void GOMP_critical_end() { if (active) { give(&critical); point(); } }
void GOMP_critical_name_start(void **p) { if (active) { point(); take(p); } }
void GOMP_critical_name_end(void **p) { if (active) { give(p); point(); } }
void GOMP_atomic_start() { if (active) { point(); take(&atomicLock); } }
void GOMP_atomic_end() { if (active) { give(&atomicLock); point(); } }
bool GOMP_single_start() { if (!team) return true; point(); return team->singleSeen[ompId]++ == team->single ? (team->single++, true) : false; }
static bool loopNext(long long *a, long long *b) {
    Team *j = team; point();
    if (j->step > 0 ? j->next >= j->hi : j->next <= j->hi) return false;
    *a = j->next; j->next += j->step * j->chunk; if (j->step > 0 ? j->next > j->hi : j->next < j->hi) j->next = j->hi; *b = j->next; return true;
}
static bool loopStart(long long lo, long long hi, long long st, long long ch, long long *a, long long *b) {
    Team *j = team; if (!j) { fprintf(stderr, "orphaned loop\n"); _exit(98); }
    if (j->loopSeen[ompId]++ == j->loopNo) { j->loopNo++; j->lo = lo; j->hi = hi; j->step = st; j->chunk = ch > 0 ? ch : 1; j->next = lo; }
    return loopNext(a, b);
}
static void loopEnd() { GOMP_barrier(); }
#define LOOPS(kind) \
    bool GOMP_loop_##kind##_start(long lo, long hi, long st, long ch, long *a, long *b) { return loopStart(lo, hi, st, ch, (long long *)a, (long long *)b); } \
    bool GOMP_loop_##kind##_next(long *a, long *b) { return loopNext((long long *)a, (long long *)b); } \
    bool GOMP_loop_ull_##kind##_start(bool up, unsigned long long lo, unsigned long long hi, unsigned long long st, unsigned long long ch, unsigned long long *a, unsigned long long *b) { return loopStart(lo, hi, st, ch, (long long *)a, (long long *)b); } \
    bool GOMP_loop_ull_##kind##_next(unsigned long long *a, unsigned long long *b) { return loopNext((long long *)a, (long long *)b); } \
    void GOMP_parallel_loop_##kind(void (*fn)(void *), void *data, unsigned nt, long lo, long hi, long st, long ch, unsigned fl) { pend = {true, lo, hi, st, ch}; GOMP_parallel(fn, data, nt, fl); }
LOOPS(static) LOOPS(dynamic) LOOPS(guided) LOOPS(nonmonotonic_dynamic) LOOPS(nonmonotonic_guided)
void GOMP_loop_end() { loopEnd(); }
void GOMP_loop_end_nowait() {}
}

// ---- instrumentation ----------------------------------------------------------------------------------------------
extern "C" {
void __tsan_init() {}
void __tsan_func_entry(void *) {}
void __tsan_func_exit() {}
void __tsan_vptr_update(void **p, void *) { access(p, 8, true); }
void __tsan_vptr_read(void **p) { access(p, 8, false); }
#define RW(n) void __tsan_read##n(void *p) { access(p, n, false); } void __tsan_write##n(void *p) { access(p, n, true); } \
    void __tsan_unaligned_read##n(void *p) { access(p, n, false); } void __tsan_unaligned_write##n(void *p) { access(p, n, true); } \
    void __tsan_volatile_read##n(void *p) { access(p, n, false); } void __tsan_volatile_write##n(void *p) { access(p, n, true); } \
    void __tsan_read##n##_pc(void *p, void *) { access(p, n, false); } void __tsan_write##n##_pc(void *p, void *) { access(p, n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void *p, unsigned long n) { access(p, n, false); }
void __tsan_write_range(void *p, unsigned long n) { access(p, n, true); }
#define AT(bits, T) \
    T __tsan_atomic##bits##_load(const volatile T *p, int) { point(); acq((void *)p); return __atomic_load_n(p, 5); } \
    void __tsan_atomic##bits##_store(volatile T *p, T v, int) { point(); rel((void *)p); __atomic_store_n(p, v, 5); point(); } \
    T __tsan_atomic##bits##_exchange(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_exchange_n(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_add(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_fetch_add(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_sub(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_fetch_sub(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_and(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_fetch_and(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_or(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_fetch_or(p, v, 5); } \
    T __tsan_atomic##bits##_fetch_xor(volatile T *p, T v, int) { point(); acq((void *)p); rel((void *)p); return __atomic_fetch_xor(p, v, 5); } \
    int __tsan_atomic##bits##_compare_exchange_strong(volatile T *p, T *e, T v, int, int) { point(); acq((void *)p); rel((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    int __tsan_atomic##bits##_compare_exchange_weak(volatile T *p, T *e, T v, int, int) { point(); acq((void *)p); rel((void *)p); return __atomic_compare_exchange_n(p, e, v, 0, 5, 5); } \
    T __tsan_atomic##bits##_compare_exchange_val(volatile T *p, T e, T v, int, int) { point(); acq((void *)p); rel((void *)p); __atomic_compare_exchange_n(p, &e, v, 0, 5, 5); return e; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}
void vp_access(const void *p, size_t n, int w) { access(p, n, w); }
// block copies called by instrumented code
void *vp_memcpy(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memcpy(d, s, n); }
void *vp_memmove(void *d, const void *s, size_t n) { access(s, n, false); access(d, n, true); return memmove(d, s, n); }
void *vp_memset(void *d, int c, size_t n) { access(d, n, true); return memset(d, c, n); }
}
