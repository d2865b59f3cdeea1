#include "track.hpp"
#include <atomic>
#include <cerrno>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <link.h>
#include <fcntl.h>
#include <new>
#include <pthread.h>
#include <sys/mman.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <unistd.h>
extern "C" { void *__libc_malloc(size_t); void *__libc_calloc(size_t, size_t); void *__libc_realloc(void *, size_t); void *__libc_memalign(size_t, size_t); void __libc_free(void *); }
enum Type { NEW, ARR, MEM, FD, MAP, THR };
static const char *names[] = {"new", "arr", "mem", "fd", "map", "thr"};
static std::atomic<bool> on(false);
static __thread int skip;                   // inside the C library's own work for threads
static std::atomic_flag lk = ATOMIC_FLAG_INIT;
struct Guard { Guard() { while (lk.test_and_set(std::memory_order_acquire)) sched_yield(); } ~Guard() { lk.clear(std::memory_order_release); } };
// an open table from (class, value) to the number of the resource; entries given back stay until the value is taken again
struct Ent { uint64_t key; int cls, type; long id; bool live; };
static const size_t N = 1 << 18; static Ent tab[N]; static size_t used;
static Ent *find(int cls, uint64_t key, bool make) {
    for (size_t i = (key * 0x9E3779B97F4A7C15ULL + cls) >> 46;; i = (i + 1) & (N - 1)) {
        if (!tab[i].id) { if (!make) return 0; if (++used > N / 2) { fprintf(stderr, "table full\n"); _exit(3); } tab[i].key = key; tab[i].cls = cls; return &tab[i]; }
        if (tab[i].key == key && tab[i].cls == cls) return &tab[i];
    }
}
struct Ev { char take; int type; long id; }; static const size_t M = 1 << 20; static Ev evs[M]; static size_t nev; static long ids;
static void ev(char take, int type, long id) { if (nev == M) { fprintf(stderr, "log full\n"); _exit(3); } evs[nev++] = {take, type, id}; }
static void take(int cls, uint64_t key, int type) {
    Guard g;
    if (!on || skip) { Ent *e = find(cls, key, false); if (e) e->live = false, e->type = -1; return; }      // taken by somebody else
    Ent *e = find(cls, key, true); e->id = ++ids; e->type = type; e->live = true; ev(1, type, ids);
}
// false: the resource is one of ours and was already given back
static bool give(int cls, uint64_t key, int type) {
    Guard g;
    Ent *e = find(cls, key, false); if (!e || e->type < 0) return true;
    ev(0, type, e->id); bool ok = e->live; e->live = false; return ok;
}
#define A(p) ((uint64_t)(p))
// the OpenMP runtime keeps threads and teams from one parallel region to the next: its own business
static uint64_t gompLo, gompHi;
static int findGomp(dl_phdr_info *i, size_t, void *) {
    if (strstr(i->dlpi_name, "libgomp")) for (int k = 0; k < i->dlpi_phnum; k++) if (i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X)) { gompLo = i->dlpi_addr + i->dlpi_phdr[k].p_vaddr; gompHi = gompLo + i->dlpi_phdr[k].p_memsz; }
    return 0;
}
__attribute__((constructor)) static void init() { dl_iterate_phdr(findGomp, 0); }
struct Caller { bool in; Caller(void *a) : in(A(a) >= gompLo && A(a) < gompHi) { if (in) skip++; } ~Caller() { if (in) skip--; } };
#define FROM Caller from_(__builtin_return_address(0));
extern "C" {
void *malloc(size_t n) { FROM void *p = __libc_malloc(n); if (p) take(0, A(p), MEM); return p; }
void *calloc(size_t n, size_t m) { FROM void *p = __libc_calloc(n, m); if (p) take(0, A(p), MEM); return p; }
void free(void *p) { if (p && give(0, A(p), MEM)) __libc_free(p); }
void *realloc(void *p, size_t n) {
    FROM
    if (!p) return malloc(n);
    if (!give(0, A(p), MEM)) return 0;
    void *q = __libc_realloc(p, n); if (q) take(0, A(q), MEM); return q;
}
void *memalign(size_t a, size_t n) { FROM void *p = __libc_memalign(a, n); if (p) take(0, A(p), MEM); return p; }
void *aligned_alloc(size_t a, size_t n) { FROM return memalign(a, n); }
int posix_memalign(void **r, size_t a, size_t n) { FROM void *p = memalign(a, n); if (!p) return ENOMEM; *r = p; return 0; }
int open(const char *f, int fl, ...) {
    int mode = 0; if (fl & O_CREAT) { va_list v; va_start(v, fl); mode = va_arg(v, int); va_end(v); }
    int fd = syscall(SYS_openat, AT_FDCWD, f, fl, mode); if (fd >= 0) take(1, fd + 1, FD); return fd;
}
int open64(const char *f, int fl, ...) { int mode = 0; if (fl & O_CREAT) { va_list v; va_start(v, fl); mode = va_arg(v, int); va_end(v); } return open(f, fl, mode); }
int close(int fd) { give(1, fd + 1, FD); return syscall(SYS_close, fd); }
void *mmap(void *a, size_t n, int pr, int fl, int fd, off_t o) { void *p = (void *)syscall(SYS_mmap, a, n, pr, fl, fd, o); if (p != MAP_FAILED) take(2, A(p) + 1 + ((n + 4095) / 4096 << 56), MAP); return p; }
void *mmap64(void *a, size_t n, int pr, int fl, int fd, off_t o) { return mmap(a, n, pr, fl, fd, o); }
int munmap(void *p, size_t n) { give(2, A(p) + 1 + ((n + 4095) / 4096 << 56), MAP); return syscall(SYS_munmap, p, n); }
static int badThread, badStat;
int fstat(int fd, struct stat *s) noexcept { if (badStat) { badStat = 0; errno = EIO; return -1; } return syscall(SYS_newfstatat, fd, "", s, AT_EMPTY_PATH); }
int fstat64(int fd, struct stat64 *s) noexcept { return fstat(fd, (struct stat *)s); }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*f)(void *), void *x) {
    static auto real = (int (*)(pthread_t *, const pthread_attr_t *, void *(*)(void *), void *))dlsym(RTLD_NEXT, "pthread_create");
    FROM
    if (badThread && !from_.in && !--badThread) return EAGAIN;
    skip++; int r = real(t, a, f, x); skip--;
    if (!r) take(3, *t, THR); return r;
}
int pthread_join(pthread_t t, void **r) {
    static auto real = (int (*)(pthread_t, void **))dlsym(RTLD_NEXT, "pthread_join");
    if (!give(3, t, THR)) return ESRCH;
    skip++; int v = real(t, r); skip--; return v;
}
int pthread_detach(pthread_t t) {      // a detached thread is not given back: its end is nobody's to see
    static auto real = (int (*)(pthread_t))dlsym(RTLD_NEXT, "pthread_detach");
    return real(t);
}
}
static void *onew(size_t n, int type, size_t al = 0) { void *p = al ? __libc_memalign(al, n) : __libc_malloc(n ? n : 1); if (!p) throw std::bad_alloc(); take(0, A(p), type); return p; }
static void odel(void *p, int type) { if (p && give(0, A(p), type)) __libc_free(p); }
void *operator new(size_t n) { return onew(n, NEW); }
void *operator new[](size_t n) { return onew(n, ARR); }
void *operator new(size_t n, std::align_val_t a) { return onew(n, NEW, (size_t)a); }
void *operator new[](size_t n, std::align_val_t a) { return onew(n, ARR, (size_t)a); }
void *operator new(size_t n, const std::nothrow_t &) noexcept { return onew(n, NEW); }
void *operator new[](size_t n, const std::nothrow_t &) noexcept { return onew(n, ARR); }
void operator delete(void *p) noexcept { odel(p, NEW); }
void operator delete[](void *p) noexcept { odel(p, ARR); }
void operator delete(void *p, size_t) noexcept { odel(p, NEW); }
void operator delete[](void *p, size_t) noexcept { odel(p, ARR); }
void operator delete(void *p, std::align_val_t) noexcept { odel(p, NEW); }
void operator delete[](void *p, std::align_val_t) noexcept { odel(p, ARR); }
void operator delete(void *p, size_t, std::align_val_t) noexcept { odel(p, NEW); }
void operator delete[](void *p, size_t, std::align_val_t) noexcept { odel(p, ARR); }
void operator delete(void *p, const std::nothrow_t &) noexcept { odel(p, NEW); }
void operator delete[](void *p, const std::nothrow_t &) noexcept { odel(p, ARR); }
void track_on(bool b) { on = b; }
void track_fail(int t, int s) { badThread = t; badStat = s; }
void track_flush() { for (size_t i = 0; i < nev; i++) printf("{\"k\":\"%s\",\"t\":\"%s\",\"r\":%ld}\n", evs[i].take ? "take" : "give", names[evs[i].type], evs[i].id); nev = 0; }
const char *track_kind(void *p) { Guard g; Ent *e = find(0, A(p), false); return e && e->live ? names[e->type] : ""; }
