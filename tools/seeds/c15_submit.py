ID="c15-submit-unlocked"; PROP="C15"; KIT="group"
NEEDS="a task handed to a worker between its look at the queue and its going to sleep"
BREAKS="the task is stored without holding the worker's mutex, so the notification can come before the worker waits for it and the loop hangs"
EDITS=[("c/misc.hpp","""        {
            std::lock_guard<std::mutex> lock(mutex);
            task = func;
        }
        occupied.notify_one();
""","""        task = func;
        occupied.notify_one();
""",1)]
FILES={"main.cpp":r'''
// Every wait on a condition is entered late: the thread lingers between testing its predicate (under the mutex) and sleeping.
#include "kit.hpp"
#include <dlfcn.h>
#include <pthread.h>
#include <unistd.h>
extern "C" int pthread_cond_wait(pthread_cond_t *c, pthread_mutex_t *m) {
    static int (*real)(pthread_cond_t *, pthread_mutex_t *) = (int (*)(pthread_cond_t *, pthread_mutex_t *))dlvsym(RTLD_NEXT, "pthread_cond_wait", "GLIBC_2.3.2");
    usleep(20000);
    return real(c, m);
}
static std::thread::id caller;
// ... and a worker lingers after telling that it has finished, so that its next look at the queue comes after the caller has gone on.
extern "C" int pthread_cond_signal(pthread_cond_t *c) {
    static int (*real)(pthread_cond_t *) = (int (*)(pthread_cond_t *))dlvsym(RTLD_NEXT, "pthread_cond_signal", "GLIBC_2.3.2");
    int r = real(c);
    if (std::this_thread::get_id() != caller) usleep(5000);
    return r;
}
int main() {
    caller = std::this_thread::get_id();
    alarm(60);
    for (int k = 0; k < 4; k++) {
        ThreadPool pool(3);
        std::atomic<int> n{0};
        pool.parallelFor(0, 10, [&](int b, int e, int) { for (int i = b; i < e; i++) n++; });
        if (n != 10) { printf("ran %d of 10\n", (int)n); return 1; }
        usleep(5000 * k + 2000);
        pool.parallelBlock([&](int, int) { n++; });
        if (n != 13) { printf("ran %d of 3\n", (int)n - 10); return 1; }
    }
    return 0;
}
'''}
DEMO='''d=$(cd "$(dirname "$0")" && pwd)
bash "$d/kit/group.sh" "$d/main.cpp" -fopenmp -DUSE_OPENMP
'''
