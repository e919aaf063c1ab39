// Random delays around locks and file operations, to vary the schedules of concurrent executions.
// Off unless shake::seed is set. Include in exactly one source file of a program.
#pragma once
#include <atomic>
#include <dlfcn.h>
#include <fcntl.h>
#include <pthread.h>
#include <sched.h>
#include <stdarg.h>
#include <stdio.h>
#include <sys/stat.h>
#include <thread>
#include <time.h>
#include <unistd.h>

namespace shake {
static std::atomic<unsigned> seed{0};
static std::atomic<unsigned> threads{0};
static thread_local unsigned t_rng = 0;
inline unsigned rnd() {
    if(!t_rng) t_rng = (seed.load() * 2654435761u) ^ ((threads.fetch_add(1) + 1) * 40503u) ^ 1u;
    t_rng ^= t_rng << 13; t_rng ^= t_rng >> 17; t_rng ^= t_rng << 5; return t_rng;
}
inline void point() {
    if(!seed.load(std::memory_order_relaxed)) return;
    const unsigned r = rnd() % 16;
    if(r < 8) return;
    if(r < 12) { sched_yield(); return; }
    struct timespec ts = {0, long(1000 + rnd() % (r == 15 ? 300000 : 20000))};
    nanosleep(&ts, nullptr);
}
template<class F> inline F next(const char * n) { return reinterpret_cast<F>(dlsym(RTLD_NEXT, n)); }
}
extern "C" {
int pthread_mutex_lock(pthread_mutex_t * m) {
    static auto real = shake::next<int (*)(pthread_mutex_t *)>("pthread_mutex_lock");
    shake::point(); return real(m);
}
int pthread_mutex_unlock(pthread_mutex_t * m) {
    static auto real = shake::next<int (*)(pthread_mutex_t *)>("pthread_mutex_unlock");
    const int r = real(m); shake::point(); return r;
}
}
#ifdef SHAKE_FILES
#define POINT shake::point
#include "fault.hxx"
#endif
