// Virtual clock and inert-thread switch, by symbol interposition: the harness
// decides what time it is and whether background threads exist.
#include "vh.h"
#include <atomic>
#include <ctime>
#include <dlfcn.h>
#include <pthread.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>

namespace vh
{
static std::atomic<u64> g_ms{0};
static std::atomic<bool> g_suppress{false};
void set_clock_ms(u64 ms) { g_ms = ms; }
u64 get_clock_ms()
{
    u64 m = g_ms;
    if (m) return m;
    timespec ts;
    syscall(SYS_clock_gettime, CLOCK_REALTIME, &ts);
    return (u64)ts.tv_sec * 1000 + ts.tv_nsec / 1000000;
}
void set_threads_suppressed(bool on) { g_suppress = on; }
bool threads_suppressed() { return g_suppress; }
}

using namespace vh;

extern "C"
{
int clock_gettime(clockid_t id, timespec *ts)
{
    u64 m = g_ms;
    if (m && id != CLOCK_MONOTONIC_RAW)
    {
        ts->tv_sec = m / 1000;
        ts->tv_nsec = (m % 1000) * 1000000;
        return 0;
    }
    return syscall(SYS_clock_gettime, id, ts);
}
time_t time(time_t *t)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
int gettimeofday(struct timeval *tv, void *)
{
    timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    tv->tv_sec = ts.tv_sec;
    tv->tv_usec = ts.tv_nsec / 1000;
    return 0;
}

#ifndef VH_SCHED
static void *inert(void *) { return nullptr; }
int pthread_create(pthread_t *t, const pthread_attr_t *a, void *(*fn)(void*), void *arg)
{
    typedef int (*F)(pthread_t*, const pthread_attr_t*, void*(*)(void*), void*);
    static F real = (F)dlsym(RTLD_NEXT, "pthread_create");
    if (threads_suppressed()) return real(t, a, inert, nullptr);
    return real(t, a, fn, arg);
}
#endif
}
