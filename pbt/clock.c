/* Makes the wall clock step or stand still: CLOCK_PLAN is a list of "N:KIND:NANOSECONDS" - from the N-th query on, the clock is that much ahead ("step", negative
   for behind), or stands still for that many queries ("stop"). */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>
#include <pthread.h>

static int (*real)(clockid_t, struct timespec *);
static pthread_mutex_t lock = PTHREAD_MUTEX_INITIALIZER;
static long long queries, offset, stopped, still;

static long long now(void)
{
    struct timespec ts;
    long long t;

    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    pthread_mutex_lock(&lock);
    real(CLOCK_REALTIME, &ts);
    t = ts.tv_sec * 1000000000LL + ts.tv_nsec;
    const char *p = getenv("CLOCK_PLAN");
    queries++;
    while (p && *p) {
        char kind[8];
        long long n, arg;
        if (sscanf(p, "%lld:%7[a-z]:%lld", &n, kind, &arg) == 3 && n == queries) {
            if (!strcmp(kind, "step"))
                offset += arg;
            else {
                stopped = arg;
                still = t + offset;
            }
        }
        p = strchr(p, ',');
        if (p)
            p++;
    }
    t += offset;
    if (stopped > 0) {
        stopped--;
        t = still;
    }
    pthread_mutex_unlock(&lock);
    return t;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE) {
        long long t = now();
        ts->tv_sec = t / 1000000000LL;
        ts->tv_nsec = t % 1000000000LL;
        return 0;
    }
    if (!real)
        real = (int (*)(clockid_t, struct timespec *))dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
}

int gettimeofday(struct timeval *restrict tv, void *restrict tz)
{
    long long t = now();
    tv->tv_sec = t / 1000000000LL;
    tv->tv_usec = t % 1000000000LL / 1000;
    return 0;
}

time_t time(time_t *p)
{
    time_t t = now() / 1000000000LL;
    if (p)
        *p = t;
    return t;
}
