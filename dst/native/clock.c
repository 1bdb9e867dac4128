/* Wall clock of the process under the control of the simulator (loaded with LD_PRELOAD; inert until dst_clock_set is called). */
#define _GNU_SOURCE
#include <stddef.h>
#include <sys/syscall.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static int on;
static long long now_ns, step_ns, jump_ns;
static long calls, jump_at;

void dst_clock_set(long long start, long long step, long at, long long jump)
{
    now_ns = start;
    step_ns = step;
    jump_at = at;
    jump_ns = jump;
    calls = 0;
    on = 1;
}

long dst_clock_off(void)
{
    on = 0;
    return calls;
}

static long long read_clock(void)
{
    calls++;
    if (jump_at && calls == jump_at)
        now_ns += jump_ns;
    long long t = now_ns;
    now_ns += step_ns;
    return t < 0 ? 0 : t;
}

int clock_gettime(clockid_t id, struct timespec *ts)
{
    if (on && (id == CLOCK_REALTIME || id == CLOCK_REALTIME_COARSE)) {
        long long t = read_clock();
        ts->tv_sec = t / 1000000000LL;
        ts->tv_nsec = t % 1000000000LL;
        return 0;
    }
    return (int)syscall(SYS_clock_gettime, id, ts);
}

int gettimeofday(struct timeval *tv, void *tz)
{
    struct timespec ts;
    int rc = clock_gettime(CLOCK_REALTIME, &ts);
    (void)tz;
    if (tv != NULL) {
        tv->tv_sec = ts.tv_sec;
        tv->tv_usec = ts.tv_nsec / 1000;
    }
    return rc;
}

time_t time(time_t *out)
{
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (out != NULL)
        *out = ts.tv_sec;
    return ts.tv_sec;
}
