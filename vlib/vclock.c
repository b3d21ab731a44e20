/* Interposed clock: when enabled, every libc clock read in the process returns
 * a virtual time that only moves when the harness advances it.  Timer waits of
 * threads are untouched (the harness is single threaded). */
#define _GNU_SOURCE
#include <time.h>
#include <sys/time.h>
#include <sys/syscall.h>
#include <unistd.h>
#include <stddef.h>

static volatile int v_on = 0;
static volatile long long v_mono = 0, v_real = 0;

static int raw(clockid_t id, struct timespec *ts) {
    return (int)syscall(SYS_clock_gettime, id, ts);
}
static void put(struct timespec *ts, long long ns) {
    ts->tv_sec = ns / 1000000000LL;
    ts->tv_nsec = ns % 1000000000LL;
}
int clock_gettime(clockid_t id, struct timespec *ts) {
    if (v_on) {
        switch (id) {
        case CLOCK_REALTIME: case CLOCK_REALTIME_COARSE: put(ts, v_real); return 0;
        case CLOCK_MONOTONIC: case CLOCK_MONOTONIC_RAW:
        case CLOCK_MONOTONIC_COARSE: case CLOCK_BOOTTIME: put(ts, v_mono); return 0;
        default: break;
        }
    }
    return raw(id, ts);
}
int gettimeofday(struct timeval *restrict tv, void *restrict tz) {
    struct timespec ts; (void)tz;
    clock_gettime(CLOCK_REALTIME, &ts);
    { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; }
    return 0;
}
time_t time(time_t *t) {
    struct timespec ts;
    clock_gettime(CLOCK_REALTIME, &ts);
    if (t) *t = ts.tv_sec;
    return ts.tv_sec;
}
void vclock_enable(long long mono_ns, long long real_ns) { v_mono = mono_ns; v_real = real_ns; v_on = 1; }
void vclock_disable(void) { v_on = 0; }
void vclock_advance(long long ns) { v_mono += ns; v_real += ns; }
void vclock_shift_real(long long ns) { v_real += ns; }
int vclock_is_on(void) { return v_on; }
long long vclock_real_mono(void) { struct timespec ts; raw(CLOCK_MONOTONIC, &ts); return ts.tv_sec * 1000000000LL + ts.tv_nsec; }
