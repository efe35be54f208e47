/*
 * Link time replacement (ld --wrap) of the clocks seen by nbsp: the real clock
 * plus an offset, or a frozen value, both set by the harness.  Deadlines given
 * to pthread_cond_timedwait are converted back to real time.
 */
#include "hcommon.h"

time_t __real_time(time_t *t);
int __real_clock_gettime(clockid_t id, struct timespec *ts);
int __real_gettimeofday(struct timeval *tv, void *tz);
int __real_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
				  const struct timespec *ts);

static long long now_ns(void){
  struct timespec ts;
  if(hclock_frozen) return hclock_now_ns;
  __real_clock_gettime(CLOCK_REALTIME, &ts);
  return (long long)ts.tv_sec * 1000000000LL + ts.tv_nsec + hclock_off_ns;
}

time_t __wrap_time(time_t *t){
  time_t r = (time_t)(now_ns() / 1000000000LL);
  if(t != NULL) *t = r;
  return r;
}

int __wrap_clock_gettime(clockid_t id, struct timespec *ts){
  long long n;
  if(id != CLOCK_REALTIME) return __real_clock_gettime(id, ts);
  n = now_ns();
  ts->tv_sec = n / 1000000000LL;
  ts->tv_nsec = n % 1000000000LL;
  return 0;
}

int __wrap_gettimeofday(struct timeval *tv, void *tz){
  long long n = now_ns();
  (void)tz;
  tv->tv_sec = n / 1000000000LL;
  tv->tv_usec = (n % 1000000000LL) / 1000;
  return 0;
}

int __wrap_pthread_cond_timedwait(pthread_cond_t *c, pthread_mutex_t *m,
				  const struct timespec *ts){
  struct timespec rts, real;
  long long left, n;
  if(ts->tv_nsec < 0 || ts->tv_nsec >= 1000000000L) return EINVAL; /* as libc */
  left = (long long)ts->tv_sec * 1000000000LL + ts->tv_nsec - now_ns();
  __real_clock_gettime(CLOCK_REALTIME, &real);
  n = (long long)real.tv_sec * 1000000000LL + real.tv_nsec + left;
  rts.tv_sec = n / 1000000000LL;
  rts.tv_nsec = n % 1000000000LL;
  return __real_pthread_cond_timedwait(c, m, &rts);
}
