// Loaded into the interpreter (LD_PRELOAD) to deliver an interrupt at a chosen
// point of its execution: LB_SIN="3,7" raises SIGINT during the 3rd and 7th
// call of sin(), that is, while SIN is being evaluated.  LB_MAX and LB_MIN make the
// named calls of rand() give the largest and the smallest number there is.
// LB_CLOCK="1000,60": it is second 1000 of the epoch, and each SIN takes a minute.
#define _GNU_SOURCE
#include <dlfcn.h>
#include <signal.h>
#include <stdlib.h>
#include <string.h>
#include <sys/time.h>
#include <time.h>

static int at(const char* var, unsigned n) {
  const char* s = getenv(var);
  while (s && *s) {
    char* end;
    if (strtoul(s, &end, 10) == n)
      return 1;
    s = *end ? end + 1 : end;
  }
  return 0;
}

static unsigned sins;

double sin(double x) {
  static double (*real)(double);
  if (!real)
    *(void**)&real = dlsym(RTLD_NEXT, "sin");
  if (at("LB_SIN", ++sins))
    raise(SIGINT);
  return real(x);
}

int rand(void) {
  static int (*real)(void);
  static unsigned n;
  if (!real)
    *(void**)&real = dlsym(RTLD_NEXT, "rand");
  int r = real();
  n++;
  return at("LB_MAX", n) ? RAND_MAX : at("LB_MIN", n) ? 0 : r;
}

static int chosen(time_t* t) {
  const char* s = getenv("LB_CLOCK");
  char* end;
  if (!s)
    return 0;
  long long from = strtoll(s, &end, 10);
  *t = from + (*end ? atol(end + 1) : 0) * (long)sins;
  return 1;
}

time_t time(time_t* p) {
  static time_t (*real)(time_t*);
  time_t t;
  if (!chosen(&t)) {
    if (!real)
      *(void**)&real = dlsym(RTLD_NEXT, "time");
    return real(p);
  }
  if (p)
    *p = t;
  return t;
}

int gettimeofday(struct timeval* restrict tv, void* restrict tz) {
  static int (*real)(struct timeval*, void*);
  time_t t;
  if (!chosen(&t)) {
    if (!real)
      *(void**)&real = dlsym(RTLD_NEXT, "gettimeofday");
    return real(tv, tz);
  }
  tv->tv_sec = t;
  tv->tv_usec = 0;
  return 0;
}

int clock_gettime(clockid_t id, struct timespec* ts) {
  static int (*real)(clockid_t, struct timespec*);
  time_t t;
  if ((id != CLOCK_REALTIME && id != CLOCK_REALTIME_COARSE) || !chosen(&t)) {
    if (!real)
      *(void**)&real = dlsym(RTLD_NEXT, "clock_gettime");
    return real(id, ts);
  }
  ts->tv_sec = t;
  ts->tv_nsec = 0;
  return 0;
}

int timespec_get(struct timespec* ts, int base) {
  return base == TIME_UTC && clock_gettime(CLOCK_REALTIME, ts) == 0 ? base : 0;
}
