/* LD_PRELOAD seam for the PostgreSQL server: its wall clock and its random
 * numbers come from a small shared file written by the simulator.
 * layout: [0] double now (0 = real clock)  [1] uint64 rng seed  [2] uint64 rng counter */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <fcntl.h>
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <time.h>
#include <unistd.h>

static volatile uint64_t *st;

__attribute__((constructor)) static void init(void) {
  const char *p = getenv("SIMPG_STATE");
  if (!p) return;
  int fd = open(p, O_RDWR);
  if (fd < 0) return;
  void *m = mmap(0, 4096, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  close(fd);
  if (m != MAP_FAILED) st = m;
}
static double now(void) {
  double d = 0;
  if (st) memcpy(&d, (void *)&st[0], 8);
  return d;
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  static int (*real)(clockid_t, struct timespec *);
  if (!real) real = dlsym(RTLD_NEXT, "clock_gettime");
  double t = now();
  if (t > 0 && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = (time_t)t;
    ts->tv_nsec = (long)((t - (double)ts->tv_sec) * 1e6 + 0.5) * 1000;
    return 0;
  }
  return real(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  static int (*real)(struct timeval *, void *);
  if (!real) real = dlsym(RTLD_NEXT, "gettimeofday");
  double t = now();
  if (t > 0 && tv) {
    tv->tv_sec = (time_t)t;
    tv->tv_usec = (suseconds_t)((t - (double)tv->tv_sec) * 1e6 + 0.5);
    if (tv->tv_usec >= 1000000) { tv->tv_usec -= 1000000; tv->tv_sec++; }
    return 0;
  }
  return real(tv, tz);
}
time_t time(time_t *o) {
  static time_t (*real)(time_t *);
  if (!real) real = dlsym(RTLD_NEXT, "time");
  double t = now();
  if (t > 0) { if (o) *o = (time_t)t; return (time_t)t; }
  return real(o);
}
static uint64_t mix(uint64_t z) {
  z += 0x9e3779b97f4a7c15ULL;
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
int RAND_bytes(unsigned char *b, int n) {
  static int (*real)(unsigned char *, int);
  /* only 16-byte requests (UUIDs) are taken over: cancel keys and the like
     must not disturb the sequence */
  /* (the first one of every process seeds its own generator) */
  static pid_t owner;
  if (n == 16 && owner != getpid()) {
    owner = getpid();
    n = 16;
  } else if (st && st[1] && n == 16) {
    uint64_t c = __sync_fetch_and_add((uint64_t *)&st[2], 1);
    for (int i = 0; i < n; i += 8) {
      uint64_t v = mix(st[1] ^ mix(2 * c + i / 8 + 1));
      memcpy(b + i, &v, 8);
    }
    return 1;
  }
  if (!real) real = dlsym(RTLD_NEXT, "RAND_bytes");
  return real(b, n);
}
