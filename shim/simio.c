/* LD_PRELOAD seam for file I/O and the realtime clock.
 *
 * Inactive until armed from Python through the simio_* entry points.  All
 * state is process-local, so a forked simulated process arms its own copy.
 *
 *  - every data-changing file call (write, pwrite, writev, ftruncate, rename,
 *    unlink, open-with-O_TRUNC/O_CREAT, mkdir, link, symlink, copy_file_range,
 *    sendfile, fsync...) on a path below the root prefix is one numbered step;
 *  - simio_arm(n, kind) makes the n-th step from now crash the process
 *    (before the call, or after half of a write), or fail with EIO / ENOSPC,
 *    or be a legal short write;
 *  - simio_clock(on, t) makes CLOCK_REALTIME return t.
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <limits.h>
#include <stdarg.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/time.h>
#include <sys/types.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

enum { K_NONE = 0, K_CRASH = 1, K_TORN = 2, K_EIO = 3, K_ENOSPC = 4, K_SHORT = 5 };

static char root[PATH_MAX];
static size_t rootlen = 0;
static long countdown = 0;   /* steps until the armed fault fires */
static int armed = K_NONE;
static int sticky = 0;       /* number of further steps that fail as well */
static int sticky_kind = K_NONE;
static int counting = 0;
static long steps = 0;
static long fired = 0;
static int clock_on = 0;
static double sim_t = 0;
static char lastpath[PATH_MAX];
static char lastcall[32];

void simio_root(const char *p) {
  strncpy(root, p, sizeof(root) - 1);
  rootlen = strlen(root);
}
void simio_count(int on) { counting = on; if (on) steps = 0; }
long simio_steps(void) { return steps; }
void simio_arm(long n, int kind, int stick) {
  countdown = n; armed = kind; sticky = stick; sticky_kind = K_NONE; fired = 0; steps = 0; counting = 1;
  lastpath[0] = 0; lastcall[0] = 0;
}
long simio_disarm(void) {
  armed = K_NONE; sticky_kind = K_NONE; counting = 0; return fired;
}
const char *simio_lastpath(void) { return lastpath; }
const char *simio_lastcall(void) { return lastcall; }
void simio_clock(int on, double t) { clock_on = on; sim_t = t; }
double simio_clock_get(void) { return sim_t; }

static void (*sleep_cb)(double) = 0;
static void (*yield_cb)(void) = 0;
static __thread int in_cb = 0;
void simio_sleepcb(void (*cb)(double)) { sleep_cb = cb; }
void simio_yieldcb(void (*cb)(void)) { yield_cb = cb; }

#define REAL(ret, name, ...) \
  static ret (*real_##name)(__VA_ARGS__); \
  if (!real_##name) real_##name = dlsym(RTLD_NEXT, #name)

static int under(const char *path) {
  char buf[PATH_MAX];
  if (!rootlen || !path) return 0;
  if (path[0] != '/') {
    static char *(*rg)(char *, size_t);
    if (!rg) rg = dlsym(RTLD_NEXT, "getcwd");
    if (!rg(buf, sizeof buf)) return 0;
    size_t l = strlen(buf);
    if (l + strlen(path) + 2 >= sizeof buf) return 0;
    buf[l] = '/'; strcpy(buf + l + 1, path);
    path = buf;
  }
  if (strncmp(path, root, rootlen) == 0 && (path[rootlen] == '/' || path[rootlen] == 0)) {
    strncpy(lastpath, path, sizeof lastpath - 1);
    return 1;
  }
  return 0;
}
static int fd_under(int fd) {
  char link[64], buf[PATH_MAX];
  if (!rootlen || fd < 0) return 0;
  snprintf(link, sizeof link, "/proc/self/fd/%d", fd);
  ssize_t n = readlink(link, buf, sizeof buf - 1);
  if (n <= 0) return 0;
  buf[n] = 0;
  return under(buf);
}
/* returns the fault to apply to this step */
static int step(const char *call) {
  if (!counting || in_cb) return K_NONE;
  steps++;
  if (yield_cb) {
    int e = errno;
    in_cb = 1; yield_cb(); in_cb = 0;
    errno = e;
  }
  /* storage errors are injected where data or names are written, not in
     fsync or unlink (whose failure leaves the outcome open by definition) */
  if ((armed == K_EIO || armed == K_ENOSPC || sticky_kind != K_NONE) &&
      (!strcmp(call, "fsync") || !strcmp(call, "unlink") || !strcmp(call, "rmdir")))
    return K_NONE;
  if (sticky_kind != K_NONE) {
    if (sticky-- > 0) { fired++; return sticky_kind; }
    sticky_kind = K_NONE;
    return K_NONE;
  }
  if (armed == K_NONE) return K_NONE;
  if (--countdown > 0) return K_NONE;
  int k = armed;
  armed = K_NONE;
  fired++;
  strncpy(lastcall, call, sizeof lastcall - 1);
  if (k == K_CRASH) _exit(78);
  if ((k == K_EIO || k == K_ENOSPC) && sticky > 0) sticky_kind = k;
  return k;
}
static int err(int k) { errno = (k == K_ENOSPC) ? ENOSPC : EIO; return -1; }

#define DATA_FAULT(call, fd, count, RETRY_HALF) \
  if (counting && fd_under(fd)) { \
    int k = step(call); \
    if (k == K_TORN) { if ((count) > 1) { RETRY_HALF; } _exit(79); } \
    if (k == K_SHORT) { if ((count) > 1) { return RETRY_HALF; } } \
    else if (k != K_NONE) return err(k); \
  }

ssize_t write(int fd, const void *b, size_t n) {
  REAL(ssize_t, write, int, const void *, size_t);
  DATA_FAULT("write", fd, n, real_write(fd, b, n / 2));
  return real_write(fd, b, n);
}
ssize_t pwrite(int fd, const void *b, size_t n, off_t o) {
  REAL(ssize_t, pwrite, int, const void *, size_t, off_t);
  DATA_FAULT("pwrite", fd, n, real_pwrite(fd, b, n / 2, o));
  return real_pwrite(fd, b, n, o);
}
ssize_t pwrite64(int fd, const void *b, size_t n, off64_t o) {
  REAL(ssize_t, pwrite64, int, const void *, size_t, off64_t);
  DATA_FAULT("pwrite", fd, n, real_pwrite64(fd, b, n / 2, o));
  return real_pwrite64(fd, b, n, o);
}
ssize_t writev(int fd, const struct iovec *v, int c) {
  REAL(ssize_t, writev, int, const struct iovec *, int);
  DATA_FAULT("writev", fd, c, real_writev(fd, v, c / 2));
  return real_writev(fd, v, c);
}
ssize_t copy_file_range(int in, off64_t *oi, int out, off64_t *oo, size_t n, unsigned f) {
  REAL(ssize_t, copy_file_range, int, off64_t *, int, off64_t *, size_t, unsigned);
  DATA_FAULT("copy_file_range", out, n, real_copy_file_range(in, oi, out, oo, n / 2, f));
  return real_copy_file_range(in, oi, out, oo, n, f);
}
ssize_t sendfile(int out, int in, off_t *o, size_t n) {
  REAL(ssize_t, sendfile, int, int, off_t *, size_t);
  DATA_FAULT("sendfile", out, n, real_sendfile(out, in, o, n / 2));
  return real_sendfile(out, in, o, n);
}
ssize_t sendfile64(int out, int in, off64_t *o, size_t n) {
  REAL(ssize_t, sendfile64, int, int, off64_t *, size_t);
  DATA_FAULT("sendfile", out, n, real_sendfile64(out, in, o, n / 2));
  return real_sendfile64(out, in, o, n);
}
#define META_FAULT(call, cond) \
  if (counting && (cond)) { \
    int k = step(call); \
    if (k == K_TORN) _exit(79); \
    if (k == K_EIO || k == K_ENOSPC) return err(k); \
  }
int ftruncate(int fd, off_t l) {
  REAL(int, ftruncate, int, off_t);
  META_FAULT("ftruncate", fd_under(fd));
  return real_ftruncate(fd, l);
}
int ftruncate64(int fd, off64_t l) {
  REAL(int, ftruncate64, int, off64_t);
  META_FAULT("ftruncate", fd_under(fd));
  return real_ftruncate64(fd, l);
}
int fsync(int fd) {
  REAL(int, fsync, int);
  META_FAULT("fsync", fd_under(fd));
  return real_fsync(fd);
}
int fdatasync(int fd) {
  REAL(int, fdatasync, int);
  META_FAULT("fsync", fd_under(fd));
  return real_fdatasync(fd);
}
int rename(const char *a, const char *b) {
  REAL(int, rename, const char *, const char *);
  META_FAULT("rename", under(a) || under(b));
  return real_rename(a, b);
}
int renameat(int d1, const char *a, int d2, const char *b) {
  REAL(int, renameat, int, const char *, int, const char *);
  META_FAULT("rename", under(a) || under(b));
  return real_renameat(d1, a, d2, b);
}
int unlink(const char *a) {
  REAL(int, unlink, const char *);
  META_FAULT("unlink", under(a));
  return real_unlink(a);
}
int mkdir(const char *a, mode_t m) {
  REAL(int, mkdir, const char *, mode_t);
  META_FAULT("mkdir", under(a));
  return real_mkdir(a, m);
}
int rmdir(const char *a) {
  REAL(int, rmdir, const char *);
  META_FAULT("rmdir", under(a));
  return real_rmdir(a);
}
int link(const char *a, const char *b) {
  REAL(int, link, const char *, const char *);
  META_FAULT("link", under(b));
  return real_link(a, b);
}
int symlink(const char *a, const char *b) {
  REAL(int, symlink, const char *, const char *);
  META_FAULT("symlink", under(b));
  return real_symlink(a, b);
}
/* opening an existing file without truncation changes nothing */
static int wants_write(int d, const char *p, int flags) {
  if (flags & O_TRUNC) return 1;
  if (!(flags & O_CREAT)) return 0;
  return faccessat(d, p, F_OK, 0) != 0;
}
int open(const char *p, int flags, ...) {
  REAL(int, open, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  META_FAULT("open", counting && under(p) && wants_write(AT_FDCWD, p, flags));
  return real_open(p, flags, m);
}
int open64(const char *p, int flags, ...) {
  REAL(int, open64, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  META_FAULT("open", counting && under(p) && wants_write(AT_FDCWD, p, flags));
  return real_open64(p, flags, m);
}
int openat(int d, const char *p, int flags, ...) {
  REAL(int, openat, int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  META_FAULT("open", counting && under(p) && wants_write(d, p, flags));
  return real_openat(d, p, flags, m);
}
int openat64(int d, const char *p, int flags, ...) {
  REAL(int, openat64, int, const char *, int, ...);
  mode_t m = 0;
  if (flags & (O_CREAT | O_TMPFILE)) { va_list a; va_start(a, flags); m = va_arg(a, mode_t); va_end(a); }
  META_FAULT("open", counting && under(p) && wants_write(d, p, flags));
  return real_openat64(d, p, flags, m);
}
int clock_gettime(clockid_t c, struct timespec *ts) {
  REAL(int, clock_gettime, clockid_t, struct timespec *);
  if (clock_on && (c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE)) {
    ts->tv_sec = (time_t)sim_t;
    ts->tv_nsec = (long)((sim_t - (double)ts->tv_sec) * 1e9);
    return 0;
  }
  return real_clock_gettime(c, ts);
}
int gettimeofday(struct timeval *tv, void *tz) {
  REAL(int, gettimeofday, struct timeval *, void *);
  if (clock_on && tv) {
    tv->tv_sec = (time_t)sim_t;
    tv->tv_usec = (suseconds_t)((sim_t - (double)tv->tv_sec) * 1e6);
    return 0;
  }
  return real_gettimeofday(tv, tz);
}
time_t time(time_t *t) {
  REAL(time_t, time, time_t *);
  if (clock_on) { time_t r = (time_t)sim_t; if (t) *t = r; return r; }
  return real_time(t);
}

/* relative sleeps (sqlite's busy handler, usleep) happen in simulated time */
int nanosleep(const struct timespec *rq, struct timespec *rm) {
  REAL(int, nanosleep, const struct timespec *, struct timespec *);
  if (sleep_cb && !in_cb) {
    int e = errno;
    in_cb = 1; sleep_cb(rq->tv_sec + rq->tv_nsec * 1e-9); in_cb = 0;
    errno = e;
    return 0;
  }
  return real_nanosleep(rq, rm);
}
int usleep(useconds_t us) {
  REAL(int, usleep, useconds_t);
  if (sleep_cb && !in_cb) {
    in_cb = 1; sleep_cb(us * 1e-6); in_cb = 0;
    return 0;
  }
  return real_usleep(us);
}
