/* LD_PRELOAD shim for the black-box monitors: a sped-up clock, a log and
 * snapshots of finished output files, crashes at chosen points and injected
 * I/O faults. Everything is controlled by environment variables and limited to
 * regular files below SHIM_DIR.
 *
 *   CLK_STEP   seconds added to the monotonic clock at every look at it
 *   CLK_REAL   seconds added to the time of day
 *   SHIM_DIR   directory (absolute) whose files are observed
 *   SHIM_LOG   file to which one line per event is appended
 *   SNAP_DIR   copies of *.json files when they are closed after writing
 *   KILL_AT    SIGKILL at the n-th event on *.json files
 *   FI_OP      read | write | open: the calls that fail
 *   FI_NTH     the number of the call that fails (from 1)
 *   FI_MODE    enospc | eio | eintr | short | shortall
 *   FI_STICKY  1: all later calls fail, too
 *   FI_SEED    for shortall
 *   FAKE_CPUS  the number of CPUs the program is told it may run on
 */
#define _GNU_SOURCE
#include <dlfcn.h>
#include <errno.h>
#include <fcntl.h>
#include <sched.h>
#include <signal.h>
#include <stdarg.h>
#include <stdatomic.h>
#include <stdint.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/stat.h>
#include <sys/syscall.h>
#include <sys/uio.h>
#include <time.h>
#include <unistd.h>

static atomic_long clk_calls, op_calls, json_events, snap_no;
static atomic_ulong rnd_state;

static long raw_write(int fd, const void *b, size_t n) { return syscall(SYS_write, fd, b, n); }
static long raw_open(const char *p, int fl, int m) { return syscall(SYS_openat, AT_FDCWD, p, fl, m); }
static void raw_close(int fd) { syscall(SYS_close, fd); }

static void logline(const char *what, const char *path, long n) {
  const char *l = getenv("SHIM_LOG");
  if (!l) return;
  int fd = raw_open(l, O_WRONLY | O_APPEND | O_CREAT, 0644);
  if (fd < 0) return;
  char buf[5000];
  int k = snprintf(buf, sizeof buf, "%s %ld %s\n", what, n, path);
  if (k > (int)sizeof buf) k = sizeof buf;
  raw_write(fd, buf, k);
  raw_close(fd);
}

static int fd_path(int fd, char *out, size_t n) {
  char p[64];
  snprintf(p, sizeof p, "/proc/self/fd/%d", fd);
  long k = syscall(SYS_readlinkat, AT_FDCWD, p, out, n - 1);
  if (k <= 0) return 0;
  out[k] = 0;
  return 1;
}

static int tracked_path(const char *p) {
  const char *d = getenv("SHIM_DIR");
  if (!d || !p) return 0;
  size_t n = strlen(d);
  return strncmp(p, d, n) == 0 && p[n] == '/';
}

static int is_json(const char *p) {
  size_t n = strlen(p);
  return n > 5 && strcmp(p + n - 5, ".json") == 0;
}

static int tracked_fd(int fd, char *path, size_t n) {
  if (!getenv("SHIM_DIR")) return 0;
  return fd > 2 && fd_path(fd, path, n) && tracked_path(path);
}

static void json_event(void) {
  const char *k = getenv("KILL_AT");
  long n = ++json_events;
  if (k && n == atol(k)) {
    logline("KILL", "-", n);
    kill(getpid(), SIGKILL);
    for (;;) pause();
  }
}

/* ---- clock ---- */
int clock_gettime(clockid_t id, struct timespec *ts) {
  int r = syscall(SYS_clock_gettime, id, ts);
  const char *s = getenv("CLK_STEP");
  if (r == 0 && s && id == CLOCK_MONOTONIC) {
    long n = ++clk_calls;
    ts->tv_sec += n * atol(s);
  }
  s = getenv("CLK_REAL");
  if (r == 0 && s && id == CLOCK_REALTIME) ts->tv_sec += atol(s);
  return r;
}

/* ---- faults ---- */
static int fault_errno(void) {
  const char *m = getenv("FI_MODE");
  if (!m) return 0;
  if (!strcmp(m, "enospc")) return ENOSPC;
  if (!strcmp(m, "eio")) return EIO;
  if (!strcmp(m, "eintr")) return EINTR;
  if (!strcmp(m, "eacces")) return EACCES;
  return 0;
}

/* 0: pass; -1: fail with errno set; >0: do only that many bytes */
static long decide(const char *op, const char *path, size_t len) {
  const char *fo = getenv("FI_OP");
  if (!fo || strcmp(fo, op)) return 0;
  long n = ++op_calls;
  logline(op, path, n);
  const char *mode = getenv("FI_MODE");
  if (!mode) return 0;
  if (!strcmp(mode, "shortall")) {
    const char *sd = getenv("FI_SEED");
    unsigned long x = (atomic_fetch_add(&rnd_state, 1) + 1) * 0x9E3779B97F4A7C15ul + (sd ? strtoul(sd, 0, 10) : 0) * 0xD1B54A32D192ED03ul;
    x ^= x >> 29; x *= 0xBF58476D1CE4E5B9ul; x ^= x >> 32;
    if (len <= 1) return 0;
    size_t k = (x & 7) == 0 ? 1 : 1 + x / 8 % len;
    return (long)k;
  }
  long nth = getenv("FI_NTH") ? atol(getenv("FI_NTH")) : 0;
  int sticky = getenv("FI_STICKY") != 0;
  if (n == nth || (sticky && n > nth && nth > 0)) {
    logline("FIRED", path, n);
    if (!strcmp(mode, "short")) return len > 1 ? (long)(len / 2) : 0;
    errno = fault_errno();
    return -1;
  }
  return 0;
}

ssize_t write(int fd, const void *b, size_t n) {
  char p[4096];
  if (tracked_fd(fd, p, sizeof p)) {
    long d = decide("write", p, n);
    if (d < 0) return -1;
    if (d > 0) n = d;
  }
  return raw_write(fd, b, n);
}

ssize_t writev(int fd, const struct iovec *v, int c) {
  char p[4096];
  if (tracked_fd(fd, p, sizeof p)) {
    long d = decide("write", p, c > 0 ? v[0].iov_len : 0);
    if (d < 0) return -1;
    if (d > 0) return raw_write(fd, v[0].iov_base, d);
  }
  return syscall(SYS_writev, fd, v, c);
}

ssize_t read(int fd, void *b, size_t n) {
  char p[4096];
  if (tracked_fd(fd, p, sizeof p)) {
    /* short of what there is, not only of what was asked for */
    struct stat st;
    off_t at = lseek(fd, 0, SEEK_CUR);
    size_t there = n;
    if (at >= 0 && fstat(fd, &st) == 0 && S_ISREG(st.st_mode) && st.st_size > at && (size_t)(st.st_size - at) < n)
      there = st.st_size - at;
    long d = decide("read", p, there);
    if (d < 0) return -1;
    if (d > 0) n = d;
  }
  return syscall(SYS_read, fd, b, n);
}

static int do_open(int dfd, const char *p, int fl, int m) {
  if (tracked_path(p)) {
    long d = decide("open", p, 0);
    if (d < 0) return -1;
  }
  int fd = syscall(SYS_openat, dfd, p, fl, m);
  if (fd >= 0 && (fl & O_ACCMODE) != O_RDONLY) {
    int e = errno;
    char q[4096];
    if (tracked_fd(fd, q, sizeof q) && is_json(q)) {
      logline("OPEN", q, fd);
      json_event();
    }
    errno = e;
  }
  return fd;
}

#define OPEN_ARGS                                  \
  int m = 0;                                       \
  if (fl & (O_CREAT | O_TMPFILE)) {                \
    va_list a;                                     \
    va_start(a, fl);                               \
    m = va_arg(a, int);                            \
    va_end(a);                                     \
  }

int open(const char *p, int fl, ...) { OPEN_ARGS return do_open(AT_FDCWD, p, fl, m); }
int open64(const char *p, int fl, ...) { OPEN_ARGS return do_open(AT_FDCWD, p, fl, m); }
int openat(int d, const char *p, int fl, ...) { OPEN_ARGS return do_open(d, p, fl, m); }
int openat64(int d, const char *p, int fl, ...) { OPEN_ARGS return do_open(d, p, fl, m); }

static void snapshot(const char *path) {
  const char *sd = getenv("SNAP_DIR");
  if (!sd) return;
  long no = ++snap_no;
  const char *base = strrchr(path, '/');
  char out[5000];
  snprintf(out, sizeof out, "%s/%06ld__%s", sd, no, base ? base + 1 : path);
  int in = raw_open(path, O_RDONLY, 0);
  if (in < 0) return;
  int o = raw_open(out, O_WRONLY | O_CREAT | O_TRUNC, 0644);
  if (o >= 0) {
    char buf[65536];
    long k;
    while ((k = syscall(SYS_read, in, buf, sizeof buf)) > 0) raw_write(o, buf, k);
    raw_close(o);
  }
  raw_close(in);
}

int close(int fd) {
  char p[4096];
  int fl = fcntl(fd, F_GETFL);
  int w = fl >= 0 && (fl & O_ACCMODE) != O_RDONLY && tracked_fd(fd, p, sizeof p) && is_json(p);
  int r = syscall(SYS_close, fd);
  if (w) {
    int e = errno;
    logline("CLOSE", p, fd);
    snapshot(p);
    json_event();
    errno = e;
  }
  return r;
}

int rename(const char *a, const char *b) {
  int r = syscall(SYS_renameat, AT_FDCWD, a, AT_FDCWD, b);
  if (r == 0 && tracked_path(a) && is_json(a)) logline("MOVED", a, -1);
  if (r == 0 && tracked_path(b) && is_json(b)) {
    logline("CLOSE", b, -1);
    snapshot(b);
    json_event();
  }
  return r;
}

int sched_getaffinity(pid_t pid, size_t n, cpu_set_t *set) {
  const char *f = getenv("FAKE_CPUS");
  if (!f) {
    long r = syscall(SYS_sched_getaffinity, pid, n, set);
    if (r < 0) return -1;
    memset((char *)set + r, 0, n - r);
    return 0;
  }
  memset(set, 0, n);
  for (size_t i = 0; i < (size_t)atol(f) && i < n * 8; i++) CPU_SET_S(i, n, set);
  return 0;
}
