#include "mon.h"
#include <dirent.h>

#if defined(__SANITIZE_ADDRESS__) || defined(__SANITIZE_THREAD__)
#define HAVE_HEAP 1
extern size_t __sanitizer_get_current_allocated_bytes(void);
#elif defined(__has_feature)
#if __has_feature(memory_sanitizer) || __has_feature(address_sanitizer)
#define HAVE_HEAP 1
extern size_t __sanitizer_get_current_allocated_bytes(void);
#endif
#endif

uint64_t mon_case, mon_seed;
int mon_tier;
const char *mon_dir = ".";
static const char *mon_scn = "?";
static FILE *mon_out;
static pthread_mutex_t mon_lock = PTHREAD_MUTEX_INITIALIZER;
static volatile uint64_t *mon_progress;

/* ---- random ---- */
uint64_t rng_next(rng *r)
{
  uint64_t z = (r->s += 0x9e3779b97f4a7c15ULL);
  z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ULL;
  z = (z ^ (z >> 27)) * 0x94d049bb133111ebULL;
  return z ^ (z >> 31);
}
uint64_t rng_n(rng *r, uint64_t n) { return n ? rng_next(r) % n : 0; }
int rng_p(rng *r, int p) { return (int) rng_n(r, 100) < p; }
size_t rng_size(rng *r, size_t max)
{
  size_t n;
  switch (rng_n(r, 4))
  {
  case 0: n = rng_n(r, 8); break;
  case 1: n = rng_n(r, 64); break;
  case 2: n = ((size_t) 1 << rng_n(r, 20)) + rng_n(r, 3) - 1; break;
  default: n = rng_n(r, max + 1); break;
  }
  return n > max ? rng_n(r, max + 1) : n;
}
void rng_bytes(rng *r, void *p, size_t n)
{
  uint8_t *b = p;
  while (n >= 8) { uint64_t v = rng_next(r); memcpy(b, &v, 8); b += 8; n -= 8; }
  if (n) { uint64_t v = rng_next(r); memcpy(b, &v, n); }
}
uint64_t mon_mix(uint64_t h, uint64_t v)
{
  h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
  h *= 0xff51afd7ed558ccdULL;
  return h ^ (h >> 32);
}
uint64_t mon_hash(uint64_t h, const void *p, size_t n)
{
  const uint8_t *b = p;
  size_t i;
  for (i = 0; i < n; i++) h = (h ^ b[i]) * 0x100000001b3ULL;
  return mon_mix(h, n);
}

/* ---- counters ---- */
static struct { const char *name; uint64_t n; } counters[64];
static int counters_n;
void mon_count(const char *name, uint64_t n)
{
  int i;
  pthread_mutex_lock(&mon_lock);
  for (i = 0; i < counters_n; i++)
    if (counters[i].name == name || strcmp(counters[i].name, name) == 0) break;
  if (i == counters_n && counters_n < 64) { counters[i].name = name; counters[i].n = 0; counters_n++; }
  if (i < 64) counters[i].n += n;
  pthread_mutex_unlock(&mon_lock);
}
#define DIST_CAP (1u << 19)
static uint64_t *dist;
static uint64_t dist_n;
void mon_distinct(uint64_t h)
{
  uint64_t i;
  if (!h) h = 1;
  pthread_mutex_lock(&mon_lock);
  if (dist_n < DIST_CAP / 2)
  {
    for (i = h % DIST_CAP; dist[i] && dist[i] != h; i = (i + 1) % DIST_CAP);
    if (!dist[i]) { dist[i] = h; dist_n++; }
  }
  pthread_mutex_unlock(&mon_lock);
}
static int samples;
void mon_sample(const char *fmt, ...)
{
  va_list ap;
  char buf[600];
  int i;
  pthread_mutex_lock(&mon_lock);
  if (samples < 4)
  {
    samples++;
    va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
    for (i = 0; buf[i]; i++) if (buf[i] == '\n' || buf[i] == '\t') buf[i] = ' ';
    fprintf(mon_out, "SAMPLE\t%s/%llu: %s\n", mon_scn, (unsigned long long) mon_case, buf);
  }
  pthread_mutex_unlock(&mon_lock);
}
#define TRACE_N 200
/* in a file of its own, so that it survives a crash */
static struct { unsigned n; char line[TRACE_N][160]; } trace_none, *trace_log = &trace_none;
#define trace (trace_log->line)
#define trace_n (trace_log->n)
void mon_trace(const char *fmt, ...)
{
  va_list ap;
  pthread_mutex_lock(&mon_lock);
  va_start(ap, fmt); vsnprintf(trace[trace_n % TRACE_N], sizeof trace[0], fmt, ap); va_end(ap);
  trace_n++;
  pthread_mutex_unlock(&mon_lock);
}
static void finish_output(void)
{
  int i;
  for (i = 0; i < counters_n; i++) fprintf(mon_out, "COUNT\t%s\t%llu\n", counters[i].name, (unsigned long long) counters[i].n);
  fflush(mon_out);
}
void mon_fail(const char *key, const char *fmt, ...)
{
  va_list ap;
  char buf[2000];
  unsigned i;
  int k;
  pthread_mutex_lock(&mon_lock);
  va_start(ap, fmt); vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
  for (k = 0; buf[k]; k++) if (buf[k] == '\n' || buf[k] == '\t' || buf[k] == '\r') buf[k] = ' ';
  fprintf(mon_out, "VIOL\t%s\t%llu\t%s\n", key, (unsigned long long) mon_case, buf);
  for (i = trace_n > TRACE_N ? trace_n - TRACE_N : 0; i < trace_n; i++)
    fprintf(mon_out, "TRACE\t%s\n", trace[i % TRACE_N]);
  finish_output();
  _exit(9);
}
void mon_harness_error(const char *fmt, ...)
{
  va_list ap;
  fprintf(mon_out, "HERR\t");
  va_start(ap, fmt); vfprintf(mon_out, fmt, ap); va_end(ap);
  fprintf(mon_out, " (errno %d)\n", errno);
  fflush(mon_out);
  _exit(8);
}

/* ---- interposition ---- */
__thread int mon_wait_mode = WAIT_STEP, mon_idle, mon_wait_epfd = -1, mon_batch_n;
__thread uint64_t mon_batch, mon_waits, mon_woke_ns;
__thread int mon_eintr_passes;
__thread void (*mon_wait_hook)(void);
int (*mon_read_hook)(int, void *, size_t, ssize_t *);
int (*mon_write_hook)(int, const void *, size_t, ssize_t *);
int (*mon_accept_hook)(int, int *);
int (*mon_socket_hook)(int *);
int (*mon_bind_hook)(int *);
int (*mon_listen_hook)(int *);
int (*mon_connect_hook)(int *);
int (*mon_settime_hook)(const struct itimerspec *, struct itimerspec *);
int (*mon_clock_hook)(struct timespec *);

static int wait_common(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss)
{
  int n;
  mon_waits++;
  mon_wait_epfd = epfd;
  if (mon_wait_hook) mon_wait_hook();
  if (mon_wait_mode == WAIT_REAL)
    n = __real_epoll_pwait(epfd, ev, max, timeout, ss);
  else
  {
    do n = __real_epoll_pwait(epfd, ev, max, 0, ss); while (n == -1 && errno == EINTR && !mon_eintr_passes);
    if (n == 0 && timeout != 0) { mon_idle = 1; mon_batch_n = 0; mon_batch++; errno = EINTR; return -1; }
  }
  mon_idle = n <= 0;
  mon_batch_n = n;
  mon_batch++;
  mon_woke_ns = mon_mono_ns();
  return n;
}
int __wrap_epoll_wait(int epfd, struct epoll_event *ev, int max, int timeout) { return wait_common(epfd, ev, max, timeout, NULL); }
int __wrap_epoll_pwait(int epfd, struct epoll_event *ev, int max, int timeout, const sigset_t *ss) { return wait_common(epfd, ev, max, timeout, ss); }
int __wrap_epoll_pwait2(int epfd, struct epoll_event *ev, int max, const struct timespec *ts, const sigset_t *ss)
{
  return __wrap_epoll_pwait(epfd, ev, max, ts ? (int) (ts->tv_sec * 1000 + ts->tv_nsec / 1000000) : -1, ss);
}
ssize_t __wrap_read(int fd, void *b, size_t n) { ssize_t r; if (mon_read_hook && mon_read_hook(fd, b, n, &r)) return r; return __real_read(fd, b, n); }
ssize_t __wrap_recv(int fd, void *b, size_t n, int f) { ssize_t r; if (mon_read_hook && mon_read_hook(fd, b, n, &r)) return r; return __real_recv(fd, b, n, f); }
ssize_t __wrap_write(int fd, const void *b, size_t n) { ssize_t r; if (mon_write_hook && mon_write_hook(fd, b, n, &r)) return r; return __real_write(fd, b, n); }
ssize_t __wrap_send(int fd, const void *b, size_t n, int f) { ssize_t r; if (mon_write_hook && mon_write_hook(fd, b, n, &r)) return r; return __real_send(fd, b, n, f); }
int __wrap_accept4(int fd, struct sockaddr *a, socklen_t *l, int f) { int r; if (mon_accept_hook && mon_accept_hook(fd, &r)) return r; return __real_accept4(fd, a, l, f); }
int __wrap_accept(int fd, struct sockaddr *a, socklen_t *l) { int r; if (mon_accept_hook && mon_accept_hook(fd, &r)) return r; return __real_accept(fd, a, l); }
int __wrap_socket(int d, int t, int p) { int r; if (mon_socket_hook && mon_socket_hook(&r)) return r; return __real_socket(d, t, p); }
int __wrap_bind(int fd, const struct sockaddr *a, socklen_t l) { int r; if (mon_bind_hook && mon_bind_hook(&r)) return r; return __real_bind(fd, a, l); }
int __wrap_listen(int fd, int n) { int r; if (mon_listen_hook && mon_listen_hook(&r)) return r; return __real_listen(fd, n); }
int __wrap_connect(int fd, const struct sockaddr *a, socklen_t l) { int r; if (mon_connect_hook && mon_connect_hook(&r)) return r; return __real_connect(fd, a, l); }
int __wrap_timerfd_settime(int fd, int f, const struct itimerspec *n, struct itimerspec *o)
{
  struct itimerspec x;
  if (mon_settime_hook && mon_settime_hook(n, &x)) return __real_timerfd_settime(fd, f, &x, o);
  return __real_timerfd_settime(fd, f, n, o);
}
/* visible to the race detector as the write it is */
int __wrap_fstat(int fd, struct stat *st) { struct stat x; int r = __real_fstat(fd, &x); if (!r) *st = x; return r; }
time_t __wrap_time(time_t *t)
{
  struct timespec ts;
  if (mon_clock_hook && mon_clock_hook(&ts)) { if (t) *t = ts.tv_sec; return ts.tv_sec; }
  return __real_time(t);
}
int __wrap_clock_gettime(clockid_t c, struct timespec *ts)
{
  if ((c == CLOCK_REALTIME || c == CLOCK_REALTIME_COARSE) && mon_clock_hook && mon_clock_hook(ts)) return 0;
  return __real_clock_gettime(c, ts);
}
int __wrap_gettimeofday(struct timeval *tv, void *tz)
{
  struct timespec ts;
  if (tv && mon_clock_hook && mon_clock_hook(&ts)) { tv->tv_sec = ts.tv_sec; tv->tv_usec = ts.tv_nsec / 1000; return 0; }
  return __real_gettimeofday(tv, tz);
}
int __wrap_timespec_get(struct timespec *ts, int base)
{
  if (base == TIME_UTC && mon_clock_hook && mon_clock_hook(ts)) return base;
  return __real_timespec_get(ts, base);
}

/* the per-user limit of watchers is shared with whatever else runs here: wait for room instead of failing */
extern int __real_inotify_init1(int);
int __wrap_inotify_init1(int f)
{
  int k, fd = -1;
  for (k = 0; k < 2000; k++) { fd = __real_inotify_init1(f); if (fd != -1 || errno != EMFILE) break; usleep(5000); }
  if (fd == -1) mon_harness_error("inotify_init1");
  return fd;
}
extern int __real_inotify_init(void);
int __wrap_inotify_init(void) { return __wrap_inotify_init1(0); }

struct addrinfo;
__attribute__((weak)) int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *i, struct addrinfo **r)
{
  extern int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
  return __real_getaddrinfo(h, s, i, r);
}

/* ---- descriptor ownership ---- */
#define MAXFD 4096
static volatile uint8_t owned[MAXFD];
void mon_own(int fd) { if (fd >= 0 && fd < MAXFD) owned[fd] = 1; }
void mon_give(int fd) { if (fd >= 0 && fd < MAXFD) owned[fd] = 0; }
int mon_close(int fd) { mon_give(fd); return __real_close(fd); }
void (*mon_closed_hook)(int);
int __wrap_close(int fd)
{
  int e;
  if (mon_closed_hook) mon_closed_hook(fd);
  if (fd >= 0 && fd < MAXFD && owned[fd]) mon_fail("foreign-close", "the library closed descriptor %d that it does not own", fd);
  e = __real_close(fd);
  if (e == -1 && errno == EBADF && fd >= 0) mon_fail("double-close", "the library closed descriptor %d that is not open", fd);
  return e;
}
int mon_count_fds(void)
{
  DIR *d = opendir("/proc/self/fd");
  int n = 0;
  struct dirent *de;
  if (!d) return -1;
  while ((de = readdir(d)))
    if (de->d_name[0] != '.')
    {
      /* the sanitizer's memory watch opens statm now and then */
      char l[64]; ssize_t k = readlinkat(dirfd(d), de->d_name, l, sizeof l - 1);
      if (k < 0) continue;
      l[k] = 0;
      if (k < 6 || strcmp(l + k - 6, "/statm")) n++;
    }
  closedir(d);
  return n - 1;
}
size_t mon_heap(void)
{
#ifdef HAVE_HEAP
  return __sanitizer_get_current_allocated_bytes();
#else
  return 0;
#endif
}

/* ---- helpers ---- */
int mon_nonblock(int fd, int on)
{
  int f = fcntl(fd, F_GETFL);
  return fcntl(fd, F_SETFL, on ? f | O_NONBLOCK : f & ~O_NONBLOCK);
}
void mon_socketpair(int sv[2], int nonblock)
{
  if (socketpair(AF_UNIX, SOCK_STREAM | (nonblock ? SOCK_NONBLOCK : 0), 0, sv) == -1) mon_harness_error("socketpair");
  mon_own(sv[1]);
}
/* some address of 127/8: ports of one address run out when many connections are waiting to be forgotten */
uint32_t mon_loopback(void)
{
  static _Atomic uint64_t n;
  static _Atomic int usable;
  if (!usable)
  {
    struct sockaddr_in a = {.sin_family = AF_INET, .sin_addr.s_addr = htonl(0x7f010203)};
    int s = __real_socket(AF_INET, SOCK_STREAM, 0);
    usable = __real_bind(s, (struct sockaddr *) &a, sizeof a) ? -1 : 1;
    __real_close(s);
  }
  if (usable < 0) return htonl(INADDR_LOOPBACK);
  uint64_t x = mon_mono_ns() ^ (uint64_t) getpid() << 40 ^ ++n << 20;
  x = mon_hash(MON_H0, &x, sizeof x);
  return htonl(0x7f000000u | (1 + x % 250) << 16 | (x >> 16) % 250 << 8 | (1 + (x >> 32) % 250));
}
void mon_tcp_pair(int sv[2], int nonblock)
{
  struct sockaddr_in a = {.sin_family = AF_INET};
  socklen_t l = sizeof a;
  int s = __real_socket(AF_INET, SOCK_STREAM, 0), one = 1, k = 0;
  do { a.sin_addr.s_addr = mon_loopback(); a.sin_port = 0; } while (s != -1 && __real_bind(s, (struct sockaddr *) &a, l) && k++ < 50);
  if (s == -1 || __real_listen(s, 8) || getsockname(s, (struct sockaddr *) &a, &l)) mon_harness_error("tcp listen");
  sv[1] = __real_socket(AF_INET, SOCK_STREAM, 0);
  if (sv[1] == -1 || __real_connect(sv[1], (struct sockaddr *) &a, l)) mon_harness_error("tcp connect");
  sv[0] = __real_accept(s, NULL, NULL);
  if (sv[0] == -1) mon_harness_error("tcp accept");
  __real_close(s);
  setsockopt(sv[0], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  setsockopt(sv[1], IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
  if (nonblock) { mon_nonblock(sv[0], 1); mon_nonblock(sv[1], 1); }
  mon_own(sv[1]);
}
uint64_t mon_mono_ns(void) { struct timespec t; __real_clock_gettime(CLOCK_MONOTONIC, &t); return (uint64_t) t.tv_sec * 1000000000 + t.tv_nsec; }
uint64_t mon_real_ns(void) { struct timespec t; __real_clock_gettime(CLOCK_REALTIME, &t); return (uint64_t) t.tv_sec * 1000000000 + t.tv_nsec; }
/* Some cases run with descriptor number 0 free, from the start or from some step on: it is a number like any other. */
static __thread int low_steps;
static void low_release(void) { struct stat st; if (fstat(0, &st) == 0 && owned[0] && S_ISCHR(st.st_mode)) { mon_close(0); mon_count("low_descriptor_cases", 1); } }
static void low_begin(uint64_t c)
{
  rng r = {mon_mix(mon_mix(0x10f0, mon_seed), c)};
  rng_next(&r);
  low_steps = rng_p(&r, 12) ? 1 + rng_n(&r, 12) : 0;
  if (low_steps == 1) { low_steps = 0; low_release(); }
}
/* The sanitizer's memory watch opens /proc/self/statm now and then, and gets the free number 0 for a moment. */
static void low_end(void)
{
  int k, fd, e = 0;
  char l[64] = "";
  ssize_t n;
  struct stat st;
  low_steps = 0;
  for (k = 0; k < 500; k++)
  {
    if (fstat(0, &st) == 0)
    {
      if (owned[0]) return;
      n = readlink("/proc/self/fd/0", l, sizeof l - 1);
      l[n > 0 ? n : 0] = 0;
      if (n >= 6 && !strcmp(l + n - 6, "/statm")) { mon_count("statm_met", 1); usleep(1000); continue; }
      if (n <= 0) continue;
      /* left behind by the history: out of the way, where it is counted */
      fd = fcntl(0, F_DUPFD, 10);
      if (fd == -1) mon_harness_error("descriptor 0 is taken by %s", l);
      __real_close(0);
    }
    fd = open("/dev/null", O_RDWR); e = errno;
    if (fd == 0) { mon_own(0); return; }
    if (fd > 0) __real_close(fd);
    usleep(1000);
  }
  mon_harness_error("descriptor 0: open returned %d, errno %d, 0 was %s", fd, e, l);
}
int mon_step(void)
{
  uint64_t w = mon_waits;
  if (low_steps && --low_steps == 0) low_release();
  mon_idle = 0;
  reactor_loop_once();
  if (mon_waits == w) mon_harness_error("the loop did not wait through epoll_wait/epoll_pwait: stepping impossible");
  return !mon_idle;
}
int mon_settle(int max)
{
  int n = 0;
  while (n < max) { if (!mon_step()) return n; n++; }
  return -1;
}
int mon_settle_ms(int max, int grace_ms)
{
  int n = 0, k;
  while (n < max)
  {
    if (mon_step()) { n++; continue; }
    k = poll((struct pollfd[]) {{.fd = mon_wait_epfd, .events = POLLIN}}, 1, grace_ms);
    if (k <= 0) return n;
  }
  return -1;
}
static int scratch_n;
void mon_scratch(char *path, size_t n)
{
  snprintf(path, n, "%s/s%d.%d", mon_dir, (int) getpid(), scratch_n++);
  if (mkdir(path, 0700) == -1) mon_harness_error("mkdir %s", path);
}
void mon_rmdir(const char *path)
{
  char p[PATH_MAX];
  struct dirent *de;
  DIR *d;
  if (strncmp(path, mon_dir, strlen(mon_dir)) != 0 || strlen(path) < 10) return;
  d = opendir(path);
  if (!d) return;
  while ((de = readdir(d)))
  {
    if (!strcmp(de->d_name, ".") || !strcmp(de->d_name, "..")) continue;
    snprintf(p, sizeof p, "%s/%s", path, de->d_name);
    if (de->d_type == DT_DIR) mon_rmdir(p); else unlink(p);
  }
  closedir(d);
  rmdir(path);
}

/* ---- driver ---- */
static rng case_rng(const char *scn, uint64_t c)
{
  rng r = {mon_mix(mon_mix(mon_hash(MON_H0, scn, strlen(scn)), mon_seed), c)};
  rng_next(&r);
  return r;
}
static void run_case(const mon_scenario *s, rng *r) { if (s->flags & MON_FDS) low_begin(mon_case); s->fn(r); if (s->flags & MON_FDS) low_end(); }
int main(int argc, char **argv)
{
  const mon_scenario *s;
  uint64_t first, count, c;
  char path[PATH_MAX];
  int fd, n0, n1, flags;
  size_t h0, h1;
  rng r;

  if (argc < 7) { fprintf(stderr, "usage: prog scenario seed first count tier dir [out-prefix]\n"); return 2; }
  mon_scn = argv[1];
  mon_seed = strtoull(argv[2], NULL, 0);
  first = strtoull(argv[3], NULL, 0);
  count = strtoull(argv[4], NULL, 0);
  mon_tier = atoi(argv[5]);
  mon_dir = argv[6];
  snprintf(path, sizeof path, "%s/out", mon_dir);
  mon_out = fopen(path, "w");
  if (!mon_out) return 2;
  snprintf(path, sizeof path, "%s/progress", mon_dir);
  fd = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (fd == -1 || ftruncate(fd, 8) == -1) return 2;
  mon_progress = mmap(NULL, 8, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
  if (mon_progress == MAP_FAILED) return 2;
  snprintf(path, sizeof path, "%s/trace", mon_dir);
  n0 = open(path, O_RDWR | O_CREAT | O_TRUNC, 0600);
  if (n0 == -1 || ftruncate(n0, sizeof *trace_log) == -1) return 2;
  trace_log = mmap(NULL, sizeof *trace_log, PROT_READ | PROT_WRITE, MAP_SHARED, n0, 0);
  if (trace_log == MAP_FAILED) return 2;
  close(n0);
  mon_own(0); mon_own(1); mon_own(2); mon_own(fd); mon_own(fileno(mon_out));
  dist = mmap(NULL, DIST_CAP * sizeof *dist, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  for (s = mon_scenarios; s->name && strcmp(s->name, mon_scn); s++);
  if (!s->name) { fprintf(stderr, "no scenario %s\n", mon_scn); return 2; }
  flags = s->flags;
  if (s->init) s->init();
  for (c = first; c < first + count; c++)
  {
    mon_case = c;
    *mon_progress = c + 1;
    trace_n = 0;
    n0 = n1 = 0; h0 = h1 = 0;
    if (flags & MON_FDS) n0 = mon_count_fds();
    if (flags & MON_MEM) h0 = mon_heap();
    r = case_rng(mon_scn, c);
    run_case(s, &r);
    if (flags & MON_MEM) h1 = mon_heap();
    if (flags & MON_FDS) n1 = mon_count_fds();
    if (n1 != n0 || h1 > h0)
    {
      /* one-time allocations (locale, TLS tables, ...) do not repeat: decide on the second run of the same case */
      int f0 = n1 - n0;
      long d0 = (long) (h1 - h0);
      if (flags & MON_FDS) n0 = mon_count_fds();
      h0 = mon_heap();
      r = case_rng(mon_scn, c);
      run_case(s, &r);
      h1 = mon_heap();
      if (flags & MON_FDS) n1 = mon_count_fds();
      if ((flags & MON_FDS) && n1 != n0) mon_fail("descriptor-leak", "%d descriptors more than before the history (first run %d)", n1 - n0, f0);
      if ((flags & MON_MEM) && h1 > h0)
      {
        /* caches of the C library and of OpenSSL fill once, at moments that depend on timing; a leak goes on */
        size_t top = h1, h2;
        int k, grown = 0;
        for (k = 0; k < 40 && grown < 8 && grown + 40 - k >= 8; k++)
        {
          r = case_rng(mon_scn, c);
          run_case(s, &r);
          h2 = mon_heap();
          if (h2 > top) { top = h2; grown++; }
        }
        if (grown >= 8) mon_fail("memory-leak", "the heap grows by about %ld bytes each time the history is repeated (first run %ld)", (long) (top - h1) / k, d0);
      }
    }
    mon_count("cases", 1);
  }
  *mon_progress = first + count + 1;
  finish_output();
  snprintf(path, sizeof path, "%s/dist", mon_dir);
  {
    FILE *f = fopen(path, "w");
    uint64_t i;
    if (f) { for (i = 0; i < DIST_CAP; i++) if (dist[i]) fwrite(&dist[i], 8, 1, f); fclose(f); }
  }
  fflush(NULL);
  _exit(0);
}
