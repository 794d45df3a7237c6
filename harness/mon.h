/* Shared monitor library: case driver, verdicts, counters, libc interposition. */
#ifndef MON_H
#define MON_H
#define _GNU_SOURCE
#include <stdio.h>
#include <stdlib.h>
#include <stdint.h>
#include <string.h>
#include <stdarg.h>
#include <unistd.h>
#include <errno.h>
#include <fcntl.h>
#include <time.h>
#include <poll.h>
#include <signal.h>
#include <pthread.h>
#include <limits.h>
#include <sys/types.h>
#include <sys/stat.h>
#include <sys/socket.h>
#include <sys/un.h>
#include <sys/epoll.h>
#include <sys/eventfd.h>
#include <sys/ioctl.h>
#include <sys/timerfd.h>
#include <sys/inotify.h>
#include <sys/wait.h>
#include <sys/mman.h>
#include <netinet/in.h>
#include <netinet/tcp.h>
#include <arpa/inet.h>
#include <netdb.h>
#include <openssl/ssl.h>
#include <openssl/err.h>
#include <reactor.h>

/* ---- randomness: every choice comes from here ---- */
typedef struct { uint64_t s; } rng;
uint64_t rng_next(rng *);
uint64_t rng_n(rng *, uint64_t n);                 /* 0..n-1 (0 if n == 0) */
int      rng_p(rng *, int percent);
size_t   rng_size(rng *, size_t max);              /* skewed to small values and powers of two */
void     rng_bytes(rng *, void *, size_t);
uint64_t mon_hash(uint64_t h, const void *, size_t);
#define  MON_H0 0x9e3779b97f4a7c15ULL
uint64_t mon_mix(uint64_t h, uint64_t v);

/* ---- scenarios ---- */
enum { MON_FDS = 1, MON_MEM = 2 };
typedef struct { const char *name; void (*fn)(rng *); int flags; void (*init)(void); } mon_scenario;
extern const mon_scenario mon_scenarios[];
extern uint64_t mon_case;                          /* index of the current case */
extern uint64_t mon_seed;
extern int mon_tier;                               /* 0 quick, 1 thorough */

/* ---- verdicts and evidence ---- */
__attribute__((noreturn, format(printf, 2, 3))) void mon_fail(const char *key, const char *fmt, ...);
#define MON_CHECK(cond, key, ...) do { if (!(cond)) mon_fail(key, __VA_ARGS__); } while (0)
__attribute__((noreturn, format(printf, 1, 2))) void mon_harness_error(const char *fmt, ...);
void mon_count(const char *name, uint64_t n);
void mon_distinct(uint64_t hash);                  /* one distinct non-trivial case or state */
__attribute__((format(printf, 1, 2))) void mon_sample(const char *fmt, ...);
__attribute__((format(printf, 1, 2))) void mon_trace(const char *fmt, ...); /* witness history of the case */

/* ---- libc interposition (linked with -Wl,--wrap) ---- */
#define W(ret, name, args) extern ret __real_##name args; extern ret __wrap_##name args
W(int, fstat, (int, struct stat *));
W(int, epoll_wait, (int, struct epoll_event *, int, int));
W(int, epoll_pwait, (int, struct epoll_event *, int, int, const sigset_t *));
W(int, epoll_pwait2, (int, struct epoll_event *, int, const struct timespec *, const sigset_t *));
W(ssize_t, read, (int, void *, size_t));
W(ssize_t, write, (int, const void *, size_t));
W(ssize_t, recv, (int, void *, size_t, int));
W(ssize_t, send, (int, const void *, size_t, int));
W(int, close, (int));
W(int, accept4, (int, struct sockaddr *, socklen_t *, int));
W(int, accept, (int, struct sockaddr *, socklen_t *));
W(int, socket, (int, int, int));
W(int, bind, (int, const struct sockaddr *, socklen_t));
W(int, listen, (int, int));
W(int, connect, (int, const struct sockaddr *, socklen_t));
W(time_t, time, (time_t *));
W(int, clock_gettime, (clockid_t, struct timespec *));
W(int, gettimeofday, (struct timeval *, void *));
W(int, timespec_get, (struct timespec *, int));
W(int, timerfd_settime, (int, int, const struct itimerspec *, struct itimerspec *));
#undef W

/* Loop stepping: the library's wait never blocks the harness; with nothing ready it is "interrupted". */
enum { WAIT_REAL, WAIT_STEP };
extern __thread int mon_wait_mode;                 /* default WAIT_STEP */
extern __thread int mon_eintr_passes;             /* stepping: a real EINTR is passed on */
extern __thread int mon_idle;                      /* last wait found nothing */
extern __thread uint64_t mon_batch;                /* number of waits that returned (wake-ups) */
extern __thread uint64_t mon_waits;                /* number of wait calls */
extern __thread uint64_t mon_woke_ns;              /* monotonic time the last wait returned */
extern __thread int mon_wait_epfd;
extern __thread int mon_batch_n;                   /* events in the current wake-up */
extern __thread void (*mon_wait_hook)(void);       /* before every wait */
int  mon_step(void);                               /* one reactor_loop_once; 1 if something was ready */
int  mon_settle(int max);                          /* steps until idle; returns number of busy steps, -1 if never idle */
int  mon_settle_ms(int max, int grace_ms);         /* as above, polls up to grace_ms for late kernel events */

/* Fault hooks: return 1 to take over the call */
extern int (*mon_read_hook)(int fd, void *buf, size_t n, ssize_t *ret);
extern int (*mon_write_hook)(int fd, const void *buf, size_t n, ssize_t *ret);
extern int (*mon_accept_hook)(int fd, int *ret);
extern int (*mon_socket_hook)(int *ret);
extern int (*mon_bind_hook)(int *ret);
extern int (*mon_listen_hook)(int *ret);
extern int (*mon_connect_hook)(int *ret);
extern int (*mon_settime_hook)(const struct itimerspec *in, struct itimerspec *out); /* 1: use out */
extern int (*mon_clock_hook)(struct timespec *realtime);                             /* 1: use this time */

/* Descriptor ownership: closing a harness descriptor, or one that is not open, from the library is a violation */
void mon_own(int fd);                              /* the harness owns it (library must not close it) */
void mon_give(int fd);                             /* ownership passes to the library */
extern void (*mon_closed_hook)(int fd);              /* before the library closes it */
int  mon_close(int fd);                            /* harness close */
uint64_t mon_open_fds(void);
int  mon_count_fds(void);
size_t mon_heap(void);

/* helpers */
void mon_socketpair(int sv[2], int nonblock);      /* sv[0] for the library (given), sv[1] owned */
uint32_t mon_loopback(void);
void mon_tcp_pair(int sv[2], int nonblock);
int  mon_nonblock(int fd, int on);
uint64_t mon_mono_ns(void);
uint64_t mon_real_ns(void);
void mon_scratch(char *path, size_t n);            /* creates a scratch directory below the result directory */
void mon_rmdir(const char *path);
extern const char *mon_dir;
#endif
