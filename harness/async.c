/* Monitors for async calls (C16) and the resolver (C17). */
#include "mon.h"
#include <resolv.h>
#include <semaphore.h>
#include <arpa/nameser.h>

enum { IDLE, BUSY };
enum { K_QUICK, K_SLEEP, K_COMPUTE, K_GATED, K_UNCANCELABLE, K_IO, K_MIX, K_N };
#define WORDS 24
typedef struct
{
  async a;
  int slot, kind, life;
  unsigned us;
  uint64_t call;                 /* number of the call in progress */
  uint64_t words[WORDS];         /* written by CALL, plainly */
  uint64_t arg[WORDS];           /* written before async_call, plainly */
} obj;
#define MO 24
static obj *O[MO];
static int state[MO], dones[MO], N, acting;
static uint64_t serial;
static rng *R;
static uint64_t H;
static pthread_t loop_thread;
/* what the workers do is recorded here, not in the objects, so that it can be seen after the object is gone */
static uint64_t slot_call[MO];
static unsigned calls[MO], beats[MO], inside[MO];
static sem_t gate[MO];
static int pipefd[2];
static unsigned max_inside, now_inside;

static uint64_t word(uint64_t call, int i) { return call * 0x9e3779b97f4a7c15ULL + i; }
static void left(void *arg) { int slot = (int) (intptr_t) arg; __atomic_sub_fetch(&inside[slot], 1, __ATOMIC_RELAXED); __atomic_sub_fetch(&now_inside, 1, __ATOMIC_RELAXED); }
static void beat(int slot) { __atomic_add_fetch(&beats[slot], 1, __ATOMIC_RELAXED); }
static void compute(int slot, unsigned us) { uint64_t t = mon_mono_ns(); while (mon_mono_ns() - t < us * 1000ull) beat(slot); }
/* ordinary work needs an ordinary stack */
static __attribute__((noinline)) unsigned roomy(unsigned us) { volatile char room[400000]; unsigned i, s = 0; for (i = 0; i < sizeof room; i += 512) room[i] = (char) (us + i); for (i = 0; i < sizeof room; i += 512) s += room[i]; return s; }
static void work(obj *o)
{
  int i, slot = o->slot;
  unsigned us = o->us, m, n;
  if (pthread_equal(pthread_self(), loop_thread)) mon_fail("async-in-loop-thread", "ASYNC_CALL ran in the loop thread");
  __atomic_add_fetch(&calls[slot], 1, __ATOMIC_RELAXED);
  n = __atomic_add_fetch(&inside[slot], 1, __ATOMIC_RELAXED);
  m = __atomic_add_fetch(&now_inside, 1, __ATOMIC_RELAXED);
  if (m > __atomic_load_n(&max_inside, __ATOMIC_RELAXED)) __atomic_store_n(&max_inside, m, __ATOMIC_RELAXED);
  pthread_cleanup_push(left, (void *) (intptr_t) slot);
  if (n != 1) mon_fail("async-twice", "%u workers of one object run at the same time", n);
  for (i = 0; i < WORDS; i++) if (o->arg[i] != word(o->call, i + 100)) mon_fail("async-arg", "ASYNC_CALL does not see what was written before async_call");
  switch (o->kind)
  {
  case K_QUICK: if (us % 8 == 0) (void) roomy(us); break;
  case K_SLEEP: usleep(us); break;
  case K_COMPUTE: compute(slot, us > 2000 ? 2000 : us); break;
  case K_GATED: while (sem_wait(&gate[slot]) == -1); break;
  case K_UNCANCELABLE: pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); for (i = 0; i < 5; i++) { beat(slot); usleep(us / 10); } pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, NULL); break;
  case K_IO: { char c; struct pollfd p = {.fd = pipefd[0], .events = POLLIN}; poll(&p, 1, us / 1000); if (__real_write(pipefd[1], "x", 1) == 1) __real_read(pipefd[0], &c, 1); } break;
  case K_MIX: for (i = 0; i < 4; i++) { compute(slot, us / 20); usleep(us / 8); } break;
  }
  for (i = 0; i < WORDS; i++) { o->words[i] = word(o->call, i); if (o->kind == K_MIX && i % 8 == 0) usleep(1); }
  pthread_cleanup_pop(1);
}
static void check_stopped(int slot)
{
  unsigned b;
  MON_CHECK(__atomic_load_n(&inside[slot], __ATOMIC_RELAXED) == 0, "async-still-running", "the worker of object %d runs after the cancellation returned", slot);
  b = __atomic_load_n(&beats[slot], __ATOMIC_RELAXED);
  if (rng_p(R, 20)) { usleep(300); MON_CHECK(b == __atomic_load_n(&beats[slot], __ATOMIC_RELAXED), "async-still-running", "the worker of object %d goes on after the cancellation returned", slot); }
  mon_count("stops_checked", 1); mon_count("eval", 1);
}
static void start(obj *o)
{
  int i;
  static const int w[] = {K_QUICK, K_QUICK, K_SLEEP, K_COMPUTE, K_GATED, K_GATED, K_UNCANCELABLE, K_IO, K_MIX};
  if (state[o->slot] == BUSY) return;
  o->kind = w[rng_n(R, 9)]; o->us = rng_p(R, 40) ? rng_n(R, 50) : rng_n(R, 8000);
  o->call = ++serial;
  for (i = 0; i < WORDS; i++) { o->arg[i] = word(o->call, i + 100); o->words[i] = 0; }
  __atomic_store_n(&calls[o->slot], 0, __ATOMIC_RELAXED); dones[o->slot] = 0; state[o->slot] = BUSY; slot_call[o->slot] = o->call;
  while (sem_trywait(&gate[o->slot]) == 0);
  mon_trace("call %llu on %d kind %d us %u", (unsigned long long) o->call, o->slot, o->kind, o->us);
  mon_count("calls", 1);
  H = mon_mix(H, o->slot * 100 + o->kind);
  async_call(&o->a);
}
static void cb(reactor_event *);
static void create(int slot)
{
  O[slot] = malloc(sizeof(obj));
  memset(O[slot], 0xcc, sizeof(obj));
  O[slot]->slot = slot;
  async_construct(&O[slot]->a, cb, O[slot]);
  state[slot] = IDLE;
}
static void cancel(int slot)
{
  obj *o = O[slot];
  if (state[slot] == BUSY && o->kind == K_COMPUTE) mon_count("cancelled_computing", 1);
  if (state[slot] == BUSY) mon_count(__atomic_load_n(&calls[slot], __ATOMIC_RELAXED) ? __atomic_load_n(&inside[slot], __ATOMIC_RELAXED) ? "cancelled_running" : "cancelled_finished" : "cancelled_early", 1);
  mon_trace("cancel %d", slot);
  state[slot] = IDLE;
  async_cancel(&o->a);
  check_stopped(slot);
  H = mon_mix(H, slot * 100 + 50);
}
static void destroy(int slot)
{
  obj *o = O[slot];
  if (state[slot] == BUSY) mon_count("destroyed_busy", 1);
  mon_trace("destroy %d", slot);
  state[slot] = IDLE; O[slot] = NULL;
  async_destruct(&o->a);
  check_stopped(slot);
  memset(o, 0xee, sizeof *o);
  free(o);
}
static void act(int n)
{
  int slot = rng_n(R, N), k = rng_n(R, 100);
  (void) n;
  if (!O[slot]) { if (k < 60) create(slot); return; }
  if (k < 50) start(O[slot]);
  else if (k < 65) cancel(slot);
  else if (k < 75) destroy(slot);
  else sem_post(&gate[slot]);
}
static void cb(reactor_event *e)
{
  obj *o = e->state;
  int i, slot;
  switch (e->type)
  {
  case ASYNC_CALL: work(o); break;
  case ASYNC_DONE:
    slot = o->slot;
    MON_CHECK(pthread_equal(pthread_self(), loop_thread), "async-done-thread", "ASYNC_DONE ran outside of the loop thread");
    MON_CHECK(O[slot] == o && state[slot] == BUSY, "async-stale-done", "ASYNC_DONE on object %d without a call in progress", slot);
    MON_CHECK(__atomic_load_n(&calls[slot], __ATOMIC_RELAXED) == 1, "async-count", "ASYNC_DONE after %u runs of ASYNC_CALL", __atomic_load_n(&calls[slot], __ATOMIC_RELAXED));
    MON_CHECK(__atomic_load_n(&inside[slot], __ATOMIC_RELAXED) == 0, "async-early-done", "ASYNC_DONE while ASYNC_CALL is running");
    for (i = 0; i < WORDS; i++) MON_CHECK(o->words[i] == word(o->call, i), "async-visibility", "ASYNC_DONE of call %llu does not see word %d", (unsigned long long) o->call, i);
    state[slot] = IDLE; dones[slot]++;
    mon_count("dones", 1); mon_count("eval", 1);
    H = mon_mix(H, slot * 100 + 99);
    if (acting && rng_p(R, 40)) { if (rng_p(R, 50)) { start(o); } else if (rng_p(R, 50)) destroy(slot); else act(1); }
    break;
  default: mon_fail("async-event", "event type %d", e->type);
  }
}
static void finish(void)
{
  int i, left_over = 0;
  uint64_t t0 = mon_mono_ns();
  acting = 0;
  while (1)
  {
    left_over = 0;
    for (i = 0; i < N; i++) if (O[i] && state[i] == BUSY) { left_over++; if (O[i]->kind == K_GATED) sem_post(&gate[i]); }
    if (!left_over) break;
    if (!mon_step()) poll((struct pollfd[]) {{.fd = mon_wait_epfd, .events = POLLIN}}, 1, 20);
    if (mon_mono_ns() - t0 > 20000000000ull)
      for (i = 0; i < N; i++) if (O[i] && state[i] == BUSY)
        mon_fail("async-done-missing", "call %llu on object %d (kind %d): CALL ran %u times, DONE does not come", (unsigned long long) O[i]->call, i, O[i]->kind, __atomic_load_n(&calls[i], __ATOMIC_RELAXED));
  }
  acting = 1;
  mon_count("settled", 1);
}
static void init(void) { int i; for (i = 0; i < MO; i++) sem_init(&gate[i], 0, 0); if (pipe2(pipefd, O_NONBLOCK)) mon_harness_error("pipe"); mon_own(pipefd[0]); mon_own(pipefd[1]); }
static void scn_calls(rng *r)
{
  int i, step, steps = 20 + rng_n(r, 60);
  R = r; H = MON_H0; N = 1 + rng_n(r, rng_p(r, 20) ? MO : 5); acting = 1; loop_thread = pthread_self(); __atomic_store_n(&max_inside, 0, __ATOMIC_RELAXED);
  reactor_construct();
  for (i = 0; i < N; i++) create(i);
  for (step = 0; step < steps; step++)
  {
    if (rng_p(r, 60)) act(0);
    if (rng_p(r, 10)) usleep(rng_n(r, 300));
    if (rng_p(r, 60)) mon_step();
    if (rng_p(r, 3)) finish();
  }
  if (rng_p(r, 60)) finish();
  if (mon_case < 2) mon_sample("%d objects, %llu calls so far, up to %u at the same time", N, (unsigned long long) serial, __atomic_load_n(&max_inside, __ATOMIC_RELAXED));
  if (__atomic_load_n(&max_inside, __ATOMIC_RELAXED) > 1) mon_count("parallel_cases", 1);
  for (i = 0; i < N; i++) if (O[i]) destroy(i);
  MON_CHECK(!mon_step(), "async-late", "something was dispatched after all objects were destroyed");
  reactor_destruct();
  mon_distinct(H);
}
/* CALL runs while the loop does: two calls and the loop need one another to get on */
static sem_t ping, pong;
static int got_done;
static void conc_cb(reactor_event *e)
{
  struct timespec ts;
  if (e->type == ASYNC_CALL)
  {
    clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 20;
    sem_post(&ping);
    if (sem_timedwait(&pong, &ts) == -1) mon_fail("async-not-concurrent", "the loop does not run while ASYNC_CALL runs");
  }
  else got_done++;
}
static void scn_concurrent(rng *r)
{
  async a[4]; int i, n = 1 + rng_n(r, 4); struct timespec ts;
  sem_init(&ping, 0, 0); sem_init(&pong, 0, 0); got_done = 0;
  reactor_construct();
  for (i = 0; i < n; i++) { async_construct(&a[i], conc_cb, NULL); async_call(&a[i]); }
  clock_gettime(CLOCK_REALTIME, &ts); ts.tv_sec += 40;
  for (i = 0; i < n; i++) { mon_step(); if (sem_timedwait(&ping, &ts) == -1) mon_fail("async-not-concurrent", "only %d of %d calls run at the same time", i, n); }
  MON_CHECK(!got_done, "async-early-done", "ASYNC_DONE before ASYNC_CALL returned");
  for (i = 0; i < n; i++) { mon_step(); sem_post(&pong); }
  mon_wait_mode = WAIT_REAL; reactor_loop_once(); mon_wait_mode = WAIT_STEP;
  for (i = 0; i < 2000 && got_done < n; i++) if (!mon_step()) poll((struct pollfd[]) {{.fd = mon_wait_epfd, .events = POLLIN}}, 1, 10);
  MON_CHECK(got_done == n, "async-done-missing", "%d of %d calls are done", got_done, n);
  for (i = 0; i < n; i++) async_destruct(&a[i]);
  reactor_destruct();
  mon_count("rendezvous", n); mon_count("eval", n); mon_distinct(mon_mix(n, 77));
}

/* ---- resolver ---- */
typedef struct { resolver *r; int slot, busy, done, status; char key[200]; struct addrinfo *ref; int ref_ok; char got[2000]; char want[2000]; } look;
#define ML 12
static look L[ML];
static int NL;
static void dump(char *b, size_t n, struct addrinfo *ai)
{
  size_t k = 0; int first = 1;
  b[0] = 0;
  for (; ai && k + 300 < n; ai = ai->ai_next, first = 0)
  {
    char h[80] = "?", s[20] = "?";
    getnameinfo(ai->ai_addr, ai->ai_addrlen, h, sizeof h, s, sizeof s, NI_NUMERICHOST | NI_NUMERICSERV | (ai->ai_socktype == SOCK_DGRAM ? NI_DGRAM : 0));
    k += snprintf(b + k, n - k, "%d/%d/%d/%x %s#%s %s;", ai->ai_family, ai->ai_socktype, ai->ai_protocol, ai->ai_flags, h, s, first && ai->ai_canonname ? ai->ai_canonname : "");
  }
}
static void lookup(look *);
static int look_acting;
static void look_cb(reactor_event *e)
{
  look *l = e->state;
  struct addrinfo *ai = (struct addrinfo *) e->data;
  MON_CHECK(pthread_equal(pthread_self(), loop_thread), "resolver-thread", "resolver callback outside of the loop thread");
  MON_CHECK(l->busy, "resolver-stale", "lookup %d reported although none is in progress: %s", l->slot, l->key);
  MON_CHECK(e->type == RESOLVER_SUCCESS || e->type == RESOLVER_FAILURE, "resolver-event", "event type %d", e->type);
  l->busy = 0;
  if (e->type == RESOLVER_FAILURE) { MON_CHECK(!ai, "resolver-failure-data", "a failure carries addresses"); snprintf(l->got, sizeof l->got, "failure"); }
  else { MON_CHECK(ai != NULL, "resolver-success-empty", "a success carries no address: %s", l->key); dump(l->got, sizeof l->got, ai); mon_count("successes", 1); }
  MON_CHECK(!strcmp(l->got, l->want), "resolver-answer", "%s: got '%.300s' instead of '%.300s'", l->key, l->got, l->want);
  mon_count("answers", 1); mon_count("eval", 1);
  H = mon_mix(H, mon_hash(1, l->got, strlen(l->got)));
  mon_distinct(mon_hash(7, l->key, strlen(l->key)));
  if (look_acting && rng_p(R, 35))
  {
    resolver *q = l->r;
    mon_count("acts_in_callback", 1);
    switch (rng_n(R, 4))
    {
    case 0: case 1: lookup(l); break;
    case 2: resolver_cancel(l->r); break;
    default: l->r = NULL; resolver_destruct(q); memset(q, 0xee, sizeof *q); free(q); break;
    }
  }
}
static void lookup(look *l)
{
  static const char *hosts[] = {"127.0.0.1", "localhost", "::1", "vm", "runsc", "10.1.2.3", "fe80::1", "0.0.0.0", "::", "1.2.3", "0x7f.1", "300.1.1.1", "no such host", "nosuch.invalid", "", "ff02::1", "::ffff:1.2.3.4", "192.0.2.1"};
  static const char *servs[] = {"80", "http", "https", "0", "65535", "65536", "-1", "nosuchservice", "domain", "", "12345", "ftp", "ntp"};
  static const int fams[] = {AF_UNSPEC, AF_INET, AF_INET6, AF_UNIX}, types[] = {0, SOCK_STREAM, SOCK_DGRAM, SOCK_RAW}, fl[] = {0, AI_PASSIVE, AI_NUMERICHOST, AI_NUMERICSERV, AI_PASSIVE | AI_NUMERICHOST, AI_CANONNAME, AI_ALL | AI_V4MAPPED, 0x40000000};
  char *h = rng_p(R, 15) ? NULL : strdup(hosts[rng_p(R, 50) ? rng_n(R, 6) : rng_n(R, 18)]), *s = rng_p(R, 20) ? NULL : strdup(servs[rng_p(R, 50) ? rng_n(R, 3) : rng_n(R, 13)]);
  /* numbers with zeros in front, as many as one likes */
  if (rng_p(R, 6)) { size_t z = rng_p(R, 50) ? rng_n(R, 300) : rng_n(R, 3000); free(h); h = malloc(z + 20); memset(h, '0', z); sprintf(h + z, "%s", (const char *[]) {"177.0.0.1", "12.2.3", "377.1"}[rng_n(R, 3)]); mon_count("long_names", 1); }
  if (rng_p(R, 4)) { size_t z = rng_p(R, 50) ? rng_n(R, 60) : rng_n(R, 3000); free(s); s = malloc(z + 20); memset(s, '0', z); sprintf(s + z, "%d", 1 + rng_n(R, 60000)); }
  int f = fams[rng_p(R, 90) ? rng_n(R, 3) : 3], t = types[rng_p(R, 95) ? rng_n(R, 3) : 3], p, g = fl[rng_p(R, 40) ? 0 : rng_p(R, 97) ? rng_n(R, 7) : 7];
  struct addrinfo hints, *ref = NULL;
  p = rng_p(R, 50) ? 0 : t == SOCK_STREAM ? IPPROTO_TCP : t == SOCK_DGRAM ? IPPROTO_UDP : (int []) {IPPROTO_TCP, IPPROTO_UDP, 0, IPPROTO_ICMP}[rng_n(R, 4)];
  if (rng_p(R, 3)) p = (int []) {IPPROTO_TCP, IPPROTO_UDP, 99}[rng_n(R, 3)];
  if (l->busy) mon_count("replaced", 1);
  snprintf(l->key, sizeof l->key, "host %s service %s family %d type %d protocol %d flags %x", h ? h : "-", s ? s : "-", f, t, p, g);
  hints = (struct addrinfo) {.ai_family = f, .ai_socktype = t, .ai_protocol = p, .ai_flags = g};
  if (getaddrinfo(h, s, &hints, &ref) == 0) { dump(l->want, sizeof l->want, ref); freeaddrinfo(ref); } else snprintf(l->want, sizeof l->want, "failure");
  mon_trace("lookup %d %s", l->slot, l->key);
  l->busy = 1;
  mon_count("lookups", 1);
  resolver_lookup(l->r, h, s, f, t, p, g);
  /* the caller's strings are its own again */
  if (h) { memset(h, 'q', strlen(h)); free(h); }
  if (s) { memset(s, '9', strlen(s)); free(s); }
}
static void look_wait(void)
{
  uint64_t t0 = mon_mono_ns(); int i, left_over, a = look_acting;
  look_acting = 0;
  do
  {
    left_over = 0;
    for (i = 0; i < NL; i++) left_over += L[i].r && L[i].busy;
    if (!mon_step() && left_over) poll((struct pollfd[]) {{.fd = mon_wait_epfd, .events = POLLIN}}, 1, 20);
    if (mon_mono_ns() - t0 > 20000000000ull) for (i = 0; i < NL; i++) if (L[i].r && L[i].busy) mon_fail("resolver-missing", "lookup %d is never answered: %s", i, L[i].key);
  } while (left_over);
  look_acting = a;
}
static void scn_resolve(rng *r)
{
  int i, step, steps = 10 + rng_n(r, 30), k;
  R = r; H = MON_H0; NL = 1 + rng_n(r, ML); loop_thread = pthread_self();
  memset(L, 0, sizeof L); look_acting = 1;
  reactor_construct();
  for (i = 0; i < NL; i++) { L[i].slot = i; L[i].r = malloc(sizeof(resolver)); resolver_construct(L[i].r, look_cb, &L[i]); }
  for (step = 0; step < steps; step++)
  {
    look *l = &L[rng_n(r, NL)];
    k = rng_n(r, 100);
    if (!l->r) { l->r = malloc(sizeof(resolver)); resolver_construct(l->r, look_cb, l); }
    if (k < 55) lookup(l);
    else if (k < 65) { l->busy = 0; resolver_cancel(l->r); mon_count("cancels", 1); }
    else if (k < 75) { resolver *q = l->r; if (l->busy) mon_count("destroyed_busy", 1); l->busy = 0; l->r = NULL; resolver_destruct(q); memset(q, 0xee, sizeof *q); free(q); }
    else if (k < 78) look_wait();
    if (rng_p(r, 60)) mon_step();
    if (rng_p(r, 10)) usleep(rng_n(r, 200));
  }
  if (rng_p(r, 70)) look_wait();
  for (i = 0; i < NL; i++) if (L[i].r) { L[i].busy = 0; resolver_destruct(L[i].r); free(L[i].r); }
  MON_CHECK(!mon_step(), "resolver-late", "something was dispatched after all lookups were destroyed");
  reactor_destruct();
}
/* ---- lookups over a name server of our own, which answers late: cancelled in the middle of the query ---- */
static int dns_fd = -1; static struct sockaddr_in dns_sa;
static pthread_t dns_thread;
static unsigned dns_queries;
static void *dns_main(void *arg)
{
  (void) arg;
  while (1)
  {
    uint8_t q[600], a[700]; struct sockaddr_in from; socklen_t fl = sizeof from; ssize_t n; size_t e; unsigned us; int type;
    n = recvfrom(dns_fd, q, sizeof q, 0, (struct sockaddr *) &from, &fl);
    if (n <= 12) continue;
    __atomic_add_fetch(&dns_queries, 1, __ATOMIC_RELAXED);
    for (e = 12; e < (size_t) n && q[e]; e += q[e] + 1);
    e++; if (e + 4 > (size_t) n) continue;
    type = q[e + 1];
    us = q[13] >= '0' && q[13] <= '9' ? (q[13] - '0') * 700 : 0;
    usleep(us);
    memcpy(a, q, e + 4); a[2] = 0x84; a[3] = 0x80; memset(a + 6, 0, 6);
    e += 4;
    if (type == 1 && q[12] > 1 && q[14] != 'x')
    {
      static const uint8_t rr[] = {0xc0, 12, 0, 1, 0, 1, 0, 0, 0, 9, 0, 4, 198, 51, 100, 7};
      a[7] = 1; memcpy(a + e, rr, sizeof rr); e += sizeof rr;
    }
    else if (q[14] == 'x') a[3] = 0x83;
    sendto(dns_fd, a, e, 0, (struct sockaddr *) &from, fl);
  }
  return NULL;
}
static void init_dns(void)
{
  socklen_t l = sizeof dns_sa;
  dns_sa = (struct sockaddr_in) {.sin_family = AF_INET, .sin_addr.s_addr = htonl(INADDR_LOOPBACK)};
  dns_fd = __real_socket(AF_INET, SOCK_DGRAM, 0);
  if (dns_fd == -1 || __real_bind(dns_fd, (struct sockaddr *) &dns_sa, l) || getsockname(dns_fd, (struct sockaddr *) &dns_sa, &l)) mon_harness_error("name server");
  mon_own(dns_fd);
  if (pthread_create(&dns_thread, NULL, dns_main, NULL)) mon_harness_error("thread");
}
extern int __real_getaddrinfo(const char *, const char *, const struct addrinfo *, struct addrinfo **);
int __wrap_getaddrinfo(const char *h, const char *s, const struct addrinfo *hints, struct addrinfo **res)
{
  if (dns_fd != -1)
  {
    res_init();
    _res.nscount = 1; _res.nsaddr_list[0] = dns_sa; _res.retrans = 2; _res.retry = 3; _res.options |= RES_INIT; _res.options &= ~(RES_DNSRCH | RES_DEFNAMES);
  }
  return __real_getaddrinfo(h, s, hints, res);
}
static int dns_done, dns_type; static char dns_got[2000];
static void dns_cb(reactor_event *e) { dns_done++; dns_type = e->type; if (e->data) dump(dns_got, sizeof dns_got, (struct addrinfo *) e->data); }
static void scn_dns(rng *r)
{
  resolver q; char name[60]; int i, k, cancel_it = rng_p(r, 60), x = rng_p(r, 20);
  uint64_t t0;
  dns_done = 0;
  reactor_construct();
  resolver_construct(&q, dns_cb, NULL);
  for (k = 0; k < 3; k++)
  {
    snprintf(name, sizeof name, "%c%c%d.test.", '0' + (int) rng_n(r, 10), x ? 'x' : 'a', (int) mon_case);
    dns_done = 0; dns_got[0] = 0;
    resolver_lookup(&q, name, "80", AF_INET, SOCK_STREAM, 0, 0);
    mon_count("dns_lookups", 1); mon_count("eval", 1); mon_distinct(mon_hash(3, name, strlen(name)));
    if (cancel_it)
    {
      usleep(rng_n(r, 7000));
      if (!dns_done) mon_count("dns_cancelled", 1);
      if (rng_p(r, 50)) resolver_cancel(&q);
      else if (rng_p(r, 50)) { resolver_destruct(&q); resolver_construct(&q, dns_cb, NULL); }
      if (rng_p(r, 50)) { dns_done = 0; resolver_cancel(&q); mon_settle(10); MON_CHECK(!dns_done, "resolver-stale", "a cancelled lookup reported"); }
    }
    else
    {
      t0 = mon_mono_ns();
      while (!dns_done) { if (!mon_step()) poll((struct pollfd[]) {{.fd = mon_wait_epfd, .events = POLLIN}}, 1, 20); if (mon_mono_ns() - t0 > 20000000000ull) mon_fail("resolver-missing", "the lookup of %s is never answered", name); }
      MON_CHECK(dns_type == (x ? RESOLVER_FAILURE : RESOLVER_SUCCESS), "resolver-answer", "the lookup of %s ends with %d", name, dns_type);
      if (!x) MON_CHECK(strstr(dns_got, "198.51.100.7#80"), "resolver-answer", "the lookup of %s yields %s", name, dns_got);
    }
  }
  resolver_destruct(&q);
  i = mon_settle(10);
  (void) i;
  reactor_destruct();
}
const mon_scenario mon_scenarios[] = {
  {"calls", scn_calls, MON_FDS | MON_MEM, init}, {"concurrent", scn_concurrent, MON_FDS, init}, {"resolve", scn_resolve, MON_FDS | MON_MEM, NULL}, {"dns", scn_dns, MON_FDS | MON_MEM, init_dns}, {0} };
