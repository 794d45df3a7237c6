/* Monitors for the conservation of descriptors and memory (C28). */
#include "mon.h"
#include <dirent.h>

enum { K_DESC, K_STREAM, K_SERVER, K_EVENT, K_TIMER, K_NOTIFY, K_ASYNC, K_RESOLVER, K_N };
#define MS 14
#define MC 24
typedef struct
{
  int slot, kind, made, open, fd, peer, closing, tls, in_cb, life; uint64_t gen;
  union { descriptor d; stream s; server v; event e; timer t; notify n; async a; resolver r; } *o;
  server_request *held[8]; int nheld;
  char path[300];
} obj;
typedef struct { int fd; int server; } client;
static obj O[MS]; static int N;
static client C[MC];
static rng *R; static uint64_t H, uid;
static int depth, acting;
static SSL_CTX *ctx_server, *ctx_client;
static const char *certs;
/* descriptors that were given to the library: who has them */
static int8_t given[4096];                          /* 0 no, 1 to an object that keeps it until told, 2 to a server, which may close it when it likes */
static int16_t owner[4096];
static uint64_t closes;
static int accept_fail;

static int accept_hook(int fd, int *ret) { (void) fd; if (accept_fail && rng_p(R, accept_fail)) { static const int e[] = {ECONNABORTED, EAGAIN, EPROTO, EPERM}; *ret = -1; errno = e[rng_n(R, 4)]; mon_count("accept_failures", 1); return 1; } return 0; }
static void closed(int fd)
{
  if (fd < 0 || fd >= 4096) return;
  closes++;
  if (given[fd] == 1 && !O[owner[fd]].closing) mon_fail("closed-unasked", "descriptor %d of object %d (kind %d) is closed although nobody closed the object", fd, owner[fd], O[owner[fd]].kind);
  given[fd] = 0;
}
static void give(int fd, int slot, int how) { if (fd < 0 || fd >= 4096) mon_harness_error("descriptor %d", fd); if (given[fd] == 1) mon_harness_error("descriptor %d is given twice", fd); given[fd] = how; owner[fd] = slot; mon_count("given", 1); }
static int is_open(int fd) { return fcntl(fd, F_GETFD) != -1; }
static void check_kept(void)
{
  int i;
  for (i = 0; i < N; i++) if (O[i].made && O[i].open && O[i].fd >= 0) { MON_CHECK(is_open(O[i].fd), "closed-unasked", "descriptor %d of object %d (kind %d) is gone", O[i].fd, i, O[i].kind); mon_count("eval", 1); }
}
static void check_closed(int fd, obj *x) { MON_CHECK(given[fd] == 0 || owner[fd] != x->slot, "descriptor-kept", "descriptor %d of object %d (kind %d) is still open after the object was closed", fd, x->slot, x->kind); mon_count("eval", 1); }
static void check_cloexec(void)
{
  DIR *d = opendir("/proc/self/fd"); struct dirent *de; char l[100]; ssize_t n; int fd;
  while (d && (de = readdir(d)))
  {
    if (de->d_name[0] == '.') continue;
    n = readlinkat(dirfd(d), de->d_name, l, sizeof l - 1);
    if (n <= 0) continue;
    l[n] = 0;
    if (!strstr(l, "eventpoll") && !strstr(l, "eventfd") && !strstr(l, "timerfd") && !strstr(l, "inotify")) continue;
    fd = atoi(de->d_name);
    MON_CHECK(fcntl(fd, F_GETFD) & FD_CLOEXEC, "inherited", "descriptor %d (%s) is inherited by executed programs", fd, l);
    mon_count("cloexec", 1); mon_count("eval", 1);
  }
  if (d) closedir(d);
}
static void act(void);
static void destroy(obj *);
static void close_obj(obj *);
static void open_obj(obj *);
static void maybe_act(obj *x) { if (acting && depth < 4 && rng_p(R, 25)) { depth++; x->in_cb++; mon_count("acts_in_callback", 1); if (rng_p(R, 70)) act(); else if (rng_p(R, 50)) destroy(x); else { close_obj(x); if (x->made && rng_p(R, 60)) open_obj(x); } depth--; x->in_cb--; } }
static void drop_client(int i) { if (C[i].fd != -1) { mon_close(C[i].fd); C[i].fd = -1; } }
static int tls_peer_bytes(char *b) { /* the start of a client hello, or noise */ int n = 1 + rng_n(R, 40); rng_bytes(R, b, n); b[0] = 22; if (rng_p(R, 50)) { b[1] = 3; b[2] = 1; b[3] = 0; b[4] = 100; } return n; }
static void peer_drop(obj *x) { if (x->peer != -1) { if (rng_p(R, 20)) { struct linger l = {1, 0}; setsockopt(x->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); } mon_close(x->peer); x->peer = -1; } }
static void close_obj(obj *x);
static void on_descriptor(reactor_event *e)
{
  obj *x = e->state; char b[300]; int g = x->gen;
  mon_count("callbacks", 1);
  if (e->type == DESCRIPTOR_READ) while (__real_read(descriptor_fd(&x->o->d), b, sizeof b) > 0);
  if (e->type == DESCRIPTOR_CLOSE && rng_p(R, 70)) { close_obj(x); return; }
  if (e->type == DESCRIPTOR_WRITE && rng_p(R, 70)) descriptor_mask(&x->o->d, DESCRIPTOR_READ);
  maybe_act(x); (void) g;
}
static void on_stream(reactor_event *e)
{
  obj *x = e->state; data d;
  mon_count("callbacks", 1);
  if (e->type == STREAM_READ) { d = stream_read(&x->o->s); stream_consume(&x->o->s, rng_n(R, data_size(d) + 1)); }
  if (e->type == STREAM_CLOSE && rng_p(R, 80)) { close_obj(x); return; }
  maybe_act(x);
}
static void on_server(reactor_event *e)
{
  obj *x = e->state; server_request *q = (server_request *) e->data;
  mon_count("requests", 1);
  switch (rng_n(R, 5))
  {
  case 0: case 1: server_ok(q, data_string("text/plain"), data_string("Hello")); break;
  case 2: if (x->nheld < 8) x->held[x->nheld++] = q; else server_not_found(q); break;
  case 3: server_not_found(q); break;
  case 4: server_bad_request(q); break;
  }
  if (rng_p(R, 30)) maybe_act(x);
}
static void on_event(reactor_event *e) { mon_count("callbacks", 1); maybe_act(e->state); }
static void on_async(reactor_event *e) { if (e->type == ASYNC_CALL) { if (mon_real_ns() & 1) usleep(100); return; } mon_count("callbacks", 1); ((obj *) e->state)->open = 0; maybe_act(e->state); }
static void on_resolver(reactor_event *e) { mon_count("callbacks", 1); ((obj *) e->state)->open = 0; maybe_act(e->state); }
static void make(obj *x)
{
  x->o = malloc(sizeof *x->o); memset(x->o, 0xcc, sizeof *x->o);
  x->made = 1; x->open = 0; x->fd = x->peer = -1; x->closing = 0; x->gen++; x->nheld = 0;
  mon_count("objects", 1);
  switch (x->kind)
  {
  case K_DESC: descriptor_construct(&x->o->d, on_descriptor, x); break;
  case K_STREAM: stream_construct(&x->o->s, on_stream, x); break;
  case K_SERVER: server_construct(&x->o->v, on_server, x); break;
  case K_EVENT: event_construct(&x->o->e, on_event, x); break;
  case K_TIMER: timer_construct(&x->o->t, on_event, x); break;
  case K_NOTIFY: notify_construct(&x->o->n, on_event, x); break;
  case K_ASYNC: async_construct(&x->o->a, on_async, x); break;
  case K_RESOLVER: resolver_construct(&x->o->r, on_resolver, x); break;
  }
}
static void answer_held(obj *x, int k)
{
  server_request *q = x->held[k];
  x->held[k] = x->held[--x->nheld];
  x->in_cb++;
  switch (rng_n(R, 4))
  {
  case 0: server_ok(q, data_string("text/plain"), data_string("later")); break;
  case 1: server_close(q); server_release(q); break;
  case 2: server_release(q); break;
  case 3: server_bad_request(q); break;
  }
  x->in_cb--;
}
static void shut_server(obj *x) { while (x->nheld) answer_held(x, 0); }
/* what the loop delivers while a server runs may not free it: it is only closed and destroyed outside of its own callbacks */
static void close_obj(obj *x)
{
  int fd = x->fd;
  if (!x->made) return;
  if (x->kind == K_SERVER) { if (x->in_cb) return; shut_server(x); }
  mon_trace("close %d kind %d fd %d", x->slot, x->kind, fd);
  H = mon_mix(H, x->kind * 10 + 1);
  x->closing = 1; x->open = 0; x->fd = -1;
  switch (x->kind)
  {
  case K_DESC: descriptor_close(&x->o->d); break;
  case K_STREAM: stream_close(&x->o->s); break;
  case K_SERVER: server_shutdown(&x->o->v); break;
  case K_EVENT: event_close(&x->o->e); break;
  case K_TIMER: timer_clear(&x->o->t); break;
  case K_NOTIFY: notify_clear(&x->o->n); break;
  case K_ASYNC: async_cancel(&x->o->a); break;
  case K_RESOLVER: resolver_cancel(&x->o->r); break;
  }
  x->closing = 0;
  if (fd >= 0) check_closed(fd, x);
  mon_count("closes", 1);
}
static void destroy(obj *x)
{
  void *o = x->o; int fd = x->fd;
  if (!x->made || (x->kind == K_SERVER && x->in_cb)) return;
  if (x->kind == K_SERVER) shut_server(x);
  mon_trace("destroy %d kind %d fd %d%s", x->slot, x->kind, fd, x->in_cb ? " in its callback" : "");
  H = mon_mix(H, x->kind * 10 + 2);
  if (x->in_cb) mon_count("destroyed_in_callback", 1);
  if (x->open) mon_count("destroyed_open", 1);
  x->closing = 1; x->made = x->open = 0; x->fd = -1;
  switch (x->kind)
  {
  case K_DESC: descriptor_destruct(&x->o->d); break;
  case K_STREAM: stream_destruct(&x->o->s); break;
  case K_SERVER: server_destruct(&x->o->v); break;
  case K_EVENT: event_destruct(&x->o->e); break;
  case K_TIMER: timer_destruct(&x->o->t); break;
  case K_NOTIFY: notify_destruct(&x->o->n); break;
  case K_ASYNC: async_destruct(&x->o->a); break;
  case K_RESOLVER: resolver_destruct(&x->o->r); break;
  }
  x->closing = 0; x->o = NULL;
  free(o);
  if (fd >= 0) check_closed(fd, x);
  peer_drop(x);
}
static void pair_for(obj *x, int sv[2])
{
  switch (x->kind == K_STREAM && x->tls ? rng_n(R, 2) : rng_n(R, 4))
  {
  case 0: mon_socketpair(sv, 1); break;
  case 1: mon_tcp_pair(sv, 1); break;
  default: if (pipe2(sv, O_NONBLOCK | O_CLOEXEC)) mon_harness_error("pipe"); if (rng_p(R, 50)) { int t = sv[0]; sv[0] = sv[1]; sv[1] = t; } mon_own(sv[1]); break;
  }
}
static void open_obj(obj *x)
{
  int sv[2], t;
  mon_trace("open %d kind %d", x->slot, x->kind);
  H = mon_mix(H, x->kind * 10 + 3);
  switch (x->kind)
  {
  case K_DESC: case K_STREAM:
    if (x->open) return;
    peer_drop(x);
    x->tls = x->kind == K_STREAM && rng_p(R, 40);
    pair_for(x, sv);
    x->fd = sv[0]; x->peer = sv[1]; give(sv[0], x->slot, 1);
    x->open = 1;
    if (x->kind == K_DESC) descriptor_open(&x->o->d, sv[0], rng_p(R, 80) ? DESCRIPTOR_READ | (rng_p(R, 30) ? DESCRIPTOR_WRITE : 0) : DESCRIPTOR_WRITE);
    else stream_open(&x->o->s, sv[0], STREAM_READ, x->tls ? rng_p(R, 50) ? ctx_server : ctx_client : NULL);
    break;
  case K_SERVER:
    if (x->open) return;
    if (rng_p(R, 50))
    {
      sv[0] = net_socket(net_resolve("127.0.0.1", "0", AF_INET, SOCK_STREAM, AI_PASSIVE | AI_NUMERICHOST));
      if (sv[0] == -1) mon_fail("net-refused", "no passive socket on the loopback interface");
      x->path[0] = 0;
    }
    else
    {
      struct sockaddr_un sa = {.sun_family = AF_UNIX};
      sv[0] = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
      if (sv[0] == -1 || __real_bind(sv[0], (struct sockaddr *) &sa, sizeof(sa_family_t)) || __real_listen(sv[0], 20)) mon_harness_error("listen");
    }
    x->fd = sv[0]; give(sv[0], x->slot, 1); x->open = 1;
    x->tls = rng_p(R, 30);
    server_open(&x->o->v, sv[0], x->tls ? ctx_server : NULL);
    break;
  case K_EVENT: if (x->open) return; event_open(&x->o->e); x->open = 1; break;
  case K_TIMER: timer_set(&x->o->t, rng_n(R, 3) * 100000, rng_p(R, 50) ? 0 : 200000); x->open = 1; break;
  case K_NOTIFY: if (rng_p(R, 70)) return; /* dear */ t = notify_watch(&x->o->n, rng_p(R, 80) ? (char *) mon_dir : "/nosuch/path", IN_CREATE | IN_DELETE | IN_MODIFY); (void) t; x->open = 1; break;
  case K_ASYNC: if (x->open) return; x->open = 1; async_call(&x->o->a); break;
  case K_RESOLVER: x->open = 1; resolver_lookup(&x->o->r, rng_p(R, 70) ? "127.0.0.1" : "not numeric", rng_p(R, 50) ? "80" : NULL, AF_UNSPEC, SOCK_STREAM, 0, AI_NUMERICHOST | (rng_p(R, 10) ? 0x40000000 : 0)); break;
  }
}
static void use(obj *x)
{
  char b[5000]; int n, i;
  switch (x->kind)
  {
  case K_DESC: if (x->open) descriptor_mask(&x->o->d, 1 + rng_n(R, 3)); break;
  case K_STREAM:
    n = rng_size(R, sizeof b); memset(b, 'x', n);
    if (x->open || rng_p(R, 50)) { if (rng_p(R, 30)) memset(stream_allocate(&x->o->s, n), 'y', n); else stream_write(&x->o->s, data_construct(b, n)); }
    if (rng_p(R, 60)) stream_flush(&x->o->s);
    if (x->open && rng_p(R, 30)) stream_notify(&x->o->s);
    break;
  case K_SERVER:
    if (x->nheld && rng_p(R, 60)) { answer_held(x, rng_n(R, x->nheld)); return; }
    if (!x->open || x->in_cb) return;
    for (i = 0; i < MC && C[i].fd != -1; i++);
    if (i == MC) { drop_client(rng_n(R, MC)); return; }
    if (rng_p(R, 50))
    {
      int sv[2]; mon_socketpair(sv, 1); C[i] = (client) {sv[1], x->slot}; give(sv[0], x->slot, 2); server_accept(&x->o->v, sv[0]); mon_count("connections", 1);
    }
    else
    {
      struct sockaddr_storage ss; socklen_t l = sizeof ss; int fd;
      getsockname(x->fd, (struct sockaddr *) &ss, &l);
      fd = __real_socket(ss.ss_family, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0);
      if (__real_connect(fd, (struct sockaddr *) &ss, l) == -1 && errno != EINPROGRESS) { __real_close(fd); return; }
      mon_own(fd); C[i] = (client) {fd, x->slot}; mon_count("connections", 1);
    }
    break;
  case K_EVENT: if (x->open) event_signal(&x->o->e); break;
  case K_TIMER: timer_set(&x->o->t, rng_n(R, 1000), 0); x->open = 1; break;
  case K_NOTIFY: if (x->open) { snprintf(b, sizeof b, "%s/n%d", mon_dir, (int) rng_n(R, 4)); i = open(b, O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if (i != -1) { if (__real_write(i, "x", 1)) {} __real_close(i); } if (rng_p(R, 40)) unlink(b); } break;
  default: open_obj(x); break;
  }
}
static void peer(obj *x)
{
  char b[6000]; int n;
  if (x->peer == -1) return;
  switch (rng_n(R, 5))
  {
  case 0: n = x->tls ? tls_peer_bytes(b) : (int) rng_size(R, sizeof b); if (!x->tls) memset(b, 'p', n); if (__real_write(x->peer, b, n) == -1) {} break;
  case 1: case 2: while (__real_read(x->peer, b, sizeof b) > 0 && rng_p(R, 70)); break;
  case 3: if (rng_p(R, 50)) shutdown(x->peer, SHUT_WR); break;
  case 4: peer_drop(x); break;
  }
}
static void client_act(void)
{
  char b[3000]; int i = rng_n(R, MC), n;
  if (C[i].fd == -1) return;
  switch (rng_n(R, 6))
  {
  case 0: case 1: n = snprintf(b, sizeof b, "GET / HTTP/1.1\r\nHost: x\r\n\r\n"); if (rng_p(R, 40)) n = rng_n(R, n); if (__real_send(C[i].fd, b, n, MSG_NOSIGNAL) == -1) {} break;
  case 2: n = tls_peer_bytes(b); if (__real_send(C[i].fd, b, n, MSG_NOSIGNAL) == -1) {} break;
  case 3: while (__real_read(C[i].fd, b, sizeof b) > 0); break;
  case 4: if (rng_p(R, 50)) { struct linger l = {1, 0}; setsockopt(C[i].fd, SOL_SOCKET, SO_LINGER, &l, sizeof l); } drop_client(i); break;
  case 5: n = snprintf(b, sizeof b, "GET /%0*d HTTP/1.1\r\n\r\nGET / HTTP/1.1\r\n\r\n", (int) rng_n(R, 2000), 1); if (__real_send(C[i].fd, b, n, MSG_NOSIGNAL) == -1) {} break;
  }
}
static void act(void)
{
  obj *x = &O[rng_n(R, N)]; int k = rng_n(R, 100);
  if (!x->made) { x->kind = rng_n(R, K_N); if (rng_p(R, 25)) x->kind = rng_p(R, 50) ? K_STREAM : K_SERVER; make(x); open_obj(x); return; }
  if (k < 20) open_obj(x);
  else if (k < 50) use(x);
  else if (k < 65) peer(x);
  else if (k < 80) client_act();
  else if (k < 90) close_obj(x);
  else destroy(x);
}
static void init(void)
{
  char c[400], k[400];
  certs = getenv("VERIF_CERTS"); if (!certs) mon_harness_error("VERIF_CERTS");
  snprintf(c, sizeof c, "%s/ec-cert.pem", certs); snprintf(k, sizeof k, "%s/ec-key.pem", certs);
  ctx_server = net_ssl_server_context(c, k); ctx_client = SSL_CTX_new(TLS_client_method());
  if (!ctx_server) mon_harness_error("context");
  signal(SIGPIPE, SIG_IGN);
}
static void scn_mix(rng *r)
{
  int i, step, steps = 30 + rng_n(r, 120), lives = 1 + rng_n(r, 2); char b[500];
  R = r; H = MON_H0;
  for (; lives; lives--)
  {
    N = 1 + rng_n(r, MS); acting = 1; depth = 0; closes = 0; accept_fail = rng_p(r, 40) ? 30 : 0;
    memset(given, 0, sizeof given);
    for (i = 0; i < MS; i++) { memset(&O[i], 0, sizeof O[i]); O[i].slot = i; O[i].fd = O[i].peer = -1; }
    for (i = 0; i < MC; i++) C[i].fd = -1;
    mon_closed_hook = closed; mon_accept_hook = accept_hook;
    reactor_construct();
    for (step = 0; step < steps; step++)
    {
      act();
      if (rng_p(r, 50)) mon_step();
      if (rng_p(r, 10)) { check_kept(); if (rng_p(r, 30)) check_cloexec(); }
    }
    acting = rng_p(r, 50);
    for (i = 0; i < 30 && mon_step(); i++);
    check_kept(); check_cloexec();
    if (mon_case < 2) mon_sample("%d objects, %llu descriptors closed by the library", N, (unsigned long long) closes);
    acting = 0;
    for (i = 0; i < N; i++) { int j = rng_n(r, N); if (rng_p(r, 50)) close_obj(&O[j]); if (rng_p(r, 50)) destroy(&O[j]); }
    for (i = 0; i < N; i++) destroy(&O[i]);
    MON_CHECK(!mon_step(), "dispatch-after-destruct", "something was dispatched after all objects were destroyed");
    reactor_destruct();
    for (i = 0; i < 4096; i++) if (given[i]) mon_fail("descriptor-kept", "descriptor %d, given to object %d (kind %d), is still open after everything was destroyed", i, owner[i], O[owner[i]].kind);
    for (i = 0; i < MC; i++) drop_client(i);
    mon_closed_hook = NULL; mon_accept_hook = NULL;
    mon_count("lives", 1); mon_count("library_closes", closes);
  }
  for (i = 0; i < 4; i++) { snprintf(b, sizeof b, "%s/n%d", mon_dir, i); unlink(b); }
  ERR_clear_error();
  mon_distinct(H);
}
const mon_scenario mon_scenarios[] = { {"mix", scn_mix, MON_FDS | MON_MEM, init}, {0} };
