/* Monitors for plain streams (C06, C08): byte-exact accounting in both directions, and the life of every notification. */
#include "mon.h"
#include <linux/sockios.h>

enum { UNIX, TCP, PIPE_IN, PIPE_OUT };
enum { P_OPEN, P_HALF, P_CLOSED, P_RESET };
typedef struct
{
  stream *s;
  int slot, kind, peer, open, mask, life, peer_state, graceful, busy;
  uint8_t *want; size_t want_n, want_cap, flushed, got;       /* towards the peer */
  uint64_t sent, consumed, have;                              /* from the peer */
  int requested, closes, writes;
  uint64_t opened;
} st;
#define MS 5
static st S[MS];
static int N, acting, drama;
static rng *R;
static uint64_t H;
static size_t volume;

static uint8_t content(st *x, uint64_t at) { uint64_t v = (at >> 3) * 0x9e3779b97f4a7c15ULL + x->slot * 77 + x->life * 1315423911u; v ^= v >> 29; v *= 0xbf58476d1ce4e5b9ULL; return v >> ((at & 7) * 8); }
static void want_put(st *x, const void *d, size_t n)
{
  if (x->want_n + n > x->want_cap) { x->want_cap = (x->want_n + n) * 2; x->want = realloc(x->want, x->want_cap); }
  if (n) memcpy(x->want + x->want_n, d, n);
  x->want_n += n;
}
static void stream_cb(reactor_event *);
static void queue(st *);
static void notify_(st *);

static void st_open(st *x)
{
  int sv[2], sz, k = rng_n(R, 10), fresh = !x->s;
  if (!x->s) { x->s = malloc(sizeof *x->s); stream_construct(x->s, stream_cb, x); }
  x->kind = k < 5 ? UNIX : k < 7 ? TCP : k < 9 ? PIPE_OUT : PIPE_IN;
  x->mask = 0;
  switch (x->kind)
  {
  case UNIX: mon_socketpair(sv, 1); break;
  case TCP: mon_tcp_pair(sv, 1); break;
  case PIPE_IN: if (pipe2(sv, O_NONBLOCK)) mon_harness_error("pipe"); mon_own(sv[1]); break;
  case PIPE_OUT: { int t; if (pipe2(sv, O_NONBLOCK)) mon_harness_error("pipe"); t = sv[0]; sv[0] = sv[1]; sv[1] = t; mon_own(sv[1]); if (rng_p(R, 50)) fcntl(sv[0], F_SETPIPE_SZ, 4096); break; }
  }
  if (x->kind <= TCP && rng_p(R, 60)) { sz = x->kind == TCP ? 1 << (14 + rng_n(R, 6)) : rng_p(R, 60) ? 1 : 1 << rng_n(R, 18); setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); }
  if (x->kind == UNIX && rng_p(R, 40)) { sz = 1 << rng_n(R, 18);   /* small TCP windows wait for the kernel's probe timers */ setsockopt(sv[0], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); setsockopt(sv[1], SOL_SOCKET, SO_RCVBUF, &sz, sizeof sz); }
  if (x->kind != PIPE_OUT && rng_p(R, 85)) x->mask = STREAM_READ;
  if (x->kind == PIPE_IN) x->mask = STREAM_READ;
  x->peer = sv[1]; x->life++; x->peer_state = P_OPEN; x->graceful = 1;
  x->want_n = x->flushed = x->got = 0; x->sent = x->consumed = x->have = 0; x->requested = x->closes = x->writes = 0;
  x->opened = mon_batch;
  mon_trace("open %d fd %d kind %d mask %d life %d", x->slot, sv[0], x->kind, x->mask, x->life);
  if (rng_p(R, 30) && x->kind != PIPE_OUT) { uint8_t b[300]; size_t i, n = 1 + rng_n(R, 300); for (i = 0; i < n; i++) b[i] = content(x, i); ssize_t w = __real_write(x->peer, b, n); if (w > 0) x->sent += w; }
  /* what a new stream is given before it is opened goes out as well */
  if (fresh && x->kind != PIPE_IN && rng_p(R, 25)) { if (rng_p(R, 60)) queue(x); if (rng_p(R, 60)) notify_(x); mon_count("used_before_open", 1); }
  stream_open(x->s, sv[0], x->mask, NULL);
  x->open = 1;
  MON_CHECK(stream_read(x->s).size == 0, "stream-reopen", "a just opened stream has %zu bytes of input", stream_read(x->s).size);
  H = mon_mix(H, x->kind * 8 + x->mask);
}
static size_t in_flight(st *x)          /* bytes in the kernel towards the peer */
{
  int a = 0, b = 0;
  if (x->peer == -1) return 0;
  ioctl(x->peer, FIONREAD, &a);
  if (x->kind == TCP && x->open) ioctl(descriptor_fd(&x->s->descriptor), SIOCOUTQ, &b);
  return a + b;
}
static size_t peer_read(st *x, size_t lim)
{
  static uint8_t b[65536];
  size_t tot = 0;
  ssize_t n;
  if (x->kind == PIPE_IN || x->peer == -1) return 0;
  while (tot < lim)
  {
    n = __real_read(x->peer, b, lim - tot < sizeof b ? lim - tot : sizeof b);
    if (n <= 0) break;
    MON_CHECK(x->got + n <= x->want_n, "stream-extra", "stream %d: the peer received %zu bytes, only %zu were queued", x->slot, x->got + n, x->want_n);
    if (memcmp(b, x->want + x->got, n))
    {
      ssize_t i;
      for (i = 0; b[i] == x->want[x->got + i]; i++);
      mon_fail("stream-bytes", "stream %d: byte %zu received by the peer is not the one queued", x->slot, x->got + (size_t) i);
    }
    x->got += n; tot += n;
  }
  mon_count("bytes_out", tot); mon_count("eval", 1);
  return tot;
}
static void peer_send(st *x, size_t n)
{
  static uint8_t b[65536];
  size_t i, k;
  ssize_t w;
  if (x->peer_state != P_OPEN || x->kind == PIPE_OUT) return;
  while (n)
  {
    k = n < sizeof b ? n : sizeof b;
    for (i = 0; i < k; i++) b[i] = content(x, x->sent + i);
    w = __real_write(x->peer, b, k);
    if (w <= 0) break;
    x->sent += w; n -= w;
    if ((size_t) w < k) break;
  }
}
static void st_close(st *x, int forget)
{
  size_t limit, unread;
  int how = rng_n(R, 3);
  if (!x->open) { if (forget && x->s) { stream_destruct(x->s); memset(x->s, 0xdd, sizeof *x->s); free(x->s); x->s = NULL; } return; }
  limit = x->got + in_flight(x);
  unread = stream_read(x->s).size; (void) unread;
  mon_trace("close %d%s with %zu of %zu queued delivered, peer %d", x->slot, forget ? " and free" : "", limit, x->want_n, x->peer_state);
  x->open = 0;
  if (forget && how) { stream_destruct(x->s); memset(x->s, 0xdd, sizeof *x->s); free(x->s); x->s = NULL; }
  else
  {
    stream_close(x->s);
    if (rng_p(R, 30)) stream_flush(x->s);
    if (rng_p(R, 20)) stream_close(x->s);
    if (forget) { stream_destruct(x->s); memset(x->s, 0xdd, sizeof *x->s); free(x->s); x->s = NULL; }
  }
  mon_count("closes", 1);
  if (x->peer != -1)
  {
    /* the kernel has what it had, and the peer sees the end */
    peer_read(x, SIZE_MAX);
    if (x->kind == UNIX || x->kind == PIPE_OUT)
    {
      char c;
      ssize_t n;
      MON_CHECK(x->got == limit, "stream-sent-after-close", "stream %d: %zu bytes had been handed to the kernel at close, the peer received %zu", x->slot, limit, x->got);
      n = __real_read(x->peer, &c, 1);
      if (n == -1 && errno == ECONNRESET) n = __real_read(x->peer, &c, 1);
      MON_CHECK(n == 0, "stream-not-closed", "stream %d: the peer does not see the end of a closed stream", x->slot);
    }
    mon_close(x->peer); x->peer = -1;
  }
  x->requested = 0;
  H = mon_mix(H, 99 + x->slot);
}
static void queue(st *x)
{
  size_t n, k = 1 + rng_n(R, 4), i, at;
  uint8_t *p;
  while (k--)
  {
    n = rng_size(R, volume);
    if (x->want_n > volume * 12) n = rng_n(R, 10);
    at = x->want_n;
    if (rng_p(R, 15) && stream_read(x->s).size && stream_read(x->s).size < volume)
    {
      data in = stream_read(x->s);                /* echo */
      want_put(x, in.base, in.size);
      stream_write(x->s, in);
    }
    else if (rng_p(R, 50))
    {
      p = malloc(n ? n : 1);
      rng_bytes(R, p, n);
      want_put(x, p, n);
      stream_write(x->s, data_construct((char *) p, n));
      memset(p, 0xee, n); free(p);
    }
    else
    {
      p = stream_allocate(x->s, n);
      rng_bytes(R, p, n);
      want_put(x, p, n);
    }
    (void) i; (void) at;
    if (rng_p(R, 30)) break;
  }
}
static void flush(st *x) { x->flushed = x->want_n; x->busy++; stream_flush(x->s); x->busy--; mon_count("flushes", 1); }
static void notify_(st *x) { x->requested = 1; stream_notify(x->s); mon_count("requests", 1); }
static void act(st *x)
{
  int k = rng_n(R, 100);
  if (k < 35) { queue(x); if (rng_p(R, 75)) flush(x); if (rng_p(R, 25)) notify_(x); }
  else if (k < 45) notify_(x);
  else if (k < 52) flush(x);
  else if (k < 52 + drama)
  {
    st *y = rng_p(R, 60) ? x : &S[rng_n(R, N)];
    if (y->open) { st_close(y, rng_p(R, 50)); if (rng_p(R, 50)) { st_open(y); } }
    else st_open(y);
  }
}
static void consume(st *x)
{
  size_t n = stream_read(x->s).size, k;
  if (rng_p(R, 60)) k = n; else k = rng_n(R, n + 1);
  stream_consume(x->s, k);
  x->consumed += k; x->have -= k;
  MON_CHECK(stream_read(x->s).size == n - k, "stream-consume", "%zu bytes remain after consuming %zu of %zu", stream_read(x->s).size, k, n);
}
static void check_input(st *x)
{
  data in = stream_read(x->s);
  const uint8_t *p = in.base;
  size_t i;
  MON_CHECK(x->consumed + in.size <= x->sent, "stream-input-extra", "stream %d offers %zu bytes after %llu consumed, the peer sent %llu", x->slot, in.size, (unsigned long long) x->consumed, (unsigned long long) x->sent);
  for (i = 0; i < in.size; i++) if (p[i] != content(x, x->consumed + i)) mon_fail("stream-input-bytes", "stream %d: byte %llu offered is not the one sent", x->slot, (unsigned long long) (x->consumed + i));
}
static void stream_cb(reactor_event *e)
{
  st *x = e->state;
  size_t n;
  mon_count("eval", 1);
  MON_CHECK(x->open && x->s, "stream-callback-after-close", "callback type %d on closed stream %d", e->type, x->slot);
  MON_CHECK(x->opened != mon_batch, "stream-stale", "callback type %d of an earlier life on re-opened stream %d", e->type, x->slot);
  MON_CHECK(!x->busy, "stream-reentrant", "callback from inside stream_flush");
  switch (e->type)
  {
  case STREAM_READ:
    MON_CHECK(x->mask & STREAM_READ, "stream-unasked-read", "STREAM_READ on stream %d opened without it", x->slot);
    n = stream_read(x->s).size;
    MON_CHECK(n > x->have, "stream-spurious-read", "STREAM_READ on stream %d without new bytes (%zu offered, %llu known)", x->slot, n, (unsigned long long) x->have);
    mon_count("bytes_in", n - x->have); mon_count("reads", 1);
    x->have = n;
    check_input(x);
    if (acting) { if (rng_p(R, 70)) consume(x); act(x); }
    break;
  case STREAM_WRITE:
    MON_CHECK(x->requested, "stream-spurious-write", "STREAM_WRITE on stream %d that was not asked for", x->slot);
    if (x->peer != -1 && x->kind != PIPE_IN)
      MON_CHECK(x->got + in_flight(x) >= x->want_n, "stream-early-write", "STREAM_WRITE on stream %d with %zu of %zu bytes handed to the kernel", x->slot, x->got + in_flight(x), x->want_n);
    x->requested = 0; x->writes++;
    mon_count("writes", 1);
    if (acting) { act(x); }
    break;
  case STREAM_CLOSE:
    MON_CHECK(x->peer_state != P_OPEN, "stream-spurious-close", "STREAM_CLOSE on stream %d although the peer is there", x->slot);
    if ((x->mask & STREAM_READ) && x->graceful)
      MON_CHECK(x->consumed + stream_read(x->s).size == x->sent, "stream-close-before-data", "STREAM_CLOSE on stream %d with %llu of %llu bytes delivered", x->slot, (unsigned long long) (x->consumed + stream_read(x->s).size), (unsigned long long) x->sent);
    x->closes++;
    mon_count("close_reports", 1);
    if (acting) { if (rng_p(R, 50)) { st_close(x, rng_p(R, 50)); if (rng_p(R, 30)) st_open(x); } else act(x); }
    break;
  default: mon_fail("stream-event", "unknown event type %d", e->type);
  }
  H = mon_mix(H, e->type * 8 + x->slot);
}
static void peer_leaves(st *x, int how)
{
  if (x->peer_state >= P_CLOSED) return;
  if (how == 0 && x->kind <= TCP) { if (x->peer_state == P_OPEN) { shutdown(x->peer, SHUT_WR); x->peer_state = P_HALF; mon_trace("peer of %d half-closes after %llu", x->slot, (unsigned long long) x->sent); } return; }
  if (x->kind == TCP) { struct linger l = {1, 0}; x->graceful = 0; if (how == 2) setsockopt(x->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
  mon_trace("peer of %d leaves after %llu, received %zu", x->slot, (unsigned long long) x->sent, x->got);
  mon_close(x->peer); x->peer = -1; x->peer_state = P_CLOSED;
}
/* a stream that does not read keeps TCP from delivering the end */
static int hung_up(st *x)
{
  struct pollfd p = {.fd = descriptor_fd(&x->s->descriptor), .events = POLLRDHUP};
  if (x->kind != TCP || (x->mask & STREAM_READ)) return 1;
  poll(&p, 1, 0);
  return p.revents != 0;
}
static void check_settled(void)
{
  int i, round, missing = 0, moved, calm = 0;
  acting = 0;
  for (round = 0; round < 40000; round++)
  {
    moved = 0;
    for (i = 0; i < N; i++) if (S[i].open) moved += peer_read(&S[i], SIZE_MAX) > 0;
    if (mon_settle(100000)) moved = 1;
    missing = 0;
    for (i = 0; i < N; i++)
    {
      st *x = &S[i];
      if (!x->open) continue;
      if (x->peer_state <= P_HALF && x->kind != PIPE_IN && x->got < x->flushed) missing = 1 + i * 8;
      else if (x->graceful && (x->mask & STREAM_READ) && x->consumed + stream_read(x->s).size < x->sent) missing = 2 + i * 8;
      else if (x->peer_state <= P_HALF && x->kind != PIPE_IN && x->requested) missing = 3 + i * 8;
      else if (x->peer_state != P_OPEN && !x->closes && hung_up(x)) missing = 4 + i * 8;
    }
    if (moved) { calm = 0; continue; }
    if (!missing) break;
    if (++calm > (S[missing / 8].kind == TCP ? 2000 : 60)) break;     /* TCP may be in a probe interval */
    usleep(calm < 20 ? 200 : 5000);
  }
  if (missing)
  {
    st *x = &S[missing / 8];
    switch (missing % 8)
    {
    case 1: mon_fail("stream-stuck", "stream %d (kind %d): %zu bytes flushed, the peer received %zu and no more come", x->slot, x->kind, x->flushed, x->got);
    case 2: mon_fail("stream-input-lost", "stream %d (kind %d): the peer sent %llu bytes, %llu were delivered", x->slot, x->kind, (unsigned long long) x->sent, (unsigned long long) (x->consumed + stream_read(x->s).size));
    case 3: mon_fail("stream-write-missing", "stream %d (kind %d): a STREAM_WRITE was requested and does not come", x->slot, x->kind);
    case 4: mon_fail("stream-close-missing", "stream %d (kind %d): the peer left and STREAM_CLOSE does not come", x->slot, x->kind);
    }
  }
  for (i = 0; i < N; i++) if (S[i].open) check_input(&S[i]);
  mon_count("settled", 1);
  acting = 1;
}
static int short_writes;
static int write_hook(int fd, const void *b, size_t n, ssize_t *ret)
{
  if (!short_writes || n < 2 || fd < 3) return 0;
  if (rng_p(R, short_writes)) { *ret = __real_write(fd, b, 1 + rng_n(R, n - 1)); mon_count("short_writes", *ret > 0); return 1; }
  return 0;
}
static void world(rng *r, int dr)
{
  int i, step, steps = 8 + rng_n(r, 20), k;
  R = r; H = MON_H0; N = 1 + rng_n(r, MS); drama = dr; acting = 1;
  volume = rng_p(r, 10) ? 300000 : rng_p(r, 40) ? 20000 : 500;
  short_writes = rng_p(r, 40) ? (int) rng_n(r, 70) : 0;
  mon_write_hook = write_hook;
  reactor_construct();
  for (i = 0; i < N; i++) { memset(&S[i], 0, sizeof S[i]); S[i].slot = i; S[i].peer = -1; st_open(&S[i]); }
  for (step = 0; step < steps; step++)
  {
    st *x = &S[rng_n(r, N)];
    k = rng_n(r, 100);
    if (!x->open) { if (k < 50) st_open(x); }
    else if (k < 30) act(x);
    else if (k < 50) peer_send(x, rng_size(r, volume));
    else if (k < 65) peer_read(x, rng_p(r, 40) ? SIZE_MAX : rng_size(r, volume));
    else if (k < 68 + drama / 2) peer_leaves(x, rng_n(r, 3));
    else if (k < 90) { k = 1 + rng_n(r, 4); while (k--) mon_step(); }
    else if (k < 95) check_settled();
    else if (x->open && (x->mask & STREAM_READ) && stream_read(x->s).size) consume(x);
    if (rng_p(r, 30)) mon_step();
  }
  check_settled();
  if (mon_case < 2) mon_sample("stream kind %d: %zu queued, %zu flushed, %zu received; %llu sent, %llu consumed", S[0].kind, S[0].want_n, S[0].flushed, S[0].got, (unsigned long long) S[0].sent, (unsigned long long) S[0].consumed);
  for (i = 0; i < N; i++) { st_close(&S[i], 1); free(S[i].want); if (S[i].peer != -1) mon_close(S[i].peer); }
  MON_CHECK(!mon_step(), "stream-callback-after-close", "something was dispatched after all streams were destroyed");
  reactor_destruct();
  mon_write_hook = NULL;
  mon_distinct(H);
}
static void scn_bytes(rng *r) { world(r, 4); }
static void scn_notes(rng *r) { world(r, 25); }

/* one big transfer both ways through a small window, peer bursty */
static void scn_bulk(rng *r)
{
  st *x = &S[0];
  size_t total = 100000 + rng_n(r, mon_tier ? 4000000 : 700000);
  int i;
  R = r; H = MON_H0; N = 1; drama = 0; acting = 0; volume = 100000;
  short_writes = rng_p(r, 30) ? 30 : 0; mon_write_hook = write_hook;
  reactor_construct();
  memset(x, 0, sizeof *x); x->peer = -1; st_open(x);
  for (i = 0; i < 100000 && (x->want_n < total && x->peer_state == P_OPEN); i++)
  {
    if (rng_p(r, 30) && x->want_n - x->got < 400000) { queue(x); if (rng_p(r, 80)) flush(x); if (rng_p(r, 20)) notify_(x); }
    if (rng_p(r, 50)) peer_send(x, rng_size(r, 30000));
    if (rng_p(r, 60)) peer_read(x, rng_p(r, 30) ? SIZE_MAX : rng_size(r, 50000));
    if (rng_p(r, 70)) mon_step();
    if ((x->mask & STREAM_READ) && rng_p(r, 40)) { x->have = stream_read(x->s).size; consume(x); }
    if (x->kind == PIPE_IN && x->sent > total) break;
  }
  flush(x);
  check_settled();
  H = mon_mix(H, x->want_n);
  st_close(x, 1); free(x->want);
  reactor_destruct();
  mon_write_hook = NULL;
  mon_distinct(H);
}
/* everything is in the kernel before the loop gets to run once: bursts of any number of receive blocks, around their multiples */
static void scn_burst(rng *r)
{
  st *x = &S[0];
  size_t want, chunk;
  int i, big = 64 << 20, l, fd, last;
  struct sockaddr_in sin = {.sin_family = AF_INET};
  socklen_t len = sizeof sin;
  R = r; H = MON_H0; N = 1; drama = 0; acting = 0; volume = 500;
  short_writes = 0; mon_write_hook = NULL;
  reactor_construct();
  memset(x, 0, sizeof *x); x->peer = -1;
  do { if (x->open) st_close(x, 1); if (x->peer != -1) { mon_close(x->peer); x->peer = -1; } st_open(x); } while (x->kind == PIPE_OUT || !(x->mask & STREAM_READ) || (x->kind == UNIX && rng_p(r, 80)));
  if (x->kind == PIPE_IN) { if (rng_p(r, 80)) fcntl(x->peer, F_SETPIPE_SZ, 1 << 20); }
  else if (x->kind == TCP)
  {
    /* the window is what the receiver's buffer was when the connection was made */
    setsockopt(x->peer, SOL_SOCKET, SO_SNDBUFFORCE, &big, sizeof big);
    if (rng_p(r, 80))
    {
      st_close(x, 0); if (x->peer != -1) { mon_close(x->peer); x->peer = -1; }
      sin.sin_addr.s_addr = mon_loopback();
      l = socket(AF_INET, SOCK_STREAM, 0);
      setsockopt(l, SOL_SOCKET, SO_RCVBUF, &big, sizeof big);
      setsockopt(l, SOL_SOCKET, SO_RCVBUFFORCE, &big, sizeof big);
      if (bind(l, (void *) &sin, sizeof sin) || listen(l, 1) || getsockname(l, (void *) &sin, &len)) mon_harness_error("listen errno %d", errno);
      x->peer = socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
      setsockopt(x->peer, SOL_SOCKET, SO_SNDBUF, &big, sizeof big);
      setsockopt(x->peer, SOL_SOCKET, SO_SNDBUFFORCE, &big, sizeof big);
      if (connect(x->peer, (void *) &sin, len) && errno != EINPROGRESS) mon_harness_error("connect errno %d", errno);
      fd = accept4(l, NULL, NULL, SOCK_NONBLOCK);
      if (fd == -1) mon_harness_error("accept errno %d", errno);
      mon_close(l);
      mon_own(x->peer);
      x->life++; x->peer_state = P_OPEN; x->graceful = 1; x->mask = STREAM_READ;
      x->want_n = x->flushed = x->got = 0; x->sent = x->consumed = x->have = 0; x->requested = x->closes = x->writes = 0;
      x->opened = mon_batch;
      stream_open(x->s, fd, x->mask, NULL);
      x->open = 1;
    }
  }
  for (i = 0; i < 1 + (int) rng_n(r, 3); i++)
  {
    size_t before = x->sent, seen = 0, tries;
    int queued = 0;
    want = rng_p(r, 50) ? STREAM_RECEIVE_SIZE * (size_t) rng_n(r, 40) + rng_n(r, 3) - 1 : rng_n(r, 6 << 20);
    if ((ssize_t) want < 0) want = 1;
    for (tries = 0; tries < 40 && x->sent - before < want; tries++)
    {
      uint64_t s0 = x->sent;
      chunk = want - (x->sent - before);
      peer_send(x, chunk);
      if (x->sent == s0) { if (x->kind != TCP || ++seen > 3) break; usleep(300); }
    }
    if (x->kind == TCP) for (tries = 0; tries < 20; tries++) { last = queued; ioctl(descriptor_fd(&x->s->descriptor), FIONREAD, &queued); if (queued == last && tries > 2) break; usleep(200); }
    mon_trace("burst of %llu (%d waiting)", (unsigned long long) (x->sent - before), queued);
    mon_count("burst_bytes", x->sent - before);
    if (x->sent - before > 16 * STREAM_RECEIVE_SIZE) mon_count("bursts_over_1M", 1);
    if (rng_p(r, 50)) { queue(x); flush(x); }
    if (rng_p(r, 30)) peer_leaves(x, 0);
    mon_step();
    if (stream_read(x->s).size) { x->have = stream_read(x->s).size; if (rng_p(r, 50)) consume(x); }
    check_settled();
    acting = 0;
    x->have = stream_read(x->s).size; consume(x);
    H = mon_mix(H, x->sent);
    if (x->peer_state != P_OPEN) break;
  }
  st_close(x, 1); free(x->want); if (x->peer != -1) mon_close(x->peer);
  reactor_destruct();
  mon_distinct(H);
}
/* known finding short-read: a read that stops short is taken for the end of what has arrived */
static stream marked; static char marked_in[16]; static size_t marked_n;
static void marked_cb(reactor_event *e)
{
  data d = stream_read(&marked);
  if (e->type != STREAM_READ) return;
  if (marked_n + d.size > sizeof marked_in) mon_fail("bytes-in", "%zu bytes were received, not 10", marked_n + d.size);
  memcpy(marked_in + marked_n, d.base, d.size); marked_n += d.size;
  stream_consume(&marked, d.size);
}
static void scn_marked(rng *r)
{
  int sv[2], i, k = mon_case % 2;
  (void) r;
  reactor_construct();
  if (k)
  {
    mon_tcp_pair(sv, 1);
    if (__real_send(sv[1], "hello", 5, 0) != 5 || __real_send(sv[1], "!", 1, MSG_OOB) != 1 || __real_send(sv[1], "world", 5, 0) != 5) mon_harness_error("send");
  }
  else
  {
    char c[CMSG_SPACE(sizeof(int))] = {0};
    struct iovec v = {"hello", 5};
    struct msghdr m = {.msg_iov = &v, .msg_iovlen = 1, .msg_control = c, .msg_controllen = sizeof c};
    struct cmsghdr *h = CMSG_FIRSTHDR(&m);
    mon_socketpair(sv, 1);
    h->cmsg_level = SOL_SOCKET; h->cmsg_type = SCM_RIGHTS; h->cmsg_len = CMSG_LEN(sizeof(int));
    memcpy(CMSG_DATA(h), &sv[1], sizeof(int));
    if (sendmsg(sv[1], &m, 0) != 5 || __real_send(sv[1], "world", 5, 0) != 5) mon_harness_error("send");
  }
  for (i = 0; i < 1000; i++) { int n = 0; if (!ioctl(sv[0], FIONREAD, &n) && n >= (k ? 5 : 10)) break; usleep(1000); }
  if (k) usleep(20000);
  stream_construct(&marked, marked_cb, NULL); marked_n = 0;
  mon_give(sv[0]);
  stream_open(&marked, sv[0], STREAM_READ, NULL);
  for (i = 0; i < 20 && marked_n < 10; i++) { mon_step(); usleep(2000); }
  mon_count("eval", 1); mon_distinct(k + 1);
  if (memcmp(marked_in, "helloworld", marked_n)) mon_fail("bytes-in", "%.*s was received, not helloworld", (int) marked_n, marked_in);
  i = marked_n;
  stream_destruct(&marked); mon_close(sv[1]);
  reactor_destruct();
  MON_CHECK(i == 10, "short-read", "%d of 10 bytes that had arrived were reported, the others wait behind %s until the next event", i, k ? "a TCP urgent mark" : "a message that carried a descriptor");
}
const mon_scenario mon_scenarios[] = { {"marked", scn_marked, MON_FDS | MON_MEM}, {"burst", scn_burst, MON_FDS | MON_MEM}, {"bytes", scn_bytes, MON_FDS | MON_MEM}, {"notes", scn_notes, MON_FDS | MON_MEM}, {"bulk", scn_bulk, MON_FDS | MON_MEM}, {0} };
