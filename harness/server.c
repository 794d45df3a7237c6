/* Monitors for the HTTP server (C12-C15): clients on the other end of real sockets, an exact model of what every
 * connection is owed, a reference for the Date field under a controlled clock. */
#include "mon.h"
#include <locale.h>

enum { F_DEFER = 1, F_LIFE = 2, F_HOSTILE = 4, F_FAULT = 8, F_DATE = 16, F_BIG = 32 };
#define MC 700
#define MSRV 2
typedef struct { char *m, *t; size_t ml, tl, nf; struct { char *n, *v; size_t nl, vl; } f[16]; } req;
typedef struct
{
  server s;
  int open, down, tls, fd, kind, constructed, shutdowns;
  struct sockaddr_storage sa; socklen_t sl;
} srv;
typedef struct
{
  struct sockaddr_storage me; socklen_t me_n; int sfd;      /* the client's address, or the server's end of a given connection */
  int prompt, used, id, fd, tls, v, small, listenq, hostile, tcp;
  SSL *ssl; BIO *in, *out; int handshaken, broken, half, gone, eof, fed_eof;
  uint8_t *outq; size_t outq_n, outq_cap;
  uint8_t *plain; size_t plain_n, plain_cap, fed, parsed;
  req *reqs; int nreq, made, bad;
  int handled, inh, outstanding, holds, closed, bad_sent, down, dropped;
  uint64_t closed_batch, gone_batch;
  server_request *r;
  uint8_t *exp; size_t exp_n, exp_cap, got, must, given, lag;
  struct { size_t at; uint64_t lo, hi; } *dates; int ndates, dates_cap, dnext;
} cli;
static cli C[MC];
static srv V[MSRV];
static int NC, NV, flags, depth, handler_active, next_id;
static rng *R;
static uint64_t H;
static size_t big;
static SSL_CTX *sctx[3], *cctx;
static const char *fields_names[] = {"Host", "Accept", "X-A", "user-agent", "Cookie", "X-Very-Long-Field-Name-For-The-Scanner", "q", "Connection", "Transfer-Encoding-Not"};

/* ---- the clock ---- */
#define ACCEL 50
static int accel;
static uint64_t vbase, m0, lo_settled;
static uint64_t vnow(void) { return accel ? vbase + (mon_mono_ns() - m0) * ACCEL : mon_real_ns(); }
static int clock_hook(struct timespec *ts) { uint64_t n; if (!accel) return 0; n = vnow(); ts->tv_sec = n / 1000000000; ts->tv_nsec = n % 1000000000; return 1; }
static int settime_hook(const struct itimerspec *i, struct itimerspec *o)
{
  uint64_t a = i->it_value.tv_sec * 1000000000ull + i->it_value.tv_nsec, b = i->it_interval.tv_sec * 1000000000ull + i->it_interval.tv_nsec;
  if (!accel) return 0;
  if (a > 1) { a /= ACCEL; if (!a) a = 1; }
  if (b > 1) { b /= ACCEL; if (!b) b = 1; }
  *o = (struct itimerspec) {.it_value = {a / 1000000000, a % 1000000000}, .it_interval = {b / 1000000000, b % 1000000000}};
  return 1;
}
static int64_t days_of(int y, int m, int d)
{
  /* counted, not computed: independent of the usual closed formulas */
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int64_t n = 0; int i;
  for (i = 1970; i < y; i++) n += 365 + ((i % 4 == 0 && i % 100 != 0) || i % 400 == 0);
  for (i = 1; i < m; i++) n += len[i - 1] + (i == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0));
  return n + d - 1;
}
static int64_t parse_date(const char *s)
{
  static const char *wd[] = {"Thu", "Fri", "Sat", "Sun", "Mon", "Tue", "Wed"}, *mo[] = {"Jan", "Feb", "Mar", "Apr", "May", "Jun", "Jul", "Aug", "Sep", "Oct", "Nov", "Dec"};
  static const int len[] = {31, 29, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  static const char pat[] = "aaa, dd aaa dddd dd:dd:dd GMT";
  int i, m, d, y, h, mi, se; int64_t days;
  for (i = 0; i < 29; i++)
    if (pat[i] == 'd' ? s[i] < '0' || s[i] > '9' : pat[i] == 'a' ? 0 : s[i] != pat[i]) return -1;
  for (m = 0; m < 12 && memcmp(mo[m], s + 8, 3); m++);
  if (m == 12) return -2;
  d = (s[5] - '0') * 10 + s[6] - '0'; y = (s[12] - '0') * 1000 + (s[13] - '0') * 100 + (s[14] - '0') * 10 + s[15] - '0';
  h = (s[17] - '0') * 10 + s[18] - '0'; mi = (s[20] - '0') * 10 + s[21] - '0'; se = (s[23] - '0') * 10 + s[24] - '0';
  if (d < 1 || d > len[m] || h > 23 || mi > 59 || se > 59 || y < 1970) return -3;
  if (d == 29 && m == 1 && !((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) return -3;
  days = days_of(y, m + 1, d);
  if (memcmp(s, wd[days % 7], 3)) return -4;
  return days * 86400 + h * 3600 + mi * 60 + se;
}
static void check_date(cli *c, const char *s, uint64_t lo, uint64_t hi)
{
  int64_t t = parse_date(s);
  MON_CHECK(t >= 0, "date-form", "connection %d: the Date '%.29s' is not a valid date (%lld)", c->id, s, (long long) t);
  MON_CHECK((uint64_t) t <= hi / 1000000000, "date-future", "connection %d: the Date '%.29s' is %lld s ahead of the clock", c->id, s, (long long) (t - hi / 1000000000));
  MON_CHECK((uint64_t) t + 1 >= lo / 1000000000, "date-stale", "connection %d: the Date '%.29s' is at least %lld s behind the clock", c->id, s, (long long) (lo / 1000000000 - t));
  mon_count("dates", 1);
  if (accel) mon_distinct(mon_mix(t, 5));
}

/* ---- bookkeeping ---- */
static void put(uint8_t **p, size_t *n, size_t *cap, const void *d, size_t k) { if (*n + k > *cap) { *cap = (*n + k) * 2 + 64; *p = realloc(*p, *cap); } if (k) memcpy(*p + *n, d, k); *n += k; }
static char *dup_n(const void *p, size_t n) { char *q = malloc(n + 1); memcpy(q, p, n); q[n] = 0; return q; }
static void parse_more(cli *c)
{
  while (!c->bad && c->parsed < c->plain_n)
  {
    http_field f[16]; size_t nf = 16, i; data m, t; ssize_t k; req *q;
    uint8_t *copy = malloc(c->plain_n - c->parsed);       /* exact size: nothing behind it */
    memcpy(copy, c->plain + c->parsed, c->plain_n - c->parsed);
    k = http_read_request_data(data_construct(copy, c->plain_n - c->parsed), &m, &t, f, &nf);
    if (k == -1) c->bad = 1;
    if (k > 0)
    {
      c->reqs = realloc(c->reqs, (c->nreq + 1) * sizeof *c->reqs); q = &c->reqs[c->nreq++];
      q->m = dup_n(m.base, q->ml = m.size); q->t = dup_n(t.base, q->tl = t.size); q->nf = nf;
      for (i = 0; i < nf; i++) { q->f[i].n = f[i].name.base ? dup_n(f[i].name.base, f[i].name.size) : NULL; q->f[i].nl = f[i].name.size; q->f[i].v = dup_n(f[i].value.base, q->f[i].vl = f[i].value.size); }
      c->parsed += k;
    }
    free(copy);
    if (k < 0) break;
  }
}
static void free_cli(cli *c)
{
  int i, j;
  for (i = 0; i < c->nreq; i++) { free(c->reqs[i].m); free(c->reqs[i].t); for (j = 0; j < (int) c->reqs[i].nf; j++) { free(c->reqs[i].f[j].n); free(c->reqs[i].f[j].v); } }
  free(c->reqs); free(c->outq); free(c->plain); free(c->exp); free(c->dates);
  if (c->ssl) SSL_free(c->ssl);
  if (c->fd != -1) mon_close(c->fd);
  memset(c, 0, sizeof *c); c->fd = -1;
}
static void append_req(cli *c, const char *m, size_t ml, const char *t, size_t tl, char n[][80], size_t *nl, char v[][300], size_t *vl, size_t nf)
{
  size_t i;
  put(&c->plain, &c->plain_n, &c->plain_cap, m, ml); put(&c->plain, &c->plain_n, &c->plain_cap, " ", 1);
  put(&c->plain, &c->plain_n, &c->plain_cap, t, tl); put(&c->plain, &c->plain_n, &c->plain_cap, " HTTP/1.1\r\n", 11);
  for (i = 0; i < nf; i++)
  {
    put(&c->plain, &c->plain_n, &c->plain_cap, n[i], nl[i]); put(&c->plain, &c->plain_n, &c->plain_cap, ": ", 2);
    put(&c->plain, &c->plain_n, &c->plain_cap, v[i], vl[i]); put(&c->plain, &c->plain_n, &c->plain_cap, "\r\n", 2);
  }
  put(&c->plain, &c->plain_n, &c->plain_cap, "\r\n", 2);
}
/* a well-formed request; what it contains is recorded from here, not from a parser */
static void make_good(cli *c)
{
  static const char *ms[] = {"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "X", "PATCH", "A-B"};
  char n[16][80], v[16][300], t[600], m[40];
  size_t nl[16], vl[16], nf = rng_p(R, 10) ? 16 : rng_n(R, 6), i, j, tl, ml;
  int before = c->nreq;
  req *q;
  if (c->bad || c->hostile == 2) return;
  if (rng_p(R, 90)) ml = sprintf(m, "%s", ms[rng_n(R, 9)]); else { ml = 1 + rng_n(R, 30); for (i = 0; i < ml; i++) m[i] = 'A' + rng_n(R, 26); }
  tl = sprintf(t, "/c%d/%d", c->id, c->made++);
  j = rng_p(R, 20) ? rng_n(R, 500) : rng_n(R, 20);
  for (i = 0; i < j; i++) t[tl++] = rng_p(R, 5) ? (char) (0x80 + rng_n(R, 128)) : 33 + rng_n(R, 94);
  for (i = 0; i < nf; i++)
  {
    nl[i] = sprintf(n[i], "%s%s", fields_names[rng_n(R, 9)], rng_p(R, 30) ? "x" : "");
    vl[i] = rng_p(R, 10) ? rng_n(R, 290) : rng_n(R, 20);
    for (j = 0; j < vl[i]; j++) v[i][j] = rng_p(R, 20) && j && j + 1 < vl[i] ? ' ' : 33 + rng_n(R, 94);
  }
  append_req(c, m, ml, t, tl, n, nl, v, vl, nf);
  if (c->hostile) { parse_more(c); return; }
  c->parsed = c->plain_n;
  c->reqs = realloc(c->reqs, (c->nreq + 1) * sizeof *c->reqs); q = &c->reqs[c->nreq++];
  q->m = dup_n(m, q->ml = ml); q->t = dup_n(t, q->tl = tl); q->nf = nf;
  for (i = 0; i < nf; i++) { q->f[i].n = dup_n(n[i], q->f[i].nl = nl[i]); q->f[i].v = dup_n(v[i], q->f[i].vl = vl[i]); }
  (void) before;
  mon_count("requests_made", 1);
}
static void make_hostile(cli *c)
{
  static uint8_t b[70000];
  size_t n = 0, i, k, at;
  if (c->bad || !c->hostile) return;
  switch (rng_n(R, 9))
  {
  case 0: n = 1 + rng_n(R, 300); rng_bytes(R, b, n); break;
  case 1: n = sprintf((char *) b, "GET / HTTP/1.%d\r\n", (int) rng_n(R, 12)); k = 15 + rng_n(R, 6); for (i = 0; i < k; i++) n += sprintf((char *) b + n, "a%d: b\r\n", (int) i); n += sprintf((char *) b + n, "\r\n"); break;
  case 2: n = sprintf((char *) b, "GET /"); k = rng_p(R, 20) ? 60000 : 3000; while (n < k) b[n++] = 'a'; break;
  case 3: n = sprintf((char *) b, "GET / HTTP/1.1\r\n%s\r\n\r\n", (const char *[]) {":x", " folded", "a b: c", "\x7f: 1", "a:\x01", "a: b\rc", "Host", "\tx: y"}[rng_n(R, 8)]); break;
  case 4: k = rng_n(R, 50); for (i = 0; i < k; i++) b[n++] = rng_p(R, 50) ? '\n' : '\r'; break;
  case 5: memset(b, 0, n = 1 + rng_n(R, 50)); break;
  case 6: n = sprintf((char *) b, "PRI * HTTP/2.0\r\n\r\nSM\r\n\r\n"); break;
  default:
    /* a good head with damage */
    n = sprintf((char *) b, "POST /h%d/%d HTTP/1.1\r\nHost: localhost\r\nX-A: 1\r\n\r\n", c->id, c->made++);
    k = 1 + rng_n(R, 3);
    while (k--)
    {
      at = rng_n(R, n);
      switch (rng_n(R, 4)) { case 0: b[at] = rng_next(R); break; case 1: memmove(b + at, b + at + 1, n - at - 1); n--; break; case 2: memmove(b + at + 1, b + at, n - at); b[at] = " \r\n:\t\0/x"[rng_n(R, 8)]; n++; break; case 3: b[at] ^= 1 << rng_n(R, 8); break; }
    }
  }
  put(&c->plain, &c->plain_n, &c->plain_cap, b, n);
  parse_more(c);
  mon_count("hostile_inputs", 1);
}

/* ---- the wire ---- */
static void expect_response(cli *c, const char *status, data type, data body)
{
  char t[64];
  size_t n;
  uint64_t hi;
#define PUT(d, k) put(&c->exp, &c->exp_n, &c->exp_cap, d, k)
  PUT("HTTP/1.1 ", 9); PUT(status, strlen(status)); PUT("\r\nServer: reactor\r\nDate: ", 25);
  if (c->ndates == c->dates_cap) c->dates = realloc(c->dates, (c->dates_cap = c->dates_cap * 2 + 8) * sizeof *c->dates);
  hi = vnow();
  c->dates[c->ndates].at = c->exp_n; c->dates[c->ndates].lo = c->down ? 0 : lo_settled; c->dates[c->ndates].hi = hi; c->ndates++;
  PUT("-----------------------------\r\n", 31);
  if (type.size) { PUT("Content-Type: ", 14); PUT(type.base, type.size); PUT("\r\n", 2); }
  n = sprintf(t, "Content-Length: %zu\r\n\r\n", body.size); PUT(t, n); PUT(body.base, body.size);
  if (c->exp_n - c->got > c->lag) c->lag = c->exp_n - c->got;
}
static void got_app(cli *c, const uint8_t *b, size_t n)
{
  size_t i;
  if (c->got + n > c->exp_n && c->bad && c->handled == c->nreq && !c->outstanding && !c->bad_sent && !c->closed)
  {
    c->bad_sent = 1;
    expect_response(c, "400 Bad Request", data_null(), data_null());
    mon_count("bad_requests", 1);
  }
  if (c->got + n > c->exp_n)
  {
    char t[60]; size_t x = c->exp_n > c->got ? c->exp_n - c->got : 0;
    snprintf(t, sizeof t, "%.*s", (int) (n - x < 50 ? n - x : 50), (const char *) b + x);
    mon_fail("server-unasked", "connection %d received %zu bytes although only %zu were due: '%s' (handled %d of %d, malformed %d)", c->id, c->got + n, c->exp_n, t, c->handled, c->nreq, c->bad);
  }
  for (i = 0; i < n; )
  {
    /* the Date is collected byte by byte into the expectation and judged when complete */
    if (c->dnext < c->ndates && c->got >= c->dates[c->dnext].at && c->got < c->dates[c->dnext].at + 29)
    {
      c->exp[c->got] = b[i]; c->got++; i++;
      if (c->got == c->dates[c->dnext].at + 29) { check_date(c, (char *) c->exp + c->dates[c->dnext].at, c->dates[c->dnext].lo, c->dates[c->dnext].hi); c->dnext++; }
      continue;
    }
    {
      size_t lim = c->dnext < c->ndates ? c->dates[c->dnext].at - c->got : c->exp_n - c->got, k = n - i < lim ? n - i : lim;
      if (memcmp(b + i, c->exp + c->got, k))
      {
        size_t j = 0; while (b[i + j] == c->exp[c->got + j]) j++;
        mon_fail("server-bytes", "connection %d: byte %zu of what it received is not that of its responses: '%.30s' instead of '%.30s'", c->id, c->got + j, (const char *) b + i + j, (char *) c->exp + c->got + j);
      }
      c->got += k; i += k;
    }
  }
  mon_count("bytes_received", n); mon_count("eval", 1);
}
static int crypto(cli *c)
{
  static uint8_t b[20000];
  int n, moved = 0;
  if (!c->ssl || c->broken) return 0;
  ERR_clear_error();
  if (!c->handshaken && SSL_do_handshake(c->ssl) == 1) { c->handshaken = 1; moved = 1; mon_count("handshakes", 1); }
  if (c->handshaken)
  {
    while (ERR_clear_error(), (n = SSL_read(c->ssl, b, sizeof b)) > 0) { got_app(c, b, n); moved = 1; }
  }
  while ((n = BIO_read(c->out, b, sizeof b)) > 0) { put(&c->outq, &c->outq_n, &c->outq_cap, b, n); moved = 1; }
  ERR_clear_error();
  return moved;
}
/* hands up to lim bytes of plaintext to the transport */
static void feed(cli *c, size_t lim)
{
  size_t n = c->plain_n - c->fed;
  if (n > lim) n = lim;
  if (!n || c->half || c->gone || c->broken) return;
  if (c->tls)
  {
    if (!c->handshaken) { crypto(c); if (!c->handshaken) return; }
    ERR_clear_error();
    if (SSL_write(c->ssl, c->plain + c->fed, n) != (int) n) { if (c->eof) return; mon_harness_error("client SSL_write"); }
    c->fed += n; crypto(c);
  }
  else { put(&c->outq, &c->outq_n, &c->outq_cap, c->plain + c->fed, n); c->fed += n; }
}
static size_t cli_out(cli *c, size_t lim)
{
  size_t tot = 0, n; ssize_t w;
  if (c->tls) crypto(c);
  while (c->fd != -1 && !c->half && tot < lim && c->outq_n)
  {
    n = c->outq_n < lim - tot ? c->outq_n : lim - tot;
    w = __real_send(c->fd, c->outq, n, MSG_NOSIGNAL | MSG_DONTWAIT);
    if (w <= 0) { if (w < 0 && errno != EAGAIN && errno != EINTR) { c->outq_n = 0; c->dropped = 1; } break; }
    memmove(c->outq, c->outq + w, c->outq_n - w); c->outq_n -= w; tot += w;
    if (c->closed && c->tcp) c->must = 0;        /* TCP resets a connection that gets input after its end */
  }
  return tot;
}
static size_t cli_in(cli *c, size_t lim)
{
  static uint8_t b[65536];
  size_t tot = 0; ssize_t n;
  while (c->fd != -1 && !c->eof && tot < lim)
  {
    n = __real_recv(c->fd, b, lim - tot < sizeof b ? lim - tot : sizeof b, MSG_DONTWAIT);
    if (n == 0 || (n < 0 && errno != EAGAIN && errno != EINTR)) { c->eof = 1; tot++; break; }
    if (n < 0) break;
    tot += n;
    if (c->tls) { if (!c->broken) { BIO_write(c->in, b, n); crypto(c); } }
    else got_app(c, b, n);
  }
  if (c->tls) crypto(c);
  return tot;
}

/* ---- the application ---- */
static void srv_cb(reactor_event *);
static void shutdown_srv(srv *, int);
static void note_shutdown(srv *v)
{
  int i;
  for (i = 0; i < NC; i++) if (C[i].used && C[i].v == v - V && !C[i].down)
  {
    cli *c = &C[i];
    c->down = 1;
    if (!c->gone) cli_in(c, SIZE_MAX);
    if (!c->small && !c->half && !c->gone && !c->broken && !c->closed && c->exp_n - c->got < 3000) c->must = c->exp_n;
  }
}
/* the connection is about to be closed in order, or just was: what the kernel has been given must reach the client */
static void must_arrive(cli *c, size_t kept)
{
  if (c->must > c->exp_n - kept) c->must = c->exp_n - kept;      /* what the server still has is dropped */
  if (c->half || c->gone || c->broken || c->bad || c->bad_sent || c->down) return;
  /* TCP resets a connection that is closed over unread input */
  if (c->tcp && (c->handled < c->nreq || c->fed < c->plain_n || c->outq_n)) return;
  c->must = c->exp_n - kept;
  if (c->must < c->given) c->must = c->given;
  mon_count("closed_in_order", 1);
  if (c->must > c->got + 30000) mon_count("closed_with_much_on_the_way", 1);
}
static void answer(cli *c)
{
  static char body[2000000], type[80], status[40];
  static const char *st[] = {"200 OK", "404 Not Found", "500 Internal Server Error", "204 No Content", "201 X"};
  size_t bl, tl, i;
  int how = rng_n(R, 100), hang_up = (flags & F_LIFE) && c->holds < 5 && rng_p(R, 6), live = !c->closed && !c->bad_sent && !c->gone;
  server_request *r = c->r;
  data body_d, type_d;
  bl = rng_p(R, 10) && big ? rng_n(R, big) : rng_p(R, 30) ? rng_n(R, 2000) : rng_n(R, 40);
  for (i = 0; i < bl; i++) body[i] = 'a' + (i * 7 + c->id + c->handled) % 26;
  if (bl > 4) body[rng_n(R, bl)] = 0;
  tl = rng_p(R, 30) ? 0 : 1 + rng_n(R, 70); for (i = 0; i < tl; i++) type[i] = 'a' + (i + c->id) % 26;
  body_d = data_construct(body, bl); type_d = data_construct(type, tl);
  snprintf(status, sizeof status, "%s", st[rng_n(R, 5)]);
  if (hang_up) { c->holds++; server_hold(r); }
  c->outstanding = 0; c->holds--;
  mon_count("answers", 1); mon_count("eval", 1);
  if (how < 8 && (flags & F_LIFE))
  {
    /* the application rejects it: 400 and closed */
    if (live) { cli_in(c, SIZE_MAX); expect_response(c, "400 Bad Request", data_null(), data_null()); if (!c->small && c->exp_n - c->got < 3000) must_arrive(c, 0); c->closed = 1; c->closed_batch = mon_batch; }
    mon_trace("bad_request by the application on %d", c->id);
    server_bad_request(r);
  }
  else
  {
    if (live && how < 30) expect_response(c, "404 Not Found", data_null(), data_null());
    else if (live && how < 60) expect_response(c, "200 OK", type_d, body_d);
    else if (live) expect_response(c, status, type_d, body_d);
    /* an answer outside of the connection's handlers is sent at once, whatever the handler of the next request does */
    if (live && !c->inh && !c->small && !c->half && !c->broken) { cli_in(c, SIZE_MAX); if (c->exp_n - c->got < 3000) c->given = c->exp_n; }
    if (how < 30) server_not_found(r);
    else if (how < 60) server_ok(r, type_d, body_d);
    else server_respond(r, data_construct(status, strlen(status)), type_d, body_d);
  }
  memset(body, 'Z', bl < 100 ? bl : 100); memset(type, 'Y', sizeof type);
  if (hang_up && c->r == r && c->holds)
  {
    /* answered, and that was it */
    mon_trace("close of %d after an answer", c->id);
    if (!c->closed) { must_arrive(c, r->stream.output.size); c->closed = 1; c->closed_batch = mon_batch; }
    mon_count("hang_ups", 1);
    server_close(r);
    c->holds--; server_release(r);
  }
}
static void extra(cli *c)
{
  /* operations on a request the application holds */
  server_request *r = c->r;
  switch (rng_n(R, 4))
  {
  case 0:
    if (c->holds < 5) { c->holds++; server_hold(r); mon_count("holds", 1); }
    if (c->holds < 5 && rng_p(R, 2)) { int n = rng_p(R, 10) ? 65000 + rng_n(R, 1100) : rng_n(R, 600); c->holds += n; while (n--) server_hold(r); mon_count("many_holds", 1); }
    break;
  case 1: if (c->holds > 1 || (c->holds == 1 && !c->outstanding)) { c->holds--; server_release(r); } break;
  case 2:
    if (rng_p(R, 50)) break;
    mon_trace("close of %d by the application", c->id);
    if (!c->closed) { must_arrive(c, r->stream.output.size); c->closed = 1; c->closed_batch = mon_batch; }
    mon_count("app_closes", 1);
    server_close(r); if (rng_p(R, 30)) server_close(r);
    break;
  case 3:
    if (c->holds == 1 && c->outstanding && rng_p(R, 15))
    {
      /* let go without an answer: the connection stays, silent */
      mon_trace("release of %d without an answer", c->id);
      c->holds = 0; c->outstanding = 2; server_release(r);
    }
    break;
  }
}
/* is it the connection of this client? only asked when several have sent the same */
static int mine(cli *c, server_request *r)
{
  struct sockaddr_storage a; socklen_t n = sizeof a; int fd = descriptor_fd(&r->stream.descriptor);
  if (fd == -1) return 0;
  if (c->sfd != -1) return c->sfd == fd && !c->gone;
  return !getpeername(fd, (struct sockaddr *) &a, &n) && n == c->me_n && !memcmp(&a, &c->me, n);
}
static cli *match(server_request *r)
{
  int i, k; size_t j; cli *first = NULL, *own = NULL;
  for (k = 0; k < 2; k++)
    for (i = 0; i < NC; i++)
    {
      cli *c = &C[i]; req *q;
      if (!c->used || (k == 0 ? c->r != r : c->r != NULL) || c->handled >= c->nreq) continue;
      q = &c->reqs[c->handled];
      if (q->ml != r->method.size || memcmp(q->m, r->method.base, q->ml) || q->tl != r->target.size || memcmp(q->t, r->target.base, q->tl)) continue;
      if (q->nf != r->fields_count) continue;
      for (j = 0; j < q->nf; j++)
        if (q->f[j].nl != r->fields[j].name.size || (q->f[j].nl && memcmp(q->f[j].n, r->fields[j].name.base, q->f[j].nl)) || (!q->f[j].n) != (!r->fields[j].name.base) ||
            q->f[j].vl != r->fields[j].value.size || memcmp(q->f[j].v, r->fields[j].value.base, q->f[j].vl)) break;
      if (j != q->nf) continue;
      if (!first) first = c; else { if (!own && mine(first, r)) own = first; if (!own && mine(c, r)) own = c; mon_count("same_requests", 1); }
    }
  return own ? own : first;
}
static cli *held(void)
{
  int i, k = rng_n(R, NC ? NC : 1);
  for (i = 0; i < NC; i++) { cli *c = &C[(i + k) % NC]; if (c->used && c->holds) return c; }
  return NULL;
}
static void let_go(cli *c)
{
  /* all holds end */
  while (c->holds > 1 || (c->holds == 1 && !c->outstanding)) { c->holds--; server_release(c->r); }
  if (c->holds) { if (rng_p(R, 50)) answer(c); else { c->holds = 0; c->outstanding = 2; server_release(c->r); } }
}
static int slow;
static void srv_cb(reactor_event *e)
{
  server_request *r = (server_request *) e->data;
  srv *v = e->state;
  cli *c = match(r);
  int i, k;
  MON_CHECK(e->type == SERVER_REQUEST, "server-event", "event type %d", e->type);
  mon_count("handled", 1); mon_count("eval", 1);
  if (!c)
  {
    for (i = 0; i < NC; i++) if (C[i].used && C[i].r == r && !C[i].gone) break;
    if (i < NC)
      mon_fail("server-wrong-request", "connection %d: the handler got '%.*s %.*s' with %zu fields as request %d of %d%s", C[i].id, (int) (r->method.size > 20 ? 20 : r->method.size), (char *) r->method.base,
               (int) (r->target.size > 60 ? 60 : r->target.size), (char *) r->target.base, r->fields_count, C[i].handled, C[i].nreq, C[i].bad ? ", a malformed head follows" : "");
    mon_fail("server-wrong-request", "the handler got '%.*s %.*s' with %zu fields, which no client sent or which it got before", (int) (r->method.size > 20 ? 20 : r->method.size), (char *) r->method.base,
             (int) (r->target.size > 60 ? 60 : r->target.size), (char *) r->target.base, r->fields_count);
  }
  MON_CHECK(v == &V[c->v], "server-wrong-server", "a request of connection %d reached the handler of another server", c->id);
  for (i = 0; i < NC; i++) if (&C[i] != c && C[i].used && C[i].r == r) { MON_CHECK(!C[i].holds, "server-object-reused", "the request object of connection %d is held and serves connection %d as well", C[i].id, c->id); C[i].r = NULL; }
  MON_CHECK(!c->outstanding, "server-overlap", "connection %d: request %d reached the handler while the response to the previous one is outstanding", c->id, c->handled);
  MON_CHECK(!c->closed && !c->bad_sent, "server-after-close", "connection %d: a request reached the handler after the connection was closed", c->id);
  c->r = r; c->handled++; c->outstanding = 1; c->holds++;
  H = mon_mix(H, c->id * 100 + c->handled);
  if (slow) { slow = 0; (void) reactor_now(); usleep(60000 + rng_n(R, 60000)); mon_count("slow_handlers", 1); }
  if (handler_active < 8 && depth < 100)
  {
    handler_active++; depth++; c->inh++;
    k = rng_n(R, 100);
    if ((flags & F_LIFE) && k < 40 && c->holds) { k = 1 + rng_n(R, 3); while (k-- && c->holds) extra(c); k = 40 + rng_n(R, 60); }
    if ((flags & F_DEFER) && rng_p(R, 15)) { cli *o = held(); if (o && o != c && o->outstanding == 1) { mon_count("answered_from_other_handler", 1); answer(o); } }
    if ((flags & F_LIFE) && rng_p(R, 3)) shutdown_srv(v, 1);
    if (c->holds && c->outstanding == 1)
    {
      if (!c->prompt && (flags & F_DEFER) && rng_p(R, 35)) mon_count("deferred", 1);
      else answer(c);
    }
    handler_active--; depth--; c->inh--;
  }
  else if (c->outstanding == 1 && rng_p(R, 50)) answer(c);
}

/* ---- servers ---- */
static cli *connect_cli(int vi);
static void open_srv(srv *v)
{
  int i = v - V, fd, one = 1, sz;
  v->tls = rng_p(R, flags & F_DATE ? 10 : 30); v->kind = rng_n(R, 3); v->open = 1; v->down = 0;
  if (!v->constructed) { server_construct(&v->s, srv_cb, v); v->constructed = 1; }
  memset(&v->sa, 0, sizeof v->sa);
  if (v->kind == 0)
  {
    struct sockaddr_un *u = (void *) &v->sa;
    /* autobind: an abstract address of its own */
    u->sun_family = AF_UNIX; v->sl = sizeof(sa_family_t);
    fd = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK, 0);
  }
  else
  {
    struct sockaddr_in *a = (void *) &v->sa;
    a->sin_family = AF_INET; a->sin_addr.s_addr = mon_loopback(); v->sl = sizeof *a;
    fd = __real_socket(AF_INET, SOCK_STREAM | SOCK_NONBLOCK, 0);
    setsockopt(fd, SOL_SOCKET, SO_REUSEADDR, &one, sizeof one);
    setsockopt(fd, IPPROTO_TCP, TCP_NODELAY, &one, sizeof one);
    sz = 4096; if (v->kind == 2) setsockopt(fd, SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
  }
  if (fd == -1 || __real_bind(fd, (struct sockaddr *) &v->sa, v->sl) || __real_listen(fd, 100)) mon_harness_error("listener");
  v->sl = sizeof v->sa; getsockname(fd, (struct sockaddr *) &v->sa, &v->sl);
  v->fd = fd;
  mon_trace("server %d opens: kind %d%s", i, v->kind, v->tls ? " tls" : "");
  /* connections there already, and a request on them, when the server opens */
  if ((flags & F_DATE) && !v->tls && !v->s.ssl_ctx)
    for (sz = rng_p(R, 50) ? rng_n(R, 3) : 0; sz; sz--)
    {
      cli *c = connect_cli(i);
      if (!c) break;
      make_good(c); feed(c, SIZE_MAX); cli_out(c, SIZE_MAX);
      mon_count("connections_before_open", 1);
    }
  server_open(&v->s, fd, v->tls ? sctx[rng_n(R, 3)] : NULL);
  mon_count("server_opens", 1);
}
static void shutdown_srv(srv *v, int pattern)
{
  int i, pass, again, was = v->down;
  if (!v->constructed) return;
  /* Known findings closed-held-shutdown and closed-in-handler-shutdown: a request that was closed while it is referenced
   * must be let go before the shutdown */
  for (i = 0; i < NC; i++)
  {
    cli *c = &C[i];
    if (c->used && c->v == v - V && !c->down && c->inh && (c->closed || c->bad_sent || c->eof || c->half || c->gone || c->broken)) return;
  }
  for (pass = again = 1; again && pass <= 20; pass++)
    for (i = again = 0; i < NC; i++)
    {
      cli *c = &C[i];
      int n = 0;
      if (!c->used || c->v != v - V || c->down || !c->holds) continue;
      if (c->closed || c->bad_sent || c->eof || c->half || c->broken || c->tls * c->gone || (c->gone && c->gone_batch != mon_batch))
      {
        if ((pattern == 1 && depth) || pass == 20) return;
        /* this may run handlers, which may close others */
        while (c->holds && n++ < 1000) let_go(c);
        again = 1;
      }
    }
  if (v->down && !was) return;
  mon_trace("server %d shuts down", (int) (v - V));
  note_shutdown(v);
  v->open = 0; v->down = 1; v->shutdowns++;
  mon_count("shutdowns", 1);
  server_shutdown(&v->s);
  if (rng_p(R, 30)) server_shutdown(&v->s);
}
/* ---- clients ---- */
static cli *connect_cli(int vi)
{
  srv *v = &V[vi];
  cli *c = NULL;
  int i, sv[2], sz;
  for (i = 0; i < NC; i++) if (!C[i].used) { c = &C[i]; break; }
  if (!c && NC < MC) { c = &C[NC++]; memset(c, 0, sizeof *c); }
  if (!c || !v->open) return NULL;
  memset(c, 0, sizeof *c);
  c->used = 1; c->id = next_id++; c->v = vi; c->tls = v->tls; c->fd = c->sfd = -1;
  if (rng_p(R, 40))
  {
    if (rng_p(R, 30)) { mon_tcp_pair(sv, 1); c->tcp = 1; sz = 1 << 16; } else { mon_socketpair(sv, 1); if (rng_p(R, 40)) { c->small = 1; sz = rng_p(R, 50) ? 1 : 1 << rng_n(R, 16); setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz); } }
    c->fd = sv[1]; c->sfd = sv[0];
    server_accept(&v->s, sv[0]);
    mon_count("given_connections", 1);
  }
  else
  {
    c->fd = __real_socket(v->sa.ss_family, SOCK_STREAM, 0);
    if (v->kind) { c->tcp = 1; sz = 1; setsockopt(c->fd, IPPROTO_TCP, TCP_NODELAY, &sz, sizeof sz); }
    if (v->kind == 2) c->small = 1;
    if (!v->kind) { struct sockaddr_un u = {.sun_family = AF_UNIX}; if (c->fd == -1 || __real_bind(c->fd, (struct sockaddr *) &u, sizeof(sa_family_t))) mon_harness_error("client address"); }
    if (c->fd == -1 || __real_connect(c->fd, (struct sockaddr *) &v->sa, v->sl)) mon_harness_error("client connect");
    c->me_n = sizeof c->me; getsockname(c->fd, (struct sockaddr *) &c->me, &c->me_n);
    mon_nonblock(c->fd, 1); mon_own(c->fd);
    c->listenq = 1;
    mon_count("accepted_connections", 1);
  }
  if (c->tls)
  {
    c->ssl = SSL_new(cctx); c->in = BIO_new(BIO_s_mem()); c->out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(c->in, -1); BIO_set_mem_eof_return(c->out, -1);
    SSL_set_bio(c->ssl, c->in, c->out); SSL_set_connect_state(c->ssl);
    if (rng_p(R, 30)) SSL_set_max_proto_version(c->ssl, TLS1_2_VERSION);
    if (rng_p(R, 20)) SSL_set_max_send_fragment(c->ssl, 512);
  }
  c->hostile = (flags & F_HOSTILE) && rng_p(R, 45);
  mon_trace("client %d connects to server %d%s%s", c->id, vi, c->tls ? " tls" : "", c->hostile ? " hostile" : "");
  return c;
}
static void leave(cli *c, int how)
{
  struct linger l = {1, 0};
  if (c->gone) return;
  if (how == 0 && !c->half)
  {
    if (c->tls) c->broken = 1;
    if (c->outq_n || c->fed < c->plain_n) c->dropped = 1;
    shutdown(c->fd, SHUT_WR); c->half = 1; c->gone_batch = mon_batch; mon_trace("client %d half-closes", c->id);
    return;
  }
  if (how == 2 && c->tcp) setsockopt(c->fd, SOL_SOCKET, SO_LINGER, &l, sizeof l);
  mon_close(c->fd); c->fd = -1; c->gone = 1; c->gone_batch = mon_batch;
  mon_count("client_left", 1); mon_trace("client %d leaves%s", c->id, how == 2 ? " with a reset" : "");
}
static void spoil(cli *c)
{
  uint8_t b[400]; size_t n = 1 + rng_n(R, sizeof b);
  if (!c->tls || c->half || c->gone) return;
  crypto(c);
  rng_bytes(R, b, n); if (rng_p(R, 30)) n = sprintf((char *) b, "GET / HTTP/1.1\r\n\r\n");
  if (c->outq_n && rng_p(R, 40)) c->outq[rng_n(R, c->outq_n)] ^= 1 << rng_n(R, 8); else put(&c->outq, &c->outq_n, &c->outq_cap, b, n);
  c->broken = 1; mon_count("spoiled_tls", 1); mon_trace("client %d spoils its TLS wire", c->id);
}
static int dead(cli *c) { return c->gone && !c->holds; }
static int debt(cli *c)
{
  if (!c->used || c->gone || c->broken) return 0;
  if (c->half) return c->eof ? 0 : 1;
  if (c->closed) return !c->eof ? 2 : c->got < c->must ? 3 : 0;
  if (c->down)
  {
    if (c->got < c->must) return 3;
    if (!c->holds && !c->eof) return 4;
    return 0;
  }
  if (c->bad_sent) return !c->eof ? 5 : c->got < c->exp_n && !c->small && c->lag < 3000 ? 9 : 0;
  /* known finding bad-request-truncates: output that does not fit into the socket's buffer is lost when a head is rejected */
  if (c->eof && c->bad && c->handled == c->nreq && !c->outstanding && (c->small || c->lag > 3000)) { mon_count("truncated", 1); return 0; }
  if (c->eof) return 6;
  if (c->fed < c->plain_n || c->outq_n) return 7;
  if (!c->outstanding && c->handled < c->nreq) return 8;
  if (c->got < c->exp_n) return 9;
  if (!c->outstanding && c->bad && !c->bad_sent) return 10;
  return 0;
}
static void settle(void)
{
  int i, k = 0, round, calm = 0, moved, tcp;
  uint64_t t;
  for (round = 0; round < 100000; round++)
  {
    moved = 0;
    for (i = 0; i < NC; i++) if (C[i].used && !C[i].gone) { feed(&C[i], SIZE_MAX); moved += cli_out(&C[i], SIZE_MAX) > 0; moved += cli_in(&C[i], SIZE_MAX) > 0; }
    t = vnow();
    if (mon_step()) { if (!accel) moved = 1; if (mon_settle(100000) < 0) mon_fail("server-spins", "the loop does not come to rest"); t = 0; }
    if (t && accel) lo_settled = t - 1000000000;
    k = 0; tcp = 0;
    for (i = 0; i < NC; i++) if (debt(&C[i])) { k = 1; if (C[i].tcp) tcp = 1; }
    if (moved) { calm = 0; if (!k && round > 200) break; continue; }
    if (!k) break;
    if (++calm > (tcp ? 1500 : 60)) break;
    usleep(calm < 20 ? 200 : 5000);
  }
  for (i = 0; i < NC && k; i++)
  {
    cli *c = &C[i];
    switch (debt(c))
    {
    case 1: mon_fail("server-eof-missing", "connection %d: the client half-closed and the server does not close it", c->id);
    case 2: mon_fail("server-eof-missing", "connection %d was closed by the application and the client does not see it", c->id);
    case 3: mon_fail("server-answer-lost", "connection %d: %zu bytes of answers given before the connection was closed in order, %zu arrived", c->id, c->must, c->got);
    case 4: mon_fail("server-eof-missing", "connection %d is open after the shutdown of its server", c->id);
    case 5: mon_fail("server-bad-not-closed", "connection %d stays open after a malformed request", c->id);
    case 6: mon_fail("server-closed-early", "connection %d was closed by the server without a reason (handled %d of %d)", c->id, c->handled, c->nreq);
    case 7: mon_fail("server-not-reading", "connection %d: the server does not take %zu bytes (handled %d of %d, outstanding %d)", c->id, c->plain_n - c->fed + c->outq_n, c->handled, c->nreq, c->outstanding);
    case 8: mon_fail("server-request-lost", "connection %d: %d of %d requests reached the handler", c->id, c->handled, c->nreq);
    case 9: mon_fail("server-response-lost", "connection %d: %zu of %zu response bytes arrived", c->id, c->got, c->exp_n);
    case 10: mon_fail("server-bad-unanswered", "connection %d: a malformed head after %d requests is not answered with 400", c->id, c->nreq);
    }
  }
  if (accel) { t = vnow(); if (!mon_step()) lo_settled = t - 1000000000; }
  mon_count("settled", 1); mon_count("eval", NC);
}
static int accept_faults;
static int accept_hook(int fd, int *ret)
{
  static const int es[] = {ECONNABORTED, EINTR, EMFILE, ENFILE, EAGAIN, ENOBUFS, ENOMEM, EPROTO, ENETDOWN};
  (void) fd;
  if (accept_faults <= 0) return 0;
  accept_faults--;
  mon_count("accept_failures", 1);
  errno = es[mon_case % 3 ? (accept_faults + mon_case) % 9 : accept_faults % 9];
  *ret = -1;
  return 1;
}
static int left_waits;
static void left_wait(void) { left_waits++; reactor_abort(); }
static void run(rng *r, int f)
{
  int i, k, step, steps = 20 + rng_n(r, 60), deep;
  cli *c;
  R = r; flags = f; H = MON_H0; NC = 0; depth = handler_active = 0; next_id = 1; accept_faults = 0;
  memset(V, 0, sizeof V);
  NV = 1 + rng_p(r, 25);
  big = rng_p(r, 25) ? 1000000 : rng_p(r, 40) ? 30000 : 0;
  deep = rng_p(r, 4);
  if (deep) big = 0;
  lo_settled = 0;
  accel = 0;
  mon_accept_hook = f & F_FAULT ? accept_hook : NULL;
  reactor_construct();
  for (i = 0; i < NV; i++) open_srv(&V[i]);
  if (rng_p(r, 2))
  {
    /* a crowd: hundreds of connections at a time */
    int n = 60 + rng_n(r, rng_p(r, 40) ? 620 : 220);
    big = 0; mon_count("crowds", 1);
    while (n--)
    {
      if (!(c = connect_cli(rng_n(r, NV)))) break;
      c->hostile = 0;
      for (i = rng_n(r, 3); i; i--) make_good(c);
      if (rng_p(r, 30)) { feed(c, SIZE_MAX); cli_out(c, SIZE_MAX); }
      if (rng_p(r, 30)) mon_step();
    }
    steps += 40;
  }
  for (step = 0; step < steps; step++)
  {
    k = rng_n(r, 100);
    c = NC ? &C[rng_n(r, NC)] : NULL;
    if (c && !c->used) c = NULL;
    if (!c || k < 6) { connect_cli(rng_n(r, NV)); }
    else if (k < 30) { if (!c->gone && !c->half) { int n = 1 + rng_n(r, 4); if (deep && !c->hostile && !c->small && rng_p(r, 20)) { c->prompt = rng_p(r, 75); n = rng_p(r, 20) ? 1000 + rng_n(r, 1000) : rng_n(r, 300); mon_count("deep_pipelines", 1); } while (n--) if (c->hostile && rng_p(r, 50)) make_hostile(c); else make_good(c); } }
    else if (k < 55) { if (!c->gone) { feed(c, rng_p(r, 40) ? SIZE_MAX : rng_size(r, 300)); cli_out(c, rng_p(r, 40) ? SIZE_MAX : rng_p(r, 30) ? 1 : rng_size(r, 300)); } }
    else if (k < 63) { if (!c->gone) cli_in(c, rng_p(r, 50) ? SIZE_MAX : rng_size(r, 3000)); }
    else if (k < 78) { int n = 1 + rng_n(r, 5); while (n--) mon_step(); }
    else if (k < 86) { cli *h = held(); if (h) { if (f & F_LIFE && rng_p(r, 40)) extra(h); else if (h->outstanding == 1) answer(h); } }
    else if (k < 90) { if (rng_p(r, f & (F_LIFE | F_HOSTILE) ? 60 : 10)) leave(c, rng_n(r, 3)); }
    else if (k < 92) { if (f & F_HOSTILE) spoil(c); }
    else if (k < 94) { if (f & F_FAULT) accept_faults = rng_n(r, 5); }
    else if (k < 96) { if ((f & F_LIFE) && rng_p(r, 30)) { srv *v = &V[rng_n(r, NV)]; if (v->open) shutdown_srv(v, 0); else if (rng_p(r, 60)) { server_shutdown(&v->s); } else if (!v->open) open_srv(v); } }
    else if (k < 98) settle();
    if (rng_p(r, 30)) mon_step();
    for (i = 0; i < NC; i++) if (C[i].used && dead(&C[i]) && C[i].gone_batch + 4 < mon_batch && rng_p(r, 20)) { free_cli(&C[i]); }
  }
  accept_faults = 0;
  settle();
  /* everything that is held is answered or let go, in some order */
  for (i = 0; i < NC; i++) if (C[i].used && rng_p(r, 60)) while (C[i].holds && C[i].outstanding == 1) answer(&C[i]);
  settle();
  if (rng_p(r, 50)) for (i = 0; i < NC; i++) if (C[i].used && C[i].holds) let_go(&C[i]);
  if (mon_case < 2) mon_sample("%d connections, first: %d of %d requests handled, %zu bytes received%s", NC, C[0].handled, C[0].nreq, C[0].got, C[0].tls ? ", tls" : "");
  for (i = 0; i < NV; i++) { shutdown_srv(&V[i], 0); if (rng_p(r, 50)) { server_destruct(&V[i].s); V[i].constructed = 0; } }
  if (rng_p(r, 50)) settle();
  for (i = 0; i < NC; i++) if (C[i].used) { int n = 0; while (C[i].holds && n++ < 1000) let_go(&C[i]); }
  settle();
  for (i = 0; i < NC; i++) if (C[i].used) { MON_CHECK(!C[i].holds, "server-harness", "holds left"); free_cli(&C[i]); }
  /* nothing is registered any more, destroyed or not: the loop ends at once */
  if (flags & F_LIFE)
  {
    mon_wait_hook = left_wait; left_waits = 0;
    reactor_loop();
    mon_wait_hook = NULL;
    MON_CHECK(!left_waits, "server-keeps-loop", "all servers are shut down and everything is released, but the loop still waits for something");
    mon_count("loops_ended_by_shutdown", 1);
  }
  for (i = 0; i < NV; i++) if (V[i].constructed) server_destruct(&V[i].s);
  reactor_destruct(); reactor_construct();
  MON_CHECK(!mon_step(), "server-left-over", "something was dispatched after all servers were destroyed");
  reactor_destruct();
  ERR_clear_error();
  mon_distinct(H);
}
static void scn_serve(rng *r) { run(r, F_DEFER); }
static void scn_life(rng *r) { run(r, F_DEFER | F_LIFE); }
static void scn_hostile(rng *r) { run(r, F_DEFER | F_HOSTILE | F_FAULT); }

/* ---- C13: released, not merely forgotten ---- */
static void scn_churn(rng *r)
{
  int i, k, rounds = 40 + rng_n(r, 60);
  size_t h1 = 0, h2 = 0; int f1 = 0, f2 = 0;
  R = r; flags = F_LIFE | F_DEFER; NC = 0; depth = handler_active = 0; next_id = 1; NV = 1; accel = 0; H = mon_mix(MON_H0, mon_case); big = 0; lo_settled = 0;
  memset(V, 0, sizeof V);
  mon_accept_hook = NULL;
  reactor_construct();
  open_srv(&V[0]);
  for (i = 0; i < 3 * rounds; i++)
  {
    cli *c = connect_cli(0);
    rng fixed = {mon_case * 77 + i % 3};
    if (c)
    {
      R = &fixed; flags = F_DEFER;
      for (k = 0; k < 3; k++) make_good(c);
      for (k = 0; k < 20; k++) { feed(c, SIZE_MAX); cli_out(c, SIZE_MAX); mon_settle(1000); cli_in(c, SIZE_MAX); if (c->holds && c->outstanding == 1 && i % 2) answer(c); }
      leave(c, i % 3);
      mon_settle_ms(1000, 1);
      if (c->fd != -1) leave(c, 1);
      while (c->holds) let_go(c);
      mon_settle_ms(1000, 1);
      free_cli(c);
      R = r; flags = F_LIFE | F_DEFER;
    }
    if (i == rounds) { h1 = mon_heap(); f1 = mon_count_fds(); }
    if (i == 3 * rounds - 1) { h2 = mon_heap(); f2 = mon_count_fds(); }
  }
  MON_CHECK(f2 <= f1, "server-descriptors-kept", "%d descriptors open after %d ended connections, %d after %d", f1, rounds, f2, 3 * rounds);
  MON_CHECK(h2 <= h1 + 2000 || h2 - h1 < (size_t) rounds * 60, "server-memory-kept", "heap grows from %zu to %zu bytes over %d ended connections", h1, h2, 2 * rounds);
  mon_count("churned", 3 * rounds);
  server_destruct(&V[0].s);
  reactor_destruct();
  ERR_clear_error();
  mon_distinct(H);
}

/* ---- C15: dates under a controlled clock ---- */
static const char *zones[] = {"UTC", "America/New_York", "Asia/Kolkata", "XXX-13:45", "Pacific/Apia", "right/UTC", "EST5EDT,M3.2.0,M11.1.0"};
static char locales[4][40]; static int nlocales;
static void init_common(void)
{
  char c[600], k[600];
  const char *certs = getenv("VERIF_CERTS");
  int i;
  for (i = 0; i < 3; i++)
  {
    snprintf(c, sizeof c, "%s/%s", certs, i == 1 ? "ec-cert.pem" : "cert.pem"); snprintf(k, sizeof k, "%s/%s", certs, i == 1 ? "ec-key.pem" : "key.pem");
    sctx[i] = SSL_CTX_new(TLS_server_method());
    if (SSL_CTX_use_certificate_file(sctx[i], c, SSL_FILETYPE_PEM) != 1 || SSL_CTX_use_PrivateKey_file(sctx[i], k, SSL_FILETYPE_PEM) != 1) mon_harness_error("certificate %s", c);
    SSL_CTX_set_session_cache_mode(sctx[i], SSL_SESS_CACHE_OFF);
    if (i == 2) SSL_CTX_set_max_proto_version(sctx[i], TLS1_2_VERSION);
  }
  cctx = SSL_CTX_new(TLS_client_method());
  ERR_clear_error();
  signal(SIGPIPE, SIG_IGN);
}
static void init_date(void)
{
  static const char *want[] = {"de_DE", "ja_JP", "ar_EG"};
  char cmd[1200], name[60];
  int i;
  init_common();
  setenv("LOCPATH", mon_dir, 1);
  for (i = 0; i < 3; i++)
  {
    snprintf(cmd, sizeof cmd, "localedef -i %s -f UTF-8 --no-archive --no-warnings=ascii %s/%s.UTF-8 >/dev/null 2>&1", want[i], mon_dir, want[i]);
    if (mon_case == 0 && system(cmd) == -1) {}
    snprintf(name, sizeof name, "%s.UTF-8", want[i]);
    if (setlocale(LC_ALL, name)) { snprintf(locales[nlocales++], 40, "%s", name); mon_count("locales", 1); }
    setlocale(LC_ALL, "C");
  }
}
static uint64_t random_moment(void)
{
  int y = rng_p(R, 30) ? 1970 + rng_n(R, 8000) : rng_p(R, 50) ? 2000 + rng_n(R, 101) : (int []) {1970, 1999, 2000, 2024, 2038, 2099, 2100, 2400, 2999}[rng_n(R, 9)], m = 1 + rng_n(R, 12), d;
  static const int len[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31};
  int64_t s;
  if (rng_p(R, 30)) { m = rng_p(R, 50) ? 2 : rng_p(R, 50) ? 12 : 1; }
  d = rng_p(R, 40) ? len[m - 1] + (m == 2 && ((y % 4 == 0 && y % 100 != 0) || y % 400 == 0)) : rng_p(R, 30) ? 1 : 1 + rng_n(R, len[m - 1]);
  s = days_of(y, m, d) * 86400 + (rng_p(R, 50) ? 86400 - 1 - (int) rng_n(R, 4) : rng_n(R, 86400));
  if (s > 18000000000ll) s = 18000000000ll - rng_n(R, 1000000);      /* what 64 bits of nanoseconds can hold */
  return s * 1000000000ull + rng_n(R, 1000000000);
}
static void scn_date(rng *r)
{
  int i, k, step, steps = 6 + rng_n(r, 10);
  cli *c;
  uint64_t t0;
  R = r; flags = F_DEFER | F_DATE; H = mon_mix(MON_H0, mon_case); NC = 0; depth = handler_active = 0; next_id = 1; big = 0; accept_faults = 0;
  memset(V, 0, sizeof V);
  mon_accept_hook = NULL;
  setenv("TZ", zones[rng_n(r, 7)], 1); tzset();
  setlocale(LC_ALL, nlocales && rng_p(r, 70) ? locales[rng_n(r, nlocales)] : "C");
  accel = 1; vbase = random_moment(); m0 = mon_mono_ns(); lo_settled = 0;
  mon_clock_hook = clock_hook; mon_settime_hook = settime_hook;
  mon_trace("the clock starts at %llu", (unsigned long long) (vbase / 1000000000));
  reactor_construct();
  NV = 1 + rng_p(r, 40);
  for (i = 0; i < NV; i++)
  {
    server_construct(&V[i].s, srv_cb, &V[i]); V[i].constructed = 1;
    if (rng_p(r, 40)) { vbase += rng_n(r, 5000) * 1000000000ull; lo_settled = 0; }
  }
  t0 = vnow();
  for (i = 0; i < NV; i++) if (!i || rng_p(r, 70)) open_srv(&V[i]);
  /* the first responses: nothing but opening can have set the date */
  lo_settled = t0 - 1000000000;
  for (step = 0; step < steps; step++)
  {
    srv *v = &V[rng_n(r, NV)];
    if (!v->open)
    {
      if (rng_p(r, 50))
      {
        int any = 0;
        for (i = 0; i < NV; i++) any |= V[i].open;
        if (!any) { vbase += rng_n(r, 100000) * 1000000000ull; }
        t0 = vnow(); open_srv(v); lo_settled = any ? lo_settled : t0 - 1000000000;
      }
      else continue;
    }
    c = connect_cli(v - V);
    if (!c) continue;
    k = 1 + rng_n(r, 3); while (k--) make_good(c);
    feed(c, SIZE_MAX); cli_out(c, SIZE_MAX);
    k = rng_n(r, 4); while (k--) { mon_step(); cli_in(c, SIZE_MAX); cli_out(c, SIZE_MAX); }
    if (rng_p(r, 60)) usleep(rng_n(r, 45000));
    if (rng_p(r, 70)) settle();
    { cli *h = held(); if (h && h->outstanding == 1) answer(h); }
    if (rng_p(r, 20) && !c->gone)
    {
      /* a handler that takes seconds and looks at the loop's clock first, in one turn with the refresh */
      settle();
      make_good(c); feed(c, SIZE_MAX); cli_out(c, SIZE_MAX);
      usleep(21000 + rng_n(r, 10000));
      slow = 1; mon_step(); slow = 0;
      t0 = vnow(); if (!mon_step()) lo_settled = t0 - 1000000000;
      { cli *h = held(); if (h && h->outstanding == 1) answer(h); }
      make_good(c); feed(c, SIZE_MAX); cli_out(c, SIZE_MAX); mon_step(); cli_in(c, SIZE_MAX);
    }
    if (rng_p(r, 15)) { srv *w = &V[rng_n(r, NV)]; if (w->open) shutdown_srv(w, 0); }
    if (rng_p(r, 15)) leave(c, 1);
  }
  settle();
  for (i = 0; i < NC; i++) if (C[i].used) while (C[i].holds && C[i].outstanding == 1) answer(&C[i]);
  settle();
  for (i = 0; i < NV; i++) { shutdown_srv(&V[i], 0); server_destruct(&V[i].s); V[i].constructed = 0; }
  for (i = 0; i < NC; i++) if (C[i].used) { while (C[i].holds) let_go(&C[i]); free_cli(&C[i]); }
  reactor_destruct();
  ERR_clear_error();
  mon_clock_hook = NULL; mon_settime_hook = NULL; accel = 0;
  setlocale(LC_ALL, "C");
}

/* ---- known findings ---- */
static server_request *kept;
static void keep_cb(reactor_event *e) { kept = (server_request *) e->data; }
static void scn_closed_held(rng *r)
{
  /* a request is held while its client leaves; the server is shut down; the request is answered */
  int sv[2]; server s;
  (void) r;
  reactor_construct();
  server_construct(&s, keep_cb, NULL);
  mon_socketpair(sv, 1);
  server_accept(&s, sv[0]);
  kept = NULL;
  __real_write(sv[1], "GET / HTTP/1.1\r\n\r\n", 18);
  mon_settle(100);
  if (!kept) mon_harness_error("no request");
  mon_close(sv[1]);
  mon_settle(100);
  mon_count("eval", 1); mon_distinct(1);
  server_shutdown(&s);
  MON_CHECK(list_empty(&s.requests) == 0, "closed-held-shutdown", "a request that the application holds was released by the shutdown because its connection had been closed before");
  server_ok(kept, data_null(), data_null());
  server_destruct(&s);
  reactor_destruct();
}
static int left;
static void shut_cb(reactor_event *e)
{
  server_request *r = (server_request *) e->data; server *s = e->state;
  server_close(r); server_release(r); server_shutdown(s);
  left = !list_empty(&s->requests);
  MON_CHECK(left, "closed-in-handler-shutdown", "a handler closed and released its request and shut the server down: the request was freed while the server still uses it");
}
static void scn_closed_handler(rng *r)
{
  int sv[2]; server s;
  (void) r;
  reactor_construct();
  server_construct(&s, shut_cb, &s);
  mon_socketpair(sv, 1);
  server_accept(&s, sv[0]);
  left = -1;
  __real_write(sv[1], "GET / HTTP/1.1\r\n\r\n", 18);
  mon_settle(100);
  if (left == -1) mon_harness_error("no request");
  mon_count("eval", 1); mon_distinct(2);
  server_destruct(&s);
  mon_close(sv[1]);
  reactor_destruct();
}
static void big_cb(reactor_event *e) { static char b[1000000]; server_ok((server_request *) e->data, data_null(), data_construct(b, sizeof b)); }
static void scn_bad_truncates(rng *r)
{
  /* a large response is on its way when a malformed head is rejected */
  int sv[2], i; server s; static char b[65536]; size_t tot = 0; ssize_t n = -1;
  (void) r;
  reactor_construct();
  server_construct(&s, big_cb, NULL);
  mon_socketpair(sv, 1);
  server_accept(&s, sv[0]);
  __real_write(sv[1], "GET / HTTP/1.1\r\n\r\n\x01\r\n\r\n", 23);
  for (i = 0; i < 1000; i++) { mon_settle(100); while ((n = __real_read(sv[1], b, sizeof b)) > 0) tot += n; if (n == 0) break; }
  mon_count("eval", 1); mon_distinct(1);
  server_destruct(&s);
  mon_close(sv[1]);
  reactor_destruct();
  MON_CHECK(tot > 1000000, "bad-request-truncates", "a malformed head behind a request whose response of 1000000 bytes is still being sent: the client received %zu bytes, without the 400", tot);
}
static void scn_endless(rng *r)
{
  /* a head that never ends: it is neither rejected nor given up, however long it gets */
  int sv[2], i, ended = 0; server s; static char b[65536]; size_t tot = 0; ssize_t n;
  (void) r;
  reactor_construct();
  server_construct(&s, keep_cb, NULL);
  mon_socketpair(sv, 1);
  server_accept(&s, sv[0]);
  kept = NULL;
  memset(b, 'a', sizeof b);
  __real_write(sv[1], "GET / HTTP/1.1\r\nA: ", 19);
  for (i = 0; i < 1000 && tot < 8 << 20 && !ended; i++)
  {
    while (tot < 8 << 20 && (n = __real_write(sv[1], b, sizeof b)) > 0) tot += n;
    mon_settle(100);
    if (__real_read(sv[1], b + 1, 1) >= 0) ended = 1; /* answered or closed */
  }
  mon_count("eval", 1); mon_distinct(3);
  if (kept) mon_fail("handled", "an unfinished head reached the handler");
  server_destruct(&s);
  mon_close(sv[1]);
  reactor_destruct();
  MON_CHECK(ended, "endless-head", "%zu bytes of a request head that never ends were buffered and parsed from the start with each piece; the client was neither answered nor closed", tot);
}
const mon_scenario mon_scenarios[] = {
  {"serve", scn_serve, MON_FDS | MON_MEM, init_common}, {"life", scn_life, MON_FDS | MON_MEM, init_common}, {"hostile", scn_hostile, MON_FDS | MON_MEM, init_common},
  {"churn", scn_churn, MON_FDS | MON_MEM, init_common}, {"date", scn_date, MON_FDS, init_date},
  {"closedheld", scn_closed_held, 0, init_common}, {"closedhandler", scn_closed_handler, 0, init_common}, {"badtruncates", scn_bad_truncates, 0, init_common}, {"endless", scn_endless, 0, init_common}, {0} };
