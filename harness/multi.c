/* Monitors for reactors in several threads (C27).  Nothing below synchronises the threads between start and end,
   so that the race detector sees every conflict; each thread judges itself by what it would see alone. */
#include "mon.h"
#include <sys/mman.h>
#include <netdb.h>
#include <netinet/in.h>
#include "picohttpparser/picohttpparser.h"

#define MT 8
#define MUNIT 12
enum { U_EVENT, U_TIMER, U_ECHO, U_HTTP, U_RESOLVE, U_ASYNC, U_NOTIFY, U_PURE, U_PARSE, U_PIPE, U_N };
enum { C_EVAL, C_SIGNALS, C_EXPIRED, C_ECHOED, C_RESPONSES, C_HANDSHAKES, C_RESOLVED, C_CALLS, C_NOTES, C_PURE, C_PARSED, C_PIPED, C_ABORTED, C_KILLED, C_ENDED, C_N };
static const char *c_name[C_N] = {"eval", "signals", "expired", "echoed", "responses", "handshakes", "resolved", "async_calls", "notes", "pure", "parsed", "piped", "aborted", "killed", "ended"};
typedef struct thr thr;
typedef struct
{
  thr *t; int kind, done, tls, n, want; uint64_t seed, start;
  event ev; timer tm; stream a, b; server sv; resolver rs; async as; notify no; descriptor de;
  server_request *held; int held_n;
  size_t total, sent, got; char path[300]; int fd; uint64_t word;
  SSL_CTX *sctx, *cctx;
} unit;
struct thr
{
  pthread_t id; rng r; int n, k, left, ending, aborted, started; unit *u[MUNIT]; uint64_t counts[C_N]; uint64_t t0;
  unit end_timer; int sleepy;
  uint64_t h;
};
static thr T[MT];
static int N, waves;
static pthread_barrier_t barrier;
static SSL_CTX *shared_server, *shared_client;
static char shared_request[4096]; static size_t shared_request_n;
static uint64_t pure_ref[5], parse_ref;
static const char *certs;

static uint8_t content(uint64_t seed, size_t i) { return mon_mix(seed, i / 8) >> (8 * (i % 8)); }
static void unit_done(unit *u);

static void on_event(reactor_event *e)
{
  unit *u = e->state;
  MON_CHECK(e->type == EVENT_SIGNAL && !u->done, "multi-event", "unexpected event type %d", e->type);
  u->t->counts[C_SIGNALS]++; u->t->counts[C_EVAL]++;
  MON_CHECK(++u->n <= u->want, "multi-event", "more signals than were sent");
  if (u->n == u->want) { event_close(&u->ev); unit_done(u); return; }
  event_signal(&u->ev);
}
static void on_timer(reactor_event *e)
{
  unit *u = e->state; uint64_t now = mon_mono_ns();
  MON_CHECK(e->type == TIMER_EXPIRATION && !u->done, "multi-timer", "unexpected event type %d", e->type);
  u->n++;
  MON_CHECK(now >= u->start + (uint64_t) (u->n) * u->word, "multi-timer", "report %d of a timer of %llu ns after %llu ns", u->n, (unsigned long long) u->word, (unsigned long long) (now - u->start));
  u->t->counts[C_EXPIRED]++; u->t->counts[C_EVAL]++;
  if (u->n == u->want) { timer_clear(&u->tm); unit_done(u); }
}
static void feed(unit *u, stream *s)
{
  char b[8192]; size_t n = u->total - u->sent, i;
  if (n > sizeof b) n = sizeof b;
  if (!n) return;
  for (i = 0; i < n; i++) b[i] = content(u->seed, u->sent + i);
  stream_write(s, data_construct(b, n));
  u->sent += n;
  stream_flush(s); stream_notify(s);
}
static void on_echo_a(reactor_event *e)
{
  unit *u = e->state; data d; size_t i;
  switch (e->type)
  {
  case STREAM_WRITE: feed(u, &u->a); break;
  case STREAM_READ:
    d = stream_read(&u->a);
    for (i = 0; i < data_size(d); i++) MON_CHECK(((uint8_t *) data_base(d))[i] == content(u->seed, u->got + i), "multi-echo", "byte %zu comes back changed", u->got + i);
    u->got += data_size(d);
    stream_consume(&u->a, data_size(d));
    MON_CHECK(u->got <= u->sent, "multi-echo", "%zu bytes come back, %zu were sent", u->got, u->sent);
    u->t->counts[C_EVAL]++;
    if (u->got == u->total) { u->t->counts[C_ECHOED]++; stream_close(&u->a); stream_close(&u->b); unit_done(u); }
    break;
  default: mon_fail("multi-echo", "the stream is closed after %zu of %zu bytes", u->got, u->total);
  }
}
static void on_echo_b(reactor_event *e)
{
  unit *u = e->state; data d;
  if (e->type == STREAM_WRITE) return;
  if (e->type != STREAM_READ) mon_fail("multi-echo", "the stream is closed after %zu of %zu bytes", u->got, u->total);
  d = stream_read(&u->b);
  stream_write(&u->b, d); stream_consume(&u->b, data_size(d)); stream_flush(&u->b);
}
static data body_for(unit *u, int i, char *b, size_t n)
{
  size_t k = 10 + mon_mix(u->seed, i) % (n - 20), j;
  for (j = 0; j < k; j++) b[j] = 'a' + content(u->seed + i, j) % 26;
  return data_construct(b, k);
}
static void answer(unit *u, server_request *q, int i) { char b[2000]; server_ok(q, data_string("text/plain"), body_for(u, i, b, sizeof b)); }
static void on_request(reactor_event *e)
{
  unit *u = e->state; server_request *q = (server_request *) e->data; char want[40];
  snprintf(want, sizeof want, "/%d", u->n);
  MON_CHECK(e->type == SERVER_REQUEST && data_equal(q->method, data_string("GET")) && data_equal(q->target, data_string(want)), "multi-http", "request %d arrives as %.*s", u->n, (int) data_size(q->target), (char *) data_base(q->target));
  MON_CHECK(q->fields_count == 1 && data_equal(q->fields[0].name, data_string("Host")), "multi-http", "the fields of request %d differ", u->n);
  u->n++;
  if (mon_mix(u->seed, u->n) % 4 == 0) { u->held = q; u->held_n = u->n - 1; event_signal(&u->ev); }
  else answer(u, q, u->n - 1);
}
static void on_held(reactor_event *e)
{
  unit *u = e->state; server_request *q = u->held;
  if (!q) return;
  u->held = NULL;
  answer(u, q, u->held_n);
}
static void ask(unit *u) { char b[100]; snprintf(b, sizeof b, "/%zu", u->sent); http_write_request(&u->a, data_string("GET"), data_string(b), data_string("test"), data_null(), data_null()); u->sent++; }
static const char *dates(char *b, size_t n, time_t t) { struct tm tm; gmtime_r(&t, &tm); strftime(b, n, "%a, %d %b %Y %H:%M:%S GMT", &tm); return b; }
static void on_response(reactor_event *e)
{
  unit *u = e->state; int code; size_t len; data body, date; http_field f[16]; size_t fc; ssize_t k; char b[2000], ds[40]; int i; time_t now;
  if (e->type != STREAM_READ) mon_fail("multi-http", "the connection is closed after %zu of %zu responses", u->got, u->total);
  while (1)
  {
    fc = 16;
    k = http_read_response(&u->a, &code, &body, f, &fc);
    if (k == -2) break;
    MON_CHECK(k > 0, "multi-http", "response %zu cannot be read (%zd)", u->got, k);
    date = http_field_lookup(f, fc, data_string("Content-Length"));
    len = strtoul(data_base(date), NULL, 10);
    if (data_size(stream_read(&u->a)) < k + len) break;
    body = data_construct((char *) data_base(stream_read(&u->a)) + k, len); k += len;
    MON_CHECK(u->got < u->sent, "multi-http", "more responses than requests");
    MON_CHECK(code == 200 && data_equal(body, body_for(u, u->got, b, sizeof b)), "multi-http", "response %zu is not that of its request", u->got);
    date = http_field_lookup(f, fc, data_string("Date"));
    now = __real_time(NULL);
    for (i = -4; i <= 1; i++) if (data_equal(date, data_string((char *) dates(ds, sizeof ds, now + i)))) break;
    MON_CHECK(i <= 1, "multi-http", "the date of response %zu is '%.*s'", u->got, (int) data_size(date), (char *) data_base(date));
    u->got++; u->t->counts[C_RESPONSES]++; u->t->counts[C_EVAL]++;
    stream_consume(&u->a, k);
    if (u->got == u->total)
    {
      stream_close(&u->a);
      server_shutdown(&u->sv);
      event_close(&u->ev);
      unit_done(u);
      return;
    }
    if (u->sent < u->total) ask(u);
  }
  stream_flush(&u->a);
}
static void on_resolved(reactor_event *e)
{
  unit *u = e->state; struct addrinfo *ai = (struct addrinfo *) e->data;
  MON_CHECK(e->type == RESOLVER_SUCCESS && ai && ai->ai_family == AF_INET && ((struct sockaddr_in *) ai->ai_addr)->sin_addr.s_addr == htonl(u->word) && ((struct sockaddr_in *) ai->ai_addr)->sin_port == htons(u->want & 0xffff), "multi-resolver", "a lookup yields something else");
  u->t->counts[C_RESOLVED]++; u->t->counts[C_EVAL]++;
  resolver_cancel(&u->rs);
  unit_done(u);
}
static void on_async(reactor_event *e)
{
  unit *u = e->state; uint64_t h = u->seed; int i;
  for (i = 0; i < 50; i++) h = mon_mix(h, i);
  if (e->type == ASYNC_CALL) { u->word = h; return; }
  MON_CHECK(u->word == h, "multi-async", "the result of a call is another");
  u->t->counts[C_CALLS]++; u->t->counts[C_EVAL]++;
  if (++u->n == u->want) { unit_done(u); return; }
  u->word = 0; u->seed++;
  async_call(&u->as);
}
static void touch(unit *u) { char b[400]; int fd; snprintf(b, sizeof b, "%s/f%d", u->path, u->n); fd = open(b, O_CREAT | O_WRONLY | O_CLOEXEC, 0600); if (fd == -1) mon_harness_error("create %s", b); __real_close(fd); }
static void on_notify(reactor_event *e)
{
  unit *u = e->state; notify_event *ne = (notify_event *) e->data; char want[30];
  snprintf(want, sizeof want, "f%d", u->n);
  MON_CHECK(ne->mask == IN_CREATE && !strcmp(ne->name, want) && !strcmp(ne->path, u->path), "multi-notify", "'%s' in '%s' mask %x is reported instead of '%s' in '%s'", ne->name, ne->path, ne->mask, want, u->path);
  u->t->counts[C_NOTES]++; u->t->counts[C_EVAL]++;
  if (++u->n == u->want) { notify_clear(&u->no); unit_done(u); return; }
  touch(u);
}
static int cmp_int(void *a, void *b) { return *(int *) a - *(int *) b; }
/* files, messages, chunks, addresses and sockets: what they yield is known */
static uint64_t pure_files(rng *r)
{
  uint64_t h = MON_H0; string s = string_null(), t; char path[40], b[256], want[200]; size_t n = rng_n(r, 9000), i, k, sz; int fd = memfd_create("pure", MFD_CLOEXEC), code; stream st; data d, reason; http_field f[8]; size_t fc; ssize_t e;
  struct phr_chunked_decoder dec; struct addrinfo *ai; list l; vector v; int x, *p; pointer ptr;
  if (fd < 0) mon_harness_error("memfd");
  for (i = 0; i < n; i++) { b[i % sizeof b] = rng_next(r); if (i % sizeof b == sizeof b - 1 || i == n - 1) s = string_append_data(s, data_construct(b, i % sizeof b + 1)); }
  snprintf(path, sizeof path, "/proc/self/fd/%d", fd);
  MON_CHECK(string_save(s, path) == 0, "multi-pure", "a string of %zu bytes cannot be saved", n);
  t = string_load(path); MON_CHECK(string_equal(s, t), "multi-pure", "a saved string is loaded otherwise"); string_free(t);
  string_write(s, fd); lseek(fd, 0, SEEK_SET);
  t = string_read(fd); MON_CHECK(string_equal(s, t), "multi-pure", "a written string is read otherwise"); h = mon_hash(h, t, string_size(t)); string_free(t);
  close(fd);
  /* a message written and read */
  k = rng_n(r, 200);
  stream_construct(&st, NULL, NULL);
  http_write_response(&st, data_string("207 Multi"), data_string("some day, or another, 29 long"), data_string("t/x"), data_construct(s, n < k ? n : k));
  http_write_request(&st, data_string("PUT"), data_string("/p"), data_string("h"), data_string("u/v"), data_construct(s, n < k ? n : k));
  h = mon_hash(h, buffer_data(&st.output), buffer_size(&st.output));
  buffer_insert(&st.input, 0, buffer_data(&st.output), buffer_size(&st.output));
  fc = 8; e = http_read_response(&st, &code, &reason, f, &fc);
  MON_CHECK(e > 0 && code == 207 && fc, "multi-pure", "a written response reads as %zd, status %d, %zu fields", e, code, fc);
  d = http_field_lookup(f, fc, data_string("content-LENGTH")); h = mon_hash(h, data_base(d), data_size(d));
  snprintf(want, sizeof want, "%zu", n < k ? n : k);
  MON_CHECK(n == 0 || k == 0 || data_equal(d, data_string(want)), "multi-pure", "a body of %s bytes is announced otherwise", want);
  stream_destruct(&st);
  /* chunks, a byte at a time */
  memset(&dec, 0, sizeof dec); dec.consume_trailer = 1;
  k = 1 + rng_n(r, 100); sz = snprintf(want, sizeof want, "%zx\r\n%.*s\r\n0\r\n\r\n", k, (int) k, "0123456789012345678901234567890123456789012345678901234567890123456789012345678901234567890123456789");
  for (i = e = 0, n = 0; i < sz; i++) { size_t one = 1; char c = want[i]; e = phr_decode_chunked(&dec, &c, &one); if (one) { h = mon_mix(h, c); n++; } }
  MON_CHECK(e == 0 && n == k, "multi-pure", "a chunk of %zu bytes is decoded to %zu bytes, verdict %zd", k, n, e);
  /* lists, vectors, cursors */
  list_construct(&l); vector_construct(&v, sizeof x);
  for (i = 0; i < 12; i++) { x = rng_n(r, 9); list_push_front(&l, &x, sizeof x); vector_insert(&v, rng_n(r, vector_size(&v) + 1), &x); }
  x = rng_n(r, 9); p = list_find(&l, cmp_int, &x); if (p) list_splice(list_front(&l), p);
  vector_erase_range(&v, 2, 5, NULL); x = 3; vector_insert_fill(&v, 1, 3, &x); vector_pop_back(&v, NULL);
  list_foreach(&l, p) h = mon_mix(h, *p);
  h = mon_hash(h, vector_data(&v), vector_size(&v) * sizeof x);
  list_destruct(&l, NULL); vector_destruct(&v, NULL);
  ptr = want; http_field_push(&ptr, http_field_construct(data_string("Name"), data_string("value"))); h = mon_hash(h, want, (char *) ptr - want);
  string_free(s);
  /* addresses and sockets */
  snprintf(want, sizeof want, "127.%d.%d.%d", x = rng_n(r, 200), rng_n(r, 200), 1 + rng_n(r, 200)); snprintf(path, sizeof path, "%d", code = 1 + rng_n(r, 60000));
  ai = net_resolve(want, path, AF_INET, SOCK_STREAM, AI_NUMERICHOST | AI_NUMERICSERV);
  MON_CHECK(ai && ai->ai_addrlen == sizeof(struct sockaddr_in), "multi-pure", "%s cannot be resolved", want);
  { struct sockaddr_in *in = (struct sockaddr_in *) ai->ai_addr; MON_CHECK((ntohl(in->sin_addr.s_addr) >> 16) == (127u << 8 | x) && ntohs(in->sin_port) == code, "multi-pure", "%s, %s resolved otherwise", want, path); }
  freeaddrinfo(ai);
  ai = net_resolve(want, "0", AF_INET, SOCK_STREAM, AI_NUMERICHOST | AI_NUMERICSERV | AI_PASSIVE);
  fd = net_socket(ai); MON_CHECK(fd >= 0, "multi-pure", "%s cannot be listened on", want);
  if (fd >= 0) { struct sockaddr_in in; socklen_t len = sizeof in; MON_CHECK(!getsockname(fd, (struct sockaddr *) &in, &len) && (ntohl(in.sin_addr.s_addr) >> 16) == (127u << 8 | x), "multi-pure", "the socket for %s is bound otherwise", want); close(fd); }
  return h;
}
/* the pure data structures: a digest of what they yield */
static uint64_t pure(uint64_t seed)
{
  rng r = {seed}; uint64_t h = MON_H0; int i, k; string s = string_null(), t; maps m; mapi mi; vector v; list l; buffer bf; char keys[20][8]; data d;
  maps_construct(&m); mapi_construct(&mi); vector_construct(&v, sizeof(int)); list_construct(&l); buffer_construct(&bf);
  for (i = 0; i < 20; i++) snprintf(keys[i], sizeof keys[i], "k%d", i);
  for (i = 0; i < 60; i++)
  {
    char b[40]; size_t n = rng_n(&r, 30);
    for (k = 0; k < (int) n; k++) b[k] = 'a' + rng_n(&r, 4);
    switch (rng_n(&r, 12))
    {
    case 0: s = string_append_data(s, data_construct(b, n)); break;
    case 1: s = string_insert_data(s, rng_n(&r, string_size(s) + 1), data_construct(b, n)); break;
    case 2: s = string_replace_all_data(s, data_construct(b, n ? 1 : 0).size ? data_construct(b, 1) : data_string("q"), data_string("xyz")); break;
    case 3: t = string_copy(s); h = mon_hash(h, t, string_size(t)); t = string_append_data(t, data_string("more")); string_free(t); break;
    case 4: t = string_null(); h = mon_mix(h, string_size(t) + string_empty(t) + string_capacity(t)); h = mon_hash(h, t, strlen(t)); string_free(t); break;
    case 5: maps_insert(&m, keys[rng_n(&r, 20)], 1 + rng_n(&r, 99), NULL); break;
    case 6: maps_erase(&m, keys[rng_n(&r, 20)], NULL); break;
    case 7: mapi_insert(&mi, 1 + rng_n(&r, 50), rng_n(&r, 99), NULL); break;
    case 8: mapi_erase(&mi, 1 + rng_n(&r, 50), NULL); break;
    case 9: k = rng_n(&r, 100); vector_push_back(&v, &k); break;
    case 10: k = rng_n(&r, 100); list_push_back(&l, &k, sizeof k); break;
    case 11: buffer_insert(&bf, rng_n(&r, buffer_size(&bf) + 1), b, n); break;
    }
    if (string_size(s) > 400) { string_free(s); s = string_null(); }
    { char num[12]; uint32_t x = rng_next(&r); utility_u32_toa(x, num); h = mon_hash(h, num, strlen(num)); h = mon_mix(h, utility_u32_len(x)); }
    h = mon_mix(h, hash_data(b, n));
  }
  h = mon_hash(h, s, string_size(s)); h = mon_mix(h, maps_size(&m)); h = mon_mix(h, mapi_size(&mi));
  for (i = 0; i < 20; i++) h = mon_mix(h, maps_at(&m, keys[i]));
  for (i = 1; i <= 50; i++) h = mon_mix(h, mapi_at(&mi, i));
  h = mon_hash(h, vector_data(&v), vector_size(&v) * sizeof(int)); h = mon_hash(h, buffer_data(&bf), buffer_size(&bf));
  { int *p; for (p = list_front(&l); p != list_end(&l); p = list_next(p)) h = mon_mix(h, *p); }
  d = string_data(s); h = mon_mix(h, data_size(d));
  string_free(s); maps_destruct(&m, NULL); mapi_destruct(&mi, NULL); vector_destruct(&v, NULL); list_destruct(&l, NULL); buffer_destruct(&bf);
  return mon_mix(h, pure_files(&r));
}
static uint64_t parse_digest(void)
{
  data m, t; http_field f[16]; size_t fc = 16, i; uint64_t h = MON_H0; ssize_t k;
  k = http_read_request_data(data_construct(shared_request, shared_request_n), &m, &t, f, &fc);
  h = mon_mix(h, k);
  if (k <= 0) return h;
  h = mon_hash(h, data_base(m), data_size(m)); h = mon_hash(h, data_base(t), data_size(t));
  for (i = 0; i < fc; i++) { h = mon_hash(h, data_base(f[i].name), data_size(f[i].name)); h = mon_hash(h, data_base(f[i].value), data_size(f[i].value)); }
  return h;
}
static void on_pipe(reactor_event *e)
{
  unit *u = e->state; char b[100]; ssize_t n, i;
  MON_CHECK(e->type == DESCRIPTOR_READ, "multi-pipe", "event type %d", e->type);
  while ((n = __real_read(descriptor_fd(&u->de), b, sizeof b)) > 0)
  {
    for (i = 0; i < n; i++) MON_CHECK((uint8_t) b[i] == content(u->seed, u->got + i), "multi-pipe", "byte %zu differs", u->got + i);
    u->got += n;
  }
  u->t->counts[C_PIPED]++; u->t->counts[C_EVAL]++;
  if (u->got == u->total) { descriptor_close(&u->de); __real_close(u->fd); u->fd = -1; unit_done(u); return; }
  while (u->sent < u->total && u->sent == u->got) { size_t k = 1 + u->seed % 50; char x[60]; if (k > u->total - u->sent) k = u->total - u->sent; for (i = 0; i < (ssize_t) k; i++) x[i] = content(u->seed, u->sent + i); if (__real_write(u->fd, x, k) != (ssize_t) k) mon_harness_error("pipe"); u->sent += k; }
}
static void pair(int sv[2], rng *r)
{
  int b;
  if (socketpair(AF_UNIX, SOCK_STREAM | SOCK_NONBLOCK | SOCK_CLOEXEC, 0, sv)) mon_harness_error("socketpair");
  if (rng_p(r, 30)) { b = 3000; setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); setsockopt(sv[1], SOL_SOCKET, SO_SNDBUF, &b, sizeof b); }
}
static SSL_CTX *new_ctx(int server)
{
  char c[400], k[400]; SSL_CTX *x;
  if (!server) return SSL_CTX_new(TLS_client_method());
  snprintf(c, sizeof c, "%s/ec-cert.pem", certs); snprintf(k, sizeof k, "%s/ec-key.pem", certs);
  x = net_ssl_server_context(c, k);
  if (!x) mon_fail("multi-context", "no server context");
  return x;
}
static void unit_start(thr *t, int kind)
{
  unit *u = calloc(1, sizeof *u); rng *r = &t->r; int p[2], i; char host[40], serv[12];
  u->t = t; u->kind = kind; u->seed = rng_next(r); u->fd = -1;
  t->u[t->n++] = u; t->left++;
  if (kind == U_ECHO || kind == U_HTTP)
  {
    u->tls = rng_p(r, 50);
    if (u->tls) { if (rng_p(r, 60)) { u->sctx = shared_server; u->cctx = shared_client; SSL_CTX_up_ref(u->sctx); SSL_CTX_up_ref(u->cctx); } else { u->sctx = new_ctx(1); u->cctx = new_ctx(0); } }
  }
  switch (kind)
  {
  case U_EVENT: u->want = 1 + rng_n(r, 40); event_construct(&u->ev, on_event, u); event_open(&u->ev); event_signal(&u->ev); break;
  case U_TIMER: u->want = 1 + rng_n(r, 6); u->word = 20000 + rng_n(r, 400000); timer_construct(&u->tm, on_timer, u); u->start = mon_mono_ns(); timer_set(&u->tm, u->word, u->word); break;
  case U_ECHO:
    u->total = 1 + rng_n(r, rng_p(r, 20) ? 60000 : 3000); pair(p, r);
    stream_construct(&u->a, on_echo_a, u); stream_construct(&u->b, on_echo_b, u);
    stream_open(&u->b, p[1], STREAM_READ, u->sctx);
    stream_open(&u->a, p[0], STREAM_READ, u->cctx);
    feed(u, &u->a);
    break;
  case U_HTTP:
    u->total = 1 + rng_n(r, 30); pair(p, r);
    event_construct(&u->ev, on_held, u); event_open(&u->ev);
    server_construct(&u->sv, on_request, u);
    i = __real_socket(AF_UNIX, SOCK_STREAM | SOCK_CLOEXEC | SOCK_NONBLOCK, 0);
    { struct sockaddr_un sa = {.sun_family = AF_UNIX}; if (__real_bind(i, (struct sockaddr *) &sa, sizeof(sa_family_t)) || __real_listen(i, 5)) mon_harness_error("listen"); }
    server_open(&u->sv, i, u->sctx);
    server_accept(&u->sv, p[1]);
    stream_construct(&u->a, on_response, u); stream_open(&u->a, p[0], STREAM_READ, u->cctx);
    for (i = 1 + rng_n(r, 5); i && u->sent < u->total; i--) ask(u);
    stream_flush(&u->a);
    break;
  case U_RESOLVE:
    u->word = 0x7f000000 | rng_n(r, 1 << 24); u->want = 1 + rng_n(r, 65535);
    snprintf(host, sizeof host, "%d.%d.%d.%d", 127, (int) (u->word >> 16 & 255), (int) (u->word >> 8 & 255), (int) (u->word & 255)); snprintf(serv, sizeof serv, "%d", u->want);
    resolver_construct(&u->rs, on_resolved, u); resolver_lookup(&u->rs, host, serv, AF_INET, SOCK_STREAM, 0, AI_NUMERICHOST); break;
  case U_ASYNC: u->want = 1 + rng_n(r, 3); async_construct(&u->as, on_async, u); async_call(&u->as); break;
  case U_NOTIFY:
    u->want = 1 + rng_n(r, 5); snprintf(u->path, sizeof u->path, "%s/m%d-%d-%llu", mon_dir, (int) (t - T), t->n, (unsigned long long) u->seed);
    if (mkdir(u->path, 0700)) mon_harness_error("mkdir %s", u->path);
    notify_construct(&u->no, on_notify, u); if (notify_watch(&u->no, u->path, IN_CREATE) < 0) mon_fail("multi-notify", "a directory cannot be watched"); touch(u); break;
  case U_PIPE:
    if (pipe2(p, O_CLOEXEC | O_NONBLOCK)) mon_harness_error("pipe");
    u->fd = p[1]; u->total = 1 + rng_n(r, 600); descriptor_construct(&u->de, on_pipe, u); descriptor_open(&u->de, p[0], DESCRIPTOR_READ);
    { char c = content(u->seed, 0); if (__real_write(u->fd, &c, 1) != 1) mon_harness_error("pipe"); u->sent = 1; } break;
  case U_PURE: event_construct(&u->ev, NULL, NULL); for (i = 0; i < 5; i++) { uint64_t s = rng_n(r, 5); MON_CHECK(pure(s) == pure_ref[s], "multi-pure", "the data structures yield something else than in one thread alone"); t->counts[C_PURE]++; t->counts[C_EVAL]++; } unit_done(u); break;
  case U_PARSE: event_construct(&u->ev, NULL, NULL); { for (i = 0; i < 10; i++) { MON_CHECK(parse_digest() == parse_ref, "multi-parse", "one head reads differently than in one thread alone"); t->counts[C_PARSED]++; } } unit_done(u); break;
  }
}
static void unit_destroy(unit *u)
{
  switch (u->kind)
  {
  case U_EVENT: case U_PURE: case U_PARSE: event_destruct(&u->ev); break;
  case U_TIMER: timer_destruct(&u->tm); break;
  case U_ECHO: stream_destruct(&u->a); stream_destruct(&u->b); break;
  case U_HTTP: event_destruct(&u->ev); stream_destruct(&u->a); if (u->held) { server_request *q = u->held; u->held = NULL; server_close(q); server_release(q); } server_destruct(&u->sv); break;
  case U_RESOLVE: resolver_destruct(&u->rs); break;
  case U_ASYNC: async_destruct(&u->as); break;
  case U_NOTIFY: notify_destruct(&u->no); mon_rmdir(u->path); break;
  case U_PIPE: descriptor_destruct(&u->de); if (u->fd != -1) __real_close(u->fd); break;
  }
  SSL_CTX_free(u->sctx); SSL_CTX_free(u->cctx);
  free(u);
}
static int pick(rng *r) { int k = rng_n(r, 100); return k < 12 ? U_EVENT : k < 22 ? U_TIMER : k < 42 ? U_ECHO : k < 64 ? U_HTTP : k < 70 ? U_RESOLVE : k < 78 ? U_ASYNC : k < 80 ? U_NOTIFY : k < 86 ? U_PURE : k < 92 ? U_PARSE : U_PIPE; }
static void unit_done(unit *u)
{
  thr *t = u->t;
  u->done = 1; t->left--;
  t->h = mon_mix(t->h, u->kind * 7 + u->tls);
  if (u->tls) t->counts[C_HANDSHAKES]++;
  if (t->n < MUNIT && t->k > 0) { t->k--; unit_start(t, pick(&t->r)); }
}
static __thread thr *self;
static void on_end(reactor_event *e) { thr *t = e->state; (void) e; timer_clear(&t->end_timer.tm); t->aborted = 1; if (t->ending == 1) reactor_abort(); else pthread_kill(pthread_self(), SIGTERM); }
static void wait_hook(void) { if (self->sleepy && rng_p(&self->r, self->sleepy)) { if (rng_p(&self->r, 50)) sched_yield(); else usleep(rng_n(&self->r, 200)); } }
static void *life(void *arg)
{
  thr *t = arg; int i, w; uint64_t a, b;
  self = t; mon_wait_mode = WAIT_REAL; mon_wait_hook = wait_hook; mon_eintr_passes = 1;
  pthread_barrier_wait(&barrier);
  for (w = 0; w < waves; w++)
  {
    t->n = t->left = t->aborted = 0; t->k = rng_n(&t->r, 8); t->ending = rng_p(&t->r, 75) ? 0 : rng_p(&t->r, 70) ? 1 : 2;
    if (t->sleepy) usleep(rng_n(&t->r, 300));
    reactor_construct();
    b = mon_real_ns(); a = reactor_now();
    MON_CHECK(a >= b && a <= mon_real_ns(), "multi-now", "reactor_now of a new reactor is not the present");
    for (i = 1 + rng_n(&t->r, 4); i; i--) unit_start(t, pick(&t->r));
    if (t->ending) { t->end_timer.t = t; timer_construct(&t->end_timer.tm, on_end, t); timer_set(&t->end_timer.tm, 1 + rng_n(&t->r, 3000000), 0); t->end_timer.n = 1; }
    reactor_loop();
    if (!t->aborted)
    {
      MON_CHECK(t->left == 0, "multi-ended-early", "the loop of thread %d returns with %d tasks unfinished", (int) (t - T), t->left);
      MON_CHECK(!t->ending, "multi-ended-early", "the loop of thread %d returns although a timer is set", (int) (t - T));
      t->counts[C_ENDED]++;
    }
    else t->counts[t->ending == 1 ? C_ABORTED : C_KILLED]++;
    t->counts[C_EVAL]++;
    if (t->ending) timer_destruct(&t->end_timer.tm);
    for (i = 0; i < t->n; i++) unit_destroy(t->u[i]);
    reactor_destruct();
  }
  ERR_clear_error();
  return NULL;
}
static void init(void)
{
  int i;
  certs = getenv("VERIF_CERTS"); if (!certs) mon_harness_error("VERIF_CERTS");
  signal(SIGPIPE, SIG_IGN);
  shared_server = new_ctx(1); shared_client = new_ctx(0);
  shared_request_n = snprintf(shared_request, sizeof shared_request, "GET /some/path HTTP/1.1\r\n");
  for (i = 0; i < 10; i++) shared_request_n += snprintf(shared_request + shared_request_n, 400, "X-Field-%d: some value %d, which is rather long\r\n", i, i * 77);
  shared_request_n += snprintf(shared_request + shared_request_n, 10, "\r\n");
  for (i = 0; i < 5; i++) pure_ref[i] = pure(i);
  parse_ref = parse_digest();
}
static void scn_threads(rng *r)
{
  int i, j, rounds = 1 + rng_n(r, 2); uint64_t h = MON_H0, c[C_N] = {0};
  for (; rounds; rounds--)
  {
    N = 2 + rng_n(r, rng_p(r, 30) ? MT - 1 : 3); waves = 1 + rng_n(r, 3);
    pthread_barrier_init(&barrier, NULL, N);
    for (i = 0; i < N; i++) { memset(&T[i], 0, sizeof T[i]); T[i].r.s = rng_next(r); T[i].sleepy = rng_p(r, 50) ? 0 : 1 + rng_n(r, 40); T[i].h = MON_H0; }
    for (i = 0; i < N; i++) if (pthread_create(&T[i].id, NULL, life, &T[i])) mon_harness_error("pthread_create");
    for (i = 0; i < N; i++) pthread_join(T[i].id, NULL);
    pthread_barrier_destroy(&barrier);
    for (i = 0; i < N; i++) { for (j = 0; j < C_N; j++) c[j] += T[i].counts[j]; h = mon_mix(h, T[i].h); }
    mon_count("threads", N);
  }
  for (j = 0; j < C_N; j++) if (c[j]) mon_count(c_name[j], c[j]);
  if (mon_case < 2) mon_sample("%d threads with up to %d reactors each", N, waves);
  mon_distinct(h);
}
const mon_scenario mon_scenarios[] = { {"threads", scn_threads, MON_FDS | MON_MEM, init}, {0} };
