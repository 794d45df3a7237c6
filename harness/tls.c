/* Monitor for TLS streams (C07). The peer is an independent OpenSSL endpoint on memory BIOs; the harness carries the
 * ciphertext between the two, so that it can cut, delay, corrupt and inspect it. */
#include "mon.h"

typedef struct
{
  stream *s;
  int slot, peer, open, tls, server, life, tcp, unread;
  SSL *ssl; BIO *in, *out;
  uint8_t *outq; size_t outq_n, outq_cap;                 /* ciphertext on its way to the stream */
  uint8_t *want; size_t want_n, want_cap, flushed, got;
  uint8_t *wire; size_t wire_n, wire_cap, wire_ok;
  uint64_t sent, consumed, have;
  int requested, closes, broken, left, half, handshaken, started, small, wonly;
  uint64_t opened;
} st;
#define MS 4
static st S[MS];
static int N, acting;
static rng *R;
static uint64_t H;
static size_t volume;
static SSL_CTX *ctx_server[4], *ctx_client[3], *ctx_peer_server, *ctx_peer_client;

static void init(void)
{
  char c[600], k[600];
  const char *certs = getenv("VERIF_CERTS");
  int i;
  for (i = 0; i < 4; i++)
  {
    snprintf(c, sizeof c, "%s/%s", certs, i == 1 ? "ec-cert.pem" : "cert.pem"); snprintf(k, sizeof k, "%s/%s", certs, i == 1 ? "ec-key.pem" : "key.pem");
    ctx_server[i] = SSL_CTX_new(TLS_server_method());
    if (SSL_CTX_use_certificate_file(ctx_server[i], c, SSL_FILETYPE_PEM) != 1 || SSL_CTX_use_PrivateKey_file(ctx_server[i], k, SSL_FILETYPE_PEM) != 1) mon_harness_error("certificate %s", c);
    if (i == 2) SSL_CTX_set_max_proto_version(ctx_server[i], TLS1_2_VERSION);
    if (i == 3)
    {
      /* a long chain: the server's flight does not fit into a small socket buffer */
      int j;
      for (j = 0; j < 14; j++) { FILE *f = fopen(c, "r"); X509 *x = PEM_read_X509(f, NULL, NULL, NULL); fclose(f); SSL_CTX_add_extra_chain_cert(ctx_server[i], x); }
    }
  }
  snprintf(c, sizeof c, "%s/cert.pem", certs); snprintf(k, sizeof k, "%s/key.pem", certs);
  ctx_peer_server = SSL_CTX_new(TLS_server_method());
  SSL_CTX_use_certificate_file(ctx_peer_server, c, SSL_FILETYPE_PEM); SSL_CTX_use_PrivateKey_file(ctx_peer_server, k, SSL_FILETYPE_PEM);
  ctx_peer_client = SSL_CTX_new(TLS_client_method());
  for (i = 0; i < 3; i++) { ctx_client[i] = SSL_CTX_new(TLS_client_method()); if (i == 1) SSL_CTX_set_max_proto_version(ctx_client[i], TLS1_2_VERSION); }
  ERR_clear_error();
  signal(SIGPIPE, SIG_IGN);
}
static uint8_t content(st *x, uint64_t at) { uint64_t v = (at >> 3) * 0x9e3779b97f4a7c15ULL + x->slot * 77 + x->life * 1315423911u; v ^= v >> 29; v *= 0xbf58476d1ce4e5b9ULL; return v >> ((at & 7) * 8); }
static void grow(uint8_t **p, size_t *cap, size_t need) { if (need > *cap) { *cap = need * 2; *p = realloc(*p, *cap); } }
static void stream_cb(reactor_event *);
static void queue(st *);

static void st_open(st *x)
{
  int sv[2], sz, fresh = !x->s;
  if (!x->s) { x->s = malloc(sizeof *x->s); stream_construct(x->s, stream_cb, x); }
  x->small = 0;
  x->tls = rng_p(R, 80); x->server = rng_p(R, 60); x->tcp = rng_p(R, 15);
  if (x->tcp) mon_tcp_pair(sv, 1); else mon_socketpair(sv, 1);
  sz = rng_p(R, 50) ? 1 : 1 << rng_n(R, 18);
  if (!x->tcp && rng_p(R, 70) && (x->small = 1)) setsockopt(sv[0], SOL_SOCKET, SO_SNDBUF, &sz, sizeof sz);
  x->peer = sv[1]; x->life++; x->opened = mon_batch;
  x->want_n = x->flushed = x->got = x->wire_n = x->wire_ok = x->outq_n = 0;
  x->sent = x->consumed = x->have = 0; x->requested = x->closes = x->broken = x->left = x->half = x->handshaken = x->started = 0;
  if (x->tls)
  {
    x->ssl = SSL_new(x->server ? ctx_peer_client : ctx_peer_server);
    x->in = BIO_new(BIO_s_mem()); x->out = BIO_new(BIO_s_mem());
    BIO_set_mem_eof_return(x->in, -1); BIO_set_mem_eof_return(x->out, -1);
    SSL_set_bio(x->ssl, x->in, x->out);
    if (x->server) SSL_set_connect_state(x->ssl); else SSL_set_accept_state(x->ssl);
    if (rng_p(R, 30)) SSL_set_max_proto_version(x->ssl, TLS1_2_VERSION);
    if (rng_p(R, 20)) SSL_set_max_send_fragment(x->ssl, 512 + rng_n(R, 3000));
  }
  mon_trace("open %d: %s %s, life %d", x->slot, x->tls ? "tls" : "plain", x->server ? "server" : "client", x->life);
  if (fresh && rng_p(R, 20)) { if (rng_p(R, 60)) queue(x); if (rng_p(R, 60)) { x->requested = x->started = 1; stream_notify(x->s); } mon_count("used_before_open", 1); }
  x->wonly = rng_p(R, 15);
  if (x->wonly) mon_count(x->tls ? "write_only_tls" : "write_only", 1);
  stream_open(x->s, sv[0], x->wonly ? rng_p(R, 60) ? STREAM_WRITE : 0 : rng_p(R, 15) ? STREAM_READ | STREAM_WRITE : STREAM_READ, x->tls ? x->server ? ctx_server[rng_n(R, 4)] : ctx_client[rng_n(R, 3)] : NULL);
  x->open = 1;
  MON_CHECK(stream_read(x->s).size == 0, "tls-reopen", "a just opened stream has %zu bytes of input", stream_read(x->s).size);
  mon_count(x->tls ? "tls_opens" : "plain_opens", 1);
  H = mon_mix(H, x->tls * 4 + x->server * 2);
}
/* ---- the peer ---- */
static void got_app(st *x, const uint8_t *b, size_t n)
{
  MON_CHECK(x->got + n <= x->want_n, "tls-extra", "stream %d: the peer decrypted %zu bytes, only %zu were queued", x->slot, x->got + n, x->want_n);
  MON_CHECK(!memcmp(b, x->want + x->got, n), "tls-bytes", "stream %d: the bytes the peer received after %zu are not those queued", x->slot, x->got);
  x->got += n;
  mon_count("bytes_out", n); mon_count("eval", 1);
}
static void check_wire(st *x)
{
  /* everything the stream sends is TLS records */
  while (x->wire_n - x->wire_ok >= 5)
  {
    uint8_t *r = x->wire + x->wire_ok;
    size_t len = r[3] << 8 | r[4];
    MON_CHECK(r[0] >= 20 && r[0] <= 23 && (r[1] == 3 || (r[0] == 21 && len == 2)) /* OpenSSL answers a damaged version with an alert of that version */ && len <= 16384 + 2048, "tls-clear", "stream %d: at byte %zu the stream sent something that is not a TLS record (%02x %02x %02x)", x->slot, x->wire_ok, r[0], r[1], r[2]);
    if (x->wire_n - x->wire_ok < 5 + len) break;
    x->wire_ok += 5 + len;
    mon_count("records", 1);
  }
  if (x->wire_n == x->wire_ok + 0 || 1)
  {
    size_t rest = x->wire_n - x->wire_ok;
    if (rest >= 1) MON_CHECK(x->wire[x->wire_ok] >= 20 && x->wire[x->wire_ok] <= 23, "tls-clear", "stream %d sent something that is not a TLS record", x->slot);
  }
}
static int peer_crypto(st *x)
{
  static uint8_t b[20000];
  int n, moved = 0;
  if (!x->ssl) return 0;
  if (!x->handshaken)
  {
    ERR_clear_error();
    n = SSL_do_handshake(x->ssl);
    if (n == 1) { x->handshaken = 1; moved = 1; mon_count("handshakes", 1); }
  }
  if (x->handshaken)
    while (ERR_clear_error(), (n = SSL_read(x->ssl, b, sizeof b)) > 0) { got_app(x, b, n); moved = 1; }
  /* what the peer wants to send joins the queue on the wire */
  while ((n = BIO_read(x->out, b, sizeof b)) > 0) { grow(&x->outq, &x->outq_cap, x->outq_n + n); memcpy(x->outq + x->outq_n, b, n); x->outq_n += n; moved = 1; }
  ERR_clear_error();
  return moved;
}
/* an error another user of OpenSSL left in this thread's queue is no business of the streams */
static int dirty;
static void leave(void) { if (dirty && rng_p(R, 50)) { ERR_raise(ERR_LIB_USER, ERR_R_INTERNAL_ERROR); mon_count("foreign_errors", 1); } }
static size_t peer_in(st *x, size_t lim)
{
  static uint8_t b[65536];
  size_t tot = 0;
  ssize_t n;
  while (x->peer != -1 && tot < lim && (n = __real_read(x->peer, b, lim - tot < sizeof b ? lim - tot : sizeof b)) > 0)
  {
    tot += n;
    if (!x->tls) { got_app(x, b, n); continue; }
    grow(&x->wire, &x->wire_cap, x->wire_n + n); memcpy(x->wire + x->wire_n, b, n); x->wire_n += n;
    if (x->broken < 2) BIO_write(x->in, b, n);
  }
  if (x->tls) { check_wire(x); if (x->broken < 2) peer_crypto(x); }
  return tot;
}
static size_t peer_out(st *x, size_t lim)
{
  size_t tot = 0, n;
  ssize_t w;
  if (x->tls && x->broken < 2) peer_crypto(x);
  while (x->peer != -1 && !x->half && tot < lim && x->outq_n)
  {
    n = x->outq_n < lim - tot ? x->outq_n : lim - tot;
    w = __real_write(x->peer, x->outq, n);
    if (w <= 0) break;
    memmove(x->outq, x->outq + w, x->outq_n - w); x->outq_n -= w; tot += w;
  }
  return tot;
}
static void peer_send(st *x, size_t n)
{
  static uint8_t b[400000];
  size_t i;
  if (x->broken || x->left || x->half || x->peer == -1) return;
  if (n > sizeof b) n = sizeof b;
  if (!n) return;
  for (i = 0; i < n; i++) b[i] = content(x, x->sent + i);
  if (!x->tls) { grow(&x->outq, &x->outq_cap, x->outq_n + n); memcpy(x->outq + x->outq_n, b, n); x->outq_n += n; x->sent += n; return; }
  if (!x->handshaken) return;
  ERR_clear_error();
  if (rng_p(R, 10) && SSL_version(x->ssl) == TLS1_3_VERSION) { SSL_key_update(x->ssl, !x->small && volume <= 500 && rng_p(R, 50) ? /* OpenSSL itself fails when it must answer one over a pending record */ SSL_KEY_UPDATE_REQUESTED : SSL_KEY_UPDATE_NOT_REQUESTED); mon_count("key_updates", 1); }
  i = SSL_write(x->ssl, b, n) == (int) n;
  if (!i) mon_harness_error("peer SSL_write");
  x->sent += n;
  peer_crypto(x);
}
static void spoil(st *x)
{
  /* something hostile on the wire */
  static uint8_t b[3000];
  size_t n, at;
  if (!x->tls || x->left || x->half || x->peer == -1) return;
  peer_crypto(x);
  x->broken = 2;
  switch (rng_n(R, 6))
  {
  case 0: if (x->outq_n) { x->outq[rng_n(R, x->outq_n)] ^= 1 << rng_n(R, 8); break; } /* fall through */
  case 1: n = 1 + rng_n(R, sizeof b - 1); rng_bytes(R, b, n); grow(&x->outq, &x->outq_cap, x->outq_n + n); memcpy(x->outq + x->outq_n, b, n); x->outq_n += n; break;
  case 2: if (x->outq_n > 2) { at = rng_n(R, x->outq_n - 1); memmove(x->outq + at, x->outq + at + 1, x->outq_n - at - 1); x->outq_n--; break; } /* fall through */
  case 3: n = sprintf((char *) b, "GET / HTTP/1.1\r\nHost: x\r\n\r\n"); grow(&x->outq, &x->outq_cap, x->outq_n + n); memcpy(x->outq + x->outq_n, b, n); x->outq_n += n; break;
  case 4: n = 5; b[0] = 20 + rng_n(R, 5); b[1] = 3; b[2] = 3; b[3] = rng_n(R, 256); b[4] = rng_n(R, 256); grow(&x->outq, &x->outq_cap, x->outq_n + 2000); memcpy(x->outq + x->outq_n, b, n); x->outq_n += n; n = rng_n(R, 1500); memset(x->outq + x->outq_n, rng_n(R, 256), n); x->outq_n += n; break;
  case 5: if (x->outq_n > 40 && x->outq_n < 100000) { grow(&x->outq, &x->outq_cap, x->outq_n * 2); memcpy(x->outq + x->outq_n, x->outq, x->outq_n); x->outq_n *= 2; break; } /* replayed */ b[0] = 21; b[1] = 3; b[2] = 3; b[3] = 0; b[4] = 2; b[5] = 2; b[6] = 40; grow(&x->outq, &x->outq_cap, x->outq_n + 7); memcpy(x->outq + x->outq_n, b, 7); x->outq_n += 7; break;
  }
  mon_trace("the wire of %d is spoiled after %llu bytes", x->slot, (unsigned long long) x->sent);
  mon_count("spoiled", 1);
  H = mon_mix(H, 1234);
}
static void peer_leaves(st *x)
{
  int how = rng_n(R, 4);
  if (x->left || x->peer == -1) return;
  if (how == 0 && !x->half && !x->outq_n)
  {
    /* without close_notify the TLS connection is cut, and OpenSSL gives it up in both directions */
    if (x->tls && x->broken < 2)
    {
      if (x->handshaken && rng_p(R, 70)) { ERR_clear_error(); SSL_shutdown(x->ssl); peer_crypto(x); peer_out(x, SIZE_MAX); if (x->outq_n) x->broken = 1; else mon_count("notified_closes", 1); }
      else x->broken = 1;
    }
    shutdown(x->peer, SHUT_WR); x->half = 1; mon_trace("peer of %d half-closes", x->slot); return;
  }
  if (x->outq_n) x->broken = x->tls ? 2 : 1;     /* cut off in the middle */
  if (x->tcp) x->broken = 2;
  mon_close(x->peer); x->peer = -1; x->left = 1; mon_trace("peer of %d leaves", x->slot);
}
static void drop_peer(st *x)
{
  if (x->peer != -1) mon_close(x->peer);
  x->peer = -1;
  if (x->ssl) SSL_free(x->ssl);
  x->ssl = NULL;
}
static void st_close(st *x, int forget)
{
  size_t i;
  if (x->open)
  {
    mon_trace("close %d%s: %zu of %zu received", x->slot, forget ? " and free" : "", x->got, x->want_n);
    x->open = 0;
    stream_close(x->s);
    if (rng_p(R, 20)) (leave(), stream_flush(x->s));
    if (x->peer != -1) peer_in(x, SIZE_MAX);
    if (x->tls)
      for (i = 0; i + 24 <= x->want_n && i < 64; i += 24)
        MON_CHECK(!x->wire_n || !memmem(x->wire, x->wire_n, x->want + i, 24), "tls-clear", "stream %d: queued bytes appear on the wire in clear", x->slot);
    mon_count("closes", 1);
  }
  drop_peer(x);
  if (forget && x->s) { stream_destruct(x->s); memset(x->s, 0xdd, sizeof *x->s); free(x->s); x->s = NULL; }
}
/* ---- the application ---- */
static void queue(st *x)
{
  size_t n, k = 1 + rng_n(R, 3);
  uint8_t *p;
  while (k--)
  {
    n = rng_size(R, volume);
    if (x->want_n > volume * 12) n = rng_n(R, 10);
    p = malloc(n ? n : 1); rng_bytes(R, p, n);
    grow(&x->want, &x->want_cap, x->want_n + n + 1); memcpy(x->want + x->want_n, p, n); x->want_n += n;
    if (rng_p(R, 50)) stream_write(x->s, data_construct((char *) p, n));
    else memcpy(stream_allocate(x->s, n), p, n);
    memset(p, 0xee, n); free(p);
  }
}
static void act(st *x)
{
  int k = rng_n(R, 100);
  if (k < 40) { queue(x); if (rng_p(R, 80)) { x->flushed = x->want_n; x->started = 1; (leave(), stream_flush(x->s)); mon_count("flushes", 1); } if (rng_p(R, 25)) { x->requested = x->started = 1; stream_notify(x->s); } }
  else if (k < 48) { x->requested = x->started = 1; stream_notify(x->s); mon_count("requests", 1); }
  else if (k < 54) { x->flushed = x->want_n; x->started = 1; (leave(), stream_flush(x->s)); }
  else if (k < 60) { st *y = &S[rng_n(R, N)]; if (y->open) { st_close(y, rng_p(R, 40)); if (rng_p(R, 70)) st_open(y); } else { st_close(y, 0); st_open(y); } }
}
static void check_input(st *x)
{
  data in = stream_read(x->s);
  const uint8_t *p = in.base;
  size_t i;
  MON_CHECK(!x->wonly || !in.size, "tls-not-for-reading", "stream %d, not opened for reading, offers %zu bytes", x->slot, in.size);
  MON_CHECK(x->consumed + in.size <= x->sent, "tls-unauthenticated", "stream %d offers %zu bytes after %llu consumed, the peer sent %llu", x->slot, in.size, (unsigned long long) x->consumed, (unsigned long long) x->sent);
  for (i = 0; i < in.size; i++) if (p[i] != content(x, x->consumed + i)) mon_fail("tls-input-bytes", "stream %d: byte %llu offered is not the one sent", x->slot, (unsigned long long) (x->consumed + i));
}
static void stream_cb(reactor_event *e)
{
  st *x = e->state;
  size_t n, k;
  mon_count("eval", 1);
  MON_CHECK(x->open && x->s, "tls-callback-after-close", "callback type %d on closed stream %d", e->type, x->slot);
  MON_CHECK(x->opened != mon_batch, "tls-stale", "callback type %d of an earlier life on re-opened stream %d", e->type, x->slot);
  switch (e->type)
  {
  case STREAM_READ:
    n = stream_read(x->s).size;
    MON_CHECK(!x->wonly, "tls-not-for-reading", "STREAM_READ on stream %d, which was not opened for reading", x->slot);
    MON_CHECK(n > x->have, "tls-spurious-read", "STREAM_READ on stream %d without new bytes", x->slot);
    mon_count("bytes_in", n - x->have);
    x->have = n;
    check_input(x);
    if (!acting) break;
    if (rng_p(R, 70)) { k = rng_p(R, 60) ? n : rng_n(R, n + 1); stream_consume(x->s, k); x->consumed += k; x->have -= k; }
    act(x);
    break;
  case STREAM_WRITE:
    MON_CHECK(x->requested, "tls-spurious-write", "STREAM_WRITE on stream %d that was not asked for", x->slot);
    x->requested = 0;
    mon_count("writes", 1);
    if (!x->tcp && x->peer != -1 && x->broken < 2)
    {
      peer_in(x, SIZE_MAX);
      MON_CHECK(x->got == x->want_n, "tls-early-write", "STREAM_WRITE on stream %d with %zu of %zu bytes handed to the kernel", x->slot, x->got, x->want_n);
    }
    if (acting) act(x);
    break;
  case STREAM_CLOSE:
    MON_CHECK(x->left || x->half, "tls-spurious-close", "STREAM_CLOSE on stream %d although the peer is there", x->slot);
    if (x->broken == 0 && !x->wonly) MON_CHECK(x->consumed + stream_read(x->s).size == x->sent, "tls-close-before-data", "STREAM_CLOSE on stream %d with %llu of %llu bytes delivered", x->slot, (unsigned long long) (x->consumed + stream_read(x->s).size), (unsigned long long) x->sent);
    x->closes++;
    mon_count("close_reports", 1);
    if (acting && rng_p(R, 50)) { st_close(x, rng_p(R, 50)); if (rng_p(R, 40)) st_open(x); }
    break;
  default: mon_fail("tls-event", "unknown event type %d", e->type);
  }
  H = mon_mix(H, e->type * 8 + x->slot);
}
static void check_settled(void)
{
  int i, round, missing = 0, moved, calm = 0;
  acting = 0;
  for (round = 0; round < 40000; round++)
  {
    moved = 0;
    for (i = 0; i < N; i++) if (S[i].open) { moved += peer_in(&S[i], SIZE_MAX) > 0; moved += peer_out(&S[i], SIZE_MAX) > 0; }
    if (mon_settle(100000)) moved = 1;
    missing = 0;
    for (i = 0; i < N; i++)
    {
      st *x = &S[i];
      if (!x->open) continue;
      if (!x->broken && x->peer != -1 && x->got < x->flushed && !(x->tls && x->half && !x->handshaken)) missing = 1 + i * 8;
      else if (!x->broken && x->peer != -1 && !x->half && !x->wonly && x->consumed + stream_read(x->s).size < x->sent) missing = 2 + i * 8;
      else if (!x->broken && x->peer != -1 && x->requested && !(x->tls && x->half && !x->handshaken)) missing = 3 + i * 8;
      else if ((x->left || x->half) && !x->closes) missing = 4 + i * 8;
      else if (x->tls && ((x->server && !x->wonly) || x->started) && !x->broken && x->peer != -1 && !x->half && !x->handshaken) missing = 5 + i * 8;
    }
    if (moved) { calm = 0; continue; }
    if (!missing) break;
    if (++calm > (S[missing / 8].tcp ? 1500 : 60)) break;
    usleep(calm < 20 ? 200 : 5000);
  }
  if (missing)
  {
    st *x = &S[missing / 8];
    switch (missing % 8)
    {
    case 1: mon_fail("tls-stuck", "stream %d (%s %s): %zu bytes flushed, the peer received %zu and no more come", x->slot, x->tls ? "tls" : "plain", x->server ? "server" : "client", x->flushed, x->got);
    case 2: mon_fail("tls-input-lost", "stream %d: the peer sent %llu bytes, %llu were delivered", x->slot, (unsigned long long) x->sent, (unsigned long long) (x->consumed + stream_read(x->s).size));
    case 3: mon_fail("tls-write-missing", "stream %d: a STREAM_WRITE was requested and does not come", x->slot);
    case 4: mon_fail("tls-close-missing", "stream %d: the peer left and STREAM_CLOSE does not come", x->slot);
    case 5: mon_fail("tls-handshake-stuck", "stream %d (%s): the handshake does not complete", x->slot, x->server ? "server" : "client");
    }
  }
  for (i = 0; i < N; i++) if (S[i].open) check_input(&S[i]);
  mon_count("settled", 1);
  acting = 1;
}
static void scn_tls(rng *r)
{
  int i, step, steps = 10 + rng_n(r, 40), k;
  R = r; H = MON_H0; N = 1 + rng_n(r, MS); acting = 1;
  dirty = rng_p(r, 40); mon_wait_hook = leave;
  volume = rng_p(r, 15) ? 200000 : rng_p(r, 40) ? 20000 : 500;
  reactor_construct();
  for (i = 0; i < N; i++) { memset(&S[i], 0, sizeof S[i]); S[i].slot = i; S[i].peer = -1; st_open(&S[i]); }
  for (step = 0; step < steps; step++)
  {
    st *x = &S[rng_n(r, N)];
    k = rng_n(r, 100);
    if (!x->open) { if (k < 50) { st_close(x, 0); st_open(x); } }
    else if (k < 22) act(x);
    else if (k < 36) peer_send(x, rng_size(r, volume));
    else if (k < 50) peer_in(x, rng_p(r, 40) ? SIZE_MAX : rng_size(r, 4000));
    else if (k < 64) peer_out(x, rng_p(r, 40) ? SIZE_MAX : rng_p(r, 30) ? 1 : rng_size(r, 4000));
    else if (k < 67) { if (rng_p(r, 60)) spoil(x); }
    else if (k < 70) peer_leaves(x);
    else if (k < 92) { k = 1 + rng_n(r, 4); while (k--) mon_step(); }
    else if (k < 96) check_settled();
    else { size_t n = stream_read(x->s).size; k = rng_n(r, n + 1); stream_consume(x->s, k); x->consumed += k; x->have -= k; }
    if (rng_p(r, 40)) mon_step();
  }
  check_settled();
  if (mon_case < 2) mon_sample("%s %s: %zu queued, %zu received, %llu sent, handshake %d, spoiled %d", S[0].tls ? "tls" : "plain", S[0].server ? "server" : "client", S[0].want_n, S[0].got, (unsigned long long) S[0].sent, S[0].handshaken, S[0].broken);
  for (i = 0; i < N; i++) { st_close(&S[i], 1); free(S[i].want); free(S[i].wire); free(S[i].outq); }
  MON_CHECK(!mon_step(), "tls-callback-after-close", "something was dispatched after all streams were destroyed");
  reactor_destruct();
  ERR_clear_error();
  mon_distinct(H);
}
/* more queued than an int can tell */
static int vast_reads;
static void vast_cb(reactor_event *e) { if (e->type == STREAM_READ) vast_reads++; else if (e->type != STREAM_WRITE) mon_fail("tls-spurious-close", "STREAM_CLOSE although the peer is there"); }
static void scn_vast(rng *r)
{
  static uint8_t b[65536];
  int sv[2], n, i, tls = rng_p(r, 80), idle = 0; stream s; SSL *l = NULL; uint8_t *p;
  size_t total = (mon_case % 3 == 0 ? 0x80000000ul : mon_case % 3 == 1 ? 0x100000000ul : 0x7fff0000ul) + rng_n(r, 100000), given, got = 0, limit = 300000 + rng_n(r, 1000000), k;
  mon_socketpair(sv, 1);
  reactor_construct();
  stream_construct(&s, vast_cb, NULL);
  stream_open(&s, sv[0], STREAM_READ, tls ? ctx_server[rng_n(r, 3)] : NULL);
  if (tls) { l = SSL_new(ctx_peer_client); SSL_set_fd(l, sv[1]); SSL_set_connect_state(l); }
  given = rng_p(r, 50) ? 0 : rng_n(r, 1000);
  p = stream_allocate(&s, given); for (k = 0; k < given; k++) p[k] = k * 7 + (k >> 8);
  if (rng_p(r, 50)) stream_flush(&s);
  p = stream_allocate(&s, total - given); for (k = given; k < limit + 70000; k++) p[k - given] = k * 7 + (k >> 8);
  mon_trace("%s stream, %zu bytes, %zu of them first", tls ? "tls" : "plain", total, given);
  stream_flush(&s);
  while (got < limit)
  {
    ERR_clear_error();
    n = tls ? SSL_read(l, b, sizeof b) : (int) __real_read(sv[1], b, sizeof b);
    for (i = 0; i < n; i++) MON_CHECK(b[i] == (uint8_t) ((got + i) * 7 + ((got + i) >> 8)), "tls-bytes", "the bytes the peer received after %zu of %zu are not those queued", got + i, total);
    if (n > 0) { got += n; idle = 0; mon_count("eval", 1); continue; }
    MON_CHECK(!tls || SSL_get_error(l, n) == SSL_ERROR_WANT_READ || SSL_get_error(l, n) == SSL_ERROR_WANT_WRITE, "tls-stuck", "the connection breaks after %zu of %zu bytes", got, total);
    if (!mon_step() && ++idle > 500) mon_fail("tls-stuck", "%s stream: %zu bytes flushed, the peer received %zu and no more come", tls ? "tls" : "plain", total, got);
    if (idle) usleep(200);
  }
  ERR_clear_error();
  mon_count("vast", 1); mon_distinct(mon_mix(mon_mix(MON_H0, total), limit));
  stream_destruct(&s);
  if (l) SSL_free(l);
  mon_close(sv[1]);
  reactor_destruct();
}
const mon_scenario mon_scenarios[] = { {"tls", scn_tls, MON_FDS | MON_MEM, init}, {"vast", scn_vast, MON_FDS | MON_MEM, init}, {0} };
