/* Monitors for HTTP parsing, writing and chunked decoding (C09, C10, C11, C29).
 * The oracle is an independent grammar-level reader: every verdict and every slice of the library is compared with it,
 * on exactly-sized allocations (ASan), among uninitialised bytes (MSan) and among hostile neighbours (all builds). */
#include "mon.h"
#include <sys/mman.h>
#include "picohttpparser/picohttpparser.h"

#if defined(__has_feature)
#if __has_feature(memory_sanitizer)
#define IS_MSAN 1
#endif
#endif
#if defined(__SANITIZE_ADDRESS__)
#define IS_ASAN 1
#endif

/* ------------------------------------------------------------------ reference reader */
#define MAXF 2100
typedef struct { long at; size_t n; int present; } slice;              /* offset into the message */
typedef struct { slice name, value; } rfield;
typedef struct { long ret; slice method, target, reason; int status; rfield f[MAXF]; size_t nf; } parsed;

static int tok(int c)
{
  if (c >= '0' && c <= '9') return 1;
  if ((c | 32) >= 'a' && (c | 32) <= 'z' && c < 128) return 1;
  return c && c < 128 && strchr("!#$%&'*+-.^_`|~", c) != NULL;
}
static int ctl(int c) { return c < 0x20 || c == 0x7f; }
/* end of line at i: 2/1 bytes, 0 not an end, -2 undecided, -1 malformed */
static int eol(const uint8_t *b, size_t n, size_t i)
{
  if (i >= n) return -2;
  if (b[i] == '\n') return 1;
  if (b[i] != '\r') return 0;
  if (i + 1 >= n) return -2;
  return b[i + 1] == '\n' ? 2 : -1;
}
/* a run of text up to the end of line; *end at the terminator; returns bytes of terminator or -1/-2 */
static int text(const uint8_t *b, size_t n, size_t i, size_t *end)
{
  int e;
  for (;; i++)
  {
    if (i >= n) return -2;
    e = eol(b, n, i);
    if (e) { *end = i; return e; }
    if (ctl(b[i]) && b[i] != '\t') return -1;
  }
}
static long ref_fields(const uint8_t *b, size_t n, size_t i, parsed *p, size_t cap)
{
  size_t k, end;
  int e;
  for (;;)
  {
    e = eol(b, n, i);
    if (e < 0) return e;
    if (e > 0) return i + e;
    if (p->nf == cap) return -1;
    rfield *f = &p->f[p->nf];
    memset(f, 0, sizeof *f);
    if (!(p->nf && (b[i] == ' ' || b[i] == '\t')))
    {
      for (k = i; k < n && b[k] != ':'; k++) if (!tok(b[k])) return -1;
      if (k >= n) return -2;
      if (k == i) return -1;
      f->name = (slice) {i, k - i, 1};
      i = k + 1;
      while (i < n && (b[i] == ' ' || b[i] == '\t')) i++;
      if (i >= n) return -2;
    }
    e = text(b, n, i, &end);
    if (e < 0) return e;
    k = end;
    while (k > i && (b[k - 1] == ' ' || b[k - 1] == '\t')) k--;
    f->value = (slice) {i, k - i, 1};
    p->nf++;
    i = end + e;
  }
}
/* a word up to a space; -1/-2 or new position */
static long word(const uint8_t *b, size_t n, size_t i, slice *s)
{
  size_t k;
  for (k = i;; k++)
  {
    if (k >= n) return -2;
    if (b[k] == ' ') break;
    if (ctl(b[k])) return -1;
  }
  *s = (slice) {i, k - i, 1};
  while (k < n && b[k] == ' ') k++;
  return k >= n ? -2 : (long) k;
}
static long version(const uint8_t *b, size_t n, size_t i)
{
  if (n - i < 9) return -2;
  if (memcmp(b + i, "HTTP/1.", 7) || b[i + 7] < '0' || b[i + 7] > '9') return -1;
  return i + 8;
}
static void ref_request(const uint8_t *b, size_t n, parsed *p, size_t cap)
{
  long i = 0;
  int e;
  memset(p, 0, offsetof(parsed, f)); p->nf = 0;
  p->ret = -2;
  if (!n) return;
  e = eol(b, n, 0);
  if (e < 0) { p->ret = e; return; }
  i = e;
  if ((i = word(b, n, i, &p->method)) < 0) { p->ret = i; return; }
  if ((i = word(b, n, i, &p->target)) < 0) { p->ret = i; return; }
  if (!p->method.n || !p->target.n) { p->ret = -1; return; }
  if ((i = version(b, n, i)) < 0) { p->ret = i; return; }
  e = eol(b, n, i);
  if (e <= 0) { p->ret = e == -2 ? -2 : -1; return; }
  p->ret = ref_fields(b, n, i + e, p, cap);
}
static void ref_response(const uint8_t *b, size_t n, parsed *p, size_t cap)
{
  long i;
  size_t end, k;
  int e;
  memset(p, 0, offsetof(parsed, f)); p->nf = 0;
  if ((i = version(b, n, 0)) < 0) { p->ret = i; return; }
  if (b[i] != ' ') { p->ret = -1; return; }
  while ((size_t) i < n && b[i] == ' ') i++;
  if (n - i < 4) { p->ret = -2; return; }
  for (k = 0; k < 3; k++)
  {
    if (b[i + k] < '0' || b[i + k] > '9') { p->ret = -1; return; }
    p->status = p->status * 10 + b[i + k] - '0';
  }
  i += 3;
  e = text(b, n, i, &end);
  if (e < 0) { p->ret = e; return; }
  if ((size_t) i < end && b[i] != ' ') { p->ret = -1; return; }
  while ((size_t) i < end && b[i] == ' ') i++;
  p->reason = (slice) {i, end - i, 1};
  p->ret = ref_fields(b, n, end + e, p, cap);
}
/* every prefix of a well-formed head is undecided in the reference by construction, except where the caller's room is too small */

/* ------------------------------------------------------------------ placing bytes */
typedef struct { uint8_t *base, *p; } placed;
static placed place(rng *r, const uint8_t *d, size_t n)
{
  placed pl;
#if defined(IS_ASAN)
  size_t off = rng_n(r, 17);
  pl.base = malloc(off + n);                    /* the end is the end of the allocation */
  if (!pl.base) pl.base = malloc(1);
  pl.p = pl.base + off;
#else
  size_t off = rng_n(r, 33), tail = 80;
  pl.base = malloc(off + n + tail);
  pl.p = pl.base + off;
#if !defined(IS_MSAN)
  static const char *hostile[] = {"\r\n\r\n", "\n\n\n\n", " / HTTP/1.1\r\n\r\n", ": x\r\n\r\n", "\0\0\0\0", "\x7f\x01\x02", "00000000", "    HTTP/1.1 200 OK\r\n\r\n"};
  const char *h = hostile[rng_n(r, 8)];
  size_t k, hn = strlen(h) ? strlen(h) : 4, lo = rng_n(r, 4);
  for (k = 0; k < off; k++) pl.base[k] = h[k % hn];
  for (k = 0; k < tail; k++) pl.p[n + k] = h[(k + lo * (h[0] != '\r')) % hn];
#endif
#endif
  if (n) memcpy(pl.p, d, n);
  return pl;
}
static const char *show(const uint8_t *b, size_t n)
{
  static char s[700];
  size_t i, k = 0;
  for (i = 0; i < n && k < sizeof s - 8; i++)
    if (b[i] == '\r') k += sprintf(s + k, "\\r"); else if (b[i] == '\n') k += sprintf(s + k, "\\n");
    else if (b[i] < 0x20 || b[i] > 0x7e || b[i] == '\\') k += sprintf(s + k, "\\x%02x", b[i]); else s[k++] = b[i];
  s[k] = 0;
  return s;
}
static void same_slice(const char *what, const uint8_t *b, const uint8_t *p, size_t n, data d, slice *s, const uint8_t *msg)
{
  (void) b;
  if (!s->present)
  {
    MON_CHECK(d.base == NULL && d.size == 0, "http-slice", "%s of a continuation is not empty: %s", what, show(msg, n));
    return;
  }
  MON_CHECK(d.size == s->n, "http-slice", "%s has %zu bytes, expected %zu: %s", what, d.size, s->n, show(msg, n));
  MON_CHECK((const uint8_t *) d.base == p + s->at, "http-slice", "%s starts at %ld, expected %ld: %s", what, (long) ((const uint8_t *) d.base - p), s->at, show(msg, n));
}
static long parse_request(rng *r, const uint8_t *msg, size_t n, size_t cap, int via_stream, const parsed *ref, const char *how)
{
  http_field *f = malloc(cap ? cap * sizeof *f : 1);
  size_t nf = cap, k;
  data m = data_null(), t = data_null();
  ssize_t ret;
  placed pl = place(r, msg, n);
  if (via_stream)
  {
    stream s;
    memset(&s, 0, sizeof s);
    s.input.data = pl.p; s.input.size = n; s.input.capacity = n;
    ret = http_read_request(&s, &m, &t, f, &nf);
  }
  else
    ret = http_read_request_data(data_construct((char *) pl.p, n), &m, &t, f, &nf);
  mon_count("parses", 1);
  MON_CHECK(ret == ref->ret, "http-request-verdict", "%s (%zu bytes, room for %zu): returned %zd, expected %ld: %s", how, n, cap, ret, ref->ret, show(msg, n));
  if (ret >= 0)
  {
    same_slice("method", pl.p, pl.p, n, m, (slice *) &ref->method, msg);
    same_slice("target", pl.p, pl.p, n, t, (slice *) &ref->target, msg);
    MON_CHECK(nf == ref->nf, "http-fields-count", "%s: %zu fields, expected %zu: %s", how, nf, ref->nf, show(msg, n));
    for (k = 0; k < nf; k++)
    {
      same_slice("field name", pl.p, pl.p, n, f[k].name, (slice *) &ref->f[k].name, msg);
      same_slice("field value", pl.p, pl.p, n, f[k].value, (slice *) &ref->f[k].value, msg);
    }
    mon_count("complete", 1);
  }
  else mon_count(ret == -2 ? "need_more" : "rejected", 1);
  free(pl.base); free(f);
  return ret;
}
static long parse_response(rng *r, const uint8_t *msg, size_t n, size_t cap, const parsed *ref, const char *how)
{
  http_field *f = malloc(cap ? cap * sizeof *f : 1);
  size_t nf = cap, k;
  data reason = data_null();
  ssize_t ret;
  int code = 0;
  stream s;
  placed pl = place(r, msg, n);
  memset(&s, 0, sizeof s);
  s.input.data = pl.p; s.input.size = n; s.input.capacity = n;
  ret = http_read_response(&s, &code, &reason, f, &nf);
  mon_count("parses", 1);
  MON_CHECK(ret == ref->ret, "http-response-verdict", "%s (%zu bytes, room for %zu): returned %zd, expected %ld: %s", how, n, cap, ret, ref->ret, show(msg, n));
  if (ret >= 0)
  {
    MON_CHECK(code == ref->status, "http-status", "%s: status %d, expected %d: %s", how, code, ref->status, show(msg, n));
    same_slice("reason", pl.p, pl.p, n, reason, (slice *) &ref->reason, msg);
    MON_CHECK(nf == ref->nf, "http-fields-count", "%s: %zu fields, expected %zu: %s", how, nf, ref->nf, show(msg, n));
    for (k = 0; k < nf; k++)
    {
      same_slice("field name", pl.p, pl.p, n, f[k].name, (slice *) &ref->f[k].name, msg);
      same_slice("field value", pl.p, pl.p, n, f[k].value, (slice *) &ref->f[k].value, msg);
    }
    mon_count("complete", 1);
  }
  else mon_count(ret == -2 ? "need_more" : "rejected", 1);
  free(pl.base); free(f);
  return ret;
}

/* ------------------------------------------------------------------ generating heads */
#define MAXMSG 20000
typedef struct { uint8_t b[MAXMSG + 4096]; size_t n; } msg;
static void mput(msg *m, const void *d, size_t n) { if (m->n + n <= MAXMSG) { memcpy(m->b + m->n, d, n); m->n += n; } }
static void mputs(msg *m, const char *s) { mput(m, s, strlen(s)); }
static void mputc(msg *m, int c) { uint8_t x = c; mput(m, &x, 1); }
static size_t wordlen(rng *r) { return rng_p(r, 70) ? 1 + rng_n(r, 12) : rng_p(r, 90) ? 1 + rng_n(r, 70) : 1 + rng_n(r, 1500); }
static void put_word(rng *r, msg *m, size_t n, int obs)
{
  static const char plain[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789/?&=%-_.~+!*'();:@,[]{}<>\"\\|^`#$";
  while (n--) mputc(m, obs && rng_p(r, 6) ? 0x80 + (int) rng_n(r, 128) : plain[rng_n(r, sizeof plain - 1)]);
}
static void put_token(rng *r, msg *m, size_t n)
{
  static const char t[] = "abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789!#$%&'*+-.^_`|~-----";
  while (n--) mputc(m, t[rng_n(r, sizeof t - 1)]);
}
static void put_value(rng *r, msg *m, size_t n)
{
  while (n--)
  {
    int k = rng_n(r, 100);
    mputc(m, k < 80 ? 0x21 + (int) rng_n(r, 94) : k < 88 ? ' ' : k < 92 ? '\t' : k < 96 ? 0x80 + (int) rng_n(r, 128) : ':');
  }
}
static void put_eol(rng *r, msg *m, int strict) { mputs(m, strict || rng_p(r, 85) ? "\r\n" : "\n"); }
static void put_fields(rng *r, msg *m, int strict)
{
  size_t i, n = rng_p(r, 60) ? rng_n(r, 5) : rng_n(r, 20);
  for (i = 0; i < n; i++)
  {
    if (i && !strict && rng_p(r, 6)) { mputc(m, rng_p(r, 50) ? ' ' : '\t'); put_value(r, m, rng_n(r, 20)); put_eol(r, m, strict); continue; }
    if (rng_p(r, 30)) { static const char *names[] = {"Host", "Content-Length", "Connection", "Accept", "User-Agent", "X", "Transfer-Encoding", "Cookie"}; mputs(m, names[rng_n(r, 8)]); }
    else put_token(r, m, wordlen(r));
    mputc(m, ':');
    if (!rng_p(r, 15)) { size_t k = rng_p(r, 70) ? 1 : rng_n(r, 20); while (k--) mputc(m, rng_p(r, 80) ? ' ' : '\t'); }
    if (!rng_p(r, 8)) put_value(r, m, rng_p(r, 3) ? rng_n(r, 3000) : rng_n(r, 60));
    if (rng_p(r, 10)) { size_t k = rng_n(r, 20); while (k--) mputc(m, rng_p(r, 60) ? ' ' : '\t'); }
    put_eol(r, m, strict);
  }
  put_eol(r, m, strict);
}
static void gen_request(rng *r, msg *m)
{
  int strict = rng_p(r, 30);
  m->n = 0;
  if (rng_p(r, 10)) put_eol(r, m, strict);
  if (rng_p(r, 50)) { static const char *ms[] = {"GET", "POST", "HEAD", "OPTIONS", "DELETE", "X"}; mputs(m, ms[rng_n(r, 6)]); }
  else put_word(r, m, wordlen(r), 1);
  mputc(m, ' '); if (rng_p(r, 6)) { size_t k = rng_n(r, 20); while (k--) mputc(m, ' '); }
  if (rng_p(r, 20)) mputc(m, '/'); else put_word(r, m, wordlen(r), 1);
  mputc(m, ' '); if (rng_p(r, 6)) { size_t k = rng_n(r, 20); while (k--) mputc(m, ' '); }
  mputs(m, "HTTP/1."); mputc(m, rng_p(r, 80) ? '1' : '0' + (int) rng_n(r, 10));
  put_eol(r, m, strict);
  put_fields(r, m, strict);
}
static void gen_response(rng *r, msg *m)
{
  int strict = rng_p(r, 30);
  m->n = 0;
  mputs(m, "HTTP/1."); mputc(m, rng_p(r, 80) ? '1' : '0' + (int) rng_n(r, 10));
  mputc(m, ' '); if (rng_p(r, 6)) { size_t k = rng_n(r, 6); while (k--) mputc(m, ' '); }
  mputc(m, '0' + rng_n(r, 10)); mputc(m, '0' + rng_n(r, 10)); mputc(m, '0' + rng_n(r, 10));
  if (!rng_p(r, 15)) { mputc(m, ' '); if (rng_p(r, 6)) mputs(m, "   "); if (!rng_p(r, 15)) put_value(r, m, rng_n(r, 40)); }
  put_eol(r, m, strict);
  put_fields(r, m, strict);
}
static void mutate(rng *r, msg *m)
{
  static const char odd[] = {0, 1, 9, 10, 13, 31, 32, 58, 127, (char) 128, (char) 255, '\r', '\n', ':', ' ', '\t', '"', '(', '/', '{', '@', '0', '9', 'H'};
  size_t k = 1 + rng_n(r, 3), at, n;
  while (k-- && m->n)
  {
    at = rng_p(r, 30) ? rng_n(r, m->n < 20 ? m->n : 20) : rng_n(r, m->n);
    switch (rng_n(r, 6))
    {
    case 0: m->b[at] = odd[rng_n(r, sizeof odd)]; break;
    case 1: m->b[at] = rng_next(r); break;
    case 2: n = 1 + rng_n(r, 4); if (n > m->n - at) n = m->n - at; memmove(m->b + at, m->b + at + n, m->n - at - n); m->n -= n; break;
    case 3: n = 1 + rng_n(r, 20); if (m->n + n > MAXMSG) break;
      memmove(m->b + at + n, m->b + at, m->n - at); m->n += n;
      memset(m->b + at, odd[rng_n(r, sizeof odd)], n); break;
    case 4: n = rng_n(r, 40); if (n > m->n - at) n = m->n - at; if (m->n + n > MAXMSG) break;
      memmove(m->b + at + n, m->b + at, m->n - at); m->n += n; break;
    case 5: m->n = at; break;
    }
  }
}
static void gen_soup(rng *r, msg *m, int response)
{
  static const char *bits[] = {"G", "GET", " ", "/", "HTTP/1.1", "HTTP/1.", "1", "\r", "\n", "\r\n", ":", "a", "a: b", "\t", "200", "OK", "\x80", "\x7f", "H", "  ", "\r\n\r\n", "X:"};
  size_t n = 1 + rng_n(r, 14);
  m->n = 0;
  if (response && rng_p(r, 70)) mputs(m, "HTTP/1.1 200 OK\r\n");
  else if (rng_p(r, 70)) mputs(m, "GET / HTTP/1.1\r\n");
  while (n--) mputs(m, bits[rng_n(r, sizeof bits / sizeof *bits)]);
}
static size_t gen_cap(rng *r) { return rng_p(r, 50) ? 16 : rng_p(r, 20) ? 0 : rng_n(r, 24); }

static void parse_case(rng *r, int response)
{
  static msg m;
  static parsed whole, ref, prev;
  size_t cap = gen_cap(r), k, n, step;
  int kind = rng_n(r, 100);
  long ret;
  if (kind < 45) response ? gen_response(r, &m) : gen_request(r, &m);
  else if (kind < 85) { response ? gen_response(r, &m) : gen_request(r, &m); mutate(r, &m); }
  else if (kind < 95) gen_soup(r, &m, response);
  else { m.n = rng_n(r, 60); rng_bytes(r, m.b, m.n); }
  mon_trace("%zu bytes, room for %zu fields: %s", m.n, cap, show(m.b, m.n < 100 ? m.n : 100));
  response ? ref_response(m.b, m.n, &whole, cap) : ref_request(m.b, m.n, &whole, cap);
  if (rng_p(r, 1)) mon_sample("%s -> %ld, %zu fields", show(m.b, m.n < 120 ? m.n : 120), whole.ret, whole.nf);
  mon_distinct(mon_hash(MON_H0, m.b, m.n));
  /* every truncation (sampled for long messages): as the grammar says, never contradicted by more bytes */
  prev.ret = -2;
  step = m.n > 600 ? 1 + m.n / 300 : 1;
  for (k = 0; k <= m.n; k = k == m.n ? k + 1 : k + step > m.n ? m.n : k + step)
  {
    response ? ref_response(m.b, k, &ref, cap) : ref_request(m.b, k, &ref, cap);
    ret = response ? parse_response(r, m.b, k, cap, &ref, "prefix") : parse_request(r, m.b, k, cap, rng_p(r, 20), &ref, "prefix");
    if (prev.ret != -2) MON_CHECK(ret == prev.ret, "http-verdict-changed", "verdict %ld on a prefix became %ld with %zu bytes: %s", prev.ret, ret, k, show(m.b, m.n));
    prev.ret = ret;
    mon_count("eval", 1);
    if (ret != -2 && k < m.n && rng_p(r, 80)) k = m.n - 1 - (step < m.n - k ? step - 1 : 0) > k ? m.n - 1 - (step < m.n - k ? step - 1 : 0) : k;
  }
  /* what follows a decided head makes no difference */
  if (whole.ret != -2 && m.n < MAXMSG)
  {
    n = rng_n(r, 100); rng_bytes(r, m.b + m.n, n); if (rng_p(r, 50)) memset(m.b + m.n, "\r\n :Aa\0\x7f"[rng_n(r, 8)], n);
    ret = response ? parse_response(r, m.b, m.n + n, cap, &whole, "followed by other bytes") : parse_request(r, m.b, m.n + n, cap, rng_p(r, 50), &whole, "followed by other bytes");
  }
}
static void scn_request(rng *r) { int i; for (i = 0; i < 10; i++) parse_case(r, 0); }
static void scn_response(rng *r) { int i; for (i = 0; i < 10; i++) parse_case(r, 1); }

/* one byte class at every position of vector width neighbourhoods: the fast paths must agree with the grammar */
static void scn_align(rng *r)
{
  static msg m;
  static parsed ref;
  int response = mon_case & 1, c = (mon_case >> 1) & 255;
  size_t len, at;
  for (len = 0; len <= 40; len += 1 + rng_n(r, 3))
    for (at = 0; at <= len; at++)
    {
      int where = rng_n(r, response ? 3 : 4);
      size_t mark;
      m.n = 0;
      if (response) { mputs(&m, "HTTP/1.1 200 "); mark = m.n; }
      else { mark = 0; if (where == 3) mark = m.n; else mputs(&m, "GET "), mark = m.n; }
#define FILL do { size_t q; mark = m.n; for (q = 0; q < len; q++) mputc(&m, 'a'); if (at < len) m.b[mark + at] = c; else mputc(&m, c); } while (0)
      if (response)
      {
        if (where == 0) FILL; mputs(&m, "\r\n");
        if (where == 1) FILL; else mputs(&m, "N");
        mputs(&m, ": ");
        if (where == 2) FILL;
        mputs(&m, "\r\n\r\n");
      }
      else
      {
        if (where == 3) { FILL; mputs(&m, " / HTTP/1.1\r\nN: v\r\n\r\n"); }
        else
        {
          if (where == 0) FILL; else mputs(&m, "/");
          mputs(&m, " HTTP/1.1\r\n");
          if (where == 1) FILL; else mputs(&m, "N");
          mputs(&m, ": ");
          if (where == 2) FILL;
          mputs(&m, "\r\n\r\n");
        }
      }
      if (response) { ref_response(m.b, m.n, &ref, 16); parse_response(r, m.b, m.n, 16, &ref, "aligned"); }
      else { ref_request(m.b, m.n, &ref, 16); parse_request(r, m.b, m.n, 16, 0, &ref, "aligned"); }
      mon_count("eval", 1);
      mon_distinct(mon_mix(mon_mix(len, at), c * 8 + where * 2 + response));
    }
}

/* tokens, values, runs of spaces and numbers of fields around the limits of narrow counters */
static struct { uint8_t b[900000]; size_t n; } lm;
static int lm_many;
static size_t long_size(rng *r)
{
  static const size_t at[] = {127, 255, 511, 1023, 4095, 8191, 16383, 32767, 65535, 131071, 262143};
  return rng_p(r, 70) ? at[rng_n(r, 11)] + rng_n(r, 4) : rng_n(r, 150000);
}
static void lput(const char *t) { size_t n = strlen(t); if (lm.n + n < sizeof lm.b - 400) { memcpy(lm.b + lm.n, t, n); lm.n += n; } }
static void lfill(rng *r, size_t n, const char *set)
{
  size_t i, k = strlen(set), start = lm.n;
  if (lm.n + n > sizeof lm.b - 400) n = 10;
  for (i = 0; i < n; i++) lm.b[lm.n++] = k == 1 ? set[0] : set[rng_next(r) % k];
  if (n && rng_p(r, 4) && (!lm_many || rng_p(r, 1))) { lm.b[start + rng_n(r, n)] = rng_n(r, 256); mon_count("long_spoiled", 1); }
}
static size_t long_or(rng *r, int p, size_t other) { return rng_p(r, p) ? long_size(r) : other; }
static void scn_long(rng *r)
{
  static parsed ref, whole;
  static const char word[] = "abcdefgHIJK/?=&%~.-_0123456789", token[] = "abcXYZ-019!#$%&'*+.^_`|~", value[] = "abcXYZ 019\t,;=\xe9\x80";
  int response = mon_case & 1, many = rng_p(r, 35), i, nf;
  size_t cap, k, n, cut;
  lm.n = 0; lm_many = many;
  if (response) { lput("HTTP/1.1"); lfill(r, long_or(r, 10, 1), " "); lput("200"); if (rng_p(r, 80)) { lfill(r, long_or(r, 20, 1), " "); lfill(r, long_or(r, 40, rng_n(r, 30)), value); } }
  else { lfill(r, long_or(r, 25, 3), token); lfill(r, long_or(r, 15, 1), " "); lfill(r, long_or(r, 50, 5), word); lfill(r, long_or(r, 15, 1), " "); lput("HTTP/1.1"); }
  lput("\r\n");
  nf = many ? 100 + (rng_p(r, 50) ? 153 + (int) rng_n(r, 5) : rng_n(r, 1900)) : rng_n(r, 4);
  for (i = 0; i < nf; i++)
  {
    if (i && rng_p(r, 5)) lput(" ");
    else { lfill(r, many ? 1 + rng_n(r, 4) : long_or(r, 30, 4), token); lput(":"); lfill(r, many ? 1 : long_or(r, 20, 1), rng_p(r, 80) ? " " : "\t"); }
    lfill(r, many ? rng_n(r, 6) : long_or(r, 50, 6), value); if (!many) lfill(r, long_or(r, 15, 0), " ");
    lput(rng_p(r, 90) ? "\r\n" : "\n");
  }
  lput("\r\n");
  cap = many ? (rng_p(r, 60) ? (size_t) nf + rng_n(r, 3) - rng_n(r, 2) : MAXF) : 16;
  if (cap > MAXF) cap = MAXF;
  n = lm.n;
  response ? ref_response(lm.b, n, &whole, cap) : ref_request(lm.b, n, &whole, cap);
  mon_trace("%zu bytes, %d fields, expected %ld", n, nf, whole.ret);
  for (k = 0; k < 14; k++)
  {
    cut = k == 0 ? n : k < 4 ? n - (k < n ? k : n) : k < 6 ? n - rng_n(r, n < 40 ? n : 40) : rng_n(r, n + 1);
    response ? ref_response(lm.b, cut, &ref, cap) : ref_request(lm.b, cut, &ref, cap);
    response ? parse_response(r, lm.b, cut, cap, &ref, "long head") : parse_request(r, lm.b, cut, cap, rng_p(r, 20), &ref, "long head");
    mon_count("eval", 1);
  }
  if (whole.ret != -2)
  {
    k = rng_n(r, 100); rng_bytes(r, lm.b + n, k);
    response ? parse_response(r, lm.b, n + k, cap, &whole, "followed by other bytes") : parse_request(r, lm.b, n + k, cap, 0, &whole, "followed by other bytes");
  }
  mon_count("long_heads", 1);
  mon_distinct(mon_hash(MON_H0, lm.b, n < 2000 ? n : 2000) ^ n);
}

/* parsing from a live stream while the bytes arrive in pieces */
static struct { stream s; const uint8_t *sent; size_t n; int response, decided; long verdict; size_t cap; rng *r; } live;
static void live_callback(reactor_event *e)
{
  static parsed ref;
  http_field f[24];
  size_t nf = live.cap;
  data a = data_null(), b = data_null(), in;
  int code;
  ssize_t ret;
  if (e->type != STREAM_READ) return;
  in = stream_read(&live.s);
  MON_CHECK(in.size <= live.n && (!in.size || !memcmp(in.base, live.sent, in.size)), "http-stream-bytes", "received bytes are not those sent");
  if (live.response)
  { ref_response(live.sent, in.size, &ref, live.cap); ret = http_read_response(&live.s, &code, &b, f, &nf); if (ret >= 0) MON_CHECK(code == ref.status, "http-status", "status %d, expected %d", code, ref.status); }
  else
  { ref_request(live.sent, in.size, &ref, live.cap); ret = http_read_request(&live.s, &a, &b, f, &nf); }
  MON_CHECK(ret == ref.ret, "http-stream-verdict", "with %zu of %zu bytes: returned %zd, expected %ld: %s", in.size, live.n, ret, ref.ret, show(live.sent, in.size));
  if (live.decided) MON_CHECK(ret == live.verdict, "http-verdict-changed", "verdict %ld became %zd", live.verdict, ret);
  if (ret != -2) { live.decided = 1; live.verdict = ret; }
  mon_count("eval", 1);
}
static void scn_live(rng *r)
{
  static msg m;
  static parsed ref;
  int sv[2];
  size_t k;
  live.response = rng_p(r, 50);
  live.response ? gen_response(r, &m) : gen_request(r, &m);
  if (rng_p(r, 30)) mutate(r, &m);
  live.sent = m.b; live.n = m.n; live.cap = rng_n(r, 24); live.decided = 0; live.r = r;
  live.response ? ref_response(m.b, m.n, &ref, live.cap) : ref_request(m.b, m.n, &ref, live.cap);
  reactor_construct();
  stream_construct(&live.s, live_callback, NULL);
  mon_socketpair(sv, 1);
  stream_open(&live.s, sv[0], STREAM_READ, NULL);
  mon_settle(50);
  for (k = 0; k < m.n;)
  {
    size_t c = rng_p(r, 30) ? 1 : rng_size(r, 400);
    if (c > m.n - k) c = m.n - k;
    if (c && __real_write(sv[1], m.b + k, c) != (ssize_t) c) mon_harness_error("write");
    k += c;
    if (rng_p(r, 80)) mon_settle(50);
  }
  mon_settle(50);
  if (m.n) MON_CHECK(ref.ret == -2 ? !live.decided : live.decided && live.verdict == ref.ret, "http-stream-verdict", "final verdict %ld, expected %ld", live.decided ? live.verdict : -2, ref.ret);
  mon_distinct(mon_hash(MON_H0, m.b, m.n));
  stream_destruct(&live.s);
  reactor_destruct();
  mon_close(sv[1]);
}

/* ------------------------------------------------------------------ C11 writing */
static data rdata(rng *r, msg *store, int kind)
{
  size_t at = store->n, n;
  n = rng_p(r, 60) ? rng_n(r, 20) : rng_p(r, 80) ? rng_n(r, 200) : rng_n(r, 2500);
  if (kind == 3 && rng_p(r, 25)) n = 0;
  if (kind == 4) n = rng_p(r, 30) ? 0 : rng_p(r, 30) ? (size_t[]) {9, 10, 11, 99, 100, 101, 999, 1000}[rng_n(r, 8)] : rng_n(r, 1500);
  if (kind == 5) n = (size_t[]) {29, 29, 29, 0, 5, 40, 100}[rng_n(r, 7)];
  if (store->n + n > MAXMSG - 10) n = 0;
  if ((kind == 1 || kind == 2) && !n) n = 1;
  switch (kind)
  {
  case 0: case 1: put_token(r, store, n); break;       /* method */
  case 2: put_word(r, store, n, 1); break;             /* target */
  case 4: rng_bytes(r, store->b + store->n, n); store->n += n; break;
  default: put_value(r, store, n);
    if (n && (store->b[at] == ' ' || store->b[at] == '\t')) store->b[at] = 'v';
    if (n && (store->b[store->n - 1] == ' ' || store->b[store->n - 1] == '\t')) store->b[store->n - 1] = 'v';
  }
  return data_construct((char *) store->b + at, store->n - at);
}
static data own(data d) { char *p = malloc(d.size ? d.size : 1); if (d.size) memcpy(p, d.base, d.size); return data_construct(p, d.size); }
static void drop(data d) { free((void *) d.base); }
#define MAXOUT (1 << 20)
static struct { uint8_t b[MAXOUT]; size_t n; } want;
static void wput(const void *d, size_t n) { if (n) memcpy(want.b + want.n, d, n); want.n += n; }
static void wputs(const char *s) { wput(s, strlen(s)); }
static void want_request(data method, data target, data host, data type, data body)
{
  char l[32];
  wput(method.base, method.size); wputs(" "); wput(target.base, target.size); wputs(" HTTP/1.1\r\nHost: "); wput(host.base, host.size); wputs("\r\n");
  if (body.size)
  {
    snprintf(l, sizeof l, "%zu", body.size);
    wputs("Content-Type: "); wput(type.base, type.size); wputs("\r\nContent-Length: "); wputs(l); wputs("\r\n");
  }
  wputs("\r\n"); wput(body.base, body.size);
}
static void want_response(data status, data date, data type, data body)
{
  char l[32];
  wputs("HTTP/1.1 "); wput(status.base, status.size); wputs("\r\nServer: reactor\r\nDate: "); wput(date.base, date.size); wputs("\r\n");
  if (type.size) { wputs("Content-Type: "); wput(type.base, type.size); wputs("\r\n"); }
  snprintf(l, sizeof l, "%zu", body.size);
  wputs("Content-Length: "); wputs(l); wputs("\r\n\r\n"); wput(body.base, body.size);
}
static int ieq(data a, const char *s) { return a.size == strlen(s) && !strncasecmp(a.base, s, a.size); }
static int deq(data a, data b) { return a.size == b.size && (!a.size || !memcmp(a.base, b.base, a.size)); }
static data find(http_field *f, size_t n, const char *name, int *count)
{
  size_t i;
  data d = data_null();
  *count = 0;
  for (i = 0; i < n; i++) if (f[i].name.base && ieq(f[i].name, name)) { if (!(*count)++) d = f[i].value; }
  return d;
}
static void scn_write(rng *r)
{
  static msg store;
  struct { int resp, known; data a[5]; } q[24];
  int i, k, n = 1 + rng_n(r, rng_p(r, 20) ? 20 : 5), mixed = rng_p(r, 30), pre, resp = rng_p(r, 50), c, to_peer = rng_p(r, 25), sv[2];
  size_t cap, size, off;
  stream s;
  data junk;
  store.n = want.n = 0;
  reactor_construct();
  stream_construct(&s, NULL, NULL);
  pre = rng_p(r, 40);
  if (pre) { junk = own(rdata(r, &store, 4)); stream_write(&s, junk); wput(junk.base, junk.size); drop(junk); }
  pre = want.n;
  if (to_peer)
  {
    mon_socketpair(sv, 1);
    stream_open(&s, sv[0], 0, NULL);
  }
  for (i = 0; i < n; i++)
  {
    q[i].resp = mixed ? rng_p(r, 50) : resp;
    store.n = 0;
    if (q[i].resp)
    {
      int code = rng_n(r, 1000);
      char st[8];
      snprintf(st, sizeof st, "%03d", code);
      mputs(&store, st); if (!rng_p(r, 10)) { mputc(&store, ' '); if (!rng_p(r, 10)) { mputc(&store, 'r'); put_value(r, &store, rng_n(r, 20)); } }
      q[i].a[0] = own(data_construct((char *) store.b, store.n));
      store.n = 0;
      q[i].a[1] = own(rdata(r, &store, 5)); q[i].a[2] = own(rdata(r, &store, 3)); q[i].a[3] = own(rdata(r, &store, 4)); q[i].a[4] = own(data_null());
    }
    else for (k = 0; k < 5; k++) q[i].a[k] = own(rdata(r, &store, k == 0 ? 1 : k == 1 ? 2 : k == 4 ? 4 : 3));
    if (i == 0 && rng_p(r, 3) && want.n < 4000)
    {
      /* large bodies: decimal length boundaries */
      size_t big = (size_t[]) {9999, 10000, 65535, 65536, 99999, 100000}[rng_n(r, 6)];
      int b = q[i].resp ? 3 : 4;
      drop(q[i].a[b]); q[i].a[b] = data_construct(malloc(big), big); rng_bytes(r, (void *) q[i].a[b].base, big);
    }
    mon_trace("%s with sizes %zu %zu %zu %zu %zu after %zu bytes", q[i].resp ? "response" : "request", q[i].a[0].size, q[i].a[1].size, q[i].a[2].size, q[i].a[3].size, q[i].a[4].size, want.n);
    size = want.n;
    if (q[i].resp) want_response(q[i].a[0], q[i].a[1], q[i].a[2], q[i].a[3]);
    else want_request(q[i].a[0], q[i].a[1], q[i].a[2], q[i].a[3], q[i].a[4]);
    if (rng_p(r, 50)) buffer_compact(&s.output);                                             /* the reservation is exact */
    if (rng_p(r, 30)) { buffer_reserve(&s.output, want.n + rng_n(r, 64)); if (buffer_capacity(&s.output) > size) memset((char *) buffer_data(&s.output) + size, 0xa5, buffer_capacity(&s.output) - size); }
    cap = buffer_capacity(&s.output);
    if (q[i].resp) http_write_response(&s, q[i].a[0], q[i].a[1], q[i].a[2], q[i].a[3]);
    else http_write_request(&s, q[i].a[0], q[i].a[1], q[i].a[2], q[i].a[3], q[i].a[4]);
    MON_CHECK(buffer_size(&s.output) == want.n, "http-write-size", "%s %d: the output grew to %zu bytes, expected %zu", q[i].resp ? "response" : "request", i, buffer_size(&s.output), want.n);
    MON_CHECK(!memcmp(buffer_data(&s.output), want.b, want.n), "http-write-bytes", "%s %d: written %s", q[i].resp ? "response" : "request", i, show((uint8_t *) buffer_data(&s.output) + size, want.n - size));
    mon_distinct(mon_hash(MON_H0, want.b + size, want.n - size));
    mon_count("eval", 1); (void) cap;
  }
  /* split again at the same boundaries */
  off = pre;
  for (i = 0; i < n; i++)
  {
    http_field f[16];
    size_t nf = 16, bl;
    data a = data_null(), b = data_null(), v;
    ssize_t ret;
    if (q[i].resp)
    {
      stream x;
      int code;
      memset(&x, 0, sizeof x);
      x.input.data = (char *) buffer_data(&s.output) + off; x.input.size = buffer_size(&s.output) - off;
      ret = http_read_response(&x, &code, &b, f, &nf);
      MON_CHECK(ret > 0, "http-roundtrip", "response %d of %d does not read back (%zd)", i, n, ret);
      MON_CHECK(code == atoi((char[]) {((char *) q[i].a[0].base)[0], ((char *) q[i].a[0].base)[1], ((char *) q[i].a[0].base)[2], 0}), "http-roundtrip", "status code changed");
      v = find(f, nf, "Date", &c); MON_CHECK(c == 1 && deq(v, q[i].a[1]), "http-roundtrip", "Date changed");
      v = find(f, nf, "Content-Type", &c); MON_CHECK(c == (q[i].a[2].size > 0) && deq(v, q[i].a[2]), "http-roundtrip", "Content-Type changed");
      bl = q[i].a[3].size;
      v = find(f, nf, "Content-Length", &c); MON_CHECK(c == 1 && strtoull(v.base, NULL, 10) == bl, "http-roundtrip", "Content-Length is not the body's");
      MON_CHECK(!memcmp((char *) x.input.data + ret, q[i].a[3].base, bl), "http-roundtrip", "body changed");
    }
    else
    {
      ret = http_read_request_data(data_construct((char *) buffer_data(&s.output) + off, buffer_size(&s.output) - off), &a, &b, f, &nf);
      MON_CHECK(ret > 0, "http-roundtrip", "request %d of %d does not read back (%zd)", i, n, ret);
      MON_CHECK(deq(a, q[i].a[0]) && deq(b, q[i].a[1]), "http-roundtrip", "method or target changed");
      v = find(f, nf, "Host", &c); MON_CHECK(c == 1 && deq(v, q[i].a[2]), "http-roundtrip", "Host changed");
      bl = q[i].a[4].size;
      v = find(f, nf, "Content-Length", &c); MON_CHECK(c == (bl > 0) && (!c || strtoull(v.base, NULL, 10) == bl), "http-roundtrip", "Content-Length is not the body's");
      v = find(f, nf, "Content-Type", &c); MON_CHECK(c == (bl > 0) && (!c || deq(v, q[i].a[3])), "http-roundtrip", "Content-Type changed");
      MON_CHECK(!memcmp((char *) buffer_data(&s.output) + off + ret, q[i].a[4].base, bl), "http-roundtrip", "body changed");
    }
    off += ret + bl;
    mon_count("round_trips", 1);
  }
  MON_CHECK(off == want.n, "http-roundtrip", "messages end at %zu, not at %zu", off, want.n);
  if (to_peer)
  {
    static uint8_t in[MAXOUT];
    size_t got = 0;
    ssize_t k;
    stream_flush(&s);
    for (i = 0; i < 4000 && got < want.n; i++)
    {
      mon_settle(4);
      while ((k = __real_read(sv[1], in + got, sizeof in - got)) > 0) got += k;
    }
    MON_CHECK(got == want.n && !memcmp(in, want.b, got), "http-write-wire", "the peer received %zu bytes, expected %zu", got, want.n);
    mon_count("wire_messages", n);
  }
  for (i = 0; i < n; i++) for (k = 0; k < 5; k++) drop(q[i].a[k]);
  stream_destruct(&s);
  reactor_destruct();
  if (to_peer) mon_close(sv[1]);
}
static void scn_lookup(rng *r)
{
  http_field f[20];
  char names[20][640], probe[640], values[20];
  size_t n = rng_n(r, 20), i, k, l, pad = rng_p(r, 15) ? rng_n(r, 600) : 0;
  int c;
  memset(names, 0, sizeof names);
  for (i = 0; i < n; i++)
  {
    l = rng_p(r, 5) ? 0 : 1 + rng_n(r, 6);
    /* long names that differ at the end */
    if (l && rng_p(r, 80)) { memset(names[i], "xX"[i & 1], pad); l += pad; }
    for (k = l > pad && pad && names[i][0] ? pad : 0; k < l; k++) names[i][k] = rng_p(r, 90) ? "aAbBzZ"[rng_n(r, 6)] : "@[`{-_019\xe5\xc5!"[rng_n(r, 12)];
    f[i] = http_field_construct(data_construct(memcpy(malloc(l ? l : 1), names[i], l), l), data_construct(&values[i], 1));
    if (!l && rng_p(r, 30)) { free((void *) f[i].name.base); f[i].name = data_null(); }
  }
  for (c = 0; c < 30; c++)
  {
    data p, got;
    if (n && rng_p(r, 70)) { i = rng_n(r, n); l = f[i].name.size; if (l) memcpy(probe, f[i].name.base, l); for (k = 0; k < l; k++) if (rng_p(r, 40) && ((probe[k] | 32) >= 'a' && (probe[k] | 32) <= 'z' && !(probe[k] & 128))) probe[k] ^= 32; if (rng_p(r, 20) && l < 20) probe[l++] = 'a'; else if (rng_p(r, 15) && l) l--; else if (l && rng_p(r, 15)) probe[rng_n(r, l)] ^= 32; }
    else { l = rng_n(r, 5); if (pad && rng_p(r, 50)) { memset(probe, 'x', pad); k = pad; l += pad; } else k = 0; for (; k < l; k++) probe[k] = "aAbBzZ@[`{"[rng_n(r, 10)]; }
    p = data_construct(memcpy(malloc(l ? l : 1), probe, l), l);
    for (i = 0; i < n; i++)
    {
      if (f[i].name.size != l) continue;
      for (k = 0; k < l; k++)
      {
        uint8_t x = ((uint8_t *) f[i].name.base)[k], y = probe[k];
        if (x >= 'A' && x <= 'Z') x += 32;
        if (y >= 'A' && y <= 'Z') y += 32;
        if (x != y) break;
      }
      if (k == l) break;
    }
    got = http_field_lookup(f, n, p);
    if (i == n) MON_CHECK(got.base == NULL && got.size == 0, "http-lookup", "a field was found for %s", show((uint8_t *) probe, l));
    else MON_CHECK(got.base == &values[i] && got.size == 1, "http-lookup", "lookup of %s did not give field %zu", show((uint8_t *) probe, l), i);
    free((void *) p.base);
    mon_count("eval", 1);
  }
  mon_distinct(mon_hash(n, names, n * 24 ? 24 : 0));
  for (i = 0; i < n; i++) free((void *) f[i].name.base);
}

/* ------------------------------------------------------------------ C29 chunked */
typedef struct { uint8_t out[MAXMSG]; size_t n, end; int verdict; } chunked;   /* verdict: 1 complete, 0 need more, -1 error */
static void ref_chunked(const uint8_t *b, size_t n, int trailer, chunked *c)
{
  size_t i = 0, d;
  c->n = 0; c->verdict = 0; c->end = n;
  for (;;)
  {
    unsigned __int128 size = 0;
    for (d = 0;; d++)
    {
      int v;
      if (i + d >= n) { if (d <= 16) return; c->verdict = -1; return; }
      v = b[i + d];
      if (v >= '0' && v <= '9') v -= '0'; else if ((v | 32) >= 'a' && (v | 32) <= 'f') v = (v | 32) - 'a' + 10; else break;
      if (d == 16) { c->verdict = -1; return; }
      size = size * 16 + v;
    }
    if (!d) { c->verdict = -1; return; }
    i += d;
    while (i < n && b[i] != '\n') i++;
    if (i >= n) return;
    i++;
    if (size == 0) break;
    if (size > n - i) { memcpy(c->out + c->n, b + i, n - i); c->n += n - i; return; }
    memcpy(c->out + c->n, b + i, (size_t) size); c->n += size; i += size;
    while (i < n && b[i] == '\r') i++;
    if (i >= n) return;
    if (b[i] != '\n') { c->verdict = -1; return; }
    i++;
  }
  while (trailer)
  {
    while (i < n && b[i] == '\r') i++;
    if (i >= n) return;
    if (b[i++] == '\n') break;
    while (i < n && b[i] != '\n') i++;
    if (i >= n) return;
    i++;
  }
  c->verdict = 1; c->end = i;
}
static void scn_chunked(rng *r)
{
  static msg m;
  static chunked ref;
  static uint8_t got[MAXMSG + 8192];
  size_t k, n, chunks = rng_n(r, 8), gn, pos, left;
  int trailer = rng_p(r, 50), mode, verdict;
  char hex[40];
  m.n = 0;
  if (rng_p(r, 8)) { n = rng_n(r, 40); while (n--) mputc(&m, "0123aF;\r\n x"[rng_n(r, 11)]); }
  else
  {
    for (k = 0; k < chunks; k++)
    {
      n = rng_p(r, 70) ? 1 + rng_n(r, 30) : 1 + rng_n(r, 700);
      snprintf(hex, sizeof hex, rng_p(r, 50) ? "%zx" : "%zX", n);
      if (rng_p(r, 10)) { size_t z = rng_n(r, 17 - strlen(hex)); while (z--) mputc(&m, '0'); }
      mputs(&m, hex);
      if (rng_p(r, 20)) { mputc(&m, ';'); put_value(r, &m, rng_n(r, 20)); }
      mputs(&m, rng_p(r, 90) ? "\r\n" : "\n");
      while (n--) mputc(&m, rng_p(r, 20) ? "\r\n0"[rng_n(r, 3)] : (int) rng_n(r, 256));
      mputs(&m, rng_p(r, 90) ? "\r\n" : rng_p(r, 50) ? "\n" : "\r\r\n");
    }
    mputs(&m, rng_p(r, 85) ? "0\r\n" : rng_p(r, 50) ? "0000\n" : "0;x=y\r\n");
    if (trailer || rng_p(r, 20)) { n = rng_n(r, 3); while (n--) { put_token(r, &m, 1 + rng_n(r, 8)); mputs(&m, ": "); put_value(r, &m, rng_n(r, 20)); mputs(&m, rng_p(r, 90) ? "\r\n" : "\n"); } mputs(&m, rng_p(r, 90) ? "\r\n" : "\n"); }
    else if (rng_p(r, 50)) mputs(&m, "\r\n");
    if (rng_p(r, 30)) { n = rng_n(r, 50); while (n--) mputc(&m, rng_n(r, 256)); }
    if (rng_p(r, 30)) mutate(r, &m);
  }
  ref_chunked(m.b, m.n, trailer, &ref);
  mon_trace("%zu bytes, trailer %d: %s", m.n, trailer, show(m.b, m.n < 100 ? m.n : 100));
  mon_distinct(mon_hash(trailer, m.b, m.n));
  for (mode = 0; mode < 6; mode++)
  {
    struct phr_chunked_decoder d;
    memset(&d, 0, sizeof d); d.consume_trailer = trailer;
    gn = pos = left = 0; verdict = 0;
    while (pos < m.n && !verdict)
    {
      n = mode == 0 ? m.n : mode == 1 ? 1 : mode == 2 ? 1 + rng_n(r, 3) : mode == 3 ? 1 + rng_n(r, 40) : 1 + rng_size(r, 500);
      if (n > m.n - pos) n = m.n - pos;
      if (mode == 5 && rng_p(r, 20)) n = 0;
      placed pl = place(r, m.b + pos, n);
#if !defined(IS_ASAN)
      uint8_t canary[64]; if (n == 0) {} 
#if !defined(IS_MSAN)
      memcpy(canary, pl.p + n, 64);
#endif
#endif
      size_t sz = n;
      ssize_t ret = phr_decode_chunked(&d, (char *) pl.p, &sz);
#if !defined(IS_ASAN) && !defined(IS_MSAN)
      MON_CHECK(!memcmp(canary, pl.p + n, 64), "chunked-bounds", "bytes after the input were changed");
#endif
      MON_CHECK(sz <= n && gn + sz <= sizeof got, "chunked-size", "%zu decoded bytes from %zu", sz, n);
      memcpy(got + gn, pl.p, sz);
      pos += n;
      if (ret == -1) verdict = -1;
      else if (ret >= 0)
      {
        verdict = 1; left = ret;
        MON_CHECK(left <= n && sz + left <= n, "chunked-left", "%zu left of %zu", left, n);
        MON_CHECK(!memcmp(pl.p + sz, m.b + pos - left, left), "chunked-left", "the bytes left over are not those after the body");
      }
      else MON_CHECK(ret == -2, "chunked-return", "returned %zd", ret);
      if (verdict >= 0) gn += sz;
      free(pl.base);
      mon_count("feeds", 1);
    }
    mon_count("eval", 1);
    MON_CHECK(verdict == ref.verdict, "chunked-verdict", "segmentation %d: verdict %d, expected %d: %s", mode, verdict, ref.verdict, show(m.b, m.n));
    if (verdict >= 0)
    {
      MON_CHECK(gn == ref.n && !memcmp(got, ref.out, gn), "chunked-bytes", "segmentation %d: %zu decoded bytes, expected %zu or they differ: %s", mode, gn, ref.n, show(m.b, m.n));
      if (verdict == 1) MON_CHECK(pos - left == ref.end, "chunked-end", "segmentation %d: the body ends at %zu, expected %zu: %s", mode, pos - left, ref.end, show(m.b, m.n));
    }
    mon_count(verdict == 1 ? "complete" : verdict == 0 ? "need_more" : "rejected", 1);
  }
}

/* ------------------------------------------------------------------ sizes beyond 32 bits */
#define G4 (1UL << 32)
static uint8_t *vast(size_t n)
{
  uint8_t *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { mon_count("no_room", 1); return NULL; }
  return p;
}
static unsigned long gib_available(void)
{
  FILE *f = fopen("/proc/meminfo", "r"); char l[200]; unsigned long kb = 0;
  if (!f) return 0;
  while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break;
  fclose(f);
  return kb >> 20;
}
/* a head in front of gigabytes */
static void scn_vasthead(rng *r)
{
  static msg m; static parsed ref; http_field f[16]; size_t nf, all = 3 * G4, n, k; uint8_t *p = vast(all); ssize_t ret; data a, b; int code, resp; stream s; char want[400];
  if (!p) return;
  for (k = 0; k < 20; k++)
  {
    resp = rng_p(r, 50);
    do { m.n = 0; if (resp) gen_response(r, &m); else gen_request(r, &m); if (resp) ref_response(m.b, m.n, &ref, 16); else ref_request(m.b, m.n, &ref, 16); } while (ref.ret <= 0 || ref.nf > 16);
    memcpy(p, m.b, m.n);
    n = rng_p(r, 30) ? G4 * (1 + rng_n(r, 2)) : rng_p(r, 50) ? (G4 >> 1) * (1 + rng_n(r, 4)) + rng_n(r, m.n) : m.n + rng_n(r, all - m.n);
    if (n < m.n) n = m.n;
    nf = 16; a = b = data_null();
    if (resp) { memset(&s, 0, sizeof s); s.input.data = p; s.input.size = s.input.capacity = n; ret = http_read_response(&s, &code, &b, f, &nf); }
    else ret = http_read_request_data(data_construct((char *) p, n), &a, &b, f, &nf);
    snprintf(want, sizeof want, "%s", show(m.b, m.n < 60 ? m.n : 60));
    MON_CHECK(ret == ref.ret, resp ? "http-response-verdict" : "http-request-verdict", "in front of %zu bytes: returned %zd, expected %ld: %s", n - m.n, ret, ref.ret, want);
    MON_CHECK(nf == ref.nf && b.size == (resp ? ref.reason.n : ref.target.n) && (resp ? code == ref.status : a.size == ref.method.n), "http-slice", "in front of %zu bytes: %zu fields, expected %zu, or other slices: %s", n - m.n, nf, ref.nf, want);
    mon_count("vast_inputs", 1); mon_count("eval", 1); mon_count("parses", 1);
    mon_distinct(mon_hash(n, m.b, m.n));
  }
  munmap(p, all);
}
/* heads around the largest size that can be returned; the long part is one file mapped over and over */
static void scn_toolong(rng *r)
{
  static const size_t sizes[] = {INT_MAX, (size_t) INT_MAX + 1, G4 + 27, INT_MAX - 1, (size_t) INT_MAX + 20, G4, G4 - 1, G4 + (G4 >> 1) - 3, G4 + (G4 >> 1) + 1};
  static const char *front[] = {"GET /", "GET / HTTP/1.1\r\nHost: h\r\nX: ", "HTTP/1.1 200 ", "HTTP/1.0 404 Not Found\r\nX: "}, *back[] = {" HTTP/1.1\r\nHost: h\r\n\r\n", "\r\n\r\n", "\r\nA: b\r\n\r\n", "\r\nB: c\r\n\r\n"};
  size_t step = 16UL << 20, n = sizes[mon_case % 9], all, i, tail = rng_p(r, 50) ? 0 : 1 + rng_n(r, 5000), nf = 8, size, wf, wl; int kind = rng_n(r, 4), fd, code = 0, cut = mon_case % 9 && rng_p(r, 20); uint8_t *p, *q;
  http_field f[8]; data a = data_null(), b = data_null(), *l; ssize_t ret, want; stream s;
  all = (n + tail + step) / step * step;
  fd = memfd_create("head", 0);
  if (fd < 0) return;
  if (ftruncate(fd, step) < 0) { close(fd); return; }
  p = mmap(NULL, all, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { close(fd); return; }
  q = mmap(p, step, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, 0);
  if (q != p) { munmap(p, all); close(fd); return; }
  memset(p, 'a', step);
  for (i = 0; i < all; i += step)
    if (mmap(p + i, step, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_FIXED, fd, 0) != p + i) { munmap(p, all); close(fd); return; }
  close(fd);
  memcpy(p, front[kind], strlen(front[kind]));
  if (!cut) memcpy(p + n - strlen(back[kind]), back[kind], strlen(back[kind]));
  size = cut ? n : n + tail;
  want = n > INT_MAX ? -1 : cut ? -2 : (ssize_t) n;
  wl = n - strlen(front[kind]) - strlen(back[kind]) + (kind == 0);
  wf = kind == 0 || kind == 2 ? 1 : 2;
  mon_trace("%s of %zu bytes%s, %zu bytes in all", kind < 2 ? "request head" : "response head", n, cut ? " not ended" : "", size);
  if (kind < 2) ret = http_read_request_data(data_construct((char *) p, size), &a, &b, f, &nf);
  else { memset(&s, 0, sizeof s); s.input.data = p; s.input.size = s.input.capacity = size; ret = http_read_response(&s, &code, &b, f, &nf); }
  MON_CHECK(ret == want, kind < 2 ? "http-request-verdict" : "http-response-verdict", "a head of %zu bytes%s in %zu: returned %zd, expected %zd", n, cut ? " not ended" : "", size, ret, want);
  if (want > 0)
  {
    MON_CHECK(nf == wf, "http-fields", "a head of %zu bytes: %zu fields, expected %zu", n, nf, wf);
    l = kind == 0 || kind == 2 ? &b : &f[kind == 1].value;
    if (kind == 3) l = &f[0].value;
    MON_CHECK(l->base == (char *) p + strlen(front[kind]) - (kind == 0) && l->size == wl, "http-slice", "a head of %zu bytes: the long part has %zu bytes, expected %zu", n, l->size, wl);
    MON_CHECK(kind < 2 ? a.size == 3 && a.base == (char *) p : code == (kind == 2 ? 200 : 404), "http-slice", "a head of %zu bytes: another method or status", n);
    mon_count("vast_parsed", 1);
  }
  else mon_count("vast_refused", 1);
  munmap(p, all);
  mon_count("vast_heads", 1); mon_count("eval", 1); mon_distinct(n * 16 + kind * 2 + cut);
}
/* bodies around every decimal length boundary */
static void one_body(rng *r, size_t n, int resp)
{
  size_t all = n + 4096, pre, hn; uint8_t *p = vast(all), *q; stream s; char head[300]; int i; data d;
  if (!p) return;
  if (n > 200000000)
  {
    void *t = malloc(10UL << 30); free(t);
    if (!t || gib_available() < 14) { mon_count("no_room", 1); munmap(p, all); return; }
  }
  for (i = 0; i < 8; i++) p[rng_n(r, n)] = 'x';
  p[0] = 'a'; p[n - 1] = 'z';
  d = data_construct((char *) p, n);
  stream_construct(&s, NULL, NULL);
  pre = rng_n(r, 3); stream_write(&s, data_construct("ab", pre));
  if (resp) hn = snprintf(head, sizeof head, "HTTP/1.1 200 OK\r\nServer: reactor\r\nDate: now\r\nContent-Type: t\r\nContent-Length: %zu\r\n\r\n", n);
  else hn = snprintf(head, sizeof head, "PUT /x HTTP/1.1\r\nHost: h\r\nContent-Type: t\r\nContent-Length: %zu\r\n\r\n", n);
  mon_trace("%s with a body of %zu bytes", resp ? "response" : "request", n);
  if (resp) http_write_response(&s, data_string("200 OK"), data_string("now"), data_string("t"), d);
  else http_write_request(&s, data_string("PUT"), data_string("/x"), data_string("h"), data_string("t"), d);
  MON_CHECK(buffer_size(&s.output) == pre + hn + n, "http-write-size", "a body of %zu bytes: the output grew by %zu bytes, expected %zu", n, buffer_size(&s.output) - pre, hn + n);
  q = (uint8_t *) buffer_data(&s.output) + pre;
  MON_CHECK(!memcmp(q, head, hn), "http-write-bytes", "a body of %zu bytes: written %s", n, show(q, hn));
  MON_CHECK(!memcmp(q + hn, p, n), "http-write-bytes", "a body of %zu bytes is written otherwise", n);
  stream_destruct(&s);
  munmap(p, all);
  mon_count("eval", 1); mon_count("large_bodies", 1); mon_distinct(n * 2 + resp);
}
static void scn_vastbody(rng *r)
{
  static const size_t sizes[] = {999999, 1000000, 9999999, 10000000, 99999999, 100000000};
  one_body(r, sizes[mon_case / 2 % 6], mon_case % 2);
}
/* two cases of gigabytes, so that no more than two are in memory at a time */
static void scn_hugebody(rng *r)
{
  static const size_t sizes[2][3] = {{999999999, G4 - 1, G4}, {1000000000, 1UL << 31, G4 + 7}};
  int i, c = mon_case % 2;
  for (i = 0; i < 3; i++) one_body(r, sizes[c][i], (mon_case / 2 + c) % 2);
}
/* chunks whose size needs more than 32 bits, fed in large pieces */
static void scn_vastchunk(rng *r)
{
  size_t piece = 64UL << 20, fed = 0, sz, n, size = rng_p(r, 50) ? G4 + rng_n(r, 3000) : (G4 >> 1) * (1 + rng_n(r, 3)) + rng_n(r, 2000) - 1000, got = 0, hn, k; uint8_t *p = vast(piece + 4096);
  struct phr_chunked_decoder d; ssize_t ret; char head[60];
  if (!p) return;
  if (rng_p(r, 30)) piece = (1 << 20) + rng_n(r, 1 << 20);
  memset(&d, 0, sizeof d); d.consume_trailer = 1;
  hn = snprintf(head, sizeof head, "%zx\r\n", size);
  for (k = 0; k < hn; k++) { p[0] = head[k]; sz = 1; ret = phr_decode_chunked(&d, (char *) p, &sz); MON_CHECK(ret == -2 && sz == 0, "chunked-verdict", "size line of %zu: byte %zu yields %zd, %zu", size, k, ret, sz); }
  mon_trace("a chunk of %zu bytes in pieces of %zu", size, piece);
  while (fed < size)
  {
    n = size - fed; if (n > piece) n = piece;
    sz = n; ret = phr_decode_chunked(&d, (char *) p, &sz);
    MON_CHECK(ret == -2 && sz == n, "chunked-bytes", "after %zu of %zu: %zu of %zu bytes decoded, verdict %zd", fed, size, sz, n, ret);
    fed += n; got += sz; mon_count("feeds", 1);
  }
  memcpy(p, "\r\n0\r\n\r\nxyz", 10); sz = 10;
  ret = phr_decode_chunked(&d, (char *) p, &sz);
  MON_CHECK(ret == 3 && sz == 0, "chunked-end", "after a chunk of %zu bytes: verdict %zd, %zu bytes", size, ret, sz);
  munmap(p, (64UL << 20) + 4096);
  mon_count("eval", 1); mon_count("large_chunks", 1); mon_distinct(size);
}

const mon_scenario mon_scenarios[] = {
  {"request", scn_request, 0}, {"response", scn_response, 0}, {"align", scn_align, 0}, {"long", scn_long, 0}, {"live", scn_live, MON_FDS},
  {"write", scn_write, MON_FDS}, {"lookup", scn_lookup, 0}, {"chunked", scn_chunked, 0},
  {"vasthead", scn_vasthead, 0}, {"toolong", scn_toolong, 0}, {"vastbody", scn_vastbody, 0}, {"hugebody", scn_hugebody, 0}, {"vastchunk", scn_vastchunk, 0}, {0}
};
