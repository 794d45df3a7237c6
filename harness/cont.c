/* Reference-model monitors for the data structures: buffer, vector, list, maps, string, hash, decimals, slices. */
#include "mon.h"
#include <float.h>
#include <sys/mman.h>

/* ------------------------------------------------------------------ ideal byte sequence */
typedef struct { uint8_t *p; size_t n, cap; } bytes;
static void b_room(bytes *b, size_t n) { if (n > b->cap) { b->cap = n * 2 + 16; b->p = realloc(b->p, b->cap); } }
static void b_insert(bytes *b, size_t at, const void *d, size_t n)
{
  b_room(b, b->n + n);
  memmove(b->p + at + n, b->p + at, b->n - at);
  if (n) memcpy(b->p + at, d, n);
  b->n += n;
}
static void b_erase(bytes *b, size_t at, size_t n) { memmove(b->p + at, b->p + at + n, b->n - at - n); b->n -= n; }
static void b_free(bytes *b) { free(b->p); *b = (bytes) {0}; }
/* an exactly sized heap copy: reads beyond it are seen by the sanitizer */
static void *exact(const void *d, size_t n) { void *p = malloc(n ? n : 1); if (n) memcpy(p, d, n); return p; }

/* ------------------------------------------------------------------ C20 buffer */
static void buf_compare(buffer *b, bytes *m, size_t reserved, const char *op)
{
  MON_CHECK(buffer_size(b) == m->n, "buffer-size", "after %s: size %zu, expected %zu", op, buffer_size(b), m->n);
  MON_CHECK(buffer_capacity(b) >= buffer_size(b), "buffer-capacity", "after %s: capacity %zu below size %zu", op, buffer_capacity(b), buffer_size(b));
  MON_CHECK(buffer_capacity(b) >= reserved, "buffer-reserve", "after %s: capacity %zu below the reserved %zu", op, buffer_capacity(b), reserved);
  if (m->n) MON_CHECK(memcmp(buffer_data(b), m->p, m->n) == 0, "buffer-content", "after %s: contents differ (size %zu)", op, m->n);
}
static void scn_buffer(rng *r)
{
  buffer b;
  bytes m = {0};
  int i, ops = 20 + rng_n(r, 60), op;
  size_t reserved = 0, n, at, k, j, big = rng_p(r, 10) ? 70000 : rng_p(r, 40) ? 3000 : 200;
  uint64_t h = MON_H0;
  void *d;
  uint8_t tmp[64];

  buffer_construct(&b);
  buf_compare(&b, &m, 0, "construct");
  for (i = 0; i < ops; i++)
  {
    op = rng_n(r, 100);
    if (op < 40)
    {
      n = rng_size(r, big); at = rng_p(r, 40) ? m.n : rng_p(r, 20) ? 0 : rng_n(r, m.n + 1);
      d = malloc(n ? n : 1); rng_bytes(r, d, n);
      mon_trace("insert at %zu of %zu: %zu bytes", at, m.n, n);
      buffer_insert(&b, at, d, n); b_insert(&m, at, d, n); free(d);
      h = mon_mix(h, n * 31 + at); buf_compare(&b, &m, reserved, "insert");
    }
    else if (op < 52)
    {
      n = rng_size(r, 40); k = rng_size(r, 30); at = rng_p(r, 40) ? m.n : rng_n(r, m.n + 1);
      d = malloc(n ? n : 1); rng_bytes(r, d, n);
      mon_trace("fill at %zu of %zu: %zu x %zu bytes", at, m.n, k, n);
      buffer_insert_fill(&b, at, k, d, n);
      for (j = 0; j < k; j++) b_insert(&m, at, d, n);
      free(d);
      h = mon_mix(h, n * 37 + k); buf_compare(&b, &m, reserved, "insert_fill");
    }
    else if (op < 75)
    {
      at = rng_n(r, m.n + 1); n = rng_p(r, 20) ? m.n - at : rng_n(r, m.n - at + 1);
      mon_trace("erase at %zu of %zu: %zu bytes", at, m.n, n);
      buffer_erase(&b, at, n); b_erase(&m, at, n);
      h = mon_mix(h, n * 41 + at); buf_compare(&b, &m, reserved, "erase");
    }
    else if (op < 83)
    {
      n = rng_size(r, big); if (n > reserved) reserved = n;
      mon_trace("reserve %zu (size %zu)", n, m.n);
      buffer_reserve(&b, n); h = mon_mix(h, n * 43); buf_compare(&b, &m, reserved, "reserve");
      /* the reserved space is really there */
      if (buffer_capacity(&b)) { size_t c = buffer_capacity(&b); if (c > m.n) ((volatile uint8_t *) buffer_data(&b))[c - 1] = 1; }
    }
    else if (op < 91)
    {
      n = rng_p(r, 50) ? rng_n(r, m.n + 1) : rng_size(r, big); k = m.n;
      mon_trace("resize %zu -> %zu", k, n);
      buffer_resize(&b, n);
      if (n > k) { uint8_t *p = buffer_data(&b); MON_CHECK(p != NULL, "buffer-resize", "no memory after growing"); MON_CHECK(k == 0 || !memcmp(p, m.p, k), "buffer-content", "resize changed the contents"); rng_bytes(r, p + k, n - k); b_insert(&m, k, p + k, n - k); }
      else m.n = n;
      h = mon_mix(h, n * 47); buf_compare(&b, &m, 0, "resize");
      if (reserved) buf_compare(&b, &m, reserved, "resize");
    }
    else if (op < 97)
    {
      mon_trace("compact (size %zu)", m.n);
      buffer_compact(&b); reserved = 0; h = mon_mix(h, 53); buf_compare(&b, &m, 0, "compact");
      MON_CHECK(buffer_capacity(&b) <= (m.n ? 2 * m.n + 64 : 64), "buffer-compact", "capacity %zu after compacting %zu bytes", buffer_capacity(&b), m.n);
    }
    else
    {
      mon_trace("clear");
      buffer_clear(&b); m.n = 0; reserved = 0; h = mon_mix(h, 59); buf_compare(&b, &m, 0, "clear");
    }
    mon_count("eval", 1);
  }
  (void) tmp;
  mon_distinct(h);
  if (mon_case % 997 == 0) mon_sample("%d operations, final size %zu, capacity %zu", ops, m.n, buffer_capacity(&b));
  buffer_destruct(&b);
  b_free(&m);
}

/* ------------------------------------------------------------------ C21 vector */
static uint8_t rel_log[1 << 20];
static size_t rel_n, rel_size, rel_count;
static void vec_release(void *o)
{
  if (rel_n + rel_size <= sizeof rel_log) { memcpy(rel_log + rel_n, o, rel_size); rel_n += rel_size; }
  rel_count++;
}
static int cmp_size;
static int elem_cmp(const void *a, const void *b) { return memcmp(a, b, cmp_size); }
static void vec_expect(bytes *gone, size_t es, const char *op)
{
  size_t n = gone->n / es;
  MON_CHECK(rel_count == n, "vector-release-count", "%s: %zu elements released, expected %zu", op, rel_count, n);
  cmp_size = es;
  qsort(rel_log, n, es, elem_cmp); qsort(gone->p, n, es, elem_cmp);
  if (n) MON_CHECK(memcmp(rel_log, gone->p, n * es) == 0, "vector-release-value", "%s: released elements are not the removed ones", op);
  rel_n = 0; rel_count = 0; gone->n = 0;
}
static void vec_compare(vector *v, bytes *m, size_t es, const char *op)
{
  size_t n = m->n / es, i;
  MON_CHECK(vector_size(v) == n, "vector-size", "after %s: size %zu, expected %zu", op, vector_size(v), n);
  MON_CHECK(!!vector_empty(v) == (n == 0), "vector-empty", "after %s", op);
  MON_CHECK(vector_capacity(v) >= n, "vector-capacity", "after %s: %zu < %zu", op, vector_capacity(v), n);
  if (!n) return;
  MON_CHECK(memcmp(vector_data(v), m->p, m->n) == 0, "vector-content", "after %s: contents differ (%zu elements of %zu bytes)", op, n, es);
  MON_CHECK(memcmp(vector_front(v), m->p, es) == 0, "vector-front", "after %s", op);
  MON_CHECK(memcmp(vector_back(v), m->p + m->n - es, es) == 0, "vector-back", "after %s", op);
  for (i = 0; i < n; i += 1 + n / 5) MON_CHECK(memcmp(vector_at(v, i), m->p + i * es, es) == 0, "vector-at", "after %s: element %zu", op, i);
}
static void scn_vector(rng *r)
{
  static const size_t sizes[] = {1, 2, 3, 4, 5, 7, 8, 12, 16, 24, 33, 64, 100};
  size_t es = sizes[rng_n(r, sizeof sizes / sizeof *sizes)], n, at, k, j, want;
  vector v;
  bytes m = {0}, gone = {0};
  int i, ops = 20 + rng_n(r, 60), op;
  uint64_t h = mon_mix(MON_H0, es);
  void *d;

  rel_n = rel_count = 0; rel_size = es;
  vector_construct(&v, es);
  vec_compare(&v, &m, es, "construct");
  for (i = 0; i < ops; i++)
  {
    op = rng_n(r, 100); n = m.n / es;
    if (op < 22) { d = malloc(es); rng_bytes(r, d, es); mon_trace("push_back (%zu)", n); vector_push_back(&v, d); b_insert(&m, m.n, d, es); free(d); h = mon_mix(h, 1); vec_compare(&v, &m, es, "push_back"); }
    else if (op < 36) { d = malloc(es); rng_bytes(r, d, es); at = rng_n(r, n + 1); mon_trace("insert %zu/%zu", at, n); vector_insert(&v, at, d); b_insert(&m, at * es, d, es); free(d); h = mon_mix(h, at * 3 + 2); vec_compare(&v, &m, es, "insert"); }
    else if (op < 48)
    {
      k = rng_size(r, 40); at = rng_n(r, n + 1); d = malloc(k * es ? k * es : 1); rng_bytes(r, d, k * es); mon_trace("insert_range %zu at %zu/%zu", k, at, n);
      vector_insert_range(&v, at, d, (char *) d + k * es); b_insert(&m, at * es, d, k * es); free(d); h = mon_mix(h, at * 5 + k); vec_compare(&v, &m, es, "insert_range");
    }
    else if (op < 58)
    {
      k = rng_size(r, 40); at = rng_n(r, n + 1); d = malloc(es); rng_bytes(r, d, es); mon_trace("insert_fill %zu at %zu/%zu", k, at, n);
      vector_insert_fill(&v, at, k, d); for (j = 0; j < k; j++) b_insert(&m, at * es, d, es); free(d); h = mon_mix(h, at * 7 + k); vec_compare(&v, &m, es, "insert_fill");
    }
    else if (op < 68 && n) { int rel = rng_p(r, 70); at = rng_n(r, n); mon_trace("erase %zu/%zu rel %d", at, n, rel); if (rel) b_insert(&gone, gone.n, m.p + at * es, es); vector_erase(&v, at, rel ? vec_release : NULL); b_erase(&m, at * es, es); h = mon_mix(h, at * 11); vec_expect(&gone, es, "erase"); vec_compare(&v, &m, es, "erase"); }
    else if (op < 78)
    {
      int rel = rng_p(r, 70);
      at = rng_n(r, n + 1); k = rng_n(r, n - at + 1); if (rng_p(r, 15)) { at = 0; k = n; }
      mon_trace("erase_range %zu..%zu/%zu rel %d", at, at + k, n, rel);
      if (rel && k) b_insert(&gone, gone.n, m.p + at * es, k * es);
      vector_erase_range(&v, at, at + k, rel ? vec_release : NULL); b_erase(&m, at * es, k * es); h = mon_mix(h, at * 13 + k);
      vec_expect(&gone, es, "erase_range"); vec_compare(&v, &m, es, "erase_range");
    }
    else if (op < 86 && n) { int rel = rng_p(r, 70); mon_trace("pop_back (%zu) rel %d", n, rel); if (rel) b_insert(&gone, gone.n, m.p + m.n - es, es); vector_pop_back(&v, rel ? vec_release : NULL); m.n -= es; h = mon_mix(h, 17); vec_expect(&gone, es, "pop_back"); vec_compare(&v, &m, es, "pop_back"); }
    else if (op < 92) { want = rng_size(r, 300); mon_trace("reserve %zu (%zu)", want, n); vector_reserve(&v, want); MON_CHECK(vector_capacity(&v) >= want, "vector-reserve", "capacity %zu < %zu", vector_capacity(&v), want); h = mon_mix(h, want); vec_compare(&v, &m, es, "reserve"); }
    else if (op < 97) { mon_trace("shrink"); vector_shrink_to_fit(&v); h = mon_mix(h, 19); vec_compare(&v, &m, es, "shrink_to_fit"); }
    else { int rel = rng_p(r, 70); mon_trace("clear rel %d", rel); if (rel && m.n) b_insert(&gone, gone.n, m.p, m.n); vector_clear(&v, rel ? vec_release : NULL); m.n = 0; h = mon_mix(h, 23); vec_expect(&gone, es, "clear"); vec_compare(&v, &m, es, "clear"); }
    mon_count("eval", 1);
  }
  if (mon_case % 997 == 0) mon_sample("%d operations, element size %zu, final %zu elements", ops, es, m.n / es);
  if (m.n) b_insert(&gone, gone.n, m.p, m.n);
  vector_destruct(&v, vec_release);
  vec_expect(&gone, es, "destruct");
  mon_distinct(h);
  b_free(&m); b_free(&gone);
}

/* ------------------------------------------------------------------ C22 list */
#define LMAX 400
typedef struct { void *obj; uint64_t id; size_t size; } lnode;
typedef struct { lnode n[LMAX]; int c; } lmodel;
static uint64_t l_id(uint64_t id, size_t k) { return mon_mix(id, k); }
static void l_fill(uint8_t *p, uint64_t id, size_t size) { size_t i; for (i = 0; i < size; i++) p[i] = (uint8_t) l_id(id, i); }
static int l_ok(uint8_t *p, uint64_t id, size_t size) { size_t i; for (i = 0; i < size; i++) if (p[i] != (uint8_t) l_id(id, i)) return 0; return 1; }
static struct { void *obj; uint64_t id; size_t size; int hit; } lexp[LMAX];
static int lexp_n, lrel;
static void list_rel(void *o)
{
  int i;
  lrel++;
  for (i = 0; i < lexp_n; i++) if (lexp[i].obj == o && !lexp[i].hit) break;
  MON_CHECK(i < lexp_n, "list-release-foreign", "release called for an element that is not being removed");
  MON_CHECK(l_ok(o, lexp[i].id, lexp[i].size), "list-release-value", "released element is damaged");
  lexp[i].hit = 1;
}
static void list_check(list *l, lmodel *m, const char *op)
{
  void *o;
  int i = 0;
  MON_CHECK(!!list_empty(l) == (m->c == 0), "list-empty", "after %s", op);
  list_foreach(l, o)
  {
    MON_CHECK(i < m->c, "list-forward", "after %s: more than %d elements", op, m->c);
    MON_CHECK(o == m->n[i].obj, "list-forward", "after %s: element %d is at another address or out of order", op, i);
    MON_CHECK(l_ok(o, m->n[i].id, m->n[i].size), "list-content", "after %s: element %d damaged", op, i);
    i++;
  }
  MON_CHECK(i == m->c, "list-forward", "after %s: %d of %d elements", op, i, m->c);
  for (o = list_back(l), i = m->c - 1; o != list_end(l); o = list_previous(o), i--)
    MON_CHECK(i >= 0 && o == m->n[i].obj, "list-backward", "after %s: backward walk differs at %d", op, i);
  MON_CHECK(i == -1, "list-backward", "after %s: backward walk stops early at %d", op, i);
  if (m->c) MON_CHECK(list_front(l) == m->n[0].obj && list_back(l) == m->n[m->c - 1].obj, "list-ends", "after %s", op);
}
static uint64_t find_id;
static int find_min;
static void *list_key;
static int list_cmp(void *a, void *b) { MON_CHECK(a == list_key, "list-find", "the compare function is not given the wanted object first"); return *(uint8_t *) a == *(uint8_t *) b ? 0 : 1; }
static void m_insert(lmodel *m, int at, lnode n) { memmove(m->n + at + 1, m->n + at, (m->c - at) * sizeof n); m->n[at] = n; m->c++; }
static lnode m_remove(lmodel *m, int at) { lnode n = m->n[at]; memmove(m->n + at, m->n + at + 1, (m->c - at - 1) * sizeof n); m->c--; return n; }
static void scn_list(rng *r)
{
  list l[2];
  static lmodel m[2];
  int i, ops = 30 + rng_n(r, 100), op, w, at, w2, at2, k;
  uint64_t h = MON_H0, id = 1;
  uint8_t tmp[512];
  size_t size;
  lnode n;
  void *o, *next;

  (void) find_id; (void) find_min;
  m[0].c = m[1].c = 0;
  list_construct(&l[0]); list_construct(&l[1]);
  for (i = 0; i < ops; i++)
  {
    op = rng_n(r, 100); w = rng_p(r, 30);
    if (op < 45 && m[w].c < LMAX - 1)
    {
      int how = rng_n(r, 3), null = rng_p(r, 15);
      size = rng_p(r, 5) ? 0 : rng_p(r, 80) ? 1 + rng_n(r, 32) : rng_n(r, sizeof tmp);
      void *src = NULL;
      id++;
      l_fill(tmp, id, size);
      if (!null) src = exact(tmp, size);
      at = how == 0 ? 0 : how == 1 ? m[w].c : (int) rng_n(r, m[w].c + 1);
      mon_trace("%s list %d at %d/%d size %zu null %d", how == 0 ? "push_front" : how == 1 ? "push_back" : "insert", w, at, m[w].c, size, null);
      o = how == 0 ? list_push_front(&l[w], src, size) : how == 1 ? list_push_back(&l[w], src, size) :
        list_insert(at == m[w].c ? list_end(&l[w]) : m[w].n[at].obj, src, size);
      if (null) { for (k = 0; k < (int) size; k++) MON_CHECK(((uint8_t *) o)[k] == 0, "list-zeroed", "element without an initial value is not zeroed"); l_fill(o, id, size); }
      free(src);
      m_insert(&m[w], at, (lnode) {o, id, size});
      h = mon_mix(h, op * 7 + at);
    }
    else if (op < 60 && m[w].c)
    {
      at = rng_n(r, m[w].c); k = rng_p(r, 70);
      mon_trace("erase list %d at %d/%d rel %d", w, at, m[w].c, k);
      lexp_n = 1; lexp[0].obj = m[w].n[at].obj; lexp[0].id = m[w].n[at].id; lexp[0].size = m[w].n[at].size; lexp[0].hit = 0; lrel = 0;
      o = m[w].n[at].obj; m_remove(&m[w], at);
      list_erase(o, k ? list_rel : NULL);
      MON_CHECK(lrel == k, "list-release-count", "erase released %d elements", lrel);
      h = mon_mix(h, 1000 + at);
    }
    else if (op < 80 && m[w].c)
    {
      at = rng_n(r, m[w].c); w2 = rng_p(r, 40) ? !w : w; at2 = rng_n(r, m[w2].c + 1);
      if (m[w2].c >= LMAX - 1) continue;
      o = at2 == m[w2].c ? list_end(&l[w2]) : m[w2].n[at2].obj;
      mon_trace("splice list %d at %d/%d before list %d at %d/%d", w, at, m[w].c, w2, at2, m[w2].c);
      list_splice(o, m[w].n[at].obj);
      if (!(w == w2 && at == at2)) { n = m_remove(&m[w], at); if (w == w2 && at < at2) at2--; m_insert(&m[w2], at2, n); }
      h = mon_mix(h, 2000 + at * 31 + at2);
    }
    else if (op < 88)
    {
      /* find: first match on the first byte */
      uint8_t key = (uint8_t) rng_next(r);
      int zero = 0;
      for (k = 0; k < m[w].c; k++) if (!m[w].n[k].size) zero = 1;
      if (zero) continue;
      if (m[w].c && rng_p(r, 70)) key = *(uint8_t *) m[w].n[rng_n(r, m[w].c)].obj;
      for (k = 0; k < m[w].c && *(uint8_t *) m[w].n[k].obj != key; k++);
      list_key = &key;
      o = list_find(&l[w], list_cmp, &key);
      MON_CHECK(o == (k < m[w].c ? m[w].n[k].obj : NULL), "list-find", "find returned another element than the first match at %d", k);
      h = mon_mix(h, 3000 + k);
    }
    else if (op < 95)
    {
      /* erase some while walking */
      int idx = 0;
      mon_trace("walk and erase list %d (%d)", w, m[w].c);
      for (o = list_front(&l[w]); o != list_end(&l[w]); o = next)
      {
        next = list_next(o);
        MON_CHECK(idx < m[w].c && o == m[w].n[idx].obj, "list-walk", "walk with erasure reached another element");
        if (rng_p(r, 30)) { lexp_n = 1; lexp[0].obj = o; lexp[0].id = m[w].n[idx].id; lexp[0].size = m[w].n[idx].size; lexp[0].hit = 0; lrel = 0; m_remove(&m[w], idx); list_erase(o, list_rel); MON_CHECK(lrel == 1, "list-release-count", "erase released %d elements", lrel); }
        else idx++;
      }
      MON_CHECK(idx == m[w].c, "list-walk", "walk with erasure ended early");
      h = mon_mix(h, 4000 + idx);
    }
    else
    {
      k = rng_p(r, 70);
      mon_trace("clear list %d (%d) rel %d", w, m[w].c, k);
      for (lexp_n = 0; lexp_n < m[w].c; lexp_n++) { lexp[lexp_n].obj = m[w].n[lexp_n].obj; lexp[lexp_n].id = m[w].n[lexp_n].id; lexp[lexp_n].size = m[w].n[lexp_n].size; lexp[lexp_n].hit = 0; }
      lrel = 0; at = m[w].c; m[w].c = 0;
      list_clear(&l[w], k ? list_rel : NULL);
      MON_CHECK(lrel == (k ? at : 0), "list-release-count", "clear released %d of %d elements", lrel, at);
      h = mon_mix(h, 5000 + at);
    }
    list_check(&l[0], &m[0], "operation"); list_check(&l[1], &m[1], "operation");
    mon_count("eval", 1);
  }
  mon_distinct(h);
  if (mon_case % 997 == 0) mon_sample("%d operations, final sizes %d and %d", ops, m[0].c, m[1].c);
  for (w = 0; w < 2; w++)
  {
    for (lexp_n = 0; lexp_n < m[w].c; lexp_n++) { lexp[lexp_n].obj = m[w].n[lexp_n].obj; lexp[lexp_n].id = m[w].n[lexp_n].id; lexp[lexp_n].size = m[w].n[lexp_n].size; lexp[lexp_n].hit = 0; }
    lrel = 0;
    list_destruct(&l[w], list_rel);
    MON_CHECK(lrel == m[w].c, "list-release-count", "destruct released %d of %d elements", lrel, m[w].c);
  }
}

/* ------------------------------------------------------------------ C23 maps */
#define KMAX 3000
typedef struct { uintptr_t key, value; int present; } mref;
static mref refs[KMAX];
static int refs_n;
static struct { uintptr_t key, value; } mrel[KMAX * 2];
static int mrel_n;
static char *skeys[KMAX];

static void mi_release(mapi_entry *e) { if (mrel_n < KMAX * 2) { mrel[mrel_n].key = e->key; mrel[mrel_n].value = e->value; } mrel_n++; }
static void ms_release(maps_entry *e) { if (mrel_n < KMAX * 2) { mrel[mrel_n].key = (uintptr_t) e->key; mrel[mrel_n].value = e->value; } mrel_n++; }
/* generic map: entry with key, value and a chosen hash */
typedef struct { uint32_t key; uint32_t value; uint32_t used; } gent;
static int g_mode;
static void g_set(void *a, void *b) { gent *x = a, *y = b; *x = y ? *y : (gent) {0}; if (y) x->used = 1; }
static int g_equal(void *a, void *b) { gent *x = a, *y = b; return y ? x->used && x->key == y->key : !x->used; }
static size_t g_hash(void *a)
{
  gent *x = a;
  switch (g_mode)
  {
  case 0: return 0;
  case 1: return x->key;
  case 2: return SIZE_MAX - x->key % 5;             /* clusters that wrap around the table end */
  case 3: return (size_t) x->key << 3;
  case 4: return x->key & 7;
  case 5: return (size_t) -1;
  default: return hash_uint64(x->key);
  }
}
static void g_release(void *a) { gent *x = a; if (mrel_n < KMAX * 2) { mrel[mrel_n].key = x->key; mrel[mrel_n].value = x->value; } mrel_n++; }

typedef struct { int kind; mapi mi; maps ms; map mg; } anymap;
static uintptr_t am_key(anymap *a, int k) { return a->kind == 1 ? (uintptr_t) skeys[k] : refs[k].key; }
static void am_insert(anymap *a, int k, uintptr_t v, int rel, char *skey)
{
  switch (a->kind)
  {
  case 0: mapi_insert(&a->mi, refs[k].key, v, rel ? mi_release : NULL); break;
  case 1: maps_insert(&a->ms, skey ? skey : skeys[k], v, rel ? ms_release : NULL); break;
  default: map_insert(&a->mg, (gent[]) {{.key = refs[k].key, .value = v, .used = 1}}, g_hash, g_set, g_equal, rel ? g_release : NULL); break;
  }
}
static void am_erase(anymap *a, int k, int rel)
{
  switch (a->kind)
  {
  case 0: mapi_erase(&a->mi, refs[k].key, rel ? mi_release : NULL); break;
  case 1: { char *c = exact(skeys[k], strlen(skeys[k]) + 1); maps_erase(&a->ms, c, rel ? ms_release : NULL); free(c); break; }
  default: map_erase(&a->mg, (gent[]) {{.key = refs[k].key, .used = 1}}, g_hash, g_set, g_equal, rel ? g_release : NULL); break;
  }
}
static uintptr_t am_at(anymap *a, int k)
{
  switch (a->kind)
  {
  case 0: return mapi_at(&a->mi, refs[k].key);
  case 1: { char *c = exact(skeys[k], strlen(skeys[k]) + 1); uintptr_t v = maps_at(&a->ms, c); free(c); return v; }
  default: { gent *g = map_at(&a->mg, (gent[]) {{.key = refs[k].key, .used = 1}}, g_hash, g_equal); return g->used ? g->value : 0; }
  }
}
static size_t am_size(anymap *a) { return a->kind == 0 ? mapi_size(&a->mi) : a->kind == 1 ? maps_size(&a->ms) : map_size(&a->mg); }
static int ref_count(void) { int i, c = 0; for (i = 0; i < refs_n; i++) c += refs[i].present; return c; }
static int am_enum(anymap *a)
{
  int c = 0, i;
  if (a->kind == 0)
  {
    mapi_entry *e;
    mapi_foreach(&a->mi, e) { for (i = 0; i < refs_n && refs[i].key != e->key; i++); MON_CHECK(i < refs_n && refs[i].present && refs[i].value == e->value, "map-enumerate", "enumeration shows an entry that is not in the map"); c++; }
  }
  else if (a->kind == 1)
  {
    maps_entry *e;
    maps_foreach(&a->ms, e) { for (i = 0; i < refs_n && strcmp(skeys[i], e->key); i++); MON_CHECK(i < refs_n && refs[i].present && refs[i].value == e->value, "map-enumerate", "enumeration shows an entry that is not in the map"); c++; }
  }
  else return -1;
  return c;
}
static void am_check(anymap *a, const char *op, int k0)
{
  int i, c = ref_count(), step = refs_n > 200 ? 1 + refs_n / 150 : 1;
  MON_CHECK(am_size(a) == (size_t) c, "map-size", "after %s: size %zu, expected %d", op, am_size(a), c);
  for (i = k0 % step; i < refs_n; i += step)
    MON_CHECK(am_at(a, i) == (refs[i].present ? refs[i].value : 0), "map-lookup", "after %s: key #%d gives %lu, expected %lu", op, i, (unsigned long) am_at(a, i), (unsigned long) (refs[i].present ? refs[i].value : 0));
}
static int mrel_cmp(const void *a, const void *b) { return memcmp(a, b, sizeof mrel[0]); }
static uint64_t xsr(uint64_t v, int k) { uint64_t o = v; int i; for (i = 0; i < 64 / k + 1; i++) o = v ^ (o >> k); return o; }
static uint64_t inv64(uint64_t a) { uint64_t x = a; int i; for (i = 0; i < 6; i++) x *= 2 - a * x; return x; }
/* the key the published finaliser maps to a given value: keys that meet in one place of the table */
static uint64_t unhash64(uint64_t v) { v = xsr(v, 33) * inv64(0xc4ceb9fe1a85ec53ULL); v = xsr(v, 33) * inv64(0xff51afd7ed558ccdULL); return xsr(v, 33); }
static uintptr_t int_key(rng *r, int profile, uintptr_t base, int i)
{
  switch (profile)
  {
  case 0: return ((uintptr_t) rng_next(r) << 32) | (uint32_t) base;       /* lower halves agree */
  case 1: return (uintptr_t) (i + 1) << 32;                                                                   /* lower halves empty */
  case 2: return (base & ~(uintptr_t) 0xffffffff) | (uint32_t) rng_next(r);                                   /* upper halves agree */
  case 3: return base ^ ((uintptr_t) 1 << rng_n(r, 64)) ^ (rng_p(r, 50) ? (uintptr_t) 1 << rng_n(r, 64) : 0);     /* one or two bits apart */
  case 4: return unhash64((rng_next(r) << 12) | (base & 0xfff));                                              /* one home slot */
  case 5: return unhash64((rng_next(r) << 6) | ((base + rng_n(r, 3)) & 0x3f));                                   /* three neighbouring ones */
  case 6: return (uintptr_t) -1 - i;
  default: return rng_p(r, 40) ? (uintptr_t) i + 1 : rng_p(r, 50) ? base + i * 16 : rng_next(r);
  }
}
static void map_run(rng *r, int kind)
{
  static anymap a;
  static struct { uintptr_t key, value; } gone[KMAX * 2];
  int gone_n = 0, i, j, k, rel, op, ops, big = rng_p(r, 6);
  uint64_t h = mon_mix(MON_H0, kind);
  uintptr_t base = rng_next(r);

  int profile = rng_n(r, 12);
  char common[4096];
  size_t common_n = rng_p(r, 4) ? rng_n(r, 4000) : rng_n(r, rng_p(r, 50) ? 20 : 190);

  for (i = 0; i < (int) common_n; i++) common[i] = profile % 3 ? 'a' + rng_n(r, 26) : 1 + rng_n(r, 255);
  common[common_n] = 0;
  a.kind = kind;
  g_mode = rng_n(r, 7);
  refs_n = big ? 500 + rng_n(r, mon_tier ? 2000 : 600) : 4 + rng_n(r, 40);
  if (kind == 2 && g_mode != 6 && refs_n > 200) refs_n = 200;
  ops = big ? refs_n * 3 : 60 + rng_n(r, 200);
  for (i = 0; i < refs_n; i++)
  {
    refs[i] = (mref) {.key = 0};
    if (kind == 0)
    {
      do
      {
        refs[i].key = int_key(r, rng_p(r, 90) ? profile : 99, base, i);
        for (j = 0; j < i && refs[j].key != refs[i].key; j++);
      } while (!refs[i].key || j < i);
    }
    else if (kind == 2) refs[i].key = rng_p(r, 50) ? (uint32_t) i * 7 + 1000000 : (uint32_t) i;
    if (kind == 2) { for (j = 0; j < i && refs[j].key != refs[i].key; j++); if (j < i) refs[i].key = 5000000 + i; }
    if (kind == 1)
    {
      char s[4096];
      switch (rng_n(r, profile < 6 ? 8 : 4))
      {
      case 4: snprintf(s, sizeof s, "%.*s", (int) rng_n(r, common_n + 1), common); break;                    /* prefixes of one another */
      case 5: snprintf(s, sizeof s, "%s%c", common, (int) (1 + rng_n(r, 255))); break;                       /* the last character differs */
      case 6: strcpy(s, common); if (common_n) s[rng_n(r, common_n)] ^= 0x20; if (strlen(s) != common_n) strcpy(s, common); break;
      case 7: strcpy(s, common); if (common_n) s[rng_n(r, common_n)] = 1 + rng_n(r, 255); break;
      case 0: snprintf(s, sizeof s, "%d", i); break;
      case 1: snprintf(s, sizeof s, "key-with-a-rather-long-common-prefix-that-goes-on-and-on-%d", i); break;
      case 2: snprintf(s, sizeof s, "%s%d", i ? "x" : "", i); if (i == 0) s[0] = 0; break;
      default: snprintf(s, sizeof s, "%c%c%d", (int) (128 + rng_n(r, 100)), (int) ('A' + rng_n(r, 3)), i); break;
      }
      for (j = 0; j < i && strcmp(skeys[j], s); j++);
      if (j < i) snprintf(s, sizeof s, "uniq-%d", i);
      skeys[i] = exact(s, strlen(s) + 1);
    }
  }
  mrel_n = 0;
  if (kind == 0) mapi_construct(&a.mi); else if (kind == 1) maps_construct(&a.ms); else map_construct(&a.mg, sizeof(gent), g_set);
  for (i = 0; i < ops; i++)
  {
    op = rng_n(r, 100); k = rng_n(r, refs_n); rel = rng_p(r, 60); mrel_n = 0; gone_n = 0;
    if (op < (i < ops / 2 ? 60 : 40))
    {
      uintptr_t v = (uint32_t) (1 + rng_n(r, 1u << 30));
      mon_trace("insert #%d%s", k, refs[k].present ? " (present)" : "");
      if (refs[k].present)
      {
        char *dup = kind == 1 ? exact(skeys[k], strlen(skeys[k]) + 1) : NULL;
        am_insert(&a, k, v, rel, dup);
        if (rel) MON_CHECK(mrel_n == 1 && mrel[0].value == v && (kind == 1 ? mrel[0].key == (uintptr_t) dup : mrel[0].key == refs[k].key), "map-release-duplicate", "duplicate insert released %d entries, not the rejected one", mrel_n);
        free(dup);
      }
      else { am_insert(&a, k, v, rel, NULL); refs[k].present = 1; refs[k].value = v; MON_CHECK(mrel_n == 0, "map-release-live", "insert released %d entries", mrel_n); }
      h = mon_mix(h, k * 2 + 1);
    }
    else if (op < 88)
    {
      mon_trace("erase #%d%s", k, refs[k].present ? "" : " (absent)");
      am_erase(&a, k, rel);
      if (refs[k].present) { MON_CHECK(mrel_n == rel, "map-release-count", "erase released %d entries", mrel_n); if (rel) MON_CHECK(mrel[0].key == am_key(&a, k) && mrel[0].value == refs[k].value, "map-release-value", "erase released another entry"); }
      else MON_CHECK(mrel_n == 0, "map-release-live", "erase of an absent key released %d entries", mrel_n);
      refs[k].present = 0;
      h = mon_mix(h, k * 2);
    }
    else if (op < 93)
    {
      size_t n = rng_size(r, big ? 2000 : 200);
      mon_trace("reserve %zu", n);
      if (kind == 0) mapi_reserve(&a.mi, n); else if (kind == 1) maps_reserve(&a.ms, n); else map_reserve(&a.mg, n, g_hash, g_set, g_equal);
      h = mon_mix(h, n * 3);
    }
    else if (op < 94 && rng_p(r, 40))
    {
      mon_trace("clear rel %d", rel);
      for (j = 0; j < refs_n; j++) if (refs[j].present) { gone[gone_n].key = am_key(&a, j); gone[gone_n++].value = refs[j].value; refs[j].present = 0; }
      if (kind == 0) mapi_clear(&a.mi, rel ? mi_release : NULL); else if (kind == 1) maps_clear(&a.ms, rel ? ms_release : NULL); else map_clear(&a.mg, g_set, g_equal, rel ? g_release : NULL);
      if (rel)
      {
        MON_CHECK(mrel_n == gone_n, "map-release-count", "clear released %d of %d entries", mrel_n, gone_n);
        qsort(mrel, mrel_n, sizeof mrel[0], mrel_cmp); qsort(gone, gone_n, sizeof gone[0], mrel_cmp);
        MON_CHECK(gone_n == 0 || !memcmp(mrel, gone, gone_n * sizeof gone[0]), "map-release-value", "clear released other entries");
      }
      else MON_CHECK(mrel_n == 0, "map-release-count", "clear without release called it %d times", mrel_n);
      h = mon_mix(h, 77);
    }
    else { (void) am_at(&a, k); }
    if (!big || i % 16 == 0) am_check(&a, "operation", i);
    mon_count("eval", 1);
  }
  am_check(&a, "history", 0);
  k = am_enum(&a);
  if (k >= 0) MON_CHECK(k == ref_count(), "map-enumerate", "enumeration shows %d entries of %d", k, ref_count());
  mon_distinct(h);
  if (mon_case % 499 == 0) mon_sample("kind %d, %d keys, %d operations, hash mode %d, final size %zu", kind, refs_n, ops, g_mode, am_size(&a));
  gone_n = 0; mrel_n = 0;
  for (j = 0; j < refs_n; j++) if (refs[j].present) { gone[gone_n].key = am_key(&a, j); gone[gone_n++].value = refs[j].value; }
  if (kind == 0) mapi_destruct(&a.mi, mi_release); else if (kind == 1) maps_destruct(&a.ms, ms_release); else map_destruct(&a.mg, g_equal, g_release);
  MON_CHECK(mrel_n == gone_n, "map-release-count", "destruct released %d of %d entries", mrel_n, gone_n);
  qsort(mrel, mrel_n, sizeof mrel[0], mrel_cmp); qsort(gone, gone_n, sizeof gone[0], mrel_cmp);
  MON_CHECK(gone_n == 0 || !memcmp(mrel, gone, gone_n * sizeof gone[0]), "map-release-value", "destruct released other entries");
  if (kind == 1) for (i = 0; i < refs_n; i++) free(skeys[i]);
}
static void scn_mapi(rng *r) { map_run(r, 0); }
static void scn_maps(rng *r) { map_run(r, 1); }
static void scn_mapg(rng *r) { map_run(r, 2); }
/* growth to large sizes: every key stays reachable through all rehashes */
static void scn_mapbig(rng *r)
{
  mapi m;
  size_t n = (mon_tier ? 200000 : 20000) + rng_n(r, 20000), i;
  uint64_t base = rng_next(r) | 1, step = rng_p(r, 50) ? 1 : rng_next(r) | 1;
  mapi_construct(&m);
  if (rng_p(r, 45)) mapi_reserve(&m, rng_p(r, 50) ? rng_n(r, n) : rng_size(r, 600000));
  for (i = 0; i < n; i++) { uintptr_t k = base + i * step; if (!k) k = 42; mapi_insert(&m, k, i + 1, NULL); }
  for (i = 0; i < n; i += 2) { uintptr_t k = base + i * step; if (!k) k = 42; mapi_erase(&m, k, NULL); }
  for (i = 0; i < n; i++) { uintptr_t k = base + i * step; if (!k) k = 42; MON_CHECK(mapi_at(&m, k) == (i % 2 ? i + 1 : 0), "map-lookup", "large map: key %zu of %zu", i, n); }
  MON_CHECK(mapi_size(&m) == n / 2, "map-size", "large map: size %zu, expected %zu", mapi_size(&m), n / 2);
  mapi_destruct(&m, NULL);
  mon_count("eval", n); mon_distinct(mon_mix(base, n));
}

/* ------------------------------------------------------------------ C24 string */
static void str_check(string s, bytes *m, const char *op)
{
  MON_CHECK(string_size(s) == m->n, "string-size", "after %s: size %zu, expected %zu", op, string_size(s), m->n);
  MON_CHECK(string_capacity(s) >= string_size(s), "string-capacity", "after %s", op);
  MON_CHECK(!!string_empty(s) == (m->n == 0), "string-empty", "after %s", op);
  MON_CHECK(m->n == 0 || memcmp(s, m->p, m->n) == 0, "string-content", "after %s: contents differ (size %zu)", op, m->n);
  MON_CHECK(s[m->n] == 0, "string-termination", "after %s: no terminating zero", op);
  MON_CHECK(string_size(string_null()) == 0 && string_null()[0] == 0, "string-null", "after %s: the shared empty string was modified", op);
}
static size_t ref_find(bytes *m, size_t from, const uint8_t *d, size_t n)
{
  size_t i;
  if (!n || n > m->n) return SIZE_MAX;
  for (i = from; i + n <= m->n; i++) if (!memcmp(m->p + i, d, n)) return i;
  return SIZE_MAX;
}
static size_t rnd_text(rng *r, uint8_t *d, size_t max)
{
  size_t n = rng_size(r, max), i;
  int alpha = 1 + rng_n(r, 3);
  if (rng_p(r, 20)) { rng_bytes(r, d, n); return n; }
  for (i = 0; i < n; i++) d[i] = "ab\0"[rng_n(r, alpha)];
  return n;
}
static uint64_t swrite_pos;
static rng swrite_rng;
static int swrite_fd = -1;
static int str_short_write(int fd, const void *b, size_t n, ssize_t *ret)
{
  if (fd == 1 || fd == 2) return 0;
  if (n > 1) n = 1 + rng_n(&swrite_rng, n);
  *ret = __real_write(fd, b, n);
  mon_count("short_writes", 1);
  return 1;
}
static int str_short_read(int fd, void *b, size_t n, ssize_t *ret)
{
  (void) fd;
  if (n > 1) n = 1 + rng_n(&swrite_rng, n);
  *ret = __real_read(fd, b, n);
  mon_count("short_reads", 1);
  return 1;
}
static size_t read_file(const char *path, uint8_t *d, size_t max)
{
  int fd = open(path, O_RDONLY);
  size_t n = 0;
  ssize_t k;
  if (fd == -1) return SIZE_MAX;
  while (n < max && (k = __real_read(fd, d + n, max - n)) > 0) n += k;
  __real_close(fd);
  return n;
}
static char str_dir[PATH_MAX];
static void str_file(rng *r, string s, bytes *m)
{
  static uint8_t back[600000];
  char path[PATH_MAX + 16];
  int fd, e, k;
  size_t n, prev;
  string t;
  (void) swrite_pos; (void) swrite_fd;

  snprintf(path, sizeof path, "%s/f", str_dir);
  unlink(path);
  if (rng_p(r, 10))
  {
    e = string_save(s, path);
    k = access(path, F_OK);
    MON_CHECK(e == -1 || k == 0, "string-save-missing", "saving to a missing file claims success without creating it");
    if (k == 0) unlink(path);
    if (e == -1) { t = string_load(path); MON_CHECK(string_empty(t), "string-load-missing", "loading a missing file gives data"); string_free(t); return; }
  }
  prev = rng_p(r, 50) ? rng_size(r, 9000) : m->n + rng_n(r, 5000);
  fd = open(path, O_WRONLY | O_CREAT | O_TRUNC, 0600);
  if (fd == -1) mon_harness_error("open %s", path);
  memset(back, 'z', prev);
  if (__real_write(fd, back, prev) != (ssize_t) prev) mon_harness_error("write");
  __real_close(fd);
  swrite_rng.s = rng_next(r);
  if (rng_p(r, 60)) mon_write_hook = str_short_write;
  mon_trace("save %zu bytes over a file of %zu", m->n, prev);
  e = string_save(s, path);
  mon_write_hook = NULL;
  MON_CHECK(e == 0, "string-save", "saving failed");
  n = read_file(path, back, sizeof back);
  MON_CHECK(n == m->n && !memcmp(back, m->p ? m->p : back, n), "string-save-content", "file has %zu bytes after saving %zu over %zu: not exactly the string", n, m->n, prev);
  if (rng_p(r, 50)) mon_read_hook = str_short_read;
  t = string_load(path);
  mon_read_hook = NULL;
  str_check(t, m, "load");
  MON_CHECK(string_equal(s, t) && string_equal(t, s), "string-equal", "saved and loaded strings differ");
  string_free(t);
  mon_count("file_round_trips", 1);
}
static void str_pipe(rng *r, string s, bytes *m)
{
  int p[2];
  static uint8_t back[100000];
  size_t n = 0;
  ssize_t k;
  string t;
  if (m->n > 30000 || pipe(p) == -1) return;
  swrite_rng.s = rng_next(r);
  mon_write_hook = str_short_write;
  string_write(s, p[1]);
  mon_write_hook = NULL;
  mon_nonblock(p[0], 1);
  if (rng_p(r, 50))
  {
    while ((k = __real_read(p[0], back + n, sizeof back - n)) > 0) n += k;
    MON_CHECK(n == m->n && (n == 0 || !memcmp(back, m->p, n)), "string-write", "%zu of %zu bytes arrived or differ", n, m->n);
    __real_close(p[1]);
  }
  else
  {
    __real_close(p[1]);
    mon_read_hook = rng_p(r, 70) ? str_short_read : NULL;
    t = string_read(p[0]);
    mon_read_hook = NULL;
    str_check(t, m, "read");
    string_free(t);
  }
  __real_close(p[0]);
  mon_count("pipe_round_trips", 1);
}
static void str_init(void) { mon_scratch(str_dir, sizeof str_dir); }
static void scn_string(rng *r)
{
  string s = string_null(), t;
  bytes m = {0};
  static uint8_t d1[70000], d2[70000];
  int i, ops = 15 + rng_n(r, 40), op;
  size_t n, k, at, pos, max = rng_p(r, 8) ? 20000 : rng_p(r, 40) ? 300 : 20, limit = 150000;
  uint64_t h = MON_H0;
  data f;
  void *e1, *e2;

  str_check(s, &m, "null");
  for (i = 0; i < ops; i++)
  {
    op = rng_n(r, 100);
    if (m.n > limit) op = 60;
    if (op < 30)
    {
      n = rnd_text(r, d1, max); e1 = exact(d1, n);
      if (op < 12) { at = m.n; mon_trace("append %zu to %zu", n, m.n); s = string_append_data(s, data_construct(e1, n)); }
      else if (op < 20) { at = 0; mon_trace("prepend %zu to %zu", n, m.n); s = string_prepend_data(s, data_construct(e1, n)); }
      else { at = rng_n(r, m.n + 1); mon_trace("insert %zu at %zu/%zu", n, at, m.n); s = string_insert_data(s, at, data_construct(e1, n)); }
      b_insert(&m, at, e1, n); free(e1); h = mon_mix(h, n * 3 + at); str_check(s, &m, "insert");
    }
    else if (op < 42)
    {
      at = rng_n(r, m.n + 1); n = rng_n(r, m.n - at + 1);
      mon_trace("erase %zu at %zu/%zu", n, at, m.n);
      s = string_erase_data(s, data_construct(s + at, n)); b_erase(&m, at, n); h = mon_mix(h, n * 5 + at); str_check(s, &m, "erase");
    }
    else if (op < 62)
    {
      /* search, replace, replace all */
      if (m.n && rng_p(r, 60)) { at = rng_n(r, m.n); n = 1 + rng_n(r, rng_p(r, 70) ? 3 : m.n - at); if (n > m.n - at) n = m.n - at; if (n > 30000) n = 30000; memcpy(d1, m.p + at, n); }
      else n = rnd_text(r, d1, 4);
      k = rnd_text(r, d2, rng_p(r, 70) ? 4 : max);
      if (rng_p(r, 20) && n < 3000) { k = n + n; memcpy(d2, d1, n); memcpy(d2 + n, d1, n); }   /* replacement contains the match */
      if (k > 2000 && m.n > 2000) k = 2000;
      e1 = exact(d1, n); e2 = exact(d2, k);
      pos = rng_n(r, m.n + 1);
      f = string_find_at_data(s, pos, data_construct(e1, n));
      at = ref_find(&m, pos, d1, n);
      MON_CHECK(at == SIZE_MAX ? data_empty(f) : (data_size(f) == n && (const char *) data_base(f) == s + at), "string-find", "find_at %zu of %zu bytes: wrong position", pos, n);
      f = string_find_data(s, data_construct(e1, n));
      at = ref_find(&m, 0, d1, n);
      MON_CHECK(at == SIZE_MAX ? data_empty(f) : (data_size(f) == n && (const char *) data_base(f) == s + at), "string-find", "find of %zu bytes: wrong position", n);
      if (rng_p(r, 50))
      {
        mon_trace("replace %zu bytes by %zu in %zu", n, k, m.n);
        s = string_replace_data(s, data_construct(e1, n), data_construct(e2, k));
        if (at != SIZE_MAX) { b_erase(&m, at, n); b_insert(&m, at, d2, k); }
        str_check(s, &m, "replace");
      }
      else
      {
        size_t hits = 0;
        for (pos = 0; (at = ref_find(&m, pos, d1, n)) != SIZE_MAX; pos = at + n) hits++;
        if (hits * k < 300000 && hits * (m.n + hits * k) < 100000000)
        {
          mon_trace("replace all %zu bytes by %zu in %zu (%zu times)", n, k, m.n, hits);
          s = string_replace_all_data(s, data_construct(e1, n), data_construct(e2, k));
          for (pos = 0; (at = ref_find(&m, pos, d1, n)) != SIZE_MAX; pos = at + k) { b_erase(&m, at, n); b_insert(&m, at, d2, k); }
          str_check(s, &m, "replace_all");
        }
      }
      free(e1); free(e2);
      h = mon_mix(h, n * 7 + k);
    }
    else if (op < 70)
    {
      n = rng_p(r, 60) ? rng_n(r, m.n + 1) : rng_size(r, max); k = m.n;
      mon_trace("resize %zu -> %zu", k, n);
      s = string_resize(s, n);
      if (n > k)
      {
        MON_CHECK(k == 0 || !memcmp(s, m.p, k), "string-content", "resize changed the contents");
        memset(s + k, 'x', n - k); b_insert(&m, k, s + k, n - k);
      }
      else m.n = n;
      h = mon_mix(h, n * 11); str_check(s, &m, "resize");
    }
    else if (op < 76) { n = rng_size(r, max * 2); mon_trace("allocate %zu", n); s = string_allocate(s, n); MON_CHECK(string_capacity(s) >= n, "string-allocate", "capacity %zu < %zu", string_capacity(s), n); if (n) s[string_capacity(s)] = 0; if (m.n <= string_capacity(s)) { } str_check(s, &m, "allocate"); h = mon_mix(h, n * 13); }
    else if (op < 84)
    {
      mon_trace("copy");
      t = string_copy(s); str_check(t, &m, "copy");
      MON_CHECK(string_equal(s, t), "string-equal", "a copy differs");
      if (m.n)
      {
        MON_CHECK(t != s, "string-copy", "copy shares memory");
        n = rng_n(r, m.n); t[n] ^= 1; MON_CHECK(!string_equal(s, t), "string-equal", "different strings compare equal"); t[n] ^= 1;
        t = string_append_data(t, data_string("!")); MON_CHECK(!string_equal(s, t), "string-equal", "different sizes compare equal");
      }
      str_check(s, &m, "copy"); string_free(t); str_check(s, &m, "free of copy"); h = mon_mix(h, 17);
    }
    else if (op < 92) { str_file(r, s, &m); h = mon_mix(h, 19); }
    else if (op < 97) { str_pipe(r, s, &m); h = mon_mix(h, 23); }
    else { mon_trace("free"); string_free(s); s = string_null(); m.n = 0; str_check(s, &m, "free"); }
    mon_count("eval", 1);
  }
  mon_distinct(h);
  if (mon_case % 499 == 0) mon_sample("%d operations, final size %zu", ops, m.n);
  string_free(s);
  MON_CHECK(string_size(string_null()) == 0 && string_null()[0] == 0, "string-null", "the shared empty string was modified");
  b_free(&m);
}

/* ------------------------------------------------------------------ C25 hash: independent FarmHash64 (na variant) */
typedef unsigned __int128 u128;
static uint64_t rd64(const uint8_t *p) { uint64_t v = 0; int i; for (i = 7; i >= 0; i--) v = v << 8 | p[i]; return v; }
static uint64_t rd32(const uint8_t *p) { return (uint64_t) p[0] | (uint64_t) p[1] << 8 | (uint64_t) p[2] << 16 | (uint64_t) p[3] << 24; }
static uint64_t ror(uint64_t v, int s) { return (uint64_t) ((((u128) v << 64) | v) >> s); }
static const uint64_t K0 = 14097894508562428199ULL, K1 = 13011662864482103923ULL, K2 = 11160318154034397263ULL;
static uint64_t smix(uint64_t v) { return v ^ v >> 47; }
static uint64_t hl16(uint64_t u, uint64_t v, uint64_t m) { uint64_t a = smix((u ^ v) * m), b = smix((v ^ a) * m); return b * m; }
static void weak32(const uint8_t *s, uint64_t a, uint64_t b, uint64_t *o1, uint64_t *o2)
{
  uint64_t w = rd64(s), x = rd64(s + 8), y = rd64(s + 16), z = rd64(s + 24), c;
  a += w; b = ror(b + a + z, 21); c = a; a += x + y; b += ror(a, 44); *o1 = a + z; *o2 = b + c;
}
static uint64_t farm_ref(const uint8_t *s, size_t n)
{
  if (n == 0) return K2;
  if (n < 4) { uint64_t y = s[0] + (s[n / 2] << 8), z = n + ((uint64_t) s[n - 1] << 2); return smix((uint32_t) y * K2 ^ (uint32_t) z * K0) * K2; }
  uint64_t mul = K2 + 2 * n;
  if (n < 8) return hl16(n + (rd32(s) << 3), rd32(s + n - 4), mul);
  if (n <= 16) { uint64_t a = rd64(s) + K2, b = rd64(s + n - 8); return hl16(ror(b, 37) * mul + a, (ror(a, 25) + b) * mul, mul); }
  if (n <= 32) { uint64_t a = rd64(s) * K1, b = rd64(s + 8), c = rd64(s + n - 8) * mul, d = rd64(s + n - 16) * K2; return hl16(ror(a + b, 43) + ror(c, 30) + d, a + ror(b + K2, 18) + c, mul); }
  if (n <= 64)
  {
    uint64_t a = rd64(s) * K2, b = rd64(s + 8), c = rd64(s + n - 8) * mul, d = rd64(s + n - 16) * K2;
    uint64_t y = ror(a + b, 43) + ror(c, 30) + d, z = hl16(y, a + ror(b + K2, 18) + c, mul);
    uint64_t e = rd64(s + 16) * mul, f = rd64(s + 24), g = (y + rd64(s + n - 32)) * mul, h = (z + rd64(s + n - 24)) * mul;
    return hl16(ror(e + f, 43) + ror(g, 30) + h, e + ror(f + a, 18) + g, mul);
  }
  uint64_t x = 81 * K2 + rd64(s), y = 81 * K1 + 113, z = smix(y * K2 + 113) * K2, v1 = 0, v2 = 0, w1 = 0, w2 = 0, t;
  size_t blocks = (n - 1) / 64, i;
  for (i = 0; i < blocks; i++, s += 64)
  {
    x = ror(x + y + v1 + rd64(s + 8), 37) * K1; y = ror(y + v2 + rd64(s + 48), 42) * K1;
    x ^= w2; y += v1 + rd64(s + 40); z = ror(z + w1, 33) * K1;
    uint64_t a = v2 * K1, b = x + w1, c = z + w2, d = y + rd64(s + 16);
    weak32(s, a, b, &v1, &v2); weak32(s + 32, c, d, &w1, &w2);
    t = z; z = x; x = t;
  }
  s += ((n - 1) & 63) - 63;
  mul = K1 + ((z & 0xff) << 1);
  w1 += (n - 1) & 63; v1 += w1; w1 += v1;
  x = ror(x + y + v1 + rd64(s + 8), 37) * mul; y = ror(y + v2 + rd64(s + 48), 42) * mul;
  x ^= w2 * 9; y += v1 * 9 + rd64(s + 40); z = ror(z + w1, 33) * mul;
  uint64_t a = v2 * mul, b = x + w1, c = z + w2, d = y + rd64(s + 16);
  weak32(s, a, b, &v1, &v2); weak32(s + 32, c, d, &w1, &w2);
  t = z; z = x; x = t;
  return hl16(hl16(v1, w1, mul) + smix(y) * K0 + z, hl16(v2, w2, mul) + x, mul);
}
static uint64_t inv_mul(uint64_t a) { uint64_t x = a; int i; for (i = 0; i < 6; i++) x *= 2 - a * x; return x; }
static void scn_hash(rng *r)
{
  static uint8_t d[70000];
  size_t n, off, i, j;
  uint64_t h, e, v;
  uint8_t *p;
  for (i = 0; i < 200; i++)
  {
    n = i < 140 && mon_case % 4 == 0 ? i : rng_p(r, 95) ? rng_size(r, 700) : rng_size(r, 65000);
    if (rng_p(r, 85)) rng_bytes(r, d, n); else memset(d, rng_p(r, 50) ? 0 : 0xff, n);
    if (n && rng_p(r, 30)) d[rng_n(r, n)] |= 0x80;
    e = farm_ref(d, n);
    off = rng_n(r, 16);
    p = malloc(off + n ? off + n : 1);
    memcpy(p + off, d, n);
    h = hash_data(p + off, n);
    MON_CHECK(h == e, "hash-value", "hash of %zu bytes at offset %zu is %016lx, FarmHash64 is %016lx", n, off, (unsigned long) h, (unsigned long) e);
    free(p);
    if (n < 2000)
    {
      for (j = 0; j < n; j++) if (!d[j]) d[j] = 1;
      d[n] = 0;
      p = exact(d, n + 1);
      h = hash_string((char *) p); e = farm_ref(d, n);
      MON_CHECK(h == e, "hash-string", "hash_string of %zu characters", n);
      free(p);
    }
    mon_distinct(h);
    v = rng_p(r, 30) ? rng_n(r, 1000) : rng_p(r, 20) ? -rng_n(r, 1000) : rng_p(r, 20) ? 1ULL << rng_n(r, 64) : rng_next(r);
    e = v; e = (e ^ e >> 33) * 0xff51afd7ed558ccdULL; e = (e ^ e >> 33) * 0xc4ceb9fe1a85ec53ULL; e ^= e >> 33;
    h = hash_uint64(v);
    MON_CHECK(h == e, "hash-uint64", "hash_uint64(%lx) is %lx, expected %lx", (unsigned long) v, (unsigned long) h, (unsigned long) e);
    /* bijection: invert the result */
    h ^= h >> 33; h *= inv_mul(0xc4ceb9fe1a85ec53ULL); h ^= h >> 33; h *= inv_mul(0xff51afd7ed558ccdULL); h ^= h >> 33;
    MON_CHECK(h == v, "hash-uint64", "not invertible at %lx", (unsigned long) v);
    mon_count("eval", 3);
  }
  if (mon_case % 199 == 0) mon_sample("hash of %zu bytes at offset %zu = %016lx", n, off, (unsigned long) farm_ref(d, n));
}

/* ------------------------------------------------------------------ C26 decimals */
static uint32_t dec_ref(uint64_t n, char *s) { char t[16]; int i = 0, j; do { t[i++] = '0' + n % 10; n /= 10; } while (n); for (j = 0; j < i; j++) s[j] = t[i - 1 - j]; return i; }
static void dec_one(uint32_t v, int full)
{
  char ref[16], out[32];
  uint32_t n = dec_ref(v, ref);
  size_t l = utility_u32_len(v);
  MON_CHECK(l == n, "decimal-length", "length of %u is %zu, expected %u", v, l, n);
  memset(out, 0x55, sizeof out);
  utility_u32_sprint(v, out + 8 + n);
  MON_CHECK(!memcmp(out + 8, ref, n), "decimal-digits", "digits of %u are %.*s", v, (int) n, out + 8);
  MON_CHECK(out[7] == 0x55 && out[8 + n] == 0x55, "decimal-bounds", "bytes around the digits of %u were written", v);
  if (full)
  {
    char *p = malloc(n + 1);
    memset(out, 0x55, sizeof out);
    utility_u32_toa(v, out + 8);
    MON_CHECK(!memcmp(out + 8, ref, n) && out[8 + n] == 0, "decimal-toa", "utility_u32_toa(%u)", v);
    MON_CHECK(out[7] == 0x55 && out[9 + n] == 0x55, "decimal-bounds", "utility_u32_toa(%u) wrote outside", v);
    utility_u32_toa(v, p);
    MON_CHECK(!strncmp(p, ref, n) && !p[n], "decimal-toa", "utility_u32_toa(%u)", v);
    free(p);
  }
}
/* exhaustive: counts up in decimal next to the binary value */
static void scn_decimal(rng *r)
{
  uint64_t lo = mon_case << 24, hi = (mon_case + 1) << 24, v;
  char ref[16], out[32];
  uint32_t n = dec_ref(lo, ref);
  (void) r;
  memset(out, 0x55, sizeof out);
  for (v = lo; v < hi; v++)
  {
    MON_CHECK(utility_u32_len(v) == n, "decimal-length", "length of %lu is %zu, expected %u", (unsigned long) v, utility_u32_len(v), n);
    utility_u32_sprint(v, out + 8 + n);
    if (memcmp(out + 8, ref, n) || out[7] != 0x55 || out[8 + n] != 0x55) dec_one(v, 0);
    utility_u32_toa(v, out + 8);
    if (memcmp(out + 8, ref, n) || out[8 + n] != 0 || out[7] != 0x55 || out[9 + n] != 0x55) dec_one(v, 1);
    out[8 + n] = 0x55;
    int i = n - 1;
    while (i >= 0 && ref[i] == '9') ref[i--] = '0';
    if (i >= 0) ref[i]++; else { memmove(ref + 1, ref, n); ref[0] = '1'; n++; }
  }
  mon_count("eval", hi - lo);
  mon_count("exhaustive_done", hi - lo);
  mon_distinct(mon_case);
  if (mon_case % 64 == 0) mon_sample("values %lu..%lu, all compared with a decimal counter", (unsigned long) lo, (unsigned long) hi - 1);
}
static void scn_decimal_san(rng *r)
{
  static const uint64_t p10[] = {1, 10, 100, 1000, 10000, 100000, 1000000, 10000000, 100000000, 1000000000, 10000000000ULL};
  int i;
  uint64_t v;
  for (i = 0; i < 11; i++) { v = p10[i]; dec_one(v - 1 > UINT32_MAX ? UINT32_MAX : v - 1, 1); if (v <= UINT32_MAX) { dec_one(v, 1); dec_one(v + 1, 1); } }
  for (i = 0; i < 32; i++) { dec_one(1u << i, 1); dec_one((1u << i) - 1, 1); dec_one(UINT32_MAX >> i, 1); }
  for (i = 0; i < 2000; i++) { v = rng_next(r) >> (32 + rng_n(r, 32)); dec_one(v, 1); mon_distinct(v); }
  mon_count("eval", 2120);
}

/* ------------------------------------------------------------------ C30 slices and cursors */
static void scn_data(rng *r)
{
  static uint8_t d1[5000], d2[5000];
  size_t n1, n2, off, len, i, total, room;
  uint8_t *a, *b, *area;
  data x, y, z;
  pointer p;
  int it;
  for (it = 0; it < 20; it++)
  {
    n1 = rng_size(r, rng_p(r, 80) ? 40 : 4000); n2 = rng_p(r, 40) ? n1 : rng_size(r, rng_p(r, 80) ? 40 : 4000);
    for (i = 0; i < n1; i++) d1[i] = "ab\0c"[rng_n(r, 4)];
    for (i = 0; i < n2; i++) d2[i] = "ab\0c"[rng_n(r, 4)];
    if (rng_p(r, 70)) { memcpy(d2, d1, n1 < n2 ? n1 : n2); if (rng_p(r, 40) && n2) d2[rng_n(r, n2)] ^= 1; }
    a = exact(d1, n1); b = exact(d2, n2);
    x = data_construct((char *) a, n1); y = data_construct((char *) b, n2);
    MON_CHECK(data_base(x) == a && data_size(x) == n1 && !!data_empty(x) == (n1 == 0), "data-construct", "base or size changed");
    MON_CHECK(!!data_equal(x, y) == (n1 == n2 && !memcmp(d1, d2, n1)), "data-equal", "sizes %zu and %zu", n1, n2);
    MON_CHECK(!!data_equal(x, y) == !!data_equal(y, x), "data-equal", "not symmetric");
    MON_CHECK(!!data_prefix(x, y) == (n1 <= n2 && !memcmp(d1, d2, n1)), "data-prefix", "sizes %zu and %zu", n1, n2);
    MON_CHECK(!!data_prefix(y, x) == (n2 <= n1 && !memcmp(d1, d2, n2)), "data-prefix", "sizes %zu and %zu", n2, n1);
    MON_CHECK(data_equal(x, x) && data_prefix(x, x), "data-equal", "not reflexive");
    MON_CHECK(data_prefix(data_null(), x) && data_empty(data_null()) && data_size(data_null()) == 0, "data-null", "the empty slice");
    off = rng_n(r, n1 + 1); len = rng_n(r, n1 - off + 1);
    z = data_select(x, off, len);
    MON_CHECK((uint8_t *) data_base(z) == a + off && data_size(z) == len, "data-select", "select(%zu, %zu) of %zu", off, len, n1);
    MON_CHECK(data_offset(x, z) == off, "data-offset", "offset %zu, expected %zu", data_offset(x, z), off);
    z = data_consume(x, off);
    MON_CHECK((uint8_t *) data_base(z) == a + off && data_size(z) == n1 - off, "data-consume", "consume(%zu) of %zu", off, n1);
    MON_CHECK(!memcmp(a, d1, n1) && !memcmp(b, d2, n2), "data-changed", "bytes changed");
    z = data_alloc(n1);
    for (i = 0; i < n1; i++) MON_CHECK(((uint8_t *) data_base(z))[i] == 0, "data-alloc", "allocation of %zu bytes is not zeroed", n1);
    MON_CHECK(data_size(z) == n1, "data-alloc", "size");
    if (n1) memset((void *) data_base(z), 7, n1);
    data_free(z);
    { char *c = malloc(n1 + 1); for (i = 0; i < n1; i++) c[i] = d1[i] ? d1[i] : 'q'; c[n1] = 0; z = data_string(c); MON_CHECK(data_size(z) == n1 && data_base(z) == c, "data-string", "length %zu", n1); free(c); }
    /* cursor */
    room = n1 + n2 + 300; total = 0;
    area = malloc(room); memset(area, 0xa5, room);
    { uint8_t *ref = malloc(room); memset(ref, 0xa5, room);
      size_t start = rng_n(r, 8);
      p = area + start; total = start;
      while (total < room - 1)
      {
        size_t k = rng_n(r, 4);
        if (k == 0) { uint8_t c = rng_next(r); pointer_push_byte(&p, c); ref[total++] = c; }
        else if (k == 1) { k = rng_n(r, room - total); if (k > 20) k = 20; pointer_move(&p, k); total += k; }
        else { k = rng_n(r, n1 + 1); if (k > room - total) k = room - total; pointer_push(&p, data_construct((char *) a, k)); memcpy(ref + total, a, k); total += k; if (!n1 && rng_p(r, 20)) break; }
        MON_CHECK((uint8_t *) p == area + total, "pointer-advance", "cursor advanced to %zd, expected %zu", (uint8_t *) p - area, total);
        if (rng_p(r, 5)) break;
      }
      MON_CHECK(!memcmp(area, ref, room), "pointer-content", "bytes at or around the cursor differ");
      free(ref); }
    free(area); free(a); free(b);
    mon_count("eval", 1);
    mon_distinct(mon_hash(mon_hash(MON_H0, d1, n1), d2, n2));
  }
  if (mon_case % 499 == 0) mon_sample("slices of %zu and %zu bytes, select %zu+%zu", n1, n2, off, len);
}

/* ------------------------------------------------------------------ more than 32 bits (C20, C21, C25, C30) */
#define G4 (1UL << 32)
static int room_for(size_t n) { void *p = malloc(n); int ok = p != NULL; free(p); if (!ok) mon_count("no_room", 1); return ok; }
static uint8_t *vast(size_t n)
{
  uint8_t *p = mmap(NULL, n, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { mon_count("no_room", 1); return NULL; }
  return p;
}
/* a buffer of more than 4 GiB of which only some bytes are known (and touched) */
typedef struct { size_t at[4096]; uint8_t v[4096]; int n; } sparse;
static void sp_set(sparse *s, size_t at, const uint8_t *d, size_t n) { size_t i; int j, k; for (j = k = 0; j < s->n; j++) if (s->at[j] < at || s->at[j] >= at + n) { s->at[k] = s->at[j]; s->v[k++] = s->v[j]; } s->n = k; for (i = 0; i < n && s->n < 4096; i++) { s->at[s->n] = at + i; s->v[s->n++] = d[i]; } }
static void sp_shift(sparse *s, size_t at, size_t n) { int j; for (j = 0; j < s->n; j++) if (s->at[j] >= at) s->at[j] += n; }
static void sp_drop(sparse *s, size_t at, size_t n) { int j, k; for (j = k = 0; j < s->n; j++) { size_t a = s->at[j]; if (a >= at && a - at < n) continue; s->at[k] = a >= at ? a - n : a; s->v[k++] = s->v[j]; } s->n = k; }
static void sp_compare(buffer *b, sparse *s, size_t size, size_t reserved, const char *op)
{
  int j;
  MON_CHECK(buffer_size(b) == size, "buffer-size", "after %s: size %zu, expected %zu", op, buffer_size(b), size);
  MON_CHECK(buffer_capacity(b) >= size && buffer_capacity(b) >= reserved, "buffer-capacity", "after %s: capacity %zu, size %zu, reserved %zu", op, buffer_capacity(b), size, reserved);
  for (j = 0; j < s->n; j++) MON_CHECK(((uint8_t *) buffer_data(b))[s->at[j]] == s->v[j], "buffer-content", "after %s: byte %zu of %zu differs", op, s->at[j], size);
  mon_count("eval", 1); mon_count("huge_operations", 1);
}
static void scn_bufhuge(rng *r)
{
  static sparse s;
  buffer b; uint8_t d[64]; int i, k; size_t n, at, size = 0, reserved = 0; uint64_t h = MON_H0;
  if (!room_for(18UL << 30)) return;
  s.n = 0;
  buffer_construct(&b);
  for (i = 0; i < 60; i++)
  {
    k = rng_n(r, 100); n = 1 + rng_n(r, 64); rng_bytes(r, d, n);
    h = mon_mix(h, k * 100 + n);
    if (size < G4 || k < 8)
    {
      n = size < G4 && rng_p(r, 20) ? rng_n(r, 100000) : rng_p(r, 70) ? G4 + rng_n(r, 1 << 20) : G4 + rng_n(r, 1UL << 31);
      mon_trace("resize %zu -> %zu", size, n);
      buffer_resize(&b, n); if (n < size) sp_drop(&s, n, size - n);
      size = n; sp_compare(&b, &s, size, reserved, "resize");
    }
    else if (k < 35) { at = rng_p(r, 50) ? rng_n(r, size - 64) : size - 64 - rng_n(r, 100000); memcpy((uint8_t *) buffer_data(&b) + at, d, n); sp_set(&s, at, d, n); }
    else if (k < 55) { at = size - rng_n(r, 100000); mon_trace("insert at %zu of %zu: %zu bytes", at, size, n); buffer_insert(&b, at, d, n); sp_shift(&s, at, n); sp_set(&s, at, d, n); size += n; sp_compare(&b, &s, size, reserved, "insert"); }
    else if (k < 65)
    {
      size_t c = 1 + rng_n(r, 20), j;
      at = size - rng_n(r, 100000); mon_trace("fill at %zu of %zu: %zu x %zu bytes", at, size, c, n);
      buffer_insert_fill(&b, at, c, d, n); sp_shift(&s, at, c * n); for (j = 0; j < c; j++) sp_set(&s, at + j * n, d, n);
      size += c * n; sp_compare(&b, &s, size, reserved, "insert_fill");
    }
    else if (k < 80)
    {
      if (rng_p(r, 30) && size > G4 + 300000) { at = rng_n(r, size - G4 - 200000); n = size - at - rng_n(r, 100000); } else { at = size - 100 - rng_n(r, 100000); n = rng_n(r, 100); }
      mon_trace("erase at %zu of %zu: %zu bytes", at, size, n);
      buffer_erase(&b, at, n); sp_drop(&s, at, n); size -= n; sp_compare(&b, &s, size, reserved, "erase");
    }
    else if (k < 88) { n = G4 + rng_n(r, 1UL << 33); if (n > reserved) reserved = n; mon_trace("reserve %zu", n); buffer_reserve(&b, n); sp_compare(&b, &s, size, reserved, "reserve"); ((volatile uint8_t *) buffer_data(&b))[buffer_capacity(&b) - 1] = 1; }
    else if (k < 93) { reserved = 0; mon_trace("compact"); buffer_compact(&b); sp_compare(&b, &s, size, 0, "compact"); }
    else if (k < 95) { mon_trace("clear"); buffer_clear(&b); size = reserved = 0; s.n = 0; sp_compare(&b, &s, 0, 0, "clear"); }
  }
  buffer_destruct(&b);
  mon_distinct(h);
}
/* everything beyond 4 GiB moves; one case, as it touches all of it */
static void scn_bufmove(rng *r)
{
  static sparse s;
  buffer b; uint8_t d[64]; size_t size = G4 + 300000, at, n; int i;
  FILE *f; char l[200]; unsigned long kb = 0;
  if (!room_for(18UL << 30)) return;
  if ((f = fopen("/proc/meminfo", "r"))) { while (fgets(l, sizeof l, f)) if (sscanf(l, "MemAvailable: %lu", &kb) == 1) break; fclose(f); }
  if (kb >> 20 < 10) { mon_count("no_room", 1); return; }
  s.n = 0;
  buffer_construct(&b);
  buffer_reserve(&b, size + 1000); buffer_resize(&b, size);
  for (i = 0; i < 60; i++) { at = i < 30 ? rng_n(r, size - 64) : size - 64 - rng_n(r, 290000); rng_bytes(r, d, 30); memcpy((uint8_t *) buffer_data(&b) + at, d, 30); sp_set(&s, at, d, 30); }
  at = rng_n(r, 1000); n = 1 + rng_n(r, 60);
  buffer_erase(&b, at, n); sp_drop(&s, at, n); size -= n; sp_compare(&b, &s, size, size, "erase");
  at = rng_n(r, 1000); n = 1 + rng_n(r, 60); rng_bytes(r, d, n);
  buffer_insert(&b, at, d, n); sp_shift(&s, at, n); sp_set(&s, at, d, n); size += n; sp_compare(&b, &s, size, size, "insert");
  at = rng_n(r, 1000); n = 1 + rng_n(r, 60); rng_bytes(r, d, n);
  buffer_insert_fill(&b, at, 2, d, n); sp_shift(&s, at, 2 * n); sp_set(&s, at, d, n); sp_set(&s, at + n, d, n); size += 2 * n; sp_compare(&b, &s, size, size, "insert_fill");
  buffer_destruct(&b);
  mon_distinct(at);
}
static void scn_vechuge(rng *r)
{
  static uint8_t o[70000], q[70000];
  size_t os = rng_p(r, 50) ? 60000 + rng_n(r, 10000) : 100 + rng_n(r, 5000), n = G4 / os + 1 + rng_n(r, 100000), i;
  vector v;
  if (!room_for(18UL << 30)) return;
  if (n * os > 8UL << 30) n = (8UL << 30) / os;
  vector_construct(&v, os);
  for (i = 0; i < 5; i++) { rng_bytes(r, o, os); vector_push_back(&v, o); }
  mon_trace("reserve %zu objects of %zu bytes", n, os);
  vector_reserve(&v, n);
  MON_CHECK(vector_capacity(&v) >= n && vector_size(&v) == 5, "vector-reserve", "%zu objects of %zu bytes reserved: capacity %zu, size %zu", n, os, vector_capacity(&v), vector_size(&v));
  ((volatile uint8_t *) vector_data(&v))[n * os - 1] = 1;
  rng_bytes(r, q, os); vector_insert(&v, 2, q);
  MON_CHECK(vector_size(&v) == 6 && !memcmp(vector_at(&v, 2), q, os) && !memcmp(vector_at(&v, 5), o, os) && vector_capacity(&v) >= n, "vector-content", "objects differ after a large reserve");
  /* positions beyond 4 GiB are where they should be */
  i = n - 1 - rng_n(r, 100);
  MON_CHECK((uint8_t *) vector_at(&v, i) == (uint8_t *) vector_data(&v) + i * os, "vector-at", "object %zu of %zu bytes is at %zd", i, os, (uint8_t *) vector_at(&v, i) - (uint8_t *) vector_data(&v));
  vector_shrink_to_fit(&v);
  MON_CHECK(vector_size(&v) == 6 && !memcmp(vector_at(&v, 2), q, os), "vector-content", "objects differ after shrinking");
  vector_destruct(&v, NULL);
  mon_count("eval", 4); mon_count("huge_operations", 4); mon_distinct(mon_mix(os, n));
}
static const char *wr_base; static size_t wr_off, wr_max;
static int wr_hook(int fd, const void *p, size_t n, ssize_t *ret)
{
  if (fd != -77) return 0;
  MON_CHECK((const char *) p == wr_base + wr_off, "string-write", "a write after %zu bytes starts at %zd", wr_off, (const char *) p - wr_base);
  wr_off += *ret = n < wr_max ? n : wr_max;
  return 1;
}
static void str_compare(string t, sparse *s, size_t size, const char *op)
{
  int j;
  MON_CHECK(string_size(t) == size && data_size(string_data(t)) == size && data_base(string_data(t)) == t && !t[size], "string-size", "after %s: size %zu, expected %zu, terminated %d", op, string_size(t), size, !t[size]);
  for (j = 0; j < s->n; j++) MON_CHECK((uint8_t) t[s->at[j]] == s->v[j], "string-content", "after %s: byte %zu of %zu differs", op, s->at[j], size);
  mon_count("eval", 1); mon_count("huge_operations", 1);
}
static void scn_strhuge(rng *r)
{
  static sparse s;
  uint8_t d[64]; int i, k; size_t size, n, at; string t; data f, w; uint64_t h = MON_H0;
  if (!room_for(18UL << 30)) return;
  s.n = 0;
  size = G4 + rng_n(r, 1 << 20);
  t = string_resize(string_null(), size);
  str_compare(t, &s, size, "resize");
  for (i = 0; i < 30; i++)
  {
    k = rng_n(r, 100); n = 1 + rng_n(r, 60); rng_bytes(r, d, n); w = data_construct((char *) d, n); h = mon_mix(h, k * 64 + n);
    if (k < 25) { mon_trace("append %zu to %zu", n, size); t = string_append_data(t, w); sp_set(&s, size, d, n); size += n; str_compare(t, &s, size, "append"); }
    else if (k < 50) { at = size - rng_n(r, 50000); mon_trace("insert at %zu of %zu: %zu bytes", at, size, n); t = string_insert_data(t, at, w); sp_shift(&s, at, n); sp_set(&s, at, d, n); size += n; str_compare(t, &s, size, "insert"); }
    else if (k < 70) { at = size - 100 - rng_n(r, 50000); if (rng_p(r, 20)) { at = rng_n(r, size - 100000); n = size - at - rng_n(r, 50000); } mon_trace("erase at %zu of %zu: %zu bytes", at, size, n); t = string_erase_data(t, data_select(string_data(t), at, n)); sp_drop(&s, at, n); size -= n; str_compare(t, &s, size, "erase"); if (size < G4) { t = string_resize(t, n = G4 + rng_n(r, 1 << 20)); size = n; str_compare(t, &s, size, "resize"); } }
    else if (k < 85)
    {
      /* written at a known place beyond 4 GiB, found there and not before */
      size_t from = size - 60000 + rng_n(r, 1000);
      at = size - 200 - rng_n(r, 50000); d[0] |= 1; n = 16; for (k = 0; k < 16; k++) d[k] = 'a' + k; rng_bytes(r, d + 4, 8);
      memcpy(t + at, d, n); sp_set(&s, at, d, n);
      f = string_find_at_data(t, from, data_construct((char *) d, n));
      MON_CHECK(data_base(f) == t + at && data_size(f) == n, "string-find", "written at %zu of %zu, searched from %zu, found at %zd", at, size, from, (const char *) data_base(f) - t);
      f = string_find_at_data(t, at + 1, data_construct((char *) d, n));
      MON_CHECK(data_empty(f), "string-find", "found behind its place at %zu", at);
    }
    else if (k < 92) { n = rng_n(r, 200); string u = string_resize(string_null(), size - G4); memcpy(u, t, size - G4); MON_CHECK(!string_equal(t, u) && !string_equal(u, t), "string-equal", "strings of %zu and %zu bytes are equal", size, size - G4); string_free(u); }
    else { mon_write_hook = wr_hook; wr_base = t; wr_off = 0; wr_max = (rng_p(r, 50) ? 1UL << 31 : (1UL << 29) + rng_n(r, G4)) - 4096; string_write(t, -77); mon_write_hook = NULL; MON_CHECK(wr_off == size, "string-write", "%zu of %zu bytes are written", wr_off, size); mon_count("huge_writes", 1); }
  }
  string_free(t);
  mon_distinct(h);
}
static void scn_hashhuge(rng *r)
{
  size_t n = G4 + rng_n(r, 200), i; uint8_t *p = vast(n + 4096); uint64_t h, e;
  if (!p) return;
  for (i = 0; i < 20; i++) p[rng_p(r, 50) ? rng_n(r, n) : n - 1 - rng_n(r, 300)] = rng_next(r);
  h = hash_data(p, n); e = farm_ref(p, n);
  munmap(p, n + 4096);
  MON_CHECK(h == e, "hash-value", "hash of %zu bytes is %016lx, FarmHash64 is %016lx", n, (unsigned long) h, (unsigned long) e);
  mon_count("eval", 1); mon_count("huge_operations", 1); mon_distinct(h);
}
static void scn_datahuge(rng *r)
{
  size_t all = 2 * G4 + (1 << 20); const char *p = (const char *) vast(all); int i;
  if (!p) return;
  for (i = 0; i < 200; i++)
  {
    size_t n1 = rng_p(r, 50) ? G4 + rng_n(r, 1000) : rng_n(r, all), off = rng_p(r, 50) ? rng_n(r, n1 + 1) : n1 - rng_n(r, n1 < 100 ? n1 + 1 : 100), len = n1 - off, small = rng_n(r, 64);
    data d = data_construct(p, n1), e; void *c;
    MON_CHECK(data_base(d) == p && data_size(d) == n1 && data_empty(d) == !n1, "data-construct", "a slice of %zu bytes has %zu", n1, data_size(d));
    MON_CHECK(!data_empty(data_construct(p, G4)) && !data_empty(data_construct(p, 2 * G4)), "data-empty", "a slice of a multiple of 4 GiB is empty");
    e = data_select(d, off, len);
    MON_CHECK(data_base(e) == p + off && data_size(e) == len, "data-select", "select %zu+%zu yields %zd+%zu", off, len, (const char *) data_base(e) - p, data_size(e));
    MON_CHECK(data_offset(d, e) == off, "data-offset", "offset %zu instead of %zu", data_offset(d, e), off);
    e = data_consume(d, off);
    MON_CHECK(data_base(e) == p + off && data_size(e) == len, "data-consume", "consume %zu of %zu yields %zd+%zu", off, n1, (const char *) data_base(e) - p, data_size(e));
    MON_CHECK(!data_equal(data_construct(p, G4 + small), data_construct(p, small)) && !data_equal(data_construct(p, small), data_construct(p, G4 + small)), "data-equal", "slices of %zu and 4 GiB more bytes are equal", small);
    MON_CHECK(!data_prefix(data_construct(p, G4 + small), data_construct(p, small)) && data_prefix(data_construct(p, small), data_construct(p, G4 + rng_n(r, 70))), "data-prefix", "prefix of slices of %zu and 4 GiB more bytes", small);
    c = (void *) p; pointer_move(&c, off);
    MON_CHECK((const char *) c == p + off, "pointer-advance", "moved by %zd instead of %zu", (const char *) c - p, off);
    mon_count("eval", 8); mon_count("huge_operations", 8); mon_distinct(mon_mix(n1, off));
  }
  if (mon_case % 4 == 0 && room_for(6UL << 30))
  {
    data d = data_alloc(G4 + 5000);
    MON_CHECK(data_size(d) == G4 + 5000, "data-alloc", "size %zu", data_size(d));
    ((char *) data_base(d))[G4 + 4999] = 1;
    MON_CHECK(((char *) data_base(d))[G4 + 4998] == 0, "data-alloc", "not zeroed");
    data_free(d);
  }
  munmap((void *) p, all);
}

const mon_scenario mon_scenarios[] = {
  {"buffer", scn_buffer, MON_MEM, NULL}, {"vector", scn_vector, MON_MEM, NULL}, {"list", scn_list, MON_MEM, NULL},
  {"mapi", scn_mapi, MON_MEM, NULL}, {"maps", scn_maps, MON_MEM, NULL}, {"mapg", scn_mapg, MON_MEM, NULL}, {"mapbig", scn_mapbig, MON_MEM, NULL},
  {"string", scn_string, MON_MEM | MON_FDS, str_init}, {"hash", scn_hash, 0, NULL},
  {"decimal", scn_decimal, 0, NULL}, {"decimal_san", scn_decimal_san, 0, NULL}, {"data", scn_data, MON_MEM, NULL},
  {"bufhuge", scn_bufhuge, 0, NULL}, {"bufmove", scn_bufmove, 0, NULL}, {"vechuge", scn_vechuge, 0, NULL}, {"hashhuge", scn_hashhuge, 0, NULL}, {"strhuge", scn_strhuge, 0, NULL}, {"datahuge", scn_datahuge, 0, NULL}, {NULL, NULL, 0, NULL}};
