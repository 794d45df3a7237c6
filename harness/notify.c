/* Monitors for file notifications (C18): every watcher is paired with an inotify instance of the harness on the same paths. */
#include "mon.h"

#define MW 3
#define MP 24
typedef struct { int wd, ref; const char *path; } watch;
typedef struct { int id; uint32_t mask; const char *path; char name[300]; } owed;
typedef struct
{
  notify *n;
  int slot, ref, life, entered, blind;
  watch w[64]; int nw;
  owed *q; size_t head, tail, cap;
} wt;
static wt T[MW];
static int N, acting, depth, budget;
static rng *R;
static uint64_t H;
static char top[300];
static char paths[MP][400]; static int isdir[MP], NP;
static uint64_t uid;
static uint64_t overflows, vanished;

/* names of watches, kept for the length of a case */
static char **kept; static size_t nkept;
static const char *keep(const char *s)
{
  size_t i;
  for (i = 0; i < nkept; i++) if (!strcmp(kept[i], s)) return kept[i];
  kept = realloc(kept, (nkept + 1) * sizeof *kept);
  if (!kept || !(kept[nkept] = strdup(s))) mon_harness_error("memory");
  return kept[nkept++];
}
static void owe(wt *t, const watch *w, const struct inotify_event *ie)
{
  owed *o;
  if (t->tail == t->cap) { t->cap = t->cap ? t->cap * 2 : 64; t->q = realloc(t->q, t->cap * sizeof *t->q); if (!t->q) mon_harness_error("memory"); }
  o = &t->q[t->tail++];
  o->id = w->wd; o->mask = ie->mask;
  o->path = w->path;
  snprintf(o->name, sizeof o->name, "%s", ie->len ? ie->name : "");
}
static int ref_read(wt *t, size_t n)
{
  static char buf[1 << 16] __attribute__((aligned(8)));
  ssize_t k, p; int i, events = 0;
  if (t->ref == -1) return 0;
  if (n > sizeof buf) n = sizeof buf;
  k = __real_read(t->ref, buf, n);
  if (k == -1) { if (errno != EAGAIN && errno != EINVAL) mon_harness_error("reference read: %s", strerror(errno)); return 0; }
  for (p = 0; p < k; events++)
  {
    struct inotify_event *ie = (struct inotify_event *) (buf + p);
    p += sizeof *ie + ie->len;
    if (ie->mask & IN_Q_OVERFLOW) { overflows++; mon_count("overflows", 1); continue; }
    if (ie->mask & IN_IGNORED) mon_count("vanished", 1);
    for (i = t->nw - 1; i >= 0 && t->w[i].ref != ie->wd; i--);
    if (i < 0) mon_harness_error("event of an unknown watch %d", ie->wd);
    owe(t, &t->w[i], ie);
  }
  return events;
}
static int read_hook(int fd, void *buf, size_t n, ssize_t *ret)
{
  int i;
  (void) buf; (void) ret;
  for (i = 0; i < N; i++)
    if (T[i].n && T[i].ref != -1 && descriptor_is_open(&T[i].n->descriptor) && descriptor_fd(&T[i].n->descriptor) == fd) ref_read(&T[i], n);
  return 0;
}
static void forget(wt *t)
{
  if (t->ref != -1) mon_close(t->ref);
  t->ref = -1; t->nw = 0; t->head = t->tail = 0; t->life++;
}
static void cb(reactor_event *);
static void create(wt *t)
{
  t->n = malloc(sizeof *t->n);
  memset(t->n, 0xcc, sizeof *t->n);
  notify_construct(t->n, cb, t);
  t->ref = -1; t->nw = 0; t->head = t->tail = 0; t->life++;
}
static const uint32_t flags[] = {IN_ACCESS, IN_ATTRIB, IN_CLOSE_WRITE, IN_CLOSE_NOWRITE, IN_CREATE, IN_DELETE, IN_DELETE_SELF, IN_MODIFY, IN_MOVE_SELF, IN_MOVED_FROM, IN_MOVED_TO, IN_OPEN};
static void clear(wt *t);
static void add(wt *t)
{
  char *path = NULL, want[4200]; uint32_t mask = 0; int i, k, wd, ref, e1, p = rng_n(R, NP), bad = 0;
  if (t->nw > 40) return;
  snprintf(want, sizeof want, "%s", paths[p]);
  k = rng_n(R, 100);
  /* the same by another name */
  if (k % 12 == 0) { snprintf(want, sizeof want, "%s/link%d", top, p); if (symlink(paths[p], want) && errno != EEXIST) mon_harness_error("symlink"); mon_count("links", 1); }
  else if (k % 12 == 1 && isdir[p]) { snprintf(want, sizeof want, "%s%s", paths[p], (const char *[]) {"/", "//", "/.", "/../."}[rng_n(R, 4)]); mon_count("other_names", 1); }
  /* and by a name of any length up to the longest the kernel takes */
  if (rng_p(R, 6))
  {
    size_t have = strlen(want), room = 4095 - have, more = rng_p(R, 30) ? room - rng_n(R, 2) : rng_p(R, 50) ? 200 + rng_n(R, 300) : 1 + rng_n(R, room);
    memmove(want + more, want, have + 1);
    for (i = 0; i < (int) more; i++) want[i] = i % 2 && rng_p(R, 50) ? '.' : '/';
    mon_count("long_paths", 1);
  }
  k = rng_n(R, 100);
  if (k < 50) mask = IN_ALL_EVENTS;
  else { for (i = 0; i < 12; i++) if (rng_p(R, 40)) mask |= flags[i]; if (!mask) mask = IN_CREATE | IN_MODIFY; }
  if (rng_p(R, 8)) mask |= IN_ONESHOT;
  if (rng_p(R, 8)) mask |= IN_EXCL_UNLINK;
  if (rng_p(R, 5)) mask |= IN_ONLYDIR;
  if (rng_p(R, 5)) mask |= IN_MASK_ADD;
  if (rng_p(R, 5)) mask |= IN_DONT_FOLLOW;
  if (rng_p(R, 10))
  {
    bad = 1;
    switch (rng_n(R, 5))
    {
    case 0: snprintf(want, sizeof want, "%s/nosuch%d", top, (int) rng_n(R, 99)); break;
    case 1: want[0] = 0; break;
    case 2: memset(want, 'n', 300); want[0] = '/'; want[300] = 0; break;
    case 3: mask = 0; break;
    case 4: snprintf(want, sizeof want, "%s/nodir/deeper/file", top); break;
    }
  }
  path = strdup(want);
  mon_trace("watch %d %s mask %x", t->slot, want, mask);
  wd = notify_watch(t->n, path, mask); e1 = errno;
  memset(path, '#', strlen(path)); free(path);
  if (t->ref == -1) { t->ref = inotify_init1(IN_NONBLOCK | IN_CLOEXEC); if (t->ref == -1) mon_harness_error("inotify_init1: %s", strerror(errno)); mon_own(t->ref); }
  ref = inotify_add_watch(t->ref, want, mask);
  (void) e1;
  if (ref == -1) { MON_CHECK(wd < 0, "notify-watch-result", "watching '%s' with mask %x returns %d, the kernel refuses it", want, mask, wd); mon_count("refused", 1); mon_count("eval", 1); return; }
  MON_CHECK(wd >= 0, "notify-watch-result", "watching '%s' with mask %x returns %d, the kernel takes it", want, mask, wd);
  if (bad && !want[0]) mon_harness_error("watched an empty path");
  for (i = 0; i < t->nw; i++) if (t->w[i].ref == ref) {
    /* a renamed file under two names: which one is reported is not specified */
    if (strcmp(t->w[i].path, want)) { mon_count("same_file_twice", 1); clear(t); return; }
    MON_CHECK(t->w[i].wd == wd, "notify-watch-result", "watching '%s' again returns %d instead of %d", want, wd, t->w[i].wd); mon_count("rewatched", 1); return; }
  for (i = 0; i < t->nw; i++) MON_CHECK(t->w[i].wd != wd, "notify-watch-result", "two paths have the number %d", wd);
  t->w[t->nw].wd = wd; t->w[t->nw].ref = ref; t->w[t->nw].path = keep(want); t->nw++;
  mon_count("watches", 1);
  H = mon_mix(H, 1000 + p);
}
static void clear(wt *t)
{
  mon_trace("clear %d with %zu owed", t->slot, t->tail - t->head);
  if (t->entered) mon_count(t->tail > t->head ? "cleared_in_callback_pending" : "cleared_in_callback", 1);
  forget(t);
  notify_clear(t->n);
  MON_CHECK(!descriptor_is_open(&t->n->descriptor), "notify-clear", "a cleared watcher is still open");
  mon_count("clears", 1);
  H = mon_mix(H, 77);
}
static void destroy(wt *t)
{
  notify *n = t->n;
  mon_trace("destroy %d with %zu owed", t->slot, t->tail - t->head);
  if (t->entered) mon_count(t->tail > t->head ? "destroyed_in_callback_pending" : "destroyed_in_callback", 1);
  forget(t);
  t->n = NULL;
  notify_destruct(n);
  memset(n, 0xee, sizeof *n);
  free(n);
  H = mon_mix(H, 78);
}
/* ---- changes of the file system ---- */
static void some_name(char *b)
{
  int i, n;
  switch (rng_n(R, 10))
  {
  case 0: n = 200 + rng_n(R, 56); break;
  case 1: n = 1; break;
  case 2: n = 15 + rng_n(R, 3); break;
  default: n = 1 + rng_n(R, 30); break;
  }
  for (i = 0; i < n; i++) { do b[i] = rng_p(R, 95) ? 'a' + rng_n(R, 26) : 1 + rng_n(R, 255); while (b[i] == '/'); }
  b[n] = 0;
  if (!strcmp(b, ".") || !strcmp(b, "..")) strcpy(b, "x");
}
static void touch(const char *p, int write_it)
{
  int fd = open(p, (write_it ? O_WRONLY | O_CREAT : O_RDONLY) | O_CLOEXEC | O_NONBLOCK, 0600);
  char c[8];
  if (fd == -1) return;
  if (write_it) { if (__real_write(fd, "abc", 1 + rng_n(R, 3)) == -1) {} if (rng_p(R, 20)) if (ftruncate(fd, rng_n(R, 9))) {} }
  else if (__real_read(fd, c, sizeof c) == -1) {}
  __real_close(fd);
}
static void change(void)
{
  int p = rng_n(R, NP), q = rng_n(R, NP), k = rng_n(R, 100);
  char a[800], b[800], n[300];
  mon_count("changes", 1);
  if (!isdir[p])
  {
    if (k < 40) touch(paths[p], 1);
    else if (k < 60) touch(paths[p], 0);
    else if (k < 75) { if (chmod(paths[p], rng_p(R, 50) ? 0600 : 0640)) {} }
    else if (k < 85) { if (truncate(paths[p], rng_n(R, 99))) {} }
    else if (k < 93) { if (unlink(paths[p])) {} }
    else if (!isdir[q]) { if (rename(paths[p], paths[q])) {} }
    return;
  }
  some_name(n);
  snprintf(a, sizeof a, "%s/%s", paths[p], n);
  if (k < 35) touch(a, 1);
  else if (k < 42) { touch(a, 1); unlink(a); }
  else if (k < 45)
  {
    /* a file that is used on after it was removed */
    int fd = open(a, O_RDWR | O_CREAT | O_CLOEXEC | O_NONBLOCK, 0600);
    if (fd != -1) { unlink(a); if (__real_write(fd, "abc", 3) == -1) {} if (rng_p(R, 50)) fchmod(fd, 0640); __real_close(fd); mon_count("used_after_removal", 1); }
  }
  else if (k < 55) { if (mkdir(a, 0700)) {} if (rng_p(R, 60)) rmdir(a); }
  else if (k < 70) { touch(a, 1); some_name(n); snprintf(b, sizeof b, "%s/%s", isdir[q] ? paths[q] : paths[p], n); if (rename(a, b)) {} if (rng_p(R, 50)) unlink(b); }
  else if (k < 80) { if (symlink("/nowhere", a)) {} if (rng_p(R, 50)) unlink(a); }
  else if (k < 88) touch(paths[p], 0);
  else if (k < 94) { if (chmod(paths[p], rng_p(R, 50) ? 0700 : 0750)) {} }
  else if (k < 97) { if (rmdir(paths[p])) {} }
  else { snprintf(b, sizeof b, "rm -rf '%s'", a); (void) b; unlink(a); }
}
static void restore(void) { int i; for (i = 0; i < NP; i++) if (isdir[i]) { if (mkdir(paths[i], 0700)) {} } else if (access(paths[i], F_OK)) touch(paths[i], 1); }
static void act(wt *t)
{
  int k = rng_n(R, 100);
  if (!t->n) { if (k < 70) create(t); return; }
  if (k < 45) add(t);
  else if (k < 55) clear(t);
  else if (k < 62) destroy(t);
  else if (k < 66) { clear(t); if (rng_p(R, 70)) add(t); }
  else if (k < 90) { int i, n = 1 + rng_n(R, rng_p(R, 10) ? 400 : 8); for (i = 0; i < n; i++) change(); }
  else restore();
}
static void cb(reactor_event *e)
{
  wt *t = e->state; notify_event *ne = (notify_event *) e->data; owed *o;
  int life = t->life;
  MON_CHECK(e->type == NOTIFY_EVENT, "notify-event", "event type %d", e->type);
  MON_CHECK(t->n != NULL, "notify-after-destroy", "watcher %d is destroyed and called for '%s'", t->slot, ne->path);
  MON_CHECK(t->head < t->tail, "notify-unfounded", "watcher %d reports '%s' '%s' mask %x, which did not happen (again)", t->slot, ne->path, ne->name, ne->mask);
  o = &t->q[t->head++];
  MON_CHECK(ne->name != NULL && ne->path != NULL, "notify-label", "no name or path");
  if (ne->id != o->id || ne->mask != o->mask || strcmp(ne->path, o->path) || strcmp(ne->name, o->name))
    mon_fail("notify-label", "watcher %d reports id %d path '%s' name '%s' mask %x, the kernel id %d path '%s' name '%s' mask %x", t->slot, ne->id, ne->path, ne->name, ne->mask, o->id, o->path, o->name, o->mask);
  mon_count("events", 1); mon_count("eval", 1);
  if (t->head == t->tail) t->head = t->tail = 0;
  H = mon_mix(H, mon_mix(ne->mask, mon_hash(1, ne->name, strlen(ne->name) > 3 ? 3 : strlen(ne->name))));
  if (budget && rng_p(R, 3)) { budget--; change(); mon_count("changes_while_draining", 1); }
  if (acting && depth < 3 && rng_p(R, 12))
  {
    const char *path = keep(ne->path); char name[300];
    snprintf(name, sizeof name, "%s", ne->name);
    depth++; t->entered++;
    mon_count("acts_in_callback", 1);
    act(rng_p(R, 70) ? t : &T[rng_n(R, N)]);
    depth--; t->entered--;
    /* as long as the watch is there the callback can rely on what it was told */
    if (life == t->life) MON_CHECK(!strcmp(path, ne->path) && !strcmp(name, ne->name), "notify-label", "watcher %d: the names given with an event change during its callback", t->slot);
  }
}
static void settle(void)
{
  int i, n = 0, a = acting;
  acting = 0;
  for (i = 0; i < 200000 && mon_step(); i++) n++;
  MON_CHECK(i < 200000, "notify-spin", "the loop does not come to rest");
  for (i = 0; i < N; i++)
  {
    wt *t = &T[i];
    if (!t->n) continue;
    if (ref_read(t, 1 << 16) && !t->blind) mon_count("late_references", 1);
    if (t->head < t->tail) mon_fail("notify-lost", "watcher %d: %zu changes are not reported, the first one id %d path '%s' name '%s' mask %x", i, t->tail - t->head, t->q[t->head].id, t->q[t->head].path, t->q[t->head].name, t->q[t->head].mask);
    mon_count("eval", 1);
  }
  mon_count("settled", 1);
  acting = a;
}
static void begin(rng *r)
{
  int i;
  R = r; H = MON_H0; acting = 1; depth = 0; budget = 0;
  snprintf(top, sizeof top, "%s/w%llu", mon_dir, (unsigned long long) ++uid);
  if (mkdir(top, 0700)) mon_harness_error("mkdir %s: %s", top, strerror(errno));
  NP = 2 + rng_n(r, MP - 2);
  for (i = 0; i < NP; i++)
  {
    isdir[i] = rng_p(r, 50);
    snprintf(paths[i], sizeof paths[i], "%s/%c%d%s", top, isdir[i] ? 'd' : 'f', i, rng_p(r, 20) ? " with a rather longer name and \xc3\xa9 in it" : "");
  }
  restore();
  mon_read_hook = read_hook;
  N = 1 + rng_n(r, MW);
  memset(T, 0, sizeof T);
  for (i = 0; i < MW; i++) { T[i].slot = i; T[i].ref = -1; }
}
static void end(void)
{
  int i;
  for (i = 0; i < N; i++) { if (T[i].n) destroy(&T[i]); free(T[i].q); T[i].q = NULL; }
  MON_CHECK(!mon_step(), "notify-late", "something was dispatched after all watchers were destroyed");
  reactor_destruct();
  mon_read_hook = NULL;
  mon_rmdir(top);
  while (nkept) free(kept[--nkept]);
  free(kept); kept = NULL;
  mon_distinct(H);
}
static void scn_watch(rng *r)
{
  int i, step, steps = 10 + rng_n(r, 40);
  begin(r);
  reactor_construct();
  for (i = 0; i < N; i++) { create(&T[i]); add(&T[i]); }
  for (step = 0; step < steps; step++)
  {
    if (rng_p(r, 50)) change();
    act(&T[rng_n(r, N)]);
    if (rng_p(r, 50)) mon_step();
    if (rng_p(r, 10)) settle();
  }
  settle();
  if (mon_case < 2) mon_sample("%d watchers over %d paths", N, NP);
  end();
}
/* one watcher with hundreds of watches, some of which vanish and come again under new numbers */
static struct { int n, *id; owed *q; size_t head, tail, cap; int top_id; } MY;
static void many_owe(int i, uint32_t mask)
{
  owed *o;
  if (MY.tail == MY.cap) { MY.cap = MY.cap * 2 + 64; MY.q = realloc(MY.q, MY.cap * sizeof *MY.q); if (!MY.q) mon_harness_error("memory"); }
  o = &MY.q[MY.tail++]; o->id = MY.id[i]; o->mask = mask; o->path = NULL; snprintf(o->name, sizeof o->name, "%s/m%d", top, i);
}
static void many_cb(reactor_event *e)
{
  notify_event *ne = (notify_event *) e->data; owed *o;
  mon_count("eval", 1); mon_count("events", 1);
  MON_CHECK(e->type == NOTIFY_EVENT, "notify-type", "event type %d", e->type);
  MON_CHECK(MY.head < MY.tail, "notify-invented", "a report without a change: id %d path '%s' mask %x", ne->id, ne->path, ne->mask);
  o = &MY.q[MY.head++];
  MON_CHECK(ne->id == o->id && ne->mask == o->mask && !strcmp(ne->path, o->name) && !ne->name[0], "notify-wrong", "%d watches: reported id %d path '%s' mask %x, expected id %d path '%s' mask %x", MY.n, ne->id, ne->path, ne->mask, o->id, o->name, o->mask);
}
static void many_watch(notify *n, int i)
{
  char b[400]; int k;
  snprintf(b, sizeof b, "%s/m%d", top, i);
  k = notify_watch(n, b, IN_CLOSE_WRITE | IN_DELETE_SELF);
  MON_CHECK(k >= 0, "notify-watch-result", "watching '%s' as one of %d returns %d", b, MY.n, k);
  MY.id[i] = k; if (k > MY.top_id) MY.top_id = k;
}
static void scn_many(rng *r)
{
  notify n; char b[400]; int i, j, last = -1, rounds; static int order[1500];
  R = r; H = MON_H0; memset(&MY, 0, sizeof MY);
  MY.n = rng_p(r, 60) ? 250 + rng_n(r, 60) : rng_p(r, 50) ? 2 + (int) rng_n(r, 60) : 300 + (int) rng_n(r, 900);
  rounds = 1 + (MY.n < 100 ? 1500 / MY.n : rng_n(r, 4));
  MY.id = calloc(MY.n, sizeof *MY.id);
  snprintf(top, sizeof top, "%s/y%llu", mon_dir, (unsigned long long) ++uid);
  if (mkdir(top, 0700)) mon_harness_error("mkdir %s: %s", top, strerror(errno));
  reactor_construct();
  notify_construct(&n, many_cb, NULL);
  for (i = 0; i < MY.n; i++) { snprintf(b, sizeof b, "%s/m%d", top, i); touch(b, 1); order[i] = i; }
  for (i = 0; i < MY.n; i++) many_watch(&n, i);
  for (i = 0; i < MY.n; i++) for (j = 0; j < i && i < 300; j++) MON_CHECK(MY.id[i] != MY.id[j], "notify-watch-result", "two paths have the number %d", MY.id[i]);
  while (rounds--)
  {
    for (i = MY.n - 1; i > 0; i--) { int t; j = rng_n(r, i + 1); t = order[i]; order[i] = order[j]; order[j] = t; }
    for (i = 0; i < MY.n; i++)
    {
      int k = order[i];
      snprintf(b, sizeof b, "%s/m%d", top, k);
      if (rng_p(r, MY.n < 100 ? 80 : 20))
      {
        if (unlink(b)) mon_harness_error("unlink");
        many_owe(k, IN_DELETE_SELF); many_owe(k, IN_IGNORED);
        if (rng_p(r, 30)) { while (mon_step()); last = -1; }
        touch(b, 1); many_watch(&n, k); mon_count("rewatched", 1);
      }
      else if (k != last) { touch(b, 1); many_owe(k, IN_CLOSE_WRITE); last = k; }
      if (rng_p(r, 3)) mon_step();
    }
  }
  while (mon_step());
  MON_CHECK(MY.head == MY.tail, "notify-lost", "%d watches: %zu of %zu changes are not reported", MY.n, MY.tail - MY.head, MY.tail);
  mon_count("many_watches", MY.n); mon_count("watches", MY.n); mon_distinct(mon_mix(mon_mix(MON_H0, MY.n), MY.tail));
  if (mon_case < 2) mon_sample("%d watches, numbers up to %d, %zu reports", MY.n, MY.top_id, MY.tail);
  notify_destruct(&n);
  reactor_destruct();
  mon_rmdir(top);
  free(MY.id); free(MY.q);
}
/* more changes than the kernel keeps */
static void scn_overflow(rng *r)
{
  int i, k, rounds = 1 + rng_n(r, 2), limit = 16384; FILE *f = fopen("/proc/sys/fs/inotify/max_queued_events", "r");
  char a[500], b[500];
  if (f) { if (fscanf(f, "%d", &limit) != 1) limit = 16384; fclose(f); }
  if (limit > 200000) { mon_count("overflow_skipped", 1); limit = 2000; }
  begin(r);
  reactor_construct();
  snprintf(a, sizeof a, "%s/d", top); if (mkdir(a, 0700)) mon_harness_error("mkdir");
  isdir[0] = 1; strcpy(paths[0], a); NP = 1;
  for (i = 0; i < N; i++) { create(&T[i]); do add(&T[i]); while (!T[i].nw); }
  for (k = 0; k < rounds; k++)
  {
    budget = rng_p(r, 70) ? 300 : 0;
    for (i = 0; i < N; i++) if (T[i].n && !T[i].nw) add(&T[i]);
    for (i = 0; i < limit / 2 + (int) rng_n(r, 400); i++)
    {
      snprintf(b, sizeof b, "%s/%d", a, i & 7);
      touch(b, 1);
      if (rng_p(r, 30)) unlink(b);
    }
    mon_count("floods", 1);
    settle();
    /* it goes on working */
    for (i = 0; i < 20; i++) change();
    settle();
  }
  end();
}
const mon_scenario mon_scenarios[] = { {"watch", scn_watch, MON_FDS | MON_MEM, NULL}, {"many", scn_many, MON_FDS | MON_MEM}, {"overflow", scn_overflow, MON_FDS | MON_MEM, NULL}, {0} };
