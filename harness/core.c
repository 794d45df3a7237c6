/* Monitors for the event loop and descriptors (C01, C02, C03).
 * A world of registered descriptors is driven by random peers while every callback is checked against what the
 * harness knows about the registration and, through poll(2), about the descriptor itself. */
#include "mon.h"

enum { RD = 1, WR = 2, CL = 4 };
typedef struct reg reg;
struct reg
{
  descriptor *d;              /* freed and reallocated freely */
  reactor_handler *h;         /* raw registrations use a handler instead */
  int raw, kind, fd, peer, mask, level;
  uint64_t opened, masked, touched, seen_batch;
  int seen;                   /* callbacks in seen_batch */
  int must;                   /* edge conditions still to be reported */
  int open;
  int notified;               /* since the quiet period began */
  int peer_closed, shut;
};
typedef struct { int slot; uint64_t gen; } tag; /* the state pointer given to the library; freed with the registration */

#define MAXR 128
static reg W[MAXR];
static tag *T[MAXR];
static int N;
static rng *R;
static int meddle;             /* percent of callbacks that remove or change registrations */
static int quiet;              /* callbacks only observe */
static uint64_t H;
static uint64_t n_removed_ready;
static void world_callback(reactor_event *);
static void raw_callback(reactor_event *);

static int cond(reg *g)
{
  struct pollfd p = {.fd = g->fd, .events = POLLIN | POLLOUT | POLLRDHUP};
  int c = 0;
  poll(&p, 1, 0);
  if (p.revents & POLLIN) c |= RD;
  if (p.revents & POLLOUT) c |= WR;
  if (p.revents & (POLLHUP | POLLRDHUP | POLLERR)) c |= CL;
  return c;
}
static int in_mask(reg *g) { return (g->mask & DESCRIPTOR_READ ? RD : 0) | (g->mask & DESCRIPTOR_WRITE ? WR : 0) | CL; }
static uint32_t raw_events(reg *g) { return EPOLLHUP | EPOLLRDHUP | (g->mask & DESCRIPTOR_READ ? EPOLLIN : 0) | (g->mask & DESCRIPTOR_WRITE ? EPOLLOUT : 0) | (g->level ? 0 : EPOLLET); }

static void make_fd(reg *g)
{
  int sv[2];
  g->kind = rng_n(R, 6);
  switch (g->kind)
  {
  case 0: case 1: mon_socketpair(sv, 1); g->fd = sv[0]; g->peer = sv[1]; break;
  case 2: mon_tcp_pair(sv, 1); g->fd = sv[0]; g->peer = sv[1]; break;
  case 3: if (pipe2(sv, O_NONBLOCK)) mon_harness_error("pipe"); g->fd = sv[0]; g->peer = sv[1]; mon_own(g->peer); break;
  case 4: if (pipe2(sv, O_NONBLOCK)) mon_harness_error("pipe"); g->fd = sv[1]; g->peer = sv[0]; mon_own(g->peer); break;
  case 5: g->fd = eventfd(0, EFD_NONBLOCK); g->peer = -1; break;
  }
  g->peer_closed = g->shut = 0;
  mon_give(g->fd);
}
static void prime(reg *g)      /* some descriptors are ready before they are registered */
{
  uint64_t one = 1;
  char b[40] = {0};
  if (rng_p(R, 60)) { if (g->kind == 5) (void) !__real_write(g->fd, &one, 8); else if (g->kind != 4) (void) !__real_write(g->peer, b, 1 + rng_n(R, 40)); }
}
static void do_open(int i)
{
  reg *g = &W[i];
  g->level = rng_p(R, 40);
  g->mask = (rng_p(R, 70) ? DESCRIPTOR_READ : 0) | (rng_p(R, 40) ? DESCRIPTOR_WRITE : 0) | (g->level ? DESCRIPTOR_LEVEL : 0);
  mon_trace("open %d fd %d kind %d mask %d%s", i, g->fd, g->kind, g->mask, g->raw ? " raw" : "");
  if (!T[i]) { T[i] = malloc(sizeof(tag)); T[i]->slot = i; }
  if (g->raw)
  {
    if (!g->h) { g->h = malloc(sizeof *g->h); reactor_handler_construct(g->h, raw_callback, T[i]); }
    reactor_add(g->h, g->fd, raw_events(g));
  }
  else
  {
    if (!g->d) { g->d = malloc(sizeof *g->d); descriptor_construct(g->d, world_callback, T[i]); }
    descriptor_open(g->d, g->fd, g->mask);
    MON_CHECK(descriptor_is_open(g->d) && descriptor_fd(g->d) == g->fd, "descriptor-state", "an opened descriptor reports fd %d, not %d", descriptor_fd(g->d), g->fd);
  }
  g->open = 1; g->opened = mon_batch; g->masked = mon_batch; g->touched = mon_batch; g->seen_batch = 0; g->notified = 0;
  g->must = cond(g) & in_mask(g);
  H = mon_mix(H, i * 8 + g->mask);
}
/* removal: the descriptor number and the memory are free for reuse at once */
static void do_close(int i, int forget)
{
  reg *g = &W[i];
  mon_trace("close %d fd %d%s", i, g->fd, forget ? " and free" : "");
  if (g->raw)
  {
    reactor_delete(g->h, g->fd);
    if (rng_p(R, 70)) mon_close(g->fd); else { int x = g->fd; g->fd = -1; mon_close(x); }
  }
  else descriptor_close(g->d);
  if (!g->raw) MON_CHECK(!descriptor_is_open(g->d), "descriptor-state", "a closed descriptor reports being open");
  if (g->peer != -1 && !g->peer_closed) mon_close(g->peer);
  g->open = 0; g->must = 0; g->fd = g->peer = -1;
  if (forget)
  {
    if (g->raw) { reactor_handler_destruct(g->h); memset(g->h, 0xdd, sizeof *g->h); free(g->h); g->h = NULL; }
    else { descriptor_destruct(g->d); memset(g->d, 0xdd, sizeof *g->d); free(g->d); g->d = NULL; }
    free(T[i]); T[i] = NULL;
  }
  H = mon_mix(H, i * 8 + 7);
  mon_count("removals", 1);
}
static void do_mask(int i, int mask)
{
  reg *g = &W[i];
  int before = in_mask(g), changed = g->mask != mask;
  mon_trace("mask %d: %d -> %d", i, g->mask, mask);
  g->mask = mask; g->level = !!(mask & DESCRIPTOR_LEVEL);
  if (g->raw) reactor_modify(g->h, g->fd, raw_events(g)); else descriptor_mask(g->d, mask);
  if (changed || g->raw)
  {
    g->masked = mon_batch;
    g->must &= in_mask(g);
    g->must |= cond(g) & in_mask(g) & ~before;
  }
  H = mon_mix(H, i * 64 + mask);
}
static void drain(reg *g)
{
  char b[4096];
  size_t lim = rng_p(R, 60) ? SIZE_MAX : 1 + rng_n(R, 3000);
  ssize_t n;
  if (g->kind == 4) return;
  g->touched = mon_batch;
  do n = __real_read(g->fd, b, lim < sizeof b ? lim : sizeof b); while (n > 0 && (lim -= n));
}
static void fill(reg *g)
{
  static char b[65536];
  size_t k;
  if (g->kind == 3 || g->kind == 5) return;
  g->touched = mon_batch;
  for (k = 0; k < 100; k++) if (__real_write(g->fd, b, rng_p(R, 50) ? sizeof b : 1 + rng_n(R, 5000)) <= 0) break;
}
/* the outside world moves */
static void peer_acts(int i)
{
  reg *g = &W[i];
  static char b[65536];
  uint64_t one = 1;
  int before = cond(g), a = rng_n(R, 100), k;
  if (g->kind == 5) { if (__real_write(g->fd, &one, 8) == 8 && g->open) g->must |= RD & in_mask(g); return; }
  if (g->peer_closed) return;
  if (a < 55)
  {
    if (g->kind == 4 || g->shut) return;
    /* urgent data is no condition of its own */
    if (g->kind == 2 && rng_p(R, 8)) { (void) !__real_send(g->peer, "!", 1, MSG_OOB); mon_count("urgent", 1); return; }
    if (__real_write(g->peer, b, 1 + rng_size(R, 2000)) > 0 && g->open) g->must |= RD & in_mask(g);
    mon_trace("peer of %d writes", i);
  }
  else if (a < 80)
  {
    if (g->kind == 3) return;
    for (k = 0; k < 200; k++) if (__real_read(g->peer, b, sizeof b) <= 0) break;
    mon_trace("peer of %d reads", i);
    if (!(before & WR) && g->open) g->must |= WR & in_mask(g);        /* required only if it is writable in the end */
  }
  else if (a < 88)
  {
    if (g->kind > 2 || g->shut) return;
    shutdown(g->peer, SHUT_WR); g->shut = 1;
    mon_trace("peer of %d half-closes", i);
    if (g->open) g->must |= CL;
  }
  else if (a < 95)
  {
    if (g->kind == 2 && rng_p(R, 50)) { struct linger l = {1, 0}; setsockopt(g->peer, SOL_SOCKET, SO_LINGER, &l, sizeof l); }
    mon_close(g->peer); g->peer = -1; g->peer_closed = 1;
    mon_trace("peer of %d closes", i);
    if (g->open && !(before & CL)) g->must |= CL;                     /* closing after a half-close need not be news */
  }
  H = mon_mix(H, i * 128 + a);
}
static void meddle_from(int self)
{
  int n = 1 + rng_n(R, rng_p(R, 30) ? 12 : 3), i, a;
  while (n--)
  {
    i = rng_p(R, 30) ? self : (int) rng_n(R, N);
    a = rng_n(R, 100);
    if (W[i].open && a < 45)
    {
      if (cond(&W[i])) n_removed_ready++;
      do_close(i, rng_p(R, 60));
      if (rng_p(R, 50)) { make_fd(&W[i]); prime(&W[i]); do_open(i); }   /* often the same number, sometimes the same handler */
    }
    else if (W[i].open && a < 70)
      {
      int keep = rng_p(R, 25);       /* sometimes only the trigger mode changes */
      int lvl = rng_p(R, keep ? 60 : 15) ? !W[i].level : W[i].level;
      do_mask(i, (keep ? W[i].mask & (DESCRIPTOR_READ | DESCRIPTOR_WRITE) : (rng_p(R, 60) ? DESCRIPTOR_READ : 0) | (rng_p(R, 40) ? DESCRIPTOR_WRITE : 0)) | (lvl ? DESCRIPTOR_LEVEL : 0));
    }
    else if (W[i].open && a < 85) { if (rng_p(R, 50)) drain(&W[i]); else fill(&W[i]); }
    else if (!W[i].open) { if (W[i].fd == -1) make_fd(&W[i]); prime(&W[i]); do_open(i); }
    else peer_acts(i);
  }
}
static void observed(int i, int what, const char *name)
{
  reg *g = &W[i];
  int c;
  mon_count("eval", 1); mon_count("callbacks", 1);
  MON_CHECK(g->open, "stale-event", "%s reported for registration %d after it was removed", name, i);
  MON_CHECK(g->opened != mon_batch, "stale-event", "%s collected before registration %d was made was delivered to it", name, i);
  if (g->masked != mon_batch)
    MON_CHECK(in_mask(g) & what, "unmasked-event", "%s reported for registration %d with mask %d", name, i, g->mask);
  if (g->seen_batch != mon_batch) { g->seen_batch = mon_batch; g->seen = 0; }
  MON_CHECK(!(g->seen & what), "repeated-event", "%s reported twice to registration %d in one wake-up", name, i);
  MON_CHECK(g->seen < what, "event-order", "%s reported after a later kind (%d) to registration %d in one wake-up", name, g->seen, i);
  g->seen |= what;
  if (g->touched != mon_batch)
  {
    c = cond(g);
    MON_CHECK(c & what, "spurious-event", "%s reported for registration %d (kind %d) but the condition does not exist (%d)", name, i, g->kind, c);
  }
  g->must &= ~what;
  g->notified |= what;
}
static void act(int i)
{
  if (quiet) return;
  if (rng_p(R, 40) && (W[i].seen & RD)) drain(&W[i]);
  if (rng_p(R, 20) && (W[i].seen & WR)) fill(&W[i]);
  if (rng_p(R, meddle)) meddle_from(i);
}
static void world_callback(reactor_event *e)
{
  tag *t = e->state;
  int what = e->type == DESCRIPTOR_READ ? RD : e->type == DESCRIPTOR_WRITE ? WR : CL;
  MON_CHECK(e->type == DESCRIPTOR_READ || e->type == DESCRIPTOR_WRITE || e->type == DESCRIPTOR_CLOSE, "event-type", "unknown event type %d", e->type);
  observed(t->slot, what, what == RD ? "READ" : what == WR ? "WRITE" : "CLOSE");
  act(t->slot);
}
static void raw_callback(reactor_event *e)
{
  tag *t = e->state;
  int i = t->slot;
  struct epoll_event *ev = (struct epoll_event *) e->data;
  MON_CHECK(e->type == REACTOR_EPOLL_EVENT, "event-type", "unknown event type %d", e->type);
  MON_CHECK(W[i].open, "stale-event", "an event was reported to handler %d after it was deleted", i);
  if (ev->events & EPOLLIN) observed(i, RD, "EPOLLIN");
  if (ev->events & EPOLLOUT) observed(i, WR, "EPOLLOUT");
  if (ev->events & ~(EPOLLIN | EPOLLOUT)) observed(i, CL, "EPOLLHUP");
  MON_CHECK(ev->events, "stale-event", "an event without conditions was reported to handler %d", i);
  act(i);
}
/* nothing moves any more: everything owed must have been reported, level descriptors on every wake-up */
static void settle_and_check(void)
{
  int i, k, rounds, nopen = 0, lvl_ready[MAXR], c, retry;
  quiet = 1;
  for (i = 0; i < N; i++) nopen += W[i].open;
  rounds = nopen / 32 + 3;
  for (k = 0; k < rounds; k++) mon_step();
  for (i = 0; i < N; i++)
  {
    if (!W[i].open) continue;
    for (retry = 0; ; retry++)
    {
      c = cond(&W[i]) & W[i].must & in_mask(&W[i]);
      if (!c) break;
      if (retry == 20) mon_fail("missed-event", "registration %d (kind %d, mask %d) is owed %s%s%s", i, W[i].kind, W[i].mask, c & RD ? "READ " : "", c & WR ? "WRITE " : "", c & CL ? "CLOSE" : "");
      for (k = 0; k < rounds; k++) mon_step();
      if (retry > 4) usleep(2000 * retry);
    }
  }
  mon_count("settled", 1);
  /* level-triggered: every wake-up (within one round of the kernel's ready list); edge-triggered: not over and over without news */
  for (k = 0; k < 3; k++)
  {
    int again[MAXR];
    int r, steps = nopen > 32 ? rounds : 1, all = 0;
    for (i = 0; i < N; i++) { lvl_ready[i] = W[i].open && W[i].level ? cond(&W[i]) & in_mask(&W[i]) : 0; again[i] = k == 2 && !W[i].level && W[i].kind != 2 ? W[i].notified : 0; W[i].notified = 0; all += !!lvl_ready[i]; }
    for (r = 0; r < steps; r++) MON_CHECK(mon_step() || !all, "missed-event", "the loop waited although %d level-triggered descriptors are ready", all);
    for (i = 0; i < N; i++)
      MON_CHECK((W[i].notified & lvl_ready[i]) == lvl_ready[i], "missed-event", "level-triggered registration %d of %d was not notified (%d of %d)", i, nopen, W[i].notified, lvl_ready[i]);
    for (i = 0; i < N; i++)
      MON_CHECK(!W[i].open || !(W[i].notified & again[i]), "edge-repeated", "edge-triggered registration %d (kind %d) is notified on every wake-up (%d) although nothing happened", i, W[i].kind, W[i].notified);
    mon_count("level_rounds", !!all);
    mon_count("edge_rounds", 1);
  }
  quiet = 0;
}
static void world(rng *r, int n, int med)
{
  int i, step, steps = 6 + rng_n(r, 10), k;
  R = r; N = n; meddle = med; quiet = 0; H = MON_H0;
  memset(W, 0, sizeof W); memset(T, 0, sizeof T);
  reactor_construct();
  for (i = 0; i < N; i++)
  {
    W[i].fd = W[i].peer = -1; W[i].raw = rng_p(r, 25);
    make_fd(&W[i]);
    if (rng_p(r, 85)) { prime(&W[i]); do_open(i); }
  }
  for (step = 0; step < steps; step++)
  {
    k = 1 + rng_n(r, N * (rng_p(r, 40) ? 2 : 1) + 2);
    while (k--) { i = rng_n(r, N); if (W[i].fd != -1 && W[i].open) peer_acts(i); }
    k = 1 + rng_n(r, 3);
    while (k--) mon_step();
    if (rng_p(r, 30)) meddle_from(rng_n(r, N));
    if (rng_p(r, 50)) settle_and_check();
  }
  settle_and_check();
  for (i = 0; i < N; i++)
  {
    if (W[i].open) do_close(i, 1);
    else
    {
      if (W[i].fd != -1) mon_close(W[i].fd);
      if (W[i].peer != -1) mon_close(W[i].peer);
      if (W[i].d) { descriptor_destruct(W[i].d); free(W[i].d); }
      if (W[i].h) free(W[i].h);
      free(T[i]);
    }
  }
  MON_CHECK(!mon_step(), "stale-event", "the loop dispatched something with nothing registered");
  reactor_destruct();
  mon_distinct(H);
  if (mon_case < 2) mon_sample("%d descriptors, %d steps, %llu ready ones removed so far", N, steps, (unsigned long long) n_removed_ready);
}
static void scn_stale(rng *r) { n_removed_ready = 0; world(r, 2 + rng_n(r, rng_p(r, 20) ? 70 : 20), 60 + rng_n(r, 40)); mon_count("removed_while_ready", n_removed_ready); }
static void scn_ready(rng *r) { world(r, 1 + rng_n(r, rng_p(r, 15) ? 110 : 25), rng_p(r, 50) ? 0 : rng_n(r, 15)); }

/* ------------------------------------------------------------------ stale events across every kind of object */
enum { K_EVENT, K_TIMER, K_STREAM, K_DESC, K_NOTIFY, K_N };
typedef struct { int kind, slot, open; uint64_t opened, armed; int peer; union { event e; timer t; stream s; descriptor d; notify n; }; } obj;
static obj *O[40];
static int ON;
static char Odir[PATH_MAX];
static void obj_callback(reactor_event *);
static void obj_open(int i)
{
  obj *o = O[i];
  int sv[2];
  o->open = 1; o->opened = mon_batch; o->armed = mon_batch;
  mon_trace("open object %d kind %d", i, o->kind);
  switch (o->kind)
  {
  case K_EVENT: event_open(&o->e); if (rng_p(R, 80)) event_signal(&o->e); break;
  case K_TIMER: timer_set(&o->t, rng_p(R, 80) ? 0 : 1000 + rng_n(R, 300000), rng_p(R, 50) ? 0 : 20000 + rng_n(R, 1000000)); break;
  case K_STREAM: mon_socketpair(sv, 1); o->peer = sv[1]; stream_open(&o->s, sv[0], STREAM_READ, NULL); if (rng_p(R, 50)) stream_notify(&o->s); if (rng_p(R, 70)) (void) !__real_write(o->peer, "hello", 5); if (rng_p(R, 30)) shutdown(o->peer, SHUT_WR); break;
  case K_DESC: mon_socketpair(sv, 1); o->peer = sv[1]; descriptor_open(&o->d, sv[0], DESCRIPTOR_READ | DESCRIPTOR_WRITE); if (rng_p(R, 70)) (void) !__real_write(o->peer, "hello", 5); if (rng_p(R, 30)) shutdown(o->peer, SHUT_WR); break;
  case K_NOTIFY: { char p[PATH_MAX + 16]; snprintf(p, sizeof p, "%s/f%d", Odir, i); mon_close(open(p, O_CREAT | O_RDWR, 0600)); notify_watch(&o->n, p, IN_ATTRIB | IN_OPEN | IN_CLOSE); if (rng_p(R, 80)) { int k = rng_n(R, 4); while (k--) mon_close(open(p, O_RDONLY)); } break; }
  }
}
static int pick_kind(void) { return rng_p(R, 2) ? K_NOTIFY : (int) rng_n(R, K_NOTIFY); }   /* closing a watcher is slow in the kernel */
static void obj_construct(int i, int kind)
{
  obj *o = O[i] = malloc(sizeof *o);
  int j, watchers = 0;
  for (j = 0; j < ON; j++) watchers += O[j] && j != i && O[j]->kind == K_NOTIFY;
  if (kind == K_NOTIFY && watchers >= 3) kind = K_EVENT;
  memset(o, 0, sizeof *o);
  o->kind = kind; o->slot = i; o->peer = -1;
  switch (kind)
  {
  case K_EVENT: event_construct(&o->e, obj_callback, o); break;
  case K_TIMER: timer_construct(&o->t, obj_callback, o); break;
  case K_STREAM: stream_construct(&o->s, obj_callback, o); break;
  case K_DESC: descriptor_construct(&o->d, obj_callback, o); break;
  case K_NOTIFY: notify_construct(&o->n, obj_callback, o); break;
  }
  obj_open(i);
}
static void obj_close(int i, int forget)
{
  obj *o = O[i];
  mon_trace("close object %d kind %d%s", i, o->kind, forget ? ", free" : "");
  switch (o->kind)
  {
  case K_EVENT: forget ? event_destruct(&o->e) : event_close(&o->e); break;
  case K_TIMER: forget ? timer_destruct(&o->t) : timer_clear(&o->t); break;
  case K_STREAM: forget ? stream_destruct(&o->s) : stream_close(&o->s); break;
  case K_DESC: forget ? descriptor_destruct(&o->d) : descriptor_close(&o->d); break;
  case K_NOTIFY: forget ? notify_destruct(&o->n) : notify_clear(&o->n); break;
  }
  if (o->peer != -1) mon_close(o->peer);
  o->peer = -1; o->open = 0;
  if (forget) { memset(o, 0xdd, sizeof *o); free(o); O[i] = NULL; }
  mon_count("removals", 1);
}
static void obj_callback(reactor_event *e)
{
  obj *o = e->state;
  int i = o->slot, n;
  mon_count("eval", 1); mon_count("object_callbacks", 1);
  MON_CHECK(O[i] == o, "stale-event", "an event reached a replaced object %d", i);
  MON_CHECK(o->open, "stale-event", "an event reached object %d (kind %d) after it was closed", i, o->kind);
  MON_CHECK(o->opened != mon_batch, "stale-event", "an event of an earlier life reached re-opened object %d (kind %d)", i, o->kind);
  if (o->kind == K_TIMER) MON_CHECK(o->armed != mon_batch, "stale-event", "an old expiration reached timer %d after it was set again", i);
  if (quiet) return;
  n = rng_n(R, 5);
  while (n--)
  {
    int j = rng_p(R, 40) ? i : (int) rng_n(R, ON);
    if (!O[j]) obj_construct(j, pick_kind());
    else if (!O[j]->open) obj_open(j);
    else
    {
      if (O[j]->kind == K_TIMER && rng_p(R, 40)) { usleep(rng_n(R, 100)); timer_set(&O[j]->t, 50000 + rng_n(R, 300000), rng_p(R, 50) ? 0 : 100000); continue; }
      obj_close(j, rng_p(R, 60));
      if (rng_p(R, 60)) { if (!O[j]) obj_construct(j, pick_kind()); else obj_open(j); }
    }
    H = mon_mix(H, i * 64 + j);
    if (!O[i] || !O[i]->open) break;
  }
}
static void scn_objects(rng *r)
{
  int i, k, step;
  R = r; ON = 3 + rng_n(r, 30); H = MON_H0; quiet = 0;
  mon_scratch(Odir, sizeof Odir);
  reactor_construct();
  for (i = 0; i < ON; i++) obj_construct(i, pick_kind());
  for (step = 0; step < 15; step++)
  {
    k = 1 + rng_n(r, 3);
    while (k--) mon_step();
    for (i = 0; i < ON; i++)
      if (!O[i]) { if (rng_p(r, 60)) obj_construct(i, pick_kind()); }
      else if (!O[i]->open) { if (rng_p(r, 60)) obj_open(i); }
      else if (O[i]->kind == K_EVENT && rng_p(r, 60)) event_signal(&O[i]->e);
      else if (O[i]->peer != -1 && rng_p(r, 60)) (void) !__real_write(O[i]->peer, "more", 4);
    if (rng_p(r, 30)) usleep(rng_n(r, 300));
  }
  for (i = 0; i < ON; i++) if (O[i]) obj_close(i, 1);
  MON_CHECK(!mon_step(), "stale-event", "the loop dispatched something with nothing registered");
  reactor_destruct();
  mon_rmdir(Odir);
  mon_distinct(H);
}

/* ------------------------------------------------------------------ C03 the loop */
static struct { int n, open[64], fd[64], aborted, expect, got, finish, must_stop, kind, raise_at, sig, cycles; descriptor d[64]; uint64_t batch, vclock, it_start, now_value, now_batch; } L;
static int loop_clock(struct timespec *t) { t->tv_sec = L.vclock / 1000000000; t->tv_nsec = L.vclock % 1000000000; return 1; }
static int loop_open_count(void) { int i, c = 0; for (i = 0; i < L.n; i++) c += L.open[i]; return c; }
static void check_now(void)
{
  uint64_t t = reactor_now();
  MON_CHECK(t >= L.it_start && t <= L.vclock, "now-range", "reactor_now is %llu, the clock went from %llu to %llu in this iteration", (unsigned long long) t, (unsigned long long) L.it_start, (unsigned long long) L.vclock);
  if (L.now_batch == mon_batch) MON_CHECK(t == L.now_value, "now-constant", "reactor_now changed from %llu to %llu within an iteration", (unsigned long long) L.now_value, (unsigned long long) t);
  L.now_batch = mon_batch; L.now_value = t;
  mon_count("now_checks", 1);
}
static void loop_leave(int i) { if (rng_p(R, 50) && L.kind != 1) { mon_trace("close %d, aborted", i); descriptor_close(&L.d[i]); L.open[i] = 0; } }
static void loop_callback(reactor_event *e)
{
  int i = (int) (intptr_t) e->state, n;
  uint64_t x;
  mon_count("eval", 1);
  MON_CHECK(L.open[i], "stale-event", "callback of a closed descriptor");
  if (e->type != DESCRIPTOR_READ) return;
  if (L.batch != mon_batch) { L.batch = mon_batch; L.got = 0; }
  L.got++;
  if (rng_p(R, 50)) check_now();
  L.vclock += rng_n(R, 3) ? rng_n(R, 2000000000) : 0;
  if (rng_p(R, 50)) check_now();
  (void) !__real_read(L.fd[i], &x, 8);
  if (L.aborted) { loop_leave(i); return; }       /* the rest of the wake-up is still delivered */
  if (rng_p(R, 12)) { L.aborted = 1; L.expect = mon_batch_n; mon_trace("abort in callback %d of %d", L.got, mon_batch_n); reactor_abort(); loop_leave(i); return; }
  if (rng_p(R, 6)) { L.aborted = 2; L.expect = mon_batch_n; for (n = rng_p(R, 50) ? 1 : 2 + rng_n(R, 3); n; n--) { mon_trace("signal in callback"); raise(rng_p(R, 50) ? SIGTERM : SIGINT); } loop_leave(i); return; }
  n = rng_n(R, 3);
  if (rng_p(R, 40) && L.kind != 1) { mon_trace("close %d", i); descriptor_close(&L.d[i]); L.open[i] = 0; }
  while (n--)
  {
    int j = rng_n(R, L.n);
    if (L.open[j]) { x = 1; (void) !__real_write(L.fd[j], &x, 8); }
    else if (rng_p(R, 15)) { L.fd[j] = eventfd(1, EFD_NONBLOCK); descriptor_open(&L.d[j], L.fd[j], DESCRIPTOR_READ); L.open[j] = 1; mon_trace("open %d", j); }
  }
  H = mon_mix(H, i);
}
static void loop_wait(void)
{
  int i, k;
  uint64_t x = 1;
  mon_count("eval", 1);
  if (L.aborted && L.batch) MON_CHECK(L.got == L.expect, "loop-batch", "the loop was aborted in a wake-up of %d events but %d were delivered", L.expect, L.got);
  MON_CHECK(!L.aborted, "loop-runs-on", "the loop waits again although it was aborted (%s)", L.aborted == 1 ? "reactor_abort" : "signal");
  MON_CHECK(loop_open_count() > 0, "loop-blocks", "the loop waits with nothing registered");
  L.vclock += rng_n(R, 5) ? 1 + rng_n(R, 10000000) : 0;
  L.it_start = L.vclock;
  /* the world moves */
  if (++L.cycles > 200)
  {
    /* drive it to an end */
    for (i = 0; i < L.n; i++) if (L.open[i]) { x = 1; (void) !__real_write(L.fd[i], &x, 8); }
    if (L.cycles > 260) { for (i = 0; i < L.n; i++) if (L.open[i]) { descriptor_close(&L.d[i]); L.open[i] = 0; } L.open[0] = 1; L.fd[0] = eventfd(1, EFD_NONBLOCK); descriptor_open(&L.d[0], L.fd[0], DESCRIPTOR_READ); L.kind = 0; }
    return;
  }
  k = rng_n(R, L.n + 2);
  while (k--) { i = rng_n(R, L.n); if (L.open[i]) (void) !__real_write(L.fd[i], &x, 8); }
}
static void scn_loop(rng *r)
{
  int i, c, cycles = 1 + rng_n(r, 4), leave;
  R = r; H = MON_H0;
  for (c = 0; c < cycles; c++)
  {
    memset(&L, 0, sizeof L);
    L.n = 1 + rng_n(r, 31); L.vclock = rng_p(r, 10) ? rng_n(r, 3) + 1 : rng_next(r) >> (2 + rng_n(r, 12)); if (!L.vclock) L.vclock = 1;
    L.it_start = L.vclock; L.kind = rng_n(r, 4); L.now_batch = UINT64_MAX;
    mon_clock_hook = loop_clock;
    /* whatever was there before, the signals end the loop */
    if (rng_p(r, 20)) { signal(SIGINT, rng_p(r, 50) ? SIG_IGN : SIG_DFL); signal(SIGTERM, rng_p(r, 50) ? SIG_IGN : SIG_DFL); signal(SIGPIPE, SIG_DFL); mon_count("signals_reset", 1); }
    reactor_construct();
    if (rng_p(r, 50)) check_now();   /* the clock of an earlier reactor is not this one's */
    if (rng_p(r, 10)) { mon_wait_hook = loop_wait; reactor_loop(); mon_count("empty_loops", 1); }  /* nothing registered: returns at once */
    for (i = 0; i < L.n; i++)
    {
      descriptor_construct(&L.d[i], loop_callback, (void *) (intptr_t) i);
      if (rng_p(r, 70)) { L.fd[i] = eventfd(rng_p(r, 40), EFD_NONBLOCK); descriptor_open(&L.d[i], L.fd[i], DESCRIPTOR_READ); L.open[i] = 1; }
    }
    mon_trace("cycle %d: %d of %d registered", c, loop_open_count(), L.n);
    if (rng_p(r, 5)) { reactor_abort(); L.aborted = 1; L.batch = 0; }   /* aborted before it starts */
    mon_wait_hook = loop_wait;
    /* a turn at a time, some of them without an event */
    if (rng_p(r, 40)) for (i = rng_n(r, 6); i && !L.aborted && loop_open_count(); i--) { if (rng_p(r, 50)) check_now(); reactor_loop_once(); if (rng_p(r, 80)) check_now(); mon_count("single_turns", 1); }
    reactor_loop();
    mon_wait_hook = NULL;
    if (L.aborted && L.batch && L.expect) MON_CHECK(L.got == L.expect, "loop-batch", "the loop was aborted in a wake-up of %d events but %d were delivered", L.expect, L.got);
    MON_CHECK(L.aborted || loop_open_count() == 0, "loop-ends", "the loop returned with %d descriptors registered and no abort", loop_open_count());
    mon_count(L.aborted == 1 ? "ended_by_abort" : L.aborted == 2 ? "ended_by_signal" : "ended_empty", 1);
    leave = rng_p(r, 30);
    if (!leave) for (i = 0; i < L.n; i++) if (L.open[i]) { descriptor_close(&L.d[i]); L.open[i] = 0; }
    reactor_destruct();
    if (leave) for (i = 0; i < L.n; i++) if (L.open[i]) mon_close(L.fd[i]);   /* abandoned with their reactor */
    mon_clock_hook = NULL;
    H = mon_mix(H, L.cycles);
  }
  mon_distinct(H);
}

/* many descriptors: the loop goes on exactly until the last one of them is closed */
static struct { int n, left, *fd; unsigned char *open; descriptor *d; int must_stop; uint64_t waits; } CR;
static void crowd_close(int i) { descriptor_close(&CR.d[i]); CR.open[i] = 0; CR.left--; }
static void crowd_callback(reactor_event *e)
{
  int i = (int) (intptr_t) e->state, n, j;
  mon_count("eval", 1);
  MON_CHECK(CR.open[i], "stale-event", "callback of a closed descriptor (%d of %d)", i, CR.n);
  if (e->type != DESCRIPTOR_READ) return;
  n = rng_p(R, 50) ? 1 : rng_n(R, 1 + CR.n / 4);
  if (CR.left > 1 && CR.left < CR.n && rng_p(R, 10)) n = CR.left - 1;       /* all but one */
  while (n-- > 0 && CR.left)
  {
    j = rng_n(R, CR.n);
    while (!CR.open[j]) j = (j + 1) % CR.n;
    crowd_close(j);
  }
  if (CR.left < CR.n && CR.left && rng_p(R, 20))
  {
    for (j = 0; CR.open[j]; j++);
    CR.fd[j] = eventfd(1, EFD_NONBLOCK); descriptor_open(&CR.d[j], CR.fd[j], DESCRIPTOR_READ); CR.open[j] = 1; CR.left++;
  }
  H = mon_mix(H, CR.left);
}
static void crowd_wait(void)
{
  uint64_t x = 1;
  int k, i;
  mon_count("eval", 1); CR.waits++;
  MON_CHECK(CR.left > 0, "loop-blocks", "the loop waits with nothing registered after %d descriptors", CR.n);
  for (k = 1 + rng_n(R, 40); k; k--)
  {
    i = rng_n(R, CR.n);
    while (!CR.open[i]) i = (i + 1) % CR.n;
    (void) !__real_write(CR.fd[i], &x, 8);
  }
}
static void scn_crowd(rng *r)
{
  int i;
  static const int sizes[] = {127, 128, 129, 255, 256, 257, 511, 512, 513, 1023, 1024, 1025, 2048};
  R = r; H = MON_H0; memset(&CR, 0, sizeof CR);
  CR.n = rng_p(r, 3) ? 4096 + (int) rng_n(r, 6000) : rng_p(r, 50) ? sizes[rng_n(r, 13)] : 1 + (int) rng_n(r, 700);
  CR.fd = calloc(CR.n, sizeof *CR.fd); CR.d = calloc(CR.n, sizeof *CR.d); CR.open = calloc(CR.n, 1);
  reactor_construct();
  for (i = 0; i < CR.n; i++)
  {
    descriptor_construct(&CR.d[i], crowd_callback, (void *) (intptr_t) i);
    CR.fd[i] = eventfd(0, EFD_NONBLOCK);
    if (CR.fd[i] == -1) { CR.n = i; break; }       /* as many as this process may have */
    descriptor_open(&CR.d[i], CR.fd[i], DESCRIPTOR_READ); CR.open[i] = 1; CR.left++;
  }
  mon_trace("%d descriptors", CR.n);
  mon_wait_hook = crowd_wait;
  reactor_loop();
  mon_wait_hook = NULL;
  MON_CHECK(CR.left == 0, "loop-ends", "the loop returned with %d of %d descriptors registered and no abort", CR.left, CR.n);
  reactor_destruct();
  mon_count("crowd_descriptors", CR.n); mon_count("crowd_waits", CR.waits);
  free(CR.fd); free(CR.d); free(CR.open);
  mon_distinct(H);
}

/* real waiting: interruptions by handled signals, a signal while blocked, a broken pipe */
static pthread_t sig_target;
static volatile int sig_done, sig_rescued, sig_kind, sig_in_wait;
static int sig_fds[16], sig_n, sig_got;
static descriptor sig_d[16];
static volatile int usr_seen;
static void on_usr(int s) { (void) s; usr_seen++; }
static void sig_wait_hook(void) { sig_in_wait = 1; }
static void *sig_thread(void *arg)
{
  rng r = {*(uint64_t *) arg};
  uint64_t x = 1;
  int i, k;
  while (!sig_in_wait) usleep(100);
  if (sig_kind == 0)
  {
    for (i = 0; i < sig_n; i++)
    {
      for (k = rng_n(&r, 5); k; k--) { pthread_kill(sig_target, SIGUSR1); if (rng_p(&r, 60)) usleep(rng_n(&r, 150)); }
      (void) !__real_write(sig_fds[i], &x, 8);
    }
    for (k = 0; k < 20 && !sig_done; k++) { pthread_kill(sig_target, SIGUSR1); usleep(100); }
  }
  else
  {
    usleep(3000);
    for (k = rng_p(&r, 40) ? 1 + rng_n(&r, 3) : 0; k >= 0; k--) { pthread_kill(sig_target, sig_kind == 1 ? SIGTERM : SIGINT); if (rng_p(&r, 50)) usleep(rng_n(&r, 200)); }
  }
  for (k = 0; k < 3000 && !sig_done; k++) usleep(1000);
  if (!sig_done) { sig_rescued = 1; for (i = 0; i < sig_n; i++) (void) !__real_write(sig_fds[i], &x, 8); }
  return NULL;
}
/* the real clock: reactor_now lies between a reading of an earlier iteration and one made now */
static struct { uint64_t lo, last, batch; int64_t off; } WC;
static uint64_t wall(clockid_t c) { struct timespec t; __real_clock_gettime(c, &t); return (uint64_t) t.tv_sec * 1000000000 + t.tv_nsec; }
static void wall_check(void)
{
  uint64_t now, hi; int64_t off;
  if (WC.batch != mon_batch) { WC.batch = mon_batch; WC.lo = WC.last; }
  now = reactor_now(); hi = wall(CLOCK_REALTIME); off = (int64_t) (hi - wall(CLOCK_MONOTONIC)); WC.last = hi;
  if (off - WC.off > 100000000 || WC.off - off > 100000000) { WC.off = off; WC.lo = 0; }   /* somebody set the clock */
  if (WC.lo) MON_CHECK(now >= WC.lo && now <= hi, "now-range", "reactor_now is %llu, the real-time clock went from %llu to %llu since the last iteration", (unsigned long long) now, (unsigned long long) WC.lo, (unsigned long long) hi);
  mon_count("wall_clock_checks", WC.lo != 0);
}
static void sig_callback(reactor_event *e)
{
  int i = (int) (intptr_t) e->state;
  if (e->type != DESCRIPTOR_READ) return;
  sig_got++;
  wall_check();
  descriptor_close(&sig_d[i]);
}
static int signal_round(rng *r)
{
  pthread_t t;
  uint64_t seed = rng_next(r);
  int i, p[2], left = 0;
  struct sigaction sa = {.sa_handler = on_usr};
  sigaction(SIGUSR1, &sa, NULL);
  memset(&WC, 0, sizeof WC); WC.batch = mon_batch; WC.last = WC.lo = wall(CLOCK_REALTIME); WC.off = (int64_t) (WC.last - wall(CLOCK_MONOTONIC));
  reactor_construct();
  if (rng_p(r, 50)) wall_check();
  /* SIGPIPE is harmless */
  if (pipe(p)) mon_harness_error("pipe");
  __real_close(p[0]);
  MON_CHECK(__real_write(p[1], "x", 1) == -1 && errno == EPIPE, "sigpipe", "writing to a broken pipe did not fail with EPIPE");
  __real_close(p[1]);
  sig_n = 1 + rng_n(r, 12); sig_got = sig_done = sig_rescued = sig_in_wait = 0; sig_kind = rng_n(r, 4); if (sig_kind == 3) sig_kind = 0;
  for (i = 0; i < sig_n; i++) { sig_fds[i] = eventfd(0, EFD_NONBLOCK); descriptor_construct(&sig_d[i], sig_callback, (void *) (intptr_t) i); descriptor_open(&sig_d[i], sig_fds[i], DESCRIPTOR_READ); }
  sig_target = pthread_self();
  mon_wait_mode = WAIT_REAL; mon_wait_hook = sig_wait_hook;
  if (pthread_create(&t, NULL, sig_thread, &seed)) mon_harness_error("thread");
  reactor_loop();
  mon_wait_mode = WAIT_STEP; mon_wait_hook = NULL;
  sig_done = 1;
  pthread_join(t, NULL);
  for (i = 0; i < sig_n; i++) if (descriptor_is_open(&sig_d[i])) { left++; descriptor_close(&sig_d[i]); }
  reactor_destruct();
  signal(SIGUSR1, SIG_DFL);
  mon_count("eval", 1); mon_count(sig_kind ? "signals_while_blocked" : "interrupted_waits", 1);
  mon_distinct(mon_mix(mon_mix(sig_kind, sig_n), seed));
  if (sig_rescued) return 0;
  if (sig_kind == 0) MON_CHECK(left == 0 && sig_got == sig_n, "eintr", "interrupted loop returned early: %d of %d events delivered, %d descriptors left", sig_got, sig_n, left);
  else MON_CHECK(left == sig_n, "signal", "the loop ended with %d of %d descriptors", left, sig_n);
  return 1;
}
static void scn_signals(rng *r)
{
  int i;
  for (i = 0; i < 3; i++) if (signal_round(r)) return;
  mon_fail("signal-lost", "%s while the loop was waiting had no effect within 3 s, three times", sig_kind == 0 ? "an event after interruptions" : "a termination signal");
}
/* known finding: a signal between the check of the abort flag and the wait is noticed only with the next event */
static void race_hook(void) { if (!sig_in_wait) { sig_in_wait = 1; raise(SIGTERM); } }
static void *race_thread(void *arg)
{
  uint64_t x = 1;
  int k;
  (void) arg;
  while (!sig_in_wait) usleep(100);
  for (k = 0; k < 500 && !sig_done; k++) usleep(1000);
  if (!sig_done) { sig_rescued = 1; (void) !__real_write(sig_fds[0], &x, 8); }
  return NULL;
}
static void scn_sigrace(rng *r)
{
  pthread_t t;
  (void) r;
  reactor_construct();
  sig_done = sig_rescued = sig_in_wait = 0; sig_n = 1;
  sig_fds[0] = eventfd(0, EFD_NONBLOCK); descriptor_construct(&sig_d[0], sig_callback, NULL); descriptor_open(&sig_d[0], sig_fds[0], DESCRIPTOR_READ);
  mon_wait_mode = WAIT_REAL; mon_wait_hook = race_hook;
  pthread_create(&t, NULL, race_thread, NULL);
  reactor_loop();
  mon_wait_mode = WAIT_STEP; mon_wait_hook = NULL;
  sig_done = 1;
  pthread_join(t, NULL);
  if (descriptor_is_open(&sig_d[0])) descriptor_close(&sig_d[0]);
  reactor_destruct();
  MON_CHECK(!sig_rescued, "signal-before-wait", "SIGTERM between the check of the abort flag and the wait was not noticed until another event came");
}

const mon_scenario mon_scenarios[] = {
  {"stale", scn_stale, MON_FDS | MON_MEM}, {"ready", scn_ready, MON_FDS | MON_MEM}, {"objects", scn_objects, MON_FDS | MON_MEM},
  {"loop", scn_loop, MON_FDS}, {"crowd", scn_crowd, MON_FDS}, {"signals", scn_signals, MON_FDS}, {"sigrace", scn_sigrace, 0}, {0}
};
