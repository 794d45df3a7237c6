/* Monitor for event delivery (C04): conservation of signals between signallers and callbacks. */
#include "mon.h"
#include <stdatomic.h>

#define ME 12
typedef struct { event e; int slot, open, self, reopen; uint64_t opened; _Atomic uint64_t sent; uint64_t got, life_sent; } ev;
static ev *E[ME];
static int NE, observing;
static rng *R;
static pthread_t loop_thread;
static uint64_t H, last_batch_cb;
static int allow;              /* callbacks may act */

static void ev_callback(reactor_event *re);
static void ev_signal(ev *x) { atomic_fetch_add(&x->sent, 1); event_signal(&x->e); mon_count("signals", 1); }
static void ev_open(ev *x)
{
  event_open(&x->e); x->open = 1; x->opened = mon_batch; x->got = 0; atomic_store(&x->sent, 0);
  MON_CHECK(event_is_open(&x->e), "event-state", "an opened event reports being closed");
}
static void ev_close(ev *x)
{
  event_close(&x->e); x->open = 0;
  MON_CHECK(!event_is_open(&x->e), "event-state", "a closed event reports being open");
}
static void ev_callback(reactor_event *re)
{
  ev *x = re->state;
  uint64_t sent;
  int k;
  mon_count("eval", 1);
  MON_CHECK(pthread_equal(pthread_self(), loop_thread), "event-thread", "the callback runs outside of the loop thread");
  MON_CHECK(re->type == EVENT_SIGNAL, "event-type", "type %d", re->type);
  MON_CHECK(E[x->slot] == x && x->open, "event-closed", "callback of a closed event");
  MON_CHECK(x->opened != mon_batch, "event-stale", "a signal of an earlier life reached the re-opened event");
  MON_CHECK(re->data >= 1, "event-count", "callback without a signal (count %llu)", (unsigned long long) re->data);
  x->got += re->data;
  sent = atomic_load(&x->sent);
  MON_CHECK(x->got <= sent, "event-invented", "%llu signals delivered, %llu made", (unsigned long long) x->got, (unsigned long long) sent);
  mon_count("delivered", re->data);
  if (!allow) return;
  if (rng_p(R, 20)) for (k = 1 + rng_n(R, 3); k; k--) ev_signal(x);
  if (rng_p(R, 20)) { ev *y = E[rng_n(R, NE)]; if (y->open) for (k = 1 + rng_n(R, 3); k; k--) ev_signal(y); }
  if (rng_p(R, 6)) { ev *y = rng_p(R, 50) ? x : E[rng_n(R, NE)]; if (y->open) { ev_close(y); mon_trace("close %d from %d with %llu of %llu delivered", y->slot, x->slot, (unsigned long long) y->got, (unsigned long long) y->sent); if (rng_p(R, 60)) { ev_open(y); if (rng_p(R, 50)) ev_signal(y); } } }
  H = mon_mix(H, x->slot);
}
static void settle(void)
{
  int i, before = allow;
  allow = 0;
  MON_CHECK(mon_settle(20000000) >= 0, "event-endless", "callbacks never end");
  for (i = 0; i < NE; i++)
    if (E[i]->open) MON_CHECK(E[i]->got == E[i]->sent, "event-lost", "event %d: %llu signals made, %llu delivered", i, (unsigned long long) E[i]->sent, (unsigned long long) E[i]->got);
  mon_count("balances", 1);
  allow = before;
}
static void setup(rng *r, int n)
{
  int i;
  R = r; NE = n; H = MON_H0; allow = 1; loop_thread = pthread_self();
  reactor_construct();
  for (i = 0; i < NE; i++) { E[i] = calloc(1, sizeof *E[i]); E[i]->slot = i; event_construct(&E[i]->e, ev_callback, E[i]); ev_open(E[i]); }
}
static void teardown(void)
{
  int i;
  for (i = 0; i < NE; i++) { if (E[i]->open && rng_p(R, 50)) ev_signal(E[i]); E[i]->open = 0; event_destruct(&E[i]->e); memset(E[i], 0xdd, sizeof *E[i]); free(E[i]); E[i] = NULL; }
  MON_CHECK(!mon_step(), "event-closed", "something was dispatched after all events were destroyed");
  reactor_destruct();
  mon_distinct(H);
}
static void scn_single(rng *r)
{
  int i, k, step;
  setup(r, 1 + rng_n(r, ME));
  for (step = 0; step < 20; step++)
  {
    i = rng_n(r, NE);
    switch (rng_n(r, 5))
    {
    case 0: case 1: if (E[i]->open) { k = rng_p(r, 5) ? 300 + rng_n(r, 700) : 1 + rng_n(r, 6); while (k--) ev_signal(E[i]); } break;
    case 2: if (E[i]->open) ev_close(E[i]); else ev_open(E[i]); break;
    case 3: k = 1 + rng_n(r, 4); while (k--) mon_step(); break;
    case 4: if (rng_p(r, 50)) settle(); break;
    }
    H = mon_mix(H, i);
  }
  settle();
  if (mon_case < 2) mon_sample("%d events, last: %llu signals, %llu delivered", NE, (unsigned long long) E[0]->sent, (unsigned long long) E[0]->got);
  teardown();
}
/* any number of threads signal while the loop runs */
typedef struct { uint64_t seed; int n; } job;
static _Atomic int running;
static void *signaller(void *arg)
{
  job *j = arg;
  rng r = {j->seed};
  int i, k = j->n;
  while (k--)
  {
    i = rng_n(&r, NE);
    ev_signal(E[i]);
    if (rng_p(&r, 10)) sched_yield();
    if (rng_p(&r, 2)) usleep(rng_n(&r, 60));
  }
  atomic_fetch_sub(&running, 1);
  return NULL;
}
static void scn_threads(rng *r)
{
  pthread_t t[8];
  job j[8];
  int i, n = 1 + rng_n(r, 8), rounds = 1 + rng_n(r, 3), seen = 0;
  setup(r, 1 + rng_n(r, rng_p(r, 50) ? 1 : ME));
  allow = 0;
  while (rounds--)
  {
    atomic_store(&running, n);
    for (i = 0; i < n; i++) { j[i] = (job) {rng_next(r), 20 + rng_n(r, 150)}; if (pthread_create(&t[i], NULL, signaller, &j[i])) mon_harness_error("thread"); }
    while (atomic_load(&running)) { if (mon_step()) seen++; if (rng_p(r, 5)) usleep(rng_n(r, 200)); }
    for (i = 0; i < n; i++) pthread_join(t[i], NULL);
    settle();
    H = mon_mix(H, seen);
    for (i = 0; i < NE; i++) if (rng_p(r, 30)) { int k = rng_n(r, 4); while (k--) ev_signal(E[i]); ev_close(E[i]); ev_open(E[i]); }
  }
  mon_count("threaded_wakeups", seen);
  if (mon_case < 2) mon_sample("%d threads, %d events, %d wake-ups while signalling", n, NE, seen);
  teardown();
}
/* the loop blocks for real and must be woken by every signaller */
static uint64_t total_want, total_got;
static void block_callback(reactor_event *re)
{
  int i;
  MON_CHECK(pthread_equal(pthread_self(), loop_thread), "event-thread", "the callback runs outside of the loop thread");
  total_got += re->data;
  mon_count("eval", 1);
  MON_CHECK(total_got <= total_want, "event-invented", "%llu delivered of %llu", (unsigned long long) total_got, (unsigned long long) total_want);
  if (total_got == total_want) for (i = 0; i < NE; i++) ev_close(E[i]);
}
static void scn_block(rng *r)
{
  pthread_t t[4];
  job j[4];
  int i, n = 1 + rng_n(r, 4);
  R = r; NE = 1 + rng_n(r, 3); loop_thread = pthread_self(); total_want = total_got = 0; H = MON_H0;
  reactor_construct();
  for (i = 0; i < NE; i++) { E[i] = calloc(1, sizeof *E[i]); E[i]->slot = i; event_construct(&E[i]->e, block_callback, E[i]); ev_open(E[i]); }
  for (i = 0; i < n; i++) { j[i] = (job) {rng_next(r), 1 + rng_n(r, 40)}; total_want += j[i].n; }
  atomic_store(&running, n);
  mon_wait_mode = WAIT_REAL;
  for (i = 0; i < n; i++) if (pthread_create(&t[i], NULL, signaller, &j[i])) mon_harness_error("thread");
  reactor_loop();
  mon_wait_mode = WAIT_STEP;
  for (i = 0; i < n; i++) pthread_join(t[i], NULL);
  MON_CHECK(total_got == total_want, "event-lost", "%llu delivered of %llu", (unsigned long long) total_got, (unsigned long long) total_want);
  for (i = 0; i < NE; i++) { event_destruct(&E[i]->e); free(E[i]); E[i] = NULL; }
  reactor_destruct();
  mon_distinct(mon_mix(total_want, n * 16 + NE));
  mon_count("blocking_runs", 1);
}
const mon_scenario mon_scenarios[] = {
  {"single", scn_single, MON_FDS | MON_MEM}, {"threads", scn_threads, MON_FDS}, {"block", scn_block, MON_FDS}, {0}
};
