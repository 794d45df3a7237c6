/* Monitor for timers (C05): every reported count is bounded from both sides by the monotonic clock. */
#include "mon.h"

#define MT 10
#define NS 1000000000ULL
typedef struct { timer t; int slot, armed; uint64_t lo, hi, t0, ti, got, sets; } tm;
static tm *X[MT];
static int N;
static rng *R;
static int allow;
static uint64_t H;
static uint64_t fired;

static uint64_t sat_add(uint64_t a, uint64_t b) { return a + b < a ? UINT64_MAX : a + b; }
/* expirations by time t of a setting made at time s */
static uint64_t expirations(tm *x, uint64_t s, uint64_t t)
{
  uint64_t first = sat_add(s, x->t0);
  if (t < first) return 0;
  return x->ti ? sat_add(1, (t - first) / x->ti) : 1;
}
static void programmed(tm *x)
{
  /* what the kernel was told, when the descriptor is a timerfd */
  struct itimerspec i;
  uint64_t a, b, v, n;
  int fd = descriptor_fd(&x->t.descriptor);
  a = mon_mono_ns();
  if (fd == -1 || timerfd_gettime(fd, &i) == -1) return;
  b = mon_mono_ns();
  if (x->ti < (1ULL << 62))
  {
    n = (uint64_t) i.it_interval.tv_sec * NS + i.it_interval.tv_nsec;
    MON_CHECK(n == x->ti, "timer-interval", "interval %llu ns requested, %llu ns set", (unsigned long long) x->ti, (unsigned long long) n);
  }
  if (x->t0 < (1ULL << 62) && x->t0 > 0 && b < sat_add(x->lo, x->t0))
  {
    v = (uint64_t) i.it_value.tv_sec * NS + i.it_value.tv_nsec;
    MON_CHECK(v <= x->t0 - (a > x->hi ? a - x->hi : 0) && v >= x->t0 - (b - x->lo), "timer-delay", "delay %llu ns requested %llu-%llu ns ago, %llu ns remain", (unsigned long long) x->t0, (unsigned long long) (a - x->hi), (unsigned long long) (b - x->lo), (unsigned long long) v);
  }
  mon_count("programmed_checked", 1);
}
static uint64_t any64(rng *r) { return rng_next(r) >> rng_n(r, 64); }
static void set(tm *x)
{
  int k = rng_n(R, 100);
  uint64_t t0 = x->t0, ti = x->ti;
  x->t0 = k < 20 ? 0 : k < 60 ? 1000 + rng_n(R, 300000) : k < 75 ? rng_n(R, 3000000) : k < 80 ? 1 : k < 85 ? NS + rng_n(R, 2000) - 1000 : any64(R);
  k = rng_n(R, 100);
  x->ti = k < 40 ? 0 : k < 75 ? 2000 + rng_n(R, 300000) : k < 82 ? 1 + rng_n(R, 2000) : k < 90 ? NS * (1 + rng_n(R, 5)) + rng_n(R, NS) : any64(R);
  if (x->ti > 0 && x->ti < 20000 && rng_p(R, 60)) x->ti += 20000;
  /* often the same once more, in whole or in part, or the delay as the interval */
  k = rng_n(R, 100);
  if (k < 30 && x->sets) { if (k < 20) x->t0 = t0; if (k >= 10) x->ti = ti; mon_count("same_settings", k >= 10 && k < 20); }
  else if (k < 45) x->ti = x->t0;
  mon_trace("set %d: %llu / %llu (%s)", x->slot, (unsigned long long) x->t0, (unsigned long long) x->ti, x->armed ? "armed" : "clear");
  x->lo = mon_mono_ns();
  timer_set(&x->t, x->t0, x->ti);
  x->hi = mon_mono_ns();
  x->armed = 1; x->got = 0; x->sets++;
  if (x->t0 == 0) x->t0 = 0;
  programmed(x);
  H = mon_mix(H, x->t0 * 31 + x->ti);
  mon_count("sets", 1);
}
static void clear(tm *x) { mon_trace("clear %d after %llu", x->slot, (unsigned long long) x->got); timer_clear(&x->t); x->armed = 0; mon_count("clears", 1); }
static void cb(reactor_event *e);
static void make(int i) { X[i] = calloc(1, sizeof *X[i]); X[i]->slot = i; timer_construct(&X[i]->t, cb, X[i]); }
static void forget(int i) { mon_trace("free %d", i); if (!rng_p(R, 50) && X[i]->armed) timer_clear(&X[i]->t); timer_destruct(&X[i]->t); memset(X[i], 0xdd, sizeof *X[i]); free(X[i]); X[i] = NULL; }
static void cb(reactor_event *e)
{
  tm *x = e->state;
  uint64_t now = mon_mono_ns(), max, min, old;
  int k;
  mon_count("eval", 1); fired++;
  MON_CHECK(e->type == TIMER_EXPIRATION, "timer-type", "type %d", e->type);
  MON_CHECK(X[x->slot] == x && x->armed, "timer-stale", "an expiration was reported for timer %d which is cleared", x->slot);
  MON_CHECK(e->data >= 1, "timer-count", "a count of %llu was reported", (unsigned long long) e->data);
  old = x->got;
  x->got += e->data;
  max = expirations(x, x->lo, now);
  MON_CHECK(x->got <= max, old ? "timer-invented" : "timer-early", "timer %d (%llu / %llu) reported %llu expirations in all, at most %llu have happened %llu ns after it was set",
            x->slot, (unsigned long long) x->t0, (unsigned long long) x->ti, (unsigned long long) x->got, (unsigned long long) max, (unsigned long long) (now - x->lo));
  if (mon_woke_ns > x->hi + 5000)
  {
    min = expirations(x, x->hi, mon_woke_ns - 5000);
    MON_CHECK(x->got >= min, "timer-lost", "timer %d (%llu / %llu) reported %llu expirations in all, %llu had happened before this wake-up", x->slot, (unsigned long long) x->t0, (unsigned long long) x->ti, (unsigned long long) x->got, (unsigned long long) min);
  }
  mon_count("expirations", e->data);
  if (e->data > 1) mon_count("coalesced", 1);
  if (!allow) return;
  k = rng_n(R, 100);
  if (k < 12) set(x);
  else if (k < 20) clear(x);
  else if (k < 26) { clear(x); set(x); }
  else if (k < 32) forget(x->slot);
  else if (k < 60)
  {
    int j = rng_n(R, N);
    if (!X[j]) { make(j); set(X[j]); }
    else switch (rng_n(R, 4)) { case 0: set(X[j]); break; case 1: clear(X[j]); break; case 2: forget(j); break; case 3: clear(X[j]); set(X[j]); break; }
  }
  else if (k < 65) usleep(rng_n(R, 400));
}
/* everything due by now has been reported within the grace */
static void due(void)
{
  uint64_t t = mon_mono_ns(), end = t + NS, want;
  int i, missing;
  allow = 0;
  do
  {
    for (i = 0; i < 50 && mon_step(); i++);
    missing = -1;
    for (i = 0; i < N; i++)
      if (X[i] && X[i]->armed && t > X[i]->hi)
      {
        want = expirations(X[i], X[i]->hi, t);
        if (X[i]->ti) want = want > 0;            /* the exact count is judged in the callback */
        if (X[i]->got < want) missing = i;
      }
    if (missing == -1) break;
    usleep(200);
  } while (mon_mono_ns() < end);
  if (missing != -1) mon_fail("timer-lost", "timer %d (%llu / %llu) is due since %llu ns and reported %llu", missing, (unsigned long long) X[missing]->t0, (unsigned long long) X[missing]->ti, (unsigned long long) (t - X[missing]->hi - X[missing]->t0), (unsigned long long) X[missing]->got);
  for (i = 0; i < N; i++) if (X[i] && X[i]->armed) programmed(X[i]);
  allow = 1;
  mon_count("dues", 1);
}
static void scn_timers(rng *r)
{
  int i, k, step;
  R = r; N = 1 + rng_n(r, MT); H = MON_H0; allow = 1; memset(X, 0, sizeof X);
  reactor_construct();
  for (i = 0; i < N; i++) { make(i); if (rng_p(r, 80)) set(X[i]); }
  for (step = 0; step < 25; step++)
  {
    i = rng_n(r, N);
    switch (rng_n(r, 8))
    {
    case 0: if (!X[i]) make(i); set(X[i]); break;
    case 1: if (X[i]) clear(X[i]); break;
    case 2: if (X[i] && rng_p(r, 40)) forget(i); break;
    case 3: usleep(rng_n(r, 1200)); break;                /* the loop is late */
    case 4: case 5: k = 1 + rng_n(r, 5); while (k--) mon_step(); break;
    case 6: usleep(rng_n(r, 200)); mon_step(); break;
    case 7: if (rng_p(r, 60)) due(); break;
    }
  }
  due();
  if (mon_case < 3 && X[0]) mon_sample("timer %llu / %llu set %llu times, %llu reported since", (unsigned long long) X[0]->t0, (unsigned long long) X[0]->ti, (unsigned long long) X[0]->sets, (unsigned long long) X[0]->got);
  for (i = 0; i < N; i++) if (X[i]) forget(i);
  usleep(100);
  MON_CHECK(!mon_step(), "timer-stale", "something was dispatched after all timers were destroyed");
  reactor_destruct();
  mon_distinct(H);
}
/* the loop blocks for real; one-shot and periodic timers end it */
static uint64_t block_left;
static void bcb(reactor_event *e)
{
  tm *x = e->state;
  uint64_t now = mon_mono_ns();
  mon_count("eval", 1);
  x->got += e->data;
  MON_CHECK(x->armed && e->data >= 1 && x->got <= expirations(x, x->lo, now), "timer-early", "timer (%llu / %llu): %llu expirations after %llu ns", (unsigned long long) x->t0, (unsigned long long) x->ti, (unsigned long long) x->got, (unsigned long long) (now - x->lo));
  if (!x->ti || x->got > 3 + (uint64_t) x->slot) { x->armed = 0; timer_clear(&x->t); }
}
static void scn_block(rng *r)
{
  int i;
  R = r; N = 1 + rng_n(r, 4);
  reactor_construct();
  for (i = 0; i < N; i++)
  {
    X[i] = calloc(1, sizeof *X[i]); X[i]->slot = i; timer_construct(&X[i]->t, bcb, X[i]);
    X[i]->t0 = rng_p(r, 20) ? 0 : rng_n(r, 5000000); X[i]->ti = rng_p(r, 50) ? 0 : 100000 + rng_n(r, 1500000);
    X[i]->lo = mon_mono_ns(); timer_set(&X[i]->t, X[i]->t0, X[i]->ti); X[i]->hi = mon_mono_ns(); X[i]->armed = 1;
  }
  mon_wait_mode = WAIT_REAL;
  reactor_loop();
  mon_wait_mode = WAIT_STEP;
  for (i = 0; i < N; i++) { MON_CHECK(!X[i]->armed, "timer-lost", "the loop ended with a timer armed"); mon_distinct(mon_mix(X[i]->t0, X[i]->ti)); timer_destruct(&X[i]->t); free(X[i]); X[i] = NULL; }
  reactor_destruct();
  mon_count("blocking_runs", 1);
}
/* a loop that is later than 2^32 expirations */
static uint64_t late_n;
static void lcb(reactor_event *e)
{
  tm *x = e->state;
  uint64_t now = mon_mono_ns(), least = expirations(x, x->hi + 1, mon_woke_ns), most;
  x->got += e->data; late_n++;
  now = mon_mono_ns();
  most = expirations(x, x->lo, now);
  mon_count("eval", 1); mon_count("late_reports", 1);
  if (e->data >> 32) mon_count("counts_over_2^32", 1);
  MON_CHECK(x->got <= most, "timer-early", "timer (%llu / %llu): %llu expirations after %llu ns", (unsigned long long) x->t0, (unsigned long long) x->ti, (unsigned long long) x->got, (unsigned long long) (now - x->lo));
  MON_CHECK(x->got >= least, "timer-lost", "timer (%llu / %llu): %llu expirations reported, at least %llu are due", (unsigned long long) x->t0, (unsigned long long) x->ti, (unsigned long long) x->got, (unsigned long long) least);
  if (x->got > 5000000000u || x->ti > 1000) timer_clear(&x->t);
}
static void scn_late(rng *r)
{
  static tm x[3];
  int i;
  R = r; late_n = 0; memset(x, 0, sizeof x);
  reactor_construct();
  for (i = 0; i < 3; i++)
  {
    x[i].slot = i; timer_construct(&x[i].t, lcb, &x[i]);
    x[i].t0 = rng_n(r, 100); x[i].ti = i == 0 ? 1 : i == 1 ? 1 + rng_n(r, 3) : 10000000 + rng_n(r, 100000000);
    x[i].lo = mon_mono_ns(); timer_set(&x[i].t, x[i].t0, x[i].ti); x[i].hi = mon_mono_ns(); x[i].armed = 1;
  }
  usleep(4500000 + rng_n(r, 1000000));
  for (i = 0; i < 10; i++) { mon_step(); if (rng_p(r, 50)) usleep(rng_n(r, 2000)); }
  MON_CHECK(late_n >= 3, "timer-lost", "three timers are due, %llu reports", (unsigned long long) late_n);
  for (i = 0; i < 3; i++) { mon_distinct(mon_mix(x[i].t0, x[i].ti)); timer_destruct(&x[i].t); }
  reactor_destruct();
}
const mon_scenario mon_scenarios[] = { {"late", scn_late, MON_FDS | MON_MEM}, {"timers", scn_timers, MON_FDS | MON_MEM}, {"block", scn_block, MON_FDS | MON_MEM}, {0} };
