#include "common.h"
/* C04: signals and broadcasts are not lost.  C05: timeouts and cancellation.  C06: destroy. */
static struct {
  pthread_mutex_t m; pthread_cond_t c; int mtype;
  volatile long owner; long tokens, waiting, done; int sig_out, nw;
  volatile long consumed;
} C;
static void own(int me) { CHECKV(sim_set(&C.owner, me) == 0, "cond-mutex-exclusion", C.owner); }
static void disown(int me) { CHECKV(sim_set(&C.owner, 0) == me, "cond-mutex-exclusion", C.owner); }
static void lk(int me) { int r = pthread_mutex_lock(&C.m); CHECKV(r == 0, "cond-mutex-lock", r); own(me); }
static void ul(int me) { int r; disown(me); r = pthread_mutex_unlock(&C.m); CHECKV(r == 0, "cond-mutex-not-held", r); }
static void cond_setup(void)
{
  pthread_mutexattr_t at; int k = sim_choice(4);
  CHECK(pthread_mutexattr_init(&at) == 0, "mutexattr");
  pthread_mutexattr_settype(&at, k == 1 ? PTHREAD_MUTEX_ERRORCHECK : k == 2 ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL);
  CHECK(pthread_mutex_init(&C.m, &at) == 0, "mutex-init");
  pthread_mutexattr_destroy(&at);
  if (sim_choice(4) == 3) { static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER; C.c = ci; }
  else CHECK(pthread_cond_init(&C.c, NULL) == 0, "cond-init");
}
static void cond_finish(void)
{
  int r = pthread_cond_destroy(&C.c); CHECKV(r == 0, "cond-destroy", r);
  r = pthread_mutex_destroy(&C.m); CHECKV(r == 0, "mutex-destroy", r);
}
/* --- tokens: every token is announced by a signal (or broadcast); every waiter wants some */
static void *tok_consumer(void *a)
{
  int me = IDX(a) + 1, n = 1 + (IDX(a) >> 8), r; me &= 0xff;
  while (n--) {
    lk(me);
    while (C.tokens == 0) {
      disown(me);
      r = pthread_cond_wait(&C.c, &C.m);
      CHECKV(r == 0, "cond-wait-result", r);
      own(me);
    }
    C.tokens--; C.consumed++;
    ul(me);
  }
  return 0;
}
static void *tok_producer(void *a)
{
  int me = (IDX(a) & 0xff) + 50, n = IDX(a) >> 8, r;
  while (n > 0) {
    int k = 1 + sim_choice(n > 3 ? 3 : n), bc = sim_choice(3) == 2, out = sim_choice(2);
    lk(me); C.tokens += k;
    if (out) ul(me);
    if (bc) { r = pthread_cond_broadcast(&C.c); CHECKV(r == 0, "cond-broadcast-result", r); }
    else for (int i = 0; i < k; i++) { r = pthread_cond_signal(&C.c); CHECKV(r == 0, "cond-signal-result", r); }
    if (!out) ul(me);
    n -= k;
    sim_stall();
  }
  return 0;
}
SCENARIO(cond_tokens)
{
  pthread_t t[12]; int n = 0, nc = 1 + sim_choice(4), np = 1 + sim_choice(2), need = 0, per[8];
  cond_setup();
  for (int i = 0; i < nc; i++) need += per[i] = 1 + sim_choice(3);
  for (int i = 0; i < nc; i++) t[n++] = xcreate(tok_consumer, (void *)(size_t)(i | (per[i] - 1) << 8));
  for (int i = 0; i < np; i++) { int k = i == np - 1 ? need : need / np; need -= k; t[n++] = xcreate(tok_producer, (void *)(size_t)(i | k << 8)); }
  for (int i = 0; i < n; i++) xjoin(t[i]);
  CHECK(C.tokens == 0, "cond-conservation");
  cond_finish();
}
/* --- a signal goes to somebody who was already waiting, a broadcast to all of them */
static volatile long reg_old, woke_old, woke_new, phase; 
static void *old_waiter(void *a)
{
  int me = IDX(a) + 1, r;
  lk(me); reg_old++; disown(me);
  r = pthread_cond_wait(&C.c, &C.m); CHECKV(r == 0, "cond-wait-result", r);
  own(me); woke_old++; ul(me);
  return 0;
}
static void *new_waiter(void *a)
{
  int me = IDX(a) + 20, r;
  sim_wait_ge(&phase, 1);
  lk(me); disown(me);
  r = pthread_cond_wait(&C.c, &C.m); CHECKV(r == 0, "cond-wait-result", r);
  own(me); woke_new++; ul(me);
  return 0;
}
SCENARIO(cond_who)
{
  pthread_t t[12]; int n = 0, no = 1 + sim_choice(4), nn = sim_choice(3), r, k = 0, j, settle = sim_choice(2), bc = 0, rounds;
  cond_setup();
  for (int i = 0; i < no; i++) t[n++] = xcreate(old_waiter, (void *)(size_t)i);
  for (int i = 0; i < nn; i++) t[n++] = xcreate(new_waiter, (void *)(size_t)i);
  if (settle) sim_settle(1);
  lk(99); k = reg_old;
  j = 1 + sim_choice(no);
  if (sim_choice(3) == 2) bc = 1;
  sim_set(&phase, 1);
  if (sim_choice(2)) ul(99), r = 1; else r = 0;
  if (bc) CHECK(pthread_cond_broadcast(&C.c) == 0, "cond-broadcast-result");
  else for (int i = 0; i < j; i++) CHECK(pthread_cond_signal(&C.c) == 0, "cond-signal-result");
  if (!r) ul(99);
  sim_settle(1);
  {
    /* if the mutex was released first, later arrivals count as waiting too */
    long want = bc ? k : (j < k ? j : k);
    if (!r) { CHECKV(woke_old >= want, bc ? "cond-broadcast-lost" : "cond-signal-lost", woke_old); if (k && nn) sim_probe("signal_with_newcomers"); }
    else CHECKV(woke_old + woke_new >= want, bc ? "cond-broadcast-lost" : "cond-signal-lost", woke_old);
  }
  for (rounds = 0; rounds < 20 && woke_old + woke_new < no + nn; rounds++) {
    CHECK(pthread_cond_broadcast(&C.c) == 0, "cond-broadcast-result");
    sim_settle(1);
  }
  CHECKV(woke_old + woke_new == no + nn, "cond-broadcast-lost", woke_old + woke_new);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  cond_finish();
}
/* --- C05: some waiters time out or are cancelled; the others still get their signals */
static volatile long cancelled_ok;
static void timed_cleanup(void *a)
{
  int me = IDX(a), r;
  own(me);           /* the mutex is ours again in the cancellation cleanup handler */
  sim_add(&cancelled_ok, 1);
  ul(me);
}
static void pass_on(int me)   /* holding the mutex: put a token back, tell somebody */
{
  int r = pthread_cond_signal(&C.c); CHECKV(r == 0, "cond-signal-result", r);
}
static void *timed_waiter(void *a)
{
  int me = IDX(a) + 30, r, n = 1 + sim_choice(3);
  while (n--) {
    struct timespec ts;
    lk(me);
    if (C.done) { ul(me); break; }
    ts = in_ms(sim_choice(5) * 2);
    disown(me);
    pthread_cleanup_push(timed_cleanup, (void *)(size_t)me);
    r = pthread_cond_timedwait(&C.c, &C.m, &ts);
    pthread_cleanup_pop(0);
    CHECKV(r == 0 || r == ETIMEDOUT, "cond-timedwait-result", r);
    own(me);
    if (r == ETIMEDOUT) sim_probe("cond_timed_out");
    if (C.tokens) pass_on(me);
    ul(me);
  }
  return 0;
}
static void *cancel_waiter(void *a)
{
  int me = IDX(a) + 40, r;
  lk(me); disown(me);
  pthread_cleanup_push(timed_cleanup, (void *)(size_t)me);
  if (sim_choice(2)) r = pthread_cond_wait(&C.c, &C.m);
  else { struct timespec ts = in_ms(20); r = pthread_cond_timedwait(&C.c, &C.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-timedwait-result", r); if (r == ETIMEDOUT) r = 0; }
  pthread_cleanup_pop(0);
  CHECKV(r == 0, "cond-wait-result", r);
  own(me);
  if (C.tokens) pass_on(me);
  ul(me);
  return 0;
}
SCENARIO(cond_timed_cancel)
{
  pthread_t t[12], x[4]; int n = 0, nc = 1 + sim_choice(3), nt = sim_choice(4), nx = sim_choice(3), need = 0, per, k = 0, isc[12] = {0};
  if (nt + nx == 0) nt = 1;
  cond_setup();
  sim_faults(F_LATE | F_CLOCK);
  for (int i = 0; i < nc; i++) { per = 1 + sim_choice(2); need += per; t[n++] = xcreate(tok_consumer, (void *)(size_t)(i | (per - 1) << 8)); }
  for (int i = 0; i < nt; i++) t[n++] = xcreate(timed_waiter, (void *)(size_t)i);
  for (int i = 0; i < nx; i++) { isc[n] = 1; t[n] = xcreate(cancel_waiter, (void *)(size_t)i); x[k++] = t[n++]; }
  t[n++] = xcreate(tok_producer, (void *)(size_t)(0 | need << 8));
  for (int i = 0; i < nx; i++) { sim_stall(); int r = pthread_cancel(x[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); }
  for (int i = 0; i < n; i++) { void *v = xjoin(t[i]); CHECK(v == 0 || (isc[i] && v == PTHREAD_CANCELED), "join-value"); if (v) sim_probe("cond_wait_cancelled"); }
  CHECK(C.tokens == 0, "cond-conservation");
  /* nothing of the departed is left behind: the variable works and is destroyable */
  lk(99); C.tokens = 0; disown(99);
  { struct timespec ts = in_ms(3); int r = pthread_cond_timedwait(&C.c, &C.m, &ts); CHECKV(r == ETIMEDOUT || r == 0, "cond-timedwait-result", r); if (r == 0) sim_probe("cond_spurious"); }
  own(99); ul(99);
  cond_finish();
}
/* cancelled waiter must not swallow a signal that another waiter was to get */
SCENARIO(cond_cancel_signal)
{
  pthread_t a, b; int r, st;
  cond_setup();
  a = xcreate(old_waiter, (void *)0);
  b = xcreate(cancel_waiter, (void *)0);
  if (sim_choice(2)) sim_settle(0);
  do { lk(99); C.tokens = 0; st = reg_old; ul(99); sim_stall(); } while (!st);
  if (sim_choice(2)) { r = pthread_cancel(b); CHECK(r == 0 || r == ESRCH, "cancel-result"); CHECK(pthread_cond_signal(&C.c) == 0, "cond-signal-result"); }
  else { CHECK(pthread_cond_signal(&C.c) == 0, "cond-signal-result"); r = pthread_cancel(b); CHECK(r == 0 || r == ESRCH, "cancel-result"); }
  void *v = xjoin(b);
  if (v == PTHREAD_CANCELED) { sim_probe("cancel_vs_signal"); sim_settle(1); CHECK(woke_old == 1, "cond-signal-swallowed-by-cancel"); }
  else { CHECK(v == 0, "join-value"); CHECK(pthread_cond_broadcast(&C.c) == 0, "cond-broadcast-result"); }
  xjoin(a);
  cond_finish();
}
/* --- C06: destroy */
static volatile long gate_timed; static volatile long long gate_until; static int gate_mode;
static void *gate_waiter(void *a)
{
  int me = IDX(a) + 1, r;
  lk(me); C.waiting++;
  while (!C.done) { disown(me);
    if (gate_mode == 2) { struct timespec ts = in_ms(1000); gate_timed = 1; if (!gate_until) gate_until = sim_now() + 9000000; r = pthread_cond_timedwait(&C.c, &C.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-timedwait-result", r); }
    else if (gate_mode && sim_choice(3) == 2) { struct timespec ts = in_ms(1 + sim_choice(5)); gate_timed = 1; r = pthread_cond_timedwait(&C.c, &C.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-timedwait-result", r); }
    else { r = pthread_cond_wait(&C.c, &C.m); CHECKV(r == 0, "cond-wait-result", r); }
    own(me); }
  C.waiting--;
  ul(me);
  return 0;
}
SCENARIO(cond_destroy)
{
  pthread_t t[8]; int n = 1 + sim_choice(4), r, tries = 0, early = sim_choice(3) == 2, out = sim_choice(2);
  gate_mode = sim_choice(3);
  cond_setup();
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) t[i] = xcreate(gate_waiter, (void *)(size_t)i);
  if (early) {
    /* somebody is certainly blocked: destroy refuses, and nothing is harmed */
    sim_settle(0);
    lk(99);
    int w = C.waiting;
    /* (a timed wait may be over already, though its thread still needs the mutex) */
    if (w == n && gate_mode != 1 && sim_choice(2) == 0) {
      r = pthread_cond_destroy(&C.c);
      if (r == 0 && gate_mode == 2 && sim_now() >= gate_until) { C.done = 1; ul(99); for (int i = 0; i < n; i++) xjoin(t[i]); return; }
      CHECKV(r == EBUSY, "cond-destroyed-in-use", r); sim_probe("cond_destroy_busy");
    }
    ul(99);
  } else sim_stall();
  lk(99);
  while (C.waiting == 0 && sim_choice(2)) { ul(99); sim_stall(); lk(99); }
  int all = C.waiting == n;
  C.done = 1;
  if (out) ul(99);
  CHECK(pthread_cond_broadcast(&C.c) == 0, "cond-broadcast-result");
  if (!out) ul(99);
  if (all) {
    /* every waiter has been told: destroying now is legal while they are still on their way out */
    while ((r = pthread_cond_destroy(&C.c)) == EBUSY && tries++ < 200) { CHECK(gate_timed, "cond-destroy-refused"); sim_probe("cond_destroy_retry"); sim_yield(); }
    if (r == EBUSY) { for (int i = 0; i < n; i++) xjoin(t[i]); r = pthread_cond_destroy(&C.c); CHECKV(r == 0, "cond-destroy", r); }
    else { CHECKV(r == 0, "cond-destroy", r); CHECK(C.c == NULL, "cond-destroy"); sim_probe("cond_destroyed_early"); for (int i = 0; i < n; i++) xjoin(t[i]); }
    CHECK(pthread_cond_destroy(&C.c) == EINVAL, "cond-destroy-twice");
    CHECK(pthread_mutex_destroy(&C.m) == 0, "mutex-destroy");
  } else { for (int i = 0; i < n; i++) xjoin(t[i]); cond_finish(); }
}
/* --- C02: waiting with a mutex the caller does not own (of a kind that can tell) is refused at once and changes nothing */
static struct { volatile long held, idone, stop; int robust, stat; } W;
static void *no_holder(void *a) { (void)a; lk(90); W.held = 1; sim_wait_ge(&W.idone, 1); CHECKV(C.owner == 90, "cond-mutex-exclusion", C.owner); ul(90); return 0; }
static void *no_waiter(void *a) { int me = IDX(a) + 1, r; lk(me); C.waiting++; while (C.tokens == 0) { disown(me); r = pthread_cond_wait(&C.c, &C.m); CHECKV(r == 0, "cond-wait-result", r); own(me); } C.tokens--; ul(me); return 0; }
static void *no_intruder(void *a)
{
  int r, held = IDX(a);
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    struct timespec ts = in_ms(sim_choice(2) ? -5 : 20);
    r = sim_choice(2) ? pthread_cond_wait(&C.c, &C.m) : pthread_cond_timedwait(&C.c, &C.m, &ts);
    CHECKV(r == EPERM || (W.stat && r == EINVAL), "cond-wait-not-owner", r);
    r = pthread_mutex_unlock(&C.m); CHECKV(r == EPERM || (W.stat && r == EINVAL), "cond-wait-took-mutex", r);
    if (held) { r = pthread_mutex_trylock(&C.m); CHECKV(r == EBUSY, "mutex-exclusion", r); }
  }
  return 0;
}
SCENARIO(cond_not_owner)
{
  pthread_mutexattr_t at; int k = sim_choice(2), r, n = sim_choice(3), ni = 1 + sim_choice(2), h; pthread_t t[3], in[2], ht = {0}; W.robust = sim_choice(2); W.stat = 0;
  CHECK(pthread_mutexattr_init(&at) == 0, "mutexattr"); pthread_mutexattr_settype(&at, k ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_RECURSIVE); pthread_mutexattr_setrobust(&at, W.robust ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED);
  if (sim_choice(4) == 3) { static const pthread_mutex_t e = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER, rc = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; C.m = k ? e : rc; W.stat = 1; } else CHECK(pthread_mutex_init(&C.m, &at) == 0, "mutex-init");
  pthread_mutexattr_destroy(&at); CHECK(pthread_cond_init(&C.c, NULL) == 0, "cond-init");
  for (int i = 0; i < n; i++) t[i] = xcreate(no_waiter, (void *)(size_t)i);
  if (n && sim_choice(2)) for (;;) { lk(80); long w = C.waiting; ul(80); if (w == n) break; sim_yield(); }
  h = sim_choice(2); if (h) { ht = xcreate(no_holder, 0); sim_wait_ge(&W.held, 1); }
  for (int i = 1; i < ni; i++) in[i] = xcreate(no_intruder, (void *)(size_t)h);
  no_intruder((void *)(size_t)h); for (int i = 1; i < ni; i++) xjoin(in[i]);
  W.idone = 1; if (h) xjoin(ht);
  lk(80); C.tokens = n; if (sim_choice(2)) { r = pthread_cond_broadcast(&C.c); CHECKV(r == 0, "cond-broadcast-result", r); } else for (int i = 0; i < n; i++) { r = pthread_cond_signal(&C.c); CHECKV(r == 0, "cond-signal-result", r); } ul(80);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  lk(80); ul(80); cond_finish();
}
