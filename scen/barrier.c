#include "common.h"
/* C10: barriers. */
static struct { pthread_barrier_t b; int n, rounds; volatile long arrived, left, serial, done, busy; pthread_t t[12]; } P;
static void b_wait(void)
{
  sim_add(&P.arrived, 1);
  int r = pthread_barrier_wait(&P.b);
  CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-wait-result", r);
  long l = sim_add(&P.left, 1);
  CHECKV(l <= P.arrived / P.n * P.n, "barrier-released-early", l);
  if (r) sim_add(&P.serial, 1);
}
static void *b_thr(void *a)
{
  int k = IDX(a);
  for (int i = 0; i < k; i++) { if (sim_choice(3) == 2) sim_stall(); b_wait(); CHECKV(P.serial <= P.arrived / P.n, "barrier-two-serial", P.serial); }
  return 0;
}
static volatile long pool;
static void *b_pool(void *a) { while (sim_add(&pool, -1) >= 0) { if (sim_choice(4) == 3) sim_stall(); b_wait(); CHECKV(P.serial <= P.arrived / P.n, "barrier-two-serial", P.serial); } return a; }
/* n threads, several rounds; or a multiple of n threads, one barrier; or more threads than it counts, coming again and again */
SCENARIO(barrier_rounds)
{
  if (sim_choice(3) == 2) {
    int n = 1 + sim_choice(3), t = n + sim_choice(5), r, tot = n * (1 + sim_choice(6));
    P.n = n; pool = tot; r = pthread_barrier_init(&P.b, NULL, n); CHECKV(r == 0, "barrier-init", r);
    for (int i = 0; i < t; i++) P.t[i] = xcreate(b_pool, 0);
    for (int i = 0; i < t; i++) xjoin(P.t[i]);
    CHECKV(P.serial == tot / n, "barrier-serial-count", P.serial); CHECK(P.arrived == tot && P.left == tot, "barrier-count");
    r = pthread_barrier_destroy(&P.b); CHECKV(r == 0, "barrier-destroy", r); sim_probe("more_than_counted"); return;
  }
  int n = 1 + sim_choice(4), groups = 1, rounds = 1 + sim_choice(4), r, tot;
  if (n > 1 && sim_choice(3) == 2) { groups = 2; rounds = 1; }
  P.n = n; tot = n * groups;
  r = pthread_barrier_init(&P.b, NULL, n); CHECKV(r == 0, "barrier-init", r);
  for (int i = 0; i < tot; i++) P.t[i] = xcreate(b_thr, (void *)(size_t)rounds);
  for (int i = 0; i < tot; i++) xjoin(P.t[i]);
  CHECKV(P.serial == rounds * groups, "barrier-serial-count", P.serial);
  CHECK(P.arrived == P.left && P.left == (long)rounds * tot, "barrier-count");
  r = pthread_barrier_destroy(&P.b); CHECKV(r == 0, "barrier-destroy", r);
  r = pthread_barrier_wait(&P.b); CHECKV(r == EINVAL, "barrier-wait-destroyed", r);
}
/* the serial thread may free the barrier as soon as its wait returned */
static void *b_once(void *a)
{
  pthread_barrier_t *b = a;
  sim_add(&P.arrived, 1);
  int r = pthread_barrier_wait(b);
  CHECKV(P.arrived == P.n, "barrier-released-early", P.arrived);
  CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-wait-result", r);
  if (r) {
    long s = sim_add(&P.serial, 1); CHECK(s == 1, "barrier-two-serial");
    /* EBUSY while the others are leaving is fine, but it must end */
    while ((r = pthread_barrier_destroy(b)) == EBUSY) { sim_probe("barrier_busy_leaving"); sched_yield(); }
    CHECKV(r == 0, "barrier-destroy", r);
  }
  return 0;
}
SCENARIO(barrier_serial_destroys)
{
  int n = 2 + sim_choice(3), r; P.n = n;
  r = pthread_barrier_init(&P.b, NULL, n); CHECKV(r == 0, "barrier-init", r);
  for (int i = 1; i < n; i++) P.t[i] = xcreate(b_once, &P.b);
  b_once(&P.b);
  for (int i = 1; i < n; i++) xjoin(P.t[i]);
  CHECK(P.serial == 1, "barrier-serial-count");
}
/* destroying a barrier somebody waits at is refused and harms nobody; a pending
   cancellation does not get a thread out of a barrier */
static void *b_disturbed(void *a) { (void)a; b_wait(); pthread_testcancel(); return (void *)7; }
SCENARIO(barrier_busy)
{
  int n = 2 + sim_choice(3), k = 1 + sim_choice(n - 1), r, c = sim_choice(3), settle = sim_choice(2), rounds = 1 + sim_choice(2); P.n = n;
  r = pthread_barrier_init(&P.b, NULL, n); CHECKV(r == 0, "barrier-init", r);
  for (int q = 0; q < rounds; q++) {
    long base = P.serial; int cancelled[12] = {0};
    for (int i = 0; i < k; i++) P.t[i] = xcreate(b_disturbed, 0);
    if (settle) {
      sim_settle(1);
      r = pthread_barrier_destroy(&P.b); CHECKV(r == EBUSY, "barrier-destroyed-in-use", r); sim_probe("barrier_busy");
    }
    for (int i = 0; i < c && i < k; i++) { r = pthread_cancel(P.t[i]); CHECKV(r == 0, "cancel-result", r); cancelled[i] = 1; }
    if (settle) { sim_settle(1); CHECKV(P.left == (long)q * n, "barrier-released-early", P.left); }
    for (int i = k; i < n; i++) P.t[i] = xcreate(b_disturbed, 0);
    for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECKV(v == (cancelled[i] ? PTHREAD_CANCELED : (void *)7), "join-value", v); }
    CHECKV(P.serial == base + 1, "barrier-serial-count", P.serial);
  }
  r = pthread_barrier_destroy(&P.b); CHECKV(r == 0, "barrier-destroy", r);
}
