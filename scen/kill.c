#include "common.h"
#include <signal.h>
/* C26: pthread_kill. */
static struct { volatile long up[4], never, spin[4], fin, inh[4]; pthread_t t[4], self[4]; int kind[4]; } K;
/* a cancelled thread that never leaves its handler: what the kill is for */
static void k_stuck(void *a) { int i = IDX(a); K.inh[i] = 1; if (K.kind[i] == 4) sim_wait_ge(&K.never, 1); for (;;) { K.spin[i]++; sim_yield(); } }
static void *k_thr(void *a)
{
  int i = IDX(a); K.self[i] = pthread_self();
  if (K.kind[i] == 2) { K.up[i] = 1; return (void *)(size_t)(100 + i); }
  K.up[i] = 1;
  if (K.kind[i] == 0) sim_wait_ge(&K.never, 1);
  if (K.kind[i] == 1) for (;;) { K.spin[i]++; sim_yield(); }
  if (K.kind[i] >= 4) { pthread_cleanup_push(k_stuck, a); if (K.kind[i] == 6) pthread_exit((void *)(size_t)(300 + i)); for (;;) { pthread_testcancel(); sim_yield(); } pthread_cleanup_pop(0); }
  if (K.kind[i] == 3) { sim_wait_ge(&K.fin, 1); return (void *)(size_t)(200 + i); }
  return 0;
}
static void *k_self(void *a) { static const int sg[] = {SIGTERM, SIGINT, SIGABRT, SIGBREAK}; int r = pthread_kill(pthread_self(), sg[IDX(a)]); sim_violation("kill-self-returned", r, 0); }
static void *k_null(void *a) { (void)a; sim_yield(); return NULL; }
static void *k_joiner(void *a) { void *v = (void *)0x77; int r = pthread_join(K.t[IDX(a)], &v); CHECKV(r == 0, "join-failed", r); return v; }
SCENARIO(kill)
{
  static const int sg[] = {SIGTERM, SIGINT, SIGABRT, SIGBREAK, SIGSEGV, SIGILL, 99, -1, 0}; int n = 1 + sim_choice(4), r, dead[4] = {0};
  for (int i = 0; i < n; i++) if ((K.kind[i] = sim_choice(6)) == 2) K.t[i] = xcreate(k_thr, (void *)(size_t)i);
  sim_settle(0);
  for (int i = 0; i < n; i++) if (K.kind[i] != 2) K.t[i] = xcreate(k_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) { sim_wait_ge(&K.up[i], 1); if (K.kind[i] >= 4) { r = pthread_cancel(K.t[i]); CHECKV(r == 0, "cancel-result", r); sim_wait_ge(&K.inh[i], 1); sim_probe("kill_in_handler"); } }
  int early = sim_choice(2); pthread_t j[4];
  for (int i = 0; i < n; i++) {
    if (early) j[i] = xcreate(k_joiner, (void *)(size_t)i);
    else for (int q = sim_choice(3); q > 0; q--) {
      int s = sg[sim_choice(9)]; r = pthread_kill(K.t[i], s);
      if (s == 0 || s == SIGTERM || s == SIGINT || s == SIGABRT || s == SIGBREAK) CHECKV(r == 0, "kill-result", r); else CHECKV(r == EINVAL, "kill-result", r);
      if (s > 0 && r == 0) dead[i] = 1;
    }
    if (early && K.kind[i] == 2) continue;
    if (!dead[i] && (K.kind[i] < 2 || K.kind[i] >= 4)) { r = pthread_kill(K.t[i], SIGTERM); CHECKV(r == 0, "kill-result", r); dead[i] = 1; }
    long s0 = K.spin[i]; sim_yield(); (void)s0;
  }
  K.fin = 1;
  for (int i = 0; i < n; i++) {
    void *v = early ? xjoin(j[i]) : xjoin(K.t[i]);
    void *want = K.kind[i] == 2 ? (void *)(size_t)(100 + i) : dead[i] ? PTHREAD_CANCELED : (void *)(size_t)(200 + i);
    CHECKV(v == want, "killed-exit-value", v);
    r = pthread_kill(K.t[i], 0); CHECKV(r == ESRCH, "stale-id", r); r = pthread_kill(K.t[i], SIGTERM); CHECKV(r == ESRCH, "stale-id", r);
    if (sim_choice(2)) { pthread_t u = xcreate(k_null, 0), w = xcreate(k_null, 0); r = pthread_kill(K.t[i], SIGTERM); CHECKV(r == ESRCH, "stale-id", r); CHECKV(xjoin(u) == NULL, "join-value", 0); CHECKV(xjoin(w) == NULL, "join-value", 1); }
  }
  if (sim_choice(2)) { pthread_t s = xcreate(k_self, (void *)(size_t)sim_choice(4)); void *v = xjoin(s); CHECKV(v == PTHREAD_CANCELED, "killed-exit-value", v); sim_probe("self_kill"); }
  CHECK(sim_live_threads() == 1, "threads-left");
}
/* the killer and the joiner are different threads: what the joiner gets, and what comes after in a recycled thread */
static void *k_killer(void *a) { int r = pthread_kill(K.t[0], SIGTERM); (void)a; CHECKV(r == 0, "kill-result", r); return 0; }
SCENARIO(kill_join)
{
  pthread_t k; K.kind[0] = sim_choice(2); K.t[0] = xcreate(k_thr, 0); sim_wait_ge(&K.up[0], 1);
  k = xcreate(k_killer, 0);
  void *v = xjoin(K.t[0]); CHECKV(v == PTHREAD_CANCELED, "killed-exit-value", v);
  for (int q = 0; q < 3; q++) { pthread_t u = xcreate(k_null, 0); v = xjoin(u); CHECKV(v == NULL, "join-value", v); }
  xjoin(k);
}
