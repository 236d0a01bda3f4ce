#include "common.h"
/* C12: pthread_once. */
static struct { pthread_once_t o[2]; volatile long running[2], done[2], started[2]; sem_t go; int mode, victims; volatile long dead; } P;
static pthread_once_t O0 = PTHREAD_ONCE_INIT;
static void body(int k);
static void init1(void) { body(1); }
static void body(int k)
{
  CHECK(sim_add(&P.running[k], 1) == 1, "once-two-running");
  CHECK(P.done[k] == 0, "once-run-again");
  sim_add(&P.started[k], 1);
  sim_stall();
  if (k == 0 && P.mode == 3) { int r = pthread_once(&P.o[1], init1); CHECKV(r == 0, "once-result", r); CHECK(P.done[1] == 1, "once-not-done"); }
  if (P.mode == 1) { sim_add(&P.running[k], -1); pthread_testcancel(); sim_add(&P.running[k], 1); }
  if (P.mode == 2 && sim_add(&P.dead, 1) <= P.victims) { sim_add(&P.running[k], -1); sim_probe("once_init_exited"); pthread_exit((void *)5); }
  if (P.mode == 4) { struct timespec ts; sim_add(&P.running[k], -1); do ts = in_ms(2); while (sem_timedwait(&P.go, &ts) && errno == EINTR); sim_add(&P.running[k], 1); }
  sim_add(&P.running[k], -1);
  sim_add(&P.done[k], 1);
}
static void init0(void) { body(0); }
static void *o_thr(void *a)
{
  int k = IDX(a), r, n = 1 + sim_choice(2);
  for (int i = 0; i < n; i++) {
    r = pthread_once(&P.o[k], k ? init1 : init0); CHECKV(r == 0, "once-result", r);
    CHECKV(P.done[k] == 1, "once-not-done", P.done[k]); CHECK(P.running[k] == 0, "once-returned-early");
  }
  return (void *)1;
}
SCENARIO(once)
{
  pthread_t t[6]; int n = 1 + sim_choice(5), r, c[6] = {0}; void *v;
  P.o[0] = P.o[1] = O0;
  P.mode = sim_choice(5); P.victims = sim_choice(3);
  CHECK(sem_init(&P.go, 0, 0) == 0, "sem-init");
  for (int i = 0; i < n; i++) t[i] = xcreate(o_thr, (void *)(size_t)(P.mode == 3 ? sim_choice(2) : 0));
  if (P.mode == 1 || P.mode == 4) for (int i = sim_choice(n + 1); i > 0; i--) { int j = sim_choice(n); sim_stall(); r = pthread_cancel(t[j]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); c[j] = 1; }
  for (int i = 0; i < n; i++) {
    v = xjoin(t[i]);
    if (v == PTHREAD_CANCELED) { CHECK(c[i], "cancel-spurious"); sim_probe("once_init_cancelled"); }
    else if (v == (void *)5) CHECK(P.mode == 2, "join-value"); else CHECKV(v == (void *)1, "join-value", v);
  }
  o_thr(0);            /* whatever happened, it works now, exactly once */
  CHECKV(P.done[0] == 1, "once-not-done", P.done[0]);
  if (P.mode == 0) CHECKV(P.started[0] == 1, "once-run-again", P.started[0]);
  CHECK(pthread_once(NULL, init0) == EINVAL && pthread_once(&P.o[0], NULL) == EINVAL, "once-einval");
}
