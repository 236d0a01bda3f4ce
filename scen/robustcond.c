#include "common.h"
/* C03, C05: waiting on a condition variable with a robust mutex whose owner dies meanwhile */
#define NT 4
static struct { pthread_mutex_t m; pthread_cond_t c; volatile long in, tokens, took, dirty, deaths, reported, cancelled, req[NT], got[NT]; int how[NT]; } R;
static void enter(int r)
{
  CHECKV(r == 0 || r == EOWNERDEAD, "robust-lock-result", r);
  CHECKV(sim_add(&R.in, 1) == 1, "robust-exclusion", R.in);
  if (r == EOWNERDEAD) { CHECK(R.dirty, "owner-death-reported-again"); sim_add(&R.reported, 1); r = pthread_mutex_consistent(&R.m); CHECKV(r == 0, "consistent-result", r); R.dirty = 0; sim_probe("reported"); }
  else CHECK(!R.dirty, "owner-death-not-reported");
}
static void leave(void) { int r; sim_add(&R.in, -1); r = pthread_mutex_unlock(&R.m); CHECKV(r == 0, "robust-unlock-result", r); }
static void handler(void *a)
{
  int i = IDX(a), r;
  CHECK(R.req[i], "cancel-spurious"); CHECKV(sim_add(&R.in, 1) == 1, "robust-exclusion", R.in); sim_add(&R.cancelled, 1);
  if (R.dirty) { r = pthread_mutex_consistent(&R.m); CHECKV(r == 0, "consistent-result", r); R.dirty = 0; sim_add(&R.reported, 1); sim_probe("reported_to_cancelled"); }
  leave();
}
static void *worker(void *a)
{
  int i = IDX(a), r;
  enter(pthread_mutex_lock(&R.m));
  for (int k = sim_choice(2); k > 0; k--) { leave(); sim_yield(); enter(pthread_mutex_lock(&R.m)); }
  if (R.how[i] == 2) goto die;      /* without ever waiting */
  pthread_cleanup_push(handler, a);
  while (!R.tokens) {
    int timed = sim_choice(3) == 0; struct timespec ts = in_ms(sim_choice(3) * 20 - 1);
    sim_add(&R.in, -1);
    r = timed ? pthread_cond_timedwait(&R.c, &R.m, &ts) : pthread_cond_wait(&R.c, &R.m);
    if (timed && r == ETIMEDOUT) { r = 0; sim_probe("timed_out"); }
    CHECKV(r == 0 || r == EOWNERDEAD, "cond-wait-result", r);
    if (r == EOWNERDEAD) sim_probe("reported_by_wait");
    enter(r);
  }
  pthread_cleanup_pop(0);
  sim_add(&R.tokens, -1); sim_add(&R.took, 1); R.got[i] = 1;
  if (R.how[i]) {
die:
    R.dirty = 1; sim_add(&R.deaths, 1); sim_add(&R.in, -1);
    if (sim_choice(2)) pthread_exit(a);
    return a;
  }
  leave();
  return a;
}
SCENARIO(cond_robust)
{
  pthread_mutexattr_t at; pthread_t t[NT]; int n = 2 + sim_choice(NT - 1), r, k = sim_choice(3), posted = 0, canc = 0;
  CHECK(pthread_mutexattr_init(&at) == 0 && pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST) == 0, "setup");
  pthread_mutexattr_settype(&at, k == 0 ? PTHREAD_MUTEX_NORMAL : k == 1 ? PTHREAD_MUTEX_ERRORCHECK : PTHREAD_MUTEX_RECURSIVE);
  CHECK(pthread_mutex_init(&R.m, &at) == 0 && pthread_cond_init(&R.c, NULL) == 0, "setup");
  for (int i = 0; i < n; i++) { R.how[i] = sim_choice(4); if (R.how[i] == 3) R.how[i] = 0; t[i] = xcreate(worker, (void *)(size_t)i); }
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) switch (sim_choice(4)) {
    case 0: if (R.how[i] == 0) { R.req[i] = 1; canc++; r = pthread_cancel(t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); } break;
    case 1: enter(pthread_mutex_lock(&R.m)); sim_add(&R.tokens, 1); posted++; if (sim_choice(2)) { r = pthread_cond_signal(&R.c); CHECKV(r == 0, "signal-result", r); leave(); } else { leave(); r = pthread_cond_broadcast(&R.c); CHECKV(r == 0, "signal-result", r); } break;
    case 2: sim_stall(); break;
    default: break;
  }
  enter(pthread_mutex_lock(&R.m)); sim_add(&R.tokens, n); posted += n; leave(); r = pthread_cond_broadcast(&R.c); CHECKV(r == 0, "signal-result", r);
  for (int i = 0; i < n; i++) { void *v = xjoin(t[i]); CHECKV(v == (void *)(size_t)i || (v == PTHREAD_CANCELED && R.req[i]), "join-value", v); }
  sim_faults(0);
  CHECKV(R.took + R.tokens == posted, "tokens", R.took);
  r = pthread_mutex_lock(&R.m); enter(r); CHECKV(R.deaths == R.reported, "owner-deaths-reported", R.reported); leave();
  r = pthread_cond_destroy(&R.c); CHECKV(r == 0, "cond-destroy", r);
  r = pthread_mutex_destroy(&R.m); CHECKV(r == 0, "mutex-destroy", r);
  pthread_mutexattr_destroy(&at);
}
