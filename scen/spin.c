#include "common.h"
/* C11: spin locks, on one processor (mutex inside) and several. */
static struct { pthread_spinlock_t l; volatile long in, total; volatile int plain; } P;
static void *s_thr(void *a)
{
  int k = IDX(a), r;
  while (k > 0) {
    if (sim_choice(3) == 2) {
      r = pthread_spin_trylock(&P.l);
      if (r) { CHECKV(r == EBUSY, "spin-trylock-result", r); sim_probe("spin_busy"); sim_yield(); continue; }
    } else { r = pthread_spin_lock(&P.l); CHECKV(r == 0, "spin-lock-result", r); }
    CHECK(sim_add(&P.in, 1) == 1, "spin-two-holders");
    P.plain++;
    if (sim_choice(4) == 3) sim_yield();
    CHECK(sim_add(&P.in, -1) == 0, "spin-two-holders");
    r = pthread_spin_unlock(&P.l); CHECKV(r == 0, "spin-unlock-result", r);
    k--; sim_add(&P.total, 1);
  }
  return 0;
}
SCENARIO(spin_excl)
{
  pthread_t t[5]; int n = 1 + sim_choice(4), r, k[5], sum = 0;
  static const int cp[] = {2, 1, 3}; sim_set_ncpu(cp[sim_choice(3)]);
  int st = sim_choice(3);
  if (st == 2) P.l = PTHREAD_SPINLOCK_INITIALIZER; else { r = pthread_spin_init(&P.l, PTHREAD_PROCESS_PRIVATE); CHECKV(r == 0, "spin-init", r); }
  for (int i = 0; i < n; i++) { sum += k[i] = 1 + sim_choice(3); t[i] = xcreate(s_thr, (void *)(size_t)k[i]); }
  if (sim_choice(2)) { int m = 1 + sim_choice(2); sum += m; s_thr((void *)(size_t)m); }
  for (int i = 0; i < n; i++) xjoin(t[i]);
  CHECKV(P.plain == sum && P.total == sum, "spin-lost-update", P.plain);
  /* try on a held lock fails, destroy of a held lock is refused without effect */
  r = pthread_spin_lock(&P.l); CHECKV(r == 0, "spin-lock-result", r);
  t[0] = xcreate(s_thr, (void *)1);
  sim_yield();
  r = pthread_spin_destroy(&P.l); CHECKV(r != 0, "spin-destroyed-in-use", r);
  r = pthread_spin_trylock(&P.l); CHECKV(r == EBUSY, "spin-trylock-result", r);
  r = pthread_spin_unlock(&P.l); CHECKV(r == 0, "spin-unlock-result", r);
  xjoin(t[0]);
  r = pthread_spin_trylock(&P.l); CHECKV(r == 0, "spin-not-free", r);
  r = pthread_spin_unlock(&P.l); CHECKV(r == 0, "spin-unlock-result", r);
  r = pthread_spin_destroy(&P.l); CHECKV(r == 0, "spin-destroy", r);
}
/* the last user destroys the lock right after unlocking it */
static volatile long refs;
static void *s_last(void *a)
{
  int r = pthread_spin_lock(&P.l); CHECKV(r == 0, "spin-lock-result", r);
  int last = --refs == 0;
  r = pthread_spin_unlock(&P.l); CHECKV(r == 0, "spin-unlock-result", r);
  if (last) { r = pthread_spin_destroy(&P.l); CHECKV(r == 0, "spin-destroy", r); }
  return 0;
}
SCENARIO(spin_last_user)
{
  pthread_t t[4]; int n = 2 + sim_choice(3), r;
  static const int cp[] = {2, 1}; sim_set_ncpu(cp[sim_choice(2)]);
  refs = n; r = pthread_spin_init(&P.l, PTHREAD_PROCESS_PRIVATE); CHECKV(r == 0, "spin-init", r);
  for (int i = 1; i < n; i++) t[i] = xcreate(s_last, 0);
  s_last(0);
  for (int i = 1; i < n; i++) xjoin(t[i]);
  CHECK(refs == 0, "spin-lost-update");
}
