#include "common.h"
/* C32: destroying an object in use is refused and harmless. */
static struct { pthread_mutex_t m; pthread_cond_t c; pthread_mutex_t cm; pthread_rwlock_t rw; sem_t s; pthread_barrier_t b; pthread_spinlock_t sp; volatile long held, rel, done, woken, in; int kind, type, rob, pred, nb, stat; } U;
static void u_holder_body(void)
{
  int r;
  switch (U.kind) {
  case 0: { int d = U.type == PTHREAD_MUTEX_RECURSIVE ? 1 + sim_choice(2) : 1;
    for (int i = 0; i < d; i++) { r = pthread_mutex_lock(&U.m); CHECKV(r == 0, "object-unusable", r); }
    if (U.type == PTHREAD_MUTEX_RECURSIVE && sim_choice(2)) { r = pthread_mutex_destroy(&U.m); CHECKV(r == EBUSY, "destroyed-in-use", r); r = pthread_mutex_trylock(&U.m); CHECKV(r == 0, "object-unusable", r); d++; sim_probe("own_recursive_destroy"); }
    U.held = 1; sim_wait_ge(&U.rel, 1); CHECK(U.in == 0, "mutual-exclusion");
    for (int i = 0; i < d; i++) { CHECK(U.in == 0, "mutual-exclusion"); r = pthread_mutex_unlock(&U.m); CHECKV(r == 0, "unlock-after-refused-destroy", r); } break; }
  case 1: U.held = 1; r = pthread_mutex_lock(&U.cm); while (!U.pred) { r = pthread_cond_wait(&U.c, &U.cm); CHECKV(r == 0, "wait-after-refused-destroy", r); } sim_add(&U.woken, 1); pthread_mutex_unlock(&U.cm); break;
  case 2: r = pthread_rwlock_rdlock(&U.rw); CHECKV(r == 0, "object-unusable", r); U.held = 1; sim_wait_ge(&U.rel, 1); r = pthread_rwlock_unlock(&U.rw); CHECKV(r == 0, "unlock-after-refused-destroy", r); break;
  case 3: U.held = 1; do r = sem_wait(&U.s); while (r && errno == EINTR); CHECKV(r == 0, "wait-after-refused-destroy", errno); break;
  case 4: U.held = 1; r = pthread_barrier_wait(&U.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "wait-after-refused-destroy", r); break;
  default: r = pthread_spin_lock(&U.sp); CHECKV(r == 0, "object-unusable", r); U.held = 1; sim_wait_ge(&U.rel, 1); r = pthread_spin_unlock(&U.sp); CHECKV(r == 0, "unlock-after-refused-destroy", r); break;
  }
}
static void *u_holder(void *a) { u_holder_body(); sim_add(&U.done, 1); return a; }
static void *u_destroyer(void *a)
{
  int r;
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    switch (U.kind) {
    case 0: r = pthread_mutex_destroy(&U.m); break;
    case 1: r = pthread_cond_destroy(&U.c); break;
    case 2: r = pthread_rwlock_destroy(&U.rw); break;
    case 3: r = sem_destroy(&U.s) ? errno : 0; break;
    case 4: r = pthread_barrier_destroy(&U.b); break;
    default: r = pthread_spin_destroy(&U.sp); if (r == EINVAL) r = EBUSY; break;
    }
    CHECKV(r == EBUSY, "destroyed-in-use", r); sim_probe("refused"); sim_yield();
  }
  return a;
}
static void *u_user(void *a)   /* others using it the while */
{
  int r; struct timespec ts;
  for (int n = 1 + sim_choice(2); n > 0; n--) switch (U.kind) {
    case 0: r = pthread_mutex_lock(&U.m); CHECKV(r == 0, "lock-after-refused-destroy", r); CHECK(sim_add(&U.in, 1) == 1, "mutual-exclusion"); sim_yield(); sim_add(&U.in, -1); r = pthread_mutex_unlock(&U.m); CHECKV(r == 0, "unlock-after-refused-destroy", r); break;
    case 1: ts = in_ms(3); r = pthread_mutex_lock(&U.cm); r = pthread_cond_timedwait(&U.c, &U.cm, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "wait-after-refused-destroy", r); pthread_mutex_unlock(&U.cm); break;
    case 2: if (sim_choice(2)) { r = pthread_rwlock_rdlock(&U.rw); CHECKV(r == 0, "lock-after-refused-destroy", r); sim_yield(); r = pthread_rwlock_unlock(&U.rw); CHECKV(r == 0, "unlock-after-refused-destroy", r); } else { r = pthread_rwlock_tryrdlock(&U.rw); if (r == 0) pthread_rwlock_unlock(&U.rw); else CHECKV(r == EBUSY, "lock-after-refused-destroy", r); } break;
    case 3: r = sem_post(&U.s); CHECKV(r == 0, "post-after-refused-destroy", errno); do r = sem_wait(&U.s); while (r && errno == EINTR); CHECKV(r == 0, "wait-after-refused-destroy", errno); break;
    case 4: return a;
    default: r = pthread_spin_lock(&U.sp); CHECKV(r == 0, "lock-after-refused-destroy", r); CHECK(sim_add(&U.in, 1) == 1, "mutual-exclusion"); sim_add(&U.in, -1); r = pthread_spin_unlock(&U.sp); CHECKV(r == 0, "unlock-after-refused-destroy", r); break;
  }
  return a;
}
SCENARIO(destroy_in_use)
{
  static const int ty[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE};
  pthread_t h, d[2], u[2]; int r, nd = 1 + sim_choice(2), nu = sim_choice(3); pthread_mutexattr_t ma;
  U.kind = sim_choice(6); U.type = ty[sim_choice(3)]; U.rob = sim_choice(2); U.stat = sim_choice(2);
  switch (U.kind) {
  case 0: if (U.stat && !U.rob) { pthread_mutex_t a = PTHREAD_MUTEX_INITIALIZER, b = PTHREAD_ERRORCHECK_MUTEX_INITIALIZER, c = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; U.m = U.type == PTHREAD_MUTEX_NORMAL ? a : U.type == PTHREAD_MUTEX_ERRORCHECK ? b : c; break; }
    pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, U.type); if (U.rob) pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&U.m, &ma); CHECKV(r == 0, "setup", r); pthread_mutexattr_destroy(&ma); break;
  case 1: pthread_mutex_init(&U.cm, NULL); if (U.stat) U.c = PTHREAD_COND_INITIALIZER; else pthread_cond_init(&U.c, NULL); break;
  case 2: if (U.stat) U.rw = PTHREAD_RWLOCK_INITIALIZER; else pthread_rwlock_init(&U.rw, NULL); break;
  case 3: sem_init(&U.s, 0, 0); break;
  case 4: U.nb = 2; pthread_barrier_init(&U.b, NULL, 2); break;
  default: sim_set_ncpu(1 + sim_choice(2)); if (U.stat) U.sp = PTHREAD_SPINLOCK_INITIALIZER; else pthread_spin_init(&U.sp, 0); break;
  }
  h = xcreate(u_holder, 0); sim_wait_ge(&U.held, 1);
  if (U.kind == 1 || U.kind == 3 || U.kind == 4) sim_settle(0);   /* it waits for good */
  if (U.kind == 3) nu = 0;
  for (int i = 0; i < nu; i++) u[i] = xcreate(u_user, 0);
  for (int i = 0; i < nd; i++) d[i] = xcreate(u_destroyer, 0);
  for (int i = 0; i < nd; i++) xjoin(d[i]);
  if (U.kind == 1) { for (int i = 0; i < nu; i++) xjoin(u[i]); }
  U.rel = 1;
  if (U.kind == 1) { pthread_mutex_lock(&U.cm); U.pred = 1; if (sim_choice(2)) r = pthread_cond_broadcast(&U.c); else r = pthread_cond_signal(&U.c); CHECKV(r == 0, "signal-after-refused-destroy", r); pthread_mutex_unlock(&U.cm); }
  if (U.kind == 3) { r = sem_post(&U.s); CHECKV(r == 0, "post-after-refused-destroy", errno); }
  if (U.kind == 4) { r = pthread_barrier_wait(&U.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "wait-after-refused-destroy", r); }
  if (U.kind != 1) for (int i = 0; i < nu; i++) xjoin(u[i]);
  xjoin(h);
  switch (U.kind) {
  case 0: r = pthread_mutex_lock(&U.m); CHECKV(r == 0, "lock-after-refused-destroy", r); r = pthread_mutex_unlock(&U.m); CHECKV(r == 0, "unlock-after-refused-destroy", r); r = pthread_mutex_destroy(&U.m); break;
  case 1: r = pthread_cond_destroy(&U.c); break;
  case 2: r = pthread_rwlock_wrlock(&U.rw); CHECKV(r == 0, "lock-after-refused-destroy", r); r = pthread_rwlock_unlock(&U.rw); CHECKV(r == 0, "unlock-after-refused-destroy", r); r = pthread_rwlock_destroy(&U.rw); break;
  case 3: { int v = -9; sem_getvalue(&U.s, &v); CHECKV(v == 0, "count-after-refused-destroy", v); r = sem_destroy(&U.s) ? errno : 0; break; }
  case 4: r = pthread_barrier_destroy(&U.b); break;
  default: r = pthread_spin_trylock(&U.sp); CHECKV(r == 0, "lock-after-refused-destroy", r); pthread_spin_unlock(&U.sp); r = pthread_spin_destroy(&U.sp); break;
  }
  CHECKV(r == 0, "final-destroy", r);
  /* a destroyed object is refused, not used */
  switch (U.kind) {
  case 0: r = pthread_mutex_lock(&U.m); break;
  case 1: case 3: r = EINVAL; break;   /* undefined, and not checked by the library */
  case 2: r = pthread_rwlock_rdlock(&U.rw); break;
  case 4: r = pthread_barrier_wait(&U.b); break;
  default: r = pthread_spin_lock(&U.sp); break;
  }
  CHECKV(r == EINVAL, "used-after-destroy", r);
}
