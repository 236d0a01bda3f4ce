#include "common.h"
#include <windows.h>
#include <signal.h>
/* C35: invalid arguments are refused with the documented error and disturb nothing */
static struct { pthread_mutex_t m, dm; pthread_cond_t c, dc; pthread_rwlock_t l, dl; pthread_spinlock_t s, ds; pthread_barrier_t b, db; sem_t q, dq; volatile long in, ran; pthread_t me; } G;
static void PTW32_CDECL onceroutine(void) { sim_add(&G.ran, 1); }
#define REF(expr, want) do { int r_ = (expr); CHECKV(r_ == (want), "not-refused", r_); } while (0)
#define REFE(expr, want) do { errno = 0; int r_ = (expr); CHECKV(r_ == -1 && errno == (want), "not-refused", errno); } while (0)
static void refuse_one(int op)
{
  struct timespec ts = in_ms(20); int v = 77; pthread_mutexattr_t ma = 0; pthread_once_t once = PTHREAD_ONCE_INIT; struct sched_param sp = { 0 }; pthread_key_t key = 0; pthread_condattr_t ca = 0; pthread_rwlockattr_t ra = 0; pthread_barrierattr_t ba = 0; pthread_attr_t at = 0; struct timespec neg = { -1, 0 };
  switch (op) {
  /* destroyed objects */
  case 0: REF(pthread_mutex_lock(&G.dm), EINVAL); break;
  case 1: REF(pthread_mutex_trylock(&G.dm), EINVAL); break;
  case 2: REF(pthread_mutex_timedlock(&G.dm, &ts), EINVAL); break;
  case 3: REF(pthread_mutex_consistent(&G.dm), EINVAL); break;
  case 4: REF(pthread_mutex_destroy(&G.dm), EINVAL); break;
  case 5: REF(pthread_cond_signal(&G.dc), EINVAL); break;
  case 6: REF(pthread_cond_broadcast(&G.dc), EINVAL); break;
  case 7: REF(pthread_cond_destroy(&G.dc), EINVAL); break;
  case 8: REF(pthread_mutex_lock(&G.m), 0); CHECK(sim_add(&G.in, 1) == 1, "refuse-exclusion"); REF(sim_choice(2) ? pthread_cond_wait(&G.dc, &G.m) : pthread_cond_timedwait(&G.dc, &G.m, &ts), EINVAL); REF(sim_choice(2) ? pthread_cond_wait(NULL, &G.m) : pthread_cond_timedwait(NULL, &G.m, &ts), EINVAL); CHECK(sim_add(&G.in, -1) == 0, "refuse-exclusion"); REF(pthread_mutex_unlock(&G.m), 0); break;
  case 9: REF(pthread_rwlock_rdlock(&G.dl), EINVAL); REF(pthread_rwlock_rdlock(NULL), EINVAL); break;
  case 10: REF(pthread_rwlock_wrlock(&G.dl), EINVAL); REF(pthread_rwlock_wrlock(NULL), EINVAL); break;
  case 11: REF(pthread_rwlock_tryrdlock(&G.dl), EINVAL); REF(pthread_rwlock_tryrdlock(NULL), EINVAL); break;
  case 12: REF(pthread_rwlock_trywrlock(&G.dl), EINVAL); REF(pthread_rwlock_trywrlock(NULL), EINVAL); break;
  case 13: REF(pthread_rwlock_timedrdlock(&G.dl, &ts), EINVAL); REF(pthread_rwlock_timedrdlock(NULL, &ts), EINVAL); break;
  case 14: REF(pthread_rwlock_timedwrlock(&G.dl, &ts), EINVAL); REF(pthread_rwlock_timedwrlock(NULL, &ts), EINVAL); break;
  case 15: REF(pthread_rwlock_unlock(&G.dl), EINVAL); REF(pthread_rwlock_unlock(NULL), EINVAL); break;
  case 16: REF(pthread_rwlock_destroy(&G.dl), EINVAL); REF(pthread_rwlock_destroy(NULL), EINVAL); break;
  case 17: REF(pthread_spin_lock(&G.ds), EINVAL); REF(pthread_spin_lock(NULL), EINVAL); break;
  case 18: REF(pthread_spin_trylock(&G.ds), EINVAL); REF(pthread_spin_trylock(NULL), EINVAL); break;
  case 19: REF(pthread_spin_unlock(&G.ds), EINVAL); REF(pthread_spin_unlock(NULL), EINVAL); break;
  case 20: REF(pthread_spin_destroy(&G.ds), EINVAL); REF(pthread_spin_destroy(NULL), EINVAL); break;
  case 21: REF(pthread_barrier_wait(&G.db), EINVAL); REF(pthread_barrier_wait(NULL), EINVAL); break;
  case 22: REF(pthread_barrier_destroy(&G.db), EINVAL); REF(pthread_barrier_destroy(NULL), EINVAL); break;
  case 23: { pthread_barrier_t was = G.db; REF(pthread_barrier_init(&G.db, NULL, 0), EINVAL); CHECK(G.db == was, "refused-init-stored"); } REF(pthread_barrier_init(NULL, NULL, 1), EINVAL); break;
  /* semaphores */
  case 24: { sem_t was = G.q; REFE(sem_init(sim_choice(2) ? &G.dq : &G.q, 1, 0), EPERM); CHECK(G.q == was, "refused-init-stored"); break; }
  case 25: { sem_t was = G.q; REFE(sem_init(sim_choice(2) ? &G.dq : &G.q, 0, (unsigned)SEM_VALUE_MAX + 1), EINVAL); CHECK(G.q == was, "refused-init-stored"); break; }
  case 26: REFE(sem_post_multiple(&G.q, sim_choice(2) ? 0 : -3), EINVAL); break;
  case 27: REFE(sem_destroy(NULL), EINVAL); break;
  /* condition variables, null */
  case 28: REF(pthread_cond_signal(NULL), EINVAL); REF(pthread_cond_broadcast(NULL), EINVAL); break;
  case 29: REF(pthread_cond_destroy(NULL), EINVAL); REF(pthread_cond_init(NULL, NULL), EINVAL); break;
  case 30: REF(pthread_mutex_init(NULL, NULL), EINVAL); REF(pthread_rwlock_init(NULL, NULL), EINVAL); REF(pthread_spin_init(NULL, 0), EINVAL); break;
  /* cancellation state */
  case 31: { static const int wrong[] = { -1, 2, 3, 77, INT_MAX, INT_MIN }; int k = wrong[sim_choice(6)]; v = 77; REF(pthread_setcancelstate(k, &v), EINVAL); REF(pthread_setcanceltype(k, &v), EINVAL);
      REF(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &v), 0); CHECKV(v == PTHREAD_CANCEL_ENABLE, "refused-but-changed", v); REF(pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &v), 0); CHECKV(v == PTHREAD_CANCEL_DEFERRED, "refused-but-changed", v); break; }
  /* once */
  case 32: { long n = G.ran; REF(pthread_once(NULL, onceroutine), EINVAL); REF(pthread_once(&once, NULL), EINVAL); REF(pthread_once(&once, onceroutine), 0); CHECK(G.ran > n, "once-not-run"); break; }
  /* scheduling */
  case 33: { static const int wrong[] = { -1, SCHED_MAX + 1, 77, INT_MAX, INT_MIN }; int k = wrong[sim_choice(5)]; REFE(sched_get_priority_max(k), EINVAL); REFE(sched_get_priority_min(k), EINVAL); REF(pthread_setschedparam(pthread_self(), k, &sp), EINVAL); break; }
  case 34: sp.sched_priority = sim_choice(2) ? sched_get_priority_max(SCHED_OTHER) + 1 : sched_get_priority_min(SCHED_OTHER) - 1; REF(pthread_setschedparam(pthread_self(), SCHED_OTHER, &sp), EINVAL); sp.sched_priority = 99; REF(pthread_getschedparam(pthread_self(), &v, &sp), 0); CHECKV(sp.sched_priority == 0 && v == SCHED_OTHER, "refused-but-changed", sp.sched_priority); break;
  case 35: REF(pthread_setschedparam(pthread_self(), sim_choice(2) ? SCHED_FIFO : SCHED_RR, &sp), ENOTSUP); REF(pthread_getschedparam(pthread_self(), NULL, &sp), EINVAL); break;
  case 36: REF(pthread_setconcurrency(-1 - sim_choice(3)), EINVAL); break;
  case 37: { struct timespec d = { 3000000 + sim_choice(2) * 1000000000LL, 0 }; REF(pthread_delay_np(&d), EINVAL); REF(pthread_delay_np(NULL), EINVAL); break; }
  /* attribute objects that are not, or no longer, initialised */
  case 38: REF(pthread_mutexattr_destroy(&ma), EINVAL); REF(pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_NORMAL), EINVAL); REF(pthread_mutexattr_gettype(&ma, &v), EINVAL); REF(pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST), EINVAL); REF(pthread_mutexattr_getrobust(&ma, &v), EINVAL); REF(pthread_mutexattr_setpshared(&ma, 0), EINVAL); REF(pthread_mutexattr_getpshared(&ma, &v), EINVAL); break;
  case 39: REF(pthread_mutexattr_destroy(NULL), EINVAL); REF(pthread_condattr_destroy(NULL), EINVAL); REF(pthread_rwlockattr_destroy(NULL), EINVAL); REF(pthread_barrierattr_destroy(NULL), EINVAL); break;
  case 40: REF(pthread_condattr_destroy(&ca), EINVAL); REF(pthread_rwlockattr_destroy(&ra), EINVAL); REF(pthread_barrierattr_destroy(&ba), EINVAL); break;
  case 41: REF(pthread_attr_destroy(&at), EINVAL); REF(pthread_attr_setdetachstate(&at, 0), EINVAL); REF(pthread_attr_setstacksize(&at, 65536), EINVAL); REF(pthread_attr_init(NULL), EINVAL); break;
  case 42: { void *x = (void *)0x77; int want = pthread_equal(pthread_self(), G.me) ? EINVAL : EDEADLK; REF(pthread_join(pthread_self(), &x), want); REF(pthread_tryjoin_np(pthread_self(), &x), want); REF(pthread_timedjoin_np(pthread_self(), &x, &ts), want); CHECK(x == (void *)0x77, "refused-but-written"); break; }
  case 43: { struct sched_param q = { 77 }; REF(pthread_getschedparam(pthread_self(), &v, &q), 0); v = 77; REF(pthread_setconcurrency(0), 0); CHECK(pthread_getconcurrency() == 0, "refused-but-changed"); break; }
  /* named semaphores are not supported */
  case 44: { sem_t was = G.q; errno = 0; CHECKV(sem_open("/name", 0) == SEM_FAILED && errno == ENOSYS, "not-refused", errno); REFE(sem_close(&G.q), ENOSYS); REFE(sem_unlink("/name"), ENOSYS); CHECK(G.q == was, "refused-but-changed"); break; }
  default: CHECK(pthread_getspecific(key) == NULL, "not-refused"); break;
  }
}

static void *r_thr(void *a)
{
  for (int n = 1 + sim_choice(6); n > 0; n--) {
    int r; refuse_one(sim_choice(46));
    switch (sim_choice(7)) {       /* what is valid keeps working next to it */
    case 0: REF(pthread_mutex_lock(&G.m), 0); CHECK(sim_add(&G.in, 1) == 1, "refuse-exclusion"); sim_yield(); CHECK(sim_add(&G.in, -1) == 0, "refuse-exclusion"); REF(pthread_mutex_unlock(&G.m), 0); break;
    case 1: REF(pthread_rwlock_rdlock(&G.l), 0); sim_yield(); REF(pthread_rwlock_unlock(&G.l), 0); break;
    case 2: REF(pthread_spin_lock(&G.s), 0); REF(pthread_spin_unlock(&G.s), 0); break;
    case 3: r = sem_post(&G.q); CHECKV(r == 0, "sem-post", errno); r = sem_wait(&G.q); CHECKV(r == 0, "sem-wait", errno); break;
    case 4: REF(pthread_cond_signal(&G.c), 0); break;
    default: sim_yield();
    }
  }
  { int r = pthread_barrier_wait(&G.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-wait", r); }
  return a;
}
SCENARIO(attr_refuse)      /* the part of it that C30 is about; what was set before is still set afterwards */
{
  int v = 77, k1 = sim_choice(3), rob = sim_choice(2); pthread_mutexattr_t ma; pthread_condattr_t ca; pthread_rwlockattr_t ra; pthread_barrierattr_t ba; pthread_attr_t at, na = 0; struct sched_param sp; cpu_set_t cs; size_t z;
  REF(pthread_mutexattr_init(&ma), 0); REF(pthread_condattr_init(&ca), 0); REF(pthread_rwlockattr_init(&ra), 0); REF(pthread_barrierattr_init(&ba), 0); REF(pthread_attr_init(&at), 0);
  REF(pthread_mutexattr_settype(&ma, k1), 0); REF(pthread_mutexattr_setrobust(&ma, rob ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED), 0); sp.sched_priority = 2; REF(pthread_attr_setschedparam(&at, &sp), 0); REF(pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED), 0); REF(pthread_attr_setstacksize(&at, 300000), 0);
  for (int n = 4 + sim_choice(12); n > 0; n--) switch (sim_choice(12)) {
  case 0: REF(pthread_mutexattr_getpshared(&ma, NULL), EINVAL); REF(pthread_mutexattr_getpshared(NULL, &v), EINVAL); REF(pthread_mutexattr_setpshared(NULL, 0), EINVAL); break;
  case 1: REF(pthread_condattr_getpshared(&ca, NULL), EINVAL); REF(pthread_condattr_getpshared(NULL, &v), EINVAL); REF(pthread_condattr_setpshared(NULL, 0), EINVAL); break;
  case 2: REF(pthread_rwlockattr_getpshared(&ra, NULL), EINVAL); REF(pthread_rwlockattr_getpshared(NULL, &v), EINVAL); REF(pthread_rwlockattr_setpshared(NULL, 0), EINVAL); break;
  case 3: REF(pthread_barrierattr_getpshared(&ba, NULL), EINVAL); REF(pthread_barrierattr_getpshared(NULL, &v), EINVAL); REF(pthread_barrierattr_setpshared(NULL, 0), EINVAL); break;
  case 4: REF(pthread_mutexattr_gettype(&ma, NULL), EINVAL); REF(pthread_mutexattr_gettype(NULL, &v), EINVAL); REF(pthread_mutexattr_settype(NULL, 0), EINVAL); REF(pthread_mutexattr_settype(&ma, 3 + sim_choice(4)), EINVAL); REF(pthread_mutexattr_settype(&ma, -1 - sim_choice(4)), EINVAL); break;
  case 5: REF(pthread_mutexattr_getrobust(&ma, NULL), EINVAL); REF(pthread_mutexattr_getrobust(NULL, &v), EINVAL); REF(pthread_mutexattr_setrobust(NULL, 0), EINVAL); REF(pthread_mutexattr_setrobust(&ma, 2 + sim_choice(4)), EINVAL); REF(pthread_mutexattr_setrobust(&ma, -1 - sim_choice(4)), EINVAL); break;
  case 6: REF(pthread_attr_getaffinity_np(&at, sizeof cs, NULL), EINVAL); REF(pthread_attr_setaffinity_np(&at, sizeof cs, NULL), EINVAL); REF(pthread_attr_getaffinity_np(NULL, sizeof cs, &cs), EINVAL); CPU_ZERO(&cs); CPU_SET(0, &cs); REF(pthread_attr_setaffinity_np(NULL, sizeof cs, &cs), EINVAL); REF(pthread_attr_setaffinity_np(&na, sizeof cs, &cs), EINVAL); break;
  case 7: REF(pthread_attr_getdetachstate(&at, NULL), EINVAL); REF(pthread_attr_getdetachstate(NULL, &v), EINVAL); REF(pthread_attr_setdetachstate(NULL, 0), EINVAL); REF(pthread_attr_setdetachstate(&at, 55), EINVAL); break;
  case 8: REF(pthread_attr_getinheritsched(&at, NULL), EINVAL); REF(pthread_attr_getinheritsched(NULL, &v), EINVAL); REF(pthread_attr_setinheritsched(NULL, PTHREAD_INHERIT_SCHED), EINVAL); REF(pthread_attr_setinheritsched(&at, 55), EINVAL); break;
  case 9: REF(pthread_attr_getschedparam(&at, NULL), EINVAL); REF(pthread_attr_setschedparam(&at, NULL), EINVAL); REF(pthread_attr_getschedparam(NULL, &sp), EINVAL); sp.sched_priority = sim_choice(2) ? 16 + sim_choice(100) : -16 - sim_choice(100); REF(pthread_attr_setschedparam(&at, &sp), EINVAL); REF(pthread_attr_setschedparam(NULL, &sp), EINVAL); break;
  case 10: REF(pthread_attr_getschedpolicy(&at, NULL), EINVAL); REF(pthread_attr_getschedpolicy(NULL, &v), EINVAL); REF(pthread_attr_setschedpolicy(NULL, SCHED_OTHER), EINVAL); REF(pthread_attr_setschedpolicy(&at, SCHED_FIFO), ENOTSUP); break;
  default: REF(pthread_attr_setstacksize(NULL, 65536), EINVAL); REF(pthread_attr_setstacksize(&na, 65536), EINVAL); REF(pthread_attr_getstacksize(&na, &z), EINVAL); break;
  }
  CHECKV(v == 77, "refused-but-written", v);
  REF(pthread_mutexattr_gettype(&ma, &v), 0); CHECKV(v == k1, "refused-but-changed", v); REF(pthread_mutexattr_getrobust(&ma, &v), 0); CHECKV(v == (rob ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED), "refused-but-changed", v);
  REF(pthread_attr_getschedparam(&at, &sp), 0); CHECKV(sp.sched_priority == 2, "refused-but-changed", sp.sched_priority); REF(pthread_attr_getdetachstate(&at, &v), 0); CHECKV(v == PTHREAD_CREATE_DETACHED, "refused-but-changed", v); REF(pthread_attr_getstacksize(&at, &z), 0); CHECKV(z == 300000, "refused-but-changed", z);
  REF(pthread_attr_getschedpolicy(&at, &v), 0); CHECKV(v == SCHED_OTHER, "refused-but-changed", v); REF(pthread_attr_getinheritsched(&at, &v), 0); CHECKV(v == PTHREAD_EXPLICIT_SCHED, "refused-but-changed", v);
  REF(pthread_mutexattr_destroy(&ma), 0); REF(pthread_condattr_destroy(&ca), 0); REF(pthread_rwlockattr_destroy(&ra), 0); REF(pthread_barrierattr_destroy(&ba), 0); REF(pthread_attr_destroy(&at), 0);
  refuse_one(38); refuse_one(40); refuse_one(41);
}
SCENARIO(refuse)
{
  pthread_t t[3]; int n = sim_choice(4), v, r; G.me = pthread_self();
  CHECK(pthread_mutex_init(&G.m, 0) == 0 && pthread_cond_init(&G.c, 0) == 0 && pthread_rwlock_init(&G.l, 0) == 0 && pthread_spin_init(&G.s, 0) == 0 && pthread_barrier_init(&G.b, 0, n + 1) == 0 && sem_init(&G.q, 0, 0) == 0, "setup");
  if (sim_choice(2)) CHECK(pthread_mutex_init(&G.dm, 0) == 0 && pthread_cond_init(&G.dc, 0) == 0 && pthread_rwlock_init(&G.dl, 0) == 0 && pthread_spin_init(&G.ds, 0) == 0, "setup");
  else { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; pthread_cond_t c = PTHREAD_COND_INITIALIZER; pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; pthread_spinlock_t s = PTHREAD_SPINLOCK_INITIALIZER; G.dm = m; G.dc = c; G.dl = l; G.ds = s; }
  CHECK(pthread_barrier_init(&G.db, 0, 1) == 0, "setup");
  REF(pthread_mutex_destroy(&G.dm), 0); REF(pthread_cond_destroy(&G.dc), 0); REF(pthread_rwlock_destroy(&G.dl), 0); REF(pthread_spin_destroy(&G.ds), 0); REF(pthread_barrier_destroy(&G.db), 0);
  for (int i = 0; i < n; i++) t[i] = xcreate(r_thr, (void *)(size_t)i);
  r_thr(0);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  r = sem_getvalue(&G.q, &v); CHECKV(r == 0 && v == 0, "refused-post-counted", v);
  REF(pthread_mutex_destroy(&G.m), 0); REF(pthread_cond_destroy(&G.c), 0); REF(pthread_rwlock_destroy(&G.l), 0); REF(pthread_spin_destroy(&G.s), 0); REF(pthread_barrier_destroy(&G.b), 0); REF(sem_destroy(&G.q), 0);
}
/* ---- an identifier whose thread is gone reaches nobody, also when its memory serves another thread */
static struct { sem_t go; volatile long up, stop; pthread_t dead[4], live[3]; int ndead; } D;
static void *d_live(void *a) { int r; sim_add(&D.up, 1); do r = sem_wait(&D.go); while (r); pthread_testcancel(); return a; }
static void *d_short(void *a) { return a; }
static void *d_prober(void *x)
{
  (void)x;
  for (int n = 1 + sim_choice(6); n > 0; n--) {
    pthread_t d = D.dead[sim_choice(D.ndead)]; int pol = 77; struct sched_param sp; cpu_set_t cs; char nm[40] = "unchanged"; struct timespec ts = in_ms(5); void *v = (void *)0x77;
    switch (sim_choice(14)) {
    case 0: CPU_ZERO(&cs); CPU_SET(0, &cs); REF(pthread_setaffinity_np(d, sizeof cs, &cs), ESRCH); break;
    case 1: REF(pthread_getaffinity_np(d, sizeof cs, &cs), ESRCH); break;
    case 2: sp.sched_priority = THREAD_PRIORITY_HIGHEST; REF(pthread_setschedparam(d, SCHED_OTHER, &sp), ESRCH); break;
    case 3: sp.sched_priority = 99; REF(pthread_getschedparam(d, &pol, &sp), ESRCH); CHECK(pol == 77 && sp.sched_priority == 99, "refused-but-written"); break;
    case 4: REF(pthread_setname_np(d, "ghost"), ESRCH); break;
    case 5: REF(pthread_getname_np(d, nm, sizeof nm), ESRCH); CHECK(!strcmp(nm, "unchanged"), "refused-but-written"); break;
    case 6: REF(pthread_kill(d, 0), ESRCH); break;
    case 7: REF(pthread_kill(d, SIGTERM), ESRCH); break;
    case 8: if (sim_choice(2)) REF(pthread_cancel(d), ESRCH);
      else { int ot, os; REF(pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &ot), 0); REF(pthread_cancel(d), ESRCH); REF(pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &os), 0); CHECKV(os == PTHREAD_CANCEL_ENABLE, "refused-but-changed", os); REF(pthread_setcanceltype(ot, &ot), 0); CHECKV(ot == PTHREAD_CANCEL_ASYNCHRONOUS, "refused-but-changed", ot); } break;
    case 9: REF(pthread_join(d, &v), ESRCH); CHECK(v == (void *)0x77, "refused-but-written"); break;
    case 10: REF(pthread_timedjoin_np(d, &v, &ts), ESRCH); CHECK(v == (void *)0x77, "refused-but-written"); break;
    case 11: REF(pthread_tryjoin_np(d, &v), ESRCH); CHECK(v == (void *)0x77, "refused-but-written"); break;
    case 12: REF(pthread_detach(d), ESRCH); break;
    default: for (int i = 0; i < 3; i++) CHECK(!pthread_equal(d, D.live[i]), "dead-id-equal"); break;
    }
  }
  return 0;
}
SCENARIO(dead_ids)
{
  int k = sim_choice(3), r; pthread_t p[2]; int np = sim_choice(3);
  CHECK(sem_init(&D.go, 0, 0) == 0, "setup");
  D.ndead = 1 + sim_choice(3); for (int i = 0; i < D.ndead; i++) D.dead[i] = xcreate(d_short, 0);
  for (int i = 0; i < D.ndead; i++) xjoin(D.dead[i]);
  if (k == 0) { pthread_t was = xcreate(d_short, 0); xjoin(was); D.dead[D.ndead++] = was; }     /* once more in the same memory */
  for (int i = 0; i < 3; i++) { D.live[i] = xcreate(d_live, (void *)(size_t)(i + 1)); for (int q = 0; q < D.ndead; q++) if (D.live[i].p == D.dead[q].p) sim_probe("memory_reused"); }
  if (sim_choice(2)) sim_wait_ge(&D.up, 3);
  for (int i = 0; i < 3; i++) { cpu_set_t cs; r = pthread_setname_np(D.live[i], "alive"); CHECKV(r == 0, "setup", r); if (sim_ncpu() > 1) { CPU_ZERO(&cs); CPU_SET(1, &cs); r = pthread_setaffinity_np(D.live[i], sizeof cs, &cs); CHECKV(r == 0, "setup", r); } }
  for (int i = 0; i < np; i++) p[i] = xcreate(d_prober, 0);
  d_prober(0);
  for (int i = 0; i < np; i++) xjoin(p[i]);
  for (int i = 0; i < 3; i++) {
    char nm[40] = ""; int pol; struct sched_param sp; cpu_set_t cs, want; void *v;
    r = pthread_getname_np(D.live[i], nm, sizeof nm); CHECKV(r == 0 && !strcmp(nm, "alive"), "dead-id-reached-name", r);
    r = pthread_getschedparam(D.live[i], &pol, &sp); CHECKV(r == 0 && sp.sched_priority == THREAD_PRIORITY_NORMAL, "dead-id-reached-priority", sp.sched_priority);
    if (sim_ncpu() > 1) { CPU_ZERO(&want); CPU_SET(1, &want); r = pthread_getaffinity_np(D.live[i], sizeof cs, &cs); CHECKV(r == 0 && CPU_EQUAL(&cs, &want), "dead-id-reached-affinity", r); }
    r = pthread_kill(D.live[i], 0); CHECKV(r == 0, "dead-id-reached-thread", r);
    r = pthread_tryjoin_np(D.live[i], &v); CHECKV(r == EBUSY, "dead-id-reached-thread", r);
  }
  /* signals that are not supported are refused and leave the thread as it was: it can be cancelled and killed */
  int fate[3];
  for (int i = 0; i < 3; i++) {
    static const int bad[] = { 99, -1, SIGSEGV, SIGILL, SIGFPE, INT_MAX }; void *v;
    for (int n = sim_choice(3); n > 0; n--) REF(pthread_kill(D.live[i], bad[sim_choice(6)]), EINVAL);
    fate[i] = sim_choice(3) ? 0 : 1 + sim_choice(2);
    if (fate[i] == 1) REF(pthread_cancel(D.live[i]), 0);
    if (fate[i] == 2) { sim_wait_ge(&D.up, 3); sim_settle(0); REF(pthread_kill(D.live[i], SIGTERM), 0); v = xjoin(D.live[i]); CHECKV(v == PTHREAD_CANCELED, "kill-after-refused", v); }
  }
  CHECK(sem_post_multiple(&D.go, 3) == 0, "setup");
  for (int i = 0; i < 3; i++) if (fate[i] != 2) { void *v = xjoin(D.live[i]); CHECKV(v == (fate[i] ? PTHREAD_CANCELED : (void *)(size_t)(i + 1)), "dead-id-reached-thread", v); }
  CHECK(sem_destroy(&D.go) == 0, "setup");
}
