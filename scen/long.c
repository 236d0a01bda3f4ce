#include "common.h"
/* more of something than a narrow counter holds: 70000 steps of one kind in a single run, then everything as usual */
static int far(void) { static const int t[] = {130, 260, 300, 32770, 65540, 66000}; return t[sim_choice(sim_choice(6) == 5 ? 6 : 3)]; }
static struct { pthread_mutex_t m; pthread_rwlock_t rw; sem_t s; pthread_barrier_t b; pthread_cond_t c; pthread_spinlock_t sp; volatile long go, free_, got; pthread_t id, old[6]; } L;
static void *l_m(void *a)
{
  int r = pthread_mutex_trylock(&L.m); CHECKV(r == EBUSY, "trylock-while-owned", r); r = pthread_mutex_unlock(&L.m); CHECKV(r == EPERM, "foreign-unlock-accepted", r);
  sim_add(&L.go, 1); r = pthread_mutex_lock(&L.m); CHECKV(r == 0, "owner-lock", r); CHECK(L.free_, "owner-exclusion"); r = pthread_mutex_unlock(&L.m); CHECKV(r == 0, "owner-unlock", r); return a;
}
SCENARIO(long_depth)
{
  int n = far(), r; pthread_mutexattr_t at; pthread_t t;
  pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE); if (sim_choice(3) == 2) pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&L.m, &at); CHECKV(r == 0, "setup", r);
  sim_room(1); for (int i = 0; i < n; i++) { r = i & 1 ? pthread_mutex_lock(&L.m) : pthread_mutex_trylock(&L.m); CHECKV(r == 0, "owner-relock-recursive", r); } sim_room(0);
  t = xcreate(l_m, &L); sim_wait_ge(&L.go, 1);
  sim_room(1); for (int i = 0; i < n; i++) { if (i == n - 1) L.free_ = 1; r = pthread_mutex_unlock(&L.m); CHECKV(r == 0, "owner-unlock", r); } sim_room(0);
  xjoin(t); r = pthread_mutex_unlock(&L.m); CHECKV(r == EPERM, "foreign-unlock-accepted", r); r = pthread_mutex_destroy(&L.m); CHECKV(r == 0, "destroy-failed", r);
}
static void *l_w(void *a) { int r; struct timespec ts = in_ms(1); r = pthread_rwlock_timedwrlock(&L.rw, &ts); CHECKV(r == ETIMEDOUT, "rwlock-exclusion", r); sim_add(&L.go, 1); r = pthread_rwlock_wrlock(&L.rw); CHECKV(r == 0, "rwlock-wrlock", r); CHECK(L.free_, "rwlock-exclusion"); pthread_rwlock_unlock(&L.rw); return a; }
SCENARIO(long_readers)
{
  int n = far(), r, h = 0, mid = sim_choice(3) == 2; pthread_t t; CHECK(pthread_rwlock_init(&L.rw, NULL) == 0, "setup");
  sim_room(1);
  if (mid) for (int i = 0; i < n; i++) { CHECK(pthread_rwlock_rdlock(&L.rw) == 0 && pthread_rwlock_unlock(&L.rw) == 0, "rwlock-rdlock"); }
  for (int i = 0; i < n; i++) { r = i & 1 ? pthread_rwlock_rdlock(&L.rw) : pthread_rwlock_tryrdlock(&L.rw); CHECKV(r == 0, "rwlock-rdlock", r); h++; }
  sim_room(0);
  r = pthread_rwlock_trywrlock(&L.rw); CHECKV(r == EBUSY, "rwlock-exclusion", r);
  t = xcreate(l_w, &L); sim_wait_ge(&L.go, 1);
  sim_room(1); while (h--) { if (h == 0) L.free_ = 1; r = pthread_rwlock_unlock(&L.rw); CHECKV(r == 0, "rwlock-unlock", r); } sim_room(0);
  xjoin(t); r = pthread_rwlock_trywrlock(&L.rw); CHECKV(r == 0, "rwlock-left-locked", r); CHECK(pthread_rwlock_unlock(&L.rw) == 0 && pthread_rwlock_destroy(&L.rw) == 0, "destroy-failed");
}
static void *l_s(void *a) { int r = sem_wait(&L.s); CHECKV(r == 0, "sem-wait-result", r); sim_add(&L.got, 1); return a; }
SCENARIO(long_sem)
{
  int n = far(), r, v, w = sim_choice(3); pthread_t t[3]; CHECK(sem_init(&L.s, 0, 0) == 0, "setup");
  for (int i = 0; i < w; i++) t[i] = xcreate(l_s, &L);
  sim_room(1);
  for (int i = 0; i < n; i++) { r = sim_choice(2) ? sem_post(&L.s) : sem_post_multiple(&L.s, 1); CHECKV(r == 0, "sem-post-result", r); }
  for (int i = 0; i < n - w; i++) { r = i & 1 ? sem_trywait(&L.s) : sem_wait(&L.s); CHECKV(r == 0, "sem-count", i); }
  sim_room(0);
  for (int i = 0; i < w; i++) xjoin(t[i]);
  CHECK(sem_getvalue(&L.s, &v) == 0 && v == 0, "sem-value"); r = sem_trywait(&L.s); CHECKV(r == -1 && errno == EAGAIN, "sem-count", r); CHECK(sem_destroy(&L.s) == 0, "destroy-failed");
}
/* the identifiers a thread gets, one after another, never return */
static void *l_id(void *a) { *(pthread_t *)a = pthread_self(); return a; }
SCENARIO(long_ids)
{
  int n = far(), r; pthread_t first, t, real; unsigned long long u0;
  real = xcreate(l_id, &L.id); xjoin(real);
  first = pthread_self(); u0 = pthread_getunique_np(first);
  sim_room(1);
  for (int i = 0; i < n; i++) {
    CHECK(pthread_win32_thread_detach_np(), "thread-detach"); t = pthread_self();
    CHECK(t.p != NULL && !pthread_equal(t, first) && !pthread_equal(t, real), "id-not-unique"); unsigned long long u = pthread_getunique_np(t); CHECKV(u > u0, "unique-not-unique", i); u0 = u;
    if ((i & 15) == 0 || i > 65500) { r = pthread_kill(first, 0); CHECKV(r == ESRCH, "stale-id", r); r = pthread_join(real, NULL); CHECKV(r == ESRCH, "stale-id", r); }
  }
  sim_room(0);
  for (int i = 0; i < 4; i++) { t = xcreate(l_id, &L.id); CHECK(!pthread_equal(t, first) && !pthread_equal(t, real), "id-not-unique"); r = pthread_detach(first); CHECKV(r == ESRCH, "stale-id", r); r = pthread_cancel(real); CHECKV(r == ESRCH, "stale-id", r); xjoin(t); }
}
static void *l_b(void *a) { int r = pthread_barrier_wait(&L.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-result", r); sim_add(&L.got, 1); return (void *)(size_t)r; }
SCENARIO(long_barrier)
{
  int n = far(), r; pthread_t t[2];
  CHECK(pthread_barrier_init(&L.b, NULL, 1) == 0, "setup");
  sim_room(1); for (int i = 0; i < n; i++) { r = pthread_barrier_wait(&L.b); CHECKV(r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-serial", r); } sim_room(0);
  CHECK(pthread_barrier_destroy(&L.b) == 0, "destroy-failed");
  CHECK(pthread_barrier_init(&L.b, NULL, n) == 0, "setup");   /* a barrier for that many: two are not enough */
  t[0] = xcreate(l_b, 0); t[1] = xcreate(l_b, 0); sim_settle(1); CHECKV(L.got == 0, "barrier-early", n); sim_probe("big_barrier");
}
/* signals and broadcasts that nobody waits for, waits that time out at once: nothing is left over */
static void *l_c(void *a) { int r = pthread_mutex_lock(&L.m); L.go++; while (!L.free_) { r = pthread_cond_wait(&L.c, &L.m); CHECKV(r == 0, "cond-wait-result", r); sim_add(&L.got, 1); } pthread_mutex_unlock(&L.m); return a; }
SCENARIO(long_cond)
{
  int n = far(), r; pthread_t t; struct timespec ts = {1, 0}; CHECK(pthread_mutex_init(&L.m, NULL) == 0 && pthread_cond_init(&L.c, NULL) == 0, "setup");
  int with = sim_choice(2), tmo = sim_choice(2); if (with) { t = xcreate(l_c, 0); do { pthread_mutex_lock(&L.m); r = L.go; pthread_mutex_unlock(&L.m); sim_yield(); } while (!r); }
  sim_room(1);
  for (int i = 0; i < n; i++) { if (tmo) { pthread_mutex_lock(&L.m); r = pthread_cond_timedwait(&L.c, &L.m, &ts); CHECKV(r == ETIMEDOUT || r == 0, "cond-timedwait-result", r); pthread_mutex_unlock(&L.m); } else if (!with) { CHECK(pthread_cond_signal(&L.c) == 0 && pthread_cond_broadcast(&L.c) == 0, "cond-signal-result"); } }
  sim_room(0);
  if (!with) { t = xcreate(l_c, 0); sim_settle(1); CHECKV(L.got == 0, "cond-spurious-many", L.got); }
  pthread_mutex_lock(&L.m); L.free_ = 1; pthread_mutex_unlock(&L.m); CHECK(pthread_cond_signal(&L.c) == 0, "cond-signal-result");
  xjoin(t); r = pthread_cond_destroy(&L.c); CHECKV(r == 0, "destroy-failed", r); r = pthread_mutex_destroy(&L.m); CHECKV(r == 0, "destroy-failed", r);
}
/* as many abandoned attempts on a lock that is held, and on one that is free again */
static void *l_held(void *a) { int r = IDX(a) ? pthread_rwlock_wrlock(&L.rw) : pthread_rwlock_rdlock(&L.rw); CHECKV(r == 0, "rwlock-lock", r); r = pthread_mutex_lock(&L.m); CHECKV(r == 0, "mutex-lock", r); L.go = 1; sim_wait_ge(&L.free_, 1); r = pthread_mutex_unlock(&L.m); CHECKV(r == 0, "mutex-unlock", r); r = pthread_rwlock_unlock(&L.rw); CHECKV(r == 0, "rwlock-unlock", r); return a; }
SCENARIO(long_abandon)
{
  int n = far(), r, w = sim_choice(2), k = sim_choice(3); pthread_t t; struct timespec ts = {1, 0}; if (n > 20000) n /= 2;
  CHECK(pthread_rwlock_init(&L.rw, NULL) == 0 && pthread_mutex_init(&L.m, NULL) == 0, "setup");
  t = xcreate(l_held, (void *)(size_t)w); sim_wait_ge(&L.go, 1);
  sim_room(1);
  for (int i = 0; i < n; i++) switch (k == 2 ? i % 2 : k) {
    case 0: r = i & 1 ? pthread_rwlock_timedwrlock(&L.rw, &ts) : pthread_rwlock_trywrlock(&L.rw); CHECKV(r == (i & 1 ? ETIMEDOUT : EBUSY), "rwlock-exclusion", r);
      if (w) { r = i & 1 ? pthread_rwlock_timedrdlock(&L.rw, &ts) : pthread_rwlock_tryrdlock(&L.rw); CHECKV(r == (i & 1 ? ETIMEDOUT : EBUSY), "rwlock-exclusion", r); }
      else { r = i & 1 ? pthread_rwlock_timedrdlock(&L.rw, &ts) : pthread_rwlock_tryrdlock(&L.rw); CHECKV(r == 0, "rwlock-share", r); r = pthread_rwlock_unlock(&L.rw); CHECKV(r == 0, "rwlock-unlock", r); } break;
    default: r = i & 1 ? pthread_mutex_timedlock(&L.m, &ts) : pthread_mutex_trylock(&L.m); CHECKV(r == (i & 1 ? ETIMEDOUT : EBUSY), "mutex-exclusion", r);
  }
  sim_room(0);
  L.free_ = 1; xjoin(t);
  r = pthread_rwlock_trywrlock(&L.rw); CHECKV(r == 0, "rwlock-left-locked", r); CHECK(pthread_rwlock_unlock(&L.rw) == 0, "rwlock-unlock");
  r = pthread_rwlock_tryrdlock(&L.rw); CHECKV(r == 0, "rwlock-left-locked", r); CHECK(pthread_rwlock_unlock(&L.rw) == 0 && pthread_rwlock_destroy(&L.rw) == 0, "destroy-failed");
  r = pthread_mutex_trylock(&L.m); CHECKV(r == 0, "mutex-left-locked", r); CHECK(pthread_mutex_unlock(&L.m) == 0 && pthread_mutex_destroy(&L.m) == 0, "destroy-failed");
}
