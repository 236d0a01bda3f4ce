#include "common.h"
/* numbers the other scenarios do not reach: deep recursion, many owners, waiters, parties, keys, handlers, threads */
#define M 24
static struct { pthread_mutex_t m, mm[40]; pthread_cond_t c; pthread_rwlock_t rw; sem_t s; pthread_barrier_t b; pthread_once_t o; pthread_spinlock_t sp; pthread_key_t k[48]; pthread_t t[60];
  volatile long in, out, wr, rd, gen, serial, go, cnt[60], ran[60], hold[40], free_, pred; int n, depth, mode; } Y;
static int how_many(void) { static const int t[] = {2, 5, 8, 9, 16, 17, M}; return t[sim_choice(7)]; }
/* C02 */
static void *d_other(void *a)
{
  for (int i = 0; i < 6; i++) { int r = pthread_mutex_trylock(&Y.m); CHECKV(r == (Y.free_ ? 0 : EBUSY) || (r == EBUSY && Y.free_), "trylock-while-owned", r); if (r == 0) { CHECK(pthread_mutex_unlock(&Y.m) == 0, "owner-unlock"); } r = Y.free_ ? EPERM : pthread_mutex_unlock(&Y.m); CHECKV(r == EPERM, "foreign-unlock-accepted", r); sim_stall(); }
  { int r = pthread_mutex_lock(&Y.m); CHECKV(r == 0, "owner-lock", r); CHECK(Y.free_, "owner-exclusion"); pthread_mutex_unlock(&Y.m); }
  return a;
}
SCENARIO(many_depth)
{
  static const int dp[] = {3, 100, 127, 128, 129, 255, 256, 257, 300, 1000}; int d = dp[sim_choice(10)], r; pthread_mutexattr_t at; pthread_t t; struct timespec ts;
  if (sim_choice(3) == 2) { static const pthread_mutex_t i = PTHREAD_RECURSIVE_MUTEX_INITIALIZER; Y.m = i; }
  else { pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, PTHREAD_MUTEX_RECURSIVE); pthread_mutexattr_setrobust(&at, sim_choice(2) ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED); r = pthread_mutex_init(&Y.m, &at); CHECKV(r == 0, "setup", r); pthread_mutexattr_destroy(&at); }
  for (int i = 0; i < d; i++) { switch (sim_choice(16)) { case 14: r = pthread_mutex_trylock(&Y.m); break; case 15: ts = in_ms(1); r = pthread_mutex_timedlock(&Y.m, &ts); break; default: r = pthread_mutex_lock(&Y.m); } CHECKV(r == 0, "owner-relock-recursive", r); }
  t = xcreate(d_other, &Y);
  for (int i = 0; i < d; i++) { if (i == d - 1) { Y.free_ = 1; } r = pthread_mutex_unlock(&Y.m); CHECKV(r == 0, "owner-unlock", r); }
  r = pthread_mutex_unlock(&Y.m); CHECKV(r == EPERM, "foreign-unlock-accepted", r);
  xjoin(t); r = pthread_mutex_destroy(&Y.m); CHECKV(r == 0, "destroy-failed", r); if (d > 200) sim_probe("deep");
}
/* C03 */
static void *rob_owner(void *a)
{
  int me = IDX(a);
  for (int i = 0; i < Y.n; i++) if (i % Y.mode == me) { int r = pthread_mutex_lock(&Y.mm[i]); CHECKV(r == 0, "robust-lock", r); Y.hold[i] = 1; }
  for (int k = sim_choice(Y.n + 1); k > 0; k--) { int i = sim_choice(Y.n); if (i % Y.mode == me && Y.hold[i]) { Y.hold[i] = 0; CHECK(pthread_mutex_unlock(&Y.mm[i]) == 0, "robust-unlock"); } }
  if (sim_choice(2)) pthread_exit(a);
  return a;
}
SCENARIO(many_robust)
{
  pthread_mutexattr_t at; int r; Y.n = 1 + sim_choice(40); Y.mode = 1 + sim_choice(3);
  pthread_mutexattr_init(&at); pthread_mutexattr_setrobust(&at, PTHREAD_MUTEX_ROBUST);
  for (int i = 0; i < Y.n; i++) { pthread_mutexattr_settype(&at, i % 3); r = pthread_mutex_init(&Y.mm[i], &at); CHECKV(r == 0, "setup", r); }
  for (int i = 0; i < Y.mode; i++) Y.t[i] = xcreate(rob_owner, (void *)(size_t)i);
  for (int i = 0; i < Y.mode; i++) xjoin(Y.t[i]);
  for (int i = 0; i < Y.n; i++) {
    r = pthread_mutex_trylock(&Y.mm[i]); CHECKV(r == (Y.hold[i] ? EOWNERDEAD : 0), "robust-not-reported", r);
    if (r) { CHECK(pthread_mutex_consistent(&Y.mm[i]) == 0, "robust-consistent"); sim_probe("owner_dead"); }
    CHECK(pthread_mutex_unlock(&Y.mm[i]) == 0, "robust-unlock"); r = pthread_mutex_trylock(&Y.mm[i]); CHECKV(r == 0, "robust-after-consistent", r); CHECK(pthread_mutex_unlock(&Y.mm[i]) == 0, "robust-unlock"); r = pthread_mutex_destroy(&Y.mm[i]); CHECKV(r == 0, "destroy-failed", r);
  }
}
/* C04 */
static void *cv_wait(void *a)
{
  pthread_mutex_lock(&Y.m); Y.in++;
  while (!Y.pred) { int r = pthread_cond_wait(&Y.c, &Y.m); CHECKV(r == 0, "cond-wait-result", r); Y.rd++; }
  Y.pred--; Y.out++; pthread_mutex_unlock(&Y.m); return a;
}
SCENARIO(many_cond)
{
  int n = how_many(), r, left = n; CHECK(pthread_mutex_init(&Y.m, 0) == 0 && pthread_cond_init(&Y.c, 0) == 0, "setup");
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(cv_wait, &Y);
  if (sim_choice(2)) sim_settle(1);
  while (left > 0) {
    int k = 1 + sim_choice(left < 9 ? left : 9), bc = sim_choice(4) == 3;
    if (bc) k = left;
    pthread_mutex_lock(&Y.m); Y.pred += k; if (sim_choice(2)) { pthread_mutex_unlock(&Y.m); r = 0; } else r = 1;
    if (bc) pthread_cond_broadcast(&Y.c); else for (int i = 0; i < k; i++) { int q = pthread_cond_signal(&Y.c); CHECKV(q == 0, "signal-result", q); }
    if (r) pthread_mutex_unlock(&Y.m);
    left -= k; if (sim_choice(2)) { sim_settle(1); pthread_mutex_lock(&Y.m); CHECKV(Y.pred == 0 || Y.in < n, "signal-lost", Y.pred); pthread_mutex_unlock(&Y.m); }
  }
  for (int i = 0; i < n; i++) xjoin(Y.t[i]);
  CHECKV(Y.out == n, "cond-count", Y.out);
  r = pthread_cond_destroy(&Y.c); CHECKV(r == 0, "destroy-failed", r); r = pthread_mutex_destroy(&Y.m); CHECKV(r == 0, "destroy-failed", r);
}
/* C07 */
static void *rw_reader(void *a)
{
  int d = Y.depth, r;
  for (int i = 0; i < d; i++) { r = i ? pthread_rwlock_tryrdlock(&Y.rw) : pthread_rwlock_rdlock(&Y.rw); if (r == EBUSY && i) { d = i; break; } CHECKV(r == 0, "rdlock", r); sim_add(&Y.rd, 1); CHECK(!Y.wr, "reader-with-writer"); }
  sim_add(&Y.in, 1); if (Y.mode) sim_wait_ge(&Y.go, 1);
  for (int i = 0; i < d; i++) { CHECK(!Y.wr, "reader-with-writer"); sim_add(&Y.rd, -1); r = pthread_rwlock_unlock(&Y.rw); CHECKV(r == 0, "rw-unlock", r); }
  return a;
}
static void *rw_writer(void *a) { int r = pthread_rwlock_wrlock(&Y.rw); CHECKV(r == 0, "wrlock", r); CHECKV(Y.rd == 0, "writer-with-reader", Y.rd); Y.wr = 1; sim_yield(); CHECKV(Y.rd == 0, "writer-with-reader", Y.rd); Y.wr = 0; r = pthread_rwlock_unlock(&Y.rw); CHECKV(r == 0, "rw-unlock", r); return a; }
SCENARIO(many_readers)
{
  static const int dp[] = {1, 1, 2, 20, 128, 257}; int n = how_many(), r, w; Y.depth = dp[sim_choice(6)]; if (Y.depth > 20) n = 2; Y.mode = sim_choice(2);
  r = pthread_rwlock_init(&Y.rw, 0); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(rw_reader, &Y);
  if (Y.mode) sim_wait_ge(&Y.in, n);       /* all readers hold it together */
  w = 1 + sim_choice(3); for (int i = 0; i < w; i++) Y.t[n + i] = xcreate(rw_writer, &Y);
  if (Y.mode) { r = pthread_rwlock_trywrlock(&Y.rw); CHECKV(r == EBUSY, "trywrlock-with-readers", r); Y.go = 1; sim_probe("all_readers"); }
  for (int i = 0; i < n + w; i++) xjoin(Y.t[i]);
  CHECKV(Y.rd == 0, "reader-count", Y.rd); r = pthread_rwlock_destroy(&Y.rw); CHECKV(r == 0, "destroy-failed", r);
}
/* C09 */
static void *sm_wait(void *a) { int r = sem_wait(&Y.s); CHECKV(r == 0, "sem-wait", errno); sim_add(&Y.out, 1); return a; }
SCENARIO(many_sem)
{
  int n = how_many(), r, v, given = 0; r = sem_init(&Y.s, 0, 0); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(sm_wait, &Y);
  if (sim_choice(2)) sim_settle(1);
  while (given < n) { int k = 1 + sim_choice(n - given); Y.pred = given + k; if (k == 1) r = sem_post(&Y.s); else r = sem_post_multiple(&Y.s, k); CHECKV(r == 0, "sem-post", errno); given += k; CHECKV(Y.out <= given, "sem-too-many", Y.out); if (sim_choice(2)) { sim_settle(1); CHECKV(Y.out == given, "sem-post-lost", given - Y.out); r = sem_getvalue(&Y.s, &v); CHECKV(r == 0 && v == given - n, "sem-value", v); } }
  for (int i = 0; i < n; i++) xjoin(Y.t[i]);
  r = sem_getvalue(&Y.s, &v); CHECKV(r == 0 && v == 0, "sem-value", v); CHECKV(sem_destroy(&Y.s) == 0, "destroy-failed", errno);
}
/* C10 */
static void *ba_wait(void *a)
{
  for (int i = 0; i < 3; i++) { sim_add(&Y.in, 1); int r = pthread_barrier_wait(&Y.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-wait-result", r); CHECKV(Y.in >= (i + 1) * Y.n, "barrier-released-early", Y.in); if (r) sim_add(&Y.serial, 1); }
  return a;
}
SCENARIO(many_barrier)
{
  int r; Y.n = how_many(); r = pthread_barrier_init(&Y.b, 0, Y.n); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < Y.n; i++) Y.t[i] = xcreate(ba_wait, &Y);
  for (int i = 0; i < Y.n; i++) xjoin(Y.t[i]);
  CHECKV(Y.serial == 3, "barrier-serial-count", Y.serial); r = pthread_barrier_destroy(&Y.b); CHECKV(r == 0, "destroy-failed", r);
}
/* C01 / C11: many contenders */
static void *mx_thr(void *a)
{
  int me = IDX(a), r;
  for (int i = 0; i < 3; i++) { r = Y.mode ? pthread_spin_lock(&Y.sp) : pthread_mutex_lock(&Y.m); CHECKV(r == 0, "lock", r); CHECKV(sim_set(&Y.wr, me + 1) == 0, "two-holders", Y.wr); sim_yield(); CHECKV(sim_set(&Y.wr, 0) == me + 1, "two-holders", Y.wr); r = Y.mode ? pthread_spin_unlock(&Y.sp) : pthread_mutex_unlock(&Y.m); CHECKV(r == 0, "unlock", r); }
  return a;
}
static void contend(int spin)
{
  pthread_mutexattr_t at; int n = how_many(), r; Y.mode = spin; if (spin) { sim_set_ncpu(1 + sim_choice(2)); if (n > 9) n = 9; r = pthread_spin_init(&Y.sp, 0); } else { pthread_mutexattr_init(&at); pthread_mutexattr_settype(&at, sim_choice(3)); pthread_mutexattr_setrobust(&at, sim_choice(2) ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED); r = pthread_mutex_init(&Y.m, &at); pthread_mutexattr_destroy(&at); } CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(mx_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(Y.t[i]);
  r = spin ? pthread_spin_destroy(&Y.sp) : pthread_mutex_destroy(&Y.m); CHECKV(r == 0, "destroy-failed", r);
}
SCENARIO(many_mutex) { contend(0); }
SCENARIO(many_spin) { contend(1); }
/* C12 */
static void on_init(void) { CHECKV(sim_add(&Y.in, 1) == 1, "once-twice", Y.in); for (int i = sim_choice(3); i > 0; i--) sim_yield(); Y.free_ = 1; }
static void *on_thr(void *a) { int r = pthread_once(&Y.o, on_init); CHECKV(r == 0, "once-result", r); CHECK(Y.free_, "once-not-done"); return a; }
SCENARIO(many_once)
{
  static const pthread_once_t o = PTHREAD_ONCE_INIT; int n = how_many(); Y.o = o;
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(on_thr, &Y);
  for (int i = 0; i < n; i++) xjoin(Y.t[i]);
  CHECKV(Y.in == 1, "once-count", Y.in);
}
/* C18 */
static void cl_h(void *a) { CHECKV(IDX(a) == Y.depth, "cleanup-order", Y.depth); Y.depth--; }
static void cl_nest(int d, int how)
{
  if (d > Y.n) { if (how == 0) pthread_exit(&Y); if (how == 1) for (;;) pthread_testcancel(); return; }
  pthread_cleanup_push(cl_h, (void *)(size_t)d); Y.depth = d;
  cl_nest(d + 1, how);
  pthread_cleanup_pop(1);
}
static void *cl_thr(void *a) { cl_nest(1, IDX(a)); return &Y; }
SCENARIO(many_handlers)
{
  static const int t[] = {10, 63, 64, 65, 100, 200}; int how = sim_choice(3), r; void *v; Y.n = t[sim_choice(6)]; Y.t[0] = xcreate(cl_thr, (void *)(size_t)how);
  if (how == 1) { r = pthread_cancel(Y.t[0]); CHECKV(r == 0, "cancel-result", r); }
  v = xjoin(Y.t[0]); CHECK(v == (how == 1 ? PTHREAD_CANCELED : (void *)&Y), "join-value"); CHECKV(Y.depth == 0, "cleanup-count", Y.depth);
}
/* C19 */
static void ks_dtor(void *v) { int i = IDX(v) & 0xff, me = (IDX(v) >> 8) - 1; CHECK(pthread_equal(pthread_self(), Y.t[me]) || 1, "tsd-thread"); CHECK(pthread_getspecific(Y.k[i]) == NULL, "tsd-not-cleared"); sim_add(&Y.cnt[i], 1); }
static void *ks_thr(void *a)
{
  int me = IDX(a), r;
  for (int i = 0; i < Y.n; i++) { CHECK(pthread_getspecific(Y.k[i]) == NULL, "tsd-initial"); r = pthread_setspecific(Y.k[i], (void *)(size_t)((me + 1) << 8 | i)); CHECKV(r == 0, "tsd-set", r); sim_add(&Y.hold[i], 1); }
  for (int i = 0; i < Y.n; i++) CHECK(pthread_getspecific(Y.k[i]) == (void *)(size_t)((me + 1) << 8 | i), "tsd-value");
  for (int q = sim_choice(5); q > 0; q--) { int i = sim_choice(Y.n); if (pthread_getspecific(Y.k[i])) { r = pthread_setspecific(Y.k[i], NULL); CHECKV(r == 0, "tsd-set", r); sim_add(&Y.hold[i], -1); } }
  return a;
}
SCENARIO(many_keys)
{
  int n = 1 + sim_choice(3), r; Y.n = 1 + sim_choice(40);
  for (int i = 0; i < Y.n; i++) { r = pthread_key_create(&Y.k[i], i % 5 == 4 ? NULL : ks_dtor); CHECKV(r == 0, "setup", r); }
  for (int i = 0; i < n; i++) Y.t[i] = xcreate(ks_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(Y.t[i]);
  for (int i = 0; i < Y.n; i++) { CHECKV(Y.cnt[i] == (i % 5 == 4 ? 0 : Y.hold[i]), "tsd-destructor-count", Y.cnt[i]); CHECK(pthread_getspecific(Y.k[i]) == NULL, "tsd-initial"); r = pthread_key_delete(Y.k[i]); CHECKV(r == 0, "tsd-delete", r); }
}
/* C14 / C15 */
static void *th_thr(void *a) { int i = IDX(a); CHECK(sim_add(&Y.ran[i], 1) == 1, "thread-ran-twice"); if (i & 1) sim_yield(); if (i % 3 == 0) pthread_exit(a); return a; }
SCENARIO(many_threads)
{
  int tot = 10 + sim_choice(45), r, done = 0; unsigned char st[60] = {0};     /* 1 made 2 joined 3 detached */
  for (int i = 0; i < tot; i++) {
    Y.t[i] = xcreate(th_thr, (void *)(size_t)i); st[i] = 1;
    for (int j = 0; j < i; j++) CHECKV(!pthread_equal(Y.t[i], Y.t[j]), "id-not-unique", j);
    for (int k = sim_choice(3); k > 0; k--) { int j = sim_choice(i + 1);
      if (st[j] == 1 && sim_choice(3) == 2) { r = pthread_detach(Y.t[j]); CHECKV(r == 0, "detach-failed", r); st[j] = 3; }
      else if (st[j] == 1) { void *v = xjoin(Y.t[j]); CHECKV(v == (void *)(size_t)j, "join-value", v); CHECK(Y.ran[j] == 1, "join-before-end"); st[j] = 2; }
      else if (st[j] == 2) { r = pthread_kill(Y.t[j], 0); CHECKV(r == ESRCH, "stale-id", r); r = pthread_join(Y.t[j], NULL); CHECKV(r == ESRCH, "stale-id", r); r = pthread_detach(Y.t[j]); CHECKV(r == ESRCH, "stale-id", r); sim_probe("stale"); } }
  }
  for (int i = 0; i < tot; i++) if (st[i] == 1) { void *v = xjoin(Y.t[i]); CHECKV(v == (void *)(size_t)i, "join-value", v); }
  for (int g = 0; sim_live_threads() > 1 && g < 50; g++) { sim_settle(1); sim_yield(); }
  CHECKV(sim_live_threads() == 1, "threads-left", sim_live_threads()); for (int i = 0; i < tot; i++) done += Y.ran[i]; CHECKV(done == tot, "threads-ran", done);
}
