#include "common.h"
/* C21: creation under resource failures is all or nothing; C22: conservation; C23 names; C31 process detach and attach. */
struct base { long h, b, t; };
static struct base snap(void) { struct base x = {sim_live_handles(-1), sim_live_blocks(), sim_live_tls()}; return x; }
static int same(struct base x) { struct base y = snap(); return x.h == y.h && x.b == y.b && x.t == y.t; }
static int reserr(int r) { return r == ENOMEM || r == EAGAIN || r == ENOSPC; }
static void *nop(void *a) { return a; }
static volatile long started;
static void *startfn(void *a) { sim_add(&started, 1); return a; }
static void chk(struct base b, const char *cls) { struct base y = snap(); if (y.h != b.h) sim_violation(cls, 1, y.h - b.h); if (y.b != b.b) sim_violation(cls, 2, y.b - b.b); if (y.t != b.t) sim_violation(cls, 3, y.t - b.t); }
static int dcalls; static void rdtor(void *v) { (void)v; dcalls++; }
static void mutex_works(pthread_mutex_t *m, int rec)
{
  int r = pthread_mutex_lock(m); CHECKV(r == 0, "object-unusable", r);
  if (rec) { r = pthread_mutex_lock(m); CHECKV(r == 0, "object-unusable", r); pthread_mutex_unlock(m); }
  r = pthread_mutex_unlock(m); CHECKV(r == 0, "object-unusable", r);
}
SCENARIO(res_objects)
{
  unsigned masks[] = {F_ALLRES, F_ALLOC, F_EVENT | F_SEM, F_ALLOC | F_EVENT, F_TLS, F_AFF | F_PRIO | F_DUP | F_OPENP}; unsigned M = masks[sim_choice(6)];
  static const int ty[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE};
  pthread_key_t wk; int r; xjoin(xcreate(nop, 0)); pthread_key_create(&wk, rdtor); pthread_key_delete(wk);
  for (int n = 1 + sim_choice(8); n > 0; n--) {
    struct base b = snap(); int op = sim_choice(13);
    switch (op) {
    case 0: case 1: { pthread_mutex_t m; pthread_mutexattr_t a, *ap = NULL; int t = sim_choice(3), rob = op;
      if (rob || sim_choice(2)) { r = pthread_mutexattr_init(&a); CHECKV(r == 0, "setup", r); pthread_mutexattr_settype(&a, ty[t]); if (rob) pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); ap = &a; }
      struct base b1 = snap(); sim_faults(M); r = pthread_mutex_init(&m, ap); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b1, "leak-on-failure"); r = pthread_mutex_init(&m, ap); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_mutex"); }
      if (ap) pthread_mutexattr_destroy(&a);
      mutex_works(&m, ap && t == 2); r = pthread_mutex_destroy(&m); CHECKV(r == 0, "destroy-failed", r); break; }
    case 2: { pthread_cond_t c; sim_faults(M); r = pthread_cond_init(&c, NULL); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); r = pthread_cond_init(&c, NULL); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_cond"); }
      r = pthread_cond_broadcast(&c); CHECKV(r == 0, "object-unusable", r);
      { pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; struct timespec ts = in_ms(5); pthread_mutex_lock(&m); r = pthread_cond_timedwait(&c, &m, &ts); CHECKV(r == ETIMEDOUT, "object-unusable", r); pthread_mutex_unlock(&m); pthread_mutex_destroy(&m); }
      if (sim_choice(2)) { void *v = pthread_timechange_handler_np(NULL); CHECKV(v == 0, "timechange", v); }
      r = pthread_cond_destroy(&c); CHECKV(r == 0, "destroy-failed", r); break; }
    case 3: { pthread_rwlock_t l; sim_faults(M); r = pthread_rwlock_init(&l, NULL); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); r = pthread_rwlock_init(&l, NULL); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_rwlock"); }
      CHECK(pthread_rwlock_rdlock(&l) == 0, "object-unusable"); CHECK(pthread_rwlock_unlock(&l) == 0, "object-unusable"); CHECK(pthread_rwlock_wrlock(&l) == 0, "object-unusable"); CHECK(pthread_rwlock_unlock(&l) == 0, "object-unusable");
      r = pthread_rwlock_destroy(&l); CHECKV(r == 0, "destroy-failed", r); break; }
    case 4: { sem_t s; int v = sim_choice(3), g; sim_faults(M); r = sem_init(&s, 0, v) ? errno : 0; sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); r = sem_init(&s, 0, v); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_sem"); }
      r = sem_getvalue(&s, &g); CHECK(r == 0 && g == v, "object-unusable"); CHECK(sem_post(&s) == 0 && sem_wait(&s) == 0, "object-unusable"); r = sem_destroy(&s); CHECKV(r == 0, "destroy-failed", errno); break; }
    case 5: { pthread_barrier_t x; pthread_barrierattr_t at; int ua = sim_choice(2); sim_faults(M); r = ua ? pthread_barrierattr_init(&at) : 0; if (r) { sim_faults(0); CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); break; }
      struct base b1 = snap(); r = pthread_barrier_init(&x, ua ? &at : NULL, 1); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b1, "leak-on-failure"); r = pthread_barrier_init(&x, NULL, 1); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_barrier"); }
      if (ua) pthread_barrierattr_destroy(&at);
      r = pthread_barrier_wait(&x); CHECKV(r == PTHREAD_BARRIER_SERIAL_THREAD, "object-unusable", r); r = pthread_barrier_destroy(&x); CHECKV(r == 0, "destroy-failed", r); break; }
    case 6: { pthread_spinlock_t x; sim_set_ncpu(1 + sim_choice(2)); sim_faults(M); r = pthread_spin_init(&x, PTHREAD_PROCESS_PRIVATE); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); r = pthread_spin_init(&x, 0); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_spin"); }
      CHECK(pthread_spin_lock(&x) == 0 && pthread_spin_unlock(&x) == 0, "object-unusable"); r = pthread_spin_destroy(&x); CHECKV(r == 0, "destroy-failed", r); break; }
    case 7: { pthread_mutexattr_t a; sim_faults(M); r = pthread_mutexattr_init(&a); sim_faults(0); if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); sim_probe("fail_attr"); break; } r = pthread_mutexattr_destroy(&a); CHECKV(r == 0, "destroy-failed", r); break; }
    case 8: { pthread_condattr_t a; pthread_rwlockattr_t q; sim_faults(M); r = pthread_condattr_init(&a); if (r == 0) { int r2 = pthread_rwlockattr_init(&q); if (r2 == 0) r2 = pthread_rwlockattr_destroy(&q); pthread_condattr_destroy(&a); CHECKV(r2 == 0 || reserr(r2), "create-error", r2); } else CHECKV(reserr(r), "create-error", r); sim_faults(0); break; }
    case 9: { pthread_attr_t a; char nm[32] = "zz"; sim_faults(M); r = pthread_attr_init(&a); if (r) { sim_faults(0); CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); break; }
      sim_faults(0); r = pthread_attr_setname_np(&a, "first"); CHECKV(r == 0, "attr-name", r);
      sim_faults(M); r = pthread_attr_setname_np(&a, "second"); sim_faults(0); CHECKV(r == 0 || reserr(r), "create-error", r);
      { int q = pthread_attr_getname_np(&a, nm, sizeof nm); CHECKV(q == 0, "attr-name", q); CHECK(!strcmp(nm, r ? "first" : "second"), "attr-name"); if (r) sim_probe("fail_attrname"); }
      r = pthread_attr_destroy(&a); CHECKV(r == 0, "destroy-failed", r); break; }
    case 10: { pthread_key_t k; sim_faults(M); r = pthread_key_create(&k, sim_choice(2) ? rdtor : NULL); sim_faults(0);
      if (r) { CHECKV(reserr(r), "create-error", r); chk(b, "leak-on-failure"); r = pthread_key_create(&k, rdtor); CHECKV(r == 0, "create-failed-without-fault", r); sim_probe("fail_key"); }
      { struct base b1 = snap(); void *old = NULL; if (sim_choice(2)) { r = pthread_setspecific(k, &k); CHECKV(r == 0, "object-unusable", r); b1 = snap(); old = &k; }
        sim_faults(M); r = pthread_setspecific(k, &b); sim_faults(0); if (r) { CHECKV(reserr(r), "create-error", r); chk(b1, "leak-on-failure"); CHECK(pthread_getspecific(k) == old, "failed-set-changed-value"); sim_probe("fail_setspecific"); } else CHECK(pthread_getspecific(k) == &b, "object-unusable"); }
      r = pthread_key_delete(k); CHECKV(r == 0, "destroy-failed", r); break; }
    default: { pthread_t t; pthread_attr_t a; int ua = sim_choice(4), det = 0; long s0 = started; void *v;
      pthread_attr_init(&a); if (ua & 2) pthread_attr_setname_np(&a, "some name"); if (sim_choice(3) == 2) { det = 1; pthread_attr_setdetachstate(&a, PTHREAD_CREATE_DETACHED); ua |= 1; }
      if (ua & 2) ua |= 1;
      struct base b1 = snap(); sim_faults(M); r = pthread_create(&t, ua ? &a : NULL, startfn, &t); sim_faults(0);
      if (r) { CHECKV(r == EAGAIN, "create-error", r); sim_settle(0); CHECK(started == s0, "failed-create-ran"); chk(b1, "leak-on-failure"); sim_probe("fail_create"); }
      else { if (det) sim_settle(0); else { v = xjoin(t); CHECK(v == &t, "join-value"); } CHECKV(started == s0 + 1, "created-thread-ran", started - s0); chk(b1, "leak-thread"); }
      pthread_attr_destroy(&a); break; }
    }
    sim_faults(0);
    { struct base y = snap(); if (y.h != b.h || y.b != b.b || y.t != b.t) sim_violation(y.b != b.b ? "leak-memory" : y.h != b.h ? "leak-handles" : "leak-tls", op, y.b - b.b + (y.h - b.h) * 100); }
  }
}
/* concurrent creation under failures */
static volatile long okc, failc, run[64]; static pthread_barrier_t *gb;
static void *conc_body(void *a) { sim_add(&run[IDX(a)], 1); if (sim_choice(2)) sim_yield(); return a; }
static void *creator(void *a)
{
  int id = IDX(a);
  for (int n = 0, m = 1 + sim_choice(3); n < m; n++) {
    int k = 1 + id * 4 + n, det = sim_choice(3) == 2, r; pthread_t t; pthread_attr_t at; pthread_attr_t *ap = NULL; void *v;
    if (det || sim_choice(2)) { if (pthread_attr_init(&at) == 0) { ap = &at; if (pthread_attr_setname_np(ap, "x") == 0) sim_probe("named"); pthread_attr_setdetachstate(ap, det ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE); } else det = 0; }
    r = pthread_create(&t, ap, conc_body, (void *)(size_t)k);
    if (r) { CHECKV(r == EAGAIN, "create-error", r); sim_add(&failc, 1); run[k] += 100; }
    else { sim_add(&okc, 1); if (!det) { do r = pthread_join(t, &v); while (r == EINTR); CHECKV(r == 0, "join-failed", r); CHECK(IDX(v) == k, "join-value"); CHECKV(run[k] == 1, "created-thread-ran", run[k]); } }
    if (ap) pthread_attr_destroy(ap);
  }
  return a;
}
static struct base lib_down(void)
{
  /* what the process's end does by itself (destructor list, the loader's notice), or the calls a program makes */
  switch (sim_choice(4)) { case 3: sim_run_dtors(); sim_probe("process_exit"); return snap(); case 0: sim_probe("process_detach_only"); break; default: pthread_win32_thread_detach_np(); }
  pthread_win32_process_detach_np(); return snap();
}
static void lib_up(void) { if (sim_choice(2)) pthread_win32_process_attach_np(); else sim_run_ctors(); }
SCENARIO(res_create_conc)
{
  struct base b = lib_down(); pthread_t t[4]; int n = 1 + sim_choice(4);
  lib_up();
  for (int i = 0; i < n; i++) t[i] = xcreate(creator, (void *)(size_t)i);
  sim_faults(sim_choice(2) ? F_ALLRES : F_THREAD | F_EVENT | F_ALLOC);
  for (int i = 0; i < n; i++) { int r = pthread_join(t[i], NULL); CHECKV(r == 0, "join-failed", r); }
  sim_faults(0); sim_settle(0);
  long tot = 0; for (int k = 0; k < 64; k++) { CHECKV(run[k] == 0 || run[k] == 1 || run[k] == 100, "created-thread-ran", run[k]); if (run[k] == 1) tot++; }
  CHECKV(tot == okc, "created-thread-ran", tot - okc); CHECK(sim_live_threads() == 1, "threads-left");
  lib_down(); chk(b, "leak");
  if (failc) sim_probe("some_create_failed");
  lib_up();
}
/* C22/C31: a whole life of the library */
static struct { pthread_mutex_t m[3], rm; pthread_cond_t c; pthread_rwlock_t rw; sem_t s; pthread_barrier_t b; pthread_spinlock_t sp; pthread_key_t k[2]; volatile long nb, stop, dead; int nbt; } L;
static pthread_mutex_t L_sm; static pthread_rwlock_t L_sr; static pthread_cond_t L_sc; static pthread_spinlock_t L_ss;
static void l_clean(void *a) { (void)a; sim_add(&L.dead, 1); }
static void *l_thr(void *a)
{
  int id = IDX(a), r, old; struct timespec ts;
  for (int n = sim_choice(6); n > 0; n--) switch (sim_choice(12)) {
    case 0: r = pthread_mutex_lock(&L.m[n % 3]); CHECKV(r == 0, "object-unusable", r); sim_yield(); pthread_mutex_unlock(&L.m[n % 3]); break;
    case 1: pthread_setspecific(L.k[n & 1], &L); break;
    case 2: sem_post(&L.s); sem_wait(&L.s); break;
    case 3: ts = in_ms(2); if (pthread_rwlock_timedwrlock(&L.rw, &ts) == 0) { sim_yield(); pthread_rwlock_unlock(&L.rw); } break;
    case 4: if (pthread_rwlock_rdlock(&L.rw) == 0) pthread_rwlock_unlock(&L.rw); break;
    case 5: r = pthread_mutex_lock(&L.rm); if (r == EOWNERDEAD) pthread_mutex_consistent(&L.rm); if (sim_choice(3) != 2) pthread_mutex_unlock(&L.rm); else return a; break;
    case 6: pthread_cleanup_push(l_clean, a); ts = in_ms(3); pthread_mutex_lock(&L.m[0]); pthread_cleanup_push((void (*)(void *))pthread_mutex_unlock, &L.m[0]); pthread_cond_timedwait(&L.c, &L.m[0], &ts); pthread_cleanup_pop(1); pthread_cleanup_pop(0); break;
    case 7: pthread_spin_lock(&L.sp); sim_yield(); pthread_spin_unlock(&L.sp); pthread_setname_np(pthread_self(), "renamed"); break;
    case 8: pthread_cond_broadcast(&L.c); pthread_mutex_lock(&L_sm); pthread_mutex_unlock(&L_sm); break;
    case 9: if (pthread_rwlock_rdlock(&L_sr) == 0) pthread_rwlock_unlock(&L_sr); pthread_cond_signal(&L_sc); break;
    case 10: if (id < 4) { pthread_t u; pthread_attr_t at; pthread_attr_init(&at); if (sim_choice(2)) pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); pthread_attr_setname_np(&at, "child"); pthread_attr_getdetachstate(&at, &old); r = pthread_create(&u, &at, l_thr, (void *)(size_t)(id + 10)); CHECKV(r == 0, "create-failed", r); if (old == PTHREAD_CREATE_JOINABLE) { if (sim_choice(2)) { r = pthread_detach(u); CHECKV(r == 0, "detach-failed", r); } else { pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); pthread_join(u, NULL); pthread_setcancelstate(old, NULL); } } pthread_attr_destroy(&at); } break;
    default: if (id < 20 && sim_choice(2)) pthread_exit(a); pthread_spin_lock(&L_ss); pthread_spin_unlock(&L_ss); break;
  }
  return a;
}
static void l_dtor(void *v) { (void)v; if (sim_choice(3) == 2) pthread_setspecific(L.k[0], NULL); }
GUEST_IMPORT unsigned __stdcall WaitForSingleObject(void *, unsigned);
GUEST_IMPORT int __stdcall CloseHandle(void *);
static unsigned __stdcall l_w32(void *a) { l_thr(a); thread_ends(); return 0; }
SCENARIO(res_life)
{
  struct base b = lib_down(); int r, cyc = 1 + sim_choice(2);
  for (int q = 0; q < cyc; q++) {
    pthread_t t[4]; int n = 1 + sim_choice(4), how[4]; pthread_mutexattr_t ma;
    if (sim_choice(2)) lib_up();
    memset(&L, 0, sizeof L); pthread_mutexattr_init(&ma);
    L_sm = sim_choice(2) ? PTHREAD_MUTEX_INITIALIZER : PTHREAD_RECURSIVE_MUTEX_INITIALIZER; L_sr = PTHREAD_RWLOCK_INITIALIZER; L_sc = PTHREAD_COND_INITIALIZER; L_ss = PTHREAD_SPINLOCK_INITIALIZER;
    for (int i = 0; i < 3; i++) { pthread_mutexattr_settype(&ma, i); r = pthread_mutex_init(&L.m[i], &ma); CHECKV(r == 0, "setup", r); }
    pthread_mutexattr_settype(&ma, sim_choice(3)); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&L.rm, &ma); CHECKV(r == 0, "setup", r); pthread_mutexattr_destroy(&ma);
    CHECK(pthread_cond_init(&L.c, 0) == 0 && pthread_rwlock_init(&L.rw, 0) == 0 && sem_init(&L.s, 0, 0) == 0 && pthread_spin_init(&L.sp, 0) == 0 && pthread_key_create(&L.k[0], l_dtor) == 0 && pthread_key_create(&L.k[1], l_dtor) == 0, "setup");
    if (sim_choice(2)) pthread_setspecific(L.k[1], &L);
    for (int i = 0; i < n; i++) t[i] = xcreate(l_thr, (void *)(size_t)i);
    void *wh = sim_choice(3) == 2 ? (void *)_beginthreadex(NULL, 0, l_w32, (void *)(size_t)20, 0, NULL) : NULL; if (sim_choice(4) == 3) pthread_setname_np(pthread_self(), "the first");
    for (int i = 0; i < n; i++) { how[i] = sim_choice(4); if (how[i] >= 2) { r = pthread_cancel(t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); sim_probe("cancelled"); } if (how[i] == 3) { r = pthread_detach(t[i]); CHECKV(r == 0, "detach-failed", r); } }
    for (int i = 0; i < n; i++) if (how[i] != 3) { r = pthread_join(t[i], NULL); CHECKV(r == 0, "join-failed", r); }
    if (wh) { WaitForSingleObject(wh, 0xffffffff); CloseHandle(wh); sim_probe("win32_thread"); }
    for (int g = 0; sim_live_threads() > 1 && g < 50; g++) { sim_settle(1); sim_yield(); }
    CHECKV(sim_live_threads() == 1, "threads-left", sim_live_threads());
    r = pthread_mutex_lock(&L.rm); if (r == EOWNERDEAD) { pthread_mutex_consistent(&L.rm); sim_probe("robust_dead"); r = 0; } CHECKV(r == 0, "object-unusable", r); pthread_mutex_unlock(&L.rm);
    r = pthread_mutex_destroy(&L.rm); CHECKV(r == 0, "destroy-failed", r);
    for (int i = 0; i < 3; i++) { r = pthread_mutex_destroy(&L.m[i]); CHECKV(r == 0, "destroy-failed", r); }
    r = pthread_mutex_destroy(&L_sm); CHECKV(r == 0, "destroy-failed", r); r = pthread_rwlock_destroy(&L_sr); CHECKV(r == 0, "destroy-failed", r); r = pthread_cond_destroy(&L_sc); CHECKV(r == 0, "destroy-failed", r); r = pthread_spin_destroy(&L_ss); CHECKV(r == 0, "destroy-failed", r);
    r = pthread_cond_destroy(&L.c); CHECKV(r == 0, "destroy-failed", r); r = pthread_rwlock_destroy(&L.rw); CHECKV(r == 0, "destroy-failed", r); r = sem_destroy(&L.s); CHECKV(r == 0, "destroy-failed", errno); r = pthread_spin_destroy(&L.sp); CHECKV(r == 0, "destroy-failed", r);
    for (int i = 0; i < 2; i++) { r = pthread_key_delete(L.k[i]); CHECKV(r == 0, "destroy-failed", r); }
    lib_down(); chk(b, "leak");
  }
  lib_up();
}
SCENARIO(attach_faults)
{
  struct base b = lib_down(); int r, ok;
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    sim_faults(F_TLS | F_ALLOC); int at = sim_choice(2); ok = at ? pthread_win32_process_attach_np() : pthread_self().p != NULL; sim_faults(0);
    if (!ok) { if (at) chk(b, "leak-on-failure"); sim_probe("attach_failed"); if (sim_choice(2)) { pthread_win32_process_detach_np(); chk(b, "leak-on-failure"); } ok = pthread_win32_process_attach_np(); CHECK(ok, "attach-after-failure"); }
    pthread_t s = pthread_self(), t; CHECK(s.p && pthread_equal(s, pthread_self()), "identity");
    pthread_key_t k; r = pthread_key_create(&k, rdtor); CHECKV(r == 0, "object-unusable", r); CHECK(pthread_getspecific(k) == NULL, "object-unusable"); r = pthread_setspecific(k, &k); CHECKV(r == 0 && pthread_getspecific(k) == &k, "object-unusable", r); CHECK(pthread_equal(s, pthread_self()), "identity"); pthread_setspecific(k, NULL); pthread_key_delete(k);
    t = xcreate(nop, &b); CHECK(xjoin(t) == &b, "join-value"); CHECK(pthread_equal(s, pthread_self()), "identity");
    lib_down(); chk(b, "leak");
  }
  lib_up();
}
/* C22: threads that have come and gone leave nothing behind, also while the keys they used live on */
static struct { pthread_key_t k[3]; int nk; pthread_mutex_t m; volatile long alive, go, calls; } RK;
static void rk_dtor(void *v) { (void)v; sim_add(&RK.calls, 1); if (sim_choice(8) == 7) pthread_setspecific(RK.k[0], v); }
static void *rk_thr(void *a)
{
  int first = IDX(a) == 1;
  sim_add(&RK.alive, 1); if (first) while (!RK.go) sim_yield();
  for (int i = 0; i < RK.nk; i++) if (first || sim_choice(2)) { int r = pthread_setspecific(RK.k[i], &RK); CHECKV(r == 0, "setspecific", r); if (!first && sim_choice(4) == 3) { r = pthread_setspecific(RK.k[i], sim_choice(2) ? NULL : a); CHECKV(r == 0, "setspecific", r); } }
  if (first || sim_choice(2)) { pthread_mutex_lock(&RK.m); pthread_mutex_unlock(&RK.m); }
  switch (first ? 0 : sim_choice(4)) { case 1: pthread_exit(a); break; case 2: pthread_setname_np(pthread_self(), "some name"); break; case 3: for (;;) { struct timespec ts = {0, 1000000}; pthread_delay_np(&ts); if (sim_choice(2)) break; } }
  return a;
}
static unsigned __stdcall rk_w32(void *a) { (void)a; for (int i = 0; i < RK.nk; i++) if (sim_choice(2)) pthread_setspecific(RK.k[i], &RK); pthread_self(); thread_ends(); return 0; }
SCENARIO(res_rounds)
{
  pthread_t t[4]; int n = 1 + sim_choice(3), r; struct base b; memset(&b, 0, sizeof b);
  memset(&RK, 0, sizeof RK); RK.nk = 1 + sim_choice(3); CHECK(pthread_mutex_init(&RK.m, NULL) == 0, "setup");
  for (int i = 0; i < RK.nk; i++) { r = pthread_key_create(&RK.k[i], sim_choice(4) ? rk_dtor : NULL); CHECKV(r == 0, "setup", r); }
  /* the first round brings the library to its highest number of threads (it keeps their blocks for reuse); later ones add nothing */
  for (int q = 0, qn = 2 + sim_choice(2); q <= qn; q++) {
    int m = q ? 1 + sim_choice(n) : n + 1;
    if (q == 0) { RK.alive = RK.go = 0; for (int i = 0; i < m; i++) t[i] = xcreate(rk_thr, (void *)1); while (RK.alive < m) sim_yield(); RK.go = 1; for (int i = 0; i < m; i++) xjoin(t[i]); }
    else {
      void *wh = NULL; int how[4];
      for (int i = 0; i < m; i++) t[i] = xcreate(rk_thr, (void *)2);
      if (sim_choice(4) == 3) wh = (void *)_beginthreadex(NULL, 0, rk_w32, NULL, 0, NULL);
      for (int i = 0; i < m; i++) { how[i] = sim_choice(4); if (how[i] == 3) { r = pthread_cancel(t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); } if (how[i] == 2) { r = pthread_detach(t[i]); CHECKV(r == 0, "detach-failed", r); } else { r = pthread_join(t[i], NULL); CHECKV(r == 0, "join-failed", r); } }
      if (wh) { WaitForSingleObject(wh, 0xffffffff); CloseHandle(wh); sim_probe("win32_thread"); }
    }
    for (int g = 0; sim_live_threads() > 1 && g < 50; g++) { sim_settle(1); sim_yield(); }
    CHECKV(sim_live_threads() == 1, "threads-left", sim_live_threads());
    if (q == 0) b = snap(); else { chk(b, "leak-thread"); sim_probe("rounds"); }
  }
  for (int i = 0; i < RK.nk; i++) { r = pthread_key_delete(RK.k[i]); CHECKV(r == 0, "destroy-failed", r); }
}
