#include "common.h"
/* C16 deferred cancellation, C17 asynchronous cancellation, C18 cleanup handlers. */
#define NT 4
static struct {
  volatile long requested[NT], armed[NT], inhandlers[NT], ran[NT], work[NT], unlocked, end[NT]; int mode[NT], cnt[NT]; pthread_t t[NT];
  sem_t s; pthread_mutex_t m; pthread_cond_t c; pthread_t never; volatile int flag;
} P;
static void *sleeper(void *a) { int r; (void)a; do r = sem_wait(&P.s); while (r); return (void *)9; }
static struct { sem_t s; pthread_key_t k; pthread_spinlock_t sp; pthread_barrier_t b; pthread_rwlock_t l; volatile long once, in[NT]; int kids[NT]; } CALM;
/* ---- every cancellation point acts on a request made before or during it */
static void c_handler(void *a)
{
  int i = IDX(a), old;
  CHECK(P.requested[i], "cancel-spurious"); CHECK(!CALM.in[i], "cancelled-elsewhere");
  sim_add(&P.ran[i], 1);
  if (P.mode[i] == 2 || P.mode[i] == 3) { int r = pthread_mutex_unlock(&P.m); CHECKV(r == 0, "cancelled-wait-without-mutex", r); }
  (void)old;
}
static void calm_once(void) { sim_add(&CALM.once, 1); }
static void *calm_child(void *a) { return a; }
/* calls that are no cancellation points, between which a deferred request has to wait */
static void c_calm(int i)
{
  int r, v; struct timespec ts; pthread_once_t o = PTHREAD_ONCE_INIT; pthread_t t;
  CALM.in[i] = 1;
  for (int k = sim_choice(5); k > 0; k--) switch (sim_choice(17)) {
    case 0: r = pthread_mutex_lock(&P.m); CHECKV(r == 0, "mutex-lock", r); sim_yield(); r = pthread_mutex_unlock(&P.m); CHECKV(r == 0, "mutex-unlock", r); break;
    case 1: r = pthread_mutex_trylock(&P.m); CHECKV(r == 0 || r == EBUSY, "mutex-lock", r); if (!r) { sim_yield(); r = pthread_mutex_unlock(&P.m); CHECKV(r == 0, "mutex-unlock", r); } break;
    case 2: ts = in_ms(sim_choice(3)); r = pthread_mutex_timedlock(&P.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "mutex-lock", r); if (!r) { sim_yield(); r = pthread_mutex_unlock(&P.m); CHECKV(r == 0, "mutex-unlock", r); } break;
    case 3: r = pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &v); CHECKV(r == 0 && v == PTHREAD_CANCEL_DEFERRED, "setcanceltype", r); break;
    case 4: r = pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &v); CHECKV(r == 0 && v == PTHREAD_CANCEL_ENABLE, "setcancelstate", r); break;
    case 5: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &v); CHECKV(r == 0, "setcancelstate", r); if (sim_choice(2)) pthread_testcancel(); r = pthread_setcancelstate(v, NULL); CHECKV(r == 0, "setcancelstate", r); break;
    case 6: r = sem_post(&CALM.s); CHECKV(r == 0, "sem-post", errno); do r = sem_trywait(&CALM.s); while (r); break;
    case 7: r = pthread_cond_signal(&P.c); CHECKV(r == 0, "cond-signal", r); break;
    case 8: r = pthread_cond_broadcast(&P.c); CHECKV(r == 0, "cond-signal", r); break;
    case 9: r = pthread_setspecific(CALM.k, &CALM); CHECKV(r == 0 && pthread_getspecific(CALM.k) == &CALM, "tsd-set", r); break;
    case 10: r = pthread_once(&o, calm_once); CHECKV(r == 0, "once-result", r); break;
    case 11: r = pthread_spin_lock(&CALM.sp); CHECKV(r == 0, "spin-lock", r); r = pthread_spin_unlock(&CALM.sp); CHECKV(r == 0, "spin-lock", r); break;
    case 12: r = pthread_barrier_wait(&CALM.b); CHECKV(r == 0 || r == PTHREAD_BARRIER_SERIAL_THREAD, "barrier-wait", r); break;
    case 13: r = pthread_rwlock_tryrdlock(&CALM.l); CHECKV(r == 0 || r == EBUSY, "rwlock-lock", r); if (!r) { r = pthread_rwlock_unlock(&CALM.l); CHECKV(r == 0, "rwlock-lock", r); } break;
    case 14: if (CALM.kids[i]++ >= 2) break; r = pthread_create(&t, NULL, calm_child, (void *)(size_t)i); CHECKV(r == 0, "create", r); r = pthread_detach(t); CHECKV(r == 0, "detach", r); break;
    case 15: r = pthread_kill(pthread_self(), 0); CHECKV(r == 0, "kill-self", r); sched_yield(); break;
    default: r = sem_post_multiple(&CALM.s, 2); CHECKV(r == 0, "sem-post", errno); do r = sem_trywait(&CALM.s); while (r); do r = sem_trywait(&CALM.s); while (r);
  }
  CALM.in[i] = 0;
}
static void c_point(int i, int mode)
{
  struct timespec ts; int r; void *v;
  switch (mode) {
  case 0: pthread_testcancel(); sim_yield(); break;
  case 1: r = sem_wait(&P.s); CHECKV(r == 0, "sem-wait-result", errno); CHECK(0, "wait-returned-without-post"); break;
  case 2: r = pthread_mutex_lock(&P.m); CHECK(r == 0, "mutex-lock"); P.armed[i] = 2; for (;;) { r = pthread_cond_wait(&P.c, &P.m); CHECKV(r == 0, "cond-wait-result", r); }
  case 3: r = pthread_mutex_lock(&P.m); CHECK(r == 0, "mutex-lock"); for (;;) { ts = in_ms(1 + sim_choice(3) * 100000); r = pthread_cond_timedwait(&P.c, &P.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-wait-result", r); }
  case 4: ts = in_ms(1 + sim_choice(3) * 100000); r = sem_timedwait(&P.s, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "sem-timedwait-result", errno); break;
  case 5: r = pthread_join(P.never, &v); CHECKV(0, "join-returned", r); break;
  case 6: ts = in_ms(1 + sim_choice(3) * 100000); r = pthread_timedjoin_np(P.never, &v, &ts); CHECKV(r == ETIMEDOUT, "timedjoin-result", r); break;
  case 7: ts.tv_sec = sim_choice(2) * 1000; ts.tv_nsec = ts.tv_sec ? 0 : 3000000; r = pthread_delay_np(&ts); CHECKV(r == 0, "delay-result", r); break;
  default: ts.tv_sec = ts.tv_nsec = 0; r = pthread_delay_np(&ts); CHECKV(r == 0, "delay-result", r); break;
  }
}
static void *c_thr(void *a)
{
  int i = IDX(a), mode = P.mode[i], old, r; volatile long w = 0;
  pthread_cleanup_push(c_handler, a);
  if (sim_choice(3) == 2) sim_stall();
  if (P.cnt[i]) {          /* a section with cancellation disabled: nothing may happen in it */
    r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_ENABLE, "setcancelstate", r);
    P.armed[i] = 1;
    for (int k = sim_choice(4); k >= 0; k--) {
      struct timespec ts;
      switch (sim_choice(5)) {
      case 0: pthread_testcancel(); break;
      case 1: ts = in_ms(1); r = sem_timedwait(&P.s, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "sem-timedwait-result", errno); break;
      case 2: ts.tv_sec = 0; ts.tv_nsec = 1000000; r = pthread_delay_np(&ts); CHECKV(r == 0, "delay-result", r); break;
      case 3: r = pthread_mutex_lock(&P.m); CHECK(r == 0, "mutex-lock"); ts = in_ms(1); r = pthread_cond_timedwait(&P.c, &P.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-wait-result", r); r = pthread_mutex_unlock(&P.m); CHECK(r == 0, "mutex-unlock"); break;
      default: sim_yield();
      }
    }
    w = P.requested[i];
    CHECK(P.ran[i] == 0, "cancelled-while-disabled"); P.armed[i] = 0;
    r = pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_DISABLE, "setcancelstate", r);
    if (w == 2) { sim_probe("pending_at_enable"); }
  }
  /* deferred: ordinary code is never interrupted */
  c_calm(i);
  w = P.requested[i] == 2;       /* the request was complete before we got here */
  for (;;) { c_point(i, mode); CHECK(!w, "cancellation-point-missed"); w = P.requested[i] == 2; if (sim_choice(4) == 3 && mode != 2 && mode != 3) c_calm(i); else sim_yield(); }
  pthread_cleanup_pop(0);
  return 0;
}
static void *c_killer(void *a)
{
  int i = IDX(a), r;
  sim_stall();
  if (!P.requested[i]) P.requested[i] = 1;
  r = pthread_cancel(P.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r);
  P.requested[i] = 2;
  return 0;
}
SCENARIO(cancel_deferred)
{
  int n = 1 + sim_choice(NT), r, two = sim_choice(3) == 2; pthread_t k[NT * 2]; int nk = 0;
  CHECK(sem_init(&P.s, 0, 0) == 0 && pthread_mutex_init(&P.m, NULL) == 0 && pthread_cond_init(&P.c, NULL) == 0, "setup");
  CHECK(sem_init(&CALM.s, 0, 0) == 0 && pthread_key_create(&CALM.k, NULL) == 0 && pthread_spin_init(&CALM.sp, 0) == 0 && pthread_barrier_init(&CALM.b, NULL, 1) == 0 && pthread_rwlock_init(&CALM.l, NULL) == 0, "setup");
  P.never = xcreate(sleeper, 0);
  sim_faults(F_LATE);
  int joinuser = -1;
  for (int i = 0; i < n; i++) {
    P.mode[i] = sim_choice(9); if (P.mode[i] == 5 || P.mode[i] == 6) { if (joinuser >= 0) P.mode[i] = 0; else joinuser = i; }
    P.cnt[i] = sim_choice(2); P.t[i] = xcreate(c_thr, (void *)(size_t)i);
  }
  if (sim_choice(3) == 0) sim_stall();
  for (int i = 0; i < n; i++) { if (sim_choice(2)) k[nk++] = xcreate(c_killer, (void *)(size_t)i); else c_killer((void *)(size_t)i); if (two) k[nk++] = xcreate(c_killer, (void *)(size_t)i); }
  for (int i = 0; i < nk; i++) xjoin(k[i]);
  for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECKV(v == PTHREAD_CANCELED, "join-value", v); CHECKV(P.ran[i] == 1, "cleanup-count", P.ran[i]); }
  /* the objects they waited on are untouched */
  r = pthread_mutex_trylock(&P.m); CHECKV(r == 0, "mutex-left-locked", r); pthread_mutex_unlock(&P.m);
  { int v; CHECK(sem_getvalue(&P.s, &v) == 0, "sem-getvalue"); CHECKV(v == -1 || v == 0, "sem-value", v); }
  r = pthread_cond_destroy(&P.c); CHECKV(r == 0, "cond-destroy", r);
  sem_post(&P.s); CHECK(xjoin(P.never) == (void *)9, "join-value");
  r = pthread_mutex_destroy(&P.m); CHECKV(r == 0, "mutex-destroy", r);
  r = sem_destroy(&P.s); CHECKV(r == 0, "sem-destroy", r);
}
/* ---- cancellation races with the end of the thread: exactly one outcome */
static pthread_key_t r_key; static long r_dt[NT]; static int r_keyed; static sem_t r_never;
static void r_dtor(void *v)    /* the thread has ended: a request still pending or arriving now is not acted upon any more */
{
  int i = IDX(v) & 0xf, r; struct timespec ts;
  for (int n = sim_choice(4); n > 0; n--) switch (sim_choice(4)) {
    case 0: pthread_testcancel(); break;
    case 1: ts = in_ms(2); r = sem_timedwait(&r_never, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "wait-in-destructor", errno); break;
    case 2: ts.tv_sec = 0; ts.tv_nsec = 1000000; r = pthread_delay_np(&ts); CHECKV(r == 0, "wait-in-destructor", r); break;
    default: sim_yield();
  }
  sim_add(&r_dt[i], 1);
}
static void *r_thr(void *a)
{
  int i = IDX(a);
  if (r_keyed) { int r = pthread_setspecific(r_key, (void *)(size_t)(i + 16)); CHECKV(r == 0, "setup", r); }
  pthread_cleanup_push(c_handler, a);
  for (int k = sim_choice(4); k > 0; k--) { if (sim_choice(2)) pthread_testcancel(); else sim_yield(); }
  pthread_cleanup_pop(0);
  P.end[i] = 1;
  if (sim_choice(2)) pthread_exit((void *)(size_t)(0x40 + i));
  return (void *)(size_t)(0x40 + i);
}
SCENARIO(cancel_vs_exit)
{
  int n = 1 + sim_choice(NT), r; pthread_t k[NT];
  CHECK(pthread_mutex_init(&P.m, NULL) == 0, "setup");
  r_keyed = sim_choice(2); if (r_keyed) CHECK(sem_init(&r_never, 0, 0) == 0 && pthread_key_create(&r_key, r_dtor) == 0, "setup");
  for (int i = 0; i < n; i++) P.t[i] = xcreate(r_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) k[i] = xcreate(c_killer, (void *)(size_t)i);
  if (sim_choice(2)) for (int i = 0; i < n; i++) c_killer((void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(k[i]);
  for (int i = 0; i < n; i++) {
    void *v = xjoin(P.t[i]);
    if (P.end[i]) CHECKV(v == (void *)(size_t)(0x40 + i), "join-value", v); else { CHECKV(v == PTHREAD_CANCELED, "join-value", v); sim_probe("cancelled_before_end"); }
    CHECKV(P.ran[i] == !P.end[i], "cleanup-count", P.ran[i]);
    if (r_keyed) { CHECKV(r_dt[i] == 1, "destructor-count", r_dt[i]); sim_probe("destructor_cancel_points"); }
  }
}
/* ---- cleanup handlers: last pushed first, each exactly once, at exit, cancellation and pop */
static struct { int stack[NT][16], sp[NT], leave[NT], nested[NT]; int tdone[NT]; sem_t never; pthread_key_t key; } K;
static void k_expect(int i, int id) { CHECKV(K.sp[i] > 0 && K.stack[i][K.sp[i] - 1] == id, "cleanup-order", id); K.sp[i]--; sim_add(&P.ran[i], 1); }
static void k_inner(void *a) { int i = IDX(a); k_expect(i, 99); }
static void k_handler(void *a)
{
  int i = IDX(a) & 0xf, d = IDX(a) >> 4, r, ex = sim_choice(2);
  k_expect(i, d);
  CHECK(!K.tdone[i], "cleanup-after-destructors");
  if (sim_choice(3) == 2 && K.nested[i] < 2) {        /* handlers may use handlers, and wait: they are not cancelled again */
    K.nested[i]++;
    K.stack[i][K.sp[i]++] = 99;
    pthread_cleanup_push(k_inner, (void *)(size_t)i);
    switch (sim_choice(3)) {
    case 0: { struct timespec ts = in_ms(1); r = sem_timedwait(&K.never, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "wait-in-cleanup", errno); break; }
    case 1: pthread_testcancel(); break;
    default: { struct timespec ts = {0, 1000000}; r = pthread_delay_np(&ts); CHECKV(r == 0, "wait-in-cleanup", r); }
    }
    pthread_cleanup_pop(ex);
    if (!ex) { CHECK(K.stack[i][K.sp[i] - 1] == 99, "cleanup-order"); K.sp[i]--; }
    K.nested[i]--; sim_probe("handler_in_handler");
  }
  sim_yield();
}
static void k_dtor(void *v) { int i = IDX(v) - 50; K.tdone[i] = 1; CHECKV(K.sp[i] == 0, "cleanup-not-run", K.sp[i]); }
static void k_rec(int i, int d, int max)
{
  int ex = sim_choice(2), twice = sim_choice(3) == 2;
  CHECK(K.sp[i] == d, "cleanup-order");
  K.stack[i][K.sp[i]++] = d;
  pthread_cleanup_push(k_handler, (void *)(size_t)(d << 4 | i));
  if (d < max) { k_rec(i, d + 1, max); if (twice) k_rec(i, d + 1, max); }
  else if (K.leave[i] == 1) { int old; if (sim_choice(2)) pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); pthread_exit((void *)5); }
  else if (K.leave[i] == 2) for (;;) { pthread_testcancel(); sim_yield(); }
  else if (K.leave[i] == 3) { int r = sem_wait(&K.never); CHECK(r == 0, "sem-wait-result"); }
  else if (K.leave[i] == 4) { if (sim_choice(3) == 2) K.leave[i] = 1; pthread_testcancel(); }
  pthread_cleanup_pop(ex);
  if (!ex) { CHECK(K.sp[i] == d + 1, "cleanup-order"); K.sp[i]--; }
  CHECK(K.sp[i] == d, "cleanup-order");
}
static void *k_thr(void *a)
{
  int i = IDX(a);
  pthread_setspecific(K.key, (void *)(size_t)(50 + i));
  k_rec(i, 0, sim_choice(4));
  CHECK(K.sp[i] == 0, "cleanup-not-run");
  if (K.leave[i] > 1 && sim_choice(2)) { K.stack[i][K.sp[i]++] = 7; pthread_cleanup_push(k_handler, (void *)(size_t)(7 << 4 | i)); pthread_testcancel(); pthread_cleanup_pop(0); K.sp[i]--; }
  return (void *)6;
}
SCENARIO(cleanup_order)
{
  int n = 1 + sim_choice(3), r; pthread_t k[NT]; int c[NT] = {0};
  CHECK(sem_init(&K.never, 0, 0) == 0 && pthread_key_create(&K.key, k_dtor) == 0, "setup");
  for (int i = 0; i < n; i++) { K.leave[i] = sim_choice(5); P.t[i] = xcreate(k_thr, (void *)(size_t)i); }
  for (int i = 0; i < n; i++) { c[i] = K.leave[i] == 2 || K.leave[i] == 3 || sim_choice(2); if (c[i]) { if (sim_choice(2)) sim_stall(); r = pthread_cancel(P.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); if (sim_choice(3) == 2) { r = pthread_cancel(P.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); } } }
  for (int i = 0; i < n; i++) {
    void *v = xjoin(P.t[i]);
    CHECKV(v == (void *)5 || v == (void *)6 || (v == PTHREAD_CANCELED && c[i]), "join-value", v);
    CHECKV(K.sp[i] == 0, "cleanup-not-run", K.sp[i]); CHECK(K.tdone[i], "destructor-not-run");
  }
}
/* ---- asynchronous cancellation of computing threads */
static void a_handler(void *a) { int i = IDX(a); CHECK(P.requested[i], "cancel-spurious"); CHECK(!P.armed[i], "cancelled-while-disabled"); sim_add(&P.ran[i], 1); }
static void *a_thr(void *a)
{
  int i = IDX(a), r, old; volatile unsigned x = 1;
  pthread_cleanup_push(a_handler, a);
  if (P.mode[i] == 1) { r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECK(r == 0, "setcancelstate"); P.armed[i] = 1; }
  if (P.mode[i] >= 2) for (int k = 2 + sim_choice(20); k; k--) x = x * 3 + 1;
  r = pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_DEFERRED, "setcanceltype", r);
  if (P.mode[i] == 1) {
    for (int k = sim_choice(60); k; k--) x = x * 3 + 1;
    P.armed[i] = 0;
    r = pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_DISABLE, "setcancelstate", r);
  }
  if (P.mode[i] == 3) {     /* in and out of the asynchronous section */
    for (int k = 1 + sim_choice(5); k; k--) {
      x = x * 3 + 1;
      r = pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old); CHECK(r == 0 && old == PTHREAD_CANCEL_ASYNCHRONOUS, "setcanceltype"); P.armed[i] = 1;
      x = x * 3 + 1; sim_yield();
      P.armed[i] = 0; r = pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old); CHECK(r == 0 && old == PTHREAD_CANCEL_DEFERRED, "setcanceltype");
    }
  }
  if (P.mode[i] == 4) {     /* ends by itself, maybe */
    for (int k = sim_choice(30); k; k--) x = x * 3 + 1;
    P.end[i] = 1;
  } else for (;;) x = x * 3 + 1;
  pthread_cleanup_pop(0);
  return (void *)6;
}
static void *i_ok(void *a) { pthread_mutex_lock(&P.m); pthread_mutex_unlock(&P.m); return (void *)8; }
static void a_common(int modes)
{
  int n = 1 + sim_choice(3), r, two = sim_choice(2); pthread_t k[NT * 2]; int nk = 0;
  for (int i = 0; i < n; i++) { P.mode[i] = sim_choice(modes); P.t[i] = xcreate(a_thr, (void *)(size_t)i); }
  for (int i = 0; i < n; i++) { k[nk++] = xcreate(c_killer, (void *)(size_t)i); if (two) k[nk++] = xcreate(c_killer, (void *)(size_t)i); }
  for (int i = 0; i < nk; i++) xjoin(k[i]);
  for (int i = 0; i < n; i++) {
    void *v = xjoin(P.t[i]);
    CHECKV(v == PTHREAD_CANCELED || (P.end[i] && v == (void *)6), "join-value", v);
    if (P.end[i] && v == (void *)6) CHECKV(P.ran[i] == 0, "cleanup-count", P.ran[i]); else if (!P.end[i]) { CHECKV(P.ran[i] == 1, "cleanup-count", P.ran[i]); sim_probe("async_cancelled"); }
  }
  /* the library survived it */
  r = pthread_mutex_init(&P.m, NULL); CHECK(r == 0, "setup"); P.cnt[0] = 0;
  P.t[0] = xcreate(i_ok, 0); CHECK(xjoin(P.t[0]) == (void *)8, "join-value");
}
SCENARIO(cancel_async) { a_common(4); }
/* the three async-cancel-safe calls: a thread may be cancelled asynchronously while it is itself cancelling others */
static void *ac_thr(void *a)
{
  int i = IDX(a), n = P.cnt[0], r, old;
  pthread_cleanup_push(a_handler, a);
  r = pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &old); CHECKV(r == 0, "setcanceltype", r);
  for (;;) {
    int j = (i + 1) % n;
    if (P.t[j].p && P.flag) { if (!P.requested[j]) P.requested[j] = 1; r = pthread_cancel(P.t[j]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); P.requested[j] = 2; }
    else sim_yield();
  }
  pthread_cleanup_pop(0);
  return (void *)6;
}
SCENARIO(cancel_async_ring)
{
  int n = 2 + sim_choice(2); P.cnt[0] = n;
  for (int i = 0; i < n; i++) P.t[i] = xcreate(ac_thr, (void *)(size_t)i);
  P.flag = 1;
  if (sim_choice(2)) c_killer(0);
  for (int i = 0; i < n; i++) { sim_stall(); c_killer((void *)(size_t)i); }
  for (int i = 0; i < n; i++) while (!P.ran[i]) { struct timespec ts = {0, 1000000}; pthread_delay_np(&ts); }   /* nobody is using an id any more */
  for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECKV(v == PTHREAD_CANCELED, "join-value", v); CHECKV(P.ran[i] == 1, "cleanup-count", P.ran[i]); }
}
SCENARIO(cancel_async_exit) { a_common(5); }
/* C17: a thread cancels itself, whatever its type and state, while others cancel it too */
static struct { pthread_key_t key; volatile long d[NT], dis[NT], must[NT]; } S;
static void s_free(int i)      /* the thread's own state can still be changed */
{
  int r, old;
  r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0, "setcancelstate", r);
  r = pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old); CHECKV(r == 0, "setcanceltype", r);
  r = pthread_cancel(P.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r);
  pthread_testcancel();
}
static void s_handler(void *a) { int i = IDX(a); CHECK(P.requested[i], "cancel-spurious"); CHECK(!S.dis[i], "cancelled-while-disabled"); sim_add(&P.ran[i], 1); if (sim_choice(2)) s_free(i); }
static void s_dtor(void *v) { int i = IDX(v) - 1; sim_add(&S.d[i], 1); if (sim_choice(2)) s_free(i); }
static void *s_thr(void *a)
{
  int i = IDX(a), r, old, type = PTHREAD_CANCEL_DEFERRED, state = PTHREAD_CANCEL_ENABLE, req = 0;
  P.t[i] = pthread_self(); P.armed[i] = 1;
  r = pthread_setspecific(S.key, (void *)(size_t)(i + 1)); CHECKV(r == 0, "setup", r);
  pthread_cleanup_push(s_handler, a);
  for (;;) {
    switch (sim_choice(5)) {
    case 0: { int to = sim_choice(2) ? PTHREAD_CANCEL_ASYNCHRONOUS : PTHREAD_CANCEL_DEFERRED; r = pthread_setcanceltype(to, &old); CHECKV(r == 0 && old == type, "setcanceltype", old); type = to; break; }
    case 1: { int to = sim_choice(2) ? PTHREAD_CANCEL_ENABLE : PTHREAD_CANCEL_DISABLE; if (to == PTHREAD_CANCEL_ENABLE) S.dis[i] = 0; r = pthread_setcancelstate(to, &old); CHECKV(r == 0 && old == state, "setcancelstate", old); state = to; S.dis[i] = to == PTHREAD_CANCEL_DISABLE; break; }
    case 2: if (!P.requested[i]) P.requested[i] = 1; r = pthread_cancel(P.t[i]); CHECKV(r == 0, "cancel-result", r); req = 1; sim_probe("cancelled_itself"); break;
    case 3: pthread_testcancel(); CHECK(!(req && state == PTHREAD_CANCEL_ENABLE), "cancellation-point-missed"); break;
    default: sim_yield();
    }
    if (type == PTHREAD_CANCEL_ASYNCHRONOUS && state == PTHREAD_CANCEL_ENABLE && req) sim_violation("async-self-cancel-ignored", i, 0);
  }
  pthread_cleanup_pop(0);
  return 0;
}
SCENARIO(cancel_self)
{
  int n = 1 + sim_choice(3), r, others = sim_choice(3); pthread_t k[NT * 2], t[NT]; int nk = 0;
  r = pthread_key_create(&S.key, s_dtor); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) t[i] = xcreate(s_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) { while (!P.armed[i]) sim_yield(); for (int j = 0; j < others; j++) k[nk++] = xcreate(c_killer, (void *)(size_t)i); }
  for (int i = 0; i < nk; i++) xjoin(k[i]);
  for (int i = 0; i < n; i++) { void *v = xjoin(t[i]); CHECKV(v == PTHREAD_CANCELED, "join-value", v); CHECKV(P.ran[i] == 1, "cleanup-count", P.ran[i]); CHECKV(S.d[i] == 1, "destructor-count", S.d[i]); }
  r = pthread_mutex_init(&P.m, NULL); CHECK(r == 0, "setup");
  P.t[0] = xcreate(i_ok, 0); CHECK(xjoin(P.t[0]) == (void *)8, "join-value");
}
/* ---- pthreadCancelableWait makes a wait on any Win32 handle a cancellation point, and takes nothing when it is cancelled */
#ifndef WAIT_TIMEOUT
#define WAIT_TIMEOUT 258
#endif
GUEST_IMPORT void *CreateSemaphoreA(void *, long, long, const char *); GUEST_IMPORT int ReleaseSemaphore(void *, long, long *);
GUEST_IMPORT unsigned long WaitForSingleObject(void *, unsigned long); GUEST_IMPORT int CloseHandle(void *);
static struct { void *h; volatile long took, req[NT], off[NT], handler[NT], done; pthread_t t[NT]; } N;
static void n_handler(void *a) { int i = IDX(a); CHECK(N.req[i], "cancel-spurious"); CHECK(!N.off[i], "cancelled-while-disabled"); sim_add(&N.handler[i], 1); }
static void *n_thr(void *a)
{
  int i = IDX(a), r, old, off = sim_choice(3) == 2; long w;
  pthread_cleanup_push(n_handler, a);
  if (off) { r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0, "setcancelstate", r); N.off[i] = 1; }
  for (int got = 0; !got;) {
    w = N.req[i] == 2;
    if (sim_choice(2)) r = pthreadCancelableWait(N.h);
    else {
      long long t0 = sim_now(), dt; unsigned long ms = sim_choice(3) * 40;
      r = pthreadCancelableTimedWait(N.h, ms); dt = sim_now() - t0;
      CHECKV(r == 0 || r == ETIMEDOUT, "native-wait-result", r);
      if (r == ETIMEDOUT) { CHECKV(dt >= ms * 10000LL, "native-wait-short", dt); if (w && !off) CHECK(0, "cancellation-point-missed"); continue; }
    }
    CHECKV(r == 0, "native-wait-result", r); sim_add(&N.took, 1); got = 1;
  }
  if (off) { N.off[i] = 0; r = pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_DISABLE, "setcancelstate", r); pthread_testcancel(); CHECK(!w, "cancellation-point-missed"); }
  pthread_cleanup_pop(0);
  sim_add(&N.done, 1);
  return a;
}
static void *n_killer(void *a) { int i = IDX(a), r; if (!N.req[i]) N.req[i] = 1; r = pthread_cancel(N.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); N.req[i] = 2; return 0; }
SCENARIO(cancel_native)
{
  int n = 1 + sim_choice(NT), posted = sim_choice(2), nk = 0, ended = 0; pthread_t k[NT];
  N.h = CreateSemaphoreA(0, posted, 1000, 0); CHECK(N.h != 0, "setup");
  for (int i = 0; i < n; i++) N.t[i] = xcreate(n_thr, (void *)(size_t)i);
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) switch (sim_choice(4)) {
    case 0: k[nk++] = xcreate(n_killer, (void *)(size_t)i); break;
    case 1: n_killer((void *)(size_t)i); break;
    case 2: CHECK(ReleaseSemaphore(N.h, 1, 0), "setup"); posted++; break;
    default: sim_stall();
  }
  for (int i = 0; i < nk; i++) xjoin(k[i]);
  if (sim_choice(2)) { /* those that were asked to end do so without a post, unless they disabled cancellation */
    for (int i = 0; i < n; i++) if (N.req[i] && !N.off[i]) sim_probe("cancel_alone");
  }
  for (; posted < n; posted++) CHECK(ReleaseSemaphore(N.h, 1, 0), "setup");
  for (int i = 0; i < n; i++) {
    void *v = xjoin(N.t[i]);
    if (v == PTHREAD_CANCELED) { CHECK(N.req[i], "cancel-spurious"); CHECKV(N.handler[i] == 1, "cleanup-count", N.handler[i]); ended++; }
    else { CHECKV(v == (void *)(size_t)i, "join-value", v); CHECKV(N.handler[i] == 0, "cleanup-count", N.handler[i]); }
  }
  sim_faults(0);
  CHECKV(N.done + ended == n, "cancelled-and-finished", N.done);
  { int left = 0; while (WaitForSingleObject(N.h, 0) == 0) left++; CHECKV(N.took + left == posted, "cancelled-wait-took", left); }
  CHECK(CloseHandle(N.h), "setup");
}
