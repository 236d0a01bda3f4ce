#include "common.h"
/* C19: thread-specific data. */
GUEST_IMPORT unsigned __stdcall GetLastError(void);
GUEST_IMPORT void __stdcall SetLastError(unsigned);
#define NK 5
#define NT 4
static struct {
  pthread_key_t k[NK], k2[NK]; int hasd[NK], may_del[NK]; volatile long deleted[NK];   /* 0 live, 1 deleted before the thread began to exit possible */
  void *model[NT + 1][NK]; int calls[NT + 1][NK], resets[NT + 1], orig[NT + 1][NK], cross[NT + 1]; volatile long exiting[NT + 1]; long delseq[NK], exitseq[NT + 1];
  volatile long done, go, stop; pthread_t t[NT + 1], self[NT + 1];
} P;
static void *val(int i, int j, int s) { return (void *)(size_t)(((i + 1) << 16) | ((j + 1) << 8) | (s & 0xff)); }
static int newval(int i, int j)
{
  void *v = val(i, j, 1 + sim_choice(200)); int r = pthread_setspecific(P.k[j], v);
  CHECKV(r == 0, "tsd-set", r); P.model[i][j] = v; return 1;
}
static void dtor(void *v)
{
  int i = (IDX(v) >> 16) - 1, j = ((IDX(v) >> 8) & 0xff) - 1;
  CHECKV(i >= 0 && i < NT + 1 && j >= 0 && j < NK, "tsd-destructor-value", v);
  CHECK(P.exiting[i], "tsd-destructor-early"); CHECK(pthread_equal(pthread_self(), P.self[i]), "tsd-destructor-thread");
  CHECKV(P.model[i][j] == v, "tsd-destructor-value", v);
  CHECK(!(P.delseq[j] && P.delseq[j] < P.exitseq[i]), "tsd-destructor-deleted-key");
  P.model[i][j] = 0; P.calls[i][j]++;
  if (!P.may_del[j]) {
    CHECK(pthread_getspecific(P.k[j]) == NULL, "tsd-value-in-destructor");
    if (P.calls[i][j] <= P.resets[i]) newval(i, j);
    if (P.cross[i]-- > 0) for (int q = 0; q < NK; q++) if (q != j && P.hasd[q] && !P.may_del[q] && !P.model[i][q]) newval(i, q);
  }
  if (sim_choice(4) == 3) sim_stall();
}
static void tsd_ops(int i)
{
  for (int n = sim_choice(8); n > 0; n--) {
    int j = sim_choice(NK);
    if (sim_choice(4) == 3) { int r = pthread_setspecific(P.k[j], NULL); CHECKV(r == 0, "tsd-set", r); P.model[i][j] = 0; }
    else newval(i, j);
    if (sim_choice(3) == 2) sim_yield();
    j = sim_choice(NK); SetLastError(77000 + i); errno = 900 + i; void *got = pthread_getspecific(P.k[j]); unsigned le = GetLastError(); int en = errno;
    CHECKV(got == P.model[i][j], "tsd-value", j); CHECKV(le == 77000u + i && en == 900 + i, "tsd-get-disturbs-error", le);
  }
  for (int j = 0; j < NK; j++) CHECKV(pthread_getspecific(P.k[j]) == P.model[i][j], "tsd-value", j);
}
static void *tsd_thr(void *a)
{
  int i = IDX(a); P.self[i] = pthread_self();
  for (int j = 0; j < NK; j++) CHECKV(pthread_getspecific(P.k[j]) == NULL, "tsd-initial-value", j);
  tsd_ops(i);
  for (int j = 0; j < NK; j++) P.orig[i][j] = P.model[i][j] != 0;
  sim_add(&P.done, 1);
  if (sim_choice(2)) sim_stall();
  P.exitseq[i] = sim_seq(); P.exiting[i] = 1;
  if (sim_choice(2)) pthread_exit((void *)(size_t)(i + 1));
  return (void *)(size_t)(i + 1);
}
SCENARIO(tsd_model)
{
  int n = 1 + sim_choice(NT), r, delmode = sim_choice(3);
  P.t[NT] = pthread_self();
  for (int j = 0; j < NK; j++) {
    P.hasd[j] = sim_choice(4) != 3; P.may_del[j] = delmode && sim_choice(2);
    r = pthread_key_create(&P.k[j], P.hasd[j] ? dtor : NULL); CHECKV(r == 0, "key-create", r);
    for (int q = 0; q < j; q++) CHECK(P.k[j] != P.k[q], "key-not-unique");
  }
  for (int i = 0; i < n; i++) { P.resets[i] = sim_choice(2) ? 0 : sim_choice(8); if (P.resets[i] == 7) P.resets[i] = 40; /* for ever: the rounds are limited */ P.cross[i] = sim_choice(3) == 2; P.t[i] = xcreate(tsd_thr, (void *)(size_t)i); }
  tsd_ops(NT);
  if (delmode) {
    if (delmode == 1) sim_wait_ge(&P.done, n); else for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECK(v == (void *)(size_t)(i + 1), "join-value"); }
    for (int j = 0; j < NK; j++) if (P.may_del[j]) {
      r = pthread_key_delete(P.k[j]); CHECKV(r == 0, "key-delete", r); P.delseq[j] = sim_seq();
      if (sim_choice(2)) {   /* its slot may serve a new key: nobody has a value for it */
        r = pthread_key_create(&P.k2[j], NULL); CHECKV(r == 0, "key-create", r);
        CHECK(pthread_getspecific(P.k2[j]) == NULL, "tsd-initial-value");
        r = pthread_setspecific(P.k2[j], (void *)77); CHECKV(r == 0, "tsd-set", r);
        sim_yield(); CHECK(pthread_getspecific(P.k2[j]) == (void *)77, "tsd-value");
      }
    }
  }
  if (delmode != 2) for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECK(v == (void *)(size_t)(i + 1), "join-value"); }
  for (int i = 0; i < n; i++) for (int j = 0; j < NK; j++) {
    int c = P.calls[i][j];
    if (!P.hasd[j]) { CHECK(c == 0, "tsd-destructor-spurious"); continue; }
    if (P.may_del[j] && delmode == 1) { CHECKV(c <= P.orig[i][j], "tsd-destructor-count", c); continue; }
    if (P.may_del[j]) { CHECKV(c == P.orig[i][j], "tsd-destructor-count", c); continue; }
    if (P.cross[i] > 0 || P.orig[i][j]) {}
    if (P.orig[i][j]) { int want = P.resets[i] + 1 < PTHREAD_DESTRUCTOR_ITERATIONS ? P.resets[i] + 1 : PTHREAD_DESTRUCTOR_ITERATIONS; CHECKV(c >= want && c <= P.resets[i] + 2, "tsd-destructor-count", c); CHECKV(c <= 2 * PTHREAD_DESTRUCTOR_ITERATIONS, "tsd-destructors-without-end", c); }
    if (P.resets[i] < 2) CHECK(P.model[i][j] == 0, "tsd-value-not-destroyed");
  }
  for (int j = 0; j < NK; j++) { CHECK(P.calls[NT][j] == 0, "tsd-destructor-spurious"); if (!P.may_del[j] || !delmode) CHECKV(pthread_getspecific(P.k[j]) == P.model[NT][j], "tsd-value", j); }
}
/* a new key is NULL in threads that live already, whatever its predecessor in the same slot held */
static volatile long round_no;
static void *live_thr(void *a)
{
  int i = IDX(a); P.self[i] = pthread_self();
  for (long q = 1; q <= 3; q++) {
    sim_wait_ge(&P.go, q);
    CHECKV(pthread_getspecific(P.k[0]) == NULL, "tsd-initial-value", q);
    void *v = val(i, 0, q); P.model[i][0] = v;
    int r = pthread_setspecific(P.k[0], v); CHECKV(r == 0, "tsd-set", r);
    sim_yield();
    CHECK(pthread_getspecific(P.k[0]) == v, "tsd-value");
    if (q == 3 && sim_choice(2)) { r = pthread_setspecific(P.k[0], NULL); CHECK(r == 0, "tsd-set"); P.model[i][0] = 0; }
    P.orig[i][0] = P.model[i][0] != 0;
    if (q == 3) { P.exitseq[i] = sim_seq(); P.exiting[i] = 1; }
    sim_add(&P.done, 1);
  }
  return 0;
}
SCENARIO(tsd_key_recycled)
{
  int n = 1 + sim_choice(3), r;
  for (int i = 0; i < n; i++) P.t[i] = xcreate(live_thr, (void *)(size_t)i);
  for (int q = 1; q <= 3; q++) {
    r = pthread_key_create(&P.k[0], sim_choice(2) ? dtor : NULL); CHECKV(r == 0, "key-create", r);
    if (q == 3) { r = pthread_key_delete(P.k[0]); CHECK(r == 0, "key-delete"); r = pthread_key_create(&P.k[0], dtor); CHECKV(r == 0, "key-create", r); }
    CHECK(pthread_getspecific(P.k[0]) == NULL, "tsd-initial-value");
    P.go = q; sim_wait_ge(&P.done, (long)q * n);
    if (q < 3) { r = pthread_key_delete(P.k[0]); CHECKV(r == 0, "key-delete", r); }
  }
  for (int i = 0; i < n; i++) { xjoin(P.t[i]); CHECKV(P.calls[i][0] == P.orig[i][0], "tsd-destructor-count", P.calls[i][0]); }
}
/* destructors that create, use and delete other keys */
static pthread_key_t outer, inner[NT]; static volatile long innerc[NT], outerc[NT];
static void inner_d(void *v) { int i = IDX(v) - 10; CHECK(i >= 0 && i < NT, "tsd-destructor-value"); sim_add(&innerc[i], 1); }
static void outer_d(void *v)
{
  int i = IDX(v) - 10, r, m = P.resets[i]; CHECK(i >= 0 && i < NT, "tsd-destructor-value");
  sim_add(&outerc[i], 1);
  r = pthread_key_create(&inner[i], inner_d); CHECKV(r == 0, "key-create", r);
  CHECK(pthread_getspecific(inner[i]) == NULL, "tsd-initial-value");
  if (m & 1) { r = pthread_setspecific(inner[i], v); CHECKV(r == 0, "tsd-set", r); CHECK(pthread_getspecific(inner[i]) == v, "tsd-value"); }
  sim_yield();
  if (m & 2) { r = pthread_key_delete(inner[i]); CHECKV(r == 0, "key-delete", r); }
}
static void *nest_thr(void *a) { int i = IDX(a), r; r = pthread_setspecific(outer, (void *)(size_t)(10 + i)); CHECK(r == 0, "tsd-set"); return 0; }
SCENARIO(tsd_in_destructor)
{
  int n = 1 + sim_choice(NT), r;
  r = pthread_key_create(&outer, outer_d); CHECK(r == 0, "key-create");
  for (int i = 0; i < n; i++) { P.resets[i] = sim_choice(4); P.t[i] = xcreate(nest_thr, (void *)(size_t)i); }
  for (int i = 0; i < n; i++) { xjoin(P.t[i]); CHECKV(outerc[i] == 1, "tsd-destructor-count", outerc[i]); CHECKV(innerc[i] == (P.resets[i] == 1), "tsd-destructor-count", innerc[i]); }
}
/* destructors and cleanup handlers may use the library like any other code of the thread */
static struct { pthread_key_t k; pthread_mutex_t m; sem_t s; pthread_once_t o; volatile long d[NT], h[NT], ids, det[NT], onces, own; int imp[NT], keep[NT]; pthread_t id[NT]; void *w[NT]; } Q;
GUEST_IMPORT unsigned __stdcall WaitForSingleObject(void *, unsigned);
GUEST_IMPORT int __stdcall CloseHandle(void *);
static void q_once(void) { sim_add(&Q.onces, 1); }
static void *q_child(void *a) { return a; }
static void q_inner(void *a) { sim_add((volatile long *)a, 1); }
static void q_calls(int i, int dt)
{
  int r, old; struct timespec ts; pthread_t me = pthread_self(), c; volatile long in = 0;
  CHECK(pthread_equal(me, Q.id[i]), "identity-in-destructor");
  for (int n = 1 + sim_choice(4); n > 0; n--) switch (sim_choice(14)) {
    case 0: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0, "setcancelstate-in-destructor", r); if (sim_choice(2)) sim_yield(); r = pthread_setcancelstate(old, NULL); CHECKV(r == 0, "setcancelstate-in-destructor", r); break;
    case 1: r = pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old); CHECKV(r == 0, "setcanceltype-in-destructor", r); r = pthread_setcanceltype(old, NULL); CHECKV(r == 0, "setcanceltype-in-destructor", r); break;
    case 2: pthread_testcancel(); break;
    case 3: if (!Q.keep[i] && !Q.det[i] && !Q.imp[i]) { Q.det[i] = 1; r = pthread_detach(me); CHECKV(r == 0, "detach-in-destructor", r); sim_probe("detached_in_destructor"); } break;
    case 4: r = pthread_mutex_lock(&Q.m); CHECKV(r == 0, "lock-in-destructor", r); CHECK(Q.own == 0, "mutual-exclusion"); Q.own = i + 1; sim_yield(); CHECK(Q.own == i + 1, "mutual-exclusion"); Q.own = 0; r = pthread_mutex_unlock(&Q.m); CHECKV(r == 0, "unlock-in-destructor", r); break;
    case 5: ts.tv_sec = 0; ts.tv_nsec = 1000000; r = pthread_delay_np(&ts); CHECKV(r == 0, "delay-in-destructor", r); break;
    case 6: r = sem_post(&Q.s); CHECKV(r == 0, "sem-in-destructor", r); r = sem_wait(&Q.s); CHECKV(r == 0, "sem-in-destructor", r); break;
    case 7: r = pthread_create(&c, NULL, q_child, (void *)&in); CHECKV(r == 0, "create-in-destructor", r); { void *v = xjoin(c); CHECK(v == (void *)&in, "join-value"); } break;
    case 8: r = pthread_kill(me, 0); CHECKV(r == 0, "kill-self-in-destructor", r); break;
    case 9: r = pthread_cancel(me); CHECKV(r == 0 || r == ESRCH, "cancel-self-in-destructor", r); break;
    case 10: r = pthread_once(&Q.o, q_once); CHECKV(r == 0 && Q.onces == 1, "once-in-destructor", r); break;
    case 11: { volatile long x = 0; pthread_cleanup_push(q_inner, (void *)&x); sim_yield(); pthread_cleanup_pop(1); CHECKV(x == 1, "handler-in-destructor", x); } break;
    case 12: r = pthread_join(me, NULL); CHECKV(r == EDEADLK || ((Q.imp[i] || Q.det[i]) && r == EINVAL), "join-self", r); break;
    default: CHECKV(pthread_getspecific(Q.k) == (dt ? NULL : (void *)(size_t)(i + 1)), "tsd-value", dt);
  }
}
static void q_dtor(void *v) { int i = IDX(v) - 1; CHECKV(i >= 0 && i < NT, "tsd-destructor-value", i); sim_add(&Q.d[i], 1); q_calls(i, 1); }
static void q_handler(void *a) { int i = IDX(a); CHECK(Q.d[i] == 0, "cleanup-after-destructors"); sim_add(&Q.h[i], 1); q_calls(i, 0); }
static void q_end(int i, int how)
{
  int r, old;
  switch (how) {
  case 0: return;
  case 1: pthread_exit((void *)(size_t)(0x40 + i));
  case 2: r = pthread_cancel(pthread_self()); CHECKV(r == 0, "cancel-result", r); pthread_testcancel(); break;
  case 3: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); pthread_cancel(pthread_self()); pthread_exit((void *)(size_t)(0x40 + i));
  default: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); r = pthread_cancel(pthread_self()); CHECKV(r == 0, "cancel-result", r); return;
  }
  sim_violation("end-returned", i, how);
}
static void *q_thr(void *a)
{
  int i = IDX(a), r, how = sim_choice(5), hand = how ? sim_choice(2) : 0; Q.id[i] = pthread_self(); sim_add(&Q.ids, 1);
  r = pthread_setspecific(Q.k, (void *)(size_t)(i + 1)); CHECKV(r == 0, "tsd-set", r);
  sim_stall();
#ifdef __cplusplus
  if (Q.imp[i]) hand = 0;
  if (Q.imp[i]) how = 0;
#endif
  if (hand) { pthread_cleanup_push(q_handler, a); q_end(i, how); pthread_cleanup_pop(1); } else { Q.h[i] = 1; q_end(i, how); }
  return (void *)(size_t)(0x40 + i);
}
static unsigned __stdcall q_w32(void *a) { int i = IDX(a); q_thr(a); pthread_win32_thread_detach_np(); CHECKV(Q.d[i] == 1, "tsd-destructor-count", Q.d[i]); return 0; }
SCENARIO(tsd_calls)
{
  int n = 1 + sim_choice(NT), r; pthread_once_t o = PTHREAD_ONCE_INIT; Q.o = o;
  CHECK(pthread_key_create(&Q.k, q_dtor) == 0 && pthread_mutex_init(&Q.m, NULL) == 0 && sem_init(&Q.s, 0, 0) == 0, "setup");
  for (int i = 0; i < n; i++) { Q.imp[i] = sim_choice(3) == 2; Q.keep[i] = sim_choice(2); if (Q.imp[i]) { Q.w[i] = (void *)_beginthreadex(NULL, 0, q_w32, (void *)(size_t)i, 0, NULL); CHECK(Q.w[i] != 0, "setup"); } else P.t[i] = xcreate(q_thr, (void *)(size_t)i); }
  for (int k = sim_choice(4); k > 0; k--) { int i = sim_choice(n); if (Q.keep[i] && !Q.imp[i]) { r = pthread_kill(P.t[i], 0); CHECKV(r == 0, "kill-joinable", r); sim_yield(); } }
  for (int i = 0; i < n; i++) if (Q.imp[i]) { WaitForSingleObject(Q.w[i], 0xffffffff); CloseHandle(Q.w[i]); } else if (Q.keep[i]) { void *v = xjoin(P.t[i]); CHECKV(v == PTHREAD_CANCELED || v == (void *)(size_t)(0x40 + i), "join-value", v); }
  for (int i = 0; i < n; i++) { while (!Q.imp[i] && !Q.keep[i] && !Q.d[i]) sim_yield(); CHECKV(Q.d[i] == 1, "tsd-destructor-count", Q.d[i]); CHECKV(Q.h[i] == 1, "cleanup-count", Q.h[i]); }
}

/* keys are deleted while other threads get their first values for other keys */
#define CK 6
static struct { pthread_key_t k[CK]; int hasd[CK], doomed[CK]; volatile long up, gone; long delseq[CK], exitseq[NT]; volatile long exiting[NT]; void *m[NT][CK]; int calls[NT][CK]; pthread_t id[NT]; } C;
static void c_dtor(void *v)
{
  int i = (IDX(v) >> 16) - 1, j = ((IDX(v) >> 8) & 0xff) - 1;
  CHECKV(i >= 0 && i < NT && j >= 0 && j < CK, "tsd-destructor-value", v);
  CHECK(C.exiting[i] && pthread_equal(pthread_self(), C.id[i]), "tsd-destructor-thread");
  CHECKV(C.m[i][j] == v && C.hasd[j], "tsd-destructor-value", v);
  CHECK(!(C.delseq[j] && C.delseq[j] < C.exitseq[i]), "tsd-destructor-deleted-key");
  C.calls[i][j]++;
}
static void c_set(int i, int j) { void *v = val(i, j, 1 + sim_choice(200)); int r = pthread_setspecific(C.k[j], v); CHECKV(r == 0, "tsd-set", r); C.m[i][j] = v; }
static void *c_thr(void *a)
{
  int i = IDX(a); C.id[i] = pthread_self();
  for (int j = 0; j < CK; j++) if (C.doomed[j] ? sim_choice(3) != 2 : sim_choice(4) == 3) c_set(i, j);
  for (int j = 0; j < CK; j++) CHECKV(pthread_getspecific(C.k[j]) == C.m[i][j], "tsd-value", j);
  sim_add(&C.up, 1);
  for (int n = 1 + sim_choice(6); n > 0; n--) { int j = sim_choice(CK); if (C.doomed[j]) { sim_yield(); continue; } if (sim_choice(5) == 4) { int r = pthread_setspecific(C.k[j], NULL); CHECKV(r == 0, "tsd-set", r); C.m[i][j] = 0; } else c_set(i, j); CHECKV(pthread_getspecific(C.k[j]) == C.m[i][j], "tsd-value", j); }
  for (int j = 0; j < CK; j++) if (!C.doomed[j]) CHECKV(pthread_getspecific(C.k[j]) == C.m[i][j], "tsd-value", j);
  C.exitseq[i] = sim_seq(); C.exiting[i] = 1;
  if (sim_choice(2)) pthread_exit(a);
  return a;
}
static void *c_del(void *a)
{
  for (int j = IDX(a); j < CK; j += 2) if (C.doomed[j]) {
    int r = pthread_key_delete(C.k[j]); CHECKV(r == 0, "key-delete", r); C.delseq[j] = sim_seq();
    if (sim_choice(2)) { pthread_key_t k; r = pthread_key_create(&k, c_dtor); CHECKV(r == 0, "key-create", r); CHECK(pthread_getspecific(k) == NULL, "tsd-initial-value"); }
  }
  return 0;
}
SCENARIO(tsd_churn)
{
  int n = 1 + sim_choice(3), two = sim_choice(2), r; pthread_t d;
  for (int j = 0; j < CK; j++) { C.hasd[j] = sim_choice(4) != 3; C.doomed[j] = sim_choice(2); r = pthread_key_create(&C.k[j], C.hasd[j] ? c_dtor : NULL); CHECKV(r == 0, "key-create", r); }
  for (int i = 0; i < n; i++) P.t[i] = xcreate(c_thr, (void *)(size_t)i);
  sim_wait_ge(&C.up, n);
  if (two) d = xcreate(c_del, (void *)1);
  c_del((void *)0); if (!two) c_del((void *)1);
  if (two) xjoin(d);
  for (int i = 0; i < n; i++) { void *v = xjoin(P.t[i]); CHECK(v == (void *)(size_t)i, "join-value"); }
  for (int i = 0; i < n; i++) for (int j = 0; j < CK; j++) {
    int c = C.calls[i][j], want = C.hasd[j] && C.m[i][j];
    if (C.doomed[j]) CHECKV(c <= want, "tsd-destructor-count", c); else CHECKV(c == want, "tsd-destructor-count", c);
  }
  for (int j = 0; j < CK; j++) if (!C.doomed[j]) { r = pthread_key_delete(C.k[j]); CHECKV(r == 0, "key-delete", r); }
}
