#include "common.h"
#include <windows.h>
/* C14: joining; C15: detaching and identity; C29: creation. */
static struct { volatile long ended[16], dtor[16]; pthread_key_t k; sem_t go; pthread_t t[16]; int mode[16]; volatile long bad; } P;
static void j_dtor(void *v) { sim_stall(); sim_add(&P.dtor[IDX(v) - 100], 1); }
static void *j_value(int i) { return (void *)(size_t)(0x1000 + i); }
static void *j_thr(void *a)
{
  int i = IDX(a);
  CHECK(pthread_setspecific(P.k, (void *)(size_t)(100 + i)) == 0, "tsd-set");
  if (P.mode[i] & 1) { int r; do r = sem_wait(&P.go); while (r && errno == EINTR); } else sim_stall();
  sim_add(&P.ended[i], 1);
  if (P.mode[i] & 2) pthread_exit(j_value(i));
  return j_value(i);
}
static void j_joined(int i, void *v)
{
  CHECKV(v == j_value(i), "join-value", v);
  CHECK(P.ended[i] == 1, "join-before-end"); CHECK(P.dtor[i] == 1, "join-before-destructors");
}
static int j_one(int i, int kind, long deadline_slack)   /* 1 = joined */
{
  void *v = (void *)0x77, **vp = sim_choice(5) == 4 ? NULL : &v; int r; struct timespec ts; long long before;
  switch (kind) {
  case 0: r = pthread_join(P.t[i], vp); CHECKV(r == 0, "join-result", r); break;
  case 4: { HANDLE h = pthread_getw32threadhandle_np(P.t[i]); r = sim_choice(2) ? pthreadCancelableWait(h) : (int)WaitForSingleObject(h, INFINITE); CHECKV(r == 0, "thread-handle-wait", r);   /* the Win32 handle tells the end as well */
    r = pthread_kill(P.t[i], 0); CHECKV(r == 0, "kill-unjoined", r); r = pthread_tryjoin_np(P.t[i], vp); CHECKV(r == 0, "tryjoin-after-end", r); sim_probe("native_join"); break; }
  case 1: before = P.dtor[i]; r = pthread_tryjoin_np(P.t[i], vp); if (r) { CHECKV(r == EBUSY, "tryjoin-result", r); CHECK(v == (void *)0x77, "join-value-written"); return 0; } break;
  default: ts = in_ms(sim_choice(4) - 1); r = pthread_timedjoin_np(P.t[i], vp, kind == 3 ? NULL : &ts);
    if (r) { CHECKV(r == ETIMEDOUT && kind == 2, "timedjoin-result", r); CHECK(v == (void *)0x77, "join-value-written"); sim_probe("timedjoin_timeout");
      CHECK(sim_unix_ns() + 1000000 >= ts.tv_sec * 1000000000LL + ts.tv_nsec, "timedjoin-early"); return 0; } break;
  }
  if (vp) j_joined(i, v); else j_joined(i, j_value(i));
  return 1;
}
static void *j_joiner(void *a)
{
  int i = IDX(a), n = sim_choice(4);
  while (n--) if (j_one(i, 1 + sim_choice(2), 0)) return 0;
  { static const int how[4] = { 3, 0, 0, 4 }; j_one(i, how[sim_choice(4)], 0); }
  return 0;
}
SCENARIO(join_values)
{
  int n = 1 + sim_choice(4), r; pthread_t jt[4]; int waits = 0;
  CHECK(pthread_key_create(&P.k, j_dtor) == 0 && sem_init(&P.go, 0, 0) == 0, "setup");
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) { P.mode[i] = sim_choice(4); waits += P.mode[i] & 1; P.t[i] = xcreate(j_thr, (void *)(size_t)i); for (int k = 0; k < i; k++) CHECK(!pthread_equal(P.t[i], P.t[k]), "id-not-unique"); }
  int others = sim_choice(2);
  if (others) for (int i = 0; i < n; i++) jt[i] = xcreate(j_joiner, (void *)(size_t)i);
  if (sim_choice(2)) { sim_settle(0); if (!others) for (int i = 0; i < n; i++) if (P.mode[i] & 1) { void *v; r = pthread_tryjoin_np(P.t[i], &v); CHECKV(r == EBUSY, "tryjoin-result", r); } }
  for (int i = 0; i < waits; i++) CHECK(sem_post(&P.go) == 0, "sem-post");
  for (int i = 0; i < n; i++) if (others) xjoin(jt[i]); else j_joiner((void *)(size_t)i);
  /* the identifiers are dead now, also when their memory is in use again */
  pthread_t self = pthread_self(), nt; int again = sim_choice(2);
  if (again) { P.mode[8] = 1; nt = P.t[8] = xcreate(j_thr, (void *)8); for (int i = 0; i < n; i++) CHECK(!pthread_equal(nt, P.t[i]), "id-not-unique"); }
  for (int i = 0; i < n; i++) {
    void *v; r = pthread_join(P.t[i], &v); CHECKV(r == ESRCH, "join-dead", r);
    r = pthread_tryjoin_np(P.t[i], &v); CHECKV(r == ESRCH, "join-dead", r);
    r = pthread_detach(P.t[i]); CHECKV(r == ESRCH, "detach-dead", r);
    r = pthread_kill(P.t[i], 0); CHECKV(r == ESRCH, "kill-dead", r);
    r = pthread_cancel(P.t[i]); CHECKV(r == ESRCH, "cancel-dead", r);
  }
  r = pthread_join(self, NULL); CHECKV(r == EDEADLK || r == EINVAL, "join-self", r);
  if (again) { sem_post(&P.go); j_one(8, 0, 0); }
}
/* a join that is cancelled or times out leaves the thread joinable */
static void *j_cjoin(void *a)
{
  int i = IDX(a), r; void *v;
  if (sim_choice(2)) r = pthread_join(P.t[i], &v); else { struct timespec ts = in_ms(1 + sim_choice(1000)); r = pthread_timedjoin_np(P.t[i], &v, &ts); if (r == ETIMEDOUT) return (void *)2; }
  CHECKV(r == 0, "join-result", r); j_joined(i, v);
  return (void *)1;
}
SCENARIO(join_cancel)
{
  int r; void *v;
  CHECK(pthread_key_create(&P.k, j_dtor) == 0 && sem_init(&P.go, 0, 0) == 0, "setup");
  P.mode[0] = sim_choice(4); P.t[0] = xcreate(j_thr, 0);
  pthread_t j = xcreate(j_cjoin, 0);
  if (sim_choice(2)) sim_settle(0);
  int first = P.mode[0] & 1 ? sim_choice(2) : 0;
  if (first) sem_post(&P.go);
  r = pthread_cancel(j); CHECKV(r == 0 || r == ESRCH, "cancel-result", r);
  if ((P.mode[0] & 1) && !first) { if (sim_choice(2)) sim_settle(1); sem_post(&P.go); }
  v = xjoin(j);
  if (v == (void *)1) { r = pthread_kill(P.t[0], 0); CHECKV(r == ESRCH, "kill-dead", r); }
  else { CHECK(v == PTHREAD_CANCELED || v == (void *)2, "join-value"); if (v == PTHREAD_CANCELED) sim_probe("join_cancelled"); r = pthread_join(P.t[0], &v); CHECKV(r == 0, "join-after-cancelled-join", r); j_joined(0, v); }
}
/* detach at any moment of the thread's life: everything is given back exactly once */
static void *d_thr(void *a)
{
  int i = IDX(a), r;
  CHECK(pthread_setspecific(P.k, (void *)(size_t)(100 + i)) == 0, "tsd-set");
  if (P.mode[i] == 1) { r = pthread_detach(pthread_self()); CHECKV(r == 0, "detach-result", r); r = pthread_detach(pthread_self()); CHECKV(r == EINVAL, "detach-twice", r); }
  if (sim_choice(3) == 0) sim_stall();
  sim_add(&P.ended[i], 1);
  if (sim_choice(2)) pthread_exit((void *)3);
  return (void *)3;
}
SCENARIO(detach_any_time)
{
  int n = 1 + sim_choice(4), r; pthread_attr_t at;
  CHECK(pthread_key_create(&P.k, j_dtor) == 0 && pthread_attr_init(&at) == 0, "setup");
  CHECK(pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED) == 0, "setup");
  pthread_t self = pthread_self();
  long h0 = sim_live_handles(-1), rounds = 1 + sim_choice(2);
  for (int q = 0; q < rounds; q++) {
    for (int i = 0; i < n; i++) { P.ended[i] = P.dtor[i] = 0; }
    for (int i = 0; i < n; i++) {
      P.mode[i] = sim_choice(4);     /* 0 detach from here, 1 itself, 2 attribute, 3 joined */
      r = pthread_create(&P.t[i], P.mode[i] == 2 ? &at : NULL, d_thr, (void *)(size_t)i); CHECKV(r == 0, "create-failed", r);
      CHECK(!pthread_equal(P.t[i], self), "id-not-unique");
      if (P.mode[i] == 0 && sim_choice(2)) { r = pthread_detach(P.t[i]); CHECKV(r == 0, "detach-result", r); P.mode[i] = 4; }
    }
    for (int i = 0; i < n; i++) {
      if (sim_choice(3) == 2) sim_stall();
      if (P.mode[i] == 0) { r = pthread_detach(P.t[i]); CHECKV(r == 0, "detach-result", r); P.mode[i] = 4; }
      if (P.mode[i] == 3) { void *v = xjoin(P.t[i]); CHECK(v == (void *)3, "join-value"); CHECK(P.dtor[i] == 1, "join-before-destructors"); }
      /* afterwards it is neither joinable nor detachable: EINVAL while it lives, ESRCH when gone */
      if (P.mode[i] != 1) {
        r = pthread_detach(P.t[i]); CHECKV(r == EINVAL || r == ESRCH, "detach-twice", r);
        r = pthread_join(P.t[i], NULL); CHECKV(r == EINVAL || r == ESRCH, "join-detached", r);
      }
    }
    sim_settle(1);
    for (int i = 0; i < n; i++) {
      CHECKV(P.ended[i] == 1 && P.dtor[i] == 1, "detached-not-run", i);
      r = pthread_kill(P.t[i], 0); CHECKV(r == ESRCH, "detached-not-reclaimed", r);
    }
    CHECKV(sim_live_handles(-1) == h0, "handle-leak", sim_live_handles(-1) - h0);
  }
  /* the recycled thread structures are sound: many threads at once, all distinct */
  CHECK(sem_init(&P.go, 0, 0) == 0, "setup");
  for (int i = 0; i < 8; i++) { P.ended[i] = P.dtor[i] = 0; P.mode[i] = 1; P.t[i] = xcreate(j_thr, (void *)(size_t)i); for (int k = 0; k < i; k++) CHECK(!pthread_equal(P.t[i], P.t[k]) && P.t[i].p != P.t[k].p, "id-not-unique"); }
  CHECK(sem_post_multiple(&P.go, 8) == 0, "sem-post");
  for (int i = 0; i < 8; i++) j_one(i, 0, 0);
  CHECKV(sim_live_handles(SIMH_THREAD) <= 1, "handle-leak", 0);
  pthread_attr_destroy(&at);
}
/* identity: pthread_self is stable and equal to what the creator got; sequence numbers are unique */
static volatile long long useq[16]; static volatile long un;
static void *i_thr(void *a)
{
  int i = IDX(a); pthread_t s = pthread_self();
  useq[i] = (long long)pthread_getunique_np(s);
  if (sim_choice(2)) sim_yield();
  CHECK(pthread_equal(s, pthread_self()), "self-changed");
  sim_add(&un, 1);
  if (P.mode[i]) sim_wait_ge(&un, P.mode[i]);
  return s.p;
}
static pthread_t itree[16];
static void *i_spawn(void *a)
{
  int b = IDX(a), n = 2;
  for (int i = b; i < b + n; i++) { itree[i] = xcreate(i_thr, (void *)(size_t)i); }
  for (int i = b; i < b + n; i++) { void *v = xjoin(itree[i]); CHECK(v == itree[i].p, "self-not-created-id"); }
  return 0;
}
SCENARIO(identity)
{
  int n = 2 + sim_choice(2); pthread_t t[4];
  int all = sim_choice(2) ? 2 * n : 0; for (int i = 0; i < 16; i++) P.mode[i] = all;
  useq[15] = (long long)pthread_getunique_np(pthread_self());
  for (int i = 0; i < n; i++) t[i] = xcreate(i_spawn, (void *)(size_t)(2 * i));
  for (int i = 0; i < n; i++) xjoin(t[i]);
  for (int i = 0; i < 2 * n; i++) { CHECK(useq[i] != useq[15], "sequence-number-not-unique"); for (int k = 0; k < i; k++) CHECKV(useq[i] != useq[k], "sequence-number-not-unique", useq[i]); }
  if (all) for (int i = 0; i < 2 * n; i++) for (int k = 0; k < i; k++) CHECK(!pthread_equal(itree[i], itree[k]), "id-not-unique");
}
/* identifiers of detached threads that may be ending at this very moment: whoever asks gets an answer about that
 * thread or ESRCH, never about the thread that takes over its memory */
static struct { pthread_t t[12]; volatile long n, gone[12], full; long all; } N;
static void n_ask(void)
{
  long n = N.n; int r; cpu_set_t cs; struct timespec ts = in_ms(1); void *v = (void *)0x77;
  if (!n) return;
  int i = sim_choice((int)n); long was = N.gone[i]; pthread_t t = N.t[i];
  switch (sim_choice(6)) {
  case 0: r = pthread_kill(t, 0); CHECKV(r == 0 || r == ESRCH, "ending-id-kill", r); break;
  case 1: if (sim_ncpu() > 1) { CPU_ZERO(&cs); CPU_SET(1, &cs); r = pthread_setaffinity_np(t, sizeof cs, &cs); CHECKV(r == 0 || r == ESRCH, "ending-id-affinity", r); } else return; break;
  case 2: r = pthread_getaffinity_np(t, sizeof cs, &cs); CHECKV(r == 0 || r == ESRCH, "ending-id-affinity", r); break;
  case 3: r = pthread_detach(t); CHECKV(r == EINVAL || r == ESRCH, "ending-id-detach", r); if (r == EINVAL) r = 0; break;
  case 4: r = pthread_timedjoin_np(t, &v, &ts); CHECKV(r == EINVAL || r == ESRCH, "ending-id-join", r); CHECK(v == (void *)0x77, "ending-id-join"); if (r == EINVAL) r = 0; break;
  default: r = sim_choice(2) ? pthread_join(t, &v) : pthread_tryjoin_np(t, &v); CHECKV(r == EINVAL || r == ESRCH, "ending-id-join", r); CHECK(v == (void *)0x77, "ending-id-join"); if (r == EINVAL) r = 0; break;
  }
  CHECK(!(was && r == 0), "ending-id-revived");
  if (r == ESRCH) { N.gone[i] = 1; sim_probe("ending_id_gone"); } else sim_probe("ending_id_alive");
}
static void *n_short(void *a)
{
  if (sim_choice(2)) sim_yield();
  return a;
}
static void *n_fresh(void *a)      /* nobody ever aimed at this thread: its affinity is what it was created with */
{
  cpu_set_t cs; int r;
  for (int k = 0; k < 3; k++) { r = pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); CHECKV(r == 0 && CPU_COUNT(&cs) == (int)N.full, "ending-id-hit-another", CPU_COUNT(&cs)); sim_yield(); }
  return a;
}
static void *n_prober(void *a) { for (int k = 2 + sim_choice(6); k > 0; k--) n_ask(); return a; }
SCENARIO(ending_ids)
{
  pthread_attr_t at; pthread_t p[2], q[12]; int np = 1 + sim_choice(2), nq = 0, r; cpu_set_t cs;
  CHECK(pthread_attr_init(&at) == 0 && pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED) == 0, "setup");
  r = pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); CHECK(r == 0, "setup"); N.full = CPU_COUNT(&cs);
  N.n = 0;
  for (int i = 0; i < np; i++) p[i] = xcreate(n_prober, 0);
  for (int k = 3 + sim_choice(8); k > 0; k--) {
    if (sim_choice(3)) {
      int i = (int)N.n; N.gone[i] = 0;
      if (sim_choice(2)) { r = pthread_create(&N.t[i], &at, n_short, 0); CHECKV(r == 0, "create-failed", r); }
      else { r = pthread_create(&N.t[i], NULL, n_short, 0); CHECKV(r == 0, "create-failed", r); r = pthread_detach(N.t[i]); CHECKV(r == 0, "detach-result", r); }
      sim_add(&N.n, 1);
    } else if (sim_choice(2)) q[nq++] = xcreate(n_fresh, 0);
    else n_ask();
  }
  for (int i = 0; i < np; i++) xjoin(p[i]);
  for (int i = 0; i < nq; i++) xjoin(q[i]);
  sim_settle(1);
  for (int i = 0; i < N.n; i++) { r = pthread_kill(N.t[i], 0); CHECKV(r == ESRCH, "detached-not-reclaimed", r); }
  CHECK(pthread_attr_destroy(&at) == 0, "setup");
}
