#include "common.h"
static const int mtypes[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK };
static void mk(pthread_mutex_t *m, int type, int robust)
{
  pthread_mutexattr_t at;
  CHECK(pthread_mutexattr_init(&at) == 0, "mutexattr");
  CHECK(pthread_mutexattr_settype(&at, type) == 0, "mutexattr");
  CHECK(pthread_mutexattr_setrobust(&at, robust ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED) == 0, "mutexattr");
  CHECK(pthread_mutex_init(m, &at) == 0, "mutex-init");
  CHECK(pthread_mutexattr_destroy(&at) == 0, "mutexattr");
}

/* C02: who owns the mutex decides what lock/unlock answer. */
static struct { pthread_mutex_t m; int type, robust, ops; volatile long owner, depth; volatile long stop; } O;
static void *owner_thread(void *a)
{
  int me = IDX(a) + 1, held = 0;
  for (int i = 0; i < O.ops || held; i++) {
    int op = i >= O.ops ? 4 : sim_choice(6), r;
    struct timespec ts;
    if (i > 60) op = 4;
    switch (op) {
    case 0: case 1: case 2: case 3:
      if (held && O.type == PTHREAD_MUTEX_NORMAL && (op == 0 || op == 3)) op = 1; /* would deadlock */
      if (op == 0 || op == 3) r = pthread_mutex_lock(&O.m);
      else if (op == 1) r = pthread_mutex_trylock(&O.m);
      else { ts = in_ms(sim_choice(3)); r = pthread_mutex_timedlock(&O.m, &ts); }
      if (held) {
        switch (O.type) {
        case PTHREAD_MUTEX_RECURSIVE: CHECKV(r == 0, "owner-relock-recursive", r); break;
        case PTHREAD_MUTEX_ERRORCHECK: CHECKV(r == (op == 1 ? EBUSY : EDEADLK), "owner-relock-errorcheck", r); break;
        default: CHECKV(r == (op == 1 ? EBUSY : ETIMEDOUT), "owner-relock-normal", r);
        }
        if (r == 0) { held++; CHECK(sim_add(&O.depth, 1) == held, "owner-depth"); }
        CHECKV(O.owner == me, "owner-lost", O.owner);
      } else {
        if (op == 0 || op == 3) CHECKV(r == 0, "owner-lock", r);
        else if (op == 1) CHECKV(r == 0 || r == EBUSY, "owner-trylock", r);
        else CHECKV(r == 0 || r == ETIMEDOUT, "owner-timedlock", r);
        if (r == 0) {
          CHECKV(sim_set(&O.owner, me) == 0, "owner-exclusion", O.owner);
          CHECK(sim_add(&O.depth, 1) == 1, "owner-depth");
          held = 1;
        }
      }
      break;
    case 4:
      if (held) {
        CHECKV(O.owner == me, "owner-lost", O.owner);
        CHECK(sim_add(&O.depth, -1) == held - 1, "owner-depth");
        if (--held == 0) CHECKV(sim_set(&O.owner, 0) == me, "owner-exclusion", O.owner);
        r = pthread_mutex_unlock(&O.m);
        CHECKV(r == 0, "owner-unlock", r);
      }
      break;
    case 5:
      if (!held && (O.type != PTHREAD_MUTEX_NORMAL || O.robust)) {
        r = pthread_mutex_unlock(&O.m);
        CHECKV(r == EPERM, "foreign-unlock-accepted", r);
        sim_probe("foreign_unlock");
      } else sim_stall();
      break;
    }
  }
  return 0;
}
SCENARIO(mutex_owner)
{
  pthread_t t[4]; int n = 2 + sim_choice(2);
  O.type = mtypes[sim_choice(3)]; O.robust = sim_choice(2); O.ops = 2 + sim_choice(7);
  mk(&O.m, O.type, O.robust);
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) t[i] = xcreate(owner_thread, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  CHECK(pthread_mutex_trylock(&O.m) == 0, "mutex-left-locked");
  CHECK(pthread_mutex_unlock(&O.m) == 0, "owner-unlock");
  CHECK(pthread_mutex_destroy(&O.m) == 0, "mutex-destroy");
}

/* C03: robust mutexes. */
static struct { pthread_mutex_t m; pthread_cond_t c; int type, iters; volatile long inside, dead, nr, nr_done; volatile long owner; } B;
static volatile long hold_forever;
static void die(int how)
{
  switch (how) {
  case 0: return;
  case 1: pthread_exit((void *)7);
  case 2: pthread_cancel(pthread_self()); pthread_testcancel(); sim_violation("cancel-ignored", __LINE__, 0);
  }
}
static void *robust_thread(void *a)
{
  int me = IDX(a) + 1;
  for (int i = 0; i < B.iters; i++) {
    int how = sim_choice(4), r, nr0 = B.nr_done, depth, waits = 0;
    struct timespec ts;
    if (how == 3) r = pthread_mutex_trylock(&B.m);
    else if (how == 2) { ts = in_ms(sim_choice(4)); r = pthread_mutex_timedlock(&B.m, &ts); }
    else r = pthread_mutex_lock(&B.m);
    if (r == EBUSY) { CHECK(how == 3, "robust-result"); CHECK(!nr0, "robust-unrecoverable-ignored"); continue; }
    if (r == ETIMEDOUT) { CHECK(how == 2, "robust-result"); continue; }
  got:
    depth = 1;
    if (r == ENOTRECOVERABLE) { CHECK(B.nr, "robust-notrecoverable-early"); sim_probe("notrecoverable"); if (sim_choice(2)) { r = pthread_mutex_consistent(&B.m); CHECKV(r == EINVAL, "robust-consistent-accepted", r); } continue; }
    CHECK(!B.nr, "robust-unrecoverable-acquired");
    if (r == EOWNERDEAD) {
      sim_probe("ownerdead");
      CHECK(sim_set(&B.dead, 0) == 1, "robust-ownerdead-spurious");
      CHECKV(B.inside == 1, "robust-exclusion", B.inside);
      sim_set(&B.owner, me);
      sim_stall();
      CHECKV(B.owner == me, "robust-exclusion", B.owner);
      switch (sim_choice(5)) {
      case 0: case 1: case 2:
        if (B.type == PTHREAD_MUTEX_RECURSIVE && sim_choice(3) == 2) {
          CHECK((r = pthread_mutex_lock(&B.m)) == 0, "robust-relock");
          CHECK((r = pthread_mutex_unlock(&B.m)) == 0, "robust-unlock");
          sim_probe("nested_unlock_inconsistent");
        }
        r = pthread_mutex_consistent(&B.m); CHECKV(r == 0, "robust-consistent", r); break;
      case 3: sim_set(&B.nr, 1); sim_probe("left_inconsistent"); break;
      case 4: sim_set(&B.dead, 1); sim_set(&B.owner, 0); sim_probe("died_inconsistent"); die(sim_choice(3)); return 0;
      }
      if (B.nr) { sim_set(&B.owner, 0); r = pthread_mutex_unlock(&B.m); CHECKV(r == 0, "robust-unlock", r); sim_set(&B.nr_done, 1); continue; }
    } else {
      CHECKV(r == 0, "robust-result", r);
      CHECK(!B.dead, "robust-ownerdead-missed");
      CHECKV(sim_add(&B.inside, 1) == 1, "robust-exclusion", B.inside);
      sim_set(&B.owner, me);
      if (sim_choice(4) == 3) { r = pthread_mutex_consistent(&B.m); CHECKV(r == EINVAL, "robust-consistent-accepted", r); }
      sim_stall();
      CHECKV(B.owner == me, "robust-exclusion", B.owner);
      if (B.type == PTHREAD_MUTEX_RECURSIVE && sim_choice(3) == 2) { CHECK((r = pthread_mutex_lock(&B.m)) == 0, "robust-relock"); depth = 2; }
      if (sim_choice(3) == 2) { sim_set(&B.dead, 1); sim_set(&B.owner, 0); sim_probe("owner_died"); die(sim_choice(3)); return 0; }
    }
    if (depth == 2) { CHECK((r = pthread_mutex_unlock(&B.m)) == 0, "robust-unlock"); sim_stall(); CHECKV(B.owner == me, "robust-exclusion", B.owner); }
    sim_set(&B.owner, 0);
    CHECK(sim_add(&B.inside, -1) == 0, "robust-exclusion");
    if (waits < 2 && sim_choice(4) == 3) {      /* let go of it in a condition wait: coming back is like locking it */
      waits++; ts = in_ms(sim_choice(4)); r = pthread_cond_timedwait(&B.c, &B.m, &ts); if (r == ETIMEDOUT) r = 0;
      sim_probe("waited"); if (r == EOWNERDEAD) sim_probe("ownerdead_after_wait"); goto got;
    }
    if (sim_choice(3) == 2) pthread_cond_broadcast(&B.c);
    r = pthread_mutex_unlock(&B.m);
    CHECKV(r == 0, "robust-unlock", r);
  }
  return 0;
}
SCENARIO(mutex_robust)
{
  pthread_t t[6]; int n = 2 + sim_choice(4), r;
  B.type = mtypes[sim_choice(3)]; B.iters = 1 + sim_choice(3);
  mk(&B.m, B.type, 1); CHECK(pthread_cond_init(&B.c, NULL) == 0, "cond-init");
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) t[i] = xcreate(robust_thread, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  r = sim_choice(2) ? pthread_mutex_lock(&B.m) : pthread_mutex_trylock(&B.m);
  if (B.nr) CHECKV(r == ENOTRECOVERABLE, "robust-final-notrecoverable", r);
  else if (B.dead) { CHECKV(r == EOWNERDEAD, "robust-final-ownerdead", r); CHECK(pthread_mutex_consistent(&B.m) == 0, "robust-consistent"); }
  else CHECKV(r == 0, "robust-final", r);
  if (B.nr && sim_choice(2)) { r = pthread_mutex_consistent(&B.m); CHECKV(r == EINVAL, "robust-consistent-accepted", r); r = pthread_mutex_unlock(&B.m); CHECKV(r == EPERM, "robust-unlock-not-owner", r); r = pthread_mutex_trylock(&B.m); CHECKV(r == ENOTRECOVERABLE, "robust-final-notrecoverable", r); }
  if (!B.nr) CHECK(pthread_mutex_unlock(&B.m) == 0, "robust-unlock");
  r = pthread_mutex_destroy(&B.m); CHECKV(r == 0, "mutex-destroy", r);
}
/* several robust mutexes held by one dying thread, waiters blocked on them */
static struct { pthread_mutex_t m[4]; int k; int type[4]; volatile long held[4], ready; int died_how; volatile long gotdead[4]; } RM;
static void *multi_owner(void *a)
{
  int ops = 2 + sim_choice(6), depth[4] = {0};
  for (int i = 0; i < ops; i++) {
    int j = sim_choice(RM.k);
    if (!depth[j]) { CHECK(pthread_mutex_lock(&RM.m[j]) == 0, "robust-result"); depth[j] = 1; sim_set(&RM.held[j], 1); }
    else if (sim_choice(2)) { sim_set(&RM.held[j], 0); depth[j] = 0; CHECK(pthread_mutex_unlock(&RM.m[j]) == 0, "robust-unlock"); }
  }
  sim_set(&RM.ready, 1);
  sim_stall();
  die(RM.died_how);
  return 0;
}
static void *multi_waiter(void *a)
{
  int j = IDX(a), r;
  sim_wait_ge(&RM.ready, sim_choice(2));
  r = pthread_mutex_lock(&RM.m[j]);
  if (r == EOWNERDEAD) {
    CHECK(RM.ready && RM.held[j], "robust-ownerdead-spurious");
    CHECK(sim_add(&RM.gotdead[j], 1) == 1, "robust-ownerdead-twice");
    CHECK(pthread_mutex_consistent(&RM.m[j]) == 0, "robust-consistent");
  } else CHECKV(r == 0, "robust-result", r);
  CHECK(pthread_mutex_unlock(&RM.m[j]) == 0, "robust-unlock");
  return 0;
}
SCENARIO(mutex_robust_multi)
{
  pthread_t o, w[6]; int nw, r;
  RM.k = 1 + sim_choice(4); RM.died_how = sim_choice(3);
  for (int i = 0; i < RM.k; i++) { RM.type[i] = mtypes[sim_choice(3)]; mk(&RM.m[i], RM.type[i], 1); }
  nw = sim_choice(5);
  o = xcreate(multi_owner, 0);
  for (int i = 0; i < nw; i++) w[i] = xcreate(multi_waiter, (void *)(size_t)sim_choice(RM.k));
  xjoin(o);
  for (int i = 0; i < nw; i++) xjoin(w[i]);
  for (int i = 0; i < RM.k; i++) {
    r = pthread_mutex_lock(&RM.m[i]);
    int want = RM.held[i] && !RM.gotdead[i] ? EOWNERDEAD : 0;
    CHECKV(r == want, want ? "robust-final-ownerdead" : "robust-final", r);
    if (r == EOWNERDEAD) CHECK(pthread_mutex_consistent(&RM.m[i]) == 0, "robust-consistent");
    CHECK(pthread_mutex_unlock(&RM.m[i]) == 0, "robust-unlock");
    CHECK(pthread_mutex_destroy(&RM.m[i]) == 0, "mutex-destroy");
  }
}

/* C13: static initialisers, first used by several threads at once. */
static struct {
  pthread_mutex_t m; pthread_cond_t c; pthread_rwlock_t rw; pthread_spinlock_t sp; int mt, n; unsigned what;
  volatile long in_m, in_rw, in_sp, rd, waiting, go; int faulty;
} S;
static int okerr(int r) { return S.faulty && (r == ENOMEM || r == EAGAIN || r == ENOSPC || r == EINVAL); }
static void *static_thread(void *a)
{
  int me = IDX(a), r;
  int order = sim_choice(3);
  for (int k = 0; k < 3; k++) switch ((order + k) % 3) {
  case 0:
    if (!(S.what & 1)) break;
    do { r = sim_choice(2) ? pthread_mutex_lock(&S.m) : pthread_mutex_trylock(&S.m); CHECKV(r == 0 || r == EBUSY || okerr(r), "static-mutex-lock", r); } while (r != 0 && r != EBUSY && sim_faults_fired() < 100);
    if (r == EBUSY) { r = pthread_mutex_lock(&S.m); CHECKV(r == 0 || okerr(r), "static-mutex-lock", r); if (r) break; }
    CHECK(sim_add(&S.in_m, 1) == 1, "static-mutex-exclusion");
    if (S.mt == 1) { r = pthread_mutex_lock(&S.m); CHECKV(r == 0, "static-mutex-type", r); CHECK(pthread_mutex_unlock(&S.m) == 0, "static-mutex-type"); }
    if (S.mt == 2) { r = pthread_mutex_lock(&S.m); CHECKV(r == EDEADLK, "static-mutex-type", r); }
    sim_stall();
    if (S.what & 8) {
      struct timespec ts = in_ms(1 + sim_choice(3));
      sim_add(&S.in_m, -1);
      if (sim_choice(2)) { r = pthread_cond_signal(&S.c); CHECKV(r == 0 || okerr(r), "static-cond", r); }
      r = pthread_cond_timedwait(&S.c, &S.m, &ts);
      CHECKV(r == 0 || r == ETIMEDOUT || okerr(r), "static-cond", r);
      CHECK(sim_add(&S.in_m, 1) == 1, "static-mutex-exclusion");
    }
    CHECK(sim_add(&S.in_m, -1) == 0, "static-mutex-exclusion");
    r = pthread_mutex_unlock(&S.m); CHECKV(r == 0, "static-mutex-unlock", r);
    break;
  case 1:
    if (!(S.what & 2)) break;
    if (sim_choice(2)) {
      r = pthread_rwlock_wrlock(&S.rw); CHECKV(r == 0 || okerr(r), "static-rwlock", r); if (r) break;
      CHECK(sim_add(&S.in_rw, 1) == 1 && !S.rd, "static-rwlock-exclusion"); sim_stall();
      CHECK(sim_add(&S.in_rw, -1) == 0 && !S.rd, "static-rwlock-exclusion");
    } else {
      r = pthread_rwlock_rdlock(&S.rw); CHECKV(r == 0 || okerr(r), "static-rwlock", r); if (r) break;
      sim_add(&S.rd, 1); CHECK(!S.in_rw, "static-rwlock-exclusion"); sim_stall(); CHECK(!S.in_rw, "static-rwlock-exclusion"); sim_add(&S.rd, -1);
    }
    r = pthread_rwlock_unlock(&S.rw); CHECKV(r == 0, "static-rwlock-unlock", r);
    break;
  case 2:
    if (!(S.what & 4)) break;
    r = pthread_spin_lock(&S.sp); CHECKV(r == 0 || okerr(r), "static-spin", r); if (r) break;
    CHECK(sim_add(&S.in_sp, 1) == 1, "static-spin-exclusion"); sim_stall(); CHECK(sim_add(&S.in_sp, -1) == 0, "static-spin-exclusion");
    r = pthread_spin_unlock(&S.sp); CHECKV(r == 0, "static-spin-unlock", r);
    break;
  }
  return 0;
}
static void static_init(int faults)
{
  static const pthread_mutex_t mi[] = { PTHREAD_MUTEX_INITIALIZER, PTHREAD_RECURSIVE_MUTEX_INITIALIZER, PTHREAD_ERRORCHECK_MUTEX_INITIALIZER };
  static const pthread_cond_t ci = PTHREAD_COND_INITIALIZER; static const pthread_rwlock_t ri = PTHREAD_RWLOCK_INITIALIZER; static const pthread_spinlock_t si = PTHREAD_SPINLOCK_INITIALIZER;
  pthread_t t[6]; int r; long h0, b0;
  S.mt = sim_choice(3); S.what = 1 + sim_choice(15); S.n = 2 + sim_choice(4); S.faulty = faults;
  S.m = mi[S.mt]; S.c = ci; S.rw = ri; S.sp = si;
  if (!(S.what & 1)) S.what &= ~8u;
  pthread_self();
  for (int i = 0; i < S.n; i++) t[i] = xcreate(static_thread, (void *)(size_t)i);
  if (faults) sim_faults(F_ALLOC | F_EVENT | F_SEM | F_OPENP | F_AFF);
  else sim_faults(F_LATE);
  for (int i = 0; i < S.n; i++) xjoin(t[i]);
  sim_faults(0);
  /* after the first uses everything works, is of the right kind, and can be destroyed */
  r = pthread_mutex_lock(&S.m); CHECKV(r == 0, "static-mutex-lock", r);
  r = pthread_mutex_unlock(&S.m); CHECKV(r == 0, "static-mutex-unlock", r);
  r = pthread_rwlock_wrlock(&S.rw); CHECKV(r == 0, "static-rwlock", r);
  r = pthread_rwlock_unlock(&S.rw); CHECKV(r == 0, "static-rwlock", r);
  r = pthread_spin_lock(&S.sp); CHECKV(r == 0, "static-spin", r);
  r = pthread_spin_unlock(&S.sp); CHECKV(r == 0, "static-spin", r);
  r = pthread_cond_signal(&S.c); CHECKV(r == 0, "static-cond", r);
  r = pthread_cond_destroy(&S.c); CHECKV(r == 0, "static-cond-destroy", r);
  r = pthread_mutex_destroy(&S.m); CHECKV(r == 0, "static-mutex-destroy", r);
  r = pthread_rwlock_destroy(&S.rw); CHECKV(r == 0, "static-rwlock-destroy", r);
  r = pthread_spin_destroy(&S.sp); CHECKV(r == 0, "static-spin-destroy", r);
}
SCENARIO(static_init) { static_init(0); }
SCENARIO(static_init_faults) { static_init(1); }
