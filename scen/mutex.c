#include "common.h"
/* C01: mutual exclusion and progress for every mutex type and locking call. */
static struct {
  pthread_mutex_t m; int type, robust, nthr, iters, use_timed, use_try;
  volatile long inside; volatile long owner; volatile long total; volatile long count;
} M;

static int acquire(int *got)
{
  int how = sim_choice(M.use_timed ? (M.use_try ? 4 : 3) : (M.use_try ? 2 : 1));
  int r; *got = 0;
  if (M.use_try && how == (M.use_timed ? 3 : 1)) {
    r = pthread_mutex_trylock(&M.m);
    CHECKV(r == 0 || r == EBUSY, "mutex-trylock-result", r);
  } else if (how == 0) {
    r = pthread_mutex_lock(&M.m);
    CHECKV(r == 0, "mutex-lock-result", r);
  } else {
    struct timespec ts = in_ms(sim_choice(4) * 3);
    r = pthread_mutex_timedlock(&M.m, &ts);
    CHECKV(r == 0 || r == ETIMEDOUT, "mutex-timedlock-result", r);
  }
  *got = r == 0;
  return r;
}
static void *mutex_thread(void *a)
{
  int me = IDX(a) + 1, got;
  for (int i = 0; i < M.iters; i++) {
    acquire(&got);
    if (!got) { sim_probe("mutex_not_acquired"); sim_stall(); continue; }
    CHECK(sim_add(&M.inside, 1) == 1, "mutex-exclusion");
    CHECK(sim_set(&M.owner, me) == 0, "mutex-exclusion");
    long c = M.count; sim_stall(); M.count = c + 1;
    CHECKV(M.owner == me, "mutex-exclusion", M.owner);
    if (M.type == PTHREAD_MUTEX_RECURSIVE && sim_choice(3) == 2) {
      CHECK(pthread_mutex_lock(&M.m) == 0, "mutex-recursive-relock");
      sim_stall();
      CHECK(pthread_mutex_unlock(&M.m) == 0, "mutex-unlock-result");
      CHECKV(M.owner == me, "mutex-exclusion", M.owner);
    }
    sim_set(&M.owner, 0);
    sim_add(&M.inside, -1);
    sim_add(&M.total, 1);
    int r = pthread_mutex_unlock(&M.m);
    CHECKV(r == 0, "mutex-unlock-result", r);
  }
  return 0;
}
SCENARIO(mutex_excl)
{
  static const int types[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK };
  pthread_mutexattr_t at; pthread_t t[MAXTHR];
  M.type = types[sim_choice(3)]; M.robust = sim_choice(2);
  M.nthr = 2 + sim_choice(3); M.iters = 1 + sim_choice(3);
  M.use_timed = sim_choice(2); M.use_try = sim_choice(2);
  CHECK(pthread_mutexattr_init(&at) == 0, "mutexattr");
  CHECK(pthread_mutexattr_settype(&at, M.type) == 0, "mutexattr");
  CHECK(pthread_mutexattr_setrobust(&at, M.robust ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED) == 0, "mutexattr");
  CHECK(pthread_mutex_init(&M.m, &at) == 0, "mutex-init");
  sim_faults(F_LATE | F_CLOCK);
  for (int i = 0; i < M.nthr; i++) t[i] = xcreate(mutex_thread, (void *)(size_t)i);
  for (int i = 0; i < M.nthr; i++) xjoin(t[i]);
  CHECK(M.count == M.total, "mutex-exclusion");
  CHECK(pthread_mutex_trylock(&M.m) == 0, "mutex-left-locked");
  CHECK(pthread_mutex_unlock(&M.m) == 0, "mutex-unlock-result");
  CHECK(pthread_mutex_destroy(&M.m) == 0, "mutex-destroy");
}
