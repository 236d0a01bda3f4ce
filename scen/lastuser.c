#include "common.h"
/* C06: an object that guards its own reference count is destroyed and freed by whoever drops the last reference */
#define NT 5
typedef struct { int what, ref; pthread_mutex_t m; pthread_rwlock_t rw; sem_t s; pthread_spinlock_t sp; volatile long in; } Obj;
static Obj *volatile G; static volatile long gone; static int how;
static int lu_get(Obj *o)
{
  int r; struct timespec ts;
  switch (o->what) {
  case 0: switch (how == 3 ? sim_choice(3) : how) {
    case 1: do { r = pthread_mutex_trylock(&o->m); CHECKV(r == 0 || r == EBUSY, "lastuser-trylock", r); if (r) sim_yield(); } while (r); return 0;
    case 2: do { ts = in_ms(1 + sim_choice(3)); r = pthread_mutex_timedlock(&o->m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "lastuser-timedlock", r); } while (r); return 0;
    default: return pthread_mutex_lock(&o->m); }
  case 1: switch (how == 3 ? sim_choice(3) : how) {
    case 1: do { r = pthread_rwlock_trywrlock(&o->rw); CHECKV(r == 0 || r == EBUSY, "lastuser-trywrlock", r); if (r) sim_yield(); } while (r); return 0;
    case 2: do { ts = in_ms(1 + sim_choice(3)); r = pthread_rwlock_timedwrlock(&o->rw, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "lastuser-timedwrlock", r); } while (r); return 0;
    default: return pthread_rwlock_wrlock(&o->rw); }
  case 2: switch (how == 3 ? sim_choice(3) : how) {
    case 1: do { r = sem_trywait(&o->s); CHECKV(r == 0 || errno == EAGAIN, "lastuser-trywait", errno); if (r) sim_yield(); } while (r); return 0;
    case 2: do { ts = in_ms(1 + sim_choice(3)); r = sem_timedwait(&o->s, &ts); CHECKV(r == 0 || errno == ETIMEDOUT, "lastuser-timedwait", errno); } while (r); return 0;
    default: return sem_wait(&o->s); }
  default: if (how & 1) { do { r = pthread_spin_trylock(&o->sp); CHECKV(r == 0 || r == EBUSY, "lastuser-spin", r); if (r) sim_yield(); } while (r); return 0; }
    return pthread_spin_lock(&o->sp);
  }
}
static int lu_put(Obj *o) { switch (o->what) { case 0: return pthread_mutex_unlock(&o->m); case 1: return pthread_rwlock_unlock(&o->rw); case 2: return sem_post(&o->s); default: return pthread_spin_unlock(&o->sp); } }
static void lu_drop(void)
{
  Obj *o = G; int r, last;
  if (o->what == 1 && sim_choice(2)) { r = pthread_rwlock_rdlock(&o->rw); CHECKV(r == 0, "lastuser-rdlock", r); CHECK(o->ref > 0, "lastuser-count"); r = pthread_rwlock_unlock(&o->rw); CHECKV(r == 0, "lastuser-unlock", r); }
  if (sim_choice(3) == 2) { r = lu_get(o); CHECKV(r == 0, "lastuser-lock", r); sim_yield(); r = lu_put(o); CHECKV(r == 0, "lastuser-unlock", r); }
  r = lu_get(o); CHECKV(r == 0, "lastuser-lock", r); CHECK(sim_add(&o->in, 1) == 1, "lastuser-exclusion");
  last = --o->ref == 0;
  sim_add(&o->in, -1); r = lu_put(o); CHECKV(r == 0, "lastuser-unlock", r);
  if (!last) return;
  switch (o->what) {
  case 0: r = pthread_mutex_destroy(&o->m); break;
  case 1: r = pthread_rwlock_destroy(&o->rw); break;
  case 2: r = sem_destroy(&o->s); break;
  default: r = pthread_spin_destroy(&o->sp);
  }
  CHECKV(r == 0, "lastuser-destroy", r);
  memset(o, 0x6b, sizeof *o); free(o); gone = 1; sim_probe("destroyed_by_last_user");
}
static void *lu_thr(void *a) { if (sim_choice(4) == 3) sim_stall(); lu_drop(); return a; }
SCENARIO(last_user)
{
  static const int ty[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE };
  int n = 2 + sim_choice(NT - 1), r = 0; pthread_t t[NT]; Obj *o = (Obj *)calloc(1, sizeof *o); pthread_mutexattr_t ma; int mt = sim_choice(3), rob = sim_choice(3) == 2;
  o->ref = n; o->what = sim_choice(2) ? 0 : sim_choice(4); how = sim_choice(4); G = o; 
  switch (o->what) {
  case 0: pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, ty[mt]); if (rob) pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&o->m, &ma); pthread_mutexattr_destroy(&ma); break;
  case 1: if (mt) r = pthread_rwlock_init(&o->rw, NULL); else { pthread_rwlock_t i = PTHREAD_RWLOCK_INITIALIZER; o->rw = i; } break;
  case 2: r = sem_init(&o->s, 0, 1); break;
  default: r = pthread_spin_init(&o->sp, PTHREAD_PROCESS_PRIVATE);
  }
  CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n - 1; i++) t[i] = xcreate(lu_thr, (void *)(size_t)i);
  lu_drop();
  for (int i = 0; i < n - 1; i++) xjoin(t[i]);
  CHECK(gone, "lastuser-count");
}
