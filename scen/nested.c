#include "common.h"
/* C34: several objects used together, nested in one order, with threads cancelled, exiting and timing out anywhere inside */
#define NT 10
#define NL 7
enum { M0, L0, M1, L1, SP2, M2, SPIN };         /* the order of nesting */
static struct {
  pthread_mutex_t m[3]; pthread_rwlock_t l[2]; sem_t s; pthread_spinlock_t sp; pthread_cond_t c; pthread_key_t k; int rec[3], n;
  volatile long w[NL], r[NL], flag, req[NT], handlers[NT], pushed[NT], popped[NT], dt[NT], joined[NT]; pthread_t t[NT]; volatile long nt;
} G;
typedef struct { int what, i, write, deep, waiting, child; } F;
static void walk(int i, int lev);
static void dtor(void *v) { int i = IDX(v) - 1; CHECKV(G.pushed[i] == G.popped[i], "destructor-before-handlers", i); sim_add(&G.dt[i], 1); }
static void inside(F *f)
{
  int w = f->what; long n;
  if (f->write) { n = sim_add(&G.w[w], 1); CHECKV(n <= (w == SP2 ? 2 : 1), "nested-exclusion", w); CHECKV(G.r[w] == 0, "nested-exclusion", w); }
  else { sim_add(&G.r[w], 1); CHECKV(G.w[w] == 0, "nested-exclusion", w); }
}
static void outside(F *f) { sim_add(f->write ? &G.w[f->what] : &G.r[f->what], -1); }
static int mutex_of(int w) { return w == M0 ? 0 : w == M1 ? 1 : w == M2 ? 2 : -1; }
static int acquire(F *f)
{
  int w = f->what, r, how = sim_choice(4), m = mutex_of(w); struct timespec ts = in_ms(sim_choice(3) * 10); f->write = 1; f->deep = 0; f->waiting = 0; f->child = -1;
  if (m >= 0) {
    r = how == 1 ? pthread_mutex_trylock(&G.m[m]) : how == 2 ? pthread_mutex_timedlock(&G.m[m], &ts) : pthread_mutex_lock(&G.m[m]);
    CHECKV(r == 0 || (how == 1 && r == EBUSY) || (how == 2 && r == ETIMEDOUT), "nested-lock-result", r);
    if (r == 0 && G.rec[m]) for (f->deep = sim_choice(3), how = 0; how < f->deep; how++) { r = pthread_mutex_lock(&G.m[m]); CHECKV(r == 0, "nested-relock-result", r); }
  } else if (w == L0 || w == L1) {
    pthread_rwlock_t *l = &G.l[w == L1]; f->write = sim_choice(2);
    if (f->write) r = how == 1 ? pthread_rwlock_trywrlock(l) : how == 2 ? pthread_rwlock_timedwrlock(l, &ts) : pthread_rwlock_wrlock(l);
    else r = how == 1 ? pthread_rwlock_tryrdlock(l) : how == 2 ? pthread_rwlock_timedrdlock(l, &ts) : pthread_rwlock_rdlock(l);
    CHECKV(r == 0 || (how == 1 && r == EBUSY) || (how == 2 && r == ETIMEDOUT), "nested-lock-result", r);
  } else if (w == SPIN) { r = how == 1 ? pthread_spin_trylock(&G.sp) : pthread_spin_lock(&G.sp); CHECKV(r == 0 || (how == 1 && r == EBUSY), "nested-spin-result", r); }
  else {
    r = how == 1 ? sem_trywait(&G.s) : how == 2 ? sem_timedwait(&G.s, &ts) : sem_wait(&G.s); if (r) r = errno;
    CHECKV(r == 0 || (how == 1 && r == EAGAIN) || (how == 2 && r == ETIMEDOUT), "nested-sem-result", r);
  }
  if (r) { sim_probe("not_obtained"); return 0; }
  inside(f); return 1;
}
static void release(void *a)
{
  F *f = (F *)a; int w = f->what, m = mutex_of(w), r = 0;
  if (f->waiting) inside(f);        /* cancelled in the condition wait: the mutex is ours again */
  if (f->child >= 0) { void *v; r = pthread_join(G.t[f->child], &v); CHECKV(r == 0, "nested-join-result", r); sim_add(&G.joined[f->child], 1); sim_probe("joined_by_handler"); }
  outside(f); sim_add(&G.popped[f->i], 1);
  if (m >= 0) for (; f->deep >= 0 && r == 0; f->deep--) r = pthread_mutex_unlock(&G.m[m]);
  else if (w == L0 || w == L1) r = pthread_rwlock_unlock(&G.l[w == L1]);
  else if (w == SPIN) r = pthread_spin_unlock(&G.sp);
  else { r = sem_post(&G.s); if (r) r = errno; }
  CHECKV(r == 0, "nested-release-result", r);
}
static void *thr(void *a)
{
  int i = IDX(a) & 15, lev = IDX(a) >> 4, r;
  if (sim_choice(2)) { r = pthread_setspecific(G.k, (void *)(size_t)(i + 1)); CHECKV(r == 0, "setup", r); } else sim_add(&G.dt[i], 1);
  walk(i, lev);
  return (void *)(size_t)(0x100 + i);
}
static void one(int i, int w)
{
  F f; int r; f.what = w; f.i = i;
  if (!acquire(&f)) return;
  sim_add(&G.pushed[i], 1);
  pthread_cleanup_push(release, &f);
  if (f.what == SPIN) sim_yield();
  else switch (sim_choice(9)) {
    case 0: break;
    case 1: pthread_testcancel(); break;
    case 2: { struct timespec d = { 0, sim_choice(2) * 3000000 }; r = pthread_delay_np(&d); CHECKV(r == 0, "nested-delay-result", r); break; }
    case 3: if (f.what == M1 && !f.deep) {
        int timed = sim_choice(2), k = 3;
        while (!G.flag && k > 0) {
          struct timespec ts = in_ms(sim_choice(3) * 10 - 1); f.waiting = 1; outside(&f);
          r = timed ? pthread_cond_timedwait(&G.c, &G.m[1], &ts) : pthread_cond_wait(&G.c, &G.m[1]);
          f.waiting = 0; inside(&f); CHECKV(r == 0 || (timed && r == ETIMEDOUT), "nested-cond-result", r); if (timed) k--;
        }
      } break;
    case 4: if (f.what == M1 && sim_choice(2)) { r = sim_choice(2) ? pthread_cond_signal(&G.c) : pthread_cond_broadcast(&G.c); CHECKV(r == 0, "nested-signal-result", r); } break;
    case 5: { int c = sim_add(&G.nt, 1) - 1; void *v; if (c >= NT) { sim_add(&G.nt, -1); break; }
        r = pthread_create(&G.t[c], NULL, thr, (void *)(size_t)(c | (f.what + 1) << 4)); CHECKV(r == 0, "create-failed", r);
        f.child = c; r = pthread_join(G.t[c], &v); CHECKV(r == 0, "nested-join-result", r); sim_add(&G.joined[c], 1); CHECKV(v == (void *)(size_t)(0x100 + c), "join-value", v); f.child = -1; break; }
    case 6: if (sim_choice(4) == 3) pthread_exit((void *)(size_t)(0x100 + i)); break;
    default: walk(i, f.what + 1);
  }
  pthread_cleanup_pop(1);
}
static void walk(int i, int lev) { for (int n = 1 + sim_choice(2); n > 0 && lev < NL; n--) { one(i, lev + sim_choice(NL - lev)); if (sim_choice(4) == 3) pthread_testcancel(); } }
SCENARIO(nested)
{
  static const int ty[] = { PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE }; int r, n = 2 + sim_choice(3);
  for (int i = 0; i < 3; i++) {
    int k = sim_choice(4); pthread_mutexattr_t a; G.rec[i] = k == 2;
    if (k == 3) { pthread_mutex_t s = PTHREAD_MUTEX_INITIALIZER; G.m[i] = s; continue; }
    pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, ty[k]); if (sim_choice(4) == 3) pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST);
    CHECK(pthread_mutex_init(&G.m[i], &a) == 0, "setup"); pthread_mutexattr_destroy(&a);
  }
  for (int i = 0; i < 2; i++) if (sim_choice(2)) { pthread_rwlock_t s = PTHREAD_RWLOCK_INITIALIZER; G.l[i] = s; } else CHECK(pthread_rwlock_init(&G.l[i], NULL) == 0, "setup");
  if (sim_choice(2)) { pthread_cond_t s = PTHREAD_COND_INITIALIZER; G.c = s; } else CHECK(pthread_cond_init(&G.c, NULL) == 0, "setup");
  CHECK(sem_init(&G.s, 0, 2) == 0 && pthread_spin_init(&G.sp, 0) == 0 && pthread_key_create(&G.k, dtor) == 0, "setup");
  G.nt = n;
  for (int i = 0; i < n; i++) G.t[i] = xcreate(thr, (void *)(size_t)i);
  sim_faults(F_LATE);
  if (sim_choice(3)) for (int k = sim_choice(3); k > 0; k--) { int i = sim_choice(n); sim_stall(); G.req[i] = 1; r = pthread_cancel(G.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); }
  if (sim_choice(2)) sim_stall();
  r = pthread_mutex_lock(&G.m[1]); CHECKV(r == 0, "nested-lock-result", r); G.flag = 1; r = pthread_mutex_unlock(&G.m[1]); CHECKV(r == 0, "nested-release-result", r);
  r = pthread_cond_broadcast(&G.c); CHECKV(r == 0, "nested-signal-result", r);
  for (int i = 0; i < n; i++) { void *v = xjoin(G.t[i]); CHECKV(v == (void *)(size_t)(0x100 + i) || (G.req[i] && v == PTHREAD_CANCELED), "join-value", v); if (v == PTHREAD_CANCELED) sim_probe("cancelled"); }
  sim_faults(0);
  for (int i = 0; i < G.nt; i++) { CHECKV(i < n || G.joined[i] == 1, "nested-child-joined", G.joined[i]); CHECKV(G.pushed[i] == G.popped[i], "nested-handlers", i); CHECKV(G.dt[i] == 1, "nested-destructors", G.dt[i]); }
  for (int i = 0; i < NL; i++) CHECKV(G.w[i] == 0 && G.r[i] == 0, "nested-count", i);
  { int v; r = sem_getvalue(&G.s, &v); CHECKV(r == 0 && v == 2, "nested-sem-value", v); }
  for (int i = 0; i < 3; i++) { r = pthread_mutex_destroy(&G.m[i]); CHECKV(r == 0, "nested-destroy", r); }
  for (int i = 0; i < 2; i++) { r = pthread_rwlock_destroy(&G.l[i]); CHECKV(r == 0, "nested-destroy", r); }
  r = pthread_cond_destroy(&G.c); CHECKV(r == 0, "nested-destroy", r);
  r = sem_destroy(&G.s); CHECKV(r == 0, "nested-destroy", r);
  r = pthread_spin_destroy(&G.sp); CHECKV(r == 0, "nested-destroy", r);
  r = pthread_key_delete(G.k); CHECKV(r == 0, "nested-destroy", r);
}
