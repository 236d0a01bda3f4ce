#include "common.h"
#include <stddef.h>
/* C30: attribute objects; C24: CPU sets and processes. */
GUEST_IMPORT void *__stdcall GetCurrentThread(void);
#define N 2
static int at_f;
enum { A_T, A_M, A_C, A_R, A_B, NK };
struct ta { pthread_attr_t a; int live, det, inh, prio; size_t stk; size_t cpus; char nm[40]; };
struct oa { union { pthread_mutexattr_t m; pthread_condattr_t c; pthread_rwlockattr_t r; pthread_barrierattr_t b; } u; int live, ps, kind, rob; };
static struct ta TA[3][N]; static struct oa OA[3][NK][N];
static const int badv[] = {-1, 5, 77, 1000000};
static int bad(void) { return badv[sim_choice(4)]; }
static size_t c2m(cpu_set_t *c) { size_t m = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, c)) m |= (size_t)1 << i; return m; }
static void m2c(size_t m, cpu_set_t *c) { CPU_ZERO(c); for (int i = 0; i < 64; i++) if (m >> i & 1) CPU_SET(i, c); }
#define R(cond, what) CHECKV(cond, what, r)
static void ta_verify(struct ta *t)
{
  int v = -9, r; struct sched_param p; size_t z = 9; void *a = &v; cpu_set_t cs; char b[40];
  if (!t->live) {
    r = pthread_attr_getdetachstate(&t->a, &v); R(r == EINVAL, "attr-dead"); r = pthread_attr_getinheritsched(&t->a, &v); R(r == EINVAL, "attr-dead"); r = pthread_attr_getschedpolicy(&t->a, &v); R(r == EINVAL, "attr-dead");
    r = pthread_attr_getschedparam(&t->a, &p); R(r == EINVAL, "attr-dead"); r = pthread_attr_getstacksize(&t->a, &z); R(r == EINVAL, "attr-dead"); r = pthread_attr_getstackaddr(&t->a, &a); R(r != 0, "attr-dead");
    r = pthread_attr_getaffinity_np(&t->a, sizeof cs, &cs); R(r == EINVAL, "attr-dead"); CHECK(v == -9 && z == 9 && a == &v, "attr-dead-value");
    r = pthread_attr_setdetachstate(&t->a, PTHREAD_CREATE_DETACHED); R(r == EINVAL, "attr-dead"); r = pthread_attr_setstacksize(&t->a, 1 << 20); R(r == EINVAL, "attr-dead"); p.sched_priority = 1; r = pthread_attr_setschedparam(&t->a, &p); R(r == EINVAL, "attr-dead");
    r = pthread_attr_setinheritsched(&t->a, PTHREAD_INHERIT_SCHED); R(r == EINVAL, "attr-dead"); r = pthread_attr_setaffinity_np(&t->a, sizeof cs, &cs); R(r == EINVAL, "attr-dead"); r = pthread_attr_setschedpolicy(&t->a, SCHED_OTHER); R(r == EINVAL, "attr-dead"); r = pthread_attr_setstackaddr(&t->a, a); R(r != 0, "attr-dead");
    r = pthread_attr_destroy(&t->a); R(r == EINVAL, "attr-dead"); return;
  }
  r = pthread_attr_getdetachstate(&t->a, &v); R(r == 0 && v == t->det, "attr-value"); r = pthread_attr_getinheritsched(&t->a, &v); R(r == 0 && v == t->inh, "attr-value");
  r = pthread_attr_getschedpolicy(&t->a, &v); R(r == 0 && v == SCHED_OTHER, "attr-value"); r = pthread_attr_getscope(&t->a, &v); R(r == 0 && v == PTHREAD_SCOPE_SYSTEM, "attr-value");
  r = pthread_attr_getschedparam(&t->a, &p); R(r == 0 && p.sched_priority == t->prio, "attr-value"); r = pthread_attr_getstacksize(&t->a, &z); R(r == 0 && z == t->stk, "attr-value");
  r = pthread_attr_getstackaddr(&t->a, &a); R(r == ENOSYS && a == &v, "attr-value"); r = pthread_attr_getaffinity_np(&t->a, sizeof cs, &cs); R(r == 0 && c2m(&cs) == t->cpus, "attr-value");
  int cap = 1 + sim_choice(20); memset(b, '#', sizeof b); r = pthread_attr_getname_np(&t->a, b, cap); R(r == 0, "attr-value"); CHECKV(!strncmp(b, t->nm, cap - 1) && strlen(b) == (strlen(t->nm) < (size_t)cap ? strlen(t->nm) : (size_t)cap - 1), "attr-name", cap);
  for (int q = cap; q < 40; q++) CHECK(b[q] == '#', "attr-name-overrun");
}
static void ta_op(struct ta *t)
{
  int r, v, f0; struct sched_param p; cpu_set_t cs; char nm[40]; size_t z;
  if (!t->live) {
    if (sim_choice(3) == 2) ta_verify(t);
    f0 = sim_thread_faults(); t->a = NULL; r = pthread_attr_init(&t->a); if (sim_thread_faults() > f0) { R(r == ENOMEM, "attr-init-fault"); return; }
    R(r == 0, "attr-init"); memset((char *)t + offsetof(struct ta, live), 0, sizeof *t - offsetof(struct ta, live)); t->live = 1; t->det = PTHREAD_CREATE_JOINABLE; t->inh = PTHREAD_EXPLICIT_SCHED; ta_verify(t); return;
  }
  switch (sim_choice(10)) {
  case 0: v = sim_choice(2) ? PTHREAD_CREATE_DETACHED : PTHREAD_CREATE_JOINABLE; r = pthread_attr_setdetachstate(&t->a, v); R(r == 0, "attr-set"); t->det = v; if (sim_choice(2)) { r = pthread_attr_setdetachstate(&t->a, bad()); R(r == EINVAL, "attr-bad-value"); } break;
  case 1: v = sim_choice(2) ? PTHREAD_INHERIT_SCHED : PTHREAD_EXPLICIT_SCHED; r = pthread_attr_setinheritsched(&t->a, v); R(r == 0, "attr-set"); t->inh = v; if (sim_choice(2)) { r = pthread_attr_setinheritsched(&t->a, bad()); R(r == EINVAL, "attr-bad-value"); } break;
  case 2: p.sched_priority = sim_choice(31) - 15; r = pthread_attr_setschedparam(&t->a, &p); R(r == 0, "attr-set"); t->prio = p.sched_priority; if (sim_choice(2)) { p.sched_priority = sim_choice(2) ? 16 : -16; r = pthread_attr_setschedparam(&t->a, &p); R(r == EINVAL, "attr-bad-value"); r = pthread_attr_setschedparam(&t->a, NULL); R(r == EINVAL, "attr-bad-value"); } break;
  case 3: z = PTHREAD_STACK_MIN + 4096 * sim_choice(8); r = pthread_attr_setstacksize(&t->a, z); R(r == 0, "attr-set"); t->stk = z; if (PTHREAD_STACK_MIN > 0) { r = pthread_attr_setstacksize(&t->a, PTHREAD_STACK_MIN - 1); R(r == EINVAL, "attr-bad-value"); } break;
  case 4: r = pthread_attr_setstackaddr(&t->a, t); R(r == ENOSYS, "attr-set"); break;
  case 5: t->cpus = (size_t)sim_choice(16) << (sim_choice(2) * 31); m2c(t->cpus, &cs); r = pthread_attr_setaffinity_np(&t->a, sizeof cs, &cs); R(r == 0, "attr-set"); if (sim_choice(2)) { r = pthread_attr_setaffinity_np(&t->a, sizeof cs, NULL); R(r == EINVAL, "attr-bad-value"); } break;
  case 6: v = sim_choice(15); memset(nm, 'a' + sim_choice(26), v); nm[v] = 0; f0 = sim_thread_faults(); r = pthread_attr_setname_np(&t->a, nm); if (sim_thread_faults() > f0) R(r == ENOMEM, "attr-set-fault"); else { R(r == 0, "attr-set"); strcpy(t->nm, nm); } break;
  case 7: r = pthread_attr_setschedpolicy(&t->a, SCHED_OTHER); R(r == 0, "attr-set"); r = pthread_attr_setschedpolicy(&t->a, sim_choice(2) ? SCHED_FIFO : SCHED_RR); R(r == ENOTSUP, "attr-bad-value"); r = pthread_attr_setscope(&t->a, PTHREAD_SCOPE_SYSTEM); R(r == 0, "attr-set"); r = pthread_attr_setscope(&t->a, PTHREAD_SCOPE_PROCESS); R(r == ENOTSUP, "attr-bad-value"); r = pthread_attr_setscope(&t->a, bad()); R(r == EINVAL, "attr-bad-value"); break;
  case 8: { void *x; r = pthread_attr_getdetachstate(&t->a, NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_getinheritsched(&t->a, NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_getschedparam(&t->a, NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_getschedpolicy(&t->a, NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_getaffinity_np(&t->a, sizeof cs, NULL); R(r == EINVAL, "attr-null");
    r = pthread_attr_init(NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_destroy(NULL); R(r == EINVAL, "attr-null"); r = pthread_attr_getstackaddr(NULL, &x); R(r != 0, "attr-null"); r = pthread_attr_setdetachstate(NULL, PTHREAD_CREATE_JOINABLE); R(r == EINVAL, "attr-null"); break; }
  default: r = pthread_attr_destroy(&t->a); R(r == 0, "attr-destroy"); t->live = 0; break;
  }
  ta_verify(t);
}
/* the four kinds of object attributes */
#define BYKIND(k, o, f, ...) ((k) == A_M ? pthread_mutexattr_##f(&(o)->u.m, ##__VA_ARGS__) : (k) == A_C ? pthread_condattr_##f(&(o)->u.c, ##__VA_ARGS__) : (k) == A_R ? pthread_rwlockattr_##f(&(o)->u.r, ##__VA_ARGS__) : pthread_barrierattr_##f(&(o)->u.b, ##__VA_ARGS__))
static void oa_verify(int k, struct oa *o)
{
  int v = -9, r;
  r = BYKIND(k, o, getpshared, &v); if (!o->live) { R(r == EINVAL && v == -9, "attr-dead"); r = BYKIND(k, o, setpshared, PTHREAD_PROCESS_PRIVATE); R(r == EINVAL, "attr-dead"); r = BYKIND(k, o, destroy); R(r == EINVAL, "attr-dead"); }
  else R(r == 0 && v == o->ps, "attr-value");
  if (k == A_M) {
    v = -9; r = pthread_mutexattr_gettype(&o->u.m, &v); if (o->live) R(r == 0 && v == o->kind, "attr-value"); else { R(r == EINVAL && v == -9, "attr-dead"); r = pthread_mutexattr_settype(&o->u.m, PTHREAD_MUTEX_NORMAL); R(r == EINVAL, "attr-dead"); r = pthread_mutexattr_setrobust(&o->u.m, PTHREAD_MUTEX_ROBUST); R(r == EINVAL, "attr-dead"); }
    v = -9; r = pthread_mutexattr_getkind_np(&o->u.m, &v); if (o->live) R(r == 0 && v == o->kind, "attr-value"); else R(r == EINVAL && v == -9, "attr-dead");
    v = -9; r = pthread_mutexattr_getrobust(&o->u.m, &v); if (o->live) R(r == 0 && v == o->rob, "attr-value"); else R(r == EINVAL && v == -9, "attr-dead");
  }
}
static void *dier(void *a) { pthread_mutex_t *m = a; int r = pthread_mutex_lock(m); R(r == 0, "attr-mutex"); return 0; }
/* an object made with the attributes has them, whatever becomes of the attribute object */
static void oa_use(int k, struct oa *o)
{
  int r, ps = o->ps, kind = o->kind, rob = o->rob, sh = ps == PTHREAD_PROCESS_SHARED; pthread_mutex_t m; pthread_cond_t c; pthread_rwlock_t w; pthread_barrier_t b; pthread_spinlock_t s; sem_t se;
  int f0 = sim_thread_faults();
  r = k == A_M ? pthread_mutex_init(&m, &o->u.m) : k == A_C ? pthread_cond_init(&c, &o->u.c) : k == A_R ? pthread_rwlock_init(&w, &o->u.r) : pthread_barrier_init(&b, &o->u.b, 1);
  if (sim_thread_faults() > f0 && r) return;
  if (sh && k != A_R) {
    R(k == A_B ? r != 0 : r == ENOSYS, "attr-shared-refused"); r = pthread_spin_init(&s, PTHREAD_PROCESS_SHARED); if (sim_thread_faults() == f0) R(r == ENOSYS, "attr-shared-refused");
    r = sem_init(&se, PTHREAD_PROCESS_SHARED, 0); R(r == -1 && errno == EPERM, "attr-shared-refused"); return;
  }
  if (k == A_R && r) { R(r == EINVAL, "attr-object"); return; } /* attributes of read-write locks are not supported */
  R(r == 0, "attr-object");
  /* now change or end the attribute object */
  if (sim_choice(2)) { r = BYKIND(k, o, destroy); R(r == 0, "attr-destroy"); o->live = 0; }
  else if (k == A_M) { o->kind = kind == PTHREAD_MUTEX_RECURSIVE ? PTHREAD_MUTEX_NORMAL : PTHREAD_MUTEX_RECURSIVE; pthread_mutexattr_settype(&o->u.m, o->kind); o->rob = rob == PTHREAD_MUTEX_ROBUST ? PTHREAD_MUTEX_STALLED : PTHREAD_MUTEX_ROBUST; pthread_mutexattr_setrobust(&o->u.m, o->rob); }
  sim_yield();
  if (k == A_M) {
    sim_faults(0);
    r = pthread_mutex_lock(&m); R(r == 0, "attr-mutex"); r = pthread_mutex_trylock(&m); R(r == (kind == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY), "attr-mutex-kind"); if (r == 0) pthread_mutex_unlock(&m);
    if (kind == PTHREAD_MUTEX_ERRORCHECK) { r = pthread_mutex_lock(&m); R(r == EDEADLK, "attr-mutex-kind"); }
    r = pthread_mutex_unlock(&m); R(r == 0, "attr-mutex"); if (kind == PTHREAD_MUTEX_ERRORCHECK || kind == PTHREAD_MUTEX_RECURSIVE || rob == PTHREAD_MUTEX_ROBUST) { r = pthread_mutex_unlock(&m); R(r == EPERM, "attr-mutex-kind"); }
    if (!at_f && sim_choice(3) == 2) {
      xjoin(xcreate(dier, &m)); r = pthread_mutex_trylock(&m);
      if (rob == PTHREAD_MUTEX_ROBUST) { R(r == EOWNERDEAD, "attr-mutex-robust"); r = pthread_mutex_consistent(&m); R(r == 0, "attr-mutex-robust"); r = pthread_mutex_unlock(&m); R(r == 0, "attr-mutex-robust"); }
      else { R(r == EBUSY, "attr-mutex-robust"); return; /* stays locked */ }
    }
    r = pthread_mutex_destroy(&m); R(r == 0, "attr-object-destroy");
  } else if (k == A_C) { r = pthread_cond_signal(&c); R(r == 0, "attr-object"); r = pthread_cond_destroy(&c); R(r == 0, "attr-object-destroy"); }
  else if (k == A_R) { r = pthread_rwlock_wrlock(&w); R(r == 0, "attr-object"); r = pthread_rwlock_unlock(&w); R(r == 0, "attr-object"); r = pthread_rwlock_destroy(&w); R(r == 0, "attr-object-destroy"); }
  else { r = pthread_barrier_wait(&b); R(r == PTHREAD_BARRIER_SERIAL_THREAD, "attr-object"); r = pthread_barrier_destroy(&b); R(r == 0, "attr-object-destroy"); }
}
static void oa_op(int k, struct oa *o)
{
  int r, v, f0;
  if (!o->live) {
    f0 = sim_thread_faults(); r = BYKIND(k, o, init); if (sim_thread_faults() > f0) { R(r == ENOMEM, "attr-init-fault"); oa_verify(k, o); return; }
    R(r == 0, "attr-init"); o->live = 1; o->ps = PTHREAD_PROCESS_PRIVATE; o->kind = PTHREAD_MUTEX_DEFAULT; o->rob = PTHREAD_MUTEX_STALLED; oa_verify(k, o); return;
  }
  switch (sim_choice(5)) {
  case 0: v = sim_choice(3) == 2 ? PTHREAD_PROCESS_SHARED : PTHREAD_PROCESS_PRIVATE; r = BYKIND(k, o, setpshared, v); R(r == 0, "attr-set"); o->ps = v; if (sim_choice(2)) { r = BYKIND(k, o, setpshared, bad()); R(r == EINVAL, "attr-bad-value"); } r = BYKIND(k, o, getpshared, NULL); R(r == EINVAL, "attr-null"); break;
  case 1: if (k == A_M) { static const int ks[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_RECURSIVE, PTHREAD_MUTEX_ERRORCHECK}; v = ks[sim_choice(3)]; r = sim_choice(2) ? pthread_mutexattr_settype(&o->u.m, v) : pthread_mutexattr_setkind_np(&o->u.m, v); R(r == 0, "attr-set"); o->kind = v; if (sim_choice(2)) { r = pthread_mutexattr_settype(&o->u.m, bad()); R(r == EINVAL, "attr-bad-value"); } r = pthread_mutexattr_gettype(&o->u.m, NULL); R(r == EINVAL, "attr-null"); } break;
  case 2: if (k == A_M) { v = sim_choice(2) ? PTHREAD_MUTEX_ROBUST : PTHREAD_MUTEX_STALLED; r = pthread_mutexattr_setrobust(&o->u.m, v); R(r == 0, "attr-set"); o->rob = v; if (sim_choice(2)) { r = pthread_mutexattr_setrobust(&o->u.m, bad()); R(r == EINVAL, "attr-bad-value"); } r = pthread_mutexattr_getrobust(&o->u.m, NULL); R(r == EINVAL, "attr-null"); } break;
  case 3: oa_use(k, o); break;
  default: r = BYKIND(k, o, destroy); R(r == 0, "attr-destroy"); o->live = 0;
  }
  oa_verify(k, o);
}
static volatile long at_go, at_end;
static void *at_thr(void *a)
{
  int id = IDX(a); sim_wait_ge(&at_go, 1);
  for (int k = 4 + sim_choice(12); k > 0; k--) {
    if (at_f) sim_faults(F_ALLOC | F_EVENT | F_SEM);
    int kd = sim_choice(NK), i = sim_choice(N); if (kd == A_T) ta_op(&TA[id][i]); else oa_op(kd, &OA[id][kd][i]);
  }
  sim_faults(0);
  for (int i = 0; i < N; i++) { ta_verify(&TA[id][i]); if (TA[id][i].live) { int r = pthread_attr_destroy(&TA[id][i].a); R(r == 0, "attr-destroy"); } for (int k = A_M; k < NK; k++) { struct oa *o = &OA[id][k][i]; oa_verify(k, o); if (o->live) { int r = BYKIND(k, o, destroy); R(r == 0, "attr-destroy"); } } }
  return 0;
}
SCENARIO(attr_model)
{
  int n = 1 + sim_choice(3); pthread_t t[3]; at_f = sim_choice(3) == 2;
  for (int i = 1; i < n; i++) t[i] = xcreate(at_thr, (void *)(size_t)i);
  at_go = 1; at_thr(0);
  for (int i = 1; i < n; i++) xjoin(t[i]);
}
/* one attribute object used by several threads at once */
static pthread_attr_t SH; static pthread_mutexattr_t SM; static size_t sh_stk, sh_cpus; static int sh_prio, sh_kind; static char sh_nm[20]; static volatile long sh_ran;
GUEST_IMPORT int __stdcall GetThreadPriority(void *);
static void *sh_body(void *a)
{
  int pol; struct sched_param p; cpu_set_t cs; char b[40]; int r = pthread_getschedparam(pthread_self(), &pol, &p); R(r == 0 && p.sched_priority == sh_prio, "shared-attr-priority"); r = pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); R(r == 0 && (!sh_cpus || c2m(&cs) == sh_cpus), "shared-attr-affinity");
  r = pthread_getname_np(pthread_self(), b, 40); R(r == 0 && !strcmp(b, sh_nm), "shared-attr-name"); CHECKV(sim_stack_arg() == sh_stk, "shared-attr-stack", sim_stack_arg()); sim_add(&sh_ran, 1); return a;
}
static void *sh_maker(void *a)
{
  for (int k = 1 + sim_choice(2); k > 0; k--) {
    pthread_t t; int r = pthread_create(&t, &SH, sh_body, a); R(r == 0, "create-failed"); CHECK(xjoin(t) == a, "join-value");
    pthread_mutex_t m; r = pthread_mutex_init(&m, &SM); R(r == 0, "attr-object"); pthread_mutex_lock(&m); r = pthread_mutex_trylock(&m); R(r == (sh_kind == PTHREAD_MUTEX_RECURSIVE ? 0 : EBUSY), "attr-mutex-kind"); if (!r) pthread_mutex_unlock(&m); pthread_mutex_unlock(&m); r = pthread_mutex_destroy(&m); R(r == 0, "attr-object-destroy");
  }
  return 0;
}
SCENARIO(attr_shared)
{
  int n = 1 + sim_choice(3), r; pthread_t t[3]; struct sched_param p; cpu_set_t cs; int l = sim_choice(15);
  pthread_attr_init(&SH); pthread_mutexattr_init(&SM); memset(sh_nm, 'q', l); sh_nm[l] = 0; r = pthread_attr_setname_np(&SH, sh_nm); R(r == 0, "attr-set");
  sh_stk = PTHREAD_STACK_MIN + 4096 * (1 + sim_choice(200)); pthread_attr_setstacksize(&SH, sh_stk); p.sched_priority = sh_prio = sim_choice(31) - 15; pthread_attr_setschedparam(&SH, &p); sh_cpus = sim_choice(1 << sim_ncpu()); m2c(sh_cpus, &cs); pthread_attr_setaffinity_np(&SH, sizeof cs, &cs);
  sh_kind = sim_choice(2) ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_NORMAL; pthread_mutexattr_settype(&SM, sh_kind);
  for (int i = 0; i < n; i++) t[i] = xcreate(sh_maker, (void *)(size_t)(i + 1));
  for (int i = 0; i < n; i++) xjoin(t[i]);
  char b[40]; r = pthread_attr_getname_np(&SH, b, 40); R(r == 0 && !strcmp(b, sh_nm), "attr-value");
  pthread_attr_destroy(&SH); pthread_mutexattr_destroy(&SM);
}
/* C24 */
static volatile size_t pm_log[2][64]; static volatile long pm_n[2]; static int pm_f;
static size_t rndmask(void) { size_t m = 0; for (int i = 0; i < 8; i++) if (sim_choice(2)) m |= (size_t)1 << i; if (sim_choice(4) == 3) m |= (size_t)1 << (32 + sim_choice(32)); return m; }
static void pm_algebra(void)
{
  cpu_set_t a, b, c; size_t x = rndmask(), y = rndmask(), w = x; int n = 0, i = sim_choice(64);
  m2c(x, &a); m2c(y, &b); for (int q = 0; q < 64; q++) n += x >> q & 1;
  CHECK(c2m(&a) == x && c2m(&b) == y, "cpuset"); CHECK(CPU_COUNT(&a) == n, "cpuset-count"); CHECK(!!CPU_EQUAL(&a, &b) == (x == y), "cpuset-equal"); CHECK(CPU_EQUAL(&a, &a), "cpuset-equal");
  CPU_AND(&c, &a, &b); CHECK(c2m(&c) == (x & y), "cpuset-and"); CPU_OR(&c, &a, &b); CHECK(c2m(&c) == (x | y), "cpuset-or"); CPU_XOR(&c, &a, &b); CHECK(c2m(&c) == (x ^ y), "cpuset-xor");
  CPU_SET(i, &a); w |= (size_t)1 << i; CHECK(c2m(&a) == w && CPU_ISSET(i, &a), "cpuset-set"); CPU_CLR(i, &a); w &= ~((size_t)1 << i); CHECK(c2m(&a) == w && !CPU_ISSET(i, &a), "cpuset-clr"); CHECK(c2m(&b) == y, "cpuset"); CPU_ZERO(&a); CHECK(c2m(&a) == 0 && CPU_COUNT(&a) == 0, "cpuset-zero");
}
static void *pm_thr(void *x)
{
  size_t all = ((size_t)1 << sim_ncpu()) - 1; (void)x;
  for (int k = 1 + sim_choice(6); k > 0; k--) {
    int w = sim_choice(2), r, f0 = sim_thread_faults(), e; static const int pids[2][2] = {{0, 77}, {78, 78}}; int pid = pids[w][sim_choice(2)]; cpu_set_t cs; size_t m; int op = sim_choice(6);
    errno = 0;
    switch (op) {
    case 0: case 1: {
      m = rndmask(); long q = sim_add(&pm_n[w], 1) - 1; if (q > 63) return 0; pm_log[w][q] = m & all; m2c(m, &cs);
      r = sched_setaffinity((pid_t)pid, sizeof cs, &cs); e = errno; int ft = sim_thread_faults() > f0;
      if (r) { CHECKV(r == -1, "setaffinity-result", r); CHECKV(ft || (!(m & all) && e == EINVAL), "setaffinity-errno", e); if (ft) CHECKV(e == EPERM || e == ESRCH || e == EAGAIN || e == EINVAL, "setaffinity-errno", e); } else CHECK(m & all, "setaffinity-empty");
      break; }
    case 2: { r = sched_getaffinity((pid_t)pid, sizeof cs, &cs); e = errno;
      if (r) { CHECKV(sim_thread_faults() > f0 && r == -1 && (e == EPERM || e == EAGAIN), "getaffinity-result", e); break; }
      m = c2m(&cs); int ok = m == all; for (int q = 0; q < 64 && q < pm_n[w]; q++) ok |= pm_log[w][q] == m; CHECKV(ok && m, "getaffinity-value", m); break; }
    case 3: { /* processes that cannot be had */
      int no = sim_choice(2) ? 79 : 12345, we = no == 79 ? EPERM : ESRCH, pol; m2c(1, &cs);
      r = sched_getscheduler((pid_t)no); e = errno; CHECKV(r == -1 && (e == we || sim_thread_faults() > f0), "no-process", e); r = sched_setscheduler((pid_t)no, SCHED_OTHER); e = errno; CHECKV(r == -1 && (e == we || sim_thread_faults() > f0), "no-process", e);
      r = sched_getaffinity((pid_t)no, sizeof cs, &cs); e = errno; CHECKV(r == -1 && (e == we || sim_thread_faults() > f0), "no-process", e); r = sched_setaffinity((pid_t)no, sizeof cs, &cs); e = errno; CHECKV(r == -1 && (e == we || sim_thread_faults() > f0), "no-process", e);
      r = sched_getaffinity((pid_t)pid, sizeof cs, NULL); e = errno; CHECKV(r == -1 && e == EFAULT, "null-set", e); r = sched_setaffinity((pid_t)pid, sizeof cs, NULL); e = errno; CHECKV(r == -1 && e == EFAULT, "null-set", e); (void)pol; break; }
    case 4: { r = sched_getscheduler((pid_t)pid); e = errno; CHECKV(r == SCHED_OTHER || (sim_thread_faults() > f0 && r == -1 && e == EPERM), "getscheduler", r); f0 = sim_thread_faults(); r = sched_setscheduler((pid_t)pid, SCHED_OTHER); e = errno; CHECKV(r != -1 || (sim_thread_faults() > f0 && e == EPERM), "setscheduler", r); r = sched_setscheduler((pid_t)pid, SCHED_FIFO); e = errno; CHECKV(r == -1 && (e == ENOSYS || sim_thread_faults() > f0), "setscheduler", e);
      CHECK(sched_get_priority_max(SCHED_OTHER) == 15 && sched_get_priority_min(SCHED_OTHER) == -15 && sched_get_priority_max(SCHED_FIFO) >= sched_get_priority_min(SCHED_FIFO), "priority-range"); errno = 0; r = sched_get_priority_max(77); e = errno; CHECKV(r == -1 && e == EINVAL, "priority-range", e); errno = 0; r = sched_get_priority_min(-5); e = errno; CHECKV(r == -1 && e == EINVAL, "priority-range", e); break; }
    default: pm_algebra();
    }
  }
  return 0;
}
SCENARIO(proc_affinity)
{
  int n = 1 + sim_choice(3), r; pthread_t t[3]; cpu_set_t cs; size_t all; sim_set_ncpu(1 + sim_choice(6)); all = ((size_t)1 << sim_ncpu()) - 1; pthread_self();
  long h0 = sim_live_handles(SIMH_PROC); for (int i = 1; i < n; i++) t[i] = xcreate(pm_thr, 0);
  pm_f = sim_choice(3) == 2; if (pm_f) sim_faults(F_AFF | F_OPENP);
  pm_thr(0); for (int i = 1; i < n; i++) xjoin(t[i]);
  sim_faults(0); CHECKV(sim_live_handles(SIMH_PROC) == h0, "process-handle-leak", sim_live_handles(SIMH_PROC));
  /* the CPU set of the process bounds the number of processors and the threads' CPU sets */
  size_t m = 1 + sim_choice(all), w = rndmask(); int c = 0; for (int q = 0; q < 64; q++) c += m >> q & 1;
  m2c(m, &cs); r = sched_setaffinity(0, sizeof cs, &cs); R(r == 0, "setaffinity-result"); r = sched_getaffinity((pid_t)77, sizeof cs, &cs); R(r == 0 && c2m(&cs) == m, "getaffinity-value"); CHECKV(pthread_num_processors_np() == c, "num-processors", pthread_num_processors_np());
  m2c(w, &cs); r = pthread_setaffinity_np(pthread_self(), sizeof cs, &cs); R(r == ((w & m) ? 0 : EINVAL), "thread-affinity-bounded"); if (!r) { r = pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); R(r == 0 && c2m(&cs) == (w & m), "thread-affinity-bounded"); }
  r = pthread_setconcurrency(3); R(r == 0 && pthread_getconcurrency() == 3, "concurrency"); r = pthread_setconcurrency(-1); R(r == EINVAL && pthread_getconcurrency() == 3, "concurrency");
}
