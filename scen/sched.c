#include "common.h"
/* C27: scheduling parameters and CPU affinity; C29: thread creation. */
GUEST_IMPORT void *__stdcall GetCurrentThread(void);
GUEST_IMPORT int __stdcall GetThreadPriority(void *);
GUEST_IMPORT size_t __stdcall SetThreadAffinityMask(void *, size_t);
static struct { pthread_t t[4]; volatile long up[4], set, cnt; int prio[4][64]; volatile long np[4]; int w32[4], last[4]; size_t mask[4], w32mask[4]; volatile long go, go2; int expfail; } S;
static int mapped(int p) { return p > -15 && p < -2 ? -2 : p < 15 && p > 2 ? 2 : p; }
static int pick_prio(void) { static const int v[] = {0, 1, 2, -1, -2, 15, -15, 7, -7, 14, -14, 3, -3}; return v[sim_choice(13)]; }
static size_t real_mask(void) { size_t all = ((size_t)1 << sim_ncpu()) - 1, o = SetThreadAffinityMask(GetCurrentThread(), all); if (o) SetThreadAffinityMask(GetCurrentThread(), o); return o; }
static size_t cs2m(cpu_set_t *c) { size_t m = 0; for (int i = 0; i < 64; i++) if (CPU_ISSET(i, c)) m |= (size_t)1 << i; return m; }
static void m2cs(size_t m, cpu_set_t *c) { CPU_ZERO(c); for (int i = 0; i < 64; i++) if (m >> i & 1) CPU_SET(i, c); }
static void *s_body(void *a) { int i = IDX(a); S.up[i] = 1; sim_wait_ge(&S.go, 1); S.w32[i] = GetThreadPriority(GetCurrentThread()); S.w32mask[i] = real_mask(); sim_add(&S.cnt, 1); sim_wait_ge(&S.go2, 1); return a; }
static void *s_setter(void *a)
{
  int id = IDX(a) & 15, n = IDX(a) >> 4, r, pol; struct sched_param p;
  for (int k = 1 + sim_choice(4); k > 0; k--) {
    int i = sim_choice(n); p.sched_priority = pick_prio(); int w = p.sched_priority;
    S.prio[i][(sim_add(&S.np[i], 1) - 1) & 63] = w;
    int f0 = sim_thread_faults(); r = pthread_setschedparam(S.t[i], SCHED_OTHER, &p); CHECKV(r == 0 || (sim_thread_faults() > f0 && r == EINVAL), "setschedparam-result", r);
    if (sim_choice(4) == 3) { p.sched_priority = sim_choice(2) ? 16 : -16; r = pthread_setschedparam(S.t[i], SCHED_OTHER, &p); CHECKV(r == EINVAL, "setschedparam-result", r); p.sched_priority = 0; r = pthread_setschedparam(S.t[i], sim_choice(2) ? SCHED_FIFO : SCHED_RR, &p); CHECKV(r == ENOTSUP, "setschedparam-result", r); r = pthread_setschedparam(S.t[i], 77, &p); CHECKV(r == EINVAL, "setschedparam-result", r); }
    r = pthread_getschedparam(S.t[i], &pol, &p); CHECKV(r == 0 && pol == SCHED_OTHER, "getschedparam-result", r);
    int ok = p.sched_priority == 0; for (int q = 0; q < 64 && q < S.np[i]; q++) ok |= S.prio[i][q] == p.sched_priority; CHECKV(ok, "getschedparam-value", p.sched_priority);
  }
  (void)id; return 0;
}
SCENARIO(sched_prio)
{
  int n = 1 + sim_choice(2), m = 1 + sim_choice(3), r, pol; pthread_t t[3]; struct sched_param p;
  for (int i = 0; i < n; i++) S.t[i] = xcreate(s_body, (void *)(size_t)i);
  for (int i = 0; i < n; i++) sim_wait_ge(&S.up[i], 1);
  if (sim_choice(3) == 2) sim_faults(F_PRIO);
  for (int i = 0; i < m; i++) t[i] = xcreate(s_setter, (void *)(size_t)(i + n * 16));
  for (int i = 0; i < m; i++) xjoin(t[i]);
  sim_faults(0); S.go = 1; sim_wait_ge(&S.cnt, n);
  for (int i = 0; i < n; i++) { r = pthread_getschedparam(S.t[i], &pol, &p); CHECKV(r == 0, "getschedparam-result", r); CHECKV(S.w32[i] == mapped(p.sched_priority), "priority-not-applied", S.w32[i] * 100 + p.sched_priority); if (m == 1 && 0) CHECK(p.sched_priority == S.last[i], "getschedparam-value"); }
  S.go2 = 1; for (int i = 0; i < n; i++) xjoin(S.t[i]);
}
static int applied_last(void) { return 0; }
/* affinity */
static void *a_setter(void *a)
{
  int n = IDX(a), r; cpu_set_t c; size_t all = ((size_t)1 << sim_ncpu()) - 1;
  for (int k = 1 + sim_choice(4); k > 0; k--) {
    int i = sim_choice(n); size_t m = (size_t)sim_choice(16) | (sim_choice(4) == 3 ? 0x100 : 0); m2cs(m, &c);
    int f0 = sim_thread_faults(); r = pthread_setaffinity_np(S.t[i], sizeof c, &c);
    int ft = sim_thread_faults() > f0; (void)applied_last;
    if (r == 0) CHECK(m & all, "setaffinity-result"); else CHECKV(((m & all) == 0 && r == EINVAL) || ft, "setaffinity-result", r);
    r = pthread_getaffinity_np(S.t[i], sizeof c, &c); CHECKV(r == 0, "getaffinity-result", r); m = cs2m(&c); CHECKV(!(m & ~all), "getaffinity-value", m);
    r = pthread_setaffinity_np(S.t[i], sizeof c, NULL); CHECKV(r == EFAULT, "setaffinity-result", r);
  }
  return 0;
}
SCENARIO(sched_affinity)
{
  int n = 1 + sim_choice(2), m = 1 + sim_choice(3), r; pthread_t t[3]; cpu_set_t c;
  sim_set_ncpu(1 + sim_choice(4));
  for (int i = 0; i < n; i++) S.t[i] = xcreate(s_body, (void *)(size_t)i);
  for (int i = 0; i < n; i++) sim_wait_ge(&S.up[i], 1);
  if (sim_choice(3) == 2) sim_faults(F_AFF);
  for (int i = 0; i < m; i++) t[i] = xcreate(a_setter, (void *)(size_t)n);
  for (int i = 0; i < m; i++) xjoin(t[i]);
  sim_faults(0);
  size_t g[4]; for (int i = 0; i < n; i++) { r = pthread_getaffinity_np(S.t[i], sizeof c, &c); CHECKV(r == 0, "getaffinity-result", r); g[i] = cs2m(&c); }
  S.go = 1; sim_wait_ge(&S.cnt, n);
  for (int i = 0; i < n; i++) CHECKV(g[i] == S.w32mask[i], "affinity-not-applied", S.w32mask[i] * 1000 + g[i]);
  S.go2 = 1; for (int i = 0; i < n; i++) xjoin(S.t[i]);
}
/* creation: what is asked for is what the thread gets */
static struct cr { void *arg; int prio, w32; size_t mask, gmask; pthread_t self; int det, ran, gp; char name[40]; volatile long done; } C[8];
static void *c_body(void *a)
{
  struct cr *c = a; int pol; struct sched_param p; cpu_set_t cs; c->ran++;
  c->self = pthread_self(); c->w32 = GetThreadPriority(GetCurrentThread()); c->mask = real_mask();
  pthread_getschedparam(c->self, &pol, &p); c->gp = p.sched_priority; pthread_getaffinity_np(c->self, sizeof cs, &cs); c->gmask = cs2m(&cs);
  int r = pthread_getname_np(c->self, c->name, sizeof c->name); CHECKV(r == 0, "getname-result", r);
  int old; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(old == PTHREAD_CANCEL_ENABLE, "initial-cancelstate", old); pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &old); CHECKV(old == PTHREAD_CANCEL_DEFERRED, "initial-canceltype", old);
  c->done = 1; return c->arg;
}
static void *c_parent(void *a)
{
  int id = IDX(a), r, pol; struct sched_param p, self; cpu_set_t cs; size_t all = ((size_t)1 << sim_ncpu()) - 1, mine;
  if (sim_choice(2)) { p.sched_priority = pick_prio(); r = pthread_setschedparam(pthread_self(), SCHED_OTHER, &p); CHECKV(r == 0, "setschedparam-result", r); }
  if (sim_choice(2)) { m2cs(1 + sim_choice(all), &cs); r = pthread_setaffinity_np(pthread_self(), sizeof cs, &cs); CHECKV(r == 0, "setaffinity-result", r); }
  pthread_getschedparam(pthread_self(), &pol, &self); mine = real_mask();
  for (int k = 0; k < 2; k++) {
    struct cr *c = &C[id * 2 + k]; pthread_attr_t at; pthread_t t; int ua = sim_choice(4) > 0, inh = PTHREAD_EXPLICIT_SCHED; size_t am = 0; void *v; char nm[40] = "", back[40];
    c->arg = (void *)(size_t)(7 + id * 2 + k); p.sched_priority = 0;
    if (ua) {
      r = pthread_attr_init(&at); CHECKV(r == 0, "setup", r);
      if (sim_choice(2)) { p.sched_priority = pick_prio(); r = pthread_attr_setschedparam(&at, &p); CHECKV(r == 0, "setup", r); }
      inh = sim_choice(2) ? PTHREAD_INHERIT_SCHED : PTHREAD_EXPLICIT_SCHED; r = pthread_attr_setinheritsched(&at, inh); CHECKV(r == 0, "setup", r);
      if (sim_choice(2)) { am = 1 + sim_choice(all); m2cs(am, &cs); r = pthread_attr_setaffinity_np(&at, sizeof cs, &cs); CHECKV(r == 0, "setup", r); }
      if (sim_choice(2)) { int l = sim_choice(30); memset(nm, 'a' + id + k, l); nm[l] = 0; r = pthread_attr_setname_np(&at, nm); CHECKV(r == 0, "setup", r); }
      if (sim_choice(2)) { r = pthread_attr_setstacksize(&at, 65536); CHECKV(r == 0, "setup", r); }
      if (sim_choice(3) == 2) { c->det = 1; r = pthread_attr_setdetachstate(&at, PTHREAD_CREATE_DETACHED); CHECKV(r == 0, "setup", r); }
    }
    r = pthread_create(&t, ua ? &at : NULL, c_body, c); CHECKV(r == 0, "create-failed", r);
    if (ua) { if (sim_choice(2)) pthread_attr_setname_np(&at, "different"); r = pthread_attr_destroy(&at); CHECKV(r == 0, "attr-destroy", r); }
    if (!c->det && sim_choice(2)) { r = pthread_getname_np(t, back, sizeof back); CHECKV(r == 0, "getname-result", r); CHECK(!strcmp(back, nm), "name"); }
    if (c->det) sim_wait_ge(&c->done, 1); else { v = xjoin(t); CHECK(v == c->arg, "join-value"); }
    CHECKV(c->ran == 1, "created-thread-ran", c->ran); CHECK(pthread_equal(c->self, t), "identity"); CHECK(!strcmp(c->name, nm), "name");
    int wp = !ua ? 0 : inh == PTHREAD_INHERIT_SCHED ? self.sched_priority : p.sched_priority;
    CHECKV(c->gp == wp, "created-priority", c->gp * 100 + wp); CHECKV(c->w32 == mapped(wp), "created-priority-applied", c->w32 * 100 + wp);
    size_t wm = am ? am : mine; CHECKV(c->mask == wm, "created-affinity", c->mask * 1000 + wm); CHECKV(c->gmask == wm, "created-affinity-get", c->gmask * 1000 + wm);
  }
  return 0;
}
SCENARIO(create_attrs)
{
  int n = 1 + sim_choice(3); pthread_t t[3]; sim_set_ncpu(1 + sim_choice(4));
  for (int i = 0; i < n; i++) t[i] = xcreate(c_parent, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(t[i]);
}
/* names */
static volatile long nm_stop;
static void *n_thr(void *a) { (void)a; sim_wait_ge(&nm_stop, 1); return 0; }
static void *n_setter(void *a)
{
  int id = IDX(a) & 15, n = IDX(a) >> 4, r; char b[40];
  for (int k = 1 + sim_choice(4); k > 0; k--) {
    int i = sim_choice(n), l = 1 + sim_choice(14); char nm[40]; memset(nm, 'A' + id, l); nm[l] = 0;
    if (sim_choice(2)) { r = pthread_setname_np(S.t[i], nm); CHECKV(r == 0, "setname-result", r); S.set = 1; }
    int cap = 1 + sim_choice(20); memset(b, '#', sizeof b); r = pthread_getname_np(S.t[i], b, cap); CHECKV(r == 0, "getname-result", r);
    int L = (int)strnlen(b, 40); CHECKV(L < cap, "name-overrun", L); for (int q = cap; q < 40; q++) CHECK(b[q] == '#', "name-overrun");
    for (int q = 1; q < L; q++) CHECK(b[q] == b[0], "name-torn");
  }
  return 0;
}
SCENARIO(names)
{
  int n = 1 + sim_choice(2), m = 1 + sim_choice(3), r; pthread_t t[3]; char b[40];
  for (int i = 0; i < n; i++) S.t[i] = xcreate(n_thr, 0);
  for (int i = 0; i < m; i++) t[i] = xcreate(n_setter, (void *)(size_t)(i + n * 16));
  for (int i = 0; i < m; i++) xjoin(t[i]);
  nm_stop = 1; for (int i = 0; i < n; i++) xjoin(S.t[i]);
  for (int i = 0; i < n; i++) { r = pthread_getname_np(S.t[i], b, 40); CHECKV(r == ESRCH, "stale-id", r); r = pthread_setname_np(S.t[i], "x"); CHECKV(r == ESRCH, "stale-id", r); }
  /* a new thread does not inherit the name of the one whose structure it reuses */
  for (int i = 0; i < 3; i++) { pthread_t u; nm_stop = 0; u = xcreate(n_thr, 0); b[0] = 'q'; r = pthread_getname_np(u, b, 40); CHECKV(r == 0, "getname-result", r); CHECK(b[0] == 0, "name-inherited"); nm_stop = 1; xjoin(u); }
}
/* C27: what is reported for a new thread is in effect, also when the system refuses what was asked for at its creation */
static void *cr_body(void *a)
{
  int pol, r; struct sched_param p; cpu_set_t cs; size_t m = real_mask(); (void)a;
  r = pthread_getschedparam(pthread_self(), &pol, &p); CHECKV(r == 0, "getschedparam-result", r); int w = GetThreadPriority(GetCurrentThread()); CHECKV(w == mapped(p.sched_priority), "priority-not-applied", w * 100 + p.sched_priority);
  r = pthread_getaffinity_np(pthread_self(), sizeof cs, &cs); CHECKV(r == 0, "getaffinity-result", r); CHECKV(cs2m(&cs) == m, "affinity-not-applied", cs2m(&cs) * 1000 + m);
  return 0;
}
static void *cr_maker(void *a)
{
  (void)a; 
  for (int k = 1 + sim_choice(2); k > 0; k--) {
    pthread_attr_t at; struct sched_param p; cpu_set_t cs; int r = pthread_attr_init(&at); CHECKV(r == 0, "setup", r); pthread_t t;
    p.sched_priority = pick_prio(); r = pthread_attr_setschedparam(&at, &p); CHECKV(r == 0, "setup", r);
    m2cs((size_t)sim_choice(16) | (sim_choice(3) == 2 ? 0x100 : 0), &cs); r = pthread_attr_setaffinity_np(&at, sizeof cs, &cs); CHECKV(r == 0, "setup", r);
    if (sim_choice(3) == 2) pthread_attr_setinheritsched(&at, PTHREAD_INHERIT_SCHED);
    r = pthread_create(&t, &at, cr_body, 0); CHECKV(r == 0, "create-failed", r); xjoin(t); pthread_attr_destroy(&at);
    if (sim_choice(2)) { m2cs(1 + sim_choice(15), &cs); pthread_setaffinity_np(pthread_self(), sizeof cs, &cs); }
  }
  return 0;
}
/* a thread Win32 made keeps its priority and CPUs when the library gets to know it, and they are what is reported */
GUEST_IMPORT int __stdcall SetThreadPriority(void *, int);
GUEST_IMPORT unsigned __stdcall WaitForSingleObject(void *, unsigned);
GUEST_IMPORT int __stdcall CloseHandle(void *);
static unsigned __stdcall w_body(void *a)
{
  size_t all = ((size_t)1 << sim_ncpu()) - 1, m = 1 + sim_choice(all), m1; int pr = pick_prio(), pol, r; struct sched_param p; cpu_set_t cs; pthread_t s; (void)a;
  if (pr == 0 || mapped(pr) != pr) pr = 1;
  if (sim_choice(3)) { SetThreadAffinityMask(GetCurrentThread(), m); SetThreadPriority(GetCurrentThread(), pr); } else { m = real_mask(); pr = 0; }
  s = pthread_self(); CHECK(s.p != NULL, "identity");
  m1 = real_mask(); CHECKV(m1 == m, "affinity-changed", m1 * 1000 + m); CHECKV(GetThreadPriority(GetCurrentThread()) == pr, "priority-changed", pr);
  r = pthread_getaffinity_np(s, sizeof cs, &cs); CHECKV(r == 0, "getaffinity-result", r); CHECKV(cs2m(&cs) == m, "affinity-not-applied", cs2m(&cs) * 1000 + m);
  r = pthread_getschedparam(s, &pol, &p); CHECKV(r == 0, "getschedparam-result", r); CHECKV(p.sched_priority == pr, "getschedparam-value", p.sched_priority * 100 + pr);
  m = 1 + sim_choice(all); m2cs(m, &cs); r = pthread_setaffinity_np(s, sizeof cs, &cs); CHECKV(r == 0, "setaffinity-result", r); m1 = real_mask(); CHECKV(m1 == m, "affinity-not-applied", m1 * 1000 + m);
  return 0;
}
SCENARIO(sched_self)
{
  int n = 1 + sim_choice(3); void *h[3]; sim_set_ncpu(1 + sim_choice(4));
  for (int i = 0; i < n; i++) { h[i] = (void *)_beginthreadex(NULL, 0, w_body, (void *)(size_t)i, 0, NULL); CHECK(h[i] != 0, "setup"); }
  for (int i = 0; i < n; i++) { WaitForSingleObject(h[i], 0xffffffff); CloseHandle(h[i]); }
}
SCENARIO(sched_create)
{
  int n = 1 + sim_choice(2); pthread_t t[2]; sim_set_ncpu(1 + sim_choice(4));
  for (int i = 1; i < n; i++) t[i] = xcreate(cr_maker, 0);
  if (sim_choice(2)) sim_faults(F_PRIO);
  cr_maker(0); for (int i = 1; i < n; i++) xjoin(t[i]);
}
