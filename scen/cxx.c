#include "common.h"
/* C33: in a C++ program cancellation and thread exit are exceptions. */
#ifndef __cplusplus
#define CXX_ONLY(name) void scen_##name(void) { sim_probe("cxx_only"); }
CXX_ONLY(cxx_unwind)
CXX_ONLY(cxx_terminate)
CXX_ONLY(cxx_once)
#else
#define UT 4
struct User { int i, serial; };
struct Derived : User {};
static struct {
  int stack[UT][64], sp[UT], leave[UT], guard[UT], userexc[UT], serial[UT], caught[UT], again[UT], work;
  volatile long req[UT], tdone[UT], termed[UT], inside, done, runs, fail; pthread_once_t once;
  sem_t never; pthread_mutex_t m; pthread_cond_t c; pthread_key_t key; pthread_t t[UT];
} U;
static void u_push(int i, int id) { CHECK(U.sp[i] < 60, "harness"); U.stack[i][U.sp[i]++] = id; }
static void u_expect(int i, int id)
{
  CHECKV(U.sp[i] > 0 && U.stack[i][U.sp[i] - 1] == id, "unwind-order", id); U.sp[i]--;
  CHECK(!U.tdone[i], "unwound-after-destructors");
}
/* what destructors and handlers may do: use exceptions themselves, and wait, without being cancelled again */
static void u_work(int i)
{
  int old, r;
  if (!U.work || sim_choice(3) < 2) return;
  switch (sim_choice(3)) {
  case 0: { int ok = 0; try { User u; u.i = 77; u.serial = 0; throw u; } catch (User &u) { ok = u.i == 77; } CHECK(ok, "exception-in-destructor"); sim_probe("exception_in_destructor"); break; }
  case 1: {
    struct timespec ts = in_ms(1);
    r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0, "setcancelstate", r);
    r = sem_timedwait(&U.never, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "wait-in-destructor", errno);
    r = pthread_setcancelstate(old, NULL); CHECKV(r == 0, "setcancelstate", r); break; }
  default: sim_yield();
  }
}
struct Obj { int i, id; Obj(int i, int id) : i(i), id(id) { u_push(i, id); } ~Obj() { u_expect(i, id); u_work(i); } };
struct Guard { pthread_mutex_t *m; Guard(pthread_mutex_t *m) : m(m) { int r = pthread_mutex_lock(m); CHECKV(r == 0, "mutex-lock", r); } ~Guard() { int r = pthread_mutex_unlock(m); CHECKV(r == 0, "unwound-without-mutex", r); } };
static void u_handler(void *a) { int i = IDX(a) & 15; u_expect(i, IDX(a) >> 4); u_work(i); }
static void u_leaf(int i)
{
  int r; struct timespec ts;
  switch (U.leave[i]) {
  case 1: if (sim_choice(2)) pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, NULL); pthread_exit((void *)5); CHECK(0, "exit-returned");
  case 2: for (;;) { pthread_testcancel(); sim_yield(); }
  case 3: r = sem_wait(&U.never); CHECKV(0, "wait-returned", r); break;
  case 4: { Guard g(&U.m); for (;;) { r = pthread_cond_wait(&U.c, &U.m); CHECKV(r == 0, "cond-wait-result", r); } }
  case 5: for (;;) { ts.tv_sec = 0; ts.tv_nsec = 2000000; r = pthread_delay_np(&ts); CHECKV(r == 0, "delay-result", r); }
  case 6: for (;;) { Guard g(&U.m); ts = in_ms(2); r = pthread_cond_timedwait(&U.c, &U.m, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "cond-wait-result", r); }
  case 7: if (U.guard[i]) { Derived d; d.i = i; d.serial = ++U.serial[i]; U.userexc[i] = 1; sim_probe("user_exception"); if (sim_choice(2)) throw d; User u = d; throw u; } break;
  case 8: pthread_testcancel(); break;
  default: break;
  }
}
static void u_rec(int i, int d, int max);
static void u_body(int i, int d, int max) { if (d < max) { u_rec(i, d + 1, max); if (sim_choice(3) == 2) u_rec(i, d + 1, max); } else u_leaf(i); }
/* code that does not include pthread.h: catches everything and passes it on */
#pragma push_macro("catch")
#undef catch
static void u_raw(int i, int d, int max, int all)
{
  if (all) {
    Obj a(i, d); u_push(i, d + 20);
    try { u_body(i, d, max); u_expect(i, d + 20); } catch (...) { u_expect(i, d + 20); u_work(i); sim_probe("catch_all_rethrow"); throw; }
  } else {
    u_push(i, d);
    try { Obj b(i, d + 20); u_body(i, d, max); }
    catch (ptw32_exception &) { u_expect(i, d); sim_probe("catch_base_rethrow"); throw; }
    catch (User &u) { u_expect(i, d); CHECK(u.i == i && U.userexc[i], "exception-mixed-up"); throw; }
    u_expect(i, d);
  }
}
#pragma pop_macro("catch")
static void u_rec(int i, int d, int max)
{
  int sp = U.sp[i];
  switch (sim_choice(7)) {
  case 0: { Obj o(i, d); u_body(i, d, max); break; }
  case 1: {
    int ex = sim_choice(2);
    u_push(i, d);
    pthread_cleanup_push(u_handler, (void *)(size_t)(d << 4 | i));
    u_body(i, d, max);
    pthread_cleanup_pop(ex);
    if (!ex) u_expect(i, d);
    break; }
  case 2: case 3: u_raw(i, d, max, sim_choice(2)); break;
  case 4: { Obj x(i, d), y(i, d + 20); u_body(i, d, max); break; }
  case 5:         /* an application's catch (...) does not get to see the library's exceptions */
    U.guard[i]++;
    try { Obj o(i, d); u_body(i, d, max); }
    catch (...) { CHECK(U.userexc[i], "library-exception-caught"); U.userexc[i] = 0; U.caught[i]++; sim_probe("user_caught_all"); }
    U.guard[i]--;
    break;
  default:
    U.guard[i]++;
    try { u_body(i, d, max); }
    catch (User &u) { CHECK(U.userexc[i] && u.i == i && u.serial == U.serial[i], "exception-mixed-up"); U.userexc[i] = 0; U.caught[i]++; sim_probe("user_caught"); if (sim_choice(2)) U.leave[i] = U.again[i]; }
    U.guard[i]--;
    break;
  }
  CHECKV(U.sp[i] == sp, "unwind-order", U.sp[i]); CHECK(!U.userexc[i], "exception-swallowed");
}
static void u_dtor(void *v) { int i = IDX(v) - 50; CHECKV(U.sp[i] == 0, "not-unwound", U.sp[i]); CHECK(sim_add(&U.tdone[i], 1) == 1, "destructor-twice"); }
static void *u_thr(void *a)
{
  int i = IDX(a);
  CHECK(pthread_setspecific(U.key, (void *)(size_t)(50 + i)) == 0, "setspecific");
  u_rec(i, 0, sim_choice(5));
  CHECK(U.sp[i] == 0, "not-unwound");
  return (void *)6;
}
SCENARIO(cxx_unwind)
{
  int n = 1 + sim_choice(UT), r; int c[UT];
  U.work = sim_choice(2);
  pthread_mutexattr_t ma; CHECK(pthread_mutexattr_init(&ma) == 0 && pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK) == 0, "setup");
  CHECK(sem_init(&U.never, 0, 0) == 0 && pthread_key_create(&U.key, u_dtor) == 0 && pthread_mutex_init(&U.m, &ma) == 0 && pthread_cond_init(&U.c, NULL) == 0, "setup");
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) { U.leave[i] = sim_choice(9); U.again[i] = 1 + sim_choice(6); U.t[i] = xcreate(u_thr, (void *)(size_t)i); }
  for (int i = 0; i < n; i++) {
    c[i] = (U.leave[i] >= 2 && U.leave[i] <= 7) || sim_choice(2);
    if (c[i]) { if (sim_choice(2)) sim_stall(); r = pthread_cancel(U.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); if (sim_choice(3) == 2) { r = pthread_cancel(U.t[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); } }
  }
  for (int i = 0; i < n; i++) {
    void *v = xjoin(U.t[i]);
    CHECKV(v == (void *)5 || v == (void *)6 || (v == PTHREAD_CANCELED && c[i]), "join-value", v);
    CHECKV(U.sp[i] == 0, "not-unwound", U.sp[i]); CHECK(U.tdone[i] == 1, "destructor-not-run");
  }
  r = pthread_mutex_destroy(&U.m); CHECKV(r == 0, "mutex-destroy", r);
  r = pthread_cond_destroy(&U.c); CHECKV(r == 0, "cond-destroy", r);
  r = sem_destroy(&U.never); CHECKV(r == 0, "sem-destroy", r);
}
/* ---- an exception nobody catches ends the thread's stack, runs its destructors, and then the terminate handler */
static void x_term(void)
{
  int i = (int)(size_t)pthread_getspecific(U.key);
  (void)i;
  sim_add(&U.done, 1);
  _endthreadex(3);
}
static void x_dtor(void *v)
{
  int i = IDX(v) - 50;
  CHECKV(U.sp[i] == 0, "not-unwound", U.sp[i]); if (U.leave[i] == 1) CHECK(U.done == 0, "terminate-before-destructors");
  CHECK(sim_add(&U.tdone[i], 1) == 1, "destructor-twice");
  if (U.leave[i] == 2) { sim_add(&U.fail, 1); User u; u.i = i; throw u; }
}
static void x_deep(int i, int d) {
  if (sim_choice(2)) { Obj o(i, d); if (d < 3) x_deep(i, d + 1); else { User u; u.i = i; throw u; } }
  else { u_push(i, d); pthread_cleanup_push(u_handler, (void *)(size_t)(d << 4 | i)); if (d < 3) x_deep(i, d + 1); else { User u; u.i = i; throw u; } pthread_cleanup_pop(0); }
}
static void *x_thr(void *a)
{
  int i = IDX(a);
  CHECK(pthread_setspecific(U.key, (void *)(size_t)(50 + i)) == 0, "setspecific");
  sim_stall();
  if (U.leave[i] == 1) { sim_add(&U.fail, 1); x_deep(i, sim_choice(4)); CHECK(0, "throw-returned"); }
  if (U.leave[i] == 3) pthread_exit((void *)(size_t)(30 + i));
  if (U.leave[i] == 4) for (;;) { pthread_testcancel(); sim_yield(); }
  return (void *)(size_t)(30 + i);
}
SCENARIO(cxx_terminate)
{
  int n = 1 + sim_choice(UT), bad = sim_choice(n), r;
  std::set_terminate(x_term);
  U.work = sim_choice(2); CHECK(sem_init(&U.never, 0, 0) == 0 && pthread_key_create(&U.key, x_dtor) == 0, "setup");
  for (int i = 0; i < n; i++) { U.leave[i] = i == bad ? 1 + sim_choice(2) : sim_choice(3) ? 2 + 1 + sim_choice(2) : 0; }
  for (int i = 0; i < n; i++) U.t[i] = xcreate(x_thr, (void *)(size_t)i);
  for (int i = 0; i < n; i++) if (U.leave[i] == 4) { r = pthread_cancel(U.t[i]); CHECKV(r == 0, "cancel-result", r); }
  sim_wait_ge(&U.done, 1); sim_probe("terminate_called");
  for (int i = 0; i < n; i++) {
    if (i == bad) { void *v; r = pthread_join(U.t[i], &v); CHECKV(r == 0, "join-failed", r); continue; }
    void *v = xjoin(U.t[i]); CHECKV(v == (U.leave[i] == 4 ? PTHREAD_CANCELED : (void *)(size_t)(30 + i)), "join-value", v);
  }
  for (int i = 0; i < n; i++) { CHECKV(U.tdone[i] == 1, "destructor-not-run", i); CHECKV(U.sp[i] == 0, "not-unwound", U.sp[i]); }
  CHECK(U.done == 1, "terminate-count");
}
/* ---- an exception leaving the initialisation routine of pthread_once: the next caller tries again */
static void o_init(void)
{
  CHECK(sim_add(&U.inside, 1) == 1, "once-exclusion"); CHECK(!U.done, "once-twice"); sim_add(&U.runs, 1);
  sim_stall();
  sim_add(&U.inside, -1);
  if (U.fail > 0) { U.fail--; User u; u.i = 3; throw u; }
  U.done = 1;
}
static void *o_thr(void *a)
{
  for (int k = 0;; k++) {
    int r = -1;
    try { r = pthread_once(&U.once, o_init); }
    catch (User &u) { CHECK(u.i == 3, "exception-mixed-up"); sim_probe("once_threw"); if (IDX(a) == 1 && sim_choice(2)) return 0; continue; }
    CHECKV(r == 0, "once-result", r); CHECK(U.done, "once-not-done"); break;
  }
  return 0;
}
SCENARIO(cxx_once)
{
  int n = 1 + sim_choice(UT); pthread_once_t init = PTHREAD_ONCE_INIT; U.once = init;
  U.fail = sim_choice(5); int f = U.fail;
  for (int i = 0; i < n; i++) U.t[i] = xcreate(o_thr, (void *)(size_t)i);
  o_thr((void *)(size_t)9);
  for (int i = 0; i < n; i++) xjoin(U.t[i]);
  CHECKV(U.done == 1 && U.runs == f + 1, "once-count", U.runs);
}
#endif
