#include "common.h"
/* C25: threads made by Win32 using the library; C31: library detached and attached again. */
extern void *__stdcall GetCurrentThread(void);
GUEST_IMPORT unsigned __stdcall WaitForSingleObject(void *, unsigned);
GUEST_IMPORT int __stdcall CloseHandle(void *);
static struct { pthread_mutex_t m[3], rm; sem_t s, done; pthread_key_t k; pthread_t id[8], p; volatile long have[8], go, stop, cnt, dcalls[8], dead; int owner; volatile long cancelled[8]; void *h[8]; int nomutex; } I;
static void i_dtor(void *v) { int i = IDX(v) - 1; CHECKV(i >= 0 && i < 8, "implicit-destructor-value", i); CHECK(pthread_equal(pthread_self(), I.id[i]), "implicit-destructor-thread"); I.dcalls[i]++; }
static void *i_nop(void *a) { return a; }
static void i_ops(int i)
{
  int r; void *v;
  for (int n = 1 + sim_choice(5); n > 0; n--) {
    switch (sim_choice(6)) {
    case 0: { int k = sim_choice(3); r = pthread_mutex_lock(&I.m[k]); CHECKV(r == 0, "implicit-lock", r);
      if (k == 2) { r = pthread_mutex_lock(&I.m[k]); CHECKV(r == 0, "implicit-recursive", r); } if (k == 1) { r = pthread_mutex_lock(&I.m[k]); CHECKV(r == EDEADLK, "implicit-errorcheck", r); }
      if (k == 2) { CHECK(I.owner == 0, "mutual-exclusion"); I.owner = i + 1; sim_yield(); CHECK(I.owner == i + 1, "mutual-exclusion"); I.owner = 0; }
      if (k == 2) { r = pthread_mutex_unlock(&I.m[k]); CHECKV(r == 0, "implicit-unlock", r); }
      r = pthread_mutex_unlock(&I.m[k]); CHECKV(r == 0, "implicit-unlock", r); r = k ? pthread_mutex_unlock(&I.m[k]) : EPERM; CHECKV(r == EPERM, "implicit-unlock", r); break; }
    case 1: { pthread_t s = pthread_self(); if (I.have[i]) CHECK(pthread_equal(s, I.id[i]), "identity"); else { I.id[i] = s; I.have[i] = 1; } CHECK(s.p != NULL, "identity");
      for (int j = 0; j < 8; j++) if (j != i && I.have[j] == 1) CHECK(!pthread_equal(I.id[j], s) || I.have[j] != 1, "identity-shared"); r = pthread_kill(s, 0); CHECKV(r == 0, "identity", r); break; }
    case 2: v = pthread_getspecific(I.k); CHECK(v == NULL || v == (void *)(size_t)(i + 1), "implicit-tsd"); break;
    case 3: if (I.have[i]) { r = pthread_setspecific(I.k, (void *)(size_t)(i + 1)); CHECKV(r == 0, "implicit-tsd", r); CHECK(pthread_getspecific(I.k) == (void *)(size_t)(i + 1), "implicit-tsd"); } break;
    case 4: { pthread_t t; r = pthread_create(&t, NULL, i_nop, NULL); (void)t; CHECKV(r == 0, "implicit-create", r); r = pthread_join(t, NULL); CHECKV(r == 0, "implicit-join", r); break; }
    default: sem_post(&I.s); r = sem_wait(&I.s); CHECKV(r == 0, "implicit-sem", r);
    }
  }
}
static unsigned __stdcall w32(void *a)
{
  int i = IDX(a); void *v; int had, det = sim_choice(5) != 4;
  i_ops(i);
  if (sim_choice(3) == 2) { pthread_t s = pthread_self(); I.id[i] = s; I.have[i] = 1; int r = pthread_mutex_lock(&I.rm); if (r == EOWNERDEAD) { pthread_mutex_consistent(&I.rm); sim_probe("inherited_robust"); r = 0; } CHECKV(r == 0, "implicit-lock", r); if (!det || sim_choice(2)) { r = pthread_mutex_unlock(&I.rm); CHECKV(r == 0, "implicit-unlock", r); } else I.dead = 1; }
  v = pthread_getspecific(I.k); had = v != NULL;
  if (det) {
    if (!had) { I.have[i] = 2; }
    long d0 = I.dcalls[i]; int again = sim_choice(2);
    I.have[i] = 2; int b = pthread_win32_thread_detach_np(); CHECK(b, "thread-detach");
    CHECKV(I.dcalls[i] == d0 + had, "implicit-destructor-count", I.dcalls[i] - d0);
    CHECK(pthread_getspecific(I.k) == NULL, "implicit-tsd");
    if (again) { pthread_win32_thread_attach_np(); I.have[i] = 0; i_ops(i); I.have[i] = 2; v = pthread_getspecific(I.k); pthread_win32_thread_detach_np(); CHECKV(I.dcalls[i] == d0 + had + (v != NULL), "implicit-destructor-count", 2); sim_probe("attached_again"); }
  } else I.have[i] = 3;
  return 0;
}
static void *pth(void *a) { int i = IDX(a); I.id[i] = pthread_self(); I.have[i] = 1; i_ops(i); I.have[i] = 2; return a; }
SCENARIO(implicit_threads)
{
  int n = 1 + sim_choice(4), np = sim_choice(3), r; pthread_t t[4]; pthread_mutexattr_t ma; long h0, b0;
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np(); h0 = sim_live_handles(-1); b0 = sim_live_blocks(); pthread_win32_process_attach_np();
  pthread_mutexattr_init(&ma);
  for (int i = 0; i < 3; i++) { static const int ty[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE}; pthread_mutexattr_settype(&ma, ty[i]); r = pthread_mutex_init(&I.m[i], &ma); CHECKV(r == 0, "setup", r); }
  pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&I.rm, &ma); pthread_mutexattr_destroy(&ma);
  sem_init(&I.s, 0, 0); r = pthread_key_create(&I.k, i_dtor); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) { I.h[i] = (void *)_beginthreadex(NULL, 0, w32, (void *)(size_t)i, 0, NULL); CHECK(I.h[i] != 0, "setup"); }
  for (int i = 0; i < np; i++) t[i] = xcreate(pth, (void *)(size_t)(n + i));
  for (int i = 0; i < n; i++) { WaitForSingleObject(I.h[i], 0xffffffff); CloseHandle(I.h[i]); }
  for (int i = 0; i < np; i++) { xjoin(t[i]); }
  int leak = 0; for (int i = 0; i < n; i++) if (I.have[i] == 3) leak++;
#ifdef SIM_DLL
  leak = 0;
#endif
  r = pthread_mutex_lock(&I.rm); if (r == EOWNERDEAD) { CHECK(I.dead, "owner-dead-without-death"); pthread_mutex_consistent(&I.rm); r = 0; } CHECKV(r == 0, "robust-after-detach", r); pthread_mutex_unlock(&I.rm);
  for (int i = 0; i < 3; i++) { r = pthread_mutex_destroy(&I.m[i]); CHECKV(r == 0, "destroy-failed", r); }
  r = pthread_mutex_destroy(&I.rm); CHECKV(r == 0, "destroy-failed", r); CHECK(sem_destroy(&I.s) == 0, "destroy-failed"); pthread_key_delete(I.k);
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np();
  if (!leak) { CHECKV(sim_live_handles(-1) == h0, "leak-handles", sim_live_handles(-1) - h0); CHECKV(sim_live_blocks() == b0, "leak-memory", sim_live_blocks() - b0); }
  pthread_win32_process_attach_np();
}
/* an implicit thread waits and is cancelled, like any other */
static void i_clean(void *a) { I.cancelled[IDX(a)] = 1; }
static unsigned __stdcall w32_canc(void *a)
{
  int i = IDX(a), r; I.id[i] = pthread_self(); I.have[i] = 1; sim_add(&I.cnt, 1);
  struct timespec ts = in_ms(3600000);
  r = pthread_mutex_timedlock(&I.m[0], &ts); (void)r;
  return 1;
}
static void *canceller(void *a) { int r; sim_wait_ge(&I.cnt, IDX(a)); for (int i = 0; i < IDX(a); i++) { r = pthread_cancel(I.id[i]); CHECKV(r == 0, "cancel-result", r); r = pthread_detach(I.id[i]); CHECKV(r == EINVAL, "implicit-detached", r); } return 0; }
static unsigned __stdcall w32_testc(void *a)
{
  int i = IDX(a), old, r; I.id[i] = pthread_self(); I.have[i] = 1; sim_add(&I.cnt, 1);
  r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_ENABLE, "implicit-cancelstate", old);
  sim_wait_ge(&I.go, 1);
  for (int k = 0; k < 3; k++) pthread_testcancel();
  struct timespec ts = in_ms(10); r = sem_timedwait(&I.s, &ts); CHECKV(r == -1 && errno == ETIMEDOUT, "implicit-cancel-disabled", r);
  I.cancelled[i] = 2; (void)i_clean; (void)w32_canc;
  thread_ends(); return 0;
}
SCENARIO(implicit_cancel)
{
  int n = 1 + sim_choice(3); sem_init(&I.s, 0, 0);
  for (int i = 0; i < n; i++) I.h[i] = (void *)_beginthreadex(NULL, 0, w32_testc, (void *)(size_t)i, 0, NULL);
  pthread_t c = xcreate(canceller, (void *)(size_t)n); xjoin(c); I.go = 1;
  for (int i = 0; i < n; i++) { WaitForSingleObject(I.h[i], 0xffffffff); CloseHandle(I.h[i]); CHECK(I.cancelled[i] == 2, "implicit-cancel-disabled"); int r = pthread_kill(I.id[i], 0); CHECKV(r == ESRCH, "stale-id", r); }
}
/* registration fails for lack of resources: no crash, no half-registered thread, and it works later */
static unsigned __stdcall w32_fail(void *a)
{
  int i = IDX(a); pthread_t s;
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    s = pthread_self();
    if (s.p) { if (I.have[i]) CHECK(pthread_equal(s, I.id[i]), "identity"); I.id[i] = s; I.have[i] = 1; }
    else { CHECK(!I.have[i], "identity"); sim_probe("self_failed"); }
    sim_yield();
  }
  sim_add(&I.cnt, 1); sim_wait_ge(&I.go, 1);
  s = pthread_self(); CHECK(s.p != NULL, "identity"); if (I.have[i]) CHECK(pthread_equal(s, I.id[i]), "identity"); I.id[i] = s; I.have[i] = 1;
  for (int j = 0; j < 4; j++) if (j != i && I.have[j] == 1) CHECK(!pthread_equal(I.id[j], s) || I.have[j] != 1, "identity-shared");
  sim_add(&I.stop, 1); sim_wait_ge(&I.stop, I.nomutex);
  { pthread_t z = pthread_self(); CHECK(pthread_equal(z, s), "identity"); }
  I.have[i] = 2; thread_ends();
  return 0;
}
SCENARIO(implicit_failures)
{
  int n = 1 + sim_choice(3); long h0, b0;
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np(); h0 = sim_live_handles(-1); b0 = sim_live_blocks(); pthread_win32_process_attach_np();
  I.nomutex = n;
  for (int i = 0; i < n; i++) I.h[i] = (void *)_beginthreadex(NULL, 0, w32_fail, (void *)(size_t)i, 0, NULL);
  sim_faults(sim_choice(2) ? F_ALLRES : F_ALLOC | F_EVENT | F_DUP | F_AFF);
  sim_wait_ge(&I.cnt, n); sim_faults(0); I.go = 1;
  for (int i = 0; i < n; i++) { WaitForSingleObject(I.h[i], 0xffffffff); CloseHandle(I.h[i]); }
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np();
  CHECKV(sim_live_handles(-1) == h0, "leak-handles", sim_live_handles(-1) - h0); CHECKV(sim_live_blocks() == b0, "leak-memory", sim_live_blocks() - b0);
  pthread_win32_process_attach_np();
}
/* C15: the ids of threads Win32 made stay distinct from those of later threads, however the structures are recycled */
GUEST_IMPORT unsigned __stdcall GetCurrentThreadId(void);
static unsigned __stdcall w32_id(void *a)
{
  int i = IDX(a); pthread_t s = pthread_self(); CHECK(s.p != NULL, "identity"); I.id[i] = s; I.have[i] = 1;
  CHECK(pthread_getw32threadid_np(s) == GetCurrentThreadId(), "w32-thread-id");
  if (sim_choice(2)) { sim_add(&I.cnt, 1); sim_yield(); }
  CHECK(pthread_equal(s, pthread_self()), "self-changed"); I.have[i] = 2;
  thread_ends(); return 0;
}
static void *p_id(void *a)
{
  int i = IDX(a); I.id[i] = pthread_self();
  CHECK(pthread_getw32threadid_np(I.id[i]) == GetCurrentThreadId(), "w32-thread-id");
  sim_yield(); return a;
}
SCENARIO(implicit_ids)
{
  int n = 0, r;
  while (n < 8) {
    int k = 1 + sim_choice(3), imp = sim_choice(2), f = n; pthread_t t[3];
    if (k > 8 - n) k = 8 - n;
    for (int i = 0; i < k; i++) { if (imp) I.h[n + i] = (void *)_beginthreadex(NULL, 0, w32_id, (void *)(size_t)(n + i), 0, NULL); else t[i] = xcreate(p_id, (void *)(size_t)(n + i));
      if (!imp) for (int j = 0; j < f; j++) { CHECK(!pthread_equal(I.id[j], t[i]), "id-not-unique"); r = pthread_kill(I.id[j], 0); CHECKV(r == ESRCH, "stale-id", r); r = pthread_join(I.id[j], NULL); CHECKV(r == ESRCH, "stale-id", r); r = pthread_detach(I.id[j]); CHECKV(r == ESRCH, "stale-id", r); r = pthread_cancel(I.id[j]); CHECKV(r == ESRCH, "stale-id", r); } }
    for (int i = 0; i < k; i++) if (imp) { WaitForSingleObject(I.h[n + i], 0xffffffff); CloseHandle(I.h[n + i]); } else { void *v = xjoin(t[i]); CHECK(v == (void *)(size_t)(n + i), "join-value"); CHECK(pthread_equal(t[i], I.id[n + i]), "self-not-created-id"); }
    n += k;
    for (int i = 0; i < n; i++) { r = pthread_kill(I.id[i], 0); CHECKV(r == ESRCH, "stale-id", r); for (int j = 0; j < i; j++) CHECK(!pthread_equal(I.id[i], I.id[j]), "id-not-unique"); }
  }
}
/* C25: pthread_exit and cancellation end a thread Win32 made, with the value as its exit code and its pthread state given back */
GUEST_IMPORT int __stdcall GetExitCodeThread(void *, unsigned *);
static volatile long e_act[8]; static pthread_cond_t e_cv; static int e_st[8][8], e_n[8]; static volatile long e_ran[8];
/* in the C++ flavour handlers are run by unwinding, and nothing catches what a Win32 thread throws: threads with handlers to run are in implicit_handlers */
static int e_hand(void) {
#ifdef __cplusplus
  return 0;
#else
  return 1;
#endif
}
static void e_clean(void *a) { int i = IDX(a) & 0xf, d = IDX(a) >> 4; CHECKV(e_n[i] > 0 && e_st[i][e_n[i] - 1] == d, "cleanup-order", d); CHECKV(I.dcalls[i] <= 0, "cleanup-after-destructors", I.dcalls[i]); e_n[i]--; e_ran[i]++; pthread_testcancel(); }
static unsigned __stdcall w32_ends(void *a);
static void e_end(int i, int how)
{
  int r, old; pthread_t s = pthread_self();
  switch (how) {
  case 1: break;
  case 2: r = pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old); CHECKV(r == 0 && old == PTHREAD_CANCEL_ENABLE, "implicit-cancelstate", old); sim_yield(); break;
  case 3: r = pthread_cancel(s); CHECKV(r == 0, "cancel-result", r); pthread_testcancel(); sim_violation("implicit-cancel-ignored", i, 0); break;
  case 4: r = sem_wait(&I.s); sim_violation("implicit-cancel-ignored", i, r == 0 ? 0 : errno); break;
  default: pthread_mutex_lock(&I.m[0]); pthread_cleanup_push((void (*)(void *))pthread_mutex_unlock, &I.m[0]);
    pthread_cond_wait(&e_cv, &I.m[0]); sim_violation("implicit-cancel-ignored", i, 1); pthread_cleanup_pop(0);
  }
  pthread_exit((void *)(size_t)(0x100 + i));
  sim_violation("returned-from-exit", i, 0);
}
static void e_nest(int i, int how, int d)
{
  if (d == 0) { e_end(i, how); return; }
  e_st[i][e_n[i]++] = d;
  pthread_cleanup_push(e_clean, (void *)(size_t)(i | d << 4));
  e_nest(i, how, d - 1);
  pthread_cleanup_pop(0);
}
static unsigned __stdcall w32_ends(void *a)
{
  int i = IDX(a), how = sim_choice(e_hand() ? 6 : 4), r; pthread_t s; e_act[i] = how;
  if (how == 0) pthread_exit((void *)(size_t)(0x100 + i));      /* without ever having used the library */
  s = pthread_self(); CHECK(s.p != NULL, "identity"); I.id[i] = s; I.have[i] = 1;
  if (sim_choice(2)) { r = pthread_setspecific(I.k, (void *)(size_t)(i + 1)); CHECKV(r == 0, "implicit-tsd", r); I.dcalls[i] = -1; }
  if (sim_choice(3) == 2) { r = pthread_mutex_lock(&I.rm); if (r == EOWNERDEAD) { r = pthread_mutex_consistent(&I.rm); sim_probe("inherited_robust"); } CHECKV(r == 0, "implicit-lock", r); I.dead = 1; }
  sim_add(&I.cnt, 1);
  e_nest(i, how, e_hand() ? sim_choice(4) : 0); return 7;
}
SCENARIO(implicit_exit)
{
  int n = 1 + sim_choice(4), r; pthread_mutexattr_t ma; long h0, b0; unsigned code; int cn[4] = {0};
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np(); h0 = sim_live_handles(-1); b0 = sim_live_blocks(); pthread_win32_process_attach_np();
  pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&I.rm, &ma); CHECKV(r == 0, "setup", r); pthread_mutexattr_destroy(&ma);
  sem_init(&I.s, 0, 0); r = pthread_key_create(&I.k, i_dtor); CHECKV(r == 0, "setup", r);
  r = pthread_mutex_init(&I.m[0], NULL); CHECKV(r == 0, "setup", r); r = pthread_cond_init(&e_cv, NULL); CHECKV(r == 0, "setup", r);
  for (int i = 0; i < n; i++) { e_act[i] = -1; I.h[i] = (void *)_beginthreadex(NULL, 0, w32_ends, (void *)(size_t)i, 0, NULL); CHECK(I.h[i] != 0, "setup"); }
  for (int left = n; left; sim_yield()) for (int i = 0; i < n; i++) if (!cn[i] && e_act[i] >= 0 && (e_act[i] < 4 || I.have[i])) {
    cn[i] = 1; left--; if (e_act[i] >= 4) { r = pthread_cancel(I.id[i]); CHECKV(r == 0, "cancel-result", r); }
  }
  for (int i = 0; i < n; i++) {
    WaitForSingleObject(I.h[i], 0xffffffff); code = 0; CHECK(GetExitCodeThread(I.h[i], &code), "exit-code"); CloseHandle(I.h[i]);
    CHECKV(code == (e_act[i] >= 3 ? 0xffffffffu : 0x100u + i), "exit-code", code);
    if (I.have[i]) { r = pthread_kill(I.id[i], 0); CHECKV(r == ESRCH, "stale-id", r); }
    CHECKV(I.dcalls[i] == 0, "implicit-destructor-count", I.dcalls[i]);
    CHECKV(e_n[i] == 0, "implicit-handler-skipped", e_n[i]); if (e_ran[i]) sim_probe("implicit_handlers_run");
    sim_probe(e_act[i] >= 3 ? "implicit_cancelled" : "implicit_exited");
  }
  r = pthread_mutex_lock(&I.rm); CHECKV(r == (I.dead ? EOWNERDEAD : 0), "robust-after-exit", r); if (r) pthread_mutex_consistent(&I.rm); pthread_mutex_unlock(&I.rm);
  r = pthread_cond_destroy(&e_cv); CHECKV(r == 0, "destroy-failed", r); r = pthread_mutex_destroy(&I.m[0]); CHECKV(r == 0, "destroy-failed", r); r = pthread_mutex_destroy(&I.rm); CHECKV(r == 0, "destroy-failed", r); CHECK(sem_destroy(&I.s) == 0, "destroy-failed"); pthread_key_delete(I.k);
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np();
  CHECKV(sim_live_handles(-1) == h0, "leak-handles", sim_live_handles(-1) - h0); CHECKV(sim_live_blocks() == b0, "leak-memory", sim_live_blocks() - b0);
  pthread_win32_process_attach_np();
}
static unsigned __stdcall w32_handlers(void *a) { int i = IDX(a); I.id[i] = pthread_self(); I.have[i] = 1; e_nest(i, 1 + sim_choice(3), 1 + sim_choice(3)); return 7; }
SCENARIO(implicit_handlers)
{
  int n = 1 + sim_choice(2);
  for (int i = 0; i < n; i++) I.h[i] = (void *)_beginthreadex(NULL, 0, w32_handlers, (void *)(size_t)i, 0, NULL);
  for (int i = 0; i < n; i++) { WaitForSingleObject(I.h[i], 0xffffffff); CloseHandle(I.h[i]); int r = pthread_kill(I.id[i], 0); CHECKV(r == ESRCH, "stale-id", r); CHECKV(e_n[i] == 0, "implicit-handler-skipped", e_n[i]); sim_probe("implicit_ended"); }
}

/* C25, the library as a DLL: threads Win32 made end in any of the ways Win32 has, and the loader's notice is enough */
GUEST_IMPORT void __stdcall ExitThread(unsigned);
static struct { pthread_key_t k[2]; pthread_mutex_t rm, m; sem_t s; pthread_t id[8]; void *h[8]; volatile long used[8], due[8], ran[8], owned, code[8]; } D;
static void d_dtor(void *v) { int i = IDX(v) - 1; CHECKV(i >= 0 && i < 8, "implicit-destructor-value", i); CHECK(pthread_equal(pthread_self(), D.id[i]), "implicit-destructor-thread"); sim_add(&D.ran[i], 1); }
static unsigned __stdcall d_w32(void *a)
{
  int i = IDX(a), r; D.code[i] = 0x40 + i;
  for (int n = sim_choice(5); n > 0; n--) {
    pthread_t s = pthread_self(); CHECK(s.p != NULL, "identity"); if (D.used[i]) CHECK(pthread_equal(s, D.id[i]), "identity"); D.id[i] = s; D.used[i] = 1;
    switch (sim_choice(6)) {
    case 0: { int q = sim_choice(2); if (!(D.due[i] >> q & 1)) { r = pthread_setspecific(D.k[q], (void *)(size_t)(i + 1)); CHECKV(r == 0, "implicit-tsd", r); D.due[i] |= 1 << q; } break; }
    case 1: { int q = sim_choice(2); r = pthread_setspecific(D.k[q], NULL); CHECKV(r == 0, "implicit-tsd", r); D.due[i] &= ~(1 << q); break; }
    case 2: r = pthread_mutex_lock(&D.rm); if (r == EOWNERDEAD) { CHECK(D.owned, "owner-dead-without-death"); r = pthread_mutex_consistent(&D.rm); sim_probe("inherited_robust"); } CHECKV(r == 0, "implicit-lock", r); D.owned = 1; if (sim_choice(3)) { D.owned = 0; r = pthread_mutex_unlock(&D.rm); CHECKV(r == 0, "implicit-unlock", r); } else n = 1; break;
    case 3: r = pthread_mutex_lock(&D.m); CHECKV(r == 0, "implicit-lock", r); sim_yield(); r = pthread_mutex_unlock(&D.m); CHECKV(r == 0, "implicit-unlock", r); break;
    case 4: pthread_setname_np(s, "made by Win32"); break;
    default: sem_post(&D.s); r = sem_wait(&D.s); CHECKV(r == 0, "implicit-sem", r);
    }
  }
  switch (sim_choice(6)) {
  case 0: _endthreadex(D.code[i]); break;
  case 1: ExitThread(D.code[i]); break;
  case 2: pthread_exit((void *)(size_t)D.code[i]); break;
  case 3: if (!D.used[i]) break; D.code[i] = 0xffffffffu; r = pthread_cancel(D.id[i]); CHECKV(r == 0, "cancel-result", r); pthread_testcancel(); sim_violation("implicit-cancel-ignored", i, 0); break;
  case 4: pthread_win32_thread_detach_np(); sim_probe("said_so"); break;
  default: break;
  }
  return D.code[i];
}
static void *d_pth(void *a) { int i = IDX(a); D.id[i] = pthread_self(); D.used[i] = 1; if (sim_choice(2)) { pthread_setspecific(D.k[0], (void *)(size_t)(i + 1)); D.due[i] = 1; } if (sim_choice(2)) pthread_exit(a); return a; }
SCENARIO(dll_threads)
{
  int n = 1 + sim_choice(5), r, rounds = 1 + sim_choice(2); pthread_mutexattr_t ma; long h0, b0; unsigned code;
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np(); h0 = sim_live_handles(-1); b0 = sim_live_blocks(); pthread_win32_process_attach_np();
  pthread_mutexattr_init(&ma); pthread_mutexattr_settype(&ma, PTHREAD_MUTEX_ERRORCHECK); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); r = pthread_mutex_init(&D.rm, &ma); CHECKV(r == 0, "setup", r); pthread_mutexattr_destroy(&ma);
  r = pthread_mutex_init(&D.m, NULL); CHECKV(r == 0, "setup", r); sem_init(&D.s, 0, 0); for (int q = 0; q < 2; q++) { r = pthread_key_create(&D.k[q], d_dtor); CHECKV(r == 0, "setup", r); }
  for (int q = 0; q < rounds; q++) {
    int w[8]; pthread_t t[8];
    for (int i = 0; i < n; i++) { w[i] = sim_choice(4) != 3; D.used[i] = D.due[i] = D.ran[i] = 0; if (w[i]) { D.h[i] = (void *)_beginthreadex(NULL, 0, d_w32, (void *)(size_t)i, 0, NULL); CHECK(D.h[i] != 0, "setup"); } else t[i] = xcreate(d_pth, (void *)(size_t)i); }
    for (int i = 0; i < n; i++) {
      if (w[i]) { WaitForSingleObject(D.h[i], 0xffffffff); code = 0; CHECK(GetExitCodeThread(D.h[i], &code), "exit-code"); CloseHandle(D.h[i]); CHECKV(code == (unsigned)D.code[i], "exit-code", code); }
      else { void *v = xjoin(t[i]); CHECKV(v == (void *)(size_t)i, "join-value", i); }
      CHECKV(D.ran[i] == (D.due[i] & 1) + (D.due[i] >> 1 & 1), "implicit-destructor-count", D.ran[i] * 16 + D.due[i]); if (w[i] && D.due[i]) sim_probe("loader_ran_destructors");
      if (D.used[i]) { r = pthread_kill(D.id[i], 0); CHECKV(r == ESRCH, "stale-id", r); sim_probe("loader_ended"); } else sim_probe("never_used");
    }
    r = pthread_mutex_lock(&D.rm); CHECKV(r == (D.owned ? EOWNERDEAD : 0), "robust-after-exit", r); if (r) pthread_mutex_consistent(&D.rm); pthread_mutex_unlock(&D.rm); D.owned = 0;
  }
  r = pthread_mutex_destroy(&D.m); CHECKV(r == 0, "destroy-failed", r); r = pthread_mutex_destroy(&D.rm); CHECKV(r == 0, "destroy-failed", r); CHECK(sem_destroy(&D.s) == 0, "destroy-failed"); for (int q = 0; q < 2; q++) pthread_key_delete(D.k[q]);
  pthread_win32_thread_detach_np(); pthread_win32_process_detach_np();
  CHECKV(sim_live_handles(-1) == h0, "leak-handles", sim_live_handles(-1) - h0); CHECKV(sim_live_blocks() == b0, "leak-memory", sim_live_blocks() - b0);
  pthread_win32_process_attach_np();
}
