#include <windows.h>
#include "common.h"
/* C07: exclusion and progress of read-write locks.  C08: abandoned attempts leave no trace. */
static struct { pthread_rwlock_t l; int iters, timed, try_; volatile long w, r, maxr; long data[2]; volatile long inside; int expect_cancel; } R;
static void rd_in(void) { sim_add(&R.r, 1); CHECK(R.w == 0, "rwlock-exclusion"); }
static void rd_body(void)
{
  long a = R.data[0]; sim_stall(); CHECK(R.w == 0, "rwlock-exclusion");
  CHECK(R.data[1] == a && R.data[0] == a, "rwlock-torn-read");
}
static void rd_out(void) { CHECK(R.w == 0, "rwlock-exclusion"); sim_add(&R.r, -1); }
static void wr_in(void) { CHECK(sim_add(&R.w, 1) == 1, "rwlock-exclusion"); CHECK(R.r == 0, "rwlock-exclusion"); }
static void wr_body(void) { long a = R.data[0]; R.data[0] = a + 1; sim_stall(); CHECK(R.r == 0 && R.w == 1, "rwlock-exclusion"); R.data[1] = a + 1; }
static void wr_out(void) { CHECK(R.r == 0, "rwlock-exclusion"); CHECK(sim_add(&R.w, -1) == 0, "rwlock-exclusion"); }
static void un(void) { int r = pthread_rwlock_unlock(&R.l); CHECKV(r == 0, "rwlock-unlock-result", r); }
static int take(int *wr)
{
  int k = sim_choice(2 + 2 * R.timed + 2 * R.try_), r; struct timespec ts;
  if (k >= 2 && !R.timed) k += 2;
  *wr = k & 1;
  switch (k) {
  case 0: r = pthread_rwlock_rdlock(&R.l); CHECKV(r == 0, "rwlock-rdlock-result", r); break;
  case 1: r = pthread_rwlock_wrlock(&R.l); CHECKV(r == 0, "rwlock-wrlock-result", r); break;
  case 2: ts = in_ms(sim_choice(4) * 2); r = pthread_rwlock_timedrdlock(&R.l, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "rwlock-timedrdlock-result", r); break;
  case 3: ts = in_ms(sim_choice(4) * 2); r = pthread_rwlock_timedwrlock(&R.l, &ts); CHECKV(r == 0 || r == ETIMEDOUT, "rwlock-timedwrlock-result", r); break;
  case 4: r = pthread_rwlock_tryrdlock(&R.l); CHECKV(r == 0 || r == EBUSY, "rwlock-tryrdlock-result", r); break;
  default: r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == 0 || r == EBUSY, "rwlock-trywrlock-result", r); break;
  }
  if (r == ETIMEDOUT) sim_probe(*wr ? "wr_timed_out" : "rd_timed_out");
  if (r == EBUSY) sim_probe(*wr ? "wr_busy" : "rd_busy");
  return r == 0;
}
static void *rw_thread(void *a)
{
  for (int i = 0; i < R.iters; i++) {
    int wr;
    if (!take(&wr)) { sim_stall(); continue; }
    if (wr) { wr_in(); wr_body(); wr_out(); un(); }
    else {
      int nest = 0;
      rd_in(); rd_body();
      /* a second, non-blocking read lock by the same reader */
      if (R.try_ && sim_choice(3) == 2) { int r = pthread_rwlock_tryrdlock(&R.l); CHECKV(r == 0 || r == EBUSY, "rwlock-tryrdlock-result", r); nest = r == 0; }
      if (nest) { un(); rd_body(); }
      rd_out(); un();
    }
  }
  return 0;
}
static void rw_setup(void)
{
  static const pthread_rwlock_t ini = PTHREAD_RWLOCK_INITIALIZER;
  R.iters = 1 + sim_choice(4); R.timed = sim_choice(2); R.try_ = sim_choice(2);
  if (sim_choice(4) == 3) R.l = ini; else CHECK(pthread_rwlock_init(&R.l, NULL) == 0, "rwlock-init");
}
static void rw_final(void)
{
  int r;
  CHECK(R.data[0] == R.data[1], "rwlock-torn-write");
  r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == 0, "rwlock-left-locked", r);
  r = pthread_rwlock_tryrdlock(&R.l); CHECKV(r == EBUSY, "rwlock-exclusion", r);
  r = pthread_rwlock_unlock(&R.l); CHECKV(r == 0, "rwlock-unlock-result", r);
  r = pthread_rwlock_tryrdlock(&R.l); CHECKV(r == 0, "rwlock-left-locked", r);
  r = pthread_rwlock_rdlock(&R.l); CHECKV(r == 0, "rwlock-rdlock-result", r);
  r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == EBUSY, "rwlock-exclusion", r);
  un();
  r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == EBUSY, "rwlock-exclusion", r);
  un();
  r = pthread_rwlock_wrlock(&R.l); CHECKV(r == 0, "rwlock-wrlock-result", r);
  un();
  r = pthread_rwlock_destroy(&R.l); CHECKV(r == 0, "rwlock-destroy", r);
}
SCENARIO(rwlock_excl)
{
  pthread_t t[6]; int n = 2 + sim_choice(4);
  rw_setup();
  sim_faults(F_LATE | F_CLOCK);
  for (int i = 0; i < n; i++) t[i] = xcreate(rw_thread, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  rw_final();
}
/* readers share: all of them are inside at once when there is no writer */
static void *rw_share(void *a)
{
  int n = IDX(a), r; struct timespec ts;
  if (sim_choice(2)) r = pthread_rwlock_rdlock(&R.l);
  else do { ts = in_ms(1000); r = pthread_rwlock_timedrdlock(&R.l, &ts); } while (r == ETIMEDOUT);
  CHECKV(r == 0, "rwlock-rdlock-result", r);
  rd_in(); sim_add(&R.inside, 1);
  sim_wait_ge(&R.inside, n);
  rd_out(); un();
  return 0;
}
SCENARIO(rwlock_share)
{
  pthread_t t[6]; int n = 2 + sim_choice(4), pre = sim_choice(4);
  rw_setup();
  for (int i = 0; i < pre; i++) { struct timespec ts = in_ms(2); int k = sim_choice(3), r = k == 0 ? pthread_rwlock_rdlock(&R.l) : k == 1 ? pthread_rwlock_wrlock(&R.l) : pthread_rwlock_timedwrlock(&R.l, &ts); CHECKV(r == 0, "rwlock-lock-result", r); un(); }
  for (int i = 0; i < n; i++) t[i] = xcreate(rw_share, (void *)(size_t)n);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  rw_final();
}
/* C08: writers that give up (timeout, cancellation) while readers hold the lock */
static volatile long want_out;
static void wr_cancelled(void *a) { (void)a; sim_probe("writer_cancelled"); }
static void wr_unlock(void *a) { wr_out(); un(); }
static void *quit_writer(void *a)
{
  int r, n = 1 + sim_choice(2), canc = IDX(a);
  while (n--) {
    struct timespec ts = in_ms(sim_choice(4)); int k = sim_choice(4);
    pthread_cleanup_push(wr_cancelled, 0);
    if (k == 3) r = pthread_rwlock_trywrlock(&R.l);
    else if (canc && (k & 1)) r = pthread_rwlock_wrlock(&R.l);
    else r = pthread_rwlock_timedwrlock(&R.l, &ts);
    pthread_cleanup_pop(0);
    if (r == EBUSY && k == 3) { sim_probe("try_refused"); n += sim_choice(3) == 1; }
    else if (r == 0) {
      wr_in();
      pthread_cleanup_push(wr_unlock, 0);
      wr_body();
      if (canc) pthread_testcancel();
      pthread_cleanup_pop(1);
    } else { CHECKV(r == ETIMEDOUT, "rwlock-timedwrlock-result", r); sim_probe("writer_timed_out"); }
  }
  return 0;
}
static void *hold_reader(void *a)
{
  int r, n = 1 + sim_choice(2); struct timespec ts;
  while (n--) {
    int k = sim_choice(3);
    if (k == 0) r = pthread_rwlock_rdlock(&R.l);
    else if (k == 1) { ts = in_ms(1 + sim_choice(6)); r = pthread_rwlock_timedrdlock(&R.l, &ts); }
    else r = pthread_rwlock_tryrdlock(&R.l);
    if (r) { CHECKV((k == 1 && r == ETIMEDOUT) || (k == 2 && r == EBUSY), "rwlock-rdlock-result", r); continue; }
    rd_in(); rd_body();
    if (sim_choice(2)) { Sleep(1 + sim_choice(4)); rd_body(); }
    rd_out(); un();
  }
  return 0;
}
SCENARIO(rwlock_abandon)
{
  pthread_t t[8], x[4]; int n = 0, nr = 1 + sim_choice(3), nw = 1 + sim_choice(3), nx = 0, canc, can[8] = {0};
  rw_setup();
  sim_faults(F_LATE);
  for (int i = 0; i < nr; i++) t[n++] = xcreate(hold_reader, 0);
  for (int i = 0; i < nw; i++) { canc = sim_choice(2); can[n] = canc; t[n] = xcreate(quit_writer, (void *)(size_t)canc); if (canc) x[nx++] = t[n]; n++; }
  for (int i = 0; i < nx; i++) { sim_stall(); int r = pthread_cancel(x[i]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); }
  for (int i = 0; i < n; i++) { void *v = xjoin(t[i]); CHECK(v == 0 || (can[i] && v == PTHREAD_CANCELED), "join-value"); }
  CHECK(R.r == 0 && R.w == 0, "rwlock-exclusion");
  rw_final();
}
/* a writer that gave up while a reader still holds the lock: the reader's hold is intact, other readers get in, writers do not */
SCENARIO(rwlock_abandon_held)
{
  pthread_t t; int r, k = 1 + sim_choice(3), how = sim_choice(2); struct timespec ts;
  rw_setup();
  for (int i = 0; i < k; i++) { r = pthread_rwlock_rdlock(&R.l); CHECKV(r == 0, "rwlock-rdlock-result", r); }
  sim_add(&R.r, 1);
  for (int i = sim_choice(3); i >= 0; i--) {
    t = xcreate(quit_writer, (void *)(size_t)how);
    if (how) { if (sim_choice(2)) sim_settle(0); r = pthread_cancel(t); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); }
    xjoin(t);
    CHECK(R.w == 0, "rwlock-exclusion");
    r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == EBUSY, "rwlock-exclusion", r);
    r = pthread_rwlock_tryrdlock(&R.l); CHECKV(r == 0, "rwlock-readers-shut-out", r); un();
    if (k > 1 && sim_choice(2)) { un(); k--; }
  }
  sim_add(&R.r, -1);
  while (k--) { r = pthread_rwlock_trywrlock(&R.l); CHECKV(r == EBUSY, "rwlock-exclusion", r); un(); }
  rw_final();
}
