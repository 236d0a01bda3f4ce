#include "common.h"
/* C20: timed waits and delays; C28: the time-change handler. */
#define DAY 86400000000000LL
static struct { pthread_mutex_t m[8]; int nm; sem_t s; pthread_mutex_t cm; pthread_cond_t c; pthread_rwlock_t rw; sem_t never, held; pthread_t t; int rdheld; volatile long nheld, out[4], woken; long long dl[4]; } P;
static void set_epoch(void)
{
  static const long long ep[] = {1700000000LL, 2147483640LL, 2147483648LL, 4294967290LL, 4294967300LL, 7258118400LL, 951782400LL, 86400LL};
  sim_clock_set(ep[sim_choice(8)]); sim_tick(sim_choice(20000));
}
static long long pick_off(int *past)
{
  static const long long o[] = {50000000LL, 1000000LL, 300000LL, 1500000LL, 999999LL, 10000000000LL, 3600000000000LL, 10 * DAY, 49 * DAY, 24 * DAY + 75000000000000LL, 25 * DAY, 0, -1, -1000000LL, -5000000000LL, -40 * DAY, -20000 * DAY};
  long long v = o[sim_choice(17)]; *past = v <= 0; if (v > 0 && sim_choice(2)) v += sim_choice(1000000);
  return v;
}
static struct timespec at(long long ns) { struct timespec ts; if (ns < 0) { ts.tv_sec = ns / 1000000000LL - 1; ts.tv_nsec = (long)(ns - ts.tv_sec * 1000000000LL); if (ts.tv_nsec == 1000000000) { ts.tv_sec++; ts.tv_nsec = 0; } } else { ts.tv_sec = ns / 1000000000LL; ts.tv_nsec = (long)(ns % 1000000000LL); } return ts; }
static void *holder(void *a)
{
  int r; (void)a;
  for (int i = 0; i < P.nm; i++) { r = pthread_mutex_lock(&P.m[i]); CHECK(r == 0, "mutex-lock"); }
  r = P.rdheld ? pthread_rwlock_rdlock(&P.rw) : pthread_rwlock_wrlock(&P.rw); CHECK(r == 0, "rwlock-lock");
  P.nheld = 1;
  do r = sem_wait(&P.never); while (r);
  for (int i = 0; i < P.nm; i++) { r = pthread_mutex_unlock(&P.m[i]); CHECK(r == 0, "mutex-unlock"); }
  pthread_rwlock_unlock(&P.rw);
  return 0;
}
static int timed_call(int op, const struct timespec *ts)
{
  int r; void *v;
  switch (op) {
  case 0: r = sem_timedwait(&P.s, ts); return r == 0 ? 0 : errno;
  case 1: pthread_mutex_lock(&P.cm); r = pthread_cond_timedwait(&P.c, &P.cm, ts); { int q = pthread_mutex_unlock(&P.cm); CHECKV(q == 0, "cond-without-mutex", q); } return r;
  case 2: return pthread_rwlock_timedwrlock(&P.rw, ts);
  case 3: return P.rdheld ? pthread_rwlock_timedwrlock(&P.rw, ts) : pthread_rwlock_timedrdlock(&P.rw, ts);
  case 4: return pthread_timedjoin_np(P.t, &v, ts);
  default: return pthread_mutex_timedlock(&P.m[op - 5], ts);
  }
}
static void setup(void)
{
  static const int ty[] = {PTHREAD_MUTEX_NORMAL, PTHREAD_MUTEX_ERRORCHECK, PTHREAD_MUTEX_RECURSIVE};
  P.nm = 6;
  for (int i = 0; i < 6; i++) { pthread_mutexattr_t a; pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, ty[i % 3]); if (i >= 3) pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); CHECK(pthread_mutex_init(&P.m[i], &a) == 0, "setup"); pthread_mutexattr_destroy(&a); }
  CHECK(sem_init(&P.s, 0, 0) == 0 && sem_init(&P.never, 0, 0) == 0 && pthread_mutex_init(&P.cm, 0) == 0 && pthread_cond_init(&P.c, 0) == 0 && pthread_rwlock_init(&P.rw, 0) == 0, "setup");
}
/* exact: the only timer in the system is the one under test */
SCENARIO(timed_exact)
{
  set_epoch(); setup(); P.rdheld = sim_choice(2);
  P.t = xcreate(holder, 0); sim_wait_ge(&P.nheld, 1); sim_settle(0);
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    int past, op = sim_choice(11), r; long long off = pick_off(&past), t0 = sim_unix_ns(), dl = t0 + off; struct timespec ts = at(dl);
    if (dl < 0) { ts = at(0); dl = 0; }
    r = timed_call(op, &ts); CHECKV(r == ETIMEDOUT, "timed-result", r * 100 + op);
    long long t1 = sim_unix_ns();
    CHECKV(t1 + 1000000 >= dl, "timed-out-early", dl - t1);
    CHECKV(t1 <= (dl > t0 ? dl : t0) + 60000000, "timed-out-late", t1 - dl);
    if (past) sim_probe("deadline_in_past");
  }
  sem_post(&P.never); xjoin(P.t);
  /* available: succeeds at once whatever the deadline */
  { int past, r; long long t0 = sim_unix_ns(); struct timespec ts = at(t0 + pick_off(&past)); if (ts.tv_sec < 0) ts = at(0);
    for (int i = 0; i < 6; i++) { r = pthread_mutex_timedlock(&P.m[i], &ts); CHECKV(r == 0, "timed-result", r * 100 + 5 + i); }
    r = pthread_rwlock_timedwrlock(&P.rw, &ts); CHECKV(r == 0, "timed-result", r);
    pthread_rwlock_unlock(&P.rw); r = pthread_rwlock_timedrdlock(&P.rw, &ts); CHECKV(r == 0, "timed-result", r);
    sem_post(&P.s); r = sem_timedwait(&P.s, &ts); CHECKV(r == 0, "timed-result", errno);
    CHECKV(sim_unix_ns() <= t0 + 60000000, "timed-out-late", 0);
  }
}
/* pthread_delay_np is never short; pthread_win32_getabstime_np is now + relative, normalised */
SCENARIO(timed_delay)
{
  struct timespec d, ab, *q; int r; set_epoch();
  static const long long sec[] = {0, 1, 3, 3600, 86400, 2000000, 2147483, 2147484, 4294967, 4294968, 4295000, 10000000, 5000000000LL};
  static const long ns[] = {0, 1, 999999, 1000000, 1000001, 500000000, 999999999};
  for (int n = 1 + sim_choice(3); n > 0; n--) {
    d.tv_sec = sec[sim_choice(13)]; d.tv_nsec = ns[sim_choice(7)];
    long long t0 = sim_now(), want = (long long)d.tv_sec * 10000000 + (d.tv_nsec + 99) / 100;
    int old; if (sim_choice(2)) pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &old);
    r = pthread_delay_np(&d);
    pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &old);
    if (r) { CHECKV(r == EINVAL && d.tv_sec > 2000000, "delay-result", r); sim_probe("delay_refused"); continue; }
    CHECKV(sim_now() - t0 >= want, "delay-short", sim_now() - t0); CHECKV(sim_now() - t0 <= want + 600000, "delay-long", sim_now() - t0);
    d.tv_sec = sec[sim_choice(5)]; d.tv_nsec = ns[sim_choice(7)];
    if (sim_choice(2)) { d.tv_nsec = (long)(1000000000 - sim_unix_ns() % 1000000000) - 3000 + 100 * sim_choice(40); if (d.tv_nsec < 0) d.tv_nsec = 0; if (d.tv_nsec > 999999999) d.tv_nsec = 999999999; }
    long long w0 = sim_unix_ns(); q = pthread_win32_getabstime_np(&ab, sim_choice(3) == 2 ? NULL : &d); CHECK(q == &ab, "getabstime"); if (0) w0++;
    CHECKV(ab.tv_nsec >= 0 && ab.tv_nsec < 1000000000, "getabstime-normalised", ab.tv_nsec);
    long long a = ab.tv_sec * 1000000000LL + ab.tv_nsec, w1 = sim_unix_ns(), rel = d.tv_sec * 1000000000LL + d.tv_nsec;
    CHECKV((a >= w0 - 100 && a <= w1) || (a >= w0 + rel - 100 && a <= w1 + rel), "getabstime-value", a - w0);
  }
}
/* concurrent timed waiters: nobody is early, everybody's timer fires, late timers and all */
static void *conc(void *a)
{
  int i = IDX(a), r, past;
  for (int n = 1 + sim_choice(2); n > 0; n--) {
    int op = sim_choice(11); long long off = pick_off(&past); if (off > 3600000000000LL || off < -3600000000000LL) off = 2000000;
    struct timespec ts = at(sim_unix_ns() + off); if (op == 4) op = 0;
    r = timed_call(op, &ts); CHECKV(r == ETIMEDOUT || (op == 1 && r == 0), "timed-result", r * 100 + op);
    if (r) CHECKV(sim_unix_ns() + 1000000 >= ts.tv_sec * 1000000000LL + ts.tv_nsec, "timed-out-early", 0);
  }
  P.out[i] = 1; return 0;
}
SCENARIO(timed_concurrent)
{
  int n = 1 + sim_choice(4); pthread_t t[4];
  set_epoch(); setup(); P.rdheld = sim_choice(2);
  P.t = xcreate(holder, 0); sim_wait_ge(&P.nheld, 1);
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) t[i] = xcreate(conc, (void *)(size_t)i);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  sim_faults(0); sem_post(&P.never); xjoin(P.t);
  for (int i = 0; i < 6; i++) { int r = pthread_mutex_trylock(&P.m[i]); CHECKV(r == 0, "mutex-left-locked", r); }
  { int r = pthread_rwlock_trywrlock(&P.rw); CHECKV(r == 0, "rwlock-left-locked", r); }
}
/* ---- clock steps and pthread_timechange_handler_np */
#define NCV 5
static pthread_cond_t cv[NCV]; static pthread_mutex_t cvm[NCV]; static int cvu[NCV], ncv;   /* cvu[0..ncv): those in use */
static void *tc_wait(void *a)
{
  int i = IDX(a), k = cvu[i % ncv], r; struct timespec ts = at(P.dl[i]);
  r = pthread_mutex_lock(&cvm[k]); CHECK(r == 0, "mutex-lock");
  sim_add(&P.woken, 1);
  do r = pthread_cond_timedwait(&cv[k], &cvm[k], &ts); while (r == 0);
  CHECKV(r == ETIMEDOUT, "timed-result", r);
  P.out[i] = 1;
  r = pthread_mutex_unlock(&cvm[k]); CHECK(r == 0, "cond-without-mutex");
  return 0;
}
static void *tc_other(void *a)   /* condition variables come and go meanwhile */
{
  int r; pthread_cond_t c[3] = {0}; if (IDX(a)) c[0] = cv[IDX(a) - 1];   /* perhaps one from before */
  for (int n = 1 + sim_choice(6); n > 0; n--) { int k = sim_choice(3);
    if (!c[k]) { r = pthread_cond_init(&c[k], NULL); CHECKV(r == 0, "cond-init", r); }
    else if (sim_choice(2)) { r = pthread_cond_broadcast(&c[k]); CHECKV(r == 0, "cond-broadcast", r); }
    else { do r = pthread_cond_destroy(&c[k]); while (r == EBUSY); CHECKV(r == 0, "cond-destroy", r); c[k] = NULL; } }
  for (int k = 0; k < 3; k++) if (c[k]) { do r = pthread_cond_destroy(&c[k]); while (r == EBUSY); CHECKV(r == 0, "cond-destroy", r); }
  return 0;
}
static void *tc_make(void *a)   /* a condition variable comes into being while others do */
{
  int k = IDX(a), r; struct timespec ts = {0, 0};
  if (sim_choice(2)) { r = pthread_cond_init(&cv[k], NULL); CHECKV(r == 0, "cond-init", r); }
  else { cv[k] = PTHREAD_COND_INITIALIZER; r = pthread_mutex_lock(&cvm[k]); CHECKV(r == 0, "mutex-lock", r); r = pthread_cond_timedwait(&cv[k], &cvm[k], &ts); CHECKV(r == ETIMEDOUT, "timed-result", r); r = pthread_mutex_unlock(&cvm[k]); CHECKV(r == 0, "cond-without-mutex", r); }
  return 0;
}
SCENARIO(timechange)
{
  int n = 1 + sim_choice(4), r; pthread_t t[4], o; void *v; long long step; int other = sim_choice(2), fwd = sim_choice(2);
  set_epoch();
  int live[NCV] = {0}; for (int k = 0; k < NCV; k++) CHECK(pthread_mutex_init(&cvm[k], NULL) == 0, "setup");
  for (int q = 1 + sim_choice(12); q > 0 || !ncv; q--) {   /* a past: condition variables were created and destroyed in any order */
    int k = sim_choice(NCV);
    if (!live[k]) { live[k] = 1; ncv++; if (sim_choice(3) == 2) { cv[k] = PTHREAD_COND_INITIALIZER; struct timespec ts = {0, 0}; pthread_mutex_lock(&cvm[k]); if (sim_choice(2)) pthread_cond_timedwait(&cv[k], &cvm[k], &ts); pthread_mutex_unlock(&cvm[k]); } else CHECK(pthread_cond_init(&cv[k], NULL) == 0, "setup"); }
    else if (ncv > 1 || q > 1) { r = pthread_cond_destroy(&cv[k]); CHECKV(r == 0, "cond-destroy", r); live[k] = 0; ncv--; }
    if (sim_choice(8) == 7) { v = pthread_timechange_handler_np(NULL); CHECKV(v == 0, "timechange-result", v); }
  }
  if (sim_choice(2)) {   /* perhaps several at once, perhaps the first ones */
    pthread_t mk[NCV]; int nm = 0; if (sim_choice(2)) for (int k = 0; k < NCV; k++) if (live[k]) { r = pthread_cond_destroy(&cv[k]); CHECKV(r == 0, "cond-destroy", r); live[k] = 0; }
    for (int k = 0; k < NCV && nm < 3; k++) if (!live[k]) { live[k] = 1; mk[nm++] = xcreate(tc_make, (void *)(size_t)k); }
    for (int i = 0; i < nm; i++) xjoin(mk[i]);
    sim_probe("made_concurrently");
  }
  ncv = 0; for (int k = 0; k < NCV; k++) if (live[k]) cvu[ncv++] = k;
  int spare = 0; if (other && ncv > 1 && sim_choice(2)) { int q = sim_choice(ncv); if (cv[cvu[q]] != PTHREAD_COND_INITIALIZER) { spare = cvu[q] + 1; cvu[q] = cvu[--ncv]; sim_probe("older_cv_destroyed"); } }
  long long w0 = sim_unix_ns(), n0 = sim_now();
  for (int i = 0; i < n; i++) { P.dl[i] = w0 + 3600000000000LL * (1 + sim_choice(4)); t[i] = xcreate(tc_wait, (void *)(size_t)i); }
  sim_wait_ge(&P.woken, n); sim_settle(0);
  if (other) o = xcreate(tc_other, (void *)(size_t)spare);
  step = fwd ? 3600000LL * (1 + sim_choice(5)) + 1000 : -3600000LL * (1 + sim_choice(5));
  sim_clock_jump(step);
  if (sim_choice(2)) v = pthread_timechange_handler_np(NULL); else v = xjoin(xcreate(pthread_timechange_handler_np, NULL));
  CHECKV(v == 0, "timechange-result", v);
  if (other) xjoin(o);
  int quick = sim_now() - n0 < 35000000000LL;   /* no timer set before the step can have expired before the handler was done */
  if (!fwd) sim_settle(0);
  else {
    /* those whose deadline has passed by the new clock are out without any further passage of time */
    long long h = sim_now(); sim_settle(0);
    if (sim_now() - h < 36000000 && quick) for (int i = 0; i < n; i++) if (P.dl[i] + 1000000 <= w0 + step * 1000000) { CHECKV(P.out[i] == 1, "timechange-not-noticed", i); sim_probe("timechange_woke"); }
  }
  for (int i = 0; i < n; i++) { xjoin(t[i]); if (quick) CHECKV(sim_unix_ns() + 1000000 >= P.dl[i], "timed-out-early", 0); }
  for (int k = 0; k < ncv; k++) { r = pthread_cond_destroy(&cv[cvu[k]]); CHECKV(r == 0, "cond-destroy", r); }
}
