#include "common.h"
/* C09: a semaphore conserves its count. */
static struct { sem_t s; volatile long posted, got, blocked, refused; int init, cancelled; } P;
static int q_wait(int k)
{
  struct timespec ts; int r;
  switch (k) {
  case 0: r = sem_wait(&P.s); break;
  case 1: r = sem_trywait(&P.s); if (r) { CHECKV(errno == EAGAIN, "sem-trywait-errno", errno); } break;
  default: ts = in_ms(sim_choice(5) * 2); r = sem_timedwait(&P.s, &ts); if (r) { CHECKV(errno == ETIMEDOUT, "sem-timedwait-errno", errno); sim_probe("sem_timed_out"); } break;
  }
  CHECKV(r == 0 || (r == -1 && k != 0), "sem-wait-result", r);
  if (r == 0) { long g = sim_add(&P.got, 1); CHECKV(g <= P.init + P.posted, "sem-more-waits-than-posts", g); }
  return r;
}
static void q_post(int n)
{
  int r;
  sim_add(&P.posted, n);      /* counted before: a waiter may be through before post returns */
  if (n == 1 && sim_choice(3)) r = sem_post(&P.s); else r = sem_post_multiple(&P.s, n);
  CHECKV(r == 0, "sem-post-result", errno);
}
static void *sem_getter(void *a)
{
  int n = IDX(a);
  while (n > 0) { int k = sim_choice(3); if (q_wait(k) == 0) n--; else { sim_add(&P.refused, 1); if (q_wait(0) == 0) n--; } }
  return 0;
}
static void *sem_poster(void *a)
{
  int n = IDX(a), r, v;
  while (n > 0) {
    int k = 1 + sim_choice(n > 3 ? 3 : n); q_post(k); n -= k; sim_stall();
    if (sim_choice(3) == 2) { r = sem_getvalue(&P.s, &v); CHECKV(r == 0, "sem-getvalue-result", errno); CHECKV(v <= P.init + P.posted - 0, "sem-getvalue", v); }
  }
  return 0;
}
static void sem_final(long expect)
{
  int v = 12345, r;
  r = sem_getvalue(&P.s, &v); CHECKV(r == 0 && v == expect, "sem-value", v);
  for (long i = 0; i < expect; i++) { r = sem_trywait(&P.s); CHECKV(r == 0, "sem-lost-count", i); }
  r = sem_trywait(&P.s); CHECK(r == -1 && errno == EAGAIN, "sem-extra-count");
  { struct timespec ts = in_ms(1); r = sem_timedwait(&P.s, &ts); CHECK(r == -1 && errno == ETIMEDOUT, "sem-extra-count"); }
  r = sem_getvalue(&P.s, &v); CHECKV(r == 0 && v == 0, "sem-value", v);
  r = sem_post(&P.s); CHECK(r == 0, "sem-post-result");
  r = sem_wait(&P.s); CHECK(r == 0, "sem-wait-result");
  r = sem_destroy(&P.s); CHECKV(r == 0, "sem-destroy", errno);
}
SCENARIO(sem_conserve)
{
  pthread_t t[10]; int n = 0, ng = 1 + sim_choice(4), np = 1 + sim_choice(2), need = 0, want[6], extra;
  P.init = sim_choice(4);
  CHECK(sem_init(&P.s, 0, P.init) == 0, "sem-init");
  sim_faults(F_LATE | F_CLOCK);
  for (int i = 0; i < ng; i++) need += want[i] = 1 + sim_choice(3);
  extra = sim_choice(3);
  int post = need + extra - P.init; if (post < 0) { extra -= post; post = 0; }
  for (int i = 0; i < ng; i++) t[n++] = xcreate(sem_getter, (void *)(size_t)want[i]);
  for (int i = 0; i < np; i++) { int k = i == np - 1 ? post : post / np; post -= k; t[n++] = xcreate(sem_poster, (void *)(size_t)k); }
  for (int i = 0; i < n; i++) xjoin(t[i]);
  sem_final(extra);
}
/* cancelled and timed-out waiters take nothing with them */
static volatile long taken;
static void took(void *a) { (void)a; }
static void *sem_cancellee(void *a)
{
  int r; struct timespec ts;
  if (sim_choice(2)) r = sem_wait(&P.s);
  else { ts = in_ms(1 + sim_choice(4)); r = sem_timedwait(&P.s, &ts); if (r) { CHECKV(errno == ETIMEDOUT, "sem-timedwait-errno", errno); return (void *)2; } }
  CHECK(r == 0, "sem-wait-result");
  return (void *)1;
}
SCENARIO(sem_cancel)
{
  pthread_t t[8]; int n = 1 + sim_choice(4), r, c = 0; long got = 0, posts = 0;
  P.init = sim_choice(3);
  CHECK(sem_init(&P.s, 0, P.init) == 0, "sem-init");
  sim_faults(F_LATE);
  for (int i = 0; i < n; i++) t[i] = xcreate(sem_cancellee, 0);
  if (sim_choice(2)) sim_settle(0);
  int live[8], m = n, ops = n + sim_choice(5); for (int i = 0; i < n; i++) live[i] = 1;
  for (int i = 0; i < ops; i++) {
    if (sim_choice(2)) { int k = 1 + (sim_choice(3) == 2); q_post(k); }
    else { int j = sim_choice(n); if (live[j]) { r = pthread_cancel(t[j]); CHECKV(r == 0 || r == ESRCH, "cancel-result", r); live[j] = 0; } }
    if (sim_choice(3) == 2) sim_stall();
  }
  /* enough posts for everybody: one cancelled too late takes one as well */
  q_post(n);
  sim_settle(1);
  for (int j = 0; j < n; j++) { void *v = xjoin(t[j]); if (v == (void *)1) got++; else if (v == PTHREAD_CANCELED) { CHECK(!live[j], "cancel-spurious"); sim_probe("sem_wait_cancelled"); } else CHECK(v == (void *)2, "join-value"); }
  sem_final(P.init + P.posted - got);
}
/* sem_post_multiple wakes as many as it says; the maximum is respected */
SCENARIO(sem_limits)
{
  int r, v, max = sim_choice(2) ? SEM_VALUE_MAX : SEM_VALUE_MAX - sim_choice(3), k; pthread_t t[6]; int n = sim_choice(4), big;
  r = sem_init(&P.s, 0, (unsigned)SEM_VALUE_MAX + 1u); CHECK(r == -1 && errno == EINVAL, "sem-init-limit");
  P.init = 0;
  CHECK(sem_init(&P.s, 0, 0) == 0, "sem-init");
  for (int i = 0; i < n; i++) t[i] = xcreate(sem_getter, (void *)(size_t)1);
  if (sim_choice(2)) sim_settle(0);
  /* n waiters and a post big enough to leave `max` behind */
  big = max > 2 ? max - sim_choice(3) : max;
  sim_add(&P.posted, n); 
  for (int left = n; left > 0;) { k = 1 + sim_choice(left); r = sem_post_multiple(&P.s, k); CHECKV(r == 0, "sem-post-result", errno); left -= k; }
  for (int i = 0; i < n; i++) xjoin(t[i]);
  r = sem_post_multiple(&P.s, big); CHECKV(r == 0, "sem-post-result", errno);
  r = sem_getvalue(&P.s, &v); CHECKV(r == 0 && v == big, "sem-value", v);
  if (SEM_VALUE_MAX - v < 8) {    /* a post that would cross the limit is refused as a whole */
    r = sem_post_multiple(&P.s, SEM_VALUE_MAX - v + 1 + sim_choice(3)); CHECKV(r == -1, "sem-overflow", v); CHECKV(errno == ERANGE || errno == EOVERFLOW, "sem-overflow-errno", errno);
    r = sem_getvalue(&P.s, &k); CHECKV(r == 0 && v == k, "sem-value", k);
  }
  for (; v < SEM_VALUE_MAX && v - big < 8; v++) { r = sem_post(&P.s); CHECKV(r == 0, "sem-post-result", errno); }
  if (v == SEM_VALUE_MAX) {
    r = sem_post(&P.s); CHECKV(r == -1, "sem-overflow", v); CHECKV(errno == ERANGE || errno == EOVERFLOW, "sem-overflow-errno", errno);
    r = sem_post_multiple(&P.s, 1); CHECKV(r == -1, "sem-overflow", v);
    r = sem_getvalue(&P.s, &v); CHECKV(r == 0 && v == SEM_VALUE_MAX, "sem-value", v);
    r = sem_trywait(&P.s); CHECK(r == 0, "sem-wait-result");
    r = sem_post(&P.s); CHECK(r == 0, "sem-post-result"); sim_probe("sem_at_max");
  }
  r = sem_destroy(&P.s); CHECKV(r == 0, "sem-destroy", errno);
}
/* handshake: the waiter may destroy the semaphore as soon as its wait returned */
static void *hand_poster(void *a) { int r = sem_post(&P.s); CHECKV(r == 0, "sem-post-result", errno); return 0; }
SCENARIO(sem_handshake)
{
  pthread_t t; int r;
  P.init = 0; CHECK(sem_init(&P.s, 0, 0) == 0, "sem-init");
  t = xcreate(hand_poster, 0);
  if (sim_choice(2)) { r = sem_wait(&P.s); CHECK(r == 0, "sem-wait-result"); }
  else do { struct timespec ts = in_ms(1); r = sem_timedwait(&P.s, &ts); } while (r);
  r = sem_destroy(&P.s); CHECKV(r == 0, "sem-destroy", errno);
  xjoin(t);
}
/* destroy refuses while somebody waits, and harms nobody */
SCENARIO(sem_destroy_busy)
{
  pthread_t t[4]; int n = 1 + sim_choice(3), r;
  CHECK(sem_init(&P.s, 0, 0) == 0, "sem-init");
  for (int i = 0; i < n; i++) t[i] = xcreate(sem_getter, (void *)1);
  sim_settle(1);
  if (P.refused < 0) return;
  r = sem_destroy(&P.s); CHECKV(r == -1 && errno == EBUSY, "sem-destroyed-in-use", r);
  q_post(n);
  for (int i = 0; i < n; i++) xjoin(t[i]);
  sem_final(0);
}
