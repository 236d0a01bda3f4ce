// Deterministic simulator for pthreads4w: a tiny Win32 kernel (threads, events,
// semaphores, waits, TLS, clock, heap) that loads the PE image built from /repo's
// sources and runs its threads as fibers of one process, one at a time, every
// switch, wake-up, delay and fault decided by one seed.
#include "host.h"
#include <sys/mman.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <sys/resource.h>
#include <signal.h>
#include <setjmp.h>
#include <stdarg.h>
#include <unistd.h>
#include <fcntl.h>
#include <time.h>
#include <errno.h>
#include "simmask.h"

// ------------------------------------------------------------------ PRNG
struct Rng {
  u64 s[4];
  static u64 sm(u64 &x) { u64 z = (x += 0x9e3779b97f4a7c15ull); z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9ull; z = (z ^ (z >> 27)) * 0x94d049bb133111ebull; return z ^ (z >> 31); }
  void seed(u64 x) { for (auto &v : s) v = sm(x); }
  u64 next() { auto rotl = [](u64 x, int k) { return (x << k) | (x >> (64 - k)); }; u64 r = rotl(s[1] * 5, 7) * 9, t = s[1] << 17; s[2] ^= s[0]; s[3] ^= s[1]; s[1] ^= s[2]; s[0] ^= s[3]; s[2] ^= t; s[3] = rotl(s[3], 45); return r; }
  u32 below(u32 n) { return n <= 1 ? 0 : (u32)(((next() >> 32) * (u64)n) >> 32); }
  bool chance(u32 num, u32 den) { return below(den) < num; }
};
static u64 hash2(u64 a, u64 b) { u64 x = a * 0x9e3779b97f4a7c15ull ^ b; return Rng::sm(x); }

// ------------------------------------------------------------------ decisions
enum Kind : u8 { K_SCHED, K_TIME, K_CFG, K_WORK, K_FAULT, K_WAKE, K_LATE, K_NKINDS };
static const char *kind_names[] = {"sched", "time", "cfg", "work", "fault", "wake", "late"};
struct Dec { u8 kind; u16 tid; u64 ord; u32 val; };
static inline u64 dkey(u8 kind, u16 tid, u64 ord) { return ((u64)kind << 60) | ((u64)tid << 48) | (ord & 0xffffffffffffull); }

// ------------------------------------------------------------------ objects
enum { T_NONE, T_EVENT, T_SEM, T_THREAD, T_MUTEX, T_PROC };
struct Thread;
struct Obj { int type; bool manual; bool sig; long count, max; Thread *th; Thread *owner; int depth; int id; u64 pc; int nh; };
static u64 proc_mask[2];  // affinity of the own process and of process 78; 0: the whole system
enum TState { RUN, BLOCK, DEAD, UNBORN };
struct Thread {
  int id; TState st; int suspend; void *sp; char *lo, *hi;
  u64 fn, arg; bool is_scen; u32 exitcode;
  u64 tls[64]; u32 lasterr; int err;
  Obj *wo[64]; int nw; bool wall; u64 deadline; int wres; u64 wseq; int wkind; // 0 none 1 objs 2 sleep 3 ge 4 settle
  volatile int *ge_p; int ge_v; int settle_timers;
  u64 lstep, next_preempt; int prio; u64 redirect; bool terminated, unloading;
  Obj *obj; int w32prio; u64 affinity; u32 stack_arg; u64 pc; u64 ord[K_NKINDS]; u64 ford[16]; int nfaults; u64 since; bool has_crit;
  u64 wait_since;
};
#define MAXT 64
static const u64 STK_BASE = 0x210000000ull, STK_SIZE = 0x40000ull, STK_STRIDE = 0x50000ull;
static const u64 NODL = ~0ull;
static Thread T[MAXT]; static int nT; static Thread *cur;
struct HEnt { Obj *o; bool open; bool ever; u64 close_pc; int close_tid; };
static HEnt H[1 << 18]; static int nH; static std::vector<int> hfree;
static Obj objs[1 << 18]; static int nObj;

// ------------------------------------------------------------------ run state
extern "C" void swap_ctx(void **save, void *to);
extern "C" void guest_longjmp_raw(void *buf, int v);
extern "C" void fiber_tramp();
extern "C" void guest_setjmp();
extern "C" [[noreturn]] void guest_jump_here(u64 rip);

u64 g_image_base, g_image_size;
static volatile i64 *g_countdown; static i64 cd_loaded;
static u64 steps, tbase, tick; static i64 wall_off; static u64 rhash, ahash; static u64 shash; static u64 evseq; static u64 wseq_ctr;
static u64 WALL0; // FILETIME at simulated time 0
static bool replaying; static std::unordered_map<u64, u32> rmap; static std::vector<u64> rsched[MAXT];
static std::vector<Dec> trace; static Rng rng_s, rng_c;
static int strat; static u32 p_hook_den, p_api_num, p_api_den; static std::vector<u64> pct_points; static size_t pct_i; static u32 leap_den; static int prio_low;
static bool fair; static u64 budget_rand, budget_total; static u32 quantum;
static u32 fault_mask_scen, fault_mask_run; static u32 fault_den; static int faults_left; static int nfaults_fired;
static int ncpu; static bool heap_lifo, handle_lifo, allow_handles, allow_deadlock; static int late_units;
static void *host_sp; static sigjmp_buf host_jmp; static bool in_run; static volatile bool guest_mem;
static std::string v_class, v_detail; static bool violated; static bool errored; static std::string err_detail;
static bool verbose; static FILE *vlog;
static u64 nswitch; static u64 run_nT;
// cumulative stats
static u64 st_fault[16]; static const char *fault_names[] = {"malloc", "CreateEvent", "CreateSemaphore", "CreateThread", "TlsAlloc", "DuplicateHandle", "affinity", "priority", "OpenProcess", "clock_jump", "late_timer", "stall"};
static u64 st_steps, st_switch, st_leaps, st_timeouts, st_term, st_redirect, st_suspend; static double st_simtime;
static std::map<std::string, u64> probes; static std::unordered_set<u64> pairs;

static void mix(u64 v) { rhash = (rhash ^ v) * 0x100000001b3ull; rhash ^= rhash >> 29; }
static u64 rpc(void *p) { return (u64)p - g_image_base; }
#define CALLER rpc(__builtin_return_address(0))
static u64 now() { return tbase + steps * tick; }

static void sync_steps() { i64 c = *g_countdown; u64 used = (u64)(cd_loaded - c); steps += used; if (cur) { cur->lstep += used; cur->since += used; } cd_loaded = c; }
static void set_countdown() {
  u64 n = 1 << 20;
  if (cur->next_preempt > cur->lstep) n = std::min(n, cur->next_preempt - cur->lstep - 1); else if (cur->next_preempt == cur->lstep) {}
  u64 q = fair ? 300 : quantum; n = std::min(n, cur->since < q ? q - cur->since : 0);
  if (!fair && steps < budget_rand) n = std::min(n, budget_rand - steps);
  *g_countdown = (i64)n; cd_loaded = (i64)n;
}
static void vl(const char *fmt, ...) { if (!verbose) return; va_list ap; va_start(ap, fmt); fprintf(vlog, "[%8llu t%02d t=%llu.%04llums] ", (unsigned long long)steps, cur ? cur->id : -1, (unsigned long long)(now() / 10000), (unsigned long long)(now() % 10000)); vfprintf(vlog, fmt, ap); fputc('\n', vlog); va_end(ap); }

[[noreturn]] static void end_run() { sync_steps(); void *dummy; swap_ctx(&dummy, host_sp); abort(); }
void end_run_violation(const char *cls, const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  sync_steps(); if (!violated) { violated = true; v_class = cls; v_detail = b; if (cur) { char e[96]; snprintf(e, sizeof e, " [thread %d, step %llu]", cur->id, (unsigned long long)steps); v_detail += e; } vl("VIOLATION %s: %s", cls, b); }
  end_run();
}
[[noreturn]] static void end_run_error(const char *fmt, ...) {
  char b[1024]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap);
  errored = true; err_detail = b; end_run();
}

// ------------------------------------------------------------------ choices
static u32 choose_at(u8 kind, int tid, u64 ord, u32 n, u32 recval) {
  u32 v;
  if (replaying) { auto it = rmap.find(dkey(kind, tid, ord)); v = it == rmap.end() ? 0 : it->second; if (n && v >= n) v = n - 1; }
  else { v = recval; if (v) trace.push_back({kind, (u16)tid, ord, v}); }
  if (v) { mix(dkey(kind, tid, ord)); mix(v); }
  return v;
}
static u32 choose(u8 kind, u32 n) { u64 o = cur ? cur->ord[kind]++ : 0; return choose_at(kind, cur ? cur->id : MAXT - 1, o, n, replaying ? 0 : rng_c.below(n)); }
static u64 cfg_ord;
static u32 choose_cfg(u32 n) { u64 o = cfg_ord++; return choose_at(K_CFG, 0, o, n, replaying ? 0 : rng_c.below(n)); }
static bool fault(int bit) {
  u32 m = 1u << bit;
  if (!(fault_mask_scen & m)) return false;
  u64 o = (u64)bit << 32 | cur->ford[bit]++;
  u32 want = 0;
  if (!replaying) { if (!fair && (fault_mask_run & m) && faults_left != 0 && rng_c.below(fault_den) == 0) want = 1; }
  if (!choose_at(K_FAULT, cur->id, o, 2, want)) return false;
  if (faults_left > 0) faults_left--;
  nfaults_fired++; cur->nfaults++; st_fault[bit]++; vl("FAULT %s", fault_names[bit]);
  return true;
}

// ------------------------------------------------------------------ waiting
static bool sat1(Obj *o, Thread *t) { switch (o->type) { case T_EVENT: case T_THREAD: case T_PROC: return o->sig; case T_SEM: return o->count > 0; case T_MUTEX: return !o->owner || o->owner == t; } return false; }
static void take1(Obj *o, Thread *t) { switch (o->type) { case T_EVENT: if (!o->manual) o->sig = false; break; case T_SEM: o->count--; break; case T_MUTEX: o->owner = t; o->depth++; break; } }
static int try_wait(Thread *t) {
  if (t->wall) { for (int i = 0; i < t->nw; i++) if (!sat1(t->wo[i], t)) return -1; for (int i = 0; i < t->nw; i++) take1(t->wo[i], t); return 0; }
  for (int i = 0; i < t->nw; i++) if (sat1(t->wo[i], t)) { take1(t->wo[i], t); return i; }
  return -1;
}
static void make_run(Thread *t, int res) { t->st = RUN; t->wres = res; t->wkind = 0; t->deadline = NODL; ahash += hash2(t->id * 131 + res, t->lstep); }
static bool waits_on(Thread *t, Obj *o) { if (t->st != BLOCK || t->wkind != 1 || t->suspend) return false; for (int i = 0; i < t->nw; i++) if (t->wo[i] == o) return true; return false; }
static void signal_obj(Obj *o) {
  for (;;) {
    Thread *c[MAXT]; int n = 0;
    for (int i = 0; i < nT; i++) if (waits_on(&T[i], o)) { Thread *t = &T[i]; bool ok; if (t->wall) { ok = true; for (int k = 0; k < t->nw; k++) if (!sat1(t->wo[k], t)) ok = false; } else ok = sat1(o, t); if (ok) c[n++] = t; }
    if (!n) return;
    std::sort(c, c + n, [](Thread *a, Thread *b) { return a->wseq < b->wseq; });
    bool all = o->type == T_THREAD || (o->type == T_EVENT && o->manual);
    int k = 0; if (!all && n > 1) k = (int)choose(K_WAKE, n);
    if (k >= n) k = n - 1;
    int r = try_wait(c[k]); if (r < 0) return; make_run(c[k], r);
  }
}
static void fire_timers() {
  u64 t = now();
  for (;;) {
    Thread *b = nullptr;
    for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].deadline <= t && (!b || T[i].deadline < b->deadline)) b = &T[i];
    if (!b) break;
    st_timeouts++; make_run(b, b->wkind == 1 ? 0x102 : 0);
  }
}
static u64 earliest() { u64 e = NODL; for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].deadline < e) e = T[i].deadline; return e; }
static void poll_ge() { for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].wkind == 3 && *T[i].ge_p >= T[i].ge_v) make_run(&T[i], 0); }
static int runnable(Thread **r) { int n = 0; for (int i = 0; i < nT; i++) if (T[i].st == RUN && !T[i].suspend) r[n++] = &T[i]; return n; }

static std::string describe() {
  std::string s; char b[256];
  for (int i = 0; i < nT; i++) {
    Thread &t = T[i]; if (t.st == DEAD) continue;
    snprintf(b, sizeof b, " t%d:", i); s += b;
    if (t.suspend) { snprintf(b, sizeof b, "suspended(%d) ", t.suspend); s += b; }
    if (t.st == RUN) { snprintf(b, sizeof b, "ready@%llx", (unsigned long long)t.pc); s += b; }
    else if (t.wkind == 1) { s += "waits"; static const char *tn[] = {"?", "event", "sem", "thread", "mutex", "proc"}; for (int k = 0; k < t.nw; k++) { snprintf(b, sizeof b, " %s#%d(made@%llx)", tn[t.wo[k]->type], t.wo[k]->id, (unsigned long long)t.wo[k]->pc); s += b; } snprintf(b, sizeof b, " @%llx", (unsigned long long)t.pc); s += b; }
    else if (t.wkind == 3) { snprintf(b, sizeof b, "wait_ge@%llx", (unsigned long long)t.pc); s += b; }
    else if (t.wkind == 4) s += "settle";
    else s += "sleep";
    s += ";";
  }
  return s;
}

// ------------------------------------------------------------------ scheduling
static void next_hook_preempt(Thread *t) {
  if (replaying) { auto &v = rsched[t->id]; auto it = std::upper_bound(v.begin(), v.end(), t->lstep); t->next_preempt = it == v.end() ? NODL : *it; return; }
  if (fair) { t->next_preempt = NODL; return; }
  switch (strat) {
    case 0: t->next_preempt = NODL; break;
    case 1: case 3: { u64 g = 1; if (p_hook_den > 1) { // geometric
        u32 u = rng_s.below(1 << 24); double x = (u + 1) / (double)((1 << 24) + 1); double gg = __builtin_log(x) / __builtin_log(1.0 - 1.0 / p_hook_den); g = 1 + (u64)gg; }
      t->next_preempt = t->lstep + g; break; }
    case 2: t->next_preempt = pct_i < pct_points.size() ? t->lstep + (pct_points[pct_i] > steps ? pct_points[pct_i] - steps : 1) : NODL; break;
  }
}
static void switch_to(Thread *n) {
  Thread *o = cur; if (n == o) return;
  nswitch++; n->since = 0; mix(((u64)o->id << 32 | n->id) ^ (o->lstep << 40)); shash = (shash ^ (o->pc * 64 + n->id)) * 0x100000001b3ull; shash ^= shash >> 31;
  if (o->st != DEAD) pairs.insert(o->pc << 24 ^ n->pc);
  cur = n; vl("switch t%d@%llx -> t%d", o->id, (unsigned long long)o->pc, n->id);
  swap_ctx(&o->sp, n->sp);
  // resumed
}
// Called by the running thread. must: it cannot / should not continue.
static void reschedule(bool must, bool yield, bool at_hook) {
  Thread *me = cur;
  for (;;) {
    if (steps >= budget_total) end_run_violation("livelock", "no progress within %llu steps (%llu of them fair and fault-free);%s", (unsigned long long)budget_total, (unsigned long long)(budget_total - budget_rand), describe().c_str());
    if (!fair && steps >= budget_rand) { fair = true; vl("fair phase"); }
    poll_ge(); fire_timers();
    bool can = me->st == RUN && !me->suspend;
    Thread *r[MAXT]; int n = runnable(r);
    if (n == 0) {
      u64 e = earliest();
      // quiescence waiter?
      Thread *s = nullptr; for (int i = 0; i < nT; i++) if (T[i].st == BLOCK && T[i].wkind == 4 && (!T[i].settle_timers || e == NODL)) { s = &T[i]; break; }
      if (s) { make_run(s, 0); continue; }
      if (e != NODL) { if (e > now()) tbase += e - now(); continue; }
      bool alive = false; for (int i = 0; i < nT; i++) if (T[i].st != DEAD) alive = true;
      if (!alive) end_run();
      end_run_violation("deadlock", "no thread can ever run again:%s", describe().c_str());
    }
    // default
    Thread *oth[MAXT]; int no = 0; for (int i = 0; i < n; i++) if (r[i] != me) oth[no++] = r[i];
    Thread *rr = nullptr; for (int k = 1; k <= nT && !rr; k++) { Thread *t = &T[(me->id + k) % nT]; if (t != me && t->st == RUN && !t->suspend) rr = t; }
    u64 q = fair ? 300 : quantum; bool guard = can && me->since >= q && no > 0;
    if (guard) { me->since = 0; must = true; }
    if (yield && no > 0) must = true;
    Thread *def = (!can || must) ? (rr ? rr : me) : me;
    if (guard && !replaying) { me->prio = --prio_low; }
    Thread *pick = def;
    if (no > 0 && !fair) {
      if (replaying) {
        auto it = rmap.find(dkey(K_SCHED, me->id, me->lstep));
        if (it != rmap.end()) { int w = (int)it->second - 1; if (w >= 0 && w < nT && T[w].st == RUN && !T[w].suspend) pick = &T[w]; }
      } else {
        switch (strat) {
          case 0: if (!can || must) pick = oth[rng_s.below(no)]; else if (!at_hook && rng_s.below(p_api_den) < p_api_num) pick = oth[rng_s.below(no)]; break;
          case 1: if (!can || must) pick = oth[rng_s.below(no)]; else if (at_hook) pick = me->lstep >= me->next_preempt ? oth[rng_s.below(no)] : me; else if (rng_s.below(p_api_den) < p_api_num) pick = oth[rng_s.below(no)]; break;
          case 3: if (!can || must) pick = def; else if (at_hook) pick = me->lstep >= me->next_preempt ? oth[rng_s.below(no)] : me; break;
          case 2: {
            if (pct_i < pct_points.size() && steps >= pct_points[pct_i]) { me->prio = --prio_low; pct_i++; }
            if (yield) me->prio = --prio_low;
            pick = r[0]; for (int i = 1; i < n; i++) if (r[i]->prio > pick->prio) pick = r[i];
            break; }
        }
        if (pick != def) trace.push_back({K_SCHED, (u16)me->id, me->lstep, (u32)pick->id + 1});
      }
    }
    if (pick != me) { switch_to(pick); if (me->st != RUN) abort(); me = cur; }
    break;
  }
  next_hook_preempt(cur); set_countdown();
}
static void reap();
static void after_switch_in() { reap(); if (cur->redirect) { u64 r = cur->redirect; cur->redirect = 0; st_redirect++; vl("redirected to %llx", (unsigned long long)(r - g_image_base)); guest_jump_here(r); } }
static void time_leap() {
  if (fair) return;
  u64 e = earliest(); if (e == NODL) return;
  u32 want = 0; if (!replaying && leap_den && rng_s.below(leap_den) == 0) want = 1 + rng_s.below(4);
  u32 v = choose_at(K_TIME, cur->id, cur->lstep, 5, want); if (!v) return;
  st_leaps++; u64 n = now(); u64 to = e;
  if (v == 2) to = e > n + 200 ? e - 200 : e; else if (v == 3) to = e + 50000; else if (v == 4) to = n + (e > n ? (e - n) / 2 : 0);
  if (to > n) { tbase += to - n; vl("time leap"); }
}
static void clock_fault();
// a scheduling point at an API boundary
static void point(u64 pc, bool yield = false) {
  sync_steps(); steps++; cur->lstep++; cur->since++; cur->pc = pc; mix(pc ^ (u64)cur->id << 50);
  time_leap(); if (fault_mask_scen & F_CLOCK) clock_fault();
  reschedule(false, yield, false);
  after_switch_in();
}
static void block(u64 pc) {
  sync_steps(); steps++; cur->lstep++; cur->st = BLOCK; cur->pc = pc; cur->wseq = ++wseq_ctr; cur->wait_since = now(); mix(pc * 3);
  reschedule(true, false, false);
  after_switch_in();
}
static u64 W h_sim_hook_slow(u64 pc, u64 rsp) {
  (void)rsp; sync_steps(); cur->pc = pc - g_image_base;
  if (replaying) reschedule(false, false, true); else reschedule(false, false, true);
  if (cur->redirect) { u64 r = cur->redirect; cur->redirect = 0; st_redirect++; vl("redirected at hook to %llx", (unsigned long long)(r - g_image_base)); return r; }
  return 0;
}
EXPORT(sim_hook_slow);

static Obj *new_obj(int type, u64 pc) { if (nObj >= (1 << 18) - 1) end_run_error("too many objects"); Obj *o = &objs[nObj]; *o = Obj(); o->type = type; o->id = nObj++; o->pc = pc; return o; }
static u64 new_handle(Obj *o) {
  int i;
  if (handle_lifo && !hfree.empty()) { i = hfree.back(); hfree.pop_back(); } else { i = ++nH; if (nH >= (1 << 18) - 1) end_run_error("too many handles"); }
  H[i] = {o, true, true, 0, 0}; o->nh++; return (u64)i * 4 + 0x40;
}
static int hidx(u64 h) { if (h < 0x44 || (h & 3)) return -1; u64 i = (h - 0x40) / 4; return i <= (u64)nH ? (int)i : -1; }
static Obj *deref(u64 h, const char *api, u64 pc) {
  if (h == (u64)-2) return cur->obj;
  if (h == (u64)-1) { static Obj self; self.type = T_PROC; return &self; }
  int i = hidx(h);
  if (i > 0 && H[i].open) return H[i].o;
  if (i > 0 && !allow_handles) end_run_violation("stale-handle", "%s(%llx) at %llx: handle was closed by t%d at %llx", api, (unsigned long long)h, (unsigned long long)pc, H[i].close_tid, (unsigned long long)H[i].close_pc);
  cur->lasterr = 6; return nullptr;
}

// ------------------------------------------------------------------ threads
static u64 guest_call1(u64 fn, u64 a) { return ((u64(__attribute__((ms_abi)) *)(u64))fn)(a); }
static void thread_dead(Thread *t, u32 code) {
  t->st = DEAD; t->exitcode = code; t->obj->sig = true;
  for (int i = 0; i < nObj; i++) if (objs[i].type == T_MUTEX && objs[i].owner == t) { objs[i].owner = nullptr; objs[i].depth = 0; signal_obj(&objs[i]); }
  signal_obj(t->obj);
}
static void mark_dead(Thread *t);
static u64 g_main_fn; static u64 g_dll_notify;
static void dll_notify(u64 why) { if (g_dll_notify && cur->id && !cur->unloading) { if (why == 3) cur->unloading = true; guest_call1(g_dll_notify, why); } }
extern "C" void fiber_main() {
  Thread *t = cur; after_switch_in();
  next_hook_preempt(t); set_countdown();
  dll_notify(2);
  u64 r = guest_call1(t->fn, t->arg);
  dll_notify(3);
  sync_steps(); steps++; cur->lstep++;
  if (t->id == 0) end_run();
  thread_dead(cur, (u32)r); mark_dead(cur); vl("thread returns");
  reschedule(true, false, false); abort();
}
static Thread *new_thread(u64 fn, u64 arg, u64 pc, bool suspended) {
  if (nT >= MAXT - 2) end_run_error("too many threads");
  Thread *t = &T[nT]; memset((void *)t, 0, sizeof *t); t->id = nT++; t->st = RUN; t->suspend = suspended ? 1 : 0;
  t->lo = (char *)(STK_BASE + t->id * STK_STRIDE + (STK_STRIDE - STK_SIZE)); t->hi = t->lo + STK_SIZE; t->fn = fn; t->arg = arg; t->deadline = NODL; t->pc = pc;
  t->affinity = proc_mask[0] ? proc_mask[0] : ~0ull; t->obj = new_obj(T_THREAD, pc); t->obj->th = t;
  t->prio = replaying ? 0 : (int)rng_s.below(1 << 20);
  void **sp = (void **)(t->hi - 256); *--sp = (void *)fiber_tramp; for (int i = 0; i < 6; i++) *--sp = nullptr; t->sp = sp;
  return t;
}

// ------------------------------------------------------------------ heap
static const u64 HEAP_BASE = 0x300000000ull; static const u64 NSLOT = 4096; static const u64 BIG_BASE = 0x400000000ull, BIG_SIZE = 0x40000000ull;
struct Blk { u64 addr, size; bool live; bool frozen; u64 pc, free_pc; };
static Blk slots[NSLOT]; static u32 nslot; static std::vector<u32> slot_free; static std::map<u64, Blk> big; static u64 big_top; static long live_blocks;
static u64 slot_page(u32 i) { return HEAP_BASE + (u64)i * 8192; }
static void heap_init() {
  void *p = mmap((void *)HEAP_BASE, NSLOT * 8192, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void *)HEAP_BASE) { perror("heap"); exit(4); }
  for (u32 i = 0; i < NSLOT; i++) mprotect((void *)slot_page(i), 4096, PROT_READ | PROT_WRITE);
  p = mmap((void *)BIG_BASE, BIG_SIZE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void *)BIG_BASE) { perror("big"); exit(4); }
}
static u64 heap_alloc(u64 size, bool zero, u64 pc) {
  u64 r = (size + 15) & ~15ull; if (!r) r = 16;
  if (r > 4096) {
    u64 pg = (r + 4095) & ~4095ull; if (big_top + pg + 4096 > BIG_BASE + BIG_SIZE || size > (1u << 28)) { cur->err = 12; return 0; }
    u64 a = big_top; big_top += pg + 4096; mprotect((void *)a, pg, PROT_READ | PROT_WRITE); u64 p = a + pg - r; if (!zero) memset((void *)p, 0xA5, r); big[p] = {p, size, true, false, pc, 0}; live_blocks++; return p;
  }
  u32 i; if (heap_lifo && !slot_free.empty()) { i = slot_free.back(); slot_free.pop_back(); } else { if (nslot >= NSLOT) end_run_error("heap exhausted"); i = nslot++; }
  u64 pg = slot_page(i), p = pg + 4096 - r; memset((void *)pg, 0xA5, 4096 - r); memset((void *)p, zero ? 0 : 0xA5, size); if (r > size) memset((void *)(p + size), 0xCD, r - size);
  slots[i] = {p, size, true, false, pc, 0}; live_blocks++; return p;
}
static bool tail_ok(Blk &b) { u64 r = (b.size + 15) & ~15ull; if (!r) r = 16; for (u64 k = b.size; k < r; k++) if (*(u8 *)(b.addr + k) != 0xCD) return false; u64 pg = b.addr & ~4095ull; for (u64 k = b.addr >= pg + 32 ? b.addr - 32 : pg; k < b.addr; k++) if (*(u8 *)k != 0xA5) return false; return true; }
static Blk *find_blk(u64 p) { if (p >= HEAP_BASE && p < HEAP_BASE + NSLOT * 8192) { u32 i = (p - HEAP_BASE) / 8192; return i < nslot && slots[i].addr == p ? &slots[i] : nullptr; } auto it = big.find(p); return it == big.end() ? nullptr : &it->second; }
static void heap_free(u64 p, u64 pc) {
  if (!p) return;
  Blk *b = find_blk(p);
  if (!b) end_run_violation("bad-free", "free(%llx) at %llx: not a heap block", (unsigned long long)p, (unsigned long long)pc);
  if (!b->live) end_run_violation("double-free", "free(%llx) at %llx: already freed at %llx", (unsigned long long)p, (unsigned long long)pc, (unsigned long long)b->free_pc);
  b->live = false; b->free_pc = pc; live_blocks--;
  if (p >= BIG_BASE) { u64 a = p & ~4095ull; mprotect((void *)a, ((b->size + 15 + (p - a)) + 4095) & ~4095ull, PROT_NONE); return; }
  if (!tail_ok(*b)) end_run_violation("heap-overflow", "block %llx size %llu allocated at %llx overwritten out of bounds", (unsigned long long)p, (unsigned long long)b->size, (unsigned long long)b->pc);
  u32 i = (p - HEAP_BASE) / 8192; if (heap_lifo) { memset((void *)p, 0xDD, b->size); slot_free.push_back(i); } else { mprotect((void *)slot_page(i), 4096, PROT_NONE); b->frozen = true; }
}
static void heap_reset() {
  for (u32 i = 0; i < nslot; i++) if (slots[i].frozen) mprotect((void *)slot_page(i), 4096, PROT_READ | PROT_WRITE);
  nslot = 0; slot_free.clear(); live_blocks = 0;
  if (!big.empty() || big_top != BIG_BASE) { mprotect((void *)BIG_BASE, big_top - BIG_BASE + 4096, PROT_NONE); madvise((void *)BIG_BASE, big_top - BIG_BASE + 4096, MADV_DONTNEED); }
  big.clear(); big_top = BIG_BASE;
}

#include "win32.inc"

// ------------------------------------------------------------------ import table
static std::map<std::string, void *> &exports() { static std::map<std::string, void *> m; return m; }
Reg::Reg(const char *n, void *f) { exports()[n] = f; }
void *find_host_fn(const char *n) { auto it = exports().find(n); return it == exports().end() ? nullptr : it->second; }

// ------------------------------------------------------------------ PE loader
struct Snap { u64 addr, size; std::vector<u8> data; }; static std::vector<Snap> snaps;
static std::map<std::string, u64> pe_exports; static std::vector<std::string> unimpl;
static void W h_unimpl(u64 idx) { end_run_error("unimplemented import called: %s", unimpl[idx].c_str()); }
static void load_pe(const char *path) {
  FILE *f = fopen(path, "rb"); if (!f) { perror(path); exit(4); }
  std::vector<u8> b; u8 buf[65536]; size_t n; while ((n = fread(buf, 1, sizeof buf, f)) > 0) b.insert(b.end(), buf, buf + n); fclose(f);
  u32 pe = *(u32 *)&b[0x3c]; u16 nsec = *(u16 *)&b[pe + 6], optsz = *(u16 *)&b[pe + 20]; u8 *opt = &b[pe + 24];
  g_image_base = *(u64 *)(opt + 24); g_image_size = *(u32 *)(opt + 56); u32 hdr = *(u32 *)(opt + 60);
  void *p = mmap((void *)g_image_base, g_image_size, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE, -1, 0); if (p != (void *)g_image_base) { perror("map image"); exit(4); }
  memcpy(p, &b[0], hdr); u8 *sec = opt + optsz;
  for (int i = 0; i < nsec; i++, sec += 40) { u32 vs = *(u32 *)(sec + 8), va = *(u32 *)(sec + 12), rs = *(u32 *)(sec + 16), rp = *(u32 *)(sec + 20), ch = *(u32 *)(sec + 36); if (rp) memcpy((u8 *)p + va, &b[rp], std::min(rs, vs ? vs : rs)); if (ch & 0x80000000u) snaps.push_back({g_image_base + va, vs, {}}); }
  u8 *base = (u8 *)p; u32 nstub = 0; u8 *stubs = (u8 *)mmap(nullptr, 65536, PROT_READ | PROT_WRITE | PROT_EXEC, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  u32 imp = *(u32 *)(opt + 112 + 8); if (imp) for (u8 *d = base + imp; *(u32 *)(d + 12); d += 20) {
    u32 ilt = *(u32 *)d, iat = *(u32 *)(d + 16); if (!ilt) ilt = iat;
    for (u64 *a = (u64 *)(base + ilt), *t = (u64 *)(base + iat); *a; a++, t++) {
      const char *nm = (const char *)(base + *a + 2); void *fn = find_host_fn(nm);
      if (!fn) { u8 *s = stubs + nstub++ * 32; s[0] = 0x48; s[1] = 0xc7; s[2] = 0xc1; *(u32 *)(s + 3) = unimpl.size(); s[7] = 0x48; s[8] = 0xb8; *(u64 *)(s + 9) = (u64)h_unimpl; s[17] = 0xff; s[18] = 0xe0; unimpl.push_back(nm); fn = s; }
      *t = (u64)fn;
    }
  }
  u32 ex = *(u32 *)(opt + 112); if (ex) { u8 *e = base + ex; u32 nn = *(u32 *)(e + 24); u32 *fa = (u32 *)(base + *(u32 *)(e + 28)), *na = (u32 *)(base + *(u32 *)(e + 32)); u16 *oa = (u16 *)(base + *(u32 *)(e + 36)); for (u32 i = 0; i < nn; i++) pe_exports[(char *)(base + na[i])] = g_image_base + fa[oa[i]]; }
  for (auto &s : snaps) s.data.assign((u8 *)s.addr, (u8 *)s.addr + s.size);
  if (!pe_exports.count("ptw_countdown") || !pe_exports.count("sim_guest_main") || !pe_exports.count("sim_scens")) { fprintf(stderr, "image lacks simulator exports\n"); exit(4); }
  g_countdown = (volatile i64 *)pe_exports["ptw_countdown"]; g_main_fn = pe_exports["sim_guest_main"]; { auto dn = pe_exports.find("sim_dll_notify"); g_dll_notify = dn == pe_exports.end() ? 0 : dn->second; }
}
struct ScenEnt { u64 name, fn; };
static int find_scen(const char *n) { ScenEnt *e = (ScenEnt *)pe_exports["sim_scens"]; for (int i = 0; e[i].name; i++) if (!strcmp((char *)e[i].name, n)) return i; return -1; }

// ------------------------------------------------------------------ one run
static void on_sig(int sig, siginfo_t *si, void *uc_) {
  ucontext_t *uc = (ucontext_t *)uc_; u64 rip = uc->uc_mcontext.gregs[REG_RIP], a = (u64)si->si_addr;
  if (!in_run) { signal(sig, SIG_DFL); raise(sig); return; }
  bool guest = rip >= g_image_base && rip < g_image_base + g_image_size; bool low = rip < 0x10000;
  char b[512];
  const char *what = "invalid memory access";
  if (a >= HEAP_BASE && a < HEAP_BASE + NSLOT * 8192) { u32 i = (a - HEAP_BASE) / 8192; what = i < nslot && !slots[i].live ? "use of freed heap block" : "heap overflow"; }
  else if (a >= STK_BASE && a < STK_BASE + MAXT * STK_STRIDE) what = "stack overflow or bad stack pointer"; else if (a < 0x10000) what = "null pointer dereference";
  if (sig == SIGVTALRM) {
    if (!guest) { static int n; if (++n < 3) return; }
    snprintf(b, sizeof b, "thread %d spins without touching memory at pc %llx", cur->id, (unsigned long long)(rip - g_image_base));
    violated = true; v_class = "hang"; v_detail = b; siglongjmp(host_jmp, 1);
  }
  if (guest || guest_mem || low) {
    if (!guest && !low) rip = cur->pc + g_image_base;
    snprintf(b, sizeof b, "%s: signal %d address %llx pc %llx [thread %d, step %llu]", what, sig, (unsigned long long)a, (unsigned long long)(rip - g_image_base), cur ? cur->id : -1, (unsigned long long)steps);
    violated = true; v_class = sig == SIGSEGV || sig == SIGBUS ? "bad-access" : sig == SIGILL ? "trap" : "fpe"; v_detail = b; vl("VIOLATION %s", b); siglongjmp(host_jmp, 1);
  }
  snprintf(b, sizeof b, "host crashed: signal %d address %llx rip %llx near sim_hook %p", sig, (unsigned long long)a, (unsigned long long)rip, (void *)h_sim_hook_slow);
  errored = true; err_detail = b; siglongjmp(host_jmp, 1);
}
struct RunResult { bool violated, errored; std::string cls, detail; u64 hash, shash, steps, nswitch; double simtime; int nt; int nfaults; };
static bool first_run = true; static u64 stk_used = 0;
static RunResult run_one(int scen, u64 seed, const std::vector<Dec> *rep) {
  // reset
  for (auto &s : snaps) memcpy((void *)s.addr, s.data.data(), s.size);
  heap_reset();
  if (nT) madvise((void *)STK_BASE, nT * STK_STRIDE, MADV_DONTNEED);
  for (int i = 0; i < nT; i++) if (T[i].st == DEAD) mprotect(T[i].lo, STK_SIZE, PROT_READ | PROT_WRITE);
  nT = 0; cur = nullptr; nH = 0; hfree.clear(); nObj = 0; *g_countdown = 0; cd_loaded = 0;
  steps = 0; tbase = 0; ahash = 0; wall_off = 0; rhash = 0xcbf29ce484222325ull; shash = 0x84222325; evseq = 0; wseq_ctr = 0; cfg_ord = 0; trace.clear(); nswitch = 0; nfaults_fired = 0;
  fair = false; fault_mask_scen = 0; allow_handles = allow_deadlock = false; violated = errored = false; v_class.clear(); v_detail.clear(); guest_mem = false; prio_low = -1;
  win32_reset();
  replaying = rep != nullptr; rmap.clear(); for (auto &v : rsched) v.clear();
  if (rep) { for (auto &d : *rep) { rmap[dkey(d.kind, d.tid, d.ord)] = d.val; if (d.kind == K_SCHED) rsched[d.tid].push_back(d.ord); } for (auto &v : rsched) std::sort(v.begin(), v.end()); }
  rng_s.seed(hash2(seed, 1)); rng_c.seed(hash2(seed, 2));
  // swarm configuration of the run; only what changes semantics is a recorded decision
  static const u64 ticks[] = {10, 1, 100, 1000}; tick = ticks[choose_cfg(4)];
  heap_lifo = choose_cfg(3) == 2; handle_lifo = choose_cfg(3) == 2; static const int cpus[] = {2, 1, 4}; ncpu = cpus[choose_cfg(3)]; proc_mask[0] = proc_mask[1] = 0;
  static const u32 qs[] = {5000, 1500, 20000}; quantum = qs[choose_cfg(3)];
  strat = 0; p_api_num = 1; p_api_den = 4; p_hook_den = 10; leap_den = 0; pct_points.clear(); pct_i = 0; fault_mask_run = 0; fault_den = 8; faults_left = -1;
  if (!rep) {
    u32 x = rng_s.below(20); strat = x < 2 ? 0 : x < 10 ? 1 : x < 17 ? 2 : 3;
    static const u32 hd[] = {3, 8, 20, 50, 120, 400}; p_hook_den = hd[rng_s.below(6)];
    static const u32 ad[] = {2, 4, 10, 40}; p_api_den = ad[rng_s.below(4)]; p_api_num = 1;
    if (strat == 2) { int d = 1 + rng_s.below(5); u32 L = 1u << (6 + rng_s.below(8)); for (int i = 0; i < d; i++) pct_points.push_back(1 + rng_s.below(L)); std::sort(pct_points.begin(), pct_points.end()); }
    static const u32 ld[] = {0, 100, 25, 8}; leap_den = ld[rng_s.below(4)];
    static const u32 fd[] = {2, 4, 8, 16, 40}; fault_den = fd[rng_c.below(5)]; static const int fl[] = {1, 1, 2, 3, -1}; faults_left = fl[rng_c.below(5)];
    fault_mask_run = 0; for (int i = 0; i < 12; i++) if (rng_c.below(3) == 0) fault_mask_run |= 1u << i; if (rng_c.below(4) == 0) fault_mask_run = 0xffff;
  }
  budget_rand = 150000; budget_total = 1500000;
  Thread *m = new_thread(g_main_fn, (u64)scen, 0, false); m->affinity = ~0ull; new_handle(m->obj); hfree.clear();
  H[1].open = false; H[1].ever = false; nH = 0; // main has no handle of its own
  cur = m;
  struct itimerval it = {{0, 0}, {5, 0}}; setitimer(ITIMER_VIRTUAL, &it, nullptr);
  if (sigsetjmp(host_jmp, 0) == 0) { in_run = true; swap_ctx(&host_sp, m->sp); }
  in_run = false;
  RunResult r; r.violated = violated; r.errored = errored; r.cls = v_class; r.detail = errored ? err_detail : v_detail; for (char c : r.cls) mix(c);
  r.hash = rhash ^ steps ^ ahash; r.shash = shash; r.steps = steps; r.nswitch = nswitch; r.simtime = now() / 1e7; r.nt = nT; r.nfaults = nfaults_fired;
  st_steps += steps; st_switch += nswitch; st_simtime += r.simtime; cur = nullptr; replaying = false;
  return r;
}

// ------------------------------------------------------------------ minimise
static std::vector<Dec> minimise(int scen, std::vector<Dec> t, const std::string &cls, u64 &tries, double limit_s) {
  auto t0 = time(nullptr); auto ok = [&](const std::vector<Dec> &c) { tries++; RunResult r = run_one(scen, 0, &c); return r.violated && r.cls == cls; };
  size_t n = 2;
  while (t.size() >= 1 && time(nullptr) - t0 < limit_s) {
    size_t chunk = (t.size() + n - 1) / n; bool red = false;
    for (size_t i = 0; i < t.size() && time(nullptr) - t0 < limit_s; i += chunk) {
      std::vector<Dec> c(t.begin(), t.begin() + i); if (i + chunk < t.size()) c.insert(c.end(), t.begin() + i + chunk, t.end());
      if (ok(c)) { t = c; n = std::max<size_t>(2, n - 1); red = true; break; }
    }
    if (!red) { if (chunk == 1) break; n = std::min(t.size(), n * 2); }
  }
  // smaller values
  for (size_t i = 0; i < t.size() && time(nullptr) - t0 < limit_s; i++) if (t[i].kind != K_SCHED && t[i].val > 1) { auto c = t; c[i].val = 1; if (ok(c)) t = c; }
  return t;
}

// ------------------------------------------------------------------ main
static std::string jesc(const std::string &s) { std::string o; for (char c : s) { if (c == '"' || c == '\\') { o += '\\'; o += c; } else if ((u8)c < 32) o += ' '; else o += c; } return o; }
static double wallclock() { struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); return ts.tv_sec + ts.tv_nsec * 1e-9; }
static void install() {
  stack_t ss; ss.ss_sp = malloc(1 << 18); ss.ss_size = 1 << 18; ss.ss_flags = 0; sigaltstack(&ss, nullptr);
  struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = on_sig; sa.sa_flags = SA_SIGINFO | SA_ONSTACK | SA_NODEFER; for (int s : {SIGSEGV, SIGBUS, SIGILL, SIGFPE, SIGTRAP, SIGVTALRM}) sigaction(s, &sa, nullptr);
  void *p = mmap((void *)STK_BASE, MAXT * STK_STRIDE, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_FIXED_NOREPLACE | MAP_NORESERVE, -1, 0); if (p != (void *)STK_BASE) { perror("stacks"); exit(4); }
  for (int i = 0; i < MAXT; i++) mprotect((void *)(STK_BASE + i * STK_STRIDE + (STK_STRIDE - STK_SIZE)), STK_SIZE, PROT_READ | PROT_WRITE);
  heap_init(); big_top = BIG_BASE;
}
static void write_replay(const char *path, const char *scen, u64 seed, const RunResult &r, const std::vector<Dec> &t, size_t orig) {
  FILE *f = fopen(path, "w"); if (!f) { perror(path); exit(4); }
  fprintf(f, "scenario %s\nseed %llu\nclass %s\nhash %016llx\ndetail %s\noriginal_decisions %zu\ndecisions %zu\n", scen, (unsigned long long)seed, r.cls.c_str(), (unsigned long long)r.hash, r.detail.c_str(), orig, t.size());
  for (auto &d : t) fprintf(f, "D %s %u %llu %u\n", kind_names[d.kind], d.tid, (unsigned long long)d.ord, d.val);
  fclose(f);
}
static bool read_replay(const char *path, std::string &scen, std::vector<Dec> &t, std::string &cls, u64 &hash) {
  FILE *f = fopen(path, "r"); if (!f) return false; char l[4096], k[64];
  while (fgets(l, sizeof l, f)) { if (sscanf(l, "scenario %63s", k) == 1) scen = k; else if (sscanf(l, "class %63s", k) == 1) cls = k; else if (!strncmp(l, "hash ", 5)) hash = strtoull(l + 5, nullptr, 16); else { Dec d; unsigned ti, v; unsigned long long o; if (sscanf(l, "D %63s %u %llu %u", k, &ti, &o, &v) == 4) { for (int i = 0; i < K_NKINDS; i++) if (!strcmp(k, kind_names[i])) d.kind = i; d.tid = ti; d.ord = o; d.val = v; t.push_back(d); } } }
  fclose(f); return true;
}
int main(int argc, char **argv) {
  std::string pe, scens, out, replay, known, hashes; u64 seed = 1, runs = 1000; double tmax = 1e9; int worker = 0, nworkers = 1; bool list = false, dumphash = false; u64 oneseed = 0; bool haveone = false; bool repeat2 = false;
  for (int i = 1; i < argc; i++) { std::string a = argv[i]; auto nx = [&]() { return std::string(argv[++i]); };
    if (a == "--pe") pe = nx(); else if (a == "--scen") scens = nx(); else if (a == "--seed") seed = strtoull(nx().c_str(), 0, 10); else if (a == "--runs") runs = strtoull(nx().c_str(), 0, 10); else if (a == "--time") tmax = atof(nx().c_str()); else if (a == "--out") out = nx(); else if (a == "--worker") worker = atoi(nx().c_str()); else if (a == "--nworkers") nworkers = atoi(nx().c_str()); else if (a == "--replay") replay = nx(); else if (a == "--known") known = nx(); else if (a == "-v") verbose = true; else if (a == "--list") list = true; else if (a == "--dumphash") dumphash = true; else if (a == "--one") { oneseed = strtoull(nx().c_str(), 0, 10); haveone = true; } else if (a == "--twice") repeat2 = true; else { fprintf(stderr, "bad arg %s\n", a.c_str()); return 4; } }
  vlog = stdout; setvbuf(stdout, nullptr, _IOLBF, 0);
  install(); load_pe(pe.c_str());
  if (list) { ScenEnt *e = (ScenEnt *)pe_exports["sim_scens"]; for (int i = 0; e[i].name; i++) puts((char *)e[i].name); for (auto &u : unimpl) printf("unimplemented-import %s\n", u.c_str()); return 0; }
  if (!replay.empty()) {
    std::string sc, cls; std::vector<Dec> t; u64 h = 0; if (!read_replay(replay.c_str(), sc, t, cls, h)) { perror(replay.c_str()); return 4; }
    int si = find_scen(sc.c_str()); if (si < 0) { fprintf(stderr, "no scenario %s\n", sc.c_str()); return 4; }
    RunResult r = run_one(si, 0, &t);
    if (r.errored) { printf("REPLAY error %s\n", r.detail.c_str()); return 4; }
    printf("REPLAY scenario=%s violated=%d class=%s hash=%016llx match=%d\ndetail %s\n", sc.c_str(), r.violated, r.cls.c_str(), (unsigned long long)r.hash, r.violated && r.cls == cls && r.hash == h, r.detail.c_str());
    return r.violated && r.cls == cls && r.hash == h ? 1 : 0;
  }
  std::vector<std::string> sn; std::vector<int> sl; { size_t p = 0; while (p < scens.size()) { size_t q = scens.find(',', p); if (q == std::string::npos) q = scens.size(); sn.push_back(scens.substr(p, q - p)); p = q + 1; } }
  for (auto &s : sn) { int x = find_scen(s.c_str()); if (x < 0) { fprintf(stderr, "no scenario %s\n", s.c_str()); return 4; } sl.push_back(x); }
  std::unordered_set<std::string> kn; if (!known.empty()) { FILE *f = fopen(known.c_str(), "r"); char l[512]; if (f) { while (fgets(l, sizeof l, f)) { l[strcspn(l, "\n")] = 0; kn.insert(l); } fclose(f); } }
  if (haveone) { RunResult r = run_one(sl[0], oneseed, nullptr); if (repeat2) { auto t = trace; printf("---- replay\n"); r = run_one(sl[0], 0, &t); } printf("scenario=%s seed=%llu violated=%d errored=%d class=%s detail=%s steps=%llu switches=%llu hash=%016llx simtime=%.6f threads=%d faults=%d decisions=%zu\n", sn[0].c_str(), (unsigned long long)oneseed, r.violated, r.errored, r.cls.c_str(), r.detail.c_str(), (unsigned long long)r.steps, (unsigned long long)r.nswitch, (unsigned long long)r.hash, r.simtime, r.nt, r.nfaults, trace.size()); return 0; }
  double t0 = wallclock(); u64 done = 0; std::unordered_set<u64> ih; std::map<std::string, u64> knownhits, per; std::map<std::string, std::string> known_detail; u64 nontriv = 0; int rc = 0; std::vector<std::string> samples; std::string vjson; u64 maxsteps = 0; u64 faulted = 0;
  for (u64 i = worker; i < runs * nworkers; i += nworkers) {
    if ((done & 15) == 0 && wallclock() - t0 > tmax) break;
    size_t k = (i / nworkers) % sl.size(); u64 s = hash2(seed * 1000003 + i, 77) >> 1;
    RunResult r = run_one(sl[k], s, nullptr); done++; per[sn[k]]++;
    if (dumphash) printf("H %llu %s %016llx %d\n", (unsigned long long)i, sn[k].c_str(), (unsigned long long)r.hash, r.violated);
    std::vector<Dec> t = trace;
    if (repeat2) { RunResult r2 = run_one(sl[k], s, nullptr); if (r2.hash != r.hash) { printf("NONDET %s seed %llu\n", sn[k].c_str(), (unsigned long long)s); rc = 3; break; } RunResult r3 = run_one(sl[k], 0, &t); if (r3.hash != r.hash) { printf("NONDET-REPLAY %s seed %llu v=%d/%d\n", sn[k].c_str(), (unsigned long long)s, r.violated, r3.violated); rc = 3; break; } }
    if (r.errored) { printf("ERROR scenario=%s seed=%llu %s\n", sn[k].c_str(), (unsigned long long)s, r.detail.c_str()); rc = 4; break; }
    nontriv += r.nswitch >= 2 && r.nt >= 2; faulted += r.nfaults > 0;
    if (r.nswitch >= 2 && r.nt >= 2) ih.insert(r.shash); maxsteps = std::max(maxsteps, r.steps);
    if (samples.size() < 3 && (i / nworkers) < 3 * sl.size() && r.nt > 1) { char b[512]; snprintf(b, sizeof b, "{\"scenario\":\"%s\",\"seed\":%llu,\"threads\":%d,\"steps\":%llu,\"switches\":%llu,\"faults\":%d,\"sim_ms\":%.3f,\"hash\":\"%016llx\"}", sn[k].c_str(), (unsigned long long)s, r.nt, (unsigned long long)r.steps, (unsigned long long)r.nswitch, r.nfaults, r.simtime * 1e3, (unsigned long long)r.hash); samples.push_back(b); }
    if (r.violated) {
      if (kn.count(sn[k] + " " + r.cls)) { knownhits[sn[k] + " " + r.cls]++; known_detail[sn[k] + " " + r.cls] = r.detail; continue; }
      RunResult a = run_one(sl[k], s, nullptr); if (a.hash != r.hash || !a.violated) { printf("ERROR nondeterministic run scenario=%s seed=%llu\n", sn[k].c_str(), (unsigned long long)s); rc = 3; break; }
      RunResult b = run_one(sl[k], 0, &t); if (!b.violated || b.cls != r.cls) { printf("ERROR trace replay diverges scenario=%s seed=%llu %s vs %s\n", sn[k].c_str(), (unsigned long long)s, r.cls.c_str(), b.cls.c_str()); rc = 3; break; }
      u64 tries = 0; std::vector<Dec> m = minimise(sl[k], t, r.cls, tries, 20); RunResult c = run_one(sl[k], 0, &m);
      std::string rp = out + ".replay"; write_replay(rp.c_str(), sn[k].c_str(), s, c, m, t.size());
      printf("FOUND scenario=%s seed=%llu class=%s decisions=%zu->%zu\n%s\n", sn[k].c_str(), (unsigned long long)s, c.cls.c_str(), t.size(), m.size(), c.detail.c_str());
      rc = 1; break;
    }
  }
  double el = wallclock() - t0;
  if (!out.empty()) {
    FILE *f = fopen((out + ".json").c_str(), "w"); fprintf(f, "{\"rc\":%d,\"runs\":%llu,\"nontrivial\":%llu,\"faulted_runs\":%llu,\"elapsed\":%.3f,\"steps\":%llu,\"switches\":%llu,\"sim_s\":%.3f,\"timeouts\":%llu,\"leaps\":%llu,\"redirects\":%llu,\"suspends\":%llu,\"terminates\":%llu,\"max_steps\":%llu", rc, (unsigned long long)done, (unsigned long long)nontriv, (unsigned long long)faulted, el, (unsigned long long)st_steps, (unsigned long long)st_switch, st_simtime, (unsigned long long)st_timeouts, (unsigned long long)st_leaps, (unsigned long long)st_redirect, (unsigned long long)st_suspend, (unsigned long long)st_term, (unsigned long long)maxsteps);
    fprintf(f, ",\"faults\":{"); bool c = false; for (int i = 0; i < 12; i++) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", fault_names[i], (unsigned long long)st_fault[i]); c = true; }
    fprintf(f, "},\"probes\":{"); c = false; for (auto &p : probes) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", p.first.c_str(), (unsigned long long)p.second); c = true; }
    fprintf(f, "},\"per_scenario\":{"); c = false; for (auto &p : per) { fprintf(f, "%s\"%s\":%llu", c ? "," : "", p.first.c_str(), (unsigned long long)p.second); c = true; }
    fprintf(f, "},\"known\":{"); c = false; for (auto &p : knownhits) { fprintf(f, "%s\"%s\":[%llu,\"%s\"]", c ? "," : "", p.first.c_str(), (unsigned long long)p.second, jesc(known_detail[p.first]).c_str()); c = true; }
    fprintf(f, "},\"samples\":["); c = false; for (auto &p : samples) { fprintf(f, "%s%s", c ? "," : "", p.c_str()); c = true; } fprintf(f, "],\"interleavings\":%zu,\"switch_pairs\":%zu}\n", ih.size(), pairs.size()); fclose(f);
    f = fopen((out + ".hash").c_str(), "wb"); for (u64 h : ih) fwrite(&h, 8, 1, f); fclose(f);
    f = fopen((out + ".pairs").c_str(), "wb"); for (u64 h : pairs) fwrite(&h, 8, 1, f); fclose(f);
  } else printf("runs=%llu rc=%d %.0f runs/s interleavings=%zu pairs=%zu steps=%llu\n", (unsigned long long)done, rc, done / el, ih.size(), pairs.size(), (unsigned long long)st_steps);
  return rc;
}
