/* Guest-side view of the simulator (imported from the pseudo DLL "simhost").
 * None of these calls is a scheduling point unless it says so. */
#ifndef SIMAPI_H
#define SIMAPI_H
#define SIMI __declspec(dllimport)
#ifdef __cplusplus
extern "C" {
#endif
/* workload choice 0..n-1; 0 is the "simplest" one, which minimisation prefers */
SIMI int  sim_choice(int n);
/* report that the property is broken and end the run; does not return */
SIMI void sim_violation(const char *cls, long long a, long long b) __attribute__((noreturn));
SIMI void sim_log(const char *tag, long long a, long long b);
SIMI void sim_probe(const char *name);
SIMI long long sim_seq(void);            /* global event number, strictly increasing */
SIMI long long sim_now(void);            /* simulated monotonic time, 100 ns units */
SIMI long long sim_unix_ns(void);        /* simulated wall clock, ns since 1970 */
SIMI void sim_clock_set(long long unix_sec);
SIMI void sim_clock_jump(long long ms);  /* step the wall clock, not monotonic time */
SIMI void sim_tick(long long units);     /* let simulated time pass while "computing" */
SIMI void sim_faults(unsigned mask);     /* which fault kinds may fire from now on */
SIMI int  sim_faults_fired(void);        /* faults injected so far in this run */
SIMI int  sim_thread_faults(void);       /* ... in the calling thread */
SIMI long sim_add(volatile long *p, long d);  /* atomic, returns the new value */
SIMI long sim_set(volatile long *p, long v);  /* atomic, returns the old value */
SIMI void sim_wait_ge(volatile long *p, long v); /* block until *p >= v (scheduling point) */
SIMI void sim_room(int begin);          /* 1 .. 0: a long stretch that does not count against the step budget */
SIMI void sim_settle(int timers);        /* block until every other thread is blocked (1: and no timer pending) */
SIMI void sim_yield(void);               /* scheduling point */
SIMI void sim_stall(void);               /* scheduling point; maybe be descheduled / sleep for a while */
SIMI int  sim_tid(void);
SIMI int  sim_ncpu(void);
SIMI void sim_set_ncpu(int n);
SIMI unsigned sim_stack_arg(void);       /* stack size the calling thread was created with */
SIMI long sim_live_handles(int type);    /* -1: all; see SIMH_* */
SIMI long sim_live_blocks(void);
SIMI long sim_live_tls(void);
SIMI long sim_live_threads(void);
SIMI int  sim_thread_state(void *h);     /* of a Win32 thread handle: 0 invalid 1 running/ready 2 blocked 3 dead */
SIMI void sim_allow(const char *what);   /* relax a built-in check: "deadlock", "handles" */
SIMI int  sim_block_live(void *p);
#define SIMH_EVENT 1
#define SIMH_SEM 2
#define SIMH_THREAD 3
#define SIMH_MUTEX 4
#define SIMH_PROC 5
/* fault kinds */
#define F_ALLOC   0x001
#define F_EVENT   0x002
#define F_SEM     0x004
#define F_THREAD  0x008
#define F_TLS     0x010
#define F_DUP     0x020
#define F_AFF     0x040
#define F_PRIO    0x080
#define F_OPENP   0x100
#define F_CLOCK   0x200
#define F_LATE    0x400
#define F_STALL   0x800
#define F_ALLRES  (F_ALLOC|F_EVENT|F_SEM|F_THREAD|F_TLS|F_DUP|F_AFF|F_PRIO|F_OPENP)
#ifdef __cplusplus
}
#endif

#define CHECK(cond, cls) do { if (!(cond)) sim_violation(cls, __LINE__, 0); } while (0)
#define CHECKV(cond, cls, v) do { if (!(cond)) sim_violation(cls, __LINE__, (long long)(v)); } while (0)

typedef void (*scen_fn)(void);
struct scen { const char *name; scen_fn fn; };
#endif
