#ifndef SCEN_COMMON_H
#define SCEN_COMMON_H
#include <pthread.h>
#include <semaphore.h>
#include <sched.h>
#include <errno.h>
#include <stdlib.h>
#include <string.h>
#include <process.h>
#include "simapi.h"
#ifdef __cplusplus
#define SCENARIO(name) extern "C" void scen_##name(void)
#define GUEST_IMPORT extern "C" __declspec(dllimport)
extern "C" {
#else
#define GUEST_IMPORT __declspec(dllimport)
#define SCENARIO(name) void scen_##name(void)
#endif
void sim_run_ctors(void);
void sim_run_dtors(void);
#ifdef __cplusplus
}
#endif
/* create a joinable thread or report */
static inline pthread_t xcreate(void *(*fn)(void *), void *arg)
{
  pthread_t t; int r = pthread_create(&t, NULL, fn, arg);
  CHECKV(r == 0, "create-failed", r);
  return t;
}
static inline void *xjoin(pthread_t t)
{
  void *v = (void *)0x5a5a; int r = pthread_join(t, &v);
  CHECKV(r == 0, "join-failed", r);
  return v;
}
/* absolute wall-clock deadline ms from now */
static inline struct timespec in_ms(long long ms)
{
  struct timespec ts; long long ns = sim_unix_ns() + ms * 1000000LL;
  ts.tv_sec = ns / 1000000000LL; ts.tv_nsec = (long)(ns % 1000000000LL);
  return ts;
}
/* the end of a thread Win32 made: with the static library it says so itself; the DLL is told by the loader, saying so is harmless */
static inline void thread_ends(void)
{
#ifdef SIM_DLL
  if (sim_choice(2)) return;
#endif
  pthread_win32_thread_detach_np();
}
/* do something of arbitrary (usually no) duration */
#define IDX(p) ((int)(size_t)(p))
#define MAXTHR 8
#endif
