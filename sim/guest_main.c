/* entry of the simulated process */
#include <windows.h>
#include "simapi.h"
extern void (*__CTOR_LIST__[])(void);
extern void (*__DTOR_LIST__[])(void);
extern const struct scen sim_scens[];
void __main(void) {}
#ifdef SIM_DLL
/* the library as a DLL: the loader tells it, under the loader's lock, of the process and of every thread that starts and ends */
BOOL WINAPI DllMain(HINSTANCE, DWORD, LPVOID);
static CRITICAL_SECTION loader;
static void notify(unsigned why) { EnterCriticalSection(&loader); DllMain((HINSTANCE)0x140000000LL, why, 0); LeaveCriticalSection(&loader); }
__declspec(dllexport) void sim_dll_notify(long long why) { notify((unsigned)why); }
void sim_run_ctors(void) { notify(DLL_PROCESS_ATTACH); }
void sim_run_dtors(void) { notify(DLL_PROCESS_DETACH); }
#else
void sim_run_ctors(void)
{
  int n = 0;
  while (__CTOR_LIST__[n + 1]) n++;
  for (int i = n; i >= 1; i--) __CTOR_LIST__[i]();
}
void sim_run_dtors(void)
{
  for (int i = 1; __DTOR_LIST__[i]; i++) __DTOR_LIST__[i]();
}
#endif
__declspec(dllexport) void sim_guest_main(long long idx)
{
#ifdef SIM_DLL
  InitializeCriticalSection(&loader);
#endif
  sim_run_ctors();
  sim_scens[idx].fn();
}
