SEEDS = [
dict(id='dll-own-threads-skipped', property='C19', dll=1,
  edits=[('dll.c', 'result = pthread_win32_thread_detach_np (); break; case DLL_PROCESS_DETACH:',
'''{
        ptw32_thread_t * sp = (ptw32_thread_t *) pthread_getspecific (ptw32_selfThreadKey);

        /* threads of our own have been cleaned up by ptw32_threadStart */
        if (sp == NULL || sp->implicit)
          {
            result = pthread_win32_thread_detach_np ();
          }
      }
      break;

    case DLL_PROCESS_DETACH:''')],
  needs='the library used as a DLL: a thread made by pthread_create ends while it holds key values with destructors (or robust mutexes)',
  breaks='in the DLL only the loader\'s notice cleans up after a thread; skipping it for the library\'s own threads loses their key destructors, robust mutex hand-over and the freeing of detached threads',
  demo=r'''
static pthread_key_t k; static volatile int ran;
static void d(void *v) { ran = (int)(size_t)v; }
static void *thr(void *a) { if (pthread_setspecific(k, (void *)7)) fail("setspecific"); return (void *)9; }
int main(void)
{
  pthread_t t; void *v = 0; watchdog();
  if (pthread_key_create(&k, d)) fail("key");
  for (int i = 0; i < 3; i++) { ran = 0; if (pthread_create(&t, NULL, thr, NULL) || pthread_join(t, &v) || v != (void *)9) fail("join"); if (ran != 7) fail("no destructor"); }
  ok();
}'''),
dict(id='dll-thread-end-initialised', property='C25', dll=1,
  edits=[('dll.c', 'result = pthread_win32_thread_detach_np (); break; case DLL_PROCESS_DETACH:',
'''{
        pthread_t self = pthread_self ();

        /* nothing to do for threads already marked as ending */
        result = ((ptw32_thread_t *) self.p)->state >= PThreadStateExiting ? PTW32_TRUE : pthread_win32_thread_detach_np ();
      }
      break;

    case DLL_PROCESS_DETACH:''')],
  needs='the library used as a DLL: a thread made by Win32 ends through pthread_exit (or a library thread returns) with key values set',
  breaks='a thread that ended through the library is not cleaned up when the loader reports its end',
  demo=r'''
static pthread_key_t k; static volatile int ran; static pthread_t id;
static void d(void *v) { ran = (int)(size_t)v; }
static unsigned __stdcall thr(void *a) { id = pthread_self(); if (pthread_setspecific(k, (void *)7)) fail("setspecific"); pthread_exit((void *)5); return 1; }
int main(void)
{
  watchdog(); if (pthread_key_create(&k, d)) fail("key");
  for (int i = 0; i < 3; i++) {
    ran = 0; HANDLE h = (HANDLE)_beginthreadex(NULL, 0, thr, NULL, 0, NULL); WaitForSingleObject(h, INFINITE);
    if (ran != 7) fail("no destructor"); if (pthread_kill(id, 0) != ESRCH) fail("alive");
  }
  ok();
}'''),
]
