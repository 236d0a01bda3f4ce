SEEDS = [
dict(id='implicit-id-reuse', property='C15', needs='the id of an ended Win32 thread kept until its structure is used for a new thread',
 breaks='The structures of threads not made by pthread_create are reused under the same identity.',
 edits=[('ptw32_reuse.c', 'memset(tp, 0, sizeof(ptw32_thread_t));', '{\n  int implicit = tp->implicit;\n\n  memset(tp, 0, sizeof(ptw32_thread_t));\n  if (implicit)\n    {\n      t.x--;\n    }\n  }\n')],
 demo=r'''
 static pthread_t w; static volatile int st; static HANDLE ev;
 static DWORD WINAPI win(void *a) { w = pthread_self(); pthread_win32_thread_detach_np(); return 0; }
 static void *th(void *a) { while (!st) Sleep(10); return 0; }
 int main(void) { pthread_t t; HANDLE h; watchdog(); h = CreateThread(NULL, 0, win, NULL, 0, NULL); WaitForSingleObject(h, INFINITE); 
   pthread_create(&t, NULL, th, 0); if (pthread_equal(t, w)) fail("the new thread has the identity of an ended one"); if (pthread_kill(w, 0) != ESRCH) fail("stale id accepted"); st = 1; pthread_join(t, NULL); ok(); }
'''),
dict(id='kill-only-running', property='C26', needs='killing a thread that is acting upon a cancellation request',
 breaks='A thread that is being cancelled is not ended by pthread_kill, which reports success.',
 edits=[('pthread_kill.c', 'if (tp->state < PThreadStateLast)', 'if (tp->state < PThreadStateCanceling)')],
 demo=r'''
 static volatile int in; static void h(void *a) { in = 1; for (;;) Sleep(50); }
 static void *th(void *a) { pthread_cleanup_push(h, 0); for (;;) { pthread_testcancel(); Sleep(5); } pthread_cleanup_pop(0); return 0; }
 int main(void) { pthread_t t; struct timespec ts; void *v = 0; int r; watchdog(); pthread_create(&t, NULL, th, 0); Sleep(50); pthread_cancel(t); while (!in) Sleep(5);
   r = pthread_kill(t, SIGTERM); ts = in_ms(3000); if (r) fail("pthread_kill"); if (pthread_timedjoin_np(t, &v, &ts)) fail("the killed thread still runs"); ok(); }
'''),
dict(id='condattr-bad-pshared', property='C30', needs='a process-shared attribute that is neither shared nor private',
 breaks='An invalid process-shared attribute is accepted and recorded.',
 edits=[('pthread_condattr_setpshared.c', '|| (pshared == PTHREAD_PROCESS_PRIVATE)))', '|| (pshared != PTHREAD_PROCESS_SHARED)))')],
 demo=r'''
 int main(void) { pthread_condattr_t a; int v = -1; watchdog(); pthread_condattr_init(&a); if (pthread_condattr_setpshared(&a, 77) != EINVAL) fail("invalid value accepted"); pthread_condattr_getpshared(&a, &v); if (v != PTHREAD_PROCESS_PRIVATE) fail("value"); ok(); }
'''),
dict(id='setname-unlocked', property='C23', needs='two threads naming the same thread at the same time',
 breaks='The old name is read before the lock is taken: two concurrent calls both free it.',
 edits=[('pthread_setname_np.c', '''  newname = ptw32_strdup(name);

  if (newname == NULL)
    {
      return ENOMEM;
    }

#if defined(_MSC_VER)
  Win32ThreadID = pthread_getw32threadid_np (thr);

  if (Win32ThreadID)
    {
      SetThreadName(Win32ThreadID, newname);
    }
#endif

  tp = (ptw32_thread_t *) thr.p;

  ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);

  oldname = tp->name;
  tp->name = newname;
  if (oldname)
    {
      free(oldname);
    }

  ptw32_mcs_lock_release (&threadLock);

  return 0;
}
#endif''', '''  tp = (ptw32_thread_t *) thr.p;
  oldname = tp->name;

  newname = ptw32_strdup(name);

  if (newname == NULL)
    {
      return ENOMEM;
    }

#if defined(_MSC_VER)
  Win32ThreadID = pthread_getw32threadid_np (thr);

  if (Win32ThreadID)
    {
      SetThreadName(Win32ThreadID, newname);
    }
#endif

  ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);

  tp->name = newname;
  if (oldname)
    {
      free(oldname);
    }

  ptw32_mcs_lock_release (&threadLock);

  return 0;
}
#endif''')],
 link='-Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc -Wl,--wrap=strdup -Wl,--wrap=_strdup',
 demo=r'''
 void __real_free(void *); void *__real_malloc(size_t); void *__real_calloc(size_t, size_t); char *__real_strdup(const char *); char *__real__strdup(const char *);
 static void *fr[100000]; static volatile LONG nf, slow, dbl, cs;
 static void *got(void *p) { int i; while (InterlockedExchange(&cs, 1)) Sleep(0); for (i = 0; i < nf; i++) if (fr[i] == p) fr[i] = 0; InterlockedExchange(&cs, 0); if (slow) Sleep(300); return p; }
 void *__wrap_malloc(size_t n) { return got(__real_malloc(n)); } void *__wrap_calloc(size_t a, size_t b) { return got(__real_calloc(a, b)); }
 char *__wrap_strdup(const char *s) { return got(__real_strdup(s)); } char *__wrap__strdup(const char *s) { return got(__real__strdup(s)); }
 void __wrap_free(void *p) { int i, d = 0; while (InterlockedExchange(&cs, 1)) Sleep(0); for (i = 0; i < nf; i++) if (p && fr[i] == p) d = 1; if (p && !d) fr[nf++] = p; InterlockedExchange(&cs, 0); if (d) { dbl = 1; return; } /* kept allocated, so that addresses stay unique */ }
 static pthread_t m; static volatile LONG go; static void *th(void *a) { while (!go) Sleep(1); pthread_setname_np(m, a); return 0; }
 int main(void) { pthread_t t, u; watchdog(); m = pthread_self(); pthread_setname_np(m, "old"); go = 1; pthread_create(&t, NULL, th, "one"); pthread_join(t, NULL); go = 0;
   pthread_create(&t, NULL, th, "two"); pthread_create(&u, NULL, th, "three"); Sleep(100); slow = 1; go = 1; pthread_join(t, NULL); pthread_join(u, NULL); slow = 0; if (dbl) fail("a name was freed twice"); ok(); }
'''),
dict(id='sched-handle-leak', property='C24', needs='setting a process CPU set without any existing CPU, repeatedly',
 breaks='The process handle is not closed when the set is refused.',
 edits=[('sched_setaffinity.c', '''				  /*
				   * Mask does not contain any CPUs currently available on the system.
				   */
				  result = EINVAL;''', '''				  /*
				   * Mask does not contain any CPUs currently available on the system.
				   */
				  PTW32_SET_ERRNO(EINVAL);
				  return -1;''')],
 demo=r'''
 static int op, cl; static HANDLE last[1000]; extern void *__imp_OpenProcess, *__imp_CloseHandle; static HANDLE (WINAPI *ro)(DWORD, BOOL, DWORD); static BOOL (WINAPI *rc)(HANDLE);
 static HANDLE WINAPI myopen(DWORD a, BOOL i, DWORD p) { HANDLE h = ro(a, i, p); if (h) last[op++] = h; return h; }
 static BOOL WINAPI myclose(HANDLE h) { int i; for (i = 0; i < op; i++) if (last[i] == h) { last[i] = 0; cl++; break; } return rc(h); }
 int main(void) { cpu_set_t c; DWORD o; int i; watchdog(); pthread_self(); CPU_ZERO(&c);
   VirtualProtect(&__imp_OpenProcess, 8, PAGE_READWRITE, &o); ro = __imp_OpenProcess; __imp_OpenProcess = myopen; VirtualProtect(&__imp_CloseHandle, 8, PAGE_READWRITE, &o); rc = __imp_CloseHandle; __imp_CloseHandle = myclose;
   for (i = 0; i < 200; i++) if (sched_setaffinity(0, sizeof c, &c) != -1 || errno != EINVAL) fail("result"); if (cl != op) fail("handles leak"); ok(); }
'''),
dict(id='self-widens-affinity', property='C27', needs='a Win32 thread with a CPU set smaller than its process calling into the library for the first time',
 breaks='Registering a Win32 thread leaves it with the CPU set of the process while reporting its old one.',
 edits=[('pthread_self.c', 'if (SetThreadAffinityMask(sp->threadH, vThreadMask))', 'if (vThreadMask != 0)')],
 demo=r'''
 static DWORD_PTR got, rep; extern void *__imp_SetThreadAffinityMask; static DWORD_PTR (WINAPI *real)(HANDLE, DWORD_PTR); static volatile DWORD_PTR last, cur; static DWORD_PTR WINAPI my(HANDLE h, DWORD_PTR m) { DWORD_PTR o = cur; cur = m; return o; }
 extern void *__imp_GetProcessAffinityMask; static BOOL WINAPI gp(HANDLE h, DWORD_PTR *p, DWORD_PTR *s) { *p = *s = 15; return TRUE; }
 static DWORD WINAPI win(void *a) { cur = 2; pthread_self(); got = cur; return 0; }
 int main(void) { HANDLE h; DWORD o; watchdog(); pthread_self(); VirtualProtect(&__imp_SetThreadAffinityMask, 8, PAGE_READWRITE, &o); __imp_SetThreadAffinityMask = my; VirtualProtect(&__imp_GetProcessAffinityMask, 8, PAGE_READWRITE, &o); __imp_GetProcessAffinityMask = gp;
   h = CreateThread(NULL, 0, win, NULL, 0, NULL); WaitForSingleObject(h, INFINITE); if (got != 2) fail("the thread lost its CPU set"); ok(); }
'''),
dict(id='abstime-carry', property='C20', needs='the sum of the present nanoseconds and the relative ones being exactly one second',
 breaks='pthread_win32_getabstime_np returns 1000000000 nanoseconds.',
 edits=[('ptw32_relmillisecs.c', 'if (nsec >= NANOSEC_PER_SEC)', 'if (nsec > NANOSEC_PER_SEC)')],
 demo=r'''
 extern void *__imp_GetSystemTimeAsFileTime; static void WINAPI gs(FILETIME *f) { unsigned long long n = 116444736000000000ULL + 15000000000000000ULL + 2500000; f->dwLowDateTime = (DWORD)n; f->dwHighDateTime = (DWORD)(n >> 32); }
 int main(void) { struct timespec r = {1, 750000000}, a; DWORD o; watchdog(); VirtualProtect(&__imp_GetSystemTimeAsFileTime, 8, PAGE_READWRITE, &o); __imp_GetSystemTimeAsFileTime = gs; pthread_win32_getabstime_np(&a, &r); if (a.tv_nsec != 0 || a.tv_sec != 1500000002) fail("not a time"); ok(); }
'''),
dict(id='spin-destroy-single', property='C32', needs='destroying a spin lock that is held, on a single processor',
 breaks='A held spin lock is destroyed instead of being refused where spin locks are mutexes.',
 edits=[('pthread_spin_destroy.c', 'result = pthread_mutex_destroy (&(s->u.mutex));', '(void) pthread_mutex_destroy (&(s->u.mutex));')],
 demo=r'''
 extern void *__imp_GetProcessAffinityMask; static BOOL WINAPI gp(HANDLE h, DWORD_PTR *p, DWORD_PTR *s) { *p = *s = 1; return TRUE; }
 int main(void) { pthread_spinlock_t s; DWORD o; watchdog(); VirtualProtect(&__imp_GetProcessAffinityMask, 8, PAGE_READWRITE, &o); __imp_GetProcessAffinityMask = gp; if (pthread_spin_init(&s, 0)) fail("init"); pthread_spin_lock(&s); if (pthread_spin_destroy(&s) == 0) fail("a held spin lock was destroyed"); if (pthread_spin_unlock(&s)) fail("unlock"); if (pthread_spin_destroy(&s)) fail("destroy"); ok(); }
'''),
dict(id='terminate-keeps-key', property='C31', needs='detaching and attaching the library many times in a process',
 breaks='One of the two keys of the library is not given back when it is detached.',
 edits=[('ptw32_processTerminate.c', 'pthread_key_delete (ptw32_cleanupKey);', '')],
 demo=r'''
 int main(void) { int i; watchdog(); pthread_self(); for (i = 0; i < 3000; i++) { if (!pthread_win32_process_detach_np()) fail("detach"); if (!pthread_win32_process_attach_np()) fail("attach"); } if (pthread_self().p == NULL) fail("self"); ok(); }
'''),
dict(id='cond-early-cleanup', property='C05', needs='a cancellation request pending when the thread enters the wait',
 breaks='The cleanup of the wait is armed before the thread is counted as a waiter: a request pending at entry makes it lock the mutex it still holds.',
 edits=[('pthread_cond_wait.c', '''  if (sem_wait (&(cv->semBlockLock)) != 0)
    {
      return PTW32_GET_ERRNO();
    }

  ++(cv->nWaitersBlocked);''', '''  cleanup_args.mutexPtr = mutex;
  cleanup_args.cv = cv;
  cleanup_args.resultPtr = &result;

  pthread_cleanup_push (ptw32_cond_wait_cleanup, (void *) &cleanup_args);
  pthread_testcancel ();
  pthread_cleanup_pop (0);

  if (ptw32_semwait (&(cv->semBlockLock)) != 0)
    {
      return PTW32_GET_ERRNO();
    }

  ++(cv->nWaitersBlocked);''')],
 demo=r'''
 static pthread_cond_t c = PTHREAD_COND_INITIALIZER; static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static volatile int st; static void h(void *a) { pthread_mutex_unlock(&m); }
 static void *th(void *a) { pthread_mutex_lock(&m); pthread_cleanup_push(h, 0); st = 1; while (st < 2) Sleep(5); pthread_cond_wait(&c, &m); pthread_cleanup_pop(1); return 0; }
 int main(void) { pthread_t t; void *v; struct timespec ts; watchdog(); pthread_create(&t, NULL, th, 0); while (st < 1) Sleep(5); pthread_cancel(t); st = 2; ts = in_ms(3000); if (pthread_timedjoin_np(t, &v, &ts)) fail("the cancelled thread never ends"); if (pthread_mutex_trylock(&m)) fail("mutex"); ok(); }
'''),
dict(id='timedjoin-null-value', property='C14', needs='pthread_timedjoin_np without asking for the value',
 breaks='A timed join that does not ask for the value leaves the thread joinable: it can be joined again and is never reclaimed.',
 edits=[('pthread_timedjoin_np.c', '''              if (value_ptr != NULL)
                {
                  *value_ptr = tp->exitStatus;
                }

              /*
               * The result of making multiple simultaneous calls to
               * pthread_join() or pthread_timedjoin_np() or pthread_detach()
               * specifying the same target is undefined.
               */
              result = pthread_detach (thread);''', '''              /*
               * The result of making multiple simultaneous calls to
               * pthread_join() or pthread_timedjoin_np() or pthread_detach()
               * specifying the same target is undefined.
               */
              if (value_ptr != NULL)
                {
                  *value_ptr = tp->exitStatus;
                  result = pthread_detach (thread);
                }''')],
 demo=r'''
 static void *th(void *a) { return 0; }
 int main(void) { pthread_t t; struct timespec ts = in_ms(5000); watchdog(); pthread_create(&t, NULL, th, 0); if (pthread_timedjoin_np(t, NULL, &ts)) fail("timedjoin"); if (pthread_join(t, NULL) != ESRCH) fail("joined twice"); ok(); }
'''),
dict(id='exit-skips-handlers', property='C18', needs='pthread_exit with handlers pushed, called inside a handler that cancellation runs',
 breaks='pthread_exit does not run the remaining handlers of a thread whose cancellation is disabled (as in a handler).',
 edits=[('ptw32_throw.c', 'ptw32_pop_cleanup_all (1);\n  longjmp', 'ptw32_pop_cleanup_all (exception == PTW32_EPS_CANCEL || sp->cancelState == PTHREAD_CANCEL_ENABLE);\n  longjmp')],
 demo=r'''
 static volatile int ran; static void h(void *a) { ran++; }
 static void *th(void *a) { int o; pthread_cleanup_push(h, 0); pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); pthread_exit(0); pthread_cleanup_pop(0); return 0; }
 int main(void) { pthread_t t; watchdog(); pthread_create(&t, NULL, th, 0); pthread_join(t, NULL); if (ran != 1) fail("handler not run"); ok(); }
'''),
dict(id='timechange-stops-at-static', property='C28', needs='several condition variables with waiters, the clock being changed',
 breaks='The handler leaves the last condition variable of the list alone.',
 edits=[('pthread_timechange_handler_np.c', 'while (cv != NULL && 0 == result)', 'while (cv != NULL && 0 == result && (cv->next != NULL || cv == ptw32_cond_list_head))')],
 demo=r'''
 static pthread_cond_t c[2]; static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static volatile int in, out;
 static void *th(void *a) { pthread_mutex_lock(&m); in++; pthread_cond_wait(&c[(int)(size_t)a], &m); out++; pthread_mutex_unlock(&m); return 0; }
 int main(void) { pthread_t t[2]; int i; watchdog(); for (i = 0; i < 2; i++) pthread_cond_init(&c[i], NULL); for (i = 0; i < 2; i++) pthread_create(&t[i], NULL, th, (void *)(size_t)i); while (in < 2) Sleep(10); Sleep(300);
   pthread_timechange_handler_np(NULL); for (i = 0; i < 300 && out < 2; i++) Sleep(10); if (out < 2) fail("a waiter was not woken"); ok(); }
'''),
]
