HOOK = r'''
 static void hook(void *slot, void *fn) { DWORD o; VirtualProtect(slot, 8, PAGE_READWRITE, &o); *(void **)slot = fn; }
'''
SEEDS = [
dict(id='spin-unlock-exchange', property='C11', needs='a spin lock made on a single processor, used by three threads',
 breaks='On a single processor a spin lock is a mutex; releasing it turns it into a word to spin on while a waiter still gets the mutex: two owners.',
 edits=[('pthread_spin_unlock.c', '''switch ((long)
	  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR) &s->interlock,
					      (PTW32_INTERLOCKED_LONG) PTW32_SPIN_UNLOCKED,
					      (PTW32_INTERLOCKED_LONG) PTW32_SPIN_LOCKED))''', '''switch ((long)
	  PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR) &s->interlock,
					      (PTW32_INTERLOCKED_LONG) PTW32_SPIN_UNLOCKED))''')],
 demo=r'''
 extern void *__imp_GetProcessAffinityMask; static BOOL WINAPI gp(HANDLE h, DWORD_PTR *p, DWORD_PTR *s) { *p = *s = 1; return TRUE; }
 static pthread_spinlock_t s; static volatile int in, st, bad;
 static void *b(void *a) { st = 1; if (pthread_spin_lock(&s)) fail("lock"); in = 1; Sleep(500); in = 0; pthread_spin_unlock(&s); return 0; }
 int main(void) { pthread_t t; DWORD o; watchdog(); VirtualProtect(&__imp_GetProcessAffinityMask, 8, PAGE_READWRITE, &o); __imp_GetProcessAffinityMask = gp;
   if (pthread_spin_init(&s, 0)) fail("init"); if (pthread_spin_lock(&s)) fail("lock"); pthread_create(&t, NULL, b, 0); while (!st) Sleep(1); Sleep(100); if (pthread_spin_unlock(&s)) fail("unlock");
   while (!in) Sleep(1); if (pthread_spin_trylock(&s) == 0) fail("two owners"); pthread_join(t, NULL); ok(); }
'''),
dict(id='detach-keeps-self', property='C25', needs='a thread made by Win32 that uses the library again after detaching from it, when a new thread has got its structure',
 breaks='The slot with the own identity is not cleared when a Win32 thread detaches: it goes on under a dead identity, later that of another thread.',
 edits=[('pthread_win32_attach_detach_np.c', '''              SetEvent(mx->event);
            }


	  if (sp->detachState == PTHREAD_CREATE_DETACHED)
	    {
	      ptw32_threadDestroy (sp->ptHandle);

	      if (ptw32_selfThreadKey)''', '''SetEvent(mx->event);
            }


	  if (sp->detachState == PTHREAD_CREATE_DETACHED)
	    {
	      int registered = sp->implicit;

	      ptw32_threadDestroy (sp->ptHandle);

	      if (ptw32_selfThreadKey && !registered)''')],
 demo=r'''
 static volatile int st; static pthread_t t, w, w2; static void *th(void *a) { while (st < 2) Sleep(1); return 0; }
 static DWORD WINAPI win(void *a) { w = pthread_self(); pthread_win32_thread_detach_np(); pthread_create(&t, NULL, th, 0); w2 = pthread_self(); if (pthread_kill(w2, 0)) fail("own identity is dead"); st = 2; return 0; }
 int main(void) { HANDLE h; watchdog(); h = CreateThread(NULL, 0, win, NULL, 0, NULL); WaitForSingleObject(h, INFINITE); if (pthread_equal(t, w2)) fail("two threads with one identity"); pthread_join(t, NULL); ok(); }
'''),
dict(id='implicit-name-leak', property='C22', needs='a thread made by Win32 that was given a name',
 breaks='The name of a thread the library did not create is not freed with it.',
 edits=[('ptw32_threadDestroy.c', '''      char * name = tp->name;''', '''      char * name = tp->implicit ? NULL : tp->name;''')],
 demo=r'''
 static char big[1 << 20]; static DWORD WINAPI win(void *a) { if (pthread_setname_np(pthread_self(), big)) fail("name"); pthread_win32_thread_detach_np(); return 0; }
 static size_t committed(void) { MEMORY_BASIC_INFORMATION m; char *p = 0; size_t n = 0; while (VirtualQuery(p, &m, sizeof m)) { if (m.State == MEM_COMMIT && m.Type == MEM_PRIVATE) n += m.RegionSize; p = (char *)m.BaseAddress + m.RegionSize; } return n; }
 int main(void) { int i; size_t a; watchdog(); memset(big, 'x', sizeof big - 1); for (i = 0; i < 60; i++) { HANDLE h = CreateThread(NULL, 0, win, NULL, 0, NULL); WaitForSingleObject(h, INFINITE); CloseHandle(h); if (i == 9) a = committed(); }
   if (committed() > a + (20 << 20)) fail("memory lost"); ok(); }
'''),
dict(id='cond-gate-before-unlock', property='C06', needs='several waiters woken by one broadcast and the condition variable destroyed directly afterwards',
 breaks='The last waiter lets pthread_cond_destroy in before it is through with the mutex inside the condition variable.',
 edits=[('pthread_cond_wait.c', '''  if ((result = pthread_mutex_unlock (&(cv->mtxUnblockLock))) != 0)
    {
      *resultPtr = result;
      return;
    }

  if (1 == nSignalsWasLeft)
    {
      if (sem_post (&(cv->semBlockLock)) != 0)
	{
	  *resultPtr = PTW32_GET_ERRNO();
	  return;
	}
    }
''', '''  if (1 == nSignalsWasLeft)
    {
      if (sem_post (&(cv->semBlockLock)) != 0)
	{
	  *resultPtr = PTW32_GET_ERRNO();
	  return;
	}
    }

  if ((result = pthread_mutex_unlock (&(cv->mtxUnblockLock))) != 0)
    {
      *resultPtr = result;
      return;
    }
''')],
 demo=r'''
 /* the first waiter is held up inside while the second is through, and SetEvent is late: the mutex inside is then contended */
 extern void *__imp_ReleaseSemaphore, *__imp_WaitForMultipleObjects; static BOOL (WINAPI *rs)(HANDLE, LONG, LPLONG); static DWORD (WINAPI *wm)(DWORD, const HANDLE *, BOOL, DWORD);
 static pthread_mutex_t m; static pthread_cond_t c; static volatile int n, go, late, busy; static DWORD w[2];
 static BOOL WINAPI rel(HANDLE h, LONG k, LPLONG p) { BOOL r = rs(h, k, p); if (go && (GetCurrentThreadId() == w[0] || GetCurrentThreadId() == w[1])) Sleep(700); return r; }
 static DWORD WINAPI wmo(DWORD k, const HANDLE *h, BOOL b, DWORD t) { DWORD r = wm(k, h, b, t); if (go) Sleep(400); return r; }
 static void *th(void *a) { pthread_mutex_lock(&m); w[n++] = GetCurrentThreadId(); while (!go) pthread_cond_wait(&c, &m); pthread_mutex_unlock(&m); return 0; }
 int main(void) { pthread_t t[2]; DWORD o; int i, r; watchdog(); rs = __imp_ReleaseSemaphore; VirtualProtect(&__imp_ReleaseSemaphore, 8, PAGE_READWRITE, &o); __imp_ReleaseSemaphore = rel; wm = __imp_WaitForMultipleObjects; VirtualProtect(&__imp_WaitForMultipleObjects, 8, PAGE_READWRITE, &o); __imp_WaitForMultipleObjects = wmo;
   pthread_mutex_init(&m, NULL); pthread_cond_init(&c, NULL); for (i = 0; i < 2; i++) pthread_create(&t[i], NULL, th, 0);
   for (;;) { pthread_mutex_lock(&m); if (n == 2) break; pthread_mutex_unlock(&m); Sleep(5); } Sleep(200);
   go = 1; pthread_cond_broadcast(&c); pthread_mutex_unlock(&m);
   r = pthread_cond_destroy(&c); if (r) fail("destroy after broadcast refused"); for (i = 0; i < 2; i++) pthread_join(t[i], NULL); ok(); }
'''),
dict(id='robust-recursive-early', property='C03', needs='a recursive robust mutex inherited from a dead owner, locked twice and unlocked once before it is made consistent',
 breaks='The mutex is given up for lost at an inner unlock, although its owner still holds it and can repair it.',
 edits=[('pthread_mutex_unlock.c', '''                  if (kind != PTHREAD_MUTEX_RECURSIVE
                      || 0 == --mx->recursive_count)
                    {
                      PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
''', '''                  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                  if (kind != PTHREAD_MUTEX_RECURSIVE
                      || 0 == --mx->recursive_count)
                    {
''')],
 demo=r'''
 static pthread_mutex_t m; static void *th(void *a) { pthread_mutex_lock(&m); return 0; }
 int main(void) { pthread_t t; pthread_mutexattr_t a; watchdog(); pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutexattr_setrobust(&a, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&m, &a);
   pthread_create(&t, NULL, th, 0); pthread_join(t, NULL); if (pthread_mutex_lock(&m) != EOWNERDEAD) fail("not inherited"); if (pthread_mutex_lock(&m)) fail("relock"); if (pthread_mutex_unlock(&m)) fail("inner unlock"); if (pthread_mutex_consistent(&m)) fail("can not be repaired by its owner"); if (pthread_mutex_unlock(&m)) fail("unlock"); if (pthread_mutex_lock(&m)) fail("lock"); ok(); }
'''),
dict(id='trylock-drops-mark', property='C01', needs='two waiters and a trylock by a third thread that succeeds between an unlock and the wake-up, or fails while they wait',
 breaks='A trylock overwrites the mark that somebody waits: the next unlock wakes nobody.',
 edits=[('pthread_mutex_trylock.c', '''      if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG (
		         (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
		         (PTW32_INTERLOCKED_LONG) 1,
		         (PTW32_INTERLOCKED_LONG) 0))
        {
          if (kind != PTHREAD_MUTEX_NORMAL)''', '''      if (0 == (PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_EXCHANGE_LONG (
		         (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
		         (PTW32_INTERLOCKED_LONG) 1))
        {
          if (kind != PTHREAD_MUTEX_NORMAL)''')],
 demo=r'''
 static pthread_mutex_t m; static volatile int got; static void *th(void *a) { pthread_mutex_lock(&m); got = 1; pthread_mutex_unlock(&m); return 0; }
 int main(void) { pthread_t t; int i; watchdog(); pthread_mutex_init(&m, NULL); pthread_mutex_lock(&m); pthread_create(&t, NULL, th, 0); Sleep(300); if (pthread_mutex_trylock(&m) != EBUSY) fail("trylock"); pthread_mutex_unlock(&m); for (i = 0; i < 300 && !got; i++) Sleep(10); if (!got) fail("the waiter was not woken"); pthread_join(t, NULL); ok(); }
'''),
dict(id='inherit-sees-set', property='C29', needs='a thread with a priority set for it creating one that inherits, from attributes that ask for a CPU set',
 breaks='The CPU set of the attributes is only taken when the scheduling parameters are explicit.',
 edits=[('create.c', 'if (! CPU_EQUAL(&attr_cpuset, &none))', 'if (! CPU_EQUAL(&attr_cpuset, &none) && a->inheritsched != PTHREAD_INHERIT_SCHED)')],
 demo=r'''
 static cpu_set_t got; static void *th(void *a) { pthread_getaffinity_np(pthread_self(), sizeof got, &got); return 0; }
 int main(void) { pthread_t t; pthread_attr_t a; cpu_set_t c; watchdog(); CPU_ZERO(&c); CPU_SET(0, &c); pthread_attr_init(&a); pthread_attr_setinheritsched(&a, PTHREAD_INHERIT_SCHED); pthread_attr_setaffinity_np(&a, sizeof c, &c);
   pthread_create(&t, &a, th, 0); pthread_join(t, NULL); if (!CPU_EQUAL(&got, &c)) fail("the thread has other CPUs than asked for"); ok(); }
'''),
dict(id='delay-eats-request', property='C16', needs='a request made while the target is in pthread_delay_np with cancellation disabled before, enabled by it later',
 breaks='A delay with cancellation disabled ends at a request and takes it away: it is never acted upon.',
 edits=[('pthread_delay_np.c', '''  else
    {
      Sleep (wait_time);
    }
''', '''  else if (WaitForSingleObject (sp->cancelEvent, wait_time) == WAIT_OBJECT_0)
    {
      ResetEvent (sp->cancelEvent);
    }
''')],
 demo=r'''
 static volatile int in; static void *th(void *a) { int o; struct timespec d = {1, 0}; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); in = 1; pthread_delay_np(&d); pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o); d.tv_sec = 2; pthread_delay_np(&d); return (void *)5; }
 int main(void) { pthread_t t; void *v = 0; watchdog(); pthread_create(&t, NULL, th, 0); while (!in) Sleep(5); Sleep(200); pthread_cancel(t); pthread_join(t, &v); if (v != PTHREAD_CANCELED) fail("the request was lost"); ok(); }
'''),
dict(id='join-cancel-detaches', property='C14', needs='a joiner that is cancelled while it waits',
 breaks='A cancelled joiner detaches its target, which nobody can join any more.',
 edits=[('pthread_join.c', '''	  result = pthreadCancelableWait (tp->threadH);
''', '''	  pthread_cleanup_push ((ptw32_cleanup_callback_t) pthread_detach_by_ref, (void *) &thread);
	  result = pthreadCancelableWait (tp->threadH);
	  pthread_cleanup_pop (0);
'''), ('pthread_join.c', '''int
pthread_join (pthread_t thread, void **value_ptr)
''', '''static void PTW32_CDECL
pthread_detach_by_ref (void *thread)
{
  (void) pthread_detach (*(pthread_t *) thread);
}

int
pthread_join (pthread_t thread, void **value_ptr)
''')],
 demo=r'''
 static pthread_t a; static volatile int st; static void *th(void *p) { while (!st) Sleep(5); return (void *)7; } static void *jn(void *p) { pthread_join(a, NULL); return 0; }
 int main(void) { pthread_t j; void *v = 0; watchdog(); pthread_create(&a, NULL, th, 0); pthread_create(&j, NULL, jn, 0); Sleep(200); pthread_cancel(j); pthread_join(j, &v); if (v != PTHREAD_CANCELED) fail("joiner"); st = 1; if (pthread_join(a, &v)) fail("the target can not be joined any more"); if (v != (void *)7) fail("value"); ok(); }
'''),
dict(id='sem-timeout-keeps-count', property='C09', needs='a timed wait that times out at the moment it is posted',
 breaks='The post that arrives while the timed-out waiter gives up is handed on wrongly: one is lost.',
 edits=[('sem_timedwait.c', 'SEE', 'SEE')],
 demo=''),
]
SEEDS = SEEDS[:-1]
