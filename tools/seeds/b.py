SEEDS = [
dict(id='cond-broadcast-pending', property='C04', needs='a broadcast while a signalled waiter has not yet left the condition variable, and a later signal',
 breaks='The broadcast forgets the wake-up still under way, a waiter is counted as gone although it is not, and a later signal is lost.',
 edits=[('pthread_cond_signal.c', 'cv->nWaitersToUnblock += (nSignalsToIssue = cv->nWaitersBlocked);', 'cv->nWaitersToUnblock = (nSignalsToIssue = cv->nWaitersBlocked);')],
 demo=r'''
 static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t c = PTHREAD_COND_INITIALIZER; static volatile int woken, waiting;
 static void *th(void *a) { pthread_mutex_lock(&m); waiting++; pthread_cond_wait(&c, &m); woken++; pthread_mutex_unlock(&m); return 0; }
 int main(void) {
   pthread_t t[3], u; int i; watchdog();
   for (i = 0; i < 3; i++) pthread_create(&t[i], NULL, th, 0);
   while (waiting < 3) Sleep(10);
   Sleep(300);
   for (i = 0; i < 3; i++) SuspendThread(pthread_getw32threadhandle_np(t[i]));
   pthread_mutex_lock(&m); pthread_cond_signal(&c); pthread_cond_broadcast(&c); pthread_mutex_unlock(&m);
   for (i = 0; i < 3; i++) ResumeThread(pthread_getw32threadhandle_np(t[i]));
   for (i = 0; i < 3; i++) pthread_join(t[i], NULL);
   pthread_create(&u, NULL, th, 0); while (waiting < 4) Sleep(10); Sleep(300);
   pthread_mutex_lock(&m); pthread_cond_signal(&c); pthread_mutex_unlock(&m);
   for (i = 0; i < 300 && woken < 4; i++) Sleep(10);
   if (woken < 4) fail("signal lost");
   pthread_join(u, NULL); ok(); }
 '''),
dict(id='cond-destroy-one-waiter', property='C32', needs='pthread_cond_destroy while exactly one thread waits',
 breaks='The condition variable is torn down under its only waiter.',
 edits=[('pthread_cond_destroy.c', 'if (cv->nWaitersBlocked > cv->nWaitersGone)', 'if (cv->nWaitersBlocked - cv->nWaitersGone > 1)')],
 demo=r'''
 static pthread_mutex_t m = PTHREAD_MUTEX_INITIALIZER; static pthread_cond_t c = PTHREAD_COND_INITIALIZER; static volatile int woken, waiting;
 static void *th(void *a) { pthread_mutex_lock(&m); waiting++; pthread_cond_wait(&c, &m); woken++; pthread_mutex_unlock(&m); return 0; }
 int main(void) {
   pthread_t t; watchdog(); pthread_create(&t, NULL, th, 0); while (!waiting) Sleep(10); Sleep(300);
   if (pthread_cond_destroy(&c) != EBUSY) fail("not busy");
   if (c == NULL) fail("gone");
   pthread_mutex_lock(&m); if (pthread_cond_signal(&c)) fail("signal"); pthread_mutex_unlock(&m);
   pthread_join(t, NULL); if (pthread_cond_destroy(&c)) fail("destroy"); ok(); }
 '''),
dict(id='robust-list-unlink', property='C03', needs='a thread that locked several robust mutexes unlocks one that is not the last locked, then dies holding another',
 breaks='A released robust mutex stays in its former owner\'s list and is reported as left by a dead owner.',
 edits=[('pthread_mutex_consistent.c', '''  if (robust->prev != NULL)
    {
      robust->prev->next = robust->next;
    }''', '''  if (robust->prev != NULL && robust->next != NULL)
    {
      robust->prev->next = robust->next;
    }''')],
 demo=r'''
 static pthread_mutex_t a, b;
 static void *th(void *x) { pthread_mutex_lock(&a); pthread_mutex_lock(&b); pthread_mutex_unlock(&a); return 0; }
 int main(void) {
   pthread_t t; pthread_mutexattr_t ma; int r; watchdog();
   pthread_mutexattr_init(&ma); pthread_mutexattr_setrobust(&ma, PTHREAD_MUTEX_ROBUST); pthread_mutex_init(&a, &ma); pthread_mutex_init(&b, &ma);
   pthread_create(&t, NULL, th, 0); pthread_join(t, NULL);
   if ((r = pthread_mutex_lock(&b)) != EOWNERDEAD) fail("owner death not reported");
   if ((r = pthread_mutex_lock(&a)) != 0) fail("a released mutex is reported as left by a dead owner");
   pthread_mutex_unlock(&a); pthread_mutex_consistent(&b); pthread_mutex_unlock(&b); ok(); }
 '''),
dict(id='tsd-delete-in-destructor', property='C19', needs='a destructor that deletes the key whose destructor is next in line',
 breaks='The walk over the thread\'s values continues with a freed entry.',
 edits=[('ptw32_tkAssocDestroy.c', 'if (assoc->thread->nextAssoc == assoc)', 'if (assoc->thread->nextAssoc == assoc && prev == NULL)')],
 link='-Wl,--wrap=free',
 demo=r'''
 static pthread_key_t k1, k2, k3; static volatile int n1, n2, n3;
 void __real_free(void *p); void __wrap_free(void *p) { if (p) memset(p, 0xdd, _msize(p)); __real_free(p); }
 static void d1(void *v) { n1++; } static void d2(void *v) { n2++; }
 static void d3(void *v) { n3++; pthread_key_delete(k2); }
 static void *th(void *a) { pthread_setspecific(k1, &k1); pthread_setspecific(k2, &k2); pthread_setspecific(k3, &k3); return 0; }
 int main(void) {
   pthread_t t; watchdog(); pthread_key_create(&k1, d1); pthread_key_create(&k2, d2); pthread_key_create(&k3, d3);
   pthread_create(&t, NULL, th, 0); pthread_join(t, NULL);
   if (n3 != 1 || n2 != 0 || n1 != 1) fail("destructors"); ok(); }
 '''),
dict(id='setcanceltype-disabled', property='C17', needs='a thread with cancellation disabled and a request pending switches to asynchronous cancellation',
 breaks='The pending request is acted upon although cancellation is disabled.',
 edits=[('pthread_setcanceltype.c', 'if (sp->cancelState == PTHREAD_CANCEL_ENABLE', 'if (sp->state == PThreadStateCancelPending')],
 demo=r'''
 static volatile int go, up; static sem_t s;
 static void *th(void *a) { int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); up = 1; while (!go) Sleep(10);
   pthread_setcanceltype(PTHREAD_CANCEL_ASYNCHRONOUS, &o); pthread_setcanceltype(PTHREAD_CANCEL_DEFERRED, &o); return (void *)7; }
 int main(void) { pthread_t t; void *v; watchdog(); pthread_create(&t, NULL, th, 0); while (!up) Sleep(10); if (pthread_cancel(t)) fail("cancel"); go = 1; pthread_join(t, &v);
   if (v != (void *)7) fail("cancelled while disabled"); ok(); }
 '''),
dict(id='setcancelstate-acts', property='C16', needs='a request made while a deferred-cancellation thread has cancellation disabled, which it then enables',
 breaks='Enabling cancellation acts on the request at once instead of at the next cancellation point.',
 edits=[('pthread_setcancelstate.c', '''      && sp->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS
''', '''      && (sp->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS || sp->state == PThreadStateCancelPending)
''')],
 demo=r'''
 static volatile int go, up, past;
 static void *th(void *a) { int o; pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o); up = 1; while (!go) Sleep(10);
   pthread_setcancelstate(PTHREAD_CANCEL_ENABLE, &o); past = 1; pthread_testcancel(); past = 2; return 0; }
 int main(void) { pthread_t t; void *v; watchdog(); pthread_create(&t, NULL, th, 0); while (!up) Sleep(10); if (pthread_cancel(t)) fail("cancel"); go = 1; pthread_join(t, &v);
   if (v != PTHREAD_CANCELED || past != 1) fail("not acted upon at the cancellation point"); ok(); }
 '''),
dict(id='rwlock-cancel-count', property='C08', needs='a writer that gives up after some of the readers it waited for have left',
 breaks='The readers that left while the writer waited stay counted, so that the next writer waits for ever.',
 edits=[('ptw32_rwlock_cancelwrwait.c', 'rwl->nSharedAccessCount = -rwl->nCompletedSharedAccessCount;', 'if (rwl->nSharedAccessCount < -rwl->nCompletedSharedAccessCount)\n    rwl->nSharedAccessCount = -rwl->nCompletedSharedAccessCount;')],
 demo=r'''
 static pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; static volatile int st;
 static void *rd(void *a) { pthread_rwlock_rdlock(&l); st++; while (st < 3) Sleep(10); pthread_rwlock_unlock(&l); st++; while (st < 5) Sleep(10); return 0; }
 static void *wr(void *a) { struct timespec ts = in_ms(2000); if (pthread_rwlock_timedwrlock(&l, &ts) != ETIMEDOUT) fail("writer"); st = 5; return 0; }
 int main(void) { pthread_t r, w; struct timespec ts; watchdog(); pthread_rwlock_rdlock(&l); pthread_create(&r, NULL, rd, 0); while (st < 1) Sleep(10);
   pthread_create(&w, NULL, wr, 0); Sleep(500); st = 3; pthread_join(w, NULL); pthread_join(r, NULL); pthread_rwlock_unlock(&l);
   ts = in_ms(2000); if (pthread_rwlock_timedwrlock(&l, &ts)) fail("the free lock cannot be had"); ok(); }
 '''),
dict(id='create-resume-early', property='C29', needs='the new thread running before its creator continues after resuming it',
 breaks='The thread is started before its CPU set is applied.',
 edits=[('create.c', """#if defined(HAVE_CPU_AFFINITY)

      if (0 == SetThreadAffinityMask""", """      if (run)
        {
          ResumeThread (threadH);
        }

#if defined(HAVE_CPU_AFFINITY)

      if (0 == SetThreadAffinityMask"""), ('create.c', """#endif

      if (run)
        {
          ResumeThread (threadH);
        }
    }""", """#endif
    }""")],
 demo=r'''
 extern void *__imp_ResumeThread; static DWORD (WINAPI *real)(HANDLE); static DWORD WINAPI slow(HANDLE h) { DWORD r = real(h); Sleep(500); return r; }
 static volatile DWORD_PTR got;
 static void *th(void *a) { got = SetThreadAffinityMask(GetCurrentThread(), 1); return 0; }
 int main(void) { pthread_t t; pthread_attr_t a; cpu_set_t c; DWORD_PTR p, s; int k; DWORD o; watchdog();
   GetProcessAffinityMask(GetCurrentProcess(), &p, &s); for (k = 0; k < 60 && !(p >> (k + 1)); k++) {} 
   for (k = 1; k < 60 && !(p >> k & 1); k++) {}
   if (k == 60) ok();
   pthread_attr_init(&a); CPU_ZERO(&c); CPU_SET(k, &c); pthread_attr_setaffinity_np(&a, sizeof c, &c);
   VirtualProtect(&__imp_ResumeThread, 8, PAGE_READWRITE, &o); real = __imp_ResumeThread; __imp_ResumeThread = slow;
   if (pthread_create(&t, &a, th, 0)) fail("create"); pthread_join(t, NULL);
   if (got != (DWORD_PTR)1 << k) fail("the thread ran without its CPU set"); ok(); }
 '''),
dict(id='sched-refused-recorded', property='C27', needs='SetThreadPriority refused by the system',
 breaks='A priority that could not be set is reported as the thread\'s priority.',
 edits=[('pthread_setschedparam.c', '''  ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
''', '''  ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
  tp->sched_priority = priority;
'''), ('pthread_setschedparam.c', '''      result = EINVAL;
    }
  else
    {''', '''      result = EINVAL;
    }
  if (result == 0)
    {''')],
 demo=r'''
 extern void *__imp_SetThreadPriority; static BOOL WINAPI no(HANDLE h, int p) { return FALSE; }
 int main(void) { struct sched_param p; int pol; DWORD o; watchdog(); p.sched_priority = 1; if (pthread_setschedparam(pthread_self(), SCHED_OTHER, &p)) fail("set");
   VirtualProtect(&__imp_SetThreadPriority, 8, PAGE_READWRITE, &o); __imp_SetThreadPriority = no;
   p.sched_priority = 2; if (pthread_setschedparam(pthread_self(), SCHED_OTHER, &p) == 0) fail("reported success");
   if (pthread_getschedparam(pthread_self(), &pol, &p) || p.sched_priority != 1) fail("refused priority reported"); ok(); }
 '''),
dict(id='cond-init-second-sem', property='C21', needs='the second of the two semaphores of a condition variable cannot be created',
 breaks='The first semaphore is leaked.',
 edits=[('pthread_cond_init.c', '''      result = PTW32_GET_ERRNO();
      goto FAIL1;''', '''      result = PTW32_GET_ERRNO();
      goto FAIL0;''')],
 demo=r'''
 extern void *__imp_CreateSemaphoreA, *__imp_CloseHandle; static int n, c; static HANDLE (WINAPI *real)(void *, LONG, LONG, LPCSTR); static BOOL (WINAPI *rc)(HANDLE);
 static HANDLE WINAPI cs(void *a, LONG i, LONG m, LPCSTR s) { if (++n == 2) { SetLastError(ERROR_NOT_ENOUGH_MEMORY); return NULL; } return real(a, i, m, s); }
 static BOOL WINAPI ch(HANDLE h) { c++; return rc(h); }
 int main(void) { pthread_cond_t cv; DWORD o; watchdog(); pthread_self();
   VirtualProtect(&__imp_CreateSemaphoreA, 8, PAGE_READWRITE, &o); real = __imp_CreateSemaphoreA; __imp_CreateSemaphoreA = cs; VirtualProtect(&__imp_CloseHandle, 8, PAGE_READWRITE, &o); rc = __imp_CloseHandle; __imp_CloseHandle = ch;
   if (pthread_cond_init(&cv, NULL) == 0) fail("succeeded"); if (n != 2) fail("setup"); if (c != 1) fail("semaphore leaked"); ok(); }
 '''),
dict(id='rwlock-static-twice', property='C13', needs='two threads making the first use of a static read-write lock at the same moment',
 breaks='Both initialise it: they hold two different locks.',
 edits=[('ptw32_rwlock_check_need_init.c', 'if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)', 'if (*rwlock != NULL)')],
 link='-Wl,--wrap=calloc',
 demo=r'''
 static pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER; static volatile LONG slow, in; static volatile int bad;
 void *__real_calloc(size_t a, size_t b); void *__wrap_calloc(size_t a, size_t b) { if (InterlockedExchange(&slow, 0)) Sleep(700); return __real_calloc(a, b); }
 static void *th(void *a) { pthread_rwlock_wrlock(&l); if (InterlockedIncrement(&in) != 1) bad = 1; Sleep(500); InterlockedDecrement(&in); pthread_rwlock_unlock(&l); return 0; }
 int main(void) { pthread_t t[2]; watchdog(); pthread_create(&t[0], NULL, th, 0); pthread_join(t[0], NULL);
   if (bad) fail("setup"); l = PTHREAD_RWLOCK_INITIALIZER; slow = 0;
   { pthread_attr_t a; pthread_attr_init(&a); pthread_create(&t[0], &a, th, 0); slow = 1; Sleep(200); pthread_create(&t[1], &a, th, 0); }
   pthread_join(t[0], NULL); pthread_join(t[1], NULL); if (bad) fail("two writers"); ok(); }
 '''),
dict(id='timedlock-recursive-depth', property='C02', needs='a recursive mutex relocked by its owner with pthread_mutex_timedlock',
 breaks='The relock is not counted, so that the first unlock releases the mutex to others.',
 edits=[('pthread_mutex_timedlock.c', '''if (mx->kind == PTHREAD_MUTEX_RECURSIVE)
		    {
		      mx->recursive_count++;''', '''if (mx->kind == PTHREAD_MUTEX_RECURSIVE)
		    {
		      mx->recursive_count += mx->lock_idx > 0;''')],
 demo=r'''
 static pthread_mutex_t m; static volatile int r;
 static void *w(void *a) { struct timespec ts = in_ms(1500); pthread_mutex_timedlock(&m, &ts); return 0; }
 static void *tr(void *a) { r = pthread_mutex_trylock(&m); if (r == 0) pthread_mutex_unlock(&m); return 0; }
 int main(void) { pthread_t t; pthread_mutexattr_t a; struct timespec ts; watchdog(); pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m, &a);
   pthread_mutex_lock(&m); pthread_create(&t, NULL, w, 0); Sleep(300); ts = in_ms(10000); if (pthread_mutex_timedlock(&m, &ts)) fail("relock"); pthread_join(t, NULL);
   pthread_mutex_unlock(&m); pthread_create(&t, NULL, tr, 0); pthread_join(t, NULL); if (r != EBUSY) fail("released too early"); pthread_mutex_unlock(&m); ok(); }
 '''),
]
