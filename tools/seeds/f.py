HOOK = r"""
 static void patch(void **slot, void *to) { DWORD o; VirtualProtect(slot, sizeof *slot, PAGE_READWRITE, &o); *slot = to; }
"""
SEEDS = [
dict(id='recursion-depth-short', property='C02', needs='more than 65535 nested locks of a recursive mutex',
 breaks='The depth of a recursive mutex is kept in sixteen bits: after 65536 nested locks one unlock lets others in, or the count wraps to an unowned one.',
 edits=[('implement.h', 'int recursive_count;', 'unsigned short recursive_count;')],
 demo=r"""
 static pthread_mutex_t m; static volatile int r;
 static void *t(void *a) { r = pthread_mutex_trylock(&m); return 0; }
 int main(void) { pthread_t th; pthread_mutexattr_t a; int i; watchdog(); pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m, &a);
   for (i = 0; i < 65537; i++) if (pthread_mutex_lock(&m)) fail("lock");
   if (pthread_mutex_unlock(&m)) fail("unlock");
   pthread_create(&th, 0, t, 0); pthread_join(th, 0); if (r != EBUSY) fail("another thread got in"); ok(); }
"""),
dict(id='barrier-cancel-point', property='C10', needs='a deferred cancel of a thread that waits at a barrier',
 breaks='pthread_barrier_wait becomes a cancellation point: a party that is cancelled leaves and its place is never made up.',
 edits=[('pthread_barrier_wait.c', 'result = ptw32_semwait (&(b->semBarrierBreeched));', 'result = (0 == sem_wait (&(b->semBarrierBreeched))) ? 0 : PTW32_GET_ERRNO();')],
 demo=r"""
 static pthread_barrier_t b; static volatile int passed;
 static void *t(void *a) { pthread_barrier_wait(&b); passed = 1; pthread_testcancel(); return 0; }
 int main(void) { pthread_t th; void *v; watchdog(); pthread_barrier_init(&b, 0, 2); pthread_create(&th, 0, t, 0); Sleep(300); pthread_cancel(th); Sleep(300);
   pthread_barrier_wait(&b); pthread_join(th, &v); if (!passed) fail("a party left the barrier before all had arrived"); ok(); }
"""),
dict(id='settype-stores-first', property='C30', needs='a refused pthread_mutexattr_settype on an attribute object that is used afterwards',
 breaks='An invalid mutex type is refused but stored: the attribute object has lost its earlier setting.',
 edits=[('pthread_mutexattr_settype.c', """switch (kind)
	{
	case PTHREAD_MUTEX_FAST_NP:
	case PTHREAD_MUTEX_RECURSIVE_NP:
	case PTHREAD_MUTEX_ERRORCHECK_NP:
	  (*attr)->kind = kind;
	  break;
	default:""", """(*attr)->kind = kind;
      switch (kind)
	{
	case PTHREAD_MUTEX_FAST_NP:
	case PTHREAD_MUTEX_RECURSIVE_NP:
	case PTHREAD_MUTEX_ERRORCHECK_NP:
	  break;
	default:""")],
 demo=r"""
 int main(void) { pthread_mutexattr_t a; int k = -1; watchdog(); pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_ERRORCHECK); 
   if (pthread_mutexattr_settype(&a, 77) != EINVAL) fail("invalid type accepted"); pthread_mutexattr_gettype(&a, &k); if (k != PTHREAD_MUTEX_ERRORCHECK) fail("setting lost"); ok(); }
"""),
dict(id='rwlock-destroy-partial', property='C32', needs='pthread_rwlock_destroy while one of several overlapping readers has left and another has not',
 breaks='A read-write lock is destroyed under a reader as soon as one of the readers since the last writer has finished.',
 edits=[('pthread_rwlock_destroy.c', '|| rwl->nSharedAccessCount > rwl->nCompletedSharedAccessCount)', '|| (rwl->nSharedAccessCount > 0 && rwl->nCompletedSharedAccessCount == 0))')],
 demo=r"""
 int main(void) { pthread_rwlock_t l; watchdog(); pthread_rwlock_init(&l, 0); pthread_rwlock_rdlock(&l); pthread_rwlock_rdlock(&l); pthread_rwlock_unlock(&l);
   if (pthread_rwlock_destroy(&l) != EBUSY) fail("destroyed while read-locked"); if (pthread_rwlock_unlock(&l)) fail("unlock"); if (pthread_rwlock_destroy(&l)) fail("destroy"); ok(); }
"""),
dict(id='create-parms-leak', property='C21', needs='pthread_create failing because the system refuses the thread',
 breaks='A refused thread creation leaves its parameter block behind.',
 edits=[('create.c', """if (parms != NULL)
        {
          free (parms);
        }
    }
  else""", """parms = NULL;
    }
  else""")],
 link='-Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc',
 demo=HOOK + r"""
 extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t); extern void __real_free(void *); static volatile long live;
 void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) live++; return p; }
 void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) live++; return p; }
 void __wrap_free(void *p) { if (p) live--; __real_free(p); }
 extern void *__imp__beginthreadex; static uintptr_t refused(void *s, unsigned z, unsigned (__stdcall *f)(void *), void *a, unsigned fl, unsigned *i) { errno = EAGAIN; return 0; }
 static void *t(void *a) { return a; }
 int main(void) { pthread_t th; long n; int i; watchdog(); pthread_create(&th, 0, t, 0); pthread_join(th, 0); patch(&__imp__beginthreadex, refused); if (pthread_create(&th, 0, t, 0) != EAGAIN) fail("create not refused");
   n = live; for (i = 0; i < 50; i++) if (pthread_create(&th, 0, t, 0) != EAGAIN) fail("create not refused"); if (live > n + 5) fail("memory lost"); ok(); }
"""),
dict(id='tryjoin-busy-value', property='C14', needs='pthread_tryjoin_np on a running thread with a result variable that is used afterwards',
 breaks='An attempted join that fails with EBUSY overwrites the result variable of the caller.',
 edits=[('pthread_tryjoin_np.c', """if (0 == result)
            {
              if (value_ptr != NULL)""", """if (value_ptr != NULL && ETIMEDOUT == result)
            {
              *value_ptr = tp->exitStatus;
            }
          if (0 == result)
            {
              if (value_ptr != NULL)""")],
 demo=r"""
 static HANDLE e; static void *t(void *a) { WaitForSingleObject(e, INFINITE); return a; }
 int main(void) { pthread_t th; void *v = (void *)77; watchdog(); e = CreateEvent(0, 1, 0, 0); pthread_create(&th, 0, t, (void *)5); Sleep(100);
   if (pthread_tryjoin_np(th, &v) != EBUSY) fail("not busy"); if (v != (void *)77) fail("result variable changed"); SetEvent(e); pthread_join(th, &v); if (v != (void *)5) fail("value"); ok(); }
"""),
dict(id='cpu-count-low', property='C24', needs='a CPU set with members above 31',
 breaks='CPU_COUNT does not count members of the upper half of a set.',
 edits=[('sched_setaffinity.c', """size_t tset;
  int count;""", """unsigned int tset;
  int count;""")],
 demo=r"""
 int main(void) { cpu_set_t s; watchdog(); CPU_ZERO(&s); CPU_SET(3, &s); CPU_SET(40, &s); CPU_SET(63, &s); if (CPU_COUNT(&s) != 3) fail("count"); ok(); }
"""),
dict(id='delay-truncates', property='C20', needs='a delay that is not a whole number of milliseconds',
 breaks='pthread_delay_np rounds down: it returns up to a millisecond before the interval has passed.',
 edits=[('pthread_delay_np.c', '(interval->tv_nsec + 999999L) / 1000000L', 'interval->tv_nsec / 1000000L')],
 demo=r"""
 int main(void) { struct timespec d = { 0, 1999999 }; LARGE_INTEGER f, a, b; int i; watchdog(); QueryPerformanceFrequency(&f); QueryPerformanceCounter(&a);
   d.tv_nsec = 999999; for (i = 0; i < 300; i++) pthread_delay_np(&d); QueryPerformanceCounter(&b);
   if ((b.QuadPart - a.QuadPart) * 1000 / f.QuadPart < 200) fail("delays too short"); ok(); }
"""),
dict(id='destructor-rounds', property='C19', needs='a destructor that sets its key again until the last of PTHREAD_DESTRUCTOR_ITERATIONS rounds',
 breaks='One round of destructors fewer than PTHREAD_DESTRUCTOR_ITERATIONS promises is made at the end of a thread.',
 edits=[('ptw32_callUserDestroyRoutines.c', 'value != NULL && iterations <= PTHREAD_DESTRUCTOR_ITERATIONS', 'value != NULL && iterations < PTHREAD_DESTRUCTOR_ITERATIONS')],
 demo=r"""
 static pthread_key_t k; static volatile int n; static void d(void *v) { if (++n < PTHREAD_DESTRUCTOR_ITERATIONS) pthread_setspecific(k, v); }
 static void *t(void *a) { pthread_setspecific(k, (void *)1); return a; }
 int main(void) { pthread_t th; watchdog(); pthread_key_create(&k, d); pthread_create(&th, 0, t, 0); pthread_join(th, 0); if (n != PTHREAD_DESTRUCTOR_ITERATIONS) fail("rounds missing"); ok(); }
"""),
dict(id='once-done-late', property='C12', needs='a caller that waits for another one\'s initialisation and gets in between the release of the control and the mark',
 breaks='The once control is marked done after its lock has been released: a waiting caller can run the routine again.',
 edits=[('pthread_once.c', """once_control->done = PTW32_TRUE;
	}

      ptw32_mcs_lock_release(&node);""", """}

      ptw32_mcs_lock_release(&node);
      once_control->done = PTW32_TRUE;""")],
 demo=HOOK + r"""
 extern void *__imp_SetEvent; static BOOL (WINAPI *real)(HANDLE); static volatile int slow, n; static pthread_once_t o = PTHREAD_ONCE_INIT;
 static BOOL WINAPI mine(HANDLE h) { BOOL r = real(h); if (slow) Sleep(300); return r; }
 static void PTW32_CDECL init(void) { n++; Sleep(300); slow = 1; } static void *t(void *a) { pthread_once(&o, init); return a; }
 int main(void) { pthread_t a, b; watchdog(); real = __imp_SetEvent; patch(&__imp_SetEvent, mine); pthread_create(&a, 0, t, 0); pthread_create(&b, 0, t, 0); Sleep(100); pthread_once(&o, init); pthread_join(a, 0); pthread_join(b, 0); if (n != 1) fail("routine ran again"); ok(); }
"""),
dict(id='trywrlock-keeps-completed', property='C07', needs='readers, then pthread_rwlock_trywrlock, then a reader and a second writer',
 breaks='pthread_rwlock_trywrlock leaves the count of finished readers in place: a later reader is taken for finished and a writer gets in beside it.',
 edits=[('pthread_rwlock_trywrlock.c', """rwl->nSharedAccessCount -= rwl->nCompletedSharedAccessCount;
	  rwl->nCompletedSharedAccessCount = 0;""", """rwl->nSharedAccessCount -= rwl->nCompletedSharedAccessCount;""")],
 demo=r"""
 int main(void) { pthread_rwlock_t l; watchdog(); pthread_rwlock_init(&l, 0); pthread_rwlock_rdlock(&l); pthread_rwlock_unlock(&l); if (pthread_rwlock_trywrlock(&l)) fail("try"); pthread_rwlock_unlock(&l);
   pthread_rwlock_rdlock(&l); if (pthread_rwlock_trywrlock(&l) != EBUSY) fail("writer beside a reader"); pthread_rwlock_unlock(&l); ok(); }
"""),
dict(id='reuse-list-lost', property='C22', needs='threads that are created and joined one after the other',
 breaks='Taking the last record off the list of ended threads leaves its end pointing at it: records pushed afterwards are lost and every thread allocates a new one.',
 edits=[('ptw32_reuse.c', """if (PTW32_THREAD_REUSE_EMPTY == ptw32_threadReuseTop)
        {
          ptw32_threadReuseBottom = PTW32_THREAD_REUSE_EMPTY;
        }

      tp->prevReuse""", "tp->prevReuse")],
 link='-Wl,--wrap=free -Wl,--wrap=malloc -Wl,--wrap=calloc',
 demo=r"""
 extern void *__real_malloc(size_t), *__real_calloc(size_t, size_t); extern void __real_free(void *); static volatile long live;
 void *__wrap_malloc(size_t n) { void *p = __real_malloc(n); if (p) InterlockedIncrement(&live); return p; }
 void *__wrap_calloc(size_t n, size_t m) { void *p = __real_calloc(n, m); if (p) InterlockedIncrement(&live); return p; }
 void __wrap_free(void *p) { if (p) InterlockedDecrement(&live); __real_free(p); }
 static void *t(void *a) { return a; }
 int main(void) { pthread_t th; long n; int i; watchdog(); for (i = 0; i < 3; i++) { pthread_create(&th, 0, t, 0); pthread_join(th, 0); } Sleep(200); n = live;
   for (i = 0; i < 60; i++) { pthread_create(&th, 0, t, 0); pthread_join(th, 0); } Sleep(200); if (live > n + 20) fail("memory lost"); ok(); }
"""),
dict(id='destroy-recursive-held', property='C32', needs='pthread_mutex_destroy of a recursive mutex by the thread that holds it once',
 breaks='A recursive mutex is destroyed although the caller still holds it.',
 edits=[('pthread_mutex_destroy.c', '|| 1 == mx->recursive_count)', '|| 2 >= mx->recursive_count)')],
 demo=r"""
 int main(void) { pthread_mutex_t m; pthread_mutexattr_t a; watchdog(); pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, PTHREAD_MUTEX_RECURSIVE); pthread_mutex_init(&m, &a); pthread_mutex_lock(&m);
   if (pthread_mutex_destroy(&m) != EBUSY) fail("destroyed while held"); if (pthread_mutex_unlock(&m)) fail("unlock"); if (pthread_mutex_destroy(&m)) fail("destroy"); ok(); }
"""),
]
