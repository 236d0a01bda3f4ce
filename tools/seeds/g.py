HOOK = r"""
 static void patch(void **slot, void *to) { DWORD o; VirtualProtect(slot, sizeof *slot, PAGE_READWRITE, &o); *slot = to; }
"""
SEEDS = [
dict(id='affinity-unlocked', property='C15', needs='a detached thread that ends, and a new one that takes over its memory, while pthread_setaffinity_np for the first is looking at the CPUs of the process',
 breaks='The lock that keeps the identified thread in place is given up too early: the CPU set is applied to the thread that took over the memory, or to a closed handle.',
 edits=[('pthread_setaffinity.c', """	  if (cpuset)
		{
		  if (sched_getaffinity(""", """	  ptw32_mcs_lock_release (&node);

	  if (cpuset)
		{
		  if (sched_getaffinity("""),
        ('pthread_setaffinity.c', """		  result = EFAULT;
		}
	}

  ptw32_mcs_lock_release (&node);

  return""", """		  result = EFAULT;
		}

	  return result;
	}

  ptw32_mcs_lock_release (&node);

  return""")],
 demo=HOOK + r"""
 extern void *__imp_GetProcessAffinityMask; static BOOL (WINAPI *real)(HANDLE, PDWORD_PTR, PDWORD_PTR); static volatile int armed; static HANDLE go, stop; static pthread_t nt; static volatile int count; static cpu_set_t all;
 static BOOL WINAPI mine(HANDLE h, PDWORD_PTR a, PDWORD_PTR b) { BOOL r = real(h, a, b); if (armed) { armed = 0; SetEvent(go); Sleep(700); } return r; }
 static void *t(void *a) { WaitForSingleObject(go, INFINITE); return a; }
 static void *u(void *a) { cpu_set_t c; WaitForSingleObject(stop, INFINITE); pthread_getaffinity_np(pthread_self(), sizeof c, &c); count = CPU_COUNT(&c); return a; }
 static void *maker(void *a) { WaitForSingleObject(go, INFINITE); Sleep(200); pthread_create(&nt, 0, u, 0); return a; }
 int main(void) { pthread_t th, mk; cpu_set_t one; watchdog(); go = CreateEvent(0, 1, 0, 0); stop = CreateEvent(0, 1, 0, 0); sched_getaffinity(0, sizeof all, &all); if (CPU_COUNT(&all) < 2) ok();
   pthread_create(&th, 0, t, 0); pthread_detach(th); pthread_create(&mk, 0, maker, 0); Sleep(200); real = __imp_GetProcessAffinityMask; patch(&__imp_GetProcessAffinityMask, mine);
   CPU_ZERO(&one); CPU_SET(0, &one); if (!CPU_ISSET(0, &all)) ok(); armed = 1; pthread_setaffinity_np(th, sizeof one, &one); pthread_join(mk, 0); SetEvent(stop); pthread_join(nt, 0);
   if (count != CPU_COUNT(&all)) fail("the CPU set reached another thread"); ok(); }
"""),
dict(id='cancelstate-stored-first', property='C35', needs='pthread_setcancelstate with an invalid state, then a use of the state',
 breaks='An invalid cancel state is refused but stored.',
 edits=[('pthread_setcancelstate.c', """  if (sp == NULL
      || (state != PTHREAD_CANCEL_ENABLE && state != PTHREAD_CANCEL_DISABLE))
    {
      return EINVAL;
    }
""", """  if (sp == NULL)
    {
      return EINVAL;
    }

  if (state != PTHREAD_CANCEL_ENABLE && state != PTHREAD_CANCEL_DISABLE)
    {
      result = EINVAL;
    }
""")],
 demo=r"""
 int main(void) { int o = -1; watchdog(); if (pthread_setcancelstate(77, &o) != EINVAL) fail("accepted"); o = -1; if (pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, &o)) fail("set"); if (o != PTHREAD_CANCEL_ENABLE) fail("state lost"); ok(); }
"""),
dict(id='kill-any-signal', property='C35', needs='pthread_kill with a signal number that is not supported',
 breaks='An unsupported signal is refused, but the thread is marked as ended and can no longer be cancelled or killed.',
 edits=[('pthread_kill.c', """      default:
          result = EINVAL;
          break;""", """      default:
          tp->state = PThreadStateLast;
          result = EINVAL;
          break;""")],
 demo=r"""
 static HANDLE e; static void *t(void *a) { while (WaitForSingleObject(e, 20) != WAIT_OBJECT_0) pthread_testcancel(); return a; }
 int main(void) { pthread_t th; void *v = 0; watchdog(); e = CreateEvent(0, 1, 0, 0); pthread_create(&th, 0, t, 0); Sleep(100); if (pthread_kill(th, 77) != EINVAL) fail("accepted");
   if (pthread_cancel(th)) fail("can no longer be cancelled"); Sleep(500); SetEvent(e); pthread_join(th, &v); if (v != PTHREAD_CANCELED) fail("request lost"); ok(); }
"""),
dict(id='sem-init-clears', property='C35', needs='sem_init refused for its value or for sharing, on a semaphore that is in use',
 breaks='A refused sem_init overwrites the semaphore it was given.',
 edits=[('sem_init.c', """  if (result != 0)
    {
      PTW32_SET_ERRNO(result);
      return -1;
    }

  *sem = s;
""", """  *sem = s;

  if (result != 0)
    {
      PTW32_SET_ERRNO(result);
      return -1;
    }
""")],
 demo=r"""
 int main(void) { sem_t s; int v = -1; watchdog(); sem_init(&s, 0, 2); if (sem_init(&s, 0, 0x80000000u) != -1 || errno != EINVAL) fail("value accepted"); if (sem_init(&s, 1, 0) != -1) fail("sharing accepted");
   if (sem_getvalue(&s, &v) || v != 2) fail("semaphore lost"); if (sem_wait(&s)) fail("wait"); ok(); }
"""),
dict(id='trywrlock-keeps-gate', property='C08', needs='pthread_rwlock_trywrlock at the moment a reader is counting itself out',
 breaks='A try for the write lock that fails because a reader is just leaving keeps the gate of the lock: everybody after it blocks for good.',
 edits=[('pthread_rwlock_trywrlock.c', """      result1 = pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
      return ((result1 != 0) ? result1 : result);""", """      result1 = 0;
      return ((result1 != 0) ? result1 : result);""")],
 demo=HOOK + r"""
 extern void *__imp_SetEvent; static BOOL (WINAPI *real)(HANDLE); static pthread_rwlock_t l; static volatile int stop, turns;
 static void *t(void *a) { while (!stop) { pthread_rwlock_rdlock(&l); pthread_rwlock_unlock(&l); InterlockedIncrement((LONG *)&turns); } return a; }
 int main(void) { pthread_t th[4]; int i, j; watchdog(); pthread_rwlock_init(&l, 0); for (i = 0; i < 4; i++) pthread_create(&th[i], 0, t, 0);
   for (j = 0; j < 60; j++) { int was; for (i = 0; i < 20000; i++) if (!pthread_rwlock_trywrlock(&l)) pthread_rwlock_unlock(&l); was = turns; for (i = 0; i < 400 && turns == was; i++) Sleep(10); if (turns == was) fail("everybody is blocked"); }
   stop = 1; for (i = 0; i < 4; i++) pthread_join(th[i], 0); ok(); }
"""),
dict(id='timedwait-looks-unlocked', property='C09', needs='a post between the last look of a timed out sem_timedwait at the semaphore and its taking the lock',
 breaks='A sem_timedwait that times out looks for a late post before it takes the lock: a post in between is counted twice and lets one thread too many pass.',
 edits=[('sem_timedwait.c', """  ptw32_mcs_lock_acquire(&s->lock, &node);
  /*
   * We either timed out or were cancelled.
   * If someone has posted between then and now we try to take the semaphore.
   * Otherwise the semaphore count may be wrong after we return.
   */
  posted = (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0);
""", """  /*
   * We either timed out or were cancelled.
   * If someone has posted between then and now we try to take the semaphore.
   * Otherwise the semaphore count may be wrong after we return.
   */
  posted = (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0);
  ptw32_mcs_lock_acquire(&s->lock, &node);
""")],
 demo=HOOK + r"""
 extern void *__imp_WaitForSingleObject; static DWORD (WINAPI *real)(HANDLE, DWORD); static volatile int armed; static HANDLE looked; static sem_t s; static int r1;
 static DWORD WINAPI mine(HANDLE h, DWORD t) { DWORD r = real(h, t); if (armed && t == 0 && r == WAIT_TIMEOUT) { armed = 0; SetEvent(looked); Sleep(500); } return r; }
 static struct timespec in(int ms) { struct timespec t; pthread_win32_getabstime_np(&t, 0); t.tv_nsec += ms * 1000000L; while (t.tv_nsec >= 1000000000L) { t.tv_nsec -= 1000000000L; t.tv_sec++; } return t; }
 static void *w(void *a) { struct timespec ts = in(300); pthread_setcancelstate(PTHREAD_CANCEL_DISABLE, 0); armed = 1; r1 = sem_timedwait(&s, &ts); return a; }
 int main(void) { pthread_t th; struct timespec ts; int got; watchdog(); looked = CreateEvent(0, 1, 0, 0); sem_init(&s, 0, 0); real = __imp_WaitForSingleObject; patch(&__imp_WaitForSingleObject, mine);
   pthread_create(&th, 0, w, 0); real(looked, 3000); sem_post(&s); pthread_join(th, 0); got = r1 == 0;
   while (got < 9) { ts = in(100); if (sem_timedwait(&s, &ts)) break; got++; }
   if (got != 1) fail("one post let several or none pass"); ok(); }
"""),
]
