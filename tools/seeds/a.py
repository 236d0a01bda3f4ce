SEEDS = [
dict(id='barrier-destroy-one-waiter', property='C10', needs='pthread_barrier_destroy while exactly one thread waits at the barrier',
 breaks='The refused destroy replaces the semaphore the waiting thread sleeps on, which is never released again.',
 edits=[('pthread_barrier_destroy.c', 'if (b->nCurrentBarrierHeight < b->nInitialBarrierHeight)', 'if (b->nCurrentBarrierHeight + 1 < b->nInitialBarrierHeight)')],
 demo=r'''
 static pthread_barrier_t b;
 static void *th(void *a) { pthread_barrier_wait(&b); return 0; }
 int main(void) {
   pthread_t t[2]; watchdog();
   pthread_barrier_init(&b, NULL, 3);
   pthread_create(&t[0], NULL, th, 0); Sleep(300);
   if (pthread_barrier_destroy(&b) != EBUSY) fail("not busy");
   pthread_create(&t[1], NULL, th, 0); Sleep(100);
   pthread_barrier_wait(&b);
   pthread_join(t[1], NULL); pthread_join(t[0], NULL);
   if (pthread_barrier_destroy(&b)) fail("destroy");
   ok(); }
 '''),
dict(id='sem-post-multiple-limit', property='C09', needs='a sem_post_multiple that crosses SEM_VALUE_MAX from below it',
 breaks='Posting beyond the maximum is accepted and the count wraps to a negative value.',
 edits=[('sem_post_multiple.c', 'if (s->value <= (SEM_VALUE_MAX - count))', 'if (s->value < SEM_VALUE_MAX)')],
 demo=r'''
 int main(void) {
   sem_t s; int v; watchdog();
   if (sem_init(&s, 0, SEM_VALUE_MAX - 2)) fail("init");
   if (sem_post_multiple(&s, 5) == 0) fail("accepted beyond the maximum");
   if (sem_getvalue(&s, &v) || v != SEM_VALUE_MAX - 2) fail("value changed");
   if (sem_post_multiple(&s, 2)) fail("refused within the maximum");
   ok(); }
 '''),
dict(id='timedlock-no-waiter-mark', property='C01', needs='a timed lock of a recursive or error-checking mutex that is held, and released before the deadline',
 breaks='The waiting thread does not mark the mutex as contended, so the release does not wake it: it times out although the mutex is free.',
 edits=[('pthread_mutex_timedlock.c', '''                  while ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_EXCHANGE_LONG(
                                  (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
			          (PTW32_INTERLOCKED_LONG) -1) != 0)
                    {
		      if (0 != (result = ptw32_timed_eventwait (mx->event, abstime)))
		        {
		          return result;
		        }
		    }

	          mx->recursive_count = 1;
''', '''                  while ((PTW32_INTERLOCKED_LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                                  (PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
			          (PTW32_INTERLOCKED_LONG) -1,
			          (PTW32_INTERLOCKED_LONG) 0) != 0)
                    {
		      if (0 != (result = ptw32_timed_eventwait (mx->event, abstime)))
		        {
		          return result;
		        }
		    }

	          mx->recursive_count = 1;
''')],
 demo=r'''
 static pthread_mutex_t m; static volatile int r = -1;
 static void *th(void *a) { struct timespec ts = in_ms(4000); r = pthread_mutex_timedlock(&m, &ts); if (r == 0) pthread_mutex_unlock(&m); return 0; }
 int main(void) {
   pthread_t t; pthread_mutexattr_t a; int k; watchdog();
   for (k = 0; k < 2; k++) {
     pthread_mutexattr_init(&a); pthread_mutexattr_settype(&a, k ? PTHREAD_MUTEX_RECURSIVE : PTHREAD_MUTEX_ERRORCHECK);
     pthread_mutex_init(&m, &a); pthread_mutex_lock(&m);
     pthread_create(&t, NULL, th, 0); Sleep(500);
     pthread_mutex_unlock(&m); pthread_join(t, NULL);
     if (r) fail("timed out although the mutex was released");
     pthread_mutex_destroy(&m);
   }
   ok(); }
 '''),
dict(id='timedwrlock-shared-count', property='C07', needs='a timed write lock that had to wait for a reader, followed by another writer',
 breaks='The readers a timed writer waited for stay counted, so that the next writer waits for readers that are long gone.',
 edits=[('pthread_rwlock_timedwrlock.c', '''          if (result == 0)
            {
              rwl->nSharedAccessCount = 0;
            }
''', '''          if (result == ETIMEDOUT)
            {
              rwl->nSharedAccessCount = 0;
            }
''')],
 demo=r'''
 static pthread_rwlock_t l = PTHREAD_RWLOCK_INITIALIZER;
 static void *th(void *a) { struct timespec ts = in_ms(10000); if (pthread_rwlock_timedwrlock(&l, &ts)) fail("timedwrlock"); pthread_rwlock_unlock(&l); return 0; }
 int main(void) {
   pthread_t t; struct timespec ts; watchdog();
   pthread_rwlock_rdlock(&l); pthread_create(&t, NULL, th, 0); Sleep(300); pthread_rwlock_unlock(&l); pthread_join(t, NULL);
   ts = in_ms(2000); if (pthread_rwlock_timedwrlock(&l, &ts)) fail("free lock not acquired");
   pthread_rwlock_unlock(&l); ok(); }
 '''),
]
