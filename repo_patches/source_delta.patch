From cedb6f9c248f34db08846d5fd99f3688c5ddb88c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:22:02 +0000
Subject: [PATCH 01/32] fix: pthread_mutex_timedlock must record the owner of
 an uncontended robust normal mutex

Only the contended path put the mutex on the caller's list of held robust
mutexes, so an uncontended timed lock left it without owner: unlock answered
EPERM and the owner's death went unnoticed.
---
 pthread_mutex_timedlock.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..ab526ab 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -253,16 +253,16 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                           break;
                         }
 	            }
-
-                  if (0 == result || EOWNERDEAD == result)
-                    {
-                      /*
-                       * Add mutex to the per-thread robust mutex currently-held list.
-                       * If the thread terminates, all mutexes in this list will be unlocked.
-                       */
-                      ptw32_robust_mutex_add(mutex, self);
-                    }
 	        }
+
+              if (0 == result || EOWNERDEAD == result)
+                {
+                  /*
+                   * Add mutex to the per-thread robust mutex currently-held list.
+                   * If the thread terminates, all mutexes in this list will be unlocked.
+                   */
+                  ptw32_robust_mutex_add(mutex, self);
+                }
             }
           else
             {
-- 
2.43.0


From 525b5961f11e92ed42c93089d6134829bc44d124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:24:33 +0000
Subject: [PATCH 02/32] fix: a robust mutex left inconsistent must not be
 acquired by a racing locker

The NOTRECOVERABLE state was only tested before the lock was taken, so a
locker that tested just before the owner unlocked an inconsistent mutex went on
to own it; and a locker that learned ENOTRECOVERABLE from
ptw32_robust_mutex_inherit left the other waiters asleep, because its first
exchange of lock_idx had erased the mark of their presence.
---
 implement.h                |  1 +
 pthread_mutex_consistent.c | 31 +++++++++++++++++++++++++++++++
 pthread_mutex_lock.c       | 18 ++++++++++++------
 pthread_mutex_timedlock.c  | 29 +++++++++++++----------------
 pthread_mutex_trylock.c    | 10 +++++++---
 5 files changed, 64 insertions(+), 25 deletions(-)

diff --git a/implement.h b/implement.h
index 1a5d20d..aeee8d0 100644
--- a/implement.h
+++ b/implement.h
@@ -713,6 +713,7 @@ PTW32_BEGIN_C_DECLS
   int ptw32_spinlock_check_need_init (pthread_spinlock_t * lock);
 
   int ptw32_robust_mutex_inherit(pthread_mutex_t * mutex);
+  int ptw32_robust_mutex_acquired(pthread_mutex_t * mutex, int result);
   void ptw32_robust_mutex_add(pthread_mutex_t* mutex, pthread_t self);
   void ptw32_robust_mutex_remove(pthread_mutex_t* mutex, ptw32_thread_t* otp);
 
diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index b9c8221..f0103ba 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -106,6 +106,37 @@ ptw32_robust_mutex_inherit(pthread_mutex_t * mutex)
   return result;
 }
 
+/*
+ * Finish acquiring a robust mutex. The state that was checked on the way in may
+ * since have become PTW32_ROBUST_NOTRECOVERABLE, because the owner unlocked the
+ * mutex without making it consistent. In that case give back what was acquired
+ * and pass the news on to the next waiter.
+ */
+INLINE
+int
+ptw32_robust_mutex_acquired(pthread_mutex_t * mutex, int result)
+{
+  pthread_mutex_t mx = *mutex;
+
+  if (0 == result
+        && (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE == PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
+                                                (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
+                                                (PTW32_INTERLOCKED_LONG)0))
+    {
+      (void) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
+                                             (PTW32_INTERLOCKED_LONG) 0);
+      result = ENOTRECOVERABLE;
+    }
+
+  if (ENOTRECOVERABLE == result)
+    {
+      /* Unblock the next thread */
+      SetEvent(mx->event);
+    }
+
+  return result;
+}
+
 /*
  * The next two internal support functions depend on being
  * called only by the thread that owns the robust mutex. This
diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 847477c..a50bb7e 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -196,6 +196,7 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                         }
                     }
                 }
+              result = ptw32_robust_mutex_acquired(mutex, result);
               if (0 == result || EOWNERDEAD == result)
                 {
                   /*
@@ -212,12 +213,16 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                            (PTW32_INTERLOCKED_LONG) 1,
                            (PTW32_INTERLOCKED_LONG) 0) == 0)
                 {
-                  mx->recursive_count = 1;
-                  /*
-                   * Add mutex to the per-thread robust mutex currently-held list.
-                   * If the thread terminates, all mutexes in this list will be unlocked.
-                   */
-                  ptw32_robust_mutex_add(mutex, self);
+                  result = ptw32_robust_mutex_acquired(mutex, 0);
+                  if (0 == result)
+                    {
+                      mx->recursive_count = 1;
+                      /*
+                       * Add mutex to the per-thread robust mutex currently-held list.
+                       * If the thread terminates, all mutexes in this list will be unlocked.
+                       */
+                      ptw32_robust_mutex_add(mutex, self);
+                    }
                 }
               else
                 {
@@ -256,6 +261,7 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                             }
                         }
 
+                      result = ptw32_robust_mutex_acquired(mutex, result);
                       if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index ab526ab..55b6970 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -255,6 +255,7 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 	            }
 	        }
 
+              result = ptw32_robust_mutex_acquired(mutex, result);
               if (0 == result || EOWNERDEAD == result)
                 {
                   /*
@@ -271,12 +272,16 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 		           (PTW32_INTERLOCKED_LONG) 1,
 		           (PTW32_INTERLOCKED_LONG) 0))
 	        {
-	          mx->recursive_count = 1;
-                  /*
-                   * Add mutex to the per-thread robust mutex currently-held list.
-                   * If the thread terminates, all mutexes in this list will be unlocked.
-                   */
-                  ptw32_robust_mutex_add(mutex, self);
+                  result = ptw32_robust_mutex_acquired(mutex, 0);
+                  if (0 == result)
+                    {
+                      mx->recursive_count = 1;
+                      /*
+                       * Add mutex to the per-thread robust mutex currently-held list.
+                       * If the thread terminates, all mutexes in this list will be unlocked.
+                       */
+                      ptw32_robust_mutex_add(mutex, self);
+                    }
 	        }
               else
 	        {
@@ -304,16 +309,8 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
 		            }
 		        }
 
-                      if ((PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE ==
-                                  PTW32_INTERLOCKED_EXCHANGE_ADD_LONG(
-                                    (PTW32_INTERLOCKED_LONGPTR)statePtr,
-                                    (PTW32_INTERLOCKED_LONG)0))
-                        {
-                          /* Unblock the next thread */
-                          SetEvent(mx->event);
-                          result = ENOTRECOVERABLE;
-                        }
-                      else if (0 == result || EOWNERDEAD == result)
+                      result = ptw32_robust_mutex_acquired(mutex, result);
+                      if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
                           /*
diff --git a/pthread_mutex_trylock.c b/pthread_mutex_trylock.c
index f994fae..3958d66 100644
--- a/pthread_mutex_trylock.c
+++ b/pthread_mutex_trylock.c
@@ -130,11 +130,15 @@ pthread_mutex_trylock (pthread_mutex_t * mutex)
         	         (PTW32_INTERLOCKED_LONG) 1,
         	         (PTW32_INTERLOCKED_LONG) 0))
         {
-          if (kind != PTHREAD_MUTEX_NORMAL)
+          result = ptw32_robust_mutex_acquired(mutex, 0);
+          if (0 == result)
             {
-              mx->recursive_count = 1;
+              if (kind != PTHREAD_MUTEX_NORMAL)
+                {
+                  mx->recursive_count = 1;
+                }
+              ptw32_robust_mutex_add(mutex, self);
             }
-          ptw32_robust_mutex_add(mutex, self);
         }
       else
         {
-- 
2.43.0


From 9bb7798c880aa408c7a1ac17c24fe8d3dd48a728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:28:15 +0000
Subject: [PATCH 03/32] fix: a nested unlock of an inconsistent recursive
 robust mutex must not make it unrecoverable

---
 pthread_mutex_unlock.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..8aecae4 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -128,11 +128,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
               if (PTHREAD_MUTEX_NORMAL == kind)
                 {
+                  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                   ptw32_robust_mutex_remove(mutex, NULL);
 
                   if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
@@ -152,6 +152,9 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                   if (kind != PTHREAD_MUTEX_RECURSIVE
                       || 0 == --mx->recursive_count)
                     {
+                      PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                              (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                       ptw32_robust_mutex_remove(mutex, NULL);
 
                       if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-- 
2.43.0


From cd576fdec497079b8b39b319765449fbf29fcec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 04/32] fix: a failed first use must not destroy a statically
 initialised object

---
 ptw32_cond_check_need_init.c     | 12 +++++++++++-
 ptw32_mutex_check_need_init.c    | 17 ++++++++++++++---
 ptw32_rwlock_check_need_init.c   | 12 +++++++++++-
 ptw32_spinlock_check_need_init.c | 12 +++++++++++-
 4 files changed, 47 insertions(+), 6 deletions(-)

diff --git a/ptw32_cond_check_need_init.c b/ptw32_cond_check_need_init.c
index 616a891..9ad9a94 100644
--- a/ptw32_cond_check_need_init.c
+++ b/ptw32_cond_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_cond_check_need_init (pthread_cond_t * cond)
    */
   if (*cond == PTHREAD_COND_INITIALIZER)
     {
-      result = pthread_cond_init (cond, NULL);
+      /*
+       * Publish only a complete object: if the initialisation fails
+       * then the static initialiser must remain in place so that a
+       * later operation can try again.
+       */
+      pthread_cond_t cv = NULL;
+
+      if (0 == (result = pthread_cond_init (&cv, NULL)))
+	{
+	  *cond = cv;
+	}
     }
   else if (*cond == NULL)
     {
diff --git a/ptw32_mutex_check_need_init.c b/ptw32_mutex_check_need_init.c
index 98744a5..1216afc 100644
--- a/ptw32_mutex_check_need_init.c
+++ b/ptw32_mutex_check_need_init.c
@@ -57,6 +57,7 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 {
   int result = 0;
   pthread_mutex_t mtx;
+  pthread_mutex_t mx = NULL;
   ptw32_mcs_local_node_t node;
 
   ptw32_mcs_lock_acquire(&ptw32_mutex_test_init_lock, &node);
@@ -73,15 +74,15 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
 
   if (mtx == PTHREAD_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, NULL);
+      result = pthread_mutex_init (&mx, NULL);
     }
   else if (mtx == PTHREAD_RECURSIVE_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_recursive_mutexattr);
+      result = pthread_mutex_init (&mx, &ptw32_recursive_mutexattr);
     }
   else if (mtx == PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
     {
-      result = pthread_mutex_init (mutex, &ptw32_errorcheck_mutexattr);
+      result = pthread_mutex_init (&mx, &ptw32_errorcheck_mutexattr);
     }
   else if (mtx == NULL)
     {
@@ -93,6 +94,16 @@ ptw32_mutex_check_need_init (pthread_mutex_t * mutex)
       result = EINVAL;
     }
 
+  if (NULL != mx)
+    {
+      /*
+       * Publish only a complete object: if the initialisation failed
+       * then the static initialiser must remain in place so that a
+       * later operation can try again.
+       */
+      *mutex = mx;
+    }
+
   ptw32_mcs_lock_release(&node);
 
   return (result);
diff --git a/ptw32_rwlock_check_need_init.c b/ptw32_rwlock_check_need_init.c
index 3d2c447..3189d4e 100644
--- a/ptw32_rwlock_check_need_init.c
+++ b/ptw32_rwlock_check_need_init.c
@@ -66,7 +66,17 @@ ptw32_rwlock_check_need_init (pthread_rwlock_t * rwlock)
    */
   if (*rwlock == PTHREAD_RWLOCK_INITIALIZER)
     {
-      result = pthread_rwlock_init (rwlock, NULL);
+      /*
+       * Publish only a complete object: if the initialisation fails
+       * then the static initialiser must remain in place so that a
+       * later operation can try again.
+       */
+      pthread_rwlock_t rwl = NULL;
+
+      if (0 == (result = pthread_rwlock_init (&rwl, NULL)))
+	{
+	  *rwlock = rwl;
+	}
     }
   else if (*rwlock == NULL)
     {
diff --git a/ptw32_spinlock_check_need_init.c b/ptw32_spinlock_check_need_init.c
index 7a49b87..9db8aa2 100644
--- a/ptw32_spinlock_check_need_init.c
+++ b/ptw32_spinlock_check_need_init.c
@@ -67,7 +67,17 @@ ptw32_spinlock_check_need_init (pthread_spinlock_t * lock)
    */
   if (*lock == PTHREAD_SPINLOCK_INITIALIZER)
     {
-      result = pthread_spin_init (lock, PTHREAD_PROCESS_PRIVATE);
+      /*
+       * Publish only a complete object: if the initialisation fails
+       * then the static initialiser must remain in place so that a
+       * later operation can try again.
+       */
+      pthread_spinlock_t s = NULL;
+
+      if (0 == (result = pthread_spin_init (&s, PTHREAD_PROCESS_PRIVATE)))
+	{
+	  *lock = s;
+	}
     }
   else if (*lock == NULL)
     {
-- 
2.43.0


From d323600340df24e54fbbde099cb6252578ddb227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:33 +0000
Subject: [PATCH 05/32] fix: pthread_mutex_init must report ENOMEM instead of
 dereferencing NULL

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..8b4ce8d 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && NULL != mx)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From 9ad8a2661e2903dc33e0b46a17f49387275515e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:45 +0000
Subject: [PATCH 06/32] fix: an MCS lock must not be entered when no event can
 be created to wait on

---
 ptw32_MCS_lock.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..316e97e 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,19 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /*
+           * No event is available to wait on, but we still must not proceed
+           * until the flag is set.
+           */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0))
+          {
+              sched_yield();
+          }
+      }
     }
 }
 
-- 
2.43.0


From bcb4fe54bfe51eabd5b82d3fa5961e0c52d4c597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:50 +0000
Subject: [PATCH 07/32] fix: inheriting a robust mutex from a dead owner must
 not strand its waiters

---
 pthread_mutex_consistent.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index f0103ba..4f9e0ec 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -128,6 +128,17 @@ ptw32_robust_mutex_acquired(pthread_mutex_t * mutex, int result)
       result = ENOTRECOVERABLE;
     }
 
+  if (EOWNERDEAD == result)
+    {
+      /*
+       * The lock passed to us while still marked as held, and in attempting to
+       * acquire it we may have overwritten the mark left by a waiter. Restore it
+       * so that our unlock will wake any waiter.
+       */
+      (void) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
+                                             (PTW32_INTERLOCKED_LONG) -1);
+    }
+
   if (ENOTRECOVERABLE == result)
     {
       /* Unblock the next thread */
-- 
2.43.0


From 24588eb5e84f51ea9eb586ce6752e00acd39603d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:59:26 +0000
Subject: [PATCH 08/32] fix: sem_destroy must not fail because a sem_post is
 about to return

pthread_cond_destroy ignored the failure after freeing the rest of the condition
variable: it returned EBUSY, leaked the semaphore, and could not be retried.
---
 sem_destroy.c | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/sem_destroy.c b/sem_destroy.c
index 99d0b35..69e5363 100644
--- a/sem_destroy.c
+++ b/sem_destroy.c
@@ -91,26 +91,30 @@ sem_destroy (sem_t * sem)
       ptw32_mcs_local_node_t node;
       s = *sem;
 
-      if ((result = ptw32_mcs_lock_try_acquire(&s->lock, &node)) == 0)
+      /*
+       * Wait for, rather than fail because of, a thread that is on its way
+       * out of sem_post: it may be the one that woke the caller.
+       */
+      ptw32_mcs_lock_acquire(&s->lock, &node);
+
+      if (s->value < 0)
         {
-          if (s->value < 0)
-            {
-              result = EBUSY;
-            }
-          else
+          result = EBUSY;
+        }
+      else
+        {
+          /*
+           * There are no threads currently blocked on this semaphore
+           * however there could be threads about to wait behind us.
+           * It is up to the application to ensure this is not the case.
+           */
+          if (!CloseHandle (s->sem))
             {
-              /*
-               * There are no threads currently blocked on this semaphore
-               * however there could be threads about to wait behind us.
-               * It is up to the application to ensure this is not the case.
-               */
-              if (!CloseHandle (s->sem))
-                {
-                  result = EINVAL;
-                }
+              result = EINVAL;
             }
-          ptw32_mcs_lock_release(&node);
         }
+
+      ptw32_mcs_lock_release(&node);
     }
 
   if (result != 0)
-- 
2.43.0


From c1db76aeee3b5723731871cf5dc794f21bc88a8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:02:24 +0000
Subject: [PATCH 09/32] fix: cancelling a semaphore wait must neither lose a
 post nor corrupt the count

---
 sem_timedwait.c | 29 ++++++++++++++++++-----------
 sem_wait.c      | 36 +++++++++++++++++++-----------------
 2 files changed, 37 insertions(+), 28 deletions(-)

diff --git a/sem_timedwait.c b/sem_timedwait.c
index 5a7cbe2..c0e785a 100644
--- a/sem_timedwait.c
+++ b/sem_timedwait.c
@@ -65,35 +65,42 @@ ptw32_sem_timedwait_cleanup (void * args)
   ptw32_mcs_local_node_t node;
   sem_timedwait_cleanup_args_t * a = (sem_timedwait_cleanup_args_t *)args;
   sem_t s = a->sem;
+  int posted;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
    * We either timed out or were cancelled.
    * If someone has posted between then and now we try to take the semaphore.
-   * Otherwise the semaphore count may be wrong after we
-   * return. In the case of a cancellation, it is as if we
-   * were cancelled just before we return (after taking the semaphore)
-   * which is ok.
+   * Otherwise the semaphore count may be wrong after we return.
    */
-  if (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0)
+  posted = (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0);
+  if (posted && *(a->resultPtr) != 0)
     {
-      /* We got the semaphore on the second attempt */
+      /* We timed out but got the semaphore on the second attempt */
       *(a->resultPtr) = 0;
     }
   else
     {
-      /* Indicate we're no longer waiting */
+      /*
+       * Indicate we're no longer waiting. If we were cancelled then a post that
+       * was meant for us must not be lost: post it again, either for
+       * another waiter or by way of the count.
+       */
       s->value++;
 #if defined(NEED_SEM)
       if (s->value > 0)
         {
           s->leftToUnblock = 0;
         }
+      if (posted && s->value <= 0)
+        {
+          SetEvent(s->sem);
+        }
 #else
-      /*
-       * Don't release the W32 sema, it doesn't need adjustment
-       * because it doesn't record the number of waiters.
-       */
+      if (posted && s->value <= 0)
+        {
+          ReleaseSemaphore(s->sem, 1, NULL);
+        }
 #endif
     }
   ptw32_mcs_lock_release(&node);
diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..3fe2249 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -58,30 +58,32 @@ ptw32_sem_wait_cleanup(void * sem)
 {
   sem_t s = (sem_t) sem;
   ptw32_mcs_local_node_t node;
+  int posted;
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
-   * If the sema is posted between us being canceled and us locking
-   * the sema again above then we need to consume that post but cancel
-   * anyway. If we don't get the semaphore we indicate that we're no
-   * longer waiting.
+   * We are no longer waiting. If the sema was posted between us being
+   * canceled and us locking the sema again above then that post must not be
+   * lost: take it back from the W32 sema and post it again, either for another
+   * waiter or by way of the count.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
-    {
-      ++s->value;
+  posted = (WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0);
+  ++s->value;
 #if defined(NEED_SEM)
-      if (s->value > 0)
-        {
-          s->leftToUnblock = 0;
-        }
+  if (s->value > 0)
+    {
+      s->leftToUnblock = 0;
+    }
+  if (posted && s->value <= 0)
+    {
+      SetEvent(s->sem);
+    }
 #else
-      /*
-       * Don't release the W32 sema, it doesn't need adjustment
-       * because it doesn't record the number of waiters.
-       */
-#endif /* NEED_SEM */
+  if (posted && s->value <= 0)
+    {
+      ReleaseSemaphore(s->sem, 1, NULL);
     }
+#endif /* NEED_SEM */
   ptw32_mcs_lock_release(&node);
 }
 
-- 
2.43.0


From 30fcdbf418b3fbe5028d7ccdfc38291eed5282ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:04:02 +0000
Subject: [PATCH 10/32] fix: destroying a mutex must wait for a thread still
 signalling its release

pthread_mutex_unlock touched the mutex event after it had released the mutex. The
destroyer, e.g. pthread_cond_destroy after a broadcast, could close the event
and free the mutex in between, so that a stale handle was signalled.
---
 implement.h             |  2 +
 pthread_mutex_destroy.c | 10 +++++
 pthread_mutex_unlock.c  | 93 ++++++++++++++++++-----------------------
 3 files changed, 53 insertions(+), 52 deletions(-)

diff --git a/implement.h b/implement.h
index aeee8d0..fac5e2d 100644
--- a/implement.h
+++ b/implement.h
@@ -328,6 +328,8 @@ struct pthread_mutex_t_
 				   threads. */
   ptw32_robust_node_t*
                     robustNode; /* Extra state for robust mutexes  */
+  LONG wakers;			/* Threads that have released the mutex but
+				   have yet to signal the event. */
 };
 
 enum ptw32_robust_state_t_
diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..ef54206 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -85,6 +85,16 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 
 	      if (0 == result)
 		{
+		  /*
+		   * Wait for threads that have released the mutex but are yet
+		   * to set the event.
+		   */
+		  while (0 != PTW32_INTERLOCKED_EXCHANGE_ADD_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->wakers,
+								   (PTW32_INTERLOCKED_LONG)0))
+		    {
+		      sched_yield ();
+		    }
+
                   if (mx->robustNode != NULL)
                     {
                       free(mx->robustNode);
diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 8aecae4..7f1a35a 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -45,6 +45,42 @@
 #include "implement.h"
 
 
+/*
+ * Release the mutex and wake a waiter if there may be one. As soon as it is
+ * released another thread may lock, unlock and then destroy the mutex. If there
+ * is still a waiter to wake, hold up pthread_mutex_destroy() until that is done.
+ */
+static INLINE int
+ptw32_mutex_release (pthread_mutex_t mx)
+{
+  int result = 0;
+  LONG idx;
+
+  idx = (LONG) PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+                                                        (PTW32_INTERLOCKED_LONG)0,
+                                                        (PTW32_INTERLOCKED_LONG)1);
+  if (idx < 0)
+    {
+      (void) PTW32_INTERLOCKED_INCREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->wakers);
+      (void) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
+                                              (PTW32_INTERLOCKED_LONG)0);
+      /*
+       * Someone may be waiting on that mutex.
+       */
+      if (SetEvent (mx->event) == 0)
+        {
+          result = EINVAL;
+        }
+      (void) PTW32_INTERLOCKED_DECREMENT_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->wakers);
+    }
+  else if (idx == 0)
+    {
+      result = EPERM;
+    }
+
+  return result;
+}
+
 int PTW32_CDECL
 pthread_mutex_unlock (pthread_mutex_t * mutex)
 {
@@ -68,27 +104,8 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
         {
           if (kind == PTHREAD_MUTEX_NORMAL)
 	    {
-	      LONG idx;
-
-	      idx = (LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							    (PTW32_INTERLOCKED_LONG)0);
-	      if (idx != 0)
-	        {
-	          if (idx < 0)
-		    {
-		      /*
-		       * Someone may be waiting on that mutex.
-		       */
-		      if (SetEvent (mx->event) == 0)
-		        {
-		          result = EINVAL;
-		        }
-		    }
-	        }
-	      else	/* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
-	        {
-	          result = EPERM;
-	        }
+	      /* [i_a] when unlocking an unlocked mutex, pthread_mutex_unlock() should always produce EPERM for any type of mutex -- see test mutex7.c */
+	      result = ptw32_mutex_release (mx);
 	    }
           else
 	    {
@@ -99,15 +116,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
 		    {
 		      mx->ownerThread.p = NULL;
 
-		      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG ((PTW32_INTERLOCKED_LONGPTR)&mx->lock_idx,
-							          (PTW32_INTERLOCKED_LONG)0) < 0L)
-		        {
-		          /* Someone may be waiting on that mutex */
-		          if (SetEvent (mx->event) == 0)
-			    {
-			      result = EINVAL;
-			    }
-		        }
+		      result = ptw32_mutex_release (mx);
 		    }
 	        }
 	      else
@@ -135,17 +144,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                                                           (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                   ptw32_robust_mutex_remove(mutex, NULL);
 
-                  if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                             (PTW32_INTERLOCKED_LONG) 0) < 0)
-                    {
-                      /*
-                       * Someone may be waiting on that mutex.
-                       */
-                      if (SetEvent (mx->event) == 0)
-                        {
-                          result = EINVAL;
-                        }
-                    }
+                  result = ptw32_mutex_release (mx);
                 }
               else
                 {
@@ -157,17 +156,7 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
                                                               (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
                       ptw32_robust_mutex_remove(mutex, NULL);
 
-                      if ((LONG) PTW32_INTERLOCKED_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->lock_idx,
-                                                                 (PTW32_INTERLOCKED_LONG) 0) < 0)
-                        {
-                          /*
-                           * Someone may be waiting on that mutex.
-                           */
-                          if (SetEvent (mx->event) == 0)
-                            {
-                              result = EINVAL;
-                            }
-                        }
+                      result = ptw32_mutex_release (mx);
                     }
                 }
             }
-- 
2.43.0


From 53c5efac5f1a79a65caf9a687ec6bc4b6ab9133a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:10:02 +0000
Subject: [PATCH 11/32] fix: a cancellation request made before the thread
 starts must not be lost

---
 ptw32_threadStart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..b2a7a01 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -167,7 +167,11 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  /* A cancellation request that arrived before we started must not be lost. */
+  if (sp->state < PThreadStateCancelPending)
+    {
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From 3191ba0bb488ba0fdabba22012eebdd6876b414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:56 +0000
Subject: [PATCH 12/32] fix: a barrier destroyed by the serial thread must not
 be touched by the other threads leaving it

---
 pthread_barrier_wait.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..e1aa15b 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -50,6 +50,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
 {
   int result;
   pthread_barrier_t b;
+  PTW32_INTERLOCKED_LONG height;
 
   ptw32_mcs_local_node_t node;
 
@@ -94,8 +95,14 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
       result = ptw32_semwait (&(b->semBarrierBreeched));
     }
 
+  /*
+   * Once we have counted ourselves out, unless we are the last, the barrier
+   * can be destroyed at any time and we must not touch it again.
+   */
+  height = (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight;
+
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == height)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0


From bedfcf00ed9781c4e0ed0ec7e2f6318f8fb6f099 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:02 +0000
Subject: [PATCH 13/32] fix: a thread detached while it is ending must not be
 destroyed twice

---
 pthread_detach.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..f90ca96 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -111,8 +111,14 @@ pthread_detach (pthread_t thread)
       if (tp->state < PThreadStateLast)
         {
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
+          if (tp->state == PThreadStateExiting
+              && WaitForSingleObject(tp->threadH, 0) == WAIT_OBJECT_0)
           {
+            /*
+             * The thread has ended without cleaning up after itself. As long
+             * as it hasn't ended it will do so now that it's detached, and
+             * we mustn't.
+             */
             destroyIt = PTW32_TRUE;
           }
         }
-- 
2.43.0


From 3a4861d53c6e5939561301630811e26e06bda297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:02 +0000
Subject: [PATCH 14/32] fix: thread sequence numbers must be unique when
 threads are created concurrently

---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From 41d887923b91753827670d403f8553170074cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:46 +0000
Subject: [PATCH 15/32] fix: a cleanup handler must not be executed twice when
 the thread is cancelled in it

---
 cleanup.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..4e1d098 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,12 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /*
+       * Remove the handler before executing it, so that it isn't executed
+       * again should the thread be cancelled or exit inside of it.
+       */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +102,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
-- 
2.43.0


From 90d394ffe10a23b6a368fdfb788d92288905366f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:54 +0000
Subject: [PATCH 16/32] fix: asynchronous cancellation must not lose the
 target's state lock, nor hit an exiting thread

A thread queued on its own stateLock while it is being redirected by an
asynchronous cancel abandoned its lock node, so that everybody who needed the
lock afterwards hung. And a thread that has begun to exit could still be
cancelled, or be interrupted in its cleanup handlers by a pending request.
---
 implement.h              |  4 ++++
 pthread_cancel.c         |  8 ++++++--
 pthread_delay_np.c       |  2 +-
 pthread_setcancelstate.c |  2 +-
 pthread_setcanceltype.c  |  2 +-
 pthread_testcancel.c     |  2 +-
 ptw32_MCS_lock.c         | 19 +++++++++++++++++++
 ptw32_threadStart.c      |  6 +++---
 ptw32_throw.c            | 20 +++++++++++++++++++-
 w32_CancelableWait.c     |  2 +-
 10 files changed, 56 insertions(+), 11 deletions(-)

diff --git a/implement.h b/implement.h
index fac5e2d..c40553e 100644
--- a/implement.h
+++ b/implement.h
@@ -764,6 +764,10 @@ PTW32_BEGIN_C_DECLS
 
   int ptw32_mcs_lock_try_acquire (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * node);
 
+  void ptw32_self_state_lock (ptw32_thread_t * sp, ptw32_mcs_local_node_t * node);
+
+  void ptw32_self_exiting (ptw32_thread_t * sp);
+
   void ptw32_mcs_lock_release (ptw32_mcs_local_node_t * node);
 
   void ptw32_mcs_node_transfer (ptw32_mcs_local_node_t * new_node, ptw32_mcs_local_node_t * old_node);
diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..132ebbd 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -174,9 +174,13 @@ pthread_cancel (pthread_t thread)
 	       * the threadH arg will be used.
 	       */
 	      ptw32_register_cancellation ((PAPCFUNC)ptw32_cancel_callback, threadH, 0);
-	      ptw32_mcs_lock_release (&stateLock);
-	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      result = ESRCH;
+	    }
+	  ptw32_mcs_lock_release (&stateLock);
+	  ResumeThread (threadH);
 	}
     }
   else
diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..a16f352 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -148,7 +148,7 @@ pthread_delay_np (struct timespec *interval)
 	  /*
 	   * Canceling!
 	   */
-	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+	  ptw32_self_state_lock (sp, &stateLock);
 	  if (sp->state < PThreadStateCanceling)
 	    {
 	      sp->state = PThreadStateCanceling;
diff --git a/pthread_setcancelstate.c b/pthread_setcancelstate.c
index 322026f..cc46d99 100644
--- a/pthread_setcancelstate.c
+++ b/pthread_setcancelstate.c
@@ -100,7 +100,7 @@ pthread_setcancelstate (int state, int *oldstate)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_self_state_lock (sp, &stateLock);
 
   if (oldstate != NULL)
     {
diff --git a/pthread_setcanceltype.c b/pthread_setcanceltype.c
index bd15f7b..2b5cc60 100644
--- a/pthread_setcanceltype.c
+++ b/pthread_setcanceltype.c
@@ -101,7 +101,7 @@ pthread_setcanceltype (int type, int *oldtype)
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_self_state_lock (sp, &stateLock);
 
   if (oldtype != NULL)
     {
diff --git a/pthread_testcancel.c b/pthread_testcancel.c
index 90a2cc5..17c1bc6 100644
--- a/pthread_testcancel.c
+++ b/pthread_testcancel.c
@@ -94,7 +94,7 @@ pthread_testcancel (void)
       return;
     }
 
-  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+  ptw32_self_state_lock (sp, &stateLock);
 
   if (sp->cancelState != PTHREAD_CANCEL_DISABLE)
     {
diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index 316e97e..1687ea3 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -276,6 +276,25 @@ ptw32_mcs_lock_try_acquire (ptw32_mcs_lock_t * lock, ptw32_mcs_local_node_t * no
                                  == (PTW32_INTERLOCKED_PVOID)0) ? 0 : EBUSY;
 }
 
+/*
+ * ptw32_self_state_lock -- acquire the calling thread's own stateLock.
+ *
+ * A thread that asynchronously cancels this one does so while it holds our
+ * stateLock. We must not be queued for the lock at that time because the local
+ * node would be abandoned with our stack, and the lock then handed over to it.
+ */
+#if defined(PTW32_BUILD_INLINED)
+INLINE
+#endif /* PTW32_BUILD_INLINED */
+void
+ptw32_self_state_lock (ptw32_thread_t * sp, ptw32_mcs_local_node_t * node)
+{
+  while (0 != ptw32_mcs_lock_try_acquire (&sp->stateLock, node))
+    {
+      sched_yield ();
+    }
+}
+
 /*
  * ptw32_mcs_node_transfer -- move an MCS lock local node, usually from thread
  * space to, for example, global space so that another thread can release
diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index b2a7a01..56f26ed 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -184,7 +184,7 @@ ptw32_threadStart (void *vthreadParms)
            * Run the caller's routine;
            */
           status = sp->exitStatus = (*start) (arg);
-          sp->state = PThreadStateExiting;
+          ptw32_self_exiting (sp);
 
 #if defined(_UWIN)
           if (--pthread_count <= 0)
@@ -235,7 +235,7 @@ ptw32_threadStart (void *vthreadParms)
        * Run the caller's routine;
        */
       status = sp->exitStatus = (*start) (arg);
-      sp->state = PThreadStateExiting;
+      ptw32_self_exiting (sp);
     }
   else
     {
@@ -260,7 +260,7 @@ ptw32_threadStart (void *vthreadParms)
   try
   {
     status = sp->exitStatus = (*start) (arg);
-    sp->state = PThreadStateExiting;
+    ptw32_self_exiting (sp);
   }
   catch (ptw32_exception_cancel &)
   {
diff --git a/ptw32_throw.c b/ptw32_throw.c
index 2ae0339..ecdc71a 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -81,7 +81,7 @@ ptw32_throw (DWORD exception)
   ULONG_PTR exceptionInformation[3];
 #endif
   if( sp )
-    sp->state = PThreadStateExiting;
+    ptw32_self_exiting (sp);
 
   if (exception != PTW32_EPS_CANCEL && exception != PTW32_EPS_EXIT)
     {
@@ -164,6 +164,24 @@ ptw32_throw (DWORD exception)
 }
 
 
+/*
+ * ptw32_self_exiting -- the calling thread has begun to end.
+ *
+ * From here on it can't be cancelled any more, and a request that has not been
+ * acted upon must not interrupt its cleanup handlers and key destructors.
+ */
+void
+ptw32_self_exiting (ptw32_thread_t * sp)
+{
+  ptw32_mcs_local_node_t stateLock;
+
+  ptw32_self_state_lock (sp, &stateLock);
+  sp->state = PThreadStateExiting;
+  (void) ResetEvent (sp->cancelEvent);
+  ptw32_mcs_lock_release (&stateLock);
+}
+
+
 void
 ptw32_pop_cleanup_all (int execute)
 {
diff --git a/w32_CancelableWait.c b/w32_CancelableWait.c
index 16d23fa..b7ceb3d 100644
--- a/w32_CancelableWait.c
+++ b/w32_CancelableWait.c
@@ -122,7 +122,7 @@ ptw32_cancelable_wait (HANDLE waitHandle, DWORD timeout)
 	   * Should handle POSIX and implicit POSIX threads.
 	   * Make sure we haven't been async-cancelled in the meantime.
 	   */
-	  ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
+	  ptw32_self_state_lock (sp, &stateLock);
 	  if (sp->state < PThreadStateCanceling)
 	    {
 	      sp->state = PThreadStateCanceling;
-- 
2.43.0


From 48183dc783ff5b9ddd6d7265852fe5cff90b5033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:22 +0000
Subject: [PATCH 17/32] fix: a thread asynchronously cancelled inside
 pthread_cancel must not take the library's locks with it

---
 pthread_cancel.c | 52 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 40 insertions(+), 12 deletions(-)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 132ebbd..585c499 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -108,21 +108,11 @@ pthread_cancel (pthread_t thread)
 {
   int result;
   int cancel_self;
+  int cancel_state = PTHREAD_CANCEL_DISABLE;
   pthread_t self;
   ptw32_thread_t * tp;
   ptw32_mcs_local_node_t stateLock;
 
-  /*
-   * Validate the thread id. This method works for pthreads-win32 because
-   * pthread_kill and pthread_t are designed to accommodate it, but the
-   * method is not portable.
-   */
-  result = pthread_kill (thread, 0);
-  if (0 != result)
-    {
-      return result;
-    }
-
   if ((self = pthread_self ()).p == NULL)
     {
       return ENOMEM;
@@ -136,12 +126,44 @@ pthread_cancel (pthread_t thread)
    */
   cancel_self = pthread_equal (thread, self);
 
+  /*
+   * And that it isn't itself asynchronously cancelled while it holds, or waits
+   * for, the locks we need here.
+   */
+  if (!cancel_self
+      && ((ptw32_thread_t *) self.p)->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS)
+    {
+      (void) pthread_setcancelstate (PTHREAD_CANCEL_DISABLE, &cancel_state);
+    }
+
+  /*
+   * Validate the thread id. This method works for pthreads-win32 because
+   * pthread_kill and pthread_t are designed to accommodate it, but the
+   * method is not portable.
+   */
+  result = cancel_self ? 0 : pthread_kill (thread, 0);
+  if (0 != result)
+    {
+      if (cancel_state == PTHREAD_CANCEL_ENABLE)
+	{
+	  (void) pthread_setcancelstate (PTHREAD_CANCEL_ENABLE, NULL);
+	}
+      return result;
+    }
+
   tp = (ptw32_thread_t *) thread.p;
 
   /*
    * Lock for async-cancel safety.
    */
-  ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
+  if (cancel_self)
+    {
+      ptw32_self_state_lock (tp, &stateLock);
+    }
+  else
+    {
+      ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
+    }
 
   if (tp->cancelType == PTHREAD_CANCEL_ASYNCHRONOUS
       && tp->cancelState == PTHREAD_CANCEL_ENABLE
@@ -204,5 +226,11 @@ pthread_cancel (pthread_t thread)
       ptw32_mcs_lock_release (&stateLock);
     }
 
+  if (cancel_state == PTHREAD_CANCEL_ENABLE)
+    {
+      /* Acts on a request that arrived in the meantime */
+      (void) pthread_setcancelstate (PTHREAD_CANCEL_ENABLE, NULL);
+    }
+
   return (result);
 }
-- 
2.43.0


From 5c3740e2c9523f3442d1b5a814435b35ba4fc62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:51:03 +0000
Subject: [PATCH 18/32] fix: timed waits must not time out early after the year
 2038

---
 ptw32_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From fb71074e3a710b609fabcf011a9ec2ffe8ec410f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:54:28 +0000
Subject: [PATCH 19/32] fix: pthread_delay_np must not cut a huge interval
 short

Seconds beyond INT_MAX/1000 wrapped in the DWORD millisecond arithmetic, so a
huge interval was slept only in part and reported as success. Such intervals
are now refused with EINVAL, as those caught by the sign test already were.
---
 pthread_delay_np.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index a16f352..c1c391d 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -119,7 +119,8 @@ pthread_delay_np (struct timespec *interval)
 #endif
 
   wait_time = secs_in_millisecs + millisecs;
-  if (0 > (int)wait_time)
+  if (0 > (int)wait_time
+      || (uint64_t)interval->tv_sec > (uint64_t)INT_MAX / 1000)
     {
       return EINVAL;
     }
-- 
2.43.0


From 033ad3f8a95dea87c22d39fa83e0b3fdca916832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 20/32] fix: reading the name of an unnamed thread, or the name
 in an attributes object

pthread_getname_np dereferenced NULL when the thread had not been given a name,
and pthread_attr_getname_np stored nothing (with MSVC: truncated the attribute).
---
 pthread_attr_getname_np.c | 8 ++------
 pthread_getname_np.c      | 5 +++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..f304901 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -48,13 +48,9 @@ pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
   //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
 #if defined(_MSVCRT_)
 # pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
 #endif // _MSVCRT_
+  strncpy(name, (*attr)->thrname != NULL ? (*attr)->thrname : "", len - 1);
+  name[len - 1] = '\0';
 
   return 0;
 }
diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..1934809 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -46,7 +46,8 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 {
   ptw32_mcs_local_node_t threadLock;
   ptw32_thread_t * tp;
-  char * s, * d;
+  const char * s;
+  char * d;
   int result;
 
   /*
@@ -64,7 +65,7 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  for (s = (tp->name != NULL ? tp->name : ""), d = name; *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
-- 
2.43.0


From 8cc7751cf0a168228ef6c2dcc442b0b887db7ccb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 21/32] fix: free the name of a thread and of an attributes
 object with it

---
 pthread_attr_destroy.c | 4 ++++
 ptw32_threadDestroy.c  | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..243f97a 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,10 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+  if ((*attr)->thrname != NULL)
+    {
+      free ((*attr)->thrname);
+    }
   free (*attr);
   *attr = NULL;
 
diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 978df22..1651833 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -60,6 +60,7 @@ ptw32_threadDestroy (pthread_t thread)
       HANDLE threadH = tp->threadH;
 #endif
       HANDLE cancelEvent = tp->cancelEvent;
+      char * name = tp->name;
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
@@ -74,6 +75,11 @@ ptw32_threadDestroy (pthread_t thread)
 	  CloseHandle (cancelEvent);
 	}
 
+      if (name != NULL)
+	{
+	  free (name);
+	}
+
 #if ! defined(__MINGW32__) || defined (__MSVCRT__) || defined (__DMC__)
       /*
        * See documentation for endthread vs endthreadex.
-- 
2.43.0


From adc90c231dd4942355c966bdcb7c7b7c121c7dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:34 +0000
Subject: [PATCH 22/32] fix: report ENOMEM or EAGAIN when a thread name cannot
 be stored

---
 create.c                  | 7 +++++--
 pthread_attr_setname_np.c | 8 ++++++++
 pthread_setname_np.c      | 8 ++++++++
 3 files changed, 21 insertions(+), 2 deletions(-)

diff --git a/create.c b/create.c
index 1e15a90..ee0fdbe 100644
--- a/create.c
+++ b/create.c
@@ -168,8 +168,11 @@ pthread_create (pthread_t * tid,
       stackSize = (unsigned int)a->stacksize;
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
-      if (a->thrname != NULL)
-        tp->name = ptw32_strdup(a->thrname);
+      if (a->thrname != NULL
+          && (tp->name = ptw32_strdup(a->thrname)) == NULL)
+        {
+          goto FAIL0;
+        }
 
 #if (THREAD_PRIORITY_LOWEST > THREAD_PRIORITY_NORMAL)
       /* WinCE */
diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..7a80b13 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -70,6 +70,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -88,6 +92,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * oldname;
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..1e81b37 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -118,6 +118,10 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -167,6 +171,10 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From 3ac62e95914749d45e5a49fbf01e42d51972c5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:39 +0000
Subject: [PATCH 23/32] fix: a thread that cannot be registered must not be
 left half registered

pthread_self dereferenced NULL when no thread structure could be allocated;
when the handle or the affinity could not be obtained it leaked the events and
left the thread referring to a structure returned for reuse.
---
 pthread_self.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..9002a9a 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -162,9 +162,16 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (!fail)
+    	        {
+    	          fail = (0 != pthread_setspecific (ptw32_selfThreadKey, (void *) sp));
+    	        }
     	    }
         }
+      else
+        {
+    	  return nil;
+        }
 
       if (fail)
         {
@@ -172,8 +179,7 @@ pthread_self (void)
     	   * Thread structs are never freed but are reused so if this
     	   * continues to fail at least we don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From 6d0bfe637556b7275e7c89adc43f0a039163649d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:27:14 +0000
Subject: [PATCH 24/32] fix: a failed initialisation of the library must not
 count as done

When the library's own keys could not be created it was marked initialised all
the same (and one key leaked), so that every later call worked with NULL keys.
---
 ptw32_processInitialize.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..a60689e 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,12 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
+      /*
+       * Have the key that could be created released.
+       */
+      ptw32_processInitialized = PTW32_TRUE;
       ptw32_processTerminate ();
+      return PTW32_FALSE;
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From 2b3b6be3fc9c9e7315e347e82313a06be06eb4bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:23 +0000
Subject: [PATCH 25/32] fix: a killed thread's exit status must be set before
 it is terminated

It was set afterwards: never when a thread killed itself, too late for a thread
already joining it, and possibly into the structure of its successor.
---
 pthread_kill.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pthread_kill.c b/pthread_kill.c
index fd713d2..819cc4f 100644
--- a/pthread_kill.c
+++ b/pthread_kill.c
@@ -137,14 +137,16 @@ pthread_kill (pthread_t thread, int sig)
           {
               tp->state = PThreadStateLast;
               tp->cancelState = PTHREAD_CANCEL_DISABLE;
-              ptw32_mcs_lock_release(&stateLock);
-
-              result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
-              result = (result != 0) ? 0 : EINVAL;
 
               // Set exit to CANCELED (KILLED) when it hasn't been set already.
+              // This must be done before the thread ends: then it may be ourselves
+              // and, otherwise, it may be joined and the structure reused.
               if (tp->exitStatus == NULL)
                   tp->exitStatus = PTHREAD_CANCELED;
+              ptw32_mcs_lock_release(&stateLock);
+
+              result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
+              result = (result != 0) ? 0 : EINVAL;
           }
           else
           {
-- 
2.43.0


From 8f2533bd307316439fe6db95c07cff0a71503566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:32:25 +0000
Subject: [PATCH 26/32] fix: a robust recursive mutex must not be destroyed by
 the thread that holds it

Only the non-robust type was recognised as recursive, so that the owner could
destroy (and free) the mutex while it was in its list of robust mutexes.
---
 pthread_mutex_destroy.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index ef54206..9fa368f 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -70,7 +70,10 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
        */
       if (0 == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  if ((mx->kind != PTHREAD_MUTEX_RECURSIVE
+	       && (mx->kind != -PTHREAD_MUTEX_RECURSIVE - 1	/* Robust */
+		   || ENOTRECOVERABLE == result))
+	      || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
-- 
2.43.0


From ebd4d9394dffc836a904eafaf00b776607800b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:09 +0000
Subject: [PATCH 27/32] fix: a thread created with a CPU set naming unavailable
 CPUs was reported to have it

SetThreadAffinityMask refuses a set that is not a subset of the process's
CPUs. Its result was ignored, so that pthread_getaffinity_np reported for
the new thread a CPU set that had never been applied. As in
pthread_setaffinity_np, use the CPUs that exist, and otherwise record the
set the thread really has.
---
 create.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/create.c b/create.c
index ee0fdbe..60b622a 100644
--- a/create.c
+++ b/create.c
@@ -250,7 +250,27 @@ pthread_create (pthread_t * tid,
 
 #if defined(HAVE_CPU_AFFINITY)
 
-      SetThreadAffinityMask(tp->threadH, tp->cpuset);
+      if (0 == SetThreadAffinityMask(tp->threadH, tp->cpuset))
+        {
+          /*
+           * The set names CPUs that this process can't use. As in
+           * pthread_setaffinity_np(), use those that it can; if there are
+           * none the thread is left with the CPU set of the process.
+           */
+          cpu_set_t processCpuset;
+
+          if (0 == sched_getaffinity(0, sizeof(cpu_set_t), &processCpuset))
+            {
+              size_t available = ((_sched_cpu_set_vector_*)&processCpuset)->_cpuset;
+
+              tp->cpuset &= available;
+              if (0 == tp->cpuset
+                  || 0 == SetThreadAffinityMask(tp->threadH, tp->cpuset))
+                {
+                  tp->cpuset = available;
+                }
+            }
+        }
 
 #endif
 
-- 
2.43.0


From 0c5efb5ef1d4e91bfa9661af459ea1bfde8d519b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:17 +0000
Subject: [PATCH 28/32] fix: pthread_cond_wait must not take a mutex the caller
 does not own

When the mutex could not be released (EPERM: the caller does not own it),
pthread_cond_wait() and pthread_cond_timedwait() nevertheless locked it
before returning the error: the caller waited for the owner, and then
held the mutex without knowing.
---
 pthread_cond_wait.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..9f06f58 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -348,7 +348,8 @@ ptw32_cond_wait_cleanup (void *args)
    * XSH: Upon successful return, the mutex has been locked and is owned
    * by the calling thread.
    */
-  if ((result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
+  if (cleanup_args->mutexPtr != NULL
+      && (result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
     {
       *resultPtr = result;
     }
@@ -437,6 +438,13 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	  result = PTW32_GET_ERRNO();
 	}
     }
+  else
+    {
+      /*
+       * The mutex wasn't ours to release (EPERM), so don't lock it either.
+       */
+      cleanup_args.mutexPtr = NULL;
+    }
 
   /*
    * Always cleanup
-- 
2.43.0


From 139c8cf14e51002b6578e8adfe622e3e0bf5f8dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:28:49 +0000
Subject: [PATCH 29/32] fix: a cancellation point in a popped cleanup handler
 must not terminate a C++ program

pthread_cleanup_pop(1) runs the handler in a destructor, which C++11 makes
noexcept: cancelling the thread in the handler called std::terminate().
---
 pthread.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pthread.h b/pthread.h
index d57a38d..c9654f8 100644
--- a/pthread.h
+++ b/pthread.h
@@ -702,6 +702,13 @@ struct ptw32_cleanup_t
             }
 
           ~PThreadCleanup()
+#if (defined(__cplusplus) && __cplusplus >= 201103L) || (defined(_MSC_VER) && _MSC_VER >= 1900)
+            /*
+             * The routine may contain a cancellation point
+             * (or call pthread_exit()).
+             */
+            noexcept(false)
+#endif
             {
               if ( executeIt && ((void *) cleanUpRout != (void *) 0) )
                 {
-- 
2.43.0


From bad8545c2498818dc0fdfe273cdfc954fdf6c258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:45 +0000
Subject: [PATCH 30/32] fix: run the cleanup handlers of a Win32 thread that
 exits or is cancelled

ptw32_throw() ended such a thread without running the cleanup handlers it
had pushed, among them the library's own: a semaphore wait cancelled in a
Win32 thread left the semaphore's value decremented for ever, and a cancelled
condition wait left the mutex unlocked and the condition variable in use.
---
 ptw32_throw.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_throw.c b/ptw32_throw.c
index ecdc71a..ead0bba 100644
--- a/ptw32_throw.c
+++ b/ptw32_throw.c
@@ -114,6 +114,12 @@ ptw32_throw (DWORD exception)
         }
 #endif
 
+#if defined(PTW32_CLEANUP_C)
+
+      ptw32_pop_cleanup_all (1);
+
+#endif
+
 #if defined(PTW32_STATIC_LIB)
 
       pthread_win32_thread_detach_np ();
-- 
2.43.0


From c6467dc2bba3281fe18d47be3063fd45627a4179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:37:17 +0000
Subject: [PATCH 31/32] fix: sem_post_multiple refuses a count that is not
 positive

---
 sem_post_multiple.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sem_post_multiple.c b/sem_post_multiple.c
index 1095971..fe3f861 100644
--- a/sem_post_multiple.c
+++ b/sem_post_multiple.c
@@ -88,6 +88,12 @@ sem_post_multiple (sem_t * sem, int count)
   long waiters;
   sem_t s = *sem;
 
+  if (count <= 0)
+    {
+      PTW32_SET_ERRNO(EINVAL);
+      return -1;
+    }
+
   ptw32_mcs_lock_acquire(&s->lock, &node);
 
   if (s->value <= (SEM_VALUE_MAX - count))
-- 
2.43.0


From c3346652557eec3080e060100ed61bf874e2ff25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:33 +0000
Subject: [PATCH 32/32] fix: a timed-out read lock attempt must not modify a
 counter whose lock it could not get

---
 pthread_rwlock_timedrdlock.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_rwlock_timedrdlock.c b/pthread_rwlock_timedrdlock.c
index 65b3756..7187284 100644
--- a/pthread_rwlock_timedrdlock.c
+++ b/pthread_rwlock_timedrdlock.c
@@ -95,7 +95,8 @@ pthread_rwlock_timedrdlock (pthread_rwlock_t * rwlock,
 	{
 	  if (result == ETIMEDOUT)
 	    {
-	      ++rwl->nCompletedSharedAccessCount;
+	      /* Not nCompletedSharedAccessCount: we don't hold its lock. */
+	      --rwl->nSharedAccessCount;
 	    }
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
-- 
2.43.0

