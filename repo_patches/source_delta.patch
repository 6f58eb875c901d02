From df36f7beb5dd81c9169d4a397b030fbc16a53b2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 01/38] fix: pthread_mutex_init dereferences NULL when out of
 memory

---
 pthread_mutex_init.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_mutex_init.c b/pthread_mutex_init.c
index 4fac214..8b4ce8d 100644
--- a/pthread_mutex_init.c
+++ b/pthread_mutex_init.c
@@ -139,7 +139,7 @@ pthread_mutex_init (pthread_mutex_t * mutex, const pthread_mutexattr_t * attr)
 	}
     }
 
-  if (0 != result)
+  if (0 != result && NULL != mx)
     {
       if (NULL != mx->robustNode)
 	{
-- 
2.43.0


From f5410c55c1b8528b6565ece436373117e73da1c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:49:53 +0000
Subject: [PATCH 02/38] fix: pthread_mutex_destroy destroys a robust recursive
 mutex its caller holds, keeps one inherited from a dead owner locked

---
 pthread_mutex_destroy.c | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/pthread_mutex_destroy.c b/pthread_mutex_destroy.c
index 82cc088..31dc9c2 100644
--- a/pthread_mutex_destroy.c
+++ b/pthread_mutex_destroy.c
@@ -68,9 +68,11 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
        * If trylock succeeded and the mutex is not recursively locked it
        * can be destroyed.
        */
-      if (0 == result || ENOTRECOVERABLE == result)
+      if (0 == result || EOWNERDEAD == result || ENOTRECOVERABLE == result)
 	{
-	  if (mx->kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+	  int kind = (mx->kind < 0) ? (-mx->kind - 1) : mx->kind;	/* Convert to non-robust range */
+
+	  if (kind != PTHREAD_MUTEX_RECURSIVE || ENOTRECOVERABLE == result || 1 == mx->recursive_count)
 	    {
 	      /*
 	       * FIXME!!!
@@ -81,14 +83,10 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 	       */
 	      *mutex = NULL;
 
-	      result = (0 == result)?pthread_mutex_unlock(&mx):0;
+	      result = (ENOTRECOVERABLE != result)?pthread_mutex_unlock(&mx):0;
 
 	      if (0 == result)
 		{
-                  if (mx->robustNode != NULL)
-                    {
-                      free(mx->robustNode);
-                    }
 		  if (!CloseHandle (mx->event))
 		    {
 		      *mutex = mx;
@@ -96,6 +94,10 @@ pthread_mutex_destroy (pthread_mutex_t * mutex)
 		    }
 		  else
 		    {
+		      if (mx->robustNode != NULL)
+			{
+			  free(mx->robustNode);
+			}
 		      free (mx);
 		    }
 		}
-- 
2.43.0


From 0f510c6fac826374fb911031b714a45463f83a2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:05 +0000
Subject: [PATCH 03/38] fix: pthread_mutex_timedlock does not record the owner
 of an uncontended robust mutex

---
 pthread_mutex_timedlock.c | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index 13372e3..ab526ab 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -253,16 +253,16 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                           break;
                         }
 	            }
-
-                  if (0 == result || EOWNERDEAD == result)
-                    {
-                      /*
-                       * Add mutex to the per-thread robust mutex currently-held list.
-                       * If the thread terminates, all mutexes in this list will be unlocked.
-                       */
-                      ptw32_robust_mutex_add(mutex, self);
-                    }
 	        }
+
+              if (0 == result || EOWNERDEAD == result)
+                {
+                  /*
+                   * Add mutex to the per-thread robust mutex currently-held list.
+                   * If the thread terminates, all mutexes in this list will be unlocked.
+                   */
+                  ptw32_robust_mutex_add(mutex, self);
+                }
             }
           else
             {
-- 
2.43.0


From 6e36eca29b281a7362293862a772ba165b2177f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:53:05 +0000
Subject: [PATCH 04/38] fix: the inner unlock of a recursive robust mutex makes
 it not recoverable

---
 pthread_mutex_unlock.c | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index 4ccfb41..ef640d8 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -128,9 +128,15 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
            */
           if (pthread_equal (mx->ownerThread, self))
             {
-              PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
-                                                      (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
+              /*
+               * Only the unlock that gives the mutex up decides about its state.
+               */
+              if (kind != PTHREAD_MUTEX_RECURSIVE || 1 == mx->recursive_count)
+                {
+                  PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG((PTW32_INTERLOCKED_LONGPTR) &mx->robustNode->stateInconsistent,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_NOTRECOVERABLE,
+                                                          (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT);
+                }
               if (PTHREAD_MUTEX_NORMAL == kind)
                 {
                   ptw32_robust_mutex_remove(mutex, NULL);
-- 
2.43.0


From 6e7abc64bafdaed9d33e2c0c34a19c230f7bcf0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 05/38] fix: a post racing with a cancelled sem_wait leaves the
 count out of step with the kernel semaphore

---
 sem_wait.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sem_wait.c b/sem_wait.c
index 1fd9259..d6c45f3 100644
--- a/sem_wait.c
+++ b/sem_wait.c
@@ -61,13 +61,12 @@ ptw32_sem_wait_cleanup(void * sem)
 
   ptw32_mcs_lock_acquire(&s->lock, &node);
   /*
-   * If sema is destroyed do nothing, otherwise:-
    * If the sema is posted between us being canceled and us locking
    * the sema again above then we need to consume that post but cancel
    * anyway. If we don't get the semaphore we indicate that we're no
    * longer waiting.
    */
-  if (*((sem_t *)sem) != NULL && !(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
+  if (!(WaitForSingleObject(s->sem, 0) == WAIT_OBJECT_0))
     {
       ++s->value;
 #if defined(NEED_SEM)
-- 
2.43.0


From f4fb638f826309a38aac1473cdb88fce5cfd1896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 06/38] fix: pthread_mutex_unlock dereferences NULL for a
 destroyed mutex

---
 pthread_mutex_unlock.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_mutex_unlock.c b/pthread_mutex_unlock.c
index ef640d8..3a47a2d 100644
--- a/pthread_mutex_unlock.c
+++ b/pthread_mutex_unlock.c
@@ -55,6 +55,11 @@ pthread_mutex_unlock (pthread_mutex_t * mutex)
   int kind;
   int result = 0;
 
+  if (mx == NULL)
+    {
+      return EINVAL;
+    }
+
   /*
    * If the thread calling us holds the mutex then there is no
    * race condition. If another thread holds the
-- 
2.43.0


From 3ef096ea2f9206b56faf1f3d094428c5ebc8243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:54:03 +0000
Subject: [PATCH 07/38] fix: a waiter that finds a robust mutex not recoverable
 when inheriting swallows the wake-up

---
 pthread_mutex_lock.c      | 15 +++++++++++----
 pthread_mutex_timedlock.c |  8 ++++++--
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/pthread_mutex_lock.c b/pthread_mutex_lock.c
index 847477c..0f9ed13 100644
--- a/pthread_mutex_lock.c
+++ b/pthread_mutex_lock.c
@@ -189,12 +189,15 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                                     (PTW32_INTERLOCKED_LONGPTR)statePtr,
                                     (PTW32_INTERLOCKED_LONG)0))
                         {
-                          /* Unblock the next thread */
-                          SetEvent(mx->event);
                           result = ENOTRECOVERABLE;
                           break;
                         }
                     }
+                  if (ENOTRECOVERABLE == result)
+                    {
+                      /* Unblock the next thread */
+                      SetEvent(mx->event);
+                    }
                 }
               if (0 == result || EOWNERDEAD == result)
                 {
@@ -249,13 +252,17 @@ pthread_mutex_lock (pthread_mutex_t * mutex)
                                         (PTW32_INTERLOCKED_LONGPTR)statePtr,
                                         (PTW32_INTERLOCKED_LONG)0))
                             {
-                              /* Unblock the next thread */
-                              SetEvent(mx->event);
                               result = ENOTRECOVERABLE;
                               break;
                             }
                         }
 
+                      if (ENOTRECOVERABLE == result)
+                        {
+                          /* Unblock the next thread */
+                          SetEvent(mx->event);
+                        }
+
                       if (0 == result || EOWNERDEAD == result)
                         {
                           mx->recursive_count = 1;
diff --git a/pthread_mutex_timedlock.c b/pthread_mutex_timedlock.c
index ab526ab..cc63cd9 100644
--- a/pthread_mutex_timedlock.c
+++ b/pthread_mutex_timedlock.c
@@ -247,12 +247,16 @@ pthread_mutex_timedlock (pthread_mutex_t * mutex,
                                     (PTW32_INTERLOCKED_LONGPTR)statePtr,
                                     (PTW32_INTERLOCKED_LONG)0))
                         {
-                          /* Unblock the next thread */
-                          SetEvent(mx->event);
                           result = ENOTRECOVERABLE;
                           break;
                         }
 	            }
+
+                  if (ENOTRECOVERABLE == result)
+                    {
+                      /* Unblock the next thread */
+                      SetEvent(mx->event);
+                    }
 	        }
 
               if (0 == result || EOWNERDEAD == result)
-- 
2.43.0


From 74fface6149e62006c50ea0336dd84b0f3eb9d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 08/38] fix: cancelling a thread at the gate of a condition
 variable can leave the gate closed for ever

---
 pthread_cond_wait.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 926ca7a..5ecb498 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -385,8 +385,11 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 
   cv = *cond;
 
-  /* Thread can be cancelled in sem_wait() but this is OK */
-  if (sem_wait (&(cv->semBlockLock)) != 0)
+  /*
+   * Not cancellable: a unit granted while being cancelled would be lost and
+   * the gate would stay closed. sem_timedwait() below is the cancellation point.
+   */
+  if (ptw32_semwait (&(cv->semBlockLock)) != 0)
     {
       return PTW32_GET_ERRNO();
     }
-- 
2.43.0


From 9519e881607a4ba5f14c4226917e67155e587549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:17 +0000
Subject: [PATCH 09/38] fix: a condition wait that is refused because the mutex
 is not held locks the mutex

---
 pthread_cond_wait.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/pthread_cond_wait.c b/pthread_cond_wait.c
index 5ecb498..fbb3144 100644
--- a/pthread_cond_wait.c
+++ b/pthread_cond_wait.c
@@ -348,7 +348,8 @@ ptw32_cond_wait_cleanup (void *args)
    * XSH: Upon successful return, the mutex has been locked and is owned
    * by the calling thread.
    */
-  if ((result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
+  if (cleanup_args->mutexPtr != NULL
+      && (result = pthread_mutex_lock (cleanup_args->mutexPtr)) != 0)
     {
       *resultPtr = result;
     }
@@ -440,6 +441,11 @@ ptw32_cond_timedwait (pthread_cond_t * cond,
 	  result = PTW32_GET_ERRNO();
 	}
     }
+  else
+    {
+      /* The mutex was not released, so it must not be locked again */
+      cleanup_args.mutexPtr = NULL;
+    }
 
   /*
    * Always cleanup
-- 
2.43.0


From 8df348b45539f3d7e093e84d9687501037d498fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:36 +0000
Subject: [PATCH 10/38] fix: a read lock that fails at the reader-count limit
 stays counted

---
 pthread_rwlock_rdlock.c      | 1 +
 pthread_rwlock_timedrdlock.c | 5 +----
 pthread_rwlock_tryrdlock.c   | 1 +
 3 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/pthread_rwlock_rdlock.c b/pthread_rwlock_rdlock.c
index d5dc340..663cc2c 100644
--- a/pthread_rwlock_rdlock.c
+++ b/pthread_rwlock_rdlock.c
@@ -90,6 +90,7 @@ pthread_rwlock_rdlock (pthread_rwlock_t * rwlock)
       if ((result =
 	   pthread_mutex_lock (&(rwl->mtxSharedAccessCompleted))) != 0)
 	{
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
diff --git a/pthread_rwlock_timedrdlock.c b/pthread_rwlock_timedrdlock.c
index 65b3756..aafa663 100644
--- a/pthread_rwlock_timedrdlock.c
+++ b/pthread_rwlock_timedrdlock.c
@@ -93,10 +93,7 @@ pthread_rwlock_timedrdlock (pthread_rwlock_t * rwlock,
 	   pthread_mutex_timedlock (&(rwl->mtxSharedAccessCompleted),
 				    abstime)) != 0)
 	{
-	  if (result == ETIMEDOUT)
-	    {
-	      ++rwl->nCompletedSharedAccessCount;
-	    }
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
diff --git a/pthread_rwlock_tryrdlock.c b/pthread_rwlock_tryrdlock.c
index cf8209c..596226d 100644
--- a/pthread_rwlock_tryrdlock.c
+++ b/pthread_rwlock_tryrdlock.c
@@ -90,6 +90,7 @@ pthread_rwlock_tryrdlock (pthread_rwlock_t * rwlock)
       if ((result =
 	   pthread_mutex_lock (&(rwl->mtxSharedAccessCompleted))) != 0)
 	{
+	  --rwl->nSharedAccessCount;
 	  (void) pthread_mutex_unlock (&(rwl->mtxExclusiveAccess));
 	  return result;
 	}
-- 
2.43.0


From 8871d1cfe7a7758c7b66f0ada74aceca7cd5037c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 11/38] fix: a thread queueing for an internal lock enters it
 without waiting when no event can be created

---
 ptw32_MCS_lock.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/ptw32_MCS_lock.c b/ptw32_MCS_lock.c
index dc13061..9aa3754 100644
--- a/ptw32_MCS_lock.c
+++ b/ptw32_MCS_lock.c
@@ -159,6 +159,16 @@ ptw32_mcs_flag_wait (HANDLE * flag)
 
           CloseHandle(e);
       }
+      else
+      {
+          /* no event to wait on. poll the flag instead. */
+          while ((PTW32_INTERLOCKED_SIZE)0 ==
+                   PTW32_INTERLOCKED_EXCHANGE_ADD_SIZE((PTW32_INTERLOCKED_SIZEPTR)flag,
+                                                       (PTW32_INTERLOCKED_SIZE)0))
+          {
+              sched_yield();
+          }
+      }
     }
 }
 
-- 
2.43.0


From c9b8e3b7676be8e7b6fb2f6ed19de657a8c35758 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 12/38] fix: pthread_barrier_wait reads the barrier after
 counting itself out, when it may already be destroyed

---
 pthread_barrier_wait.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pthread_barrier_wait.c b/pthread_barrier_wait.c
index e2b313f..aff200c 100644
--- a/pthread_barrier_wait.c
+++ b/pthread_barrier_wait.c
@@ -49,6 +49,7 @@ int
 pthread_barrier_wait (pthread_barrier_t * barrier)
 {
   int result;
+  unsigned int height;
   pthread_barrier_t b;
 
   ptw32_mcs_local_node_t node;
@@ -61,6 +62,8 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
   ptw32_mcs_lock_acquire(&(*barrier)->lock, &node);
 
   b = *barrier;
+  /* once counted out below, the barrier can be destroyed by another thread. */
+  height = b->nInitialBarrierHeight;
   if (--b->nCurrentBarrierHeight == 0)
     {
       /*
@@ -95,7 +98,7 @@ pthread_barrier_wait (pthread_barrier_t * barrier)
     }
 
   if ((PTW32_INTERLOCKED_LONG)PTW32_INTERLOCKED_INCREMENT_LONG((PTW32_INTERLOCKED_LONGPTR)&b->nCurrentBarrierHeight)
-		  == (PTW32_INTERLOCKED_LONG)b->nInitialBarrierHeight)
+		  == (PTW32_INTERLOCKED_LONG)height)
     {
       /*
        * We are the last thread to cross this barrier
-- 
2.43.0


From ec202262c90cd9e3ed17ae7d5cdddd8410d01eb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:51 +0000
Subject: [PATCH 13/38] fix: pthread_mutex_consistent dereferences a static
 initialiser

---
 pthread_mutex_consistent.c | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/pthread_mutex_consistent.c b/pthread_mutex_consistent.c
index b9c8221..4015033 100755
--- a/pthread_mutex_consistent.c
+++ b/pthread_mutex_consistent.c
@@ -183,6 +183,14 @@ pthread_mutex_consistent (pthread_mutex_t* mutex)
       return EINVAL;
     }
 
+  /*
+   * A statically initialised mutex that was never locked isn't robust.
+   */
+  if (mx >= PTHREAD_ERRORCHECK_MUTEX_INITIALIZER)
+    {
+      return EINVAL;
+    }
+
   if (mx->kind >= 0
         || (PTW32_INTERLOCKED_LONG)PTW32_ROBUST_INCONSISTENT != PTW32_INTERLOCKED_COMPARE_EXCHANGE_LONG(
                                                 (PTW32_INTERLOCKED_LONGPTR)&mx->robustNode->stateInconsistent,
-- 
2.43.0


From d44a15f664d7dc5ad3ac415e1290fcc8022f12e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 14/38] fix: detaching a thread that is on its way out releases
 it twice

---
 pthread_detach.c | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/pthread_detach.c b/pthread_detach.c
index df19c64..925f199 100644
--- a/pthread_detach.c
+++ b/pthread_detach.c
@@ -110,11 +110,8 @@ pthread_detach (pthread_t thread)
       ptw32_mcs_lock_acquire (&tp->stateLock, &stateLock);
       if (tp->state < PThreadStateLast)
         {
+          /* the thread destroys itself when it has finished exiting. */
           tp->detachState = PTHREAD_CREATE_DETACHED;
-          if (tp->state == PThreadStateExiting)
-          {
-            destroyIt = PTW32_TRUE;
-          }
         }
       else if (tp->detachState != PTHREAD_CREATE_DETACHED)
         {
-- 
2.43.0


From fe42d74d591e22d02fbdde6138b9854a8ecf914b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 15/38] fix: a cancellation posted before the new thread runs
 is forgotten

---
 ptw32_threadStart.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/ptw32_threadStart.c b/ptw32_threadStart.c
index 45aadbf..71a5bec 100644
--- a/ptw32_threadStart.c
+++ b/ptw32_threadStart.c
@@ -167,7 +167,11 @@ ptw32_threadStart (void *vthreadParms)
    * has the new handle.
    */
   ptw32_mcs_lock_acquire (&sp->stateLock, &stateLock);
-  sp->state = PThreadStateRunning;
+  if (sp->state < PThreadStateRunning)
+    {
+      /* otherwise there is a cancellation pending already. */
+      sp->state = PThreadStateRunning;
+    }
   ptw32_mcs_lock_release (&stateLock);
 
 #if defined(PTW32_CLEANUP_SEH)
-- 
2.43.0


From ee6a2dd25583afef8364491a6b04a440fd3f2e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 16/38] fix: cancelling an asynchronously cancellable thread
 that has gone leaves its state locked

---
 pthread_cancel.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pthread_cancel.c b/pthread_cancel.c
index 0e1a5cc..80cf771 100644
--- a/pthread_cancel.c
+++ b/pthread_cancel.c
@@ -177,6 +177,12 @@ pthread_cancel (pthread_t thread)
 	      ptw32_mcs_lock_release (&stateLock);
 	      ResumeThread (threadH);
 	    }
+	  else
+	    {
+	      ptw32_mcs_lock_release (&stateLock);
+	      ResumeThread (threadH);
+	      result = ESRCH;
+	    }
 	}
     }
   else
-- 
2.43.0


From eda51987d11e5621bcbe48c6b18bdb1363b50b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 17/38] fix: pthread_kill records the status of the killed
 thread when it may already have been joined

---
 pthread_kill.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pthread_kill.c b/pthread_kill.c
index fd713d2..f7a4338 100644
--- a/pthread_kill.c
+++ b/pthread_kill.c
@@ -137,14 +137,16 @@ pthread_kill (pthread_t thread, int sig)
           {
               tp->state = PThreadStateLast;
               tp->cancelState = PTHREAD_CANCEL_DISABLE;
+
+              // Set exit to CANCELED (KILLED) when it hasn't been set already;
+              // once terminated the thread may be joined and its record reused.
+              if (tp->exitStatus == NULL)
+                  tp->exitStatus = PTHREAD_CANCELED;
+
               ptw32_mcs_lock_release(&stateLock);
 
               result = TerminateThread(tp->threadH, (DWORD)(ptrdiff_t)PTHREAD_CANCELED);
               result = (result != 0) ? 0 : EINVAL;
-
-              // Set exit to CANCELED (KILLED) when it hasn't been set already.
-              if (tp->exitStatus == NULL)
-                  tp->exitStatus = PTHREAD_CANCELED;
           }
           else
           {
-- 
2.43.0


From d9c7fa00690379b2c81e88e4165a45971e2d7267 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 18/38] fix: pthread_self dereferences NULL when there is no
 memory for the record of the thread

---
 pthread_self.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pthread_self.c b/pthread_self.c
index c758b7a..573ccaa 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -180,7 +180,7 @@ pthread_self (void)
     	   */
     	  return nil;
         }
-      else
+      else if (sp != NULL)
 	{
 	  /*
 	   * This implicit POSIX thread is running (it called us).
-- 
2.43.0


From 1a01fe011b328cc80317964e492d8fb28641092a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 19/38] fix: pthread_self leaks handles and keeps referring to
 the released record when it fails

---
 pthread_self.c | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pthread_self.c b/pthread_self.c
index 573ccaa..0b84ea9 100644
--- a/pthread_self.c
+++ b/pthread_self.c
@@ -162,7 +162,10 @@ pthread_self (void)
     	       * because the new handle is not yet public.
     	       */
     	      sp->sched_priority = GetThreadPriority (sp->threadH);
-    	      pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	      if (!fail)
+    	        {
+    	          pthread_setspecific (ptw32_selfThreadKey, (void *) sp);
+    	        }
     	    }
         }
 
@@ -172,8 +175,7 @@ pthread_self (void)
     	   * Thread structs are never freed but are reused so if this
     	   * continues to fail at least we don't leak memory.
     	   */
-		  sp->threadH = 0;	// [i_a]
-    	  ptw32_threadReusePush (self);
+    	  ptw32_threadDestroy (self);
     	  /*
     	   * As this is a win32 thread calling us and we have failed,
     	   * return a value that makes sense to win32.
-- 
2.43.0


From f89de50031a7c4f745e16a0f7d5df5c46cc46222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 20/38] fix: the library counts as initialised when its keys
 could not be created

---
 ptw32_processInitialize.c | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/ptw32_processInitialize.c b/ptw32_processInitialize.c
index b73206e..7788d6e 100644
--- a/ptw32_processInitialize.c
+++ b/ptw32_processInitialize.c
@@ -150,7 +150,12 @@ ptw32_processInitialize (void)
   if ((pthread_key_create (&ptw32_selfThreadKey, NULL) != 0) ||
       (pthread_key_create (&ptw32_cleanupKey, NULL) != 0))
     {
-      ptw32_processTerminate ();
+      if (ptw32_selfThreadKey != NULL)
+        {
+          pthread_key_delete (ptw32_selfThreadKey);
+          ptw32_selfThreadKey = NULL;
+        }
+      return PTW32_FALSE;
     }
   ptw32_processInitialized = PTW32_TRUE;
   return (ptw32_processInitialized);
-- 
2.43.0


From a6ac94506187876b1d4e32f0a9617c9414ca5fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 21/38] fix: a cleanup handler that exits or is cancelled is
 run again

---
 cleanup.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/cleanup.c b/cleanup.c
index 4b20d5a..91194ce 100644
--- a/cleanup.c
+++ b/cleanup.c
@@ -89,6 +89,9 @@ ptw32_pop_cleanup (int execute)
 
   if (cleanup != NULL)
     {
+      /* removed first, so that it is not run again if it does not return. */
+      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
+
       if (execute && (cleanup->routine != NULL))
 	{
 
@@ -96,8 +99,6 @@ ptw32_pop_cleanup (int execute)
 
 	}
 
-      pthread_setspecific (ptw32_cleanupKey, (void *) cleanup->prev);
-
     }
 
   return (cleanup);
-- 
2.43.0


From bb88c0a2750d64f4c51fda6f6edcfc88ad2c2e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:21 +0000
Subject: [PATCH 22/38] fix: threads created at the same time can get the same
 unique number

---
 ptw32_new.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ptw32_new.c b/ptw32_new.c
index 1039c75..b0e8235 100644
--- a/ptw32_new.c
+++ b/ptw32_new.c
@@ -51,6 +51,7 @@ ptw32_new (void)
   pthread_t t;
   pthread_t nil = {NULL, 0};
   ptw32_thread_t * tp;
+  ptw32_mcs_local_node_t node;
 
   /*
    * If there's a reusable pthread_t then use it.
@@ -77,7 +78,9 @@ ptw32_new (void)
     }
 
   /* Set default state. */
+  ptw32_mcs_lock_acquire(&ptw32_thread_reuse_lock, &node);
   tp->seqNumber = ++ptw32_threadSeqNumber;
+  ptw32_mcs_lock_release(&node);
   tp->sched_priority = THREAD_PRIORITY_NORMAL;
   tp->detachState = PTHREAD_CREATE_JOINABLE;
   tp->cancelState = PTHREAD_CANCEL_ENABLE;
-- 
2.43.0


From bd29e7876fedd751b512e7d186bccf89923a0b07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:22 +0000
Subject: [PATCH 23/38] fix: the name of a thread is never freed

---
 ptw32_threadDestroy.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ptw32_threadDestroy.c b/ptw32_threadDestroy.c
index 978df22..39212a5 100644
--- a/ptw32_threadDestroy.c
+++ b/ptw32_threadDestroy.c
@@ -60,6 +60,7 @@ ptw32_threadDestroy (pthread_t thread)
       HANDLE threadH = tp->threadH;
 #endif
       HANDLE cancelEvent = tp->cancelEvent;
+      char * name = tp->name;
 
       /*
        * Thread ID structs are never freed. They're NULLed and reused.
@@ -69,6 +70,11 @@ ptw32_threadDestroy (pthread_t thread)
       ptw32_threadReusePush (thread);
 
       /* Now work on the copies as the `tp` instance has already been nulled. */
+      if (name != NULL)
+	{
+	  free (name);
+	}
+
       if (cancelEvent != NULL)
 	{
 	  CloseHandle (cancelEvent);
-- 
2.43.0


From 6500ad19d47109427def853b262c20763cee3f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 24/38] fix: pthread_attr_destroy leaks the thread name

---
 pthread_attr_destroy.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pthread_attr_destroy.c b/pthread_attr_destroy.c
index e1a8b48..aecfcd5 100644
--- a/pthread_attr_destroy.c
+++ b/pthread_attr_destroy.c
@@ -79,6 +79,7 @@ pthread_attr_destroy (pthread_attr_t * attr)
    * Set the attribute object to a specific invalid value.
    */
   (*attr)->valid = 0;
+  free ((*attr)->thrname);
   free (*attr);
   *attr = NULL;
 
-- 
2.43.0


From 9b108d6d0ebfaa50fc25301badf48d520f263b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:00:42 +0000
Subject: [PATCH 25/38] fix: pthread_getname_np dereferences NULL for a thread
 without a name

---
 pthread_getname_np.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index d5efeb6..148531e 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -64,7 +64,8 @@ pthread_getname_np(pthread_t thr, char *name, int len)
 
   ptw32_mcs_lock_acquire (&tp->threadLock, &threadLock);
 
-  for (s = tp->name, d = name; *s && d < &name[len - 1]; *d++ = *s++)
+  /* a thread may have no name. */
+  for (s = (tp->name != NULL ? tp->name : (char *) ""), d = name; *s && d < &name[len - 1]; *d++ = *s++)
     {}
 
   *d = '\0';
-- 
2.43.0


From 944922bcc12d4a03fb905050ce3a21e0ab5ec061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 26/38] fix: pthread_attr_getname_np reports success without
 storing the name

---
 pthread_attr_getname_np.c | 23 +++++++++++++----------
 1 file changed, 13 insertions(+), 10 deletions(-)

diff --git a/pthread_attr_getname_np.c b/pthread_attr_getname_np.c
index b707410..a603bde 100644
--- a/pthread_attr_getname_np.c
+++ b/pthread_attr_getname_np.c
@@ -45,16 +45,19 @@
 int
 pthread_attr_getname_np(pthread_attr_t * attr, char *name, int len)
 {
-  //strncpy_s(name, len - 1, (*attr)->thrname, len - 1);
-#if defined(_MSVCRT_)
-# pragma warning(suppress:4996)
-  strncpy(name, (*attr)->thrname, len - 1);
-  (*attr)->thrname[len - 1] = '\0';
-#else // _MSVCRT_
-  (void)attr;
-  (void)name;
-  (void)len;
-#endif // _MSVCRT_
+  const char * s;
 
+  if (ptw32_is_attr (attr) != 0 || name == NULL || len < 1)
+    {
+      return EINVAL;
+    }
+
+  /* there may be no name. */
+  for (s = (*attr)->thrname; s != NULL && *s && len > 1; len--)
+    {
+      *name++ = *s++;
+    }
+
+  *name = '\0';
   return 0;
 }
-- 
2.43.0


From ef32a03dfe63482d801a6930a00c076f48290b95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 27/38] fix: pthread_getname_np writes to a buffer of no length

---
 pthread_getname_np.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_getname_np.c b/pthread_getname_np.c
index 148531e..b9d9a79 100644
--- a/pthread_getname_np.c
+++ b/pthread_getname_np.c
@@ -54,6 +54,11 @@ pthread_getname_np(pthread_t thr, char *name, int len)
    * pthread_kill and pthread_t are designed to accommodate it, but the
    * method is not portable.
    */
+  if (len < 1)
+    {
+      return EINVAL;
+    }
+
   result = pthread_kill (thr, 0);
   if (0 != result)
     {
-- 
2.43.0


From 698291a73c46fc05598b89a8c0c4a27069fb5731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:19 +0000
Subject: [PATCH 28/38] fix: setting a name that cannot be stored removes the
 old one and reports success

---
 pthread_attr_setname_np.c | 8 ++++++++
 pthread_setname_np.c      | 8 ++++++++
 2 files changed, 16 insertions(+)

diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 2ab34de..7a80b13 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -70,6 +70,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
@@ -88,6 +92,10 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * oldname;
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
   oldname = (*attr)->thrname;
   (*attr)->thrname = newname;
diff --git a/pthread_setname_np.c b/pthread_setname_np.c
index 25a0339..1e81b37 100644
--- a/pthread_setname_np.c
+++ b/pthread_setname_np.c
@@ -118,6 +118,10 @@ pthread_setname_np(pthread_t thr, const char *name, void *arg)
     }
 
   newname = ptw32_strdup(tmpbuf);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
@@ -167,6 +171,10 @@ pthread_setname_np(pthread_t thr, const char *name)
     }
 
   newname = ptw32_strdup(name);
+  if (newname == NULL)
+    {
+      return ENOMEM;
+    }
 
 #if defined(_MSC_VER)
   Win32ThreadID = pthread_getw32threadid_np (thr);
-- 
2.43.0


From 77d3991b6e039f65b7fdb1855c92816e61e8a35d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 29/38] fix: the thread name and scope attributes are accessed
 without checking the attributes object

---
 pthread_attr_getscope.c   |  5 +++++
 pthread_attr_setname_np.c | 10 ++++++++++
 pthread_attr_setscope.c   |  5 +++++
 3 files changed, 20 insertions(+)

diff --git a/pthread_attr_getscope.c b/pthread_attr_getscope.c
index 0136c4b..2c67ca6 100644
--- a/pthread_attr_getscope.c
+++ b/pthread_attr_getscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_getscope (const pthread_attr_t * attr, int *contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0 || contentionscope == NULL)
+    {
+      return EINVAL;
+    }
+
   *contentionscope = (*attr)->contentionscope;
   return 0;
 #else
diff --git a/pthread_attr_setname_np.c b/pthread_attr_setname_np.c
index 7a80b13..0f99f94 100644
--- a/pthread_attr_setname_np.c
+++ b/pthread_attr_setname_np.c
@@ -53,6 +53,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name, void *arg)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   /*
    * According to the MSDN description for snprintf()
    * where count is the second parameter:
@@ -91,6 +96,11 @@ pthread_attr_setname_np(pthread_attr_t * attr, const char *name)
   char * newname;
   char * oldname;
 
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   newname = ptw32_strdup(name);
   if (newname == NULL)
     {
diff --git a/pthread_attr_setscope.c b/pthread_attr_setscope.c
index ddf8b11..554ba54 100644
--- a/pthread_attr_setscope.c
+++ b/pthread_attr_setscope.c
@@ -53,6 +53,11 @@ int
 pthread_attr_setscope (pthread_attr_t * attr, int contentionscope)
 {
 #if defined(_POSIX_THREAD_PRIORITY_SCHEDULING)
+  if (ptw32_is_attr (attr) != 0)
+    {
+      return EINVAL;
+    }
+
   switch (contentionscope)
     {
     case PTHREAD_SCOPE_SYSTEM:
-- 
2.43.0


From ca0a92223385a2017e63a345e024284095c8e870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 30/38] fix: pthread_delay_np returns early for an interval
 that does not fit into 32 bits of milliseconds

---
 pthread_delay_np.c | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index ac094d6..0454f90 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -108,6 +108,12 @@ pthread_delay_np (struct timespec *interval)
       return (0);
     }
 
+  /* the whole interval must fit into wait_time */
+  if (interval->tv_sec < 0 || interval->tv_sec > 0x7fffffffL / 1000L)
+    {
+      return EINVAL;
+    }
+
   /* convert secs to millisecs */
   secs_in_millisecs = (DWORD)interval->tv_sec * 1000L;
 
-- 
2.43.0


From dcc0f96a66c2a9aee1b5dca67a8dc3d71ef5600c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 31/38] fix: the current time wraps round in 2038 when timed
 waits compute their timeout

---
 ptw32_timespec.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ptw32_timespec.c b/ptw32_timespec.c
index a1e3ac1..4119a0c 100644
--- a/ptw32_timespec.c
+++ b/ptw32_timespec.c
@@ -78,7 +78,7 @@ ptw32_filetime_to_timespec (const FILETIME * ft, struct timespec *ts)
       */
 {
   ts->tv_sec =
-    (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
+    (time_t) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET) / 10000000UL);
   ts->tv_nsec =
     (int) ((*(uint64_t *) ft - PTW32_TIMESPEC_TO_FILETIME_OFFSET -
 	    ((uint64_t) ts->tv_sec * (uint64_t) 10000000UL)) * 100);
-- 
2.43.0


From debb5919ab458e1c9c6b4ac5e5090e0544036ba0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 32/38] fix: an absolute time too far away to be expressed in
 nanoseconds times out at once

---
 ptw32_relmillisecs.c | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index 7123d7d..c19cbc7 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -76,7 +76,6 @@ ptw32_relmillisecs (const struct timespec * abstime)
    *
    * Assume all integers are unsigned, i.e. cannot test if less than 0.
    */
-  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
 
   /* get current system time */
 
@@ -91,6 +90,20 @@ ptw32_relmillisecs (const struct timespec * abstime)
 
   tmpCurrNanoseconds = (int64_t)currSysTime.tv_nsec + ((int64_t)currSysTime.tv_sec * NANOSEC_PER_SEC);
 
+  if (abstime->tv_sec < 0)
+    {
+      /* Long past, and possibly not representable in nanoseconds */
+      return 0;
+    }
+
+  if (abstime->tv_sec > currSysTime.tv_sec + (time_t) (INFINITE / MILLISEC_PER_SEC) + 1)
+    {
+      /* Possibly not representable in nanoseconds. Timeouts must be finite */
+      return INFINITE - 1;
+    }
+
+  tmpAbsNanoseconds = (int64_t)abstime->tv_nsec + ((int64_t)abstime->tv_sec * NANOSEC_PER_SEC);
+
   if (tmpAbsNanoseconds > tmpCurrNanoseconds)
     {
       int64_t deltaNanoseconds = tmpAbsNanoseconds - tmpCurrNanoseconds;
-- 
2.43.0


From e3f4bbc06528533d16b43dffe3ecb0ee89a4e3e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:46 +0000
Subject: [PATCH 33/38] fix: timed waits time out up to a millisecond before
 the given time

---
 ptw32_relmillisecs.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ptw32_relmillisecs.c b/ptw32_relmillisecs.c
index c19cbc7..238f43e 100644
--- a/ptw32_relmillisecs.c
+++ b/ptw32_relmillisecs.c
@@ -108,14 +108,15 @@ ptw32_relmillisecs (const struct timespec * abstime)
     {
       int64_t deltaNanoseconds = tmpAbsNanoseconds - tmpCurrNanoseconds;
 
-      if (deltaNanoseconds >= ((int64_t)INFINITE * NANOSEC_PER_MILLISEC))
+      if (deltaNanoseconds > ((int64_t)(INFINITE - 1) * NANOSEC_PER_MILLISEC))
          {
            /* Timeouts must be finite */
            milliseconds = INFINITE - 1;
          }
        else
          {
-           milliseconds = (DWORD)(deltaNanoseconds / NANOSEC_PER_MILLISEC);
+           /* Round up: a wait must not time out before abstime */
+           milliseconds = (DWORD)((deltaNanoseconds + NANOSEC_PER_MILLISEC - 1) / NANOSEC_PER_MILLISEC);
          }
     }
   else
-- 
2.43.0


From c4bda0420b7d20c8a904175a4e0ab17e83a00a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:05:44 +0000
Subject: [PATCH 34/38] fix: pthread_delay_np withdraws the cancellation
 request it acts on

The cancel event stayed set, so every later wait of a clean-up handler that
enables cancellation again failed at once.
---
 pthread_delay_np.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pthread_delay_np.c b/pthread_delay_np.c
index 0454f90..6c43e81 100644
--- a/pthread_delay_np.c
+++ b/pthread_delay_np.c
@@ -159,6 +159,7 @@ pthread_delay_np (struct timespec *interval)
 	    {
 	      sp->state = PThreadStateCanceling;
 	      sp->cancelState = PTHREAD_CANCEL_DISABLE;
+	      (void) ResetEvent (sp->cancelEvent);
 	      ptw32_mcs_lock_release (&stateLock);
 
 	      ptw32_throw (PTW32_EPS_CANCEL);
-- 
2.43.0


From ea8d66a9492d6b3aa723d6f3fda41094f4a5bb43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:21 +0000
Subject: [PATCH 35/38] fix: pthread_setspecific reported success for a null
 key although nothing is stored

---
 pthread_setspecific.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pthread_setspecific.c b/pthread_setspecific.c
index cc0f64a..0f92032 100644
--- a/pthread_setspecific.c
+++ b/pthread_setspecific.c
@@ -67,6 +67,7 @@ pthread_setspecific (pthread_key_t key, const void *value)
       * RESULTS
       *              0               successfully set value
       *              EAGAIN          could not set value
+      *              EINVAL          key is invalid
       *              ENOENT          SERIOUS!!
       *
       * ------------------------------------------------------
@@ -169,6 +170,10 @@ pthread_setspecific (pthread_key_t key, const void *value)
 	    }
 	}
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }				/* pthread_setspecific */
-- 
2.43.0


From 492c69688664ef90399b4bdd79e6501923c35839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:31:21 +0000
Subject: [PATCH 36/38] fix: pthread_key_delete reported success for a null key

---
 pthread_key_delete.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pthread_key_delete.c b/pthread_key_delete.c
index f36f7f2..fc8d5b1 100644
--- a/pthread_key_delete.c
+++ b/pthread_key_delete.c
@@ -127,6 +127,10 @@ pthread_key_delete (pthread_key_t key)
 #endif
       free (key);
     }
+  else
+    {
+      result = EINVAL;
+    }
 
   return (result);
 }
-- 
2.43.0


From 745d492a8a8288c77a05bb8c7f7c2db6a14d04e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:03 +0000
Subject: [PATCH 37/38] fix: pthread_join and its variants ignored a pending
 cancellation request when the target had ended

---
 pthread_join.c         | 4 ++++
 pthread_timedjoin_np.c | 4 ++++
 pthread_tryjoin_np.c   | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pthread_join.c b/pthread_join.c
index 7a2fdfa..e0dfcb0 100644
--- a/pthread_join.c
+++ b/pthread_join.c
@@ -135,7 +135,11 @@ pthread_join (pthread_t thread, void **value_ptr)
 	   * detached (destroyed). This is guaranteed because
 	   * pthreadCancelableWait will not return if we
 	   * are canceled.
+	   * The wait prefers the target to a pending request, so test
+	   * for the latter first.
 	   */
+	  pthread_testcancel ();
+
 	  result = pthreadCancelableWait (tp->threadH);
 
 	  if (0 == result)
diff --git a/pthread_timedjoin_np.c b/pthread_timedjoin_np.c
index 8d6fb7e..7ee2b00 100755
--- a/pthread_timedjoin_np.c
+++ b/pthread_timedjoin_np.c
@@ -161,7 +161,11 @@ pthread_timedjoin_np (pthread_t thread, void **value_ptr, const struct timespec
            * detached (destroyed). This is guaranteed because
            * pthreadCancelableTimedWait will not return if we
            * are canceled.
+           * The wait prefers the target to a pending request, so test
+           * for the latter first.
            */
+          pthread_testcancel ();
+
           result = pthreadCancelableTimedWait (tp->threadH, milliseconds);
 
           if (0 == result)
diff --git a/pthread_tryjoin_np.c b/pthread_tryjoin_np.c
index 42097ef..7416a78 100644
--- a/pthread_tryjoin_np.c
+++ b/pthread_tryjoin_np.c
@@ -142,7 +142,11 @@ pthread_tryjoin_np (pthread_t thread, void **value_ptr)
            * detached (destroyed). This is guaranteed because
            * pthreadCancelableTimedWait will not return if we
            * are canceled.
+           * The wait prefers the target to a pending request, so test
+           * for the latter first.
            */
+          pthread_testcancel ();
+
           result = pthreadCancelableTimedWait (tp->threadH, 0);
 
           if (0 == result)
-- 
2.43.0


From 91774b74107a6cc9635c1d691d17207208dece5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:00:13 +0000
Subject: [PATCH 38/38] fix: pthread_create must not cut the requested stack
 size to 32 bits

---
 create.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/create.c b/create.c
index 1e15a90..f84c546 100644
--- a/create.c
+++ b/create.c
@@ -166,6 +166,11 @@ pthread_create (pthread_t * tid,
         }
 #endif
       stackSize = (unsigned int)a->stacksize;
+      if (stackSize != a->stacksize)
+        {
+          /* More than can be asked of the system. */
+          goto FAIL0;
+        }
       tp->detachState = a->detachstate;
       priority = a->param.sched_priority;
       if (a->thrname != NULL)
-- 
2.43.0

