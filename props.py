prop('M01', 'A lock call reports success exactly when the caller holds the mutex',
     'Locking, try-locking or timed-locking a mutex returns success (or the owner-died status) only when the caller has acquired it, and any other '
     'result leaves the mutex as if the call had not been made. At most one thread acquires a mutex at a time, and a caller that has to block does so '
     'only after marking the mutex as contended, so that the holder\'s release wakes a waiter. A try-lock never blocks.',
     ['schedules', 'fault_sequences'], SCHED + ', for every mutex type', 'Tests run a handful of interleavings; the lost-wake-up and failed-wait paths need a third thread or a failing kernel call at one instruction.',
     ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c'],
     [('lock word exchange protocol 0/1/-1', 'pthread_mutex_lock.c'), ('event wait', 'pthread_mutex_timedlock.c:ptw32_timed_eventwait')],
     [('lock_idx', 'free, held, held with waiters', 'implement.h:pthread_mutex_t_')])
prop('M02', 'Unlocking releases once, only for the owner, and wakes a waiter',
     'Unlocking frees the mutex only when the caller is entitled to (the owner, for types that track one), reports not-permitted otherwise without changing it, '
     'and when another thread is blocked on it wakes one after the mutex is free. It never blocks, never touches the mutex after freeing it except to signal, '
     'and a successful result means the lock (or one recursion level) was given up.',
     ['schedules', 'inputs'], SCHED + ', for every mutex type and every owner', 'A missed wake-up or a write after release only shows under a particular interleaving with a second and third thread.',
     ['pthread_mutex_unlock.c'], [('lock word exchange then event', 'pthread_mutex_unlock.c')], [('ownerThread', 'recorded owner', 'implement.h')])
prop('M03', 'Recursive and error-checking mutexes count and refuse relocks correctly',
     'Relocking by the owner adds one level on a recursive mutex and is refused (deadlock or busy, without blocking) on an error-checking one; a fresh acquisition starts at one level. '
     'A recursive mutex becomes free exactly when as many unlocks as locks have been made, and a non-owner can neither lock it in between nor unlock it.',
     ['histories', 'schedules'], 'every sequence of lock, relock and unlock calls by any threads', 'Tests try a few nesting depths with at most two threads.',
     ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c'],
     [('recursive_count under ownership', 'pthread_mutex_lock.c'), ('owner comparison', 'pthread_equal.c')])
prop('M04', 'Robust mutexes hand over dead owners\' locks and stay dead if not repaired',
     'The owner-died status is returned exactly to a caller that takes the mutex over from a dead owner, and whoever holds a robust mutex is recorded so that its own death is noticed. '
     'Only marking it consistent makes an inherited mutex usable again; if its final unlock happens without that, it becomes unrecoverable for good, every waiter is told so, '
     'and any lock attempt that starts afterwards returns the not-recoverable status without acquiring it.',
     ['crash_points', 'schedules'], 'every point at which an owner may die and every interleaving of contenders', 'Tests kill an owner at one convenient point and use one contender.',
     ['pthread_mutex_consistent.c', 'pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c', 'pthread_mutex_destroy.c', 'pthread_win32_attach_detach_np.c'],
     [('robust state machine', 'pthread_mutex_consistent.c'), ('per-thread list of held robust mutexes', 'pthread_mutex_consistent.c:ptw32_robust_mutex_add')],
     [('stateInconsistent', 'consistent / inconsistent / not recoverable / owner dead (-1)', 'implement.h')])
prop('M05', 'Mutex creation and destruction are all-or-nothing',
     'Initialising a mutex either yields a free mutex of the requested type and robustness or reports why not, leaking nothing; process-shared mutexes are refused. '
     'Destroying succeeds only for a mutex that is not locked (or is unrecoverable) and then releases everything it owned exactly once; '
     'destroying a locked mutex, also one locked by the caller, is refused with busy and leaves the lock as it was.',
     ['fault_sequences', 'schedules', 'inputs'], 'every combination of attributes, every failing allocation, every state of the mutex', 'Tests cannot make the allocator or kernel fail at each point.',
     ['pthread_mutex_init.c', 'pthread_mutex_destroy.c'], [('allocation and rollback', 'pthread_mutex_init.c'), ('try-lock before destroy', 'pthread_mutex_destroy.c')])
prop('S01', 'Semaphores neither lose nor invent units',
     'Each post adds exactly the posted number of units and lets exactly as many blocked waiters through as there are units for them; each successful wait or try-wait removes exactly one unit, and a wait blocks only when none is available. '
     'The count is only read or changed under mutual exclusion, no waiter blocks while holding it, and the reported value is a value the count really had.',
     ['schedules', 'histories'], SCHED, 'A lost or duplicated unit needs a post to land between two particular instructions of a waiter.',
     ['sem_wait.c', 'sem_timedwait.c', 'sem_trywait.c', 'sem_post.c', 'sem_post_multiple.c', 'sem_getvalue.c', 'ptw32_semwait.c'],
     [('value under the semaphore lock, kernel semaphore for grants', 'sem_post.c')], [('value', 'units, or minus the number of waiters', 'implement.h:sem_t_')])
prop('S02', 'A timed-out or cancelled semaphore wait leaves the count right',
     'A semaphore wait that times out or is cancelled before any unit was granted to it leaves the count as if it had never waited. '
     'If a post grants it a unit at the last moment, an expiring wait reports success instead of timing out, so the unit is not lost, and the count stays in step with the units handed out.',
     ['schedules', 'fault_sequences'], 'every instant at which the timeout or the cancellation can fall relative to posts', 'Needs a post exactly between the expiry of the wait and its clean-up.',
     ['sem_wait.c', 'sem_timedwait.c'], [('clean-up handler re-polls the kernel semaphore under the lock', 'sem_timedwait.c:ptw32_sem_timedwait_cleanup')])
prop('S03', 'Semaphore creation and destruction are all-or-nothing',
     'Initialising a semaphore refuses process sharing and too large values, and either yields a semaphore with exactly the requested count or fails without leaking anything or touching the caller\'s variable. '
     'Destroying succeeds only when no thread is waiting and then releases the semaphore\'s resources once, after letting go of its lock; otherwise it reports busy and changes nothing.',
     ['fault_sequences', 'inputs', 'schedules'], 'every argument, every failing allocation, every count', 'Tests cannot make the allocator or kernel fail at each point.',
     ['sem_init.c', 'sem_destroy.c'], [('rollback', 'sem_init.c'), ('check under lock', 'sem_destroy.c')])
prop('S04', 'Failing semaphore calls return -1 with the error that occurred',
     'A semaphore operation returns 0 or -1, and when it returns -1 the thread\'s errno has been set to the condition that occurred: try again for an empty try-wait, timed out for an expired wait, '
     'range for a post beyond the maximum, busy or invalid as applicable. A failed post or try-wait leaves the count unchanged.',
     ['inputs', 'fault_sequences'], 'every failing path of every semaphore operation', 'Many failing paths need kernel failures that tests cannot provoke.',
     ['sem_wait.c', 'sem_timedwait.c', 'sem_trywait.c', 'sem_post.c', 'sem_post_multiple.c', 'sem_destroy.c'], [('errno set before -1', 'sem_post.c')])
prop('C01', 'A condition wait releases and re-acquires the mutex around one blocking step',
     'A condition wait registers the caller as a waiter before it gives up the mutex, so that a signal sent by anyone who locks the mutex afterwards reaches it; it blocks only with the mutex released, '
     'and however the wait ends (signalled, timed out or cancelled) it returns or unwinds with the caller holding the mutex again. If the mutex cannot be released the call fails without waiting or locking anything.',
     ['schedules', 'fault_sequences'], SCHED + ', cancellation at every blocking step', 'Needs a signal between two instructions of a waiter, or cancellation at one instant.',
     ['pthread_cond_wait.c'], [('waiter gate and queue semaphores', 'pthread_cond_wait.c:ptw32_cond_timedwait'), ('clean-up handler', 'pthread_cond_wait.c:ptw32_cond_wait_cleanup')])
prop('C02', 'Signal wakes one waiter, broadcast all of them, and neither invents wake-ups',
     'With threads blocked on a condition variable a signal releases one of them and a broadcast every one that was blocked when it was sent, and no more; with none blocked both do nothing. '
     'The waiter counts stay equal to the waiters there are, and new waiters are kept out until the released ones have left.',
     ['schedules', 'histories'], SCHED + ', every count of waiters, leavers and pending releases', 'Overlapping broadcasts with waiters entering and leaving are beyond what a test can schedule.',
     ['pthread_cond_signal.c', 'pthread_cond_wait.c'], [('counts moved under the unblock lock; gate', 'pthread_cond_signal.c:ptw32_cond_unblock')],
     [('nWaitersBlocked', 'blocked waiters', 'implement.h'), ('nWaitersToUnblock', 'released, not left', 'implement.h'), ('nWaitersGone', 'left without being released', 'implement.h')])
prop('C03', 'Condition variable creation and destruction are all-or-nothing',
     'Initialising a condition variable yields one with no waiters or reports why not, leaking nothing and leaving the caller\'s variable alone. Destroying succeeds only when no thread is blocked on it, then '
     'releases everything it owned once and removes it from the library\'s list; otherwise it reports busy and leaves the condition variable as usable as before.',
     ['fault_sequences', 'schedules'], 'every failing allocation and kernel call, every state of the condition variable', 'Tests cannot make each allocation fail or catch a waiter mid-entry.',
     ['pthread_cond_init.c', 'pthread_cond_destroy.c'], [('rollback', 'pthread_cond_init.c'), ('gate and unblock lock before destruction', 'pthread_cond_destroy.c')])
prop('C04', 'A timed-out or cancelled condition wait leaves the counts right',
     'A waiter that leaves a condition wait without having been released (timed out, cancelled or failed) is accounted for exactly once: it neither consumes a wake-up that was meant for another waiter nor leaves one behind, '
     'and the gate that holds back new waiters is reopened by exactly the last released waiter. A wait cancelled before it registered leaves no trace.',
     ['schedules', 'fault_sequences'], 'every instant at which timeout or cancellation can fall relative to signals and broadcasts', 'Needs a signal exactly between the expiry of the wait and its clean-up.',
     ['pthread_cond_wait.c'], [('clean-up handler recounts under the unblock lock', 'pthread_cond_wait.c:ptw32_cond_wait_cleanup')])
prop('R01', 'A read-write lock call returns the status of what it did',
     'A read-lock or write-lock call, blocking, trying or timed, reports success only if the caller now holds the lock in that mode, and any error leaves the lock without a trace of the call. Try calls do not wait for readers or writers. '
     'Writers exclude readers and other writers: a writer proceeds only when every reader counted in has been counted out.',
     ['schedules', 'fault_sequences'], SCHED, 'Needs a failing internal lock or a reader between two particular instructions.',
     ['pthread_rwlock_rdlock.c', 'pthread_rwlock_wrlock.c', 'pthread_rwlock_tryrdlock.c', 'pthread_rwlock_trywrlock.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_rwlock_unlock.c'],
     [('exclusive-access and completed-shared mutexes', 'pthread_rwlock_wrlock.c')])
prop('R02', 'Readers are counted in and out exactly once',
     'Every successful read lock counts one reader in and every read unlock one reader out, whatever the counters\' values (including when they have to be folded together), a failed call counts none, '
     'and the last reader a waiting writer needs wakes that writer.',
     ['schedules', 'histories', 'inputs'], SCHED + ', every value of the counters', 'The folding happens after two thousand million read locks; the wake-up depends on scheduling.',
     ['pthread_rwlock_rdlock.c', 'pthread_rwlock_tryrdlock.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_unlock.c'],
     [('reader count folding', 'pthread_rwlock_rdlock.c')], [('nSharedAccessCount', 'readers entered', 'implement.h'), ('nCompletedSharedAccessCount', 'readers left, or minus those awaited', 'implement.h')])
prop('R03', 'A write lock is released completely, also when abandoned while waiting',
     'Unlocking a write lock gives up everything it held so that others can proceed. A writer that times out or is cancelled while waiting for readers puts the reader counts back as they were and lets go of every internal lock.',
     ['schedules', 'fault_sequences'], 'every instant at which timeout or cancellation can fall', 'Needs the last reader to leave exactly when the writer gives up.',
     ['pthread_rwlock_wrlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_rwlock_unlock.c', 'ptw32_rwlock_cancelwrwait.c'], [('ptw32_rwlock_cancelwrwait', 'ptw32_rwlock_cancelwrwait.c')])
prop('R04', 'Read-write lock creation and destruction are all-or-nothing',
     'Initialising a read-write lock yields an unlocked one or reports why not, leaking nothing and leaving the caller\'s variable alone. Destroying succeeds only when no reader and no writer holds it, then releases what it owned once; '
     'otherwise it reports busy and leaves the lock as it was. Calls on something that is not a read-write lock are refused as invalid.',
     ['fault_sequences', 'schedules', 'inputs'], 'every failing allocation, every state of the lock', 'Tests cannot make each allocation fail.',
     ['pthread_rwlock_init.c', 'pthread_rwlock_destroy.c'], [('rollback', 'pthread_rwlock_init.c'), ('both internal locks and counts before destruction', 'pthread_rwlock_destroy.c')])
prop('P01', 'The internal queue lock excludes and hands over exactly once',
     'The library\'s internal lock is held by at most one thread at a time, is granted in order of arrival, and a release hands it to the next waiter exactly once or leaves it free. A waiter is granted the lock only by its predecessor\'s release, '
     'also when no event can be created or the waiter\'s node is moved, and a released node is never touched again.',
     ['schedules', 'fault_sequences'], SCHED, 'The interesting interleavings lie between the single instructions of two queueing threads.',
     ['ptw32_MCS_lock.c'], [('MCS queue: exchange tail, link, flag', 'ptw32_MCS_lock.c:ptw32_mcs_lock_acquire'), ('node hand-over', 'ptw32_MCS_lock.c:ptw32_mcs_node_transfer')],
     [('readyFlag, nextFlag', '0, event handle, or -1 once set', 'implement.h:ptw32_mcs_node_t_')],
     note='The order of the individual atomic steps is what is judged (exchange before link, link before wait, at most one grant); progress of the polling loop and fairness are assumed of the scheduler.')
prop('F01', 'A spin lock is held by one thread and released exactly once',
     'Locking or try-locking a spin lock reports success only after this caller changed it from free to held (or acquired the mutex standing in for it on one processor); a try-lock of a held lock reports busy and does not wait. '
     'Unlocking frees a held lock, wakes whoever waits for the mutex standing in for it, and leaves a free lock free; a null, never used or destroyed lock is refused without being touched.',
     ['schedules'], SCHED, 'Tests sample a few interleavings and only one of the two implementations (the one for this number of processors).',
     ['pthread_spin_lock.c', 'pthread_spin_trylock.c', 'pthread_spin_unlock.c'], [('compare-exchange unlocked/locked', 'pthread_spin_lock.c')],
     [('interlock', 'invalid / unlocked / locked / use mutex', 'implement.h:pthread_spinlock_t_')])
prop('F02', 'Spin lock creation and destruction are all-or-nothing',
     'Initialising a spin lock yields a free lock that spins only where more than one processor exists, or fails leaking nothing; process-shared locks are refused. Destroying succeeds only for a lock that is free, '
     'makes it invalid before it is freed, frees it once, and otherwise reports busy or invalid and changes nothing.',
     ['fault_sequences', 'schedules', 'inputs'], 'every failing allocation, number of processors and state of the lock', 'Tests cannot fail each allocation, nor change the number of processors.',
     ['pthread_spin_init.c', 'pthread_spin_destroy.c'], [('rollback', 'pthread_spin_init.c')])
prop('B01', 'A barrier releases all its threads together, one of them as the serial thread',
     'A barrier wait blocks until as many threads as the barrier was made for have arrived; the last to arrive then releases all the others, exactly one of the round\'s threads is told it is the serial one, and nobody can enter the next round before all have left. '
     'A thread that has counted itself out of the round does not touch the barrier again, unless it is the last to leave. Something that is not a barrier (null, destroyed) is refused.',
     ['schedules', 'histories'], SCHED + ', every height', 'Needs a thread to be delayed inside its departure while others re-enter or destroy the barrier.',
     ['pthread_barrier_wait.c'], [('entry lock kept by the round until its last leaver', 'pthread_barrier_wait.c')], [('nCurrentBarrierHeight', 'threads still to come, then threads that left', 'implement.h:pthread_barrier_t_')],
     note='A failing wait on the barrier\'s semaphore is outside (the kernel object is private to the barrier).')
prop('B02', 'Barrier creation and destruction are all-or-nothing',
     'Initialising a barrier refuses a count of zero and process sharing and otherwise yields a barrier of that height, or fails leaking nothing and leaving the caller\'s variable alone. Destroying succeeds only when no thread is inside, then releases '
     'what the barrier owned exactly once and after invalidating it; otherwise it reports busy and leaves the barrier usable; something that is not a barrier (null, destroyed) is refused.',
     ['fault_sequences', 'inputs', 'schedules'], 'every failing allocation, every count and attribute, every state', 'Tests cannot fail each allocation or catch a thread on its way out.',
     ['pthread_barrier_init.c', 'pthread_barrier_destroy.c'], [('rollback', 'pthread_barrier_init.c'), ('try-lock and height check', 'pthread_barrier_destroy.c')])
prop('O01', 'One-time initialisation runs once and is complete before anyone returns',
     'However many threads call it, the initialisation routine runs exactly once to completion, no caller returns successfully before it has, and it is run by one thread at a time. '
     'If the thread running it is cancelled or exits inside it, the routine counts as not run, the next caller runs it, and nobody is left waiting. A missing control block or routine is refused.',
     ['schedules', 'crash_points'], SCHED + ', cancellation inside the routine', 'Needs second callers at each point of the first, and cancellation in the routine.',
     ['pthread_once.c'], [('done flag checked and set under the control\'s lock', 'pthread_once.c'), ('clean-up handler releases the lock', 'pthread_once.c')])
prop('L01', 'Statically initialised objects work like initialised ones, whoever is first',
     'An operation on a statically initialised mutex, condition variable, read-write lock or spin lock first creates the object, exactly once however many threads arrive together, with the kind its initialiser names, or reports why it could not, and never uses the initialiser as an address. '
     'Destroying one that was never used succeeds without creating it, and a null object is refused.',
     ['schedules', 'fault_sequences'], SCHED + ', for every static initialiser and every operation', 'The race is between two first users, or a first user and a destroyer, at one instruction.',
     ['ptw32_mutex_check_need_init.c', 'ptw32_cond_check_need_init.c', 'ptw32_rwlock_check_need_init.c', 'ptw32_spinlock_check_need_init.c', 'pthread_mutex_lock.c', 'pthread_mutex_consistent.c', 'pthread_cond_wait.c', 'pthread_cond_signal.c'],
     [('check again under a process-wide lock', 'ptw32_mutex_check_need_init.c')])
prop('T01', 'Thread-specific values are stored and returned per thread',
     'Setting a value stores it for the calling thread under that key, and registers the key for destruction at thread exit if it has a destructor, or reports failure with nothing half done; getting returns the value stored for this thread and leaves the thread\'s last-error value alone. '
     'A null key is refused or yields null.',
     ['fault_sequences', 'schedules', 'histories'], 'every state of the key and the thread, every failing allocation', 'Tests do not fail the allocation of an association or race with a key deletion.',
     ['pthread_setspecific.c', 'pthread_getspecific.c', 'ptw32_tkAssocCreate.c'], [('association linked under key and thread lock', 'ptw32_tkAssocCreate.c')])
prop('T02', 'Keys are created whole and deleting one detaches it from every thread',
     'Creating a key yields one with its own slot and destructor or reports why not, leaking nothing and setting the caller\'s key to null. Deleting a key removes it from every thread that has a value for it, without calling destructors and without disturbing a thread that is '
     'running its destructors at that moment, and then releases the slot and the key exactly once.',
     ['fault_sequences', 'schedules', 'histories'], 'every failing allocation, every shape of the lists linking threads and keys', 'Deleting a key while another thread runs its destructors is a race of a few instructions.',
     ['pthread_key_create.c', 'pthread_key_delete.c', 'ptw32_tkAssocDestroy.c'], [('doubly linked lists keyed by thread and by key', 'ptw32_tkAssocDestroy.c')])
prop('T03', 'At thread exit every thread-specific value is destroyed, within four rounds',
     'When a thread exits, every non-null value it has under a key with a destructor is reset to null and then passed to that destructor, with no internal lock held, and rounds are repeated while destructors store new values, up to the documented limit. '
     'No association is passed over or left behind, also when other threads delete keys meanwhile, and the thread never deadlocks with a key deletion.',
     ['schedules', 'histories'], 'every list of values, every interleaving with key deletion', 'Tests use one or two keys and do not delete keys while a thread exits.',
     ['ptw32_callUserDestroyRoutines.c', 'ptw32_tkAssocDestroy.c'], [('nextAssoc cursor kept under the thread lock', 'ptw32_callUserDestroyRoutines.c')])
prop('I01', 'A cancellation request reaches exactly its target, once',
     'Cancelling a thread first checks that the handle names a live thread and refuses with no-such-thread, touching nothing, when it does not or when the thread is already being cancelled or ending. '
     'A target with deferred or disabled cancellation gets the request recorded and is told about it, nothing more; an asynchronously cancellable one is stopped, marked, redirected and let run again, or left alone if it has ended; '
     'a thread cancelling itself asynchronously is cancelled at once. The target\'s state is only examined and changed under its state lock, which is always released, and no stopped target is waited for.',
     ['schedules', 'inputs'], 'every state, cancellation type and state of the target, every instant at which it may end', 'Tests cancel a few threads in one or two states; the ended-target and stale-handle paths need exact timing.',
     ['pthread_cancel.c'], [('state machine under the state lock', 'pthread_cancel.c'), ('redirection of a suspended thread', 'pthread_cancel.c:ptw32_RegisterCancellation')],
     [('state', 'running / cancel pending / cancelling / exiting / last', 'implement.h:PThreadState')])
prop('I02', 'A thread acts on a request exactly when it is allowed to, and at most once',
     'At a cancellation point a pending request is acted on exactly when cancellation is enabled: the request is withdrawn, the thread is marked as being cancelled with further cancellation disabled, its lock is released and it unwinds. '
     'A thread that is already being cancelled or exiting is not cancelled again. Setting the cancellation state or type returns the previous value, refuses invalid values without changing anything, and acts at once only on a pending request that became asynchronously deliverable. '
     'A cancelable wait listens for requests exactly when cancellation is enabled, succeeds only if its object was signalled, and reports an expired wait as timed out.',
     ['schedules', 'inputs', 'fault_sequences'], 'every state of the thread, every setting, every outcome of the wait', 'Tests sample a few combinations of state, type and timing.',
     ['pthread_testcancel.c', 'pthread_setcancelstate.c', 'pthread_setcanceltype.c', 'w32_CancelableWait.c'],
     [('check under the state lock', 'pthread_testcancel.c'), ('multiple-object wait', 'w32_CancelableWait.c:ptw32_cancelable_wait')])
prop('I03', 'Exactly the documented calls are cancellation points',
     'A cancellation request is acted on only inside the documented cancellation points (join and its variants, condition waits, semaphore waits, delay, the cancelable waits and the explicit test; waiting for a write lock may be one), in the calls that change cancelability, and in exiting: '
     'no other call, in particular no mutex, barrier, read lock, spin lock, once, post, signal or broadcast call, ever cancels the caller. Each cancellation point does look for a pending request: it neither succeeds nor waits without having listened for one, even if it would not have to wait.',
     ['schedules', 'inputs'], 'every path through the call graph of every public call; every path through each cancellation point', 'A request must be pending at the moment of the call; tests try a few calls.',
     ['pthread_testcancel.c', 'w32_CancelableWait.c', 'pthread_join.c', 'pthread_tryjoin_np.c', 'pthread_timedjoin_np.c', 'sem_wait.c', 'sem_timedwait.c', 'pthread_cond_wait.c', 'pthread_delay_np.c', 'ptw32_semwait.c', 'pthread_barrier_wait.c'],
     [('test for a pending request', 'pthread_testcancel.c'), ('wait that cannot be cancelled', 'ptw32_semwait.c')], [('cancelEvent', 'pending request', 'implement.h:ptw32_thread_t_')])
prop('K01', 'Clean-up handlers run last-in first-out, at most once, and exits always unwind',
     'Pushing makes a handler the next to run; popping removes exactly that one, before it runs, and runs it exactly if asked to, with its argument. A thread that exits or is cancelled runs every handler that is still pushed (C build) before it leaves its start routine, '
     'records its exit status, and reports the right reason; an exit never returns to its caller. A thread not created by the library releases its thread data before it ends.',
     ['histories', 'inputs'], 'every stack of handlers, every way to exit, both libraries', 'Tests use one or two handlers that return normally.',
     ['cleanup.c', 'ptw32_throw.c', 'pthread_exit.c'], [('handler stack', 'cleanup.c'), ('unwinding', 'ptw32_throw.c')])
prop('K02', 'Killing a thread touches only a live one and leaves it joinable',
     'Sending a signal checks the handle and refuses a stale one without touching anything; signal zero only checks, unsupported signals are refused. Killing a thread that has not ended marks it as ended and records the status its joiner gets (keeping one already set) before it is stopped, once, '
     'with no internal lock held; a thread that has already ended is left alone.',
     ['schedules', 'inputs'], 'every signal number, every state of the target, every interleaving with its end', 'Tests kill one running thread.',
     ['pthread_kill.c'], [('record then terminate', 'pthread_kill.c')])
prop('J01', 'Creating a thread starts it completely prepared, or leaves nothing behind',
     'A successful creation starts exactly one thread, which begins in the given routine with the given argument and only after its record holds its handle and the requested detach state, name, stack size, priority and processor set '
     '(inherited from the creator where the attributes say so or none are given), and the creator gets that thread\'s handle. If anything fails, no thread exists, everything allocated on the way is given back exactly once and '
     'the caller is told to try again.',
     ['fault_sequences', 'schedules', 'inputs'], 'every combination of attributes, every failing step, any moment at which the new thread begins to run', 'Tests cannot fail the allocations or the creation itself, nor let the new thread run at the earliest moment.',
     ['create.c'], [('suspended creation, then preparation, then resumption', 'create.c:pthread_create')])
prop('J02', 'A thread runs its routine once and its end is recorded for joiners',
     'A new thread binds itself to its record, keeps any cancellation that was requested before it ran, and calls its start routine once with its argument and no internal lock held. However the routine ends, by returning, exiting or being cancelled, '
     'the thread\'s status (the returned or given value, or the cancelled marker) is recorded before its thread data is released, which happens exactly once and before it ends; once its routine has returned it can no longer be cancelled, so the destructors of its data are not interrupted. An exception that is none of the library\'s ends the program as it would anywhere else.',
     ['schedules', 'crash_points'], 'every way the routine can end, every request made before it started, both libraries', 'Tests end threads in the ordinary ways and cannot cancel a thread before its first instruction.',
     ['ptw32_threadStart.c'], [('state transition under the state lock', 'ptw32_threadStart.c'), ('setjmp or catch clauses', 'ptw32_threadStart.c')],
     [('exitStatus', 'value for the joiner', 'implement.h:ptw32_thread_t_')])
prop('J03', 'Joining waits for the end of a joinable thread and releases it once',
     'Joining succeeds only after the thread has ended; it then gives the thread\'s own status and releases its record once. A handle that is stale or null, a detached thread or the caller itself is refused without waiting and without touching anything else; '
     'a try-join of a running thread reports busy at once, a timed join that expires reports timed out, and neither they nor a cancelled join releases the thread.',
     ['schedules', 'inputs'], 'every handle, every state of the thread, every outcome of the wait', 'Stale handles, failed waits and cancellation during a join need exact timing.',
     ['pthread_join.c', 'pthread_tryjoin_np.c', 'pthread_timedjoin_np.c'], [('handle check under the record lock, wait, then detach', 'pthread_join.c')])
prop('J04', 'A thread\'s record is released exactly once, by it or by whoever detaches it',
     'Detaching a thread that has not ended leaves its release to the thread; one that has ended is released at once, but not before it has really finished; a stale handle or a thread already detached is refused. '
     'A thread that ends runs its data destructors, is marked as ended under its state lock, hands every robust mutex it still holds to the next locker, and releases its own record exactly if it is detached. '
     'Ending the process likewise releases only the record of a detached caller.',
     ['schedules', 'histories'], 'every interleaving of a detach with the end of the thread', 'The double or missing release needs a detach between two instructions of an ending thread.',
     ['pthread_detach.c', 'pthread_win32_attach_detach_np.c'], [('detach state and life-cycle state compared under the state lock', 'pthread_detach.c')],
     [('state', 'initial ... last, reuse', 'implement.h:PThreadState'), ('detachState', 'joinable / detached', 'implement.h:ptw32_thread_t_')])
prop('J05', 'Thread records are recycled without ever reviving an old handle',
     'Releasing a record closes and frees everything it owns exactly once, and puts it into the pool cleared and with a new generation, so that no handle given out before is ever valid again. The pool is only changed under its lock and never loses a record. '
     'A new record is taken from the pool or allocated, with default settings, a sequence number of its own and a cancellation event, or nothing is kept.',
     ['histories', 'schedules', 'fault_sequences'], 'every sequence of creations and releases, every shape of the pool, every failing allocation', 'A handle that becomes valid again shows only after a particular history of reuse.',
     ['ptw32_threadDestroy.c', 'ptw32_reuse.c', 'ptw32_new.c'], [('pool as a queue under the reuse lock', 'ptw32_reuse.c'), ('generation number', 'ptw32_reuse.c:ptw32_threadReusePush')],
     [('ptHandle.x', 'generation of the record', 'implement.h:ptw32_thread_t_')])
prop('J06', 'A thread always gets its own handle; the library starts and stops whole',
     'Asking for one\'s own handle gives the same handle each time; a thread the library did not make gets a detached, running record with a real thread handle bound to it, or, if anything fails, a null handle with nothing leaked or left bound. '
     'Initialising the library counts as done only when both its keys exist and its pool is empty, and is done once; terminating deletes the keys once, frees every pooled record under the lock and leaves the library uninitialised.',
     ['fault_sequences', 'histories'], 'every failing step of implicit record creation and of initialisation, every size of the pool', 'Tests cannot fail the allocations or handle duplication inside.',
     ['pthread_self.c', 'ptw32_processInitialize.c', 'ptw32_processTerminate.c'], [('thread-specific self key', 'pthread_self.c'), ('rollback', 'ptw32_processInitialize.c')])
prop('J07', 'The system thread and number given for a handle are those of its thread',
     'From the moment its creator or it itself has the handle, a thread\'s record holds the handle and identifier of the system thread that runs it and a sequence number no other thread ever gets; the queries for these give exactly what is recorded for the thread asked about and change nothing.',
     ['schedules', 'inputs'], 'every thread, made by the library or not', 'Tests compare the identifiers of one or two threads.',
     ['pthread_getw32threadhandle_np.c', 'pthread_getunique_np.c', 'create.c', 'ptw32_threadStart.c', 'pthread_self.c', 'ptw32_new.c'],
     [('identifier written by the system', 'create.c'), ('sequence number taken under the lock', 'ptw32_new.c')], [('thread, threadH, seqNumber', 'identity of the system thread', 'implement.h:ptw32_thread_t_')])
prop('A01', 'Thread attributes store valid settings, give them back and refuse the rest',
     'A thread attributes object starts with the default settings and is marked valid until it is destroyed, which releases everything it holds once. Setting an attribute succeeds exactly for the values the standard or this library defines, '
     'changes that attribute only and is what the matching query then gives; any other value, and an object that is missing, not initialised or destroyed, is refused with a distinct error and nothing is read or written through it.',
     ['inputs', 'histories', 'fault_sequences'], 'every value of every argument, every state of the object, a failing allocation', 'Tests set a few valid values; the limits of each range, and objects that are not valid, are not sampled.',
     ['pthread_attr_init.c', 'pthread_attr_destroy.c', 'ptw32_is_attr.c', 'pthread_attr_setdetachstate.c', 'pthread_attr_setinheritsched.c', 'pthread_attr_setscope.c', 'pthread_attr_setschedpolicy.c', 'pthread_attr_setstacksize.c',
      'pthread_attr_setschedparam.c', 'pthread_attr_setaffinity_np.c', 'pthread_attr_setname_np.c'],
     [('validity mark', 'ptw32_is_attr.c'), ('range checks', 'pthread_attr_setschedparam.c')], [('valid', 'mark of an initialised object', 'implement.h:pthread_attr_t_')])
prop('A02', 'Mutex, condition, rwlock and barrier attributes keep what they are given',
     'An attributes object for a mutex, condition variable, read-write lock or barrier is created with the default settings, or not at all when memory runs out, and destroying it releases it once and leaves the variable unusable. '
     'Setting an attribute accepts exactly the defined values and changes nothing else; a query gives the value last set; an undefined value or a missing or destroyed object is refused and nothing changes.',
     ['inputs', 'histories', 'fault_sequences'], 'every value of every argument, every state of the object, a failing allocation', 'Tests set a few valid values; values between and beyond the defined ones are not sampled.',
     ['pthread_mutexattr_init.c', 'pthread_mutexattr_settype.c', 'pthread_mutexattr_setrobust.c', 'pthread_mutexattr_setpshared.c', 'pthread_condattr_init.c', 'pthread_condattr_setpshared.c', 'pthread_rwlockattr_init.c',
      'pthread_rwlockattr_setpshared.c', 'pthread_barrierattr_init.c', 'pthread_barrierattr_setpshared.c'],
     [('validity check then store', 'pthread_mutexattr_settype.c')], [('kind, robustness, pshared', 'settings', 'implement.h')])
prop('N01', 'Thread names are stored whole and given back within the caller\'s buffer',
     'A thread\'s or attribute object\'s name is a private copy of the given string: setting one replaces and frees the old name, or leaves it in place and reports no memory if the copy cannot be made. '
     'Reading it writes a terminated prefix of the name that fits the buffer, and nothing beyond it, whatever the length of either, also when no name has been set. A thread\'s name is read and replaced only under that thread\'s lock, so it is never seen half-replaced or after being freed.',
     ['inputs', 'schedules', 'fault_sequences'], 'names and buffers of every length relation (enumerated lengths, arbitrary characters), a failing allocation, concurrent renaming', 'Overruns by one, failing allocations and renaming during a read are not exercised by tests.',
     ['pthread_setname_np.c', 'pthread_getname_np.c', 'pthread_attr_setname_np.c', 'pthread_attr_getname_np.c', 'ptw32_strdup.c'],
     [('copy, swap under the thread lock, free', 'pthread_setname_np.c'), ('bounded copy', 'pthread_getname_np.c')], [('name', 'allocated copy or null', 'implement.h:ptw32_thread_t_')],
     note='Names and buffers of every length up to a small bound are enumerated with symbolic characters. ')
prop('V01', 'The scheduling parameters reported for a thread are those it runs with',
     'Setting a thread\'s scheduling parameters accepts exactly the one supported policy with a priority inside the reported limits, gives the thread that priority (or the nearest level the system has) and records the requested one, or reports an error and leaves both as they were; '
     'the change and its record are made together under the thread\'s lock. Querying gives the recorded values, a thread not made by the library is recorded with the priority it really has, and calls about another process report whether it exists and leak nothing.',
     ['inputs', 'fault_sequences', 'schedules'], 'every policy and priority, every handle, every failing system call', 'Tests use a few priorities and cannot make the system calls fail.',
     ['pthread_setschedparam.c', 'pthread_getschedparam.c', 'sched_setscheduler.c', 'sched_getscheduler.c', 'sched_get_priority_max.c', 'sched_get_priority_min.c', 'pthread_setconcurrency.c', 'pthread_self.c'],
     [('priority set and recorded under the thread lock', 'pthread_setschedparam.c:ptw32_setthreadpriority')], [('sched_priority', 'requested priority', 'implement.h:ptw32_thread_t_')])
prop('U01', 'Processor sets obey set algebra, and threads run on what is recorded',
     'Operations on processor sets (clear, add, remove, test, count, equal, and, or, xor) are exact for every processor number in range. Setting the affinity of a thread or process uses exactly the requested processors that are available, never none, '
     'records what the thread really got, and on any failure changes nothing and reports it; queries give the real set without changing it, a thread not made by the library is recorded with the set it has, and the number of processors is the size of the process\'s set, at least one.',
     ['inputs', 'fault_sequences'], 'every processor number in range, every set, every failing system call', 'Tests run on one machine with one set of processors and cannot make the system calls fail.',
     ['sched_setaffinity.c', 'pthread_setaffinity.c', 'pthread_self.c', 'ptw32_getprocessors.c', 'pthread_num_processors_np.c'],
     [('intersection with the available set', 'pthread_setaffinity.c'), ('one word per set', 'sched_setaffinity.c')], [('cpuset', 'processors of the thread', 'implement.h:ptw32_thread_t_')],
     note='Set operations are evaluated symbolically or on all one-bit sets and their complements. ')
prop('H01', 'A handle that is null, stale or without a thread is refused untouched',
     'Calls that set or query a thread\'s name, scheduling parameters or processors report no-such-thread for a handle that is null, belongs to a thread whose record has been recycled, or has no system thread any more, and touch neither that record\'s settings nor the caller\'s results. '
     'Two handles compare equal exactly when they name the same thread and the same use of its record, without looking at the thread.',
     ['inputs', 'histories'], 'every kind of handle, every history of record reuse', 'A stale handle needs its record to be recycled for another thread first.',
     ['pthread_setname_np.c', 'pthread_getname_np.c', 'pthread_setschedparam.c', 'pthread_getschedparam.c', 'pthread_setaffinity.c', 'pthread_equal.c', 'pthread_kill.c'],
     [('generation compared under the record lock', 'pthread_kill.c')], [('ptHandle.x', 'generation', 'implement.h:ptw32_thread_t_')])
prop('E01', 'Null arguments and destroyed objects are refused with the documented error',
     'A call that is given a null pointer where it needs an object, a result variable or a function, or a variable whose object has been destroyed, reports the documented error (invalid argument; for processor sets a bad address, for semaphores through errno), '
     'reads and writes nothing through it, leaves what it was given unchanged, and neither blocks, locks, runs user code nor leaks.',
     ['inputs'], 'every required argument of every call that documents an error for it, with all other arguments arbitrary', 'Tests pass a missing argument to a handful of calls only.',
     ['pthread_mutex_destroy.c', 'pthread_cond_init.c', 'pthread_rwlock_unlock.c', 'pthread_barrier_wait.c', 'pthread_spin_lock.c', 'pthread_attr_init.c', 'pthread_once.c', 'pthread_setspecific.c', 'pthread_key_delete.c', 'sem_destroy.c', 'sched_setaffinity.c'],
     [('refusal', 'pthread_cond_destroy.c'), ('refusal', 'pthread_key_delete.c')])
prop('Y01', 'What is not supported is refused with the documented error',
     'A scheduling policy other than the supported one, process contention scope, a stack address, and named semaphores are refused with the documented error (not supported or not implemented) for every argument, and nothing is changed, allocated or opened.',
     ['inputs'], 'every argument', 'Tests call each of these at most once.',
     ['pthread_attr_setscope.c', 'pthread_attr_setschedpolicy.c', 'pthread_attr_setstackaddr.c', 'pthread_attr_getstackaddr.c', 'sched_setscheduler.c', 'pthread_setschedparam.c', 'sem_open.c', 'sem_close.c', 'sem_unlink.c'],
     [('refusal', 'sem_open.c')])
prop('W01', 'Timed calls give up at the given absolute time, not before and not never',
     'A timed lock, wait, join or reader-writer lock blocks for at most the time between now and the absolute time it was given, computed anew before each wait and passed on through every layer; a time that has passed is not waited for, a time in the future is never '
     'cut short (except that one further away than the longest possible wait may end then), the wait ends at most two milliseconds late, and a finite time never becomes an endless wait. The call that computes an absolute time gives exactly the present time plus the given interval, normalised.',
     ['inputs'], 'every absolute time and interval with normalised nanoseconds, every clock value between 1970 and 2262', 'Rounding, overflow and wrap-around only show for particular distances, far dates or particular fractions of a second.',
     ['ptw32_relmillisecs.c', 'ptw32_timespec.c', 'pthread_mutex_timedlock.c', 'sem_timedwait.c', 'pthread_cond_wait.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_timedjoin_np.c'],
     [('conversion to milliseconds, rounding up, capped', 'ptw32_relmillisecs.c'), ('file time to seconds and nanoseconds', 'ptw32_timespec.c')],
     note='Machine arithmetic is decided exactly by linear inequalities over the integers. ')
prop('D01', 'Delaying a thread lasts the whole interval and obeys cancellation',
     'A delay reports success only after waiting at least the whole interval and no more than two milliseconds longer; a negative or too long interval is refused, one of up to twenty-four days is not, and a missing one is refused. '
     'It is a cancellation point: while cancellation is enabled the wait listens for requests and acts on one in the prescribed way (once, withdrawing it, with cancellation disabled afterwards); while it is disabled it neither listens nor acts.',
     ['inputs', 'schedules', 'fault_sequences'], 'every interval with normalised nanoseconds, every cancellation state and instant of a request', 'Overflowing intervals would take weeks; a request must fall within the wait.',
     ['pthread_delay_np.c', 'pthread_testcancel.c'], [('seconds to milliseconds', 'pthread_delay_np.c'), ('wait on the cancel event', 'pthread_delay_np.c')],
     note='Machine arithmetic is decided exactly by linear inequalities over the integers. ')
prop('C05', 'A clock adjustment wakes the waiters of every condition variable',
     'The call that handles a change of the system time wakes the waiters of every condition variable there is, each while the list that keeps it alive is locked, so that they can recompute their timeouts; it changes nothing else, leaves the list unlocked, '
     'and reports success only if every condition variable was served (otherwise that not all were).',
     ['histories', 'schedules', 'fault_sequences'], 'every list of condition variables, every one of them failing', 'Tests do not change the clock and use at most one condition variable.',
     ['pthread_timechange_handler_np.c'], [('walk of the list of condition variables', 'pthread_timechange_handler_np.c')], [('ptw32_cond_list_head', 'all initialised condition variables', 'global.c')])
prop('G01', 'Internal locks are ordered and never held over user code, waits or unwinding',
     'Across the whole library, the internal locks (also the ones inside its condition variables and read-write locks) are always taken in one order, never again by their holder, so that they cannot deadlock. No internal lock is held while user code runs (destructors, clean-up handlers, start routines; '
     'the lock of a once-control during its own routine is meant to be), while the thread waits without a short bound for anything but such a lock, or where the thread may be cancelled or exit, because nobody would then release it.',
     ['schedules', 'histories'], 'every call path through the library', 'A deadlock needs two threads at two particular instructions at once.',
     ['ptw32_MCS_lock.c', 'ptw32_callUserDestroyRoutines.c', 'pthread_key_delete.c', 'pthread_detach.c', 'pthread_cond_destroy.c', 'pthread_cond_signal.c', 'ptw32_threadStart.c', 'pthread_once.c'],
     [('locks held at every call', 'every function'), ('try-lock against the reverse order', 'ptw32_callUserDestroyRoutines.c')],
     note='Bottom-up summaries of all functions; held sets by data flow; cycles in the resulting order. ', technique='whole-program lock-order and effect analysis (bottom-up summaries, may-held data flow)')
prop('X01', 'Attaching the library picks a cancellation mechanism that is really there',
     'Attaching to the process, which happens before the program starts, makes the process-wide data, tells whether it could, and chooses what delivers asynchronous cancellation: the alerting driver only if it was loaded from the system directory, offers the call and says it is ready, '
     'and otherwise the library\'s own; the mechanism is never missing, a driver that is not used is not left loaded, and a system path of any length is handled within the buffer. A feature query is true exactly when all the features asked for are there. '
     'Detaching, when the program ends, releases the calling thread\'s and the process-wide data, tells the driver and unloads it once.',
     ['fault_sequences', 'inputs'], 'every failing step of loading the driver, every length of the system path around the limit, every query', 'Tests run where there is no driver and the path is short.',
     ['pthread_win32_attach_detach_np.c', 'dll.c', 'ptw32_processInitialize.c'], [('driver loading with fall-back', 'pthread_win32_attach_detach_np.c'), ('constructor and destructor', 'dll.c')],
     [('ptw32_register_cancellation', 'mechanism in use', 'global.c')],
     note='Path lengths: all boundary values and a sample (quick), one in sixteen and all of the last 32 (thorough). Feature masks: all patterns of the defined bits.')

prop('Q01', 'The public headers give programs what the library implements',
     'A program built against the public headers gets what the library implements. A clean-up block runs its handler exactly if its end asks for it, or when the thread is cancelled or exits inside it, innermost first and each with its own argument; '
     'a catch-all handler in a C++ program does not swallow the cancellation or exit of its thread, and still catches the program\'s own exceptions. A once-control with the static initialiser is one that never ran; the initialisers of the kinds of mutex are distinct and are no addresses; '
     'the processor-set macros act on exactly the set and processor they are given; the alternatives of every option and the error numbers are distinct, and special results cannot be mistaken for ordinary ones. Program and library agree about the layout of shared types, and the library has every function declared.',
     ['inputs', 'fault_sequences'], 'every block structure of push and pop up to two levels with any handler, argument and flag, left normally or by unwinding at any point; every processor and set; every public constant',
     'Tests use the macros with fixed flags and handlers, and seldom leave nested blocks by unwinding.',
     ['pthread.h', 'sched.h', 'semaphore.h', '_ptw32.h'], [('clean-up macros and class', 'pthread.h'), ('catch macro', 'pthread.h'), ('processor-set macros', 'sched.h')],
     [('handlers pushed and not yet popped', 'the pushing thread', 'pthread.h')],
     note='The clean-up mode is the default one of the program\'s language (C or C++) on this compiler.')

na('Z01', 'A thread that waits is served after a bounded number of others',
   'No waiter starves: a thread that waits for a mutex, a read-write lock, a semaphore, a spin lock or a condition variable is served after a bounded number of other threads, as long as those that hold it give it back.',
   ['schedules'], 'every infinite schedule of any number of threads', 'A test ends after finitely many steps; the bound is over infinite histories.',
   ['pthread_mutex_lock.c', 'pthread_rwlock_wrlock.c', 'sem_wait.c', 'pthread_spin_lock.c'], [('kernel wait queues', 'pthread_mutex_lock.c')],
   'Whether a waiter is overtaken for ever is decided by the order in which the system wakes threads and runs them: a wake-up event or kernel semaphore names no thread, and the code lets newcomers take a free mutex first on purpose. '
   'No fact of the source bounds it. The part that the source does decide is claimed elsewhere: no wake-up is lost (M01, S01, C02, R01), the internal queue lock serves in arrival order (P01).')
na('Z02', 'A timed wait ends soon after its time, and no operation is needlessly slow',
   'A wait whose time has come returns within a small bounded time, an uncontended operation needs no system call, and contended operations do not degrade beyond a constant per waiter.',
   ['schedules', 'inputs'], 'every load of the machine and any number of waiting threads', 'Timing under every load cannot be sampled.',
   ['ptw32_relmillisecs.c', 'pthread_cond_wait.c', 'ptw32_MCS_lock.c'], [('relative time-out handed to the system', 'ptw32_relmillisecs.c')],
   'How late a time-out is, and how long an operation takes, are quantities of the running system (timer resolution, scheduling, contention), which the source does not bound. That the time handed to the system is never early and rounds by less than a millisecond is claimed as W01.')

prop('G02', 'Calls of different threads share no unguarded working data',
     'Any function may be called by any number of threads at once: nothing a call works with lies where a concurrent call could overwrite it. Every variable of static storage duration that is written while calls can overlap (the pool of thread records, the sequence counter, the list of condition variables, '
     'and any other) is read and written only under one internal lock common to all its accesses, except a single word that is only set or only read as a whole; everything else such a call uses is its own or belongs to the object it was given. Only the initialisation and termination of the process, which no other call overlaps, work on shared data without a lock.',
     ['schedules'], 'every function of the library, every pair of accesses, any number of calling threads', 'Two calls must overlap within a few instructions for shared working data to be overwritten; tests seldom call the same function at the same moment.',
     ['global.c', 'ptw32_new.c', 'ptw32_reuse.c', 'pthread_cond_init.c', 'pthread_cond_destroy.c'], [('lock of the record pool', 'ptw32_reuse.c:ptw32_threadReusePop'), ('lock of the list of condition variables', 'pthread_cond_init.c')],
     [('process-wide variables', 'pool, counter, list heads, keys, features', 'global.c')],
     technique='whole-program lockset analysis (locks certainly held, bottom-up summaries and call contexts) over compiled source')
