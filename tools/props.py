"""The property table: source of properties.jsonl and MANIFEST.json (tools/gen.py)."""
S, I, H, F, C, X, P = 'schedules', 'inputs', 'histories', 'fault_sequences', 'configurations', 'crash_points', 'programs'
def p(id, title, statement, over, qtext, why, files, mech, state=(), observe=()):
    return dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=qtext), why_tests_cant=why,
                anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                             mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None))
PROPS = [
p('C01', 'Mutex: mutual exclusion and progress',
  'At most one thread holds a mutex of any type at any moment, however it was acquired (lock, trylock, timedlock). Every release makes the mutex available: while it is free and threads want it, one of them gets it, a successful trylock is possible exactly when it is free at some moment of the call, and a timed-out attempt leaves no trace.',
  [S, H, F], 'all interleavings of lock/trylock/timedlock/unlock by any number of threads on any mutex type, and all timings of deadlines, late timers and clock steps',
  'The tests run each mutex operation in one or two threads with sleeps in between; the races between the interlocked state word, the event and a timing-out waiter are windows of a few instructions that real schedules practically never hit.',
  ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c'],
  [('three-state lock word (0 free, 1 locked, -1 locked with waiters) plus an auto-reset event', 'pthread_mutex_lock.c, pthread_mutex_unlock.c'), ('timed wait with restore of the lock word', 'pthread_mutex_timedlock.c:ptw32_timed_eventwait')],
  [('lock_idx', 'lock word of the mutex', 'implement.h:pthread_mutex_t_')], ['pthread_mutex_lock', 'pthread_mutex_trylock', 'pthread_mutex_timedlock', 'pthread_mutex_unlock']),
p('C02', 'Recursive and error-checking mutexes: ownership and depth',
  'A recursive mutex is released to others exactly when its owner has unlocked it as often as it locked it; an error-checking mutex answers EDEADLK to relocking by its owner. For both, unlocking by a thread that does not own the mutex answers EPERM and changes nothing, and a trylock by another thread answers EBUSY. A condition wait with such a mutex that the caller does not own is refused at once (EPERM) and takes nothing.',
  [S, H], 'all interleavings of owners and intruders over all sequences of lock, trylock, timedlock and unlock',
  'Tests check one fixed sequence per type in one or two threads; ownership is recorded in a field written outside the lock word, so a racing intruder is what breaks it.',
  ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c', 'pthread_cond_wait.c'],
  [('ownerThread and recursive_count maintained around the lock word', 'pthread_mutex_lock.c')], [('recursive_count', 'lock depth', 'implement.h:pthread_mutex_t_'), ('ownerThread', 'owner', 'implement.h:pthread_mutex_t_')], ['pthread_mutex_lock', 'pthread_mutex_unlock']),
p('C03', 'Robust mutexes: owner death is reported once and never strands anyone',
  'When the owner of a robust mutex ends without unlocking it, the next acquirer (waiting or arriving, by any locking call or on return from a condition wait) gets EOWNERDEAD and owns it. After pthread_mutex_consistent it is an ordinary mutex again; if it is unlocked without, every waiter and every later locking call gets ENOTRECOVERABLE and nobody blocks or owns it.',
  [S, H, X], 'every moment an owner can exit relative to lock, trylock, timedlock and unlock by other threads, every mutex type, any number of robust mutexes per thread',
  'robust1..5 let the owner die before anybody else touches the mutex; waiters present at death, timed waits, recursion and racing lockers are untested.',
  ['pthread_mutex_lock.c', 'pthread_mutex_trylock.c', 'pthread_mutex_timedlock.c', 'pthread_mutex_unlock.c', 'pthread_mutex_consistent.c', 'pthread_win32_attach_detach_np.c'],
  [('per-thread list of owned robust mutexes walked at thread exit', 'pthread_win32_attach_detach_np.c'), ('robust state machine', 'pthread_mutex_consistent.c')],
  [('stateInconsistent', 'consistent/inconsistent/not recoverable', 'implement.h:ptw32_robust_node_t_')], ['pthread_mutex_lock', 'pthread_mutex_consistent', 'pthread_mutex_unlock']),
p('C04', 'Condition variables: no lost or stolen signals',
  'A signal wakes at least one thread that was waiting when it was sent, a broadcast wakes all of them; a thread that starts waiting afterwards does not consume a wake-up in place of one that was already waiting and left nobody to be woken. Every waiter returns holding the mutex.',
  [S, H, F], 'all interleavings of waiters, timed waiters, signallers and broadcasters, with and without the mutex held, and all deadline timings',
  'condvar1..9 use sleeps so that all waiters are parked before the signal; the unblock/gone/gate bookkeeping only errs when timeouts, new waiters and signals overlap.',
  ['pthread_cond_wait.c', 'pthread_cond_signal.c'],
  [('gate semaphore, nWaitersBlocked/nWaitersGone/nWaitersToUnblock counters', 'pthread_cond_wait.c, pthread_cond_signal.c')],
  [('nWaitersBlocked', 'threads blocked', 'implement.h:pthread_cond_t_')], ['pthread_cond_wait', 'pthread_cond_signal', 'pthread_cond_broadcast']),
p('C05', 'Condition waits survive timeouts and cancellation',
  'A condition wait that times out or is cancelled takes no wake-up away from threads that keep waiting, and leaves the condition variable fully usable. A cancelled waiter owns the mutex while its cleanup handlers run; a timed wait reports ETIMEDOUT only after its deadline and while owning the mutex.',
  [S, H, F, X], 'all interleavings of signals with timeouts and cancellation of waiters at any instruction of the wait',
  'condvar3_x and condvar4 time out one waiter at a time; condvar7/8/9 cancel while everything else is idle.',
  ['pthread_cond_wait.c', 'pthread_cond_signal.c', 'sem_wait.c', 'sem_timedwait.c'],
  [('ptw32_cond_wait_cleanup and ptw32_sem_wait_cleanup run as cleanup handlers', 'pthread_cond_wait.c, sem_wait.c')], [], ['pthread_cond_wait', 'pthread_cond_timedwait', 'pthread_cancel']),
p('C06', 'Destruction by the last user is safe',
  'A condition variable may be destroyed as soon as all its waiters have been woken, a semaphore as soon as the last wait on it returned, and a mutex, read-write lock or spin lock as soon as its last user has unlocked it and no one else will lock it (so an object may guard its own reference count). The destroy call then succeeds, and no thread still returning from an earlier operation on the object touches it afterwards.',
  [S, H], 'every interleaving of the final unlock, wake-up or post with the destroying thread',
  'Tests destroy objects after joining every thread that used them.',
  ['pthread_cond_destroy.c', 'pthread_cond_wait.c', 'pthread_mutex_destroy.c', 'pthread_mutex_unlock.c', 'pthread_rwlock_destroy.c', 'pthread_rwlock_unlock.c', 'pthread_spin_destroy.c', 'sem_destroy.c', 'sem_post.c', 'sem_wait.c'],
  [('destroy synchronises with the object-internal lock and in-progress wakers', 'pthread_cond_destroy.c, sem_destroy.c, pthread_mutex_destroy.c')], [], ['pthread_cond_destroy', 'sem_destroy', 'pthread_mutex_destroy']),
p('C07', 'Read-write locks: exclusion, sharing and progress',
  'While a thread holds a read-write lock for writing no other thread holds it in any mode; readers share it. Whenever it is released, some waiting thread gets it; the try and timed variants either acquire it or leave it unchanged, also when the reader counters wrap.',
  [S, H, F], 'all interleavings of readers and writers using the blocking, try and timed calls, over more acquisitions than the internal counters hold',
  'rwlock1..7 check a handful of orders; the deferred completed-readers bookkeeping errs only in rare overlaps and after two billion shared acquisitions.',
  ['pthread_rwlock_rdlock.c', 'pthread_rwlock_wrlock.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_rwlock_tryrdlock.c', 'pthread_rwlock_trywrlock.c', 'pthread_rwlock_unlock.c'],
  [('two mutexes, shared/exclusive/completed counters and a condition variable', 'pthread_rwlock_wrlock.c, pthread_rwlock_unlock.c')], [('nCompletedSharedAccessCount', 'readers done; negative while a writer waits', 'implement.h:pthread_rwlock_t_')], ['pthread_rwlock_*']),
p('C08', 'Abandoned lock attempts leave a read-write lock intact',
  'A timed read or write lock attempt that times out, or a writer cancelled while it waits for readers to leave, leaves the read-write lock as if it had never tried: readers and writers that come later acquire and release it normally, and it can be destroyed when free.',
  [S, H, F, X], 'every moment a timeout or cancellation can hit an attempt, in any combination with other readers and writers',
  'rwlock3_t..6_t2 time out a single attempt while the lock is held by one other thread; cancellation is only checked in one arrangement.',
  ['pthread_rwlock_wrlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_rwlock_timedrdlock.c', 'ptw32_rwlock_cancelwrwait.c', 'pthread_rwlock_destroy.c'],
  [('ptw32_rwlock_cancelwrwait cleanup handler', 'ptw32_rwlock_cancelwrwait.c')], [], ['pthread_rwlock_timedwrlock', 'pthread_rwlock_timedrdlock', 'pthread_cancel']),
p('C09', 'Semaphores conserve their count',
  'Successful waits never exceed the initial value plus posts, and no post is lost: while the count is positive a waiter gets through, and at rest the value equals initial value plus posts minus successful waits. Timed-out, refused and cancelled waits take nothing, posts beyond the maximum are refused without effect, and destroying a semaphore with waiters is refused without effect.',
  [S, H, F, X], 'all interleavings of wait, trywait, timedwait, post, post_multiple, getvalue, cancellation and timeouts',
  'semaphore1..5 are single-threaded or phase-separated; the value/leftToUnblock bookkeeping errs when a timeout or cancel coincides with a post.',
  ['sem_wait.c', 'sem_timedwait.c', 'sem_trywait.c', 'sem_post.c', 'sem_post_multiple.c', 'sem_getvalue.c', 'sem_destroy.c', 'sem_init.c'],
  [('value below zero counts waiters; Win32 semaphore hands over permits', 'sem_post.c, sem_wait.c')], [('value', 'count, negative = waiters', 'implement.h:sem_t_')], ['sem_wait', 'sem_post', 'sem_timedwait', 'sem_getvalue']),
p('C10', 'Barriers: nobody passes before all have arrived',
  'No thread returns from a barrier wait before as many threads as the barrier counts have arrived in its round; then all of them return, exactly one of each round with PTHREAD_BARRIER_SERIAL_THREAD, and the barrier is ready for the next round. A pending cancellation does not get a thread out. Destroying a barrier with waiting threads answers EBUSY without effect; the serial thread may destroy it once its wait returned.',
  [S, H], 'all interleavings of any number of threads over any number of rounds, including fast threads re-entering while slow ones leave, and destruction by the serial thread',
  'barrier1..6 count serial threads under real scheduling, where no thread is ever descheduled inside the hand-over of one round to the next.',
  ['pthread_barrier_wait.c', 'pthread_barrier_init.c', 'pthread_barrier_destroy.c', 'ptw32_MCS_lock.c'],
  [('arrival counter, semaphore release of n-1 and MCS lock node transferred to the last one out', 'pthread_barrier_wait.c')], [('nCurrentBarrierHeight', 'threads yet to arrive', 'implement.h:pthread_barrier_t_')], ['pthread_barrier_wait', 'pthread_barrier_destroy']),
p('C11', 'Spin locks: mutual exclusion on any number of processors',
  'At most one thread holds a spin lock, trylock answers EBUSY exactly when it is held, every unlock makes it available, destroying a held lock is refused without effect, and the last user may destroy it right after its unlock. This holds on one processor, where it blocks, as on several.',
  [S, H, C], 'all interleavings on one and on several processors',
  'spin1..4 use one or two threads on the machine at hand; the single-processor form is never run and the destruction race never sampled.',
  ['pthread_spin_lock.c', 'pthread_spin_unlock.c', 'pthread_spin_trylock.c', 'pthread_spin_init.c', 'pthread_spin_destroy.c'],
  [('interlocked lock word, or an embedded mutex when there is one processor', 'pthread_spin_lock.c')], [('interlock', 'lock word or kind', 'implement.h:pthread_spinlock_t_')], ['pthread_spin_lock', 'pthread_spin_unlock', 'pthread_spin_trylock', 'pthread_spin_destroy']),
p('C12', 'pthread_once: exactly one completed initialisation',
  'For one once-control the routine completes exactly once, never runs in two threads at a time, and no pthread_once call returns 0 before it completed. If the thread running it is cancelled or exits inside, another or a later caller runs it.',
  [S, H, X], 'all races of callers, with the running thread cancelled or exiting at any moment and nested use of other controls',
  'once1..4 rely on sleeps; the hand-over from a cancelled initialiser to the waiters happens at an arbitrary instruction.',
  ['pthread_once.c', 'ptw32_MCS_lock.c'], [('MCS lock released by a cleanup handler when the routine is cancelled', 'pthread_once.c')], [('done', 'initialisation completed', 'pthread.h:pthread_once_t_')], ['pthread_once']),
p('C13', 'Statically initialised objects are initialised exactly once',
  'A mutex, condition variable, read-write lock or spin lock set to its static initialiser behaves from its first use, by any call and by any number of racing threads, like one object initialised once. If that first use fails for lack of resources it reports the error and a later use succeeds.',
  [S, F, H], 'every race of first uses and every failing allocation or system object creation in them',
  'Static initialisers are tested by one thread, or by threads started one after the other; failing resources are never tested.',
  ['ptw32_mutex_check_need_init.c', 'ptw32_cond_check_need_init.c', 'ptw32_rwlock_check_need_init.c', 'ptw32_spinlock_check_need_init.c'],
  [('double-checked initialisation under a global MCS lock', 'ptw32_mutex_check_need_init.c')], [], ['pthread_mutex_lock', 'pthread_cond_wait', 'pthread_rwlock_rdlock', 'pthread_spin_lock']),
p('C14', 'Join: exact value, after the end, once',
  'A successful pthread_join, pthread_tryjoin_np or pthread_timedjoin_np returns exactly what the thread returned, passed to pthread_exit, or PTHREAD_CANCELED, and only after the thread, its cleanup handlers and its key destructors are done; it returns once the thread ends. EBUSY and ETIMEDOUT answers, and cancelled joins, leave the thread joinable and write nothing. Afterwards the identifier is dead: ESRCH, also when its memory serves a new thread.',
  [S, H, X], 'all interleavings of the end of threads with join, tryjoin, timedjoin and cancellation of the joiner',
  'join0..4 and exit tests wait in one order with sleeps; stale identifiers are tested only right after one join.',
  ['pthread_join.c', 'pthread_tryjoin_np.c', 'pthread_timedjoin_np.c', 'pthread_exit.c', 'ptw32_threadDestroy.c', 'ptw32_reuse.c'],
  [('reuse counter in pthread_t checked under ptw32_thread_reuse_lock', 'ptw32_reuse.c, pthread_join.c')], [('ptHandle.x', 'generation of the thread structure', 'implement.h:ptw32_thread_t_')], ['pthread_join', 'pthread_tryjoin_np', 'pthread_timedjoin_np']),
p('C15', 'Detach and identity: reclaimed once, never confused',
  'A thread detached at any moment of its life, by anybody, by itself or by attribute, is reclaimed exactly once when it has ended, handles included; it can no longer be joined or detached. Threads alive or unreclaimed at the same time have distinct identifiers, identifiers of ended threads, also of those Win32 made, are never those of later ones (ESRCH): asking about a detached thread at the very moment it ends answers about that thread or ESRCH and touches no other, pthread_self is constant and what the creator received, and pthread_getunique_np is never the same for two threads.',
  [S, H], 'all interleavings of detaching with the end of the thread, and of concurrent creation and recycling of thread structures',
  'detach1 and reuse1/2 detach or recycle threads that are long dead or still running; the window while a thread ends is not hit.',
  ['pthread_detach.c', 'ptw32_new.c', 'ptw32_reuse.c', 'ptw32_threadDestroy.c', 'pthread_win32_attach_detach_np.c', 'pthread_self.c', 'pthread_getunique_np.c'],
  [('state and detachState compared under stateLock by the ending thread and by pthread_detach', 'pthread_detach.c, pthread_win32_attach_detach_np.c'), ('FIFO of reusable thread structures', 'ptw32_reuse.c')], [('detachState', 'joinable or detached', 'implement.h:ptw32_thread_t_')], ['pthread_detach', 'pthread_self', 'pthread_equal', 'pthread_getunique_np']),
p('C16', 'Deferred cancellation: acted upon at cancellation points only',
  'A cancellation request is acted upon at the next cancellation point the target is in or reaches while cancellation is enabled, never elsewhere, never while disabled, never without a request, and at most once; it is not lost when made before the thread starts or while cancellation is disabled. A thread racing its own end with a request either ends normally or as PTHREAD_CANCELED with its handlers run, nothing in between; once it has ended, a request is not acted upon inside its key destructors. A cancelled pthreadCancelableWait has taken nothing from the handle.',
  [S, H, X], 'every moment of a request relative to testcancel, sem_wait, cond_wait, join and delay calls, their timed forms, waits for a Win32 handle through pthreadCancelableWait, state changes and the end of the thread',
  'cancel1..9 request cancellation from a thread that sleeps first, so the target is always parked.',
  ['pthread_cancel.c', 'pthread_testcancel.c', 'w32_CancelableWait.c', 'pthread_setcancelstate.c', 'pthread_delay_np.c', 'ptw32_threadStart.c'],
  [('cancelEvent waited on together with the object; state changes under stateLock', 'w32_CancelableWait.c, pthread_cancel.c')], [('state', 'running, cancel pending, canceling, exiting', 'implement.h:PThreadState')], ['pthread_cancel', 'pthread_testcancel', 'pthread_join']),
p('C17', 'Asynchronous cancellation of computing threads',
  'A request to a computing thread that enabled asynchronous cancellation ends it with its cleanup handlers run once; not before it enabled it, not while it is disabled or deferred. A thread that cancels itself ends at once, or, while disabled or deferred, as soon as neither applies. pthread_cancel, pthread_setcancelstate and pthread_setcanceltype may themselves be interrupted by it; whatever moment it hits, other threads can still cancel, join and use the library.',
  [S, H, X], 'every instruction at which the target can be redirected, inside and outside the three async-cancel-safe calls, with several cancellers',
  'cancel3..6 cancel a thread parked in a sleep loop; being redirected inside the library needs a request within a few instructions.',
  ['pthread_cancel.c', 'pthread_setcancelstate.c', 'pthread_setcanceltype.c', 'ptw32_throw.c', 'context.h'],
  [('target suspended, program counter redirected, resumed, all under its stateLock', 'pthread_cancel.c')], [('cancelType', 'deferred or asynchronous', 'implement.h:ptw32_thread_t_')], ['pthread_cancel', 'pthread_setcanceltype', 'pthread_join']),
p('C18', 'Cleanup handlers: last pushed first, each exactly once',
  'When a thread exits (in any cancellation state) or is cancelled its pushed cleanup handlers run in reverse order, each exactly once, before key destructors; pthread_cleanup_pop runs its handler exactly when asked to. Handlers may themselves push handlers, wait and meet cancellation points without being interrupted by a cancellation once the thread is ending.',
  [S, H, X], 'all nestings of handlers with exit or cancellation at any cancellation point, also repeated requests while handlers run',
  'cleanup0..3 check a single handler and cancel a parked thread.',
  ['cleanup.c', 'ptw32_throw.c', 'pthread_exit.c', 'ptw32_threadStart.c'],
  [('handlers linked in thread-specific data, unlinked when popped', 'cleanup.c')], [], ['pthread_cleanup_push', 'pthread_cleanup_pop', 'pthread_exit']),
p('C19', 'Thread-specific data: per thread, per key, destroyed when due',
  'A key has its own value in every thread, NULL until that thread sets it, also when a deleted key\'s slot is used again. When a thread ends, each non-NULL value of a live key with a destructor is handed exactly once to that destructor, after the slot was cleared and after the cleanup handlers; values set by destructors get further rounds, up to the limit; destructors may use the whole library. pthread_getspecific leaves errno and the last-error code alone. After key_delete returned no destructor of that key is started.',
  [S, H, X], 'all histories of create, delete, set and get of keys by many threads, interleaved with threads ending and keys being deleted meanwhile',
  'tsd1..3 use one key and threads that end one after another; deletion racing thread exit and recycling of keys is not tested.',
  ['pthread_key_create.c', 'pthread_key_delete.c', 'pthread_setspecific.c', 'pthread_getspecific.c', 'ptw32_tkAssocCreate.c', 'ptw32_tkAssocDestroy.c', 'ptw32_callUserDestroyRoutines.c'],
  [('two-dimensional list of associations, by thread and by key, under keyLock and threadLock', 'ptw32_tkAssocCreate.c, ptw32_callUserDestroyRoutines.c')], [('ThreadKeyAssoc', 'a thread holds a value for a key with destructor', 'implement.h')], ['pthread_getspecific', 'pthread_setspecific', 'pthread_key_delete']),
p('C20', 'Timed waits and delays: neither early nor late',
  'A timed wait that reports a timeout does so no earlier, to the documented resolution of a millisecond, than the absolute deadline it was given, whatever the date and however near or far the deadline is (up to the 49 days a Win32 wait can express), and not unboundedly later; a deadline already in the past never blocks, an object that is available is obtained however old the deadline is. A delay lasts at least as long as requested or is refused.',
  [S, X, H], 'deadlines from far past to 49 days ahead in any epoch (also across 2038 and 2106), sub-millisecond fractions, all timed operations, late timers and all interleavings',
  'The tests use deadlines one or two seconds away in the present epoch.',
  ['ptw32_relmillisecs.c', 'ptw32_timespec.c', 'pthread_delay_np.c', 'w32_CancelableWait.c', 'sem_timedwait.c', 'pthread_mutex_timedlock.c', 'pthread_rwlock_timedrdlock.c', 'pthread_rwlock_timedwrlock.c', 'pthread_timedjoin_np.c', 'pthread_cond_wait.c'],
  [('conversion of an absolute time into relative milliseconds', 'ptw32_relmillisecs.c')], [], ['sem_timedwait', 'pthread_cond_timedwait', 'pthread_mutex_timedlock', 'pthread_timedjoin_np', 'pthread_delay_np', 'pthread_win32_getabstime_np']),
p('C21', 'Creation under failing resources is all or nothing',
  'When memory, handles, thread-local slots or a system call run out, creating a thread, mutex, condition variable, read-write lock, semaphore, barrier, spin lock, key or attributes object (or setting a name or key value) either succeeds with a fully working object or reports the shortage (ENOMEM, EAGAIN, ENOSPC), in which case nothing was created, run, changed or leaked, and the same call succeeds once resources are back.',
  [F, S, H], 'every combination of failing allocations and system calls inside every creating call, alone and while other threads create too',
  'No test makes an allocation or a system call fail.',
  ['pthread_create.c', 'ptw32_new.c', 'pthread_mutex_init.c', 'pthread_cond_init.c', 'pthread_rwlock_init.c', 'pthread_barrier_init.c', 'sem_init.c', 'pthread_key_create.c', 'pthread_setspecific.c', 'ptw32_tkAssocCreate.c', 'pthread_attr_setname_np.c'],
  [('each creating function undoes its earlier steps when a later one fails', 'pthread_create.c, pthread_cond_init.c, ptw32_new.c')], [], ['pthread_create', 'pthread_mutex_init', 'pthread_cond_init', 'sem_init', 'pthread_key_create', 'pthread_setspecific']),
p('C22', 'Conservation: what is created and ended is given back',
  'When all threads have ended and been joined or detached, all objects been destroyed and all keys deleted, and the library was detached from the process, no memory, handle or thread-local slot acquired since it was attached is left, whatever the threads did and however they ended (return, exit, cancellation, while owning robust mutexes, with key values or names set). Threads that came and went leave nothing behind, beyond reusable thread blocks, also while the keys and objects they used live on.',
  [S, H, X], 'random programs over all object kinds, creators and ways to end, in all interleavings, over several lives of the library',
  'Leaks are invisible to the tests, which only look at return codes.',
  ['pthread_win32_attach_detach_np.c', 'ptw32_processTerminate.c', 'ptw32_threadDestroy.c', 'ptw32_reuse.c', 'ptw32_callUserDestroyRoutines.c', 'pthread_exit.c', 'ptw32_throw.c'],
  [('thread structures are kept on a reuse list until the process detaches', 'ptw32_reuse.c, ptw32_processTerminate.c')], [('threadReuseTop', 'reusable thread structures', 'global.c')], ['pthread_join', 'pthread_detach', 'pthread_win32_process_detach_np']),
p('C23', 'Thread names: whole, bounded and not inherited',
  'pthread_getname_np returns, cut to the given size and always terminated, a name that was given to that thread as a whole (by attribute or pthread_setname_np), or the empty name; never a mixture, never beyond the buffer, and not the name of an earlier thread. For ended threads both calls answer ESRCH.',
  [S, H, I], 'all interleavings of setting and reading names of the same thread by several threads, with buffers of any size',
  'The name tests set and read one name in one thread.',
  ['pthread_setname_np.c', 'pthread_getname_np.c', 'pthread_attr_setname_np.c', 'pthread_attr_getname_np.c'],
  [('name replaced and read under threadLock', 'pthread_setname_np.c, pthread_getname_np.c')], [('name', 'name of the thread', 'implement.h:ptw32_thread_t_')], ['pthread_getname_np', 'pthread_setname_np']),
p('C24', 'CPU sets and the scheduling of processes',
  'The CPU_ operations compute exactly the set operation they name, for every CPU number a set can hold, and touch no other set. The CPU set read for a process is one that was given to it (restricted to the CPUs that exist) or its initial one, also when several threads set it; a set without an existing CPU is refused with EINVAL, a missing process with ESRCH, a forbidden one with EPERM, a null set with EFAULT, always as -1 with errno; a call that fails changes nothing and no call keeps a handle open. The CPU set of the process bounds pthread_num_processors_np and the CPU sets of its threads.',
  [I, S, F], 'all CPU sets, all interleavings of threads setting and reading the CPU sets of several processes, refused system calls',
  'affinity1..6 use one or two fixed sets in one thread of the own process and never see a system call refused.',
  ['sched_setaffinity.c', 'sched_getscheduler.c', 'sched_setscheduler.c', 'sched_get_priority_max.c', 'sched_get_priority_min.c', 'ptw32_getprocessors.c', 'pthread_num_processors_np.c', 'pthread_setconcurrency.c'],
  [('process opened, mask read and intersected, applied, handle closed', 'sched_setaffinity.c')], [('_cpuset', 'bit vector of CPUs', 'sched.h:_sched_cpu_set_vector_')], ['sched_setaffinity', 'sched_getaffinity', 'sched_getscheduler', 'sched_setscheduler', 'CPU_COUNT']),
p('C25', 'Threads made by Win32 are full citizens',
  'A thread not created by the library may use it at any time: it gets one identity, kept until it detaches and shared with no other thread, and mutex ownership, keys, cancellation state and robustness work for it as for others. When it detaches, calls pthread_exit (whose value is its exit code) or acts on a cancellation, its cleanup handlers and key destructors run once, its robust mutexes are marked, everything it held is freed and its identifier is dead; with the library as a DLL the same holds however Win32 ends the thread. If registering it fails it is not half registered, and a later call succeeds.',
  [S, F, H], 'all interleavings of Win32 threads starting to use the library, using it and detaching from it or just ending (return, ExitThread, pthread_exit, cancellation), next to library threads, static library and DLL, with failing resources during registration',
  'Only one test makes a single Win32 thread use the library; registration never fails and never races.',
  ['pthread_self.c', 'ptw32_new.c', 'pthread_win32_attach_detach_np.c', 'ptw32_threadDestroy.c', 'ptw32_callUserDestroyRoutines.c', 'ptw32_throw.c', 'pthread_exit.c', 'dll.c'],
  [('implicit registration on first use, thread-local slot holding the self pointer', 'pthread_self.c')], [('implicit', 'thread not created by the library', 'implement.h:ptw32_thread_t_')], ['pthread_self', 'pthread_win32_thread_detach_np', 'pthread_mutex_lock']),
p('C26', 'pthread_kill: signal 0 tests, a kill ends the thread and nothing else',
  'pthread_kill with 0 answers 0 for a live or unreclaimed thread and ESRCH for a dead one without effect; an unsupported signal answers EINVAL without effect. A supported one ends a thread that is outside the library, also one that was cancelled before and is stuck in a cleanup handler: its joiner gets PTHREAD_CANCELED, an already returned thread keeps its value; afterwards others can join, create and use threads, and a stale identifier never hits the thread that reuses its memory.',
  [S, H, X], 'all interleavings of killing with joining, and with creation of further threads that reuse the structure; threads killed while blocked or computing',
  'kill1 kills one sleeping thread.',
  ['pthread_kill.c', 'pthread_join.c', 'ptw32_reuse.c', 'pthread_exit.c'],
  [('TerminateThread under the stateLock and thread reuse lock', 'pthread_kill.c')], [], ['pthread_kill', 'pthread_join']),
p('C27', 'Scheduling parameters and affinity: what is reported is what applies',
  'However concurrently set, and when the system refuses, the priority and CPU set reported for a thread are one that was given to it and the ones in effect: a value reported is the value applied by the last successful call, a failing call changes neither, and the same holds for the values a thread is created with; a thread Win32 made keeps those it has when it first uses the library. Values out of range are refused with EINVAL (ENOTSUP for real-time policies), CPU sets without an existing CPU with EINVAL.',
  [S, F, I], 'all interleavings of several threads setting and reading the parameters of the same threads, refused system calls, any value',
  'Priority and affinity tests set one value at a time from one thread.',
  ['pthread_setschedparam.c', 'pthread_getschedparam.c', 'pthread_setaffinity_np.c', 'pthread_getaffinity_np.c', 'create.c'],
  [('priority applied and recorded under threadLock', 'pthread_setschedparam.c')], [('sched_priority', 'priority asked for', 'implement.h:ptw32_thread_t_')], ['pthread_setschedparam', 'pthread_getschedparam', 'pthread_setaffinity_np', 'pthread_getaffinity_np']),
p('C28', 'Clock changes: waiters re-examine their deadlines',
  'After the system clock was stepped and the time-change handler ran, threads in pthread_cond_timedwait whose deadline has passed by the new clock return without any further time having to pass, and threads whose deadline has not do not report a timeout before it by the new clock. The handler may run while condition variables are created, used and destroyed.',
  [S, H, X], 'clock steps of hours in either direction at any moment, waiters on several condition variables, condition variables coming and going meanwhile',
  'No test steps the clock or calls the handler.',
  ['pthread_timechange_handler_np.c', 'pthread_cond_init.c', 'pthread_cond_destroy.c', 'pthread_cond_wait.c'],
  [('broadcast over the global list of condition variables under condListLock', 'pthread_timechange_handler_np.c')], [('condListHead/condListTail', 'all initialised condition variables', 'global.c')], ['pthread_cond_timedwait', 'pthread_timechange_handler_np']),
p('C29', 'Thread creation: the thread gets what was asked for, before it runs',
  'A created thread runs its routine once with its argument; already at its first instruction it has the identifier its creator receives, the name, priority (given, inherited, or default) and CPU set (given, or its creator\'s) it was to have, cancellation enabled and deferred. Changing or destroying the attributes object after creation does not affect it.',
  [S, H, I], 'all combinations of attributes, several creators at once, the new thread running before, while or after its creator continues',
  'The attribute tests check one attribute each, with the creator finishing its work before the thread is looked at.',
  ['pthread_create.c', 'ptw32_threadStart.c', 'pthread_attr_init.c', 'pthread_attr_setinheritsched.c', 'pthread_attr_setaffinity_np.c', 'pthread_attr_setname_np.c'],
  [('thread created suspended, set up, then resumed', 'pthread_create.c')], [], ['pthread_create', 'pthread_self', 'pthread_getschedparam', 'pthread_getaffinity_np', 'pthread_getname_np']),
p('C30', 'Attribute objects: what was set is read back and used, invalid values refused',
  'After any history of settings an attribute object (of threads, mutexes, condition variables, read-write locks, barriers) reads back the last value accepted for each attribute and the documented default for the others; an invalid value is refused (EINVAL, ENOTSUP, ENOSYS) and changes nothing, a setting that fails for lack of memory neither. A destroyed or never initialised attribute object is refused with EINVAL. An object has the attributes its attribute object had when it was created, whatever is done to that afterwards, and an attribute object may be used by several threads at once. Process-shared objects are refused, never silently made private.',
  [H, S, F], 'all histories of setting, reading, using, destroying and re-initialising attribute objects of all kinds, in several threads, with allocations failing anywhere',
  'Tests set one or two attributes once; no test changes or destroys an attribute object after using it, shares one between threads or lets an allocation fail.',
  ['pthread_attr_init.c', 'pthread_attr_destroy.c', 'pthread_attr_setstacksize.c', 'pthread_attr_setschedparam.c', 'pthread_attr_setname_np.c', 'pthread_mutexattr_settype.c', 'pthread_mutexattr_setrobust.c', 'pthread_mutexattr_setpshared.c', 'pthread_condattr_setpshared.c', 'pthread_barrierattr_setpshared.c', 'pthread_rwlockattr_setpshared.c', 'pthread_mutex_init.c', 'create.c'],
  [('heap record behind a pointer that is cleared by destroy', 'pthread_attr_destroy.c'), ('attributes copied into the object', 'pthread_mutex_init.c, create.c')], [('pthread_attr_t_', 'thread attributes', 'implement.h')], ['pthread_attr_init', 'pthread_mutexattr_settype', 'pthread_create', 'pthread_mutex_init']),
p('C31', 'Detaching and attaching the library',
  'After the last user detached the library from the process it can be attached again and works like new, any number of times, also by way of what the start and end of the process or DLL do by themselves; a first use without attaching does it. If attaching fails for lack of resources it leaves nothing behind and does not count as done: a later attach or use succeeds.',
  [F, H, S], 'failing resources in any step of initialisation, any number of lives of the library with threads and objects in each',
  'The tests attach once, with all resources available.',
  ['pthread_win32_attach_detach_np.c', 'ptw32_processInitialize.c', 'ptw32_processTerminate.c', 'dll.c'],
  [('initialised flag and the two keys for self and cleanup', 'ptw32_processInitialize.c')], [('ptw32_processInitialized', 'library initialised', 'global.c')], ['pthread_win32_process_attach_np', 'pthread_win32_process_detach_np', 'pthread_create']),
p('C32', 'Destroying an object in use is refused and harmless',
  'Destroying a mutex that is locked, a condition variable, semaphore or barrier somebody waits on, a read-write lock held for reading, or a spin lock that is held fails (EBUSY, for a spin lock perhaps EINVAL), however often and by whomever, and changes nothing: holders can release, waiters are woken as before, others can still acquire; once unused it can be destroyed, after which mutex, read-write lock, barrier and spin lock calls on it answer EINVAL.',
  [S, H], 'all interleavings of refused destructions with holders, waiters and other users of the object, all object and mutex kinds, static and dynamic',
  'The tests try to destroy an object in use once, with nothing else going on.',
  ['pthread_mutex_destroy.c', 'pthread_cond_destroy.c', 'pthread_rwlock_destroy.c', 'sem_destroy.c', 'pthread_barrier_destroy.c', 'pthread_spin_destroy.c'],
  [('destroy probes the object with a try operation and restores it', 'pthread_mutex_destroy.c, pthread_rwlock_destroy.c')], [], ['pthread_mutex_destroy', 'pthread_cond_destroy', 'pthread_rwlock_destroy', 'sem_destroy', 'pthread_barrier_destroy', 'pthread_spin_destroy']),
p('C33', 'C++ programs: cancellation and exit unwind the stack',
  'In the C++ flavour cancellation and pthread_exit unwind the stack of the ending thread: automatic objects are destroyed and cleanup handlers run, each exactly once, innermost first, with the mutex of an interrupted condition wait held, before key destructors; catch clauses of code that includes pthread.h, catch (...) too, do not intercept it, other code may intercept and rethrow. Exceptions of the application pass through cleanup scopes (running their handlers), through pthread_once (the next caller tries again) and never change how the thread ends or its cancellability. One that leaves the start routine or a key destructor calls the terminate handler, after that thread was unwound and its key destructors ran, and harms no other thread.',
  [S, H, X], 'all nestings of objects, handlers, catch clauses and application exceptions, with exit or cancellation at any cancellation point in any of them',
  'exception1..3 and the C++ builds of the cleanup tests check one catch clause or one handler with a parked thread.',
  ['pthread.h', 'ptw32_throw.c', 'ptw32_threadStart.c', 'pthread_once.c', 'ptw32_callUserDestroyRoutines.c', 'pthread_cond_wait.c'],
  [('ending a thread throws ptw32_exception_cancel or ptw32_exception_exit, caught in ptw32_threadStart', 'ptw32_throw.c, ptw32_threadStart.c'), ('cleanup scopes are objects whose destructor runs the handler', 'pthread.h')], [], ['pthread_cleanup_push', 'pthread_exit', 'pthread_cancel', 'pthread_once']),
p('C34', 'Objects used together, nested, keep their guarantees',
  'Threads that hold several objects at once, nested in one order - mutexes of every type, read-write locks, a semaphore pool, a spin lock, condition waits, child threads they create and join in between - and that try, time out, are cancelled or exit anywhere inside, with cleanup handlers that release what is held: every object keeps its exclusion, sharing and count; no thread blocks for good; each handler runs exactly once and before the key destructors, each key value is destroyed once; an attempt that failed holds nothing; in the end every object is free and its destruction succeeds.',
  [S, H, X], 'all nestings of different objects and every moment of cancellation, exit, timeout and signal in them',
  'The tests use one or two objects at a time; none cancels or times out a thread while it holds other objects.',
  ['pthread_mutex_lock.c', 'pthread_rwlock_wrlock.c', 'pthread_cond_wait.c', 'sem_timedwait.c', 'pthread_join.c', 'ptw32_throw.c', 'ptw32_threadStart.c', 'cleanup.c'],
  [('cleanup handlers as the only way held objects are released by a cancelled thread', 'pthread.h, cleanup.c')], [], ['pthread_cleanup_push', 'pthread_cancel', 'pthread_exit', 'pthread_join']),
p('C35', 'Invalid arguments and dead identifiers are refused, harmlessly',
  'A call with an argument the documentation refuses - no object, a destroyed object, an attribute object that is not initialised, a value outside its range, an identifier of a thread that is gone - returns the documented error (EINVAL, ESRCH, ENOTSUP or EPERM) from whatever thread, at whatever time and in whatever order, stores no result, changes no state, blocks nobody and does not crash; objects in use by other threads next to it keep working. An identifier of a thread that ended and was joined reaches nobody, even when another live thread now uses the same memory: its name, priority, CPU set, cancellation and joinability are untouched.',
  [S, H], 'all histories of refused calls mixed with valid ones in other threads, with thread memory recycled in between',
  'Tests try single refused calls on an idle library, and not the ones on recycled threads.',
  ['pthread_mutex_lock.c', 'pthread_rwlock_rdlock.c', 'pthread_cond_wait.c', 'pthread_barrier_wait.c', 'pthread_spin_lock.c', 'sem_post_multiple.c', 'pthread_setcancelstate.c', 'pthread_setschedparam.c', 'pthread_setaffinity.c', 'pthread_kill.c', 'pthread_detach.c', 'pthread_setname_np.c', 'sem_init.c', 'pthread_delay_np.c'],
  [('identifiers carry a counter that is bumped when the memory is recycled', 'ptw32_reuse.c')], [('ptHandle.x', 'generation of a thread record', 'implement.h')], ['pthread_kill', 'pthread_setaffinity_np', 'pthread_rwlock_unlock', 'sem_post_multiple', 'pthread_setcanceltype']),
]
NA = []
