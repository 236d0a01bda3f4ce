HOW = dict(
C01='''Random programs of lock, trylock, timedlock, unlock over every mutex type by 2 to 5 threads; an owner word kept outside the library is checked at every acquisition and release, a trylock failure must overlap a holder, and after everything is unlocked every mutex must be obtainable. Deadlock = lost wake-up.''',
C02='''Reference model of owner and depth per mutex; each call's result is compared with it (EDEADLK, EPERM, EBUSY, depth), from owners and non-owners, under contention; condition waits by non-owners next to proper waiters.''',
C03='''Threads end (return, exit, cancelled) holding robust mutexes of all types, several at once; every acquisition result is checked against a model of owner death (EOWNERDEAD once, consistent or not, ENOTRECOVERABLE after), and all waiters must finish. Condition waits with a robust mutex are part of it: the wait that takes the mutex over after a death is the one that reports it.''',
C04='''Token model: producers signal or broadcast under the mutex, consumers wait for tokens; the number of woken waiters must cover the number owed by the signals. cond_who records who was waiting at each signal and requires a wake-up of one of those and not of a later waiter only.''',
C05='''Timed waits and cancelled waits racing with signals and broadcasts; the mutex must be held on return and in the cleanup handler, a signal must not be consumed by a waiter that timed out or was cancelled, and everybody is released at the end.''',
C06='''Last user destroys: cond_destroy right after broadcast, semaphore destroyed by the thread that was posted, mutex destroyed by its last holder. The guarded heap and handle table report any later touch.''',
C07='''Readers-writer word kept outside the library, checked at each acquisition; sharing must be possible (readers meet inside), progress at the end; with small counters to reach the wrap-around path.''',
C08='''Timed and cancelled attempts of readers and writers against holders; afterwards the lock must be as if the attempt had not been made: grantable in every mode, no deadlock.''',
C09='''Conservation: posts = successful waits + final value, with timed waits, trywait, cancellation, post_multiple, concurrent destroy (EBUSY) and limits.''',
C10='''Rounds through a barrier by exactly or more than the number of threads; arrivals counted outside; nobody leaves round k before all arrived, exactly one serial thread; destruction by the serial thread; destroy while busy is refused and harmless.''',
C11='''Owner word checked inside spin locks, one and several processors; last user destroys.''',
C12='''init routine counted, run to completion before any return, cancelled inside and taken over.''',
C13='''Several threads make the first use of statically initialised mutexes, condition variables, read-write locks, spin locks, with the initialisation made to fail; only one object results and failures leave it usable.''',
C14='''The joiner sees exactly the exit value after all effects, once; tryjoin and timedjoin say EBUSY/ETIMEDOUT only while it runs; cancelled joins leave the target joinable; stale ids give ESRCH.''',
C15='''Detach at every moment; handle and block counts at the end; identity of concurrently created threads, and of Win32 threads whose recycled structures later threads use; questions (kill 0, affinity, detach, joins) about detached threads while they end and their memory passes on (ending_ids).''',
C16='''A target with a model of its cancellation state walks through cancellation points and other calls while requests arrive. Waits on a Win32 semaphore through pthreadCancelableWait are conserved: taken + left = released.''',
C17='''Targets compute, or are inside the three async-cancel-safe calls, or end, while requests redirect them at any instruction; others walk through types and states and cancel themselves.''',
C18='''A model stack of handlers is compared with those run, with exit and cancellation at random depth, waits inside handlers.''',
C19='''Model table of (thread, key) values; destructors count per value and call any part of the library; keys are deleted and created again while threads end.''',
C20='''Exact: with one timer in the system the result and the time of return are compared with the deadline to the millisecond, over epochs up to 2200 and offsets from minus centuries to plus 49 days; concurrent: nobody early.''',
C28='''Wall clock stepped under waiters, handler called directly or as a thread, meanwhile condition variables come and go.''',
C21='''Before and after each creating call, with allocations, handles, thread-local slots and system calls failing at random inside it, live blocks, handles and slots are counted; a failure must be a resource error with the counts unchanged and the retry without faults must work; a success must give an object that works. Also several threads creating threads at once under failures: a thread runs if and only if its creation succeeded.''',
C22='''Random programs over all object kinds and ways to end, then everything is joined, destroyed and detached; blocks, handles and thread-local slots must be exactly those from before. In rounds of threads using living keys, every round after the first (which fixes the highest number of threads) must leave the counts unchanged.''',
C23='''Setters write names of one repeated letter, readers with buffers of 1 to 20 bytes check for a mixture, missing terminator or bytes beyond the buffer; reused thread structures must have the empty name.''',
C24='''Random masks over all 64 bits against integer arithmetic; threads set and read the CPU sets of the own and a second simulated process (and of a forbidden and a missing one) with OpenProcess and the affinity calls refused; every value read must have been written, and the process handles are counted.''',
C25='''Threads made by _beginthreadex directly run random operations next to library threads; identity, ownership, key values and destructor counts are compared with a model, detaching and attaching again, and with registration failing. Win32 threads with nested handlers, key values and a robust mutex exit or are cancelled; exit code, handlers, destructors, robust state and leaks are checked. In the `dll` variant threads end by return, `_endthreadex`, `ExitThread`, `pthread_exit` or cancellation without saying so to the library.''',
C26='''Targets parked outside the library, computing, stuck in a handler after a cancellation, or already ended are sent valid, invalid and zero signals; joiners check the value, fresh threads (which reuse structures) that they get their own value.''',
C27='''Several threads set parameters of the same threads; at the end the value reported must equal the one the simulated kernel has in effect, with refused calls injected.''',
C29='''Creators with random attributes and own priority and affinity; the new thread records what it finds (from the library and from the simulated kernel) as its first action.''',
C30='''Every thread walks a pool of attribute objects of all five kinds through random settings (valid, invalid, null), uses, destructions and re-initialisations, comparing every attribute with a model record after every step, with allocations failing; objects made from them are tested for the attributes after the attribute object was changed or destroyed; attr_shared uses one attribute object from several threads.''',
C31='''Attach with failures armed, then without; whole lives of the library repeated, by its own calls, by the constructor and destructor lists and (variant `dll`) by the loader's notices, ending with the counts from the start.''',
C32='''A holder or waiter is established, destroyers and users run concurrently; each destruction must be refused, each user must succeed, and the final state must be as if no destruction was tried.''',
C33='''Threads recurse through random nestings of objects with destructors, cleanup scopes, lock guards, catch clauses that swallow application exceptions, and raw catch clauses that rethrow; leaves exit, wait, throw or return. A model stack says what must be unwound next. Destructors throw and catch exceptions of their own and wait. Uncaught exceptions and throwing pthread_once routines have scenarios of their own. The C++ exception runtime (tables from the compiler, two-phase unwinding) is `sim/cxxrt.c`, written for the simulator in place of libstdc++ and the Windows dispatcher.''',
C34='''Two to four threads, plus children they create on the way, walk random nestings of three mutexes (any type, static or not, robust or not), two read-write locks, a semaphore pool, a spin lock and condition waits in one order, with tries, timeouts, cancellation, exit and delays inside; counters per object check exclusion and sharing at every entry, handlers and destructors are counted, deadlock and livelock are built-in classes, and all objects must be free at the end.''',
C35='''One to four threads issue random refused calls (42 families: null and destroyed objects of every kind, uninitialised attribute objects, values just outside and far outside ranges, unsupported policies), mixed with valid use of live objects; each must return its documented error, leave output arguments alone and leave the state readable as before. dead_ids keeps identifiers of joined threads, lets new threads take their memory (probe memory_reused) and applies every call that takes an identifier to the dead ones from several threads; the live ones must show unchanged names, priorities, CPU sets and results.''',
)
