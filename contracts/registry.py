# property -> harnesses and claims (see check.py, tools/gen_manifest.py)
REG = {}; NA = {}
BASE = 'Assumes the POSIX primitives as specified in contracts/rt_pthread.cpp and sequentially consistent memory; trusts the VC generator, clang and the solvers. '
REG['C06'] = dict(harness=[dict(src='c06.cpp')], level='proof',
  note='Every operation of shared_mutex proved against its ownership contract for any number of other threads (thread-modular: representation invariant assumed at every acquisition of the internal mutex and proved at every release and wait). ' + BASE)
REG['C07'] = dict(harness=[dict(src='c07.cpp')], level='proof',
  note='For every blocked operation, every operation of another thread and every third waiter, in every state satisfying the invariant with any number of further threads: a blocked operation that could proceed has been notified. Abandoned waits and non-blocking operations proved exact. ' + BASE)
REG['C01'] = dict(harness=[dict(src='c01.cpp')], level='proof',
  note='Every operation of the four mutex classes proved against its ownership contract for any number of other threads, any nesting depth and EINTR/EBUSY/EDEADLK/EINVAL results of the primitives; wake-up of waiters proved for every waiter/unlocker/third-waiter combination. ' + BASE)
REG['C02'] = dict(harness=[dict(src='c02.cpp')], level='proof',
  note='Conversions proved exact/rounded/normalised for all values in the stated 64-bit ranges; every timed lock, wait and sleep proved to report timeout only after a reading of the deadline\'s clock at or past it, for arbitrary monotonic readings, a REALTIME clock that jumps, and any number of early primitive returns. ' + BASE)
REG['C08'] = dict(harness=[dict(src='c08.cpp')], level='proof',
  note='Every operation of the two-gate shared_mutex and upgrade_mutex proved against its ownership contract for any number of other threads, including interruption of waits; wake-ups proved for every waiter/operation/second-waiter combination; giving up restores the state exactly. ' + BASE)
REG['C03'] = dict(harness=[dict(src='c03.cpp')], level='proof',
  note='Every wait of condition_variable and condition_variable_any proved to return with the caller\'s lock held and with the predicate value it reports, for every result of the primitive wait, interruption and any change of the predicate while the lock is free; no lost notification over every interleaving of a waiter and a notifier. ' + BASE)
REG['C04'] = dict(harness=[dict(src='c04.cpp')], level='proof',
  note='Every interruption point proved against its delivery contract for any behaviour of interrupting threads; nesting contracts of disable/restore; every interleaving of a waiting thread with one and two interrupters. ' + BASE)
REG['C05'] = dict(harness=[dict(src='c05.cpp'), dict(src='c05.cpp', name='c05v4', flags=['-DBOOST_THREAD_VERSION=4', '-DBOOST_THREAD_PROVIDES_ONCE_CXX11'], srcflags=['-DBOOST_THREAD_VERSION=4', '-DBOOST_THREAD_PROVIDES_ONCE_CXX11']), dict(src='c05.cpp', name='c05epoch', flags=['-DBOOST_THREAD_DONT_USE_ATOMIC'], srcflags=['-DBOOST_THREAD_DONT_USE_ATOMIC'], link=['thread', 'once'], entries='nested|sched2$')], level='proof', slow_first=['sched'],
  note='call_once proved against its contract for any number of other callers (rely-guarantee over the flag, calibrated by behaviour) with throwing functions; every interleaving of two and three callers for overlap, lost wake-ups and blocking. Both flag layouts (PROVIDES_ONCE_CXX11 on and off). ' + BASE)
UPW = ['-DBOOST_THREAD_PROVIDES_SHARED_MUTEX_UPWARDS_CONVERSIONS']
REG['C09'] = dict(harness=[dict(src='c09.cpp', flags=UPW)], level='proof',
  note='Every member of every lock class proved against its contract from each state the object can be in (no mutex, not owning, owning), over a mutex whose operations may each succeed, fail or throw; one step from every state covers every sequence. The mutex itself is any lockable whose operations meet the contracts proved in C01/C06/C08. ' + BASE)
REG['C10'] = dict(harness=[dict(src='c10.cpp')], level='proof',
  note='boost::lock and boost::try_lock over 2 to 5 lockables proved for every outcome (success, failure, exception) of every attempt and any number of retries. Ranges of any length proved by induction: the recursive call (or remaining loop) is replaced by its own contract, every outcome of every element universally quantified; ranges of 0 to 5 elements are additionally executed without the induction (labelled bounded, a cross-check). ' + BASE)
REG['C13'] = dict(harness=[dict(src='c13.cpp')], level='proof', slow_first=['sched'],
  note='barrier::wait proved against its contract for any number of other participants, any count and generation, every form of completion function (assumed not to throw); every interleaving of groups of 1 to 3 over up to 3 generations, of 4 callers in groups of 2, and of a count change. ' + BASE)
AH = ['-DBOOST_ENABLE_ASSERT_HANDLER']
REG['C14'] = dict(harness=[dict(src='c14.cpp', flags=AH, srcflags=AH)], level='proof', slow_first=['sched'],
  note='Every latch operation proved against its contract for any count, generation and behaviour of other threads; every interleaving of up to 2 waiters and 2 counters (and 3 threads that count down and wait), with spurious wake-ups. completion_latch: every interleaving of 1 or 2 waiters with 1 or 2 counters (schedules bounded to those thread counts). ' + BASE)
REG['C18'] = dict(harness=[dict(src='c18.cpp', name='c18queue'), dict(src='c18.cpp', name='c18deque', flags=['-DDEQUE'])], level='proof', slow_first=['sched'],
  note='Every operation of sync_queue and sync_deque proved against its contract over an abstract container of any length, any other threads, interruption and throwing elements; every waiting pull proved to be woken for every state, operation and further waiter; the default container (devector) proved to be a queue for any content; views and adaptors proved to forward. Every interleaving of up to 2 producers, 2 consumers and a closer over the real container. ' + BASE)
REG['C19'] = dict(harness=[dict(src='c19.cpp')], level='proof', slow_first=['sched'],
  note='Every operation of sync_bounded_queue proved against the abstract bounded FIFO sequence for every capacity below 2^20, every position and content of the ring, any other threads, interruption and throwing elements; every blocked push and pull proved to be woken for every state, operation and further waiter (waiters not yet owed a notification are counted: proved by the schedules). Every interleaving of up to 2 producers, 2 consumers and a closer. ' + BASE)
REG['C20'] = dict(harness=[dict(src='c20.cpp', name='c20priority'), dict(src='c20.cpp', name='c20greater', flags=['-DGREATER'], entries='pull|push|try_pull|wait_pull'), dict(src='c20.cpp', name='c20timed', flags=['-DTIMED']), dict(src='c20.cpp', name='c20system', flags=['-DTIMED', '-DSYSCLK']), dict(src='c20r.cpp')], level='proof', slow_first=['sched', 'pull_until', 'pull_for'],
  note='Every operation of sync_priority_queue (two comparators) and sync_timed_queue (steady and system clock, which may jump) proved against its contract over an abstract heap of any length, any other threads, interruption and throwing elements; std::push_heap/pop_heap are replaced by their contracts. Every waiting pull proved to be woken by every operation that lets it proceed, and by a push of an earlier element. Order over the real container checked for up to 4 elements of any value, and every interleaving of up to 2 producers, 2 consumers and a closer. ' + BASE)
REG['C11'] = dict(harness=[dict(src='c11.cpp'), dict(src='c11.cpp', name='c11variadic', flags=['-DBOOST_THREAD_PROVIDES_VARIADIC_THREAD'], entries='ctor')], level='proof', slow_first=['sched', 'system', 'abs'],
  note='Construction from every kind of callable proved against its contract for all arguments, every result of pthread_create, memory exhaustion and both orders of start and return; join, timed joins, detach, destruction and move assignment proved thread-modularly for any behaviour of the thread and of other joiners; every interleaving of a thread with up to two joiners, a detacher and an interrupter (three joiners in the thorough tier). pthread attribute functions are assumed not to fail on valid attributes. ' + BASE)
REG['C12'] = dict(harness=[dict(src='c12.cpp')], level='proof',
  note='thread_specific_ptr operations (get, reset, release, destruction) proved for every state of this pointer, another pointer and another thread; ends of launched and external threads (exit functions registering more, values set by cleanups, deferred notifications and results, exit while cleaning up, handle kept, detached, joined or destroyed) explored exhaustively up to three exit functions and two pointers (bounded). A cleanup function that resets the very pointer whose value it is cleaning up is outside the precondition. ' + BASE)
FUT = ['-DBOOST_THREAD_PROVIDES_FUTURE']; V4 = ['-DBOOST_THREAD_VERSION=4']
REG['C15'] = dict(harness=[dict(src='c15.cpp', flags=FUT), dict(src='c15.cpp', name='c15v4', flags=V4, srcflags=V4, entries='^(?!sched)')], level='proof', slow_first=['sched'],
  note='Every operation of promise, future and shared_future (for values, movable objects, references and void; versions 2 and 4 of the interface) proved against its contract from every state of the shared state, with any other threads setting the result, interruption and time-outs; wait_for_any and wait_for_all over two or three futures, some without state or sharing one (bounded in the number of futures); every interleaving of setters, getters, opposed wait_for_any calls and destruction (three threads). Destroying a promise whose deferred result was never made visible, and notify_deferred without a result, are outside the precondition. ' + BASE)
V5 = ['-DBOOST_THREAD_VERSION=5']
REG['C16'] = dict(harness=[dict(src='c16.cpp', flags=FUT), dict(src='c16.cpp', name='c16v4', flags=V4, srcflags=V4, entries='^(?!sched)'), dict(src='c16.cpp', name='c16v5', flags=V5, srcflags=V5)], level='proof', slow_first=['sched'],
  note='packaged_task (versions 2, 4 and 5 of the interface; values, movable objects, references, void; functors and function pointers): invoking, invoking with readiness at thread exit, moving, swapping, destroying and misusing a task proved against contracts from every state, with another thread invoking it at any lock point; async on a new thread that runs at once, later or only when waited for, or that cannot be created; on any executor, which may refuse; deferred futures under every waiting function. Every interleaving of invokers, waiters and destruction (three threads). Not claimed: packaged_task::reset (keeps the old shared state), closures an executor drops without running, memory exhaustion. ' + BASE)
REG['C17'] = dict(harness=[dict(src='c17.cpp', name='c17v4', flags=V4, srcflags=V4, entries='^(?!sched)'), dict(src='c17.cpp', flags=V5, srcflags=V5), dict(src='c15.cpp', name='c17w', flags=FUT, entries='^(any|all|b_any|b_all|sched.*(any|all))')], level='proof', slow_first=['sched'],
  note='then under every launch policy (async, deferred, sync, inherited, none given) and on executors, directly or inherited, for future and shared_future with values, movable objects, references and void (interface versions 4 and 5): proved that the continuation runs exactly once, where the policy says, with no library mutex held, after its antecedent is ready and with it, whether attached before or after, whatever either throws, when the thread cannot be created, the executor refuses or the waiting thread is interrupted; chains of two, three continuations on one shared future; unwrap and fallback_to in every order of readiness; when_all and when_any for two inputs in every state (bounded). Every interleaving of attaching, becoming ready, waiting and interruption (three threads; two preemptions where two threads attach). wait_for_any and wait_for_all over two or three futures (harness c17w, shared with C15). An unwrapped or when-combined future whose antecedent is deferred and never waited for is outside the property. ' + BASE)
REG['C21'] = dict(harness=[dict(src='c21.cpp', flags=V5, srcflags=V5), dict(src='c21r.cpp', flags=V5, srcflags=V5)], level='proof', slow_first=['sched'],
  note='Worker loops of basic_thread_pool (three forms of construction), loop_executor, serial_executor (over any executor, which runs a task at once or later on another thread), scheduler, scheduled_thread_pool and scheduling_adaptor proved for any number of tasks, any other submitters, workers and closers, tasks that submit tasks, interruption and any clock: the real queue code runs over an abstract container of any length, every task taken is run once, unlocked, before the next is taken and not before its time, and a worker ends only when closed and drained (or interrupted while open). Submission in every form (function pointer, lvalue, movable, work) through every executor, adaptor, reference and scheduling wrapper, open or closed; destruction waits for the workers and drains. Constructions that cannot start all threads (three threads, bounded); every interleaving (two preemptions) of an owner, two submitted tasks, workers and a closer for each executor. Not claimed: a task that throws (terminates), a task that lets an interruption escape ends its worker, scheduled tasks not yet due when the executor is closed, an underlying executor closed before the serial executor on it has drained, serial_executor_cont. ' + BASE)
REG['C22'] = dict(harness=[dict(src='c22.cpp')], level='proof',
  note='scoped_thread, strict_scoped_thread and thread_guard with every library action and a user-defined one, and testable_mutex over any lockable, proved for every state; thread_group operations checked for every group of up to three threads in every mix of states (bounded), with every access to the list made under the group lock; the number parser for every string without NUL characters of up to 12 characters (15 in the thorough tier; bounded). physical_concurrency itself reads a file and is not covered. ' + BASE)
