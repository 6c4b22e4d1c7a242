#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (kept as a script so that the long text stays reviewable)."""
import json, os
I='include/boost/thread/'
P=[]
def prop(id,title,statement,over,text,why,files,mech,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":x,"where":files[0]} for x in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","Mutex classes: ownership is exclusive and results report it faithfully",
"For mutex, timed_mutex, recursive_mutex and recursive_timed_mutex, a call that reports success (lock returning normally, or any try/timed call returning true) leaves the calling thread the only owner, and a call that reports failure (false or an exception) leaves the caller's ownership exactly as it was. Recursive variants give one more level per successful call and release the mutex to others only when every level has been unlocked. unlock by the owner gives up exactly one level and lets a waiting thread proceed.",
["schedules","inputs","fault_sequences"],
"every interleaving with any number of other threads, every nesting depth, every deadline, and every documented return value of the underlying primitives (EINTR, EBUSY, EDEADLK, EINVAL, ETIMEDOUT)",
"Tests lock from two or three threads with fixed sleeps; they never make a primitive return an error, never take special durations and never steer interleavings.",
[I+"pthread/mutex.hpp",I+"pthread/recursive_mutex.hpp",I+"pthread/pthread_helpers.hpp",I+"pthread/pthread_mutex_scoped_lock.hpp"],
[("mutex::lock/try_lock/unlock",I+"pthread/mutex.hpp"),("timed_mutex timed_lock/try_lock_until/do_try_lock_until",I+"pthread/mutex.hpp"),("recursive lock counting",I+"pthread/recursive_mutex.hpp"),("EINTR retry wrappers",I+"pthread/pthread_helpers.hpp")])

prop("C02","Timed waits never give up before their deadline; time conversions are exact",
"A timed lock or timed wait that reports timeout does so only after the caller's deadline has been reached on the clock the deadline was given in, for every deadline value and every behaviour of the clocks, including clock jumps and early or late wake-ups of the underlying primitive. Conversions between time representations (timespec, nanosecond counts, chrono and date-time values, xtime) are exact or round in the documented direction and always produce normalised values (0 <= nsec < 10^9).",
["inputs","schedules"],
"all deadlines and durations whose nanosecond count fits the library's 64-bit representation, all clock readings, and any number of early primitive returns",
"Tests use a handful of fixed durations with wide tolerances on a clock that never jumps.",
[I+"detail/platform_time.hpp",I+"pthread/condition_variable_fwd.hpp",I+"pthread/condition_variable.hpp",I+"pthread/mutex.hpp",I+"xtime.hpp",I+"thread_time.hpp"],
[("platform_duration/platform_timepoint arithmetic",I+"detail/platform_time.hpp"),("poll loops of timed_lock/try_lock_until/wait_until",I+"pthread/mutex.hpp"),("xtime conversions",I+"xtime.hpp")])

prop("C03","Condition variables: atomic release, guaranteed re-lock, true predicates",
"A wait on condition_variable or condition_variable_any gives up the caller's lock atomically with starting to wait, so a notification issued after the caller's lock has been released cannot be missed, and every way out of the wait (notification, spurious wake-up, timeout, interruption, error) returns with the caller's lock held again. A predicate wait returns normally only with the predicate true under the lock, and a timed predicate wait returns the predicate's value. notify_one wakes at least one waiter, notify_all all of them.",
["schedules","inputs","fault_sequences"],
"all interleavings of waiters, notifiers and interrupters, all primitive return values, all lock types satisfying the Lockable contract",
"Tests only sample a few sleeps-based schedules; the lost-wakeup window between unlocking and waiting is a few instructions wide.",
[I+"pthread/condition_variable.hpp",I+"pthread/condition_variable_fwd.hpp",I+"detail/thread.hpp",I+"pthread/thread_data.hpp"],
[("condition_variable::wait/do_wait_until",I+"pthread/condition_variable.hpp"),("condition_variable_any wait and relocker",I+"pthread/condition_variable.hpp"),("predicate loops",I+"pthread/condition_variable_fwd.hpp")])

prop("C04","Interruption is delivered exactly once, only where enabled",
"An interruption requested for a thread is thrown (as thread_interrupted) at its next predefined interruption point entered or being waited in while interruption is enabled, consuming the request; it is never thrown while interruption is disabled, is not lost by disabling, and a thread blocked in an interruptible wait is woken by the request. disable_interruption/restore_interruption nest and restore the state in force before them. Interruption queries report exactly the current enabled/requested state.",
["schedules","histories"],
"all nestings of disable/restore, all points at which the request arrives relative to entering, waiting in, or leaving an interruption point",
"Tests interrupt a thread that is already blocked or not yet started; the window in which the request arrives while the wait is being set up is not sampled.",
["src/pthread/thread.cpp",I+"pthread/thread_data.hpp",I+"detail/thread_interruption.hpp"],
[("interruption_point/interrupt/interruption_requested","src/pthread/thread.cpp"),("interruption_checker",I+"pthread/thread_data.hpp"),("disable_interruption/restore_interruption","src/pthread/thread.cpp")])

prop("C05","call_once runs the function to successful completion exactly once",
"For each once_flag, among any number of concurrent call_once calls exactly one execution of a supplied function completes normally, no two executions overlap, and every call that returns normally returns after that completion. If an execution throws, the exception reaches that caller, the flag becomes available again, and waiting callers are woken so that one of them runs its function. A call after completion never runs its function and never blocks.",
["schedules","histories"],
"any number of threads, any number of throwing attempts before the successful one, every interleaving of the atomic flag accesses",
"Tests run a few threads once; races between a throwing initialiser and a thread about to wait are not exercised.",
[I+"pthread/once_atomic.hpp","src/pthread/once_atomic.cpp",I+"pthread/once.hpp",I+"once.hpp"],
[("enter/commit/rollback_once_region","src/pthread/once_atomic.cpp"),("call_once",I+"pthread/once_atomic.hpp")])

prop("C06","shared_mutex (and upgrade_mutex) never allow conflicting ownership",
"At every moment a shared_mutex has either one exclusive owner and nobody else, or any number of shared owners plus at most one upgrade owner; every lock, try, timed, unlock and conversion operation moves the caller exactly from the ownership it held to the ownership its contract and return value state. A failed or timed-out operation leaves the caller's ownership and everyone else's unchanged. Conversions between modes never leave an instant in which another thread could take a conflicting ownership.",
["schedules","inputs","histories"],
"any number of concurrent readers, upgraders and writers, all operations of the class incl. upward and downward conversions, all timeouts and spurious wake-ups",
"Tests use a few threads and fixed sleeps; conflicts need a third thread between two steps of a conversion.",
[I+"pthread/shared_mutex.hpp"],
[("state_data predicates",I+"pthread/shared_mutex.hpp"),("lock/unlock/conversion members",I+"pthread/shared_mutex.hpp")],["state (shared_count, exclusive, upgrade, exclusive_waiting_blocked) guarded by state_change"])

prop("C07","shared_mutex: whoever can proceed is woken, and abandoned waits leave no trace",
"Whenever an operation of shared_mutex changes its state so that a blocked operation has become able to proceed, that blocked operation (or another one able to proceed) is woken by it; no thread stays blocked while the mutex is free for it and nobody else holds it. A timed writer or upgrader that gives up leaves no lasting restriction on readers or other writers and wakes those it was holding back.",
["schedules","histories"],
"every pair of a blocked operation and a state-changing operation, any number of other blocked threads, all timeouts",
"A lost wake-up shows only if the right waiter is blocked at the right instant; tests that hang are rarely provoked by sleeps.",
[I+"pthread/shared_mutex.hpp"],
[("release_waiters and notify calls",I+"pthread/shared_mutex.hpp"),("timeout paths of try_lock_until and friends",I+"pthread/shared_mutex.hpp")])

prop("C08","v2 shared_mutex/upgrade_mutex: exclusive ownership rules and wake-ups",
"The two-gate boost::thread_v2::shared_mutex and upgrade_mutex keep either one exclusive owner alone, or shared owners plus at most one upgrade owner; each operation moves the caller exactly between the ownerships its contract and result state, and the count of shared owners always equals the number of threads holding shared (or upgrade) ownership. A timed operation that gives up restores the state as if it had not been attempted and wakes threads that it was holding back.",
["schedules","inputs","histories"],
"any number of threads, all operations including timed ones and conversions, up to the documented maximum number of readers",
"The existing suite exercises this class only lightly and without steering the schedule; errors on timeout paths need other threads to act during the wait.",
[I+"v2/shared_mutex.hpp"],
[("two-gate lock protocol",I+"v2/shared_mutex.hpp"),("timeout paths",I+"v2/shared_mutex.hpp")],["state_ word: write_entered/upgradable_entered/n_readers"])

prop("C09","Lock objects own exactly what they report and release it exactly once",
"unique_lock, shared_lock, upgrade_lock, upgrade_to_unique_lock, lock_guard, shared_lock_guard, strict locks and reverse_lock hold their mutex in the mode of the lock exactly when they report ownership, through any sequence of construction, lock/try/timed calls, unlock, release, swap, move, mode conversion and destruction, including when the mutex operation throws. Ownership is released exactly once, and an operation on a lock with no mutex, or one already in the requested state, throws the documented lock_error and changes nothing.",
["histories","inputs","fault_sequences"],
"every reachable lock state, every member operation, every outcome (success, failure, exception) of the underlying mutex, for an arbitrary Lockable",
"Unit tests check one call each on a fresh lock with a real mutex that never fails or throws.",
[I+"lock_types.hpp",I+"lock_guard.hpp",I+"shared_lock_guard.hpp",I+"reverse_lock.hpp",I+"strict_lock.hpp",I+"lock_factories.hpp"],
[("unique_lock/shared_lock/upgrade_lock",I+"lock_types.hpp"),("lock_guard",I+"lock_guard.hpp"),("reverse_lock",I+"reverse_lock.hpp"),("strict_lock",I+"strict_lock.hpp")])

prop("C10","Multi-lock algorithms are all-or-nothing and never hold while waiting",
"boost::lock over 2 to 5 lockables or a range returns only with every one locked exactly once, and if any lock or try_lock throws, none is left locked by the call; it never blocks on one lockable while holding another it has taken. boost::try_lock either locks all and reports success, or locks none and identifies the first one (by index or iterator) whose attempt failed.",
["schedules","inputs","fault_sequences"],
"every pattern of success, failure and exception of the individual lock attempts, any number of retries, 2 to 5 arguments and ranges",
"Tests lock free or permanently held mutexes, so only a few of the retry states are ever reached and no attempt throws.",
[I+"lock_algorithms.hpp"],
[("lock_helper/try_lock_internal/lock_impl",I+"lock_algorithms.hpp"),("range versions",I+"lock_algorithms.hpp")])

prop("C11","A thread runs its function exactly once; join, detach and ids tell the truth",
"A successfully constructed thread runs its function with the supplied arguments exactly once on the new thread and a failed construction runs it nowhere, reports thread_resource_error and leaks no resources. join returns (and timed_join/try_join returns true) only after that function has finished, makes the object non-joinable and is performed once however many threads call it; joining oneself or a non-joinable thread is reported as an error where documented. Ownership of the running thread moves with the object and exactly one object is joinable for it.",
["schedules","histories","fault_sequences"],
"every interleaving of starter, new thread and joiners, every sequence of move, swap, join, detach and destruction, failure of thread creation",
"Tests create threads that succeed and join them once; creation failures, concurrent joiners and joins racing with exit are not reached.",
["src/pthread/thread.cpp",I+"detail/thread.hpp",I+"pthread/thread_data.hpp"],
[("start_thread_noexcept/thread_proxy","src/pthread/thread.cpp"),("join_noexcept/do_try_join_until_noexcept/detach","src/pthread/thread.cpp"),("thread move/swap/dtor",I+"detail/thread.hpp")])

prop("C12","Exit-time actions and per-thread values run once, on their own thread",
"Functions registered with at_thread_exit run exactly once each, on the thread that registered them, when it finishes, including functions registered by other exit functions. A thread_specific_ptr holds an independent value per thread: get returns the last value that thread set, and each value's cleanup runs exactly once - on reset, on thread exit or on destruction of the pointer by that thread - and never after release. Locks handed to notify_all_at_thread_exit are released and the condition notified, and results set at thread exit become ready, only when the thread ends.",
["histories","schedules","inputs"],
"every sequence of set, reset, release, re-registration and exit, with cleanup functions that themselves set values or register further functions",
"Tests use one or two values and one exit function per thread.",
["src/pthread/thread.cpp",I+"tss.hpp",I+"pthread/thread_data.hpp"],
[("tls_destructor/run_thread_exit_callbacks","src/pthread/thread.cpp"),("set_tss_data/get_tss_data/erase_tss_node","src/pthread/thread.cpp"),("thread_specific_ptr",I+"tss.hpp")])

prop("C13","barrier releases each full group together and elects one thread",
"Each call of barrier::wait or count_down_and_wait returns only after the full number of participants of its own generation have arrived, every participant of the generation is then released, and exactly one of them gets true. The completion function runs exactly once per generation, before any participant is released, and the barrier is immediately reusable with the count in force (or the count the completion function supplied). Construction with a count of zero is rejected.",
["schedules","histories","inputs"],
"any number of participants and generations, threads that re-enter before others have left, spurious wake-ups",
"Tests run a few generations; a fast thread re-entering before a slow one has woken is not forced.",
[I+"barrier.hpp"],[("barrier::wait/count_down_and_wait",I+"barrier.hpp")])

prop("C14","latch opens exactly at zero and stays open",
"latch::wait and the timed waits return success only once the count has reached zero and block before that, try_wait reports exactly whether it is zero, and each count_down lowers the count by exactly one and wakes every waiter when it reaches zero. Counting below zero is rejected without changing the count. A completion_latch runs its completion function and releases its waiters only when the count has reached zero.",
["schedules","inputs","histories"],
"all counts, any number of waiters and counters, all interleavings and timeouts",
"Tests use one fixed small count and a fixed order of threads.",
[I+"latch.hpp",I+"completion_latch.hpp",I+"detail/counter.hpp"],[("count_down/wait/try_wait",I+"latch.hpp"),("completion_latch",I+"completion_latch.hpp")])

prop("C15","A future's result is set once, seen whole, and never lost",
"A promise's shared state becomes ready at most once, with exactly the value or exception given first; every later attempt is rejected with promise_already_satisfied and changes nothing. get, wait and the timed waits return ready only after that, get delivers exactly that value or exception, and every thread waiting (also through wait_for_any/all) is woken. Destroying a promise that holds no result makes its future ready with broken_promise, a future can be retrieved once, and misuse of empty objects throws the documented error.",
["schedules","histories","inputs"],
"all interleavings of setters, waiters and destruction, all values and exceptions, every sequence of operations on promise, future and shared_future",
"Tests set once and read once, mostly on one thread or with sleeps.",
[I+"future.hpp"],
[("shared_state mark_finished/wait",I+"future.hpp"),("promise",I+"future.hpp"),("future/shared_future get",I+"future.hpp")])

prop("C16","packaged_task and async run the callable once and deliver its outcome",
"Invoking a packaged_task runs its callable exactly once, on the invoking thread, and makes its future ready with the returned value or thrown exception; a second invocation is rejected with task_already_started, and destroying an uninvoked task makes the future ready with broken_promise. async runs the callable exactly once - on a new thread, on the executor, or (deferred) on the first thread that waits - and its future becomes ready with the outcome; deferred futures report deferred to timed waits and run at most once however many threads wait.",
["schedules","histories","inputs"],
"all interleavings of invokers, waiters and destruction, callables that return or throw",
"Tests call each form once from one thread.",
[I+"future.hpp"],
[("packaged_task/task_base_shared_state",I+"future.hpp"),("async and future_*_shared_state",I+"future.hpp")])

prop("C17","Continuations, when_all and unwrapping run once, after their inputs are ready",
"A continuation attached with then runs exactly once, after its antecedent is ready, receives that ready antecedent, and its own future becomes ready with the continuation's outcome; this holds whether it is attached before, after or while the antecedent becomes ready, for every launch policy. The antecedent future is consumed (invalid) by the call, attaching to an invalid future throws, and wait_for_any/wait_for_all return only when one/all of their futures are ready, reporting one that is.",
["schedules","histories","inputs"],
"all interleavings of attaching and becoming ready, value and exceptional antecedents, any number of futures in wait_for_*",
"Tests attach either clearly before or clearly after readiness.",
[I+"future.hpp",I+"futures/wait_for_all.hpp",I+"futures/wait_for_any.hpp"],
[("set_continuation_ptr/do_continuation",I+"future.hpp"),("continuation_shared_state::call",I+"future.hpp"),("future_waiter",I+"future.hpp")])

prop("C18","Unbounded queues are FIFO, lose nothing, and closing reaches everyone",
"sync_queue and sync_deque deliver every successfully pushed element exactly once, in the order of the queue's ends, and report the documented status (success, empty, busy, closed) for what actually happened. Waiting pulls return an element whenever one is available and are woken by pushes and by close. After close no element is accepted, elements already queued can still be pulled, and only then is closed reported; an element refused by a push is left untouched.",
["schedules","histories","inputs"],
"any queue contents and length, any number of producers and consumers, all interleavings with close, elements whose copy or move throws",
"Tests use one or two elements with one producer and one consumer.",
[I+"concurrent_queues/sync_queue.hpp",I+"concurrent_queues/sync_deque.hpp",I+"concurrent_queues/detail/sync_queue_base.hpp",I+"concurrent_queues/detail/sync_deque_base.hpp",I+"concurrent_queues/queue_adaptor.hpp",I+"concurrent_queues/queue_views.hpp"],
[("sync_queue push/pull family",I+"concurrent_queues/sync_queue.hpp"),("wait_until_not_empty_or_closed/close/notify",I+"concurrent_queues/detail/sync_queue_base.hpp"),("sync_deque",I+"concurrent_queues/sync_deque.hpp")])

prop("C19","The bounded queue is a FIFO ring that never exceeds its capacity",
"sync_bounded_queue of any capacity holds at most that many elements and delivers each pushed element exactly once in FIFO order through any number of wrap-arounds; size, empty, full and capacity report the exact state. Pushing to a full queue blocks or reports full, pulling from an empty one blocks or reports empty, and each successful push or pull lets a blocked counterpart proceed. After close, pushes report closed, queued elements can be pulled, and every blocked thread is released with closed.",
["schedules","histories","inputs"],
"every capacity, every position of the ring, every operation, any number of producers and consumers and all interleavings with close",
"Tests use capacities 1 to 4 and never wrap around with a partly filled ring, nor close while blocked.",
[I+"concurrent_queues/sync_bounded_queue.hpp"],
[("ring indices inc/empty/full/size",I+"concurrent_queues/sync_bounded_queue.hpp"),("waiting and notification",I+"concurrent_queues/sync_bounded_queue.hpp")])

prop("C20","Priority and timed queues deliver the right element, and never early",
"sync_priority_queue always hands out an element no other queued element outranks, and sync_timed_queue an element with the earliest due time and never before that time has been reached on its clock; both deliver each pushed element exactly once and report the documented status. Waiting pulls are woken by pushes (including of an earlier-due element) and by close; due elements can still be pulled after close and a timed pull gives up only after its deadline.",
["schedules","histories","inputs"],
"all contents and priorities or due times, all clock readings, all interleavings of push, pull and close",
"Tests push a few elements in a fixed order and rely on real sleeping.",
[I+"concurrent_queues/sync_priority_queue.hpp",I+"concurrent_queues/sync_timed_queue.hpp",I+"concurrent_queues/detail/sync_queue_base.hpp"],
[("priority_queue heap",I+"concurrent_queues/sync_priority_queue.hpp"),("wait_to_pull/wait_to_pull_until",I+"concurrent_queues/sync_timed_queue.hpp")])

prop("C21","Executors run every accepted task exactly once and refuse tasks once closed",
"Each closure accepted by basic_thread_pool, loop_executor, serial_executor, inline_executor, thread_executor or the scheduled executors is invoked at most once, and exactly once if the executor is driven until drained; loop and serial executors run tasks in submission order and serial ones never overlap. After close, submission fails with sync_queue_is_closed and the task is not run, workers drain what was queued and then stop, and destruction waits for the workers. Scheduled tasks never start before their time.",
["schedules","histories"],
"all interleavings of submitters, workers and close, any number of queued tasks, tasks that submit tasks or throw",
"Tests submit a few tasks from the main thread and never close while workers and submitters race.",
[I+"executors/basic_thread_pool.hpp",I+"executors/loop_executor.hpp",I+"executors/serial_executor.hpp",I+"executors/inline_executor.hpp",I+"executors/thread_executor.hpp",I+"executors/detail/priority_executor_base.hpp",I+"executors/detail/scheduled_executor_base.hpp"],
[("worker loops and try_executing_one",I+"executors/basic_thread_pool.hpp"),("submit/close",I+"executors/loop_executor.hpp"),("serial execution",I+"executors/serial_executor.hpp")])

prop("C22","Thread helpers: groups, scoped threads and guards act on exactly their threads",
"scoped_thread and thread_guard apply their action exactly once to the thread they hold when they are destroyed and never to one moved away; thread_group joins, interrupts and deletes each thread added or created and not removed, exactly once, and reports membership and size exactly. testable_mutex reports itself locked by the calling thread exactly while that thread owns it, and the processor-count parser accepts exactly the decimal unsigned integers.",
["histories","inputs"],
"every sequence of operations on these helpers, groups of any size, all strings",
"Tests check each helper with one or two threads and fixed inputs.",
[I+"scoped_thread.hpp",I+"thread_guard.hpp",I+"thread_functors.hpp",I+"detail/thread_group.hpp",I+"testable_mutex.hpp",I+"detail/string_to_unsigned.hpp"],
[("strict_scoped_thread/scoped_thread",I+"scoped_thread.hpp"),("thread_group",I+"detail/thread_group.hpp"),("testable_mutex",I+"testable_mutex.hpp"),("string_to_unsigned",I+"detail/string_to_unsigned.hpp")])

out=os.path.join(os.path.dirname(os.path.abspath(__file__)),'..','properties.jsonl')
with open(out,'w') as f:
    for p in P: f.write(json.dumps(p)+"\n")
import sys
for p in P: assert len(p['title'])<=80,(p['id'],len(p['title']))
print(len(P))
