#!/usr/bin/env python3
"""Regenerates /verif/properties.jsonl (source of truth for the property texts)."""
import json, os
I = "include/boost/sync/"
D = I + "detail/"
P = []
def prop(id, title, statement, over, qtext, why, files, mech, observe=None, state=None):
    assert len(title) <= 80, title
    a = {"files": files, "mechanism": [{"name": n, "where": w} for n, w in mech], "hook_needed": None}
    if observe: a["observe_at"] = observe
    if state: a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in state]
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why, "anchors": a})

prop("C01", "Mutex acquisition results are truthful",
 "For mutex and timed_mutex, lock() returns normally, and try_lock(), timed_lock(), try_lock_for() and try_lock_until() return true, exactly when that call acquired the mutex for the calling thread; they return false only when the mutex was busy (try) or the timeout expired (timed), and then hold nothing. "
 "Each unlock() releases the mutex exactly once and lets a blocked locker proceed, and no operation acquires or releases anything it does not report. "
 "This holds in every build configuration: assertions enabled or disabled, native or emulated timed locking, with or without the EINTR workaround.",
 ["schedules", "inputs", "configurations", "fault_sequences"],
 "every sequence of operations, every result the native API may return, every thread interleaving at the native-call boundary, every supported configuration",
 "mutex_test.cpp takes uncontended locks and one timeout in the default configuration; it never sees a native error, a spurious condition wakeup in the emulated timed mutex, or a build with assertions disabled.",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"pthread.hpp", D+"pthread_mutex_locks.hpp"],
 [("mutex::lock/try_lock/unlock", D+"mutexes/mutex_posix.hpp"), ("timed_mutex::lock/try_lock/priv_timed_lock/unlock", D+"mutexes/timed_mutex_posix.hpp"), ("pthread_mutex_lock_guard", D+"pthread_mutex_locks.hpp")],
 ["return value / exception of each operation", "pthread_mutex_* and pthread_cond_* calls"])

prop("C02", "Spin mutex grants exclusive ownership to one thread at a time",
 "For spin_mutex, a lock() return or a try_lock() true result happens only by a single indivisible transition of the mutex from free to held, so at most one thread owns it; try_lock() returns false only if the mutex was observed held and then leaves it unchanged. "
 "unlock() makes the mutex free, a newly constructed mutex is free, and lock() returns whenever the mutex stays free.",
 ["schedules"], "every interleaving of any number of threads calling lock, try_lock and unlock",
 "mutex_test.cpp exercises spin_mutex from at most one contending thread; a non-atomic test-then-set or a missed free state needs a specific interleaving.",
 [D+"mutexes/spin_mutex.hpp", D+"pause.hpp", D+"atomic.hpp"],
 [("atomic test_and_set / exchange in try_lock", D+"mutexes/spin_mutex.hpp"), ("spin loop in lock", D+"mutexes/spin_mutex.hpp")],
 ["atomic operations on the lock word", "results of lock/try_lock"])

prop("C03", "Shared spin mutex separates writers from readers and other writers",
 "For shared_spin_mutex, exclusive ownership is granted only by an indivisible transition from completely free, and shared ownership only by an indivisible transition that adds exactly one reader while no writer holds it; so a writer never coexists with a reader or another writer, while readers may coexist. "
 "unlock() returns the mutex to completely free, unlock_shared() removes exactly one reader, and failed try_lock()/try_lock_shared() leave it unchanged and report false only when a conflicting or changing owner was observed. "
 "lock() returns whenever the mutex stays free and lock_shared() whenever no writer holds it and its state is stable.",
 ["schedules"], "every interleaving of any number of readers and writers (fewer than 2^31 readers)",
 "The test function for shared_spin_mutex is never called by the test program's main; no test covers it.",
 [D+"mutexes/shared_spin_mutex.hpp"],
 [("compare-exchange on the state word", D+"mutexes/shared_spin_mutex.hpp")],
 ["atomic operations on the state word", "results of the lock functions"])

prop("C04", "Lock wrappers own exactly what they report and release it exactly once",
 "After any sequence of construction (all tag and timed forms), lock, try_lock, timed_lock, try_lock_for, try_lock_until, unlock, release, swap, move construction and move assignment on unique_lock, shared_lock and upgrade_lock objects - including when the underlying mutex operation fails or throws - owns_lock() is true exactly when the mutex reported by mutex() is held through that wrapper in its mode. "
 "Every such hold is given up exactly once - by unlock(), by the wrapper's destructor or by being overwritten by a move assignment - and in the same mode in which it was acquired, except after release(), which hands it to the caller; a wrapper never unlocks a mutex it does not own, and never acquires one it was told to adopt or defer.",
 ["histories", "fault_sequences"], "every finite sequence of wrapper operations over two wrappers and two mutexes, every result (success, failure, exception) of every underlying mutex operation",
 "Only unique_lock's constructors and a few lock/unlock calls are tested; shared_lock and upgrade_lock, moves, swaps and throwing mutexes have no test.",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp"],
 [("m_mutex/m_is_locked pair maintained by every member", I+"locks/unique_lock.hpp"), ("same", I+"locks/shared_lock.hpp"), ("same", I+"locks/upgrade_lock.hpp")],
 ["calls on the wrapped mutex", "owns_lock(), mutex(), bool conversion"])

prop("C05", "Conversions between lock wrappers preserve ownership",
 "Converting between unique_lock, shared_lock and upgrade_lock (by construction, by assignment, with try_to_lock or with a timeout) calls the one mutex operation that atomically changes from the source's mode to the target's mode if and only if the source owned its lock; on success the target owns the mutex in its mode and the source is empty. "
 "If a try or timed conversion fails or the mutex operation throws, the source still owns the mutex in its original mode and the target gains nothing (a newly constructed one owns nothing); what the target owned before a successful assignment is released exactly once; a non-owning source hands over its mutex association without any mutex operation.",
 ["histories", "fault_sequences"], "every conversion, every source state, every result (success, failure, exception) of the mutex operation",
 "No test instantiates any conversion (several did not even compile at the pinned commit).",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp"],
 [("converting constructors and assignments", I+"locks/unique_lock.hpp"), ("converting constructors and assignments", I+"locks/shared_lock.hpp"), ("converting constructors and assignments", I+"locks/upgrade_lock.hpp")],
 ["mode-changing calls on the wrapped mutex", "owns_lock() and mutex() of source and target"])

prop("C06", "Misuse of a lock wrapper is rejected with the right error and no effect",
 "lock(), try_lock(), the timed lock operations and unlock() on a unique_lock, shared_lock or upgrade_lock without a mutex throw lock_error with operation_not_permitted; locking one that already owns its mutex throws lock_error with resource_deadlock_would_occur; unlocking one that does not own its mutex throws lock_error with operation_not_permitted. "
 "In each of these cases no mutex operation is performed and the wrapper's state is unchanged; in no other case is such an error thrown.",
 ["histories", "inputs"], "every operation in every wrapper state",
 "No test performs a misuse; the error code and the absence of side effects are never observed.",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp", I+"exceptions/lock_error.hpp"],
 [("m_mutex / m_is_locked guards before each operation", I+"locks/unique_lock.hpp")],
 ["exception type and code", "calls on the wrapped mutex"])

prop("C07", "Scope guards pair each acquisition with exactly one release",
 "lock_guard and shared_lock_guard acquire the given mutex exactly once on construction (not at all when adopting) and release it exactly once, in the same mode, on destruction by any exit including an exception; if acquisition throws, nothing is released. "
 "unlock_guard releases its lockable exactly once on construction and re-acquires it exactly once on destruction.",
 ["histories", "fault_sequences"], "every guard form, every exit path from the guarded scope, every result of the mutex operation",
 "lock_guard is only used incidentally; adopting, exceptional exits, shared_lock_guard and unlock_guard are untested.",
 [I+"locks/lock_guard.hpp", I+"locks/shared_lock_guard.hpp", I+"locks/unlock_guard.hpp", D+"pthread_mutex_locks.hpp"],
 [("guard constructors and destructors", I+"locks/lock_guard.hpp"), ("same", I+"locks/shared_lock_guard.hpp"), ("same", I+"locks/unlock_guard.hpp")],
 ["calls on the wrapped mutex"])

prop("C08", "Condition variable waits release, block and re-hold the caller's mutex",
 "Every wait on a condition_variable blocks only through atomic release-and-block operations on this condition variable with the caller's own mutex, which the caller holds again when the wait returns or throws, with the lock object still owning it. "
 "A timed wait reports timeout only if its deadline passed and no_timeout (true) only if it was woken or its deadline had not passed; notify_one() wakes at least one and notify_all() every thread blocked on this object.",
 ["schedules", "fault_sequences", "inputs"], "every overload and time type, every native result, any number of waiters",
 "Tests check a handful of wake-ups in the default configuration; with notify_one() a no-op most of them still pass, and native errors never occur.",
 [D+"condition_variables/condition_variable_posix.hpp"],
 [("priv_wait / priv_timed_wait", D+"condition_variables/condition_variable_posix.hpp"), ("notify_one / notify_all", D+"condition_variables/condition_variable_posix.hpp")],
 ["pthread_cond_* calls and their arguments", "return status", "owns_lock() afterwards"])

prop("C09", "Predicate waits return only on a satisfied predicate or a timeout",
 "A wait with a predicate on condition_variable or condition_variable_any evaluates the predicate with the caller's lock held, never blocks while the last evaluation was true, blocks between unsuccessful evaluations (so that others can get the lock and make it true), keeps waiting through spurious and unrelated wakeups, and an untimed one returns only after an evaluation that yielded true with no blocking in between. "
 "A timed one returns true only if its last predicate evaluation was true, and returns false only after its timeout expired and a predicate evaluation made after that expiry yielded false.",
 ["schedules", "fault_sequences", "inputs"], "every overload, every sequence of predicate results, spurious wakeups, notifications and timeouts",
 "Tests use one predicate flip per wait and cannot produce spurious wakeups or a predicate that turns true together with the timeout.",
 [D+"condition_variables/condition_variable_posix.hpp", D+"condition_variables/condition_variable_any_generic.hpp"],
 [("while (!pred()) loops", D+"condition_variables/condition_variable_posix.hpp"), ("while (!pred()) loops", D+"condition_variables/condition_variable_any_generic.hpp")],
 ["predicate calls relative to blocking calls", "return value"])

prop("C10", "condition_variable_any never loses a notification or the caller's lock",
 "A wait on condition_variable_any gives up the caller's lock only at a point from which no notification can be missed any more (notifications are excluded until the thread is blocked), and on every exit - normal, timeout or exception - it returns with the caller's lock held again exactly once, re-acquired without any internal lock being held; if giving up the lock throws, the lock is not re-acquired, and an exception thrown by re-acquiring it reaches the caller (unless another one is already propagating). "
 "notify_one() and notify_all() wake one / all waiters and leave no internal lock held.",
 ["schedules", "fault_sequences"], "every interleaving of waiters and notifiers, every outcome (including exceptions) of the caller's lock and of the native calls",
 "The window between unlocking the user's lock and blocking is a few instructions; tests cannot schedule a notification into it, and user locks in the tests never throw.",
 [D+"condition_variables/condition_variable_any_generic.hpp"],
 [("relocker + internal mutex ordering", D+"condition_variables/condition_variable_any_generic.hpp")],
 ["order of user-lock and internal-mutex operations around the blocking call"])

prop("C11", "Semaphore waits succeed exactly when they take one unit",
 "A semaphore starts with the given count; each post() adds exactly one unit and makes it available to a blocked waiter; wait() returns, and try_wait() and the timed waits return true, exactly when that call took exactly one unit. "
 "try_wait() returns false only when no unit could be taken immediately and timed waits only when the timeout expired, taking nothing. "
 "This holds for the native and the emulated implementation, with assertions on or off.",
 ["schedules", "inputs", "fault_sequences", "configurations"], "any number of waiters and posters, every native result (including interruption), spurious wakeups, both implementations",
 "semaphore_test.cpp uses one waiter and one poster in the native implementation; the emulated one is never compiled, and interruptions never happen.",
 [D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp"],
 [("sem_* call mapping", D+"semaphore/semaphore_posix.hpp"), ("counter under mutex with condition variable", D+"semaphore/semaphore_emulation.hpp")],
 ["return values", "sem_* calls / counter updates"])

prop("C12", "Auto-reset event: each successful wait consumes exactly one signal",
 "For auto_reset_event, every wait() return and every true result of try_wait()/timed_wait()/wait_for()/wait_until() consumes exactly one signal by one indivisible step, and a false result consumes none. "
 "post() on a non-signalled event makes exactly one wait able to complete and on an already signalled event has no effect, so after any history with no blocked waiters at most one further wait can complete without a new post. "
 "This holds for the kernel-futex, semaphore-based and emulated implementations.",
 ["schedules", "histories", "configurations"], "every interleaving of posts and waits from any number of threads, including timeouts racing with posts",
 "event_test.cpp posts once or twice from one thread on Linux; racing posts, timeouts that race with a post and the two other implementations are not exercised.",
 [D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/auto_reset_event_emulation.hpp"],
 [("post/waiter counters in one word", D+"events/auto_reset_event_futex.hpp"), ("state counter + semaphore", D+"events/auto_reset_event_semaphore.hpp"), ("flag under mutex", D+"events/auto_reset_event_emulation.hpp")],
 ["state transitions of the event word", "return values"])

prop("C13", "Manual-reset event: waits complete only while signalled, set/reset are exact",
 "For manual_reset_event, wait() returns and the other waits return true only after observing the event signalled during that call, and never change whether it is signalled; a false result is returned only by try_wait() on a non-signalled event or by a timed wait whose timeout expired. "
 "set() makes it signalled until reset(), reset() makes it non-signalled, neither disturbs threads' registrations, and a new event is non-signalled. "
 "This holds for the futex and the emulated implementation.",
 ["schedules", "histories", "configurations"], "every interleaving of set, reset and waits from any number of threads",
 "event_test.cpp sets before or shortly after one wait; concurrent reset, several waiters and the emulated implementation are not exercised.",
 [D+"events/manual_reset_event_futex.hpp", D+"events/manual_reset_event_emulation.hpp"],
 [("signalled bit + waiter count in one word", D+"events/manual_reset_event_futex.hpp"), ("flag under mutex", D+"events/manual_reset_event_emulation.hpp")],
 ["state transitions of the event word", "return values"])

prop("C14", "Events and emulated primitives never lose a wakeup or leak a waiter",
 "A thread blocks in an event or emulated-semaphore wait only in a way that a post/set performed after the thread last found it non-signalled prevents or ends the blocking, and every post()/set() that makes a signal available while waiters are registered wakes at least one of them (all of them for a manual-reset event). "
 "Each wait registers as a waiter at most once and undoes the registration exactly once on every exit, including timeouts, and the counts involved cannot overflow into one another.",
 ["schedules", "histories", "fault_sequences"], "every interleaving, every native result of the blocking call, up to the maximum number of threads",
 "A lost wakeup needs a post between the last check and the block; a leaked registration only matters after further operations; counter overflow needs over a thousand waiters.",
 [D+"events/auto_reset_event_futex.hpp", D+"events/manual_reset_event_futex.hpp", D+"futex.hpp", D+"events/auto_reset_event_emulation.hpp", D+"events/manual_reset_event_emulation.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"semaphore/semaphore_emulation.hpp"],
 [("futex compare value and waiter counts", D+"events/auto_reset_event_futex.hpp"), ("futex compare value and waiter counts", D+"events/manual_reset_event_futex.hpp"), ("futex_wait / futex_signal / futex_broadcast", D+"futex.hpp")],
 ["futex / condition variable calls and their arguments"])

prop("C15", "A timeout is fixed when the operation starts",
 "For every timed operation (timed mutex, condition variables with and without predicate, semaphores, events) the deadline is determined by its time argument, and for durations by the clock at the start of the call; interruption by signals, spurious or unrelated wakeups and internal retries never restart or extend it. "
 "The deadline handed to the operating system is in the clock and form (absolute or remaining time) that the native call expects, and an already expired or negative timeout never blocks.",
 ["schedules", "fault_sequences", "inputs"], "every timed overload and time type (durations, system and non-system clock time points), every sequence of wakeups and interruptions",
 "Tests let one timeout expire undisturbed; none interrupts a wait or notifies with a false predicate to see the deadline move.",
 [D+"condition_variables/condition_variable_posix.hpp", D+"condition_variables/condition_variable_any_generic.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/manual_reset_event_futex.hpp", D+"semaphore/semaphore_posix.hpp", D+"semaphore/semaphore_emulation.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"events/auto_reset_event_emulation.hpp", D+"events/manual_reset_event_emulation.hpp", D+"futex.hpp", D+"time_units.hpp"],
 [("conversion of durations to absolute time before waiting", D+"condition_variables/condition_variable_posix.hpp"), ("remaining-time recomputation in futex loops", D+"events/auto_reset_event_futex.hpp"), ("chrono_time_point loops", D+"semaphore/semaphore_posix.hpp")],
 ["time values passed to the native blocking calls"])

prop("C16", "Time arguments convert exactly and normalized for all values",
 "Every supported duration (std::chrono and boost::chrono with integer counts, Boost.DateTime) and time point (those and struct timespec) is, wherever its nanosecond count fits in 64 bits, converted to the same instant or length in nanoseconds for positive, zero and negative values alike, and every absolute time handed to the operating system is normalized (0 <= nanoseconds < 10^9). "
 "Adding and subtracting internal time values is exact over that range, including negative results and carries between seconds and nanoseconds.",
 ["inputs"], "all representable time values whose nanosecond count fits in 64 bits, all supported time libraries and periods",
 "Tests use a few positive, small timeouts; negative durations (which blocked for centuries at the pinned commit) and carries are never tried.",
 [D+"time_units.hpp", D+"time_traits.hpp", I+"support/std_chrono.hpp", I+"support/boost_chrono.hpp", I+"support/boost_date_time.hpp", I+"support/posix_time.hpp", D+"futex.hpp"],
 [("to_sync_unit conversions", I+"support/std_chrono.hpp"), ("system_time_point arithmetic", D+"time_units.hpp")],
 ["timespec contents"])

prop("C17", "Interrupted system calls are retried, never surfaced",
 "When a signal interrupts the native call underneath a semaphore, event, mutex or condition variable operation, the operation continues as if nothing happened: it neither returns as if it had succeeded, nor reports a timeout, error or exception, nor fails an assertion because of the interruption (a non-blocking semaphore try may report failure). "
 "The POSIX EINTR workaround, where enabled, covers every wrapped pthread call.",
 ["fault_sequences", "configurations"], "interruption at every native blocking call, any number of times",
 "No test delivers a signal to a blocked thread.",
 [D+"semaphore/semaphore_posix.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/manual_reset_event_futex.hpp", D+"pthread.hpp"],
 [("EINTR cases in the wait loops", D+"semaphore/semaphore_posix.hpp"), ("do/while (ret == EINTR) wrappers", D+"pthread.hpp")],
 ["behaviour after an EINTR result"])

prop("C18", "Native failures raise the documented exception with the native code",
 "A native failure of a mutex lock or try/timed lock raises lock_error, of a condition variable wait raises wait_error, of semaphore construction raises resource_error, and exceeding the semaphore's maximum raises overflow_error, each carrying the native error code, which native_error() and code() return. "
 "Expected outcomes (busy, timeout, interruption, no units) never raise, and an operation that raises has acquired or consumed nothing.",
 ["fault_sequences", "inputs"], "every native call and every error code it may return",
 "Native failures do not occur in any test.",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"semaphore/semaphore_posix.hpp", I+"exceptions/runtime_exception.hpp", I+"exceptions/lock_error.hpp", I+"exceptions/wait_error.hpp", I+"exceptions/resource_error.hpp", I+"exceptions/overflow_error.hpp", D+"throw_exception.hpp"],
 [("BOOST_SYNC_DETAIL_THROW on unexpected native results", D+"mutexes/mutex_posix.hpp"), ("runtime_exception error code", I+"exceptions/runtime_exception.hpp")],
 ["exception type and native_error()"])

prop("C19", "Thread-specific pointers are private per thread and cleaned up exactly once",
 "thread_specific_ptr::get() returns the value most recently installed through the same object by the same thread, or null if none; one object or thread never sees another's value, even when storage keys are reused. "
 "Each installed non-null value that is not released or replaced by itself is passed exactly once to the object's own cleanup function (if any) - on reset with a different value after the new value is installed, when its thread terminates, or when the object is destroyed - and release() hands the value back without cleanup.",
 ["histories", "schedules"], "any number of objects and threads, object creation and destruction in any order, key reuse, thread termination",
 "thread_specific_ptr.cpp uses one object at a time and few threads; key reuse with leftover values, and cleanup racing with destruction are not exercised.",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp", I+"thread_specific/thread_specific_ptr.hpp", D+"tss.hpp"],
 [("per-thread storage vectors indexed by key", "src/tss_manager.hpp"), ("delete_key clears all threads' values before recycling", "src/tss_manager.hpp"), ("get/release/reset", I+"thread_specific/thread_specific_ptr.hpp")],
 ["values returned by get()", "cleanup invocations"])

prop("C20", "Shared thread-specific-storage tables are accessed only under their lock",
 "All bookkeeping shared between threads by the thread-specific storage and thread-exit machinery - the registry of keys and cleanup functions, the recycled keys, the list of thread contexts, and one thread's value table when accessed or restructured while another thread may look at it - is read and written only with the registry's lock held, which is released on every path. "
 "Per-thread data used only by its own thread needs no lock, and the machinery is initialized exactly once before first use.",
 ["schedules"], "every interleaving of thread creation, termination, key creation, key deletion and value installation",
 "A data race on the tables needs a reallocation at the moment another thread exits; tests do not run these operations concurrently and do not run under a race detector.",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp"],
 [("tss_manager::m_mutex", "src/tss_manager.hpp"), ("pthread_once initialization", "src/tss_pthread.cpp")],
 ["accesses to the shared tables"])

prop("C21", "User code is never called with an internal lock held",
 "No user-supplied function - thread-specific cleanup functions, thread-exit callbacks, predicates, or re-acquisition of a user's lock - and no blocking wait is invoked while the library holds one of its internal locks other than the one the wait itself releases, so user code may call back into the library without self-deadlock. "
 "No internal lock is left held when any library function returns or throws.",
 ["programs", "schedules"], "every user callback, every public operation",
 "Self-deadlock shows only if a callback re-enters the library at the right moment; test callbacks only bump counters.",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp", D+"condition_variables/condition_variable_any_generic.hpp", D+"semaphore/semaphore_emulation.hpp", D+"events/auto_reset_event_emulation.hpp", D+"events/manual_reset_event_emulation.hpp"],
 [("lock.unlock() before cleanup calls", "src/tss_manager.hpp"), ("relocker destruction order", D+"condition_variables/condition_variable_any_generic.hpp")],
 ["lock state at callback invocations"])

prop("C22", "Thread exit runs callbacks, then cleanups, then notifications, once each",
 "When a thread that used the library terminates, its registered at-exit functions run exactly once each in reverse order of registration, then the cleanups of its thread-specific values, and only after all of these is each scheduled notify-all performed exactly once, releasing the handed-over mutex before notifying its condition variable. "
 "notify_all_at_thread_exit() keeps the mutex locked without interruption until then and leaves the caller's lock empty; if registration fails with an exception, nothing is scheduled, the mutex does not stay locked, and no function object is leaked or destroyed twice.",
 ["histories", "schedules", "fault_sequences"], "any number and order of registrations, callbacks that register further callbacks, registration failures, both thread-local storage configurations",
 "at_thread_exit.cpp registers one callback; notify_all_at_thread_exit has no test and ordering between the three groups is never observed.",
 ["src/tss_manager.hpp", "src/tss_pthread.cpp", I+"thread_specific/at_thread_exit.hpp", I+"condition_variables/notify_all_at_thread_exit.hpp"],
 [("destroy_thread_context", "src/tss_manager.hpp"), ("tss_cleanup", "src/tss_pthread.cpp"), ("at_thread_exit trampoline", I+"thread_specific/at_thread_exit.hpp")],
 ["order of callback, cleanup, unlock and notify calls"])

prop("C23", "Misuse that the types forbid does not compile, and legal use does",
 "Synchronization primitives and scope guards cannot be copied or moved, lock wrappers can be moved but not copied, condition_variable accepts only lock objects of compatible mutexes, duration-taking functions reject time points and vice versa, and unsupported time types are rejected. "
 "Conversely every documented operation compiles for every primitive and every supported time type, in every supported configuration.",
 ["programs", "configurations"], "every program using the public interface",
 "Run-time tests only contain programs that compile, and instantiate a small part of the interface.",
 [I+"locks/unique_lock.hpp", I+"locks/shared_lock.hpp", I+"locks/upgrade_lock.hpp", I+"mutexes/mutex.hpp", I+"condition_variables/condition_variable.hpp", I+"semaphore.hpp", I+"events/manual_reset_event.hpp", D+"time_traits.hpp", I+"traits/is_condition_variable_compatible.hpp"],
 [("deleted copy operations", D+"mutexes/mutex_posix.hpp"), ("enable_if on time tags and mutex compatibility", D+"condition_variables/condition_variable_posix.hpp")],
 ["compiler acceptance"])

prop("C24", "Statically allocated primitives are usable before dynamic initialization",
 "On platforms with static native initializers and compilers with constexpr constructors (C++11), mutex, timed_mutex, condition_variable and condition_variable_any with static storage duration are constant-initialized, in the unlocked / no-waiter state, so they can be used from any other static initializer in any translation unit.",
 ["programs", "configurations"], "every program and static-initialization order",
 "Initialization order across translation units is not under a test's control, and tests have no global primitives used before main.",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"condition_variables/condition_variable_any_generic.hpp"],
 [("constexpr constructors with static native initializers", D+"mutexes/mutex_posix.hpp")],
 ["initializer emitted for a namespace-scope object"])

prop("C25", "Lock and event operations order memory: release before acquire",
 "Everything a thread wrote before unlock(), unlock_shared(), post() or set() - including a post that finds the event already signalled - is visible to a thread after its matching lock, shared lock or successful wait on spin_mutex, shared_spin_mutex, auto_reset_event or manual_reset_event.",
 ["schedules", "configurations"], "every interleaving and every memory-model-permitted reordering",
 "Tests run on strongly ordered hardware, where a missing acquire or release ordering has no visible effect.",
 [D+"mutexes/spin_mutex.hpp", D+"mutexes/shared_spin_mutex.hpp", D+"events/auto_reset_event_futex.hpp", D+"events/auto_reset_event_semaphore.hpp", D+"events/manual_reset_event_futex.hpp"],
 [("memory_order arguments of the atomic operations", D+"mutexes/spin_mutex.hpp")],
 ["ordering of the atomic operations on each path"])

prop("C26", "Native objects are initialized once before use and destroyed exactly once",
 "Every primitive initializes each native object it contains exactly once, process-private and in its documented initial state, before any use, and its destructor destroys each of them exactly once and nothing else. "
 "A primitive whose construction fails with an exception leaves no native object to be used, and no operation other than the destructor destroys or re-initializes one.",
 ["histories", "fault_sequences", "configurations"], "every construction path, including failing ones, every operation, every configuration",
 "Leaked or doubly destroyed native objects are invisible on Linux, where pthread and semaphore destruction is nearly a no-op.",
 [D+"mutexes/mutex_posix.hpp", D+"mutexes/timed_mutex_posix.hpp", D+"condition_variables/condition_variable_posix.hpp", D+"semaphore/semaphore_posix.hpp"],
 [("constructors and destructors", D+"mutexes/timed_mutex_posix.hpp")],
 ["pthread_*_init/destroy and sem_init/destroy calls"])

prop("N01", "Every blocked thread eventually proceeds (fairness)",
 "A thread blocked on a mutex, spin mutex, semaphore or event that becomes available infinitely often eventually acquires it, regardless of competing threads.",
 ["schedules"], "every fair schedule",
 "Starvation needs unbounded adversarial schedules.",
 [D+"mutexes/spin_mutex.hpp", D+"mutexes/shared_spin_mutex.hpp", D+"events/auto_reset_event_futex.hpp"],
 [("operating system scheduling; spinning with pause", D+"pause.hpp")])

prop("N02", "Timed operations end promptly after their deadline",
 "A timed operation whose deadline passes returns within a small bounded delay of the deadline as measured by the clock its time argument refers to.",
 ["schedules", "inputs"], "all loads, clocks and clock adjustments",
 "Real-time latency depends on the scheduler and clock adjustments, which tests sample on an idle machine.",
 [D+"time_units.hpp", D+"futex.hpp"],
 [("native timed waits", D+"futex.hpp")])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        f.write(json.dumps(p) + "\n")
print(len(P), "properties")
