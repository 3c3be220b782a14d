#!/usr/bin/env python3
# Writes /verif/properties.jsonl (kept as a script so the text stays readable).
import json
D='include/boost/sync/detail/'
I='include/boost/sync/'
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None,state=None):
    a={'files':files,'mechanism':[{'name':n,'where':w} for n,w in mech]}
    if observe: a['observe_at']=observe
    if state: a['state']=[{'name':n,'meaning':m,'where':w} for n,m,w in state]
    a['hook_needed']=None
    P.append(dict(id=id,title=title,statement=statement,quantifier={'over':over,'text':text},why_tests_cant=why,anchors=a))

p('C01','Exclusive locks give mutual exclusion and never strand a waiter',
 'At any moment at most one thread owns an exclusive lock on a given mutex, for every mutex kind (plain, timed, spinning, shared-spinning) and every way of acquiring it (blocking, try, timed). A try operation on a mutex nobody holds or is contending for succeeds, one on a mutex held by another thread fails and leaves it held, and a thread blocked in lock always gets the mutex once the owner has released it.',
 ['schedules','inputs','fault_sequences'],
 'all interleavings of the acquiring, trying, timing-out and releasing threads, spurious weak compare-exchange failures included',
 'mutex_test.cpp runs a handful of single- and two-thread scenarios on whatever schedule the OS happens to pick; a window of two instructions is practically never hit.',
 [D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp',D+'mutexes/mutex_posix.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'pthread.hpp'],
 [('spin_mutex: exchange / store',D+'mutexes/spin_mutex.hpp'),('shared_spin_mutex: CAS unlocked -> locked',D+'mutexes/shared_spin_mutex.hpp'),('mutex/timed_mutex: pthread calls and return-code handling',D+'mutexes/mutex_posix.hpp')],
 ['return of lock/try_lock/timed_lock/try_lock_for/try_lock_until','critical sections'])
p('C02','Reader/writer exclusion of the shared spin mutex',
 'While a thread holds a shared-spinning mutex exclusively no other thread holds it in any mode, and while any thread holds it shared no thread holds it exclusively; any number of shared holders may coexist. Each acquisition is undone by exactly its own release, a shared try fails only when the mutex is exclusively held, and once all conflicting holders have released, a waiting reader or writer gets in.',
 ['schedules'],
 'all interleavings of readers and writers using blocking and try operations, spurious weak compare-exchange failures included',
 'No existing test runs readers and writers of this mutex concurrently at all.',
 [D+'mutexes/shared_spin_mutex.hpp',I+'mutexes/shared_spin_mutex.hpp'],
 [('reader count and writer bit in one word, CAS transitions',D+'mutexes/shared_spin_mutex.hpp')],
 ['critical sections','return of try_lock_shared'],
 [('state','bit 31: writer, bits 0..30: reader count',D+'mutexes/shared_spin_mutex.hpp')])
p('C03','Auto-reset event: one post releases exactly one waiter, none is lost',
 'A post to an auto-reset event lets exactly one wait (blocking, try or timed) complete: one that is blocked if there is one, otherwise the first one that comes later; posting an event that is already signalled adds nothing. No thread stays blocked while the event is signalled, and no wait completes that a post has not paid for.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of posting and waiting threads, signal interruptions and spurious wake-ups of the kernel wait, and all single-thread operation histories',
 'event_test.cpp uses two threads and sleeps; the races between a post, a thread entering or leaving the kernel wait, and another post need particular interleavings.',
 [D+'events/auto_reset_event_futex.hpp',D+'futex.hpp',I+'events/auto_reset_event.hpp'],
 [('post and waiter counts in one word; futex wait/wake',D+'events/auto_reset_event_futex.hpp')],
 ['return of wait/try_wait/timed_wait','threads blocked at quiescence'],
 [('m_state','post count (high bits) and waiter count (low bits)',D+'events/auto_reset_event_futex.hpp')])
p('C04','Manual-reset event: set releases every waiter and stays set until reset',
 'Once a manual-reset event is set it stays signalled until reset: every thread blocked on it is released if it is not reset, and every wait that starts while it is set returns at once without consuming the signal. A wait never completes on an event that has not been set since its last reset, and setting a set event or resetting a reset one changes nothing.',
 ['schedules','histories','fault_sequences'],
 'all interleavings of setting, resetting and waiting threads, signal interruptions and spurious wake-ups, and all single-thread operation histories',
 'The event tests release one or a few threads on one schedule; a waiter going to sleep between the flag change and the wake-up is not reachable on demand.',
 [D+'events/manual_reset_event_futex.hpp',D+'futex.hpp',I+'events/manual_reset_event.hpp'],
 [('signalled bit and waiter count in one word; futex broadcast',D+'events/manual_reset_event_futex.hpp')],
 ['return of wait/try_wait/timed_wait','threads blocked at quiescence'],
 [('m_state','bit 0: signalled, other bits: waiter count',D+'events/manual_reset_event_futex.hpp')])
p('C05','Semaphore conserves its count',
 'The number of waits that have completed on a semaphore never exceeds its initial count plus the posts made, and whenever a unit is available a waiting thread gets it. A try fails only when no unit is available, interruption by a signal neither consumes nor creates a unit and never makes a wait return early, and every count from zero to the largest supported is usable, exceeding it being reported as an overflow error without changing the count.',
 ['schedules','inputs','fault_sequences','histories'],
 'all initial counts, all interleavings of posts and waits, and all sequences of signal interruptions and OS results',
 'semaphore_test.cpp never interrupts a wait with a signal, never approaches the maximum count and samples a couple of schedules.',
 [D+'semaphore/semaphore_posix.hpp',D+'semaphore_config.hpp',I+'semaphore.hpp'],
 [('sem_* calls and errno dispatch',D+'semaphore/semaphore_posix.hpp')],
 ['return of wait/try_wait/timed_wait/post'])
p('C06','Everything written before a release is visible after the matching acquire',
 'Whatever a thread wrote before unlocking a mutex, posting or setting an event, or posting a semaphore can be read, without a data race, by the thread that subsequently acquires that mutex or whose wait on that event or semaphore completes because the signal was there; likewise reads made under a shared lock finish before a later exclusive owner writes. This holds on every path: fast, contended, blocking, try and timed, and also when the post found the event already signalled.',
 ['schedules','configurations'],
 'all interleavings; judged by the C++ happens-before relation for the declared memory orders, independently of the hardware',
 'x86 hardware hides missing acquire/release ordering, so no test run on it can notice a wrong memory order.',
 [D+'mutexes/spin_mutex.hpp',D+'mutexes/shared_spin_mutex.hpp',D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'events/auto_reset_event_semaphore.hpp',D+'atomic.hpp'],
 [('memory orders of the atomic operations',D+'events/auto_reset_event_futex.hpp')],
 ['client data accessed around the operations'])
p('C07','Condition variables lose no notification and always return with the lock held',
 'A wait on a condition variable (for one mutex type or for any lockable) releases the lock and blocks atomically with respect to notification: a notification issued after the waiter released the lock reaches a blocked waiter, and notifying all reaches all of them. Whenever a wait returns or throws, the lock is held again and the lock object says so; the predicate forms return only when the predicate, evaluated under the lock, is true, or at the timeout with its current value.',
 ['schedules','inputs','fault_sequences'],
 'all interleavings of waiters and notifiers, spurious wake-ups, timeouts, OS errors and predicate outcomes',
 'The tests wait for one notification with sleeps; the windows between unlocking and blocking, and a timeout racing with a notification, are not forced.',
 [D+'condition_variables/condition_variable_posix.hpp',D+'condition_variables/condition_variable_any_generic.hpp'],
 [('internal mutex taken before the user lock is released',D+'condition_variables/condition_variable_any_generic.hpp'),('predicate loops',D+'condition_variables/condition_variable_posix.hpp')],
 ['return of every wait overload','owns_lock() after return or throw'])
p('C08','Timed operations time out neither early nor late',
 'A timed operation on any primitive (mutex, semaphore, event, condition variable), with a duration or a time point of any supported time library and clock, reports a timeout only after the requested deadline has passed on that clock, and never goes on blocking after it, however often it is interrupted or woken in between. A deadline already passed or a zero or negative duration never blocks, and an operation that can succeed at once succeeds whatever its deadline. (Durations and deadlines within the range that the clock represents in nanoseconds; clocks that are not set back during the wait.)',
 ['inputs','fault_sequences','histories'],
 'all deadlines and durations (negative, zero, huge, any sub-second part), all clock readings and all sequences of interruptions, spurious wake-ups and timer expiries',
 'The tests use one or two round durations with slack of hundreds of milliseconds and no interruptions.',
 [D+'mutexes/timed_mutex_posix.hpp',D+'semaphore/semaphore_posix.hpp',D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'condition_variables/condition_variable_posix.hpp',D+'condition_variables/condition_variable_any_generic.hpp',D+'time_units.hpp'],
 [('deadline arithmetic and re-arming of the wait',D+'time_units.hpp')],
 ['deadline passed to the OS wait','result together with the clock'])
p('C09','Time values convert exactly and stay normalised',
 'Every duration and time point of a supported time library (standard chrono, Boost.Chrono, Boost.DateTime, POSIX timespec), of any period and any sign, is turned into the deadline given to the operating system without losing, adding or wrapping time whenever the value is representable in nanoseconds, with the sub-second part always in range. Adding and subtracting durations to and from time points is exact, so that (t + d) - t = d and (t + d) - d = t.',
 ['inputs'],
 'all representable durations and time points, including negative ones and those with any sub-second part',
 'The tests convert a few positive round values.',
 [D+'time_units.hpp',I+'support/std_chrono.hpp',I+'support/boost_chrono.hpp',I+'support/boost_date_time.hpp',I+'support/posix_time.hpp',D+'futex.hpp'],
 [('system_duration / system_time_point arithmetic',D+'time_units.hpp'),('time_traits specialisations',I+'support/std_chrono.hpp')],
 ['timespec passed to the OS'])
p('C10','Lock objects report ownership truthfully and release exactly once',
 'A unique, shared or upgrade lock object says it owns its mutex exactly when it does: in every sequence of construction (locking, deferred, adopting, trying, timed), lock, try, timed lock, unlock, release, swap, move and destruction, each acquisition made through it is released exactly once, in the same mode, unless ownership was given away. Locking what is already owned, unlocking what is not, or using an object without a mutex throws a lock error with the documented error code and changes nothing.',
 ['histories','inputs','fault_sequences'],
 'all operation sequences on lock objects, with all outcomes (success, failure, exception) of the underlying mutex',
 'No test covers the lock objects beyond simple use; the histories are unbounded.',
 [I+'locks/unique_lock.hpp',I+'locks/shared_lock.hpp',I+'locks/upgrade_lock.hpp'],
 [('pointer and ownership flag',I+'locks/unique_lock.hpp')],
 ['calls made on the mutex','owns_lock(), mutex()'])
p('C11','Moving and converting locks conserves ownership',
 'Moving or swapping lock objects, and converting between unique, shared and upgrade locks, transfers ownership without duplicating or dropping it: afterwards exactly one object is responsible for the mutex, in the mode of the destination, and the mutex never becomes unlocked in between. If a trying or timed conversion fails or a conversion throws, the source keeps its ownership and the destination owns nothing.',
 ['histories','inputs','fault_sequences'],
 'all source states, all outcomes of the mutex-level conversion (success, failure, exception) and all chains of conversions',
 'No existing test instantiates the conversions.',
 [I+'locks/unique_lock.hpp',I+'locks/shared_lock.hpp',I+'locks/upgrade_lock.hpp'],
 [('converting constructors and assignments',I+'locks/unique_lock.hpp')],
 ['calls made on the mutex','state of both lock objects'])
p('C12','Scoped guards acquire and release exactly once on every exit path',
 'A scoped lock guard acquires its mutex once on construction (unless told to adopt it) and releases it once, in the same mode, when the scope is left in any way, including by exception; the scoped unlock guard does the reverse. If the acquisition itself throws, nothing is released.',
 ['inputs','fault_sequences'],
 'all exit paths and all outcomes of the mutex operations, in nested use',
 'Tests only leave scopes normally and never let the mutex operation fail.',
 [I+'locks/lock_guard.hpp',I+'locks/shared_lock_guard.hpp',I+'locks/unlock_guard.hpp',D+'pthread_mutex_locks.hpp'],
 [('constructor/destructor pairing',I+'locks/lock_guard.hpp')],
 ['calls made on the mutex'])
p('C13','Operating-system failures are reported as the right exception and change nothing',
 'When the operating system refuses to create a primitive, to lock a mutex, to wait or to increase a semaphore further (an error a correct program can meet, not one that only an already destroyed or corrupted primitive produces), the operation throws the library exception for that kind of failure (resource error, lock error, wait error, overflow error), carrying the native error code and derived from the common runtime exception; it neither reports success nor silently ignores the failure. The primitive and any lock object involved stay as they were, so nothing is owned or consumed that was not before.',
 ['fault_sequences','inputs'],
 'every error code at every operating-system call the operations make',
 'The tests cannot make the OS calls fail.',
 [D+'mutexes/mutex_posix.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'semaphore/semaphore_posix.hpp',D+'condition_variables/condition_variable_posix.hpp',I+'exceptions/lock_error.hpp',I+'exceptions/resource_error.hpp',I+'exceptions/wait_error.hpp',I+'exceptions/overflow_error.hpp',I+'exceptions/runtime_exception.hpp',D+'throw_exception.hpp'],
 [('return-code checks and exception types',D+'mutexes/mutex_posix.hpp')],
 ['exception type and native_error()'])
p('C14','Thread-specific pointers are private to a thread and start out null',
 'Every thread-specific pointer has an independent value in each thread: null until that thread sets it, then exactly what that thread last set or released, whatever other threads and other pointers do. A pointer created after others were destroyed starts out null in every thread and never sees a value of an earlier pointer.',
 ['histories','schedules'],
 'all sequences of creating, setting, reading, releasing and destroying several pointers in several threads',
 'The tests use one pointer and a couple of threads; recycling of slots is not exercised.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'thread_specific/thread_specific_ptr.hpp'],
 [('slot allocation and recycling, per-thread storage vectors','src/tss_manager.hpp')],
 ['get(), release()'],
 [('m_storage','values of one thread by slot','src/tss_manager.hpp'),('m_freed_keys','slots available for reuse','src/tss_manager.hpp')])
p('C15','Thread-specific values are cleaned up exactly once',
 'Every value stored in a thread-specific pointer and not released is passed to that pointer\'s own cleanup function exactly once: when it is replaced by a different value, when its thread ends, or when the pointer is destroyed, whichever comes first; released and null values never are. This includes values set by cleanup functions and exit callbacks that run while the thread is ending, and values left in several threads when the pointer is destroyed.',
 ['histories'],
 'all sequences of set, reset, release, thread end and pointer destruction over several threads and pointers',
 'The tests check a single value in a single order of events.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'thread_specific/thread_specific_ptr.hpp'],
 [('cleanup at thread end and at key deletion','src/tss_manager.hpp')],
 ['calls of the cleanup function'])
p('C16','Thread-exit functions run exactly once, in reverse order, before values die',
 'Every function registered to run at thread exit is called exactly once, by the thread that registered it, when that thread ends, in reverse order of registration, including functions registered by such functions (these run once each, later than the one that registers them; their order relative to functions registered before the end of the thread is not specified); its copy is destroyed afterwards. Thread-specific values of the thread are still accessible while they run, and a failed registration throws and leaves nothing registered or leaked.',
 ['histories','fault_sequences'],
 'all registration sequences over several threads, registrations made while exiting, and allocation failures',
 'The test registers a couple of functions in one thread.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'thread_specific/at_thread_exit.hpp'],
 [('at-exit list run from the pthread key destructor','src/tss_manager.hpp')],
 ['calls of the registered functions'])
p('C17','Notification at thread exit comes last, with the mutex held until then',
 'After a thread arranges a notification at its exit, the mutex it handed over stays locked until the thread has run its exit functions and destroyed its thread-specific values, is then unlocked exactly once, and all threads blocked on the condition variable are notified exactly once per request. The lock object passed in no longer owns the mutex, and requests of different threads do not affect each other.',
 ['schedules','histories'],
 'all sequences of requests, exit functions and thread-specific values, and all interleavings with waiting threads',
 'No existing test covers it.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp',I+'condition_variables/notify_all_at_thread_exit.hpp'],
 [('notification list processed after storage','src/tss_manager.hpp')],
 ['order of cleanup calls, unlock and notification'])
p('C18','Thread-specific storage is free of data races and memory errors',
 'Threads may create, use and destroy different thread-specific pointers, register exit functions and end at the same time without any data race on the library\'s bookkeeping, without accessing freed memory and without leaking what they stored. The bookkeeping of a finished thread is freed exactly once.',
 ['schedules','histories'],
 'all interleavings of the library\'s internal locking for concurrent creation, use, destruction and thread end',
 'The tests never create or destroy a pointer while other threads use others.',
 ['src/tss_manager.hpp','src/tss_pthread.cpp'],
 [('manager mutex around the shared tables','src/tss_manager.hpp')],
 ['accesses to shared bookkeeping, heap'])
p('C19','A timeout racing with a signal loses neither',
 'When a timed wait on an event or semaphore or a timed lock expires at the moment it is signalled, either the wait reports success and has consumed the signal, or it reports a timeout and the signal is still there for the next waiter; it is never lost, duplicated or left blocking somebody else. After a timed-out wait the primitive behaves as if that wait had never been made.',
 ['schedules','fault_sequences'],
 'all interleavings of timed waiters, other waiters and posters in which any kernel wait may time out, be interrupted or be woken',
 'The race window is a few instructions wide; the tests keep timeouts and posts far apart.',
 [D+'events/auto_reset_event_futex.hpp',D+'events/manual_reset_event_futex.hpp',D+'semaphore/semaphore_posix.hpp',D+'mutexes/timed_mutex_posix.hpp'],
 [('de-registration of a timed-out waiter',D+'events/auto_reset_event_futex.hpp')],
 ['results of all waits at quiescence'])
p('C20','The portable fallback implementations honour the same contracts',
 'When the library is built for plain POSIX threads, without native timed mutexes, semaphores or futexes, its events, semaphore and timed mutex give the same guarantees as the native ones: mutual exclusion, one release per post, sticky set, conserved count, no lost wake-up, no early timeout, and recovery from interrupted system calls where the platform is known to return them.',
 ['configurations','schedules','fault_sequences'],
 'the supported POSIX configurations and, within each, all interleavings and wait outcomes',
 'The tests are built for one configuration only.',
 [D+'events/auto_reset_event_semaphore.hpp',D+'events/auto_reset_event_emulation.hpp',D+'events/manual_reset_event_emulation.hpp',D+'semaphore/semaphore_emulation.hpp',D+'mutexes/timed_mutex_posix.hpp',D+'pthread.hpp',D+'pthread_mutex_locks.hpp'],
 [('mutex + condition variable emulations',D+'events/auto_reset_event_emulation.hpp')],
 ['results of all operations at quiescence'])
open('/verif/properties.jsonl','w').write(''.join(json.dumps(x)+'\n' for x in P))
for x in P:
    assert len(x['title'])<=80,(x['id'],len(x['title']))
print(len(P))
