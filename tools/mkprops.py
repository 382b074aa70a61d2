#!/usr/bin/env python3
"""Writes properties.jsonl (kept as a generator so that titles and anchors stay in one place)."""
import json, os
P = []


def p(id, title, statement, over, text, why, files, mech, state=(), observe=()):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
                  anchors=dict(files=files, state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
                               mechanism=[dict(name=a, where=b) for a, b in mech], observe_at=list(observe), hook_needed=None)))


INC = 'include/boost/fiber/'
p('P01', 'Mutexes give mutual exclusion and recursive locks count exactly',
  'At most one fiber owns a mutex at any time: it becomes owned only from the free state, by the fiber that locks it, and free only by '
  'the unlock of its owner; for the recursive kinds, only by the unlock that matches the first lock. A locking operation reports success '
  'exactly when the caller gained ownership.',
  ['schedules', 'histories'], 'every interleaving of lock, try_lock, timed try_lock and unlock by fibers of any number of threads, on all four mutex types',
  'Tests run a few fibers on few schedules; the critical windows between queueing, unlocking and re-checking are not steerable from a test.',
  ['src/mutex.cpp', 'src/timed_mutex.cpp', 'src/recursive_mutex.cpp', 'src/recursive_timed_mutex.cpp'],
  [('owner tested and set in one critical section of the object\'s spinlock', 'src/*mutex.cpp: lock, try_lock, unlock, try_lock_until_')],
  [('owner_', 'fiber that owns the mutex', INC + 'mutex.hpp'), ('count_', 'recursion depth', INC + 'recursive_mutex.hpp')])
p('P02', 'Misused mutexes raise the documented error and change nothing',
  'Locking a non-recursive mutex its caller already owns raises a lock error with code resource_deadlock_would_occur, unlocking a mutex '
  'its caller does not own raises one with code operation_not_permitted, and a refused operation leaves ownership and recursion depth untouched.',
  ['inputs', 'histories'], 'every mutex type, every operation, every ownership state',
  'Tests try one wrong call per type; they cannot show that no path forgets the check or changes state before raising.',
  ['src/mutex.cpp', 'src/timed_mutex.cpp', 'src/recursive_mutex.cpp', 'src/recursive_timed_mutex.cpp'],
  [('owner comparison before any state change', 'src/*mutex.cpp')])
p('P03', 'Unlocking a mutex never strands a waiting fiber',
  'A fiber blocks on a mutex only after having seen it owned, in the same step in which it becomes visible to the unlocking fiber; every '
  'unlock that frees the mutex resumes a waiting fiber if there is one, and the resumed fiber competes again for the mutex.',
  ['schedules'], 'every interleaving of blocking and unlocking fibers on one or several threads',
  'A lost wake-up needs an unlock between two instructions of a blocking fiber; tests hit that window only by luck.',
  ['src/mutex.cpp', 'src/timed_mutex.cpp', 'src/recursive_mutex.cpp', 'src/recursive_timed_mutex.cpp', 'src/waker.cpp'],
  [('queueing under the spinlock that guards the owner', 'src/*mutex.cpp'), ('notify_one in the critical section that clears the owner', 'src/*mutex.cpp')])
p('P04', 'Every notification reaches a waiting fiber, in arrival order',
  'Blocked fibers are resumed in the order in which they blocked; notifying one resumes a fiber that is really still waiting if there is '
  'any, notifying all resumes every one. A waiter that gives up at its deadline disappears from the queue before it returns and never '
  'swallows a notification that other waiters could have used.',
  ['schedules', 'histories'], 'every interleaving of blocking, expiring and notifying fibers on any number of threads',
  'The races between expiry and notification last nanoseconds and their loss shows as a hang; no test forces them.',
  ['src/waker.cpp', INC + 'waker.hpp'],
  [('intrusive FIFO of wakers on the blocked fibers\' stacks', 'src/waker.cpp'), ('relock, unlink or hand over on expiry', 'src/waker.cpp:suspend_and_wait_until')],
  [('slist_', 'queued wakers', INC + 'waker.hpp')])
p('P05', 'A blocked fiber is woken exactly once per wait',
  'However many parties (notifier, deadline, another thread) try to wake one blocked fiber for one wait, exactly one succeeds and makes it '
  'ready once; attempts belonging to an earlier wait have no effect on a later one, and a successful attempt always makes the fiber ready on '
  'the scheduler it belongs to.',
  ['schedules'], 'every interleaving of concurrent wake attempts and new waits',
  'Double wake-ups corrupt intrusive queues only under cross-thread races that the tests do not control.',
  ['src/context.cpp', INC + 'context.hpp', 'src/waker.cpp'],
  [('wake epoch claimed by compare-and-exchange', 'src/context.cpp:wake'), ('new waker outdates older ones', INC + 'context.hpp:create_waker')],
  [('waker_epoch_', 'generation of the current wait', INC + 'context.hpp')])
p('P06', 'A fiber can be resumed only after it is completely suspended',
  'When a fiber blocks, yields or hands over to another one, no other thread can resume it, and no lock protecting its wait is released, '
  'before its execution state has been saved; the lock it gave up is released exactly once, and the running fiber is always the one '
  'reported as active.',
  ['schedules'], 'every context switch: plain suspension, suspension releasing a lock, suspension requeueing a fiber, termination',
  'Resuming a half-saved fiber needs another thread to win a window of a few instructions during the switch.',
  ['src/context.cpp'], [('work done on the target stack after the switch', 'src/context.cpp:resume, suspend_with_cc')],
  [('active_', 'running context of the thread', 'src/context.cpp'), ('c_', 'saved stack of a suspended context', INC + 'context.hpp')])
p('P07', 'Condition variables wait atomically and return with the lock held',
  'Waiting on a condition variable releases the caller\'s lock only after the fiber is registered, so no notification after the release is '
  'missed, and re-acquires it before returning on every path, timeout included. Predicate waits return only with the predicate checked under '
  'the lock and its value reported; a plain timed wait reports a timeout exactly when the deadline ended it.',
  ['schedules', 'inputs'], 'every lock type, predicate, deadline and interleaving with notifiers',
  'Tests use one lock type and friendly schedules; throwing locks and predicates and expiry races are not sampled.',
  [INC + 'condition_variable.hpp', 'src/condition_variable.cpp'],
  [('registration under the internal spinlock before the external unlock', INC + 'condition_variable.hpp:wait')])
p('P08', 'A barrier releases all participants of a round together, and only then',
  'No fiber passes a barrier of n before n fibers have arrived in the same round; exactly one of the n is told it was the last, all others are '
  'resumed, and the barrier is immediately reusable for the next round. A barrier for zero fibers is refused.',
  ['schedules', 'inputs'], 'every initial count, number of rounds and interleaving of arrivals with fibers still leaving the previous round',
  'Round overlap (a fast fiber re-arriving before a slow one has left) needs a specific schedule.',
  ['src/barrier.cpp', INC + 'barrier.hpp'], [('round counter tested by the waiters', 'src/barrier.cpp:wait')],
  [('current_', 'fibers still missing', INC + 'barrier.hpp'), ('cycle_', 'round number', INC + 'barrier.hpp')])
p('P09', 'A buffered channel delivers every accepted value once, in order, within capacity',
  'Values accepted by a buffered channel are received exactly once and in the order in which they were accepted; no accepted value is '
  'overwritten before it was received, nothing is received from an empty channel, and a channel of capacity n holds at most n-1 values. '
  'Capacities below two or not a power of two are refused.',
  ['schedules', 'inputs', 'histories'], 'every capacity, fill level, wrap-around position and interleaving of producers and consumers',
  'Off-by-one errors at the wrap-around or a full ring show only at particular fill levels and capacities.',
  [INC + 'buffered_channel.hpp'], [('ring indices moved under one lock', INC + 'buffered_channel.hpp')],
  [('pidx_', 'next slot to fill', INC + 'buffered_channel.hpp'), ('cidx_', 'next slot to drain', INC + 'buffered_channel.hpp')])
p('P10', 'Buffered channel operations block, wake and report as documented',
  'A push blocks only while the channel is full and open, a pop only while it is empty and open; each value stored resumes a waiting consumer, '
  'each slot freed a waiting producer, closing resumes everybody. After closing, pushes report closed and pops drain what is left; '
  'success, full, empty, closed and timeout are reported exactly in those situations, and a failed push leaves its argument untouched.',
  ['schedules', 'histories'], 'every interleaving of producers, consumers, expiring waits and close, on any number of threads',
  'Lost wake-ups between a full/empty test and blocking, and close racing with blocking, are not reachable on demand.',
  [INC + 'buffered_channel.hpp'], [('tests, queueing and notification in one critical section', INC + 'buffered_channel.hpp')],
  [('closed_', 'channel closed', INC + 'buffered_channel.hpp')])
p('P11', 'An unbuffered channel hands each value over in a rendezvous',
  'A push on an unbuffered channel returns success only once a consumer has taken the value, each value is taken by exactly one consumer, '
  'and a fiber blocks only when no partner is waiting. Closing resumes every blocked producer and consumer, later pushes and pops report closed, '
  'and a value that was not taken when its push is reported closed or timed out is never taken afterwards.',
  ['schedules', 'histories'], 'every interleaving of producers, consumers, expiring waits and close, on any number of threads',
  'The hand-over is a lock-free protocol between stacks of different threads; tests run it mostly on one thread.',
  [INC + 'unbuffered_channel.hpp'], [('slot claimed by compare-and-exchange; producer woken by epoch', INC + 'unbuffered_channel.hpp')],
  [('slot_', 'value on offer, on its producer\'s stack', INC + 'unbuffered_channel.hpp')])
p('P12', 'Channel iteration yields each value once and destroys each value once',
  'Iterating over a channel visits the received values one after the other and becomes equal to the end iterator when the channel is closed and '
  'drained; every value received by an iterator is destroyed exactly once, whatever the element type.',
  ['inputs', 'histories'], 'every element type (including ones whose operations throw) and every length of iteration',
  'Tests iterate over int, for which a second destruction is invisible.',
  [INC + 'buffered_channel.hpp', INC + 'unbuffered_channel.hpp'], [('iterator storage', 'iterator::operator++, increment_')])
p('P13', 'A shared state is satisfied at most once and wakes everybody who waits for it',
  'A promise or task result is stored at most once, as a value or an exception, completely before it is announced as ready; every fiber waiting '
  'at that moment is resumed and every later wait returns at once, and a second attempt to satisfy it is refused with an error leaving the first '
  'result in place.',
  ['schedules', 'inputs'], 'every result type (value, reference, void), throwing copies and moves, every interleaving of setters and waiters',
  'Tests satisfy a state before or after one waiter; throwing result types and racing setters are not sampled.',
  [INC + 'future/detail/shared_state.hpp'], [('ready flag set under the state\'s mutex after construction, then notify', 'mark_ready_and_notify_')],
  [('ready_', 'result available', INC + 'future/detail/shared_state.hpp')])
p('P14', 'Abandoned promises and tasks fail their future with broken_promise',
  'When the last owner of an unsatisfied promise or packaged task gives it up - by destruction, assignment or reset - after its future was '
  'retrieved, waiters are resumed and obtain a broken_promise error; a result already stored is never replaced, and operations on a promise, '
  'task or future without state raise the documented error.',
  ['inputs', 'histories'], 'every way of giving up a promise or packaged task, in every state of satisfaction and retrieval',
  'Tests cover destruction only; reset, move assignment and swap in each state are a matrix they do not span.',
  [INC + 'future/promise.hpp', INC + 'future/packaged_task.hpp', INC + 'future/detail/shared_state.hpp'],
  [('owner_destroyed on every release of an obtained state', 'promise, packaged_task destructors, assignments, reset')])
p('P15', 'Futures deliver the stored result once; shared futures as often as asked',
  'get on a future returns the stored value or raises the stored exception and leaves the future invalid; on a shared future it can be repeated '
  'and copies share one result. A promise or task hands out at most one future, moved-from futures are invalid, wait never consumes the result, '
  'and timed waits report ready exactly when the result was available.',
  ['inputs', 'histories'], 'every result type and every order of get, wait, share, move, copy and timed wait',
  'The state matrix of valid/invalid, ready/pending, moved/shared is sampled, not covered, by tests.',
  [INC + 'future/future.hpp', INC + 'future/detail/shared_state.hpp', INC + 'future/promise.hpp'],
  [('state released by get through a temporary', 'future<R>::get'), ('obtained flag', 'promise_base::get_future')])
p('P16', 'Packaged tasks and async deliver the callable\'s outcome',
  'Running a packaged task calls the stored function exactly once with the given arguments and delivers its result, or any exception it throws, '
  'to the associated future; running it twice is refused, reset yields a fresh task with the same function, and async runs the function in a new '
  'fiber of the requested launch policy whose outcome reaches the returned future.',
  ['inputs', 'histories'], 'every callable, argument, result type and exception, every allocator and launch policy',
  'Throwing callables and throwing result types at each step of storing the result are not sampled.',
  [INC + 'future/packaged_task.hpp', INC + 'future/detail/task_object.hpp', INC + 'future/async.hpp'],
  [('outcome caught and stored', 'task_object::run')])
p('P17', 'Fiber handles enforce join-or-detach',
  'Destroying or assigning over a joinable fiber handle terminates the program; joining or detaching leaves the handle not joinable, '
  'joining oneself raises resource_deadlock_would_occur and joining or detaching an empty handle raises invalid_argument, in both cases without '
  'changing the handle. Moves and swaps transfer the fiber and never duplicate or drop it.',
  ['inputs', 'histories'], 'every handle state and operation order',
  'Program termination and error precedence in every state cannot be enumerated by in-process tests.',
  [INC + 'fiber.hpp', 'src/fiber.cpp'], [('joinable check', 'fiber::~fiber, operator=, join, detach')],
  [('impl_', 'referenced fiber', INC + 'fiber.hpp')])
p('P18', 'Joining returns exactly when the fiber has terminated',
  'join blocks until the joined fiber has finished and always returns after it has, no matter whether the fiber finishes before, during or after '
  'the call and on which thread; a terminating fiber announces its end, resumes every joiner, destroys its callable, arguments and fiber-local data, '
  'and never runs again.',
  ['schedules'], 'every interleaving of join and termination, several joiners, fibers migrated between threads',
  'The window between the terminated test and blocking is not reachable from a test.',
  ['src/context.cpp', INC + 'context.hpp', 'src/scheduler.cpp'], [('terminated flag and joiner queue under one lock', 'context::join, context::terminate')],
  [('terminated_', 'fiber has finished', INC + 'context.hpp')])
p('P19', 'Control blocks and shared states live exactly as long as they are referenced',
  'A fiber\'s control block and stack, a shared state, a cleanup object and a scheduling algorithm are destroyed exactly once, when the last reference goes away, with '
  'everything done through earlier references visible to the destroyer; a fiber is reclaimed only off its own stack.',
  ['schedules', 'histories'], 'every interleaving of reference copies and releases on any number of threads',
  'Reference-count races and missing memory ordering do not show on the x86 hosts and schedules that tests use.',
  [INC + 'context.hpp', INC + 'future/detail/shared_state.hpp', INC + 'fss.hpp', INC + 'algo/algorithm.hpp', INC + 'detail/fss.hpp', 'src/algo/algorithm.cpp', 'src/scheduler.cpp'],
  [('atomic counters', 'intrusive_ptr_add_ref / intrusive_ptr_release'), ('terminated queue drained by the dispatcher', 'scheduler::release_terminated_')])
p('P20', 'The scheduler runs every ready fiber and loses none',
  'A fiber made ready, locally or from another thread, is handed to the scheduling algorithm exactly once and leaves the sleep queue; yield keeps '
  'the yielding fiber ready, suspension does not. The dispatcher keeps moving remotely readied fibers and expired sleepers to the ready queue, runs '
  'whatever is ready, and goes idle only when nothing is, until the next deadline.',
  ['schedules', 'histories'], 'every order of local and remote readying, sleeping, yielding and terminating',
  'Stranded or doubly queued fibers appear only under rare cross-thread interleavings or queue states.',
  ['src/scheduler.cpp'], [('single dispatch loop per thread', 'scheduler::dispatch'), ('remote ready queue behind a lock', 'schedule_from_remote, remote_ready2ready_')],
  [('remote_ready_queue_', 'fibers readied by other threads', INC + 'scheduler.hpp'), ('sleep_queue_', 'fibers with deadline', INC + 'scheduler.hpp')])
p('P21', 'Sleeping and timed waits end at the deadline or on wake-up, never earlier',
  'A fiber sleeping or waiting with a deadline is registered under exactly that deadline, is resumed by the scheduler once the deadline has passed, '
  'not before unless notified, and in order of deadlines; deadlines on other clocks are converted keeping the remaining duration, and timed operations '
  'accept any clock.',
  ['inputs', 'schedules'], 'every deadline, clock and order of sleepers',
  'Ordering and equality cases of deadlines and foreign clocks are barely sampled.',
  ['src/scheduler.cpp', INC + 'operations.hpp', INC + 'detail/convert.hpp', INC + 'scheduler.hpp'],
  [('sleep set ordered by time point', 'scheduler.hpp:sleep_queue_type'), ('expired prefix moved by the dispatcher', 'scheduler::sleep2ready_')])
p('P22', 'An idle thread is always woken by work from another thread',
  'A scheduler that goes idle wakes up when a fiber is readied for it from another thread, even if that happens just before or while it goes idle, '
  'and at the latest at the deadline it was given; it does not return to sleep over a pending notification.',
  ['schedules'], 'every interleaving of going idle and remote notification, for every bundled algorithm',
  'A missed notification needs the notifier to run between the last queue check and the wait.',
  ['src/algo/round_robin.cpp', 'src/algo/work_stealing.cpp', 'src/algo/shared_work.cpp', 'src/scheduler.cpp'],
  [('flag set and tested under the mutex of the condition variable', 'suspend_until, notify')], [('flag_', 'pending notification', INC + 'algo/*.hpp')])
p('P23', 'A thread\'s fiber runtime starts and stops cleanly',
  'The first fiber operation on a thread sets up its main fiber, scheduler and dispatcher exactly once; at thread exit the dispatcher keeps running until no '
  'worker fiber is left, then everything is released once, the dispatcher before the scheduler that it uses. Installing a scheduling algorithm later carries over '
  'every ready fiber.',
  ['histories', 'programs'], 'every program: threads with fibers still pending at exit, algorithms installed at any time',
  'Teardown order and algorithm replacement with pending fibers are outside the unit tests.',
  ['src/context.cpp', 'src/scheduler.cpp', INC + 'operations.hpp'], [('counted thread-local initializer', 'context_initializer'), ('shutdown flag', 'scheduler::~scheduler, dispatch')])
p('P24', 'Bundled algorithms return each ready fiber once and never migrate pinned ones',
  'Each bundled algorithm returns every fiber it was given exactly once, in FIFO order for its local queue, reports ready fibers truthfully and returns nothing '
  'when it has none. Main and dispatcher fibers never leave their thread; a fiber moved to another thread is detached from the old scheduler before it is shared and '
  'attached to the new one before it runs.',
  ['schedules', 'histories'], 'every order of readying and picking on any number of threads, for round robin, work sharing and work stealing',
  'Migration races need several threads at specific points; tests use the default algorithm almost exclusively.',
  ['src/algo/round_robin.cpp', 'src/algo/work_stealing.cpp', 'src/algo/shared_work.cpp', 'src/numa/algo/work_stealing.cpp'],
  [('ready queues', 'algo::*::awakened, pick_next, steal, has_ready_fibers')])
p('P25', 'The work-stealing queue neither loses nor duplicates fibers',
  'A fiber pushed to a work-stealing queue by its owner is obtained exactly once, by the owner\'s pop or by one thief\'s steal, also while the queue grows, and '
  'thieves see a pushed fiber only completely and look at it only while it is queued or their own; main and dispatcher fibers found by a thief stay in the queue.',
  ['schedules'], 'every interleaving of one owner pushing and popping with any number of thieves, at every fill level',
  'The lock-free races are on single atomic operations and depend on memory ordering.',
  [INC + 'detail/context_spmc_queue.hpp', INC + 'detail/context_spinlock_queue.hpp'],
  [('Chase-Lev deque with compare-and-exchange on the top', INC + 'detail/context_spmc_queue.hpp')],
  [('top_', 'next element for thieves', INC + 'detail/context_spmc_queue.hpp'), ('bottom_', 'next free slot', INC + 'detail/context_spmc_queue.hpp')])
p('P26', 'Every spinlock variant excludes, publishes and wakes',
  'Whatever spinlock variant is configured, lock and a successful try_lock are obtained only by atomically moving the lock from free to taken with acquire ordering, unlock '
  'frees it with release ordering, a failed try_lock takes nothing, and a futex-based lock wakes a sleeper whenever one may exist.',
  ['schedules', 'configurations'], 'every interleaving and every spinlock configuration',
  'Only the default variant is built by the tests, and missing memory ordering is invisible on x86.',
  [INC + 'detail/spinlock_ttas.hpp', INC + 'detail/spinlock_ttas_adaptive.hpp', INC + 'detail/spinlock_ttas_futex.hpp', INC + 'detail/spinlock_ttas_adaptive_futex.hpp', INC + 'detail/spinlock_rtm.hpp'],
  [('test-and-test-and-set', 'lock'), ('three-state futex', 'spinlock_ttas_futex')], [('state_', 'lock word', INC + 'detail/spinlock_*.hpp')])
p('P27', 'Fiber-specific pointers are private to a fiber and cleaned up once',
  'A fiber-specific pointer read in a fiber yields what that fiber last stored, and nothing before; the cleanup function is called exactly once for each value replaced '
  'or still stored when the fiber ends, never for a released value and never for a null one, and at the fiber\'s end it runs before the fiber is reported reclaimed.',
  ['inputs', 'histories'], 'every sequence of reset, release, get and fiber termination, any number of pointers and fibers',
  'Sequences such as release before any reset or reset to null are not sampled.',
  [INC + 'fss.hpp', 'src/context.cpp', INC + 'detail/fss.hpp'], [('per-fiber map from pointer object to value and cleanup function', 'context::set_fss_data, get_fss_data, terminate')])
p('P28', 'Fiber properties exist before use, follow their fiber and report changes',
  'With an algorithm that uses properties, every worker fiber has a properties object before the algorithm first sees it, properties are owned by their fiber and destroyed once '
  'with it, and a change reported through them reaches the algorithm currently scheduling the fiber.',
  ['histories', 'programs'], 'every fiber, property change and replacement of properties',
  'Only one custom algorithm is exercised by tests.',
  [INC + 'algo/algorithm.hpp', INC + 'properties.hpp', 'src/properties.cpp', 'src/algo/algorithm.cpp', 'src/context.cpp'],
  [('lazily created on first awakened', 'algorithm_with_properties::awakened'), ('notify', 'fiber_properties::notify')])
p('P29', 'Move-only and non-copyable types stay so, and misuse does not compile',
  'Fiber handles, futures, promises and packaged tasks can be moved and not copied, synchronisation objects and channels can be neither; move operations and '
  'swaps do not throw, status enumerations keep their documented enumerators, and error types derive from the documented bases.',
  ['programs'], 'every program using the public types',
  'A test suite that compiles cannot show what must not compile.',
  [INC + 'fiber.hpp', INC + 'future/future.hpp', INC + 'future/promise.hpp', INC + 'future/packaged_task.hpp', INC + 'mutex.hpp', INC + 'exceptions.hpp', INC + 'channel_op_status.hpp'],
  [('deleted copy operations, noexcept moves', 'class definitions')])
p('P30', 'No lock leaks and no internal spinlock is held across a context switch',
  'Every operation releases each internal lock it acquired on every exit, by return or exception, including exceptions thrown by user code it runs under a lock, never acquires '
  'a spinlock it already holds, and holds none while a fiber is suspended or the thread sleeps, other than the one handed to the suspension; locks nest in one fixed order.',
  ['schedules', 'inputs'], 'every path of every library function, including exceptional ones',
  'A leaked or reversed lock deadlocks only when a second thread arrives at the right moment.',
  ['src/', INC], [('RAII locks', 'detail::spinlock_lock, std::unique_lock')])
p('P31', 'Every documented configuration builds and keeps the guarantees',
  'Each documented configuration macro (spinlock variants, single-threaded mode without atomics, header use from C++11 on) yields a library that compiles, and its '
  'selected lock type is the documented one.',
  ['configurations'], 'every documented combination of configuration macros',
  'The tests build one configuration.',
  [INC + 'detail/config.hpp', INC + 'detail/spinlock.hpp'], [('macro selection', INC + 'detail/spinlock.hpp')])
p('P32', 'Launch policy and callable arguments are honoured',
  'A fiber launched with dispatch runs immediately while its creator stays ready; one launched with post is queued and its creator goes on. Either runs its callable exactly once, '
  'with the given arguments, on its own stack obtained from the given allocator, and the stack is returned to that allocator exactly once after the fiber ended.',
  ['inputs', 'programs'], 'every callable, argument list, policy and stack allocator',
  'Throwing argument copies and non-default allocators are not sampled.',
  [INC + 'fiber.hpp', INC + 'context.hpp', 'src/fiber.cpp'], [('policy switch', 'fiber::start_'), ('control block placed on the new stack', 'make_worker_context_with_properties')])
p('P33', 'NUMA work stealing steals from existing threads only',
  'topology() takes exactly the CPUs a CPU list names (ranges included) and puts every one of them into exactly one node that carries its own id. Each thread of the NUMA-aware '
  'algorithm is pinned to its CPU, which it registers under before any thread steals; it steals only from the schedulers of other CPUs of the topology, those of its own node first, with indices inside '
  'the table, which has an entry for every CPU id; with a single CPU or node it terminates without stealing.',
  ['inputs', 'configurations'], 'every topology and number of threads',
  'The build hosts have one topology and the tests do not run the algorithm.',
  ['src/numa/algo/work_stealing.cpp', 'src/numa/linux/topology.cpp'], [('victim selection', 'numa::algo::work_stealing::pick_next')])
p('P34', 'Fiber ids tell fibers apart and order them',
  'Two ids compare equal exactly if they are the same fiber\'s or both no fiber\'s; <, >, <= and >= form one strict total order consistent with equality; an id is empty exactly if it is no '
  'fiber\'s; equal ids have equal hashes; the id of a fiber depends on nothing but the fiber, so this_fiber::get_id() is the same whenever and wherever the fiber runs, and handles are ordered by their ids.',
  ['inputs'], 'every pair of fibers and every moment of their lives',
  'Tests compare a few ids that happen to be live; which of two is smaller depends on the memory they were given.',
  [INC + 'context.hpp', INC + 'fiber.hpp', 'src/context.cpp'], [('comparison of the control block\'s address', INC + 'context.hpp: context::id')],
  [('impl_', 'control block of the fiber', INC + 'context.hpp')])
# not applicable
p('P40', 'Channel, mutex and future histories are linearizable',
  'Every concurrent history of operations on one synchronisation object is equivalent to a sequential one consistent with real-time order.',
  ['schedules', 'histories'], 'all concurrent histories', 'Tests observe few histories.', [INC, 'src/'], [('critical sections and atomics', 'src/')])
p('P41', 'Every ready fiber eventually runs and no blocked lock starves',
  'With a scheduling algorithm that is fair, each ready fiber runs after finitely many switches and each blocked locker eventually obtains the mutex.',
  ['schedules'], 'all infinite schedules', 'Liveness over infinite schedules is not testable.', ['src/scheduler.cpp', 'src/algo/'], [('FIFO queues', 'src/algo/')])
p('P42', 'Timeouts are honoured within a bounded delay',
  'A timed operation returns within a bounded time after its deadline.', ['schedules', 'inputs'], 'all loads and deadlines',
  'Timing depends on load and host.', ['src/scheduler.cpp'], [('sleep queue', 'src/scheduler.cpp')])
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, 'properties.jsonl'), 'w') as f:
    for x in P:
        if len(x['title']) > 80: print('LONG', x['title'])
        f.write(json.dumps(x) + '\n')
