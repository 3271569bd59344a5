#!/usr/bin/env python3
"""Writes /verif/properties.jsonl. Edit the list here, then rerun."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    assert len(title) <= 80, (id, len(title))
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

prop("C01", "Ordered hash behaves as an insertion-ordered map over every history",
 "After any sequence of ordered-hash operations (insert, overwrite, positional insert, lookups, both kinds of removal, reorder, sort, split, truncate, append, clone, clear, capacity changes, entry edits), every observable of the container - return values, length, iteration order, lookup by key, by position and by range, equality - is what a plain list of key/value pairs with unique keys would give. This holds whatever the keys hash to, and across every crossing between the small and the large representation.",
 ["histories","inputs","configurations"],
 "every operation sequence, every key-equality/hash assignment including total collisions, every size crossing and pre-sized capacity",
 "The unit tests are fixed scripts with well spread hashes and mostly one representation; they do not compose operations, and never collide hashes, so index repair paths chosen by size/capacity heuristics are reached by a handful of fixed shapes only.",
 ["rubymap/src/map.rs","rubymap/src/map/core.rs","rubymap/src/map/core/entry.rs","rubymap/src/map/iter.rs","rubymap/src/map/slice.rs"],
 [("index table kept in step with the entry vector","rubymap/src/map/core.rs"),("promotion of the small linear representation","rubymap/src/map/core.rs ensure_indexed"),("index shifting heuristics on removal/move","rubymap/src/map/core.rs decrement_indices/increment_indices/erase_indices")],
 [("entries","pairs in order","rubymap/src/map/core.rs"),("indices","hash -> position","rubymap/src/map/core.rs"),("linear","small mode flag","rubymap/src/map/core.rs")],
 ["public RubyMap API"])

prop("C02", "A raising hash/eql? callback surfaces and leaves the ordered hash unchanged",
 "When the user-supplied hash or eql? of a key raises during any single ordered-hash or ordered-set operation, the caller receives exactly that error, no further key callback runs in that operation, and the container's contents, order and lookups are exactly what they were before the call. Bulk operations that insert many pairs may have applied a prefix of the pairs, but never lose, duplicate or reorder an entry. The container stays fully usable afterwards.",
 ["fault_sequences","histories","inputs"],
 "every position at which a callback can raise, in every operation, in every reachable container state",
 "The existing tests instantiate the error type with () and callbacks that never fail, so no error path is executed at all.",
 ["rubymap/src/map/core.rs","rubymap/src/map.rs","rubymap/src/map/core/entry.rs","rubymap/src/set.rs","hashbrown/src/raw/mod.rs","hashbrown/src/table.rs","ruby_traits/src/lib.rs"],
 [("? propagation of callback results before mutation","rubymap/src/map/core.rs"),("error returned from the probe loop","hashbrown/src/raw/mod.rs find / find_or_find_insert_slot")],
 [("entries/indices","must agree after an aborted call","rubymap/src/map/core.rs")],
 ["Result returned by each operation","container dump after the call"])

prop("C03", "Deleting while iterating keeps positions stable until compaction",
 "While an ordered hash is in deferred-deletion mode, deleting an entry never moves another entry: every position still names the pair it named before, deleted positions are skipped, a deleted key is absent from lookups, surviving keys can still be found and updated, and compaction afterwards leaves exactly the surviving pairs in their original relative order with correct lookups, ready for new keys. A deletion whose key callback raises deletes nothing, and re-keying the pairs visits each exactly once and keeps order, values and lookups.",
 ["histories","fault_sequences"],
 "every interleaving of iteration steps, deletions, insertions, lookups, re-keying and compaction, with key callbacks failing at any point",
 "Tests cover one or two deletions in a single representation and never interleave deletion, promotion to the large representation, re-insertion and compaction.",
 ["rubymap/src/map/core.rs","rubymap/src/map.rs","monoruby/src/value/rvalue/hash.rs"],
 [("tombstone removal and compaction","rubymap/src/map/core.rs tombstone_remove_full/tombstone_index/compact_tombstones/map_keys")],
 [("tombstoned entry","position kept, unlinked from the index","rubymap/src/map/core.rs")],
 ["positions and lookups during and after the window"])

prop("C04", "A panic in user code never breaks ordered-hash memory or consistency",
 "If a user callback (hash, eql?, comparison, clone, drop, predicate or iterator element) panics inside an ordered hash or set operation, every key and value is dropped at most once (exactly once unless the panic came from a destructor) and never used after it was dropped, and the container can still be used: its length, iteration and lookups agree with each other and contain only pairs that were present before or were being added.",
 ["fault_sequences","histories"],
 "every call position at which a callback can panic, in every operation, in every reachable state",
 "No test panics inside an ordered-map callback.",
 ["rubymap/src/map/core.rs","rubymap/src/map.rs","rubymap/src/map/iter.rs"],
 [("order of index update vs entry update","rubymap/src/map/core.rs"),("reserve-rehash guard","hashbrown/src/raw/mod.rs")],
 [], ["drop ledger","container dump after catch_unwind"])

prop("C05", "Abandoning a bulk iterator leaves an ordered hash consistent",
 "Whatever part of a draining, splitting, consuming or filtering iterator the caller consumes - from either end, partially, not at all, or leaking the iterator - each pair is yielded or dropped exactly once, the pairs outside the range stay in order, and the container's lookups agree with its iteration. A leaked iterator may leak pairs but never yields or drops one twice, and the container it came from can be cleared and reused.",
 ["histories","fault_sequences","inputs"],
 "every range, every consumption pattern and every abandonment point, in every reachable state",
 "Tests drain fully and drop immediately; abandonment midway, consumption from the back and leaks are not composed with later operations.",
 ["rubymap/src/map/iter.rs","rubymap/src/map/core.rs","rubymap/src/set/iter.rs"],
 [("index repair before handing out the iterator","rubymap/src/map/core.rs drain/split_off/erase_indices")],
 [], ["drop ledger","container dump"])

prop("C06", "Ordered set behaves as an insertion-ordered set over every history",
 "After any history, an ordered set equals a plain list of distinct elements: membership, positions, order, replacement, sorted insertion, removal, bulk insertion and the subset/superset/disjoint/equality relations between two sets are what that list gives, whatever the elements hash to.",
 ["histories","inputs","configurations"],
 "every operation sequence on pairs of sets and every hash assignment",
 "Tests check each operation on fixed sets with spread hashes; relations are tested on small integer ranges only.",
 ["rubymap/src/set.rs","rubymap/src/map.rs","rubymap/src/map/core.rs"],
 [("set operations delegate to the ordered map core","rubymap/src/set.rs")],
 [], ["public RubySet API"])

prop("C07", "Refused growth requests never change what a hash contains",
 "If the allocator refuses a speculative (larger than necessary) growth request of an ordered hash or set, the operation still completes with the smaller request and its result, contents, order and lookups are the same as if memory had been plentiful.",
 ["fault_sequences","histories","configurations"],
 "every allocation at which a speculative request can be refused, in every history",
 "The tests never make an allocation fail, so the fallback branch is unexecuted.",
 ["rubymap/src/map/core.rs","hashbrown/src/raw/mod.rs"],
 [("try_reserve_exact with fallback","rubymap/src/map/core.rs reserve_entries")],
 [], ["container dump","allocator log"])

prop("C08", "Hash table, map and set agree with a multimap model over every history",
 "After any history of operations on the unordered table, map and set (insert, duplicate insert, find, entry edits, in-place replacement, removal, retain, extract, drain, clone, shrink, reserve, clear), lookups, lengths and iteration give exactly the model's elements, each once, whatever the hashes are and however many deleted slots, in-place rehashes and resizes occurred.",
 ["histories","inputs","configurations"],
 "every operation sequence, hash assignment (total collision, shared low bits, shared tag bits) and capacity",
 "Tests use a well mixed hasher and short scripts; group wrap-around, tombstone saturation and in-place rehash with clustered hashes are not composed with the other operations.",
 ["hashbrown/src/raw/mod.rs","hashbrown/src/map.rs","hashbrown/src/set.rs","hashbrown/src/table.rs","hashbrown/src/control/group/sse2.rs","hashbrown/src/control/bitmask.rs"],
 [("probe sequence, control bytes, tombstones, rehash","hashbrown/src/raw/mod.rs")],
 [("control bytes","empty/deleted/full tag per slot","hashbrown/src/raw/mod.rs"),("growth_left/items","load accounting","hashbrown/src/raw/mod.rs")],
 ["public HashMap/HashSet/HashTable API"])

prop("C09", "A panic in user code never breaks hash-table memory or consistency",
 "If a user callback (hasher, equality, clone, drop, predicate, replacement closure or iterator element) panics inside a table, map or set operation, every element is dropped at most once (exactly once unless the panic came from a destructor) and never used after being dropped, and the table stays usable: its length equals what it iterates, and every element it iterates was legitimately in it.",
 ["fault_sequences","histories"],
 "every call position at which a callback can panic, including during growth, in-place rehash, clone and clear",
 "Only a few scripted clone/drop panics are tested, at fixed sizes; a panic inside in-place rehash or replacement is not.",
 ["hashbrown/src/raw/mod.rs","hashbrown/src/map.rs","hashbrown/src/table.rs","hashbrown/src/scopeguard.rs"],
 [("scope guards around resize, rehash, clone, clear, drain","hashbrown/src/raw/mod.rs")],
 [], ["drop ledger","table dump after catch_unwind"])

prop("C10", "A raising callback surfaces from table, map and set operations unchanged",
 "When a user hash or equality callback raises inside a single operation of the unordered table, map or set, the caller receives exactly that error, the elements are exactly those before the call, and no element is lost, duplicated or leaked. A bulk insertion may have applied a prefix; later operations behave as if the failed call had not happened.",
 ["fault_sequences","histories"],
 "every callback position of every operation in every reachable table state, including growth and in-place rehash",
 "Tests use callbacks that cannot fail.",
 ["hashbrown/src/raw/mod.rs","hashbrown/src/table.rs","hashbrown/src/map.rs","hashbrown/src/set.rs"],
 [("Result threaded through find/insert/reserve","hashbrown/src/raw/mod.rs")],
 [], ["Result of each call","table dump"])

prop("C11", "Abandoned table iterators never lose, duplicate or leak elements",
 "Whatever part of a draining, extracting, consuming or retaining traversal of the unordered table, map or set the caller consumes or abandons, each element is yielded, kept or dropped exactly once (leaking the iterator may leak elements only), and the table is consistent and usable afterwards.",
 ["histories","fault_sequences"],
 "every abandonment point and every reachable state, with deleted slots present",
 "Tests run iterators to the end or drop them at one fixed point on small tables.",
 ["hashbrown/src/raw/mod.rs","hashbrown/src/table.rs","hashbrown/src/map.rs","hashbrown/src/set.rs"],
 [("drain guard resets the table; extract_if erases as it goes","hashbrown/src/raw/mod.rs")],
 [], ["drop ledger","table dump"])

prop("C12", "Output reaches the descriptor exactly once and in order under any fault",
 "For any sequence of buffered and non-blocking writes, flushes, sync changes, seeks and closes on an output stream, and any sequence of short writes, EINTR, EAGAIN, arriving signals and hard errors from the descriptor, the bytes the descriptor accepted followed by the bytes still buffered are exactly the bytes the stream accepted, in order, with nothing duplicated or lost, and an interrupted write resumes where it stopped. A successful flush, close or exit, or a successful write on a sync or terminal stream, leaves nothing buffered, and a stream that is dropped without being closed still hands over its bytes. A failed write-through leaves nothing behind, and a pending signal is reported before the next kernel entry.",
 ["fault_sequences","histories","inputs"],
 "every write/flush/sync/close history, every size around the buffer capacity, every kernel response sequence and every signal arrival point",
 "The module's tests script single faults; retries after partial progress, sync toggles with a partly drained buffer and capacity-edge sizes are not composed.",
 ["monoruby/src/value/rvalue/io/buf.rs","monoruby/src/value/rvalue/io.rs"],
 [("drain removes exactly what the kernel took; progress cursor for restart","monoruby/src/value/rvalue/io/buf.rs")],
 [("buf","accepted but not yet handed to the kernel","monoruby/src/value/rvalue/io/buf.rs")],
 ["sink log","buffered length","progress cursor"])

prop("C13", "Buffered input yields the file's bytes once, in order, at the right offset",
 "For any mix of reads of any size, line reads, character reads, peeks, pushed-back bytes, unbuffered reads, writes to the same stream, and absolute or relative seeks over a descriptor that returns short reads, EINTR, EAGAIN, errors or end-of-file at any point, the bytes delivered are the bytes at the logical position, none skipped or repeated, and the reported position is the logical one. A call interrupted by a signal or by lack of data delivers nothing and loses nothing, so retrying it continues exactly where it stopped. After a hard error nothing is ever repeated or reordered.",
 ["fault_sequences","histories","inputs"],
 "every read/seek/pushback history, size around the buffer capacity and descriptor response sequence",
 "Tests read from an in-memory cursor that never fails and never returns short.",
 ["monoruby/src/value/rvalue/io/buf.rs","monoruby/src/value/rvalue/io.rs"],
 [("refill only when spent; relative seek folds in the unread remainder","monoruby/src/value/rvalue/io/buf.rs")],
 [("pos/cap","unread window","monoruby/src/value/rvalue/io/buf.rs")],
 ["bytes returned","logical position"])

prop("C14", "Asynchronous requests to the interpreter are never lost or invented",
 "Whenever a collection, a timeslice switch or a signal is requested - from the interpreter thread, a timer thread or a signal handler, interleaved in any way with safepoints that answer other requests - the interpreter observes that kind of request at a later safepoint, no safepoint observes a kind that was not requested since it was last answered, and every delivered signal number is eventually drained exactly once. After an interpreter is torn down nothing writes to its request word.",
 ["schedules","histories"],
 "every interleaving of requesters, safepoints, registration, re-registration and teardown",
 "The only test exercises the lanes from one thread in one order.",
 ["monoruby/src/poll_flag.rs","monoruby/src/codegen/signal_table.rs","monoruby/src/preempt.rs"],
 [("idempotent atomic lane set/clear","monoruby/src/poll_flag.rs"),("clear lane before draining bitmap","monoruby/src/poll_flag.rs clear_signal")],
 [("poll word","one byte lane per request kind","monoruby/src/poll_flag.rs"),("pending bitmap","signals not yet drained","monoruby/src/codegen/signal_table.rs")],
 ["poll word","drained bitmap"])

prop("C15", "The timeslice timer ticks exactly while two or more threads are alive",
 "Over any sequence of thread starts and deaths, with the timer thread scheduled arbitrarily, a request for a timeslice switch is raised within a bounded number of tick periods whenever at least two threads stay alive, and ticking stops within a bounded time when fewer remain; at most one timer is ever active and it never touches the request word after teardown.",
 ["schedules","histories"],
 "every interleaving of thread-count changes with the timer thread's sleep, stop check and write",
 "No test drives the timer through stop/start races; real time makes the races unreachable on demand.",
 ["monoruby/src/preempt.rs"],
 [("stop flag plus restart when the old timer finished","monoruby/src/preempt.rs on_thread_count/timer_loop")],
 [("stop","tells the timer to exit","monoruby/src/preempt.rs"),("timer","join handle","monoruby/src/preempt.rs")],
 ["poll word over simulated time","live timer threads"])

prop("C16", "A blocking call offloaded to a worker completes its own caller exactly once",
 "Each blocking operation handed to a worker is performed once (retried only on interruption), its result is delivered to the thread that asked for it and to no other, and that thread resumes once the result exists - it never stays blocked after its operation finished, whatever the order of completions, concurrent waiters, interruptions of waiters, or faults of the wake-up channel. Abandoned operations leave nothing behind once they finish.",
 ["schedules","fault_sequences","histories"],
 "every interleaving of submitters, workers, waiters being interrupted and wake-up channel faults",
 "There is no test with two concurrent waiters and controlled completion order.",
 ["monoruby/src/native_pool.rs","monoruby/src/scheduler.rs"],
 [("ticketed results plus shared wake-up pipe","monoruby/src/native_pool.rs run_blocking/submit/drain/discard")],
 [("results/orphans","finished and abandoned tickets","monoruby/src/native_pool.rs")],
 ["completion returned to each caller","blocked threads at quiescence"])

prop("C17", "Sleep and wakeup: no early return, no missed wake, no overslept thread",
 "A sleeping thread resumes only when its deadline has passed or it was woken or interrupted; once one of these happens it becomes runnable and does run, however many other threads are busy, sleeping or waiting on descriptors and whatever signals interrupt the waiting. A wake aimed at a thread that is not asleep never shortens an unrelated later sleep, and the reported sleep time is the elapsed time.",
 ["schedules","histories","fault_sequences"],
 "every schedule of sleeping, waking, passing and dying threads, every duration and every interruption of the underlying wait",
 "Tests use wall-clock sleeps with one or two threads; timer expiry racing a wake or an interruption is not reproducible there.",
 ["monoruby/src/scheduler.rs","monoruby/src/value/rvalue/thread.rs"],
 [("sleeper list, park permit, state re-check","monoruby/src/scheduler.rs sleep/wakeup_inner/wake_due_sleepers")],
 [("state","thread run state","monoruby/src/value/rvalue/thread.rs"),("sleepers","deadlines","monoruby/src/scheduler.rs")],
 ["thread event log against simulated time"])

prop("C18", "Join returns exactly when the thread ended or the timeout passed",
 "Joining a thread returns its outcome - value, exception or kill - to every joiner exactly when it has terminated, or reports a timeout no earlier than the deadline, for any number of joiners and any order of termination, timeouts, interrupts and spurious wakes; no joiner is left waiting on a dead thread.",
 ["schedules","histories"],
 "every schedule of joiners, terminations, timeouts and interrupts",
 "Tests join one or two threads without racing termination against timeouts or interrupts.",
 ["monoruby/src/scheduler.rs"],
 [("joiner list woken on finalisation, loop re-check","monoruby/src/scheduler.rs join/finalize_common")],
 [("joiners","threads parked on this one","monoruby/src/value/rvalue/thread.rs")],
 ["join results"])

prop("C19", "Thread#raise and Thread#kill: delivered once, in order, never while masked",
 "Every asynchronous raise or kill queued for a live thread is delivered at most once, in queue order among those not masked, at the first point its mask timing allows (immediately, at a blocking point, or when the mask ends); a masked interrupt is neither delivered nor lost while the mask holds; and a deliverable interrupt wakes its parked target. A thread that was never started dies with the first queued interrupt, and self-targeted interrupts follow the same rules.",
 ["schedules","histories"],
 "every schedule, mask nesting and interrupt sequence over parked, running, unstarted and dying threads",
 "Tests script single interrupts at fixed points.",
 ["monoruby/src/scheduler.rs","monoruby/src/value/rvalue/thread.rs"],
 [("pending queue with per-element timing","monoruby/src/scheduler.rs deliverable_index/deliver_pending_now/dispatch/interrupt")],
 [("pending","queued interrupts","monoruby/src/value/rvalue/thread.rs"),("masks/uninterruptible","deferral state","monoruby/src/value/rvalue/thread.rs")],
 ["errors received by each thread"])

prop("C20", "A thread waiting on descriptors resumes when one is ready, and is not starved",
 "A thread waiting for descriptors resumes after one of them becomes ready, its deadline passes or it is interrupted, and not before; it is not starved by other threads that stay busy or by other waiters; EINTR and signals during the wait lose no readiness; and after it resumes nothing about the old wait affects later waits.",
 ["schedules","fault_sequences","histories"],
 "every schedule of waiters, busy threads, readiness events, deadlines and poll faults",
 "Tests wait on a single pipe with one peer; readiness racing deadlines, interrupts and EINTR is not covered.",
 ["monoruby/src/scheduler.rs"],
 [("fd waiter list polled by loop and pass","monoruby/src/scheduler.rs wait_fds/poll_io_waiters/prune_io_waiters")],
 [("io_waiters","fd registrations","monoruby/src/scheduler.rs")],
 ["wait results against simulated descriptors"])

prop("C21", "Deadlock is reported exactly when no thread can ever run again",
 "The main thread receives the deadlock error if, and only if, every thread is blocked with no deadline, no descriptor wait and no deliverable interrupt that could ever make one runnable; the program never hangs silently instead, and never reports deadlock while some thread could still make progress.",
 ["schedules","histories"],
 "every blocking graph reachable by sleeps, joins, descriptor waits and interrupts",
 "Tests check one self-deadlock.",
 ["monoruby/src/scheduler.rs"],
 [("idle branch of the loop","monoruby/src/scheduler.rs scheduler_loop")],
 [], ["fatal error vs model of blocked threads"])

prop("C22", "Every runnable thread gets to run, and thread outcomes are recorded once",
 "Under any history, each runnable thread is resumed within a bounded number of scheduling steps, at most one thread runs at a time, the thread list contains exactly the threads that are alive, a finished thread never runs again, and its result or exception (and any report, abort or exit forwarding) is recorded and delivered exactly once.",
 ["schedules","histories"],
 "every schedule of spawns, passes, blocking calls, interrupts and terminations",
 "Fairness and exactly-once finalisation are global schedule properties; tests observe a few interleavings.",
 ["monoruby/src/scheduler.rs"],
 [("FIFO ready queue and dispatch","monoruby/src/scheduler.rs dispatch/finalize/pass")],
 [("ready","runnable queue","monoruby/src/scheduler.rs"),("threads","live registry","monoruby/src/scheduler.rs")],
 ["run trace"])

prop("C23", "Process exit and fork leave no thread running where it must not",
 "At process exit every other live thread is unwound once - running its cleanup - and ends dead whatever it was blocked on and whatever its mask, and exit completes even if a thread refuses to die. In a forked child only the forking thread exists: no other thread ever runs there, joins on them return, and the survivor can start, sleep, wait and join new threads normally.",
 ["schedules","crash_points","histories"],
 "every point of a history at which the program exits or forks",
 "Tests fork or exit from a few idle states; exit or fork with threads in each blocked or queued state is not covered.",
 ["monoruby/src/scheduler.rs","monoruby/src/value/rvalue/thread.rs"],
 [("terminate_all","monoruby/src/scheduler.rs"),("fork_child_reset_threads","monoruby/src/scheduler.rs")],
 [], ["run trace after exit/fork"])

prop("C24", "Mutex: mutual exclusion, ownership and progress under preemption",
 "Under any preemption points, wakes, timeouts, raises and kills, at most one live thread holds a mutex and only the holder can release it. A block run under the mutex owns it throughout and has given it up when it is left, however it is left. No thread stays blocked on a mutex that is free or whose holder has died, whoever is interrupted or killed meanwhile.",
 ["schedules","fault_sequences","histories"],
 "every placement of timeslice switches between evaluation steps and every interrupt point",
 "Tests run with the real timer, which switches at a few arbitrary points per run.",
 ["monoruby/builtins/thread.rb","monoruby/src/scheduler.rs"],
 [("safepoint-free test-and-set, waiter list, permit wake","monoruby/builtins/thread.rb Mutex")],
 [("@owner/@waiters","holder and parked contenders","monoruby/builtins/thread.rb")],
 ["critical-section log","blocked threads at quiescence"])

prop("C25", "Queue: every item delivered to exactly one consumer, in order, none stuck",
 "For any set of producers and consumers under any preemption, timeout, close, clear, raise or kill, each pushed item is popped at most once, only a consumer that is itself interrupted may lose one, and items leave in the order they entered. No consumer stays blocked while the queue holds items or is closed. After close, pushes fail, remaining items drain and then pops report the end; nonblocking and timed calls return by their rules and never early or late.",
 ["schedules","fault_sequences","histories"],
 "every schedule and interrupt point over any number of producers and consumers",
 "Tests use the real timer and few threads.",
 ["monoruby/builtins/thread.rb","monoruby/src/scheduler.rs"],
 [("mutex + condition variable layering","monoruby/builtins/thread.rb Queue")],
 [("@items/@closed","queue content","monoruby/builtins/thread.rb")],
 ["push/pop history checked against a FIFO model"])

prop("C26", "SizedQueue never exceeds its capacity and never strands a producer",
 "Under any schedule, interrupts, resizing, clear and close, a bounded queue never holds more items than its current capacity allowed at insertion, and no producer stays blocked once there is space, the queue is closed or its timeout has passed. The order and at-most-once guarantees of queues hold as well.",
 ["schedules","fault_sequences","histories"],
 "every schedule of producers, consumers, resizes and interrupts",
 "Tests use the real timer and few threads.",
 ["monoruby/builtins/thread.rb"],
 [("two condition variables","monoruby/builtins/thread.rb SizedQueue")],
 [("@max","capacity","monoruby/builtins/thread.rb")],
 ["push/pop history checked against a bounded FIFO model"])

prop("C27", "Condition variable: signals wake a waiter, which returns owning the mutex",
 "A signal sent while a thread waits makes one waiting thread return, a broadcast makes all of them return, and a timed wait returns by its timeout and not before it without a wake. The waiter owns the mutex whenever it is out of the wait, including when it leaves through a raise or a kill. A signal is never lost to a thread that is interrupted or has stopped waiting while another keeps waiting.",
 ["schedules","fault_sequences","histories"],
 "every schedule of waiters, signallers, timeouts and interrupts",
 "Tests use the real timer and few threads.",
 ["monoruby/builtins/thread.rb","monoruby/src/scheduler.rs"],
 [("waiter list, permit wake, uninterruptible re-acquire","monoruby/builtins/thread.rb ConditionVariable/Mutex#sleep")],
 [("@waiters","registered waiters","monoruby/builtins/thread.rb")],
 ["ownership on return","blocked waiters at quiescence"])

prop("C28", "Monitor: re-entrant mutual exclusion and condition waiting between threads",
 "At most one thread is inside a monitor at a time however threads are preempted or interrupted, the owner may re-enter and must leave as often, and try-enter by another thread fails while it is owned. Its condition variables release the monitor at any depth while waiting, are woken by signal, broadcast or timeout, and restore it. No thread stays blocked on a monitor that is free.",
 ["schedules","histories"],
 "every schedule of entering, waiting, signalling and dying threads",
 "Tests exercise the monitor from one thread.",
 ["monoruby/builtins/monitor.rb","monoruby/builtins/thread.rb"],
 [("owner and count bookkeeping","monoruby/builtins/monitor.rb")],
 [("@owner/@count","holder and depth","monoruby/builtins/monitor.rb")],
 ["critical-section log"])

prop("C29", "Garbage collection keeps reachable objects and reclaims unreachable ones",
 "For any history of allocation, mutation, rooting and collection requests, a collection never frees, reuses or alters an object reachable from the roots, frees each unreachable object exactly once and runs its destructor once, and the reported live and free counts equal the actual ones; memory of reclaimed objects is reused rather than grown without bound.",
 ["histories","schedules"],
 "every mutation history, object graph and collection point",
 "Tests run whole Ruby programs where collections occur at arbitrary points and survive on luck; no test compares the heap with a reference graph.",
 ["monoruby/src/alloc.rs"],
 [("mark bitmaps, sweep, free lists, page management","monoruby/src/alloc.rs")],
 [("mark bits / free list","object liveness","monoruby/src/alloc.rs")],
 ["heap content vs reference graph","destructor log"])

prop("C30", "Ruby Hash keeps its contract under mutation, iteration and raising keys",
 "A Ruby Hash gives the same contents, order and lookups as an insertion-ordered map under any history of stores, deletes, lookups, rehash, identity mode, copies and nested iterations, whatever internal form it has; deleting during iteration is allowed and visits each remaining pair once; adding a new key during iteration is refused; and a raising key callback propagates without changing the hash.",
 ["histories","fault_sequences","inputs"],
 "every operation history, iteration nesting, key behaviour and raise point",
 "Tests are scripts over literal keys; inline/boxed transitions, nested iteration with deletion and raising callbacks are not composed.",
 ["monoruby/src/value/rvalue/hash.rs","rubymap/src/map.rs"],
 [("inline pairs, boxed map, deferred deletion during iteration","monoruby/src/value/rvalue/hash.rs")],
 [("iter_lev/dead","iteration depth and deferred deletions","monoruby/src/value/rvalue/hash.rs")],
 ["hash API results"])

prop("C31", "Compiled code behaves exactly as interpreted code",
 "For every Ruby program, the output, exceptions and side effects are the same whether methods and loops run in the interpreter or as JIT-compiled code, including when an assumption made by compiled code is later invalidated.",
 ["programs","inputs"],
 "every program and every point at which compilation or invalidation happens",
 "Tests sample programs.",
 ["monoruby/src/codegen/jitgen.rs","monoruby/src/codegen/compiler.rs"],
 [("guards and deoptimisation","monoruby/src/codegen/jitgen.rs")])

prop("C32", "Parsing, formatting and numeric conversions are exact for every input",
 "For every source text, format string and numeric value, the parsed program, formatted text and converted number are those the Ruby language defines, and malformed input raises the documented error instead of crashing.",
 ["inputs","programs"],
 "every input text and value",
 "Tests sample inputs.",
 ["monoruby/src/executor/format.rs","monoruby/src/builtins/numeric.rs"],
 [("format and numeric conversion code","monoruby/src/executor/format.rs")])

prop("C33", "Starting a process sets up descriptors exactly and reports every failure",
 "Whatever descriptors are open and whatever options and redirects are given, a process started by spawn or exec runs the right program with exactly the requested arguments, environment, directory, mask, group, default signals and descriptors, redirects referring to the caller's descriptors in any order of options. If any step fails, in the caller or in the new process, the caller gets the error of that step, no program runs, the failed child is reaped and visible as exit status 127. The caller's own descriptors are the same after every outcome, interrupted calls included, and the call never waits for the program to end.",
 ["fault_sequences","histories","inputs"],
 "every open descriptor set, option and redirect combination, program search result, failing or interrupted system call",
 "Tests start a few real commands with one option at a time; failing calls, exhausted descriptors, number clashes and interrupts cannot be produced there.",
 ["monoruby/src/builtins/spawn.rs"],
 [("argument parsing, child set-up, error report through a pipe, reaping","monoruby/src/builtins/spawn.rs")],
 [("report pipe","error report from child to parent","monoruby/src/builtins/spawn.rs")],
 ["returned pid, raised error, image of the started program, descriptor tables"])

prop("C34", "Control passes between fibers by the rules of Ruby",
 "Whatever fibers and enumerators resume, yield to, transfer to, kill or raise into each other, control and the passed values arrive where Ruby's rules send them, a body starts once on a stack of its own, a finished fiber returns to its resumer or to the deepest running fiber of its thread, and a fiber that ended or was collected is never entered again. A forbidden switch (to a dead, waiting or yielding fiber, to oneself, from another thread) raises an error in its caller and changes nothing. Errors and kills unwind exactly the fiber they were aimed at, and every stack is guarded while it is used and freed once.",
 ["histories","interleavings","fault_sequences"],
 "every sequence of fiber operations from every fiber, with errors, kills, misuse, collection and moves of the root context at any point",
 "Tests run a few short scripts with two or three fibers; mixes of resume, transfer, kill and enumerators between many fibers, and failures in the middle of them, are never produced.",
 ["monoruby/src/value/rvalue/fiber.rs","monoruby/src/builtins/fiber.rs","monoruby/src/executor.rs"],
 [("switches, checks, end of a fiber, stacks","monoruby/src/value/rvalue/fiber.rs"),("methods of Fiber","monoruby/src/builtins/fiber.rs")],
 [("fiber links","resumer, resumed fiber, yielding and killed marks","monoruby/src/executor.rs")],
 ["value or error at every arrival, liveness, current fiber"])

prop("C35", "Fiber storage is private to each fiber and copied on inheritance",
 "A fiber sees exactly the storage that it inherited or was given when it was created, as changed by itself since; changes made by other fibers, by the creator afterwards or through a hash handed in or out never show. Storage is only readable and assignable from the fiber itself, a refused assignment changes nothing, and new threads and fibers start with a copy of the storage of their creator. The blocking mark follows its own fiber and is restored however a block ends.",
 ["histories","interleavings","fault_sequences"],
 "every interleaving of storage reads, writes, replacements, inheritance and fiber switches, with errors and kills",
 "Tests read a storage back right after it was set; interference needs several live fibers, kept hashes and switches in between.",
 ["monoruby/src/builtins/fiber.rs"],
 [("storage methods and inheritance","monoruby/src/builtins/fiber.rs")],
 [("fiber storage","table of each fiber","monoruby/src/builtins/fiber.rs")],
 ["values read, storage returned, errors"])

prop("C36", "External enumeration delivers every element once, in order",
 "Whoever asks in whatever order, next and peek deliver the elements of the source once each and in order, peeking consumes nothing, a fed value is returned by the pending yield, and the end is reported with the result of the source until the enumerator is rewound. An error of the source reaches the caller and the next request starts anew; a request that is refused, because the source itself asked or the source refused to rewind, leaves the enumeration as it was. Arrays handed out belong to the caller, and a collection reaches everything the enumeration still needs.",
 ["histories","interleavings","fault_sequences"],
 "every sequence of requests from the program and from inside sources, with errors, rewinds and refusals at any point",
 "Tests walk one enumerator at a time; requests nested in sources, errors in between and kept arrays are not combined.",
 ["monoruby/src/value/rvalue/enumerator.rs","monoruby/src/builtins/enumerator.rs","monoruby/src/value/rvalue/fiber.rs"],
 [("external enumeration","monoruby/src/value/rvalue/enumerator.rs"),("methods of Enumerator","monoruby/src/builtins/enumerator.rs")],
 [("enumerator state","producer, look-ahead, fed value, end","monoruby/src/value/rvalue/enumerator.rs")],
 ["delivered values, errors, results of the source"])

prop("C37", "Socket calls report what really happened, and wait only for it",
 "Whatever the other ends, other threads and interrupts do, a socket call delivers exactly the data, address, connection or error the system gave it: nothing is lost, invented, repeated or attributed to another socket, and a call that reports success or a connection has one. A blocking call waits without holding up other threads, goes on when it can, keeps its time limit, and ends with an IOError when the socket is closed meanwhile or with the interrupt it received; a non-blocking call never waits. Transient refusals of the system never reach the caller of a blocking call.",
 ["histories","interleavings","fault_sequences"],
 "every sequence of socket calls by up to four threads over any timing of the other ends, with refused, slow, reset and full connections, interrupted system calls, spurious wake-ups, closes and interrupts at any point",
 "Tests talk to a cooperative peer on the same machine; refusals between two system calls, full queues, closes by other threads and interrupts do not occur.",
 ["monoruby/src/builtins/socket.rs","monoruby/src/builtins/io.rs"],
 [("socket methods","monoruby/src/builtins/socket.rs"),("waiting for a descriptor without other threads","monoruby/src/builtins/io.rs")],
 [("sockets of the system","connections, queues, pending errors, data under way","monoruby/src/builtins/socket.rs")],
 ["results, data handed over, addresses, errors, time taken"])

prop("C38", "No socket call loses or confuses descriptors",
 "After every socket call, successful or not, each descriptor it opened is closed, belongs to exactly one object or was returned to the caller, and address lists it obtained are released; the block form closes its socket however the block ends. No descriptor is closed twice or used after it was given to another socket. Descriptors are not inherited by started programs, connections are handed out in blocking mode, and a connect that fails leaves the mode as it was.",
 ["histories","fault_sequences"],
 "every sequence of socket calls by up to four threads, with failures of every system call, unusable arguments, interrupts and closes by other threads at any point",
 "Tests do not fail the second or third system call of a method and do not count descriptors.",
 ["monoruby/src/builtins/socket.rs","monoruby/src/builtins/file.rs"],
 [("socket constructors and connects","monoruby/src/builtins/socket.rs"),("end of block forms","monoruby/src/builtins/file.rs")],
 [("descriptor table","open sockets, owner, mode, inheritance","monoruby/src/builtins/socket.rs")],
 ["open descriptors, owners, modes after every call"])

prop("C39", "Waiting for streams ends exactly when one of them is ready",
 "A call that waits for one or several streams returns as soon as one of them can be read, can be written, has urgent data, has ended or failed, or holds unread buffered data, and reports all streams that are ready in a requested way and no others. It reports nothing only when its time limit has passed, and it never gives up without one; signals, spurious wake-ups and high descriptor numbers change neither the answer nor the limit. Other threads go on meanwhile, a stream closed by one of them ends the wait with an IOError, and an interrupt of the waiting thread is raised there.",
 ["histories","interleavings","fault_sequences"],
 "every sequence of waits by up to four threads for any set of streams, limits and kinds of readiness, over any timing of readiness, hang-ups, signals, closes with descriptor reuse, spurious wake-ups and interrupts",
 "Tests wait for streams that are ready or become ready once; signals during a wait, closes by another thread, hang-ups without data and high descriptor numbers do not occur.",
 ["monoruby/src/builtins/io.rs"],
 [("IO.select and the methods IO#wait, wait_readable, wait_writable, wait_priority","monoruby/src/builtins/io.rs")],
 [("streams","readiness, hang-up, buffered data, descriptors","monoruby/src/builtins/io.rs")],
 ["streams reported, time of return, errors"])


out = os.path.join(os.path.dirname(os.path.abspath(__file__)), "..", "properties.jsonl")
with open(out, "w") as f:
    for p in P: f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P), "properties")
