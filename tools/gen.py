#!/usr/bin/env python3
"""Writes /verif/properties.jsonl and /verif/MANIFEST.json from the texts below. Run by hand; the outputs are committed."""
import json, os, sys
H = os.path.dirname(os.path.dirname(os.path.abspath(__file__))); sys.path.insert(0, H)
from props import PROPS
R = []
def prop(id, title, statement, over, text, why, files, mech, state=(), obs=(), note=''):
    R.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['macoro/' + f for f in files], state=[dict(name=a, meaning=b, where='macoro/' + c) for a, b, c in state],
                     mechanism=[dict(name=a, where='macoro/' + b) for a, b in mech], observe_at=list(obs), hook_needed=None), _note=note))
SCHED = 'every interleaving of the participating threads at atomic, lock and suspension granularity, every store an atomic load may legally observe under release/acquire, and every spurious weak compare-exchange failure'
TESTS = 'The existing tests run one timing on two or three threads (or a single thread) and check the final value; '

prop('C01', 'Single-producer channel delivers every item once, in order, until closed',
 'Through a bounded single-producer/single-consumer channel every item pushed is popped exactly once, in push order and fully constructed, never more than the capacity is outstanding, and neither side stays suspended once it could proceed. An operation takes its place when it is awaited, however early it was prepared, and the close does so among the pushes: everything before it is still delivered, then the receiver is told the channel is closed and is never handed an invented item. Items left inside are destroyed exactly once with the channel.',
 ['schedules', 'inputs'], SCHED + '; small power-of-two capacities, item counts, in-place and by-value pushes, split reserve/publish use, the moment of the close',
 TESTS + 'the lost wake-up, early-overwrite and close races need a particular interleaving of a suspend with a publish.',
 ['channel.h', 'channel_spsc.h', 'sequence_spsc.h', 'sequence_barrier.h'], [('slot claim/publish through a sequence ring', 'channel.h'), ('close publishes an empty slot', 'channel.h')],
 obs=['values popped', 'exceptions from push/pop', 'constructor/destructor balance of items'])
prop('C02', 'Multi-producer channel delivers every item once, in per-sender order',
 'Through a bounded multi-producer channel every item pushed by any sender is popped exactly once and fully constructed, items of one sender in that sender\'s order, with never more than the capacity outstanding and nobody left suspended who could proceed. An operation takes its place when it is awaited, however early it was prepared, and a close comes after everything claimed before it; the receiver gets all of that, then is told the channel is closed and is never handed an invented item.',
 ['schedules', 'inputs'], SCHED + '; one to three senders, small power-of-two capacities, in-place and by-value pushes, the moment of the close',
 TESTS + 'claim/publish inversions between senders are never scheduled.',
 ['channel.h', 'sequence_mpsc.h', 'sequence_barrier.h'], [('claim by fetch_add, publish per slot', 'sequence_mpsc.h'), ('close publishes an empty slot', 'channel.h')],
 obs=['values popped per sender', 'exceptions from push/pop', 'constructor/destructor balance of items'])
prop('C03', 'A sequence barrier wakes exactly the waiters whose target was published',
 'A coroutine awaiting a sequence number resumes exactly once, never before a number at or past its target has been published, and always once one has (including across wrap-around of the counter). It resumes with a number at or past its target that was really published, and everything written before that publish is visible to it.',
 ['schedules', 'inputs'], SCHED + '; one to three waiters with arbitrary distinct or equal targets, published sequences with gaps, 8/32/64-bit counters including wrap-around',
 TESTS + 'lost wake-ups need a publish between the waiter\'s check and its registration.',
 ['sequence_barrier.h', 'sequence_traits.h'], [('waiter list swapped and re-checked after registration', 'sequence_barrier.h')],
 obs=['resumption count of each waiter', 'value returned by the await', 'data races on the payload'])
prop('C04', 'Single-producer sequence ring never overruns its consumers or publishes early',
 'A single producer is handed each sequence number once, in the order in which its claims are awaited, and never one whose slot the slowest consumer has not released; a consumer is handed only numbers already published, and both eventually get everything that becomes available. Slot contents written before publishing are what the consumer reads.',
 ['schedules', 'inputs'], SCHED + '; ring sizes 1..8, single and batched claims, one consumer or a two-stage consumer chain, 32- and 64-bit counters',
 TESTS + 'overruns and lost wake-ups need a claim racing with a release at a full ring.',
 ['sequence_spsc.h', 'sequence_barrier.h', 'sequence_range.h'], [('claims wait on the consumer barrier at (claimed - size)', 'sequence_spsc.h')],
 obs=['claimed ranges', 'ring contents at consumption', 'data races on slots'])
prop('C05', 'Multi-producer sequence ring hands out each slot once and publishes contiguously',
 'Concurrent producers are handed disjoint sequence ranges covering every number once, never a slot the slowest consumer has not released; a consumer waiting for a target resumes exactly once, with a number at or past its target (or the best contiguous one), only when all numbers up to it have been published. Every consumer and producer that could proceed eventually does, and a non-blocking availability query agrees with what a claim would find.',
 ['schedules', 'inputs'], SCHED + '; one to three producers, one or two consumers with different targets, ring sizes 1..8, single and batched claims, out-of-order publishing',
 TESTS + 'the wake-up hand-off between two consumers and an out-of-order publisher is never scheduled by the tests.',
 ['sequence_mpsc.h', 'sequence_barrier.h', 'sequence_range.h'], [('per-slot publish stamps scanned for the contiguous prefix', 'sequence_mpsc.h'), ('awaiter list with re-check after registration', 'sequence_mpsc.h')],
 obs=['claimed ranges', 'values returned to consumers', 'ring contents', 'data races on slots'])
prop('C06', 'A manual-reset event releases every waiter exactly once per set',
 'A coroutine awaiting a manual-reset event resumes exactly once: without suspending when the event is set, otherwise on the next set and only then; a set releases every coroutine waiting at that moment, and a reset after it does not take that back. What was written before the set is visible after the await, and the event may be destroyed by a released waiter.',
 ['schedules', 'histories'], SCHED + '; up to five waiters, concurrent setters, arbitrary interleaved set and reset calls',
 TESTS + 'a waiter registering while the event is being set, or a reset racing with the release of the list, is not sampled.',
 ['manual_reset_event.h'], [('single atomic word: set marker or waiter list', 'manual_reset_event.h')],
 obs=['resumption count of each waiter', 'is_set', 'data races and use after destruction'])
prop('C07', 'A counting barrier releases its waiter exactly when the count reaches zero',
 'A coroutine awaiting the barrier resumes exactly once, never while registered work is outstanding and always once all of it was completed, and it sees everything the completing threads wrote before. The last completion touches nothing of the barrier once the waiter may run, so the waiter may destroy or reuse it.',
 ['schedules', 'inputs'], SCHED + '; zero to five completing threads, counts raised while others complete, reuse over several phases, destruction by the released waiter',
 TESTS + 'the last completion racing with the await (and with destruction) is not sampled.',
 ['barrier.h'], [('count and waiter in atomics; last decrement takes the waiter', 'barrier.h')],
 obs=['resumption of the waiter', 'accesses to the destroyed barrier'])
prop('C08', 'An eager task runs at once and delivers its outcome exactly once to its awaiter',
 'An eagerly started task runs its body exactly once, starting before its creation returns; whoever awaits it, before or after completion and on whichever thread, resumes exactly once and only after completion, with exactly the value, reference or exception the body produced. The readiness query never reports completion early, and the frame is destroyed exactly once with no access afterwards.',
 ['schedules', 'inputs'], SCHED + '; bodies that hop threads any number of times, throw or return values, references and move-only results; awaiters that arrive at any time; trees of tasks',
 TESTS + 'completion racing with registration of the awaiter is not controlled.',
 ['task.h'], [('three-state atomic hand-off between completion and awaiter', 'task.h')],
 obs=['value or exception delivered', 'resumption count', 'frame lifetime (use after free, leak)'])
prop('C09', 'A lazy task runs only when awaited and delivers its outcome once',
 'A lazily started task runs nothing until awaited, then runs exactly once and hands its awaiter exactly the value, reference or exception it produced; chains of any depth complete in bounded stack and leave no frame and no undestroyed result behind. A wrapped await turns the outcome into a result carrying the same value or exception, and takes nothing from a task that was only lent to it; awaiting an empty task reports the error instead of misbehaving.',
 ['schedules', 'inputs', 'programs'], SCHED + '; generated chains and wraps of tasks with hops to other threads, throwing at any level, never-awaited and moved-from tasks',
 TESTS + 'they fix a handful of shapes and never move a continuation to another thread at a chosen point.',
 ['task.h', 'wrap.h', 'result.h'], [('symmetric transfer to the continuation at final suspend', 'task.h')],
 obs=['value or exception delivered', 'frames alive at the end', 'order of side effects'])
prop('C10', 'A macro-style coroutine behaves exactly like the native one',
 'A coroutine written with the portable macros runs the same effects in the same order, suspends and resumes at the same places, yields the same result or exception, and destroys its captured state exactly once, as the same coroutine written natively — for any nesting of awaits, loops and exceptions, on any thread. Handles to either kind of coroutine, converted to and from the standard kind or rebuilt from an address, act on that same coroutine and agree on whether it is done. A failed memory allocation at any point surfaces as an exception to the creator or awaiter, leaking and corrupting nothing.',
 ['programs', 'schedules', 'fault_sequences'], 'randomly generated programs (awaits of ready, suspending, throwing and nested awaitables, loops, early returns, catch sites) executed in both styles; allocation failures at any allocation; ' + SCHED,
 TESTS + 'they run fixed programs, and never with a failing allocation.',
 ['coro_frame.h', 'macros.h', 'coroutine_handle.h', 'task.h'], [('frame with explicit resume index and per-await storage', 'coro_frame.h')],
 obs=['event log of both styles', 'live objects and heap blocks at the end', 'exceptions'])
prop('C11', 'Joining an async scope waits for every task and collects every exception',
 'A task added to an async scope starts at once and runs exactly once; joining the scope completes only after every added task has completed and always once they all have, whichever thread each finishes on. Each task\'s value or exception reaches the handle\'s awaiter exactly once, the exceptions of tasks whose handle was dropped are all rethrown by the join, and no frame outlives its task and handle. A handle reports ready only once its task has finished, and what the task did is visible from then on.',
 ['schedules', 'inputs'], SCHED + '; one to four tasks, handles dropped, kept, awaited before/after the join or by another thread, nested adds, reuse of the scope',
 TESTS + 'task completion, handle drop and join are never made to race.',
 ['async_scope.h', 'detail/scoped_task_promise.h', 'barrier.h'], [('barrier counts live tasks; join drains exceptions after it', 'async_scope.h')],
 obs=['completion order of join vs tasks', 'exceptions in the join', 'frame lifetime'])
prop('C12', 'when_all_ready completes after all tasks, with each outcome in its place',
 'Awaiting a when-all over any number of awaitables starts each of them exactly once, in order, resumes the awaiter exactly once and only after all of them have completed, and presents every outcome — value, reference or exception — at its own position. If creating one of them fails, the exception surfaces and nothing is leaked or left running.',
 ['schedules', 'inputs', 'fault_sequences'], SCHED + '; tuples and vectors of zero to four awaitables finishing on different threads, nesting, failing allocations, never awaited',
 TESTS + 'the last completion racing with the awaiter\'s suspension is not sampled.',
 ['when_all.h', 'detail/when_all_awaitable.h', 'detail/when_all_counter.h', 'detail/when_all_task.h'], [('counter that starts at n+1', 'detail/when_all_counter.h')],
 obs=['resumption of the awaiter', 'position of each outcome', 'frame lifetime'])
prop('C13', 'A when-all scope completes only after everything added to it has completed',
 'Awaiting a when-all scope runs its body once and completes exactly once, only after the body and every task added to it have completed; a result handle awaited inside delivers exactly its task\'s value or exception. Nothing it created outlives it, whether it was awaited or dropped.',
 ['schedules', 'inputs'], SCHED + '; one to four added tasks finishing on different threads, handles dropped or awaited, throwing bodies and tasks',
 TESTS + 'completions racing with the end of the body are not sampled, and frames are not accounted for.',
 ['when_all_scope.h', 'async_scope.h', 'barrier.h'], [('built on the async scope\'s barrier', 'when_all_scope.h')],
 obs=['completion order', 'values delivered', 'live frames at the end'])
prop('C14', 'A thread pool runs every posted continuation exactly once, on a pool thread',
 'Every continuation posted to a running pool resumes exactly once, on a thread the pool controls, after everything the poster wrote; with a single pool thread posts run in the order they were made. Dispatching runs inline exactly when the caller already is on that pool and otherwise behaves as a post, and an idle pool thread never leaves runnable work waiting.',
 ['schedules', 'inputs'], SCHED + ', with spurious wake-ups and arbitrary choice of the notified thread; one to three pool threads, several posters, two pools, work that blocks until other work ran',
 TESTS + 'a notification lost or taken by a busy thread shows only under particular schedules.',
 ['thread_pool.h', 'thread_pool.cpp'], [('mutex-protected queue with a condition variable', 'thread_pool.h')],
 obs=['resumption count, thread and order of continuations', 'deadlock of the simulated system'])
prop('C15', 'A thread pool stops exactly when its work is gone, and tears down safely',
 'Pool threads stay available while any work token is held or anything is queued or delayed, and stop once nothing is left; joining or destroying the pool waits for everything posted before and returns once there is none. A pool may be destroyed as soon as join returned, moved while its threads run, and its last token released by any thread, without touching freed memory.',
 ['schedules', 'histories'], SCHED + ', with spurious wake-ups; tokens created, moved and released by any thread, threads created late or in pieces, moves of the pool',
 TESTS + 'release of the last token racing with workers going idle, and teardown racing with the releasing thread, are not sampled.',
 ['thread_pool.h'], [('work counter guarded by the pool mutex', 'thread_pool.h')],
 obs=['return of join', 'use after free', 'work lost'])
prop('C16', 'A delayed continuation resumes once, not before its deadline unless stopped',
 'A coroutine that schedules itself after a delay resumes exactly once on a pool thread, never before its deadline unless its stop token was triggered, and (with a free thread) without waiting for unrelated later events, or for a stream of posted work to end, once the deadline has passed. After a stop request it resumes promptly, without waiting for the deadline, and neither side touches the other\'s memory afterwards.',
 ['schedules', 'inputs', 'fault_sequences'], SCHED + '; simulated clocks that jump forward, spurious wake-ups, several delays with equal or different deadlines, stop requests before, during and after registration',
 TESTS + 'they use real sleeps on one timing; stop racing with expiry or with registration is not sampled.',
 ['thread_pool.h', 'stop.h'], [('deadline heap; the stop callback moves an entry to the front', 'thread_pool.h')],
 obs=['simulated time of resumption', 'resumption count', 'use after free, races'])
prop('C17', 'A stop callback runs exactly once iff it was registered when stop was requested',
 'Of any number of stop requests one takes effect: every callback registered at that moment runs exactly once on that requester\'s thread, one constructed later runs inside its constructor, and one destroyed before never runs. Destroying a callback does not return while that callback runs on another thread, does not wait for anything else, and does not deadlock from inside it; whatever was written before the request is visible to the callback.',
 ['schedules', 'histories'], SCHED + '; several sources, requesters and callbacks created and destroyed from any thread, including more callbacks than one internal block holds',
 TESTS + 'request, registration and deregistration are never made to race.',
 ['stop.h', 'detail/stop_state.h', 'detail/stop_state.cpp', 'detail/stop_callback.h'], [('registration slots exchanged atomically by the notifier', 'detail/stop_state.cpp')],
 obs=['callback execution count, thread and time', 'return of the destructor'])
prop('C18', 'Stop state lives exactly as long as it is referenced, and reports truthfully',
 'Tokens, sources and callbacks may be copied, moved, swapped and destroyed on any threads in any order; the shared state is freed exactly once, after the last of them. "Stop requested" is reported by everyone once a request succeeded and never before, and "stop possible" stays true exactly while stop was requested or a source still exists; a failed allocation surfaces as an exception and leaves everything usable.',
 ['schedules', 'histories', 'fault_sequences'], SCHED + '; random histories of handle operations over several threads; allocation failures at any allocation',
 TESTS + 'handle lifetimes are never interleaved, and no allocation fails.',
 ['stop.h', 'detail/stop_state.h', 'detail/stop_token.h', 'detail/stop_source.h'], [('packed reference counts', 'detail/stop_state.h')],
 obs=['heap blocks alive', 'stop_requested/stop_possible compared with a reference model'])
prop('C19', 'Awaiting a stop token resumes exactly once, after the stop was requested',
 'A coroutine awaiting a stop token resumes exactly once, only after a stop was requested and always once it was — whether the request comes before, during or after it suspends — and sees what was written before the request. Awaiting a token that can never be stopped does not hold the coroutine up, and the request, the registration and the resumed coroutine touch nothing the others have already freed.',
 ['schedules'], SCHED + '; one to three awaiting coroutines, requests from any thread at any point of the suspension, coroutines that destroy everything when resumed',
 TESTS + 'the request inside the registration window is not sampled.',
 ['stop.h'], [('the stop callback resumes the coroutine', 'stop.h')],
 obs=['resumption count and time', 'use after free, races'])
prop('C20', 'A timeout requests stop at its deadline unless completed or cancelled first',
 'A timeout requests stop on its source once its time has elapsed, never before unless it was stopped early — through it, its source or the token it was given — which makes it finish promptly instead of at the deadline. Awaiting it resumes exactly once, after the stop was requested; a timeout may be moved while it runs and be reset once it has completed, and leaves nothing running or leaked.',
 ['schedules', 'inputs', 'fault_sequences'], SCHED + '; simulated time with forward jumps; stop requests from several threads and sources, expiry, moves and resets in any order and at any point; failing allocations',
 TESTS + 'they use real sleeps; expiry racing with cancellation is not sampled.',
 ['timeout.h', 'thread_pool.h', 'stop.h'], [('delayed task on a scheduler, cancelled through a second stop source', 'timeout.h')],
 obs=['simulated time of the stop request', 'completion of the timeout'])
prop('C21', 'take_until ends the trigger with the work and delivers the work\'s outcome',
 'Running work until a trigger, the awaiter resumes exactly once, after both the work and the trigger have finished, with exactly the work\'s value or exception whatever the trigger does. The trigger is asked to stop exactly once, when the work has finished and never before, so that neither a fired nor a pending trigger holds the awaiter up; nothing is left running, leaked or touched after being freed.',
 ['schedules', 'inputs'], SCHED + '; tasks and triggers that complete, throw or honour cancellation in either order, on different threads, also tied to the same instant',
 TESTS + 'a tie between task and trigger is not sampled.',
 ['take_until.h', 'timeout.h', 'stop.h'], [('awaits the work, stops the trigger, awaits the trigger', 'take_until.h')],
 obs=['value or exception delivered', 'stop requests on the trigger', 'completion order and simulated time'])
prop('C22', 'Work started on or transferred to a scheduler runs there and keeps its outcome',
 'A task started on a scheduler runs its body exactly once, on that scheduler\'s threads, and its awaiter gets exactly its value, reference or exception, whenever and wherever it is awaited. A coroutine that transfers to a scheduler continues there with its state intact; the inline scheduler continues on the calling thread, and no frame outlives its handle.',
 ['schedules', 'inputs'], SCHED + '; tasks that return values, references or nothing, throw or hop elsewhere, native and macro-style, over one or two pools and the inline scheduler, nested',
 TESTS + 'they observe one run on one timing.',
 ['start_on.h', 'transfer_to.h', 'inline_scheduler.h', 'thread_pool.h'], [('transfers to the scheduler, then awaits the wrapped awaitable', 'start_on.h')],
 obs=['thread of the body and of the awaiter', 'value delivered', 'frame lifetime'])
prop('C23', 'Blocking on an awaitable returns exactly its outcome, exactly when it is done',
 'Synchronously waiting for an awaitable blocks until it has completed — on whatever thread — and then returns exactly its value or rethrows its exception, whether its suspension hook suspends always, conditionally, or transfers to another coroutine. It never returns early and never keeps blocking after completion, and the completing thread touches nothing of the waiter afterwards; a blocking task that is moved, assigned over or dropped after its completion frees what it held exactly once.',
 ['schedules', 'inputs'], SCHED + ', with spurious wake-ups; awaitables of every suspension style completing before, during and after the wait, several waiters at once',
 TESTS + 'completion between the wait\'s check and its sleep, and the waiter returning while the completer still notifies, are not sampled.',
 ['sync_wait.h'], [('event under mutex and condition variable', 'sync_wait.h')],
 obs=['return of the wait', 'value or exception', 'use after free'])

R.append(json.loads('{"id": "C26", "title": "An asynchronous trace lists exactly the awaits that led to it", "statement": "A trace taken in a lazy task lists the place where it was taken and then, innermost first, the place of every await that task is being awaited through — by value, wrapped, through a join of several tasks or a scope — up to the blocking wait, the scope or the eager task at the root, whichever threads these ran on and whatever siblings do meanwhile. Taking a trace changes nothing else.", "quantifier": {"over": ["programs", "schedules"], "text": "generated trees of tasks awaited in every supported way, with hops between threads and concurrent siblings, a trace taken before, between and after awaits; every interleaving of the participating threads at atomic, lock and suspension granularity, every store an atomic load may legally observe under release/acquire"}, "why_tests_cant": "No existing test checks a trace; the chain depends on the shape of the program and is read on other threads than those that built it.", "anchors": {"files": ["macoro/trace.h", "macoro/task.h", "macoro/wrap.h", "macoro/async_scope.h", "macoro/when_all_scope.h", "macoro/detail/when_all_awaitable.h", "macoro/detail/when_all_task.h", "macoro/sync_wait.h"], "state": [], "mechanism": [{"name": "parent pointer and source location set when an awaiter suspends", "where": "macoro/trace.h"}], "observe_at": ["entries of the trace", "data races on the parent chain"], "hook_needed": null}}'))

NA = [
 dict(id='C24', title='Result values propagate the stored value or error faithfully', statement='A result holding a value yields exactly it and one holding an error yields exactly that error, through copies, moves, comparison and unwrapping.',
  quantifier=dict(over=['inputs'], text='all values and operation sequences'), why_tests_cant='Tests sample a few values.', anchors=dict(files=['macoro/result.h'], mechanism=[dict(name='tagged union', where='macoro/result.h')]),
  reason='A pure sequential value type: no schedule, clock, I/O or fault for a simulator to control. Its use inside tasks is exercised by C09.'),
 dict(id='C25', title='Sequence ranges index, slice and compare consistently across wrap-around', statement='A range of sequence numbers has the size, elements, prefix and suffix that modular arithmetic says, for every start and length including wrap-around.',
  quantifier=dict(over=['inputs'], text='all starts and lengths'), why_tests_cant='Tests sample a few ranges.', anchors=dict(files=['macoro/sequence_range.h', 'macoro/sequence_traits.h'], mechanism=[dict(name='modular difference', where='macoro/sequence_traits.h')]),
  reason='Pure arithmetic on its inputs with no nondeterminism to simulate. Ranges handed out by the rings are exercised by C04 and C05.'),
]
claimed = [r for r in R if r['id'] in PROPS]
with open(H + '/properties.jsonl', 'w') as f:
    for r in claimed: f.write(json.dumps({k: v for k, v in r.items() if k[0] != '_'}, ensure_ascii=False) + '\n')
    for r in NA: f.write(json.dumps({k: v for k, v in r.items() if k != 'reason'}, ensure_ascii=False) + '\n')
man = dict(version=1, setup_cmd='python3 check.py --setup',
 checks=[dict(property=r['id'], quick_cmd='python3 check.py %s --tier quick' % r['id'], thorough_cmd='python3 check.py %s --tier thorough' % r['id'], evidence_file='evidence/%s.json' % r['id'],
   technique='deterministic simulation with fault injection (seeded random schedules over the real code, simulated memory model, clock and heap)', level='exploration',
   level_note='Seeded search over schedules, weak-memory reads and faults of the real library code with bounded workloads (up to 14 threads, small sizes); a clean batch is evidence for the explored runs, not a proof. Trusts the simulator (sim/), the scenario oracles (scen/) and g++ instrumentation; every violation replays from its file in a fresh process.') for r in claimed],
 not_applicable=[dict(property=r['id'], reason=r['reason']) for r in NA],
 notes='No hooks in /repo: the seam is namespace std (sim/simstd.h) plus the compiler\'s thread-sanitizer instrumentation of every memory access, both applied when the checks compile /repo. python3 check.py --replay FILE replays a violation.')
json.dump(man, open(H + '/MANIFEST.json', 'w'), indent=1, ensure_ascii=False)
for r in claimed + NA:
    assert len(r['title']) <= 80, r['id']
    for f in r['anchors']['files']:
        if not os.path.exists('/repo/' + f): print('missing', r['id'], f)
