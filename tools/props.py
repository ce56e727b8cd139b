"""The properties, and the generator of properties.jsonl and MANIFEST.json.
Run: python3 tools/props.py"""
import json
import os
import sys

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(V, 'vlib'))

P = []


def prop(id, title, statement, over, quant, why, mech, files=('neco.c',), technique='', note='', na=None, state=()):
    P.append(dict(id=id, title=title, statement=statement, over=over, quant=quant, why=why, mech=mech,
                  files=list(files), technique=technique, note=note, na=na, state=list(state)))


NOTE = ('Every path of the analysed functions within the abstraction: all argument values, all behaviours of other '
        'coroutines at a switch, all results of system calls. Trusts clang, the abstraction of the list, tree and '
        'context switch primitives, and that callers pass valid pointers.')

prop('C01', 'Coroutine operations are refused outside of a coroutine',
     'Every operation that needs a running coroutine, called on a thread where none is running, reports the '
     'permission error (or, for a call that also has bad arguments, the invalid argument error), whatever its '
     'arguments. It has no other effect: nothing is read through a missing runtime, written, allocated, opened, '
     'blocked on or switched to.',
     ['inputs', 'programs'], 'all operations of the API and all their arguments, on a thread without a runtime',
     'The tests call a few dozen operations outside of a coroutine with one set of arguments each; they cannot show '
     'that none of the paths of the others touches the missing runtime.',
     [('permission checks at the head of each operation', 'neco.c, every neco_* function'),
      ('error_guard records the refusal', 'neco.c: errhpnd, error_guard')],
     technique='path-sensitive abstract interpretation: null-runtime dataflow and effect analysis')

prop('C02', 'Invalid arguments are refused without side effects',
     'Every operation given an argument outside of its documented domain (a missing object, a missing function, a '
     'negative count, an oversized message or capacity, an unknown signal number, event kind, cancelation type, '
     'cancelation state or random attribute) reports the invalid argument error and changes nothing. No accepted '
     'argument makes an access outside of a fixed table.',
     ['inputs'], 'all arguments outside of the documented domain, in any state of the object',
     'The tests try one or two invalid values; the ranges are unbounded and the state in which the call is refused '
     'is not varied.',
     [('argument checks at the head of each operation', 'neco.c, every neco_* function')],
     technique='abstract interpretation with interval domain: refused ranges, effect analysis, index ranges')

prop('C03', 'Objects of another runtime are refused and left untouched',
     'A channel, generator, mutex, condition variable, wait group or stream that belongs to the runtime of another '
     'thread is never used: every operation on it, and every select that includes it, reports the permission error, '
     'and nothing of the object is changed.',
     ['inputs', 'programs', 'schedules'], 'all operations, objects in any state, any owner but the running runtime',
     'The tests use one foreign object per kind for a few operations; an operation that forgets the comparison works '
     'in every test that stays on one thread.',
     [('owner stamped at creation and compared by each operation', 'neco.c: rtid of neco_chan, neco_mutex, '
       'neco_cond, neco_waitgroup, neco_stream')],
     technique='abstract interpretation: owner-mismatch dataflow and effect analysis')

prop('C04', 'The last error always agrees with the result',
     'After every operation, the last error reported to the coroutine is exactly the failure that the operation '
     'returned (for results that defer to errno, the code that errno converts to), and no error when the operation '
     'succeeded; a write that stopped short reports a partial write. Nothing that another coroutine does while the '
     'operation waits can change that.',
     ['inputs', 'schedules', 'fault_sequences'],
     'all operations, results of system calls, and interleavings with other coroutines',
     'The last error is one variable per thread that every operation of every coroutine overwrites: only the paths '
     'after the last switch decide, and tests inspect it after a few of them.',
     [('error_guard and async_error_guard at the end of each operation', 'neco.c: errhpnd, error_guard'),
      ('conversion between errno and result codes', 'neco.c: neco_errconv_from_sys, neco_errconv_to_sys')],
     technique='abstract interpretation: result/last-error agreement on every return path')

prop('C05', 'A finished operation leaves nothing registered behind',
     'When a waiting operation ends, for whatever reason (done, deadline, cancelation, coroutine exit), the coroutine '
     'is no longer registered anywhere it waited: not in the queue of the object, not among the deadlines, not among '
     'the file descriptor waiters, and no case of a select remains queued. While it waits, it is registered with '
     'something that can wake it.',
     ['schedules', 'fault_sequences'], 'all waiting operations, all ways in which the wait can end',
     'A stale registration corrupts memory or wakes an unrelated operation much later; it needs a particular order of '
     'deadline, cancelation and wake-up, in each of a dozen operations.',
     [('removal after the pause', 'neco.c: every operation around sco_pause/copause'),
      ('deadline and event registration', 'neco.c: copause, cowait, evaat, dlqueue')],
     technique='typestate/registration analysis on every path through the pause')

prop('C06', 'Statistics count exactly the coroutines that wait',
     'The reported statistics are exact at every moment at which a coroutine can read them: a coroutine that waits is '
     'counted in the one category of the operation that it waits in, and one that does not wait is counted in none, '
     'however its waits ended. The number of coroutines is the number of those started and not yet ended.',
     ['schedules', 'histories'], 'all operations and all ways in which a wait can end',
     'Tests read the statistics in a few states; a counter that drifts on one exit path only shows after that path '
     'was taken.',
     [('counters around each pause', 'neco.c: rt->n* counters, getstats'),
      ('registry of all coroutines', 'neco.c: coentry, coexit')],
     technique='counter-balance analysis on every path')

prop('C07', 'A deadline ends the wait, and only a passed deadline does',
     'An operation with a deadline reports a timeout only when its deadline has passed. Sleeping, joining, canceling, '
     'locking, waiting for a wait group, random bytes and I/O time out before they do anything else when their '
     'deadline has already passed at the call. An operation that waits is woken when its deadline passes and then '
     'waits no longer (I/O may still succeed if the descriptor is ready at last). An operation without a deadline '
     'never times out.',
     ['schedules', 'inputs'], 'all operations with a deadline, all deadlines and all times',
     'Tests wait for real deadlines in a few operations; they do not combine expiry with a wake-up, a cancelation or '
     'a partial result.',
     [('check on entry', 'neco.c: checkdl'), ('registration', 'neco.c: copause, dlqueue'),
      ('expiry', 'neco.c: rt_sched_paused_step')],
     technique='abstract interpretation: deadline dataflow from parameter to queue, outcome analysis after each pause')

prop('C08', 'Cancelation is delivered exactly once and never lost',
     'A cancelation request is accepted for exactly the coroutines that allow it, and each accepted request is consumed '
     'by exactly one operation of the target: that operation either reports canceled or, when the target asked for '
     'immediate cancelation, ends the coroutine. An operation that completed instead leaves the request pending for '
     'the next one, no operation waits while a request is pending, and a request is never reported without having '
     'been made.',
     ['schedules', 'histories'], 'all operations, all moments of the request, all cancelation types and states',
     'Each operation handles cancelation by itself at several points; a lost or doubled cancelation needs the request '
     'to arrive at one particular point.',
     [('pending flag and its consumption', 'neco.c: checkdl, co->canceled'),
      ('request', 'neco.c: cancel_dl, setcancelstate'), ('immediate cancelation', 'neco.c: async_error_guard')],
     technique='typestate analysis of the pending request on every path')

prop('C09', 'What was handed to a waiting coroutine is never lost',
     'Once another coroutine has completed the operation of a waiting one (delivered the message it waits for, taken '
     'the message it sends, handed it the lock, ended its wait), the waiting operation succeeds, even when its deadline '
     'passes or it is canceled before it runs again. So no message is lost or duplicated and no lock is held by '
     'nobody.',
     ['schedules'], 'all interleavings of completion, deadline and cancelation before the waiter runs',
     'The window is between the completion and the next run of the waiter; tests never put a deadline or cancelation '
     'in there.',
     [('completion flag set by the waker', 'neco.c: co->granted'),
      ('result after the pause', 'neco.c: chan_send0, chan_recv0, chan_select, mutex_lock, waitgroup_wait, cond_wait')],
     technique='outcome analysis: every operation, every combination of wake reasons at each pause')

prop('C10', 'Try operations never wait and have no effect when refused',
     'A try operation (receive, select, lock, read lock) never waits, never gives up control before it has decided, '
     'and never leaves the coroutine registered. When it reports that it would have to wait, nothing of the object has '
     'changed; otherwise it did the whole operation.',
     ['inputs', 'schedules'], 'all states of the object, all arguments',
     'Tests call each try operation in two or three states of the object.',
     [('try paths', 'neco.c: neco_chan_tryrecv, neco_chan_tryselect, neco_mutex_trylock, neco_mutex_tryrdlock')],
     technique='reachability and effect analysis')

prop('C11', 'A waiter taken from a queue is woken, exactly once, in order',
     'Coroutines that wait for the same object are served in the order in which they began to wait. Each one that is '
     'taken from the queue is scheduled exactly once, and only waiters are scheduled that were taken from a queue or '
     'whose deadline, cancelation, event or resumption is due.',
     ['schedules', 'histories'], 'all operations that wake, all contents of the queues',
     'A waiter that is dequeued and not woken on one path sleeps forever; tests have few waiters and few orders.',
     [('queues', 'neco.c: colist_push_back, colist_pop_front'), ('wake-ups', 'neco.c: sco_resume call sites')],
     technique='linear-resource (obligation) analysis of dequeued waiters')

prop('C12', 'A closed channel refuses sends, drains, then reports closed',
     'After a channel is closed, every send, broadcast and close on it reports closed; receives still get the '
     'messages sent before, including those of senders that already waited, in order, and only then report closed. '
     'Closing wakes every waiting receiver, which reports closed with its output zeroed.',
     ['schedules', 'histories'], 'all states of the channel and all waiting coroutines',
     'Tests close channels in a handful of states.',
     [('close', 'neco.c: chan_close'), ('closed checks', 'neco.c: chan_send0, chan_recv0, chan_select')],
     technique='abstract interpretation: transition relation of the channel on every path')

prop('C13', 'Messages arrive unchanged, in order, within the capacity',
     'The messages of a channel are received in the order in which they were sent, each exactly once and byte for byte, '
     'through the buffer or directly from a waiting sender; the buffer never holds more than its capacity and is never '
     'accessed outside of it. A broadcast delivers to every waiting receiver and nobody else, and reports how many.',
     ['inputs', 'schedules', 'histories'], 'all message sizes, capacities, fill levels and waiting coroutines',
     'The buffer is a ring: its invariants depend on message size, capacity and position; tests use few of them.',
     [('ring buffer', 'neco.c: cbufslot, cbufpush, cbufpop'), ('direct delivery', 'neco.c: chan_send0, chan_recv0')],
     technique='abstract interpretation: ring invariants and copy provenance on every path')

prop('C14', 'Channels and generators live exactly as long as their references',
     'A channel or generator is destroyed exactly when its last reference is released: never while a retained reference '
     'remains, and never not at all. A generator is closed when its coroutine ends, and a '
     'destroyed channel is not used again.',
     ['histories', 'schedules'], 'all sequences of make, retain, release, generator start and end',
     'Tests balance references in simple sequences; a leak or a premature free shows only under memory pressure or '
     'reuse.',
     [('reference count', 'neco.c: chan_retain, chan_release'), ('pool of channels', 'neco.c: zchanpool, zchanpush'),
      ('generator', 'neco.c: start, coexit')],
     technique='reference-count balance and use-after-release typestate')

prop('C15', 'A select completes exactly one of its cases',
     'A select over several channels receives at most one message, from the case that it reports, and takes nothing '
     'from the others; it reports the case index within the range of its cases. If no case is ready it waits on all of '
     'them, and whichever becomes ready first completes it, all others being withdrawn.',
     ['schedules', 'inputs'], 'all numbers of cases, channel states and interleavings',
     'Tests select over two or three channels with one ready at a time.',
     [('select', 'neco.c: chan_select, select cases queued as pseudo-waiters')],
     technique='abstract interpretation: case accounting on every path')

prop('C16', 'A mutex excludes, and is always handed on',
     'At no time do a writer and anyone else, hold a mutex; a lock operation that succeeds holds it, one that fails '
     'does not. An unlock that frees the mutex hands it on to the longest waiting coroutine (or to all readers at the '
     'front), so it is never free while somebody waits.',
     ['schedules', 'histories'], 'all sequences of lock, read lock, try, unlock, deadline and cancelation',
     'The invariant relates lock state, reader count and queue over all histories; tests run a few.',
     [('mutex', 'neco.c: mutex_trylock, mutex_tryrdlock, mutex_lock_dl, mutex_unlock, mutex_handoff')],
     technique='transition-relation analysis of the lock state (inductive invariant)')

prop('C17', 'A condition wait releases and reacquires its mutex',
     'A condition wait enters the queue and releases the mutex without letting any other coroutine run in between, and '
     'always returns holding the mutex again when it was valid, however the wait ended. A signal wakes the longest '
     'waiting coroutine, a broadcast all of them, and neither when nobody waits.',
     ['schedules'], 'all endings of the wait and all states of the mutex at that time',
     'Tests do not cancel or expire a waiter that has to queue for the mutex again.',
     [('condition variable', 'neco.c: cond_wait_dl, cond_signal, cond_broadcast')],
     technique='abstract interpretation: atomicity and lock-held analysis on every path')

prop('C18', 'A wait group releases its waiters exactly at zero',
     'The count of a wait group is the sum of the additions minus the completions; it never becomes negative, an '
     'operation that would make it so is refused without effect. A wait returns at once when the count is zero, and '
     'otherwise exactly when it reaches zero, when every waiter is released.',
     ['histories', 'inputs'], 'all sequences of add, done and wait, all deltas',
     'Tests use small positive counts and one waiter.',
     [('wait group', 'neco.c: waitgroup_add, waitgroup_done, waitgroup_wait')],
     technique='transition-relation analysis with intervals')

prop('C19', 'A coroutine that ends wakes those waiting for it and cleans up',
     'However a coroutine ends (return, exit, cancelation), its clean-up handlers run once each in reverse order, '
     'every coroutine joined on it or canceling it is woken exactly once, its generator is closed, its signal '
     'watches are dropped and its arguments are freed. It does so exactly once even when a handler exits or is '
     'canceled.',
     ['schedules', 'programs'], 'all ways to end, all handlers and waiters',
     'Tests end coroutines in the simple ways with at most a few waiters.',
     [('end of a coroutine', 'neco.c: coexit, cleanup, coentry')],
     technique='obligation analysis on every path of the exit sequence')

prop('C20', 'A started coroutine begins fresh with exactly its arguments',
     'A new coroutine receives exactly the arguments that it was started with, and begins with no trace of any '
     'coroutine that ended before: no pending cancelation, clean-up handler, signal watch, generator, deadline or '
     'waiter, the default cancelation type and state, and an identity that was never used before. A start that fails '
     'starts nothing and leaks nothing.',
     ['histories', 'inputs', 'fault_sequences'], 'all histories of the recycled memory, all argument counts',
     'Recycled memory is only stale after an unusual previous life.',
     [('start and pool', 'neco.c: start, startv, coroutine_new, rt->pool')],
     technique='field-initialisation dataflow over the recycled object')

prop('C21', 'I/O waits without blocking the thread, and completes exactly',
     'An I/O operation on a descriptor that is not ready lets other coroutines run and retries once it is, waiting '
     'for the right kind of event; interruptions are retried. A write continues after a short write from exactly the '
     'next byte, and its result is the number of bytes actually written; a read or accept reports what the system '
     'reported.',
     ['fault_sequences', 'inputs', 'schedules'], 'all sequences of results of the system calls',
     'Short writes, interruptions and would-block results rarely occur in tests.',
     [('I/O operations', 'neco.c: read_dl, write_dl, accept_dl, connect_dl, wait_dl')],
     technique='abstract interpretation over all system-call results: retry, offset and result accounting')

prop('C22', 'No file descriptor is leaked or closed twice',
     'An operation that opens descriptors or address lists and fails, times out or is canceled at any point releases '
     'each of them exactly once; one that succeeds returns exactly the descriptor that it opened, in non-blocking mode, '
     'and closes nothing that is still in use. Closing a stream closes its descriptor exactly once. (Descriptor 0 is '
     'assumed to be in use by the program.)',
     ['fault_sequences', 'schedules'], 'all failures of system calls and all moments of cancelation',
     'Each failing system call on each path would have to be injected.',
     [('dial, serve', 'neco.c: dial_connect_dl, dial_tcp_dl, listen_tcp_dl, listen_unix_dl'),
      ('streams', 'neco.c: stream_close_dl'), ('event queue', 'neco.c: rt_start, rt_release')],
     technique='ownership (resource) analysis of descriptors on every path, cancelation exits included')

prop('C23', 'All memory goes through the configured allocator, freed once',
     'Every allocation that an operation makes is freed exactly once or handed to the object that it belongs to, on '
     'every path including failures and cancelation; nothing is used after it was freed, and a failed allocation is '
     'reported and not used. All of it goes through the allocator that the program configured (stacks of coroutines '
     'are mapped instead).',
     ['fault_sequences', 'configurations', 'schedules'], 'all allocation failures and exits',
     'Allocation failures are injected in a few places only.',
     [('allocator', 'neco.c: neco_malloc, neco_realloc, neco_free'), ('owners', 'neco.c: every caller')],
     technique='ownership (resource) analysis of heap objects on every path')

prop('C24', 'A buffered stream neither loses, repeats nor overruns bytes',
     'The bytes read from a stream are exactly those received, in order, and the bytes written reach the descriptor in '
     'order, each once; what was not yet flushed stays buffered when a flush fails or is partial. The buffers are '
     'never accessed outside of their capacity, and an unread puts back only a byte that was read. (One coroutine at a '
     'time uses each direction of a stream.)',
     ['inputs', 'fault_sequences'], 'all sizes, fill levels and partial results',
     'The buffer positions depend on the history of sizes; tests use a few.',
     [('streams', 'neco.c: stream_read_dl, stream_readfull_dl, stream_write_dl, stream_flush_dl, '
       'stream_unread_byte')],
     technique='abstract interpretation: buffer invariants and copy provenance')

prop('C25', 'Each watched signal reaches one waiting watcher; others have default effect',
     'Every occurrence of a signal that somebody watches is recorded by the signal handler and delivered to exactly '
     'one coroutine that watches it and waits for signals: the one that waits longest, lowest signal number first; it '
     'stays pending until such a coroutine waits. A wait for signals waits for all the signals that the coroutine '
     'watches and reports the number of the one delivered. The signal handler does nothing that is not safe in a '
     'signal handler. Watching and unwatching keep the number of watchers of each signal exact, and a signal that '
     'nobody watches ends the program, except for SIGPIPE, which is ignored.',
     ['schedules', 'histories'], 'all signals, watchers and moments of arrival',
     'Tests send one or two signals to one watcher at quiet moments.',
     [('signals', 'neco.c: sighandler, sigallowhandler, rt_sched_signal_step, signal_watch, signal_unwatch, '
       'signal_wait_dl')],
     technique='abstract interpretation: effects of the signal handler and transition table of the delivery step')

prop('C26', 'Background work runs once and is waited for',
     'A background job runs exactly once, and the caller continues only after it ran, whatever deadlines or '
     'cancelations occur meanwhile; when it cannot be given to a background thread, the caller lets others run and '
     'tries again (a read or write runs in the caller instead), and it is neither lost nor run twice. State '
     'shared with background threads is only touched under the lock, every lock is released, and waiting threads are '
     'signaled when there is something for them.',
     ['schedules', 'fault_sequences'], 'all interleavings with worker threads, thread creation failures',
     'Races between threads are not reproducible in tests.',
     [('worker', 'neco.c: worker_submit, worker_entry, worker_free (deps/worker.c)'),
      ('work', 'neco.c: work, rt_sched, iowork')],
     files=('neco.c', 'deps/worker.c'),
     technique='lockset and lock-balance analysis, outcome analysis of the waiting caller')

prop('C27', 'Random bytes fill exactly the requested buffer',
     'A request for random bytes fills every byte of the requested range and none outside of it, for every size and '
     'both kinds of generator. The seeded generator depends on and advances only its own state, so equal seeds give '
     'equal sequences of requests, and setting the seed reports the previous one.',
     ['inputs', 'histories'], 'all sizes and seeds',
     'Tests use a few sizes.',
     [('random', 'neco.c: pcgrandom_buf, arc4random_buf, rand_dl, rand_setseed')],
     technique='abstract interpretation: write coverage and state dependence')

prop('C28', 'Every error code has its own text and converts back',
     'Every documented error code has its own name and description, any other value is reported as unknown, and '
     'neither lookup fails for any value. Converting a code to errno and back gives the same code, and an errno that '
     'has no code of its own becomes the general error.',
     ['inputs'], 'all integers',
     'Tests compare a few codes.',
     [('tables', 'neco.c: neco_strerror, neco_errconv_from_sys, neco_errconv_to_sys')],
     technique='constant propagation through the lookup functions for every code')

prop('C29', 'The scheduler runs every ready coroutine exactly once',
     'A coroutine that was started, yielded or was resumed is scheduled exactly once and runs, in order; one that is '
     'paused runs only when resumed, and resuming one that is not paused has no effect. The counts of running, '
     'scheduled and paused coroutines and the notion of the running one are exact across every switch, a coroutine '
     'that is switched to continues on its own stack where it left, with every register a callee must preserve, and the '
     'memory of an ended one is released exactly once after it was left.',
     ['schedules', 'histories', 'configurations'], 'all sequences of start, yield, pause, resume and exit',
     'Tests exercise simple sequences.',
     [('coroutine core', 'neco.c: sco_start, sco_yield, sco_pause, sco_resume, sco_exit, sco_switch (deps/sco.c)'),
      ('machine switch', 'neco.c: llco_start, llco_switch, llco_cleanup_last, _llco_asm_switch (deps/llco.c)')],
     files=('neco.c', 'deps/sco.c', 'deps/llco.c'),
     technique='abstract interpretation of each operation of the core against an abstract scheduler; term analysis of the disassembled switch')

prop('C30', 'Queue and index primitives keep their structure',
     'The ordered indexes of coroutines (by identity, by deadline, by descriptor and kind) use a strict total order in '
     'which distinct coroutines are distinct, and never subtract or truncate in a way that overflows. Adding to and '
     'removing from a waiting queue relinks exactly its neighbours and leaves the removed coroutine unlinked, so that '
     'removing it twice is harmless.',
     ['inputs', 'histories'], 'all keys and all queue contents',
     'Order and relinking errors need particular keys or positions.',
     [('comparators', 'neco.c: all_compare, dl_compare, evcompare, sco_compare'),
      ('queue', 'neco.c: colist_init, colist_push_back, colist_pop_front, remove_from_list')],
     files=('neco.c', 'deps/sco.c', 'deps/aat.h'),
     technique='symbolic order analysis of the comparators; shape transfer of the list primitives')

prop('C31', 'A coroutine stack is exclusively its own, guarded, and reused safely',
     'A stack is given to one coroutine at a time, is at least as large as configured, lies inside of memory that the '
     'runtime mapped, and has its guard pages in place; it is given back only after the coroutine left it for good. '
     'Whatever is mapped is unmapped once, with the size it was mapped with, and a failed mapping is reported.',
     ['histories', 'fault_sequences', 'configurations'], 'all sequences of get and put, all mapping failures',
     'Overlaps and lost stacks need long histories with several groups.',
     [('stack manager', 'neco.c: stack_get, stack_put, stack_group_*, stack_mgr_* (deps/stack.c)'),
      ('release after the last switch', 'neco.c: cleanup callback')],
     files=('neco.c', 'deps/stack.c'),
     technique='region arithmetic and ownership analysis')

prop('C32', 'Panic-on-error stops the program exactly for misuse',
     'With panic on error enabled, an operation that fails with invalid argument, permission or out of memory ends the '
     'program; no other outcome does. With it disabled no operation ends the program because of an error result. (A '
     'write to a closed pipe on standard output or error ends the program in both settings.)',
     ['inputs', 'configurations'], 'all operations and results, both settings',
     'A panic ends the test process.',
     [('errhpnd', 'neco.c: errhpnd, env_paniconerror')],
     technique='abstract interpretation: reachability of the panic per result code')

prop('C33', 'A ready descriptor wakes exactly its waiters',
     'A coroutine that waits for a descriptor to become readable or writable is woken when it becomes so, closes or '
     'fails, also when others wait for the same descriptor and for the other direction, and is not woken by events of '
     'another descriptor or direction. As long as anyone waits for a descriptor, the system is asked '
     'for all the events waited for.',
     ['schedules', 'histories'], 'all sets of waiters on all descriptors, all reported events',
     'Tests have one waiter per descriptor.',
     [('event registration', 'neco.c: wait_dl, wait_dl_addevent, evmap'), ('event queue', 'neco.c: rt_rc_step'),
      ('event delivery', 'neco.c: rt_sched_event_step')],
     technique='abstract interpretation: event arming and delivery table')

prop('C34', 'The runtime starts once per thread and releases everything',
     'Starting a runtime in a thread that already has one only adds a coroutine; a new runtime runs until its last '
     'coroutine ends and then releases all that it acquired: memory, descriptors, worker threads, signal handlers and '
     'the alternate signal stack, and the thread can start another. A start that fails at any point releases what '
     'it had acquired and reports the failure.',
     ['fault_sequences', 'histories'], 'all failures during start, all states at the end',
     'Failures of individual steps of the start are not injected.',
     [('runtime', 'neco.c: run, rt_scheduler, rt_handle_signals, rt_restore_signal_handlers')],
     technique='resource acquisition/release matching on every path')

prop('C35', 'The scheduler never sleeps past something that is due',
     'The scheduler blocks the thread only when no coroutine is ready, no signal is pending and no background job is '
     'under way, and then for at most a second and never beyond the earliest deadline. It looks at the descriptors '
     'whenever coroutines wait for some. In each step, every coroutine whose operation was completed, whose '
     'background job is done or whose deadline has passed is scheduled, in order.',
     ['schedules', 'inputs'], 'all sets of waiting coroutines, deadlines and times',
     'Oversleeping shows as latency in rare combinations only.',
     [('scheduler loop', 'neco.c: rt_sched_paused_step, rt_sched_event_step')],
     technique='abstract interpretation of the scheduler step: bound of the blocking time')

prop('C40', 'Coroutines of equal standing share the processor fairly',
     'Every runnable coroutine runs again within a bounded number of switches.',
     ['schedules'], 'all programs', 'Needs unbounded histories.',
     [('run queue', 'neco.c: sco_list')],
     na='a bound over unbounded executions of arbitrary programs: no static argument in reach; the order in which the '
        'run queue is served is part of C29')
prop('C41', 'Deadlines are met with small latency',
     'A sleeping coroutine is woken within a small time after its deadline.',
     ['schedules'], 'all loads', 'Wall-clock latency depends on load.',
     [('scheduler', 'neco.c: rt_sched_event_step')],
     na='wall-clock behaviour of the operating system; what the code decides (never asking to sleep longer than the '
        'earliest deadline) is C35')
prop('C42', 'The context switch preserves all machine state',
     'All callee-saved registers and the stack of a coroutine are preserved across a switch on every architecture.',
     ['configurations'], 'all architectures', 'Only one architecture runs here.',
     [('context switch', 'neco.c: _llco_asm_switch (deps/llco.c)')], files=('neco.c', 'deps/llco.c'),
     na='hand-written assembly per architecture in inline asm strings: a static analysis of machine code for ten '
        'architectures is out of reach here')
prop('C43', 'The random generators are of good quality',
     'The default random bytes are unpredictable and uniformly distributed.',
     ['inputs'], 'all outputs', 'Statistical.',
     [('random', 'neco.c: rand_dl')],
     na='a statistical and cryptographic quality, not decidable from the source by static analysis')
prop('C44', 'The ordered indexes stay balanced trees over every history',
     'After any sequence of insertions and deletions the indexes contain exactly the live elements in order, with '
     'logarithmic depth.',
     ['histories'], 'all sequences of operations', 'Unbounded histories.',
     [('AA tree', 'neco.c: AAT_IMPL (deps/aat.h)')], files=('neco.c', 'deps/aat.h'),
     na='needs an inductive proof over unbounded recursive heap shapes (shape analysis of AA-tree rebalancing), beyond '
        'the abstract domains here; the orders and the uses of the trees are decided in C05 and C30')


def main():
    import registry
    with open(os.path.join(V, 'properties.jsonl'), 'w') as f:
        for p in P:
            a = {'files': p['files'], 'mechanism': [{'name': n, 'where': w} for n, w in p['mech']]}
            f.write(json.dumps({'id': p['id'], 'title': p['title'], 'statement': p['statement'],
                                'quantifier': {'over': p['over'], 'text': p['quant']},
                                'why_tests_cant': p['why'], 'anchors': a}) + '\n')
            assert len(p['title']) <= 80, p['title']
    checks, na = [], []
    for p in P:
        if p['id'] in registry.CHECKS:
            checks.append({'property': p['id'], 'quick_cmd': 'python3 check.py ' + p['id'],
                           'thorough_cmd': 'python3 check.py %s --thorough' % p['id'],
                           'technique': 'static analysis: ' + p['technique'], 'level': 'other',
                           'level_note': (p['note'] + ' ' if p['note'] else '') + NOTE})
        else:
            na.append({'property': p['id'], 'reason': p['na'] or 'no check built yet'})
    json.dump({'version': 1, 'setup_cmd': 'python3 -c pass', 'checks': checks, 'not_applicable': na},
              open(os.path.join(V, 'MANIFEST.json'), 'w'), indent=1)
    print(len(checks), 'checks', len(na), 'not claimed')


if __name__ == '__main__':
    main()
