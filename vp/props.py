"""The properties and the harness entries that decide them. gen.py writes properties.jsonl and MANIFEST.json from this."""
C = 'framework/core/'
I = C + 'include/plain/'
S = C + 'src/'
AL = ['--alloc-limit', '100000']
PROPS = {}

def prop(pid, title, statement, over, qtext, why, files, mech, entries, observe, assumptions=(), state=()):
    PROPS[pid] = dict(level='other', title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech, entries=entries, observe=observe,
                      assumptions=list(assumptions), state=list(state))

def H(file, name, what, bounds, **kw):
    return dict(file=file, name=name, what=what, bounds=bounds, **kw)

prop('P01', 'Byte streams and ring buffers are lossless FIFOs',
     'For every sequence of writes, reads, peeks and removals, a byte stream or ring buffer returns exactly the bytes that were written, in order, without loss, duplication or corruption, and its size, emptiness and capacity queries agree with that content. Growing keeps the stored content, a fixed-size ring accepts only what fits, and typed values are stored most significant byte first and read back unchanged. One producer thread and one consumer thread exchanging single elements through a ring see the same order without data races.',
     ['histories', 'inputs', 'schedules'], 'all operation sequences, all sizes (including wrap-around and growth boundaries), all data, all producer/consumer interleavings',
     'tests use a few fixed strings and sizes; wrap-around phase x growth factor x operation order is a product no sample covers',
     [I + 'basic/ring.h', I + 'net/stream/basic.h', S + 'net/stream/basic.cc'], [('ring index arithmetic and growth', I + 'basic/ring.h'), ('stream wrapper', S + 'net/stream/basic.cc')],
     [H('stream.cc', 'ring_fixed', 'every operation of a fixed ring against an array model', 'capacity 4, 3 operations (thorough 4), sizes 0..5, all byte values', params={'ops': 3}, tparams={'ops': 4}, weight=3),
      H('stream.cc', 'ring_dynamic', 'every operation of a growing ring against an array model', 'initial capacity 2, 3 operations (thorough 4), sizes 0..5', params={'ops': 3}, tparams={'ops': 4}, weight=3),
      H('stream.cc', 'ring_dynamic4', 'the same with initial capacity 4', 'initial capacity 4, 3 operations, sizes 0..6', params={'ops': 3}, weight=3),
      H('stream.cc', 'ring_phase', 'growth from every head/tail phase', 'phase 0..9 (thorough 17), fill 0..4, growth by up to 29 bytes', params={'phase': 9}, tparams={'phase': 17}, weight=3),
      H('stream.cc', 'ring_big', 'growth by large factors in one write', '14 sizes from 15 to 4900 bytes into rings of 2 and 128, 4 phases, 3 fill levels', opts=['--alloc-limit', '200000']),
      H('stream.cc', 'stream_ops', 'stream write/read/peek/remove in all overloads', '4 operations with sizes {1,64,100,129} (thorough: 3 operations with 11 sizes up to 520)', params={'ops': 4, 'sizes': 4}, tparams={'ops': 3, 'sizes': 11}, weight=4),
      H('stream.cc', 'stream_typed', 'typed operators', 'all values of 1..8 byte integers, float, double; two buffer phases'),
      H('stream.cc', 'ring_spsc', 'one producer and one consumer thread', 'capacity 2, 3 elements, all interleavings', params={'n': 3}, opts=['--races'], mt=True)],
     ['bytes returned by read/peek/remove', 'size(), empty(), full()'])

prop('P02', 'Stream to socket transfer loses and reorders nothing',
     'Whatever mixture of complete, partial, would-block, interrupted and failing transfers the operating system returns, bytes queued for sending reach the socket as an exact in-order prefix and the rest stays queued, and bytes received from the socket are queued exactly in order. The reported count equals what was transferred, and a peer shutdown or error is reported as an error rather than as progress. A stream whose socket is gone performs no system call and keeps its data.',
     ['fault_sequences', 'inputs', 'histories'], 'all sequences of send/receive outcomes at every call, all buffer phases, all data',
     'tests use a loopback socket that accepts everything at once; partial transfers inside a wrapped buffer never happen there',
     [S + 'net/stream/basic.cc', S + 'net/socket/basic.cc', S + 'net/socket/api.cc', I + 'basic/ring.h'], [('scatter of the wrapped ring into send/recv calls', S + 'net/stream/basic.cc'), ('socket send/recv wrappers', S + 'net/socket/basic.cc')],
     [H('netio.cc', 'io_push', 'flush to a socket with arbitrary outcomes', '2 rounds, chunks {1,90,128,0}, 4 system calls each with 6 outcomes (thorough 3 rounds, 5 sizes)', params={'rounds': 2, 'sizes': 4}, tparams={'rounds': 3, 'sizes': 5, 'calls': 5}, reach=['end', 'all_sent', 'partial'], weight=4),
      H('netio.cc', 'io_pull', 'fill from a socket with arbitrary outcomes', 'sources of {1,20,130,300} bytes, 2 rounds (thorough 3), 5 readiness hints, 6 outcomes per call', params={'rounds': 2}, tparams={'rounds': 3}, reach=['end', 'all_received'], weight=4),
      H('netio.cc', 'io_dead', 'no socket, no system call', '3 bytes, closed or destroyed socket')],
     ['arguments of send/recv', 'stream content'], ['send, recv, ioctl, getsockopt and close are replaced by stand-ins returning any documented outcome'])

prop('P03', 'Packet framing round trips and rejects what it must',
     'Every packet within the configured limits that is encoded into a stream is decoded once with the same identifier, flags and body, in order, however the bytes were split on arrival. For arbitrary received bytes the decoder either consumes exactly one well-formed packet, or consumes nothing and asks for more, or reports the stream invalid when the identifier or length exceeds the limits; it never reads or writes out of bounds.',
     ['inputs', 'histories'], 'all identifiers, bodies and limits up to the bound, all byte strings, all split points',
     'tests send a handful of well-formed packets whole',
     [S + 'net/stream/codec.cc', S + 'net/packet/basic.cc'], [('encode/decode of the packet head', S + 'net/stream/codec.cc')],
     [H('codec.cc', 'codec_roundtrip', 'two packets through one stream, split anywhere', 'bodies 0..3 bytes (thorough 6), all ids, all splits', params={'body': 3}, tparams={'body': 6}, weight=3),
      H('codec.cc', 'codec_arbitrary', 'decoder on arbitrary bytes and arbitrary limits', '0..12 arbitrary bytes, all 32-bit limits', reach=['accepted', 'rejected', 'short', 'end'], weight=2),
      H('codec.cc', 'codec_large', 'long bodies at the limit, arriving in two parts', '10 lengths from 127 to 70003, all ids, symbolic first, middle and last byte', opts=['--alloc-limit', '2000000'])],
     ['decoded packets', 'bytes left in the stream', 'reported error'])

prop('P04', 'Line framing delivers each line exactly once',
     'Text lines arriving on a line-oriented connection are delivered one at a time, complete, in order and without their terminator, however the bytes were split on arrival. An incomplete line stays buffered until its end arrives, and a line longer than the configured maximum is reported as an error without looking at more bytes than the limit. The decoder never reads out of bounds on any input.',
     ['inputs', 'histories'], 'all byte strings up to the bound, all split points, all limits up to the bound', 'tests send a few short complete lines',
     [S + 'net/stream/codec.cc'], [('line decoder', S + 'net/stream/codec.cc')],
     [H('codec.cc', 'line_roundtrip', 'two lines, split anywhere', 'lines 0..3 arbitrary non-newline bytes', params={'body': 3}, weight=2),
      H('codec.cc', 'line_arbitrary', 'decoder on arbitrary bytes with any limit', '0..8 arbitrary bytes, limits 1..6', reach=['line', 'toolong', 'end'], weight=2)],
     ['decoded packets', 'bytes left in the stream', 'reported error'])

prop('P05', 'Packets return the values written to them',
     'Any sequence of values of the supported types written to a packet is read back unchanged and in order, consuming the packet completely. Each status flag can be set and cleared independently of the others, and length and remaining-byte queries agree with the content. Reading from a packet with arbitrary content never reads beyond its end: missing data yields nothing.',
     ['inputs', 'histories'], 'all value sequences up to the bound, all flag histories, all packet contents', 'tests write and read one fixed mix of values',
     [I + 'net/packet/basic.h', S + 'net/packet/basic.cc'], [('typed read/write', I + 'net/packet/basic.h'), ('flags and offset', S + 'net/packet/basic.cc')],
     [H('codec.cc', 'packet_values', 'mixed value sequences', '3 values (thorough 4) of any supported type, all bits symbolic, strings 0..3', params={'n': 3}, tparams={'n': 4}, weight=2),
      H('codec.cc', 'packet_large', 'long texts and byte strings', '11 lengths from 15 to 70001, text, bytes and raw', opts=['--alloc-limit', '2000000']),
      H('codec.cc', 'packet_flags', 'flag and size bookkeeping', '4 flag operations (thorough 6), then drop/clear', params={'n': 4}, tparams={'n': 6}),
      H('codec.cc', 'packet_hostile', 'reads on arbitrary content', 'up to 8 arbitrary bytes, length prefixes symbolic', opts=AL)],
     ['values read', 'flags', 'lengths'])

prop('P06', 'Remote-call values survive packing unchanged',
     'Every value of every supported type (integers of all widths, floating point numbers, booleans, strings, byte vectors, sequences, fixed arrays, maps and user objects, nested) that is packed is unpacked equal to the original and consumes exactly its own bytes, so that following values are unaffected. This holds for every bit pattern, including negative and extreme integers, non-finite floats and sizes at encoding boundaries.',
     ['inputs', 'programs'], 'all values of each type; container sizes at every encoding boundary within the bound', 'tests pack a few small constants',
     [S + 'net/rpc/packer.cc', S + 'net/rpc/unpacker.cc', I + 'net/rpc/packer.h', I + 'net/rpc/unpacker.h'], [('type-tagged encoding', S + 'net/rpc/packer.cc'), ('decoder', S + 'net/rpc/unpacker.cc')],
     [H('rpc.cc', 'rpc_ints', 'all integers of all widths, mixed with a neighbour value', 'all 2^8..2^64 values of each width', reach=['int8', 'int16', 'int32', 'int64', 'uint8', 'uint16', 'uint32', 'uint64', 'end'], weight=4),
      H('rpc.cc', 'rpc_float', 'all floats', 'all 2^32 bit patterns (NaN stays NaN)', weight=5),
      H('rpc.cc', 'rpc_double', 'all doubles', 'all 2^64 bit patterns (NaN stays NaN)', weight=5),
      H('rpc.cc', 'rpc_containers', 'strings, vectors, lists, sets, maps, arrays', '13 sizes from 0 to 257, symbolic elements', opts=AL, weight=4),
      H('rpc.cc', 'rpc_large', 'sizes at the boundaries of the wide length fields', 'strings and byte vectors of 7 sizes from 32767 to 70001, vectors of 65534..65536, a hash map of 65536 elements', opts=['--alloc-limit', '4000000', '--max-insts', '400000000'], weight=3),
      H('rpc.cc', 'rpc_objects', 'nested user objects', 'all scalar values, nested containers', opts=AL, weight=2)],
     ['unpacked values', 'error state'])

prop('P07', 'Unpacking arbitrary bytes is safe and honest',
     'Unpacking any byte string as any supported type terminates, stays within the buffer and within memory proportional to the input, and never corrupts memory. If the message is truncated an error is reported, and a message cut at any point never unpacks as if it were complete.',
     ['inputs', 'fault_sequences'], 'all byte strings up to the bound, all target types, all cut points', 'tests feed only well-formed messages',
     [S + 'net/rpc/unpacker.cc', I + 'net/rpc/unpacker.h'], [('bounds checks in the decoder', I + 'net/rpc/unpacker.h')],
     [H('rpc.cc', 'rpc_cut', 'messages cut at every point', 'every supported type, symbolic values, every proper prefix', opts=AL, weight=4),
      H('rpc.cc', 'rpc_nested', 'objects nested in a message with arbitrary contents', '0..4 arbitrary bytes as the nested object, compared with reading the same fields directly', reach=['good', 'bad', 'end'], opts=AL, weight=2),
      H('rpc.cc', 'rpc_hostile', 'arbitrary bytes into every type', '0..4 arbitrary bytes (thorough 6), 14 target types, two reads', params={'bytes': 4}, tparams={'bytes': 6}, opts=AL, weight=5)],
     ['error state', 'memory accesses (checked by the engine)'])

prop('P08', 'A remote call runs exactly the named handler',
     'A call message naming a bound function runs that function exactly once with exactly the arguments the caller packed and returns its result; it runs no other function. A message naming nothing, an unbound function, or arbitrary bytes runs nothing and reports an error, and never crashes the server.',
     ['inputs', 'programs'], 'all names, all argument values, arbitrary messages', 'tests call two functions with constants',
     [I + 'net/rpc/dispatcher.h', S + 'net/rpc/dispatcher.cc'], [('name lookup and argument unpacking', I + 'net/rpc/dispatcher.h')],
     [H('rpc.cc', 'rpc_dispatch', 'bound, unbound, unnamed calls', 'four handlers, all argument values', reach=['called', 'noname', 'unbound', 'end'], opts=AL, weight=2),
      H('rpc.cc', 'rpc_dispatch_hostile', 'arbitrary call message', 'up to 6 arbitrary bytes', reach=['called', 'refused', 'end'], opts=AL, weight=2),
      H('rpc.cc', 'rpc_dispatch_one', 'a single function or none bound', 'names of up to 2 arbitrary bytes, all arguments', reach=['called', 'refused', 'end'], opts=AL)],
     ['handler invocations and arguments', 'returned error'])

R = ['--races']
T1 = ['--timeouts', '1']
EXB = [I + 'concurrency/executor/basic.h', I + 'concurrency/executor/derivable.h', I + 'concurrency/task.h', S + 'concurrency/task.cc']
prop('P11', 'A produced result reaches its consumer exactly once',
     'Whatever the interleaving of producer and consumer, a value or exception set on a promise, or returned or thrown by a coroutine, is delivered exactly once and unchanged to whoever gets, waits for, polls, awaits or resolves the result, and no waiter is left blocked. A promise destroyed or replaced without a value delivers a broken-task error instead of blocking; a dropped result destroys the value. After consumption the result is empty, and using an empty result or promise, or producing twice, throws. Nothing is leaked, freed twice or used after it was freed.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of one producer and one consumer, all values, five ways of producing, seven ways of consuming', 'tests sample a few timings with sleeps',
     [I + 'concurrency/result/detail/state.h', S + 'concurrency/result/detail/state.cc', S + 'concurrency/result/detail/consumer_context.cc', I + 'concurrency/result/detail/producer_context.h', I + 'concurrency/result/promise.h', I + 'concurrency/result/basic.h', I + 'concurrency/result/make.h', I + 'sys/atomic_wait.h'], [('atomic producer/consumer hand-over', S + 'concurrency/result/detail/state.cc')],
     [H('result.cc', 'res_get', 'get() against set_result() on another thread', 'all interleavings', opts=R, mt=True),
      H('result.cc', 'res_await', 'await before production', 'all interleavings', opts=R, mt=True),
      H('result.cc', 'res_await2', 'await concurrent with production', 'all interleavings', opts=R, mt=True),
      H('result.cc', 'res_any', 'every way to produce against every way to consume', '5 x 7 ways, all interleavings, at most 1 early timeout (thorough 2)', opts=R + T1, topts=R + ['--timeouts', '2'], reach=['broken', 'dropped', 'end', 'polled', 'timed_out'], mt=True, weight=2),
      H('result.cc', 'res_chain', 'a coroutine that awaits a result and whose own result is kept or dropped', '5 ways to produce', opts=R, mt=True),
      H('result.cc', 'res_types', 'void, reference and ready results, coroutines, misuse', '5 types, value or exception', opts=R, mt=True),
      H('result.cc', 'res_promise_assign', 'a promise replaced by assignment', 'all values', opts=R)],
     ['delivered value or exception', 'status', 'thread progress', 'heap blocks left'])

prop('P12', 'Every consumer of a shared result sees the same outcome once',
     'A shared result may be copied, got, waited for, polled, awaited and resolved by any number of consumers on any threads while it is being produced: each of them sees the one value object or the one exception (or the broken-task error), each awaiting coroutine is resumed exactly once, in the order they came where they wait together, and none is left blocked. A consumer that arrives after production continues at once. Dropping copies at any moment neither loses nor leaks the value.',
     ['schedules', 'histories', 'inputs'], 'interleavings of one producer and one or two consumers, five ways of consuming each', 'tests use sleeps to order producer and consumers',
     [I + 'concurrency/result/shared.h', I + 'concurrency/result/detail/shared_state.h', S + 'concurrency/result/detail/shared_state.cc', I + 'concurrency/result/shared_awaitable.h'], [('list of waiting consumers', S + 'concurrency/result/detail/shared_state.cc')],
     [H('result.cc', 'shared_one', 'one producer and one consumer', '3 ways to produce, 6 to consume, at most 2 preemptive switches (thorough: all interleavings), 1 early timeout', opts=R + T1 + ['--pb', '2'], topts=R + T1, reach=['dropped', 'end', 'timed_out'], mt=True, weight=2),
      H('result.cc', 'shared_two', 'one producer and two consumer threads', '3 ways to produce, 5 x 5 to consume, at most 1 preemptive switch (thorough 2)', opts=R + T1 + ['--pb', '1'], topts=R + T1 + ['--pb', '2'], ttime=1500, mt=True, weight=3),
      H('result.cc', 'shared_order', 'several awaiters', '0..3 awaiters, handle dropped or not', opts=R)],
     ['values and exceptions', 'number and order of resumptions', 'heap blocks left'])

prop('P13', 'Waiting for all or any of several results',
     'when_all completes exactly when every given result is ready and hands each of them back, in order, with its own value or exception. when_any completes as soon as at least one is ready, names the index of a ready one, and hands all of them back, the others still usable, pending or ready, and waitable again. This holds for the variadic and the iterator form, for results that are ready beforehand, become ready during registration or later, succeed, fail or are broken, and whatever is dropped afterwards. The waiting side continues on the given executor, or learns that this executor was shut down; an empty result or a missing executor is refused.',
     ['schedules', 'histories', 'inputs'], 'interleavings of two producers with the waiting thread; all sets of ready results out of three', 'the window in which a result completes while it is being registered is a few instructions wide',
     [I + 'concurrency/result/when.h', S + 'concurrency/result/when.cc', S + 'concurrency/result/detail/state.cc', S + 'concurrency/result/detail/consumer_context.cc'], [('when_any context', S + 'concurrency/result/detail/consumer_context.cc')],
     [H('result.cc', 'when_resume', 'where the waiting side continues, refused arguments, shutdown of that executor', '4 forms, 3 states of readiness', opts=R, reach=['refused', 'down', 'end']),
      H('result.cc', 'when_all_two', 'two producers', '3 x 3 ways to produce, both forms, at most 2 preemptive switches (thorough: all interleavings)', opts=R + ['--pb', '2'], topts=R, ttime=1200, mt=True, weight=2),
      H('result.cc', 'when_any_two', 'two producers', '3 x 4 ways to produce, both forms, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], ttime=1200, reach=['first', 'second', 'pending', 'end'], mt=True, weight=3),
      H('result.cc', 'when_any_three', 'three results ready in any combination, then the rest', 'all 8 combinations and all first completions', opts=R)],
     ['reported index', 'status, value or exception of every result', 'thread progress'])

prop('P14', 'Lazy results run once when asked; generators yield in order',
     'A lazy result does not start before it is awaited, resolved or run, then runs exactly once and delivers its value or exception; one that is dropped never runs, and all of its arguments and locals are released. A generator delivers every yielded value exactly once, in order, an exception surfaces where it happened, and stopping early destroys its locals.',
     ['histories', 'inputs', 'schedules'], 'all ways of consuming, all values, completion on another thread', 'tests use one order each',
     [I + 'concurrency/result/lazy.h', I + 'concurrency/result/lazy_awaitable.h', I + 'concurrency/result/generator.h', I + 'concurrency/result/detail/generator_state.h'], [('lazy state', I + 'concurrency/result/lazy.h'), ('generator state', I + 'concurrency/result/detail/generator_state.h')],
     [H('result.cc', 'lazy_all', 'every way to use a lazy result, with and without a dependency completed by another thread', '5 ways, all interleavings', opts=R, mt=True),
      H('result.cc', 'gen_all', 'every length and stop position', '0..3 values, stop after 0..4, exception or not', opts=R, reach=['end', 'threw'])],
     ['values, exceptions', 'number of runs', 'objects alive'])

prop('P15', 'A task owns its callable: runs it at most once, destroys it exactly once',
     'A task holds any callable, whatever its size, alignment, move and throw behaviour: moving, assigning and clearing tasks in any order keeps the callable intact and moves it along; calling a task runs its callable exactly once, passes its exception on and leaves the task empty; calling an empty task does nothing; and each callable is destroyed exactly once, as soon as it was run or dropped, with nothing leaked.',
     ['histories', 'inputs'], 'all sequences of call, move-assignment and clear over three tasks holding two callables of seven kinds', 'tests exercise each operation alone',
     [I + 'concurrency/task.h', S + 'concurrency/task.cc'], [('small buffer and vtable', I + 'concurrency/task.h')],
     [H('exec.cc', 'task_own', 'any history of operations', '3 tasks, 7 x 7 callable kinds, 3 operations (thorough 4)', params={'ops': 3}, tparams={'ops': 4}, weight=3),
      H('exec.cc', 'task_kinds', 'one callable of any storage class', '11 kinds of callable (16..128 bytes, trivial, self-referential, owning, throwing), 4 operations of 5 kinds (thorough 6), two tasks', params={'ops': 4}, tparams={'ops': 6})],
     ['number of runs', 'objects alive', 'heap blocks left'])

prop('P16', 'Thread pool: every accepted task runs exactly once on that pool',
     'A task given to a thread pool, alone or in bulk, by an outside thread, by a task of the same pool or by a task of another pool, runs exactly once on a worker of that pool, even if the worker was about to end for lack of work; its result or exception reaches its submitter. Shutting down at any moment completes, a task that was accepted has then either run or is reported as interrupted, never both, and a pool that is shut down refuses tasks. Nothing is leaked and no data race occurs.',
     ['schedules', 'histories', 'fault_sequences'], 'interleavings of producers, one or two workers, idle timeouts and shutdown within the preemption bound', 'lost wakeups and shutdown races need exact timing',
     [S + 'concurrency/executor/thread_pool.cc', I + 'concurrency/executor/thread_pool.h'] + EXB, [('worker queues, idle set and work balancing', S + 'concurrency/executor/thread_pool.cc')],
     [H('exec.cc', 'tp_run', 'tasks that submit tasks, one worker', '1 worker, 3 tasks, at most 2 preemptive switches', params={'workers': 1}, opts=R + T1 + ['--pb', '1'], topts=R + T1 + ['--pb', '2'], mt=True),
      H('exec.cc', 'tp_run2', 'tasks that submit tasks, two workers', '2 workers, 3 tasks, at most 1 preemptive switch', entry='tp_run', params={'workers': 2}, opts=R + ['--pb', '1'], topts=R + T1 + ['--pb', '1'], mt=True, weight=3),
      H('exec.cc', 'tp_bulk', 'bulk submission from outside or from a worker', '1 worker, 1..4 tasks, at most 1 preemptive switch', params={'workers': 1}, opts=R + T1 + ['--pb', '1'], topts=R + T1 + ['--pb', '2'], mt=True),
      H('exec.cc', 'tp_bulk2', 'the same with two workers', '2 workers, 1..4 tasks, no preemptive switch (thorough 1)', entry='tp_bulk', params={'workers': 2}, opts=R + T1 + ['--pb', '0'], topts=R + ['--pb', '1'], ttime=1500, mt=True, weight=2),
      H('exec.cc', 'tp_two', 'two producers', '1 worker, 2 producers, at most 1 preemptive switch (thorough 2)', params={'workers': 1}, opts=R + T1 + ['--pb', '1'], topts=R + T1 + ['--pb', '2'], ttime=1500, mt=True, weight=2),
      H('exec.cc', 'tp_idle', 'workers that end when idle', '1 worker, 2 tasks, at most 2 early timeouts, 2 preemptive switches', params={'workers': 1}, opts=R + ['--timeouts', '2', '--pb', '1'], topts=R + ['--timeouts', '2', '--pb', '2'], reach=['end', 'restarted'], mt=True, weight=2),
      H('exec.cc', 'tp_cross', 'a worker of one pool uses another pool', '2 pools, at most 1 preemptive switch', opts=R + T1 + ['--pb', '1'], mt=True, weight=2),
      H('exec.cc', 'tp_shutdown', 'producers race with shutdown', '1 worker, single or bulk submission, at most 1 preemptive switch (thorough 2)', params={'workers': 1}, opts=R + T1 + ['--pb', '1'], topts=R + ['--pb', '2'], reach=['ran', 'interrupted', 'end'], mt=True, weight=2),
      H('exec.cc', 'tp_self', 'tasks use their own pool while it is shut down', '2 workers, at most 1 preemptive switch (thorough 2)', params={'workers': 2}, opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], reach=['inner', 'refused', 'end'], mt=True)],
     ['number of runs of each task', 'executing thread', 'results and exceptions', 'thread progress'], ['the optional spinning of libstdc++ semaphores before they block is reduced to one round'])

prop('P17', 'Worker thread and thread executors run what they accept, in order',
     'The worker-thread executor runs every accepted task exactly once, on its one thread, tasks of one producer in the order they were given, including tasks posted by running tasks. The thread executor runs every accepted task on a thread of its own and shutting it down waits for all of them. Shutdown completes at any moment, afterwards tasks are refused, and a task is never both accepted and refused: it has run or is reported as interrupted. Callbacks for thread start and end are paired.',
     ['schedules', 'histories'], 'interleavings of one or two producers, the worker and shutdown', 'tests do not race shutdown with submission',
     [S + 'concurrency/executor/worker_thread.cc', S + 'concurrency/executor/thread.cc'] + EXB, [('queues and wakeup', S + 'concurrency/executor/worker_thread.cc'), ('thread list', S + 'concurrency/executor/thread.cc')],
     [H('exec.cc', 'wt_nested', 'a task that gives more tasks to its own worker', '1..3 operations, single or bulk of up to 3, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('exec.cc', 'wt_order', 'order and completeness', '1 or 2 producers, single or bulk, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=2),
      H('exec.cc', 'wt_shutdown', 'producers race with shutdown', 'at most 2 preemptive switches (thorough: all interleavings)', opts=R + ['--pb', '2'], topts=R, reach=['ran', 'interrupted', 'end'], mt=True, weight=2),
      H('exec.cc', 'wt_self', 'a task posts to its own executor while it is shut down', 'all interleavings', opts=R, reach=['inner', 'refused', 'end'], mt=True),
      H('exec.cc', 'th_run', 'thread executor', '2 or 3 tasks, at most 2 preemptive switches', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=2),
      H('exec.cc', 'th_shutdown', 'thread executor: producers race with shutdown', 'at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], reach=['ran', 'interrupted', 'end'], mt=True, weight=2)],
     ['number and order of runs', 'executing thread', 'results', 'thread progress'])

prop('P18', 'Manual and inline executors run exactly what they are told to',
     'The manual executor runs nothing by itself: each loop call runs at most the requested number of queued tasks, first in first out, and reports how many it ran; clear reports and drops what was queued; waiting returns when the requested number of tasks is there, reports whether it is, and gives up at its time limit; shutdown wakes every waiter with an error. The inline executor runs a task before the submitting call returns. With both, arguments, results and exceptions arrive unchanged, dropped tasks are reported as interrupted, and after shutdown every use is refused.',
     ['histories', 'schedules', 'inputs'], 'all sequences of submit, loop, clear, wait and shutdown within the bound; a producer thread racing a waiting thread', 'tests use fixed sequences with sleeps',
     [S + 'concurrency/executor/manual.cc', I + 'concurrency/executor/manual.h', I + 'concurrency/executor/inline.h', I + 'basic/bind.h'] + EXB, [('queue and condition', S + 'concurrency/executor/manual.cc')],
     [H('exec.cc', 'man_ops', 'any history', '4 operations of 8 kinds (thorough 5)', params={'ops': 4}, tparams={'ops': 5}, weight=2),
      H('exec.cc', 'man_threads', 'waiting while another thread posts or shuts down', '6 ways to wait, all interleavings, at most 1 early timeout', opts=R + T1, reach=['down', 'end', 'timed_out'], mt=True),
      H('exec.cc', 'man_waiters', 'two waiters that want different numbers of tasks', '2 waiters, 1 producer, single or bulk, all interleavings', opts=R, mt=True),
      H('exec.cc', 'man_clear', 'clear while another thread posts, runs or shuts down', '2 tasks, 3 opponents, all interleavings', opts=R, mt=True),
      H('exec.cc', 'ex_inline', 'inline executor', 'all values, throwing or not')],
     ['executed tasks and their order', 'reported counts', 'results and exceptions'])

prop('P19', 'Plain thread pool and task queue run every task once, in order',
     'Every task given to plain::ThreadPool or plain::TaskQueue, also by a running task, runs exactly once, tasks start in the order they were given, and its value or exception arrives in the future that was returned; destroying the pool or the queue first runs everything that was accepted. Working one task or all tasks of a queue runs exactly those; other threads may add tasks meanwhile. No data race occurs and nothing is leaked.',
     ['histories', 'schedules', 'inputs'], 'all values and histories within the bound, interleavings of producers and workers within the preemption bound', 'the repository has no tests of these classes',
     [S + 'sys/thread.cc', I + 'sys/thread.h', I + 'basic/task_queue.h'], [('worker loop', S + 'sys/thread.cc'), ('queue', I + 'basic/task_queue.h')],
     [H('exec.cc', 'sp_run', 'two tasks, two workers', '2 workers, all values, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('exec.cc', 'sp_nested', 'tasks that give tasks', '1 worker, 4 tasks, at most 2 preemptive switches (thorough 3)', opts=R + ['--pb', '2'], topts=R + ['--pb', '3'], mt=True),
      H('exec.cc', 'tkq_ops', 'any history of a task queue', '5 operations (thorough 6)', params={'ops': 5}, tparams={'ops': 6}),
      H('exec.cc', 'tkq_threads', 'tasks are added while the owner works', '2 producers, at most 2 preemptive switches (thorough: all interleavings)', opts=R + ['--pb', '2'], topts=R, mt=True)],
     ['number and order of runs', 'future values and exceptions'])

TQ = ['time is simulated: it moves only when every thread waits, or, where stated, when a timed wait is chosen to end early at its deadline; running code takes no time']
prop('P20', 'Timers fire when due, as often as due, and never after cancelling',
     'A timer never fires before its due time; while its queue lives it fires at its due time, a periodic timer again every period, timers in the order of their deadlines, on the executor it was given and with its own callable and arguments. A timer that was cancelled, destroyed or replaced does not run any more, also when it was already handed to its executor, and this does not affect other timers. A delay object resumes its coroutine exactly once, on the given executor and not before the delay, or reports that queue or executor were shut down. Timers may be made, changed and cancelled by timer callbacks; the timer thread ends when idle and is started again when needed; queue and executor can be shut down at any moment, after which timers are refused. Nothing is leaked and no data race occurs.',
     ['histories', 'schedules', 'fault_sequences'], 'all due times and frequencies of a small set, all ways of cancelling, interleavings of owner, timer thread and shutdown within the preemption bound', 'tests use sleeps of real time and do not race shutdown, idle exit and cancellation',
     [S + 'engine/timer_queue.cc', S + 'engine/timer.cc', I + 'engine/timer_queue.h', I + 'engine/timer.h'], [('worker loop, request queue, idle exit', S + 'engine/timer_queue.cc'), ('state, firing, cancelling', S + 'engine/timer.cc')],
     [H('timer.cc', 'tq_two', 'any pair of timers', '2 timers, due after 0, 3, 5 or 9 ms, one-shot or periodic, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=2),
      H('timer.cc', 'tq_set', 'any set of three timers with equal or different deadlines, any subset cancelled', '3 timers, one-shot or periodic, cancelled before or after the first firing, no preemptive switch (thorough 1)', opts=R + ['--pb', '0'], topts=R + ['--pb', '1'], mt=True),
      H('timer.cc', 'tq_cancel', 'cancelling in 3 ways, changed frequency, moved timers', 'before or after the timer was handed to its executor, at most 2 preemptive switches', opts=R + ['--pb', '2'], topts=R + ['--pb', '3'], mt=True, weight=2),
      H('timer.cc', 'tq_idle', 'timers arrive while the timer thread ends', 'at most 2 early timeouts, 1 preemptive switch (thorough 3 and 2)', opts=R + ['--timeouts', '2', '--pb', '1'], topts=R + ['--timeouts', '3', '--pb', '2'], reach=['end', 'restarted'], mt=True, weight=2),
      H('timer.cc', 'tq_down', 'queue or executor are shut down or destroyed while timers fire or are made', 'at most 3 early timeouts, 2 preemptive switches', opts=R + ['--timeouts', '3', '--pb', '2'], topts=R + ['--timeouts', '3', '--pb', '3'], reach=['accepted', 'end', 'refused'], mt=True, weight=3),
      H('timer.cc', 'tq_delay', 'delay objects', '5 situations, 4 delays, at most 2 early timeouts, 1 preemptive switch (thorough 3 and 2)', opts=R + ['--timeouts', '2', '--pb', '1'], topts=R + ['--timeouts', '3', '--pb', '2'], mt=True, weight=2),
      H('timer.cc', 'tq_nested', 'callbacks make, change and cancel timers', '3 situations, at most 2 preemptive switches (thorough: all interleavings)', opts=R + ['--pb', '2'], topts=R, mt=True)],
     ['callback times and counts', 'coroutine resumptions', 'reported configuration', 'thread progress'], TQ)

SIM = ['socket system calls, epoll and select are replaced by a simulated kernel (harness/simos.h) that delivers scripted arrivals, data, resets and partial transfers; SO_ERROR is cleared when read, closed descriptors are rejected']
prop('P09', 'Remote calls get their own answers',
     'On a connection, every remote call the client makes is answered with the result of that same call, whatever the order in which responses arrive; a call that the server reports as failed, or whose connection ends, fails with an error instead of blocking for ever or receiving another call\'s result. The server answers every request exactly once, with the index of that request and the result computed from its own arguments, runs each requested function exactly once, reports an unknown function as an error, and never answers a notification.',
     ['histories', 'schedules', 'inputs'], 'all argument and result values, all request mixes and response orders within the bound, connection loss, interleavings of caller and network thread', 'tests make a few sequential calls over loopback',
     [S + 'net/connection/basic.cc', I + 'net/connection/basic.h', I + 'net/rpc/dispatcher.h', S + 'net/rpc/dispatcher.cc', S + 'net/connection/manager.cc'], [('pending call table', S + 'net/connection/basic.cc'), ('request index and promise', I + 'net/connection/basic.h')],
     [H('net.cc', 'net_rpc_server', 'requests and notifications of any kind', '1 request (thorough 2) of 6 kinds, all argument values and indexes, split or whole', params={'requests': 1}, tparams={'requests': 2}, opts=AL + ['--pb', '1'], topts=AL + ['--pb', '0'], reach=['add', 'noresult', 'end'], mt=True, weight=3),
      H('net.cc', 'net_rpc_mix', 'two requests in one stream', '2 requests of 6 kinds, all values', entry='net_rpc_server', params={'requests': 2}, opts=AL + ['--pb', '0'], reach=['add', 'noresult', 'end'], mt=True, weight=4, tier='quickonly'),
      H('net.cc', 'net_rpc_client', 'two outstanding calls, 6 response patterns', '2 calls; responses in order, reversed, failed, duplicated, unsolicited, connection lost; at most 0 preemptive switches (thorough 1)', opts=AL + R + ['--pb', '0'], topts=AL + R + ['--pb', '1'], reach=['answered', 'failed', 'end'], mt=True, weight=3),
      H('net.cc', 'net_rpc_one', 'one call against response or loss', '1 call; answered, answered twice, reported as failed with 5 codes, or connection lost; at most 1 preemptive switch (thorough 2)', opts=AL + R + ['--pb', '1'], topts=AL + R + ['--pb', '2'], reach=['answered', 'failed', 'end'], mt=True, weight=3),
      H('net.cc', 'net_rpc_many', 'more outstanding calls than a small counter can tell apart', '260 calls, 3 of them answered, all values', opts=AL + ['--pb', '0', '--max-steps', '2000000'], mt=True),
      H('net.cc', 'net_call_late', 'a call on a connection that has ended or ends at that moment', '1 call, at most 1 preemptive switch (thorough 2)', opts=AL + R + ['--pb', '1'], topts=AL + R + ['--pb', '2'], mt=True)],
     ['future results and exceptions', 'response packets', 'handler invocations'], SIM)

prop('P10', 'Connection table: one id, one announced life, one closed socket',
     'For every history of arriving, departing and misbehaving peers, every accepted connection gets an id in 1..max that no other open connection uses, is announced once when it begins and once when it ends, and its socket is closed exactly once. At most the configured maximum of connections is open; one more is closed without being announced, and an id that became free can be used again without inheriting anything (name, half-received data, settings, replies still being made) from its former owner, and a peer that closes right after sending is noticed after its packets were handled. A kept client connection can be connected again. Data is dispatched on the connection it arrived on, and a connection that sends invalid data, is reset, fails or is refused by its handler ends without affecting any other.',
     ['histories', 'fault_sequences'], 'all sequences of arrivals, departures, whole and partial packets, resets at every point and invalid heads, up to the bound; epoll and select', 'tests open a handful of well-behaved connections',
     [S + 'net/connection/manager.cc', S + 'net/connection/basic.cc', S + 'net/connection/epoll.cc', S + 'net/connection/select.cc', S + 'net/socket/basic.cc'], [('id allocation and removal', S + 'net/connection/manager.cc'), ('event handling', S + 'net/connection/epoll.cc'), ('connection reuse', S + 'net/connection/basic.cc')],
     [H('net.cc', 'net_table', 'any history on an epoll server', 'limit 2, 4 events (thorough 5) out of 5 kinds', params={'ops': 4}, tparams={'ops': 5}, opts=['--pb', '0'], reach=['accepted', 'left', 'refused', 'end'], mt=True, weight=4),
      H('net.cc', 'net_table_sel', 'any history on a select server', 'limit 2, 4 events', entry='net_table', params={'ops': 4, 'select': 1}, tparams={'ops': 5}, opts=['--pb', '0'], reach=['accepted', 'left', 'refused', 'end'], mt=True, weight=4),
      H('net.cc', 'net_bad', 'invalid packet head, shutdown, refusing handler, socket error', '2 connections, all invalid heads, all interleavings with the owner thread', opts=R, mt=True),
      H('net.cc', 'net_bad_sel', 'the same on a select server', 'the same', entry='net_bad', params={'select': 1}, opts=R, mt=True),
      H('net.cc', 'net_reset', 'a reset at any moment', '16 moments, with and without a refusing handler', opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_reset_sel', 'the same on a select server', 'the same', entry='net_reset', params={'select': 1}, opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_reuse', 'an id and descriptor are used again', 'after an incomplete packet; 14 times in a row', opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_reuse_unsent', 'an id is used again after unsent data', 'blocked peer, worker executor', opts=R + ['--pb', '0'], mt=True),
      H('net.cc', 'net_refuse_race', 'a refusing handler on the worker thread, its peer leaves, the next one arrives', 'at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], reach=['next', 'end'], mt=True, weight=2),
      H('net.cc', 'net_inherit', 'nothing given to a connection is inherited by the next one', '5 kinds of settings', opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_send_close', 'a peer sends and closes at once', '0..27 packets, 7 incomplete tails, whole or 7-byte reads', opts=R + ['--pb', '0'], mt=True),
      H('net.cc', 'net_send_close_sel', 'the same on a select server', 'the same', entry='net_send_close', params={'select': 1}, opts=R + ['--pb', '0'], mt=True),
      H('net.cc', 'net_send_close_wrk', 'the same with packet work on a worker thread', 'the same', entry='net_send_close', params={'exec': 1}, opts=R + ['--pb', '0'], mt=True),
      H('net.cc', 'net_handler_long', 'a handler on the worker thread outlives its peer while another peer arrives', 'close or reset, accepting or refusing handler, at most 1 preemptive switch', opts=R + ['--pb', '1'], mt=True, weight=2),
      H('net.cc', 'net_handler_pool', 'the same with a thread pool of 2', 'at most 0 preemptive switches (thorough 1)', entry='net_handler_long', params={'exec': 2}, opts=R + ['--pb', '0'], topts=R + ['--pb', '1'], mt=True, weight=2),
      H('net.cc', 'net_worker_reset', 'a reset while the packet is handled on the worker thread, and a next peer', 'at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=2),
      H('net.cc', 'net_send_reset', 'a reset while another thread sends', 'at most 2 preemptive switches (thorough 3)', opts=R + ['--pb', '2'], topts=R + ['--pb', '3'], mt=True),
      H('net.cc', 'net_reconnect', 'a kept client connection is connected again after any loss', '4 kinds of loss, with or without unsent data, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=2),
      H('net.cc', 'net_callbacks', 'callbacks set by different threads', '2 threads', opts=R, mt=True)],
     ['connect and disconnect callbacks', 'socket close calls', 'ids and names', 'dispatched packets'], SIM)

prop('P21', 'A running server handles each packet once, in order, and stops',
     'Bytes that arrive on a connection, in any segmentation and with any partial transfers, are handed to the packet handler as complete packets, each exactly once, unchanged and in arrival order, including bursts larger than the per-turn limit; no packet waits until more data arrives. Packets sent by the handler and by other threads at the same time reach the peer whole, exactly once and in each sender\'s order, and a broadcast reaches every open connection once. Starting and stopping a server or client completes whatever its network thread is doing, even while a connection arrives, is being made or is sent to, and an interrupted wait does not end the service.',
     ['histories', 'schedules', 'fault_sequences'], 'all segmentations within the bound, partial sends and receives, interleavings of network thread, sender thread and owner within the preemption bound', 'tests exchange small packets over loopback, where segments are not split and the timing is favourable',
     [S + 'net/connection/basic.cc', S + 'net/connection/manager.cc', S + 'net/connection/epoll.cc', S + 'net/connection/select.cc', S + 'net/listener.cc', S + 'net/connector.cc'], [('work flags and packet loop', S + 'net/connection/basic.cc'), ('work balancing and wakeups', S + 'net/connection/manager.cc')],
     [H('net.cc', 'net_segments', 'packets in any segmentation with echo', '2 packets of 0..2 bytes (thorough 3 packets), 1 cut (thorough 2) at every position, full or 3/4-byte transfers, all data', params={'packets': 2, 'cuts': 1}, tparams={'packets': 2, 'cuts': 2}, opts=R + ['--pb', '1'], topts=R + ['--pb', '0'], mt=True, weight=4),
      H('net.cc', 'net_segments_sel', 'the same on a select server', '2 packets, 1 cut', entry='net_segments', params={'packets': 2, 'cuts': 1, 'select': 1}, opts=R + ['--pb', '0'], mt=True, weight=2),
      H('net.cc', 'net_burst', 'bursts beyond the per-turn limit, byte-wise arrival, many incomplete heads', '27 packets at once, one packet byte by byte, 65 packets in misaligned segments', opts=R + ['--pb', '1'], mt=True, weight=2),
      H('net.cc', 'net_send_race', 'handler and owner thread send at the same time', '2 senders, 4 transfer policies, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True, weight=3),
      H('net.cc', 'net_send_race_wrk', 'the same with packet work on a worker thread', '2 senders, 4 transfer policies, no preemptive switch (thorough 1)', entry='net_send_race', params={'exec': 1}, opts=R + ['--pb', '0'], topts=R + ['--pb', '1'], mt=True, weight=2),
      H('net.cc', 'net_two_events', 'data in two events while the first is handled on the worker thread', 'whole or split packets, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('net.cc', 'net_many', 'more busy connections than are worked on at a time', '5 connections, any one resets, no preemptive switch', opts=R + ['--pb', '0'], mt=True),
      H('net.cc', 'net_blocked_inline', 'a peer that does not read, with the inline executor', '2 replies', opts=['--pb', '0'], reach=[], mt=True),
      H('net.cc', 'net_broadcast', 'broadcast with one departed connection', '3 connections, any one gone', opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_startstop', 'a client starts, connects or not, stops', 'all interleavings', opts=R, reach=['end', 'served'], mt=True),
      H('net.cc', 'net_startstop_sel', 'the same with select', 'at most 2 preemptive switches', entry='net_startstop', params={'select': 1}, opts=R + ['--pb', '2'], reach=['end', 'served'], mt=True),
      H('net.cc', 'net_stop_race', 'stopping while connections arrive', '1 arrival (thorough 2), all interleavings', params={'arrivals': 1}, tparams={'arrivals': 2}, opts=R, mt=True),
      H('net.cc', 'net_stop_race_sel', 'the same with select', '1 arrival, at most 2 preemptive switches', entry='net_stop_race', params={'arrivals': 1, 'select': 1}, opts=R + ['--pb', '2'], mt=True),
      H('net.cc', 'net_stop_send', 'sending while the owner stops', 'inline and worker executor, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('net.cc', 'net_worker_push', 'a failing send on the worker thread against a reset on the network thread', 'at most 2 preemptive switches', opts=R + ['--pb', '2'], mt=True, weight=2),
      H('net.cc', 'net_queries', 'state queries and broadcast from any thread', '6 queries, at most 1 preemptive switch (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('net.cc', 'net_signal', 'a signal interrupts the network thread', 'at 3 moments', opts=R + ['--pb', '1'], mt=True),
      H('net.cc', 'net_signal_sel', 'the same with select', 'at 3 moments', entry='net_signal', params={'select': 1}, opts=R + ['--pb', '1'], mt=True)],
     ['dispatched packets', 'bytes on the wire', 'thread progress'], SIM + ['the executor is the inline executor, so packet work runs on the thread that triggers it'])

prop('P22', 'Memory pool: allocations never overlap and memory comes back',
     'For every history of allocations and releases, by one thread or several, the memory a pool hands out is as large as requested, aligned, does not overlap any other allocation in use and keeps its contents until it is released; what does not fit is taken from the system or, if that is switched off, refused, and so is every size a pool cannot serve. When everything has been released the whole pool is available again. The access check grants exactly the accesses inside of an allocation; memory of others and allocations already released are refused without being changed. Containers work with the pool as their allocator, and the stack is last in, first out.',
     ['histories', 'schedules', 'inputs'], 'all 64-bit sizes, offsets and lengths, all histories within the bound, interleavings of two threads', 'the repository has no tests of the pool; the failing interleavings need several exact switches',
     [I + 'sys/memory/pool.h', I + 'sys/memory/stack_allocator.h'], [('leaf bookkeeping', I + 'sys/memory/pool.h')],
     [H('memory.cc', 'mem_history', 'any history, system memory switched off', '5 operations (thorough 6), 2 leaves of 96 bytes, 6 sizes', params={'ops': 5}, tparams={'ops': 6}, reach=['end', 'refused'], weight=2),
      H('memory.cc', 'mem_history_os', 'any history with system memory', '4 operations (thorough 6)', params={'ops': 4}, tparams={'ops': 6}, weight=2),
      H('memory.cc', 'mem_size', 'every size', 'all 64-bit sizes, leaves of 96 bytes', reach=['refused', 'served']),
      H('memory.cc', 'mem_access', 'access checks', 'offsets -4096..4095, all 64-bit lengths', reach=['inside', 'outside']),
      H('memory.cc', 'mem_foreign', 'foreign and released allocations', 'another pool, arbitrary memory, double release'),
      H('memory.cc', 'mem_threads', 'two threads allocate, use and release', '4 situations, at most 3 preemptive switches (thorough: all interleavings)', opts=R + ['--pb', '3'], topts=R, mt=True, weight=2),
      H('memory.cc', 'mem_allocator', 'as container allocator', 'vectors of up to 10 elements, impossible sizes'),
      H('memory.cc', 'mem_stack', 'the stack', '6 operations (thorough 8)', params={'ops': 6}, tparams={'ops': 8})],
     ['addresses and contents', 'refusals', 'access decisions'])

prop('P23', 'Addresses are exactly what their text says, and read back as themselves',
     'A text of the form host, host:port, [host]:port or [host], with an IPv4 or IPv6 host, becomes exactly the socket address of that host and port, always with the same bytes; everything else, including ports that are no number or larger than 65535, is refused as an invalid argument. Empty and loopback hosts mean every local address when listening and the loopback address when connecting. The text of an address is read back as the same address. A raw socket address is accepted exactly if its size is one its family can have, and a refused assignment changes nothing. Only the given text is ever read, even if it is not followed by a zero.',
     ['inputs'], 'all ports in any notation up to the bound, every value of every IPv4 part, IPv6 words from a set, all texts up to the bound over the characters that matter, all raw families, ports and sizes', 'tests parse six fixed texts and look at family and port only',
     [S + 'net/address.cc', S + 'net/detail/socket.cc'], [('parsing and text', S + 'net/address.cc'), ('socket address access', S + 'net/detail/socket.cc')],
     [H('addr.cc', 'addr_port', 'every port', '0..5 digits (thorough 7), 4 hosts', params={'digits': 6}, tparams={'digits': 8}, reach=['accepted', 'refused']),
      H('addr.cc', 'addr_port_any', 'ports with any character in any place', 'all characters, 4 places', reach=['accepted', 'refused']),
      H('addr.cc', 'addr_v4', 'IPv4 hosts and back', '1..256 in each part, all ports', reach=['end', 'refused', 'two']),
      H('addr.cc', 'addr_v6', 'IPv6 hosts and back', '8 words out of 2 (thorough 4), 4 ports', params={'words': 2}, tparams={'words': 4}, reach=['again', 'end']),
      H('addr.cc', 'addr_texts', 'valid and invalid texts', '51 texts', reach=['accepted', 'refused']),
      H('addr.cc', 'addr_any', 'any text', '4 beginnings and 0..4 characters (thorough 5) out of 8', params={'chars': 4}, tparams={'chars': 5}, reach=['accepted', 'refused']),
      H('addr.cc', 'addr_raw', 'raw socket addresses', 'sizes 0..131, arbitrary bytes', reach=['inet', 'refused', 'unix'])],
     ['socket address bytes', 'text', 'exceptions'], ['inet_addr, inet_pton and inet_ntop are models with the results of the C library; the validity of a host alone is theirs'])

prop('P24', 'Text encodings are exact and reversible',
     'Every byte string survives base64 encoding and decoding, binary-to-hexadecimal conversion and back, quoting and unquoting, password encryption and decryption, hiding a number in a text and taking it out, and, for plain text of any length, conversion to wide characters and back; encoded forms have the standard digits, lengths and padding, and MD5 digests are those of RFC 1321 whatever the length and however the input was cut into pieces. Input that is not a valid encoding is refused or decoded up to the first invalid character, and no conversion ever reads or writes outside of the given buffers.',
     ['inputs'], 'all byte strings up to the bound, all lengths of digest input up to the bound, arbitrary invalid encodings', 'tests encode a fixed text or two; padding, block boundaries and invalid input are combinations no sample covers',
     [S + 'basic/base64.cc', S + 'basic/md5.cc', S + 'basic/utility.cc', I + 'basic/utility.h'], [('base64 digits and padding', S + 'basic/base64.cc'), ('digest blocks', S + 'basic/md5.cc'), ('hexadecimal, quoting, passwords', S + 'basic/utility.cc')],
     [H('text.cc', 'b64_round', 'base64 of any bytes, digit by digit, and back', '0..7 bytes (thorough 12)', params={'bytes': 7}, tparams={'bytes': 12}),
      H('text.cc', 'b64_any', 'base64 decoder on any text', '0..8 characters (thorough 9)', params={'bytes': 8}, tparams={'bytes': 9}),
      H('text.cc', 'hex_round', 'hexadecimal text and back with any limit', '1..3 bytes'),
      H('text.cc', 'quote_round', 'quoting and unquoting', '0..4 characters (thorough 6) of 4 kinds', params={'chars': 4}, tparams={'chars': 6}),
      H('text.cc', 'escape_any', 'escaping into any room', '0..3 arbitrary characters, room 0..6'),
      H('text.cc', 'password_round', 'password encryption', 'lengths 0, 1, 15, 16, 20 and 21, any character in one place', reach=['ok', 'refused']),
      H('text.cc', 'password_any', 'password decryption of any text', '32 characters with two independent symbolic values', reach=['ok', 'refused']),
      H('text.cc', 'hide_round', 'a number hidden in a text', '7 numbers including the limits, texts of 0..4 arbitrary bytes, 4 random seeds'),
      H('text.cc', 'hide_any', 'taking a number out of any text', '0..6 characters', reach=['ok', 'refused']),
      H('text.cc', 'wide_round', 'wide characters', '11 lengths from 0 to 2100, any first and last ASCII character, terminated or not'),
      H('text.cc', 'md5_lengths', 'digest of every length, whole and in three pieces', 'lengths 0..130 (thorough 260), 12 ways to cut', params={'max': 130}, tparams={'max': 260})],
     ['encoded and decoded text', 'return values', 'memory written'])

prop('P25', 'Text helpers do exactly what they say, within their buffers',
     'Trimming removes exactly the leading and trailing characters of the given set; replacing replaces the given number of occurrences from left to right; splitting returns exactly the parts between separators, with or without empty ones; case conversion, path conversion and completion, directory names, number conversion, 64-bit section splitting and bounded copying return the documented result for every input, always terminate, and write only inside of the given buffer.',
     ['inputs'], 'all texts up to the bound over alphabets that realise every relation between text, pattern and set; all characters where single characters matter; all buffer sizes up to the bound', 'tests use one or two fixed texts per helper',
     [S + 'basic/utility.cc', I + 'basic/utility.h'], [('text helpers', S + 'basic/utility.cc')],
     [H('text.cc', 'str_trim', 'trimming both ends, any mask', '0..5 characters'),
      H('text.cc', 'str_replace_any', 'replacing', 'texts 0..4, patterns and replacements 0..2, counts -1..2', params={'chars': 4}, tparams={'chars': 5}),
      H('text.cc', 'str_explode', 'splitting', 'texts 0..5 over 3 characters, 5 separators', params={'chars': 5}, tparams={'chars': 7}),
      H('text.cc', 'str_helpers', 'case, sections, copying, paths', 'texts up to 5, buffers up to 8, all 64-bit values'),
      H('text.cc', 'str_numbers', 'numbers in text, forbidden characters', 'numbers -999..999 and the limits, 1..4 arbitrary characters')],
     ['returned text', 'memory written'])

prop('P26', 'String streams return what was written and never leave the buffer',
     'Every value is converted to network byte order and back unchanged, for all integer and floating types. Values of any type written to a string stream are read back unchanged and in order; a value that does not fit is not written at all and nothing after the end of the buffer is touched. Reading what is not there leaves position and variable unchanged, a text whose stored length exceeds the buffer is read as empty, and no content of the buffer makes a read go outside of it.',
     ['inputs', 'histories'], 'all values, all value sequences and buffer sizes up to the bound, all buffer contents', 'tests write and read one fixed sequence into a large buffer',
     [I + 'basic/stringstream.h', I + 'basic/endian.h'], [('byte order', I + 'basic/endian.h'), ('buffer bounds', I + 'basic/stringstream.h')],
     [H('data.cc', 'endian_all', 'byte order of every type', 'all values of 10 types'),
      H('data.cc', 'ss_round', 'value sequences in buffers of any size', '2 values (thorough 3) of 12 kinds, buffers of 1..20 bytes', params={'n': 2}, tparams={'n': 3}, reach=['end', 'restored']),
      H('data.cc', 'ss_any', 'reading arbitrary buffers', '1..9 arbitrary bytes, 2 operations (thorough 3), all raw lengths', params={'n': 2}, tparams={'n': 3}, reach=['end', 'raw', 'text']),
      H('data.cc', 'ss_long', 'long texts', '7 lengths of 255..70000 bytes')],
     ['values read', 'position', 'buffer contents'])

prop('P27', 'Variables keep their value and type, and calculate correctly',
     'A variable returns the value and type it was given, through copies, assignments and moves; asking for another type fails instead of returning something else. It converts to integers and decimals without losing what the target type can hold, sums, differences, products and quotients are those of decimal arithmetic including fractions, increments and decrements change the value by exactly one, and the six comparisons are consistent with the order of the stored values. A text counts as the decimal number it begins with. Threads may assign, convert, change and compare the same variables: no change is lost and every value seen was once stored.',
     ['inputs', 'schedules'], 'all values of every integer type and text up to the bound; arithmetic on bounded operands', 'tests construct a few variables and print them',
     [I + 'basic/type/variable.h', S + 'basic/type/variable.cc'], [('variable operations', I + 'basic/type/variable.h')],
     [H('data.cc', 'var_value', 'values of every type', 'all integer values, 12 decimals, texts of 0..4 arbitrary bytes'),
      H('data.cc', 'var_text', 'texts as numbers', 'texts of 0..3 characters (thorough 5) of 10 kinds, 4 operations', params={'bytes': 3}, tparams={'bytes': 5}),
      H('data.cc', 'var_threads', 'two threads use the same variables', '7 situations, all interleavings', opts=R, mt=True),
      H('data.cc', 'var_math', 'arithmetic and order', '8-bit by 5 operands for + - * /, all 32-bit values for the rest')],
     ['stored value and type', 'results of operators'])

KER = [S + 'engine/kernel.cc', I + 'engine/kernel.h']
prop('P28', 'The kernel owns its executors and networks for exactly its lifetime',
     'Every executor a kernel hands out honours the options given, stays the same and usable while the kernel lives, and is shut down with it: its threads have ended, work not started is cancelled, later work is refused. A network name belongs to at most one registered network at a time, whatever threads add and remove: a second one is refused without harm to the first, removing frees exactly the named network, and networks without a name get distinct unused names. Work for a kernel that does not run is refused.',
     ['histories', 'schedules', 'inputs'], 'all histories of adding and removing up to the bound, all interleavings of two threads, all kinds of executor with work pending or not when the kernel ends', 'tests construct a kernel and run one task',
     KER, [('executor ownership and shutdown', S + 'engine/kernel.cc'), ('network registry', S + 'engine/kernel.cc')],
     [H('kernel.cc', 'kernel_exec', 'executors handed out, with work pending when the kernel ends', '1..2 and 1..3 threads, one task on any of 6 executors, all interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], reach=['cancelled', 'end', 'finished', 'ran'], mt=True),
      H('kernel.cc', 'kernel_made', 'executors made by two threads', 'all interleavings', opts=R, mt=True),
      H('kernel.cc', 'kernel_nets', 'registry against a model', '3 operations (thorough 4) on 4 networks with 3 names', params={'ops': 3}, tparams={'ops': 4}),
      H('kernel.cc', 'kernel_unnamed', 'networks without a name', '4 networks, two threads, one name already taken', opts=R + ['--pb', '2'], mt=True),
      H('kernel.cc', 'kernel_nets_threads', 'adding and removing in two threads', 'all interleavings with up to 2 preemptions (thorough 3)', opts=R + ['--pb', '2'], topts=R + ['--pb', '3'], mt=True),
      H('kernel.cc', 'kernel_same_name', 'a second server with the name of a running one', 'one connection with one packet, interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('kernel.cc', 'kernel_idle', 'work for a kernel that does not run', 'any memory contents before construction')],
     ['shutdown state and refusals', 'task results', 'thread callbacks', 'registration results'], ['the network parts run on the simulated socket kernel'])

prop('P29', 'The console runs the named command, and only that',
     'Every line a console client sends runs the handler registered last for its first word, exactly once, with the other words of the line as arguments, and its answer is sent back as one line; an empty line does nothing and an unknown command ends that session. The listing shows exactly the networks that are there, help describes exactly the commands asked for, and kill stops exactly the networks named and never the console itself. Handlers can be registered while commands arrive; a console that failed to start can be started later, and a second one is refused.',
     ['histories', 'inputs', 'schedules'], 'all lines up to the bound over the characters that matter, arriving whole or byte by byte, all interleavings of client, console and registering thread up to the bound', 'no test uses the console',
     KER + [S + 'net/stream/codec.cc'], [('command dispatch', S + 'engine/kernel.cc'), ('built-in commands', S + 'engine/kernel.cc')],
     [H('kernel.cc', 'console_words', 'any line', '0..3 characters (thorough 4) of 4 kinds, whole or byte by byte', params={'bytes': 3}, tparams={'bytes': 4}, opts=R + ['--pb', '0'], reach=['mine', 'none', 'yx'], mt=True),
      H('kernel.cc', 'console_list', 'listing', '0..2 networks, one that ended and one removed; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('kernel.cc', 'console_help', 'help', '4 command lines; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('kernel.cc', 'console_kill', 'stopping named networks', '5 command lines with two running networks, interleavings without preemption', opts=R + ['--pb', '0'], mt=True, weight=2),
      H('kernel.cc', 'console_killall', 'stopping all networks', '2 command lines, interleavings without preemption', opts=R + ['--pb', '0'], mt=True),
      H('kernel.cc', 'console_fail', 'failed start', 'address in use; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('kernel.cc', 'console_race', 'registering while commands arrive', 'interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True)],
     ['handler invocations and arguments', 'bytes sent to the client', 'running state of networks'], ['the network parts run on the simulated socket kernel'])

prop('P30', 'Created threads and the thread pool run every function exactly as often as asked',
     'A created thread runs its function with the given arguments until it returns false, one without a result runs once, whatever happens to the memory of its name; it can be stopped by itself or by others at any moment, including just after its creation, and its status is its own. The number of threads is exact. Every task given to a thread pool runs exactly once on a thread of the pool, also when the pool is destroyed at once, in order when it has one thread, and its result or exception reaches its future.',
     ['schedules', 'inputs', 'histories'], 'all interleavings of creator, threads and a second producer up to the bound, all arguments', 'tests start a few threads and sleep',
     [I + 'sys/thread.h', S + 'sys/thread.cc'], [('thread status and creation', I + 'sys/thread.h'), ('pool', S + 'sys/thread.cc')],
     [H('thread.cc', 'thr_create', 'created threads', '0..3 repetitions, 3 kinds of function, whole and cut names; interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('thread.cc', 'thr_stop', 'stopping', 'at once, by itself, while it runs; interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('thread.cc', 'thr_status', 'statuses of three threads', 'interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('thread.cc', 'thr_pool', 'tasks in a pool', '1..2 threads, 2 tasks and a second producer, destroyed at once; interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('thread.cc', 'thr_pool_order', 'order in a pool of one thread', '3 tasks; interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True)],
     ['calls and arguments', 'status', 'thread count', 'futures'])

prop('P31', 'The asynchronous logger writes every message once, whole and in order',
     'Whatever was appended before the logger stops or is destroyed is written exactly once, unchanged and in the order of its thread, whatever its size, however many threads append and however writes are split up; without stopping it is written and flushed within the flush interval. Messages are dropped only when more than the documented number of full buffers wait, the oldest are kept and the loss is reported in the file. Files are rolled exactly when the size is exceeded or a day begins, and all of them are closed. A failing disk does not hang or crash the logger.',
     ['schedules', 'histories', 'fault_sequences'], 'all message sizes around the buffer size, all interleavings of appending, writing and stopping up to the bound, all sequences of time steps, partial and failing writes', 'tests append many messages and look at nothing but the speed',
     [S + 'basic/async_logger.cc', S + 'file/utility.cc', I + 'basic/ring.h'], [('buffering and writing', S + 'basic/async_logger.cc'), ('log files', S + 'file/utility.cc')],
     [H('alog.cc', 'al_stop', 'appended and stopped', '2 messages of 6 sizes, 4 ways to stop; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('alog.cc', 'al_threads', 'two threads append', '2 messages each; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('alog.cc', 'al_interval', 'written without stopping', '2 messages of 6 sizes, intervals 1..3 s; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], mt=True),
      H('alog.cc', 'al_drop', 'too many messages', '24..28 full buffers at once; interleavings with up to 1 preemption', opts=R + ['--pb', '1'], reach=['dropped', 'end'], mt=True),
      H('alog.cc', 'al_roll', 'rolling and flushing files', '4 messages (thorough 5) with 5 time steps, whole and partial writes', params={'n': 4}, tparams={'n': 5}),
      H('alog.cc', 'al_late', 'appending while the logger stops', '2 messages of 6 sizes; interleavings with up to 1 preemption (thorough 2)', opts=R + ['--pb', '1'], topts=R + ['--pb', '2'], mt=True),
      H('alog.cc', 'al_fail', 'failing disk', '3 messages of 6 sizes; interleavings without preemption (thorough 1)', opts=R + ['--pb', '0'], topts=R + ['--pb', '1'], mt=True)],
     ['contents, names and state of the files'], ['async_logger.cc and file/utility.cc are compiled with buffers of 64 bytes and against files in memory; log directories exist; time is simulated'])

prop('P32', 'Every log statement produces exactly one whole line',
     'A log statement of any content and length hands exactly one line to the output, which begins with the time and level, contains the text and the location of the statement, ends in a line break and is never longer than the limit: longer texts are cut. Values of all types appear as the decimal text of their value. Printing a line does not interpret its content. Statements in different threads at the same time do not mix.',
     ['inputs', 'schedules'], 'all texts of up to 2 arbitrary characters and lengths around the limit, all interleavings of two logging threads up to the bound', 'tests log fixed texts and look at nothing',
     [S + 'basic/logger.cc', I + 'basic/logger.h', S + 'basic/time.cc'], [('log lines', S + 'basic/logger.cc'), ('time in text', S + 'basic/time.cc')],
     [H('logline.cc', 'log_line', 'any text', '7 lengths of 0..5000, 2 arbitrary characters, 3 levels, printed or not', opts=['--real-log'], reach=['end', 'truncated']),
      H('logline.cc', 'log_values', 'values of all types', '9 values of 10 types', opts=['--real-log']),
      H('logline.cc', 'log_more', 'addresses and texts', '7 addresses, texts of 4 arbitrary bytes', opts=['--real-log']),
      H('logline.cc', 'log_threads', 'two threads log', '2 statements each; interleavings with up to 1 preemption', opts=R + ['--real-log', '--pb', '1'], mt=True)],
     ['lines given to the output'])

prop('P33', 'Configuration files answer with exactly what they say',
     'Opening an ini file of any content succeeds exactly when it exists and afterwards exactly the sections and keys of the file are there: comments and trailing blanks do not count, the first value of a key does, sections can be continued and lines and values can have any length. A value is returned as number, decimal, text or variable, into buffers of any size without writing after them; what is not there leaves results unchanged or gives the default. An object can open any sequence of files, answers for the last one only, leaks nothing and closes every file.',
     ['inputs', 'histories'], 'all contents up to the bound over the characters that matter, all sequences of line forms, all defaults, all buffer sizes', 'no test reads an ini file',
     [S + 'file/ini.cc', I + 'file/ini.h', S + 'sys/assert.cc'], [('parsing and queries', S + 'file/ini.cc')],
     [H('ini.cc', 'ini_any', 'any content', '0..5 characters (thorough 6) of 8 kinds', params={'bytes': 5}, tparams={'bytes': 6}, weight=2),
      H('ini.cc', 'ini_lines', 'sequences of lines', '3 lines of 13 forms, with and without end of line'),
      H('ini.cc', 'ini_values', 'values in every form', '10 values, 4 sections and keys, buffers of 1..12 bytes, any default'),
      H('ini.cc', 'ini_large', 'long values and many values', '3 values of 9 lengths of 0..5000, names of 2000 characters'),
      H('ini.cc', 'ini_reopen', 'one object and several files', '3 operations (thorough 4) of open and close with 3 files', params={'ops': 3}, tparams={'ops': 4})],
     ['answers', 'memory written', 'files opened and closed'], ['ini.cc is compiled against a file stream that reads from memory'])

prop('P34', 'Tables contain exactly the records of their file, saved and opened again',
     'A text of any content opens exactly when it has types and names, and then holds exactly its records, fields and names; a table saved as text or binary and opened again is equal (decimals in text up to three places). Binary content is refused when it is damaged and never makes the table read or point outside of it. Queries by position, name, value and index find exactly what is there for every position and value, the first if there are several, and never leave the table. A table can be opened again and leaks nothing.',
     ['inputs', 'histories'], 'all record texts up to the bound over the characters that matter, all positions and column numbers, all binary contents up to the bound', 'no test opens a table',
     [S + 'file/tab.cc', I + 'file/tab.h', S + 'basic/utility.cc'], [('text and binary files', S + 'file/tab.cc'), ('queries', S + 'file/tab.cc')],
     [H('tab.cc', 'tab_text_any', 'any records', '0..4 characters (thorough 5) of 7 kinds, 5 combinations of types', params={'bytes': 4}, tparams={'bytes': 5}),
      H('tab.cc', 'tab_text_head', 'any beginning', '8 type lines, 5 name lines, 4 records', reach=['opened', 'refused']),
      H('tab.cc', 'tab_query', 'queries', '0..3 records of 3 fields, any line and column', weight=2),
      H('tab.cc', 'tab_index', 'indexes', '0..2 records, every column'),
      H('tab.cc', 'tab_round', 'saved and opened again', '0..1 records (thorough 2) of 3 fields with 6 texts, 4 numbers and 4 decimals', params={'rows': 1}, tparams={'rows': 2}),
      H('tab.cc', 'tab_binary_any', 'any binary content', '3 sizes (thorough 9) of 0..45 bytes, any bytes; one of the two counts from 9 values', params={'sizes': 2}, tparams={'sizes': 8}, reach=['opened', 'string'], weight=2),
      H('tab.cc', 'tab_line', 'lines and buffers', '0..5 characters, buffers of 1..7'),
      H('tab.cc', 'tab_many', 'many records', '65537 records')],
     ['fields, names and records', 'contents of saved files', 'memory read'], ['tab.cc is compiled against files in memory; conversion between character sets is not built in'])

prop('P35', 'Script environments keep distinct ids from creation to closing',
     'The script factory gives every new environment an id that no living environment has, asking for an id answers exactly its environment and nothing for an id that is not in use, and closing an id frees exactly that environment and no other. An unknown type or a creator that makes nothing gives no id and changes nothing. This holds for any history and from several threads at once, and the factory frees what is left.',
     ['histories', 'schedules'], 'all histories of creating, closing and asking up to the bound, all ids, all interleavings of two threads', 'no test creates a script environment',
     [S + 'script/factory.cc', I + 'script/factory.h', I + 'script/config.h', I + 'basic/macros/function.h'], [('ids', S + 'script/factory.cc'), ('creators by type', I + 'basic/macros/function.h')],
     [H('script.cc', 'script_ids', 'any history', '4 operations (thorough 5) of creating in both ways, failing, closing and asking, ids -1..5', params={'ops': 4}, tparams={'ops': 5}, opts=R),
      H('script.cc', 'script_many', 'some closed, as many and more created', '5 environments (thorough 7), any subset closed, 16-bit ids asked and closed', params={'envs': 5}, tparams={'envs': 7}, opts=R),
      H('script.cc', 'script_full', 'every id in use', '32767 environments, one of three closed and created again, two more refused', opts=R),
      H('script.cc', 'script_threads', 'two threads', '2 environments each, all interleavings', opts=R, mt=True)],
     ['ids', 'environments returned', 'environments freed'])

prop('P36', 'Libraries open the first match and close what they opened',
     'Loading a library tries its possible names in order in every search path in order, plain and with the platform prefix, opens exactly the first file that is a library with the requested visibility, calls its main function once with the given parameters, and keeps one handle until it is unloaded or the manager ends; a failed load leaves nothing behind and can be tried again. A file name gets the suffix exactly when it has none. An unloaded library is not loaded and resolves nothing; a path that cannot be looked up is passed over.',
     ['inputs', 'histories', 'fault_sequences'], 'all names up to the bound, all outcomes of looking up, opening and closing every candidate file, all histories of loading and unloading', 'no test loads a library',
     [S + 'file/library.cc', I + 'file/library.h'], [('file names and one library', S + 'file/library.cc'), ('search order and the loaded libraries', S + 'file/library.cc')],
     [H('library.cc', 'lib_name', 'file names', 'up to 7 characters of those in the suffix', params={'bytes': 7}),
      H('library.cc', 'lib_bytes', 'file names of any bytes', '10 characters (thorough 15)', params={'bytes': 10}, tparams={'bytes': 15}),
      H('library.cc', 'lib_one', 'one library object', '3 operations (thorough 4), 2 candidate files that are absent, good, broken or cannot be looked up', params={'ops': 3}, tparams={'ops': 4}),
      H('library.cc', 'lib_find', 'search order', '1..2 paths, 0..2 possible names, every candidate absent, good or broken (thorough: or not to be looked up)', params={'states': 2}, tparams={'states': 3}, weight=2),
      H('library.cc', 'lib_prefix', 'names with the prefix in them', '7 names, every state of the plain and the prefixed file', opts=R),
       H('library.cc', 'lib_paths', 'search paths', '3 operations (thorough 4) on 3 paths', params={'ops': 3}, tparams={'ops': 4})],
     ['files opened and closed', 'results', 'main function'], ['library.cc is compiled against a loader and a file system in memory'])

prop('P37', 'Directories and files are used exactly as named, failures are reported',
     'Making a directory makes every missing directory of the given name with the requested permissions (by default usable by its owner), nothing else and nothing outside of it; it succeeds exactly when the directory is there afterwards, also when others make it at the same time, whatever the length of the name. Every call on a file descriptor acts on that descriptor only, transfers and counts exactly what the system did, keeps the other flags when it changes one, tells the true position, and reports every failure as a failure.',
     ['inputs', 'fault_sequences', 'schedules'], 'all names up to the bound over the characters that matter and lengths around the limits, all sets of existing and forbidden directories, all failures, two threads', 'tests make one directory and never see a failing system call',
     [S + 'basic/utility.cc', S + 'file/api.cc', I + 'basic/utility.h', I + 'file/api.h'], [('directories', S + 'basic/utility.cc'), ('descriptor calls', S + 'file/api.cc')],
     [H('files.cc', 'dir_make', 'any name', '1..5 characters (thorough 6), 4 existing trees, one directory that cannot be made, one made by others meanwhile', params={'len': 5}, tparams={'len': 6}, reach=['made', 'denied'], weight=2),
      H('files.cc', 'dir_long', 'long names', '11 lengths from 0 to 9000', reach=['made', 'refused']),
      H('files.cc', 'dir_threads', 'two threads make the same directory', 'all interleavings', opts=R, mt=True),
      H('files.cc', 'dir_name', 'the directory of a path', '0..5 characters'),
      H('files.cc', 'fd_io', 'reading, writing and moving', '0..4 bytes written, 0..4 read, all positions up to 4, all ways to seek'),
      H('files.cc', 'fd_block', 'non-blocking mode', '3 operations'),
      H('files.cc', 'fd_fail', 'failing calls', '10 calls, 6 errors')],
     ['system calls and their arguments', 'results'], ['api.cc is compiled against a descriptor table in memory, directories are kept by stand-ins of access and mkdir'])

prop('P38', 'Process files and commands concern exactly the process and command named',
     'The process id written to a file is read back; a file that is missing or does not hold the id of a process names none. Waiting for a process signals exactly the process of its file and no other, asks it to end, and returns when it is gone; without such a process nothing is signalled. A command runs exactly as given, the first line of its output is returned as far as it fits, and usage figures are those of the process asked for. Every file is closed and every failure reported.',
     ['inputs', 'fault_sequences', 'histories'], 'all file contents up to the bound, all process ids up to the bound, all moments of ending, command lengths around the limits, all outputs and buffer sizes up to the bound', 'no test uses process files; a wrong one would signal a real process',
     [S + 'sys/process.cc', S + 'sys/utility.cc'], [('process files and usage', S + 'sys/process.cc'), ('commands', S + 'sys/utility.cc')],
     [H('process.cc', 'pid_round', 'writing and reading', 'all ids to 9999 and 5 larger ones, 4 states of the file', weight=2),
      H('process.cc', 'pid_any', 'any file', '0..4 arbitrary bytes (thorough 6)', params={'bytes': 4}, tparams={'bytes': 6}, reach=['none', 'some']),
      H('process.cc', 'pid_wait', 'waiting', 'the process is gone before or after 1..5 signals'),
      H('process.cc', 'exec_any', 'commands', '7 lengths from 0 to 3000, 0..4 arbitrary bytes of output, room 1..6'),
      H('process.cc', 'proc_info', 'usage', '1..6 digits'),
      H('process.cc', 'host_name', 'name of the host', 'known or not')],
     ['signals sent', 'commands run', 'results', 'open files'], ['process.cc and utility.cc of sys are compiled against files, processes and commands in memory'])

NOT_APPLICABLE = [
  dict(property='P90', title='Shared memory objects are shared, exclusive where asked, and recovered',
       statement='Objects and maps kept in shared memory are seen alike by every process attached to them, are locked while they are changed, and are found again after a process ended at any point.',
       over=['schedules', 'crash_points', 'inputs'], qtext='all interleavings and crash points of attached processes', why='no test attaches a second process',
       files=[I + 'sys/memory/share.h', I + 'sys/memory/sharemap.h'], mech=[('shared pools and maps', I + 'sys/memory/share.h')], observe=['contents of the shared memory'],
       reason='There is no code to encode: only headers exist (the sources of the share functions they call are not in the repository), and their templates do not compile when they are instantiated.'),
  dict(property='P91', title='io_uring, IOCP and kqueue back ends keep the guarantees of the network layer',
       statement='A server or connector that uses io_uring, IOCP or kqueue delivers, sends, limits and closes exactly as one that uses epoll or select, including the awaitable transfers of its streams and sockets.',
       over=['schedules', 'inputs', 'fault_sequences'], qtext='all completion orders and outcomes', why='the tests run on one back end',
       files=[S + 'net/connection/io_uring.cc', S + 'net/connection/iocp.cc', S + 'net/connection/kqueue.cc', S + 'net/socket/io_uring.cc', I + 'net/detail/coroutine.h'], mech=[('completion driven transfers', S + 'net/connection/io_uring.cc')], observe=['bytes on the wire', 'callbacks'],
       reason='The bodies of these files are compiled only where liburing (not installed here), Windows or BSD is present; with the macros of this build they are empty, so there is no bitcode to execute, and the awaitable paths are reached only from them.'),
  dict(property='P92', title='A daemon leaves its terminal and keeps running',
       statement='daemon() detaches from the session, closes the standard descriptors and lets only the last process go on.',
       over=['fault_sequences'], qtext='all outcomes of fork and setsid', why='a test cannot fork itself away', files=[S + 'sys/process.cc'], mech=[('double fork', S + 'sys/process.cc')], observe=['process tree', 'descriptors'],
       reason='The effect is a change of the process tree by fork(); a symbolic state has no second process, and a stand-in for fork would decide nothing beyond the order of three system calls.'),
  dict(property='P93', title='Charset conversion is exact', statement='Text converted between two character sets is the same text, and never leaves the given buffers.', over=['inputs'], qtext='all texts and character sets', why='not built in the tests',
       files=[S + 'basic/utility.cc'], mech=[('charset_convert', S + 'basic/utility.cc')], observe=['converted text'],
       reason='The conversion is compiled only with PLAIN_OPEN_ICONV, which this build does not define (and whose iconvctl call glibc does not have); what is compiled is a stub that returns 0.'),
]
