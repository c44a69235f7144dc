#!/usr/bin/env python3
"""Writes properties.jsonl (the single source of the property texts is this file)."""
import json
import os

P = []


def p(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, hook='none'):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    if state:
        a['state'] = [{'name': n, 'meaning': m} for n, m in state]
    if observe:
        a['observe_at'] = observe
    a['hook_needed'] = hook
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': qtext}, 'why_tests_cant': why, 'anchors': a})


PROTO = ['src/protocol.cpp', 'include/libstored/protocol.h']

p('P01', 'Protocol stacks deliver every message intact, once and in order',
  'Two mirrored stacks of framing layers (ASCII escaping, terminal framing, segmentation, buffering, '
  'checksums, loopback, and the pass-through layers) deliver every message that is sent at one side, '
  'in however many pieces it is passed down, as exactly those bytes, once, in order and with its '
  'boundaries, at the other side, and deliver nothing else. A stack keeps doing so after layers are '
  'inserted, removed, destroyed or reset while no message is in transit. Frames handed to the '
  'transport are never larger than the MTU the transport reports, given that the sender respects the '
  'MTU reported by the top of the stack.',
  ['inputs', 'configurations', 'histories'],
  'all messages over a small alphabet with every byte that is special to a layer, all ways to split '
  'them, all stack compositions, all (small) MTUs',
  'test_protocol.cpp checks a handful of literal byte strings per layer; combinations of layers, MTUs, '
  'partial encodes and consecutive messages are not enumerated.',
  PROTO,
  [('ASCII escaping', 'AsciiEscapeLayer::encode/decode, src/protocol.cpp'),
   ('terminal framing', 'TerminalLayer::encode/decode'),
   ('segmentation', 'SegmentationLayer::encode/decode/mtu'),
   ('buffering', 'BufferLayer::encode'), ('checksums', 'Crc8Layer, Crc16Layer'),
   ('stack linkage', 'ProtocolLayer ctor/wrap/stack/dtor')],
  observe=['decode() of the upper layer', 'encode() into the transport'])

p('P02', 'Debug frames and terminal text share a stream without interference',
  'When text and framed debug messages are mixed in one byte stream, the receiver passes every debug '
  'message up exactly once and intact, and hands out every other byte exactly once, unaltered and in '
  'order. How the stream is cut into chunks when it is received has no influence on the bytes that are '
  'handed out, nor on the messages, except that an escape byte at the end of a chunk is handed out as '
  'text right away.',
  ['inputs', 'schedules'],
  'all byte streams over the alphabet of framing-relevant bytes up to a bounded length, all ways to cut '
  'them in chunks',
  'The tests feed a few hand-written streams in one or two chunkings.',
  PROTO,
  [('frame extraction', 'TerminalLayer::decode, nonDebugDecode, src/protocol.cpp'),
   ('injection', 'TerminalLayer::encode, encodeStart, encodeEnd, nonDebugEncode'),
   ('unescaping', 'AsciiEscapeLayer::decode')],
  observe=['decode() of the layer on top', 'the non-debug sink'])

p('P03', 'Corrupted frames are dropped by the checksum layers',
  'A frame that got any one or two bit errors in a message of up to 256 bytes, any three bit errors in a '
  'message of up to 30 bytes, or any burst of errors (shorter than 8 bits for the 8-bit checksum, up to 16 bits '
  'for the 16-bit one), is never passed up; neither is a frame shorter than the checksum. Undamaged '
  'frames, of any length and encoded in any number of pieces, carry the checksum of the documented polynomial '
  'and are always passed up unaltered.',
  ['inputs', 'fault_sequences'],
  'all bit-error patterns of bounded weight and all bursts, over all frame lengths within the '
  'documented range',
  'The tests flip a few hand-picked bytes of a single frame.',
  PROTO,
  [('8-bit CRC', 'Crc8Layer::encode/decode/compute'), ('16-bit CRC', 'Crc16Layer::encode/decode/compute')],
  observe=['decode() of the layer on top'])

p('P04', 'Reliable-transfer layer delivers exactly once, in order, over any channel',
  'Over a channel that may lose, duplicate and delay (but not reorder) frames in both directions, every '
  'message accepted by the retransmitting layer is delivered to the other side at most once and in the '
  'order sent (a message that is in transit when a side reconnects may be repeated once), and once the channel behaves again and the layer is kept triggered, every one of them is '
  'delivered and the queue drains. This keeps holding when sequence numbers wrap around and while both '
  'sides send at the same time. A reconnect after one side is reset is noticed, and transfer works '
  'again afterwards.',
  ['histories', 'fault_sequences', 'schedules'],
  'all fault sequences (drop, duplicate, delay) with a bounded number of faults, at every position, in '
  'all interleavings of send, trigger and deliver steps of two peers up to a bounded depth, starting '
  'around every sequence-number wrap',
  'The tests and one example drop a few chosen frames; the space of fault positions and the wrap-around '
  'combinations are not covered.',
  PROTO,
  [('transmit queue and retransmission', 'ArqLayer::encode/transmit/process, src/protocol.cpp'),
   ('receive window and acknowledgement', 'ArqLayer::decode')],
  state=[('send/receive sequence numbers', 'next expected and next to send, 6-bit wrapping')],
  observe=['decode() of the layer on top', 'event callback', 'frames on the channel'])

p('P05', 'Debug requests execute at most once and get the matching response',
  'With the debug retransmission layers on both ends of a channel that loses or duplicates frames, '
  'every request that the client completes gets the response that belongs to that request, and the '
  'target executes a request only once, however often it is retransmitted (unless the response is so '
  'large that it is not kept, and the request is retransmitted). A reset by the client re-establishes '
  'communication from any state, and numbering that wraps around changes none of this.',
  ['histories', 'fault_sequences'],
  'all loss/duplication patterns with a bounded number of faults over sequences of requests and '
  'multi-frame requests/responses, from initial and near-wrap states',
  'The unit tests drop a few chosen frames; the Promela model in the tests is not connected to the code.',
  PROTO + ['tests/DebugArqLayer.pml', 'python/libstored/protocol.py'],
  [('request sequencing and retransmission buffer', 'DebugArqLayer::encode/decode, src/protocol.cpp'),
   ('sequence number coding', 'DebugArqLayer::decodeSeq/encodeSeq')],
  observe=['decode() of the layer on top', 'frames on the channel'])

SYNC = ['src/synchronizer.cpp', 'include/libstored/synchronizer.h']

p('P06', 'Synchronized stores converge to the same contents',
  'For any topology without cycles of synchronizers that share a store, and any history of local '
  'writes (each object written by one process), synchronization rounds and message deliveries, all '
  'copies become equal once all updates are processed, and each copy shows the writes of one process '
  'in the order in which they were done. A connecting copy first takes over the contents of the copy it '
  'connects to. Disconnecting, reconnecting or unmapping never corrupts a copy, and after a reconnect '
  'they converge again.',
  ['histories', 'schedules', 'configurations'],
  'all interleavings of writes, process and message deliveries up to a bounded depth, on all small '
  'topologies (pair, chain, star), with connects and disconnects at any moment',
  'The tests run fixed scripts on two or three stores with lock-step processing.',
  SYNC,
  [('change tracking', 'StoreJournal'), ('connection handshake', 'SyncConnection::decode/source/drop'),
   ('update propagation', 'SyncConnection::process, Synchronizer::process')],
  observe=['contents of the stores', 'messages on the channels'])

p('P07', 'The change journal reports exactly the objects changed since a moment',
  'Asking the journal of a store what changed since a given moment yields every object that changed '
  'since, none that did not change since the journal last had this precision, and updates encoded from it, when applied to another '
  'copy of the store, bring exactly those objects up to date and touch nothing else. This holds for '
  'every order of changes, also when objects change repeatedly, and over long histories in which '
  'internal counters wrap.',
  ['histories'],
  'all sequences of changes and queries over a small set of objects, of all key sizes, up to a bounded '
  'depth, from states around the counter wrap',
  'Tests check a few fixed change sequences; the wrap of the short sequence numbers is not approached '
  'in combination with queries.',
  SYNC,
  [('sorted change tree', 'StoreJournal::update/changed/hasChanged/iterateChanged'),
   ('short sequence numbers', 'StoreJournal::toShort/toLong/bumpSeq/clean'),
   ('update coding', 'StoreJournal::encodeUpdates/decodeUpdates')],
  observe=['hasChanged', 'iterateChanged', 'encoded updates'])

p('P08', 'Arbitrary synchronization messages are harmless',
  'Whatever bytes arrive on a synchronization connection, in whatever state it is, the process does not '
  'crash, access memory outside the stores, or write outside the addressed store; malformed messages '
  'and messages with unknown hashes or ids have no effect on store contents other than through '
  'well-formed updates that lie entirely within the store. After garbage, proper synchronization can '
  'still be (re-)established.',
  ['inputs', 'histories'],
  'all messages over an alphabet of valid fragments and boundary values up to a bounded length, in '
  'every connection state, and all truncations and single-byte changes of valid messages',
  'No test sends malformed messages; the fuzz target is not run and is only sampling.',
  SYNC,
  [('message parsing', 'SyncConnection::decode, decodeId, src/synchronizer.cpp'),
   ('update decoding', 'StoreJournal::decodeUpdates, decodeBuffer')],
  observe=['contents of the stores', 'sanitizer reports'])

STORE = ['include/libstored/store.h.tmpl', 'src/store.cpp.tmpl', 'include/libstored/types.h',
         'python/libstored/generator/__main__.py', 'python/libstored/generator/dsl/types.py',
         'python/libstored/generator/dsl/grammar.tx']

p('P09', 'Generated stores implement their description',
  'For every store description, each declared object exists in the generated store with the declared '
  'type, size and initial value, reading returns what was last written, and writing an object never '
  'changes the value of another one. The numerical contents are in the byte order the store was '
  'generated for, independent of the host, and objects are aligned to their size.',
  ['programs', 'inputs'],
  'all store descriptions over a grammar with all types, arrays, scopes and initial values, up to a '
  'bounded number of objects',
  'The tests use one store description; layout of other combinations is never exercised.',
  STORE,
  [('layout and initial values', 'Store.process, dsl/types.py'), ('typed access', 'Variable::get/set, types.h'),
   ('generated accessors', 'store.h.tmpl')],
  observe=['accessors', 'buffer contents', 'directory listing'])

p('P10', 'Names resolve to the right object; listings are complete',
  'Looking up the full name of any object of any store finds exactly that object. A name in which '
  'scopes or the object are abbreviated, each such that it is unambiguous within its scope, finds the '
  'object that is abbreviated; a name with an ambiguous abbreviation finds nothing (what another, '
  'misspelled, name finds is not defined, but it is either nothing or a proper object). Listing a store '
  'reports every object exactly once, with its full name, type and size; lookup never reads past the '
  'name or the directory, for any name and length limit.',
  ['programs', 'inputs'],
  'all stores with up to a bounded number of names over a small alphabet with shared prefixes, '
  'separators and arrays; all query strings over that alphabet (and more) up to a bounded length',
  'Tests query a few tens of names in a single store; the directory is a compressed search tree whose '
  'shape depends on the set of names.',
  ['src/directory.cpp', 'include/libstored/directory.h', 'python/libstored/generator/dsl/types.py'],
  [('tree generation', 'Directory, ExpandedDirectory in dsl/types.py'), ('lookup', 'find(), src/directory.cpp'),
   ('listing', 'list(), src/directory.cpp')],
  observe=['store.find()', 'store.list()'])

p('P11', 'Object hooks are balanced, ordered and report changes truthfully',
  'Every access to a store object through typed or untyped handles is enclosed by exactly one entry '
  'and one exit notification, of the right kind, for the right object and size; exclusive access '
  'reports a change if the value changed. No access leaves an open notification, also when handles are '
  'copied, the value is unchanged, the byte order is swapped, or the type is a string or blob.',
  ['inputs', 'histories'],
  'all operations of typed and untyped handles, over all object types and small value sets, in all '
  'sequences up to a bounded length',
  'test_hooks.cpp checks a few accesses of an int and a blob.',
  ['include/libstored/types.h', 'include/libstored/store.h.tmpl', 'include/libstored/synchronizer.h'],
  [('entry/exit hooks', 'Variable, Variant in types.h; hook* in store.h.tmpl')],
  observe=['hook callbacks'])

p('P12', 'Typed and untyped handles implement the same value semantics',
  'A value written through a typed handle, an untyped handle, a function object or an array element is '
  'read back identically through any other handle to that object, whether the store is in host or '
  'swapped byte order and whether unaligned access is allowed. Strings are truncated to their size and '
  'always terminated, blobs are handled partially when asked for less, and reads and writes return the '
  'number of bytes handled and never touch memory beyond it.',
  ['inputs', 'histories', 'configurations'],
  'all types, all pairs of write and read handles, boundary values, all buffer lengths from zero to '
  'beyond the size, all sequences of two or three operations',
  'test_types.cpp and test_function.cpp check isolated literals.',
  ['include/libstored/types.h', 'include/libstored/store.h.tmpl'],
  [('typed handles', 'Variable, Function, StoreVariable, StoreFunction'),
   ('untyped handles', 'Variant, Variant<void>'), ('arrays', 'StoreVariantV, store.h.tmpl')],
  observe=['get/set of all handles'])

DBG = ['src/debugger.cpp', 'include/libstored/debugger.h']

p('P13', 'The debugger implements the documented command protocol',
  'For every sequence of requests, the debug target gives exactly one response per request, in order, '
  'and the response is the one the documented protocol defines, given the store contents, aliases, '
  'macros and streams at that moment. Requests change the stores, aliases, macros, streams and memory '
  'only as documented.',
  ['inputs', 'histories', 'configurations'],
  'all sequences of a bounded number of requests over an alphabet of (in)valid commands of every kind, '
  'with one or several mapped stores, compared with a reference model of the protocol',
  'test_debugger.cpp checks a number of literal request/response pairs per command, mostly from the '
  'initial state.',
  DBG, [('command dispatch', 'Debugger::process, src/debugger.cpp'), ('object lookup', 'Debugger::find'),
        ('macros', 'Debugger::runMacro'), ('capability reply', 'Debugger::capabilities')],
  observe=['encode() of the layer below', 'stores', 'memory'])

p('P14', 'Arbitrary debug requests are harmless',
  'Whatever bytes a request contains, at whatever length, and in whatever state the debugger is, the '
  'target does not crash or access memory out of bounds (other than memory explicitly addressed), '
  'answers with exactly one response, and stays able to handle proper requests correctly afterwards. '
  'Requests that are answered with a nack have no effect on the stores.',
  ['inputs', 'histories'],
  'all requests up to a bounded length over an alphabet of protocol-relevant bytes, single and in pairs, '
  'and all truncations and single-byte mutations of valid requests',
  'The tests only check a few malformed requests.',
  DBG, [('request parsing', 'Debugger::process, decodeHex, src/debugger.cpp')],
  observe=['encode() of the layer below', 'sanitizer reports'])

p('P15', 'Streams and traces lose or reorder nothing that was accepted',
  'Data accepted by a stream is returned once, in order and unaltered (after decompression, if '
  'enabled) to the client that reads that stream, in requests of any kind in between; what does not fit is refused, as the '
  'returned length tells, without harming what was accepted. Flushing makes all accepted data retrievable, the '
  'restarted stream can be decoded on its own, and traces append the macro output for exactly every '
  'n-th trace call while enabled.',
  ['histories', 'configurations'],
  'all interleavings of writes to several streams, reads, flushes, trace calls and (re)configuration up '
  'to a bounded depth, for several buffer sizes, compressed or not',
  'Tests run a few fixed sequences.',
  DBG + ['src/compress.cpp', 'include/libstored/compress.h'],
  [('streams', 'Stream<true/false>, Debugger::stream, streamBuffer'), ('tracing', 'Debugger::trace'),
   ('flush', 'Debugger CmdFlush')],
  observe=['responses to stream requests'])

p('P16', 'Queues behave as queues, for any sequence of operations',
  'For every sequence of operations, the FIFOs behave as an ideal queue of their configured capacity: '
  'pops return the pushed elements or messages (of any length, including empty) once, in order and '
  'unaltered, pushes are accepted or refused as a whole, and size, space and iteration reflect the contents. '
  'A message that fits an empty queue is always accepted by an empty queue, and a refused or dropped '
  'partial message leaves no trace.',
  ['histories', 'configurations'],
  'all operation sequences up to a bounded depth for many capacities (including those around the '
  'width of the internal indices), bounded and unbounded, from every reachable fill position',
  'The tests follow a few fixed sequences, with a few capacities.',
  ['include/libstored/fifo.h'],
  [('element FIFO', 'Fifo'), ('message FIFO', 'MessageFifo'), ('views', 'BufferView'),
   ('loopback', 'FifoLoopback1')],
  observe=['return values and contents'])

p('P17', 'Bounded queues are safe between one producer and one consumer',
  'With one producer and one consumer running concurrently without any further synchronization, under '
  'every interleaving and every behaviour the C++ memory model allows, the consumer of a bounded FIFO '
  'gets exactly the elements or messages that were pushed, complete and in order, and no data race '
  'occurs.',
  ['schedules', 'configurations'],
  'all thread interleavings (bounded preemptions) and all allowed stale reads of the atomic variables, '
  'for a few operations per thread on queues small enough to fill up and wrap around',
  'The tests run two free-running threads on one machine, with its particular memory ordering.',
  ['include/libstored/fifo.h'],
  [('publication of indices', 'atomic read/write pointers of Fifo and MessageFifo'),
   ('buffer reuse', 'MessageFifo::append_back, pop_front')],
  observe=['popped data', 'data-race detection on all memory accesses'])

p('P18', 'Scratch memory is disjoint, aligned and strictly stack-like',
  'Memory allocated from a scratch pad is aligned as requested, does not overlap with any other live '
  'allocation, and keeps its contents and address until it is released by leaving the enclosing '
  'snapshot, a reset, or shrinking. Leaving a snapshot restores exactly the state at which it was '
  'taken, for any nesting and any order of growth, and size accounting is always right.',
  ['histories'],
  'all sequences of allocate (several sizes and alignments), snapshot, leave, reset, reserve and '
  'shrink up to a bounded depth',
  'The tests follow a few fixed sequences.',
  ['include/libstored/spm.h'],
  [('chunked bump allocation', 'ScratchPad::alloc/snapshot/rollback/grow/pushBuffer')],
  observe=['returned pointers', 'contents', 'size()/max()/capacity()'])

p('P19', 'Callable wrappers keep value semantics, also when copying fails',
  'A type-erased callable calls exactly the function object it was last assigned, copies are '
  'independent, moves transfer, and every stored function object is destroyed exactly once, for any '
  'sequence of construct, assign, copy, move, swap-like and reset operations, for small and large '
  'objects. When copying a function object throws, nothing leaks, nothing is destroyed twice, and the '
  'wrappers stay usable.',
  ['histories', 'fault_sequences'],
  'all operation sequences up to a bounded depth, with an exception injected at every copy',
  'The tests check fixed sequences without failing copies.',
  ['include/libstored/allocator.h'],
  [('type-erased storage', 'impl::Callable / CallableImpl, allocator.h')],
  observe=['calls', 'live-object accounting'])

p('P20', 'Signals reach exactly the connected listeners',
  'A signal calls every slot connected to it at that moment for the given key exactly once and no '
  'other, also when slots connect or disconnect in any order, tokens are reused, and signals are '
  'raised for different keys. Disconnecting removes exactly the slots identified by it.',
  ['histories'],
  'all sequences of connect, disconnect and call with a few keys, tokens and slots up to a bounded depth',
  'The tests follow a few fixed sequences.',
  ['include/libstored/signal.h'],
  [('listener map', 'Signal::connect/disconnect/call')],
  observe=['slot invocations'])

p('P21', 'Pipes pass values through as the composed functions',
  'A pipe composed of any segments gives, for every injected value, the value (and the side effects on '
  'attached pipes, callbacks and store objects) that the composition of the individual documented segment '
  'behaviours gives. Extracting yields the value of the last segment that holds one, passed through the '
  'casts of the segments behind it, without being influenced by the order of injects and extracts in '
  'between; upon a trigger, the first segment that provides data injects it in the remainder of the pipe. '
  'Exit values hold, also after being moved, what was passed, connected and extended pipes forward every '
  'value, triggering a group triggers all its members once, and numeric casts saturate and maps give the '
  'first element for unknown keys.',
  ['programs', 'histories', 'inputs'],
  'all compositions of up to a bounded number of segment kinds, all sequences of inject, extract and '
  'trigger over a small value set',
  'The tests use a fixed composition for every segment.',
  ['include/libstored/pipes.h', 'src/pipes.cpp'],
  [('composition', 'Pipe, impl::Segments, operator>>'), ('segments', 'namespace stored::pipes')],
  observe=['inject()/extract() values'])

p('P22', 'Control components follow their defining equations',
  'For any sequence of finite inputs and parameter settings, and for any subset of its optional objects, every '
  'control component gives the output its documentation defines, and stores it: an override (other than NaN) wins; '
  'the amplifier is gain * input + offset within its limits, and passes its input (within the limits) when disabled; '
  'pins apply their override; the PID follows its serial equation with windup prevention, within its limits, using '
  'the parameters of its first run or last reset, and holds its output while disabled; waves follow amplitude, '
  'frequency, phase, duty cycle, and offset; low and high pass filters follow the first-order equation and pass '
  'their input when disabled; and a ramp respects its speed and acceleration limits (also when changed and reset '
  'while running), does not overshoot from standstill, and always reaches its target and stays there.',
  ['inputs', 'histories'],
  'all input and parameter sequences over small boundary-value sets up to a bounded depth, compared '
  'with reference models or invariants',
  'Only the amplifier is tested, with a few values.',
  ['include/libstored/components.h'],
  [('components', 'Amplifier, PinIn, PinOut, PID, Sine, PulseWave, FirstOrderFilter, Ramp')],
  observe=['outputs'])

p('P23', 'Poller reports exactly the registered ready items',
  'For every history of adding, modifying and removing pollables, a poll returns exactly the registered '
  'items that are ready for an event they are registered for, with the right events, and no item that '
  'was removed or is not ready; when none is ready it reports a timeout. The bookkeeping is the same '
  'for all poll methods available on the platform.',
  ['histories', 'fault_sequences'],
  'all sequences of add, modify, remove, make (un)ready and poll over a few file descriptors up to a '
  'bounded depth, for all poll methods',
  'The tests follow a few fixed sequences with a single poller.',
  ['include/libstored/poller.h', 'src/poller.cpp'],
  [('pollables', 'TypedPoller, PollPoller, LoopPoller, ZmqPoller, Poller'), ('poll', 'doPoll in src/poller.cpp')],
  observe=['poll() results'])

p('P24', 'File and pipe layers lose nothing under partial and failing I/O',
  'Every byte sequence sent through a file, pipe or serial layer is handed to the operating system '
  'completely, once and in order, and every byte received is passed up once and in order, for every '
  'pattern of short reads, short writes, would-block and interrupted calls. When an operation fails, '
  'the error is reported, the layer stays or becomes closed consistently, and no descriptor is leaked, '
  'closed twice or used after close.',
  ['fault_sequences', 'inputs'],
  'all sequences of operating-system answers (short counts, EAGAIN, EINTR, errors, end of file) with a '
  'bounded number of deviations, at every system call',
  'The tests use well-behaved files and pipes.',
  PROTO,
  [('writes', 'FileLayer::encode/write'), ('reads', 'FileLayer::recv/read'), ('blocking', 'FileLayer::block'),
   ('pipes', 'DoublePipeLayer, NamedPipeLayer')],
  observe=['system calls', 'lastError()/isOpen()', 'decode()'])

p('P25', 'Compression is lossless and interoperable',
  'Any sequence of non-empty messages sent through the compressing layer, in any chunking, is '
  'restored exactly, with its message boundaries, by the decompressing side of the C++ library, and by the '
  'Python decoder; ending (flushing) a message makes everything sent so far available. Corrupt or truncated compressed '
  'input never causes memory errors.',
  ['inputs', 'histories'],
  'all messages over a small alphabet up to a bounded length plus structured long ones (around the '
  'window and look-ahead sizes), in all sequences and chunkings',
  'The tests use a few literals; the Python decoder is tested with a few inputs.',
  ['src/compress.cpp', 'include/libstored/compress.h', 'python/libstored/heatshrink.py'],
  [('compression', 'CompressLayer::encode/decode/reset'), ('python decoder', 'HeatshrinkDecoder')],
  observe=['decode() of the layer on top', 'output of the python decoder'])

p('P26', 'The Python protocol layers speak the same protocol as the C++ ones',
  'For every protocol layer that exists in both Python and C++, what one side encodes is decoded by the other to '
  'the same messages, for any message, chunking, MTU and sequence, and with message loss where the '
  'layer has to cope with that.',
  ['inputs', 'histories', 'fault_sequences'],
  'all messages over an alphabet with every special byte up to a bounded length, all small MTUs and '
  'layer compositions, in both directions',
  'No test connects the two implementations at this level.',
  ['python/libstored/protocol.py', 'src/protocol.cpp'],
  [('python layers', 'AsciiEscapeLayer, TerminalLayer, SegmentationLayer, DebugArqLayer, Crc8Layer, '
    'Crc16Layer in protocol.py')],
  observe=['encoded frames', 'decoded messages'])

p('P27', 'Conversions and string helpers are exact',
  'Saturating conversion between any two arithmetic types gives the value itself when it is '
  'representable and the nearest limit otherwise; byte-order conversions are exact inverses and '
  'independent of length and alignment; bounded string comparison orders as documented, for all '
  'lengths and terminations; string literals round trip through their escaped form.',
  ['inputs'],
  'all pairs of arithmetic types with all boundary values (all values for 8 and 16-bit types), all '
  'strings over a small alphabet up to a bounded length',
  'The tests check a few values for a few type pairs.',
  ['include/libstored/util.h', 'src/util.cpp'],
  [('saturating conversion', 'saturated_cast, impl::saturated_cast_helper'),
   ('byte order', 'swap_endian, memcpy_swap, memcmp_swap, endian_*'), ('strings', 'strncpy, strncmp, string_literal')],
  observe=['return values'])

p('P28', 'Generated documentation and metadata agree with the generated code',
  'The names, types, sizes, keys and initial values in the generated metadata (Python meta data, CSV) are those '
  'of the generated C++ store, for every store description, and generating twice gives the same '
  'output. Descriptions that are invalid (ambiguous names, initial values that are out of range) '
  'are rejected rather than turned into a broken store.',
  ['programs'],
  'all store descriptions over the bounded grammar of P09',
  'Tests only build the one description and an example of the meta data.',
  STORE,
  [('templates', 'generator/*.tmpl, store.h.tmpl'), ('model', 'dsl/types.py')],
  observe=['generated files'])

p('P29', 'The generated VHDL store equals the C++ store',
  'The VHDL store that is generated from a description has the same objects, layout, initial values '
  'and synchronization behaviour as the C++ one.',
  ['programs', 'histories'],
  'all store descriptions, all synchronization histories',
  'Needs a VHDL simulator, which the test suite does not use by default.',
  ['fpga/rtl', 'python/libstored/generator/__main__.py'],
  [('vhdl templates', 'fpga/rtl, *.vhd.tmpl')],
  observe=['simulation'])

p('P30', 'The ZeroMQ layers keep request/response pairing and message boundaries',
  'Over the ZeroMQ layers, every request yields exactly one response with the same content as without '
  'ZeroMQ, multi-part messages are passed as one in order, and out-of-order or partial use (responding twice, '
  'not at all, closing in between) is answered by an error, without blocking or breaking later requests.',
  ['histories'],
  'all sequences of client requests, target receive, respond and misuse operations up to a bounded depth',
  'The tests start a server and run a fixed client script.',
  ['src/zmq.cpp', 'include/libstored/zmq.h'],
  [('REQ/REP layer', 'ZmqLayer, DebugZmqLayer, SyncZmqLayer')],
  observe=['client responses'])

p('P31', 'The Python client shows and changes what the target holds',
  'A value that is read through the Python client is that of the object at the target at that moment, and a '
  'value that is written becomes the value of exactly that object, for every type and whatever aliases, '
  'macros and capabilities there are; an alias the client uses for an object refers to that object. Polled '
  'and traced values are the ones of that object, with the right time stamp and in order. Finding an object by '
  '(abbreviated) name or attribute gives the right one, data of streams and memory arrives unchanged, and a '
  'saved state is restored as it was.',
  ['inputs', 'histories', 'schedules'],
  'all sequences of client operations and actions of the application up to a bounded depth, for targets with '
  'different capabilities and limits, and all boundary values of all types',
  'The tests run one script against one server.',
  ['python/libstored/zmq_client.py'],
  [('client', 'ZmqClient, Object, Stream, Macro, Tracing, alias administration'),
   ('target', 'src/debugger.cpp at the other end')],
  observe=['Object.value', 'values at the target', 'stream data'])

p('P32', 'Logged CSV files hold every sample under the right columns',
  'A CSV file that is being logged to holds a header with the names of the objects, followed by the samples in the order '
  'they were written, each with its time stamp and the values that the objects had, in the columns of the header '
  'they were taken under. This holds when objects are added and removed, when logging is paused, resumed, restarted or '
  'closed, and for all timing of the thread that writes the file. A unique file name never overwrites an existing file.',
  ['histories', 'schedules'],
  'all operation sequences up to a bounded depth, and all interleavings with the writer thread up to a bounded number of preemptions',
  'There are no tests of the CSV export.',
  ['python/libstored/csv.py'],
  [('export', 'CsvExport, generateFilename')],
  observe=['file contents'])

with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        assert len(x['title']) <= 80, x['title']
        f.write(json.dumps(x) + '\n')
