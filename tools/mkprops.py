#!/usr/bin/env python3
# source of /verif/properties.jsonl (one call per property)
import json
P = []
def p(id, title, statement, over, text, why, files, mech, state=None, observe=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=['stingraykit/' + f for f in files], mechanism=[dict(name=n, where='stingraykit/' + w) for n, w in mech],
                     state=[dict(name=n, meaning=m, where='stingraykit/' + w) for n, m, w in (state or [])], observe_at=observe or [], hook_needed=None)))

p('C01', 'Bit fields read back what was stored and disturb nothing else',
  'Storing a value into a bit field of a byte buffer and reading the same field into a type at least as wide as the field returns the value truncated to the field width, in big- and little-endian form. Every bit of the buffer outside the field keeps its value. A field that does not fit the buffer is refused with an exception before anything is changed.',
  ['inputs'], 'all buffer contents, all stored values, all buffer lengths, every (offset, width) shape instantiated',
  'tests compare a few constant patterns; the frame (all other bits, all other bytes, all values) cannot be sampled',
  ['BitsGetter.h', 'collection/ByteData.h'], [('BasicBitsGetter::Get', 'BitsGetter.h'), ('BasicBitsSetter::Set', 'BitsGetter.h')])
p('C02', 'Bit streams consume and produce exactly the requested bits in order',
  'Reading n bits from a bit stream yields the next n bits of the input most significant first and advances the position by exactly n; what a writing stream produced is read back value for value. A read or write beyond the end raises an exception and never touches memory outside the buffer.',
  ['inputs', 'histories'], 'all buffer contents, all start positions, all widths of the instantiated types, short operation sequences with arbitrary arguments',
  'positions, widths and contents combine to far more cases than the fixed vectors in the tests',
  ['io/BitStream.h'], [('BasicBitStream', 'io/BitStream.h')])
p('C03', 'Byte views never reach outside the storage they were made from',
  'Every view obtained from a byte view or byte array by offset, size, slicing or limiting covers only bytes of the view it was made from, or the operation is refused with an exception. This holds for every combination of offset and size, including values whose sum exceeds the range of the size type. Element access outside the view is refused.',
  ['inputs'], 'all offsets, sizes and limits of the full 64-bit range, chained sub-views',
  'tests use small in-range offsets; wrap-around and chained limits are never sampled',
  ['collection/ByteData.h', 'collection/BytesOwner.h'], [('BasicByteData constructors', 'collection/ByteData.h'), ('BasicByteArray constructors', 'collection/ByteData.h')])
p('C04', 'The two-thread ring buffer is a lossless FIFO of bytes',
  'For every capacity and every sequence of pushes and pops within the offered spans, the bytes offered to the reader are exactly the bytes pushed and not yet popped, in order. Reported data size and free size always add up to the capacity and match the difference of bytes pushed and popped. The write span never overlaps unread data, and moving past the offered end is refused.',
  ['histories', 'inputs'], 'every capacity, every reachable cursor position, every push/pop amount',
  'tests run one or two fixed sequences over tiny buffers; wrap positions and full/empty corner states are not covered for all capacities',
  ['io/BithreadCircularBuffer.cpp', 'io/BithreadCircularBuffer.h'], [('Impl::Push/Pop/Read/Write', 'io/BithreadCircularBuffer.cpp')],
  [('_writeOffset,_readOffset,_dataIsContiguous', 'ring cursors', 'io/BithreadCircularBuffer.cpp')])
p('C05', 'Ring buffers with in-memory storage keep byte order and account for every byte',
  'The general ring buffers return bytes in exactly the order written, never more than were written, and report data and free sizes consistent with the history. A refused operation leaves the buffer unchanged.',
  ['histories', 'inputs'], 'every capacity, cursor position, amount and content',
  'tests check a handful of small sequences',
  ['io/CircularBufferBase.h', 'io/MemoryCircularBuffer.h', 'io/SharedCircularBuffer.h', 'io/ICircularBuffer.h'], [('CircularBufferBase', 'io/CircularBufferBase.h'), ('MemoryCircularBuffer', 'io/MemoryCircularBuffer.h')])
p('C06', 'Packet buffers deliver whole packets in order or not at all',
  'A packet buffer hands out packets with the same bytes and boundaries as they were put in, oldest first. A packet that does not fit is dropped whole or refused whole according to the configuration, and never corrupts queued packets.',
  ['histories', 'inputs'], 'packet sizes, capacities and contents, sequences of put and get',
  'tests use fixed packets; overflow and wrap combinations are not enumerated',
  ['io/PacketBuffer.h'], [('PacketBuffer', 'io/PacketBuffer.h')])
p('C07', 'Paged buffers return the pushed bytes in order across pages',
  'Data written into a paged buffer in arbitrary pieces comes out in the same order and total amount for arbitrary read pieces, wherever page boundaries fall. The reported size always equals bytes pushed minus bytes popped.',
  ['histories', 'inputs'], 'page sizes, piece sizes and contents',
  'tests cover a few page/piece ratios',
  ['io/PagedBuffer.h', 'io/PagedBuffer.cpp'], [('PagedBuffer', 'io/PagedBuffer.cpp')])
p('C08', 'Seekable byte streams behave like files',
  'A read at a position returns the bytes most recently written there, reports how many it returned and moves the position by exactly that amount. A write replaces or extends exactly the addressed range, leaves all other bytes alone, and seeking sets the position reported by tell. This holds for the in-memory, chunked and windowed (offset/size) streams alike.',
  ['histories', 'inputs'], 'all positions, lengths and contents',
  'tests use a few fixed positions; range arithmetic at arbitrary positions is not covered',
  ['io/MemoryByteStream.h', 'io/ChunkedMemoryByteStream.h', 'io/ByteStreamWithOffset.h', 'io/ByteStreamWithOffsetAndSize.h'], [('MemoryByteStream', 'io/MemoryByteStream.h'), ('ChunkedMemoryByteStream', 'io/ChunkedMemoryByteStream.h')])
p('C09', 'Buffering and re-blocking layers neither lose, duplicate nor reorder bytes',
  'A buffered stream, data aligner, data packeter or buffered source forwards exactly the byte sequence of the source, in order, whatever amounts the source delivers and the consumer accepts. Aligners and packeters present only blocks of the required size.',
  ['histories', 'inputs', 'fault_sequences'], 'all short-read and partial-acceptance behaviours of the peer, all block sizes',
  'tests use cooperative peers; partial acceptance and short reads are not enumerated',
  ['io/BufferedStream.h', 'io/DataAligner.h', 'io/DataPacketer.h', 'io/DataBuffer.h', 'io/IntermediateDataBuffer.h'], [('DataAligner', 'io/DataAligner.h'), ('DataPacketer', 'io/DataPacketer.h')])
p('C10', 'Big integers follow integer arithmetic',
  'Sums, differences, products, quotients, remainders, shifts, comparisons and conversions of big integers equal those of the mathematical integers they represent, and results depend only on the represented value. Shift amounts may be any int except the most negative one.',
  ['inputs'], 'all operand values', 'tests sample a few literals; carries across all block boundaries are not covered',
  ['BigNum.h', 'BigNum.cpp'], [('BigUnsignedInteger', 'BigNum.cpp')])
p('C11', 'The vector with inline capacity is a correct sequence container',
  'The vector with inline capacity holds exactly the elements pushed, in order, both while they fit its inline storage and after it spilled to the heap; an index or checked access out of range is refused without changing it; copies, moves and assignments transfer exactly the elements. Every stored element is constructed once and destroyed once, also when constructing one throws.',
  ['histories', 'inputs'], 'all contents, sizes and operation arguments for the instantiated capacities', 'tests sample single sequences; element life times are not counted in all states',
  ['collection/inplace_vector.h'], [('inplace_vector', 'collection/inplace_vector.h')])
p('C12', 'Flat maps and sets behave like sorted associative containers',
  'After any sequence of insertions, assignments and removals a flat map or set contains exactly one entry per key with the value a map would hold, iterates in strictly increasing key order, and lookups find an entry exactly when the key is present.',
  ['histories', 'inputs'], 'all key and value choices', 'tests use fixed small key sets',
  ['collection/flat_map.h', 'collection/flat_set.h'], [('flat_map', 'collection/flat_map.h'), ('flat_set', 'collection/flat_set.h')])
p('C13', 'Insertion-ordered maps and sets keep both lookup and insertion order',
  'An insertion-ordered map or set finds exactly the keys inserted and not erased with the values of a map, and iterates them in order of first insertion. Copies are independent of the original.',
  ['histories', 'inputs'], 'all key choices and operation orders of the explored length', 'tests use fixed keys',
  ['collection/ordered_map.h', 'collection/ordered_set.h'], [('ordered_map', 'collection/ordered_map.h'), ('ordered_set', 'collection/ordered_set.h')])
p('C14', 'Caches never exceed their capacity and never return a wrong value',
  'A cache lookup returns the value most recently stored for that key or reports a miss; the number (or weight) of entries never exceeds the configured capacity, and the entry evicted is the one the eviction policy names.',
  ['histories', 'inputs'], 'all key choices and operation orders of the explored length', 'tests check fixed access sequences',
  ['collection/QueueCache.h', 'collection/TwoQueueCache.h'], [('QueueCache', 'collection/QueueCache.h')])
p('C15', 'UTF-8 decoding inverts the encoding exactly and never reads past the text',
  'The UTF-8 range decodes the encoding of every Unicode scalar value to that value and accepts exactly the well-formed sequences of the Unicode standard; malformed, overlong, surrogate or truncated text is reported by an exception and no byte outside the text is read. Stepping forwards and backwards visits the same code points; length, validation and substring agree with them.',
  ['inputs'], 'all byte sequences and all code points', 'tests check some strings; the space of malformed sequences is not enumerated',
  ['string/Utf8IteratorRange.h', 'string/Utf8StringUtils.h'], [('Utf8IteratorRange', 'string/Utf8IteratorRange.h')])
p('C16', 'Hexadecimal text and UUIDs convert without loss',
  'Converting bytes, unsigned integers or a UUID to hexadecimal text and back yields the original value; parsing accepts both letter cases and rejects every text that is not a valid representation of the type.',
  ['inputs'], 'all values; all texts', 'tests check a few constants', ['string/Hex.h', 'UUID.cpp', 'UUID.h'], [('ToHex/FromHex', 'string/Hex.h'), ('UUID::FromString', 'UUID.cpp')])
p('C17', 'Integer text conversion is exact or refused',
  'Parsing the decimal text of an integer returns that integer and formatting it returns that text; a text that is not an integer of the target type, including one out of range, a lone sign, or a minus sign for an unsigned type, is refused and never yields another value.',
  ['inputs'], 'all values and all texts of every integer type', 'tests check a few values near limits',
  ['string/ToString.h', 'string/StringUtils.h', 'string/lexical_cast.h', 'string/StringParse.h'], [('FromString', 'string/ToString.h')])
p('C18', 'Alignment and integer math helpers meet their mathematical definitions',
  'Aligning a non-negative value up or down gives the nearest multiple of the boundary not below or not above it, the greatest common divisor divides both operands and is divided by every common divisor, the least common multiple, absolute value, minimum, maximum and power test return the mathematical result, for every argument where that result is representable. A zero boundary is refused.',
  ['inputs'], 'all argument values of the instantiated types', 'tests check a few values per function', ['math.h'], [('math helpers', 'math.h')])
p('C19', 'Numeric ranges, rectangles and sizes obey set and geometry laws',
  'The intersection of two numeric ranges covers exactly the values between start and end of both, and two ranges intersect exactly when that intersection is not empty (ranges that only touch do not intersect); their union is the smallest range covering both; clamping gives the nearest value of the range; an inverted range is refused. A point is in the intersection of two rectangles (edges included) exactly when it is in both, and proper rectangles intersect exactly when they share such a point. Moving a rectangle keeps width and height; sizes add, subtract and scale per component.',
  ['inputs'], 'all coordinates (within stated overflow-free bounds)', 'tests check some constants', ['NumericRange.h', 'Rect.h', 'Size.h', 'Size.cpp'], [('NumericRange', 'NumericRange.h'), ('Rect', 'Rect.h')])
p('C20', 'Fixed-point numbers agree with exact binary fractions',
  'Whenever the result is representable: addition, subtraction, negation and comparison of fixed-point numbers and conversion from integers or to a finer precision are exact; products, conversion to a coarser precision and the integer part round towards minus infinity; quotients round towards zero.',
  ['inputs'], 'all raw values', 'tests check some constants', ['fixed_point.h'], [('fixed_point', 'fixed_point.h')])
p('C21', 'Calendar and clock conversions are consistent for every instant',
  'Converting an instant to broken-down calendar form (UTC or local) and back returns the same instant; from 1970 on the fields are the time of day, weekday and date of the instant, and day start and day distance follow from them. Modified Julian Date, NTP, packed-decimal and platform file-time representations give the instant to the precision of the representation and round-trip. Durations add, subtract, scale, divide, compare and round as integers whenever the result is representable; time zones outside -12h..+14h and inverted intervals are refused.',
  ['inputs'], 'all instants in the supported range', 'tests check a few dates', ['time/Time.h', 'time/Time.cpp', 'time/BrokenDownTime.cpp', 'time/NtpTimestamp.cpp', 'time/posix/TimeEngine.cpp'], [('Time conversions', 'time/Time.cpp'), ('BrokenDownTime', 'time/BrokenDownTime.cpp')])
p('C22', 'Shared, weak and unique owners destroy an object exactly once',
  'An object under shared ownership is destroyed exactly when its last owner lets go, never earlier and never twice; weak owners never revive a destroyed object; unique owners transfer ownership without loss. Use counts equal the number of live owners.',
  ['histories', 'inputs'], 'all sequences of copy, move, assign, reset, lock and destroy of the explored length from arbitrary counts', 'tests check fixed sequences', ['shared_ptr.h', 'ref_count.h', 'unique_ptr.h'], [('shared_ptr', 'shared_ptr.h')])
p('C23', 'Optional, variant and any hold exactly the value last stored',
  'An optional, variant or any reports as present exactly the alternative and value last stored and refuses access to any other; every stored value is constructed once and destroyed once, also when construction or assignment of a new value throws.',
  ['histories', 'inputs', 'fault_sequences'], 'all stored values, alternatives and throwing points', 'tests check fixed sequences and rarely throwing payloads', ['optional.h', 'variant.h', 'any.h', 'any.cpp'], [('optional', 'optional.h'), ('variant', 'variant.h'), ('any', 'any.cpp')])
p('C24', 'Intrusive lists keep their chain consistent',
  'Inserting or removing a node of an intrusive list changes exactly the neighbouring links; forward and backward traversal always visit the same nodes in opposite order, and the list size and emptiness agree with the traversal.',
  ['histories', 'inputs'], 'insertion and removal at every position', 'tests check few lists', ['collection/IntrusiveList.h'], [('IntrusiveList', 'collection/IntrusiveList.h')])
p('C25', 'Reference-counting collections and bidirectional maps stay consistent',
  'A reference-counted entry is present exactly while it was added more often than removed, with exact first-added and last-removed notice; both directions of a bidirectional map always describe the same pairs, and inserting a pair of which one side is already present changes nothing.',
  ['histories', 'inputs'], 'all operation sequences of the explored length over arbitrary keys', 'tests check fixed sequences', ['collection/RefCountingMap.h', 'collection/RefCountingSet.h', 'collection/RefCountingValue.h', 'collection/RefCounter.h', 'collection/bimap.h'], [('RefCountingMap', 'collection/RefCountingMap.h')])
p('C26', 'Comparers define consistent orders',
  'Every comparer of the compare library (three-way, less, equals, greater, their conversions, and the member, tuple, optional, collection, pointer, owner and case-insensitive comparers) is antisymmetric and transitive when its parts are, the forms agree with each other and with equality, and composed comparers order lexicographically by their parts; relational operators generated from one comparison agree with it.',
  ['inputs'], 'all values of the compared types', 'order laws quantify over triples of values', ['compare/comparers.h', 'compare/Comparable.h', 'compare/MemberListComparer.h', 'compare/CollectionComparer.h'], [('comparers', 'compare/comparers.h')])
p('C27', 'Range and enumerable adapters produce exactly the specified sequence',
  'Filtering, mapping, taking, dropping, concatenating, joining, reversing, sorting and converting a range yields exactly the elements the operation defines, in its defined order, for every input sequence, and forward and backward iteration agree.',
  ['inputs'], 'all element values for sequences of the explored lengths', 'tests use fixed vectors', ['collection/Range.h', 'collection/EnumerableHelpers.h', 'collection/Transformers.h'], [('Range adapters', 'collection/Range.h')])
p('C28', 'Transactional collections commit atomically and report exact differences',
  'While a transaction is open the collection shows its old content to others; commit makes all changes visible at once and rollback leaves no trace. The reported difference applied to the old content gives exactly the new content.',
  ['histories', 'inputs'], 'all operation sequences of the explored length', 'tests check fixed sequences', ['collection/TransactionalList.h', 'collection/TransactionalSet.h', 'collection/TransactionalDictionary.h'], [('TransactionalSet', 'collection/TransactionalSet.h')])
p('C29', 'Change notifications of observable collections replay to the same content',
  'An observer that applies every notification of an observable list, set or dictionary to its own copy always has the same content as the collection; a late subscriber first receives the existing content. Adding what is there and removing what is not there produces no notification.',
  ['histories', 'inputs'], 'all operation sequences of the explored length', 'tests check fixed sequences', ['collection/ObservableListWrapper.h', 'collection/ObservableSetWrapper.h', 'collection/ObservableDictionaryWrapper.h'], [('ObservableListWrapper', 'collection/ObservableListWrapper.h')])
p('C30', 'Signals call every connected handler exactly once per emission',
  'Invoking a signal calls each handler connected at that time exactly once, in connection order, with the given arguments; a handler disconnected from a thread-safe signal is never called again, nor still running in another thread, after disconnect returned.',
  ['histories', 'schedules'], 'all connect, disconnect and invoke sequences; all thread interleavings', 'interleavings and re-entrant changes cannot be enumerated by tests', ['signal/signals.h', 'signal/signal_policies.h', 'Token.h', 'thread/TaskLifeToken.cpp'], [('signal', 'signal/signals.h')])
p('C31', 'Arithmetic coding decodes to the encoded symbols',
  'For every symbol sequence the decoder follows the encoder: at each symbol both hold the same interval, the code value lies inside it, and the decoded cumulative frequency selects the encoded symbol; the interval never degenerates for permitted scales.',
  ['inputs', 'histories'], 'all coder states, symbol intervals and scales', 'tests compress sample data only', ['compression/ArithmeticCoder.h', 'compression/ArithmeticDecoder.h', 'compression/ppm/PpmModel.h'], [('ArithmeticCoder', 'compression/ArithmeticCoder.h'), ('ArithmeticDecoder', 'compression/ArithmeticDecoder.h')])
p('C32', 'String views and string helpers equal their definitions',
  'Searching, comparing, cutting, splitting, joining, trimming, replacing, justifying, case conversion (ASCII) and prefix or suffix tests on strings and string views return exactly what their definition on character sequences says, for every text, and never read outside the text; replacing or splitting at the empty text is excluded.',
  ['inputs'], 'all texts of the explored lengths, all positions', 'tests use fixed texts', ['string/string_view.h', 'string/StringUtils.h'], [('basic_string_view', 'string/string_view.h'), ('StringUtils', 'string/StringUtils.h')])
p('C33', 'Serialized settings restore to an equal value',
  'Serializing any supported value and deserializing the text yields an equal value, and malformed text is refused by an exception.',
  ['inputs'], 'all values and all texts', 'tests use a few objects', ['serialization/Serialization.h', 'serialization/Serialization.cpp'], [('Serialization', 'serialization/Serialization.cpp')])
p('C34', 'After a life token is released no guarded work runs',
  'When releasing a life token returns, no task or callback guarded by it is running or will start; guarded work that already started has finished. Holding work never blocks release forever.',
  ['schedules'], 'all interleavings of release and execution', 'tests cannot enumerate schedules', ['thread/TaskLifeToken.cpp', 'thread/TaskLifeToken.h', 'Token.h'], [('TaskLifeToken', 'thread/TaskLifeToken.cpp')])
p('C35', 'A future delivers its value or exception exactly once to every waiter',
  'Once a promise is fulfilled every future on it observes that same value or exception; a second value is refused by an exception, a second exception or abandoning a fulfilled promise changes nothing, and abandoning an unfulfilled promise is reported to every waiter.',
  ['histories', 'schedules'], 'all sequences and interleavings', 'tests check few schedules', ['future.h'], [('future', 'future.h')])
p('C36', 'Cancellation interrupts waiting and never loses a wake-up',
  'A thread waiting with a cancellation token returns once the token is cancelled, whenever the cancellation happens relative to the wait, and the cancellation handler is called at most once.',
  ['schedules'], 'all interleavings of wait, cancel and reset', 'tests cannot enumerate schedules', ['thread/CancellationToken.cpp', 'thread/TimedCancellationToken.cpp'], [('CancellationToken', 'thread/CancellationToken.cpp')])
p('C37', 'Timers and executors run every task once, in order, not early',
  'Every task added to a task executor or timer runs exactly once, tasks of one executor in submission order, a timed task not before its due time, and cancelled timers never fire again.',
  ['schedules', 'histories'], 'all schedules', 'tests cannot enumerate schedules', ['timer/Timer.cpp', 'thread/ThreadTaskExecutor.cpp', 'thread/ThreadPool.cpp'], [('Timer', 'timer/Timer.cpp')])
p('C38', 'Multi-pattern search reports exactly the occurrences',
  'The multi-pattern string search reports every occurrence of every (distinct, non-empty) pattern in the text and nothing else.',
  ['inputs'], 'all texts and pattern sets of the explored size', 'tests use fixed texts', ['string/AhoCorasick.h'], [('AhoCorasick', 'string/AhoCorasick.h')])
p('C39', 'Incremental integer builders and bit utilities reconstruct the value exactly',
  'Appending fields to the integer builder yields their concatenation, first field most significant, using exactly the stated number of low bits of each field and truncated to the target type. Testing, setting, resetting and flipping a bit affects or reports precisely the named bit, and bit reversal mirrors a byte.',
  ['inputs'], 'all values', 'tests check a few constants', ['IntegerBuilder.h', 'BitwiseOperations.h'], [('IntegerBuilder', 'IntegerBuilder.h')])
with open('/verif/properties.jsonl', 'w') as f:
    for x in P: f.write(json.dumps(x) + '\n')
print(len(P))
