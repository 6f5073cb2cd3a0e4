#!/usr/bin/env python3
"""Source of truth for properties.jsonl (and, with the table in check.py, MANIFEST.json)."""
import json, os
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []

def prop(id, title, statement, over, qtext, why, files, mechanism, observe=None, state=None):
    d = dict(id=id, title=title, statement=statement,
             quantifier=dict(over=over, text=qtext), why_tests_cant=why,
             anchors=dict(files=files,
                          mechanism=[dict(name=n, where=w) for n, w in mechanism],
                          hook_needed=None))
    if observe: d['anchors']['observe_at'] = observe
    if state: d['anchors']['state'] = state
    assert len(title) <= 80, (id, len(title))
    P.append(d)

prop('C01', 'SPSC FIFOs pass every item across threads exactly once, in order, race-free',
 'With one producer thread and one consumer thread, the fixed-size and the run-time-sized lock-free FIFO deliver exactly the items whose put() returned true, each once, in put order, with the content the producer wrote, and with no data race between the two threads. A put() that returns false leaves the queue unchanged, and a get()/get_move()/remove_first() on an empty queue consumes nothing. While the other side runs, free/filled/full/empty queries never promise more than the caller can then do: a producer that saw n free slots can put n items, a consumer that saw n filled can get n. A reset() or a set_read_offset(k) of at most the items held, used by the consumer while the producer runs, drops only items put before it and leaves at least the k last of them; what is delivered afterwards is again in order and complete.',
 ['schedules', 'histories'], 'Every interleaving of one producer and one consumer, every mix of put / get / get_move / get_or_default / remove_first / reset / set_read_offset, every queue size and element type.',
 'The existing tests call put() and get() from a single thread a handful of times; no test ever runs two threads, so neither memory ordering nor interleavings are exercised.',
 ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh'],
 [('release store of the write index after the slot write', 'LockFreeFifoSpsc::put'), ('release store of the read index after the slot read', 'LockFreeFifoSpsc::get/get_move/remove_first'), ('acquire loads of the opposite index', 'put, get, num_free, num_filled')],
 ['return values and received items in each thread, ThreadSanitizer reports'])

prop('C02', 'SPSC FIFO accounting is exact in every reachable state',
 'Driven from one thread, a lock-free FIFO of either kind behaves as a bounded queue: it accepts items until exactly its capacity is held, refuses further ones, returns items oldest first, and free + filled always equals the capacity with full/empty agreeing with them. Constructing with a head offset or calling set_read_offset(k), set_read_pos / set_write_pos or reset moves the read or write point exactly as documented (set_read_offset does nothing when the offset exceeds the number of items ever written), constructing from a span makes every element of the span the buffer content, resizing to a different size empties the queue at the new capacity (a smaller one gives the memory back) and to the same size changes nothing. All of this holds for indices near the wrap-around of the index type (power-of-two capacities) and for any element type, including elements with owning copies.',
 ['histories', 'configurations', 'inputs'], 'Every operation history, every capacity (powers of two for the fixed kind, any positive size for the run-time kind), element sizes 1..N bytes and non-trivial types, index positions up to the maximum of size_t.',
 'Tests run one fixed sequence on one or two sizes with int; they never reach index wrap-around, wide elements in the span constructor, or histories mixing offset/reset/resize.',
 ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh'],
 [('unmasked indices, masked or modulo slot access', 'put/get'), ('offset, position, reset and resize helpers', 'set_read_offset, set_read_pos, set_write_pos, reset, resize')])

prop('C03', 'Pools never hand the same slot to two owners',
 'A slot obtained from a pool is exclusively owned until it is destroyed: no other create() returns it meanwhile, create() fails only when every slot is in use at some moment of the call, and destroy() succeeds exactly once per successful create() and only for an owned slot (out-of-range or foreign handles are refused). For the thread-safe pool this holds for any number of threads creating, destroying and using slots concurrently, and what one owner wrote to a slot happens-before the next owner gets it; clear(), called by the owner of every slot while others wait for one, resets each element before its slot can be obtained again and does not touch it afterwards. The plain pool returns a default-valued object from create() and the untouched storage from create_for_overwrite(), and the lowest free slot is handed out first in sequential use.',
 ['schedules', 'histories'], 'Every interleaving of create / destroy / is_used / access by any number of threads, every pool size, every sequential history.',
 'There are no tests for either pool at all; the exclusivity guarantee is about interleavings.',
 ['util/thread_safe_pool.hh', 'util/pool.hh'],
 [('compare-exchange on the per-slot used flag', 'ThreadSafePool::create/destroy'), ('linear scan of used flags', 'Pool::create/create_for_overwrite/destroy')])

prop('C04', 'Ring buffers keep exactly the newest items, oldest first',
 'A circular buffer of capacity N that has received a sequence of items holds exactly the last min(N, number not yet taken) of them: get() and peek(i) return them oldest first, a put into a full buffer drops only the oldest, and get() on an empty buffer returns a default value (or nothing, in the optional-returning kind) and changes nothing. count / num_filled / empty / full and the head and tail indices agree with that content after every operation, including remove_first, reset and set_head used (on a buffer that is not full) to introduce a fixed delay. Filling the storage from an array or with a value sets every element to it, for every element type.',
 ['histories', 'configurations'], 'Every history of put/get/peek/remove_first/reset/set_head/fill_buffer, every power-of-two capacity, narrow, wide and non-trivial element types.',
 'Tests walk a few fixed sequences on one small capacity; fill_buffer and mixed histories around the wrap are not run.',
 ['util/circular_buffer.hh', 'util/circular_buffer_opt.hh'],
 [('head/tail with full flag', 'CircularBuffer::put/get'), ('count from head, tail, full', 'CircularBuffer::count')])

prop('C05', 'Block access to external rings reads and writes exactly the addressed cells',
 'A ring accessor over external storage reads and writes consecutive cells from its current position in the given direction, wrapping at either end, touching no other cell, advancing its position by exactly the block length modulo the size, and reporting wrapped exactly when the position passed the end of the storage. Writing with a cross-fade phase stores new*phase + old*(1-phase) in each written cell (integer samples up to 24 bits); writing without one stores every sample exactly, whatever the cell held before. For blocks shorter than the ring, forward marker-crossing reads report true exactly when the marked cell is among the cells read; the reverse and writing forms report true when the marked cell lies strictly inside the cells passed and false when it lies outside them. A block ring write of at most the ring size places every element of the block starting at the masked position, wrapping to the front.',
 ['histories', 'inputs', 'configurations'], 'Every ring size, position, block length (including empty, and for the accessor longer than the ring), direction, phase, marker and element type; forward and reverse reads for crossing reports.',
 'Tests use one ring size and a few block lengths with hand-computed results; wide element types and unaligned combinations are not reached.',
 ['util/circular_buffer_ext.hh', 'util/circular_buffer_block.hh'],
 [('per-element wrap of rd / wr', 'CircularBufferAccess::read/read_reverse/write/write_reverse'), ('side-of-marker comparison', 'read_check_crossed, read_reverse_check_crossed'), ('split memcpy', 'CircularBufferBlock::write')])

prop('C06', 'The circular stack is a LIFO that forgets only its oldest entries',
 'A circular stack of capacity N returns pushed values in reverse order of pushing and, when more than N are pushed, silently forgets only the oldest ones. size, empty and back agree with that content after every operation, popping an empty stack yields nothing (or a zero value) and leaves it empty, clear empties it. Constructing it from a list of values is the same as pushing them in order.',
 ['histories', 'configurations'], 'Every push/pop/back/clear history, every capacity including 1 and non-powers of two, every number of constructor values.',
 'Tests replay a few fixed histories on one capacity.',
 ['util/circular_stack.hh'],
 [('top/bottom indices with full flag', 'CircularStack::push_back/pop_back/size')])

prop('C07', 'FixedVector behaves as a vector of bounded capacity and never leaves its storage',
 "Any sequence of pushes, pops, inserts, erases, resizes, copies and assignments on a fixed vector leaves the content an ordinary vector would hold, with every operation that would exceed the capacity or address a position outside the content refused without effect on the stored elements: push_back reports false, push_back_for_overwrite returns the capacity, resize stops at the capacity and reports false, inserting or erasing there is ignored, and back or pop_back of an empty vector give a default value. Size, iteration and spans cover exactly the content in order. No operation touches memory outside the vector's own storage.",
 ['histories', 'configurations'], 'Every history of the public operations, capacities 1..N, trivial and owning element types, positions inside and outside the content.',
 'Tests cover a few literal sequences on capacities of about 4; the interaction of insert/erase at every position with a full or empty vector is not enumerated.',
 ['util/fixed_vector.hh'],
 [('bounds checks and element shifting', 'FixedVector::insert/erase/push_back/resize')])

prop('C08', 'The sequential map never loses, duplicates or conflates entries',
 'A sequential map behaves as an association with at most its capacity of distinct keys: a lookup returns the value most recently stored for that key, an absent key is reported as absent (the const index returns a default value), inserting an absent key beyond the capacity is refused without disturbing other entries, overwriting a present key changes only its value, and erasing removes exactly that key and keeps the order of the others, also when the key or entry given is one in the map itself. Indexing an absent key adds it at the end, or, when the map is full, in place of the last entry; its value is unspecified until assigned. Size, iteration and key/value lookups agree with that content after every operation, and references to present entries stay valid to read and write.',
 ['histories', 'configurations'], 'Every insert / index / erase / lookup / clear history over a small key universe, every capacity, string and integer keys.',
 'Tests insert a handful of keys once; erasing and re-inserting around the capacity in arbitrary order is not reached.',
 ['util/sequential_map.hh'],
 [('linear key search over dense arrays, order-preserving erase', 'SequentialMap')])

prop('C09', 'The replacing map keeps exactly the newest entries by age',
 'The fixed-size replacing map behaves as an association whose insert of a new key into a full map evicts exactly the oldest inserted key, whose overwrite of a present key replaces its value in place, and whose get returns the latest value stored for that key or nothing. Removing a key makes that key, and only that key, absent, reports whether it was present, and frees its slot for a later insert; remove_last removes the newest; removing never makes any other key, including the default-valued key, appear present. Its notion of age is order of first insertion. A value of the map itself may be given as the value to store. (insert is for keys not present.)',
 ['histories', 'configurations'], 'Every put/get/remove history over a key universe larger than the capacity and including the default key, every capacity.',
 'Tests remove once or twice in fixed positions; histories that mix eviction with removal are not covered.',
 ['util/seq_map.hh'],
 [('oldest index ring and size', 'SeqMap::put/get/remove')])

prop('C10', 'Static strings stay terminated, within capacity and equal to truncated text',
 'A fixed-capacity string always holds the first min(capacity, length) characters of the text assigned or copied to it, is always zero-terminated within its own storage, and length, emptiness, comparison, views, conversion and iteration agree with that content. This holds for empty, exact-fit and over-long sources, for views that are not zero-terminated, for its own text, and for copies between different capacities; no operation reads past its source or writes past its storage. (Texts contain no embedded zero.)',
 ['inputs', 'histories', 'configurations'], 'Every source text and capacity, every history of assign/append/compare operations.',
 'Tests use a few literals, all zero-terminated, on a few capacities.',
 ['util/static_string.hh'],
 [('bounded copy and explicit terminator', 'StaticString::copy/append and constructors')])

prop('C11', 'Fixed-size callables call what they store and manage its lifetime exactly once',
 'A fixed-capacity callable invokes exactly the function object most recently assigned, forwarding arguments and returning its result, and an empty one is falsy (calling an empty one is outside the contract). Over any history of constructing, copying, moving, assigning, re-assigning, self-assigning and destroying callables, every stored function object that was constructed is destroyed exactly once, is alive and placed as its alignment demands whenever it is called, and copies have state independent of the original. Every copyable function object up to the capacity is accepted and kept whole, and storing one never writes outside the callable. An overload set made of several callables calls the one for the type of the argument.',
 ['histories', 'inputs'], 'Every history of construct/copy/move/assign/self-assign/call/destroy over several function objects, including captures that own resources, of every size up to the capacity.',
 'Tests store trivially-copyable lambdas and call them once or twice; lifetime of owning captures across copies is not observed.',
 ['util/callable.hh', 'util/overloaded.hh'],
 [('placement-new storage with type-erased invoke and manage functions', 'FunctionSized')])

prop('C12', 'The double-buffered stream transmits every accepted byte once, in order',
 'Whatever is accepted by the double-buffered stream is transmitted exactly once, in acceptance order, in transmissions each no longer than one buffer, and the memory handed to an ongoing transmission is not modified until that transmission is reported complete. Data that does not fit is refused whole and reported, and refused data never appears in the output. At most one transmission is in flight at a time, and a transmission completing while data is pending starts the next one, also when the transmit function itself hands over more data with transmit(). (Transmissions succeed; a completion arrives between operations, not inside one.)',
 ['histories', 'schedules', 'fault_sequences'], 'Every interleaving of push / print, transmit requests and completion callbacks, every buffer size and chunk size.',
 'Tests use a synchronous mock transmit with a few fixed sequences; completions arriving between arbitrary operations are not explored.',
 ['util/doublebuf_stream.hh'],
 [('two buffers with in-flight flag and completion callback', 'DoubleBufferStream')])

prop('C13', 'Wear-levelled storage reads back the last complete write after any fault',
 'After any sequence of writes, erases and re-opens on a healthy device, a wear-levelled store reads back exactly the most recently written data, reports nothing when nothing valid was ever written or it was erased, and never presents data that was not written through it as valid. If the device loses power at any single device operation of a write, or a device operation reports failure, then reading afterwards yields a value that was completely programmed since the last completed erase of the device, the latest such one, or reports that there is none; the previous value may be lost only when its cells had to be erased to make room. Later writes and reads work normally on a healthy device. Cells that are not blank after an erase any more are passed over: writes succeed as long as one working cell is left, and fail after at most one erase when there is none. Cell accesses always stay within the declared number of cells (is_writeable may be asked about the one after the last), and a failed read is never reported as data.',
 ['crash_points', 'fault_sequences', 'histories'], 'Every history of write/read/erase/reopen, every device operation of a history as crash point or failing operation, every cell count; initial contents erased.',
 'Tests use a perfect RAM-backed device; no power loss, no failed read, write or erase is ever injected.',
 ['util/wear_level.hh'],
 [('validity marker and checksum per cell, scan for last valid cell at open', 'WearLevel/WearLeveler'), ('advance to next cell, erase when all cells used', 'write')])

prop('C14', 'Compact binary messages round-trip, and overflow never emits past the buffer',
 'A node tree written with the compact binary writer or serializer and then parsed returns every field name, nesting and value exactly as written, whatever the nesting, order and sizes, as long as it fits. The encoded size reported equals the bytes produced, the same input produces the same bytes through either producer, and when the output buffer is too small nothing is written beyond it and the producer reports the overflow (an unusable or shortened result) rather than a well-formed message with different content. Objects nested deeper than the depth the writer keeps track of keep a declared size of zero; everything outside them stays right.',
 ['inputs', 'programs', 'configurations'], 'Every tree of names and values up to the supported depth, every output buffer size from 0 up to more than required, every supported size type.',
 'Tests encode a few hand-written trees in ample buffers.',
 ['util/compact_binary_writer.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_parser.hh'],
 [('length-prefixed name/value layout with back-patched sizes', 'CompactBinaryWriter'), ('bounded copy into span', 'CompactBinarySerializer'), ('sequential search', 'CompactBinaryParser::get/get_node')])

prop('C15', 'Parsing hostile compact binary input stays inside the input',
 'Parsing any byte sequence as a compact binary message, looking up any names in it and descending into any nested node terminates, reads only bytes of the given input, and yields only values and sub-nodes that are sub-ranges of the input. A field found by get or get_node is the first whose name matches and its declared extent lies completely inside the enclosing node; a field whose declared size exceeds the enclosing data, or is negative, is reported as not found.',
 ['inputs'], 'Every byte string, including truncated, bit-flipped and length-inflated messages, with every supported size type up to 64 bits, signed or unsigned.',
 'Tests parse only well-formed messages and a few truncations.',
 ['util/compact_binary_parser.hh'],
 [('bounds comparison before each field', 'CompactBinaryParser::get/get_node')])

prop('C16', 'Integer-to-text conversion prints every value exactly and within the buffer',
 'Integer-to-text conversion writes the exact decimal text of any integer followed by a terminator when it fits, and never writes outside the given buffer whatever its size. The chopping variant keeps the sign and as many of the least-significant digits as fit, zeros included, and leaves a buffer of size 0 or 1 untouched. The digit count and the printing helpers (decimal, hexadecimal, strings and string views) agree with standard formatting for every value, including zero, trailing zeros, the most negative value, and views that are not zero-terminated.',
 ['inputs', 'configurations'], 'Every integer of every supported width and every buffer size.',
 'Tests check a few positive numbers in ample buffers.',
 ['util/int_to_str.cc', 'util/int_to_str.hh', 'util/print.hh', 'util/math.hh'],
 [('digit extraction against a power-of-ten table', 'int_to_str, int_to_str_chop, num_digits'), ('compile-time recursion over arguments', 'print')])

prop('C17', 'Text search and replace utilities match a reference on every input',
 'Replacing all occurrences of a needle in a text yields the same result as a left-to-right non-overlapping replacement and always terminates (an empty needle leaves the text unchanged; needle or replacement may be the text itself), splitting on a delimiter yields exactly the non-empty pieces between delimiters, word search finds a word exactly when it occurs as a whole space-delimited word, and case-insensitive comparison and search agree with comparing lower-cased text. None of them reads outside the given text, and texts may hold bytes of any value.',
 ['inputs'], 'Every text, needle, replacement (including empty and self-containing) and delimiter set.',
 'Tests use a few literals; replacement containing the needle and adversarial overlaps are not covered.',
 ['util/string_util.hh', 'util/string_compare.hh', 'util/contains_word.hh'],
 [('find/replace loop', 'replace_all'), ('find_first_of scanning', 'tokenize / contains_word')])

prop('C18', 'Versions parse, order and gate compatibility consistently',
 "Parsing version text yields the leading numeric major, minor and revision fields separated by dots (missing fields, and fields above 255, are zero) and never reads beyond the text. Versions order lexicographically by major, minor, revision as a total order consistent with equality, with a pre-release (a dash after the last number, also where the pre-release name has dots) ordering before its release, and a host version accepts a required version exactly when majors match and the host's minor is at least the required minor.",
 ['inputs'], 'Every text (not necessarily zero-terminated, embedded garbage, huge numbers) and every pair of versions.',
 'Tests parse a few literals and compare a few pairs.',
 ['util/version_tools.hh'],
 [('field-wise parse', 'Version(string_view)'), ('comparison and hosting rule', 'operator<=>, can_host_version')])

prop('C19', 'Polled events fire exactly when due, across timer wrap-around',
 'A periodic poll fires exactly when at least one period has elapsed since it last fired (or since it was started at time zero), at most once per poll (also if its action polls again), never early and never starved, including when the tick counter wraps, provided it is polled at least once per range of the counter. A change poller reports exactly the polls, at the configured minimum interval, at which the watched value differs from the one last reported; a forced poll (also one forced while the state is being read) reports at the next poll and a reset makes the next due poll report a change.',
 ['histories', 'inputs'], 'Every sequence of poll times (monotone modulo the counter width), every period up to half the range, every starting time, unsigned counters of every width and signed ones polled within half their range.',
 'Tests poll at a few times starting from zero; wrap-around of the counter with sparse polls is not covered.',
 ['util/poll_event.hh', 'util/poll_change.hh'],
 [('elapsed-time comparison', 'PollEvent::poll'), ('last-check time and cached value', 'PollChange::poll')])

prop('C20', 'Debouncers, edge and hysteresis detectors report each transition exactly once',
 'Fed any sample sequence (a sample is low when it is zero and high otherwise), a debouncer reports its pressed or released event exactly when its most recent samples equal the documented pattern, keeps its state through shorter glitches, and delivers each just-happened flag exactly once. Edge detectors, togglers, Schmitt triggers and hysteresis gates change output exactly at the documented thresholds (a gate turns on at or above its upper threshold, off at or below its lower one, and keeps its state in between), and the quadrature decoder reports one step in the correct direction exactly when its last four distinct states complete a valid rotation sequence, and none otherwise.',
 ['histories', 'inputs'], 'Every boolean or analogue sample sequence, interleaved with every pattern of reading the flags.',
 'Tests feed a few ideal sequences; glitches, partial rotations and flag reads at arbitrary points are not enumerated.',
 ['util/debouncer.hh', 'util/debouncer_compact.hh', 'util/edge_detector.hh', 'util/schmitt_trigger.hh', 'util/quadrature_encoder.hh'],
 [('shift-register pattern match', 'Debouncer / DebouncerCompact'), ('last-state comparison', 'EdgeStateDetector, Toggler, SchmittTrigger'), ('4-step history match', 'QuadEnc')])

prop('C21', 'Table interpolation stays inside the table and between neighbouring entries',
 "Interpolated table lookups return the entry itself at integer positions, a value on the straight line between the two neighbouring entries elsewhere, wrap or clamp at the ends as documented, and never read outside the table, for every position the function accepts (wrapping forms accept any finite position). The table-based sine, cosine, tangent and power-of-two functions stay within the table's interpolation error of the mathematical functions on their whole documented domain (power-of-two: every exponent whose result is a normal float).",
 ['inputs', 'configurations'], 'Every position / phase, negative and beyond the table for wrapping forms, table sizes 1..N; every finite argument of the trig functions up to the resolution of float.',
 'Tests evaluate a few positions and angles.',
 ['util/interp_array.hh', 'util/lookup_table.hh', 'util/lut.hh', 'util/math_tables.hh', 'util/math.hh'],
 [('index and fraction split', 'InterpArray, LookupTable::lookup'), ('table instances', 'math_tables.cc')])

prop('C22', 'Integer and scalar math helpers are exact on their whole domain',
 'Power-of-two, logarithm, rounding, saturation, wrapping, clamping, mapping, interpolation and byte-swap helpers return the mathematically exact result for every argument of their type for which that result is representable (up to rounding for floating point), and perform no undefined arithmetic on the way. Saturating helpers return exactly the nearest representable value, wrap helpers return the congruent value in range, and the smallest-integer selectors pick the narrowest type that holds the value.',
 ['inputs'], 'Every value of each supported type in the documented domain.',
 'Tests evaluate a few dozen points.',
 ['util/math.hh', 'util/cortex_math.hh', 'util/smallest_integer.hh'],
 [('bit tricks and fixed-point arithmetic', 'MathTools')])

prop('C23', 'Smoothing filters equal their definition and stay in the range of their input',
 "The integer moving averages return the exact floor of the mean of the last N samples (zeros before the first) for non-negative inputs of the declared width, and resizing one restarts it as documented; oversamplers hold the mean of the last complete block (of any size and width their declaration accepts), and resizing to no more samples than already collected delivers the mean early. One-pole filters follow their recursive definition, converge to a constant input and stay in the range spanned by their inputs and state whenever the step is within the divisor. Hysteresis variants keep their output while the input stays within the band and follow it by the distance beyond the band outside; the cascaded form feeds the second filter with the first's output.",
 ['histories', 'inputs', 'configurations'], 'Every input sequence, filter size, coefficient and type.',
 'Tests run short fixed sequences.',
 ['util/filter.hh'],
 [('ring sum or recursive update', 'MovingAvg / OnePole / Oversampler filters')])

prop('C24', 'Interpolated parameters ramp linearly and land exactly on their target',
 'An interpolated parameter moves from its current value to a newly set one in equal steps over the configured number of updates and is then on it within rounding; the step it reports is the step it takes. A filtered array moves all its elements towards their latest targets over the number of updates measured between its last two readings, or over the number explicitly set, and lands exactly on the targets at the end of the ramp and stays there for as long as no new data comes. A new-values mark made by another thread is never lost, also while a reading is in progress: some later update moves to the values written before the mark, and the array updates race-free.',
 ['histories', 'schedules', 'inputs'], 'Every sequence of set/next calls, step counts, and, for the array, every interleaving of a marking thread and an updating thread.',
 'Tests check a few ramps; marking from another thread is not run.',
 ['util/interp_param.hh', 'util/filtered_interp_array.hh'],
 [('step accumulation and atomic new-data flag', 'InterpParam, FilteredInterpArray')])

prop('C25', 'Calibration maps its reference points exactly and linearly in between',
 "After calibrating with two distinct measured points, applying the calibration to those measurements returns the two targets and is affine everywhere else; converting back and forth between raw and calibrated values is the identity up to rounding. The volt-per-octave calibrator takes its slope from the latest two points with distinct notes and measurements (otherwise keeps the previous one) and its offset from the latest measurement of its reference note since reset, or else from the average of the points' extrapolations, and ignores readings of no note. Reset and validity reports agree with the points seen.",
 ['inputs', 'histories'], 'Every pair of targets, tolerances and measurements, every calibrate/reset/apply history.',
 'Tests use a few nominal measurements.',
 ['util/calibrator.hh', 'util/voct_calibrator.hh'],
 [('slope/offset from two points with validity window', 'Calibrator, VoctCalibrator')])

prop('C26', 'Audio frames convert without wrap: in-range exact, out-of-range saturated',
 "Converting between the codec integer format and normalised float is sign-correct and accurate to one step for every in-range sample of every supported bit width and sample type, floats beyond full scale saturate to the extreme code of that width instead of wrapping, sign extension yields the two's-complement value of the low bits and reads only the sample itself. (Not-a-number inputs excluded.)",
 ['inputs', 'configurations'], 'Every sample value and every supported width.',
 'Tests check a few samples at 24 bits.',
 ['util/audio_frame.hh'],
 [('sign extension and scale', 'AudioFrame::scaleInput/scaleOutput')])

prop('C27', 'Oscillators and timers keep exact phase and fire exactly on schedule',
 "Phase-accumulating oscillators produce the waveform value of their exact accumulated phase modulo one period, so that over any number of updates the number of cycles equals frequency times time to the accumulator's resolution (one count of 2^32 per update), and their outputs stay in range; reading the value does not advance the phase, and a triangle with a negative frequency runs backwards. Down counters and one-shots fire exactly once, after exactly the configured number of updates (the width times the update rate, whether microseconds or hours).",
 ['histories', 'inputs', 'configurations'], 'Every frequency, period, phase setting and update count.',
 'Tests sample a few points of one cycle.',
 ['util/oscs.hh'],
 [('unsigned phase accumulator', 'oscillators'), ('counter', 'DownCounter, OneShot')])

prop('C28', 'Colour arithmetic stays in gamut and conversions keep their endpoints',
 'Blending, adding, adjusting and converting colours between 8-bit RGB, 565 and HSV yields channels equal to the documented exact arithmetic, addition, combine and adjust saturate and never wrap, blends return their endpoints exactly and never leave the range between them, float channels outside 0..1 clamp, HSV conversion gives value as the largest channel, and 565-representable colours round-trip. LED drivers built on them output exactly the composed colour, with flashes lasting the requested time and fading linearly.',
 ['inputs'], 'Every colour pair and blend amount; every 16-bit 565 value.',
 'Tests check a few named colours.',
 ['util/colors.hh', 'util/colors_rgb565.hh', 'util/hsv.hh', 'util/rgbled.hh'],
 [('per-channel fixed-point arithmetic', 'Color'), ('bit packing', 'RGB565')])

prop('C29', 'zip, countzip and enumerate visit exactly the common prefix, in order',
 'Zipped and counted iteration over random-access ranges visits exactly as many elements as the shortest range, pairing equal positions in order with the right count, giving references to the original elements, and never touches an element beyond the end of any range.',
 ['inputs', 'configurations'], 'Every combination of range types and lengths including empty.',
 'Tests zip a few short literal arrays.',
 ['util/zip.hh', 'util/countzip.hh', 'util/iterator_helpers.hh'],
 [('iterator tuple compare', 'zip / countzip / enumerate')])

prop('C30', 'Partitions give every element to the smallest part and lose none',
 'A partition assigns elements to parts so that every element index lies in exactly one part: elements are taken largest first and each goes to the part with the smallest sum so far (initial sums included), so that the reported part sums equal the elements assigned plus the initial sum.',
 ['histories', 'configurations'], 'Every history of operations on partitions of every size within the declared maxima.',
 'Tests use one or two literal partitions.',
 ['util/partition.hh'],
 [('greedy assignment to the smallest sum', 'Partition')])

prop('C31', 'Arena and memory helpers return aligned, disjoint memory inside their arena',
 'Memory handed out by the aligned allocator is aligned as requested, large enough and disjoint, and an impossible size is refused; an arena allocator hands out disjoint ranges inside its arena in order and grants a request exactly when it fits, refusing others without effect. The memory tester reports a healthy memory healthy, detects any aliased cell and touches only its region. Byte blocks convert values in little-endian order and cover exactly their bytes, the bitfield helpers return exactly the OR of the values given, and the streaming input/output buffers hold exactly the first items put, stop when full, and give back their content in order, then default values. A big buffer owns exactly one object for as long as it lives, gives access to its elements, and shares it with no other. The headers can be used alone and included more than once.',
 ['histories', 'inputs', 'fault_sequences'], 'Every sequence of allocation sizes and alignments; every faulty cell position.',
 'There are no tests for these helpers.',
 ['util/monotonic_allocator.hh', 'util/aligned_allocator.hh', 'util/padded_aligned.hh', 'util/mem_test.hh', 'util/byte_block.hh', 'util/input_output_buffer.hh', 'util/bitfield.hh', 'util/big_buffer.hh'],
 [('bump offset with alignment', 'MonotonicAllocator'), ('write/read-back patterns', 'MemTest')])

prop('C32', 'Geometry predicates are correct and symmetric',
 'Rectangle intersection, containment and polygon predicates give the geometric answer for every position and size, independent of argument order (edges ordered, closed rectangles), and a polygon is reported concave exactly when it turns in both directions, for floating-point as well as signed and unsigned integer coordinates.',
 ['inputs'], 'Every pair of rectangles and every simple polygon with coordinates in a range without overflow.',
 'There are no tests for geometry.',
 ['util/geometry.hh'],
 [('interval comparison, cross products', 'RectC, is_poly_concave')])

prop('C33', 'Parameter trackers report each change once and extremes exactly',
 'A latched parameter reports a change exactly when a stored value differs by at least the configured amount from the last accepted one, and delivers each change once; a plain parameter starts changed and reports each store of a different value once; a referencing parameter reports exactly when the referenced value differs from what it was at the last query; a change detector reports once per query whether any transition happened since the last. Signal analysers and peak meters report the exact minimum and maximum (and the running mean by its definition) of the samples since the last reset, for any sign of the samples, and rotary motion counters return exactly the net steps accumulated since last read, however motions are transferred.',
 ['histories', 'inputs'], 'Every sequence of sets, samples and reads.',
 'Tests use short positive sequences.',
 ['util/parameter.hh', 'util/analyzed_signal.hh', 'util/change_detector.hh', 'util/rotary_motion.hh'],
 [('last-value comparison', 'Parameter, ChangeDetector'), ('running min/max', 'AnalyzedSignal, PeakMeter')])

prop('C34', 'Objects are independent values: no shared, inherited or hidden state',
 "What a component object gives is a function of how it was constructed and of the calls made on it alone. Other objects of the same type, used in between in the same thread or at the same time in other threads, change nothing and cause no data race; two objects with the same history give the same results; the initial state of a constructed object does not depend on what its memory held before; and where a type can be copied or assigned, the copy continues exactly as the original would have and from then on neither affects the other; assigning an object to itself changes nothing, and the result of an assignment is the object assigned to. Pure helper functions give the same result from every thread. (Excludes the random number helper, and copying of components that refer to storage outside themselves.)",
 ['histories', 'schedules', 'configurations'], 'Every pair of histories of every component, every interleaving of them, every point at which a copy is taken and every prior memory content.',
 'Tests use one fresh object at a time in zeroed or unused memory, so hidden statics, missing initialisers and incomplete copies cannot show.',
 ['util/analyzed_signal.hh', 'util/audio_frame.hh', 'util/calibrator.hh', 'util/callable.hh', 'util/change_detector.hh', 'util/circular_buffer.hh', 'util/circular_buffer_block.hh', 'util/circular_buffer_ext.hh', 'util/circular_buffer_opt.hh', 'util/circular_stack.hh', 'util/colors.hh', 'util/compact_binary_parser.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_writer.hh', 'util/contains_word.hh', 'util/cortex_math.hh', 'util/countzip.hh', 'util/debouncer.hh', 'util/debouncer_compact.hh', 'util/doublebuf_stream.hh', 'util/edge_detector.hh', 'util/filter.hh', 'util/filtered_interp_array.hh', 'util/fixed_vector.hh', 'util/geometry.hh', 'util/hsv.hh', 'util/input_output_buffer.hh', 'util/int_to_str.hh', 'util/interp_array.hh', 'util/interp_param.hh', 'util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh', 'util/lookup_table.hh', 'util/math.hh', 'util/math_tables.hh', 'util/monotonic_allocator.hh', 'util/oscs.hh', 'util/parameter.hh', 'util/partition.hh', 'util/poll_change.hh', 'util/poll_event.hh', 'util/pool.hh', 'util/print.hh', 'util/quadrature_encoder.hh', 'util/rgbled.hh', 'util/rotary_motion.hh', 'util/schmitt_trigger.hh', 'util/seq_map.hh', 'util/sequential_map.hh', 'util/static_string.hh', 'util/string_compare.hh', 'util/string_util.hh', 'util/thread_safe_pool.hh', 'util/version_tools.hh', 'util/voct_calibrator.hh', 'util/wear_level.hh', 'util/zip.hh'],
 [('members with default initialisers; implicitly generated copies', 'every component class'), ('no mutable statics', 'helpers')])

prop('C35', 'Fixed-size components never use the heap',
 "Containers, queues, buffers, strings, maps, callables, filters, interpolators, oscillators, detectors, parsers, serializers and formatting helpers that are documented to keep their data in their own fixed storage are constructed, used, copied, moved and destroyed without a single request to the heap, for element types which own no memory. The queue whose capacity is given at run time uses the heap only when it is constructed or resized to another capacity, never in put, get or any reading operation. (Aligned allocation, byte blocks and the std::string helpers use the heap by design.)",
 ['histories', 'configurations'], 'Every history of operations on every such component, whatever its filling.',
 'Tests run on a host with a heap and never look at it; on the embedded targets a hidden allocation is a failure.',
 ['util/analyzed_signal.hh', 'util/audio_frame.hh', 'util/calibrator.hh', 'util/callable.hh', 'util/change_detector.hh', 'util/circular_buffer.hh', 'util/circular_buffer_block.hh', 'util/circular_buffer_ext.hh', 'util/circular_buffer_opt.hh', 'util/circular_stack.hh', 'util/colors.hh', 'util/compact_binary_parser.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_writer.hh', 'util/contains_word.hh', 'util/cortex_math.hh', 'util/countzip.hh', 'util/debouncer.hh', 'util/debouncer_compact.hh', 'util/doublebuf_stream.hh', 'util/edge_detector.hh', 'util/filter.hh', 'util/filtered_interp_array.hh', 'util/fixed_vector.hh', 'util/geometry.hh', 'util/hsv.hh', 'util/input_output_buffer.hh', 'util/int_to_str.hh', 'util/interp_array.hh', 'util/interp_param.hh', 'util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh', 'util/lookup_table.hh', 'util/math.hh', 'util/math_tables.hh', 'util/monotonic_allocator.hh', 'util/oscs.hh', 'util/parameter.hh', 'util/partition.hh', 'util/poll_change.hh', 'util/poll_event.hh', 'util/pool.hh', 'util/print.hh', 'util/quadrature_encoder.hh', 'util/rgbled.hh', 'util/rotary_motion.hh', 'util/schmitt_trigger.hh', 'util/seq_map.hh', 'util/sequential_map.hh', 'util/static_string.hh', 'util/string_compare.hh', 'util/string_util.hh', 'util/thread_safe_pool.hh', 'util/version_tools.hh', 'util/voct_calibrator.hh', 'util/wear_level.hh', 'util/zip.hh', 'util/int_to_str.cc'],
 [('in-object arrays', 'FixedVector, CircularBuffer, Pool, StaticString, Callable and others'), ('allocation in constructor and resize only', 'LockFreeFifoSpscDyn')])

prop('C36', 'Lock-free parts never wait for a stalled or interrupted peer',
 "Every operation of the single-producer single-consumer queues, of the thread-safe pool and of the readings-ready mark completes by itself even while the other party is suspended at any point inside its own operation, as when an interrupt handler runs on top of the code it interrupted. Meanwhile every completed put can be taken, an item whose put is suspended is either not visible or complete, a slot whose get is suspended is not overwritten before it has been read, and every free pool slot except the one being handled can be obtained by exactly one party. The suspended operation completes normally when resumed, and no mark made meanwhile is lost.",
 ['schedules', 'histories', 'configurations'], 'Every point of suspension in every operation, with every filling of queue and pool.',
 'Tests never suspend a party, and a lock or a wait for the peer passes every test on a multi-core host while it hangs a single-core target.',
 ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh', 'util/thread_safe_pool.hh', 'util/filtered_interp_array.hh'],
 [('index published after the element is complete', 'LockFreeFifoSpsc::put/get'), ('atomic claim flags', 'ThreadSafePool'), ('ready flag', 'FilteredInterpArray')])

prop('C37', 'The software NEON operations compute every lane as the instruction does',
 "Each software NEON operation (load, multiply-accumulate, pairwise add, pairwise maximum, lane extraction and the like) gives in each lane exactly the single-precision result the instruction documents from the corresponding lanes, takes its operands by value without changing them, and reads exactly the lanes it is given. (The maximum of a not-a-number is not judged.)",
 ['inputs'], 'Every value of every lane, including infinities, signed zeros and subnormals.',
 'There are no tests for these operations, which replace the hardware ones on hosts without NEON.',
 ['util/soft_neon.hh'],
 [('lane-by-lane arithmetic', 'soft_neon functions')])

prop('C38', 'Asking changes nothing: accessors and const members have no effect',
 "An accessor (size, count, empty, full, peek, first, find, contains, key_exists, is_used, length, comparison, val, offset, slope, get_step_size, getValue, is_high, is_pressed, changed of the edge detector, table look-up, parser get and so on) only reports: however often, in whatever order and at whatever points of a history it is asked, the answers to the same question without a change in between are equal, and everything the object does later is the same as if it had not been asked. A member declared const can be called on a const object, writes nothing to the object (which may lie in read-only memory), and may be called by any number of threads at once as long as none of them changes the object. (Members which by name or documentation consume or advance, such as is_just_pressed, isChanged, take_change, get of a queue, update, process, and val of the cascading filter, are not accessors; val of the sine oscillator, which advances, is the finding recorded under C27.)",
 ['histories', 'schedules', 'inputs'], 'Every history of every component, every number and placement of questions in it, every number of concurrent askers.',
 'Tests ask each question once at fixed places, in one thread, of writable objects; a lazily cached, consumed or self-correcting answer looks the same there.',
 ['util/analyzed_signal.hh', 'util/audio_frame.hh', 'util/calibrator.hh', 'util/callable.hh', 'util/change_detector.hh', 'util/circular_buffer.hh', 'util/circular_buffer_block.hh', 'util/circular_buffer_ext.hh', 'util/circular_buffer_opt.hh', 'util/circular_stack.hh', 'util/colors.hh', 'util/compact_binary_parser.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_writer.hh', 'util/contains_word.hh', 'util/cortex_math.hh', 'util/countzip.hh', 'util/debouncer.hh', 'util/debouncer_compact.hh', 'util/doublebuf_stream.hh', 'util/edge_detector.hh', 'util/filter.hh', 'util/filtered_interp_array.hh', 'util/fixed_vector.hh', 'util/geometry.hh', 'util/hsv.hh', 'util/input_output_buffer.hh', 'util/int_to_str.hh', 'util/interp_array.hh', 'util/interp_param.hh', 'util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh', 'util/lookup_table.hh', 'util/math.hh', 'util/math_tables.hh', 'util/monotonic_allocator.hh', 'util/oscs.hh', 'util/parameter.hh', 'util/partition.hh', 'util/poll_change.hh', 'util/poll_event.hh', 'util/pool.hh', 'util/print.hh', 'util/quadrature_encoder.hh', 'util/rgbled.hh', 'util/rotary_motion.hh', 'util/schmitt_trigger.hh', 'util/seq_map.hh', 'util/sequential_map.hh', 'util/static_string.hh', 'util/string_compare.hh', 'util/string_util.hh', 'util/thread_safe_pool.hh', 'util/version_tools.hh', 'util/voct_calibrator.hh', 'util/wear_level.hh', 'util/zip.hh'],
 [('accessors', 'every component class'), ('const members', 'CircularBuffer::first, ThreadSafePool::operator[] and the others')])

prop('C39', 'What is computed at compile time equals what is computed at run time',
 "A function, constructor or member declared constexpr can be evaluated by the compiler for every input in its domain, without undefined behaviour, and gives there exactly the value it gives when the program runs: number helpers, bit-field helpers, colours and their conversions and blends, calibrations, interpolation and look-up tables, fixed vectors, fixed strings, message writers, serializers and parsers, rectangles and audio sample scaling. Constants of these types can be made. (Not meant: functions whose evaluation involves the run-time tables, the C library's character functions, the saturation instruction, or the cast of an RGB565 value to its 16 bits, which the compilers cannot evaluate.)",
 ['inputs', 'histories', 'configurations'], 'Every input of every constexpr function, every history of operations on a constexpr object, both compilers, any optimisation level.',
 'The static assertions in the headers fix a few results at compile time and the tests a few at run time; nothing compares the two, and an operation only one of them uses is never evaluated by the other.',
 ['util/math.hh', 'util/bitfield.hh', 'util/colors.hh', 'util/colors_rgb565.hh', 'util/hsv.hh', 'util/calibrator.hh', 'util/interp_array.hh', 'util/lookup_table.hh', 'util/fixed_vector.hh', 'util/static_string.hh', 'util/compact_binary_writer.hh', 'util/compact_binary_serializer.hh', 'util/compact_binary_parser.hh', 'util/geometry.hh', 'util/audio_frame.hh'],
 [('constexpr functions and constructors', 'the headers named')])

prop('C40', 'The work of a call is bounded, whatever the history and the numbers',
 'These parts run in interrupt handlers and audio callbacks, so the number of steps a call takes depends on the type and on the amount of data handed to it only. It does not grow with how long an object has been in use, with the number of items held, with how far positions, counters or phases have moved or times have jumped, or with the size of the numbers given. Operations of queues, ring buffers, stacks, the ends of vectors, buffers, arenas, look-up tables, filters, oscillators, pulses, detectors, encoders, motion counters, interpolated parameters, calibrators, colours, lights, poll events and callables take a small number of steps at any capacity; block operations a number proportional to the block; insertion, erasure, fill, resize, pools and maps at most one proportional to the declared capacity; message parsers and writers, number and version texts, string helpers at most one proportional to the bytes there are, whatever sizes these bytes claim. (The wrapping helpers - wrap, pow2, tables read many periods away - step by one range and are meant for values near it; searching and replacing text is excluded beyond texts of ordinary length.)',
 ['histories', 'inputs'], 'Every history of calls, every capacity, every value of the arguments.',
 'Tests run short histories at small capacities and look at results, not at what the calls cost.',
 ['util/lockfree_fifo_spsc.hh', 'util/lockfree_fifo_spsc_dyn.hh', 'util/circular_buffer.hh', 'util/circular_buffer_opt.hh', 'util/circular_stack.hh', 'util/fixed_vector.hh', 'util/seq_map.hh', 'util/sequential_map.hh', 'util/pool.hh', 'util/thread_safe_pool.hh', 'util/filter.hh', 'util/oscs.hh', 'util/poll_event.hh', 'util/poll_change.hh', 'util/rotary_motion.hh', 'util/interp_param.hh', 'util/interp_array.hh', 'util/lookup_table.hh', 'util/compact_binary_parser.hh', 'util/rgbled.hh'],
 [('index arithmetic instead of walking', 'queues, rings, stacks'), ('subtraction of times and phases instead of stepping', 'PollEvent, oscillators')])

if __name__ == '__main__':
    with open(os.path.join(ROOT, 'properties.jsonl'), 'w') as f:
        for p in P:
            f.write(json.dumps(p) + '\n')
    print(len(P), 'properties')
