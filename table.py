"""What each check builds, how its evidence describes it, and its manifest entry."""
import os

CHECKS = {}


def check(pid, technique, rule, note, **kw):
    kw.setdefault('level', 'exploration')
    CHECKS[pid] = dict(technique=technique, rule=rule, note=note, **kw)


check('C01',
      'threaded stress with delay-injecting element types under ThreadSanitizer, offline order/exactly-once log check',
      'Each case is one producer and one consumer thread on one queue (kind, capacity, element type, initial offset, '
      'operation mix, delays and pauses drawn at random); it is non-trivial when at least one put was refused (full) or '
      'one get found nothing (empty), and counted distinct by the observed sequence of occupancies and refusals.',
      'Interleavings are those the host scheduler and the injected delays produce; ThreadSanitizer generalises each '
      'execution to its happens-before order, so a missing acquire/release is seen without a reordering CPU.',
      configs=['tsan', 'opt', 'san'],
      require=['items_through_queue', 'put_refused_full', 'get_refused_empty', 'cases_with_both_full_and_empty',
               'batched_puts', 'batched_gets', 'index_wrap_cases', 'resized_cases', 'resets_by_consumer',
               'resyncs_by_consumer'],
      assumptions=['one producer thread and one consumer thread, as documented',
                   'reset and set_read_offset are used by the consumer (forward) or while the other side is quiescent, '
                   'the other position setters only then'])

check('C02',
      'model-based histories under AddressSanitizer/UBSan, lifetime-tracking elements',
      'Random histories of every public operation, every put/get history of length 14 on capacities 1, 2, 4, '
      'bursts on capacities up to 131072; '
      'distinct by the sequence of operations, capacity and element size.',
      'Random histories plus exhaustive short ones; position setters stay within one capacity of each other; index '
      'wrap-around only for power-of-two capacities.',
      require=["long_histories", 'put_refused', 'get_empty', 'read_offset_applied', 'read_offset_refused', 'index_wrap_started',
               'span_constructed', 'resized', 'resized_to_same', 'shrunk_queues_measured',
               'large_queue_filled', 'large_read_offset', 'capacity_beyond_a_short'],
      assumptions=['set_read_pos/set_write_pos keep 0 <= filled <= capacity'])

check('C03',
      'threaded stress with ownership monitor under ThreadSanitizer, offline check of failed creates over the event log, sequential models',
      'Threaded cases: 2-6 threads create/write/verify/destroy on one pool, non-trivial when a slot passed from one thread '
      'to another; sequential cases: random histories against a slot model, distinct by operation sequence.',
      'A failed create() is judged per slot (each slot in use at some time during the call), which is what a scan can '
      'promise; clear() only by the owner of every slot in use, with every slot in use while other threads wait for one.',
      configs=['tsan', 'opt', 'san'],
      require=["long_histories", 'slots_handed_out', 'create_failed_full', 'slot_passed_between_threads', 'failed_creates_checked_against_log',
               'races_shared_by_several_winners', 'pools_cleared_by_their_owner', 'slots_taken_around_a_clear', 'plain_create_full', 'plain_overwrite', 'ts_cleared', 'plain_beyond_a_byte', 'ts_beyond_a_byte'],
      assumptions=['only the owner of a slot destroys it', 'clear() is called by the owner of every slot in use'])

check('C04',
      'model-based histories under AddressSanitizer/UBSan, lifetime-tracking elements',
      'Random histories over both kinds, five element types and seven capacities, compared with a positional model after '
      'every operation, plus every put/get/remove_first history of length 9 on capacities 1, 2, 4, '
      'and bursts on capacities up to 131072; distinct by operations.',
      'set_head only while the buffer is not full (it does not touch the full flag).',
      reducible=True,
      require=["long_histories", 'overwrote_oldest', 'own_element_put', 'get_on_empty', 'reset', 'set_head', 'filled_from_array', 'filled_with_value',
               'large_buffer_overwritten', 'large_buffer_filled', 'capacity_beyond_a_short'],
      assumptions=['set_head is used to introduce a delay on a buffer that is not full'])

check('C05',
      'model-based block histories in exact-size heap rings under AddressSanitizer/UBSan, cell-access monitor',
      'Random histories of block reads/writes on rings of 1..40 cells (distinct by operations, lengths and ring size), and '
      'every (size<=9, position, length<size, marker) for the crossing reports; rings up to 135000 cells with full-scale and non-finite samples.',
      'Cross-fades are compared within float rounding; integer cells within one unit; marker reports of reverse reads and '
      'of writes are judged only when the marker is not at either end position of the block; cross-faded 32-bit samples up to 2^24.',
      require=["long_histories", 'reads_wrapped', 'writes_wrapped', 'blocks_longer_than_ring', 'crossing_checked_forward',
               'crossing_checked_reverse', 'crossing_checked_write', 'block_wrapped', 'full_scale_blocks',
               'ring_beyond_a_short', 'large_block_rings'],
      assumptions=['positions set by the user are inside the ring', 'block ring writes are no longer than the ring',
                   'cross-faded samples are finite'])

check('C06',
      'model-based histories under AddressSanitizer/UBSan, lifetime-tracking elements',
      'Random histories (distinct by operations, capacity, element size) and every push/pop history of length 14 on '
      'capacities 1..5.',
      'Random and exhaustive short histories.',
      require=["long_histories", 'overwrote_bottom', 'pop_empty', 'cleared', 'constructed_from_values', 'large_stack_filled', 'capacity_beyond_a_short'])

# &data[size] of a full array is formed (never read) by the element shifts:
# bounds checking off here, overruns are seen by the guards and the model
NOBOUNDS = ['-fno-sanitize=bounds']

check('C07',
      'model-based histories under AddressSanitizer/UBSan, canary-guarded storage, lifetime-tracking elements',
      'Random histories of all operations on two vectors, compared element by element with std::vector after every '
      'operation (distinct by operations, capacity, element size), and every insert/erase position on every size up to 7.',
      'Random histories plus exhaustive positions on small capacities.',
      san_flags=NOBOUNDS,
      require=["long_histories", 'push_refused', 'pop_empty', 'resized', 'insert_refused', 'erase_refused', 'range_erased', 'range_erase_refused', 'size_beyond_a_short',
               'inserted_far'],
      assumptions=['erase(first, last) is given pointers into the storage or to its end'])

check('C08',
      'model-based histories under AddressSanitizer/UBSan, canary-guarded storage, lifetime-tracking values',
      'Random histories over a key universe up to twice the capacity, all lookups compared with an ordered association '
      'after every operation; distinct by operations, keys, capacity.',
      'The value a newly indexed key holds before it is assigned is left unspecified.',
      san_flags=NOBOUNDS,
      require=["long_histories", 'absent_key_read', 'index_overflow_replaced_last', 'insert_present', 'insert_refused_full', 'erased', 'erased_by_its_own_key', 'capacity_beyond_a_byte'],
      assumptions=['indexing a new key is followed by assigning its value'])

check('C09',
      'model-based histories under AddressSanitizer/UBSan, canary-guarded storage, lifetime-tracking values',
      'Random histories over a key universe larger than the capacity and including the default key, presence and value of '
      'every key compared with an age-ordered association after every operation; distinct by operations, keys, capacity.',
      'insert() is driven with new keys only.',
      require=['evicted_among_many', "long_histories", 'removed', 'removed_after_eviction', 'newest_removed_after_eviction', 'remove_absent', 'insert_refused_full', 'evicted_oldest', 'own_value_stored_again', 'capacity_beyond_a_byte'],
      assumptions=['insert() is used for keys that are absent'])

check('C10',
      'reference comparison under AddressSanitizer with unterminated exact-size sources and canary-guarded strings',
      'Random operation sequences over eleven capacity pairs (0 to 66000, plain and with the std::string conversions compiled in) with source lengths around the capacity; distinct by operations, '
      'source lengths and capacities.',
      'Texts without embedded zero bytes.',
      require=['stored_over_foreign_bytes', 'copied_c_string', 'copied_its_own_text', 'copied_unterminated_view', 'truncated', 'exact_fit', 'copied_other_capacity', 'assigned_text', 'std_string_conversions',
               'written_through_iterators', 'capacity_beyond_a_byte', 'capacity_beyond_a_short'],
      assumptions=['source texts contain no zero byte inside'])

check('C11',
      'lifetime-monitoring function objects under AddressSanitizer/UBSan, model-based histories',
      'Random histories of constructing, copying, moving, assigning, calling and destroying four callables holding owning, '
      'trivial, full-size and plain-function objects; live-object counts compared after every operation; objects of every size '
      'up to beyond the capacity, each callable on a heap block of its own; distinct by operations.',
      'Random histories; calling an empty callable is outside the contract.',
      require=["long_histories", 'self_assigned', 'owning_copied', 'reset_to_empty', 'calls', 'placed_objects', 'overload_sets', 'sizes_accepted'],
      assumptions=['an empty callable is never called'])

check('C12',
      'event-log monitor of transmissions (order, exactly-once, in-flight buffer unchanged) under AddressSanitizer',
      'Random interleavings of transmit() with completion callbacks, including spurious ones, and '
      'with transmit() calls from inside the transmit function; distinct by '
      'operation and length sequence.',
      'The transmit function accepts every transmission (what a refusing transmitter means is not documented); callbacks '
      'arrive between calls, as documented.',
      san_flags=NOBOUNDS,
      require=["long_histories", 'spurious_done', 'done_started_pending', 'transmit_from_the_transmitter', 'refused_whole', 'elements_sent', 'buffers_beyond_a_byte', 'buffers_beyond_a_short'],
      assumptions=['the transmit function reports success', 'completions do not interrupt transmit() (documented)'])

check('C13',
      'fault injection at every device operation of a simulated flash block, exact oracle from the device log',
      'Random histories (writes, reads, re-opens, failing reads) on both wear-level classes; each history is run once '
      'without fault and once per (mutating device operation, fault) with six faults: power lost before / halfway / after, '
      'operation failing without effect / halfway / after taking effect; plus histories with repeated faults, with cells '
      'wearing out one by one, and on blocks up to 70000 cells. Distinct by '
      'history, fault point, fault, class and cell count.',
      'Every device operation of each generated history is a fault point; histories themselves are sampled. Erase is atomic '
      '(done or not done), a torn program leaves an invalid cell, which on half of the devices cannot be read at all.',
      level='fault_enumeration',
      require=['fault_points_tried', 'power_losses', 'device_failures', 'failed_reads', 'erases', 'repeated_faults',
               'blocks_with_foreign_content', 'writes_around_worn_cells', 'writes_on_a_worn_out_block',
               'wide_blocks_reopened', 'cells_beyond_a_short', 'reads_past_unreadable_cells'],
      assumptions=['the validity check rejects torn data', 'an erase either happens completely or not at all',
                   'initial block content does not pass the validity check'])

check('C14',
      'generated trees against an independent encoder, exact-size heap buffers under AddressSanitizer/UBSan',
      'Random trees (8 key/size-type combinations, depth up to the maximum) through writer, serializer, measurer and '
      'stream, into buffers of the exact size, larger, and every or several smaller sizes; distinct by encoded bytes.',
      'Trees whose sizes fit the size type; objects deeper than the writer tracks are only expected to have size zero and to '
      'disturb nothing.',
      require=['round_trips', 'overflows', 'typed_values_read_back', 'trees_of_maximum_depth', 'deeper_than_tracked'],
      assumptions=['data sizes fit the size type', 'little-endian host'])

check('C15',
      'mutation of encoded messages in exact-size heap blocks under AddressSanitizer/UBSan, independent decoder as oracle',
      'Random bytes, truncated, bit-flipped and size-inflated messages over ten key/size-type combinations, every key '
      'looked up recursively; distinct by bytes, non-trivial when at least one field was found.',
      'Inputs up to about 200 bytes, now and then up to 200000; nested descent to depth 6.',
      opt_mult=2,
      require=['large_inputs', 'lookups', 'fields_found', 'fields_larger_than_the_input', 'size_fields_overwritten'])

check('C16',
      'comparison with the C library, exact-size heap buffers under AddressSanitizer/UBSan; full enumeration in the thorough tier',
      'Values biased to decimal shapes (zeros inside and at the end, powers of ten, extremes) into every buffer size; every '
      'value in a range around zero with buffers of 0..8 bytes; printing of mixed arguments. Distinct by value and buffer size.',
      'The thorough tier enumerates all 2^32 values for a sufficient buffer; quick samples them in blocks.',
      repo_src=['util/int_to_str.cc'],
      require=['refused_no_room', 'chopped', 'most_negative', 'values_enumerated', 'views_printed', 'values_read_back'],
      assumptions=['printed texts contain no zero byte', 'printing of floats (a placeholder in the code) is not judged'])

check('C17',
      'comparison with naive references, unterminated exact-size views under AddressSanitizer; termination watchdog',
      'Random texts over small alphabets (so that overlaps and self-containing replacements are frequent) plus every text, '
      'needle and replacement over two letters up to length 6/3/3; distinct by texts.',
      'Texts up to 24 characters, now and then up to 70000; C locale.',
      probes=[('included-twice', [], '}\n' + 2 * ''.join('#include "util/%s.hh"\n' % h for h in (
          'contains_word', 'string_compare', 'string_util')) + 'bool use_words() {\nreturn contains_word("a b", "b");')],
      require=['words_in_other_alphabets', 'long_texts', 'replaced', 'own_text_as_argument', 'replacement_contains_needle', 'empty_needle', 'tokens_found', 'words_found', 'part_of_a_word_only',
               'equal_but_for_case'],
      assumptions=['replacing an empty needle changes nothing'])

check('C18',
      'comparison with an independent parser and packed-integer order, unterminated exact-size views under AddressSanitizer',
      'Random and enumerated short version texts with out-of-range, zero-padded and garbage fields; random and '
      'near-equal version pairs. Distinct by text / by pair.',
      'Fields that start with white space or a plus sign are not judged.',
      require=['pre_releases', 'pre_releases_with_dots', 'long_texts', 'versions_parsed', 'hostable', 'equal_versions'],
      assumptions=['fields do not start with white space or a sign other than minus'])

check('C19',
      'model of unbounded time against wrapping counters, recorded poll histories; full enumeration for 8-bit counters',
      'Random poll schedules (zero steps, exactly due, one tick early or late, to and across the wrap) on eight counter '
      'types; every (last time, period, present time) of an 8-bit counter; distinct by period and step sequence, '
      'non-trivial when an event fired and the counter wrapped.',
      'Time advances by less than the counter range (half of it for signed counters) between a firing and the next due poll.',
      require=['polled_inside_the_action', 'forced_inside_the_state_function', "long_histories", 'events_fired', 'fired_across_wrap', 'not_due_across_wrap', 'forced_before_due', 'change_polls_across_wrap',
               'changes_not_yet_due', 'changes_taken', 'fired_across_the_wrap_of_a_wide_signed_counter'],
      assumptions=['polled at least once per counter range (half of it for signed counters)'])

check('C20',
      'state-machine models compared after every sample; all short sequences enumerated for edges and quadrature',
      'Random sample sequences aimed at full patterns, patterns off by one bit, and glitches, on six debouncer configurations; '
      'every boolean sequence of 12 for the edge detectors, every sequence of 9 two-bit states for the decoder; a simulated '
      'shaft. Distinct by sequence.',
      'Sequences up to about 200 samples.',
      repo_src=['util/math_tables.cc'],
      require=["long_histories", 'toggles', 'transferred_events', 'debounced_rises', 'debounced_falls', 'raw_differs_from_debounced',
               'schmitt_rises', 'schmitt_falls', 'schmitt_inside_band', 'gate_between_middle_and_on', 'steps_decoded', 'shaft_steps', 'incomplete_steps', 'levels_of_other_bits'],
      assumptions=['low threshold does not exceed the high one',
                   'transferring a toggler which holds both a rising and a falling event is not judged'])

check('C21',
      'comparison with an extended-precision piecewise-linear reference, heap-isolated tables under AddressSanitizer/UBSan '
      '(float-cast-overflow)',
      'Ten table types with positions at, next to and between entries, negative, far beyond the table and beyond 2^32; '
      'trigonometric and power functions at random, near-critical and swept arguments; every table entry. Distinct by '
      'table type and positions.',
      'Position tolerance of one or two units in the last place, so that any evaluation order is accepted; non-finite '
      'positions are outside the domain.',
      san_flags=['-D_GLIBCXX_ASSERTIONS'],  # a table entry past the last one is read even if its weight is zero
      repo_src=['util/math_tables.cc'],
      require=['lookups_checked', 'negative_positions', 'huge_positions', 'lut_inside', 'sines_compared', 'negative_angles',
               'tangents_compared', 'negative_exponents', 'table_entries', 'long_tables', 'long_lut'],
      assumptions=['non-wrapping forms are called inside their documented range', 'positions are finite',
                   'tangent away from its poles', 'power of two representable as a normal float'])

check('C22',
      'comparison with 128-bit-integer and double references under UBSan (signed overflow, shifts, float casts)',
      'Arguments biased to type boundaries, powers of two and saturation limits; every 16-bit value for the bit helpers; '
      'distinct by arguments.',
      'The wrap helpers are driven at most 20000 ranges away (they step by one range); float results within rounding of the '
      'real value, integer endpoints exactly.',
      repo_src=['util/math_tables.cc'],
      require=['saturated', 'next_power_not_representable', 'wide_powers', 'wrapped_values', 'mapped', 'negative_interpolated',
               'non_finite_values', 'on_the_plateau', 'off_the_plateau', 'integer_types_checked', 'mapped_wide_integers', 'mapped_unsigned_reversed'],
      probes=[('widest-signed-integers', ['"util/smallest_integer.hh"'], 'SmallestSignedInt<0, INT64_MAX>::type a{}; SmallestSignedInt<INT64_MIN, 0>::type b{}; SmallestSignedInt<INT64_MIN, INT64_MAX>::type c{}; SmallestSignedInt<INT64_MAX, INT64_MAX>::type d{}; (void)a; (void)b; (void)c; (void)d;')],
      assumptions=['arguments for which the mathematical result is representable in the return type',
                   'products of differences of map_value fit 64 bits (for wider ones, its type)'])

check('C23',
      'comparison with block, window and recursive-step definitions after every sample, range and convergence monitors',
      'Random sample streams (full scale, alternating extremes, constant, slow drift, noise) on window/block sizes 1..131072, '
      'resize/reset/assign histories, filters stepped around their band edges; distinct by filter and sample sequence.',
      'Integer windows exactly; float steps within rounding. Non-negative inputs within the declared number of bits; one-pole inputs '
      'no further from the state than the divisor (beyond it the recursion itself overshoots).',
      require=["long_histories", 'averages_over_full_window', 'converged_to_constant', 'oversampled_blocks', 'smooth_blocks', 'resizing_blocks',
               'shrunk_below_collected', 'grown_mid_block', 'assigned', 'one_pole_steps', 'kept_inside_band',
               'moved_outside_band', 'cascade_reads', 'long_windows', 'long_blocks', 'long_smooth_blocks', 'long_resizing_blocks'],
      assumptions=['integer filters get non-negative samples of the declared width', 'resizing oversampler sizes are at least 1',
                   'quadratic one-pole inputs differ from the state by at most the divisor'])

check('C24',
      'exact-ramp model after every update, marks injected inside callbacks, threaded hand-over of plain memory under ThreadSanitizer',
      'Random target/retarget/snap histories on seven types and update counts; array histories with the mark set between and '
      'inside readings and outputs; one marking and one updating thread, waiting and free-running. Distinct by history; threaded '
      'cases by the number of readings the updater happened to take.',
      'Float ramps within accumulated rounding, integer ramps exactly (truncated step). Interleavings are those of the host scheduler '
      'plus the callback-injected ones.',
      configs=['san', 'opt', 'tsan'],
      require=["long_histories", 'integer_targets_reached', 'float_targets_reached', 'abandoned_ramps', 'num_updates_changed', 'num_updates_changed_mid_ramp', 'snapped',
               'readings_taken', 'marks_during_a_call', 'outputs_on_target', 'outputs_on_the_ramp', 'unmarked_reads_skipped',
               'last_mark_followed_up', 'idle_for_a_day', 'threaded_generations', 'threaded_marks', 'threaded_readings'],
      assumptions=['signed or floating value types', 'one marking thread and one updating thread',
                   'the number of updates of the array is set before the first reading'])

check('C25',
      'comparison with a double-precision affine reference and a reference volt-per-octave recorder after every measurement',
      'Random and volts-against-codec reference points, arguments between and beyond them; random measurement histories with '
      'repeated notes, repeated values, C0 and no-note records, resets, on float, double and integer values. Distinct by '
      'points / history.',
      'Float results within a few roundings of the operands involved.',
      require=['adjusted_values', 'made_from_points', 'falling_slopes', 'resets', 'none_ignored', 'slopes_measured',
               'offsets_extrapolated', 'c0_overrides_offset', 'slope_kept_for_repeated_note', 'measurements_far_apart', 'long_recordings'],
      assumptions=['the two targets differ and the two measurements differ (the library does not refuse degenerate pairs)'])

check('C26',
      'comparison with exact (power-of-two scaled) arithmetic under UBSan float-cast-overflow; every code of 8- and 16-bit samples enumerated',
      'Levels at, next to and between codes, around and far beyond full scale, infinities; sample codes with garbage above the used '
      'bits; nine signed and five unsigned formats; distinct by format, code and level.',
      'Not-a-number inputs are not judged. Unsigned formats only for output (there is no unsigned input format).',
      require=['saturated_high', 'saturated_low', 'in_range_outputs', 'negative_inputs', 'high_bits_ignored', 'round_trips',
               'unsigned_outputs'],
      assumptions=['levels are numbers (infinite included)'])

check('C27',
      'comparison with the exactly accumulated 32-bit phase after every update, observed increments and durations against exact '
      'rational frequency; UBSan float-cast-overflow',
      'Random frequencies, periods and phases at eight update rates, whole seconds of cycles counted; counters and pulses run to '
      'their end and beyond, restarted and stopped. Distinct by oscillator, rate, frequency and final phase.',
      'Increments are judged to one count per hertz of 2^32 (the documented resolution); sine within table error; pulse lengths to the '
      'update, within the rounding of the float width and rate (exactly where those are exact), also for pulses of hours.',
      repo_src=['util/math_tables.cc'],
      require=["long_histories", 'fractional_frequencies', 'negative_frequencies', 'periods_in_ms', 'periods_below_a_second', 'triangle_cycles', 'ramp_cycles',
               'seconds_counted', 'sine_runs', 'frequency_zero', 'period_below_one_update', 'counts_timed',
               'impossible_rate_ignored', 'stopped', 'restarted', 'pulses_exactly_timed', 'pulses_timed',
               'pulses_longer_than_a_minute', 'rate_changed_during_a_pulse'],
      assumptions=['frequencies below the update rate (half of it for the triangle)', 'periods and frequencies are not negative; '
                   'oscillator periods are not zero'])

check('C28',
      'comparison with exact per-channel integer arithmetic, exhaustive 16-bit and HSV sweeps, LED output monitor against a time model',
      'Random colour pairs and phases biased to endpoints; every 8-bit blend, every 565 code, every HSV colour; LED histories of base, '
      'flash, fade, breathe and calibration changes with every update checked. Distinct by operands / LED history.',
      'Fades and breathing within the blend\'s 1/256 resolution.',
      repo_src=['util/math_tables.cc'],
      require=['sums_in_range', 'combined_beyond_full', 'codes_565', 'negative_channels', 'channels_beyond_one', 'hsv_colours',
               'updates_flashing', 'updates_fading', 'updates_breathing', 'flashes_longer_than_a_second'],
      assumptions=['float phases between 0 and 1', 'flash times in whole milliseconds, not negative'])

check('C29',
      'instrumented ranges (every dereference and step of every iterator observed), identity of yielded references, AddressSanitizer',
      'Random lengths (equal, unequal, empty) of one to four zipped ranges, also temporaries, constant ranges and vector<bool>; '
      'stepped by range-for and by hand; distinct by lengths and content.',
      'Random-access ranges, as the library requires.',
      probes=[('vectorbool-first', [], '}\n#define COUNTZIP_SUPPORT_VECTORBOOL\n#include "util/countzip.hh"\nint use_vb() {\nstd::vector<bool> v{true}; int n = 0; for (auto [i, b] : countzip(v)) n += b; return n;')],
      require=['long_ranges', 'unequal_lengths', 'empty_common_prefix', 'postfix_steps', 'container_mixes'],
      assumptions=['ranges are not resized while being walked'])

check('C30',
      'exactly-once ownership monitor and a reference greedy distribution; short lists enumerated',
      'Random value lists (all equal, few values, powers of two, wide, sorted, negative) up to the capacity in eight shapes, '
      'recalculated in place and with initial sums; every list of up to five values 0..4. Distinct by values.',
      'Which of several equally small parts receives an element is not judged.',
      require=['capacity_beyond_a_short', 'capacity_beyond_a_byte', 'recalculated', 'full_capacity', 'no_elements', 'with_initial_sums', 'fewer_elements_than_parts', 'partitions_balanced'],
      assumptions=['no more elements than the declared maximum and no more initial sums than parts', 'sums representable in the value type'])

check('C31',
      'ownership and content monitors over live memory, exact-size heap arenas under AddressSanitizer/UBSan, aliased physical pages as injected address faults',
      'Request histories (exact fit, one more, one less, zero, overflowing sizes, reset) on arenas of 0..2000 bytes; aligned blocks of six '
      'types; memory tests over healthy memory and over pages mapped twice; random stream-buffer, byte-block and bit-field use. '
      'Distinct by history.',
      'Memory faults are aliased pages (every page offset, also a single aliased word pair); a stuck data bit is seen by the memory test '
      'only where its one pattern has the other value, so that is not claimed.',
      probes=[('bitfield-alone', [], '}\n#include "util/bitfield.hh"\nint use_bf() {\nreturn bitfield(1, 2);'),
              ('byte-block-alone', [], '}\n#include "util/byte_block.hh"\nvoid use_bb() {\nByteBlock b; b.print(uint8_t{1});'),
              ('included-twice', [], '}\n' + 2 * ''.join('#include "util/%s.hh"\n' % h for h in (
                  'aligned_allocator', 'monotonic_allocator', 'byte_block', 'padded_aligned', 'input_output_buffer',
                  'bitfield')) + 'void use_twice() {\nMonotonicAllocator{std::span<uint8_t>{}};'),
              ('mem_test-included-twice', [], '}\n' + 2 * '#include "util/mem_test.hh"\n' + 'void use_mem() {\n(void)sizeof(MemTest);')],
      flags=['-I', os.path.join(os.path.dirname(os.path.abspath(__file__)), 'harness', 'stub')],
      require=["long_histories", 'arena_resets', 'arenas_beyond_a_short', 'blocks_beyond_a_short', 'large_stream_buffers', 'big_buffers', 'requests_refused', 'arena_filled_exactly', 'overflowing_sizes', 'aligned_blocks', 'padded_objects',
               'healthy_regions', 'aliased_regions', 'unaffected_regions', 'numeric_addresses', 'put_when_full_ignored',
               'get_when_depleted', 'bytes_written', 'fields_combined'],
      assumptions=['alignments are powers of two accepted by aligned_alloc'])

check('C32',
      'comparison with interval arithmetic in 64/128 bits in both argument orders; small rectangles and quadrilaterals enumerated; UBSan',
      'Random, touching, contained and far rectangles; every pair of rectangles on a 6 x 6 grid; regular, dented, star-like and '
      'degenerate polygons in eight coordinate types (unsigned included), some of up to 70000 corners, walked both ways and from another corner; every quadrilateral on a 4 x 4 grid. '
      'Distinct by coordinates.',
      'Concavity is judged as turning in both directions (what the function documents for simple polygons); float polygons with a turn '
      'too close to straight to call are skipped and counted.',
      require=['intersecting', 'containing', 'overlap_in_one_axis', 'apart', 'concave_polygons', 'convex_polygons', 'too_few_corners',
               'polygons_of_many_corners', 'long_outlines_dented', 'unsigned_coordinates', 'wide_integer_polygons', 'centers_far_out'],
      assumptions=['edges are ordered (left <= right, top <= bottom)', 'rectangle widths and heights representable in the coordinate type', 'integer polygons extend over less than 2^31 in each direction'])

check('C33',
      'models compared after every call; change-detector sequences enumerated; conservation monitor over motion transfers',
      'Random histories of stores (around the threshold, equal, copied), reads and resets on thirteen tracker types; sample streams of each '
      'sign; distinct by history.',
      'The running mean within 1e-5 of its definition. Threshold decisions are not judged where the float difference itself rounds across '
      'the threshold.',
      require=["long_histories", 'latched_changes', 'small_moves_held', 'reference_changes', 'parameter_changes', 'same_value_stored', 'meter_resets',
               'all_negative_samples', 'analyser_resets', 'detector_sequences', 'motions_used', 'motions_transferred',
               'moves_beyond_the_greatest_value', 'long_sample_runs'],
      assumptions=['one object does not transfer to itself'])

check('C34',
      'differential histories: each object alone against the same object beside, copied from, and in other threads than '
      'others, in pattern-filled memory; ThreadSanitizer for objects of different threads',
      'Every stateful component (and the pure helpers) behind one interface; a case is two or more histories of one kind, '
      'interleaved at random, copied at a random step or run in threads, each compared step by step with its solo run; '
      'distinct by kind, lengths, switches and seed.',
      'One configuration (element type, capacity) per component; the solo run of the same code is the reference, so what '
      'an object should do is left to the other checks.',
      configs=['tsan', 'san', 'opt'],
      repo_src=['util/int_to_str.cc', 'util/math_tables.cc'],
      require=["long_histories", 'interleaved_pairs', 'switches_between_objects', 'same_history_pairs', 'assigned', 'assigned_to_itself', 'copy_constructed',
               'copy_continued', 'original_continued', 'copy_outlived', 'threaded_objects', 'kinds_of_object'],
      assumptions=['components that refer to storage outside themselves are not copied',
                   'MathTools::randomNumber draws from the C library generator and is left out'])

check('C35',
      'allocation monitor (malloc/free hooks armed around every construction, operation, copy and destruction)',
      'Random histories of every component documented to live in its own storage, with copies and assignments, small and '
      'wide elements; distinct by kind, length, copies and seed. Components that may allocate run beside them, so the '
      'monitor is known to see requests.',
      'Only requests made by the library code of the configurations driven are seen; the element types used own nothing.',
      repo_src=['util/int_to_str.cc', 'util/math_tables.cc'],
      require=["long_histories", 'steps_without_heap', 'copies_without_heap', 'requests_seen_where_allowed', 'dyn_fifo_operations',
               'wide_cases', 'heap_free_kinds'],
      assumptions=['element types and stored function objects own no memory',
                   'ByteBlock, the run-time-sized queue (construction, resize), AlignedAllocator and the std::string '
                   'helpers use the heap by design'])

check('C37',
      'lane-by-lane reference arithmetic (volatile, unfused) under AddressSanitizer/UBSan',
      'Random vectors of ordinary, extreme, subnormal, infinite and signed-zero lanes, and exact integer dot products and '
      'maxima built from the operations; distinct by lane values.',
      'Not-a-number maxima and the sign of a zero maximum are not judged.',
      repo_src=['util/math_tables.cc'],
      require=['vectors_evaluated', 'infinite_lanes', 'kernels_run'],
      assumptions=['no floating point contraction (the NEON multiply-accumulate emulated is the unfused one)'])

check('C36',
      'a party suspended at every element copy and, by signals, at arbitrary instructions; the other runs under a progress '
      'watchdog; interrupt handlers as second party on the same thread; ownership, order and exactly-once monitors',
      'Cases stop one thread inside an operation (at a chosen copy, or wherever a signal finds it) and run the other side '
      'to the end of what it can do, or run one party entirely in a signal handler interrupting the other; non-trivial '
      'when the stop or interrupt fell inside an operation; distinct by kind, filling, stop point and outcome.',
      'Not finishing means two seconds of processor time (or forty of any) for work of microseconds; signal positions are '
      'where the scheduler put them, copies are exact positions.',
      opt_mult=1,
      require=['puts_stopped_at_a_copy', 'gets_stopped_at_a_copy', 'stops_inside_queue_operation',
               'stops_inside_pool_operation', 'interrupts_inside_queue_operations', 'interrupts_inside_pool_operations',
               'interrupts_inside_readings', 'marks_inside_callbacks'],
      assumptions=['one producer and one consumer', 'the host\'s atomics of these sizes are lock-free'])

check('C38',
      'differential histories with and without questions, const members on objects in write-protected pages, and '
      'ThreadSanitizer over concurrent askers',
      'Every kind of object with accessors, after random histories: the same history with random questions between its '
      'steps, questions repeated, const accessors with the object in a page that cannot be written, and several threads '
      'asking one object; distinct by kind, history length and answers.',
      'Accessors which by name or documentation consume or advance (is_just_pressed, isChanged, take_change, '
      'CascadingFilter::val) are not questions; SineOscillator::val is the finding of C27.',
      configs=('san', 'opt', 'tsan'), opt_mult=1,
      repo_src=['util/int_to_str.cc', 'util/math_tables.cc'],
      probes=[('first', ['"util/circular_buffer.hh"'], 'CircularBuffer<int, 4> b; b.put(1); int &m = b.first(); const auto &c = b; const int &f = c.first(); (void)m; (void)f;'),
              ('pool-item', ['"util/thread_safe_pool.hh"'], 'cpputil::ThreadSafePool<int, 4> p; int &m = p[0]; const auto &c = p; const int &i = c[0]; (void)m; (void)i;')],
      require=['questions_asked', 'questions_repeated', 'questions_in_read_only_memory', 'threads_asking', 'kinds_asked'],
      assumptions=['the memory protection of the host stands for data in read-only memory'])

check('C39',
      'constant evaluation by two compilers (an interpreter which refuses undefined behaviour) against execution of the '
      'same streams of operations under AddressSanitizer/UBSan and optimised',
      'Streams of random operations and inputs drawn from the seed, one set per section of the library, evaluated by the '
      'compiler and by the program; distinct by the digest of all results.',
      'Covers the functions declared constexpr except those which involve the run-time tables (pow2, setPitchMultiple, '
      'audioFreqToNorm), the C library (case-insensitive comparison), a saturation instruction (scaled output of narrow '
      'frames) or casts the compiler cannot do yet (RGB565 to its 16 bits).',
      opt_mult=1, shards=1,
      sections=['math', 'bits', 'colour', 'calibration', 'tables', 'vector', 'string', 'message', 'shapes', 'frames'],
      flags=['-fconstexpr-steps=2000000000', '-fconstexpr-ops-limit=8000000000', '-fconstexpr-loop-limit=100000000'],
      require=['streams_' + x for x in ('math', 'bits', 'colour', 'calibration', 'tables', 'vector', 'string', 'message', 'shapes', 'frames')],
      assumptions=['IEEE single precision without contraction on the host, as in the compilers'])

check('C40',
      'step monitor: every basic block executed inside a call is counted (sanitizer coverage callbacks) and compared with a bound '
      'that depends on the type and the amount of data only',
      'Random histories: every component over short lives and one life of up to 40000 steps; queues, rings, stacks, vectors, maps, pools, '
      'tables, arenas, blocks and filters at capacities 5, 64, 4096 and 65536, empty to full, positions near the wrap-around; numbers '
      'biased to the boundaries of their types; messages, texts and blocks of up to 6000 hostile bytes. Distinct by history.',
      'Steps are basic blocks of the library code as compiled by clang++ -O1 (library calls such as memcpy count as one). Bounds are '
      'several times what the code needs, so that they tell constant from linear and linear from quadratic, nothing finer.',
      configs=['steps'],
      repo_src=['util/int_to_str.cc', 'util/math_tables.cc'],
      require=['calls_measured', 'steps_of_long_lives', 'large_capacities_driven', 'queues_full', 'queue_positions_wrapped', 'times_jumped',
               'oscillators_driven', 'lights_driven', 'calibrations', 'numbers_as_text', 'nodes_entered', 'messages_written', 'versions_read',
               'texts_copied', 'texts_searched', 'streams_and_storage'],
      assumptions=['wrapping helpers (wrap, pow2, tables read at positions many periods away) step by one range, so they are given positions near it'])

# Fast checks go deeper on the thorough tier
for _c in 'C02 C07 C10 C11 C14 C15 C17 C18 C19 C25 C26 C28 C29 C33 C35 C37'.split():
    CHECKS[_c]['deep'] = 3
