// Every stateful component of the library (and the pure helpers, as components without state) behind one interface:
// construct, make one random step (an operation drawn from the component's own random stream; the result is a hash of
// everything the step returned or shows), copy, assign.  No step touches the heap by itself.
#pragma once
#include <bit>
#include <concepts>
#include <cstdint>
#include "vf.hh"
#define CPPUTIL_STATIC_STRING_USE_STD_STRING
#include "util/analyzed_signal.hh"
#include "util/audio_frame.hh"
#include "util/calibrator.hh"
#include "util/callable.hh"
#include "util/change_detector.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"
#include "util/circular_buffer_opt.hh"
#include "util/circular_stack.hh"
#include "util/colors.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"
#include "util/contains_word.hh"
#include "util/cortex_math.hh"
#include "util/countzip.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"
#include "util/doublebuf_stream.hh"
#include "util/edge_detector.hh"
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"
#include "util/fixed_vector.hh"
#include "util/geometry.hh"
#include "util/hsv.hh"
#include "util/input_output_buffer.hh"
#include "util/int_to_str.hh"
#include "util/interp_array.hh"
#include "util/interp_param.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
#include "util/lookup_table.hh"
#include "util/math.hh"
#include "util/math_tables.hh"
#include "util/monotonic_allocator.hh"
#include "util/oscs.hh"
#include "util/parameter.hh"
#include "util/partition.hh"
#include "util/poll_change.hh"
#include "util/poll_event.hh"
#include "util/pool.hh"
#include "util/print.hh"
#include "util/quadrature_encoder.hh"
#include "util/rgbled.hh"
#include "util/rotary_motion.hh"
#include "util/schmitt_trigger.hh"
#include "util/seq_map.hh"
#include "util/sequential_map.hh"
#include "util/static_string.hh"
#include "util/string_compare.hh"
#include "util/string_util.hh"
#include "util/thread_safe_pool.hh"
#include "util/version_tools.hh"
#include "util/voct_calibrator.hh"
#include "util/wear_level.hh"
#include "util/zip.hh"

namespace comps
{
using namespace vf;

struct Comp {
	virtual ~Comp() = default;
	virtual u64 step(Rng &r) = 0;
	virtual void *self() = 0;
};

struct Kind {
	const char *name;
	size_t size, align;
	bool heap_free; // documented to live in its own storage
	bool values;	// the type can be copied
	Comp *(*make)(void *);
	Comp *(*copy)(void *, const Comp &);
	bool assignable;
	bool (*assign)(Comp &, const Comp &); // true if the result is the object assigned to
};

template<class X, auto Step>
struct Of final : Comp {
	X x;
	Of() {
	}
	Of(const Of &) = default;
	u64 step(Rng &r) override {
		return Step(x, r);
	}
	void *self() override {
		return &x;
	}
};

enum Flags { Plain = 0, NoCopy = 1, Heap = 2 };

inline std::vector<Kind> &kinds() {
	static std::vector<Kind> k;
	return k;
}

template<class X, auto Step>
struct Add {
	using C = Of<X, Step>;
	Add(const char *name, unsigned flags = Plain) {
		Kind k{};
		k.name = name;
		k.size = sizeof(C);
		k.align = alignof(C);
		k.heap_free = !(flags & Heap);
		k.make = [](void *m) -> Comp * { return ::new (m) C; };
		constexpr bool can = std::is_copy_constructible_v<X>;
		k.values = can && !(flags & NoCopy);
		if constexpr (can)
			k.copy = [](void *m, const Comp &c) -> Comp * { return ::new (m) C(static_cast<const C &>(c)); };
		k.assignable = std::is_copy_assignable_v<X>;
		k.assign = [](Comp &d, const Comp &s) -> bool {
			if constexpr (std::is_copy_assignable_v<X>) {
				X &to = static_cast<C &>(d).x;
				auto &&result = (to = static_cast<const C &>(s).x);
				if constexpr (std::is_same_v<decltype(result), X &>)
					return &result == &to; // as a = b = c needs it
				else
					return false;
			} else
				return false;
		};
		kinds().push_back(k);
	}
};

inline float fl(Rng &r) {
	return (float)((i64)r.below(4001) - 2000) / 500.f;
}
inline float unit(Rng &r) {
	return (float)r.below(1001) / 1000.f;
}
#define COMP_CAT2(a, b) a##b
#define COMP_CAT(a, b) COMP_CAT2(a, b)
// the questions at the end of a step: only now and then, so that asking cannot keep an object in order
#define SOMETIMES if (r.chance(1, 2))
// COMP("name", flags, type, { body using x, r, h })
#define COMP(NAME, FLAGS, ...) COMP_I(COMP_CAT(comp_, __COUNTER__), NAME, FLAGS, __VA_ARGS__)
#define COMP_I(ID, NAME, FLAGS, TYPE, ...)                                                                             \
	inline u64 COMP_CAT(ID, _step)([[maybe_unused]] TYPE & x, Rng &r) {                                                \
		Hash h;                                                                                                        \
		__VA_ARGS__ return h;                                                                                          \
	}                                                                                                                  \
	static Add<TYPE, COMP_CAT(ID, _step)> ID{NAME, FLAGS};

// ---------------------------------------------------------------- rings, queues, vectors, maps
using T_CircularBuffer = CircularBuffer<u32, 8>;
COMP("CircularBuffer", Plain, T_CircularBuffer, {
	switch (r.below(10)) {
		case 0 ... 4:
			x.put((u32)r.next());
			break;
		case 5 ... 7:
			h.add(x.get());
			break;
		case 8:
			x.remove_first();
			break;
		default:
			if (r.chance(1, 4))
				x.reset();
			else
				h.add(x.peek(0));
	}
	SOMETIMES h.add(x.count()).add(x.full()).add(x.empty()).add(x.get_head_idx()).add(x.get_tail_idx()).add(x.peek(r.below(8)));
})

using T_CircularBufferOpt = CircularBufferOpt<u16, 4>;
COMP("CircularBufferOpt", Plain, T_CircularBufferOpt, {
	switch (r.below(8)) {
		case 0 ... 3:
			x.put((u16)r.next());
			break;
		case 4 ... 6:
			h.add(x.get().value_or(7));
			break;
		default:
			x.remove_first();
	}
	SOMETIMES h.add(x.count()).add(x.full()).add(x.get_head_idx()).add(x.get_tail_idx());
})

using T_CircularBufferBlock = CircularBufferBlock<u32, 16>;
COMP("CircularBufferBlock", Plain, T_CircularBufferBlock, {
	u32 b[16];
	for (auto &e : b)
		e = (u32)r.next();
	x.write(std::span<const u32>{b, r.below(17)}, r.below(100));
	for (auto e : x.data)
		h.add(e);
})

struct ExtRing {
	std::array<i64, 11> store{};
	CircularBufferAccess<std::array<i64, 11>> acc{store, 3};
};
COMP("CircularBufferAccess", NoCopy, ExtRing, {
	i64 b[11];
	for (auto &e : b)
		e = (i64)r.below(1000);
	std::span<i64> s{b, r.below(12)};
	switch (r.below(6)) {
		case 0:
			h.add(x.acc.read(s));
			break;
		case 1:
			h.add(x.acc.read_reverse(s));
			break;
		case 2:
			h.add(x.acc.write(s));
			break;
		case 3:
			h.add(x.acc.write_reverse(s, 0.5f));
			break;
		case 4:
			h.add(x.acc.read_check_crossed(s, r.below(11)));
			break;
		default:
			h.add(x.acc.write_check_crossed(s, r.below(11)));
	}
	for (auto e : b)
		h.add(e);
	for (auto e : x.store)
		h.add(e);
	SOMETIMES h.add(x.acc.rd_pos()).add(x.acc.wr_pos());
})

using T_CircularStack = CircularStack<int, 5>;
COMP("CircularStack", Plain, T_CircularStack, {
	switch (r.below(8)) {
		case 0 ... 3:
			x.push_back((int)r.below(1000));
			break;
		case 4:
		case 5:
			h.add(x.pop_back().value_or(-1));
			break;
		case 6:
			h.add(x.pop_back_or_zero());
			break;
		default:
			if (r.chance(1, 5))
				x.clear();
	}
	SOMETIMES h.add(x.size()).add(x.empty()).add(x.back().value_or(-1));
})

using T_FixedVector = FixedVector<u32, 7>;
COMP("FixedVector", Plain, T_FixedVector, {
	switch (r.below(9)) {
		case 0 ... 2:
			h.add(x.push_back((u32)r.next()));
			break;
		case 3:
			h.add(x.pop_back());
			break;
		case 4:
			x.insert(r.below(8), (u32)r.next());
			break;
		case 5:
			x.erase(r.below(8));
			break;
		case 6:
			h.add(x.resize(r.below(9), 5));
			break;
		case 7:
			if (x.size() > 2)
				x.erase(x.begin() + 1, x.begin() + 2);
			break;
		default:
			if (r.chance(1, 4))
				x.clear();
	}
	SOMETIMES h.add(x.size()).add(x.back()).add(x.available());
	SOMETIMES for (auto e : x)
		h.add(e);
	SOMETIMES for (auto e : std::as_const(x).span())
		h.add(e);
})

using T_SeqMap = SeqMap<u8, u32, 5>;
COMP("SeqMap", Plain, T_SeqMap, {
	u8 k = r.below(9);
	switch (r.below(6)) {
		case 0:
			if (!x.key_exists(k))
				h.add(x.insert(k, (u32)r.next()));
			break;
		case 1 ... 3:
			h.add(*x.overwrite(k, (u32)r.next()));
			break;
		case 4:
			h.add(x.remove(k));
			break;
		default:
			x.remove_last();
	}
	SOMETIMES h.add(x.size());
	SOMETIMES for (u8 i = 0; i < 9; i++) {
		auto *p = x.get(i);
		h.add(p ? *p : 77).add(x.key_exists(i));
	}
})

using T_SequentialMap = SequentialMap<u8, u32, 5>;
COMP("SequentialMap", Plain, T_SequentialMap, {
	u8 k = r.below(9);
	switch (r.below(6)) {
		case 0:
			h.add(x.insert({k, (u32)r.next()}).second);
			break;
		case 1 ... 3:
			x[k] = (u32)r.next();
			break;
		case 4:
			h.add(x.erase(k));
			break;
		default:
			if (r.chance(1, 5))
				x.clear();
	}
	SOMETIMES h.add(x.size()).add(x.is_full()).add(x.empty());
	SOMETIMES for (u8 i = 0; i < 9; i++) {
		h.add(std::as_const(x)[i]).add(x.contains(i)).add(x.find(i) != x.end());
	}
	SOMETIMES for (auto &p : x)
		h.add(p.first).add(p.second);
})

using T_Fifo = LockFreeFifoSpsc<u32, 4>;
template<class F>
inline void fifo_step(F &x, Rng &r, Hash &h) {
	u32 v = 0;
	switch (r.below(9)) {
		case 0 ... 3:
			h.add(x.put((u32)r.next()));
			break;
		case 4:
			h.add(x.get().value_or(9));
			break;
		case 5:
			h.add(x.get_move(v));
			break;
		case 6:
			h.add(x.get_or_default());
			break;
		case 7:
			x.remove_first();
			break;
		default:
			if (r.chance(1, 4))
				x.reset();
			else
				x.set_read_offset(r.below(4));
	}
	h.add(v);
	SOMETIMES h.add(x.num_filled()).add(x.num_free()).add(x.full()).add(x.empty());
}
COMP("LockFreeFifoSpsc", Plain, T_Fifo, { fifo_step(x, r, h); })

struct DynFifo {
	LockFreeFifoSpscDyn<u32> f{5};
};
COMP("LockFreeFifoSpscDyn", Heap, DynFifo, {
	fifo_step(x.f, r, h);
	if (r.chance(1, 12))
		x.f.resize(1 + r.below(9));
	SOMETIMES h.add(x.f.max_size());
})

using T_InputBuffer = InputBuffer<u32, 6>;
COMP("InputBuffer", Plain, T_InputBuffer, {
	if (r.chance(1, 8))
		x.reset();
	else
		x.put((u32)r.next());
	SOMETIMES h.add(x.full());
	for (auto e : x)
		h.add(e);
})
using T_OutputBuffer = OutputBuffer<u32, 6>;
COMP("OutputBuffer", Plain, T_OutputBuffer, {
	if (r.chance(1, 8)) {
		x.reset();
		for (auto &e : x)
			e = (u32)r.next();
	} else
		h.add(x.get());
	SOMETIMES h.add(x.full());
})

// ---------------------------------------------------------------- pools
struct PlainPool {
	cpputil::Pool<u32, 4> p;
	std::array<u32 *, 4> held{};
};
COMP("Pool", NoCopy, PlainPool, {
	unsigned i = r.below(4);
	if (x.held[i]) {
		h.add(*x.held[i]);
		h.add(x.p.destroy(x.held[i])).add(x.p.destroy(x.held[i]));
		x.held[i] = nullptr;
	} else {
		x.held[i] = r.chance(1, 3) ? x.p.create_for_overwrite() : x.p.create();
		h.add(x.held[i] != nullptr);
		if (x.held[i]) {
			h.add((u64)((char *)x.held[i] - (char *)&x.p));
			*x.held[i] = (u32)r.next();
		}
	}
})
struct TsPool {
	cpputil::ThreadSafePool<u32, 4> p;
};
COMP("ThreadSafePool", Plain, TsPool, {
	unsigned i = r.below(6);
	switch (r.below(6)) {
		case 0 ... 3:
			if (auto s = x.p.create()) {
				x.p[*s] = (u32)r.next();
				h.add(*s);
			} else
				h.add(99);
			break;
		case 4:
			h.add(x.p.destroy(i));
			break;
		default:
			if (r.chance(1, 8))
				x.p.clear();
	}
	SOMETIMES for (i = 0; i < 5; i++) {
		h.add(x.p.is_used(i));
		if (x.p.is_used(i))
			h.add(x.p[i]);
	}
})
struct Arena {
	std::array<u8, 64> mem{};
	MonotonicAllocator a{mem};
};
COMP("MonotonicAllocator", NoCopy, Arena, {
	if (r.chance(1, 8))
		x.a.reset();
	auto *p = x.a.allocate(r.below(20));
	h.add(p ? (u64)(p - x.mem.data()) : 999);
	SOMETIMES h.add(x.a.free_space()).add(x.a.total_size());
})

// ---------------------------------------------------------------- strings and callables
using T_StaticString = StaticString<9>;
COMP("StaticString", Plain, T_StaticString, {
	char b[16];
	unsigned n = r.below(14);
	for (unsigned i = 0; i < n; i++)
		b[i] = 'a' + r.below(26);
	b[n] = 0;
	switch (r.below(5)) {
		case 0:
			x.copy(b);
			break;
		case 1:
			x.copy(std::string_view{b, n});
			break;
		case 2:
			x = StaticString<9>{b};
			break;
		case 3: {
			StaticString<12> o{std::string_view{b, n}};
			x.copy(o);
			h.add(x == o);
			break;
		}
		default:
			if (r.chance(1, 3))
				x.clear();
	}
	SOMETIMES h.add(std::string_view{x}).add(x.length()).add(x.available()).add(x.is_equal(b));
	for (char c : x)
		h.add(c);
})

struct Counting {
	u32 a, n;
	u32 operator()(u32 v) {
		return (n++) * 1000 + a + v;
	}
};
struct Fun {
	FunctionSized<16, u32(u32)> f{Counting{1, 0}};
};
COMP("FunctionSized", Plain, Fun, {
	switch (r.below(6)) {
		case 0:
			x.f = Counting{(u32)r.below(100), 0};
			break;
		case 1: {
			u32 k = r.below(50);
			x.f = [k](u32 v) { return k * v; };
			break;
		}
		case 2: {
			auto g = x.f;
			h.add(g(3));
			x.f = g;
			break;
		}
		default:
			h.add(x.f(r.below(10)));
	}
	SOMETIMES h.add((bool)x.f);
})
inline thread_local u64 callback_seen = 0;
struct Cb {
	Callback c{[] { callback_seen += 3; }};
};
COMP("Callback", Plain, Cb, {
	u64 before = callback_seen;
	u32 k = r.below(100);
	if (r.chance(1, 3))
		x.c = [k] { callback_seen += k; };
	x.c();
	h.add(callback_seen - before);
})

// ---------------------------------------------------------------- streams, storage, messages
struct Stream {
	std::array<u64, 2> sent{};
	DoubleBufferStream<u8, 6> s{[this](std::span<u8> b) {
		for (auto c : b)
			sent[0] = mix(sent[0] ^ c), sent[1]++;
		return true;
	}};
};
COMP("DoubleBufferStream", NoCopy, Stream, {
	u8 b[8];
	for (auto &c : b)
		c = (u8)r.next();
	if (r.chance(2, 3))
		h.add(x.s.transmit(std::span<u8>{b, r.below(8)}));
	else
		x.s.tx_done_callback();
	h.add(x.sent[0]).add(x.sent[1]);
})

struct FlashData {
	u32 v;
	u32 c;
	bool validate() const {
		return c == (u32)mix(v);
	}
};
struct Flash {
	using data_t = FlashData;
	static constexpr size_t NumCells = 5;
	static constexpr size_t cell_nr_ = 5;
	std::array<FlashData, 5> cell;
	Flash() {
		erase();
	}
	bool read(data_t *d, size_t c) {
		*d = cell[c];
		return true;
	}
	bool read(data_t &d, size_t c) {
		d = cell[c];
		return true;
	}
	bool write(const data_t *d, size_t c) {
		cell[c] = *d;
		return true;
	}
	bool write(const data_t &d, size_t c) {
		cell[c] = d;
		return true;
	}
	bool is_writeable(size_t c) {
		return c < 5 && cell[c].v == ~0u && cell[c].c == ~0u;
	}
	bool erase() {
		for (auto &c : cell)
			c = {~0u, ~0u};
		return true;
	}
};
template<class W>
inline void wear_step(W &x, Rng &r, Hash &h) {
	u32 v = (u32)r.next();
	if (r.chance(1, 2))
		h.add(x.write(FlashData{v, (u32)mix(v)}));
	FlashData d{1, 1};
	if (x.read(d))
		h.add(d.v);
}
using T_WearLeveler = WearLeveler<Flash>;
COMP("WearLeveler", Plain, T_WearLeveler, { wear_step(x, r, h); })
using T_WearLevel = WearLevel<Flash>;
COMP("WearLevel", Plain, T_WearLevel, { wear_step(x, r, h); })

struct Writer {
	std::array<u8, 120> mem{};
	CompactBinaryWriter<u16> w{mem};
};
COMP("CompactBinaryWriter", NoCopy, Writer, {
	u8 b[9];
	for (auto &c : b)
		c = (u8)r.next();
	switch (r.below(5)) {
		case 0:
			x.w.field((u16)r.next(), (u32)r.next());
			break;
		case 1:
			x.w.raw((u16)r.next(), std::span<const u8>{b, r.below(9)});
			break;
		case 2:
			x.w.begin_object((u16)r.next());
			break;
		default:
			x.w.end_object();
	}
	SOMETIMES h.add(x.w.size());
	for (auto c : x.mem)
		h.add(c);
})

struct None {};
COMP("CompactBinarySerializer+Parser", Plain, None, {
	std::array<u8, 64> out{};
	u32 a = (u32)r.next(), b = (u32)r.next();
	auto describe = [&](auto &s) {
		s.field((u16)1, a);
		s.object((u16)2, [&](auto &t) { t.field((u16)3, (u16)b); });
	};
	using S = CompactBinarySerializer<u16>;
	size_t n = S::serialize(std::span<u8>{out}.first(r.below(65)), describe);
	h.add(n).add(S::measure(describe));
	u64 sum = 0;
	auto sink = [&sum](std::span<const u8> bytes) {
		for (auto c : bytes)
			sum = mix(sum ^ c);
	};
	h.add(S::stream(describe, sink)).add(sum);
	for (auto c : out)
		h.add(c);
	CompactBinaryParser<u16> p{std::span<const u8>{out}};
	h.add(p.get<u32>(1).value_or(5));
	CompactBinaryParser<u16> q{p.get_node(2)};
	h.add(q.get<u16>(3).value_or(5)).add(p.get_size(2));
})

// ---------------------------------------------------------------- debouncers, detectors, encoders
template<class D>
inline void toggler_hash(D &x, Rng &r, Hash &h) {
	if (r.chance(1, 2))
		h.add(x.is_just_pressed());
	if (r.chance(1, 2))
		h.add(x.is_just_released());
	if (r.chance(1, 20))
		x.clear_events();
	if (r.chance(1, 40))
		x.reset();
	SOMETIMES h.add(x.is_high()).add(x.is_pressed());
}
COMP("Toggler", Plain, Toggler, {
	x.register_state(r.chance(1, 2));
	toggler_hash(x, r, h);
})
COMP("TogglerCompact", Plain, TogglerCompact, {
	x.register_state(r.chance(1, 2));
	toggler_hash(x, r, h);
})
COMP("TogglerCounter", Plain, TogglerCounter, {
	x.register_state((unsigned)r.chance(1, 3));
	toggler_hash(x, r, h);
	SOMETIMES h.add(x.steady_state_count());
})
using T_Debouncer = Debouncer<1, 0xFE, 0xF>;
COMP("Debouncer", Plain, T_Debouncer, {
	x.register_state((unsigned)r.chance(1, 3));
	toggler_hash(x, r, h);
})
using T_DebouncerCounter = DebouncerCounter<1, 0xFE, 0xF, true>;
COMP("DebouncerCounter", Plain, T_DebouncerCounter, {
	x.register_state((unsigned)r.chance(1, 3));
	toggler_hash(x, r, h);
	h.add(x.steady_state_ctr);
})
COMP("EdgeStateDetector", Plain, EdgeStateDetector, {
	x.update(r.chance(1, 2));
	SOMETIMES h.add(x.changed()).add(x.went_high()).add(x.went_low()).add(x.staying_high()).add(x.staying_low());
})
COMP("RisingEdgeDetector", Plain, RisingEdgeDetector, { h.add(x.update(r.chance(1, 2))); })
COMP("FallingEdgeDetector", Plain, FallingEdgeDetector, { h.add(x.update(r.chance(1, 2))); })
COMP("ChangeDetector", Plain, ChangeDetector, {
	x.update(r.chance(1, 2));
	if (r.chance(1, 2))
		h.add(x.changed());
})
COMP("SchmittTrigger", Plain, cpputil::SchmittTrigger, {
	x.process(unit(r));
	toggler_hash(x, r, h);
})
COMP("RisingSchmittTrigger", Plain, cpputil::RisingSchmittTrigger, { h.add(x.update(unit(r))); })
COMP("QuadratureEncoder", Plain, QuadratureEncoder<false>, { h.add(x.get_motion(r.chance(1, 2), r.chance(1, 2))); })
COMP("QuadratureEncoder inverted", Plain, QuadratureEncoder<true>, {
	h.add(x.get_motion(r.chance(1, 2), r.chance(1, 2)));
})
COMP("RotaryMotion", Plain, RotaryMotion, {
	RotaryMotion o{.motion = (int32_t)r.below(7) - 3};
	if (r.chance(1, 2))
		x.add_motion(o);
	else
		x.transfer_motion(o);
	h.add(o.motion).add(x.abs_pos);
	if (r.chance(1, 3))
		h.add(x.use_motion());
})

// ---------------------------------------------------------------- time
struct Poll {
	PollEvent<u32> p{7};
	u32 now = 0;
};
COMP("PollEvent", Plain, Poll, {
	x.now += r.below(6);
	int n = 0;
	x.p.poll(x.now, [&] { n++; });
	h.add(n);
})
struct Change {
	PollChange p{5};
	unsigned now = 0;
};
COMP("PollChange", Plain, Change, {
	x.now += r.below(4);
	if (r.chance(1, 10))
		x.p.force_next_poll();
	if (r.chance(1, 2))
		x.p.poll(x.now, r.chance(1, 2));
	else {
		int n = 0;
		bool v = r.chance(1, 2);
		x.p.poll(x.now, [&] {
			n++;
			return v;
		});
		h.add(n);
	}
	h.add(x.p.take_change());
})

// ---------------------------------------------------------------- filters, parameters, analysers
#define FILTER_COMP(NAME, TYPE)                                                                                        \
	COMP(NAME, Plain, TYPE, {                                                                                          \
		h.addf(x.add_val(r.below(4096)));                                                                              \
		if (r.chance(1, 2))                                                                                            \
			h.addf(x.val());                                                                                           \
	})
using T_MovingAverage = MovingAverage<8>;
FILTER_COMP("MovingAverage", T_MovingAverage)
using T_Oversampler = Oversampler<4>;
FILTER_COMP("Oversampler", T_Oversampler)
using T_SmoothOversampler = SmoothOversampler<4>;
FILTER_COMP("SmoothOversampler", T_SmoothOversampler)
FILTER_COMP("NoFilter", NoFilter<>)
using T_Quad = QuadraticOnePoleLp<6000>;
FILTER_COMP("QuadraticOnePoleLp", T_Quad)
using T_Hyst = HysteresisFilter<50, 2>;
FILTER_COMP("HysteresisFilter", T_Hyst)
using T_Casc = CascadingFilter<float, T_MovingAverage, T_Hyst>;
FILTER_COMP("CascadingFilter", T_Casc)
COMP("ResizingOversampler", Plain, ResizingOversampler, {
	if (r.chance(1, 6))
		x.set_size(1 + r.below(6));
	if (r.chance(1, 20))
		x.reset();
	h.addf(x.add_val(fl(r)));
	SOMETIMES h.addf(x.val());
})
struct Filtered {
	FilteredInterpArray<3, MovingAverage<4, float>> f;
};
COMP("FilteredInterpArray", Plain, Filtered, {
	if (r.chance(1, 3)) {
		x.f.mark_new_data_ready();
		x.f.add_new_readings([&](unsigned i) { return (float)(r.below(100) + i); });
	}
	if (r.chance(1, 20))
		x.f.set_num_updates(1 + r.below(9));
	x.f.get_interp_values([&](unsigned i, float v) { h.add(i).addf(v); });
})
using T_InterpParam = InterpParam<float, 5>;
COMP("InterpParam", Plain, T_InterpParam, {
	if (r.chance(1, 3))
		x.set_new_value(fl(r));
	h.addf(x.next());
	SOMETIMES h.addf(x.get_step_size());
})
COMP("InterpParamVar", Plain, InterpParamVar<float>, {
	if (r.chance(1, 3))
		x.set_new_value(fl(r), 1 + r.below(7));
	h.addf(x.next());
	SOMETIMES h.addf(x.get_step_size());
	if (r.chance(1, 5))
		h.addf(x.snap_to_target());
})
COMP("InterpParamVariable", Plain, InterpParamVariable<float>, {
	if (r.chance(1, 5))
		x.set_num_updates(1 + r.below(7));
	if (r.chance(1, 3))
		x.set_new_value(fl(r));
	h.addf(x.next());
	SOMETIMES h.addf(x.get_step_size()).add(x.get_num_updates());
})
using T_Analyzed = AnalyzedSignal<40>;
COMP("AnalyzedSignal", Plain, T_Analyzed, {
	x.update(fl(r));
	if (r.chance(1, 9))
		x.reset_to(fl(r));
	h.addf(x.min).addf(x.max).addf(x.avg).addf(x.iir);
})
COMP("PeakMeter", Plain, PeakMeter<int>, {
	x.update((int)r.below(200) - 100);
	if (r.chance(1, 9))
		x.reset();
	h.add(x.min).add(x.max);
})
using T_Latched = LatchedParam<int, 4, 2>;
COMP("LatchedParam", Plain, T_Latched, {
	if (r.chance(1, 9))
		x = (int)r.below(10);
	h.add(x.store_changed((int)r.below(10)));
	if (r.chance(1, 2))
		h.add(x.did_change());
	SOMETIMES h.add((int)x);
})
COMP("Parameter", Plain, Parameter<int>, {
	if (r.chance(1, 2))
		x.setValue((int)r.below(3));
	if (r.chance(1, 2))
		h.add(x.isChanged());
	SOMETIMES h.add(x.getValue());
})
struct Refd {
	int v = 0;
	RefParameter<int> p{v};
};
COMP("RefParameter", NoCopy, Refd, {
	if (r.chance(1, 2))
		x.p.setValue((int)r.below(3));
	if (r.chance(1, 2))
		h.add(x.p.isChanged());
	SOMETIMES h.add(x.p.getValue()).add(x.v);
})
COMP("Calibrator", Plain, Calibrator, {
	if (r.chance(1, 3))
		x.calibrate_chan({unit(r), 2 + unit(r)}, {unit(r), 3 + unit(r)});
	SOMETIMES h.addf(x.adjust(fl(r))).addf(x.reverse_calibrate(fl(r))).addf(x.slope()).addf(x.offset());
})
COMP("VoctCalibrator", Plain, VoctCalibrator<>, {
	if (r.chance(1, 9))
		x.reset();
	x.record_measurement((VoctCalibrator<>::Note)r.below(12), fl(r));
	SOMETIMES h.addf(x.offset()).addf(x.slope());
})

// ---------------------------------------------------------------- oscillators, LEDs
using T_Tri = TriangleOscillator<48000>;
COMP("TriangleOscillator", Plain, T_Tri, {
	if (r.chance(1, 5))
		x.set_frequency((u32)(1 + r.below(20000)));
	h.add(x.process()).addf(x.process_float());
	SOMETIMES h.add(x.val());
})
using T_Ramp = PhaseAccum<48000>;
COMP("PhaseAccum", Plain, T_Ramp, {
	if (r.chance(1, 5))
		x.set_frequency((u32)(1 + r.below(20000)));
	h.add(x.process()).addf(x.process_float());
	SOMETIMES h.add(x.val());
})
using T_Sine = SineOscillator<48000>;
COMP("SineOscillator", Plain, T_Sine, {
	if (r.chance(1, 5))
		x.set_frequency((u32)(1 + r.below(20000)));
	h.add(x.process()).addf(x.process_bipolar()).addf(x.process_unipolar());
})
using T_Down = DownCounter<1000>;
COMP("DownCounter", Plain, T_Down, {
	if (r.chance(1, 5))
		x.set_period_ms(1 + r.below(40));
	if (r.chance(1, 9))
		x.reset();
	x.update();
	SOMETIMES h.add(x.val());
})
COMP("OneShot", Plain, OneShot, {
	if (r.chance(1, 9))
		x.start(unit(r) / 1000.f);
	h.add(x.update());
	if (r.chance(1, 30))
		x.stop();
})
struct LedOut {
	u8 *to;
	void set(u8 v) const {
		*to = v;
	}
};
struct Led {
	std::array<u8, 3> out{};
	RgbLed<LedOut, 1000> led{LedOut{&out[0]}, LedOut{&out[1]}, LedOut{&out[2]}};
};
COMP("RgbLed", NoCopy, Led, {
	Color c{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	switch (r.below(12)) {
		case 0:
			x.led.set_base_color(c);
			break;
		case 1:
			x.led.flash_once_ms(c, (float)(1 + r.below(20)));
			break;
		case 2:
			x.led.fade_once_ms(c, (float)(1 + r.below(20)));
			break;
		case 3:
			x.led.breathe(c, (float)(1 + r.below(20)));
			break;
		case 4:
			x.led.reset_breathe();
			break;
		case 5:
			x.led.set_color_calibration({(u8)r.next(), (u8)r.next(), (u8)r.next()});
			break;
		default:;
	}
	x.led.update_animation();
	for (auto v : x.out)
		h.add(v);
})

// ---------------------------------------------------------------- tables and pure helpers
using T_Interp = InterpArray<float, 9>;
struct Table {
	T_Interp t;
	Table() {
		for (unsigned i = 0; i < 9; i++)
			t[i] = (float)i;
	}
};
COMP("InterpArray", Plain, Table, {
	if (r.chance(1, 3))
		x.t.set(r.below(9), fl(r));
	h.addf(x.t.interp_wrap(unit(r))).addf(x.t.interp(unit(r))).addf(x.t.closest(unit(r))).addf(x.t.closest_wrap(unit(r)));
	h.addf(x.t.interp_by_index_wrap((float)r.below(20)));
})
struct LookupRange {
	static constexpr float min = -1.f, max = 1.f;
};
struct Look {
	LookupTable<5> t = LookupTable<5>::generate<LookupRange>([](auto v) { return v * v; });
};
COMP("LookupTable", Plain, Look, { h.addf(x.t.lookup(fl(r))).addf(x.t(unit(r))); })
using T_Partition = Partition<3, 12, unsigned>;
COMP("Partition", Plain, T_Partition, {
	unsigned v[12];
	unsigned n = r.below(13);
	for (unsigned i = 0; i < n; i++)
		v[i] = r.below(50);
	unsigned init[3]{(unsigned)r.below(9), (unsigned)r.below(9), (unsigned)r.below(9)};
	if (r.chance(1, 2))
		x.calc_partitions(std::span<unsigned>{v, n});
	else
		x.calc_partitions(std::span<unsigned>{v, n}, std::span<const unsigned>{init});
	for (auto &p : x.parts)
		for (auto e : p)
			h.add(e).add(p.size());
})
COMP("int_to_str", Plain, None, {
	char b[14];
	memset(b, 'x', sizeof b);
	int32_t v = r.anyint<int32_t>();
	std::span<char> s{b, r.below(14)};
	if (r.chance(1, 2))
		h.add(int_to_str(v, s));
	else
		int_to_str_chop(v, s);
	for (char c : b)
		h.add(c);
	h.add(num_digits(v));
})
inline thread_local char printed[128];
inline thread_local unsigned printed_n = 0;
inline void print_char(const char c) {
	if (printed_n < sizeof printed)
		printed[printed_n++] = c;
}
COMP("print", Plain, None, {
	printed_n = 0;
	print<print_char>("a", r.anyint<int32_t>(), Hex{r.anyint<u32>()}, std::string_view{"bc"});
	h.add(std::string_view{printed, printed_n});
})
COMP("math", Plain, None, {
	float f = fl(r);
	h.addf(MathTools::sin(f)).addf(MathTools::cos(f)).addf(MathTools::pow2(f)).addf(MathTools::tan(f));
	h.addf(MathTools::interpolate(f, 1.f, 0.3f)).addf(MathTools::faster_sine(unit(r)));
	u32 a = r.anyint<u32>();
	h.add(MathTools::log2_floor(a)).add(MathTools::next_power_of_2(a)).add(MathTools::swap_bytes32(a));
	h.add(MathTools::wrap<int>((int)r.below(100) - 50, -3, 9)).add(MathTools::signed_saturate((int32_t)a, 7));
	h.addf(MathTools::audioFreqToNorm(100.f + 100.f * unit(r))).addf(MathTools::setPitchMultiple(f / 4.f));
	h.add(MathTools::plateau<60>((int)r.below(200) - 100));
})
COMP("AudioFrame", Plain, None, {
	using F = AudioFrame<int32_t, 24>;
	F f{};
	f.set_scaled_output(0, fl(r));
	f.set_scaled_output(1, fl(r) / 5.f);
	h.add(f.chan[0]).add(f.chan[1]).addf(f.scale_input_chan(0)).add(f.sign_extend_chan(1));
})
COMP("colours", Plain, None, {
	Color a{(u8)r.next(), (u8)r.next(), (u8)r.next()}, b{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	Color c = a.blend(b, unit(r)).combine(b).adjust({(u8)r.next(), 128, 3});
	Color d = HSVColor{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	h.add(c.red()).add(c.green()).add(c.blue()).add(d.Rgb565()).add(d.red()).add(a == b);
	h.add(Color::blend(a.Rgb565(), b.Rgb565(), unit(r)));
})
COMP("text compare", Plain, None, {
	char b[2][6];
	for (auto &s : b)
		for (auto &c : s)
			c = "aAbB"[r.below(4)];
	std::string_view s{b[0], r.below(6)}, t{b[1], r.below(6)};
	h.add(less_ci(s, t)).add(equal_ci(s, t));
})
COMP("zip, countzip", Plain, None, {
	std::array<u32, 5> a;
	std::array<u16, 4> b;
	for (auto &e : a)
		e = (u32)r.next();
	for (auto &e : b)
		e = (u16)r.next();
	for (auto [p, q] : zip(a, b))
		p += q;
	for (auto [i, p, q] : countzip(a, b))
		h.add(i).add(p).add(q);
	for (auto [i, p] : enumerate(a))
		h.add(i).add(p);
})
struct Pt {
	int x, y;
};
COMP("geometry", Plain, None, {
	auto c = [&] { return (int)r.below(20) - 10; };
	RectC a{c(), c(), c() + 12, c() + 12}, b{c(), c(), c() + 12, c() + 12};
	Pt p[5]{{c(), c()}, {c(), c()}, {c(), c()}, {c(), c()}, {c(), c()}};
	h.add(a.is_intersecting(b)).add(is_poly_concave<Pt>(std::span<const Pt>{p})).add(a.center_x());
})
COMP("text search and replace", Heap, None, {
	std::string s;
	for (unsigned n = r.below(20); n; n--)
		s += "ab ,"[r.below(4)];
	std::vector<std::string> t;
	tokenize_string(s, t, ",");
	for (auto &e : t)
		h.add(std::string_view{e});
	h.add(contains_word(s, "ab")).add(std::string_view{ReplaceString{s}.replace_all("a", "bb").str});
	VersionUtil::Version v{std::string_view{s}};
	h.add(v.major).add(v.minor).add(v.is_normal);
	StaticString<5> q{s};
	h.add(std::string_view{std::string(q)});
})
} // namespace comps
