// C40: a call takes a bounded number of steps, whatever went before and whatever the numbers say.
// Every basic block the compiler left is counted (-fsanitize-coverage=trace-pc-guard) between begin and end of a call.
#include "comps.hh"
#include <string>
#include <vector>
using namespace vf;
using namespace comps;

#define NOCOUNT __attribute__((no_sanitize("coverage")))
static bool counting = false;
static u64 steps = 0;
static constexpr u64 Runaway = 400'000'000;
extern "C" NOCOUNT void __sanitizer_cov_trace_pc_guard(uint32_t *) {
	if (counting && ++steps > Runaway)
		__builtin_trap(); // reported as the death of this case
}
extern "C" NOCOUNT void __sanitizer_cov_trace_pc_guard_init(uint32_t *, uint32_t *) {
}

static u64 worst = 0;
static const char *worst_call = "";

// the call is made, its steps are counted and compared with the bound
template<class F>
NOCOUNT static void call(const char *name, u64 bound, F f) {
	steps = 0;
	counting = true;
	f();
	counting = false;
	u64 n = steps;
	VF_COVER("calls_measured");
	VF_COVERN("steps_counted", n);
	if (n > worst)
		worst = n, worst_call = name;
	VF_CHECK(n <= bound, "unbounded-work", "%s took %llu steps, expected at most %llu", name, (unsigned long long)n, (unsigned long long)bound);
}
template<class T>
static inline void keep(T const &v) {
	asm volatile("" : : "r"(&v) : "memory");
}

// ---------------------------------------------------------------- how long the object has been used does not matter
// What a step of a fresh object costs is measured over many short lives; then one long life must not cost more.
static u64 cost_of_step(Comp &c, Rng &r) {
	steps = 0;
	counting = true;
	u64 h = c.step(r);
	counting = false;
	keep(h);
	return steps;
}
VF_SUITE(long_lives, 400, 12000) {
	const Kind &k = kinds()[idx % kinds().size()];
	void *m = aligned_alloc(64, (k.size + 127) / 64 * 64);
	static std::map<const char *, u64> fresh;
	u64 &top = fresh[k.name];
	if (!top) {
		Rng r0(4711);
		for (unsigned life = 0; life < 80; life++) {
			Rng r(r0.next());
			Comp *c = k.make(m);
			for (unsigned i = 0; i < 60; i++)
				top = std::max(top, cost_of_step(*c, r));
			c->~Comp();
		}
	}
	u64 most = 0;
	unsigned n = 20000 + (unsigned)rng.below(20000), at = 0;
	Rng r(rng.next());
	Comp *c = k.make(m);
	for (unsigned i = 0; i < n; i++) {
		u64 s = cost_of_step(*c, r);
		if (s > most)
			most = s, at = i;
	}
	c->~Comp();
	free(m);
	VF_COVERN("steps_of_long_lives", n);
	VF_CHECK(most <= 3 * top + 300, "work-grows-with-use", "%s: step %u of a long history took %llu steps, those of fresh objects at most %llu",
			 k.name, at, (unsigned long long)most, (unsigned long long)top);
	Hash h;
	h.add(idx % kinds().size()).add(n).add(most);
	nontrivial(h);
	if (want_sample())
		sample(fmt("%s: %u steps in one life, at most %llu blocks in one (%llu when fresh)", k.name, n, (unsigned long long)most,
				   (unsigned long long)top));
}

// ---------------------------------------------------------------- what is held and the capacity
static constexpr u64 K = 250; // operations at one place
template<size_t N>
static u64 linear(u64 per = 120) {
	return K + per * N;
}

template<class Q>
static void queue_ops(Q &q, Rng &r, size_t n, size_t cap) {
	u32 out = 0;
	for (size_t i = 0; i < n; i++) {
		switch (r.below(12)) {
			case 0 ... 3:
				call("put", K, [&] { keep(q.put((u32)i)); });
				break;
			case 4:
				call("get", K, [&] { keep(q.get()); });
				break;
			case 5:
				call("get_move", K, [&] { keep(q.get_move(out)); });
				break;
			case 6:
				call("get_or_default", K, [&] { keep(q.get_or_default()); });
				break;
			case 7:
				call("remove_first", K, [&] { q.remove_first(); });
				break;
			case 8:
				if (r.chance(1, 50))
					call("reset", K, [&] { q.reset(); });
				else
					call("set_read_offset", K, [&] { q.set_read_offset(r.below(cap + 1)); });
				break;
			case 9: {
				// far ahead: near the wrap-around of the position type
				if (r.chance(1, 30)) {
					size_t p = (size_t)0 - r.below(2 * cap);
					call("set_write_pos", K, [&] { q.set_write_pos(p); });
					call("set_read_pos", K, [&] { q.set_read_pos(p); });
					VF_COVER("queue_positions_wrapped");
				}
				break;
			}
			case 10: // filled up and emptied
				if (r.chance(1, 40)) {
					while (!q.full())
						q.put(1);
					VF_COVER("queues_full");
					call("put when full", K, [&] { keep(q.put((u32)i)); });
					call("get", K, [&] { keep(q.get()); });
				}
				break;
			default:
				call("num_filled", K, [&] { keep(q.num_filled()); });
				call("num_free", K, [&] { keep(q.num_free()); });
				call("full", K, [&] { keep(q.full()); });
				call("empty", K, [&] { keep(q.empty()); });
		}
	}
}
template<class B>
static void ring_ops(B &b, Rng &r, size_t n) {
	for (size_t i = 0; i < n; i++) {
		if (r.chance(1, 100))
			while (!b.full())
				b.put(3);
		switch (r.below(4)) {
			case 0:
				call("ring put", K, [&] { b.put((u32)i); });
				break;
			case 1:
				call("ring get", K, [&] { keep(b.get()); });
				break;
			case 2:
				call("ring remove_first", K, [&] { b.remove_first(); });
				break;
			default:
				call("ring count", K, [&] { keep(b.count()); });
				call("ring full", K, [&] { keep(b.full()); });
				call("ring num_filled", K, [&] { keep(b.num_filled()); });
				if (r.chance(1, 200))
					call("ring reset", K, [&] { b.reset(); });
		}
	}
}

template<size_t N>
static void capacity_case(Rng &r) {
	constexpr size_t P = std::bit_ceil(N);
	const size_t n = 200;
	const u64 L = linear<N>();
	switch (r.below(8)) {
		case 0: {
			auto q = std::make_unique<LockFreeFifoSpsc<u32, P>>();
			queue_ops(*q, r, n, P);
			LockFreeFifoSpscDyn<u32> d(N);
			size_t c = r.chance(1, 2) ? P : N;
			if (c != N)
				d.resize(c);
			queue_ops(d, r, n, c);
			break;
		}
		case 1: {
			auto b = std::make_unique<CircularBuffer<u32, P>>();
			ring_ops(*b, r, n);
			call("ring peek", K, [&] { keep(b->peek(r.next())); });
			call("ring fill_buffer", L * 2, [&] { b->fill_buffer(7); });
			auto o = std::make_unique<CircularBufferOpt<u32, P>>();
			ring_ops(*o, r, n);
			call("ring (opt) fill_buffer", L * 2, [&] { o->fill_buffer(7); });
			auto s = std::make_unique<CircularStack<u32, (int)N>>();
			for (size_t i = 0; i < n; i++) {
				if (r.chance(1, 100))
					for (size_t k = 0; k < N + 1; k++)
						s->push_back(1);
				switch (r.below(4)) {
					case 0:
						call("stack push_back", K, [&] { s->push_back((u32)i); });
						break;
					case 1:
						call("stack pop_back", K, [&] { keep(s->pop_back()); });
						break;
					case 2:
						call("stack pop_back_or_zero", K, [&] { keep(s->pop_back_or_zero()); });
						break;
					default:
						call("stack size, empty, back", 3 * K, [&] { keep(s->size()), keep(s->empty()), keep(s->back()); });
				}
			}
			call("stack clear", L, [&] { s->clear(); });
			break;
		}
		case 2: {
			auto v = std::make_unique<FixedVector<u32, N>>();
			for (size_t i = 0; i < n; i++) {
				if (r.chance(1, 60))
					v->resize(N);
				unsigned at = (unsigned)r.below(v->size() + 2);
				switch (r.below(8)) {
					case 0:
						call("vector push_back", K, [&] { keep(v->push_back((u32)i)); });
						break;
					case 1:
						call("vector pop_back", K, [&] { keep(v->pop_back()); });
						break;
					case 2:
						call("vector insert", L, [&] { v->insert(at, (u32)i); });
						break;
					case 3:
						call("vector erase", L, [&] { v->erase(at); });
						break;
					case 4: {
						size_t to = r.below(N + 3);
						call("vector resize", L, [&] { keep(v->resize(to)); });
						break;
					}
					case 5:
						call("vector push_back_for_overwrite", K, [&] { keep(v->push_back_for_overwrite()); });
						break;
					case 6: {
						size_t to = r.below(N + 3);
						call("vector resize_for_overwrite", K, [&] { keep(v->resize_for_overwrite(to)); });
						break;
					}
					default:
						call("vector size, back, available", 3 * K, [&] { keep(v->size()), keep(v->back()), keep(v->available()); });
				}
			}
			call("vector clear", L, [&] { v->clear(); });
			break;
		}
		case 3: {
			auto m = std::make_unique<SeqMap<u32, u32, N>>();
			auto q = std::make_unique<SequentialMap<u32, u32, N>>();
			for (u32 i = 0; i < N; i++) { // unsearched: filled
				m->keys[i] = i, m->vals[i] = i;
				keep(q->data.push_back({i, i}));
			}
			m->sz = N;
			if (N <= 4096 && r.chance(1, 3)) // some of the oldest replaced
				for (size_t i = r.below(N); i; i--)
					keep(m->overwrite((u32)(i + 4 * N), 2));
			for (size_t i = 0; i < (N > 9999 ? 12u : 60u); i++) {
				u32 k = (u32)r.below(N * 2);
				switch (r.below(5)) {
					case 0:
						call("map overwrite", L, [&] { keep(m->overwrite(k, 1)); });
						call("map insert", L, [&] { keep(q->insert({k, 1})); });
						break;
					case 1:
						call("map get", L, [&] { keep(m->get(k)); });
						call("map find", L, [&] { keep(q->find(k)); });
						break;
					case 2:
						call("map key_exists", L, [&] { keep(m->key_exists(k)); });
						call("map contains", L, [&] { keep(q->contains(k)); });
						break;
					case 3:
						call("map remove", L, [&] { keep(m->remove(k)); });
						call("map erase", L, [&] { keep(q->erase(k)); });
						break;
					default:
						call("map remove_last", L, [&] { m->remove_last(); });
						call("map operator[]", L, [&] { keep((*q)[k]); });
				}
			}
			call("map size", K, [&] { keep(m->size()), keep(q->size()), keep(q->empty()), keep(q->is_full()); });
			break;
		}
		case 4: {
			auto p = std::make_unique<cpputil::Pool<u32, N>>();
			auto t = std::make_unique<cpputil::ThreadSafePool<u32, N>>();
			std::vector<u32 *> have;
			u32 n0 = (u32)r.below(N + 1);
			for (u32 i = 0; i < n0; i++)
				p->entries[i].used = true;
			for (size_t i = 0; i < (N > 9999 ? 8u : 40u); i++) {
				if (r.chance(1, 2)) {
					u32 *x = nullptr;
					call("pool create", L, [&] { x = p->create(); });
					if (x)
						have.push_back(x);
					call("safe pool create", L, [&] { keep(t->create()); });
				} else {
					u32 *x = have.empty() ? nullptr : have.back();
					call("pool destroy", L, [&] { keep(p->destroy(x)); });
					size_t at = r.below(N + 2);
					call("safe pool destroy", K, [&] { keep(t->destroy(at)); });
					if (at < N)
						call("safe pool is_used", K, [&] { keep(t->is_used(at)); });
				}
			}
			call("safe pool clear", L, [&] { t->clear(); });
			break;
		}
		case 5: {
			auto i = std::make_unique<InterpArray<float, N>>();
			for (size_t k = 0; k < N; k++)
				(*i)[k] = (float)k;
			float x = (float)r.unit();
			call("table interp, closest", 2 * K, [&] { keep(i->interp(x)), keep(i->closest(x)); });
			call("table interp_wrap, closest_wrap", 2 * K, [&] { keep(i->interp_wrap(x)), keep(i->closest_wrap(x)); });
			call("table interp_wrap of negative and huge positions", 2 * K,
				 [&] { keep(i->interp_wrap(-x * 1e6f)), keep(i->interp_by_index_wrap(6e9f + x * 1e30f)), keep(i->closest_wrap(-1e20f)); });
			std::array<float, N> a{};
			LookupTable<N> t(-1.f, 1.f, a);
			float y = r.anyfloat(-20, 20);
			call("table lookup", K, [&] { keep(t.lookup(y)); });
			break;
		}
		case 6: {
			auto mem = std::make_unique<std::array<u8, N>>();
			MonotonicAllocator a{*mem};
			InputBuffer<u32, N> in;
			OutputBuffer<u32, N> out;
			for (size_t i = 0; i < n; i++) {
				size_t want = r.chance(1, 3) ? r.next() : r.below(N / 8 + 2);
				call("arena allocate", K, [&] { keep(a.allocate(want)); });
				call("arena free_space", K, [&] { keep(a.free_space()); });
				call("input buffer put", K, [&] { in.put((u32)i); });
				call("output buffer get", K, [&] { keep(out.get()); });
				if (r.chance(1, 30))
					call("arena reset", K, [&] { a.reset(); });
			}
			std::array<u32, N> store{};
			CircularBufferAccess<std::array<u32, N>> acc{store};
			u32 b[64];
			for (size_t i = 0; i < 20; i++) {
				acc.wr_pos(r.below(N)), acc.rd_pos(r.below(N));
				size_t len = r.below(std::min<size_t>(64, N) + 1);
				std::span<u32> s{b, len};
				size_t mark = r.below(N);
				call("block read", K + 120 * len, [&] { keep(acc.read(s)); });
				call("block read_reverse", K + 120 * len, [&] { keep(acc.read_reverse(s)); });
				call("block write", K + 120 * len, [&] { keep(acc.write(s)); });
				call("block write_reverse", K + 120 * len, [&] { keep(acc.write_reverse(s)); });
				call("block read_check_crossed", K + 120 * len, [&] { keep(acc.read_check_crossed(s, mark)); });
				call("block write_check_crossed", K + 120 * len, [&] { keep(acc.write_check_crossed(s, mark)); });
			}
			auto cb = std::make_unique<CircularBufferBlock<u32, P>>();
			for (size_t i = 0; i < 20; i++) {
				size_t len = r.below(std::min<size_t>(64, P) + 1);
				unsigned at = (unsigned)r.below(P);
				call("block buffer write", K + 120 * len, [&] { cb->write(std::span<const u32>{b, len}, at); });
			}
			break;
		}
		default: {
			MovingAverage<P, unsigned, 12> ma;
			Oversampler<P, unsigned, 12> os;
			SmoothOversampler<N> sm;
			ResizingOversampler re{(unsigned)N};
			for (size_t i = 0; i < N + 3; i++) {
				unsigned x = (unsigned)r.below(4096);
				call("filter add_val", 4 * K, [&] { keep(ma.add_val(x)), keep(os.add_val(x)), keep(sm.add_val(x)), keep(re.add_val((float)x)); });
			}
			call("filter val", 4 * K, [&] { keep(ma.val()), keep(os.val()), keep(sm.val()), keep(re.val()); });
			call("filter set_size", K, [&] { re.set_size((unsigned)r.below(N) + 1); });
			struct Big {
				std::array<u8, std::min<size_t>(N, 4096)> d;
			};
			if constexpr (N <= 4096) {
				Big big{};
				FunctionSized<sizeof(Big) + 16, u32(u32)> f{[big](u32 x) { return x + big.d[0]; }};
				call("function call", K, [&] { keep(f(3)); });
			}
			std::vector<unsigned> v(N);
			for (auto &e : v)
				e = (unsigned)r.below(1000);
			auto part = std::make_unique<Partition<4, N, unsigned>>();
			if (N <= 4096)
				call("partition", 500 + 4000 * N, [&] { part->calc_partitions(std::span<unsigned>{v}); });
		}
	}
	VF_COVER("capacities_driven");
	if (N > 4000)
		VF_COVER("large_capacities_driven");
}
VF_SUITE(capacities, 640, 20000) {
	switch (idx % 4) {
		case 0:
			capacity_case<5>(rng);
			break;
		case 1:
			capacity_case<64>(rng);
			break;
		case 2:
			capacity_case<4096>(rng);
			break;
		default:
			capacity_case<65536>(rng);
	}
	Hash h;
	h.add(idx % 4).add(rng.s);
	nontrivial(h);
	if (want_sample())
		sample(fmt("the dearest call so far: %s, %llu steps", worst_call, (unsigned long long)worst));
}

// ---------------------------------------------------------------- the numbers given do not matter
struct LedSink {
	void set(u8) const {
	}
};
VF_SUITE(numbers, 60000, 2000000) {
	u32 a = rng.anyint<u32>(), b = rng.anyint<u32>();
	i64 w = rng.anyint<i64>();
	float f = rng.anyfloat(-30, 60), g = rng.anyfloat(-30, 60);
	float pos = std::abs(g), unit01 = (float)rng.unit();
	switch (idx % 9) {
		case 0:
			call("log2_floor", K, [&] { keep(MathTools::log2_floor(a)); });
			call("next_power_of_2", K, [&] { keep(MathTools::next_power_of_2(a)), keep(MathTools::next_power_of_2((u64)w)); });
			call("constrain, min, max, between, diff", 5 * K,
				 [&] { keep(MathTools::constrain(f, -1.f, 1.f)), keep(MathTools::min(a, b)), keep(MathTools::max(a, b)), keep(MathTools::between(a, 5u, b)), keep(MathTools::abs_diff(a, b)), keep(MathTools::diff(a, b)); });
			call("saturate", 2 * K, [&] { keep(MathTools::signed_saturate((int32_t)a, 1 + b % 32)), keep(MathTools::unsigned_saturate((int32_t)a, b % 32)); });
			call("interpolate", 3 * K, [&] { keep(MathTools::interpolate(f, g, unit01)), keep(MathTools::interpolate3(f, g, unit01)), keep(MathTools::interpolate<1000>((int32_t)(a / 2), (int32_t)(b / 2), 500)); });
			call("plateau", K, [&] { keep(MathTools::plateau<60>((int)(a >> 1))); });
			call("swap_bytes", K, [&] { keep(MathTools::swap_bytes16((u16)a)), keep(MathTools::swap_bytes32(a)), keep(MathTools::swap_bytes_and_combine((u16)a, (u16)b)); });
			call("map_value", 2 * K, [&] { keep(MathTools::map_value<float, float, float>(f, 0.f, 1.f, 0.f, 5.f)), keep(MathTools::map_value<int, int, int>((int)(a >> 1), 0, 1000, 0, 500)); });
			call("faster_sine, sin01, setPitchMultiple, audioFreqToNorm", 5 * K,
				 [&] { keep(MathTools::faster_sine(unit01)), keep(MathTools::sin01(unit01)), keep(MathTools::setPitchMultiple(f)), keep(MathTools::audioFreqToNorm(f)); });
			call("hysteresis", 2 * K, [&] { keep(MathTools::hysteresis_gate(.4f, .6f, 1.f, f)), keep(MathTools::hysteresis_feedback(.1f, .5f, 0.f, f)); });
			break;
		case 1: { // time which jumps
			PollEvent<u32> p{a};
			PollEvent<i64> q{w < 0 ? -(w + 1) : w};
			PollChange c{b};
			for (int i = 0; i < 6; i++) {
				u32 now = rng.anyint<u32>();
				i64 later = rng.anyint<i64>() / 2;
				int n = 0;
				call("event poll", K, [&] { p.poll(now, [&] { n++; }); });
				call("event poll (signed)", K, [&] { q.poll(later, [&] { n++; }); });
				call("change poll", K, [&] { c.poll(now, (now & 1) != 0); });
				call("take_change", K, [&] { keep(c.take_change()); });
				VF_CHECK(n <= 2, "more-than-one-event-a-poll", "%d events", n);
			}
			VF_COVER("times_jumped");
			break;
		}
		case 2: { // oscillators
			TriangleOscillator<1000> t;
			PhaseAccum<1000> r;
			SineOscillator<1000> s;
			DownCounter<1000> d;
			OneShot o{std::clamp(pos, 1e-3f, 1e6f)};
			call("oscillator set_frequency", 6 * K, [&] { t.set_frequency(a % 4000000), r.set_frequency(a % 4000000), s.set_frequency(b % 4000000), d.set_frequency(b % 4000000); });
			call("oscillator set_period", 3 * K, [&] { t.set_period_ms(1 + b % 100000), t.set_period_sec(1 + a % 1000), d.set_period_ms(1 + a % 1000000); });
			call("oscillator set_phase", 4 * K, [&] { t.set_phase(a), r.set_phase(b), s.set_phase(a), d.set_phase(b); });
			call("one shot start", K, [&] { o.start(pos); });
			call("one shot set_update_rate_hz", K, [&] { o.set_update_rate_hz(std::clamp(std::abs(f), 1e-3f, 1e6f)); });
			for (int i = 0; i < 4; i++) {
				call("oscillator process", 6 * K, [&] { keep(t.process()), keep(t.process_float()), keep(r.process()), keep(r.process_float()), keep(s.process()), keep(s.process_bipolar()); });
				call("down counter", K, [&] { d.update(), keep(d.val()); });
				call("one shot update", K, [&] { keep(o.update()); });
			}
			call("one shot stop", K, [&] { o.stop(); });
			VF_COVER("oscillators_driven");
			break;
		}
		case 3: { // interpolated parameters over any number of updates
			InterpParamVar<float> v;
			InterpParamVariable<float> w1;
			unsigned n = 1 + a % 0xFFFFFFFEu;
			call("interpolated set_new_value", 2 * K, [&] { v.set_new_value(f / 1e10f, n), w1.set_num_updates(n), w1.set_new_value(f / 1e10f); });
			FilteredInterpArray<3, MovingAverage<4, float>> fa;
			call("interpolated set_num_updates", K, [&] { fa.set_num_updates(n); });
			for (int i = 0; i < 4; i++) {
				call("interpolated next", 2 * K, [&] { keep(v.next()), keep(w1.next()); });
				call("filtered new readings", 5 * K, [&] { fa.mark_new_data_ready(), fa.add_new_readings([&](unsigned k) { return (float)k; }); });
				float sum = 0;
				call("filtered values", 5 * K, [&] { fa.get_interp_values([&](unsigned, float x) { sum += x; }); });
			}
			call("interpolated snap", K, [&] { keep(v.snap_to_target()); });
			break;
		}
		case 4: { // lights and colours
			Color c{(u8)a, (u8)(a >> 8), (u8)(a >> 16)}, e{(u8)b, (u8)(b >> 8), (u8)(b >> 16)};
			call("colour blend", 6 * K, [&] { keep(c.blend(e)), keep(c.blend(e, unit01)), keep(c.blend(e, (u8)a)), keep(c.blend(e, b)), keep(Color::blend((u16)a, (u16)b, (u8)a)); });
			call("colour combine, adjust, add, scale, 565", 6 * K, [&] { keep(c.combine(e)), keep(c.adjust({(u8)a, (u8)b, 3})), keep(c + e), keep(c * unit01), keep(c.Rgb565()); });
			call("colour of hue", K, [&] { keep((Color)HSVColor{(u8)a, (u8)(a >> 8), (u8)b}); });
			RgbLed<LedSink, 1000> led{LedSink{}, LedSink{}, LedSink{}};
			float ms = std::clamp(std::abs(f), 1.f, 1e9f), hz = std::clamp(pos, 1e-3f, 400.f);
			call("light flash", 3 * K, [&] { led.flash_once_ms(c, ms); });
			call("light fade", 3 * K, [&] { led.fade_once_ms(c, ms); });
			call("light breathe", 3 * K, [&] { led.breathe(e, hz); });
			for (int i = 0; i < 4; i++)
				call("light update", 6 * K, [&] { led.update_animation(); });
			VF_COVER("lights_driven");
			break;
		}
		case 5: { // trackers, encoders, detectors
			RotaryMotion m{.motion = (int32_t)a / 4}, o{.motion = (int32_t)b / 4};
			call("motion", 3 * K, [&] { m.add_motion(o), m.transfer_motion(o), keep(m.use_motion()); });
			PeakMeter<int> pm;
			AnalyzedSignal<40> an;
			LatchedParam<int, 4, 2> lp;
			Parameter<int> pa;
			for (int i = 0; i < 4; i++) {
				int x = rng.anyint<int>();
				call("peak meter", K, [&] { pm.update(x); });
				call("analysed signal", K, [&] { an.update((float)x); });
				call("latched parameter", K, [&] { keep(lp.store_changed(x / 2)), keep(lp.did_change()); });
				call("parameter", K, [&] { pa.setValue(x), keep(pa.isChanged()), keep(pa.getValue()); });
			}
			Toggler t;
			cpputil::SchmittTrigger st;
			EdgeStateDetector ed;
			QuadratureEncoder<false> qe;
			for (int i = 0; i < 40; i++) {
				bool x = rng.chance(1, 2), y = rng.chance(1, 2);
				call("switch", 2 * K, [&] { t.register_state(x), keep(t.is_pressed()), keep(t.is_just_pressed()); });
				call("edges", K, [&] { ed.update(x), keep(ed.changed()); });
				call("encoder", K, [&] { keep(qe.get_motion(x, y)); });
				call("trigger", K, [&] { st.process(f); });
			}
			break;
		}
		case 6: { // calibration, samples, wide filters
			Calibrator c;
			VoctCalibrator<> v;
			call("calibrate", K, [&] { c.calibrate_chan({f, g}, {1.f, 3.f}); });
			call("calibrator adjust", K, [&] { keep(c.adjust(f)), keep(c.slope()), keep(c.offset()); });
			for (int i = 0; i < 12; i++) {
				int note = (int)rng.below(9);
				call("record_measurement", K, [&] { v.record_measurement((VoctCalibrator<>::Note)note, g + (float)i); });
			}
			using F = AudioFrame<int32_t, 24>;
			call("sample scaling", 3 * K, [&] { keep(F::scaleOutput(f)), keep(F::scaleInput((int32_t)a)), keep(F::sign_extend((int32_t)b)); });
			QuadraticOnePoleLp<6000> q;
			HysteresisFilter<50, 2> hf;
			call("one pole", 2 * K, [&] { keep(q.add_val(unit01)), keep(hf.add_val(f)), keep(q.val()), keep(hf.val()); });
			VF_COVER("calibrations");
			break;
		}
		case 7: { // numbers as text: at most ten digits and a sign
			char text[40];
			std::span<char> s{text, rng.below(41)};
			call("int_to_str", 4 * K, [&] { keep(int_to_str((int32_t)a, s)); });
			call("int_to_str_chop", 4 * K, [&] { int_to_str_chop((int32_t)a, s); });
			call("num_digits", K, [&] { keep(num_digits(a)); });
			printed_n = 0;
			call("print number", 4 * K, [&] { print<print_char>((int32_t)a, Hex{b}); });
			VF_CHECK(printed_n <= 19, "too-many-digits", "%u characters printed", printed_n);
			VF_COVER("numbers_as_text");
			break;
		}
		default: { // rectangles wherever they lie, bit-fields, partitions of any sums
			i64 x0 = (int32_t)a, y0 = (int32_t)b;
			RectC p{(int)x0 / 4, (int)y0 / 4, (int)(x0 / 4 + 9), (int)(y0 / 4 + 9)}, q{-5, -5, 7, 9};
			call("rectangles", 4 * K, [&] { keep(p.is_intersecting(q)), keep(p.center_x()), keep(p.center_y()); });
			Partition<4, 8, u64> part;
			u64 v[8];
			for (auto &e : v)
				e = rng.next() >> 8;
			call("partition of eight", 60 * K, [&] { part.calc_partitions(std::span<u64>{v}); });
		}
	}
	Hash h;
	h.add(idx % 9).add(a).add(b).addf(f).addf(g);
	nontrivial(h);
}

// ---------------------------------------------------------------- what the bytes claim does not matter, only how many they are
template<class Key, class Size>
static void parse(std::span<const u8> blob, Rng &r) {
	const u64 bound = 400 + 120 * blob.size();
	CompactBinaryParser<Key, Size> p{blob};
	for (int i = 0; i < 4; i++) {
		Key k = (Key)(r.chance(1, 2) ? r.below(4) : r.next());
		std::span<const u8> node;
		call("parser get", bound, [&] { keep(p.template get<u32>(k)); });
		call("parser get_size", bound, [&] { keep(p.get_size(k)); });
		call("parser get_node", bound, [&] { node = p.get_node(k); });
		if (node.size()) {
			CompactBinaryParser<Key, Size> q{node};
			call("parser get in a node", bound, [&] { keep(q.template get<u16>(k)); });
			VF_COVER("nodes_entered");
		}
	}
}
VF_SUITE(bytes, 20000, 600000) {
	size_t n = rng.chance(1, 8) ? rng.below(6000) : rng.below(120);
	std::vector<u8> b(n);
	unsigned style = rng.below(4);
	for (auto &e : b)
		e = style == 0 ? (u8)rng.next() : style == 1 ? (u8)rng.below(4) : style == 2 ? 0 : (u8)(rng.chance(1, 2) ? 0xFF : 0);
	switch (idx % 6) {
		case 0:
			switch (rng.below(4)) {
				case 0:
					parse<u8, u8>(b, rng);
					break;
				case 1:
					parse<u16, u16>(b, rng);
					break;
				case 2:
					parse<u32, u64>(b, rng);
					break;
				default:
					parse<u16, int32_t>(b, rng);
			}
			VF_COVER("blobs_parsed");
			break;
		case 1: {
			std::vector<u8> out(rng.below(400));
			CompactBinaryWriter<u16> w{std::span<u8>{out}};
			for (int i = 0; i < 20; i++) {
				u32 v = (u32)rng.next();
				size_t len = rng.below(n + 1);
				switch (rng.below(4)) {
					case 0:
						call("writer field", 3 * K, [&] { w.field((u16)i, v); });
						break;
					case 1:
						call("writer raw", 400 + 120 * len, [&] { w.raw((u16)i, std::span<const u8>{b.data(), len}); });
						break;
					case 2:
						call("writer begin_object", 3 * K, [&] { w.begin_object((u16)i); });
						break;
					default:
						call("writer end_object", 3 * K, [&] { w.end_object(); });
				}
			}
			VF_COVER("messages_written");
			break;
		}
		case 2: {
			std::string s((const char *)b.data(), std::min<size_t>(n, 200));
			for (auto &c : s)
				c = style == 0 ? "0123456789.-x"[(u8)c % 13] : style == 2 ? '9' : style == 3 ? '.' : c;
			VersionUtil::Version v;
			call("version of text", 600 + 500 * s.size(), [&] { v = VersionUtil::Version{std::string_view{s}}; });
			VF_COVER("versions_read");
			break;
		}
		case 3: {
			std::string_view s{(const char *)b.data(), n}, t{(const char *)b.data() + n / 2, n / 2};
			call("text comparison", 400 + 200 * n, [&] { keep(less_ci(s, t)), keep(equal_ci(s, t)); });
			StaticString<32> f;
			StaticString<4096> g;
			call("fixed string copy", K + 80 * std::min<size_t>(n, 33) + 40, [&] { f.copy(s); });
			call("fixed string copy", K + 80 * n, [&] { g.copy(s); });
			call("fixed string length", K + 80 * n, [&] { keep(g.length()), keep(g.available()); });
			call("fixed string comparison", K + 80 * n, [&] { keep(f == g); });
			call("fixed string clear", K, [&] { g.clear(); });
			printed_n = 0;
			call("print text", K + 80 * n, [&] { print<print_char>(s); });
			VF_COVER("texts_copied");
			break;
		}
		case 4: {
			std::string s((const char *)b.data(), std::min<size_t>(n, 400)), with = rng.chance(1, 2) ? "" : "xyz";
			for (auto &c : s)
				c = "ab ,"[(u8)c % 4];
			std::string what = rng.pick({"a", "ab", "aa", "b "});
			// one search for each occurrence, each moving the rest of the text
			call("replace_all", 3000 + 1000 * s.size(), [&] { keep(ReplaceString{s}.replace_all(what, with).str); });
			std::vector<std::string> t;
			call("tokenize_string", 3000 + 1000 * s.size(), [&] { tokenize_string(s, t, ", "); });
			std::string word = rng.pick({"a", "ab", "aaaa", "b"});
			call("contains_word", 3000 + 1000 * s.size(), [&] { keep(contains_word(s, word)); });
			VF_COVER("texts_searched");
			break;
		}
		default: {
			DoubleBufferStream<u8, 64> s{[](std::span<u8>) { return true; }};
			for (int i = 0; i < 6; i++) {
				size_t len = rng.below(std::min<size_t>(n, 200) + 1);
				call("stream transmit", 400 + 120 * len, [&] { keep(s.transmit(std::span<u8>{b.data(), len})); });
				if (rng.chance(1, 2))
					call("stream done", 400 + 120 * 64, [&] { s.tx_done_callback(); });
			}
			WearLeveler<Flash> w;
			WearLevel<Flash> x;
			for (int i = 0; i < 12; i++) {
				FlashData d{(u32)rng.next(), 0};
				d.c = (u32)mix(d.v);
				call("storage write", 1500, [&] { keep(w.write(d)), keep(x.write(d)); });
				call("storage read", 1500, [&] { keep(w.read(d)), keep(x.read(d)); });
			}
			VF_COVER("streams_and_storage");
		}
	}
	Hash h;
	h.add(idx % 6).add(n).add(style).add(rng.s);
	nontrivial(h);
	if (want_sample())
		sample(fmt("%zu bytes; the dearest call so far: %s, %llu steps", n, worst_call, (unsigned long long)worst));
}
