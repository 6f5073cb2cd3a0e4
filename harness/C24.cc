// C24: interpolated parameters against exact ramps; marks across threads are not lost.
#include "vf.hh"
#include <chrono>
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"
#include "util/interp_param.hh"
#include <sched.h>
#include <thread>
using namespace vf;

template<typename T>
static T value(Rng &rng) {
	if constexpr (std::is_integral_v<T>) {
		if (rng.chance(1, 3))
			return (T)rng.range(-50, 50);
		return (T)rng.range(std::numeric_limits<T>::min() / 4, std::numeric_limits<T>::max() / 4);
	} else
		return (T)(rng.chance(1, 6) ? (T)rng.range(-3, 3) : rng.anyfloat(-12, 16));
}

// Follows one ramp: every step equal, never past the target, on it after n.
template<typename T>
struct Ramp {
	T cur{}, start{}, target{};
	unsigned n = 1, k = 0;
	bool set = false;
	T istep{};
	void begin(T t, unsigned updates) {
		start = cur;
		target = t;
		n = updates;
		k = 0;
		set = true;
		if constexpr (std::is_integral_v<T>)
			istep = (T)(((i64)t - (i64)start) / (i64)n);
	}
	// what next() returned
	void observe(T got) {
		k++;
		if (!set) {
			VF_CHECK(got == cur, "moves-without-a-target", "%g", (double)got);
			return;
		}
		if constexpr (std::is_integral_v<T>) {
			T want = (T)(cur + istep);
			VF_LOG("next -> %lld (step %u of %u, %lld to %lld)", (long long)got, k, n, (long long)start, (long long)target);
			VF_EQ(got, want, "ramp-step");
			if (k <= n) {
				VF_CHECK((i64)got >= std::min((i64)start, (i64)target) && (i64)got <= std::max((i64)start, (i64)target),
						 "overshoot",
						 "%lld",
						 (long long)got);
				if (k == n) {
					VF_CHECK(std::abs((i64)got - (i64)target) < (i64)n, "misses-target", "%lld for %lld", (long long)got, (long long)target);
					if (((i64)target - (i64)start) % (i64)n == 0)
						VF_EQ(got, target, "misses-target");
					VF_COVER("integer_targets_reached");
				}
			}
			cur = got;
		} else {
			double eps = sizeof(T) == 4 ? 6e-8 : 1.2e-16;
			double span = std::abs((double)target - start);
			double mag = std::max(std::abs((double)start), std::abs((double)target)) + span * k / n;
			double want = start + ((double)target - start) * k / n;
			double tol = (2 * k + 4) * eps * mag + 1e-37;
			VF_LOG("next -> %.9g (step %u of %u, %.9g to %.9g)", (double)got, k, n, (double)start, (double)target);
			VF_CHECK(std::abs(got - want) <= tol, "ramp-step", "observed %.12g, line is at %.12g (+-%g)", (double)got, want, tol);
			if (k == n)
				VF_COVER("float_targets_reached");
			cur = got;
		}
	}
};

// The step a parameter reports is the step it takes.
template<typename T>
static void step_reported(T step, T before, T after) {
	if constexpr (std::is_integral_v<T>) {
		VF_EQ((T)(before + step), after, "step-size");
	} else {
		double tol = (sizeof(T) == 4 ? 3e-7 : 5e-16) * (std::abs((double)before) + std::abs((double)after)) + 1e-37;
		VF_CHECK(std::abs((double)after - (double)before - (double)step) <= tol,
				 "step-size",
				 "get_step_size() is %.12g, next() moved from %.12g to %.12g",
				 (double)step,
				 (double)before,
				 (double)after);
	}
	if (step != T(0))
		VF_COVER("step_sizes_compared");
}

template<typename T, int N>
static void fixed(Rng &rng) {
	Guarded<InterpParam<T, N>> g;
	Ramp<T> m;
	Hash h;
	h.add(N).add(sizeof(T)).add(std::is_integral_v<T>);
	VF_CHECK(g.obj.cur_val == T(0), "initial-value", "%g", (double)g.obj.cur_val);
	for (unsigned i = 0, len = 1 + rng.below(8); i < len; i++) {
		if (i || rng.chance(3, 4)) {
			T t = value<T>(rng);
			if (rng.chance(1, 8)) { // the public value may be set directly
				T c = value<T>(rng);
				g.obj.cur_val = c;
				m.cur = c;
			}
			if (rng.chance(1, 10))
				t = m.cur;
			g.obj.set_new_value(t);
			VF_CHECK(g.obj.cur_val == m.cur, "set-moves-the-value", "%g", (double)g.obj.cur_val);
			m.begin(t, N);
			h.addf((double)t);
		}
		// whole ramps and abandoned ones
		unsigned steps = rng.chance(2, 3) ? N : rng.below(N);
		for (unsigned k = 0; k < steps; k++) {
			T was = g.obj.cur_val, step = g.obj.get_step_size();
			T r = g.obj.next();
			m.observe(r);
			step_reported<T>(step, was, r);
			VF_CHECK(g.obj.cur_val == r, "value-member", "%g %g", (double)g.obj.cur_val, (double)r);
		}
		if (steps < N)
			VF_COVER("abandoned_ramps");
		h.add(steps);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "InterpParam");
	nontrivial(h);
}
VF_SUITE(interp_param, 25000, 2000000) {
	switch (rng.below(8)) {
		case 0:
			return fixed<float, 6>(rng);
		case 1:
			return fixed<float, 1>(rng);
		case 2:
			return fixed<float, 256>(rng);
		case 3:
			return fixed<double, 100>(rng);
		case 4:
			return fixed<long, 3>(rng);
		case 5:
			return fixed<int, 64>(rng);
		case 6:
			return fixed<int, 1>(rng);
		default:
			return fixed<int16_t, 7>(rng);
	}
}

template<typename T>
static void variable(Rng &rng) {
	Guarded<InterpParamVar<T>> a;
	unsigned n0 = 1 + rng.below(300);
	bool dflt = rng.chance(1, 4);
	Guarded<InterpParamVariable<T>> b_default, b_given(n0);
	auto &b = dflt ? b_default : b_given;
	unsigned n = dflt ? 256 : n0;
	Ramp<T> ma, mb;
	if (rng.chance(1, 2)) { // nothing set yet
		if (rng.chance(1, 2))
			VF_CHECK(a.obj.snap_to_target() == T(0), "initial-value", "%s", "snap_to_target()");
		VF_CHECK(b.obj.cur_val == T(0) && b.obj.target_val == T(0), "initial-value", "%g", (double)b.obj.cur_val);
		VF_CHECK(a.obj.get_step_size() == T(0) && b.obj.get_step_size() == T(0), "step-size", "%s", "before the first target");
		for (unsigned k = 0, q = rng.below(4); k < q; k++) {
			ma.observe(a.obj.next());
			mb.observe(b.obj.next());
		}
		VF_COVER("asked_before_the_first_target");
	}
	Hash h;
	h.add(n).add(sizeof(T)).add(std::is_integral_v<T>);
	for (unsigned i = 0, len = 1 + rng.below(8); i < len; i++) {
		T t = value<T>(rng);
		unsigned na = 1 + rng.below(rng.chance(1, 2) ? 5 : 100);
		VF_LOG("set_new_value(%g, %u)", (double)t, na);
		a.obj.set_new_value(t, na);
		ma.begin(t, na);
		if (rng.chance(1, 3)) {
			n = 1 + rng.below(60);
			b.obj.set_num_updates(n);
			VF_COVER("num_updates_changed");
		}
		VF_EQ(b.obj.get_num_updates(), n, "num-updates");
		b.obj.set_new_value(t);
		VF_CHECK(b.obj.target_val == t, "target-member", "%g", (double)t);
		mb.begin(t, n);
		unsigned ka = rng.chance(2, 3) ? na : rng.below(na), kb = rng.chance(2, 3) ? n : rng.below(n);
		for (unsigned k = 0; k < ka; k++)
			if (T was = ma.cur, step = a.obj.get_step_size(); true) {
				ma.observe(a.obj.next());
				step_reported<T>(step, was, ma.cur);
			}
		for (unsigned k = 0; k < kb; k++) {
			if (rng.chance(1, 20)) { // for the next target: the running ramp goes on as it was set
				n = 1 + rng.below(60);
				b.obj.set_num_updates(n);
				VF_COVER("num_updates_changed_mid_ramp");
			}
			T was = b.obj.cur_val, step = b.obj.get_step_size();
			T r = b.obj.next();
			mb.observe(r);
			step_reported<T>(step, was, r);
			VF_CHECK(b.obj.cur_val == r, "value-member", "%g", (double)r);
		}
		if (rng.chance(1, 3)) {
			T s = a.obj.snap_to_target();
			VF_CHECK(s == t, "snap-misses-target", "%.12g for %.12g", (double)s, (double)t);
			ma.cur = t;
			VF_COVER("snapped");
		}
		h.addf((double)t).add(na).add(ka).add(kb);
	}
	VF_CHECK(a.intact() && b_default.intact() && b_given.intact(), "writes-outside", "%s", "InterpParamVar");
	nontrivial(h);
}
VF_SUITE(interp_param_var, 25000, 2000000) {
	switch (rng.below(4)) {
		case 0:
			return variable<float>(rng);
		case 1:
			return variable<double>(rng);
		case 2:
			return variable<int>(rng);
		default:
			return variable<long>(rng);
	}
}

// ---------------------------------------------------------------------------
// FilteredInterpArray, one thread, with marks set at every possible point,
// also while the readings or outputs are being taken.
struct Plus { // a filter with memory: the sum of all values given so far, plus the count of calls
	i64 sum = 0;
	i64 calls = 0;
	i64 add_val(i64 x) {
		calls++;
		return sum = sum / 2 + x + calls;
	}
};
static_assert(IsSimpleFilter<Plus, i64>);

template<size_t N>
static void array_case(Rng &rng) {
	Guarded<FilteredInterpArray<N, Plus, i64>> g;
	auto &a = g.obj;
	static_assert(FilteredInterpArray<N, Plus, i64>::size() == N);
	std::array<i64, N> cur{}, step{}, target{}, raw{};
	std::array<Plus, N> filt{};
	bool marked = false;
	unsigned count = 0, n = 256;
	Hash h;
	h.add(N);
	if (rng.chance(4, 5)) {
		n = rng.below(12);
		a.set_num_updates(n);
		VF_LOG("set_num_updates(%u)", n);
	}
	h.add(n);
	unsigned taken = 0, midmarks = 0, snaps = 0, ramps = 0;
	auto new_raw = [&] {
		for (auto &r : raw)
			r = rng.range(-100000, 100000);
	};
	auto mark = [&] {
		a.mark_new_data_ready();
		marked = true;
		VF_LOG("mark%s", "");
	};
	auto maybe_midmark = [&](unsigned at, unsigned where) {
		if (at == where) {
			new_raw(); // the writer comes in between: new values, then the mark
			mark();
			midmarks++;
		}
	};
	for (unsigned i = 0, len = run_length(rng, 5 + rng.below(60), 100000, 2000); i < len; i++) {
		unsigned op = rng.below(8);
		if (op == 0) {
			new_raw();
			mark();
			h.add(1);
		} else if (op == 1) {
			new_raw(); // without a mark: must not be looked at
			h.add(2);
		} else if (op < 4) {
			std::array<unsigned, N> reads{};
			std::array<i64, N> seen{};
			unsigned calls = 0;
			bool was = marked;
			unsigned at = rng.chance(1, 4) ? rng.below(N) : ~0u;
			bool before = rng.chance(1, 2);
			marked = false;
			VF_LOG("add_new_readings, marked %d", was);
			a.add_new_readings([&](unsigned k) -> i64 {
				VF_CHECK(k < N, "reading-index", "%u", k);
				if (before)
					maybe_midmark(at, calls);
				i64 v = raw[k];
				seen[k] = v;
				reads[k]++;
				calls++;
				if (!before)
					maybe_midmark(at, calls - 1);
				return v;
			});
			if (!was) {
				VF_CHECK(calls == 0, "reads-without-a-mark", "%u readings", calls);
				VF_COVER("unmarked_reads_skipped");
			} else {
				for (size_t k = 0; k < N; k++)
					VF_CHECK(reads[k] == 1, "reading-taken-once", "element %zu read %u times", k, reads[k]);
				if (count > 0)
					n = count;
				for (size_t k = 0; k < N; k++) {
					target[k] = filt[k].add_val(seen[k]);
					if (n > 0)
						step[k] = (target[k] - cur[k]) / (i64)n;
				}
				count = 0;
				taken++;
			}
			h.add(3 + was).add(at);
		} else {
			count++;
			bool over = count >= n;
			std::array<unsigned, N> outs{};
			unsigned calls = 0, at = rng.chance(1, 8) ? rng.below(N) : ~0u;
			VF_LOG("get_interp_values, update %u of %u", count, n);
			a.get_interp_values([&](unsigned k, i64 v) {
				VF_CHECK(k < N, "output-index", "%u", k);
				cur[k] = over ? target[k] : cur[k] + step[k];
				VF_LOG("  out[%u] = %lld", k, (long long)v);
				if (over)
					VF_EQ(v, target[k], "not-on-target");
				else
					VF_EQ(v, cur[k], "ramp-step");
				outs[k]++;
				maybe_midmark(at, calls++);
			});
			for (size_t k = 0; k < N; k++)
				VF_CHECK(outs[k] == 1, "output-once", "element %zu output %u times", k, outs[k]);
			if (over && taken)
				snaps++;
			else if (taken)
				ramps++;
			h.add(6 + over).add(at);
		}
	}
	// whatever was marked last must be reached: one reading, then n updates
	if (marked) {
		auto fin = raw;
		a.add_new_readings([&](unsigned k) { return fin[k]; });
		VF_COVER("last_mark_followed_up");
		if (count > 0)
			n = count;
		for (size_t k = 0; k < N; k++)
			target[k] = filt[k].add_val(fin[k]);
		for (unsigned u = 1; u <= n + 2; u++)
			a.get_interp_values([&](unsigned k, i64 v) {
				if (u >= n)
					VF_EQ(v, target[k], "mark-lost");
			});
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "FilteredInterpArray");
	VF_COVERN("readings_taken", taken);
	VF_COVERN("marks_during_a_call", midmarks);
	VF_COVERN("outputs_on_target", snaps);
	VF_COVERN("outputs_on_the_ramp", ramps);
	if (taken && ramps)
		nontrivial(h);
	if (want_sample())
		sample(fmt("FilteredInterpArray<%zu>: %u readings, %u marks during calls, %u ramp outputs", N, taken, midmarks, ramps));
}
VF_SUITE(filtered_array, 40000, 4000000) {
	switch (rng.below(4)) {
		case 0:
			return array_case<1>(rng);
		case 1:
			return array_case<2>(rng);
		case 2:
			return array_case<5>(rng);
		default:
			return array_case<16>(rng);
	}
}

#ifdef VF_CFG_OPT
// No new data for a day: more updates than a 32-bit counter holds.  Still on the target.
VF_SUITE(enum_idle_for_long, 1, 2) {
	FilteredInterpArray<1, NoFilter<int>, int> a;
	unsigned n = 5 + rng.below(1000);
	int target = (int)rng.range(1000, 1000000);
	a.set_num_updates(n);
	a.mark_new_data_ready();
	a.add_new_readings([&](unsigned) { return target; });
	u64 off = 0, at = 0;
	for (u64 k = 1; k < (1ull << 32) + 5000; k++)
		a.get_interp_values([&](unsigned, int v) {
			if (k >= n && v != target) {
				off++;
				at = k;
			}
		});
	VF_CHECK(off == 0, "leaves-the-target", "%llu of 2^32 updates are off it, the last is update %llu", (unsigned long long)off, (unsigned long long)at);
	VF_COVER("idle_for_a_day");
	nontrivial(Hash().add(n).add(target));
}
#endif

// ---------------------------------------------------------------------------
// Threads.  The values are plain memory handed over by the mark: the marker
// writes the next set only once the updater has output the previous one.
VF_SUITE(mt_handover, 250, 12000) {
	constexpr size_t N = 4;
	auto a = std::make_unique<FilteredInterpArray<N, NoFilter<float>, float>>();
	unsigned n = 1 + rng.below(6), gens = 40 + rng.below(200);
	a->set_num_updates(n);
	std::array<float, N> values{};
	std::atomic<unsigned> acked{0};
	u64 seed = rng.next();
	unsigned pause = rng.pick({0u, 0u, 1u, 50u, 400u});
	u64 late = 0;
	std::thread marker([&] {
		Rng r(seed);
		for (unsigned g = 1; g <= gens; g++) {
			for (size_t i = 0; i < N; i++)
				values[i] = (float)(g * 16 + i);
			for (unsigned d = r.below(pause + 1); d; d--)
				std::atomic_signal_fence(std::memory_order_seq_cst);
			a->mark_new_data_ready();
			while (acked.load(std::memory_order_acquire) < g)
				sched_yield();
		}
	});
	// The ramp is as long as the interval between the last two readings, so the
	// updater makes only a few updates while it waits for the next mark; else a
	// marker kept off the processor would make every later ramp longer.
	unsigned g = 0, spare = 0;
	bool read = false;
	auto t0 = std::chrono::steady_clock::now();
	while (g < gens) {
		a->add_new_readings([&](unsigned i) {
			read = true;
			return values[i];
		});
		if (!read && spare == 0) {
			if ((++late & 63) == 0)
				sched_yield();
		} else {
			std::array<float, N> out{};
			a->get_interp_values([&](unsigned i, float v) { out[i] = v; });
			bool all = true;
			for (size_t i = 0; i < N; i++)
				all &= out[i] == (float)((g + 1) * 16 + i);
			if (!read)
				spare--;
			if (all) {
				g++;
				read = false;
				late = 0;
				spare = (unsigned)(seed >> (g & 31)) & 3;
				acked.store(g, std::memory_order_release);
			} else
				late++;
		}
		if ((late & 0xFFFF) == 0xFFFF && std::chrono::steady_clock::now() - t0 > std::chrono::seconds(40))
			break;
	}
	bool complete = g == gens;
	acked.store(~0u, std::memory_order_release);
	marker.join();
	VF_CHECK(complete, "mark-lost", "generation %u of %u never reached the outputs", g + 1, gens);
	VF_COVERN("threaded_generations", gens);
	nontrivial(Hash{}.add(n).add(gens).add(seed));
}

// The marker does not wait: values change while they are read; the last mark must win.
VF_SUITE(mt_free_running, 250, 12000) {
	constexpr size_t N = 3;
	auto a = std::make_unique<FilteredInterpArray<N, NoFilter<float>, float>>();
	a->set_num_updates(1 + rng.below(5));
	std::array<std::atomic<float>, N> values{};
	unsigned gens = 300 + rng.below(3000);
	u64 seed = rng.next();
	unsigned pause = rng.pick({0u, 1u, 5u, 50u});
	std::atomic<bool> done{false};
	std::thread marker([&] {
		Rng r(seed);
		for (unsigned g = 1; g <= gens; g++) {
			for (size_t i = 0; i < N; i++)
				values[i].store((float)(g * 4 + i), std::memory_order_relaxed);
			a->mark_new_data_ready();
			for (unsigned d = r.below(pause + 1); d; d--)
				std::atomic_signal_fence(std::memory_order_seq_cst);
		}
		done.store(true, std::memory_order_release);
	});
	Rng r(rng.next());
	std::array<float, N> out{};
	u64 readings = 0, since = 0, last = 8;
	auto one = [&](bool slow) {
		a->add_new_readings([&](unsigned i) {
			readings += i == 0;
			if (i == 0) {
				last = std::max<u64>(since, 8);
				since = 0;
			}
			float v = values[i].load(std::memory_order_relaxed);
			if (slow)
				for (unsigned d = 200; d; d--)
					std::atomic_signal_fence(std::memory_order_seq_cst);
			return v;
		});
	};
	unsigned per = 1 + rng.below(4);
	while (!done.load(std::memory_order_acquire)) {
		one(r.chance(1, 2));
		since += per;
		for (unsigned k = 0; k < per; k++)
			a->get_interp_values([&](unsigned i, float v) { out[i] = v; });
	}
	marker.join();
	// at most one reading is still due; the ramp is as long as the last interval was
	one(false);
	for (u64 k = 0; k < last + 2; k++)
		a->get_interp_values([&](unsigned i, float v) { out[i] = v; });
	for (size_t i = 0; i < N; i++)
		VF_CHECK(out[i] == (float)(gens * 4 + i), "mark-lost", "element %zu ended at %g, the last marked value is %g", i, out[i], (double)(gens * 4 + i));
	VF_COVERN("threaded_marks", gens);
	VF_COVERN("threaded_readings", readings);
	if (readings > 2)
		nontrivial(Hash{}.add(readings).add(gens).add(seed));
}
