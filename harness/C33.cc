// C33: change trackers, analysers and rotary motion against models.
#include "vf.hh"
#include "util/analyzed_signal.hh"
#include "util/change_detector.hh"
#include "util/parameter.hh"
#include "util/rotary_motion.hh"
using namespace vf;

template<typename T>
static T value(Rng &rng) {
	if constexpr (std::is_floating_point_v<T>)
		return rng.chance(1, 4) ? (T)rng.range(-3, 3) : (T)rng.anyfloat(-20, 20);
	else if constexpr (std::is_same_v<T, bool>)
		return rng.chance(1, 2);
	else
		return rng.chance(1, 2) ? (T)rng.range(std::is_signed_v<T> ? -4 : 0, 4) : rng.anyint<T>();
}

template<typename T, unsigned Num, unsigned Den>
static void latched(Rng &rng) {
	using L = LatchedParam<T, Num, Den>;
	Guarded<L> g;
	L other;
	T val{0}, oval{0};
	bool chg = false, ochg = false;
	constexpr T step = T(Num) / T(Den);
	static_assert(L::min_change == step);
	Hash h;
	h.add(Num).add(Den).add(sizeof(T));
	bool stored = false, held = false;
	for (unsigned i = 0, len = run_length(rng, 1 + rng.below(60), 100000, 6000); i < len; i++) {
		VF_CHECK(g.obj.val == val && (T)g.obj == val, "latched-value", "%.9g, model %.9g", (double)(T)g.obj, (double)val);
		switch (rng.below(8)) {
			case 0:
				VF_EQ(g.obj.did_change(), chg, "change-delivered-once");
				chg = false;
				VF_CHECK(!g.obj.did_change(), "change-delivered-once", "%s", "twice");
				break;
			case 1: {
				T x = value<T>(rng);
				g.obj = x; // plain assignment is not a change
				val = x;
				VF_LOG("assign %.9g", (double)x);
				break;
			}
			case 2:
				if (rng.chance(1, 2)) {
					other = g.obj;
					oval = val;
					ochg = chg;
				} else {
					g.obj = other;
					val = oval;
					chg = ochg;
				}
				VF_LOG("copy%s", "");
				break;
			default: {
				T x = value<T>(rng);
				if (rng.chance(2, 3)) { // around the threshold
					if constexpr (std::is_floating_point_v<T>) {
						x = val + (rng.chance(1, 2) ? step : -step) * (T)rng.pick({1., .5, .999, 1.001, 2., 0.});
						if (rng.chance(1, 3))
							x = std::nextafter(x, (T)rng.range(-9, 9));
					} else
						x = (T)std::clamp<i64>((i64)val + rng.range(-(i64)step - 1, (i64)step + 1), std::numeric_limits<T>::min(), std::numeric_limits<T>::max());
				}
				bool want;
				if constexpr (std::is_floating_point_v<T>)
					want = std::max(x, val) - std::min(x, val) >= step;
				else
					want = (i64)std::max(x, val) - (i64)std::min(x, val) >= (i64)step;
				if constexpr (std::is_floating_point_v<T>) {
					// not judged where the difference itself rounds across the threshold
					double d = std::abs((double)x - (double)val);
					if (std::abs(d - (double)step) <= 1e-6 * (double)step && (d >= (double)step) != want)
						continue;
				}
				VF_LOG("store_changed(%.9g) on %.9g, needs %.9g", (double)x, (double)val, (double)step);
				VF_EQ(g.obj.store_changed(x), want, "threshold");
				if constexpr (std::is_signed_v<T> && std::is_integral_v<T>)
					if ((i64)std::max(x, val) - (i64)std::min(x, val) > (i64)std::numeric_limits<T>::max())
						VF_COVER("moves_beyond_the_greatest_value");
				if (want) {
					val = x;
					chg = true;
					stored = true;
					VF_COVER("latched_changes");
				} else {
					held = true;
					VF_COVER("small_moves_held");
				}
				VF_EQ(g.obj.changed, chg, "changed-flag");
			}
		}
		h.addf((double)val).add(chg);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "LatchedParam");
	if (stored && held)
		nontrivial(h);
}
VF_SUITE(latched_params, 40000, 2500000) {
	switch (rng.below(8)) {
		case 6:
			return latched<int16_t, 16, 1>(rng);
		case 7:
			return latched<int8_t, 3, 1>(rng);
		case 0:
			return latched<float, 1, 4096>(rng);
		case 1:
			return latched<float, 3, 1>(rng);
		case 2:
			return latched<int, 5, 1>(rng);
		case 3:
			return latched<uint16_t, 16, 1>(rng);
		case 4:
			return latched<uint32_t, 1, 1>(rng);
		default:
			return latched<double, 1, 100>(rng);
	}
}

template<typename T>
static void params(Rng &rng) {
	T v0 = rng.chance(1, 2) ? T(0) : value<T>(rng);
	bool dflt = v0 == T(0) && rng.chance(1, 2);
	Guarded<Parameter<T>> p = dflt ? Guarded<Parameter<T>>() : Guarded<Parameter<T>>(v0);
	T val = v0;
	bool chg = true; // a new parameter has not been seen yet
	std::unique_ptr<T> ref(new T(value<T>(rng)));
	Guarded<RefParameter<T>> r(*ref);
	T last{0};
	Hash h;
	h.add(sizeof(T));
	unsigned changes = 0, kept = 0;
	for (unsigned i = 0, len = run_length(rng, 1 + rng.below(60), 100000, 6000); i < len; i++) {
		VF_CHECK(p.obj.getValue() == val && (T)p.obj == val, "parameter-value", "%.9g, model %.9g", (double)p.obj.getValue(), (double)val);
		VF_CHECK(r.obj.getValue() == *ref && (T)r.obj == *ref, "referenced-value", "%.9g", (double)r.obj.getValue());
		switch (rng.below(6)) {
			case 0:
				VF_EQ(p.obj.isChanged(), chg, "change-reported");
				VF_LOG("isChanged -> %d", chg);
				chg = false;
				if (rng.chance(1, 2))
					VF_CHECK(!p.obj.isChanged(), "change-reported-once", "%s", "");
				break;
			case 1: {
				bool want = !(*ref == last);
				VF_LOG("ref isChanged: %.9g, last %.9g", (double)*ref, (double)last);
				VF_EQ(r.obj.isChanged(), want, "reference-change-reported");
				last = *ref;
				if (want)
					VF_COVER("reference_changes");
				VF_CHECK(!r.obj.isChanged(), "reference-change-reported-once", "%s", "");
				break;
			}
			case 2: {
				T x = rng.chance(1, 3) ? last : value<T>(rng);
				if (rng.chance(1, 3))
					*ref = x; // changed behind its back
				else if (rng.chance(1, 2))
					r.obj.setValue(x);
				else
					r.obj = x;
				VF_CHECK(*ref == x, "reference-written", "%.9g", (double)*ref);
				VF_LOG("ref := %.9g", (double)x);
				break;
			}
			default: {
				T x = rng.chance(1, 3) ? val : value<T>(rng);
				VF_LOG("set %.9g", (double)x);
				if (rng.chance(1, 2))
					p.obj.setValue(x);
				else
					p.obj = x;
				if (x != val) {
					chg = true;
					changes++;
				} else
					kept++;
				val = x;
			}
		}
		h.addf((double)val).add(chg);
	}
	VF_CHECK(p.intact() && r.intact(), "writes-outside", "%s", "Parameter");
	VF_COVERN("parameter_changes", changes);
	VF_COVERN("same_value_stored", kept);
	if (changes)
		nontrivial(h);
}
VF_SUITE(parameters, 40000, 2500000) {
	switch (rng.below(5)) {
		case 0:
			return params<float>(rng);
		case 1:
			return params<int>(rng);
		case 2:
			return params<bool>(rng);
		case 3:
			return params<u8>(rng);
		default:
			return params<u64>(rng);
	}
}

template<typename T>
static void peaks(Rng &rng) {
	Guarded<PeakMeter<T>> m;
	bool any = false;
	T lo{}, hi{};
	Hash h;
	h.add(sizeof(T)).add(std::is_floating_point_v<T>).add(std::is_signed_v<T>);
	int sign = rng.below(3);
	bool lng = rng.chance(1, 1500); // far more samples, and far more between resets
	if (lng)
		VF_COVER("long_sample_runs");
	for (unsigned i = 0, len = 1 + rng.below(lng ? 70000 : 40); i < len; i++) {
		if (rng.chance(1, lng ? 30000 : 15)) {
			m.obj.reset();
			any = false;
			sign = rng.below(3);
			VF_LOG("reset%s", "");
			VF_COVER("meter_resets");
			h.add(1);
			continue;
		}
		T x;
		if constexpr (std::is_floating_point_v<T>)
			x = (T)rng.anyfloat(-120, 120);
		else
			x = rng.anyint<T>();
		if (std::is_signed_v<T> && x != std::numeric_limits<T>::lowest())
			x = sign == 0 ? x : sign == 1 ? (x > 0 ? (T)-x : x) : (x < 0 ? (T)-x : x);
		lo = any ? std::min(lo, x) : x;
		hi = any ? std::max(hi, x) : x;
		any = true;
		m.obj.update(x);
		VF_LOG("update(%.9g) -> %.9g .. %.9g", (double)x, (double)m.obj.min, (double)m.obj.max);
		VF_CHECK(m.obj.min == lo, "minimum", "%.9g, model %.9g", (double)m.obj.min, (double)lo);
		VF_CHECK(m.obj.max == hi, "maximum", "%.9g, model %.9g", (double)m.obj.max, (double)hi);
		if (hi < T(0))
			VF_COVER("all_negative_samples");
		h.addf((double)x);
	}
	VF_CHECK(m.intact(), "writes-outside", "%s", "PeakMeter");
	nontrivial(h);
}
VF_SUITE(peak_meters, 30000, 2000000) {
	switch (rng.below(6)) {
		case 0:
			return peaks<float>(rng);
		case 1:
			return peaks<double>(rng);
		case 2:
			return peaks<int>(rng);
		case 3:
			return peaks<int8_t>(rng);
		case 4:
			return peaks<u32>(rng);
		default:
			return peaks<i64>(rng);
	}
}

static void analyse(Rng &rng, AnalyzedSig &s, double coef) {
	bool any = false;
	float lo = 0, hi = 0;
	double iir = 0;
	VF_CHECK(s.iir == 0.f && s.avg == 0.f, "analyser-initial", "%g", s.iir);
	Hash h;
	h.addf(coef);
	int sign = rng.below(3);
	for (unsigned i = 0, len = run_length(rng, 1 + rng.below(60), 100000, 6000); i < len; i++) {
		float x = sign == 0 ? (float)rng.real(-5, 5) : (float)(sign == 1 ? -rng.real(.001, 5) : rng.real(.001, 5));
		if (rng.chance(1, 15)) {
			s.reset_to(x);
			lo = hi = x;
			iir = x;
			any = true;
			VF_LOG("reset_to(%.9g)", x);
			VF_CHECK(s.min == x && s.max == x && s.iir == x && s.avg == x, "reset-to", "%g %g %g %g", s.min, s.max, s.iir, s.avg);
			VF_COVER("analyser_resets");
			continue;
		}
		lo = any ? std::min(lo, x) : x;
		hi = any ? std::max(hi, x) : x;
		any = true;
		iir = iir + coef * (x - iir);
		s.update(x);
		VF_LOG("update(%.9g) -> %.9g .. %.9g, mean %.9g", x, s.min, s.max, s.iir);
		VF_CHECK(s.min == lo, "minimum", "%.9g, model %.9g", s.min, lo);
		VF_CHECK(s.max == hi, "maximum", "%.9g, model %.9g", s.max, hi);
		VF_CHECK(std::abs(s.iir - iir) <= 1e-5, "running-mean", "%.9g, definition gives %.9g", s.iir, iir);
		VF_CHECK(s.avg == s.iir, "average-is-the-running-mean", "%.9g %.9g", s.avg, s.iir);
		if (hi < 0)
			VF_COVER("all_negative_samples");
		h.addf(x);
	}
	nontrivial(h);
}
VF_SUITE(analysers, 30000, 2000000) {
	switch (rng.below(4)) {
		case 0: {
			AnalyzedSignal<100> s;
			return analyse(rng, s, .01);
		}
		case 1: {
			AnalyzedSignal<2> s;
			return analyse(rng, s, .5);
		}
		case 2: {
			AnalyzedSignal<1> s;
			return analyse(rng, s, 1);
		}
		default: {
			float c = (float)rng.unit();
			AnalyzedSig s(c);
			return analyse(rng, s, c);
		}
	}
}

// every sequence of 9 calls (update true, update false, changed) on a change detector
VF_SUITE(enum_change_detector, 243, 243) {
	for (unsigned tail = 0; tail < 81; tail++) {
		unsigned c = idx * 81 + tail;
		ChangeDetector d;
		bool last = false, chg = false;
		for (int i = 0; i < 9; i++) {
			unsigned op = c % 3;
			c /= 3;
			if (op == 2) {
				VF_EQ(d.changed(), chg, "change-detector");
				chg = false;
			} else {
				d.update(op);
				chg |= last != (bool)op;
				last = op;
			}
		}
		VF_EQ(d.changed(), chg, "change-detector");
		VF_CHECK(!d.changed(), "change-detector", "%s", "reported twice");
	}
	VF_COVERN("detector_sequences", 81);
	evaluated(81);
	nontrivial(idx);
}

VF_SUITE(rotary, 30000, 2000000) {
	constexpr int N = 3;
	RotaryMotion m[N];
	i64 pos[N]{}, mot[N]{};
	i64 given = 0, used = 0; // conservation over transfers
	Hash h;
	bool copies = false;
	for (unsigned i = 0, len = run_length(rng, 1 + rng.below(60), 100000, 6000); i < len; i++) {
		unsigned a = rng.below(N), b = rng.below(N);
		switch (rng.below(5)) {
			case 0: { // the encoder moves
				int d = (int)rng.range(-3, 3);
				m[a].motion += d;
				m[a].abs_pos += d;
				mot[a] += d;
				pos[a] += d;
				given += d;
				VF_LOG("%u moves %d", a, d);
				break;
			}
			case 1: {
				i64 u = m[a].use_motion();
				VF_EQ(u, mot[a], "net-steps");
				VF_EQ(m[a].use_motion(), 0, "steps-used-once");
				used += mot[a];
				mot[a] = 0;
				VF_LOG("%u used", a);
				VF_COVER("motions_used");
				break;
			}
			case 2:
				if (a == b)
					break;
				m[a].add_motion(m[b]);
				mot[a] += mot[b];
				pos[a] += mot[b];
				given += mot[b]; // deliberately counted twice
				copies = true;
				VF_LOG("%u adds %u", a, b);
				break;
			default:
				if (a == b)
					break;
				m[a].transfer_motion(m[b]);
				mot[a] += mot[b];
				pos[a] += mot[b];
				mot[b] = 0;
				VF_LOG("%u takes from %u", a, b);
				VF_COVER("motions_transferred");
		}
		for (int k = 0; k < N; k++) {
			VF_EQ((i64)m[k].motion, mot[k], "pending-motion");
			VF_EQ((i64)m[k].abs_pos, pos[k], "absolute-position");
		}
		h.add(a).add(b).add(given);
	}
	i64 left = 0;
	for (int k = 0; k < N; k++)
		left += m[k].use_motion();
	VF_EQ(given, used + left, "steps-conserved");
	(void)copies;
	nontrivial(h);
}
