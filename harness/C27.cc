// C27: oscillators against the exactly accumulated phase, counters against their exact schedule.
#include "vf.hh"
#include "util/oscs.hh"
using namespace vf;

static constexpr u64 P32 = 1ull << 32;

// increment of `freq` cycles per second at `rate` updates per second, as exactly as whole counts per hertz allow
static void check_increment(u32 inc, double freq, double rate, const char *key) {
	double ideal = std::fmod(freq * (double)P32 / rate, (double)P32);
	double tol = std::abs(freq) + 2 + ideal * 2e-7;
	double d = std::abs((double)inc - ideal);
	d = std::min(d, (double)P32 - d);
	VF_CHECK(d <= tol, key, "increment %u for %.9g Hz at %g updates per second, exact is %.3f", inc, freq, rate, ideal);
}
static u64 tri(u32 p) {
	return p < P32 / 2 ? 2ull * p : 2 * P32 - 1 - 2ull * p;
}

// rising values are even, falling ones odd
static u32 untri(u32 v) {
	return (v & 1) ? (u32)((2 * P32 - 1 - v) / 2) : v / 2;
}

template<int Rate>
static void triangle(Rng &rng) {
	using O = TriangleOscillator<Rate>;
	u32 f = rng.chance(1, 10) ? 0 : rng.below(Rate / 2 + 1);
	bool ctor = rng.chance(1, 3);
	Guarded<O> g(ctor ? O(f) : O());
	auto &o = g.obj;
	Hash h;
	h.add(Rate).add(f);
	u32 phase = 0, inc = 0;
	VF_EQ((u64)o.val(), tri(0), "triangle-initial");
	if (!ctor) {
		VF_EQ((u64)o.process(), tri(0), "triangle-idle");
		VF_EQ((u64)o.process(), tri(0), "triangle-idle");
	} else {
		// learn the increment from one update out of phase zero
		inc = untri(o.process());
		check_increment(inc, f, Rate, "triangle-frequency");
		phase = inc;
	}
	unsigned wraps = 0;
	for (unsigned i = 0, len = 1 + rng.below(5); i < len; i++) {
		unsigned how = rng.below(6);
		double want = -1;
		// each setting is measured by one update from phase zero
		switch (how) {
			case 0:
				f = rng.below(Rate / 2 + 1);
				o.set_frequency((uint32_t)f);
				want = f;
				break;
			case 1:
				if (Rate >= 4 && rng.chance(1, 3)) { // a negative frequency runs the phase backwards
					f = 1 + rng.below(Rate / 4);
					VF_LOG("frequency %d", -(int)f);
					o.set_frequency(-(int)f);
					VF_EQ((u64)o.val(), tri(phase), "frequency-change-moves-the-phase");
					o.set_phase(0x60000000);
					u32 back = 0x60000000 - o.process() / 2;
					check_increment(back, f, Rate, "triangle-negative-frequency");
					phase = 0x60000000 - back;
					inc = 0 - back;
					VF_COVER("negative_frequencies");
					break;
				}
				f = rng.below(Rate / 2 + 1);
				o.set_frequency((int)f);
				want = f;
				break;
			case 2: {
				float x = (float)(rng.chance(1, 2) ? rng.real(0, 2) : rng.real(0, Rate / 2.0));
				o.set_frequency(std::min(x, Rate * .5f));
				want = std::min(x, Rate * .5f);
				VF_COVER("fractional_frequencies");
				break;
			}
			case 3: {
				// up to half the update rate, down to periods of hours
				u32 lo = (2000 + Rate - 1) / Rate, ms = lo + (u32)rng.below(rng.chance(1, 2) ? 2000 : 4000000);
				o.set_period_ms(ms);
				want = 1000.0 / ms;
				VF_LOG("set_period_ms(%u)", ms);
				VF_COVER("periods_in_ms");
				if (ms < 1000)
					VF_COVER("periods_below_a_second");
				break;
			}
			case 4: {
				u32 s = 1 + rng.below(rng.chance(1, 2) ? 10 : 10000);
				o.set_period_sec(s);
				want = 1.0 / s;
				VF_LOG("set_period_sec(%u)", s);
				break;
			}
			default:
				break;
		}
		if (want >= 0) {
			VF_LOG("frequency %.9g", want);
			VF_EQ((u64)o.val(), tri(phase), "frequency-change-moves-the-phase");
			o.set_phase(0);
			VF_EQ((u64)o.val(), tri(0), "set-phase");
			inc = untri(o.process());
			check_increment(inc, want, Rate, "triangle-frequency");
			phase = inc;
		}
		if (rng.chance(1, 3)) {
			phase = rng.anyint<u32>();
			o.set_phase(phase);
			VF_EQ((u64)o.val(), tri(phase), "set-phase");
		}
		unsigned n = 1 + rng.below(60);
		for (unsigned k = 0; k < n; k++) {
			u32 next = phase + inc;
			wraps += next < phase;
			phase = next;
			switch (rng.below(3)) {
				case 0:
					o.update();
					VF_EQ((u64)o.val(), tri(phase), "triangle-value");
					VF_EQ((u64)o.val(), tri(phase), "val-does-not-advance");
					break;
				case 1:
					VF_EQ((u64)o.process(), tri(phase), "triangle-value");
					break;
				default: {
					float v = o.process_float();
					double want = tri(phase) / 4294967295.0;
					VF_CHECK(std::abs(v - want) <= 2e-7 && v >= 0.f && v <= 1.f, "triangle-float", "%.9g, exact %.9g", v, want);
				}
			}
		}
		h.add(phase).add(inc);
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "triangle");
	VF_COVERN("triangle_cycles", wraps);
	if (wraps)
		nontrivial(h);
}
VF_SUITE(triangles, 25000, 2000000) {
	switch (rng.below(5)) {
		case 0:
			return triangle<120>(rng);
		case 1:
			return triangle<1000>(rng);
		case 2:
			return triangle<48000>(rng);
		case 3:
			return triangle<2>(rng);
		default:
			return triangle<7>(rng);
	}
}

template<int Rate>
static void ramp(Rng &rng) {
	u32 f = rng.below(2) ? rng.below(Rate) : rng.below(5);
	bool ctor = rng.chance(1, 2);
	Guarded<RampOscillator<Rate>> g(ctor ? PhaseAccum<Rate>(f) : PhaseAccum<Rate>());
	auto &o = g.obj;
	u32 phase = 0;
	VF_EQ(o.val(), 0u, "ramp-initial");
	if (!ctor) {
		VF_EQ(o.process(), 0u, "ramp-idle");
		o.set_frequency(f);
	}
	u32 inc = o.process();
	phase = inc;
	check_increment(inc, f, Rate, "ramp-frequency");
	// after k updates the phase is k times the increment: no drift
	u64 k = 1;
	u64 wraps = 0;
	u32 start = 0;
	for (unsigned i = 0, len = run_length(rng, 20 + rng.below(300)); i < len; i++) {
		if (rng.chance(1, 60) && rarely(rng)) {
			start = rng.anyint<u32>();
			k = 0;
			o.set_phase(start);
			VF_EQ(o.val(), start, "set-phase");
		}
		k++;
		u64 total = start + k * inc;
		phase = (u32)total;
		wraps = total >> 32;
		switch (rng.below(4)) {
			case 0:
				o.update();
				break;
			case 1:
				VF_EQ(o.process(), phase, "ramp-value");
				break;
			case 2:
				VF_EQ(o.Process(), phase, "ramp-value");
				break;
			default: {
				float v = o.process_float();
				VF_CHECK(std::abs(v - phase / 4294967295.0) <= 1.2e-7 && v >= 0 && v <= 1.f, "ramp-float", "%.9g for phase %u", v, phase);
			}
		}
		VF_LOG("phase %u after %llu updates", phase, (unsigned long long)k);
		VF_EQ(o.val(), phase, "ramp-value");
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "ramp");
	VF_COVERN("ramp_cycles", wraps);
	if (wraps)
		nontrivial(Hash{}.add(Rate).add(f).add(phase));
}
// one cycle of the wave takes rate/freq updates
template<int Rate>
static void cycles(Rng &rng) {
	u32 f = 1 + rng.below(Rate / 2);
	PhaseAccum<Rate> o(f);
	u64 n = 0, seen = 0;
	u32 last = 0;
	for (u64 i = 0; i < (u64)Rate; i++) {
		u32 v = o.process();
		seen += v < last;
		last = v;
		n++;
	}
	// one second: f cycles, the last of which may be a few counts short
	VF_CHECK(seen == f || seen + 1 == f, "cycles-per-second", "%llu cycles in %d updates at %u Hz", (unsigned long long)seen, Rate, f);
	if (seen + 1 == f)
		VF_CHECK(last >= (u32)(P32 - 1 - (u64)f * 2 * Rate), "cycles-per-second", "phase %u", last);
	VF_COVER("seconds_counted");
	nontrivial(Hash{}.add(Rate).add(f).add(77));
}
VF_SUITE(ramps, 25000, 2000000) {
	switch (rng.below(6)) {
		case 0:
			return ramp<120>(rng);
		case 1:
			return ramp<1000>(rng);
		case 2:
			return ramp<48000>(rng);
		case 3:
			return ramp<1>(rng);
		case 4:
			return cycles<97>(rng);
		default:
			return cycles<1000>(rng);
	}
}

template<int Rate>
static void sine(Rng &rng) {
	u32 f = rng.below(2) ? rng.below(Rate) : rng.below(5);
	bool ctor = rng.chance(1, 2);
	Guarded<SineOscillator<Rate>> g(ctor ? SineOscillator<Rate>(f) : SineOscillator<Rate>());
	auto &o = g.obj;
	if (!ctor)
		o.set_frequency(f);
	PhaseAccum<Rate> ref(f);
	u32 inc = ref.process(), phase = 0;
	for (unsigned i = 0, len = run_length(rng, 10 + rng.below(200)); i < len; i++) {
		if (rng.chance(1, 30) && rarely(rng)) {
			phase = rng.chance(1, 3) ? rng.pick({0u, 0x40000000u, 0x80000000u, 0xC0000000u, 0xFFFFFFFFu}) : rng.anyint<u32>();
			o.set_phase(phase);
		}
		phase += inc;
		double want = std::sin(2 * M_PI * (phase / 4294967296.0));
		VF_LOG("sine phase %u", phase);
		switch (rng.below(4)) {
			case 0:
				o.update();
				break;
			case 1: {
				float v = o.process_bipolar();
				VF_CHECK(std::abs(v - want) <= 8e-6 && v >= -1.000001f && v <= 1.000001f, "sine-value", "%.9g, exact %.9g", v, want);
				break;
			}
			case 2: {
				float v = o.process_unipolar();
				VF_CHECK(std::abs(v - (want * .5 + .5)) <= 5e-6 && v >= -1e-6f && v <= 1.000001f, "sine-unipolar", "%.9g, exact %.9g", v, want * .5 + .5);
				break;
			}
			default: {
				u32 v = o.process();
				double w = (want * .5 + .5) * 4294967040.0;
				VF_CHECK(std::abs(v - w) <= 5e-6 * 4294967296.0, "sine-integer", "%u, exact %.0f", v, w);
			}
		}
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "sine");
	VF_COVER("sine_runs");
	nontrivial(Hash{}.add(Rate).add(f).add(phase).add(3));
}
VF_SUITE(sines, 25000, 2000000) {
	switch (rng.below(4)) {
		case 0:
			return sine<120>(rng);
		case 1:
			return sine<1000>(rng);
		case 2:
			return sine<48000>(rng);
		default:
			return sine<3>(rng);
	}
}
// reading the present value with val() leaves the oscillator where it is, as in the other oscillators
VF_SUITE(sine_val, 20, 200) {
	u32 f = 1 + rng.below(40);
	SineOscillator<480> o(f);
	o.update();
	u32 got = o.val();
	u32 phase = 0;
	PhaseAccum<480> ref(f);
	double at = std::sin(2 * M_PI * (ref.process() / 4294967296.0)) * .5 + .5;
	phase = ref.process();
	double next = std::sin(2 * M_PI * (phase / 4294967296.0)) * .5 + .5;
	// whichever of the two it reads, val() is a sample of the sine
	VF_CHECK(std::min(std::abs(got - at * 4294967040.0), std::abs(got - next * 4294967040.0)) <= 5e-6 * 4294967296.0,
			 "val-is-no-sample-of-the-sine", "%u, sine %.0f and %.0f", got, at * 4294967040.0, next * 4294967040.0);
	VF_COVER("sine_val_read");
	double want = std::sin(2 * M_PI * (phase / 4294967296.0));
	float v = o.process_bipolar();
	VF_CHECK(std::abs(v - want) <= 8e-6, "val-advances-the-phase", "after update(), val(), process: %.9g, two updates give %.9g", v, want);
}

// ---------------------------------------------------------------------------
template<int Rate>
static void down(Rng &rng) {
	Guarded<DownCounter<Rate>> g;
	auto &o = g.obj;
	VF_EQ(o.val(), 0xFFFFFFFFu, "counter-initial");
	Hash h;
	h.add(Rate);
	unsigned fired = 0;
	for (unsigned i = 0, len = 1 + rng.below(5); i < len; i++) {
		double want = -1, extra = 0; // expected number of updates until zero
		if (rng.chance(1, 2)) {
			u32 f = rng.chance(1, 8) ? 0 : 1 + rng.below(rng.chance(1, 2) ? Rate : std::min(Rate, 20));
			o.set_frequency(f);
			VF_LOG("set_frequency(%u) at %d", f, Rate);
			want = f ? (double)Rate / f : 1;
			h.add(f);
			if (!f)
				VF_COVER("frequency_zero");
		} else {
			u32 ms = rng.chance(1, 8) ? rng.below(3) : 1 + (u32)rng.below(std::min<u64>(200000, 1500ull * 1000 / Rate + 10));
			o.set_period_ms(ms);
			VF_LOG("set_period_ms(%u) at %d", ms, Rate);
			want = ms / 1000.0 * Rate;
			if (want < 1) {
				VF_COVER("period_below_one_update");
				want = 1;
			}
			h.add(ms).add(5);
		}
		extra = want * (3e-7 + (double)Rate / P32 * 2 + want / P32 * 2);
		if (want > 3000)
			continue;
		u32 from = 0xFFFFFFFF;
		if (rng.chance(1, 4)) {
			from = rng.anyint<u32>();
			o.set_phase(from);
			VF_EQ(o.val(), from, "set-phase");
		} else {
			o.reset();
			VF_EQ(o.val(), 0xFFFFFFFFu, "reset");
		}
		// the count falls by equal steps and ends at zero exactly once
		o.update();
		u32 v1 = o.val();
		VF_CHECK(v1 <= from, "counter-rises", "%u after %u", v1, from);
		u64 n = 1;
		u64 inc = v1 ? from - v1 : 0;
		u32 v = v1;
		while (v && n < 20000) {
			VF_CHECK(inc > 0, "never-ends", "%u", v);
			u32 w = v > inc ? v - inc : 0;
			o.update();
			n++;
			VF_EQ(o.val(), w, "count-step");
			v = w;
		}
		VF_EQ(v, 0u, "never-ends");
		if (from == 0xFFFFFFFF) {
			double lo = std::floor(want - extra) - 0, hi = std::ceil(want + extra) + 1;
			VF_CHECK(n >= lo && n <= hi, "counter-length", "%llu updates, configured %.6f", (unsigned long long)n, want);
			if (want >= 1)
				VF_COVER("counts_timed");
		}
		fired++;
		for (unsigned k = rng.below(5); k; k--) {
			o.update();
			VF_EQ(o.val(), 0u, "restarts-by-itself");
		}
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "DownCounter");
	if (fired)
		nontrivial(h);
}
VF_SUITE(down_counters, 15000, 1000000) {
	switch (rng.below(4)) {
		case 0:
			return down<100>(rng);
		case 1:
			return down<1000>(rng);
		case 2:
			return down<48000>(rng);
		default:
			return down<7>(rng);
	}
}

VF_SUITE(one_shots, 15000, 1000000) {
	float rate = 48000.f;
	std::optional<Guarded<OneShot>> g;
	if (rng.chance(1, 5))
		g.emplace();
	else {
		rate = rng.chance(1, 2) ? (float)(1 << rng.below(16)) : (float)rng.real(1, 96000);
		g.emplace(rate);
	}
	auto &o = g->obj;
	VF_CHECK(!o.update(), "fires-without-start", "%s", "");
	Hash h;
	h.addf(rate);
	for (unsigned i = 0, len = 1 + rng.below(6); i < len; i++) {
		if (rng.chance(1, 3)) {
			float r = rng.chance(1, 4) ? (float)rng.range(-3, 0) : rng.chance(1, 2) ? (float)(1 << rng.below(16)) : (float)rng.real(1, 96000);
			o.set_update_rate_hz(r);
			if (r > 0)
				rate = r;
			else
				VF_COVER("impossible_rate_ignored");
			VF_LOG("set_update_rate_hz(%g)", r);
		}
		double updates = rng.chance(1, 3) ? rng.below(50) : rng.real(0, 700);
		float width = (float)(updates / rate);
		VF_LOG("start(%.9g), rate %.9g", width, rate);
		o.start(width);
		int e;
		bool exact = std::frexp(rate, &e) == 0.5 && updates == std::floor(updates);
		double real = (double)width * rate;
		u64 want = (u64)std::ceil(real);
		if (rng.chance(1, 6)) { // started again, or stopped, before its end
			for (u64 k = rng.below(want); k; k--)
				VF_CHECK(o.update(), "ends-early", "%s", "");
			if (rng.chance(1, 2)) {
				o.stop();
				VF_CHECK(!o.update(), "runs-after-stop", "%s", "");
				VF_COVER("stopped");
				continue;
			}
			o.start(width);
			VF_COVER("restarted");
		}
		u64 n = 0;
		while (n < want + 10 && o.update())
			n++;
		double slack = exact ? 0 : 3e-7 * real + 1e-9; // the width and the rate are floats
		VF_CHECK((double)n >= std::ceil(real - slack) && (double)n <= std::ceil(real + slack),
				 "pulse-length",
				 "true for %llu updates, width is %.9g updates",
				 (unsigned long long)n,
				 real);
		if (exact)
			VF_COVER("pulses_exactly_timed");
		else
			VF_COVER("pulses_timed");
		for (unsigned k = 1 + rng.below(5); k; k--)
			VF_CHECK(!o.update(), "fires-again", "%s", "");
		h.add(n);
	}
	VF_CHECK(g->intact(), "writes-outside", "%s", "OneShot");
	nontrivial(h);
}

// Pulses of minutes and hours: still on the update.
VF_SUITE(long_pulses, 24, 400) {
	float rate = rng.chance(1, 2) ? 48000.f : (float)rng.range(8000, 96000);
	Guarded<OneShot> g(rate);
	auto &o = g.obj;
#ifdef VF_CFG_OPT
	double most = rng.chance(1, 24) ? 1e9 : 2e7;
#else
	double most = 2e6;
#endif
	float width = (float)rng.real(1, most / rate);
	if (rng.chance(1, 2))
		width = std::floor(width);
	o.start(width);
	double real = (double)width * rate;
	bool exact = width == std::floor(width) && rate == std::floor(rate);
	u64 n = 0, limit = (u64)(real * 1.001) + 10;
	while (n < limit && o.update())
		n++;
	double slack = exact && real < 4e6 ? 0 : 3e-7 * real;
	VF_CHECK((double)n >= std::ceil(real - slack) && (double)n <= std::ceil(real + slack),
			 "pulse-length",
			 "true for %llu updates%s, width is %.9g updates",
			 (unsigned long long)n,
			 n == limit ? " and more" : "",
			 real);
	VF_CHECK(!o.update(), "fires-again", "%s", "");
	if (real > 60. * rate)
		VF_COVER("pulses_longer_than_a_minute");
	nontrivial(Hash().addf(width).addf(rate));
}

// The rate changes while the pulse runs: the seconds left are kept.
VF_SUITE(pulses_across_rates, 4000, 300000) {
	float rate = (float)rng.range(1, 96000);
	OneShot o{rate};
	double left = rng.real(1, 400); // in updates at the present rate
	float width = (float)(left / rate);
	left = (double)width * rate;
	o.start(width);
	Hash h;
	h.addf(rate);
	unsigned changes = 1 + rng.below(5);
	double slack = 3e-7 * left + 1e-9;
	for (unsigned c = 0; c < changes && left > 2; c++) {
		for (u64 k = rng.below((u64)left - 1); k; k--, left -= 1)
			VF_CHECK(o.update(), "ends-early", "%g updates left", left);
		float r = (float)std::clamp(rate * rng.real(0.25, 4), 1., 96000.);
		VF_LOG("%g updates left at %g, then %g", left, rate, r);
		o.set_update_rate_hz(r);
		slack = slack * r / rate + 3e-7 * left * r / rate;
		left *= r / (double)rate;
		rate = r;
		h.addf(r);
		VF_COVER("rate_changed_during_a_pulse");
	}
	u64 n = 0;
	while (n < left + 10 && o.update())
		n++;
	// a whole update either way
	VF_CHECK((double)n >= std::floor(left - slack) && (double)n <= std::ceil(left + slack) + 1,
			 "pulse-length",
			 "true for %llu more updates, %.9g were left",
			 (unsigned long long)n,
			 left);
	nontrivial(h);
}
