// C20: debouncers, togglers, edge detectors, Schmitt triggers and the quadrature decoder.
#include "vf.hh"
#include "util/debouncer.hh"
#include "util/debouncer_compact.hh"
#include "util/edge_detector.hh"
#include "util/quadrature_encoder.hh"
#include "util/schmitt_trigger.hh"
using namespace vf;

struct Model {
	bool high = false, rose = false, fell = false;
};
template<typename T>
static void check_state(const T &t, const Model &m) {
	VF_EQ(t.is_high(), m.high, "state");
	VF_EQ(t.is_pressed(), m.high, "state");
	VF_EQ((bool)t, m.high, "state");
}
// reading an event consumes it
template<typename T>
static void read_flags(Rng &rng, T &t, Model &m) {
	switch (rng.below(4)) {
		case 0:
			VF_EQ(t.is_just_pressed(), m.rose, "rising-event");
			m.rose = false;
			break;
		case 1:
			VF_EQ(t.just_went_high(), m.rose, "rising-event");
			m.rose = false;
			break;
		case 2:
			VF_EQ(t.is_just_released(), m.fell, "falling-event");
			m.fell = false;
			break;
		case 3:
			VF_EQ(t.just_went_low(), m.fell, "falling-event");
			m.fell = false;
			break;
	}
}

template<typename T>
static void togglers(Rng &rng) {
	Guarded<std::array<T, 3>> g;
	auto &t = g.obj;
	Model m[3];
	Hash h;
	for (unsigned i = 0, n = run_length(rng, 4 + rng.below(40), 200000, 10000); i < n; i++) {
		unsigned a = rng.below(3), b = rng.below(3), op = rng.below(14);
		bool s = rng.chance(1, 2);
		VF_LOG("op %u on %u (%u) %d", op, a, b, s);
		h.add(op * 64 + a * 8 + b * 2 + s);
		switch (op) {
			case 0:
			case 1:
			case 2:
				if (rng.chance(1, 2))
					t[a].process(s);
				else
					t[a].register_state(s);
				if (s != m[a].high) {
					(s ? m[a].rose : m[a].fell) = true;
					VF_COVER("toggles");
				}
				m[a].high = s;
				break;
			case 3:
				t[a].register_rising_edge();
				m[a] = {true, true, false};
				break;
			case 4:
				t[a].register_falling_edge();
				m[a] = {false, false, true};
				break;
			case 5:
				t[a].clear_events();
				m[a].rose = m[a].fell = false;
				break;
			case 6:
				t[a].reset();
				m[a] = {};
				break;
			case 7:
				if (rng.chance(1, 2))
					t[a].set_state_no_events(s ? 1 + rng.below(5) : 0);
				else if constexpr (requires { t[a].set_state(1); }) {
#pragma GCC diagnostic push
#pragma GCC diagnostic ignored "-Wdeprecated-declarations"
					t[a].set_state(s ? 1 + rng.below(5) : 0);
#pragma GCC diagnostic pop
				} else
					t[a].set_state_no_events(s);
				m[a].high = s;
				break;
			case 8:
				if (rng.chance(1, 2))
					t[a] = t[b];
				else
					t[a].copy_state(t[b]);
				m[a] = m[b];
				VF_COVER("copied_states");
				break;
			case 9:
			case 10:
				// which of two unread opposite events is transferred is not described
				if (a == b || (m[b].rose && m[b].fell))
					break;
				if (op == 9)
					t[a].update_state(t[b]);
				else
					t[a].transfer_events(t[b]);
				m[a].rose |= m[b].rose;
				m[a].fell |= m[b].fell;
				m[a].high = m[b].high;
				if (op == 10)
					m[b].rose = m[b].fell = false;
				VF_COVER("transferred_events");
				break;
			default:
				read_flags(rng, t[a], m[a]);
				if (rng.chance(1, 2))
					read_flags(rng, t[a], m[a]);
		}
		for (unsigned k = 0; k < 3; k++)
			check_state(t[k], m[k]);
	}
	for (unsigned k = 0; k < 3; k++) {
		VF_EQ(t[k].is_just_pressed(), m[k].rose, "rising-event");
		VF_EQ(t[k].is_just_released(), m[k].fell, "falling-event");
	}
	VF_CHECK(g.intact(), "writes-outside-itself", "%s", "");
	nontrivial(h);
}
VF_SUITE(toggler, 40000, 2000000) {
	togglers<Toggler>(rng);
}
VF_SUITE(toggler_compact, 40000, 2000000) {
	togglers<TogglerCompact>(rng);
}

// a port masked for one pin: any bit may be the one that is set
static unsigned raw_level(Rng &rng, bool s) {
	if (!s || !rng.chance(1, 4))
		return s;
	VF_COVER("levels_of_other_bits");
	return rng.chance(1, 2) ? 1u << rng.below(32) : rng.pick({2u, 0xFFu, 0x100u, 0x80000000u, 0xFFFFFFFFu});
}

VF_SUITE(toggler_counter, 40000, 2000000) {
	TogglerCounter t;
	Model m;
	unsigned count = 0;
	Hash h;
	unsigned hold = 0; // a level held for long
	for (unsigned i = 0, n = run_length(rng, 4 + rng.below(60), 200000, 10000); i < n; i++) {
		unsigned op = rng.below(12);
		bool s = rng.chance(1, 4) ? !m.high : m.high;
		if (hold) {
			hold--;
			s = m.high;
			op = op == 8 ? 11 : op;
		} else if (in_long_history() && rng.chance(1, 1000)) {
			hold = 70000 * 3 / 2;
			VF_COVER("levels_held_for_long");
		}
		VF_LOG("op %u %d", op, s);
		h.add(op * 2 + s);
		if (op < 8) {
			unsigned raw = raw_level(rng, s);
			if (rng.chance(1, 2))
				t.process(raw);
			else
				t.register_state(raw);
			if (s != m.high) {
				(s ? m.rose : m.fell) = true;
				count = 0;
			} else
				count++;
			m.high = s;
		} else if (op == 8) {
			t.reset_count();
			count = 0;
		} else if (op == 9) {
			t.clear_events();
			m.rose = m.fell = false;
		} else
			read_flags(rng, t, m);
		check_state(t, m);
		VF_EQ(t.steady_state_count(), count, "steady-count");
		if (count > 3)
			VF_COVER("steady_states");
	}
	nontrivial(h);
}

template<unsigned R, unsigned F, unsigned M, bool Deb, typename D = Debouncer<R, F, M, Deb>, typename DC = DebouncerCounter<R, F, M, Deb>>
static void debounce(Rng &rng) {
	D d;
	DC dc;
	Model m, mc;
	unsigned count = 0;
	u32 hist = 0;
	constexpr unsigned W = 32 - __builtin_clz(M);
	std::string seq;
	unsigned n = run_length(rng, 8 + rng.below(6 * W), 200000, 8000), plan = 0, left = 0;
	bool level = false;
	for (unsigned i = 0; i < n; i++) {
		if (!left) {
			plan = rng.below(6);
			left = plan < 2 ? W + rng.below(4) - 2 : plan == 2 ? 1 + rng.below(W) : 1 + rng.below(3);
			if (in_long_history() && rng.chance(1, 1000)) {
				plan = 0;
				left = 70000;
				VF_COVER("levels_held_for_long");
			}
			level = !level;
			if (plan == 5) // aim: the pattern itself, or off by one bit
				left = W;
		}
		bool s = level;
		if (plan == 4)
			s = rng.chance(1, 2);
		if (plan == 5) {
			s = ((level ? R : F) >> (left - 1)) & 1;
			if (rng.chance(1, 24))
				s = !s;
		}
		left--;
		if (!in_long_history())
			seq += s ? '1' : '0';
		hist = hist << 1 | s;
		unsigned raw = raw_level(rng, s);
		d.register_state(raw);
		dc.register_state(raw);
		bool rise = (hist & M) == (R & M), fall = !rise && (hist & M) == (F & M);
		for (auto *x : {&m, &mc}) {
			if (rise)
				*x = {true, true, false};
			else if (fall)
				*x = {false, false, true};
			else if (!Deb)
				x->high = s;
		}
		count = rise || fall ? 0 : count + 1;
		if (rise)
			VF_COVER("debounced_rises");
		if (fall)
			VF_COVER("debounced_falls");
		if (Deb && s != m.high)
			VF_COVER("raw_differs_from_debounced");
		check_state(d, m);
		check_state(dc, mc);
		VF_EQ(dc.steady_state_ctr, count, "steady-count");
		if (rng.chance(1, 3))
			read_flags(rng, d, m);
		if (rng.chance(1, 3))
			read_flags(rng, dc, mc);
		if (rise || fall) {
			if (rng.chance(1, 2)) {
				VF_LOG("samples so far %s", seq.c_str());
				VF_EQ(d.is_just_pressed(), m.rose, "rising-event");
				VF_EQ(d.is_just_released(), m.fell, "falling-event");
				m.rose = m.fell = false;
				VF_EQ(d.is_just_pressed(), false, "event-delivered-twice");
				VF_EQ(d.is_just_released(), false, "event-delivered-twice");
			}
		}
	}
	VF_LOG("samples %s", seq.c_str());
	VF_EQ(d.is_just_pressed(), m.rose, "rising-event");
	VF_EQ(d.is_just_released(), m.fell, "falling-event");
	VF_EQ(dc.is_just_pressed(), mc.rose, "rising-event");
	VF_EQ(dc.is_just_released(), mc.fell, "falling-event");
	nontrivial(Hash{}.add(std::string_view(seq)).add(R).add(M).add(Deb));
	if (want_sample())
		sample("samples " + seq);
}
VF_SUITE(debouncer, 80000, 4000000) {
	switch (rng.below(7)) {
		case 6: // with no arguments: twelve samples, one different from the eleven before it
			return debounce<1, 0xFFFFFFFE, 0xFFF, false, Debouncer<>, DebouncerCounter<>>(rng);
		case 0:
			return debounce<1, 0xFFFFFFFE, 0xFFF, false>(rng);
		case 1:
			return debounce<1, 0xFFFFFFFE, 0xFFF, true>(rng);
		case 2:
			return debounce<0x1, 0xFFFFFFFE, 0x7, true>(rng);
		case 3:
			return debounce<0x0F, 0xF0, 0xFF, true>(rng);
		case 4:
			return debounce<1, 0xFFFFFFFE, 0xFFFFFFFF, true>(rng);
		default:
			return debounce<0x00FF, 0xFF00, 0xFFFF, false>(rng);
	}
}

// every sample sequence of 12
VF_SUITE(enum_edges, 4096, 4096) {
	EdgeStateDetector e;
	RisingEdgeDetector r;
	FallingEdgeDetector f;
	bool last = false;
	VF_CHECK(!e.changed() && !e.went_high() && !e.went_low() && !e.is_high() && !e.staying_high(), "edge-before-the-first-sample", "%s", "");
	for (int i = 0; i < 12; i++) {
		bool s = idx >> i & 1;
		e.update(s);
		VF_EQ(e.changed(), s != last, "changed");
		VF_EQ(e.went_high(), s && !last, "went-high");
		VF_EQ(e.went_low(), !s && last, "went-low");
		VF_EQ(e.is_high(), s, "is-high");
		VF_EQ(e.staying_high(), s && last, "staying-high");
		VF_EQ(e.staying_low(), !s && !last, "staying-low");
		VF_EQ(r.update(s), s && !last, "rising-detector");
		VF_EQ(f.update(s), !s && last, "falling-detector");
		last = s;
		VF_COVER("edge_samples");
	}
	e.reset();
	VF_CHECK(!e.is_high() && !e.changed() && e.staying_low(), "reset", "%s", "");
	nontrivial(idx);
}

VF_SUITE(schmitt, 60000, 4000000) {
	float a = rng.anyfloat(-6, 6), b = rng.anyfloat(-6, 6);
	if (a > b)
		std::swap(a, b);
	if (rng.chance(1, 4))
		b = a;
	bool dflt = rng.chance(1, 4);
	if (dflt) {
		a = 0.4f;
		b = 0.6f;
	}
	auto t = dflt ? cpputil::SchmittTrigger() : cpputil::SchmittTrigger(a, b);
	auto r = dflt ? cpputil::RisingSchmittTrigger() : cpputil::RisingSchmittTrigger(a, b);
	Model m;
	Hash h;
	h.addf(a).addf(b);
	for (unsigned i = 0, n = run_length(rng, 4 + rng.below(40), 200000, 8000); i < n; i++) {
		float v;
		switch (rng.below(8)) {
			case 0:
				v = a;
				break;
			case 1:
				v = b;
				break;
			case 2:
				v = std::nextafter(b, INFINITY);
				break;
			case 3:
				v = std::nextafter(a, -INFINITY);
				break;
			case 4:
				v = rng.chance(1, 2) ? std::nextafter(b, -INFINITY) : std::nextafter(a, INFINITY);
				break;
			case 5:
				v = rng.pick({INFINITY, -INFINITY, NAN, 0.f});
				break;
			default:
				v = rng.real(a - 1, b + 1);
		}
		h.addf(v);
		t.process(v);
		bool up = r.update(v);
		bool rise = !m.high && v > b, fall = m.high && v < a;
		if (rise)
			m = {true, true, false};
		else if (fall)
			m = {false, false, true};
		VF_LOG("value %.9g (band %.9g..%.9g) rise %d fall %d", v, a, b, rise, fall);
		check_state(t, m);
		VF_EQ(up, rise, "rising-trigger");
		if (rise)
			VF_COVER("schmitt_rises");
		else if (fall)
			VF_COVER("schmitt_falls");
		else if (v >= a && v <= b)
			VF_COVER("schmitt_inside_band");
		if (rng.chance(1, 2))
			read_flags(rng, t, m);
	}
	nontrivial(h);
}

template<bool Inv>
static void quad_sequence(u64 code, unsigned len) {
	QuadratureEncoder<Inv> q;
	using Q = QuadratureEncoder<Inv>;
	unsigned hist[4] = {0, 0, 0, 0};
	const unsigned x = Inv ? 3 : 0;
	const unsigned cw[4] = {1 ^ x, 0 ^ x, 2 ^ x, 3 ^ x}, ccw[4] = {2 ^ x, 0 ^ x, 1 ^ x, 3 ^ x};
	for (unsigned i = 0; i < len; i++, code >>= 2) {
		unsigned s = code & 3;
		int want = 0;
		if (s != hist[3]) {
			for (int k = 0; k < 3; k++)
				hist[k] = hist[k + 1];
			hist[3] = s;
			want = std::equal(hist, hist + 4, cw) ? 1 : std::equal(hist, hist + 4, ccw) ? -1 : 0;
		}
		auto got = q.get_motion(s & 1, s >> 1);
		VF_EQ((int)got, want, "motion");
		if (want)
			VF_COVER("steps_decoded");
	}
	(void)sizeof(Q);
}
VF_SUITE(enum_quadrature, 256, 256) {
	for (u64 k = 0; k < 1024; k++) {
		quad_sequence<false>(idx << 10 | k, 9);
		quad_sequence<true>(idx << 10 | k, 9);
	}
	evaluated(2048);
}
// a shaft turned forth and back, resting at the detents, sampled at any rate
template<bool Inv>
static void shaft(Rng &rng) {
	QuadratureEncoder<Inv> q;
	// cw: 3 -> 1 -> 0 -> 2 -> 3 (inverted: complemented); detents at index 0
	const unsigned cyc[4] = {3, 1, 0, 2};
	auto sample_at = [&](int pos) {
		unsigned s = cyc[((pos % 4) + 4) % 4] ^ (Inv ? 3 : 0);
		int r = 0;
		for (unsigned i = 0, n = 1 + rng.below(3); i < n; i++)
			r += (int)q.get_motion(s & 1, s >> 1);
		return r;
	};
	int pos = 0, net = 0;
	sample_at(0);
	for (unsigned i = 0, n = run_length(rng, 1 + rng.below(20), 100000, 8000); i < n; i++) {
		int dir = rng.chance(1, 2) ? 1 : -1;
		if (rng.chance(1, 5)) {
			// part of a step, and back: no step
			int k = 1 + (int)rng.below(2), r = 0; // up to half a step: beyond, the way back is itself a step
			for (int j = 0; j < k; j++)
				r += sample_at(pos += dir);
			for (int j = 0; j < k; j++)
				r += sample_at(pos -= dir);
			VF_EQ(r, 0, "incomplete-step-counted");
			VF_COVER("incomplete_steps");
		} else {
			int r = 0;
			for (int j = 0; j < 4; j++)
				r += sample_at(pos += dir);
			VF_EQ(r, dir, "one-report-per-step");
			net += dir;
			VF_COVER("shaft_steps");
		}
	}
	VF_EQ(pos / 4, net, "net-steps");
	nontrivial(Hash{}.add(rng.next()));
}
VF_SUITE(quadrature_shaft, 40000, 2000000) {
	rng.chance(1, 2) ? shaft<false>(rng) : shaft<true>(rng);
}

// gates from math.hh: on above the turn-on threshold, off below the turn-off one
#include "util/math.hh"
VF_SUITE(hysteresis_gates, 60000, 4000000) {
	float off = (float)rng.real(0, 1), on = off + (float)rng.real(0, 1);
	if (rng.chance(1, 4))
		off = 0.4f, on = 0.6f;
	float coef = (on - off) / 2, mid = (on + off) / 2;
	float a = 0, b = 0;
	for (unsigned i = 0, n = 4 + rng.below(30); i < n; i++) {
		float v = (float)rng.real(off - 0.3, on + 0.3);
		if (rng.chance(1, 3))
			v = (rng.chance(1, 2) ? on : off) + (rng.chance(1, 2) ? 3e-6f : -3e-6f);
		if (std::fabs(v - on) < 1.5e-6f || std::fabs(v - off) < 1.5e-6f)
			continue;
		float want = v > on ? 1.f : v < off ? 0.f : a;
		VF_LOG("input %.9g (off %.9g on %.9g), last %g", v, off, on, a);
		if (v > off && v < on)
			VF_COVER("gate_inside_band");
		if (a == 0 && v > mid && v < on)
			VF_COVER("gate_between_middle_and_on");
		a = MathTools::hysteresis_gate(off, on, a, v);
		VF_CHECK(a == want, "hysteresis-gate", "input %.9g band %.9g..%.9g: %g, expected %g", v, off, on, a, want);
		b = MathTools::hysteresis_feedback(coef, mid, b, v);
		VF_CHECK(b == want, "hysteresis-feedback", "input %.9g band %.9g..%.9g: %g, expected %g", v, off, on, b, want);
		nontrivial(Hash{}.addf(v).addf(on));
	}
}
