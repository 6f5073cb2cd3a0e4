// C25: two-point and volt-per-octave calibration against exact affine maps.
#include "vf.hh"
#include "util/calibrator.hh"
#include "util/voct_calibrator.hh"
using namespace vf;

static float operand(Rng &rng) {
	if (rng.chance(1, 6))
		return (float)rng.range(-10, 10);
	return rng.anyfloat(-9, 20);
}

VF_SUITE(two_points, 150000, 10000000) {
	float tl = operand(rng), th = operand(rng), ml = operand(rng), mh = operand(rng);
	if (rng.chance(1, 3)) { // as used: volts against codec values
		tl = (float)rng.range(-5, 5);
		th = tl + (float)rng.range(1, 8);
		ml = (float)rng.range(-8388608, 8388607);
		mh = (float)rng.range(-8388608, 8388607);
		if (rng.chance(1, 2)) {
			std::swap(tl, ml);
			std::swap(th, mh);
		}
	}
	if (tl == th || ml == mh)
		return;
	double slope = ((double)th - tl) / ((double)mh - ml), offset = ml - tl / slope;
	constexpr double eps = 1.2e-7;
	Calibrator c;
	VF_CHECK(c.slope() == 1.f && c.offset() == 0.f, "default-is-identity", "%g %g", c.slope(), c.offset());
	float any = operand(rng);
	VF_CHECK(c.adjust(any) == any && c.reverse_calibrate(any) == any, "default-is-identity", "%.9g", any);
	switch (rng.below(3)) {
		case 0:
			c = Calibrator({tl, th}, {ml, mh});
			VF_COVER("made_from_points");
			break;
		case 1:
			c.calibrate_chan(tl, th, ml, mh);
			break;
		default:
			c.calibrate_chan(std::pair{tl, th}, std::pair{ml, mh});
	}
	VF_LOG("targets %.9g %.9g measurements %.9g %.9g", tl, th, ml, mh);
	VF_CHECK(std::abs(c.slope() - slope) <= 4 * eps * std::abs(slope), "slope", "%.9g, exact %.9g", c.slope(), slope);
	auto fwd = [&](double raw, double want, const char *key) {
		float got = c.adjust((float)raw);
		double tol = 8 * eps * (std::abs(raw * slope) + std::abs(offset * slope) + std::abs(ml * slope) + std::abs(tl));
		VF_CHECK(std::abs(got - want) <= tol, key, "adjust(%.9g) gave %.9g, expected %.9g (+-%g)", raw, got, want, tol);
	};
	auto back = [&](double v, double want, const char *key) {
		float got = c.reverse_calibrate((float)v);
		double tol = 8 * eps * (std::abs(v / slope) + std::abs(offset) + std::abs(ml) + std::abs(tl / slope));
		VF_CHECK(std::abs(got - want) <= tol, key, "reverse_calibrate(%.9g) gave %.9g, expected %.9g (+-%g)", v, got, want, tol);
	};
	fwd(ml, tl, "reference-point-low");
	fwd(mh, th, "reference-point-high");
	back(tl, ml, "reverse-reference-low");
	back(th, mh, "reverse-reference-high");
	for (int i = 0; i < 6; i++) {
		float raw = i < 2 ? (float)rng.real(ml, mh) : operand(rng);
		fwd(raw, (raw - (double)ml) * slope + tl, "affine");
		float v = i < 2 ? (float)rng.real(tl, th) : operand(rng);
		back(v, (v - (double)tl) / slope + ml, "reverse-affine");
		float r = c.reverse_calibrate(c.adjust(raw));
		double tol = 12 * eps * (std::abs((double)raw) + std::abs(offset) + std::abs(ml) + std::abs(tl / slope));
		VF_CHECK(std::abs(r - (double)raw) <= tol, "round-trip", "%.9g came back as %.9g (+-%g)", raw, r, tol);
	}
	VF_COVERN("adjusted_values", 20);
	if (slope < 0)
		VF_COVER("falling_slopes");
	nontrivial(Hash{}.addf(tl).addf(th).addf(ml).addf(mh));
	if (want_sample())
		sample(fmt("targets %g %g for measurements %g %g", tl, th, ml, mh));
}

VF_SUITE(slope_offset, 60000, 4000000) {
	float s = rng.anyfloat(-8, 8), o = operand(rng), x = operand(rng);
	if (s == 0)
		return;
	Calibrator a(s, o), b;
	b.set_slope_offset(s, o);
	for (auto *c : {&a, &b}) {
		VF_CHECK(c->slope() == s && c->offset() == o, "slope-offset-kept", "%g %g", c->slope(), c->offset());
		double w = ((double)x - o) * s, tol = 4e-7 * (std::abs((double)x * s) + std::abs((double)o * s));
		VF_CHECK(std::abs(c->adjust(x) - w) <= tol, "affine", "adjust(%.9g) gave %.9g, expected %.9g", x, c->adjust(x), w);
		w = (double)x / s + o;
		tol = 4e-7 * (std::abs((double)x / s) + std::abs(o));
		VF_CHECK(std::abs(c->reverse_calibrate(x) - w) <= tol, "reverse-affine", "%.9g gave %.9g, expected %.9g", x, c->reverse_calibrate(x), w);
	}
	nontrivial(Hash{}.addf(s).addf(o).addf(x));
}

// ---------------------------------------------------------------------------
template<typename T>
static void voct(Rng &rng) {
	using C = VoctCalibrator<T>;
	Guarded<C> g;
	using R = std::conditional_t<std::is_integral_v<T>, i64, double>;
	struct Pt {
		int n;
		R m;
	};
	std::vector<Pt> pts; // since the last reset
	bool haveC0 = false;
	R slope = 0, offset = 0;
	double tol_s = 0, tol_o = 0;
	double eps = std::is_integral_v<T> ? 0 : sizeof(T) == 4 ? 1.2e-7 : 2.3e-16;
	Hash h;
	h.add(sizeof(T)).add(std::is_integral_v<T>);
	bool ideal = rng.chance(1, 2);
	double is = rng.real(-300000, 300000), io = rng.real(-100000, 100000);
	bool lng = rng.chance(1, 2000);
	if (lng)
		VF_COVER("long_recordings");
	constexpr bool narrow = sizeof(T) == 2; // measurements over the whole type, slope and offset always within it
	if (narrow) {
		ideal = true;
		io = rng.real(-15000, 15000);
		is = (rng.real(-28000, 28000) - io) / 10;
	}
	unsigned same = 0, c0s = 0;
	auto agree = [&] {
		VF_CHECK(std::abs((double)g.obj.slope() - (double)slope) <= tol_s, "slope", "observed %.12g, model says %.12g", (double)g.obj.slope(), (double)slope);
		VF_CHECK(std::abs((double)g.obj.offset() - (double)offset) <= tol_o, "offset", "observed %.12g, model says %.12g (+-%g)", (double)g.obj.offset(), (double)offset, tol_o);
	};
	agree();
	for (unsigned i = 0, len = 1 + rng.below(lng ? 3000 : 14); i < len; i++) {
		if (rng.chance(1, lng ? 5000 : 10)) {
			g.obj.reset();
			pts.clear();
			haveC0 = false;
			slope = offset = 0;
			tol_s = tol_o = 0;
			VF_LOG("reset%s", "");
			VF_COVER("resets");
			h.add(100);
			agree();
			continue;
		}
		int note = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : 11) : rng.below(11);
		if (!pts.empty() && rng.chance(1, 8))
			note = pts.back().n;
		T m = ideal ? (T)(is * note + io) : (T)rng.real(-1e6, 1e6);
		if (narrow)
			m += (T)rng.range(-50, 50);
		else if (!pts.empty() && rng.chance(1, 10))
			m = (T)pts.back().m;
		g.obj.record_measurement((typename C::Note)note, m);
		VF_LOG("record(%d, %g)", note, (double)m);
		h.add(note).addf((double)m);
		if (note == C::None) {
			VF_COVER("none_ignored");
			agree();
			continue;
		}
		pts.push_back({note, (R)m});
		if (note == 0) {
			haveC0 = true;
			offset = m;
			tol_o = 0;
			c0s++;
		}
		if (pts.size() >= 2) {
			auto a = pts[pts.size() - 2], b = pts.back();
			if (a.n != b.n && (T)a.m != (T)b.m) {
				slope = (a.m - b.m) / (a.n - b.n);
				tol_s = 4 * eps * std::abs((double)slope);
				if (narrow && std::abs((double)a.m - (double)b.m) > 32767)
					VF_COVER("measurements_far_apart");
				VF_COVER("slopes_measured");
			} else
				same++;
			if (!haveC0) {
				offset = ((a.m - slope * a.n) + (b.m - slope * b.n)) / 2;
				tol_o = 8 * eps * (std::abs((double)a.m) + std::abs((double)b.m) + std::abs((double)slope) * (a.n + b.n)) + tol_s * 10;
				VF_COVER("offsets_extrapolated");
			}
		}
		agree();
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "VoctCalibrator");
	if (c0s)
		VF_COVER("c0_overrides_offset");
	if (same)
		VF_COVER("slope_kept_for_repeated_note");
	if (pts.size() >= 2)
		nontrivial(h);
}
VF_SUITE(volt_per_octave, 150000, 10000000) {
	switch (rng.below(5)) {
		case 4:
			return voct<int16_t>(rng);
		case 0:
			return voct<double>(rng);
		case 1:
			return voct<int32_t>(rng);
		default:
			return voct<float>(rng);
	}
}
