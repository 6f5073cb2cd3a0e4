// C21: interpolating tables and the functions built on them.
#include "vf.hh"
#include "util/interp_array.hh"
#include "util/lookup_table.hh"
#include "util/lut.hh"
#include "util/math.hh"
using namespace vf;

// The piecewise linear curve through y[0..n-1]; wrapping: y[n] is y[0].
struct Curve {
	std::vector<double> y;
	bool wrap;
	double at(i64 k) const {
		i64 n = y.size();
		return wrap ? y[((k % n) + n) % n] : y[std::clamp<i64>(k, 0, n - 1)];
	}
	double eval(long double p) const {
		long double f = std::floor(p);
		double t = p - f;
		return at((i64)f) * (1 - t) + at((i64)f + 1) * t;
	}
	// range of the curve over [p - d, p + d]
	std::pair<double, double> range(long double p, long double d) const {
		double lo, hi;
		if (2 * d + 2 >= y.size()) {
			lo = *std::min_element(y.begin(), y.end());
			hi = *std::max_element(y.begin(), y.end());
			return {lo, hi};
		}
		lo = std::min(eval(p - d), eval(p + d));
		hi = std::max(eval(p - d), eval(p + d));
		for (i64 k = (i64)std::ceil(p - d); k <= (i64)std::floor(p + d); k++) {
			lo = std::min(lo, at(k));
			hi = std::max(hi, at(k));
		}
		return {lo, hi};
	}
};
template<typename P>
static long double ulps(long double v, int n) {
	P x = std::fabs((P)v);
	return n * (long double)(std::nextafter(x, std::numeric_limits<P>::infinity()) - x);
}

template<typename T, unsigned N, typename P>
struct Tab {
	using A = InterpArray<T, N, P>;
	std::unique_ptr<A> a{new A}; // alone in its heap block
	Curve wrapc, flat;
	double big = 0;
	Tab(Rng &rng) {
		for (unsigned i = 0; i < N; i++) {
			T v;
			if constexpr (std::is_integral_v<T>)
				v = (T)rng.range(-1000000 / (sizeof(T) < 4 ? 40 : 1), 1000000 / (sizeof(T) < 4 ? 40 : 1));
			else
				v = rng.chance(1, 3) ? (T)rng.anyfloat(-20, 20) : (T)rng.real(-1, 1);
			if (rng.chance(1, 2))
				a->set(i, v);
			else
				(*a)[i] = v;
			VF_CHECK(a->get(i) == v && std::as_const(*a)[i] == v && a->set(i) == v, "entry-stored", "%u", i);
			wrapc.y.push_back((double)v);
			big = std::max(big, std::fabs((double)v));
		}
		flat = wrapc;
		wrapc.wrap = true;
		flat.wrap = false;
	}
	double slack() const {
		double e = 6 * big * (sizeof(P) == 4 || sizeof(T) == 4 ? 0x1p-24 : 0x1p-52);
		return std::is_integral_v<T> ? e + 1.0 : e;
	}
	void linear(const char *key, T got, const Curve &c, long double p, long double d) {
		auto [lo, hi] = c.range(p, d);
		double e = slack();
		VF_CHECK((double)got >= lo - e && (double)got <= hi + e, key, "size %u position %.12Lg: got %.9g, between the neighbours is %.9g..%.9g", N, p, (double)got, lo, hi);
		VF_COVER("lookups_checked");
	}
	void floored(const char *key, T got, const Curve &c, long double p, long double d) {
		bool ok = false;
		i64 a0 = (i64)std::floor(p - d), a1 = (i64)std::floor(p + d);
		if (a1 - a0 >= (i64)N)
			a1 = a0 + N;
		for (i64 k = a0; k <= a1; k++)
			ok |= (double)got == c.at(k);
		VF_CHECK(ok, key, "size %u position %.12Lg: got %.9g", N, p, (double)got);
	}
};

template<typename T, unsigned N, typename P>
static void interp_array(Rng &rng) {
	Tab<T, N, P> t(rng);
	auto &a = *t.a;
	Hash h;
	h.add(N).add(sizeof(T)).add(sizeof(P));
	for (int i = 0; i < 24; i++) {
		// index in the table
		{
			P x;
			switch (rng.below(5)) {
				case 0:
					x = (P)rng.below(N);
					break;
				case 1:
					x = std::max<P>(0, std::nextafter((P)rng.below(N), (P)-1));
					break;
				case 2:
					x = (P)(N - 1);
					break;
				case 3:
					x = std::min<P>(N - 1, std::nextafter((P)rng.below(N), (P)(2 * N)));
					break;
				default:
					x = (P)rng.real(0, N - 1);
			}
			T got = a.interp_by_index(x);
			VF_LOG("interp_by_index(%.9g)", (double)x);
			t.linear("by-index", got, t.flat, x, 0);
			if (x == std::floor(x))
				VF_CHECK((double)got == t.flat.at((i64)x), "exact-at-integer-position", "size %u index %.9g", N, (double)x);
			h.addf(x);
		}
		// phase 0..1
		{
			P ph = rng.chance(1, 8) ? 0 : rng.chance(1, 8) ? 1 : rng.chance(1, 4) ? (P)rng.below(N) / (P)(N > 1 ? N - 1 : 1) : (P)rng.unit();
			if (ph > 1)
				ph = 1;
			long double p = (long double)ph * (N - 1);
			auto d = ulps<P>(p, 1);
			VF_LOG("interp(%.9g)", (double)ph);
			t.linear("by-phase", a.interp(ph), t.flat, p, d);
			t.floored("nearest-below", a.closest(ph), t.flat, p, d);
			if (ph == 0 || ph == 1)
				VF_CHECK(a.interp(ph) == a.get(ph == 0 ? 0 : N - 1) && a.closest(ph) == a.get(ph == 0 ? 0 : N - 1), "exact-at-ends", "size %u phase %g", N, (double)ph);
		}
		// any index, wrapping
		P w;
		unsigned mode = rng.below(8);
		if (mode == 0)
			w = (P)rng.range(-40, 40) * N;
		else if (mode == 1)
			w = (P)rng.range(-3000, 3000);
		else if (mode == 2)
			w = -(P)std::exp2(rng.real(-60, 0));
		else if (mode == 3)
			w = (P)rng.anyfloat(8, 20);
		else if (mode == 4)
			w = (P)rng.anyfloat(32, 100); // beyond any integer type used for indexing
		else
			w = (P)rng.real(-3.0 * N, 4.0 * N);
		if (w < 0)
			VF_COVER("negative_positions");
		if (std::fabs(w) > 4294967296.)
			VF_COVER("huge_positions");
		long double pw = std::fmod((long double)w, (long double)N);
		// a wrap of the position itself may round once
		VF_LOG("interp_by_index_wrap(%.17g)", (double)w);
		t.linear("by-index-wrapping", a.interp_by_index_wrap(w), t.wrapc, pw, ulps<P>(N, 1));
		if (w == std::floor(w) && std::fabs(w) < 1e6)
			VF_CHECK((double)a.interp_by_index_wrap(w) == t.wrapc.at((i64)w), "exact-at-integer-position", "size %u wrapping index %.9g", N, (double)w);
		// the same as a phase
		P ph = w / N;
		if (rng.chance(1, 6))
			ph = (P)rng.range(-50, 50);
		long double pp = (long double)ph * N;
		long double d = std::min<long double>(N, ulps<P>(pp, 1) + ulps<P>(N, 1));
		long double pm = std::fmod(pp, (long double)N);
		VF_LOG("interp_wrap(%.17g)", (double)ph);
		t.linear("by-phase-wrapping", a.interp_wrap(ph), t.wrapc, pm, d);
		t.floored("nearest-below-wrapping", a.closest_wrap(ph), t.wrapc, pm, d);
		if (ph == std::floor(ph) && std::fabs(ph) < 1000)
			VF_CHECK(a.interp_wrap(ph) == a.get(0) && a.closest_wrap(ph) == a.get(0), "whole-phase-is-first-entry", "size %u phase %.9g", N, (double)ph);
		h.addf(w);
	}
	nontrivial(h);
	if (want_sample())
		sample(fmt("table of %u entries of %zu bytes", N, sizeof(T)));
}
VF_SUITE(interpolation, 20000, 1000000) {
	if (rng.chance(1, 400)) { // more entries than a byte or a short counts
		VF_COVER("long_tables");
		if (rng.chance(1, 2))
			return interp_array<float, 300, float>(rng);
		return interp_array<int16_t, 70001, double>(rng);
	}
	switch (rng.below(10)) {
		case 0:
			return interp_array<float, 1, float>(rng);
		case 1:
			return interp_array<float, 2, float>(rng);
		case 2:
			return interp_array<float, 3, float>(rng);
		case 3:
			return interp_array<float, 7, float>(rng);
		case 4:
			return interp_array<float, 64, float>(rng);
		case 5:
			return interp_array<float, 1000, float>(rng);
		case 6:
			return interp_array<double, 5, double>(rng);
		case 7:
			return interp_array<int32_t, 16, float>(rng);
		case 8:
			return interp_array<int16_t, 9, float>(rng);
		default:
			return interp_array<float, 33, double>(rng);
	}
}

template<size_t N, typename T>
static void lookup(Rng &rng) {
	std::array<T, N> y;
	double big = 0;
	for (auto &v : y) {
		v = rng.chance(1, 3) ? (T)rng.anyfloat(-10, 10) : (T)rng.real(-1, 1);
		big = std::max(big, std::fabs((double)v));
	}
	T min = (T)rng.real(-100, 100), max = min + (T)std::exp2(rng.real(-6, 10));
	if (rng.chance(1, 4))
		min = 0, max = 1;
	std::unique_ptr<LookupTable<N, T>> t(new LookupTable<N, T>(min, max, y));
	Curve c{{y.begin(), y.end()}, false};
	for (int i = 0; i < 24; i++) {
		T x = (T)rng.real(min - (max - min) / 4, max + (max - min) / 4);
		switch (rng.below(8)) {
			case 0:
				x = min;
				break;
			case 1:
				x = max;
				break;
			case 2:
				x = std::nextafter(max, min);
				break;
			case 3:
				x = std::nextafter(min, max);
				break;
			case 4:
				x = rng.pick<T>({INFINITY, -INFINITY, (T)1e30, (T)-1e30});
				break;
			case 5:
				x = min + (max - min) * (T)rng.below(N) / (T)(N - 1);
				break;
		}
		T got = (*t)(x);
		VF_CHECK(got == t->lookup(x), "call-is-lookup", "%g", (double)x);
		VF_LOG("lookup(%.9g) in %zu points over %.9g..%.9g", (double)x, N, (double)min, (double)max);
		double e = 8 * big * (double)std::numeric_limits<T>::epsilon();
		if (x <= min)
			VF_CHECK(got == y.front(), "clamped-below", "%.9g", (double)x);
		else if (x >= max)
			VF_CHECK(got == y.back(), "clamped-above", "%.9g", (double)x);
		else {
			long double p = ((long double)x - min) / ((long double)max - min) * (N - 1);
			// (x - min) and (max - min) round relative to the ends of the range
			long double d = 4 * std::numeric_limits<T>::epsilon() * (N - 1) * (1 + (std::fabs((long double)min) + std::fabs((long double)max)) / ((long double)max - min));
			auto [lo, hi] = c.range(p, d);
			VF_CHECK(got >= lo - e && got <= hi + e, "between-neighbours", "x %.9g: %.9g, curve %.9g..%.9g", (double)x, (double)got, lo, hi);
			VF_COVER("lut_inside");
		}
		nontrivial(Hash{}.add(N).addf(x).addf(min));
	}
}
struct UnitRange {
	static constexpr float min = -2.f, max = 3.f;
};
VF_SUITE(lookup_table, 20000, 1000000) {
	if (rng.chance(1, 400)) {
		VF_COVER("long_lut");
		if (rng.chance(1, 2))
			return lookup<300, float>(rng);
		return lookup<70000, double>(rng);
	}
	switch (rng.below(5)) {
		case 0:
			return lookup<2, float>(rng);
		case 1:
			return lookup<3, float>(rng);
		case 2:
			return lookup<17, float>(rng);
		case 3:
			return lookup<8, double>(rng);
		default:
			return lookup<200, float>(rng);
	}
}
VF_SUITE(enum_generated_table, 1, 1) {
	static constexpr auto t = LookupTable<11>::generate<UnitRange>([](auto x) { return x * x * x; });
	for (int i = 0; i <= 1000; i++) {
		float x = -2.f + 5.f * i / 1000;
		double p = (x + 2) * 2, k = std::min(9., std::floor(p)), f = p - k;
		auto cube = [](double v) { return v * v * v; };
		double want = cube(-2 + k * 0.5) * (1 - f) + cube(-2 + (k + 1) * 0.5) * f;
		VF_CHECK(std::fabs(t(x) - want) < 1e-4, "generated-table", "x %g: %g, expected %g", x, t(x), want);
	}
	evaluated(1000);
}

static double fracl(long double p) {
	return (double)(p - std::floor(p));
}
static const long double PI = 3.14159265358979323846264338327950288L;

VF_SUITE(trigonometry, 40000, 3000000) {
	for (int i = 0; i < 16; i++) {
		float x;
		switch (rng.below(8)) {
			case 0:
				x = (float)((double)rng.range(-40, 40) * (double)PI / 4);
				if (rng.chance(1, 2))
					x = std::nextafter(x, rng.chance(1, 2) ? 1e9f : -1e9f);
				break;
			case 1:
				x = rng.anyfloat(-100, 0);
				break;
			case 2:
				x = (float)rng.real(-1000, 1000);
				break;
			case 3:
				x = rng.anyfloat(0, 16);
				break;
			case 4:
				x = rng.chance(1, 4) ? rng.anyfloat(16, 110) : 0.f;
				break;
			default:
				x = (float)rng.real(-7, 7);
		}
		VF_LOG("x %.9g", x);
		// position error of x / 2pi in float, in radians
		double pos = std::fabs((double)x) * 2.5e-7, e = 4e-6 + pos;
		double s = MathTools::sin(x), c = MathTools::cos(x), cc = MathTools::cos_close(x);
		VF_CHECK(std::fabs(s) <= 1.000001 && std::fabs(c) <= 1.000001 && std::fabs(cc) <= 1.000001, "sine-in-range", "x %.9g: sin %.9g cos %.9g %.9g", x, s, c, cc);
		if (pos < 0.1) {
			VF_CHECK(std::fabs(s - std::sin((double)x)) <= e, "sine", "x %.9g: %.9g, %.9g", x, s, std::sin((double)x));
			VF_CHECK(std::fabs(c - std::cos((double)x)) <= e + 5e-7, "cosine", "x %.9g: %.9g, %.9g", x, c, std::cos((double)x));
			VF_CHECK(std::fabs(cc - std::cos((double)x)) <= e + 3.08e-3, "cosine-coarse", "x %.9g: %.9g, %.9g", x, cc, std::cos((double)x));
			VF_COVER("sines_compared");
			if (x < 0)
				VF_COVER("negative_angles");
		}
		double t = std::tan((double)x);
		if (pos < 0.001 && std::fabs(t) < 50) {
			double sec2 = 1 + t * t;
			double et = 4.5e-7 * (2 * std::fabs(t) * sec2) + sec2 * (pos + 1e-6) + 3e-6 * (1 + std::fabs(t));
			double got = MathTools::tan(x);
			VF_CHECK(std::fabs(got - t) <= et, "tangent", "x %.9g: %.9g, %.9g", x, got, t);
			// the coarse form: the tangent at most one table step back
			double q = (double)PI / 2048, back = std::tan((double)x - q - pos - 1e-6), gotc = MathTools::tan_close(x);
			if (std::fabs(t) < 20)
				VF_CHECK(gotc >= back - 1e-5 * sec2 && gotc <= t + et, "tangent-coarse", "x %.9g: %.9g, %.9g", x, gotc, t);
			VF_COVER("tangents_compared");
		}
		// turns: the position is exact in float
		float u = rng.chance(1, 3) ? x : (float)rng.real(-4, 4);
		if (std::fabs(u) < 1e6f) {
			double want = std::sin(2 * (double)PI * fracl(u));
			VF_CHECK(std::fabs(MathTools::sin01(u) - want) <= 4e-6, "sine-of-turns", "%.9g: %.9g, %.9g", u, MathTools::sin01(u), want);
		}
		nontrivial(Hash{}.addf(x));
	}
}
VF_SUITE(powers, 40000, 3000000) {
	for (int i = 0; i < 16; i++) {
		float x = rng.chance(1, 3) ? (float)rng.range(-126, 127) : rng.chance(1, 3) ? rng.anyfloat(-30, 6.9) : (float)rng.real(-126, 127.9);
		if (rng.chance(1, 6))
			x = std::nextafter(x, rng.chance(1, 2) ? 200.f : -200.f);
		if (x < -126 || x > 127.9f)
			continue;
		VF_LOG("x %.9g", x);
		double want = std::exp2((double)x), got = MathTools::pow2(x);
		VF_CHECK(std::fabs(got / want - 1) <= 3e-6 + std::fabs(x) * 1e-7, "power-of-two", "2^%.9g: %.9g, %.9g", x, got, want);
		if (x < 0)
			VF_COVER("negative_exponents");
		float v = (float)rng.real(-1.3, 1.3);
		double pm = std::exp2(5.0 * std::clamp((double)v, -1., 1.));
		VF_CHECK(std::fabs(MathTools::setPitchMultiple(v) / pm - 1) <= 5e-6, "pitch-multiple", "%.9g: %.9g, %.9g", v, MathTools::setPitchMultiple(v), pm);
		float f = rng.chance(1, 4) ? rng.anyfloat(0, 16) : (float)rng.real(20, 20000);
		double fc = std::clamp((double)f, 20., 20000.), step = 19980. / 2047;
		double norm = (std::log(fc) - 2.99573) / 6.90776, gn = MathTools::audioFreqToNorm(f);
		double low = std::max(20., fc - step);
		VF_CHECK(std::fabs(gn - norm) <= step * step / 8 / (low * low) / 6.9 + 3e-6 + 3e-3 / low, "frequency-to-norm", "%.9g Hz: %.9g, %.9g", f, gn, norm);
		VF_CHECK(gn >= -1e-5 && gn <= 1.00001, "frequency-to-norm-range", "%.9g Hz: %.9g", f, gn);
		nontrivial(Hash{}.addf(x));
	}
}
VF_SUITE(enum_tables, 8, 8) {
	for (unsigned i = idx * 256; i < (idx + 1) * 256; i++) {
		auto near = [&](const char *k, double got, double want) {
			VF_CHECK(std::fabs(got - want) <= 1.2e-6 + 2e-6 * std::fabs(want), k, "entry %u: %.9g, %.9g", i, got, want);
		};
		double u = i / 2047., pi = (double)PI;
		near("sine-table", sinTable[i], std::sin(2 * pi * i / 2048));
		if (i != 1024) // the pole
			VF_CHECK(std::fabs(tanTable[i] - std::tan(pi * i / 2048)) <= 2e-6 + 1e-4 * std::fabs(tanTable[i]), "tangent-table", "entry %u: %.9g", i, tanTable[i]);
		near("exp5-table", exp5Table[i], std::exp2(5 * u));
		near("exp10-table", exp10Table[i], std::exp2(10 * u));
		VF_CHECK(std::fabs(pow9Table[i] - std::pow(u, 8.8)) <= 3e-6, "pow9-table", "entry %u: %.9g", i, pow9Table[i]);
		near("log-table", logTable[i], std::log(20 + 19980 * u));
		VF_COVER("table_entries");
	}
	evaluated(256 * 6);
	nontrivial(idx);
}
// a dense sweep of the angle, including every table position
VF_SUITE(enum_sine_sweep, 64, 2048) {
	unsigned n = st().thorough ? 2048 : 64;
	for (unsigned k = 0; k < 20000; k++) {
		double turns = -2 + 4.0 * (idx + k / 20000.) / n;
		float u = (float)turns;
		double want = std::sin(2 * (double)PI * (double)u);
		VF_CHECK(std::fabs(MathTools::sin01(u) - want) <= 4e-6, "sine-sweep", "%.9g turns: %.9g, %.9g", u, MathTools::sin01(u), want);
	}
	evaluated(20000);
	nontrivial(idx);
}
