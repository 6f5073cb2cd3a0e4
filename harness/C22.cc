// C22: integer and scalar helpers against wide-integer references.
#include "vf.hh"
#include "util/cortex_math.hh"
#include "util/math.hh"
#include "util/smallest_integer.hh"
using namespace vf;
using i32 = int32_t;
using W = __int128;

VF_SUITE(saturation, 300000, 20000000) {
	i32 v = rng.anyint<i32>();
	u32 sat = rng.below(33);
	if (sat >= 1) {
		i64 max = ((i64)1 << (sat - 1)) - 1, min = -max - 1;
		if (rng.chance(1, 3))
			v = (i32)std::clamp<i64>((rng.chance(1, 2) ? max : min) + rng.range(-2, 2), INT_MIN, INT_MAX);
		VF_LOG("signed_saturate(%d, %u)", v, sat);
		VF_EQ(MathTools::signed_saturate(v, sat), (i32)std::clamp<i64>(v, min, max), "signed-saturate");
		if (v < min || v > max)
			VF_COVER("saturated");
	}
	if (sat <= 31) {
		i64 max = ((i64)1 << sat) - 1;
		i32 u = rng.chance(1, 3) ? (i32)std::clamp<i64>(max + rng.range(-2, 2), INT_MIN, INT_MAX) : v;
		VF_LOG("unsigned_saturate(%d, %u)", u, sat);
		VF_EQ(MathTools::unsigned_saturate(u, sat), (i32)std::clamp<i64>(u, 0, max), "unsigned-saturate");
	}
	nontrivial(Hash{}.add(v).add(sat));
	if (want_sample())
		sample(fmt("saturate %d to %u bits", v, sat));
}

template<typename T>
static void np2(Rng &rng) {
	T v = rng.anyint<T>();
	W p = 1;
	while (p < (W)v)
		p *= 2;
	W want = p > (W)std::numeric_limits<T>::max() ? 0 : p;
	VF_LOG("next_power_of_2(%llu) %zu bytes", (unsigned long long)v, sizeof(T));
	VF_EQ(MathTools::next_power_of_2(v), (T)want, "next-power-of-two");
	if (!want)
		VF_COVER("next_power_not_representable");
	if (sizeof(T) == 8 && v >> 32)
		VF_COVER("wide_powers");
	nontrivial(Hash{}.add(v).add(sizeof(T)));
}
VF_SUITE(bits, 300000, 20000000) {
	np2<u8>(rng);
	np2<u16>(rng);
	np2<u32>(rng);
	np2<u64>(rng);
	u32 x = rng.anyint<u32>();
	VF_EQ(MathTools::is_power_of_2(x), __builtin_popcount(x) == 1, "is-power-of-two");
	VF_EQ(MathTools::log2_floor(x), x ? 31u - __builtin_clz(x) : 0u, "log2-floor");
	VF_EQ(MathTools::swap_bytes32(x), __builtin_bswap32(x), "swap-bytes-32");
	u16 a = x >> 16, b = (u16)x;
	VF_EQ(MathTools::swap_bytes_and_combine(a, b), (u32)__builtin_bswap16(a) << 16 | __builtin_bswap16(b), "swap-and-combine");
	u32 base = rng.below(20), e = rng.below(32);
	W pw = 1;
	for (u32 i = 0; i < e && pw < ((W)1 << 40); i++)
		pw *= base;
	if (pw < ((W)1 << 32))
		VF_EQ(MathTools::ipow(base, e), (u32)pw, "integer-power");
}
VF_SUITE(enum_16bit, 256, 256) {
	for (unsigned v = idx * 256; v < (idx + 1) * 256; v++) {
		VF_EQ(MathTools::swap_bytes16(v), __builtin_bswap16(v), "swap-bytes-16");
		u32 p = 1;
		while (p < v)
			p *= 2;
		VF_EQ(MathTools::next_power_of_2((u16)v), (u16)p, "next-power-of-two");
		if (v < 256)
			VF_EQ(MathTools::next_power_of_2((u8)v), (u8)p, "next-power-of-two");
		VF_EQ(MathTools::is_power_of_2(v), p == v && v, "is-power-of-two");
		VF_EQ(MathTools::log2_floor(v), v ? 31u - __builtin_clz(v) : 0u, "log2-floor");
	}
	if (idx < 32) {
		VF_EQ(MathTools::log2_floor(1u << idx), (unsigned)idx, "log2-floor");
		VF_EQ(MathTools::next_power_of_2(1ull << (2 * idx)), 1ull << (2 * idx), "next-power-of-two");
	}
	VF_EQ((unsigned)MathTools::Log2<1>::val, 0u, "log2-static");
	VF_EQ((unsigned)MathTools::Log2<1000>::val, 9u, "log2-static");
	VF_EQ((unsigned)MathTools::Log2<1024>::val, 10u, "log2-static");
	VF_EQ((unsigned)MathTools::Log2<0x80000000u>::val, 31u, "log2-static");
	VF_EQ(MathTools::bipolar_type_range<int8_t>(0), 127u, "bipolar-range");
	VF_EQ(MathTools::bipolar_type_range<int16_t>(0), 32767u, "bipolar-range");
	VF_EQ(MathTools::bipolar_type_range<i32>(0), 2147483647u, "bipolar-range");
	static constexpr auto d = MathTools::array_adj_diff(std::array<int, 5>{3, 7, 2, 2, -9});
	VF_CHECK(d.size() == 4 && d[0] == 4 && d[1] == -5 && d[2] == 0 && d[3] == -11, "adjacent-differences", "%s", "");
	evaluated(256);
	nontrivial(idx);
}

template<typename T>
static void wraps(Rng &rng) {
	T lo = rng.anyint<T>(), hi = rng.anyint<T>(), v = rng.anyint<T>();
	if (rng.chance(2, 3)) {
		lo = (T)rng.range(-100, 100);
		hi = (T)(lo + rng.below(27));
		v = (T)rng.range(-128, 127) * (sizeof(T) > 1 ? rng.range(1, 200) : 1);
	}
	if (lo > hi)
		std::swap(lo, hi);
	W range = (W)hi - lo + 1, big = (W)std::numeric_limits<T>::max();
	// the range fits its type, and the distance is not millions of ranges
	if (range > big || (v > hi ? ((W)v - hi) / range : ((W)lo - v) / range) > 20000)
		return;
	W m = (((W)v - lo) % range + range) % range + lo;
	VF_LOG("wrap(%lld, %lld, %lld)", (long long)v, (long long)lo, (long long)hi);
	VF_EQ((MathTools::wrap<T>(v, lo, hi)), (T)m, "wrap-into-range");
	if (v < lo || v > hi)
		VF_COVER("wrapped_values");
	nontrivial(Hash{}.add(v).add(lo).add(hi));
}
VF_SUITE(wrapping, 200000, 10000000) {
	switch (rng.below(4)) {
		case 0:
			wraps<int8_t>(rng);
			break;
		case 1:
			wraps<int16_t>(rng);
			break;
		case 2:
			wraps<int64_t>(rng);
			break;
		default:
			wraps<int>(rng);
	}
	u32 v = rng.anyint<u32>();
	VF_EQ(MathTools::wrap<1000000>(v), v % 1000000, "wrap-below-maximum");
	u32 s = v % 30000;
	VF_EQ(MathTools::wrap<7>(s), s % 7, "wrap-below-maximum");
	VF_EQ((MathTools::wrap<100, u8>((u8)v)), (u8)((u8)v % 100), "wrap-below-maximum");
	u64 w = rng.anyint<u64>() >> 20;
	VF_EQ((MathTools::wrap<0x80000000u, u64>(w)), w % 0x80000000u, "wrap-below-maximum");
}

template<typename T>
static void compare(T x, T lo, T hi) {
	VF_LOG("compare %g %g %g", (double)x, (double)lo, (double)hi);
	VF_CHECK(MathTools::max(x, lo) == std::max(x, lo) && MathTools::min(x, lo) == std::min(x, lo), "min-max", "%g %g", (double)x, (double)lo);
	if (lo <= hi) {
		VF_CHECK(MathTools::constrain(x, lo, hi) == std::clamp(x, lo, hi), "constrain", "%g in %g..%g", (double)x, (double)lo, (double)hi);
		if (std::is_floating_point_v<T> || (W)x - (W)lo <= (W)std::numeric_limits<T>::max()) {
			auto b = MathTools::between(x, lo, hi);
			VF_CHECK(b.has_value() == (x >= lo && x <= hi), "between", "%g in %g..%g", (double)x, (double)lo, (double)hi);
			if (b)
				VF_CHECK(*b == (T)(x - lo), "between-offset", "%g in %g..%g: %g", (double)x, (double)lo, (double)hi, (double)*b);
		}
	}
	bool fits = std::is_floating_point_v<T> ? true : (W)std::max(x, lo) - (W)std::min(x, lo) <= (W)std::numeric_limits<T>::max();
	if (fits) {
		T d = std::max(x, lo) - std::min(x, lo);
		VF_CHECK(MathTools::abs_diff(x, lo) == d && MathTools::diff(x, lo) == d, "absolute-difference", "%g %g", (double)x, (double)lo);
	} else
		VF_COVER("difference_not_representable");
}
VF_SUITE(comparing, 200000, 10000000) {
	compare<i32>(rng.anyint<i32>(), rng.anyint<i32>(), rng.anyint<i32>());
	compare<u32>(rng.anyint<u32>(), rng.anyint<u32>(), rng.anyint<u32>());
	compare<u8>(rng.anyint<u8>(), rng.anyint<u8>(), rng.anyint<u8>());
	compare<int16_t>(rng.anyint<int16_t>(), rng.anyint<int16_t>(), rng.anyint<int16_t>());
	compare<float>(rng.anyfloat(-30, 30), rng.anyfloat(-30, 30), rng.anyfloat(-30, 30));
	float f = rng.anyfloat(-140, 127);
	VF_EQ(MathTools::f_abs(f), std::fabs(f), "absolute-value");
	// any bit pattern, not only finite numbers
	u32 bits = rng.anyint<u32>();
	if (rng.chance(1, 3))
		bits = 0x7f800000u | (bits & 0x80000000u) | (rng.chance(1, 2) ? 0 : 1u << rng.below(23));
	float g;
	memcpy(&g, &bits, 4);
	VF_EQ(MathTools::is_finite_fastmath(g), (bool)std::isfinite(g), "finite");
	VF_EQ(MathTools::is_inf_fastmath(g), (bool)std::isinf(g), "infinite");
	if (!std::isfinite(g))
		VF_COVER("non_finite_values");
	nontrivial(Hash{}.add(bits).addf(f));
}

VF_SUITE(mapping, 200000, 10000000) {
	// integers, truncating towards zero like the language does
	auto pickv = [&](i64 m) { return (int)rng.range(-m, m); };
	int a = pickv(20000), b = pickv(20000), c = pickv(20000), d = pickv(20000), x = pickv(20000);
	if (rng.chance(1, 4))
		x = rng.chance(1, 2) ? a : b;
	if (a != b) {
		W want = ((W)x - a) * ((W)d - c) / ((W)b - a) + c;
		VF_LOG("map_value(%d, %d, %d, %d, %d)", x, a, b, c, d);
		VF_EQ(MathTools::map_value(x, a, b, c, d), (int)want, "map-integers");
		if (x == a)
			VF_EQ(MathTools::map_value(x, a, b, c, d), c, "map-endpoint");
		if (x == b)
			VF_EQ(MathTools::map_value(x, a, b, c, d), d, "map-endpoint");
		// wider types, long input range like randomNumber uses
		i64 lx = rng.range(0, 1000000000), l0 = rng.range(0, 1000), l1 = l0 + 1 + rng.below(1000000000);
		i64 o0 = rng.range(-1000000000, 1000000000), o1 = rng.range(-1000000000, 1000000000);
		VF_EQ(MathTools::map_value(lx, l0, l1, o0, o1), (i64)(((W)lx - l0) * ((W)o1 - o0) / ((W)l1 - l0) + o0), "map-integers");
		float fx = (float)rng.real(-10, 10), fa = (float)rng.real(-10, 0), fb = fa + (float)rng.real(0.1, 10), fc = (float)rng.real(-10, 10), fd = (float)rng.real(-10, 10);
		if (rng.chance(1, 3))
			fx = fa;
		double fw = ((double)fx - fa) * ((double)fd - fc) / ((double)fb - fa) + fc;
		double tol = 1e-6 * (std::fabs(((double)fx - fa) * ((double)fd - fc) / ((double)fb - fa)) + std::fabs(fc) + (20 * std::fabs((double)fd - fc)) / ((double)fb - fa)) + 1e-9;
		float got = MathTools::map_value(fx, fa, fb, fc, fd);
		VF_CHECK(std::fabs(got - fw) <= tol, "map-floats", "map_value(%g,%g,%g,%g,%g) %g, %g", fx, fa, fb, fc, fd, got, fw);
		if (fx == fa)
			VF_CHECK(got == fc, "map-endpoint", "%g", got);
		VF_COVER("mapped");
		nontrivial(Hash{}.add(x).add(a).add(b).add(c).add(d));
	}
	// differences and products beyond the type of the values
	int wa = rng.anyint<int>() / 2, wb = rng.anyint<int>() / 2, wc = rng.anyint<int>() / 2, wd = rng.anyint<int>() / 2, wx = rng.anyint<int>() / 2;
	if (rng.chance(1, 2))
		wx = wa + (int)(((i64)wb - wa) * (i64)rng.below(1000) / 1000);
	if (wa != wb) {
		i64 ww = (i64)(((W)wx - wa) * ((W)wd - wc) / ((W)wb - wa) + wc);
		VF_LOG("map_value(%d, %d, %d, %d, %d)", wx, wa, wb, wc, wd);
		if (ww == (int)ww) {
			VF_EQ(MathTools::map_value(wx, wa, wb, wc, wd), (int)ww, "map-integers");
			VF_EQ(MathTools::map_value(wx, (long)wa, (long)wb, wc, wd), (int)ww, "map-integers");
			W product = ((W)wx - wa) * ((W)wd - wc);
			if (product > INT_MAX || -product > INT_MAX)
				VF_COVER("mapped_wide_integers");
		}
		u32 ua = (u32)std::abs(wa), ub = (u32)std::abs(wb), uc = (u32)std::abs(wc), ud = (u32)std::abs(wd), ux = (u32)std::abs(wx);
		if (ua != ub) {
			i64 uw = (i64)(((W)ux - ua) * ((W)ud - uc) / ((W)ub - ua) + uc);
			VF_LOG("map_value(%u, %u, %u, %u, %u)", ux, ua, ub, uc, ud);
			if (uw == (u32)uw) {
				VF_EQ(MathTools::map_value(ux, ua, ub, uc, ud), (u32)uw, "map-integers");
				if (ub < ua || ud < uc || ux < ua)
					VF_COVER("mapped_unsigned_reversed");
			}
		}
	}
	int lo = pickv(1000000), hi = lo + (int)rng.below(1000000);
	if (rng.chance(1, 3)) {
		lo = -(INT_MAX / 2) - (int)rng.below(INT_MAX / 2);
		hi = lo + (int)rng.below(INT_MAX);
		if (rng.chance(1, 2))
			hi = INT_MAX / 2 + (int)rng.below(INT_MAX / 2);
	}
	int r = MathTools::randomNumber<int>(lo, hi);
	VF_CHECK(r >= lo && r <= hi, "random-in-range", "%d in %d..%d", r, lo, hi);
	float rf = MathTools::randomNumber<float>((float)lo, (float)hi);
	VF_CHECK(rf >= (float)lo && rf <= std::nextafter((float)hi, 1e30f), "random-in-range", "%g in %d..%d", rf, lo, hi);
}

template<u32 Max>
static void interpolate_ints(Rng &rng) {
	i32 a = rng.anyint<i32>(), b = rng.anyint<i32>();
	if (rng.chance(1, 2)) {
		a = (i32)rng.range(-2000, 2000);
		b = (i32)rng.range(-2000, 2000);
	}
	i32 ph = rng.chance(1, 4) ? (rng.chance(1, 2) ? 0 : (i32)Max) : (i32)rng.below((u64)Max + 1);
	W num = (W)b * ph + (W)a * ((W)Max - ph);
	VF_LOG("interpolate<%u>(%d, %d, %d)", Max, a, b, ph);
	i32 got = MathTools::interpolate<Max>(a, b, ph);
	W err = (W)got * Max - num;
	VF_CHECK(err > -(W)Max && err < (W)Max, "interpolate-integers", "interpolate<%u>(%d, %d, %d) gave %d, exact %.3f", Max, a, b, ph, got, (double)num / Max);
	VF_CHECK(got >= std::min(a, b) && got <= std::max(a, b), "interpolate-between", "interpolate<%u>(%d, %d, %d) gave %d", Max, a, b, ph, got);
	if (ph == 0 || ph == (i32)Max)
		VF_EQ(got, ph ? b : a, "interpolate-endpoint");
	if (num % Max == 0)
		VF_EQ(got, (i32)(num / Max), "interpolate-exact");
	if (a < 0 || b < 0)
		VF_COVER("negative_interpolated");
	nontrivial(Hash{}.add(a).add(b).add(ph).add(Max));
}
VF_SUITE(interpolating, 200000, 10000000) {
	switch (rng.below(5)) {
		case 0:
			interpolate_ints<256>(rng);
			break;
		case 1:
			interpolate_ints<100>(rng);
			break;
		case 2:
			interpolate_ints<1>(rng);
			break;
		case 3:
			interpolate_ints<65535>(rng);
			break;
		default:
			interpolate_ints<0x7fffffff>(rng);
	}
	float a = rng.anyfloat(-20, 20), b = rng.anyfloat(-20, 20), p = rng.chance(1, 4) ? (float)rng.below(2) : (float)rng.unit();
	double want = (double)a * (1 - (double)p) + (double)b * p, tol = 3e-7 * (std::fabs(a) + std::fabs(b));
	float g = MathTools::interpolate(a, b, p), g3 = MathTools::interpolate3(a, b, p);
	VF_CHECK(std::fabs(g - want) <= tol && std::fabs(g3 - want) <= tol, "interpolate-floats", "%g %g at %g: %g %g", a, b, p, g, g3);
	if (p == 0)
		VF_CHECK(g == a && g3 == a, "interpolate-endpoint", "%g %g: %g %g", a, b, g, g3);
	if (p == 1)
		VF_CHECK(g == b, "interpolate-endpoint", "%g %g: %g", a, b, g);
	float x = (float)rng.unit();
	double t = 2.0 * x - 1;
	VF_CHECK(std::fabs(MathTools::faster_sine(x) - 4 * (t - t * std::fabs(t))) <= 2e-6, "faster-sine", "%g: %g", x, MathTools::faster_sine(x));
}

VF_SUITE(plateaus, 200000, 10000000) {
	i32 v = rng.anyint<i32>() >> 2, c = rng.anyint<i32>() >> 2;
	u32 w = (u32)rng.anyint<i32>() >> 3;
	if (rng.chance(1, 2)) {
		w = rng.below(60);
		c = (i32)rng.range(-100, 100);
		v = c + (i32)rng.range(-40, 40);
	}
	auto ref = [](i64 v, i64 w, i64 c) { return (i32)(v > c + w / 2 ? v - (c + w / 2) : v < c - w / 2 ? v - (c - w / 2) : 0); };
	VF_LOG("plateau(%d, %u, %d)", v, w, c);
	VF_EQ(MathTools::plateau(v, w, c), ref(v, w, c), "plateau");
	VF_EQ((MathTools::plateau<61, 5>(v)), ref(v, 61, 5), "plateau");
	VF_EQ((MathTools::plateau<30, int>(v, c)), ref(v, 30, c), "plateau");
	if (ref(v, w, c) == 0)
		VF_COVER("on_the_plateau");
	else
		VF_COVER("off_the_plateau");
	nontrivial(Hash{}.add(v).add(w).add(c));
}

template<u64 M>
static void smallest_u() {
	using T = typename SmallestUnsignedInt<M>::type;
	size_t want = M <= 0xff ? 1 : M <= 0xffff ? 2 : M <= 0xffffffff ? 4 : 8;
	VF_CHECK(std::is_unsigned_v<T> && sizeof(T) == want, "smallest-unsigned", "%llu: %zu bytes", (unsigned long long)M, sizeof(T));
}
template<i64 A, i64 B>
static void smallest_s() {
	using T = typename SmallestSignedInt<A, B>::type;
	auto fits = [](int bytes) { return A >= -((W)1 << (8 * bytes - 1)) && B < ((W)1 << (8 * bytes - 1)); };
	size_t want = fits(1) ? 1 : fits(2) ? 2 : fits(4) ? 4 : 8;
	VF_CHECK(std::is_signed_v<T> && sizeof(T) == want, "smallest-signed", "%lld..%lld: %zu bytes", (long long)A, (long long)B, sizeof(T));
}
VF_SUITE(enum_smallest_integers, 1, 1) {
	smallest_u<0>();
	smallest_u<1>();
	smallest_u<255>();
	smallest_u<256>();
	smallest_u<65535>();
	smallest_u<65536>();
	smallest_u<0xffffffff>();
	smallest_u<0x100000000>();
	smallest_u<~0ull>();
	smallest_s<0, 0>();
	smallest_s<-128, 127>();
	smallest_s<-129, 127>();
	smallest_s<-128, 128>();
	smallest_s<-1000, -500>();
	smallest_s<-5, -1>();
	smallest_s<100, 200>();
	smallest_s<-32768, 32767>();
	smallest_s<-32769, 0>();
	smallest_s<0, 32768>();
	smallest_s<-2147483648ll, 2147483647ll>();
	smallest_s<-2147483649ll, 0>();
	smallest_s<0, 2147483648ll>();
	smallest_s<-1000000000000ll, 5>();
	evaluated(22);
	VF_COVER("integer_types_checked");
	nontrivial(1);
}
#ifndef VF_REDUCED
// around every power of two, for one bound and for both
template<unsigned K>
static void smallest_around() {
	constexpr u64 p = 1ull << K;
	smallest_u<p - 1>();
	smallest_u<p>();
	smallest_u<p + 1>();
	constexpr i64 top = K < 63 ? (i64)p : INT64_MAX, low = K < 63 ? -(i64)p : INT64_MIN;
	constexpr unsigned J = (K * 37 + 11) % 64;
	constexpr i64 other = J < 63 ? (i64)(1ull << J) : INT64_MAX;
	smallest_s<0, top - 1>();
	smallest_s<0, top>();
	smallest_s<low, 0>();
	smallest_s<low + 1, 0>();
	smallest_s<(K < 63 ? low - 1 : low), 0>();
	smallest_s<low, top - 1>();
	smallest_s<low, top>();
	smallest_s<low, other>();
	smallest_s<-other, top>();
	smallest_s<top, top>();
	smallest_s<low, low>();
	smallest_s<(top > other ? other : top), (top > other ? top : other)>();
	evaluated(15);
	nontrivial(K + 2);
}
VF_SUITE(enum_smallest_integers_every_width, 1, 1) {
	[]<size_t... K>(std::index_sequence<K...>) { (smallest_around<K>(), ...); }(std::make_index_sequence<64>());
	VF_COVER("every_width_of_integer");
}
#endif
