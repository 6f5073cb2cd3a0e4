// C26: codec sample <-> normalised float against exact arithmetic; every code of narrow widths.
#include "vf.hh"
#include "util/audio_frame.hh"
using namespace vf;

template<typename S, int U>
struct Ref {
	static constexpr i64 full = 1ll << (U - 1);
	static i64 extend(S v) {
		u64 m = (u64)(i64)v & ((1ull << U) - 1);
		return (m >> (U - 1)) & 1 ? (i64)m - (1ll << U) : (i64)m;
	}
};

// one signed float value
template<typename S, int U>
static void out_signed(float x) {
	using R = Ref<S, U>;
	using F = AudioFrame<S, U>;
	i64 got = F::scaleOutput(x);
	VF_LOG("AudioFrame<%zu bytes, %d bits>::scaleOutput(%.9g) = %lld", sizeof(S), U, x, (long long)got);
	double y = (double)x * R::full; // exact: a power of two
	if (y >= R::full - 1) {
		// at or beyond the top code: saturated, or the float just above it
		if (x >= 1.f) {
			VF_EQ(got, R::full - 1, "positive-saturation");
			VF_COVER("saturated_high");
		} else
			VF_CHECK(got == R::full - 1, "positive-top", "%.9g gave %lld", x, (long long)got);
	} else if (y <= -R::full) {
		VF_EQ(got, -R::full, "negative-saturation");
		if (x < -1.f)
			VF_COVER("saturated_low");
	} else {
		VF_CHECK(std::abs(got - y) < 1.0, "one-step", "%.9g is %.9g steps, gave %lld", x, y, (long long)got);
		if (y == std::floor(y))
			VF_EQ(got, (i64)y, "exact-code");
		VF_COVER("in_range_outputs");
	}
}
template<typename S, int U>
static void in_signed(S v) {
	using R = Ref<S, U>;
	using F = AudioFrame<S, U>;
	i64 e = R::extend(v);
	VF_LOG("AudioFrame<%zu bytes, %d bits> code %lld", sizeof(S), U, (long long)v);
	VF_EQ((i64)F::sign_extend(v), e, "sign-extend");
	double want = (double)e / R::full;
	float got = F::scaleInput(v);
	VF_CHECK(std::abs(got - want) <= std::abs(want) * 6e-8, "input-scale", "code %lld gave %.9g, exact is %.9g", (long long)e, got, want);
	if (e == -R::full)
		VF_CHECK(got == -1.f, "negative-full-scale", "%.9g", got);
	if (e < 0)
		VF_COVER("negative_inputs");
	if (U < (int)sizeof(S) * 8 && (i64)v != e)
		VF_COVER("high_bits_ignored");
	if (U <= 25) {
		VF_EQ((i64)F::scaleOutput(got), e, "code-round-trip");
		VF_COVER("round_trips");
	}
}

template<typename S, int U>
static float level(Rng &rng) {
	double full = (double)(1ll << (U - 1));
	switch (rng.below(8)) {
		case 0:
			return rng.pick({1.f, -1.f, 0.f, -0.f, std::nextafter(1.f, 0.f), std::nextafter(-1.f, 0.f), std::nextafter(1.f, 2.f),
							 std::nextafter(-1.f, -2.f), 2.f, -2.f});
		case 1:
			return rng.pick({1e9f, -1e9f, 4e9f, -4e9f, 3e38f, -3e38f, INFINITY, -INFINITY, 256.f, -256.f});
		case 2:
			return rng.anyfloat(-40, 127);
		case 3: // next to full scale, in steps
			return (float)((rng.chance(1, 2) ? 1 : -1) * (full + rng.real(-3, 3)) / full);
		case 4: // exactly a code, or next to it
		{
			float f = (float)(rng.range(-(i64)full, (i64)full) / full);
			return rng.chance(1, 2) ? f : std::nextafter(f, (float)rng.range(-2, 2));
		}
		default:
			return (float)rng.real(-1.1, 1.1);
	}
}

template<typename S, int U, int N>
static void signed_case(Rng &rng) {
	using F = AudioFrame<S, U, N>;
	static_assert(sizeof(F) == sizeof(S) * N);
	out_signed<S, U>(level<S, U>(rng));
	S v = rng.anyint<S>();
	in_signed<S, U>(v);
	// two levels: never reversed
	float a = level<S, U>(rng), b = rng.chance(1, 2) ? std::nextafter(a, INFINITY) : level<S, U>(rng);
	if (a > b)
		std::swap(a, b);
	VF_CHECK(F::scaleOutput(a) <= F::scaleOutput(b), "not-monotonic", "%.9g and %.9g", a, b);
	// through a frame
	Guarded<F> g;
	std::array<S, N> model;
	for (auto i = 0; i < N; i++)
		g.obj.chan[i] = model[i] = rng.anyint<S>();
	unsigned c = rng.below(N);
	float x = level<S, U>(rng);
	VF_EQ((i64)g.obj.sign_extend_chan(c), (Ref<S, U>::extend(model[c])), "frame-sign-extend");
	VF_CHECK(g.obj.scale_input_chan(c) == F::scaleInput(model[c]), "frame-input", "%g", g.obj.scale_input_chan(c));
	g.obj.set_scaled_output(c, x);
	model[c] = F::scaleOutput(x);
	for (auto i = 0; i < N; i++)
		VF_EQ((i64)g.obj.chan[i], (i64)model[i], "frame-output");
	VF_CHECK(g.intact(), "writes-outside", "%s", "AudioFrame");
	nontrivial(Hash{}.add(v).addf(x).add(U).add(sizeof(S)));
	if (want_sample())
		sample(fmt("%zu-byte samples, %d bits: code %lld, level %g", sizeof(S), U, (long long)v, x));
}

template<typename S, int U>
static void unsigned_case(Rng &rng) {
	using F = AudioFrame<S, U, 2>;
	double top = (double)((1ull << U) - 1);
	auto one = [&](float x) {
		u64 got = F::scaleOutput(x);
		VF_LOG("AudioFrame<unsigned %zu bytes, %d bits>::scaleOutput(%.9g) = %llu", sizeof(S), U, x, (unsigned long long)got);
		if (x >= 1.f)
			VF_EQ(got, (u64)top, "unsigned-saturation-high");
		else if (x <= -1.f)
			VF_EQ(got, (u64)0, "unsigned-saturation-low");
		else {
			double want = (x * 0.5 + 0.5) * top, tol = 1.0 + top * 1.2e-7;
			VF_CHECK(std::abs(got - want) <= tol, "unsigned-one-step", "%.9g gave %llu, exact is %.9g", x, (unsigned long long)got, want);
		}
		VF_CHECK((double)got <= top, "unsigned-range", "%llu", (unsigned long long)got);
		return got;
	};
	float a = level<S, U>(rng), b = level<S, U>(rng);
	if (a > b)
		std::swap(a, b);
	u64 ya = one(a), yb = one(b);
	VF_CHECK(ya <= yb, "not-monotonic", "%.9g and %.9g gave %llu and %llu", a, b, (unsigned long long)ya, (unsigned long long)yb);
	VF_COVER("unsigned_outputs");
	nontrivial(Hash{}.addf(a).addf(b).add(U).add(sizeof(S)).add(9));
}

VF_SUITE(random_levels, 700000, 40000000) {
	switch (rng.below(13)) {
		case 0:
			return signed_case<int32_t, 24, 2>(rng);
		case 1:
			return signed_case<int32_t, 32, 2>(rng);
		case 2:
			return signed_case<int32_t, 16, 4>(rng);
		case 3:
			return signed_case<int32_t, 20, 1>(rng);
		case 4:
			return signed_case<int32_t, 31, 8>(rng);
		case 5:
			return signed_case<int16_t, 16, 2>(rng);
		case 6:
			return signed_case<int16_t, 12, 3>(rng);
		case 7:
			return signed_case<int8_t, 8, 2>(rng);
		case 8:
			return signed_case<int8_t, 5, 5>(rng);
		case 9:
			return unsigned_case<uint16_t, 16>(rng);
		case 10:
			return unsigned_case<uint16_t, 12>(rng);
		case 11:
			return unsigned_case<uint32_t, 24>(rng);
		default:
			rng.chance(1, 2) ? unsigned_case<uint32_t, 32>(rng) : unsigned_case<uint8_t, 8>(rng);
	}
}

// every code of the 8- and 16-bit containers
VF_SUITE(enum_codes, 256, 256) {
	for (u32 k = idx * 256; k < (idx + 1) * 256; k++) {
		in_signed<int16_t, 16>((int16_t)k);
		in_signed<int16_t, 12>((int16_t)k);
		in_signed<int8_t, 8>((int8_t)k);
		in_signed<int8_t, 5>((int8_t)k);
		in_signed<int32_t, 16>((int32_t)(k | k << 16));
		// levels at, and one float to either side of, every code
		float f = (float)(int16_t)k / 32768.f;
		for (float x : {f, std::nextafter(f, 2.f), std::nextafter(f, -2.f)}) {
			out_signed<int16_t, 16>(x);
			out_signed<int16_t, 12>(x);
			out_signed<int8_t, 8>(x);
			out_signed<int32_t, 24>(x);
			out_signed<int32_t, 16>(x);
		}
	}
	evaluated(256 * 20);
	nontrivial(idx);
}
// every 24-bit code, strided in the quick tier
VF_SUITE(enum_codes24, 256, 4096) {
	u32 per = st().thorough ? (1u << 24) / 4096 : 512;
	u32 base = st().thorough ? idx * per : idx * 65536 + mix(idx) % 65000;
	for (u32 k = base; k < base + per; k++)
		in_signed<int32_t, 24>((int32_t)k);
	evaluated(per);
	nontrivial(idx);
}
