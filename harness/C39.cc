// C39: what is computed at compile time is what is computed at run time.
// Every section is one function from a random stream to a hash of everything the library gave.  Its values for VF_N
// streams are computed by the compiler (constant evaluation, which also refuses undefined behaviour), and once more
// when the program runs.
#include <algorithm>
#include <array>
#include <bit>
#include <numeric>
#include <optional>
#include <span>
#include <string_view>
#include <utility>
#include <cstddef>
#include <cstdint>
#include "util/audio_frame.hh"
#include "util/bitfield.hh"
#include "util/calibrator.hh"
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"
#include "util/fixed_vector.hh"
#include "util/geometry.hh"
#include "util/hsv.hh"
#include "util/interp_array.hh"
#include "util/lookup_table.hh"
#include "util/math.hh"
#include "util/padded_aligned.hh"
#include "util/static_string.hh"
#include "vf.hh"

namespace ct
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
#ifndef VF_SEED
#define VF_SEED 1
#endif
#ifdef VF_THOROUGH
constexpr size_t N = 3000;
#else
constexpr size_t N = 250;
#endif
constexpr u64 mixed(u64 x) {
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}
struct R {
	u64 s;
	constexpr u64 next() {
		return s = mixed(s);
	}
	constexpr u32 below(u32 n) {
		return (u32)((next() >> 33) % n);
	}
	constexpr int in(int a, int b) {
		return a + (int)below((u32)(b - a + 1));
	}
	constexpr float unit() {
		return (float)below(100001) / 100000.f;
	}
	constexpr float fl() {
		return ((float)below(2000001) - 1000000.f) / 1000.f;
	}
	// also the values that compare unlike they look
	constexpr float odd() {
		constexpr float inf = __builtin_inff();
		constexpr float all[]{0.f, -0.f, inf, -inf, __builtin_nanf(""), -__builtin_nanf(""), 1e-45f, -1e-45f, 3.4e38f, -3.4e38f};
		return below(3) ? fl() : all[below(10)];
	}
	// from one bit of width to all
	constexpr u64 word(unsigned bits) {
		return (next() >> 1) & ((2ull << below(bits)) - 1);
	}
};
struct H {
	u64 v = 1;
	constexpr H &add(u64 x) {
		v = mixed(v ^ x) + x;
		return *this;
	}
	constexpr H &f(float x) {
		return add(x != x ? 0x7fc00000u : std::bit_cast<u32>(x));
	}
};
using Fn = u64 (*)(R &);
constexpr u64 start(u64 seed, size_t i) {
	return mixed(seed * 1000003 + i);
}
template<Fn F>
constexpr std::array<u64, N> table() {
	std::array<u64, N> t{};
	for (size_t i = 0; i < N; i++) {
		R r{start(VF_SEED, i)};
		t[i] = F(r);
	}
	return t;
}
static volatile u64 run_time_seed = VF_SEED;
template<Fn F>
__attribute__((noinline)) u64 at_run_time(size_t i) {
	R r{start(run_time_seed, i)};
	return F(r);
}

#ifndef VF_NO_math
constexpr u64 math(R &r) {
	using namespace MathTools;
	H h;
	float a = r.fl(), b = r.fl(), p = r.unit();
	h.f(interpolate(a, b, p)).f(interpolate3(a, b, p)).f(f_abs(a)).f(faster_sine(p)).f(constrain(a, -3.f, 200.f));
	h.f(map_value(a, -1000.f, 1000.f, b, 5.f)).f(MathTools::max(a, b)).f(MathTools::min(a, b)).f(abs_diff(a, b)).f(diff(a, b));
	float s = r.odd(), t = r.odd();
	h.f(f_abs(s)).f(MathTools::max(s, t)).f(MathTools::min(s, t)).f(constrain(s, -3.f, 200.f)).f(constrain(s, t, s));
	h.add(between(s, -1.f, 1.f).has_value()).add(f_abs(s) != s).add(std::bit_cast<u32>(f_abs(s == s ? s : 0.f)) >> 31);
	int i = r.in(-3000, 3000), j = r.in(-3000, 3000), lo = r.in(-9, 9), hi = lo + r.in(0, 20);
	h.add(map_value(i, -3000, 3000, j, 5)).add(constrain(i, lo, hi)).add(MathTools::max(i, j)).add(MathTools::min(i, j)).add(abs_diff(i, j));
	h.add(wrap(i, lo, hi)).add(wrap<short>((short)j, 1, 12)).add(diff(i, j)).add(between(lo, 0, 5).value_or(-7));
	h.add(plateau(i, r.below(900), j)).add(plateau<60>(i)).add(plateau<61, 8>(i)).add(plateau<100, int>(i, 9));
	u64 w = r.word(64);
	h.add(is_power_of_2((u32)w)).add(log2_floor((u32)w)).add(next_power_of_2((u8)w)).add(next_power_of_2((u16)w));
	h.add(next_power_of_2((u32)w)).add(next_power_of_2((u64)w));
	u32 base = r.below(9);
	h.add(ipow(base, r.below(12)));
	h.add(bipolar_type_range((int8_t)w)).add(bipolar_type_range((int16_t)w)).add(bipolar_type_range((int32_t)w));
	h.add(swap_bytes16((u16)w)).add(swap_bytes32((u32)w)).add(swap_bytes_and_combine((u16)w, (u16)(w >> 16)));
	return h.v;
}
#endif
#ifndef VF_NO_bits
enum class Bit : u16 { A = 1, B = 0x10, C = 0x8000, D = 0x7fff };
constexpr u64 bits(R &r) {
	H h;
	constexpr Bit all[]{Bit::A, Bit::B, Bit::C, Bit::D};
	Bit a = all[r.below(4)], b = all[r.below(4)], c = all[r.below(4)];
	h.add(bitfield(a)).add(bitfield(a, b)).add(bitfield(a, b, c)).add(OR({a, b, c})).add(OR({c})).add(val(b));
	u32 w = (u32)r.word(32);
	h.add(bitfield(w, (u32)r.word(32)));
	return h.v;
}
#endif
#ifndef VF_NO_colour
constexpr u64 colour(R &r) {
	H h;
	auto see = [&h](Color c) { h.add(c.red()).add(c.green()).add(c.blue()).add(c.Rgb565()); };
	Color a{(u8)r.next(), (u8)r.next(), (u8)r.next()}, b{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	see(a);
	see(a + b);
	see(a * r.unit());
	see(a.blend(b));
	see(a.blend(b, (u8)r.next()));
	see(a.blend(b, (u32)r.next()));
	see(a.blend(b, r.unit()));
	see(Color{(u16)r.next()});
	h.add(a == b).add(a == a);
	u16 p = (u16)r.next(), q = (u16)r.next();
	h.add(Color::blend(p, q, r.unit())).add(Color::blend(p, q, (u8)r.next())).add(Color::slow_blend(p, q, r.unit()));
	HSVColor s{(u8)r.next(), (u8)r.next(), (u8)r.next()};
	see(s);
	auto see565 = [&h](RGB565 c) { h.add(c.red()).add(c.green()).add(c.blue()).add(c.raw()); };
	see565(RGB565{(u8)r.next(), (u8)r.next(), (u8)r.next()});
	see565(RGB565{r.unit(), r.unit(), r.unit()});
	see565(RGB565{(u32)r.next() & 0xffffff});
	return h.v;
}
#endif
#ifndef VF_NO_calibration
constexpr u64 calibration(R &r) {
	H h;
	float lo = r.fl(), ml = r.fl();
	Calibrator c{1.f + r.unit(), r.fl()};
	Calibrator d{{lo, lo + 1.f + r.unit()}, {ml, ml + 1.f + r.unit()}};
	float x = r.fl();
	h.f(c.adjust(x)).f(c.reverse_calibrate(x)).f(d.adjust(x)).f(d.reverse_calibrate(x));
	c.calibrate_chan(lo, lo + 2.f, ml, ml + 3.f);
	h.f(c.adjust(x)).f(c.reverse_calibrate(x));
	return h.v;
}
#endif
#ifndef VF_NO_tables
struct Range {
	static constexpr float min = -2.f, max = 3.f;
};
constexpr InterpArray<float, 9> curve{0.f, 1.f, 4.f, -3.f, 9.f, 2.5f, 1e6f, -1e-6f, 7.f};
constexpr auto square = LookupTable<17>::generate<Range>([](auto v) { return v * v; });
constexpr u64 tables(R &r) {
	H h;
	float p = r.unit(), i = p * 8.f;
	h.f(curve.interp(p)).f(curve.interp_wrap(p)).f(curve.closest(p)).f(curve.closest_wrap(p)).f(curve.interp_by_index(i));
	h.f(curve.interp_by_index_wrap(i)).f(curve.interp_wrap(p + (float)r.below(4)));
	h.f(square(r.unit())).f(square.lookup(r.fl() / 100.f));
	LookupTable<5> own{-1.f, 1.f, {r.fl(), r.fl(), r.fl(), r.fl(), r.fl()}};
	h.f(own(r.unit())).f(own(-r.unit())).f(own(9.f)).f(own(-9.f));
	return h.v;
}
#endif
#ifndef VF_NO_vector
constexpr u64 vector(R &r) {
	H h;
	FixedVector<int, 6> v;
	FixedVector<u8, 4> w{(u8)1, (u8)2};
	unsigned n = 12 + r.below(12);
	for (unsigned i = 0; i < n; i++) {
		switch (r.below(10)) {
			case 0 ... 2:
				h.add(v.push_back(r.in(-99, 99)));
				break;
			case 3:
				h.add(v.pop_back());
				break;
			case 4:
				if (u32 at = r.below(8); true)
					v.insert(at, r.in(-99, 99));
				break;
			case 5:
				v.erase(r.below(8));
				break;
			case 6:
				h.add(v.resize(r.below(8), 7));
				break;
			case 7:
				if (v.size() > 1)
					v.erase(v.begin(), v.begin() + 1);
				break;
			case 8:
				if (auto k = v.push_back_for_overwrite(); k < v.max_size())
					v[k] = r.in(-99, 99);
				break;
			default:
				if (r.below(4) == 0)
					v.clear();
				h.add(w.resize_for_overwrite(r.below(3)));
		}
		h.add(v.size()).add(v.available()).add(v.back()).add(w.size());
		for (auto e : v)
			h.add(e);
		for (auto e : std::as_const(v).span())
			h.add(e);
	}
	auto c = v;
	h.add(c.size()).add(c.back());
	return h.v;
}
#endif
#ifndef VF_NO_string
constexpr StaticString<8> named{"a constant that is too long"};
constexpr StaticString<8> viewed{std::string_view{"view"}};
constexpr StaticString<4> nothing{};
constexpr u64 string(R &r) {
	H h;
	char b[14]{};
	unsigned n = r.below(13);
	for (unsigned i = 0; i < n; i++)
		b[i] = 'a' + r.below(26);
	StaticString<8> s{b}, t{std::string_view{b, n}}, u;
	auto see = [&h](const auto &x) {
		for (unsigned i = 0; x.data()[i]; i++)
			h.add(x.data()[i]);
		h.add(1000);
	};
	see(s);
	see(t);
	see(u);
	see(named);
	see(viewed);
	see(nothing);
	u.copy(s);
	see(u);
	StaticString<3> small;
	small.copy(u);
	see(small);
	u.copy(small);
	see(u);
	u.copy("xyz");
	see(u);
	u.copy(std::string_view{b, n / 2});
	see(u);
	u.clear();
	see(u);
	return h.v;
}
#endif
#ifndef VF_NO_message
using K4 = std::array<char, 4>;
constexpr u64 message(R &r) {
	H h;
	std::array<u8, 48> b{}, c{}, d{};
	std::array<u8, 5> raw{(u8)r.next(), (u8)r.next(), (u8)r.next(), (u8)r.next(), (u8)r.next()};
	u32 a = (u32)r.next();
	u16 e = (u16)r.next();
	size_t room = r.below(49), len = r.below(6);
	CompactBinaryWriter<u16> w{std::span<u8>{b}.first(room)};
	w.field((u16)1, a);
	w.begin_object((u16)2);
	w.field((u16)3, e);
	w.raw((u16)4, std::span<const u8>{raw}.first(len));
	w.end_object();
	h.add(w.size());
	auto describe = [&](auto &s) {
		s.field((u16)1, a);
		s.object((u16)2, [&](auto &t) {
			t.field((u16)3, e);
			t.raw((u16)4, std::span<const u8>{raw}.first(len));
		});
	};
	using S = CompactBinarySerializer<u16>;
	h.add(S::measure(describe)).add(S::serialize(std::span<u8>{c}.first(room), describe));
	size_t at = 0;
	h.add(S::stream(describe, [&](std::span<const u8> p) {
		for (auto x : p)
			d[at++] = x;
	}));
	for (auto x : b)
		h.add(x);
	for (auto x : c)
		h.add(x);
	for (auto x : d)
		h.add(x);
	for (auto *m : {&b, &c, &d}) {
		CompactBinaryParser<u16> p{std::span<const u8>{*m}};
		h.add(p.get<u32>(1).value_or(5)).add(p.get<u16>(1).value_or(5)).add(p.get_size(2)).add(p.get_node(2).size());
		CompactBinaryParser<u16> q{p.get_node(2)};
		h.add(q.get<u16>(3).value_or(5)).add(q.get_size(4)).add(q.get<std::array<u8, 5>>(4).value_or(std::array<u8, 5>{})[1]);
	}
	std::array<u8, 20> k{};
	CompactBinaryWriter<K4> kw{k};
	kw.field(K4{'a', (char)('a' + r.below(3)), 0, 'x'}, e);
	CompactBinaryParser<K4> kp{std::span<const u8>{k}};
	h.add(kp.get<u16>(K4{'a', 'b'}).value_or(5)).add(kp.get_size(K4{'a', 'a'}));
	return h.v;
}
#endif
#ifndef VF_NO_shapes
constexpr u64 shapes(R &r) {
	H h;
	RectC a{r.in(-9, 9), r.in(-9, 9), r.in(0, 20), r.in(0, 20)}, b{r.in(-9, 9), r.in(-9, 9), r.in(0, 20), r.in(0, 20)};
	h.add(a.width()).add(a.height()).add(a.center_x()).add(a.center_y()).add(a.x_intersects(b)).add(a.y_intersects(b));
	h.add(a.is_intersecting(b));
	Rect c{r.in(-9, 9), r.in(-9, 9), r.in(0, 20), r.in(0, 20)};
	h.add(c.right()).add(c.bottom()).add(c.center_x()).add(c.center_y());
	return h.v;
}
#endif
#ifndef VF_NO_frames
constexpr u64 frames(R &r) {
	H h;
	using F24 = AudioFrame<int32_t, 24>;
	using F16 = AudioFrame<int16_t, 16>;
	using F32 = AudioFrame<int32_t, 32>;
	using U8 = AudioFrame<u8, 8>;
	using U16 = AudioFrame<u16, 16>;
	u32 w = (u32)r.word(32);
	h.add(F24::sign_extend((int32_t)w)).f(F24::scaleInput((int32_t)w)).add(F16::sign_extend((int16_t)w)).f(F16::scaleInput((int16_t)w));
	h.f(F32::scaleInput((int32_t)w));
	float v = r.fl() / 800.f;
	h.add(F16::scaleOutput(v)).add(F32::scaleOutput(v)).add(U8::scaleOutput(v)).add(U16::scaleOutput(v));
	return h.v;
}
#endif
} // namespace ct

#define SECTION(NAME)                                                                                                  \
	static constexpr auto table_##NAME = ct::table<ct::NAME>();                                                        \
	VF_SUITE(NAME, ct::N, ct::N) {                                                                                     \
		size_t i = idx % ct::N;                                                                                        \
		u64 got = ct::at_run_time<ct::NAME>(i);                                                                        \
		VF_CHECK(got == table_##NAME[i], "run-time-differs",                                                           \
				 "stream %zu (seed %d): the values computed at compile time and at run time differ", i, (int)VF_SEED);   \
		VF_COVER("streams_" #NAME);                                                                                    \
		VF_COVER("streams_compared");                                                                                  \
		vf::nontrivial(got);                                                                                           \
		if (vf::want_sample())                                                                                         \
			vf::sample(vf::fmt("stream %zu: same results (digest %016llx) from the compiler and the program", i,       \
							   (unsigned long long)got));                                                              \
	}
using vf::u64;
#ifndef VF_NO_math
SECTION(math)
#endif
#ifndef VF_NO_bits
SECTION(bits)
#endif
#ifndef VF_NO_colour
SECTION(colour)
#endif
#ifndef VF_NO_calibration
SECTION(calibration)
#endif
#ifndef VF_NO_tables
SECTION(tables)
#endif
#ifndef VF_NO_vector
SECTION(vector)
#endif
#ifndef VF_NO_string
SECTION(string)
#endif
#ifndef VF_NO_message
SECTION(message)
#endif
#ifndef VF_NO_shapes
SECTION(shapes)
#endif
#ifndef VF_NO_frames
SECTION(frames)
#endif
