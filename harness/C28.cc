// C28: colour arithmetic against exact per-channel integers; LEDs against a time model.
#include <bit>
#include "vf.hh"
#include "util/colors.hh"
#include "util/colors_rgb565.hh"
#include "util/hsv.hh"
#include "util/rgbled.hh"
using namespace vf;
using Arr = std::array<int, 3>;

static Color color(Rng &rng, Arr &a) {
	for (auto &c : a)
		c = rng.chance(1, 4) ? rng.pick({0, 255, 1, 254, 127, 128}) : (int)rng.below(256);
	return Color((uint8_t)a[0], (uint8_t)a[1], (uint8_t)a[2]);
}
static Arr ch(Color c) {
	return {c.red(), c.green(), c.blue()};
}
static void same(Color c, Arr want, const char *key) {
	Arr got = ch(c);
	VF_CHECK(got == want, key, "(%d,%d,%d), expected (%d,%d,%d)", got[0], got[1], got[2], want[0], want[1], want[2]);
}
template<typename F>
static Arr each(Arr a, Arr b, F f) {
	return {f(a[0], b[0]), f(a[1], b[1]), f(a[2], b[2])};
}

VF_SUITE(arithmetic, 200000, 15000000) {
	Arr a, b;
	Color x = color(rng, a), y = color(rng, b);
	VF_LOG("(%d,%d,%d) and (%d,%d,%d)", a[0], a[1], a[2], b[0], b[1], b[2]);
	same(x, a, "channels");
	VF_EQ(x == y, a == b, "equality");
	VF_EQ(x != y, a != b, "inequality");
	VF_CHECK(x == x, "equality", "%s", "");
	{ // one channel apart
		Arr c = a;
		c[rng.below(3)] ^= 1 << rng.below(8);
		Color z((uint8_t)c[0], (uint8_t)c[1], (uint8_t)c[2]);
		VF_CHECK(!(x == z) && x != z, "equality", "(%d,%d,%d)", c[0], c[1], c[2]);
	}
	Arr s = each(a, b, [](int p, int q) { return p + q; });
	same(x + y, each(s, s, [](int p, int) { return std::min(p, 255); }), "sum");
	if (s[0] < 256 && s[1] < 256 && s[2] < 256)
		VF_COVER("sums_in_range");
	same(x.combine(y), each(a, b, [](int p, int q) { return std::min(p + q, 255); }), "combine-saturates");
	if (s[0] > 255 || s[1] > 255 || s[2] > 255)
		VF_COVER("combined_beyond_full");
	same(x.adjust({(uint8_t)b[0], (uint8_t)b[1], (uint8_t)b[2]}), each(a, b, [](int p, int q) { return std::min(p * q >> 7, 255); }), "adjust-saturates");
	same(x.adjust({128, 128, 128}), a, "adjust-neutral");
	same(x.blend(y), each(a, b, [](int p, int q) { return (p >> 1) + (q >> 1); }), "blend-half");

	uint8_t p8 = rng.chance(1, 5) ? rng.pick({0, 255, 1, 254}) : rng.below(256);
	same(x.blend(y, p8), each(a, b, [&](int p, int q) { return (q * p8 + p * (255 - p8)) / 255; }), "blend-8bit");
	same(x.blend(y, (uint8_t)0), a, "blend-endpoint");
	same(x.blend(y, (uint8_t)255), b, "blend-endpoint");

	uint32_t p32 = rng.anyint<u32>();
	same(x.blend(y, p32), each(a, b, [&](int p, int q) { return (p * (256 - (int)(p32 >> 24)) + q * (int)(p32 >> 24)) >> 8; }), "blend-32bit");
	same(x.blend(y, (uint32_t)0), a, "blend-endpoint");

	float pf = rng.chance(1, 5) ? rng.pick({0.f, 1.f, 0.5f}) : (float)rng.unit();
	Arr f = ch(x.blend(y, pf));
	for (int i = 0; i < 3; i++) {
		double w = a[i] * (1.0 - pf) + b[i] * (double)pf;
		VF_CHECK(f[i] >= std::floor(w - 1e-3) && f[i] <= std::floor(w + 1e-3), "blend-float", "%d between %d and %d at %.9g", f[i], a[i], b[i], pf);
		VF_CHECK(f[i] >= std::min(a[i], b[i]) - (a[i] == b[i]) && f[i] <= std::max(a[i], b[i]), "blend-out-of-range", "%d between %d and %d at %.9g", f[i], a[i], b[i], pf);
	}
	same(x.blend(y, 0.f), a, "blend-endpoint");
	same(x.blend(y, 1.f), b, "blend-endpoint");
	Arr m = ch(x * pf);
	for (int i = 0; i < 3; i++)
		VF_CHECK(m[i] >= std::floor(a[i] * (double)pf - 1e-3) && m[i] <= std::floor(a[i] * (double)pf + 1e-3), "scale-float", "%d from %d at %.9g", m[i], a[i], pf);
	nontrivial(Hash{}.add(a[0]).add(a[1]).add(a[2]).add(b[0]).add(b[1]).add(b[2]).add(p32));
	if (want_sample())
		sample(fmt("(%d,%d,%d) with (%d,%d,%d), phases %u %u %g", a[0], a[1], a[2], b[0], b[1], b[2], p8, p32, pf));
}
// every pair of channel values at one 8-bit phase per case
VF_SUITE(enum_blend8, 256, 256) {
	u8 ph = idx;
	for (int a = 0; a < 256; a++)
		for (int b = 0; b < 256; b += 3) {
			Color x(a, b, std::min(b + 1, 255)), y(b, a, std::min(b + 2, 255));
			Arr u = ch(x), v = ch(y);
			same(x.blend(y, ph), each(u, v, [&](int p, int q) { return (q * ph + p * (255 - ph)) / 255; }), "blend-8bit");
		}
	evaluated(256 * 86);
	nontrivial(idx);
}

static Arr f565(uint16_t v) {
	return {v >> 11, (v >> 5) & 63, v & 31};
}
VF_SUITE(enum_565, 256, 256) {
	for (u32 v = idx * 256; v < (idx + 1) * 256; v++) {
		uint16_t raw = v;
		Arr f = f565(raw);
		Color c{raw};
		same(c, {f[0] << 3, f[1] << 2, f[2] << 3}, "from-565");
		VF_EQ(c.Rgb565(), raw, "565-round-trip");
		// low bits do not matter
		Color d(c.red() | (v & 7), c.green() | (v & 3), c.blue() | 7);
		VF_EQ(d.Rgb565(), raw, "to-565");
		Guarded<RGB565> r;
		VF_EQ(r.obj.raw(), (uint16_t)0, "565-default");
		r.obj = raw;
		VF_CHECK(r.intact(), "writes-outside", "%s", "RGB565");
		VF_EQ(r.obj.raw(), raw, "565-raw");
		VF_EQ((uint16_t)r.obj, raw, "565-raw");
		VF_EQ((int)r.obj.r, f[0], "565-field");
		VF_EQ((int)r.obj.g, f[1], "565-field");
		VF_EQ((int)r.obj.b, f[2], "565-field");
		VF_EQ((int)r.obj.red(), f[0] << 3, "565-channel");
		VF_EQ((int)r.obj.green(), f[1] << 2, "565-channel");
		VF_EQ((int)r.obj.blue(), f[2] << 3, "565-channel");
		VF_EQ((RGB565{c.red(), c.green(), c.blue()}.raw()), raw, "565-from-bytes");
		VF_EQ(RGB565{(u32)c.red() << 16 | (u32)c.green() << 8 | c.blue()}.raw(), raw, "565-from-888");
		u32 hi = (v * 77) << 24;
		VF_EQ(RGB565{hi | (u32)d.red() << 16 | (u32)d.green() << 8 | d.blue()}.raw(), raw, "565-from-888");
		RGB565 fl{(f[0] + .5f) / 32, (f[1] + .5f) / 64, (f[2] + .5f) / 32};
		VF_EQ(fl.raw(), raw, "565-from-floats");
	}
	VF_COVERN("codes_565", 256);
	evaluated(256);
	nontrivial(idx);
}
VF_SUITE(rgb565, 150000, 10000000) {
	uint16_t a = rng.next(), b = rng.next();
	if (rng.chance(1, 6))
		b = rng.pick({0, 0xffff, 0xf800, 0x07e0, 0x001f});
	Arr fa = f565(a), fb = f565(b);
	uint8_t al = rng.chance(1, 4) ? rng.pick({0, 3, 4, 251, 252, 255}) : rng.below(256);
	auto near = [&](uint16_t got, double w, double slack, const char *key) {
		Arr g = f565(got);
		for (int i = 0; i < 3; i++) {
			double want = fa[i] + (fb[i] - fa[i]) * w;
			VF_CHECK(std::abs(g[i] - want) < slack, key, "channel %d: %d between %d and %d at %g", i, g[i], fa[i], fb[i], w);
			VF_CHECK(g[i] >= std::min(fa[i], fb[i]) && g[i] <= std::max(fa[i], fb[i]), "565-blend-out-of-range", "channel %d: %d between %d and %d", i, g[i], fa[i], fb[i]);
		}
	};
	VF_LOG("blend %04x %04x %u", a, b, al);
	near(Color::blend(a, b, al), ((al + 4) >> 3) / 32.0, 1.0, "565-blend");
	VF_EQ(Color::blend(a, b, (uint8_t)0), a, "565-blend-endpoint");
	VF_EQ(Color::blend(a, b, (uint8_t)255), b, "565-blend-endpoint");
	float p = rng.chance(1, 6) ? rng.pick({0.f, 1.f, .5f}) : (float)rng.unit();
	near(Color::blend(a, b, p), p, 1.0 + 63 * (1.0 / 255 + 4.5 / 256), "565-blend-float");
	near(Color::slow_blend(a, b, p), p, 1.0 + 63 * 1.5 / 255, "565-slow-blend");
	for (auto e : {0.f, 1.f}) {
		VF_EQ(Color::blend(a, b, e), e ? b : a, "565-blend-endpoint");
		VF_EQ(Color::slow_blend(a, b, e), e ? b : a, "565-blend-endpoint");
	}
	// floats: clamped, never wrapped
	float c[3];
	for (auto &v : c)
		v = rng.chance(1, 3) ? rng.anyfloat(-10, 100) : (float)rng.real(-.3, 1.5);
	RGB565 r{c[0], c[1], c[2]};
	Arr got{(int)r.r, (int)r.g, (int)r.b};
	for (int i = 0; i < 3; i++) {
		double top = i == 1 ? 64 : 32;
		int want = (int)std::clamp(std::floor((double)c[i] * top), 0.0, top - 1);
		VF_CHECK(got[i] == want, "565-float-clamped", "channel %d: %.9g gave %d, expected %d", i, c[i], got[i], want);
		if (c[i] < 0)
			VF_COVER("negative_channels");
		if (c[i] > 1)
			VF_COVER("channels_beyond_one");
	}
	nontrivial(Hash{}.add(a).add(b).add(al));
}

// every hue, saturation and value (value strided in the quick tier)
VF_SUITE(enum_hsv, 256, 256) {
	int h = idx;
	int step = st().thorough ? 1 : 5;
	for (int s = 0; s < 256; s++)
		for (int v = (h * 7 + s) % step; v < 256; v += step) {
			HSVColor hsv{(u8)h, (u8)s, (u8)v};
			Arr got = ch(Color(hsv));
			if (!s) {
				VF_CHECK((got == Arr{v, v, v}), "hsv-grey", "value %d: (%d,%d,%d)", v, got[0], got[1], got[2]);
				continue;
			}
			int sector = h / 43;
			double fr = (h % 43) * 6 / 255.0, sat = s / 255.0;
			double p = v * (1 - sat), q = v * (1 - sat * fr), t = v * (1 - sat * (1 - fr));
			double V = v;
			double w[6][3] = {{V, t, p}, {q, V, p}, {p, V, t}, {p, q, V}, {t, p, V}, {V, p, q}};
			for (int i = 0; i < 3; i++)
				VF_CHECK(std::abs(got[i] - w[sector][i]) <= 2.6, "hsv", "h %d s %d v %d channel %d: %d, exact %.2f", h, s, v, i, got[i], w[sector][i]);
			VF_EQ(std::max({got[0], got[1], got[2]}), v, "hsv-value");
			VF_COVERN("hsv_colours", 1);
		}
	evaluated(65536 / step);
	nontrivial(idx);
}

// ---------------------------------------------------------------------------
struct Led {
	int *out = nullptr;
	void set(uint8_t v) const {
		*out = v;
	}
};
struct LedG : Led {};
struct LedB : Led {};
static_assert(LedC<Led>);

template<unsigned Rate>
static void leds(Rng &rng) {
	Arr out{-1, -1, -1};
	using L = MixedRgbLed<Led, LedG, LedB, Rate>;
	Led r{&out[0]};
	LedG g;
	LedB b;
	g.out = &out[1];
	b.out = &out[2];
	Guarded<L> G(r, g, b);
	L &led = G.obj;
	Arr back{0, 0, 0}, flash{255, 255, 255}, breathe{255, 0, 0}, cal{128, 128, 128};
	double dur = 0, k = 0;		  // of the running flash, in updates
	bool fading = false;
	double bf = 0, bphase = 0, btol = 0; // breathing: cycles per update, phase, and what it may be off
	Hash h;
	h.add(Rate);
	auto adjusted = [&](double v, int c) { return std::min(255.0, v * cal[c] / 128.0); };
	unsigned flashed = 0, breathed = 0;
	for (unsigned i = 0, len = 3 + rng.below(12); i < len; i++) {
		Arr c;
		Color col = color(rng, c);
		switch (rng.below(10)) {
			case 0:
				led.set_base_color(col);
				back = c;
				VF_LOG("base (%d,%d,%d)", c[0], c[1], c[2]);
				break;
			case 1:
				led.blend_base_color(col);
				back = each(back, c, [](int p, int q) { return (p >> 1) + (q >> 1); });
				VF_LOG("blend base%s", "");
				break;
			case 2: {
				Arr s = each(back, c, [](int p, int q) { return p + q; });
				if (s[0] < 256 && s[1] < 256 && s[2] < 256) {
					led.add_base_color(col);
					back = s;
					VF_LOG("add base%s", "");
				}
				break;
			}
			case 3:
			case 4: {
				float ms = (float)(rng.chance(1, 3) ? rng.real(0, 30) : rng.real(1, 1e5 / Rate * 3));
				ms = std::floor(ms);
				fading = rng.chance(1, 2);
				VF_LOG("%s (%d,%d,%d) for %g ms at %u", fading ? "fade" : "flash", c[0], c[1], c[2], ms, Rate);
				fading ? led.fade_once_ms(col, ms) : led.flash_once_ms(col, ms);
				flash = c;
				dur = ms * Rate / 1000.0;
				k = 0;
				h.addf(ms);
				break;
			}
			case 5: {
				float f = (float)rng.real(0, Rate / 20.);
				led.breathe(col, f);
				breathe = c;
				bf = (double)f / Rate;
				VF_LOG("breathe (%d,%d,%d) at %g Hz", c[0], c[1], c[2], f);
				h.addf(f);
				break;
			}
			case 6:
				led.reset_breathe();
				bf = bphase = btol = 0;
				VF_LOG("reset breathe%s", "");
				break;
			case 7:
				cal = c;
				if (rng.chance(1, 2))
					cal = {128, 128, 128};
				led.set_color_calibration({(u8)cal[0], (u8)cal[1], (u8)cal[2]});
				VF_LOG("calibration (%d,%d,%d)", cal[0], cal[1], cal[2]);
				break;
			case 8: { // direct
				led.set_color(col);
				VF_CHECK(out == c, "direct-colour", "(%d,%d,%d)", out[0], out[1], out[2]);
				u8 br = rng.below(256);
				led.set_color(col, br);
				VF_CHECK((out == Arr{c[0] * br >> 8, c[1] * br >> 8, c[2] * br >> 8}), "direct-brightness", "%d: (%d,%d,%d)", br, out[0], out[1], out[2]);
				float fb = (float)rng.unit();
				led.set_color(col, fb);
				for (int j = 0; j < 3; j++)
					VF_CHECK(out[j] >= std::floor(c[j] * (double)fb - 1e-3) && out[j] <= std::floor(c[j] * (double)fb + 1e-3), "direct-brightness", "%g: %d", fb, out[j]);
				continue;
			}
			default:
				break;
		}
		unsigned n = rng.below(rng.chance(1, 3) ? 120 : 20);
		if (dur > k && rng.chance(1, 2))
			n = std::min<unsigned>(400, (unsigned)(dur - k) + 4);
		for (unsigned u = 0; u < n; u++) {
			bool osc_only = rng.chance(1, 40);
			if (osc_only)
				led.update_oscillators();
			else
				led.update_animation();
			k++;
			bphase += bf;
			btol += bf * 4e-7 + (bf * Rate + 2) / 4294967296.0;
			bphase -= std::floor(bphase);
			if (osc_only)
				continue;
			// the time left of the flash, as a fraction; its end may be one update off
			double frac = dur > 0 ? 1 - k / dur : 0;
			double etol = 1e-5 + 1e-6 * dur;
			bool surely_on = dur > 0 && k < dur - 1e-3 * dur - .01, surely_off = dur == 0 || k >= dur + 1 + 1e-3 * dur;
			double tri = bphase < .5 ? 2 * bphase : 2 - 2 * bphase;
			VF_LOG("update %g of %g: breathing phase %.5f -> (%d,%d,%d)", k, dur, bphase, out[0], out[1], out[2]);
			for (int j = 0; j < 3; j++) {
				double rest = back[j] + (breathe[j] - back[j]) * tri;
				double rtol = 1.05 + 512 * btol + 1.0; // one 256th and one rounding
				double on = fading ? back[j] + (flash[j] - back[j]) * frac : flash[j];
				double otol = fading ? 2.05 + 255 * etol * 2 : 0;
				if (bf == 0 && bphase == 0)
					rtol = 0;
				double slack = rtol * cal[j] / 128 + 1, oslack = otol * cal[j] / 128 + 1;
				if (cal[j] == 128) {
					slack = rtol;
					oslack = otol;
				}
				bool isoff = std::abs(out[j] - adjusted(rest, j)) <= slack + 1e-9;
				bool ison = std::abs(out[j] - adjusted(on, j)) <= oslack + 1e-9;
				if (surely_on)
					VF_CHECK(ison, "flash-colour", "channel %d is %d, flash at %g of %g should show %.2f", j, out[j], k, dur, adjusted(on, j));
				else if (surely_off)
					VF_CHECK(isoff, "resting-colour", "channel %d is %d after the flash, expected %.2f", j, out[j], adjusted(rest, j));
				else
					VF_CHECK(ison || isoff, "flash-end", "channel %d is %d", j, out[j]);
			}
			if (surely_on) {
				flashed++;
				VF_COVER("updates_flashing");
				if (fading)
					VF_COVER("updates_fading");
			} else if (surely_off && bf > 0)
				breathed++;
		}
		h.add(n);
	}
	VF_CHECK(G.intact(), "writes-outside", "%s", "MixedRgbLed");
	VF_COVERN("updates_breathing", breathed);
	if (dur * 1000 / Rate > 1000)
		VF_COVER("flashes_longer_than_a_second");
	if (flashed && breathed)
		nontrivial(h);
}
VF_SUITE(rgb_leds, 20000, 1500000) {
	switch (rng.below(4)) {
		case 0:
			return leds<1000>(rng);
		case 1:
			return leds<60>(rng);
		case 2:
			return leds<7>(rng);
		default:
			return leds<300>(rng);
	}
}
