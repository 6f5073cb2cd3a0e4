// C16: integer to text and printing, against the C library, in exact-size heap buffers.
#include "vf.hh"
#include "util/int_to_str.hh"
#include "util/print.hh"
#include <climits>
using namespace vf;

struct Heap {
	std::unique_ptr<char[]> p;
	size_t n;
	explicit Heap(size_t n)
		: p{new char[n]}
		, n{n} {
		memset(p.get(), 0x7F, n);
	}
	bool untouched(size_t from) const {
		for (size_t i = from; i < n; i++)
			if (p[i] != 0x7F)
				return false;
		return true;
	}
};

static void one_value(int32_t v, size_t n) {
	char ref[16];
	int len = snprintf(ref, sizeof ref, "%d", v);
	{
		Heap h(n);
		bool ok = int_to_str(v, std::span<char>(h.p.get(), n));
		bool fits = (size_t)len + 1 <= n;
		VF_CHECK(ok == fits, "fit-report", "int_to_str(%d) into %zu bytes returned %d", v, n, ok);
		if (fits) {
			VF_CHECK(!memcmp(h.p.get(), ref, len + 1), "decimal-text", "int_to_str(%d) wrote '%s'", v, h.p.get());
			VF_CHECK(h.untouched(len + 1), "bytes-after-terminator", "int_to_str(%d) into %zu bytes", v, n);
		} else
			VF_COVER("refused_no_room");
	}
	{
		Heap h(n);
		int_to_str_chop(v, std::span<char>(h.p.get(), n));
		if (n >= 2) {
			std::string digits = v < 0 ? ref + 1 : ref;
			size_t room = n - 1 - (v < 0);
			if (digits.size() > room) {
				digits = digits.substr(digits.size() - room);
				VF_COVER("chopped");
			}
			std::string want = (v < 0 ? "-" : "") + digits;
			VF_CHECK(!memcmp(h.p.get(), want.c_str(), want.size() + 1),
					 "chopped-text",
					 "int_to_str_chop(%d) into %zu bytes wrote '%.*s', expected '%s'",
					 v,
					 n,
					 (int)n,
					 h.p.get(),
					 want.c_str());
			VF_CHECK(h.untouched(want.size() + 1), "bytes-after-terminator", "chop(%d) into %zu bytes", v, n);
		}
	}
	unsigned u = v;
	char ub[16];
	VF_EQ(num_digits(u), (unsigned)snprintf(ub, sizeof ub, "%u", u), "digit-count");
}

static std::string out;
static void pc(const char c) {
	out += c;
}

VF_SUITE(values_and_buffers, 400000, 40000000) {
	int32_t v = rng.anyint<int32_t>();
	if (rng.chance(1, 3)) {
		// decimal shapes: few significant digits, zeros inside and at the end
		i64 p = 1, x = 0;
		for (unsigned d = 0, n = 1 + rng.below(10); d < n; d++, p *= 10)
			x += p * (rng.chance(1, 2) ? 0 : rng.chance(1, 3) ? 1 : (i64)rng.below(10));
		if (x <= INT_MAX)
			v = rng.chance(1, 2) ? -x : x;
	}
	size_t n = rng.chance(1, 12) ? rng.below(40) : rng.below(14);
	if (rng.chance(1, 2000)) {
		n = wild(rng, 14, 18); // more than enough, however it is counted
		VF_COVER("large_buffers");
	}
	VF_LOG("value %d buffer %zu", v, n);
	one_value(v, n);
	if (v == INT_MIN)
		VF_COVER("most_negative");
	nontrivial(Hash{}.add(v).add(n));
	if (want_sample())
		sample(fmt("%d into %zu bytes", v, n));
}

// small values, in every buffer size; and the whole neighbourhood of powers of ten
VF_SUITE(enum_small, 64, 64) {
	u64 cnt = 0;
	for (int32_t v = -20000 + (int)idx * 625; v < -20000 + (int)(idx + 1) * 625; v++)
		for (size_t n = 0; n <= 8; n++, cnt++)
			one_value(v, n);
	if (idx == 0)
		for (i64 p = 1; p <= 1000000000; p *= 10)
			for (i64 m = 1; m < 10; m++)
				for (i64 d = -3; d <= 3; d++)
					for (int s = -1; s <= 1; s += 2) {
						i64 x = s * (p * m + d);
						if (x >= INT_MIN && x <= INT_MAX)
							for (size_t n = 0; n <= 13; n++, cnt++)
								one_value(x, n);
					}
	evaluated(cnt);
	VF_COVERN("values_enumerated", cnt);
}
// in the thorough tier: every 32-bit value
VF_SUITE(enum_every_value, 128, 65536) {
	int32_t base = st().thorough ? (int32_t)(u32)(idx << 16) : (int32_t)(u32)(mix(idx + st().seed * 1000) & 0xffff0000u);
	char b[13];
	for (unsigned k = 0; k < 65536; k++) {
		int32_t v = (int32_t)((u32)base + k);
		memset(b, 'Z', sizeof b);
		bool ok = int_to_str(v, b);
		// independent: read the text back
		i64 acc = 0;
		unsigned i = v < 0;
		unsigned first = i;
		while (b[i] >= '0' && b[i] <= '9')
			acc = acc * 10 + (b[i++] - '0');
		VF_CHECK(ok && b[i] == 0 && i > first && (b[first] != '0' || i == first + 1) && (v < 0 ? b[0] == '-' && -acc == v : acc == v) && b[12] == 'Z',
				 "every-value",
				 "int_to_str(%d) wrote '%.12s'",
				 v,
				 b);
		char c[13];
		memset(c, 'Z', sizeof c);
		int_to_str_chop(v, c);
		VF_CHECK(!memcmp(b, c, sizeof b), "every-value-chop", "int_to_str_chop(%d) wrote '%.12s'", v, c);
	}
	evaluated(65536);
	VF_COVERN("values_read_back", 65536);
	nontrivial(Hash{}.add(base));
}

VF_SUITE(printing, 200000, 10000000) {
	auto i1 = rng.anyint<int32_t>();
	auto h1 = rng.anyint<u32>();
	// text in an exact-size block, the view of it without a terminator
	size_t n = rng.below(20);
	std::unique_ptr<char[]> s(new char[n + 1]), w(new char[n]);
	std::unique_ptr<unsigned char[]> us(new unsigned char[n + 1]);
	for (size_t i = 0; i < n; i++) {
		s[i] = w[i] = (char)rng.range(1, 255);
		us[i] = (unsigned char)s[i];
	}
	s[n] = 0;
	us[n] = 0;
	std::string text(w.get(), n);
	std::string_view view(w.get(), n);
	auto with = [&](auto... a) {
		out.clear();
		print<pc>(a...);
		return out;
	};
	auto dec = std::to_string(i1);
	auto hex = fmt("%X", h1);
	auto expect = [&](std::string got, std::string want) {
		VF_CHECK(got == want, "printed-text", "printed '%s', expected '%s'", got.c_str(), want.c_str());
	};
	switch (rng.below(7)) {
		case 0:
			expect(with(i1), dec);
			break;
		case 1:
			expect(with(Hex{h1}), hex);
			break;
		case 2:
			expect(with(view), text);
			VF_COVER("views_printed");
			break;
		case 3:
			expect(with((const char *)s.get()), text);
			break;
		case 4:
			expect(with((const unsigned char *)us.get()), text);
			break;
		case 5:
			expect(with(view, i1, Hex{h1}, (const char *)s.get()), text + dec + hex + text);
			break;
		case 6:
			expect(with(Hex{(u32)i1}, view, view.substr(n / 2), i1), fmt("%X", (u32)i1) + text + text.substr(n / 2) + dec);
			break;
	}
	VF_COVER("prints");
	nontrivial(Hash{}.add(std::string_view(out)));
	if (want_sample())
		sample(fmt("printed %d / %X", i1, h1));
}
