// C18: version parsing, order and compatibility.
#include "vf.hh"
#include "util/version_tools.hh"
using namespace vf;
using V = VersionUtil::Version;

// leading number of one field; out of 0..255 counts as 0
static unsigned ref_field(std::string_view t) {
	u64 v = 0;
	for (char c : t) {
		if (c < '0' || c > '9')
			break;
		v = std::min<u64>(v * 10 + (c - '0'), 1000000);
	}
	return v > 255 ? 0 : (unsigned)v;
}
static void check_parse(const std::string &s) {
	VF_LOG("parse '%s'", s.c_str());
	std::unique_ptr<char[]> p(new char[s.size()]);
	std::copy(s.begin(), s.end(), p.get());
	V v(std::string_view(p.get(), s.size()));
	unsigned want[3] = {};
	size_t pos = 0;
	unsigned i = 0, fields = 0;
	bool pre = false; // a dash in the revision, after it, or in the last field
	std::string last;
	while (true) {
		auto e = s.find('.', pos);
		last = s.substr(pos, e == s.npos ? e : e - pos);
		if ((fields++ >= 2 || e == s.npos) && last.find('-') != last.npos)
			pre = true;
		if (i < 3)
			want[i++] = ref_field(last);
		if (e == s.npos)
			break;
		pos = e + 1;
	}
	VF_CHECK(v.major == want[0] && v.minor == want[1] && v.revision == want[2],
			 "parsed-fields",
			 "'%s' parsed as %u.%u.%u, expected %u.%u.%u",
			 s.c_str(),
			 v.major,
			 v.minor,
			 v.revision,
			 want[0],
			 want[1],
			 want[2]);
	if (pre) {
		VF_CHECK(!v.is_normal, "pre-release", "'%s'", s.c_str());
		VF_COVER("pre_releases");
		if (last.find('-') == last.npos)
			VF_COVER("pre_releases_with_dots");
	} else if (s.find('-') == s.npos)
		VF_CHECK(v.is_normal, "normal-release", "'%s'", s.c_str());
	if (want[0] | want[1] | want[2])
		VF_COVER("versions_parsed");
	nontrivial(Hash{}.add(std::string_view(s)));
}
VF_SUITE(parsing, 150000, 10000000) {
	std::string s;
	unsigned mode = rng.below(4);
	if (mode == 0) {
		for (unsigned i = 0, n = rng.below(16); i < n; i++)
			s += "0123456789..-a"[rng.below(14)];
	} else {
		unsigned n = 1 + rng.below(5);
		for (unsigned i = 0; i < n; i++) {
			if (i)
				s += '.';
			u64 v;
			switch (rng.below(6)) {
				case 0:
					v = rng.below(3);
					break;
				case 1:
					v = 250 + rng.below(12);
					break;
				case 2:
					v = rng.pick<u64>({65536, 65541, 1ull << 32, (1ull << 32) + 7, (1ull << 33) + 255, ~0ull, 1ull << 63, (1ull << 63) - 1, 2147483648ull, 4294967295ull}) + rng.below(3);
					break;
				default:
					v = rng.below(256);
			}
			if (rng.chance(1, 8))
				s += std::string(rng.below(12), '0');
			s += std::to_string(v);
			if (rng.chance(1, 10))
				s += std::to_string(rng.next());
			if (rng.chance(1, 10))
				s += "-rc";
			if (rng.chance(1, 12))
				s += std::string(1, (char)rng.range(128, 255));
		}
		if (rng.chance(1, 12))
			s += rng.pick<const char *>({"-rc.1", "-alpha.2.13", "-dev.x.", "-.", "-0.3.7"});
		if (rng.chance(1, 400)) // far longer than any version
			s += rng.pick<const char *>({".", "7", "x", "0", ".1"}) + std::string(200 + rng.below(70000), rng.pick<char>({'0', '.', 'z', '9', '-'}));
		if (s.size() > 255)
			VF_COVER("long_texts");
		if (mode == 3)
			s = s.substr(0, rng.below(s.size() + 1));
	}
	// white space and signs in front of a field are not described
	check_parse(s);
	if (want_sample())
		sample("parse '" + s + "'");
}
VF_SUITE(enum_short_texts, 14, 14) {
	static const char al[] = "0129.-a";
	u64 n = 0;
	for (u64 k = 0; k < 2401 * 7; k++) {
		std::string s;
		u64 x = k;
		for (unsigned l = idx % 7; l--; x /= 7)
			s += al[x % 7];
		if (x)
			break;
		check_parse(s);
		n++;
	}
	if (idx == 0) {
		V v(std::string_view{});
		VF_CHECK(v == V(0, 0, 0), "empty-view", "%s", "");
	}
	evaluated(n);
}
VF_SUITE(ordering, 400000, 20000000) {
	auto any = [&] {
		V v((u8)rng.pick({0, 1, 2, 127, 128, 255}), (u8)rng.pick({0, 1, 2, 127, 128, 255}), (u8)rng.pick({0, 1, 2, 127, 128, 255}));
		if (rng.chance(1, 5))
			v = V((u8)rng.next(), (u8)rng.next(), (u8)rng.next());
		v.is_normal = rng.chance(1, 2);
		return v;
	};
	V a = any(), b = any();
	if (rng.chance(1, 2)) {
		b = a;
		switch (rng.below(5)) {
			case 0:
				b.revision++;
				break;
			case 1:
				b.minor--;
				break;
			case 2:
				b.major++;
				break;
			case 3:
				b.is_normal = !b.is_normal;
				break;
		}
	}
	auto key = [](V v) { return ((((unsigned)v.major << 8 | v.minor) << 8 | v.revision) << 1) | v.is_normal; };
	unsigned ka = key(a), kb = key(b);
	VF_CHECK((a < b) == (ka < kb) && (a > b) == (ka > kb) && (a <= b) == (ka <= kb) && (a >= b) == (ka >= kb), "order", "%x %x", ka, kb);
	VF_CHECK((a == b) == (ka == kb) && (a != b) == (ka != kb), "equality", "%x %x", ka, kb);
	VF_EQ(a.is_later(b), ka > kb, "is-later");
	VF_EQ(a.can_host_version(b), a.major == b.major && a.minor >= b.minor, "can-host");
	if (a.can_host_version(b))
		VF_COVER("hostable");
	if (ka == kb)
		VF_COVER("equal_versions");
	nontrivial(Hash{}.add(ka).add(kb));
	V c((u8)a.major, a.minor, a.revision);
	VF_CHECK(c.is_normal && c.major == a.major && c.minor == a.minor && c.revision == a.revision, "constructed", "%x", ka);
	V t(fmt("%u.%u.%u%s", a.major, a.minor, a.revision, a.is_normal ? "" : "-dev"));
	VF_CHECK(t == a, "text-round-trip", "%x", ka);
}
