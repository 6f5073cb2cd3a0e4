// C29: zip / countzip / enumerate over instrumented ranges.
#ifdef VF_CFG_OPT // the optional variant; the sanitized build runs the default one
#define COUNTZIP_SUPPORT_VECTORBOOL
#endif
#include <deque>
#include <list>
#include <string>
#include "vf.hh"
#include "util/countzip.hh"
#include "util/zip.hh"
using namespace vf;

// A range whose iterators know where they are and report what they touch.
static u64 g_bad_deref, g_bad_move, g_touched;
template<typename T>
struct Probe {
	std::vector<T> v;
	template<typename V>
	struct It {
		using iterator_category = std::random_access_iterator_tag;
		using value_type = T;
		using difference_type = std::ptrdiff_t;
		using pointer = V *;
		using reference = V &;
		V *base = nullptr;
		std::ptrdiff_t i = 0, n = 0;
		V &operator*() const {
			g_touched++;
			if (i < 0 || i >= n) {
				g_bad_deref++;
				static std::remove_const_t<V> dummy{};
				return dummy;
			}
			return base[i];
		}
		It &operator+=(std::ptrdiff_t d) {
			i += d;
			if (i < 0 || i > n)
				g_bad_move++;
			return *this;
		}
		It &operator++() {
			return *this += 1;
		}
		It operator++(int) {
			auto t = *this;
			*this += 1;
			return t;
		}
		friend bool operator==(It const &a, It const &b) {
			return a.i == b.i;
		}
		friend auto operator<=>(It const &a, It const &b) {
			return a.i <=> b.i;
		}
		friend It operator+(It a, std::ptrdiff_t d) {
			a += d;
			return a;
		}
		friend std::ptrdiff_t operator-(It const &a, It const &b) {
			return a.i - b.i;
		}
	};
	using iterator = It<T>;
	using const_iterator = It<T const>;
	using value_type = T;
	iterator begin() {
		return {v.data(), 0, (std::ptrdiff_t)v.size()};
	}
	iterator end() {
		return {v.data(), (std::ptrdiff_t)v.size(), (std::ptrdiff_t)v.size()};
	}
	const_iterator begin() const {
		return {v.data(), 0, (std::ptrdiff_t)v.size()};
	}
	const_iterator end() const {
		return {v.data(), (std::ptrdiff_t)v.size(), (std::ptrdiff_t)v.size()};
	}
	size_t size() const {
		return v.size();
	}
};

struct Frame {
	i64 l = 0, r = 0;
};

static unsigned len(Rng &rng) {
	unsigned r = rng.below(6000);
	if (r < 60) {
		VF_COVER("long_ranges");
		return r == 0 ? 65500 + rng.below(100) : 200 + rng.below(200);
	}
	return rng.chance(1, 5) ? rng.below(2) : rng.below(30);
}
static void probes_ok(u64 want_touched, const char *what) {
	VF_CHECK(g_bad_deref == 0, "touches-past-the-end", "%s: %llu", what, (unsigned long long)g_bad_deref);
	VF_CHECK(g_bad_move == 0, "moves-past-the-end", "%s: %llu", what, (unsigned long long)g_bad_move);
	VF_EQ(g_touched, want_touched, "elements-touched");
	g_touched = 0;
}

VF_SUITE(probed, 60000, 4000000) {
	Probe<i64> a;
	Probe<Frame> b;
	Probe<float> cc;
	unsigned la = len(rng), lb = len(rng), lc = len(rng);
	if (rng.chance(1, 4))
		lb = la;
	if (rng.chance(1, 4))
		lc = la;
	for (unsigned i = 0; i < la; i++)
		a.v.push_back(rng.anyint<i64>());
	for (unsigned i = 0; i < lb; i++)
		b.v.push_back({(i64)rng.next(), (i64)i});
	for (unsigned i = 0; i < lc; i++)
		cc.v.push_back((float)i * 3);
	a.v.shrink_to_fit();
	b.v.shrink_to_fit();
	cc.v.shrink_to_fit();
	Probe<float> const &c = cc;
	unsigned n = std::min({la, lb, lc}), n2 = std::min(la, lb);
	g_bad_deref = g_bad_move = g_touched = 0;
	VF_LOG("lengths %u %u %u", la, lb, lc);

	unsigned k = 0;
	for (auto [x] : zip(a)) {
		VF_CHECK(&x == &a.v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, la, "zip-length");
	probes_ok(la, "zip of one");

	k = 0;
	for (auto [x, y] : zip(a, b)) {
		VF_CHECK((std::is_same_v<decltype(x), i64 &> && std::is_same_v<decltype(y), Frame &>), "not-references", "%s", "zip");
		VF_CHECK(k < n2 && &x == &a.v[k] && &y == &b.v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, n2, "zip-length");
	probes_ok(2 * n2, "zip of two");

	k = 0;
	for (auto [x, y, z] : zip(a, b, c)) {
		VF_CHECK((std::is_same_v<decltype(z), float const &>), "not-references", "%s", "zip of a constant range");
		VF_CHECK(k < n && &x == &a.v[k] && &y == &b.v[k] && &z == &c.v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, n, "zip-length");
	probes_ok(3 * n, "zip of three");

	k = 0;
	for (auto [i, x, y, z] : countzip(c, a, b)) {
		VF_EQ(i, (size_t)k, "count");
		VF_CHECK(k < n && &x == &c.v[k] && &y == &a.v[k] && &z == &b.v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, n, "countzip-length");
	probes_ok(3 * n, "countzip");

	k = 0;
	for (auto [i, x] : enumerate(b)) {
		VF_EQ(i, (size_t)k, "count");
		VF_CHECK(&x == &b.v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, lb, "enumerate-length");
	probes_ok(lb, "enumerate");

	// changes through the references, and nothing else changes
	auto ma = a.v;
	auto mb = b.v;
	unsigned stop = rng.chance(1, 3) ? rng.below(n2 + 1) : n2;
	for (auto const [i, x, y] : countzip(a, b)) {
		if (i == stop)
			break;
		x = (i64)i * 5;
		y.l = x + 1;
	}
	for (unsigned i = 0; i < stop; i++) {
		ma[i] = (i64)i * 5;
		mb[i].l = ma[i] + 1;
	}
	VF_CHECK(a.v == ma, "write-through", "%s", "");
	for (unsigned i = 0; i < lb; i++)
		VF_CHECK(b.v[i].l == mb[i].l && b.v[i].r == mb[i].r, "write-through", "%u", i);
	g_touched = 0;

	// iterators used by hand: postfix and prefix steps, copies
	auto zz = zip(a, c);
	auto cz = countzip(a, c);
	auto it = zz.begin();
	auto ci = cz.begin();
	unsigned pos = 0, nn = std::min(la, lc);
	while (pos < nn) {
		VF_CHECK(it != zz.end() && !(it == zz.end()), "ends-early", "%u of %u", pos, nn);
		VF_CHECK(ci != cz.end() && !(ci == cz.end()), "ends-early", "%u of %u", pos, nn);
		if (rng.chance(1, 2)) {
			auto old = it++;
			auto [x, z] = *old;
			VF_CHECK(&x == &a.v[pos] && &z == &c.v[pos], "postfix-step", "%u", pos);
			auto oc = ci++;
			auto [i, x2, z2] = *oc;
			VF_CHECK(i == pos && &x2 == &a.v[pos] && &z2 == &c.v[pos], "postfix-step", "%u: %zu", pos, i);
			VF_COVER("postfix_steps");
		} else {
			auto copy = it;
			auto cc2 = ci;
			auto &r = ++it;
			auto &rc = ++ci;
			VF_CHECK(&r == &it && &rc == &ci, "prefix-step", "%s", "");
			auto [x, z] = *copy;
			auto [i, x2, z2] = *cc2;
			VF_CHECK(&x == &a.v[pos] && i == pos && &x2 == &a.v[pos], "copied-iterator", "%u", pos);
		}
		pos++;
	}
	VF_CHECK(it == zz.end() && !(it != zz.end()), "does-not-end", "%u", pos);
	VF_CHECK(ci == cz.end() && !(ci != cz.end()), "does-not-end", "%u", pos);
	// a zipper can be walked again
	unsigned again = 0;
	for (auto [x, z] : zz)
		again++;
	for (auto [i, x, z] : cz)
		again++;
	VF_EQ(again, 2 * nn, "second-walk");
	VF_CHECK(g_bad_deref == 0 && g_bad_move == 0, "touches-past-the-end", "%s", "by hand");
	if (la != lb || lb != lc)
		VF_COVER("unequal_lengths");
	if (!n)
		VF_COVER("empty_common_prefix");
	if (n)
		nontrivial(Hash{}.add(la).add(lb).add(lc).add(stop).add((u64)ma[0]));
	if (want_sample())
		sample(fmt("lengths %u, %u, %u; %u common", la, lb, lc, n));
}

// standard containers, temporaries, constness, vector<bool>
VF_SUITE(containers, 40000, 2000000) {
	unsigned la = len(rng), ld = len(rng), ls = len(rng), lb = len(rng);
	std::vector<int> v;
	std::deque<u8> d;
	std::string s;
	std::vector<bool> vb;
	std::array<Frame, 7> arr{};
	for (unsigned i = 0; i < la; i++)
		v.push_back(rng.next());
	for (unsigned i = 0; i < ld; i++)
		d.push_back(i * 3);
	for (unsigned i = 0; i < ls; i++)
		s += (char)rng.next();
	for (unsigned i = 0; i < lb; i++)
		vb.push_back(rng.chance(1, 2));
	v.shrink_to_fit();
	unsigned k = 0;
	for (auto [x, y, z, w] : zip(v, d, s, arr)) {
		VF_CHECK(&x == &v[k] && &y == &d[k] && &z == &s[k] && &w == &arr[k], "pairs-wrong-element", "%u", k);
		w.l = x;
		k++;
	}
	unsigned n = std::min({la, ld, ls, 7u});
	VF_EQ(k, n, "zip-length");
	for (unsigned i = 0; i < 7; i++)
		VF_EQ(arr[i].l, i < n ? (i64)v[i] : 0, "write-through");
	k = 0;
	auto const &cv = v;
	for (auto [i, b, x] : countzip(vb, cv)) {
		VF_EQ(i, (size_t)k, "count");
		VF_CHECK((bool)b == vb[k] && &x == &v[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, std::min(lb, la), "countzip-length");
	// temporaries are kept alive by the zipper
	k = 0;
	for (auto [x, y] : zip(std::vector<int>(v), std::string(s))) {
		VF_CHECK(x == v[k] && y == s[k], "temporary-lost", "%u", k);
		x = 0;
		k++;
	}
	VF_EQ(k, std::min(la, ls), "zip-length");
	k = 0;
	for (auto [i, x, y] : countzip(std::vector<int>(v), d)) {
		VF_CHECK(i == k && x == v[k] && &y == &d[k], "temporary-lost", "%u", k);
		k++;
	}
	VF_EQ(k, std::min(la, ld), "countzip-length");
	k = 0;
	for (auto [i, x] : enumerate(std::string(s))) {
		VF_CHECK(i == k && x == s[k], "temporary-lost", "%u", k);
		k++;
	}
	VF_EQ(k, ls, "enumerate-length");
	k = 0;
	const std::array<int, 3> ca{1, 2, 3};
	for (auto [i, x] : enumerate(ca)) {
		VF_CHECK(i == k && &x == &ca[k], "pairs-wrong-element", "%u", k);
		k++;
	}
	VF_EQ(k, 3u, "enumerate-length");
	VF_COVER("container_mixes");
	nontrivial(Hash{}.add(la).add(ld).add(ls).add(lb).add(2));
}
