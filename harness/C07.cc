// C07: FixedVector against std::vector.
#include "vf.hh"
#include "util/fixed_vector.hh"
using namespace vf;

static i64 val(u8 x) {
	return x;
}
static i64 val(u64 x) {
	return (i64)x;
}
static i64 val(const Live &l) {
	return l.get();
}

template<typename T, size_t N>
static void compare(FixedVector<T, N> &v, const std::vector<i64> &m) {
	VF_EQ(v.size(), m.size(), "size");
	VF_EQ(v.available(), N - m.size(), "available");
	VF_EQ(v.max_size(), N, "max_size");
	const auto &cv = v;
	VF_EQ(v.end() - v.begin(), (ptrdiff_t)m.size(), "iteration");
	VF_EQ(cv.end() - cv.begin(), (ptrdiff_t)m.size(), "iteration");
	size_t i = 0;
	for (auto &e : cv)
		VF_EQ(val(e), m[i++], "iteration");
	for (i = 0; i < m.size(); i++) {
		VF_EQ(val(v[i]), m[i], "element");
		VF_EQ(val(cv[i]), m[i], "element");
	}
	VF_EQ(val(cv.back()), m.empty() ? val(T{}) : m.back(), "back");
	auto s = v.span();
	auto cs = cv.span();
	VF_EQ(s.size(), m.size(), "span");
	VF_EQ(cs.size(), m.size(), "span");
	for (i = 0; i < m.size(); i++)
		VF_EQ(val(cs[i]), m[i], "span");
}

template<typename T, size_t N>
static void history(Rng &rng) {
	i64 live0 = Live::live;
	{
		using FV = FixedVector<T, N>;
		auto g = std::make_unique<Guarded<FV>>();
		auto g2 = std::make_unique<Guarded<FV>>();
		std::vector<i64> m, m2;
		i64 next = 1;
		Hash h;
		auto nv = [&] { return (i64)(next++ % 200 + 1); };
		compare<T, N>(g->obj, m);
		unsigned bias = rng.below(3);
		unsigned ops = run_length(rng, 5 + rng.below(90), 100000);
		for (unsigned k = 0; k < ops; k++) {
			FV &v = g->obj;
			unsigned op = rng.below(15);
			if (bias == 1 && rng.chance(1, 3))
				op = rng.pick({0u, 4u});
			if (bias == 2 && rng.chance(1, 4))
				op = rng.pick({1u, 5u});
			h.add(op);
			bool full = m.size() == N;
			switch (op) {
				case 0: {
					i64 x = nv();
					VF_LOG("push_back %lld (size %zu)", (long long)x, m.size());
					VF_EQ(v.push_back(T(x)), !full, "push-result");
					if (!full)
						m.push_back(x);
					else
						VF_COVER("push_refused");
					break;
				}
				case 1: {
					VF_LOG("pop_back");
					i64 x = val(v.pop_back());
					VF_EQ(x, m.empty() ? val(T{}) : m.back(), "popped");
					if (!m.empty())
						m.pop_back();
					else
						VF_COVER("pop_empty");
					break;
				}
				case 2: {
					size_t n = rng.chance(1, 12) ? wild(rng, N) : rng.below(N + 3);
					i64 x = nv();
					bool dflt = rng.chance(1, 3);
					VF_LOG("resize %zu", n);
					bool r = dflt ? v.resize(n) : v.resize(n, T(x));
					VF_EQ(r, n <= N, "resize-result");
					m.resize(std::min(n, N), dflt ? val(T{}) : x);
					VF_COVER("resized");
					break;
				}
				case 3: {
					size_t n = rng.chance(1, 12) ? wild(rng, N) : rng.below(N + 3), old = m.size();
					VF_LOG("resize_for_overwrite %zu", n);
					VF_EQ(v.resize_for_overwrite(n), n <= N, "resize-result");
					n = std::min(n, N);
					VF_EQ(v.size(), n, "resize-size");
					m.resize(n);
					for (size_t i = old; i < n; i++) {
						m[i] = nv();
						v[i] = T(m[i]);
					}
					break;
				}
				case 4:
				case 6: {
					unsigned at = rng.below(m.size() + 3);
					if (rng.chance(1, 20))
						at = rng.chance(1, 2) ? (unsigned)-1 - rng.below(2) : wild(rng, N, 32);
					i64 x = nv();
					bool self = op == 6 && !m.empty();
					size_t from = self ? rng.below(m.size()) : 0;
					VF_LOG("insert at %u of %zu%s", at, m.size(), self ? " (own element)" : "");
					if (self) {
						x = m[from];
						v.insert(at, v[from]);
					} else
						v.insert(at, T(x));
					if (!full && at <= m.size())
						m.insert(m.begin() + at, x);
					else
						VF_COVER("insert_refused");
					break;
				}
				case 5: {
					unsigned at = rng.below(m.size() + 3);
					if (rng.chance(1, 20))
						at = rng.chance(1, 2) ? (unsigned)-1 - rng.below(2) : wild(rng, N, 32);
					VF_LOG("erase %u of %zu", at, m.size());
					v.erase(at);
					if (at < m.size())
						m.erase(m.begin() + at);
					else
						VF_COVER("erase_refused");
					break;
				}
				case 7: {
					size_t a = rng.below(m.size() + 1), b = a + rng.below(m.size() - a + 1);
					if (rng.chance(1, 6)) { // a range which is not inside the content, or ends before it starts
						a = rng.below(N + 1), b = rng.below(N + 1);
						VF_LOG("erase [%zu,%zu) of %zu", a, b, m.size());
						if (a >= b || b > m.size()) {
							v.erase(v.begin() + a, v.begin() + b);
							VF_COVER("range_erase_refused");
							break;
						}
					}
					VF_LOG("erase [%zu,%zu) of %zu", a, b, m.size());
					v.erase(v.begin() + a, v.begin() + b);
					m.erase(m.begin() + a, m.begin() + b);
					if (b > a)
						VF_COVER("range_erased");
					break;
				}
				case 8:
					if (rng.chance(1, 5) && rarely(rng)) {
						v.clear();
						m.clear();
					}
					break;
				case 9: {
					VF_LOG("push_back_for_overwrite");
					size_t i = v.push_back_for_overwrite();
					VF_EQ(i, full ? N : m.size(), "push-index");
					if (!full) {
						m.push_back(nv());
						v[i] = T(m.back());
					}
					break;
				}
				case 10: {
					VF_LOG("copy construct");
					FV c(v);
					compare<T, N>(c, m);
					c.push_back(T(3));
					c.erase(0u);
					break;
				}
				case 11:
					VF_LOG("assign to second");
					g2->obj = g->obj;
					m2 = m;
					break;
				case 12:
					std::swap(g, g2);
					std::swap(m, m2);
					break;
				case 13: // erase-unique idiom
				{
					VF_LOG("erase unique");
					auto &vv = v;
					vv.erase(std::unique(vv.begin(), vv.end()), vv.end());
					m.erase(std::unique(m.begin(), m.end()), m.end());
					break;
				}
				case 14:
					for (size_t i = 0; i < m.size(); i++) {
						m[i] = nv();
						v[i] = T(m[i]);
					}
					break;
			}
			compare<T, N>(g->obj, m);
			compare<T, N>(g2->obj, m2);
			VF_CHECK(g->intact() && g2->intact(), "storage-overrun", "memory around the vector changed");
		}
		nontrivial(h.add(N).add(sizeof(T)));
		if (want_sample())
			sample(fmt("capacity %zu, element size %zu, %u operations", N, sizeof(T), ops));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
// Capacities beyond one and two bytes, in bursts.
template<size_t N>
static void bursts(Rng &rng) {
	auto vp = std::make_unique<FixedVector<u32, N>>();
	auto &v = *vp;
	std::vector<u32> m;
	Hash h;
	h.add(N);
	VF_EQ(v.max_size(), N, "max_size");
	bool far = rng.chance(1, 2);
	auto spot = [&]() -> unsigned {
		if (m.size() > 65536 && rng.chance(1, 2))
			return 65536 + rng.below(m.size() - 65535);
		return m.size() < 300 || rng.chance(1, 2) ? rng.below(m.size() + 2) : 256 * rng.below(m.size() / 256) + rng.below(2);
	};
	for (unsigned r = 0, len = 4 + rng.below(8); r < len; r++) {
		unsigned op = rng.below(10);
		size_t k = rng.chance(1, 3) ? N - m.size() + rng.below(N / 4) : 1 + rng.below(N);
		if (N > 65536 && far && r < 4)
			op = (unsigned[]){4, 6, 8, 6}[r], k = N - rng.below(N - 65530);
		VF_LOG("burst %u of %zu, capacity %zu, holding %zu", op, k, N, m.size());
		h.add(op).add(k);
		switch (op) {
			case 0:
			case 1:
			case 2:
				while (k--) {
					u32 x = (u32)rng.next();
					bool fits = m.size() < N;
					if (op == 0) {
						size_t i = v.push_back_for_overwrite();
						VF_EQ(i, fits ? m.size() : N, "push-index");
						if (fits)
							v[i] = x;
					} else
						VF_EQ(v.push_back(x), fits, "push-result");
					if (fits)
						m.push_back(x);
					VF_EQ(v.size(), m.size(), "size");
					VF_EQ(v.available(), N - m.size(), "available");
					VF_EQ(v.back(), m.back(), "back");
				}
				if (N > 65536 && m.size() > 65536)
					VF_COVER("size_beyond_a_short");
				break;
			case 3:
				while (k-- && !m.empty()) {
					VF_EQ(v.pop_back(), m.back(), "popped");
					m.pop_back();
					VF_EQ(v.size(), m.size(), "size");
				}
				break;
			case 4:
			case 5: {
				u32 x = (u32)rng.next();
				k = rng.chance(1, 4) && !(far && r < 4) ? N + rng.below(3) : k;
				VF_EQ(v.resize(k, x), k <= N, "resize-result");
				m.resize(std::min(k, N), x);
				break;
			}
			case 6:
			case 7:
				for (unsigned j = 0; j < 4; j++) {
					u32 x = (u32)rng.next();
					unsigned at = spot();
					v.insert(at, x);
					if (at <= m.size() && m.size() < N)
						m.insert(m.begin() + at, x);
					VF_COVER("inserted_far");
				}
				break;
			case 8:
				for (unsigned j = 0; j < 4; j++) {
					unsigned at = spot();
					v.erase(at);
					if (at < m.size())
						m.erase(m.begin() + at);
				}
				break;
			default: {
				size_t a = rng.below(m.size() + 1), b = a + rng.below(m.size() - a + 1);
				v.erase(v.begin() + a, v.begin() + b);
				m.erase(m.begin() + a, m.begin() + b);
			}
		}
		VF_EQ(v.size(), m.size(), "size");
		VF_EQ(v.available(), N - m.size(), "available");
		auto s = std::as_const(v).span();
		VF_CHECK(s.size() == m.size() && std::equal(s.begin(), s.end(), m.begin()), "element", "%zu elements", m.size());
		VF_CHECK(std::equal(v.begin(), v.end(), m.begin(), m.end()), "iteration", "%zu elements", m.size());
	}
	nontrivial(h);
}
VF_SUITE(large, 400, 20000) {
	switch (rng.chance(1, 60) ? 3 : rng.below(3)) {
		case 0:
			return bursts<256>(rng);
		case 1:
			return bursts<300>(rng);
		case 2:
			return bursts<1000>(rng);
		default:
			return bursts<70000>(rng);
	}
}
template<typename T>
static void sizes(Rng &rng) {
	switch (rng.below(4)) {
		case 0:
			return history<T, 1>(rng);
		case 1:
			return history<T, 2>(rng);
		case 2:
			return history<T, 8>(rng);
		default:
			return history<T, 24>(rng);
	}
}
VF_SUITE(history, 10000, 500000) {
	switch (rng.below(3)) {
		case 0:
			return sizes<u8>(rng);
		case 1:
			return sizes<u64>(rng);
		default:
			return sizes<Live>(rng);
	}
}

// construction from values; every insert / erase position on every size
template<size_t N>
static void positions() {
	for (size_t n = 0; n <= N; n++)
		for (unsigned at = 0; at < N + 3; at++)
			for (size_t b = 0; b <= N; b++) {
				auto mk = [&](std::vector<i64> &m) {
					auto g = std::make_unique<Guarded<FixedVector<u64, N>>>();
					m.clear();
					for (size_t i = 0; i < n; i++) {
						g->obj.push_back(10 + i);
						m.push_back(10 + i);
					}
					return g;
				};
				std::vector<i64> m;
				auto a = mk(m);
				a->obj.insert(at, 99);
				if (n < N && at <= n)
					m.insert(m.begin() + at, 99);
				compare<u64, N>(a->obj, m);
				VF_CHECK(a->intact(), "storage-overrun", "insert");
				a = mk(m);
				a->obj.erase(at);
				if (at < n)
					m.erase(m.begin() + at);
				compare<u64, N>(a->obj, m);
				VF_CHECK(a->intact(), "storage-overrun", "erase");
				if (at <= N && b <= N) {
					a = mk(m);
					a->obj.erase(a->obj.begin() + at, a->obj.begin() + b);
					if (at < b && b <= n)
						m.erase(m.begin() + at, m.begin() + b);
					compare<u64, N>(a->obj, m);
					VF_CHECK(a->intact(), "storage-overrun", "erase of a range");
				}
				evaluated(3);
				nontrivial(Hash().add(N).add(n).add(at).add(b));
			}
}
VF_SUITE(enum_positions, 1, 1) {
	positions<1>();
	positions<2>();
	positions<3>();
	positions<7>();
	FixedVector<u64, 4> a(5ull, 6ull), b(1ull, 2ull, 3ull, 4ull);
	compare<u64, 4>(a, {5, 6});
	compare<u64, 4>(b, {1, 2, 3, 4});
}
