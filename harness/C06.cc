// C06: circular stack against a bounded LIFO model.
#include "vf.hh"
#include "util/circular_stack.hh"
using namespace vf;

static i64 val(int x) {
	return x;
}
static i64 val(const Live &l) {
	return l.get();
}
struct Big {
	i64 x = 0;
	char pad[40] = {};
	Big() = default;
	Big(i64 v)
		: x(v) {
	}
};
static i64 val(const Big &b) {
	return b.x;
}

template<typename T, int N>
static void run_on(Rng &rng, CircularStack<T, N> &s, std::vector<i64> m) {
	Hash h;
	auto look = [&] {
		VF_EQ(s.size(), m.size(), "size");
		VF_EQ(s.empty(), m.empty(), "empty");
		VF_EQ(s.max_size(), (size_t)N, "max_size");
		auto b = s.back();
		VF_EQ(b.has_value(), !m.empty(), "back");
		if (b)
			VF_EQ(val(*b), m.back(), "back");
	};
	look();
	i64 next = 1;
	unsigned w = 1 + rng.below(11);
	unsigned ops = run_length(rng, 4 + rng.below(100));
	for (unsigned k = 0; k < ops; k++) {
		unsigned op = rng.chance(w, 16) ? 0 : rng.pick({1u, 1u, 2u, 2u, 3u});
		h.add(op);
		if (op == 0) {
			VF_LOG("push %lld", (long long)next);
			s.push_back(T(next));
			m.push_back(next++);
			if (m.size() > (size_t)N) {
				m.erase(m.begin());
				VF_COVER("overwrote_bottom");
			}
		} else if (op == 1) {
			VF_LOG("pop");
			auto x = s.pop_back();
			VF_EQ(x.has_value(), !m.empty(), "pop-result");
			if (x) {
				VF_EQ(val(*x), m.back(), "popped");
				m.pop_back();
			} else
				VF_COVER("pop_empty");
		} else if (op == 2) {
			VF_LOG("pop_or_zero");
			T x = s.pop_back_or_zero();
			// zero and a default element need not be the same
			VF_CHECK(m.empty() ? val(x) == 0 || val(x) == val(T{}) : val(x) == m.back(), "popped-or-zero", "observed %lld of %zu", (long long)val(x), m.size());
			if (!m.empty())
				m.pop_back();
		} else if (rng.chance(1, 6) && rarely(rng)) {
			VF_LOG("clear");
			s.clear();
			m.clear();
			VF_COVER("cleared");
		}
		look();
	}
	while (!m.empty()) {
		auto x = s.pop_back();
		VF_CHECK(x.has_value(), "pop-result", "nothing while %zu held", m.size());
		VF_EQ(val(*x), m.back(), "popped");
		m.pop_back();
	}
	look();
	nontrivial(h.add(N).add(sizeof(T)));
	if (want_sample())
		sample(fmt("capacity %d, %u operations", N, ops));
}

template<typename T, int N>
static void one(Rng &rng) {
	i64 live0 = Live::live;
	{
		switch (rng.below(6)) {
			case 0:
				if constexpr (N >= 1) {
					CircularStack<T, N> s(T(11));
					VF_COVER("constructed_from_values");
					run_on<T, N>(rng, s, {11});
				}
				break;
			case 1:
				if constexpr (N >= 2) {
					CircularStack<T, N> s(T(11), T(12));
					run_on<T, N>(rng, s, {11, 12});
				}
				break;
			case 2:
				if constexpr (N >= 3) {
					CircularStack<T, N> s(T(11), T(12), T(13));
					run_on<T, N>(rng, s, {11, 12, 13});
				}
				break;
			case 3:
				if constexpr (N >= 5) {
					CircularStack<T, N> s(T(11), T(12), T(13), T(14), T(15));
					run_on<T, N>(rng, s, {11, 12, 13, 14, 15});
				}
				break;
			default: {
				auto s = std::make_unique<CircularStack<T, N>>();
				run_on<T, N>(rng, *s, {});
			}
		}
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
// Capacities beyond one and two bytes, in bursts.
template<int N>
static void bursts(Rng &rng) {
	auto st = std::make_unique<CircularStack<int, N>>();
	auto &s = *st;
	std::vector<int> ring(N, 0); // the newest n values end before top
	size_t n = 0, top = 0;
	Hash h;
	h.add(N);
	VF_EQ(s.max_size(), (size_t)N, "max_size");
	auto look = [&] {
		VF_EQ(s.size(), n, "size");
		VF_EQ(s.empty(), n == 0, "empty");
		auto b = s.back();
		VF_EQ(b.has_value(), n > 0, "back");
		VF_EQ(b.value_or(0), n ? ring[(top + N - 1) % N] : 0, "back");
	};
	look();
	bool script = rng.chance(1, 2);
	for (unsigned r = 0, len = 4 + rng.below(6); r < len; r++) {
		unsigned op = rng.below(8);
		size_t k = rng.chance(1, 3) ? N + rng.below(N / 4) : 1 + rng.below(N);
		if (N > 65536 && script) {
			// the oldest entry at a place beyond the first 65536, all the way up and down from there
			switch (r) {
				case 0:
					op = 0, k = N + 65530 + rng.below(N - 65530);
					break;
				case 1:
					op = 4, k = rng.chance(1, 2) ? 1 + rng.below(6000) : N;
					break;
				case 2:
					op = 1, k = rng.chance(1, 2) ? N - n : N - n + rng.below(10);
					break;
				case 3:
					op = 6, k = N + 2;
			}
		}
		VF_LOG("burst %u of %zu, capacity %d, holding %zu", op, k, N, n);
		h.add(op).add(k);
		if (op < 4) {
			while (k--) {
				int v = (int)rng.next();
				s.push_back(v);
				ring[top] = v;
				top = (top + 1) % N;
				n = std::min<size_t>(n + 1, N);
				look();
			}
			if (n == N)
				VF_COVER("large_stack_filled");
			if (N > 65536)
				VF_COVER("capacity_beyond_a_short");
		} else if (op < 7) {
			while (k--) {
				int want = n ? ring[(top + N - 1) % N] : 0;
				if (op == 6)
					VF_EQ(s.pop_back_or_zero(), want, "popped-or-zero");
				else {
					auto x = s.pop_back();
					VF_EQ(x.has_value(), n > 0, "pop-result");
					VF_EQ(x.value_or(0), want, "popped");
				}
				if (n)
					n--, top = (top + N - 1) % N;
				look();
			}
		} else {
			s.clear();
			n = 0;
			look();
		}
	}
	nontrivial(h);
}
VF_SUITE(large, 400, 20000) {
	switch (rng.chance(1, 50) ? 3 : rng.below(3)) {
		case 0:
			return bursts<130>(rng);
		case 1:
			return bursts<300>(rng);
		case 2:
			return bursts<1000>(rng);
		default:
			return bursts<70000>(rng);
	}
}
template<typename T>
static void sizes(Rng &rng) {
	switch (rng.below(7)) {
		case 0:
			return one<T, 1>(rng);
		case 1:
			return one<T, 2>(rng);
		case 2:
			return one<T, 3>(rng);
		case 3:
			return one<T, 4>(rng);
		case 4:
			return one<T, 5>(rng);
		case 5:
			return one<T, 6>(rng);
		default:
			return one<T, 33>(rng);
	}
}
VF_SUITE(history, 12000, 600000) {
	switch (rng.below(3)) {
		case 0:
			return sizes<int>(rng);
		case 1:
			return sizes<Big>(rng);
		default:
			return sizes<Live>(rng);
	}
}

// every push/pop history of length 14, capacities 1..5
template<int N>
static void every(u64 code) {
	CircularStack<int, N> s;
	int m[20], n = 0, next = 1;
	for (int i = 0; i < 14; i++, code >>= 1) {
		if (code & 1) {
			s.push_back(next);
			m[n++] = next++;
			if (n > N) {
				for (int j = 1; j < n; j++)
					m[j - 1] = m[j];
				n--;
			}
		} else {
			auto x = s.pop_back();
			VF_EQ(x.value_or(0), n ? m[n - 1] : 0, "popped");
			if (n)
				n--;
		}
		VF_EQ(s.size(), n, "size");
		VF_EQ(s.empty(), n == 0, "empty");
		VF_EQ(s.back().value_or(0), n ? m[n - 1] : 0, "back");
	}
}
VF_SUITE(enum_histories, 32, 32) {
	for (u64 c = idx; c < (1u << 14); c += 32) {
		every<1>(c);
		every<2>(c);
		every<3>(c);
		every<4>(c);
		every<5>(c);
		evaluated(5);
		nontrivial(Hash().add(c).add(77));
	}
}
