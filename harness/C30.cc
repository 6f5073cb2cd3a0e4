// C30: greedy partitions against a reference distribution.
#include <algorithm>
#include <array>
#include <functional>
#include <ranges>
#include "vf.hh"
#include "util/partition.hh"
using namespace vf;

template<unsigned P, unsigned M, typename T>
static void part(Rng &rng) {
	auto own = std::make_unique<Guarded<std::optional<Partition<P, M, T>>>>();
	auto &g = *own;
	Hash h;
	h.add(P).add(M).add(sizeof(T)).add(std::is_floating_point_v<T>);
	bool first = true;
	for (unsigned round = 0, rounds = 1 + rng.below(4); round < rounds; round++) {
		unsigned n = rng.chance(1, 5) ? M : rng.below(M + 1);
		std::vector<T> v(n);
		unsigned style = rng.below(5);
		T same = (T)rng.below(50);
		for (auto &x : v) {
			switch (style) {
				case 0:
					x = same;
					break;
				case 1:
					x = (T)rng.below(4);
					break;
				case 2:
					x = (T)(1u << rng.below(12));
					break;
				default:
					x = (T)rng.below(100000);
			}
			if (std::is_signed_v<T> && style == 4 && rng.chance(1, 4))
				x = -x;
		}
		if (style == 3)
			std::ranges::sort(v);
		v.shrink_to_fit();
		std::vector<T> init;
		bool ctor = first && rng.chance(1, 2);
		if (!ctor && rng.chance(1, 2)) {
			init.resize(1 + rng.below(P));
			for (auto &x : init)
				x = (T)rng.below(rng.chance(1, 2) ? 10 : 200000);
			init.shrink_to_fit();
		}
		auto before = v;
		if (ctor)
			g.obj.emplace(std::span<T>(v));
		else {
			if (first)
				g.obj.emplace();
			if (init.empty() && rng.chance(1, 2))
				g.obj->calc_partitions(std::span<T>(v));
			else
				g.obj->calc_partitions(std::span<T>(v), std::span<const T>(init));
		}
		if (!first)
			VF_COVER("recalculated");
		first = false;
		auto &p = *g.obj;
		VF_CHECK(v == before, "changes-its-input", "%s", "");
		VF_LOG("%u elements into %u parts, %zu initial sums", n, P, init.size());
		// every index in exactly one part
		std::vector<int> owner(n, -1);
		size_t total = 0;
		for (unsigned k = 0; k < P; k++) {
			VF_CHECK(p.parts[k].size() <= M, "part-too-large", "%u", k);
			for (unsigned i : p.parts[k]) {
				VF_CHECK(i < n, "index-not-an-element", "%u of %u", i, n);
				VF_CHECK(owner[i] == -1, "element-in-two-places", "element %u in part %d and %u", i, owner[i], k);
				owner[i] = k;
				total++;
			}
		}
		VF_EQ(total, (size_t)n, "elements-lost");
		// largest first into the part with the smallest sum: the resulting sums do not depend on how ties are broken
		auto sorted = v;
		std::ranges::sort(sorted, std::greater{});
		std::array<T, P> sums{};
		for (size_t i = 0; i < init.size(); i++)
			sums[i] = init[i];
		for (T x : sorted)
			*std::ranges::min_element(sums) += x;
		std::array<T, P> got{};
		for (size_t i = 0; i < init.size(); i++)
			got[i] = init[i];
		T largest = sorted.empty() ? T{} : sorted[0];
		for (unsigned k = 0; k < P; k++) {
			T prev = std::numeric_limits<T>::max();
			for (unsigned i : p.parts[k]) {
				got[k] += v[i];
				VF_CHECK(v[i] <= prev, "not-largest-first", "part %u element %u", k, i);
				prev = v[i];
			}
		}
		(void)largest;
		auto a = sums, b = got;
		std::ranges::sort(a);
		std::ranges::sort(b);
		VF_CHECK(a == b, "not-balanced-as-documented", "largest sum %.12g, the rule gives %.12g; smallest %.12g, %.12g", (double)b[P - 1], (double)a[P - 1], (double)b[0], (double)a[0]);
		if (n == M)
			VF_COVER("full_capacity");
		if (!n)
			VF_COVER("no_elements");
		if (!init.empty())
			VF_COVER("with_initial_sums");
		if (n && n < P)
			VF_COVER("fewer_elements_than_parts");
		if (n > P)
			VF_COVER("partitions_balanced");
		for (auto x : v)
			h.addf((double)x);
		if (want_sample())
			sample(fmt("%u elements into %u parts", n, P));
	}
	VF_CHECK(g.intact(), "writes-outside", "%s", "Partition");
	nontrivial(h);
}
VF_SUITE(partitions, 60000, 4000000) {
	if (rng.chance(1, 3000)) {
		VF_COVER("capacity_beyond_a_short");
		return part<3, 66000, u64>(rng);
	}
	if (rng.chance(1, 300)) {
		VF_COVER("capacity_beyond_a_byte");
		return rng.chance(1, 2) ? part<2, 300, unsigned>(rng) : part<300, 700, u64>(rng);
	}
	switch (rng.below(8)) {
		case 0:
			return part<2, 8, unsigned>(rng);
		case 1:
			return part<1, 5, unsigned>(rng);
		case 2:
			return part<4, 32, unsigned>(rng);
		case 3:
			return part<3, 16, float>(rng);
		case 4:
			return part<7, 3, unsigned>(rng);
		case 5:
			return part<2, 64, int>(rng);
		case 6:
			return part<5, 100, u64>(rng);
		default:
			return part<3, 20, double>(rng);
	}
}

// every value list of length <= 5 over {0..4}, two and three parts
VF_SUITE(enum_small, 3906, 3906) {
	unsigned n = 0, c = idx, block = 1;
	while (c >= block) {
		c -= block;
		block *= 5;
		n++;
	}
	std::vector<unsigned> v(n);
	for (auto &x : v) {
		x = c % 5;
		c /= 5;
	}
	auto run = [&]<unsigned P>() {
		Partition<P, 5> p{std::span<unsigned>(v)};
		std::vector<int> seen(n);
		std::array<unsigned, P> got{}, sums{};
		for (unsigned k = 0; k < P; k++)
			for (unsigned i : p.parts[k]) {
				VF_CHECK(i < n && seen[i]++ == 0, "element-in-two-places", "%u", i);
				got[k] += v[i];
			}
		for (int s : seen)
			VF_CHECK(s == 1, "elements-lost", "%s", "");
		auto sorted = v;
		std::ranges::sort(sorted, std::greater{});
		for (auto x : sorted)
			*std::ranges::min_element(sums) += x;
		std::ranges::sort(got);
		std::ranges::sort(sums);
		VF_CHECK(got == sums, "not-balanced-as-documented", "%s", "");
	};
	run.operator()<2>();
	run.operator()<3>();
	nontrivial(idx);
}
