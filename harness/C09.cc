// C09: SeqMap (replace-oldest map) against an age-ordered association.
#include "vf.hh"
#include "util/seq_map.hh"
#include "util/static_string.hh"
#include <deque>
using namespace vf;

template<typename K>
static K key(unsigned i) {
	if constexpr (std::is_integral_v<K>)
		return (K)i; // 0 is the default key
	else
		return K{i ? (std::string("k") + char('a' + i)).c_str() : ""};
}
static i64 vv(const Live &l) {
	return l.get();
}
static i64 vv(i64 x) {
	return x;
}

template<typename K, typename V, size_t N>
static void history(Rng &rng) {
	i64 live0 = Live::live;
	{
		using Map = SeqMap<K, V, N>;
		auto map = std::make_unique<Guarded<Map>>();
		Map &x = map->obj;
		std::vector<std::pair<unsigned, i64>> m; // oldest first
		bool evicted = false;
		i64 next = 1;
		Hash h;
		unsigned universe = 1 + rng.below(2 * N + 3);
		auto at = [&](unsigned k) { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); };
		unsigned ops = N > 100 ? 20 : run_length(rng, 5 + rng.below(80), 90000);
		unsigned rmw = rng.below(4);
		if (N > 100) {
			universe = N + 50;
			for (unsigned i = 0, n = rng.chance(1, 2) ? N - rng.below(4) : rng.below(N); i < n; i++) {
				VF_EQ(x.insert(key<K>(i), V(next)), true, "insert-result");
				m.push_back({i, next++});
			}
			for (unsigned i = 0, n = m.size() == N ? rng.below(N + 60) : 0; i < n; i++) { // several rounds of replacement
				x.overwrite(key<K>(100000 + i % 7 + i), V(next));
				m.erase(m.begin());
				m.push_back({100000 + i % 7 + i, next++});
				evicted = true;
			}
		}
		for (unsigned n = 0; n < ops; n++) {
			unsigned op = rng.below(9);
			if (op < 2 && rmw == 0)
				op = 4;
			unsigned k = rng.below(universe);
			h.add(op).add(k);
			auto it = at(k);
			switch (op) {
				case 0:
				case 1: {
					VF_LOG("remove %u", k);
					VF_EQ(x.remove(key<K>(k)), it != m.end(), "remove-result");
					if (it != m.end()) {
						m.erase(it);
						VF_COVER("removed");
						if (evicted)
							VF_COVER("removed_after_eviction");
					} else
						VF_COVER("remove_absent");
					break;
				}
				case 2: {
					if (it != m.end())
						break; // insert() is for new keys
					i64 v = next++;
					VF_LOG("insert %u", k);
					bool ok;
					if (!m.empty() && rng.chance(1, 4)) { // a value of the map itself
						auto &src = m[rng.below(m.size())];
						v = src.second;
						ok = x.insert(key<K>(k), *x.get(key<K>(src.first)));
					} else
						ok = x.insert(key<K>(k), V(v));
					VF_EQ(ok, m.size() < N, "insert-result");
					if (ok)
						m.push_back({k, v});
					else
						VF_COVER("insert_refused_full");
					break;
				}
				case 3:
					if (rng.chance(1, 4)) {
						VF_LOG("remove_last");
						if (evicted && !m.empty())
							VF_COVER("newest_removed_after_eviction");
						x.remove_last();
						if (!m.empty())
							m.pop_back();
					}
					break;
				default: {
					i64 v = next++;
					VF_LOG("overwrite %u = %lld", k, (long long)v);
					V *p;
					if (auto src = at(rng.below(universe)); src != m.end() && rng.chance(1, 4)) { // a value of the map itself
						v = src->second;
						p = x.overwrite(key<K>(k), *x.get(key<K>(src->first)));
						VF_COVER("own_value_stored_again");
					} else
						p = x.overwrite(key<K>(k), V(v));
					VF_CHECK(p != nullptr, "overwrite-result", "null");
					VF_EQ(vv(*p), v, "overwrite-result");
					if (it != m.end())
						it->second = v;
					else {
						if (m.size() == N) {
							m.erase(m.begin());
							evicted = true;
							VF_COVER("evicted_oldest");
						}
						m.push_back({k, v});
					}
					VF_CHECK(x.get(key<K>(k)) == p, "overwrite-result", "get() finds another slot");
					break;
				}
			}
			VF_EQ(x.size(), m.size(), "size");
			for (unsigned j = 0; j < universe + 1; j++) {
				auto q = at(j);
				V *p = x.get(key<K>(j));
				VF_CHECK((p != nullptr) == (q != m.end()), "presence", "key %u present %d, model %d", j, p != nullptr, q != m.end());
				VF_EQ(x.key_exists(key<K>(j)), q != m.end(), "key_exists");
				if (p)
					VF_EQ(vv(*p), q->second, "value");
			}
			VF_CHECK(map->intact(), "storage-overrun", "memory around the map changed");
		}
		nontrivial(h.add(N).add(universe).add(sizeof(K)));
		if (want_sample())
			sample(fmt("capacity %zu, %u keys, %u operations", N, universe, ops));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
template<typename K, typename V>
static void sizes(Rng &rng) {
	if constexpr (std::is_same_v<K, i64>)
		if (rng.chance(1, 100)) {
			VF_COVER("capacity_beyond_a_byte");
			return history<K, V, 300>(rng);
		}
	switch (rng.below(4)) {
		case 0:
			return history<K, V, 1>(rng);
		case 1:
			return history<K, V, 2>(rng);
		case 2:
			return history<K, V, 4>(rng);
		default:
			return history<K, V, 9>(rng);
	}
}
VF_SUITE(history, 8000, 500000) {
	switch (rng.below(4)) {
		case 0:
			return sizes<i64, i64>(rng);
		case 1:
			return sizes<u8, Live>(rng);
		case 2:
			return sizes<StaticString<7>, i64>(rng);
		default:
			return sizes<StaticString<15>, Live>(rng);
	}
}

// A map with more entries than 16 bits count
VF_SUITE(large, 24, 400) {
	constexpr size_t N = 66000;
	auto x = std::make_unique<SeqMap<i64, i64, N>>();
	std::deque<std::pair<i64, i64>> m; // oldest first
	i64 next = 1;
	size_t fill = rng.chance(1, 2) ? N : N - rng.below(600);
	for (size_t i = 0; i < fill; i++) {
		VF_EQ(x->insert(7 * next, next), true, "insert-result");
		m.push_back({7 * next, next});
		next++;
	}
	auto look = [&](i64 k) {
		auto it = std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; });
		auto *p = x->get(k);
		VF_CHECK((p != nullptr) == (it != m.end()), "presence", "key %lld present %d", (long long)k, p != nullptr);
		VF_EQ(x->key_exists(k), it != m.end(), "key_exists");
		if (p)
			VF_EQ(*p, it->second, "value");
	};
	Hash h;
	for (unsigned n = 0; n < 40; n++) {
		unsigned op = rng.below(8);
		size_t at = rng.chance(1, 2) ? m.size() - 1 - rng.below(std::min<size_t>(m.size(), 700)) : rng.below(m.size());
		i64 k = m[at].first;
		h.add(op).add(at);
		if (op < 3)
			for (unsigned i = 0, r = 1 + rng.below(40); i < r; i++, next++) {
				auto *p = x->overwrite(7 * next, next);
				VF_CHECK(p && *p == next, "overwrite-result", "%lld", (long long)next);
				if (m.size() == N) {
					m.pop_front();
					VF_COVER("evicted_among_many");
				}
				m.push_back({7 * next, next});
			}
		else if (op == 3) {
			auto *p = x->overwrite(k, -next);
			VF_CHECK(p && *p == -next, "overwrite-result", "%lld", (long long)k);
			m[at].second = -next++;
		} else if (op == 4) {
			VF_EQ(x->remove(k), true, "remove-result");
			m.erase(m.begin() + at);
		} else if (op == 5) {
			x->remove_last();
			m.pop_back();
		} else if (op == 6) {
			bool ok = x->insert(7 * next, next);
			VF_EQ(ok, m.size() < N, "insert-result");
			if (ok)
				m.push_back({7 * next, next});
			next++;
		}
		VF_EQ(x->size(), m.size(), "size");
		look(k);
		look(m.front().first);
		look(m.back().first);
		look(m[m.size() * rng.below(100) / 100].first);
		look(7 * (i64)(1 + rng.below(next + 3)));
	}
	nontrivial(h);
}
