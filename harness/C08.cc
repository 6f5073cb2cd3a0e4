// C08: SequentialMap against an ordered association.
#include "vf.hh"
#include "util/sequential_map.hh"
#include "util/static_string.hh"
using namespace vf;

template<typename K>
static K key(unsigned i) {
	if constexpr (std::is_integral_v<K>)
		return (K)i;
	else
		return K{i ? (i % 2 ? std::string("key") + char('a' + i) : std::string("k") + char('a' + i)).c_str() : ""};
}
template<typename V>
static V mkval(i64 x) {
	return V(x);
}
static i64 vv(const Live &l) {
	return l.get();
}
static i64 vv(i64 x) {
	return x;
}

template<typename K, typename V, size_t N>
static void history(Rng &rng) {
	using Map = SequentialMap<K, V, N>;
	static const Map warm{}; // an absent-key default value may be created once and kept
	(void)warm[key<K>(0)];
	i64 live0 = Live::live;
	{
		auto map = std::make_unique<Guarded<Map>>();
		std::vector<std::pair<unsigned, i64>> m;
		i64 next = 1;
		Hash h;
		unsigned universe = 1 + rng.below(2 * N + 2);
		auto at = [&](unsigned k) { return std::find_if(m.begin(), m.end(), [&](auto &p) { return p.first == k; }); };
		auto verify = [&] {
			auto &x = map->obj;
			const auto &cx = map->obj;
			VF_EQ(cx.size(), m.size(), "size");
			VF_EQ(cx.empty(), m.empty(), "empty");
			VF_EQ(cx.is_full(), m.size() == N, "is_full");
			VF_EQ(cx.max_size(), N, "max_size");
			VF_EQ(cx.end() - cx.begin(), (ptrdiff_t)m.size(), "iteration");
			size_t i = 0;
			for (auto &p : cx) {
				VF_CHECK(p.first == key<K>(m[i].first), "iteration-key", "entry %zu", i);
				VF_EQ(vv(p.second), m[i].second, "iteration-value");
				i++;
			}
			i = 0;
			for (auto &p : x)
				VF_CHECK(p.first == key<K>(m[i++].first), "iteration-key", "entry");
			for (unsigned k = 0; k < universe; k++) {
				auto it = at(k);
				bool in = it != m.end();
				VF_EQ(cx.contains(key<K>(k)), in, "contains");
				auto f = x.find(key<K>(k));
				auto cf = cx.find(key<K>(k));
				VF_EQ(f == x.end(), !in, "find");
				VF_EQ(cf == cx.end(), !in, "find");
				if (in) {
					VF_EQ(vv(f->second), it->second, "found-value");
					VF_EQ(vv(cf->second), it->second, "found-value");
					VF_EQ(vv(cx[key<K>(k)]), it->second, "const-index");
				} else {
					const V &def = cx[key<K>(k)];
					VF_EQ(vv(def), vv(V{}), "const-index-absent");
					VF_COVER("absent_key_read");
				}
			}
		};
		unsigned ops = N > 100 ? 20 : run_length(rng, 5 + rng.below(60), 90000);
		if (N > 100) {
			universe = N + 50;
			for (unsigned i = 0, n = rng.chance(1, 2) ? N - rng.below(4) : rng.below(N); i < n; i++) {
				map->obj[key<K>(i)] = mkval<V>(next);
				m.push_back({i, next++});
			}
			verify();
		}
		for (unsigned n = 0; n < ops; n++) {
			unsigned op = rng.below(10);
			unsigned k = rng.below(universe);
			h.add(op).add(k);
			auto &x = map->obj;
			auto it = at(k);
			switch (op) {
				case 0:
				case 1:
				case 2: {
					i64 v = next++;
					VF_LOG("[%u] = %lld", k, (long long)v);
					V &ref = it != m.end() && rng.chance(1, 4) ? x[x.begin()[it - m.begin()].first] : x[key<K>(k)];
					ref = mkval<V>(v);
					if (it != m.end())
						it->second = v;
					else if (m.size() < N)
						m.push_back({k, v});
					else {
						m.back() = {k, v}; // documented: replaces the last entry
						VF_COVER("index_overflow_replaced_last");
					}
					break;
				}
				case 3:
				case 4:
				case 5: {
					i64 v = next++;
					if (it != m.end() && rng.chance(1, 4)) { // an entry of the map itself
						VF_LOG("insert the entry %u of the map itself", k);
						auto [own, inserted] = x.insert(x.begin()[it - m.begin()]);
						VF_EQ(inserted, false, "insert-result");
						VF_EQ(own - x.begin(), it - m.begin(), "insert-position");
						break;
					}
					VF_LOG("insert %u = %lld", k, (long long)v);
					auto [pos, ok] = x.insert(typename Map::PairT{key<K>(k), mkval<V>(v)});
					bool fits = m.size() < N;
					VF_EQ(ok, it == m.end() && fits, "insert-result");
					if (it != m.end()) {
						VF_EQ(pos - x.begin(), it - m.begin(), "insert-position");
						VF_COVER("insert_present");
					} else if (fits) {
						VF_EQ(pos - x.begin(), (ptrdiff_t)m.size(), "insert-position");
						VF_CHECK(pos->first == key<K>(k), "insert-position", "key");
						m.push_back({k, v});
					} else {
						VF_CHECK(pos == x.end(), "insert-position", "refused insert must return end()");
						VF_COVER("insert_refused_full");
					}
					break;
				}
				case 6:
				case 7: {
					if (it != m.end() && rng.chance(1, 3)) { // by the key in the map itself
						VF_LOG("erase %u by its own key", k);
						VF_EQ(x.erase(x.begin()[it - m.begin()].first), 1u, "erase-result");
						VF_COVER("erased_by_its_own_key");
					} else {
						VF_LOG("erase %u", k);
						VF_EQ(x.erase(key<K>(k)), it != m.end(), "erase-result");
					}
					if (it != m.end()) {
						m.erase(it);
						VF_COVER("erased");
					}
					break;
				}
				case 8:
					if (rng.chance(1, 6) && rarely(rng)) {
						VF_LOG("clear");
						x.clear();
						m.clear();
					}
					break;
				case 9: {
					VF_LOG("modify through find %u", k);
					auto f = x.find(key<K>(k));
					if (f != x.end()) {
						f->second = mkval<V>(next);
						VF_CHECK(it != m.end(), "find", "found absent key");
						it->second = next++;
					}
					break;
				}
			}
			verify();
			VF_CHECK(map->intact(), "storage-overrun", "memory around the map changed");
		}
		nontrivial(h.add(N).add(universe).add(sizeof(K)));
		if (want_sample())
			sample(fmt("capacity %zu, %u keys, %u operations", N, universe, ops));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
template<typename K, typename V>
static void sizes(Rng &rng) {
	if constexpr (std::is_same_v<K, i64>)
		if (rng.chance(1, 100)) {
			VF_COVER("capacity_beyond_a_byte");
			return history<K, V, 300>(rng);
		}
	switch (rng.below(4)) {
		case 0:
			return history<K, V, 1>(rng);
		case 1:
			return history<K, V, 2>(rng);
		case 2:
			return history<K, V, 4>(rng);
		default:
			return history<K, V, 9>(rng);
	}
}
VF_SUITE(history, 6000, 400000) {
	switch (rng.below(4)) {
		case 0:
			return sizes<i64, i64>(rng);
		case 1:
			return sizes<i64, Live>(rng);
		case 2:
			return sizes<StaticString<7>, i64>(rng);
		default:
			return sizes<StaticString<15>, Live>(rng);
	}
}
