// C15: parsing arbitrary bytes.
#include "cbtree.hh"
#include "util/compact_binary_parser.hh"
using namespace cb;

struct Three {
	u8 x[3];
};

template<typename K, typename S>
static void explore(std::span<const u8> blob, const u8 *base, size_t total, unsigned level, u64 &lookups, u64 &found) {
	CompactBinaryParser<K, S> p(blob);
	for (unsigned k = 0; k < 12; k++) {
		auto ref = find<K, S>(blob, k);
		auto node = p.get_node(KeyOf<K>::make(k));
		lookups++;
		if (ref.match && ref.inside) {
			VF_CHECK(node.size() == ref.size && (node.empty() || node.data() == blob.data() + ref.off),
					 "node-extent",
					 "key %u: %zu bytes, declared %llu at %zu",
					 k,
					 node.size(),
					 (unsigned long long)ref.size,
					 ref.off);
			found++;
		} else {
			VF_CHECK(node.empty(), "out-of-bounds-field-reported", "key %u: node of %zu bytes in %zu", k, node.size(), blob.size());
			if (ref.match)
				VF_COVER("fields_larger_than_the_input");
		}
		if (!node.empty()) {
			VF_CHECK(node.data() >= base && node.data() + node.size() <= base + total && node.size() <= total,
					 "node-outside-input",
					 "%zu bytes",
					 node.size());
			volatile u8 sink = 0;
			for (auto b : node)
				sink = sink + b;
		}
		if (ref.match)
			VF_EQ((u64)p.get_size(KeyOf<K>::make(k)), (u64)(S)ref.size, "declared-size");
		else
			VF_EQ((u64)p.get_size(KeyOf<K>::make(k)), 0u, "size-of-absent-field");
		auto typed = [&](auto val) {
			using T = decltype(val);
			auto x = p.template get<T>(KeyOf<K>::make(k));
			bool want = ref.match && ref.inside && ref.size == sizeof(T);
			VF_CHECK(x.has_value() == want, "typed-presence", "key %u, %zu bytes: %d, expected %d", k, sizeof(T), x.has_value(), want);
			if (x)
				VF_CHECK(memcmp(&*x, blob.data() + ref.off, sizeof(T)) == 0, "typed-value", "key %u", k);
		};
		typed(u8{});
		typed(u16{});
		typed(Three{});
		typed(u32{});
		typed(u64{});
		if (!node.empty() && level < 6)
			explore<K, S>(node, base, total, level + 1, lookups, found);
	}
}

template<typename K, typename S>
static void one(Rng &rng) {
	Bytes b;
	unsigned how = rng.below(6);
	if (how == 0) {
		unsigned n = rng.below(rng.chance(1, 2) ? 12 : 60);
		for (unsigned i = 0; i < n; i++)
			b.push_back((u8)rng.next());
	} else if (how == 1) {
		unsigned n = rng.below(60);
		for (unsigned i = 0; i < n; i++)
			b.push_back(rng.pick({(u8)0, (u8)0xFF, (u8)1, (u8)5, (u8)'a', (u8)rng.next()}));
	} else {
		auto t = tree(rng, 3, 12);
		if (rng.chance(1, 200)) {
			widen(rng, t);
			VF_COVER("large_inputs");
		}
		b = encode<K, S>(t);
		if (how == 3 && !b.empty())
			b.resize(rng.below(b.size()));
		constexpr size_t H = KeyOf<K>::Size + sizeof(S);
		unsigned muts = how >= 4 ? 1 + rng.below(4) : 0;
		for (unsigned i = 0; i < muts && b.size() > H; i++) {
			if (rng.chance(1, 2)) {
				b[rng.below(b.size())] ^= 1u << rng.below(8);
				continue;
			}
			// overwrite the size field of the first field, or at a random place
			size_t at = rng.chance(1, 2) ? KeyOf<K>::Size : rng.below(b.size() - sizeof(S) + 1);
			S v;
			switch (rng.below(5)) {
				case 0:
					v = rng.anyint<S>();
					break;
				case 1:
					v = (S)(0 - (S)rng.below(40));
					break;
				case 2:
					v = (S)(b.size() - rng.below(2 * H));
					break;
				case 3:
					v = (S)((u64)0 - at - H + rng.below(12) - 4); // end wraps around
					break;
				default:
					v = std::numeric_limits<S>::max();
			}
			memcpy(&b[at], &v, sizeof v);
			VF_COVER("size_fields_overwritten");
		}
		if (rng.chance(1, 6))
			for (unsigned i = rng.below(9); i; i--)
				b.push_back((u8)rng.next());
		if (b.size() < 300 && rng.chance(1, 400)) {
			// a long input whose size looks like a short one, were it kept in 8 or 16 bits
			b.resize(wild(rng, b.size() + 20, 18), rng.pick({(u8)0, (u8)0xFF, (u8)rng.next()}));
			VF_COVER("padded_inputs");
		}
	}
	std::unique_ptr<u8[]> mem(new u8[b.size()]);
	std::copy(b.begin(), b.end(), mem.get());
	if (st().logging && b.size() < 2000) {
		std::string s;
		for (auto x : b)
			s += fmt("%02x", x);
		VF_LOG("key size %zu size field %zu: %s", KeyOf<K>::Size, sizeof(S), s.c_str());
	}
	u64 lookups = 0, found = 0;
	explore<K, S>(std::span<const u8>(mem.get(), b.size()), mem.get(), b.size(), 0, lookups, found);
	VF_COVERN("lookups", lookups);
	VF_COVERN("fields_found", found);
	Hash h;
	for (auto x : b)
		h.add(x);
	if (found)
		nontrivial(h.add(KeyOf<K>::Size).add(sizeof(S)));
	if (want_sample() && found)
		sample(fmt("%zu bytes (kind %u): %llu lookups, %llu found", b.size(), how, (unsigned long long)lookups, (unsigned long long)found));
}
VF_SUITE(hostile, 60000, 3000000) {
	switch (rng.below(10)) {
		case 0:
			return one<u16, u16>(rng);
		case 1:
			return one<u8, u8>(rng);
		case 2:
			return one<u8, int8_t>(rng);
		case 3:
			return one<u16, int16_t>(rng);
		case 4:
			return one<u32, u32>(rng);
		case 5:
			return one<u8, int32_t>(rng);
		case 6:
			return one<u16, u64>(rng);
		case 7:
			return one<u16, i64>(rng);
		case 8:
			return one<char[4], u8>(rng);
		default:
			return one<char[3], u64>(rng);
	}
}
