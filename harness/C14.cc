// C14: writer / serializer / parser round trip, and prefix-exact overflow.
#include "cbtree.hh"
#include "util/compact_binary_parser.hh"
#include "util/compact_binary_serializer.hh"
#include "util/compact_binary_writer.hh"
using namespace cb;

enum class K16 : u16 {};

template<typename K, typename W>
static void write_value(W &w, const Node &n) {
	auto key = KeyOf<K>::make(n.key);
	switch (n.kind) {
		case 0:
			return w.field(key, (u8)n.num);
		case 1:
			return w.field(key, (u16)n.num);
		case 2:
			return w.field(key, (u32)n.num);
		case 3:
			return w.field(key, n.num);
		case 4:
			return w.field(key, dbl(n.num));
		case 5: {
			std::unique_ptr<u8[]> p(new u8[n.raw.size()]);
			std::copy(n.raw.begin(), n.raw.end(), p.get());
			return w.raw(key, std::span<const u8>(p.get(), n.raw.size()));
		}
		case 7:
			return w.field(key, packed(n.num));
	}
}
template<typename K, typename W>
static void by_writer(W &w, const std::vector<Node> &t) {
	for (auto &n : t) {
		if (n.kind == 6) {
			w.begin_object(KeyOf<K>::make(n.key));
			by_writer<K>(w, n.sub);
			w.end_object();
		} else
			write_value<K>(w, n);
	}
}
template<typename K, typename S>
static void by_serializer(S &s, const std::vector<Node> &t) {
	for (auto &n : t) {
		if (n.kind == 6)
			s.object(KeyOf<K>::make(n.key), [&n](auto &sub) { by_serializer<K>(sub, n.sub); });
		else
			write_value<K>(s, n);
	}
}

template<typename K, typename S>
static void read_back(std::span<const u8> blob, const std::vector<Node> &t) {
	using P = CompactBinaryParser<K, S>;
	P p(blob);
	std::vector<Bytes> seen;
	for (size_t i = 0; i < t.size(); i++) {
		auto &n = t[i];
		if (std::find(seen.begin(), seen.end(), key_bytes<K>(n.key)) != seen.end())
			continue; // the first field of a name is the one that is found
		seen.push_back(key_bytes<K>(n.key));
		auto key = KeyOf<K>::make(n.key);
		Bytes v = n.kind == 6 ? encode<K, S>(n.sub) : value_bytes(n);
		auto node = p.get_node(key);
		VF_CHECK(node.size() == v.size() && std::equal(v.begin(), v.end(), node.begin()),
				 "round-trip-value",
				 "field %zu (key %u kind %d): %zu bytes, written %zu",
				 i,
				 n.key,
				 n.kind,
				 node.size(),
				 v.size());
		if (!v.empty())
			VF_EQ(p.get_size(key), v.size(), "round-trip-size");
		auto is = [&](auto val) {
			auto x = p.template get<decltype(val)>(key);
			VF_CHECK(x.has_value() && *x == val, "round-trip-typed-value", "key %u kind %d", n.key, n.kind);
			VF_COVER("typed_values_read_back");
		};
		switch (n.kind) {
			case 0:
				is((u8)n.num);
				break;
			case 1:
				is((u16)n.num);
				break;
			case 2:
				is((u32)n.num);
				VF_CHECK(!p.template get<u16>(key) && !p.template get<u64>(key), "wrong-size-type-read", "key %u", n.key);
				break;
			case 3:
				is(n.num);
				VF_CHECK(!p.template get<u32>(key), "wrong-size-type-read", "key %u", n.key);
				break;
			case 4:
				is(dbl(n.num));
				break;
			case 7:
				is(packed(n.num));
				break;
			case 6:
				read_back<K, S>(node, n.sub);
				break;
		}
	}
	for (unsigned k = 0; k < 12; k++) {
		bool present = false;
		for (auto &n : t)
			present |= key_bytes<K>(n.key) == key_bytes<K>(k);
		if (!present) {
			VF_CHECK(p.get_node(KeyOf<K>::make(k)).empty(), "absent-field-found", "key %u", k);
			VF_CHECK(!p.template get<u8>(KeyOf<K>::make(k)), "absent-field-found", "key %u", k);
		}
	}
}

template<typename K, typename S, unsigned MaxDepth>
static void one(Rng &rng) {
	unsigned keys = 12;
	auto t = tree(rng, rng.below(MaxDepth + 1), keys);
	if (rng.chance(1, 8))
		widen(rng, t);
	if (largest<K, S>(t) > (u64)std::numeric_limits<S>::max() || depth(t) > MaxDepth) {
		VF_COVER("tree_too_big_for_size_type");
		return;
	}
	Bytes ref = encode<K, S>(t);
	size_t len = ref.size();
	VF_LOG("tree with %zu top fields, %zu bytes", t.size(), len);
	auto check_into = [&](size_t room) {
		// exact-size heap output
		std::unique_ptr<u8[]> a(new u8[room]), b(new u8[room]);
		memset(a.get(), 0xEE, room);
		memset(b.get(), 0xEE, room);
		CompactBinaryWriter<K, S, MaxDepth> w(std::span<u8>(a.get(), room));
		by_writer<K>(w, t);
		VF_CHECK(w.size() == len, "writer-size", "size() %zu, encoding has %zu bytes (room %zu)", w.size(), len, room);
		w.end_object(); // nothing open
		VF_EQ(w.size(), len, "unbalanced-end");
		size_t n = CompactBinarySerializer<K, S>::serialize(std::span<u8>(b.get(), room), [&](auto &s) { by_serializer<K>(s, t); });
		VF_CHECK(n == len, "serializer-size", "returned %zu, encoding has %zu bytes (room %zu)", n, len, room);
		size_t m = std::min(room, len);
		VF_CHECK(std::equal(ref.begin(), ref.begin() + m, a.get()), "writer-bytes", "room %zu of %zu", room, len);
		VF_CHECK(std::equal(ref.begin(), ref.begin() + m, b.get()), "serializer-bytes", "room %zu of %zu", room, len);
		for (size_t i = m; i < room; i++)
			VF_CHECK(a[i] == 0xEE && b[i] == 0xEE, "byte-after-message-written", "offset %zu", i);
		if (room < len)
			VF_COVER("overflows");
		if (room == len) {
			read_back<K, S>(std::span<const u8>(a.get(), room), t);
			VF_COVER("round_trips");
		}
	};
	check_into(len);
	check_into(len + 1 + rng.below(9));
	if (len < 80 && rng.chance(1, 4))
		for (size_t r = 0; r < len; r++)
			check_into(r);
	else
		for (int i = 0; i < 4 && len; i++)
			check_into(rng.below(len));
	VF_EQ((CompactBinarySerializer<K, S>::measure([&](auto &s) { by_serializer<K>(s, t); })), len, "measured-size");
	Bytes streamed;
	auto sink = [&](std::span<const u8> c) { streamed.insert(streamed.end(), c.begin(), c.end()); };
	size_t sn = CompactBinarySerializer<K, S>::stream([&](auto &s) { by_serializer<K>(s, t); }, sink);
	VF_EQ(sn, len, "streamed-size");
	VF_CHECK(streamed == ref, "streamed-bytes", "%zu bytes", streamed.size());
	if (depth(t) == MaxDepth)
		VF_COVER("trees_of_maximum_depth");
	Hash h;
	for (auto x : ref)
		h.add(x);
	if (!t.empty())
		nontrivial(h);
	if (want_sample() && len > 20)
		sample(fmt("key size %zu, size field %zu bytes: tree of depth %u, %zu bytes", KeyOf<K>::Size, sizeof(S), depth(t), len));
}
// Deeper than the writer keeps track of: the objects it does keep track of, and everything around, stay right.
template<typename K, typename S, unsigned MaxDepth>
static Bytes encode_cut(const std::vector<Node> &ns, unsigned level) {
	Bytes o;
	for (auto &n : ns) {
		Bytes v = n.kind == 6 ? encode_cut<K, S, MaxDepth>(n.sub, level + 1) : value_bytes(n);
		KeyOf<K>::encode(o, n.key);
		u64 sz = n.kind == 6 && level >= MaxDepth ? 0 : v.size();
		for (size_t i = 0; i < sizeof(S); i++)
			o.push_back((u8)(sz >> (8 * i)));
		o.insert(o.end(), v.begin(), v.end());
	}
	return o;
}
template<typename K, typename S, unsigned MaxDepth>
static void deeper(Rng &rng) {
	auto t = tree(rng, 1, 12);
	for (unsigned k = rng.below(MaxDepth + 4); k; k--) {
		Node n;
		n.key = rng.below(12);
		n.kind = 6;
		n.sub = std::move(t);
		t = tree(rng, 1, 12);
		t.insert(t.begin() + rng.below(t.size() + 1), std::move(n));
	}
	if (largest<K, S>(t) > (u64)std::numeric_limits<S>::max())
		return;
	Bytes ref = encode_cut<K, S, MaxDepth>(t, 0);
	size_t room = rng.chance(2, 3) ? ref.size() : rng.below(ref.size() + 9);
	std::unique_ptr<u8[]> a(new u8[room]);
	memset(a.get(), 0xEE, room);
	Guarded<CompactBinaryWriter<K, S, MaxDepth>> g(std::span<u8>(a.get(), room));
	by_writer<K>(g.obj, t);
	VF_CHECK(g.obj.size() == ref.size(), "writer-size", "size() %zu, %zu bytes written (depth %u of %u)", g.obj.size(), ref.size(), depth(t), MaxDepth);
	size_t m = std::min(room, ref.size());
	for (size_t i = 0; i < room; i++)
		VF_CHECK(a[i] == (i < m ? ref[i] : 0xEE), "writer-bytes-too-deep", "byte %zu of %zu is %02x (depth %u of %u)", i, m, a[i], depth(t), MaxDepth);
	VF_CHECK(g.intact(), "writer-state-overrun", "memory around the writer changed at depth %u of %u", depth(t), MaxDepth);
	if (depth(t) > MaxDepth)
		VF_COVER("deeper_than_tracked");
	Hash h;
	for (auto x : ref)
		h.add(x);
	nontrivial(h.add(MaxDepth).add(room));
}
VF_SUITE(too_deep, 8000, 200000) {
	switch (rng.below(4)) {
		case 0:
			return deeper<u16, u16, 1>(rng);
		case 1:
			return deeper<u8, u16, 2>(rng);
		case 2:
			return deeper<u32, u32, 3>(rng);
		default:
			return deeper<char[4], u64, 5>(rng);
	}
}

VF_SUITE(trees, 12000, 600000) {
	switch (rng.below(8)) {
		case 0:
			return one<u16, u16, 8>(rng);
		case 1:
			return one<K16, u16, 3>(rng);
		case 2:
			return one<u8, u8, 8>(rng);
		case 3:
			return one<u32, u32, 4>(rng);
		case 4:
			return one<char[4], u8, 8>(rng);
		case 5:
			return one<char[6], u16, 2>(rng);
		case 6:
			return one<u16, u64, 1>(rng);
		default:
			return one<char[1], i64, 5>(rng);
	}
}
