// Field trees, an independent encoder/decoder of [key][size][data] and the
// bridge to the real writer and serializer.
#pragma once
#include "vf.hh"
namespace cb
{
using namespace vf;
using Bytes = std::vector<u8>;

struct Node {
	unsigned key = 0;
	int kind = 0; // 0..4: u8 u16 u32 u64 double, 5: raw, 6: object, 7: packed struct
	u64 num = 0;
	Bytes raw;
	std::vector<Node> sub;
};
struct __attribute__((packed)) Packed {
	u8 a;
	u32 b;
	u16 c;
	bool operator==(const Packed &o) const {
		return a == o.a && b == o.b && c == o.c;
	}
};
inline Packed packed(u64 n) {
	return {(u8)n, (u32)(n >> 8), (u16)(n >> 40)};
}
inline double dbl(u64 n) {
	return (double)(i64)n * 0.37;
}

// --- keys -------------------------------------------------------------------
template<typename K>
struct KeyOf {
	static constexpr size_t Size = sizeof(K);
	// groups of keys with the same low byte, told apart by a bit somewhere above it
	static K make(unsigned i) {
		if constexpr (sizeof(K) == 1)
			return (K)(i * 37 + 5);
		else {
			constexpr unsigned bits = 8 * sizeof(K);
			u64 above[] = {0, (u64)0xA5 << (bits - 8), (u64)1 << bits / 2, (u64)1 << 15};
			return (K)((i / 4 * 37 + 5) | above[i % 4]);
		}
	}
	static void encode(Bytes &o, unsigned i) {
		K k = make(i);
		u8 b[sizeof k];
		memcpy(b, &k, sizeof k);
		o.insert(o.end(), b, b + sizeof k);
	}
	static bool matches(const u8 *p, unsigned i) {
		K k = make(i);
		return memcmp(p, &k, sizeof k) == 0;
	}
};
template<typename K>
Bytes key_bytes(unsigned i);
template<size_t N>
struct KeyOf<char[N]> {
	static constexpr size_t Size = N;
	struct Buf {
		char s[N + 1];
		operator const char *() const {
			return s;
		}
	};
	// texts of every length 0..N, prefixes of one another, with and without terminator
	static std::string text(unsigned i) {
		static const char *base[] = {"abcdefghij", "abcdxfghij", "b", "ab", "a", "abc", "", "zbcdefghij", "abcd", "abcdef", "abcde", "bb"};
		return std::string(base[i % 12]).substr(0, N);
	}
	// each name has storage of its own, as named fields have in a program
	static char *make(unsigned i) {
		static Buf b[12];
		Buf &x = b[i % 12];
		memset(x.s, 'Q', sizeof x.s);
		auto t = text(i);
		memcpy(x.s, t.data(), t.size());
		if (t.size() < N)
			x.s[t.size()] = 0;
		return x.s;
	}
	static void encode(Bytes &o, unsigned i) {
		auto t = text(i);
		t.resize(N, '\0');
		o.insert(o.end(), t.begin(), t.end());
	}
	static bool matches(const u8 *p, unsigned i) {
		auto t = text(i);
		for (size_t j = 0; j < N; j++) {
			u8 want = j < t.size() ? (u8)t[j] : 0;
			if (p[j] != want)
				return false;
			if (j >= t.size()) // terminator matched: the rest is ignored
				return true;
		}
		return true;
	}
};

template<typename K>
Bytes key_bytes(unsigned i) {
	Bytes b;
	KeyOf<K>::encode(b, i);
	return b;
}
inline Bytes value_bytes(const Node &n) {
	Bytes o;
	auto put = [&](auto v) {
		u8 b[sizeof v];
		memcpy(b, &v, sizeof v);
		o.insert(o.end(), b, b + sizeof v);
	};
	switch (n.kind) {
		case 0:
			put((u8)n.num);
			break;
		case 1:
			put((u16)n.num);
			break;
		case 2:
			put((u32)n.num);
			break;
		case 3:
			put(n.num);
			break;
		case 4:
			put(dbl(n.num));
			break;
		case 5:
			return n.raw;
		case 7:
			put(packed(n.num));
			break;
	}
	return o;
}
template<typename K, typename S>
Bytes encode(const std::vector<Node> &ns) {
	Bytes o;
	for (auto &n : ns) {
		Bytes v = n.kind == 6 ? encode<K, S>(n.sub) : value_bytes(n);
		KeyOf<K>::encode(o, n.key);
		u64 sz = v.size();
		for (size_t i = 0; i < sizeof(S); i++)
			o.push_back((u8)(sz >> (8 * i)));
		o.insert(o.end(), v.begin(), v.end());
	}
	return o;
}
// largest data size in the tree
template<typename K, typename S>
u64 largest(const std::vector<Node> &ns) {
	u64 m = 0;
	for (auto &n : ns) {
		if (n.kind == 6)
			m = std::max({m, (u64)encode<K, S>(n.sub).size(), largest<K, S>(n.sub)});
		else
			m = std::max(m, (u64)value_bytes(n).size());
	}
	return m;
}
inline unsigned depth(const std::vector<Node> &ns) {
	unsigned d = 0;
	for (auto &n : ns)
		if (n.kind == 6)
			d = std::max(d, 1 + depth(n.sub));
	return d;
}
inline std::vector<Node> tree(Rng &rng, unsigned maxdepth, unsigned keys) {
	std::vector<Node> r;
	unsigned n = rng.below(5);
	if (maxdepth == 0 && n == 0)
		n = rng.below(3);
	std::vector<unsigned> used;
	bool dup = rng.chance(1, 6);
	for (unsigned i = 0; i < n; i++) {
		Node x;
		x.key = rng.below(keys);
		if (!dup && std::find(used.begin(), used.end(), x.key) != used.end())
			continue;
		used.push_back(x.key);
		x.kind = rng.below(8);
		if (x.kind == 6 && maxdepth == 0)
			x.kind = 5;
		x.num = rng.anyint<u64>();
		if (x.kind == 5) {
			unsigned len = rng.chance(1, 3) ? rng.below(3) : rng.below(24);
			for (unsigned k = 0; k < len; k++)
				x.raw.push_back((u8)rng.next());
		}
		if (x.kind == 6)
			x.sub = tree(rng, maxdepth - 1, keys);
		r.push_back(std::move(x));
	}
	return r;
}

// data of hundreds or thousands of bytes somewhere in the tree
inline void widen(Rng &rng, std::vector<Node> &t) {
	for (auto &n : t) {
		if (n.kind == 6)
			widen(rng, n.sub);
		else if (n.kind == 5 && rng.chance(2, 3)) {
			size_t len = rng.chance(1, 8) ? rng.below(70000) : rng.below(900);
			while (n.raw.size() < len)
				n.raw.push_back((u8)rng.next());
		}
	}
}

// Independent reading of a node, as documented. Found: data inside the node.
struct Found {
	bool match = false; // a field with this key was reached
	bool inside = false;
	u64 size = 0; // as declared, sign-extended
	size_t off = 0;
};
template<typename K, typename S>
Found find(std::span<const u8> b, unsigned key) {
	constexpr size_t H = KeyOf<K>::Size + sizeof(S);
	size_t o = 0;
	Found f;
	while (b.size() - o >= H) {
		S s;
		memcpy(&s, b.data() + o + KeyOf<K>::Size, sizeof s);
		u64 sz = (u64)(i64)s;
		if constexpr (std::is_unsigned_v<S>)
			sz = s;
		size_t d = o + H;
		if (d >= b.size())
			return f; // nothing after the header
		if (KeyOf<K>::matches(b.data() + o, key)) {
			f.match = true;
			f.size = sz;
			f.off = d;
			f.inside = sz <= b.size() - d;
			return f;
		}
		if (sz >= b.size() - d)
			return f;
		o = d + sz;
	}
	return f;
}
} // namespace cb
