// C31: arenas, aligned memory, memory test, byte and word buffers.
#include "vf.hh"
#ifdef VF_CFG_SAN
#include <sanitizer/allocator_interface.h>
#endif
#include "util/aligned_allocator.hh"
#include "util/big_buffer.hh"
#include "util/bitfield.hh"
#include "util/byte_block.hh"
#include "util/input_output_buffer.hh"
#include "util/mem_test.hh"
#include "util/monotonic_allocator.hh"
#include "util/padded_aligned.hh"
#include <sys/mman.h>
#include <unistd.h>
using namespace vf;

// ---------------------------------------------------------------- arena
VF_SUITE(arena, 60000, 4000000) {
	size_t n = rng.chance(1, 12) ? rng.below(2) : rng.below(rng.chance(1, 2) ? 40 : 2000);
	if (rng.chance(1, 300)) {
		n = 60000 + rng.below(140000);
		VF_COVER("arenas_beyond_a_short");
	}
	std::unique_ptr<uint8_t[]> mem(new uint8_t[n]);
	MonotonicAllocator a(std::span<uint8_t>(mem.get(), n));
	size_t used = 0;
	struct Piece {
		uint8_t *p;
		size_t n;
		u8 tag;
	};
	std::vector<Piece> live;
	Hash h;
	h.add(n);
	bool exact = false, refused = false;
	for (unsigned i = 0, len = 1 + rng.below(40); i < len; i++) {
		VF_EQ(a.total_size(), n, "total-size");
		VF_EQ(a.free_space(), n - used, "free-space");
		if (rng.chance(1, 25)) {
			a.reset();
			for (auto &l : live)
				for (size_t k = 0; k < l.n; k++)
					VF_CHECK(l.p[k] == l.tag, "reset-changes-memory", "%s", "");
			live.clear();
			used = 0;
			h.add(~0ull);
			VF_LOG("reset%s", "");
			VF_COVER("arena_resets");
			continue;
		}
		size_t want;
		switch (rng.below(6)) {
			case 0:
				want = n - used;
				break;
			case 1:
				want = n - used + rng.below(3) - 1;
				if (want > n + 2)
					want = 0;
				break;
			case 2:
				want = rng.chance(1, 3) ? 0 : rng.chance(1, 2) ? ~(size_t)0 - rng.below(20) : wild(rng, n - used);
				break;
			default:
				want = rng.below(n / 4 + 3);
		}
		uint8_t *p = a.allocate(want);
		VF_LOG("allocate(%zu) with %zu of %zu used -> %s", want, used, n, p ? "granted" : "refused");
		h.add(want);
		if (want > n - used) {
			VF_CHECK(p == nullptr, "granted-more-than-left", "%zu of %zu", want, n - used);
			VF_EQ(a.free_space(), n - used, "refusal-has-an-effect");
			refused = true;
			VF_COVER("requests_refused");
			continue;
		}
		if (want == 0) {
			// nothing to place: whatever is returned must not be outside the arena
			if (p)
				VF_CHECK(p >= mem.get() && p <= mem.get() + n, "outside-arena", "%s", "empty request");
			VF_EQ(a.free_space(), n - used, "empty-request-has-an-effect");
			continue;
		}
		VF_CHECK(p != nullptr, "refused-though-it-fits", "%zu of %zu left", want, n - used);
		VF_CHECK(p >= mem.get() && p + want <= mem.get() + n, "outside-arena", "%zu bytes at %td of %zu", want, p - mem.get(), n);
		for (auto &l : live)
			VF_CHECK(p + want <= l.p || l.p + l.n <= p, "overlaps-live-memory", "%s", "");
		used += want;
		if (used == n) {
			exact = true;
			VF_COVER("arena_filled_exactly");
		}
		u8 tag = (u8)rng.next();
		memset(p, tag, want);
		live.push_back({p, want, tag});
	}
	for (auto &l : live)
		for (size_t k = 0; k < l.n; k++)
			VF_CHECK(l.p[k] == l.tag, "content-overwritten", "%s", "");
	if (exact || refused)
		nontrivial(h);
	if (want_sample())
		sample(fmt("arena of %zu bytes, %zu pieces, %zu bytes used", n, live.size(), used));
}

// ---------------------------------------------------------------- aligned memory
// memory given back really is (only the sanitized build can tell)
static void released(const void *p) {
#ifdef VF_CFG_SAN
	VF_CHECK(!__sanitizer_get_ownership(p), "not-released", "%p", p);
	VF_COVER("blocks_released");
#else
	(void)p;
#endif
}
template<typename T, size_t A>
static void aligned(Rng &rng) {
	AlignedAllocator<T, A> al;
	struct Piece {
		T *p;
		size_t n;
		u8 tag;
	};
	std::vector<Piece> live;
	Hash h;
	h.add(sizeof(T)).add(A);
	VF_CHECK(al.allocate(0) == nullptr, "empty-request", "%s", "");
	{ // sizes which overflow the address space
		size_t big = ~(size_t)0 / sizeof(T);
		for (size_t n : {big, big - 1, big - rng.below(8)}) {
			if (n * sizeof(T) <= ~(size_t)0 - A)
				continue;
			VF_CHECK(al.allocate(n) == nullptr, "granted-more-than-exists", "%zu", n);
			VF_COVER("overflowing_sizes");
		}
		size_t wraps = ((size_t)1 << 63) / sizeof(T) * 2 + rng.below(4);
		if (sizeof(T) > 1) {
			VF_CHECK(al.allocate(wraps) == nullptr, "granted-more-than-exists", "%zu", wraps);
			VF_COVER("overflowing_sizes");
		}
	}
	for (unsigned i = 0, len = 1 + rng.below(20); i < len; i++) {
		if (!live.empty() && rng.chance(1, 3)) {
			size_t k = rng.below(live.size());
			auto l = live[k];
			for (size_t j = 0; j < l.n * sizeof(T); j++)
				VF_CHECK(((u8 *)l.p)[j] == l.tag, "content-overwritten", "%s", "");
			al.deallocate(l.p, l.n);
			released(l.p);
			live.erase(live.begin() + k);
			continue;
		}
		size_t n = 1 + rng.below(rng.chance(1, 2) ? 5 : 300);
		if (rng.chance(1, 400)) {
			n = 65000 + rng.below(3000);
			VF_COVER("blocks_beyond_a_short");
		}
		T *p = al.allocate(n);
		VF_CHECK(p != nullptr, "refused-though-it-fits", "%zu", n);
		VF_CHECK((uintptr_t)p % A == 0, "alignment", "%p to %zu", (void *)p, A);
		for (auto &l : live)
			VF_CHECK(p + n <= l.p || l.p + l.n <= p, "overlaps-live-memory", "%s", "");
		u8 tag = (u8)rng.next();
		memset((void *)p, tag, n * sizeof(T)); // AddressSanitizer: all of it is ours
		live.push_back({p, n, tag});
		h.add(n);
		VF_COVER("aligned_blocks");
	}
	for (auto &l : live) {
		for (size_t j = 0; j < l.n * sizeof(T); j++)
			VF_CHECK(((u8 *)l.p)[j] == l.tag, "content-overwritten", "%s", "");
		al.deallocate(l.p, l.n);
		released(l.p);
	}
	// as the allocator of a container, and converted between element types
	std::vector<T, AlignedAllocator<T, A>> v;
	size_t m = rng.below(50);
	for (size_t i = 0; i < m; i++) {
		v.push_back(T(i % 100));
		VF_CHECK((uintptr_t)v.data() % A == 0, "alignment", "vector of %zu", i + 1);
	}
	for (size_t i = 0; i < m; i++)
		VF_CHECK(v[i] == T(i % 100), "container-content", "%zu", i);
	AlignedAllocator<u64, A> other(al);
	typename AlignedAllocator<T, A>::template rebind<char>::other chars;
	VF_CHECK(al == (AlignedAllocator<T, A>(other)) && !(al != AlignedAllocator<T, A>{}), "allocators-equal", "%s", "");
	char *c = chars.allocate(3);
	VF_CHECK((uintptr_t)c % A == 0, "alignment", "%s", "rebound");
	chars.deallocate(c, 3);
	released(c);
	nontrivial(h);
}
VF_SUITE(aligned_memory, 25000, 1500000) {
	switch (rng.below(6)) {
		case 0:
			return aligned<u8, 64>(rng);
		case 1:
			return aligned<u64, 64>(rng);
		case 2:
			return aligned<u32, 32>(rng);
		case 3:
			return aligned<double, 4096>(rng);
		case 4:
			return aligned<uint16_t, 8>(rng);
		default:
			return aligned<float, 128>(rng);
	}
}

template<size_t S>
struct Blob {
	u8 b[S];
};
template<typename T, size_t A>
static void padded(Rng &rng) {
	using P = PaddedAligned<T, A>;
	static_assert(sizeof(P) % A == 0 && alignof(P) == A, "");
	VF_CHECK(sizeof(P) % A == 0 && sizeof(P) >= sizeof(T), "padded-size", "%zu", sizeof(P));
	VF_CHECK(sizeof(P) < sizeof(T) + 2 * A, "padded-size", "%zu", sizeof(P));
	std::vector<std::unique_ptr<P[]>> keep;
	unsigned n = 1 + rng.below(4);
	auto arr = std::make_unique<P[]>(n);
	for (unsigned i = 0; i < n; i++) {
		VF_CHECK((uintptr_t)&arr[i].data % A == 0, "padded-alignment", "element %u", i);
		T &r = arr[i]();
		VF_CHECK((void *)&r == (void *)&arr[i].data && (void *)&r == (void *)&arr[i], "padded-view", "%s", "");
		for (size_t k = 0; k < sizeof(T); k++)
			VF_CHECK(((u8 *)&r)[k] == 0, "padded-zeroed", "%zu", k);
		T &via = arr[i];
		VF_CHECK(&via == &r, "padded-view", "%s", "");
		memset((void *)&r, 0xAB, sizeof(T));
		// no cache line is shared with the neighbour
		if (i)
			VF_CHECK((uintptr_t)&arr[i].data - (uintptr_t)&arr[i - 1].data >= sizeof(T) &&
						 ((uintptr_t)&arr[i].data / A) > ((uintptr_t)&arr[i - 1].data + sizeof(T) - 1) / A,
					 "padded-shares-a-line",
					 "%u",
					 i);
	}
	VF_COVER("padded_objects");
}
VF_SUITE(padded_objects, 3000, 100000) {
	padded<u8, 64>(rng);
	padded<Blob<63>, 64>(rng);
	padded<Blob<65>, 64>(rng);
	padded<u32, 8>(rng);
	padded<Blob<100>, 32>(rng);
	padded<double, 1024>(rng);
	nontrivial(rng.next());
}

// ---------------------------------------------------------------- memory test
VF_SUITE(memory_test_healthy, 4000, 200000) {
	size_t n = rng.chance(1, 8) ? rng.below(3) : rng.below(rng.chance(1, 10) ? 60000 : 500);
	std::vector<u32> before(n + 16);
	for (auto &w : before)
		w = (u32)rng.next();
	std::unique_ptr<u32[]> mem(new u32[n + 16]);
	std::copy(before.begin(), before.end(), mem.get());
	size_t lo = rng.below(8);
	VF_LOG("check of %zu healthy words", n);
	VF_CHECK(MemTest::check(&mem[lo], &mem[lo + n]), "healthy-memory-refused", "%zu words", n);
	size_t same = 0;
	for (size_t i = 0; i < n + 16; i++) {
		if (i < lo || i >= lo + n)
			VF_CHECK(mem[i] == before[i], "writes-outside", "word %zu of [%zu, %zu)", i, lo, lo + n);
		else
			same += mem[i] == before[i];
	}
	VF_CHECK(same <= 2, "cells-not-tested", "%zu of %zu words were not written", same, n);
	std::unique_ptr<u32[]> tight(new u32[n]); // AddressSanitizer: exactly these
	VF_CHECK(MemTest::check(tight.get(), tight.get() + n), "healthy-memory-refused", "%zu words", n);
	// no two words alike: an address line fault would be seen
	std::unordered_set<u32> vals(tight.get(), tight.get() + n);
	VF_EQ(vals.size(), n, "pattern-repeats");
	VF_COVER("healthy_regions");
	nontrivial(Hash{}.add(n).add(lo));
}
// the same physical page appearing twice: address lines stuck
VF_SUITE(memory_test_aliased, 3000, 100000) {
	constexpr size_t PG = 4096, W = PG / 4;
	unsigned pages = 2 + rng.below(7);
	unsigned a = rng.below(pages), b = rng.below(pages);
	bool low = rng.chance(1, 3);
	int fd = memfd_create("vf", 0);
	if (fd < 0)
		return;
	if (ftruncate(fd, pages * PG) != 0) {
		close(fd);
		return;
	}
	u8 *m = (u8 *)mmap(nullptr, pages * PG, PROT_READ | PROT_WRITE, MAP_SHARED | (low ? MAP_32BIT : 0), fd, 0);
	bool good = m != MAP_FAILED;
	if (good && a != b)
		good = mmap(m + b * PG, PG, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_FIXED, fd, a * PG) != MAP_FAILED;
	close(fd);
	if (!good) {
		if (m != MAP_FAILED)
			munmap(m, pages * PG);
		return;
	}
	if (a > b)
		std::swap(a, b);
	// the tested region: a part of the pages
	size_t lo = rng.below(pages * W), hi = rng.below(pages * W + 1);
	if (a != b && rng.chance(1, 2)) { // a single pair of aliased words
		size_t off = rng.below(W);
		lo = a * W + off;
		hi = b * W + off + 1;
		if (rng.chance(1, 3))
			hi--;
	}
	if (lo > hi)
		std::swap(lo, hi);
	// is there a pair of words of the region in the same physical place?
	bool aliased = a != b && lo < (a + 1) * W && hi > b * W && std::max(lo, a * W) - a * W < std::min(hi, (b + 1) * W) - b * W &&
				   std::max(lo, b * W) - b * W < std::min(hi, (a + 1) * W) - a * W;
	u32 *w = (u32 *)m;
	VF_LOG("pages %u and %u of %u alias, words [%zu, %zu) -> %s", a, b, pages, lo, hi, aliased ? "aliased" : "healthy");
	bool r = low && (uintptr_t)m < 0xF0000000ull ? MemTest::check((uint32_t)(uintptr_t)(w + lo), (uint32_t)(uintptr_t)(w + hi)) :
												   MemTest::check(w + lo, w + hi);
	bool refused = true;
	if (lo < hi)
		refused = !MemTest::check((uint32_t)(lo + 1), (uint32_t)lo); // a region ending before it starts
	munmap(m, pages * PG);
	VF_CHECK(r == !aliased, aliased ? "aliased-cells-not-detected" : "healthy-memory-refused", "pages %u and %u, words [%zu, %zu)", a, b, lo, hi);
	VF_CHECK(refused, "backwards-region-accepted", "%s", "");
	if (aliased)
		VF_COVER("aliased_regions");
	else
		VF_COVER("unaffected_regions");
	if (low)
		VF_COVER("numeric_addresses");
	nontrivial(Hash{}.add(a).add(b).add(lo).add(hi));
}

// ---------------------------------------------------------------- buffers
template<typename T, size_t N>
static void io(Rng &rng) {
	Guarded<InputBuffer<T, N>> in;
	Guarded<OutputBuffer<T, N>> out;
	std::vector<T> mi(N), mo(N);
	size_t hi = 0, ho = 0;
	Hash h;
	h.add(N).add(sizeof(T));
	if (N > 100 && rng.chance(3, 4)) { // most of it at once
		for (size_t k = rng.chance(1, 2) ? N - rng.below(9) : rng.below(N); hi < k; hi++)
			in.obj.put(mi[hi] = (T)(hi * 7 + 1));
		for (size_t k = 0; k < N; k++)
			out.obj.data()[k] = mo[k] = (T)(k * 5 + 3);
		for (size_t k = rng.chance(1, 2) ? N - rng.below(9) : rng.below(N); ho < k; ho++)
			VF_EQ(out.obj.get(), mo[ho], "output-sample");
		VF_COVER("large_stream_buffers");
	}
	VF_EQ(in.obj.size(), N, "buffer-size");
	VF_EQ(out.obj.size(), N, "buffer-size");
	VF_CHECK(in.obj.end() - in.obj.begin() == (ptrdiff_t)N && in.obj.begin() == in.obj.data(), "buffer-iterators", "%s", "");
	VF_CHECK(out.obj.end() - out.obj.begin() == (ptrdiff_t)N && out.obj.begin() == out.obj.data(), "buffer-iterators", "%s", "");
	for (unsigned i = 0, len = run_length(rng, 1 + rng.below(3 * std::min<size_t>(N, 40) + 10), 100000, 4000); i < len; i++) {
		unsigned op = rng.below(12);
		VF_EQ(in.obj.full(), hi >= N, "input-full");
		VF_EQ(out.obj.full(), ho >= N, "output-depleted");
		if (op < 5) {
			T x = (T)rng.next();
			in.obj.put(x);
			if (hi < N)
				mi[hi++] = x;
			else
				VF_COVER("put_when_full_ignored");
			VF_LOG("put -> %zu", hi);
		} else if (op < 10) {
			T x = out.obj.get();
			VF_LOG("get at %zu", ho);
			if (ho < N)
				VF_EQ(x, mo[ho++], "output-sample");
			else {
				VF_EQ(x, T{}, "output-default-when-depleted");
				VF_COVER("get_when_depleted");
			}
		} else if (op == 10) {
			if (rng.chance(1, 3)) {
				in.obj.reset();
				hi = 0;
				VF_LOG("input reset%s", "");
			}
			if (rng.chance(1, 3)) {
				out.obj.reset();
				ho = 0;
				VF_LOG("output reset%s", "");
			}
		} else {
			size_t k = rng.below(N);
			T x = (T)rng.next();
			out.obj.data()[k] = x;
			mo[k] = x;
		}
		h.add(op);
	}
	VF_CHECK(std::equal(mi.begin(), mi.end(), in.obj.begin()), "input-content", "%s", "");
	VF_CHECK(std::equal(mo.begin(), mo.end(), out.obj.begin()), "output-content", "%s", "");
	VF_CHECK(in.intact() && out.intact(), "writes-outside", "%s", "buffers");
	nontrivial(h);
}
VF_SUITE(stream_buffers, 20000, 1000000) {
	if (rng.chance(1, 400))
		return io<u32, 66000>(rng);
	if (rng.chance(1, 100))
		return io<float, 300>(rng);
	switch (rng.below(4)) {
		case 0:
			return io<float, 1>(rng);
		case 1:
			return io<int, 8>(rng);
		case 2:
			return io<u8, 33>(rng);
		default:
			return io<double, 16>(rng);
	}
}

VF_SUITE(byte_blocks, 20000, 1000000) {
	ByteBlock b;
	std::vector<u8> m;
	VF_CHECK(b.data.empty(), "starts-empty", "%s", "");
	for (unsigned i = 0, len = rng.below(40); i < len; i++) {
		u64 v = rng.anyint<u64>();
		auto le = [&](unsigned n) {
			for (unsigned k = 0; k < n; k++)
				m.push_back((u8)(v >> (8 * k)));
		};
		switch (rng.below(7)) {
			case 0:
				b.print((uint8_t)v);
				le(1);
				break;
			case 1:
				b.print((uint16_t)v);
				le(2);
				break;
			case 2:
				b.print((uint32_t)v);
				le(4);
				break;
			case 3:
				b.printU8(v);
				le(1);
				break;
			case 4:
				b.printU16LE(v);
				le(2);
				break;
			case 5:
				b.printU32LE(v);
				le(4);
				break;
			default: {
				size_t n = rng.below(rng.chance(1, 300) ? 70000 : rng.chance(1, 20) ? 400 : 20);
				std::unique_ptr<unsigned char[]> raw(new unsigned char[n]);
				for (size_t k = 0; k < n; k++)
					m.push_back(raw[k] = (u8)rng.next());
				b.printRaw(raw.get(), n);
			}
		}
		VF_CHECK(b.data == m, "bytes", "after %u calls: %zu bytes, expected %zu", i + 1, b.data.size(), m.size());
	}
	if (!m.empty()) {
		VF_COVERN("bytes_written", m.size());
		Hash h;
		for (u8 x : m)
			h.add(x);
		nontrivial(h);
	}
}

enum class E8 : u8 { A = 1, B = 2, C = 0x40, D = 0x80 };
enum class E32 : u32 { A = 1, B = 0x80000000u, C = 0x00ff0000u, Z = 0 };
enum E64 : u64 { X = 1ull << 63, Y = 3 };
VF_SUITE(bit_fields, 20000, 1000000) {
	u32 dirt[64];
	for (auto &d : dirt)
		d = (u32)rng.next(); // leave junk where OR() will have its frame
	asm volatile("" : : "r"(dirt) : "memory");
	auto pick8 = [&] { return rng.pick({E8::A, E8::B, E8::C, E8::D}); };
	auto pick32 = [&] { return rng.pick({E32::A, E32::B, E32::C, E32::Z}); };
	E8 a = pick8(), b = pick8(), c = pick8();
	E32 p = pick32(), q = pick32(), r = pick32();
	VF_EQ((u32)OR<E8>({a, b, c}), (u32)((u8)a | (u8)b | (u8)c), "or-of-fields");
	VF_EQ(OR<E32>({p, q, r}), (u32)p | (u32)q | (u32)r, "or-of-fields");
	VF_EQ(OR<E32>({p}), (u32)p, "or-of-fields");
	VF_EQ(OR<E32>({}), 0u, "or-of-nothing");
	VF_EQ((OR<E64>({X, Y})), (1ull << 63) | 3, "or-of-fields");
	VF_EQ(bitfield(p, q, r), (u32)p | (u32)q | (u32)r, "bitfield");
	VF_EQ(bitfield(p), (u32)p, "bitfield");
	VF_EQ((u32)bitfield(a, b), (u32)((u8)a | (u8)b), "bitfield");
	u32 x = rng.anyint<u32>(), y = rng.anyint<u32>();
	VF_EQ(bitfield(x, y), x | y, "bitfield");
	VF_EQ(bitfield(p, x), (u32)p | x, "bitfield");
	VF_EQ(bitfield((int)-5), -5, "bitfield");
	VF_EQ(val(p), (u32)p, "enum-value");
	VF_EQ((u32)val(a), (u32)a, "enum-value");
	VF_COVER("fields_combined");
	nontrivial(Hash{}.add(x).add(y).add((u32)p).add((u32)q).add((u8)a));
}

// ---------------------------------------------------------------- an object in the big heap
template<size_t N>
struct Cells {
	Live first{0};
	std::array<u64, N> a{};
	u64 &operator[](size_t i) {
		return a[i];
	}
	const u64 &operator[](size_t i) const {
		return a[i];
	}
};
template<size_t N>
static void big(Rng &rng) {
	using B = BigBuffer<Cells<N>>;
	i64 live0 = Live::live;
	{
		auto b = std::make_unique<B>(), other = std::make_unique<B>();
		VF_EQ(Live::live - live0, 2, "big-buffer-objects");
		std::vector<u64> m(N), mo(N);
		Hash h;
		h.add(N);
		for (unsigned k = 0, n = 1 + rng.below(60); k < n; k++) {
			size_t i = rng.below(N);
			u64 v = rng.next();
			if (rng.chance(1, 3))
				(*other)[i] = mo[i] = v;
			else if (rng.chance(1, 2))
				(*b)[i] = m[i] = v;
			else
				b->get()[i] = m[i] = v;
			VF_CHECK(&(*b)[i] == &b->get()[i], "big-buffer-element", "%zu", i);
			h.add(i);
		}
		const B &c = *b;
		for (size_t i = 0; i < N; i++) {
			VF_EQ(c[i], m[i], "big-buffer-content");
			VF_EQ((*other)[i], mo[i], "big-buffer-content");
		}
		// where it can be copied or moved, each owns one object
		if constexpr (std::is_copy_constructible_v<B>) {
			B copy(*b);
			copy[0] = ~m[0];
			VF_EQ((*b)[0], m[0], "big-buffer-shared");
		}
		if constexpr (std::is_copy_assignable_v<B>) {
			*other = *b;
			(*other)[0] = ~m[0];
			VF_EQ((*b)[0], m[0], "big-buffer-shared");
		}
		VF_COVER("big_buffers");
		nontrivial(h);
	}
	VF_EQ(Live::live, live0, "big-buffer-objects");
	VF_EQ(Live::errors, 0u, "big-buffer-objects");
}
VF_SUITE(big_buffers, 3000, 100000) {
	switch (rng.below(3)) {
		case 0:
			return big<1>(rng);
		case 1:
			return big<17>(rng);
		default:
			return big<3000>(rng);
	}
}
