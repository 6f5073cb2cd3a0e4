// C05: block access to external rings, and block ring writes.
#include "vf.hh"
#include "util/circular_buffer_block.hh"
#include "util/circular_buffer_ext.hh"
using namespace vf;

// Container with exact-size heap storage in which every cell access is counted
template<typename V>
struct Cells {
	using value_type = V;
	std::unique_ptr<V[]> mem;
	size_t n;
	explicit Cells(size_t n)
		: mem{new V[n]}
		, n{n} {
	}
	V &operator[](size_t i) {
		if (i >= n)
			fail("cell-out-of-range", fmt("cell %zu of %zu", i, n));
		return mem[i];
	}
	size_t size() const {
		return n;
	}
};

template<typename V>
static bool close(V got, double want, double mag) {
	if constexpr (std::is_floating_point_v<V>)
		return std::fabs((double)got - want) <= 4e-6 * mag + 1e-30;
	else // the cross-fade is computed in float and truncated
		return std::fabs((double)got - want) <= 1.0 + 4e-6 * mag;
}

template<typename V>
static V anyv(Rng &rng) {
	if constexpr (std::is_floating_point_v<V>)
		return (V)rng.real(-1000, 1000);
	else if constexpr (sizeof(V) == 1)
		return (V)rng.below(256);
	else if constexpr (sizeof(V) == 2)
		return (V)rng.next();
	else
		return (V)rng.range(-(1 << 24) + 1, (1 << 24) - 1);
}

template<typename V>
static void access(Rng &rng) {
	size_t N = rng.chance(1, 4) ? 1 + rng.below(3) : 1 + rng.below(40);
	Cells<V> cells(N);
	std::vector<V> model(N);
	for (size_t i = 0; i < N; i++)
		cells.mem[i] = model[i] = anyv<V>(rng);
	size_t wr = rng.below(N), rd = 0;
	CircularBufferAccess<Cells<V>> c(cells, wr);
	CircularBufferAccess<Cells<V>> plain(cells);
	VF_CHECK(plain.rd_pos() == 0 && plain.wr_pos() == 0 && plain.size() == N, "initial-position", "read %zu write %zu of %zu",
			 plain.rd_pos(), plain.wr_pos(), N);
	VF_EQ(c.size(), N, "size");
	VF_EQ(c.rd_pos(), 0u, "initial-position");
	VF_EQ(c.wr_pos(), wr, "initial-position");
	Hash h;
	unsigned ops = run_length(rng, 4 + rng.below(40), 100000);
	for (unsigned k = 0; k < ops; k++) {
		unsigned op = rng.below(10);
		size_t len = rng.chance(1, 6) ? rng.below(3 * N + 2) : rng.below(N + 1);
		h.add(op).add(len);
		// exact-size block
		std::unique_ptr<V[]> blk(new V[len]);
		std::span<V> span(blk.get(), len);
		switch (op) {
			case 0:
			case 1:
			case 2:
			case 3: {
				// reads: forward/reverse, plain/with marker
				bool rev = op & 1, mark = op & 2;
				size_t marker = rng.below(N);
				size_t from = rd;
				bool wrapped = false;
				for (size_t i = 0; i < len; i++)
					blk[i] = (V)0x55;
				bool ret;
				VF_LOG("%s%s len %zu from %zu of %zu marker %zu", rev ? "read_reverse" : "read", mark ? "_check_crossed" : "", len, from, N, marker);
				if (!mark)
					ret = rev ? c.read_reverse(span) : c.read(span);
				else
					ret = rev ? c.read_reverse_check_crossed(span, marker) : c.read_check_crossed(span, marker);
				bool among = false, inner = false;
				for (size_t i = 0; i < len; i++) {
					VF_CHECK(blk[i] == model[rd], "read-wrong-cell", "element %zu of a read at %zu", i, from);
					among |= rd == marker;
					inner |= rd == marker && i > 0;
					if (rev) {
						if (rd == 0) {
							rd = N - 1;
							wrapped = true;
						} else
							rd--;
					} else if (++rd == N) {
						rd = 0;
						wrapped = true;
					}
				}
				VF_EQ(c.rd_pos(), rd, "read-position");
				if (wrapped)
					VF_COVER("reads_wrapped");
				if (!mark)
					VF_EQ(ret, wrapped, "wrapped-flag");
				else if (len < N) {
					if (!rev) {
						VF_EQ(ret, among, "crossed-marker");
						VF_COVER("crossing_checked_forward");
					} else if (marker != from && marker != rd) {
						// strictly between the two end positions
						VF_EQ(ret, inner, "crossed-marker-reverse");
						VF_COVER("crossing_checked_reverse");
					} else if (len == 0)
						VF_EQ(ret, false, "crossed-marker-reverse");
				}
				break;
			}
			case 4:
			case 5:
			case 6: {
				bool rev = op == 5;
				float phase = rng.pick({1.f, 1.f, 0.f, 0.5f, 0.25f, -1.f});
				bool dflt = rng.chance(1, 3);
				if (dflt)
					phase = 1.f;
				else if (phase < 0)
					phase = (float)rng.unit();
				size_t from = wr;
				for (size_t i = 0; i < len; i++)
					blk[i] = anyv<V>(rng);
				std::vector<V> src(blk.get(), blk.get() + len);
				std::span<const V> cs(blk.get(), len);
				bool ret;
				bool cross = op == 6;
				size_t marker = rng.below(N);
				VF_LOG("%s len %zu at %zu of %zu phase %g", cross ? "write_check_crossed" : rev ? "write_reverse" : "write", len, from, N, phase);
				if (cross) {
					phase = 1.f;
					ret = c.write_check_crossed(cs, marker);
				} else if (dflt)
					ret = rev ? c.write_reverse(cs) : c.write(cs);
				else
					ret = rev ? c.write_reverse(cs, phase) : c.write(cs, phase);
				bool wrapped = false, inner = false;
				for (size_t i = 0; i < len; i++) {
					// several passes over a cell: follow the stored value of the previous one
					double old = model[wr], nw = src[i];
					double want = nw * (double)phase + old * (1.0 - (double)phase);
					double mag = std::fabs(old) + std::fabs(nw);
					inner |= wr == marker && i > 0;
					if (len <= N) {
						V got = cells.mem[wr];
						VF_CHECK(close<V>(got, want, mag) && (phase != 1.f || got == src[i]) && (phase != 0.f || got == (V)old),
								 "written-value",
								 "cell %zu holds %g, expected %g (phase %g)",
								 wr,
								 (double)got,
								 want,
								 (double)phase);
						model[wr] = got;
					} else
						model[wr] = phase == 1.f ? src[i] : (phase == 0.f ? model[wr] : (V)want);
					if (rev) {
						if (wr == 0) {
							wr = N - 1;
							wrapped = true;
						} else
							wr--;
					} else if (++wr == N) {
						wr = 0;
						wrapped = true;
					}
				}
				if (len > N) {
					VF_COVER("blocks_longer_than_ring");
					if (phase == 1.f || phase == 0.f) {
						for (size_t i = 0; i < N; i++)
							VF_CHECK(cells.mem[i] == model[i], "written-value", "cell %zu after an over-long block", i);
					} else
						for (size_t i = 0; i < N; i++)
							model[i] = cells.mem[i];
				}
				for (size_t i = 0; i < N; i++)
					VF_CHECK(cells.mem[i] == model[i], "unaddressed-cell-changed", "cell %zu, write of %zu at %zu", i, len, from);
				for (size_t i = 0; i < len; i++)
					VF_CHECK(blk[i] == src[i], "source-block-changed", "element %zu", i);
				VF_EQ(c.wr_pos(), wr, "write-position");
				if (wrapped)
					VF_COVER("writes_wrapped");
				if (!cross)
					VF_EQ(ret, wrapped, "wrapped-flag");
				else if (len < N && marker != from && marker != wr) {
					VF_EQ(ret, inner, "crossed-marker-write");
					VF_COVER("crossing_checked_write");
				}
				break;
			}
			case 7:
				rd = rng.below(N);
				c.rd_pos(rd);
				VF_EQ(c.rd_pos(), rd, "set-position");
				VF_EQ(c.wr_pos(), wr, "set-position");
				break;
			case 8:
				wr = rng.below(N);
				c.wr_pos(wr);
				VF_EQ(c.wr_pos(), wr, "set-position");
				VF_EQ(c.rd_pos(), rd, "set-position");
				break;
			case 9:
				if (rng.chance(1, 5)) {
					c.clear();
					for (size_t i = 0; i < N; i++) {
						VF_CHECK(cells.mem[i] == 0, "clear", "cell %zu", i);
						model[i] = 0;
					}
				}
				break;
		}
		VF_EQ(c.size(), N, "size");
	}
	nontrivial(h.add(N).add(sizeof(V)));
	if (want_sample())
		sample(fmt("ring of %zu cells of %zu bytes, %u block operations", N, sizeof(V), ops));
}
VF_SUITE(access, 6000, 400000) {
	switch (rng.below(5)) {
		case 0:
			return access<float>(rng);
		case 1:
			return access<int16_t>(rng);
		case 2:
			return access<int32_t>(rng);
		case 3:
			return access<u8>(rng);
		default:
			return access<double>(rng);
	}
}

template<typename T>
static T tv(i64 x) {
	if constexpr (requires { T(x); })
		return T(x);
	return T{};
}
struct Frame {
	i64 l = 0;
	u32 r = 0;
	Frame() = default;
	explicit Frame(i64 x)
		: l(x)
		, r((u32)x) {
	}
	bool operator==(const Frame &) const = default;
};

template<typename T, size_t N>
static void block(Rng &rng) {
	i64 live0 = Live::live;
	{
		auto b = std::make_unique<Guarded<CircularBufferBlock<T, N>>>();
		std::vector<T> model(N, T{});
		Hash h;
		VF_EQ(b->obj.size(), N, "size");
		for (unsigned k = 0; k < 30; k++) {
			size_t len = rng.chance(1, 5) ? N : rng.below(N + 1);
			unsigned pos = rng.chance(1, 3) ? (unsigned)rng.next() : (unsigned)rng.below(2 * N);
			h.add(len).add(pos % N);
			std::vector<T> src;
			for (size_t i = 0; i < len; i++)
				src.push_back(T(1 + rng.below(120)));
			src.shrink_to_fit();
			VF_LOG("write %zu at %u in %zu", len, pos, N);
			b->obj.write(std::span<const T>(src.data(), len), pos);
			for (size_t i = 0; i < len; i++)
				model[(pos + i) % N] = src[i];
			for (size_t i = 0; i < N; i++)
				VF_CHECK(b->obj.data[i] == model[i], "block-content", "cell %zu after %zu elements at %u", i, len, pos);
			VF_CHECK(b->intact(), "block-overrun", "memory around the ring changed");
			if (len && (pos % N) + len > N)
				VF_COVER("block_wrapped");
		}
		nontrivial(h.add(N).add(sizeof(T)).add(1));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
template<typename T>
static void blocks(Rng &rng) {
	switch (rng.below(4)) {
		case 0:
			return block<T, 1>(rng);
		case 1:
			return block<T, 4>(rng);
		case 2:
			return block<T, 16>(rng);
		default:
			return block<T, 128>(rng);
	}
}
VF_SUITE(block, 3000, 200000) {
	switch (rng.below(4)) {
		case 0:
			return blocks<u8>(rng);
		case 1:
			return blocks<float>(rng);
		case 2:
			return blocks<Frame>(rng);
		default:
			return blocks<Live>(rng);
	}
}

// Rings of more cells than fit one and two bytes; full-scale samples; cells that hold no number.
template<typename V>
static V full_scale(Rng &rng) {
	if constexpr (std::is_floating_point_v<V>) {
		return rng.chance(1, 8) ? rng.pick({(V)NAN, (V)INFINITY, -(V)INFINITY, std::numeric_limits<V>::max(), -(V)0}) : (V)rng.real(-1e6, 1e6);
	} else
		return rng.chance(1, 8) ? rng.pick({std::numeric_limits<V>::min(), std::numeric_limits<V>::max()}) : (V)rng.next();
}
template<typename V>
static void large(Rng &rng, size_t N) {
	Cells<V> cells(N);
	std::vector<V> model(N);
	for (size_t i = 0; i < N; i++)
		cells.mem[i] = model[i] = full_scale<V>(rng);
	size_t wr = rng.below(N), rd = 0;
	CircularBufferAccess<Cells<V>> c(cells, wr);
	auto same = [](V a, V b) { return memcmp(&a, &b, sizeof(V)) == 0; };
	Hash h;
	h.add(N).add(sizeof(V));
	for (unsigned k = 0, ops = 4 + rng.below(8); k < ops; k++) {
		unsigned op = rng.below(6);
		size_t len = rng.chance(1, 8) ? N + rng.below(N) : rng.below(N + 1);
		h.add(op).add(len);
		std::unique_ptr<V[]> blk(new V[len]), blk2(new V[N]);
		VF_LOG("large ring %zu: %u of %zu, read at %zu write at %zu", N, op, len, rd, wr);
		bool wrapped = false, ret;
		if (op < 2) {
			ret = op ? c.read_reverse({blk.get(), len}) : c.read({blk.get(), len});
			for (size_t i = 0; i < len; i++) {
				VF_CHECK(same(blk[i], model[rd]), "read-wrong-cell", "element %zu", i);
				rd = op ? (rd ? rd - 1 : N - 1) : (rd + 1) % N;
				wrapped |= rd == (op ? N - 1 : 0);
			}
		} else if (op < 4) {
			bool rev = op == 3;
			for (size_t i = 0; i < len; i++)
				blk[i] = full_scale<V>(rng);
			std::span<const V> cs(blk.get(), len);
			ret = rng.chance(1, 2) ? (rev ? c.write_reverse(cs) : c.write(cs)) : (rev ? c.write_reverse(cs, 1.f) : c.write(cs, 1.f));
			for (size_t i = 0; i < len; i++) {
				model[wr] = blk[i];
				wr = rev ? (wr ? wr - 1 : N - 1) : (wr + 1) % N;
				wrapped |= wr == (rev ? N - 1 : 0);
			}
			for (size_t i = 0; i < N; i++)
				VF_CHECK(same(cells.mem[i], model[i]), "written-value", "cell %zu", i);
			VF_COVER("full_scale_blocks");
		} else if (op == 5) {
			// emptied, then filled, then faded at some place
			c.clear();
			for (size_t i = 0; i < N; i++)
				VF_CHECK(cells.mem[i] == 0, "cleared", "cell %zu of %zu", i, N);
			std::unique_ptr<V[]> all(new V[N]);
			for (size_t i = 0; i < N; i++) {
				all[i] = (V)(2 * rng.below(60));
				model[(wr + i) % N] = all[i];
			}
			c.write(std::span<const V>(all.get(), N));
			bool rev = rng.chance(1, 2);
			wr = rng.below(N);
			c.wr_pos(wr);
			len = std::min(len, N);
			for (size_t i = 0; i < len; i++)
				blk[i] = (V)(2 * rng.below(60));
			ret = rev ? c.write_reverse(std::span<const V>(blk.get(), len), 0.5f) : c.write(std::span<const V>(blk.get(), len), 0.5f);
			for (size_t i = 0; i < len; i++) {
				model[wr] = (V)(blk[i] / 2 + model[wr] / 2);
				wr = rev ? (wr ? wr - 1 : N - 1) : (wr + 1) % N;
				wrapped |= wr == (rev ? N - 1 : 0);
			}
			for (size_t i = 0; i < N; i++)
				VF_CHECK(same(cells.mem[i], model[i]), "faded-value", "cell %zu of %zu", i, N);
			VF_COVER("large_rings_faded");
		} else {
			for (unsigned t = 0; t < 12; t++) {
				auto place = [&] { return N > 65540 && rng.chance(1, 2) ? 65530 + rng.below(N - 65530) : rng.below(N); };
				rd = place(), wr = place();
				c.rd_pos(rd);
				c.wr_pos(wr);
				size_t m = place(), l = rng.chance(1, 2) ? std::min(len, N - 1) : rng.below(std::min<size_t>(N, 50));
				if (rng.chance(1, 2)) {
					bool in = c.read_check_crossed({blk2.get(), l}, m);
					VF_EQ(in, (m + N - rd) % N < l, "crossed-marker");
					rd = (rd + l) % N;
				} else if (rng.chance(1, 2)) {
					bool in = c.read_reverse_check_crossed({blk2.get(), l}, m);
					size_t d = (rd + N - m) % N;
					if (d != 0 && d != l)
						VF_EQ(in, d < l, "crossed-marker-reverse");
					rd = (rd + N - l) % N;
				} else {
					for (size_t i = 0; i < l; i++)
						blk2[i] = model[(wr + i) % N];
					bool in = c.write_check_crossed(std::span<const V>(blk2.get(), l), m);
					size_t d = (m + N - wr) % N;
					if (d != 0 && d != l)
						VF_EQ(in, d < l, "crossed-marker-write");
					wr = (wr + l) % N;
				}
				VF_EQ(c.rd_pos(), rd, "read-position");
				VF_EQ(c.wr_pos(), wr, "write-position");
			}
			ret = false;
		}
		VF_EQ(ret, wrapped, "wrapped-flag");
		VF_EQ(c.rd_pos(), rd, "read-position");
		VF_EQ(c.wr_pos(), wr, "write-position");
		VF_EQ(c.size(), N, "size");
	}
	nontrivial(h);
}
template<typename V>
static void larges(Rng &rng) {
	if (rng.chance(1, 30)) {
		VF_COVER("ring_beyond_a_short");
		return large<V>(rng, 65500 + rng.below(70000));
	}
	return large<V>(rng, rng.chance(1, 2) ? 1 + rng.below(20) : 200 + rng.below(400));
}
VF_SUITE(large_rings, 600, 40000) {
	switch (rng.below(5)) {
		case 0:
			return larges<float>(rng);
		case 1:
			return larges<int16_t>(rng);
		case 2:
			return larges<int32_t>(rng);
		case 3:
			return larges<u8>(rng);
		default:
			return larges<double>(rng);
	}
}
VF_SUITE(large_blocks, 150, 8000) {
	constexpr size_t N = 131072;
	static auto b = std::make_unique<CircularBufferBlock<u32, N>>();
	std::vector<u32> model(b->data.begin(), b->data.end());
	VF_EQ(b->size(), N, "size");
	Hash h;
	for (unsigned k = 0; k < 4; k++) {
		size_t len = rng.chance(1, 5) ? N : rng.below(rng.chance(1, 2) ? 70000 : 600);
		unsigned pos = rng.chance(1, 3) ? (unsigned)rng.next() : (unsigned)rng.below(2 * N);
		std::vector<u32> src(len);
		for (auto &x : src)
			x = (u32)rng.next();
		VF_LOG("write %zu at %u in %zu", len, pos, N);
		b->write(src, pos);
		for (size_t i = 0; i < len; i++)
			model[(pos + i) % N] = src[i];
		VF_CHECK(memcmp(model.data(), b->data.data(), N * 4) == 0, "block-content", "after %zu elements at %u", len, pos);
		h.add(len).add(pos);
	}
	nontrivial(h);
	VF_COVER("large_block_rings");
}

// every (size <= 6, position, length < size, marker): crossing reports
VF_SUITE(enum_crossing, 1, 1) {
	for (size_t N = 1; N <= 9; N++)
		for (size_t p = 0; p < N; p++)
			for (size_t len = 0; len < N; len++)
				for (size_t m = 0; m < N; m++) {
					std::vector<float> v(N, 0.f), blk(len);
					CircularBufferAccess<std::vector<float>> c(v);
					c.rd_pos(p);
					bool f = c.read_check_crossed(blk, m);
					bool among = (m + N - p) % N < len;
					VF_CHECK(f == among, "crossed-marker", "N %zu pos %zu len %zu marker %zu", N, p, len, m);
					c.rd_pos(p);
					bool r = c.read_reverse_check_crossed(blk, m);
					size_t d = (p + N - m) % N;
					if (d != 0 && d != len)
						VF_CHECK(r == (d < len), "crossed-marker-reverse", "N %zu pos %zu len %zu marker %zu", N, p, len, m);
					c.wr_pos(p);
					bool w = c.write_check_crossed(blk, m);
					d = (m + N - p) % N;
					if (d != 0 && d != len)
						VF_CHECK(w == (d < len), "crossed-marker-write", "N %zu pos %zu len %zu marker %zu", N, p, len, m);
					evaluated(3);
					nontrivial(Hash().add(N).add(p).add(len).add(m));
				}
}
