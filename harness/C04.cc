// C04: overwrite-oldest ring buffers against a positional model.
#include "vf.hh"
#include "util/circular_buffer.hh"
#include "util/circular_buffer_opt.hh"
using namespace vf;

struct Wide {
	i64 a = 0;
	u32 b = 0;
	u8 c = 0;
	Wide() = default;
	Wide(i64 x)
		: a{x}
		, b((u32)x * 3)
		, c((u8)x) {
	}
};
static i64 val(u8 x) {
	return x;
}
static i64 val(int x) {
	return x;
}
static i64 val(double x) {
	return (i64)x;
}
static i64 val(const Wide &w) {
	return w.b == (u32)w.a * 3 && w.c == (u8)w.a ? w.a : -12345;
}
static i64 val(const Live &l) {
	return l.get();
}
template<typename T>
static i64 clip(i64 x) {
	if constexpr (std::is_integral_v<T>)
		return (i64)(T)x;
	return x;
}

template<typename B>
constexpr bool is_opt = requires(B b) { b.get().has_value(); };

template<typename B, typename T, size_t N>
static void history(Rng &rng) {
	i64 live0 = Live::live;
	{
		auto b = std::make_unique<B>();
		std::vector<i64> slot(N, val(T{}));
		size_t head = 0, tail = 0;
		bool full = false;
		i64 next = 1;
		Hash h;
		auto count = [&] { return full ? N : (head + N - tail) % N; };
		unsigned putw = 1 + rng.below(9);
		unsigned ops = run_length(rng, 5 + rng.below(150));
		for (unsigned k = 0; k < ops; k++) {
			unsigned op;
			if (rng.chance(putw, 16))
				op = 0;
			else
				op = rng.pick({1u, 1u, 1u, 2u, 2u, 3u, 4u, 5u, 6u});
			h.add(op);
			switch (op) {
				case 0: {
					i64 v = clip<T>(next++);
					VF_LOG("put %lld", (long long)v);
					bool own = false;
					if constexpr (!is_opt<B>)
						if (count() && rng.chance(1, 8)) { // an element of the buffer itself
							v = slot[tail];
							b->put(b->first());
							own = true;
							VF_COVER("own_element_put");
						}
					if (!own)
						b->put(T(v));
					slot[head] = v;
					if (full) {
						tail = (tail + 1) % N;
						VF_COVER("overwrote_oldest");
					}
					head = (head + 1) % N;
					full = head == tail;
					break;
				}
				case 1: {
					VF_LOG("get");
					if constexpr (is_opt<B>) {
						auto x = b->get();
						VF_EQ(x.has_value(), count() > 0, "get-result");
						if (x)
							VF_EQ(val(*x), slot[tail], "wrong-item");
					} else {
						T x = b->get();
						VF_EQ(val(x), count() ? slot[tail] : val(T{}), "wrong-item");
					}
					if (count()) {
						full = false;
						tail = (tail + 1) % N;
					} else
						VF_COVER("get_on_empty");
					break;
				}
				case 2:
					VF_LOG("remove_first");
					b->remove_first();
					if (count()) {
						full = false;
						tail = (tail + 1) % N;
					}
					break;
				case 3:
					if (rng.chance(1, 4) && rarely(rng)) {
						VF_LOG("reset");
						b->reset();
						head = tail;
						full = false;
						VF_COVER("reset");
					}
					break;
				case 4:
					if (!full && rng.chance(1, 4) && rarely(rng)) {
						head = rng.below(N);
						VF_LOG("set_head %zu", head);
						b->set_head(head);
						VF_COVER("set_head");
					}
					break;
				case 5: {
					if (!rng.chance(1, 6))
						break;
					auto src = std::make_unique<std::array<T, N>>();
					for (size_t i = 0; i < N; i++) {
						slot[i] = clip<T>(1000 + rng.below(1000));
						(*src)[i] = T(slot[i]);
					}
					VF_LOG("fill_buffer(array)");
					b->fill_buffer(*src);
					for (size_t i = 0; i < N; i++)
						VF_EQ(val((*src)[i]), slot[i], "fill-source-modified");
					VF_COVER("filled_from_array");
					break;
				}
				case 6: {
					if (!rng.chance(1, 6))
						break;
					i64 v = clip<T>(1 + rng.below(5000));
#ifdef VF_REDUCED
					if (!std::is_arithmetic_v<T>)
						break; // an earlier form accepted numbers only
#endif
					slot.assign(N, v);
					VF_LOG("fill_buffer(%lld)", (long long)v);
#ifdef VF_REDUCED
					if constexpr (std::is_arithmetic_v<T>)
#endif
						b->fill_buffer(T(v));
					VF_COVER("filled_with_value");
					break;
				}
			}
			VF_EQ(b->count(), count(), "count");
			VF_EQ(b->num_filled(), count(), "num_filled");
			VF_EQ(b->empty(), count() == 0, "empty");
			VF_EQ(b->full(), full, "full");
			VF_EQ(b->get_head_idx(), head, "head-index");
			VF_EQ(b->get_tail_idx(), tail, "tail-index");
			VF_EQ(b->max_size(), N, "max_size");
			VF_EQ(b->max_capacity(), N, "max_size");
			if constexpr (!is_opt<B>)
				for (size_t i = 0; i < count(); i++)
					VF_EQ(val(b->peek(i)), slot[(tail + i) % N], "peek");
		}
		// final content
		while (count()) {
			if constexpr (is_opt<B>) {
				auto x = b->get();
				VF_CHECK(x.has_value(), "get-result", "nothing while %zu held", count());
				VF_EQ(val(*x), slot[tail], "wrong-item");
			} else
				VF_EQ(val(b->get()), slot[tail], "wrong-item");
			full = false;
			tail = (tail + 1) % N;
		}
		VF_CHECK(b->empty(), "empty", "drained");
		nontrivial(h.add(N).add(sizeof(T)).add(is_opt<B>));
		if (want_sample())
			sample(fmt("capacity %zu element size %zu, %u operations", N, sizeof(T), ops));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}

template<typename T>
static void one(Rng &rng) {
	switch (rng.below(8)) {
		case 0:
			return history<CircularBuffer<T, 1>, T, 1>(rng);
		case 1:
			return history<CircularBuffer<T, 2>, T, 2>(rng);
		case 2:
			return history<CircularBuffer<T, 8>, T, 8>(rng);
		case 3:
			return history<CircularBuffer<T, 64>, T, 64>(rng);
		case 4:
			return history<CircularBufferOpt<T, 1>, T, 1>(rng);
		case 5:
			return history<CircularBufferOpt<T, 4>, T, 4>(rng);
		case 6:
			return history<CircularBufferOpt<T, 16>, T, 16>(rng);
		default:
			return history<CircularBufferOpt<T, 64>, T, 64>(rng);
	}
}
VF_SUITE(history, 10000, 500000) {
	switch (rng.below(5)) {
		case 0:
			return one<u8>(rng);
		case 1:
			return one<int>(rng);
		case 2:
			return one<double>(rng);
		case 3:
			return one<Wide>(rng);
		default:
			return one<Live>(rng);
	}
}

// Capacities beyond one and two bytes, in bursts.
template<typename B, size_t N>
static void bursts(Rng &rng) {
	auto b = std::make_unique<B>();
	std::vector<u32> slot(N, 0);
	size_t head = 0, tail = 0, n = 0;
	Hash h;
	h.add(N).add(is_opt<B>);
	auto look = [&] {
		VF_EQ((size_t)b->count(), n, "count");
		VF_EQ((size_t)b->num_filled(), n, "num_filled");
		VF_EQ(b->empty(), n == 0, "empty");
		VF_EQ(b->full(), n == N, "full");
		VF_EQ((size_t)b->get_head_idx(), head, "head-index");
		VF_EQ((size_t)b->get_tail_idx(), tail, "tail-index");
		if constexpr (!is_opt<B>)
			if (n) {
				size_t i = rng.chance(1, 2) ? n - 1 : rng.below(n);
				VF_EQ(b->peek(i), slot[(tail + i) % N], "peek");
				VF_EQ(b->first(), slot[tail], "first");
				VF_EQ(std::as_const(*b).first(), slot[tail], "first");
			}
	};
	VF_EQ((size_t)b->max_size(), N, "max_size");
	VF_EQ((size_t)b->max_capacity(), N, "max_size");
	look();
	for (unsigned r = 0, len = 4 + rng.below(6); r < len; r++) {
		unsigned op = rng.below(9);
		size_t k = rng.chance(1, 3) ? N + rng.below(N / 4) : 1 + rng.below(N);
		VF_LOG("burst %u of %zu, capacity %zu, holding %zu", op, k, N, n);
		h.add(op).add(k);
		if (op < 4) {
			while (k--) {
				u32 v = (u32)rng.next();
				b->put(v);
				slot[head] = v;
				head = (head + 1) % N;
				if (n == N)
					tail = head;
				else
					n++;
				look();
			}
			if (n == N)
				VF_COVER("large_buffer_overwritten");
			if (N > 65536)
				VF_COVER("capacity_beyond_a_short");
		} else if (op < 6) {
			while (k--) {
				u32 want = n ? slot[tail] : 0;
				if constexpr (is_opt<B>) {
					auto x = b->get();
					VF_EQ(x.has_value(), n > 0, "get-result");
					VF_EQ(x.value_or(0), want, "wrong-item");
				} else
					VF_EQ(b->get(), want, "wrong-item");
				if (n)
					n--, tail = (tail + 1) % N;
				look();
			}
		} else if (op == 6) {
			while (k--) {
				b->remove_first();
				if (n)
					n--, tail = (tail + 1) % N;
				look();
			}
		} else if (op == 7 && rng.chance(1, 2)) {
			u32 v = (u32)rng.next();
			b->fill_buffer(v);
			std::fill(slot.begin(), slot.end(), v);
			look();
		} else if (op == 7) {
			auto src = std::make_unique<std::array<u32, N>>();
			for (size_t i = 0; i < N; i++)
				(*src)[i] = slot[i] = (u32)rng.next();
			b->fill_buffer(*src);
			look();
			VF_COVER("large_buffer_filled");
		} else if (n != N) {
			head = rng.below(N);
			b->set_head(head);
			n = (head + N - tail) % N;
			look();
		}
	}
	nontrivial(h);
}
VF_SUITE(large, 400, 20000) {
	switch (rng.chance(1, 80) ? 6 + rng.below(2) : rng.below(6)) {
		case 0:
			return bursts<CircularBuffer<u32, 128>, 128>(rng);
		case 1:
			return bursts<CircularBuffer<u32, 256>, 256>(rng);
		case 2:
			return bursts<CircularBuffer<u32, 1024>, 1024>(rng);
		case 3:
			return bursts<CircularBufferOpt<u32, 128>, 128>(rng);
		case 4:
			return bursts<CircularBufferOpt<u32, 256>, 256>(rng);
		case 5:
			return bursts<CircularBufferOpt<u32, 1024>, 1024>(rng);
		case 6:
			return bursts<CircularBuffer<u32, 131072>, 131072>(rng);
		default:
			return bursts<CircularBufferOpt<u32, 131072>, 131072>(rng);
	}
}

// every put/get/remove_first history up to length 9 on capacities 1, 2, 4, both kinds
template<size_t N>
static void every(u64 code) {
	CircularBuffer<int, N> a;
	CircularBufferOpt<int, N> o;
	int buf[N + 12];
	int n = 0, next = 1;
	for (int i = 0; i < 9; i++, code /= 3) {
		switch (code % 3) {
			case 0:
				a.put(next);
				o.put(next);
				buf[n++] = next++;
				if (n > (int)N) {
					for (int j = 1; j < n; j++)
						buf[j - 1] = buf[j];
					n--;
				}
				break;
			case 1: {
				int want = n ? buf[0] : 0;
				VF_EQ(a.get(), want, "wrong-item");
				VF_EQ(o.get().value_or(0), want, "wrong-item");
				goto drop;
			}
			case 2:
				a.remove_first();
				o.remove_first();
			drop:
				if (n) {
					for (int j = 1; j < n; j++)
						buf[j - 1] = buf[j];
					n--;
				}
				break;
		}
		VF_EQ(a.count(), n, "count");
		VF_EQ(o.count(), n, "count");
		VF_EQ(a.empty(), n == 0, "empty");
		VF_EQ(o.empty(), n == 0, "empty");
		VF_EQ(a.full(), n == (int)N, "full");
		VF_EQ(o.full(), n == (int)N, "full");
		for (int j = 0; j < n; j++)
			VF_EQ(a.peek(j), buf[j], "peek");
	}
}
VF_SUITE(enum_histories, 27, 27) {
	for (u64 c = idx; c < 19683; c += 27) {
		every<1>(c);
		every<2>(c);
		every<4>(c);
		evaluated(3);
		nontrivial(Hash().add(c).add(999));
	}
}
