// C02: single-threaded accounting of the SPSC FIFOs against a positional model.
#include "vf.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
using namespace vf;

struct Wide {
	i64 a = 0;
	u32 b = 0;
	u8 c = 0;
	Wide() = default;
	Wide(i64 x)
		: a{x}
		, b((u32)x * 3)
		, c((u8)x) {
	}
};
static i64 val(u8 x) {
	return x;
}
static i64 val(u32 x) {
	return x;
}
static i64 val(const Wide &w) {
	return w.b == (u32)w.a * 3 && w.c == (u8)w.a ? w.a : -12345;
}
static i64 val(const Live &l) {
	return l.get();
}
template<typename T>
static i64 clip(i64 x) {
	if constexpr (std::is_integral_v<T>)
		return (i64)(T)x;
	return x;
}
constexpr i64 Unknown = -1000000;

template<typename T, typename F>
struct Sys {
	F &f;
	size_t cap;
	std::vector<i64> slot; // what a read at that position returns
	size_t head = 0, tail = 0;
	i64 next = 1;
	bool modulo;
	Hash h;

	size_t at(size_t p) {
		return p % cap;
	}
	void check(i64 got, i64 want) {
		if (want != Unknown)
			VF_CHECK(got == want, "wrong-item", "got %lld, model says %lld", (long long)got, (long long)want);
	}
	void observe() {
		VF_EQ(f.num_filled(), head - tail, "num_filled");
		VF_EQ(f.num_free(), cap - (head - tail), "num_free");
		VF_EQ(f.empty(), head == tail, "empty");
		VF_EQ(f.full(), head - tail == cap, "full");
		VF_EQ(f.max_size(), cap, "max_size");
	}
	unsigned phase = 0; // 1: mostly filling, 2: mostly draining
	void step(Rng &rng, bool jumps) {
		if (rng.chance(1, 20))
			phase = rng.below(3);
		unsigned op = phase && rng.chance(2, 3) ? (phase == 1 ? 0 : 4 + rng.below(5)) : rng.below(jumps ? 14 : 9);
		h.add(op);
		switch (op) {
			case 0:
			case 1:
			case 2:
			case 3: {
				bool want = head - tail != cap;
				i64 v = clip<T>(next);
				VF_LOG("put %lld", (long long)v);
				bool ok = f.put(T(v));
				VF_EQ(ok, want, "put-result");
				if (want) {
					slot[at(head)] = v;
					head++;
					next++;
				} else
					VF_COVER("put_refused");
				break;
			}
			case 4:
			case 5: {
				VF_LOG("get");
				auto x = f.get();
				VF_EQ(x.has_value(), head != tail, "get-result");
				if (x) {
					check(val(*x), slot[at(tail)]);
					tail++;
				} else
					VF_COVER("get_empty");
				break;
			}
			case 6: {
				VF_LOG("get_move");
				T t(clip<T>(77));
				bool ok = f.get_move(t);
				VF_EQ(ok, head != tail, "get_move-result");
				if (ok) {
					check(val(t), slot[at(tail)]);
					slot[at(tail)] = Unknown; // moved from
					tail++;
				} else
					VF_EQ(val(t), clip<T>(77), "get_move-touched-on-empty");
				break;
			}
			case 7: {
				VF_LOG("get_or_default");
				T t = f.get_or_default();
				if (head != tail) {
					check(val(t), slot[at(tail)]);
					tail++;
				} else
					VF_EQ(val(t), val(T{}), "default-on-empty");
				break;
			}
			case 8:
				VF_LOG("remove_first");
				f.remove_first();
				if (head != tail)
					tail++;
				break;
			case 9: {
				size_t k = rng.below(cap + 1);
				VF_LOG("set_read_offset %zu", k);
				f.set_read_offset(k);
				if (k <= head) {
					tail = head - k;
					VF_COVER("read_offset_applied");
				} else
					VF_COVER("read_offset_refused");
				break;
			}
			case 10: {
				tail = head - rng.below(cap + 1);
				VF_LOG("set_read_pos %zu", tail);
				f.set_read_pos(tail);
				break;
			}
			case 11: {
				head = tail + rng.below(cap + 1);
				VF_LOG("set_write_pos %zu", head);
				f.set_write_pos(head);
				break;
			}
			case 12:
				VF_LOG("reset");
				f.reset();
				tail = head;
				break;
			case 13: {
				if (!rng.chance(1, 6))
					break;
				bool pow2 = (cap & (cap - 1)) == 0;
				size_t p = pow2 ? (size_t)0 - rng.below(2 * cap + 3) : rng.below(1000000);
				VF_LOG("both positions to %zu", p);
				f.set_write_pos(p);
				f.set_read_pos(p);
				head = tail = p;
				if (pow2)
					VF_COVER("index_wrap_started");
				break;
			}
		}
		observe();
	}
};

template<typename T, size_t N>
static void fixed_case(Rng &rng) {
	i64 live0 = Live::live;
	{
		std::unique_ptr<LockFreeFifoSpsc<T, N>> f;
		std::vector<i64> slots(N, val(T{}));
		size_t head = 0;
		unsigned how = rng.below(3);
		if (how == 0)
			f = std::make_unique<LockFreeFifoSpsc<T, N>>();
		else if (how == 1) {
			head = rng.below(N + 1);
			f = std::make_unique<LockFreeFifoSpsc<T, N>>(head);
		} else {
			if constexpr (std::is_trivially_copyable_v<T>) {
				// exact-size heap source
				std::vector<T> src;
				for (size_t i = 0; i < N; i++) {
					slots[i] = clip<T>(100 + rng.below(100));
					src.push_back(T(slots[i]));
				}
				src.shrink_to_fit();
				f = std::make_unique<LockFreeFifoSpsc<T, N>>(std::span<T, N>(src.data(), N));
				VF_COVER("span_constructed");
			} else
				f = std::make_unique<LockFreeFifoSpsc<T, N>>();
		}
		VF_LOG("capacity %zu, constructed kind %u head %zu", N, how, head);
		Sys<T, LockFreeFifoSpsc<T, N>> s{*f, N, slots, head};
		s.observe();
		if (how == 2) { // expose the initial content
			f->set_write_pos(N);
			s.head = N;
			s.observe();
			if (rng.chance(1, 2))
				for (size_t i = 0; i < N; i++) {
					auto x = f->get();
					VF_CHECK(x.has_value(), "span-content", "nothing at %zu", i);
					VF_EQ(val(*x), slots[i], "span-content");
					s.tail++;
				}
		}
		bool jumps = rng.chance(1, 2);
		unsigned n = run_length(rng, 5 + rng.below(120));
		jumps = jumps && !in_long_history();
		for (unsigned i = 0; i < n; i++)
			s.step(rng, jumps);
		nontrivial(s.h.add(N).add(sizeof(T)).add(how));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}

template<typename T>
static void fixed_all(Rng &rng) {
	switch (rng.below(5)) {
		case 0:
			return fixed_case<T, 1>(rng);
		case 1:
			return fixed_case<T, 2>(rng);
		case 2:
			return fixed_case<T, 4>(rng);
		case 3:
			return fixed_case<T, 8>(rng);
		default:
			return fixed_case<T, 32>(rng);
	}
}
VF_SUITE(fixed, 12000, 600000) {
	switch (rng.below(4)) {
		case 0:
			return fixed_all<u8>(rng);
		case 1:
			return fixed_all<u32>(rng);
		case 2:
			return fixed_all<Wide>(rng);
		default:
			return fixed_all<Live>(rng);
	}
}

template<typename T>
static void dyn_case(Rng &rng) {
	i64 live0 = Live::live;
	{
		size_t n = 1 + rng.below(rng.chance(1, 4) ? 70 : 9);
		size_t head = rng.chance(1, 3) ? rng.below(n + 1) : 0;
		std::unique_ptr<LockFreeFifoSpscDyn<T>> f;
		if (head || rng.chance(1, 2))
			f = std::make_unique<LockFreeFifoSpscDyn<T>>(n, head);
		else
			f = std::make_unique<LockFreeFifoSpscDyn<T>>(n);
		VF_LOG("capacity %zu head %zu", n, head);
		Sys<T, LockFreeFifoSpscDyn<T>> s{*f, n, std::vector<i64>(n, val(T{})), head};
		s.observe();
		bool jumps = rng.chance(1, 2);
		unsigned ops = run_length(rng, 5 + rng.below(120));
		jumps = jumps && !in_long_history();
		for (unsigned i = 0; i < ops; i++) {
			if (rng.chance(1, 50) && rarely(rng)) {
				size_t m = rng.chance(1, 3) ? s.cap : 1 + rng.below(20);
				VF_LOG("resize %zu", m);
				f->resize(m);
				if (m != s.cap) {
					// empty at the new capacity; what lies in the slots is unspecified
					s.cap = m;
					s.slot.assign(m, Unknown);
					s.tail = s.head = 0;
					VF_EQ(f->num_filled(), 0u, "resize-not-empty");
					VF_EQ(f->num_free(), m, "resize-capacity");
					VF_CHECK(!f->get(), "resize-not-empty", "item after resize");
					f->set_write_pos(0);
					f->set_read_pos(0);
					VF_COVER("resized");
				} else
					VF_COVER("resized_to_same");
				s.observe();
			}
			s.step(rng, jumps);
		}
		nontrivial(s.h.add(n).add(sizeof(T)));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
VF_SUITE(dyn, 12000, 600000) {
	switch (rng.below(4)) {
		case 0:
			return dyn_case<u8>(rng);
		case 1:
			return dyn_case<u32>(rng);
		case 2:
			return dyn_case<Wide>(rng);
		default:
			return dyn_case<Live>(rng);
	}
}
// resize in the middle of a history, without touching the positions afterwards
VF_SUITE(dyn_resize, 3000, 100000) {
	size_t n = 1 + rng.below(12);
	LockFreeFifoSpscDyn<u32> f(n);
	std::vector<u32> q;
	u32 next = 1;
	Hash h;
	for (unsigned i = 0; i < 150; i++) {
		unsigned op = rng.below(12);
		h.add(op);
		if (op == 0) {
			size_t m = 1 + rng.below(12);
			VF_LOG("resize %zu", m);
			f.resize(m);
			if (m != n)
				q.clear();
			n = m;
		} else if (op < 7) {
			VF_LOG("put");
			bool ok = f.put(next);
			VF_EQ(ok, q.size() < n, "put-after-resize");
			if (ok)
				q.push_back(next++);
		} else {
			VF_LOG("get");
			auto x = f.get();
			VF_EQ(x.has_value(), !q.empty(), "get-after-resize");
			if (x) {
				VF_EQ(*x, q.front(), "item-after-resize");
				q.erase(q.begin());
			}
		}
		VF_EQ(f.num_filled(), q.size(), "filled-after-resize");
		VF_EQ(f.num_free(), n - q.size(), "free-after-resize");
		VF_EQ(f.max_size(), n, "max-after-resize");
	}
	nontrivial(h);
}
// Capacities beyond what fits one and two bytes: whole bursts in, whole bursts out, every count after every step.
template<typename F>
static void bursts(Rng &rng, F &f, size_t cap, size_t head) {
	std::vector<u32> slot(cap, 0);
	size_t w = head, r = 0;
	bool pow2 = (cap & (cap - 1)) == 0;
	Hash h;
	h.add(cap).add(head);
	auto look = [&] {
		VF_EQ(f.num_filled(), w - r, "num_filled");
		VF_EQ(f.num_free(), cap - (w - r), "num_free");
		VF_EQ(f.empty(), w == r, "empty");
		VF_EQ(f.full(), w - r == cap, "full");
	};
	VF_EQ(f.max_size(), cap, "max_size");
	look();
	for (unsigned i = 0, len = 5 + rng.below(8); i < len; i++) {
		unsigned op = rng.below(8);
		size_t k = rng.chance(1, 3) ? cap + rng.below(3) : 1 + rng.below(cap);
		h.add(op).add(k);
		VF_LOG("burst %u of %zu, capacity %zu, filled %zu", op, k, cap, w - r);
		if (op < 3) {
			for (size_t j = 0; j < k; j++) {
				u32 v = (u32)rng.next();
				bool want = w - r < cap;
				VF_EQ(f.put(v), want, "put-result");
				if (want)
					slot[w++ % cap] = v;
				look();
			}
			if (w - r == cap)
				VF_COVER("large_queue_filled");
		} else if (op < 6) {
			for (size_t j = 0; j < k; j++) {
				u32 want = w != r ? slot[r % cap] : 0, got = 0;
				bool has = w != r;
				switch (op == 5 ? 3 : rng.below(3)) {
					case 0: {
						auto x = f.get();
						VF_EQ(x.has_value(), has, "get-result");
						got = x.value_or(0);
						break;
					}
					case 1:
						VF_EQ(f.get_move(got), has, "get_move-result");
						break;
					case 2:
						got = f.get_or_default();
						break;
					default:
						f.remove_first();
						got = want;
				}
				VF_EQ(got, want, "wrong-item");
				r += has;
				look();
			}
		} else if (op == 6) {
			k = std::min(k, cap);
			f.set_read_offset(k);
			if (k <= w)
				r = w - k;
			look();
			VF_COVER("large_read_offset");
		} else {
			size_t p = pow2 ? (size_t)0 - rng.below(2 * cap + 3) : rng.below(10000000);
			f.set_write_pos(p);
			f.set_read_pos(p);
			w = r = p;
			look();
			if (cap > 65536)
				VF_COVER("capacity_beyond_a_short");
		}
	}
	nontrivial(h);
}
VF_SUITE(large, 500, 20000) {
	if (rng.chance(1, 50)) {
		if (rng.chance(1, 2)) {
			size_t head = rng.below(131073);
			auto f = std::make_unique<LockFreeFifoSpsc<u32, 131072>>(head);
			return bursts(rng, *f, 131072, head);
		}
		size_t cap = 65500 + rng.below(5000), head = rng.below(cap + 1);
		LockFreeFifoSpscDyn<u32> f(cap, head);
		return bursts(rng, f, cap, head);
	}
	switch (rng.below(3)) {
		case 0: {
			size_t head = rng.below(257);
			auto f = std::make_unique<LockFreeFifoSpsc<u32, 256>>(head);
			return bursts(rng, *f, 256, head);
		}
		case 1: {
			size_t head = rng.below(1025);
			auto f = std::make_unique<LockFreeFifoSpsc<u32, 1024>>(head);
			return bursts(rng, *f, 1024, head);
		}
		default: {
			size_t cap = 250 + rng.below(900), head = rng.below(cap + 1);
			LockFreeFifoSpscDyn<u32> f(1 + rng.below(600));
			f.resize(cap);
			head = 0;
			return bursts(rng, f, cap, head);
		}
	}
}
#include <malloc.h>
extern "C" size_t __sanitizer_get_current_allocated_bytes() __attribute__((weak));
static size_t heap_bytes() {
	if (__sanitizer_get_current_allocated_bytes)
		return __sanitizer_get_current_allocated_bytes();
	auto m = mallinfo2();
	return m.uordblks + m.hblkhd;
}
// a queue resized to a smaller capacity gives the memory of the larger one back
VF_SUITE(dyn_shrink, 600, 20000) {
	size_t big = 4096 + rng.below(20000), now = big;
	size_t before = heap_bytes();
	LockFreeFifoSpscDyn<u64> f(big);
	Hash h;
	h.add(big);
	for (unsigned i = 0, n = 1 + rng.below(3); i < n; i++) {
		size_t small = 1 + rng.below(now / 8 + 1);
		for (unsigned k = rng.below(4); k--;)
			f.put(k);
		VF_LOG("resize %zu to %zu", now, small);
		f.resize(small);
		size_t held = heap_bytes() - before;
		VF_CHECK(held < now * sizeof(u64) / 2, "memory-kept", "%zu bytes held for %zu elements after %zu", held, small, now);
		h.add(small);
		VF_COVER("shrunk_queues_measured");
		now = 4096 + rng.below(20000);
		f.resize(now);
	}
	nontrivial(h);
}
// all histories of put/get up to a length, on small capacities
template<size_t N>
static void all_hist(u64 code, unsigned len) {
	LockFreeFifoSpsc<u32, N> f;
	LockFreeFifoSpscDyn<u32> d(N);
	u64 w = 0, r = 0;
	for (unsigned i = 0; i < len; i++, code >>= 1) {
		if (code & 1) {
			bool want = w - r < N;
			VF_EQ(f.put((u32)w + 1), want, "put-result");
			VF_EQ(d.put((u32)w + 1), want, "put-result");
			w += want;
		} else {
			u32 want = r < w ? (u32)++r : 0;
			VF_EQ(f.get_or_default(), want, "wrong-item");
			VF_EQ(d.get_or_default(), want, "wrong-item");
		}
		VF_EQ(f.num_filled(), w - r, "num_filled");
		VF_EQ(d.num_filled(), w - r, "num_filled");
		VF_EQ(f.full(), w - r == N, "full");
		VF_EQ(d.full(), w - r == N, "full");
	}
}
VF_SUITE(enum_histories, 64, 64) {
	// every put/get history of length 14, sizes 1, 2, 4
	for (u64 c = idx; c < (1u << 14); c += 64) {
		all_hist<1>(c, 14);
		all_hist<2>(c, 14);
		all_hist<4>(c, 14);
		evaluated(3);
		nontrivial(Hash().add(c).add(1414));
	}
}
