// C01: SPSC FIFOs across two threads.
#include "vf.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
#include <sched.h>
#include <thread>
using namespace vf;

static thread_local u64 tl_delay = 0x1234567;
static std::atomic<unsigned> g_delay{0}; // 0: none, else 1/g_delay of the copies are slow
static void maybe_delay() {
	unsigned d = g_delay.load(std::memory_order_relaxed);
	if (!d)
		return;
	tl_delay = mix(tl_delay);
	if (tl_delay % d)
		return;
	unsigned k = (tl_delay >> 20) % 64;
	if ((tl_delay >> 32) % 4 == 0)
		sched_yield();
	for (volatile unsigned i = 0; i < k * 8; i = i + 1)
		;
}

// Three redundant words with a delay point between the copies of them: a
// reader which overlaps a writer sees a torn item.
struct Slow {
	u64 a = 0, b = 0, c = 0;
	Slow() = default;
	explicit Slow(u64 x)
		: a{x}
		, b{~x}
		, c{mix(x)} {
	}
	Slow(const Slow &o) {
		*this = o;
	}
	Slow &operator=(const Slow &o) {
		maybe_delay();
		a = o.a;
		maybe_delay();
		b = o.b;
		c = o.c;
		maybe_delay();
		return *this;
	}
};
struct Item {
	template<typename T>
	static T make(u64 x) {
		if constexpr (std::is_integral_v<T>)
			return (T)x;
		else if constexpr (std::is_same_v<T, Slow>)
			return Slow(x);
		else
			return T{(u32)x, (u32)~x, (u32)mix(x)};
	}
	// 0: the default value; ~0: torn
	static u64 seq(const Slow &s) {
		if (!s.a && !s.b && !s.c)
			return 0;
		return (s.b == ~s.a && s.c == mix(s.a)) ? s.a : ~0ull;
	}
	static u64 seq(u32 x) {
		return x;
	}
	static u64 seq(u64 x) {
		return x;
	}
	static u64 seq(const std::vector<u32> &v) {
		if (v.empty())
			return 0;
		return (v.size() == 3 && v[1] == ~v[0] && v[2] == (u32)mix(v[0])) ? v[0] : ~0ull;
	}
};

struct Problem {
	std::atomic<int> n{0};
	std::string key, msg;
	std::mutex mu;
	void set(const char *k, std::string m) {
		std::lock_guard l(mu);
		if (n++ == 0) {
			key = k;
			msg = m;
		}
	}
};

static void pause_for(Rng &r, int style) {
	switch (style) {
		case 0:
			break;
		case 1:
			if (r.chance(1, 16))
				sched_yield();
			break;
		case 2:
			if (r.chance(1, 8)) {
				unsigned k = r.below(400);
				for (volatile unsigned i = 0; i < k; i = i + 1)
					;
			}
			break;
		default:
			if (r.chance(1, 400))
				std::this_thread::sleep_for(std::chrono::microseconds(r.below(120)));
			break;
	}
}

template<typename T, typename Fifo>
static void stress(Fifo &f, size_t cap, Rng &rng, u64 items, u64 already, bool wraps = false) {
	// `already` default items are in the queue (constructed with an offset)
	Problem prob;
	std::atomic<bool> done{false};
	std::vector<u64> sent, got;
	sent.reserve(items);
	got.reserve(items);
	u64 saw_full = 0, saw_empty = 0, batch_p = 0, batch_c = 0, occ = 0;
	Hash inter;
	int ps = rng.below(4), cs = rng.below(4);
	u64 s1 = rng.next(), s2 = rng.next();
	unsigned pmask = 1 + rng.below(7), cmask = 1 + rng.below(63);
	bool jumps = rng.chance(1, 3) && !wraps; // the consumer also resets and re-synchronises
	u64 resets = 0, resyncs = 0;
	std::atomic<int> go{0};

	std::thread prod([&] {
		Rng r(s1);
		tl_delay = s1;
		go++;
		while (go < 2)
			sched_yield();
		u64 seq = 1;
		while (seq <= items && !prob.n.load(std::memory_order_relaxed)) {
			pause_for(r, ps);
			unsigned op = r.below(3);
			if (!(pmask & (1u << op)))
				op = 0;
			if (op == 0) {
				if (f.put(Item::make<T>(seq)))
					sent.push_back(seq++);
				else {
					saw_full++;
					sched_yield();
				}
			} else if (op == 1) {
				size_t n = f.num_free();
				if (n > cap) {
					prob.set("free-exceeds-capacity", fmt("num_free()=%zu of %zu", n, cap));
					break;
				}
				size_t k = r.chance(1, 2) ? n : r.below(n + 1);
				for (size_t i = 0; i < k && seq <= items; i++) {
					if (!f.put(Item::make<T>(seq))) {
						prob.set("promised-put-refused", fmt("num_free()=%zu but put %zu was refused", n, i));
						break;
					}
					sent.push_back(seq++);
					batch_p++;
				}
			} else {
				if (!f.full()) {
					if (!f.put(Item::make<T>(seq)))
						prob.set("promised-put-refused", "full() was false but put was refused");
					else
						sent.push_back(seq++);
				} else {
					saw_full++;
					sched_yield();
				}
			}
		}
		done = true;
	});

	std::thread cons([&] {
		Rng r(s2);
		tl_delay = s2;
		go++;
		while (go < 2)
			sched_yield();
		u64 left_default = already;
		u64 misses_after_done = 0;
		u64 at_least = 0; // after a jump: items dropped for certain
		bool jumped = false;
		auto take = [&](const T &t) {
			u64 q = Item::seq(t);
			if (left_default) {
				left_default--;
				if (q != 0)
					prob.set("offset-content", fmt("initial slot held %llu", (unsigned long long)q));
				return;
			}
			if (q == ~0ull)
				prob.set("torn-item", fmt("item %zu is torn", got.size()));
			if (jumped) {
				if (q <= got.size() + at_least || q > items)
					prob.set("jump",
							 fmt("received %llu after dropping at least %llu items behind %zu",
								 (unsigned long long)q,
								 (unsigned long long)at_least,
								 got.size()));
				else
					while (got.size() + 1 < q)
						got.push_back(got.size() + 1); // dropped
				jumped = false, at_least = 0;
			}
			got.push_back(q);
			if (q != got.size())
				prob.set("order", fmt("received %llu as item number %zu", (unsigned long long)q, got.size()));
		};
		while (!prob.n.load(std::memory_order_relaxed)) {
			pause_for(r, cs);
			unsigned op = r.below(6);
			if (!(cmask & (1u << op)))
				op = 0;
			if (jumps && !left_default && r.chance(1, 24)) {
				size_t n = f.num_filled();
				size_t k = r.chance(1, 3) ? 0 : r.below(n + 1);
				if (k == 0 && r.chance(2, 3)) {
					f.reset();
					resets++;
				} else {
					f.set_read_offset(k);
					resyncs++;
					size_t now = f.num_filled();
					if (now < k || now > cap)
						prob.set("offset", fmt("set_read_offset(%zu), then num_filled() is %zu of %zu", k, now, cap));
				}
				at_least += n - k;
				jumped = true;
			}
			bool was_done = done.load();
			bool missed = false;
			if (op == 0) {
				auto x = f.get();
				if (x)
					take(*x);
				else
					missed = true;
			} else if (op == 1) {
				T x{};
				if (f.get_move(x))
					take(x);
				else
					missed = true;
			} else if (op == 2 && !left_default) {
				T x = f.get_or_default();
				u64 q = Item::seq(x);
				if (q == 0)
					missed = true;
				else
					take(x);
			} else if (op == 3 && !left_default && !jumped) {
				if (!f.empty()) {
					f.remove_first();
					got.push_back(got.size() + 1); // dropped by the consumer on purpose
				} else
					missed = true;
			} else if (op == 4) {
				size_t n = f.num_filled();
				occ += n;
				inter.add(n);
				if (n > cap) {
					prob.set("filled-exceeds-capacity", fmt("num_filled()=%zu of %zu", n, cap));
					break;
				}
				size_t k = r.chance(1, 2) ? n : r.below(n + 1);
				for (size_t i = 0; i < k; i++) {
					auto x = f.get();
					if (!x) {
						prob.set("promised-get-refused", fmt("num_filled()=%zu but get %zu found nothing", n, i));
						break;
					}
					take(*x);
					batch_c++;
				}
				missed = n == 0;
			} else {
				if (!f.empty()) {
					auto x = f.get();
					if (!x)
						prob.set("promised-get-refused", "empty() was false but get found nothing");
					else
						take(*x);
				} else
					missed = true;
			}
			if (missed) {
				saw_empty++;
				inter.add(got.size());
				if (was_done && ++misses_after_done > 4)
					break; // producer finished before this empty answer: queue really is empty
				if (!was_done)
					sched_yield();
			}
		}
	});
	prod.join();
	cons.join();
	g_delay = 0;
	if (prob.n)
		fail(prob.key.c_str(), prob.msg + fmt(" (capacity %zu, %zu sent, %zu received)", cap, sent.size(), got.size()));
	if (jumps) {
		// what a last reset or jump dropped is only known to have been put before it
		VF_CHECK(got.size() <= sent.size(), "duplicated", "%zu accepted, %zu delivered", sent.size(), got.size());
		VF_COVERN("resets_by_consumer", resets);
		VF_COVERN("resyncs_by_consumer", resyncs);
	} else {
		VF_CHECK(got.size() == sent.size(), "lost-or-duplicated", "%zu accepted, %zu delivered", sent.size(), got.size());
	}
	VF_CHECK(f.empty() && !f.get() && f.num_free() == cap, "not-drained", "queue not empty after the drain");
	VF_COVERN("items_through_queue", sent.size());
	VF_COVERN("put_refused_full", saw_full);
	VF_COVERN("get_refused_empty", saw_empty);
	VF_COVERN("batched_puts", batch_p);
	VF_COVERN("batched_gets", batch_c);
	if (saw_full && saw_empty)
		VF_COVER("cases_with_both_full_and_empty");
	if (saw_full || saw_empty)
		nontrivial(inter.add(saw_full).add(saw_empty).add(cap));
	if (want_sample())
		sample(fmt("capacity %zu: %zu items, %llu refused puts, %llu refused gets",
				   cap,
				   sent.size(),
				   (unsigned long long)saw_full,
				   (unsigned long long)saw_empty));
}

template<typename T, size_t N>
static void fixed_case(Rng &rng, u64 items) {
	g_delay = rng.pick({0u, 0u, 2u, 8u, 64u});
	size_t off = rng.chance(1, 4) ? rng.below(N + 1) : 0;
	auto f = std::make_unique<LockFreeFifoSpsc<T, N>>(off);
	bool wraps = false;
	if (rng.chance(1, 8) && !off) { // close to the wrap of the index type
		size_t p = (size_t)0 - 1 - rng.below(items);
		f->set_write_pos(p);
		f->set_read_pos(p);
		wraps = true;
		VF_COVER("index_wrap_cases");
	}
	stress<T>(*f, N, rng, items, off, wraps);
}

template<typename T>
static void fixed_size(Rng &rng, u64 items) {
	switch (rng.below(6)) {
		case 0:
			return fixed_case<T, 1>(rng, items);
		case 1:
			return fixed_case<T, 2>(rng, items);
		case 2:
			return fixed_case<T, 4>(rng, items);
		case 3:
			return fixed_case<T, 16>(rng, items);
		case 4:
			return fixed_case<T, 64>(rng, items);
		default:
			return fixed_case<T, 512>(rng, items);
	}
}

#ifdef VF_CFG_TSAN
static constexpr u64 Items = 600;
#else
static constexpr u64 Items = 1500;
#endif

VF_SUITE(mt_fixed, 400, 20000) {
	u64 items = Items / 2 + rng.below(Items);
	switch (rng.below(4)) {
		case 0:
			return fixed_size<u32>(rng, items);
		case 1:
			return fixed_size<u64>(rng, items);
		case 2:
			return fixed_size<Slow>(rng, items);
		default:
			return fixed_size<std::vector<u32>>(rng, items);
	}
}

template<typename T>
static void dyn_case(Rng &rng, u64 items) {
	g_delay = rng.pick({0u, 0u, 2u, 8u, 64u});
	size_t n = rng.chance(1, 2) ? 1 + rng.below(9) : 1 + rng.below(700);
	size_t off = rng.chance(1, 4) ? rng.below(n + 1) : 0;
	LockFreeFifoSpscDyn<T> f(n, off);
	if (!off && rng.chance(1, 4)) {
		n = 1 + rng.below(40);
		f.resize(n); // before the threads start
		VF_COVER("resized_cases");
	}
	stress<T>(f, n, rng, items, off);
}

VF_SUITE(mt_dyn, 400, 20000) {
	u64 items = Items / 2 + rng.below(Items);
	switch (rng.below(4)) {
		case 0:
			return dyn_case<u32>(rng, items);
		case 1:
			return dyn_case<u64>(rng, items);
		case 2:
			return dyn_case<Slow>(rng, items);
		default:
			return dyn_case<std::vector<u32>>(rng, items);
	}
}
