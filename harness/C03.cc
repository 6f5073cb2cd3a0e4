// C03: exclusive slot ownership in ThreadSafePool (threads) and Pool (sequential).
#include "vf.hh"
#include "util/pool.hh"
#include "util/thread_safe_pool.hh"
#include <sched.h>
#include <thread>
using namespace vf;

#ifdef VF_CFG_TSAN
constexpr auto MO = std::memory_order_relaxed; // monitors must not add happens-before edges
constexpr bool Log = false;
#else
constexpr auto MO = std::memory_order_seq_cst;
constexpr bool Log = true;
#endif

struct Payload {
	u64 a = 0, b = 0, c = 0;
};
struct Ev {
	int kind; // 0 create ok, 1 create failed, 2 destroy
	int slot;
	u64 t0, t1;
};

template<size_t N>
static void stress(Rng &rng) {
	auto pool = std::make_unique<cpputil::ThreadSafePool<Payload, N>>();
	unsigned T = 2 + rng.below(5);
	unsigned rounds = 150 + rng.below(500);
	std::vector<std::atomic<int>> owner(N);
	for (auto &o : owner)
		o.store(0);
	std::atomic<u64> clock{1};
	std::atomic<int> nprob{0};
	std::string pkey, pmsg;
	std::mutex mu;
	auto problem = [&](const char *k, std::string m) {
		std::lock_guard l(mu);
		if (nprob++ == 0) {
			pkey = k;
			pmsg = m;
		}
	};
	std::vector<std::vector<Ev>> logs(T);
	std::vector<u64> seeds;
	std::vector<u64> handed(T, 0), fails(T, 0), takeover(T, 0);
	for (unsigned i = 0; i < T; i++)
		seeds.push_back(rng.next());
	int style = rng.below(3);
	unsigned maxhold = 1 + rng.below(3);
	std::atomic<unsigned> go{0};
	std::vector<std::thread> ths;
	for (unsigned t = 0; t < T; t++)
		ths.emplace_back([&, t] {
			Rng r(seeds[t]);
			struct Held {
				size_t i;
				u64 v;
			};
			std::vector<Held> held;
			u64 n = 0;
			auto now = [&]() -> u64 { return Log ? clock.fetch_add(1, MO) : 0; };
			go++;
			while (go < T)
				sched_yield();
			auto verify = [&](const Held &h) {
				Payload &p = (*pool)[h.i];
				if (p.a != h.v || p.b != ~h.v || p.c != mix(h.v))
					problem("slot-content-disturbed", fmt("slot %zu changed while owned", h.i));
				if (!pool->is_used(h.i))
					problem("owned-slot-reported-free", fmt("slot %zu", h.i));
			};
			auto release = [&](Held h) {
				verify(h);
				if (owner[h.i].exchange(0, MO) != (int)t + 1)
					problem("two-owners", fmt("slot %zu changed owner while held", h.i));
				u64 t0 = now();
				bool ok = pool->destroy(h.i);
				u64 t1 = now();
				if (!ok)
					problem("destroy-owned-refused", fmt("destroy(%zu) of an owned slot returned false", h.i));
				if (Log)
					logs[t].push_back({2, (int)h.i, t0, t1});
			};
			for (unsigned k = 0; k < rounds && !nprob.load(std::memory_order_relaxed); k++) {
				if (held.size() < maxhold && (held.empty() || r.chance(1, 2))) {
					u64 t0 = now();
					auto i = pool->create();
					u64 t1 = now();
					if (i) {
						if (*i >= N) {
							problem("index-out-of-range", fmt("create() returned %zu", *i));
							break;
						}
						int prev = owner[*i].exchange((int)t + 1, MO);
						if (prev != 0)
							problem("two-owners", fmt("slot %zu handed to thread %u while thread %d owns it", *i, t + 1, prev));
						if (Log)
							logs[t].push_back({0, (int)*i, t0, t1});
						handed[t]++;
						u64 v = ((u64)(t + 1) << 32) + ++n;
						Payload &p = (*pool)[*i];
						if (p.a && (p.a >> 32) != t + 1)
							takeover[t]++;
						p.a = v;
						if (style == 1 && r.chance(1, 4))
							sched_yield();
						p.b = ~v;
						p.c = mix(v);
						held.push_back({*i, v});
					} else {
						fails[t]++;
						if (Log)
							logs[t].push_back({1, -1, t0, t1});
						if (held.empty())
							sched_yield();
					}
				} else {
					size_t j = r.below(held.size());
					Held h = held[j];
					held.erase(held.begin() + j);
					release(h);
				}
				if (style == 2 && r.chance(1, 8)) {
					unsigned w = r.below(300);
					for (volatile unsigned q = 0; q < w; q = q + 1)
						;
				}
				if (r.chance(1, 16)) {
					if (pool->destroy(N + r.below(3)) || pool->is_used(N + r.below(3)))
						problem("out-of-range-accepted", "destroy/is_used accepted an index beyond the pool");
				}
				for (auto &h : held)
					verify(h);
			}
			while (!held.empty()) {
				Held h = held.back();
				held.pop_back();
				release(h);
			}
		});
	for (auto &th : ths)
		th.join();
	if (nprob)
		fail(pkey.c_str(), pmsg + fmt(" (pool of %zu, %u threads)", N, T));
	u64 h = 0, f = 0, to = 0;
	for (unsigned t = 0; t < T; t++) {
		h += handed[t];
		f += fails[t];
		to += takeover[t];
	}
	// offline: a failed create must have found every slot in use at some time of the call
	if (Log) {
		// possible use of a slot: from the start of a successful create to the end of its destroy
		std::vector<std::vector<std::pair<u64, u64>>> iv(N);
		for (auto &l : logs) {
			std::vector<u64> open(N, 0);
			for (auto &e : l) {
				if (e.kind == 0)
					open[e.slot] = e.t0;
				if (e.kind == 2) {
					iv[e.slot].push_back({open[e.slot], e.t1});
					open[e.slot] = 0;
				}
			}
		}
		u64 checked = 0;
		for (auto &l : logs)
			for (auto &e : l) {
				if (e.kind != 1 || checked > 4000)
					continue;
				checked++;
				for (size_t s = 0; s < N; s++) {
					bool used = false;
					for (auto &[a, b] : iv[s])
						if (a < e.t1 && e.t0 < b) {
							used = true;
							break;
						}
					VF_CHECK(used, "create-failed-with-free-slot", "slot %zu was free during all of a failed create()", s);
				}
			}
		VF_COVERN("failed_creates_checked_against_log", checked);
	}
	for (size_t s = 0; s < N; s++)
		VF_CHECK(!pool->is_used(s), "slot-leaked", "slot %zu still used after all were destroyed", s);
	for (size_t s = 0; s < N; s++)
		VF_CHECK(pool->create() == s, "not-all-free-again", "slot %zu", s);
	VF_CHECK(!pool->create(), "create-beyond-capacity", "create() with every slot in use");
	VF_COVERN("slots_handed_out", h);
	VF_COVERN("create_failed_full", f);
	VF_COVERN("slot_passed_between_threads", to);
	if (to)
		nontrivial(Hash().add(h).add(f).add(to).add(N).add(T));
	if (want_sample())
		sample(fmt("pool of %zu, %u threads: %llu handed out, %llu refused, %llu hand-overs",
				   N,
				   T,
				   (unsigned long long)h,
				   (unsigned long long)f,
				   (unsigned long long)to));
}

VF_SUITE(mt_pool, 250, 15000) {
	switch (rng.below(5)) {
		case 0:
			return stress<1>(rng);
		case 1:
			return stress<2>(rng);
		case 2:
			return stress<3>(rng);
		case 3:
			return stress<5>(rng);
		default:
			return stress<16>(rng);
	}
}

// several threads racing for everything at once: exactly N creates win, each slot once
template<size_t N>
static void race_once(Rng &rng) {
	unsigned T = 2 + rng.below(5);
	cpputil::ThreadSafePool<u64, N> pool;
	std::atomic<unsigned> go{0};
	std::vector<std::vector<size_t>> won(T);
	std::vector<unsigned> destroyed(T, 0);
	std::atomic<unsigned> phase{0};
	std::vector<std::thread> ths;
	for (unsigned t = 0; t < T; t++)
		ths.emplace_back([&, t] {
			go++;
			while (go < T)
				;
			while (auto i = pool.create())
				won[t].push_back(*i);
			phase++;
			while (phase < T)
				sched_yield();
			// everyone tries to destroy everything: each slot is destroyed exactly once
			for (size_t i = 0; i < N + 2; i++)
				destroyed[t] += pool.destroy(i);
		});
	for (auto &t : ths)
		t.join();
	std::vector<unsigned> n(N, 0);
	unsigned total = 0, dtotal = 0;
	for (unsigned t = 0; t < T; t++) {
		dtotal += destroyed[t];
		for (auto i : won[t]) {
			VF_CHECK(i < N, "index-out-of-range", "%zu", i);
			n[i]++;
			total++;
		}
	}
	for (size_t i = 0; i < N; i++)
		VF_CHECK(n[i] == 1, "two-owners", "slot %zu was handed out %u times", i, n[i]);
	VF_EQ(dtotal, N, "destroy-not-exactly-once");
	unsigned winners = 0;
	for (auto &w : won)
		winners += !w.empty();
	if (winners > 1) {
		VF_COVER("races_shared_by_several_winners");
		Hash h;
		for (auto &w : won) {
			h.add(999);
			for (auto i : w)
				h.add(i);
		}
		nontrivial(h);
	}
}
VF_SUITE(mt_race_once, 600, 30000) {
	if (rng.chance(1, 2))
		race_once<4>(rng);
	else
		race_once<40>(rng);
}

// the owner of every slot gives them all back with clear() while other threads wait for a slot: the elements are reset
// before their slots are free, and nothing touches a slot after that
template<size_t N>
static void clear_by_owner(Rng &rng) {
	unsigned T = 1 + rng.below(4); // waiting threads
	unsigned rounds = 20 + rng.below(60);
	auto pool = std::make_unique<cpputil::ThreadSafePool<Payload, N>>();
	for (size_t i = 0; i < N; i++)
		(*pool)[i] = Payload{};
	std::atomic<int> nprob{0};
	std::string pkey, pmsg;
	std::mutex mu;
	auto problem = [&](const char *k, std::string m) {
		std::lock_guard l(mu);
		if (nprob++ == 0) {
			pkey = k;
			pmsg = m;
		}
	};
	std::vector<std::atomic<int>> owner(N);
	for (auto &o : owner)
		o.store(0);
	std::atomic<bool> stop{false};
	std::atomic<unsigned> clears{0};
	std::atomic<u64> taken{0};
	std::vector<u64> seeds;
	for (unsigned i = 0; i < T; i++)
		seeds.push_back(rng.next());
	std::vector<std::thread> ths;
	for (unsigned t = 0; t < T; t++)
		ths.emplace_back([&, t] {
			Rng r(seeds[t]);
			u64 n = 0;
			while (!stop.load(MO)) {
				auto i = pool->create();
				if (!i) {
					if (r.chance(1, 8))
						sched_yield();
					continue;
				}
				if (owner[*i].exchange((int)t + 2, MO) != 0)
					problem("two-owners", fmt("slot %zu", *i));
				Payload &p = (*pool)[*i];
				// every owner resets the element before giving it back, and so does clear()
				if (p.a || p.b || p.c)
					problem("slot-freed-before-reset", fmt("slot %zu still holds its old content (%llu)", *i, (unsigned long long)p.a));
				u64 v = ((u64)(t + 2) << 32) + ++n;
				p.a = v;
				p.b = ~v;
				p.c = mix(v);
				for (unsigned q = 0, e = r.below(6); q < e; q++) {
					if (r.chance(1, 3))
						sched_yield();
					if (p.a != v || p.b != ~v || p.c != mix(v))
						problem("slot-content-disturbed", fmt("slot %zu was reset after it was handed out", *i));
				}
				if (p.a != v || p.b != ~v || p.c != mix(v))
					problem("slot-content-disturbed", fmt("slot %zu was reset after it was handed out", *i));
				if (!pool->is_used(*i))
					problem("owned-slot-reported-free", fmt("slot %zu", *i));
				taken.fetch_add(1, std::memory_order_relaxed);
				p = Payload{};
				if (owner[*i].exchange(0, MO) != (int)t + 2)
					problem("two-owners", fmt("slot %zu changed owner while held", *i));
				if (!pool->destroy(*i))
					problem("destroy-owned-refused", fmt("slot %zu", *i));
				if (r.chance(1, 2))
					sched_yield();
			}
		});
	Rng r(rng.next());
	for (unsigned k = 0; k < rounds && !nprob.load(std::memory_order_relaxed); k++) {
		size_t have = 0;
		while (have < N) { // take every slot
			auto i = pool->create();
			if (!i) {
				sched_yield();
				if (nprob.load(std::memory_order_relaxed))
					break;
				continue;
			}
			if (owner[*i].exchange(1, MO) != 0)
				problem("two-owners", fmt("slot %zu", *i));
			Payload &p = (*pool)[*i];
			p.a = 1 + k;
			p.b = ~p.a;
			p.c = mix(p.a);
			have++;
		}
		if (have < N)
			break;
		for (size_t i = 0; i < N; i++) {
			Payload &p = (*pool)[i];
			if (p.a != 1 + k || p.b != ~p.a || p.c != mix(p.a))
				problem("slot-content-disturbed", fmt("slot %zu changed while owned", i));
			if (owner[i].exchange(0, MO) != 1)
				problem("two-owners", fmt("slot %zu changed owner while held", i));
		}
		pool->clear();
		clears++;
		if (r.chance(1, 2))
			sched_yield();
	}
	stop.store(true, MO);
	for (auto &th : ths)
		th.join();
	if (nprob)
		fail(pkey.c_str(), pmsg + fmt(" (pool of %zu, %u waiting threads)", N, T));
	for (size_t s = 0; s < N; s++)
		VF_CHECK(!pool->is_used(s), "slot-leaked", "slot %zu still used after all were given back", s);
	VF_COVERN("pools_cleared_by_their_owner", clears.load());
	VF_COVERN("slots_taken_around_a_clear", taken.load());
	if (taken)
		nontrivial(Hash().add(N).add(T).add(taken.load()));
}
VF_SUITE(mt_clear, 120, 6000) {
	switch (rng.below(3)) {
		case 0:
			return clear_by_owner<1>(rng);
		case 1:
			return clear_by_owner<4>(rng);
		default:
			return clear_by_owner<48>(rng);
	}
}

static i64 valof(const Live &l) {
	return l.get();
}
static i64 valof(const i64 &l) {
	return l;
}

template<typename T, size_t N>
static void seq_plain(Rng &rng) {
	i64 live0 = Live::live;
	{
		auto pool = std::make_unique<cpputil::Pool<T, N>>();
		T outside(5);
		std::vector<bool> used(N, false);
		std::vector<i64> content(N, valof(T{}));
		std::vector<T *> where(N, nullptr);
		Hash h;
		unsigned ops = N > 60 ? 10 + rng.below(120) : run_length(rng, 10 + rng.below(120), 150000, 500);
		if (N > 100)
			for (size_t i = 0, n = rng.chance(1, 2) ? N - rng.below(5) : rng.below(N); i < n; i++) {
				where[i] = pool->create();
				VF_CHECK(where[i] != nullptr && (i == 0 || where[i] != where[i - 1]), "create-failed-with-free-slot", "%zu of %zu", i, N);
				VF_EQ(valof(*where[i]), valof(T{}), "create-content");
				used[i] = true;
				*where[i] = T(content[i] = 1 + rng.below(1000));
			}
		for (unsigned k = 0; k < ops; k++) {
			unsigned op = rng.below(6);
			h.add(op);
			size_t low = std::find(used.begin(), used.end(), false) - used.begin();
			if (op < 3) {
				bool fresh = op < 2;
				VF_LOG("%s", fresh ? "create" : "create_for_overwrite");
				T *p = fresh ? pool->create() : pool->create_for_overwrite();
				if (low == N) {
					VF_CHECK(p == nullptr, "create-beyond-capacity", "object from a full pool");
					VF_COVER("plain_create_full");
					continue;
				}
				VF_CHECK(p != nullptr, "create-failed-with-free-slot", "%zu free", N - low);
				for (size_t i = 0; i < N; i++)
					VF_CHECK(!(used[i] && where[i] == p), "two-owners", "slot %zu handed out twice", i);
				VF_CHECK(!where[low] || where[low] == p, "not-lowest-slot", "expected slot %zu", low);
				where[low] = p;
				used[low] = true;
				if (fresh)
					content[low] = valof(T{});
				else
					VF_COVER("plain_overwrite");
				VF_EQ(valof(*p), content[low], "create-content");
				if (rng.chance(3, 4)) {
					content[low] = 1 + rng.below(1000);
					*p = T(content[low]);
				}
			} else if (op < 5) {
				size_t i = rng.below(N);
				if (!where[i])
					continue;
				VF_LOG("destroy slot %zu (%s)", i, used[i] ? "used" : "free");
				bool ok = pool->destroy(where[i]);
				VF_EQ(ok, (bool)used[i], "destroy-result");
				used[i] = false;
			} else {
				VF_CHECK(!pool->destroy(&outside), "foreign-destroyed", "foreign object");
				VF_CHECK(!pool->destroy(nullptr), "foreign-destroyed", "nullptr");
			}
			for (size_t i = 0; i < N; i++)
				if (used[i])
					VF_EQ(valof(*where[i]), content[i], "slot-content-disturbed");
		}
		nontrivial(h.add(N));
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
VF_SUITE(seq_plain, 4000, 200000) {
	switch (rng.chance(1, 60) ? 4 : rng.below(4)) {
		case 4:
			VF_COVER("plain_beyond_a_byte");
			return seq_plain<i64, 600>(rng);
		case 0:
			return seq_plain<Live, 1>(rng);
		case 1:
			return seq_plain<Live, 4>(rng);
		case 2:
			return seq_plain<i64, 3>(rng);
		default:
			return seq_plain<i64, 9>(rng);
	}
}

// Indices no pool has, among them those whose low bits look like one it has
static size_t wild_index(Rng &rng, size_t n) {
	if (rng.chance(1, 2))
		return (size_t)-1 - rng.below(3);
	return wild(rng, n);
}
template<typename T, size_t N>
static void seq_ts(Rng &rng) {
	i64 live0 = Live::live;
	{
		// storage with old content: flags must start out clear
		void *mem = ::operator new(sizeof(cpputil::ThreadSafePool<T, N>), std::align_val_t{64});
		memset(mem, rng.pick({0, 0x01, 0xFF, 0x5A}), sizeof(cpputil::ThreadSafePool<T, N>));
		auto *pool = new (mem) cpputil::ThreadSafePool<T, N>();
		VF_EQ(pool->size(), N, "size");
		for (size_t i = 0; i < N; i++)
			(*pool)[i] = T(0);
		std::vector<bool> used(N, false);
		std::vector<i64> content(N, 0);
		Hash h;
		unsigned ops = N > 60 ? 10 + rng.below(120) : run_length(rng, 10 + rng.below(120), 150000, 500);
		if (N > 100)
			for (size_t i = 0, n = rng.chance(1, 2) ? N - rng.below(5) : rng.below(N); i < n; i++) {
				auto c = pool->create();
				VF_EQ(c.has_value(), true, "create-result");
				VF_EQ(*c, i, "not-lowest-slot");
				used[i] = true;
				(*pool)[i] = T(content[i] = 1 + rng.below(1000));
			}
		for (unsigned k = 0; k < ops; k++) {
			unsigned op = rng.below(12);
			h.add(op);
			size_t low = std::find(used.begin(), used.end(), false) - used.begin();
			if (op < 5) {
				VF_LOG("create");
				auto i = pool->create();
				VF_EQ(i.has_value(), low < N, "create-result");
				if (i) {
					VF_EQ(*i, low, "not-lowest-slot");
					used[low] = true;
					content[low] = 1 + rng.below(1000);
					(*pool)[low] = T(content[low]);
				}
			} else if (op < 10) {
				size_t i = rng.below(N + 3);
				if (rng.chance(1, 10))
					i = wild_index(rng, N);
				VF_LOG("destroy %zu", i);
				bool want = i < N && used[i];
				VF_EQ(pool->destroy(i), want, "destroy-result");
				if (want)
					used[i] = false;
			} else if (op == 10 && rng.chance(1, 4) && rarely(rng)) {
				VF_LOG("clear");
				pool->clear();
				used.assign(N, false);
				content.assign(N, valof(T{}));
				for (size_t i = 0; i < N; i++)
					VF_EQ(valof((*pool)[i]), valof(T{}), "clear-content");
				VF_COVER("ts_cleared");
			}
			for (size_t i = 0; i < N + 2; i++)
				VF_EQ(pool->is_used(i), i < N && used[i], "is_used");
			if (size_t i = wild_index(rng, N); true)
				VF_EQ(pool->is_used(i), i < N && used[i], "is_used");
			for (size_t i = 0; i < N; i++)
				if (used[i])
					VF_EQ(valof((*pool)[i]), content[i], "slot-content-disturbed");
		}
		nontrivial(h.add(N).add(7));
		pool->~ThreadSafePool();
		::operator delete(mem, std::align_val_t{64});
	}
	VF_EQ(Live::live, live0, "element-lifetime");
	VF_EQ(Live::errors, 0u, "element-lifetime");
}
VF_SUITE(seq_threadsafe, 4000, 200000) {
	switch (rng.chance(1, 60) ? 4 : rng.below(4)) {
		case 4:
			VF_COVER("ts_beyond_a_byte");
			return seq_ts<i64, 600>(rng);
		case 0:
			return seq_ts<Live, 1>(rng);
		case 1:
			return seq_ts<Live, 5>(rng);
		case 2:
			return seq_ts<i64, 2>(rng);
		default:
			return seq_ts<i64, 70>(rng);
	}
}
