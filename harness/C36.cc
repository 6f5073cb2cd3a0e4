// C36: lock-free parts finish whatever the other party is stopped in.
#include "vf.hh"
#include "util/filter.hh"
#include "util/filtered_interp_array.hh"
#include "util/lockfree_fifo_spsc.hh"
#include "util/lockfree_fifo_spsc_dyn.hh"
#include "util/thread_safe_pool.hh"
#include <csignal>
#include <ctime>
#include <pthread.h>
#include <sched.h>
#include <thread>
using namespace vf;

// ------------------------------------------------------------------ stopping a thread
// A party stopped inside an operation waits here until it is let go.
struct Gate {
	std::atomic<bool> stopped{false}, release{false};
	std::atomic<bool> in_op{false}, stopped_in_op{false};
	void wait_here() {
		stopped_in_op.store(in_op.load());
		stopped.store(true);
		while (!release.load()) {
			timespec ts{0, 20000};
			nanosleep(&ts, nullptr);
		}
		stopped.store(false);
	}
	void let_go() {
		release.store(true);
		while (stopped.load())
			sched_yield();
		release.store(false);
	}
};
static std::atomic<Gate *> g_gate{nullptr};
static void on_stop(int) {
	int e = errno;
	if (Gate *g = g_gate.load())
		g->wait_here();
	errno = e;
}

// The other party works in a thread of its own, so that it can be given up when it does not come back.  It has its own
// memory use only; a violation leaves it behind, and the process ends right after reporting.
struct Result {
	std::string key, msg;
	void set(const char *k, std::string m) {
		if (key.empty())
			key = k, msg = std::move(m);
	}
};
// Runs fn in a thread.  True when it returned; false when it was still running after using two seconds of processor
// time, or forty seconds of any time, while the party behind the gate was stopped.
template<class F>
static bool finishes(F fn) {
	std::atomic<bool> done{false}, started{false};
	std::atomic<clockid_t> clk{};
	auto *th = new std::thread([&] {
		clockid_t c;
		pthread_getcpuclockid(pthread_self(), &c);
		clk = c;
		started = true;
		fn();
		done = true;
	});
	timespec t0;
	clock_gettime(CLOCK_MONOTONIC, &t0);
	unsigned spins = 0;
	while (!done) {
		if (++spins < 200)
			sched_yield();
		else {
			timespec ts{0, 50000};
			nanosleep(&ts, nullptr);
			timespec now, cpu{};
			clock_gettime(CLOCK_MONOTONIC, &now);
			if (started && !done)
				clock_gettime(clk.load(), &cpu);
			if (!done && (cpu.tv_sec >= 2 || now.tv_sec - t0.tv_sec > 40))
				return false;
		}
	}
	th->join();
	delete th;
	return true;
}
[[noreturn]] static void give_up(const char *key, std::string msg) {
	fail(key, std::move(msg));
}

// ------------------------------------------------------------------ stopped at a copy of an element
struct StopAt {
	Gate *gate = nullptr;
	int countdown = -1;
};
static thread_local StopAt stop_at;
struct Item {
	u64 a = 0, b = 0, c = 0;
	Item() = default;
	Item(u64 v)
		: a{v}
		, b{~v}
		, c{mix(v)} {
	}
	static void hook() {
		if (stop_at.countdown >= 0 && stop_at.countdown-- == 0 && stop_at.gate)
			stop_at.gate->wait_here();
	}
	Item(const Item &o)
		: a{o.a} {
		hook();
		b = o.b;
		c = o.c;
	}
	Item &operator=(const Item &o) {
		a = o.a;
		hook();
		b = o.b;
		c = o.c;
		return *this;
	}
	bool whole() const {
		return b == ~a && c == mix(a);
	}
};

template<class Q>
static void stop_inside_copy(Rng &rng, Q &q, size_t cap, const char *kind) {
	auto *gatep = new Gate; // left behind with the thread when giving up
	Gate &gate = *gatep;
	Result res;
	u64 next_in = 1, next_out = 1;
	// bring the queue to some position and filling
	for (unsigned k = rng.below(3 * cap + 2); k; k--) {
		if (rng.chance(2, 3)) {
			if (q.put(Item{next_in}))
				next_in++;
		} else if (auto i = q.get())
			next_out = i->a + 1;
	}
	unsigned held = next_in - next_out;
	bool stop_producer = rng.chance(1, 2);
	int at = rng.below(3);
	int how = rng.below(3);
	std::atomic<bool> came_back{false};
	bool op_ok = false;
	Item taken{};
	std::thread other([&] {
		stop_at = {&gate, at};
		gate.in_op = true;
		if (stop_producer)
			op_ok = q.put(Item{next_in});
		else if (how == 0) {
			if (auto i = q.get())
				op_ok = true, taken = *i;
		} else if (how == 1)
			op_ok = q.get_move(taken);
		else {
			taken = q.get_or_default();
			op_ok = taken.a != 0;
		}
		gate.in_op = false;
		stop_at = {};
		came_back = true;
	});
	while (!gate.stopped && !came_back)
		sched_yield();
	bool stopped = gate.stopped;
	bool done;
	u64 seen_in = next_in, seen_out = next_out;
	if (stop_producer) {
		done = finishes([&] {
			size_t f = q.num_filled();
			u64 n = 0;
			while (true) {
				bool e = q.empty();
				auto i = q.get();
				if (!i) {
					if (!e)
						res.set("stopped-put-half-visible", fmt("%s of %zu: not empty, yet nothing to get", kind, cap));
					break;
				}
				if (!i->whole())
					res.set("half-written-item", fmt("%s of %zu: item %llu taken while its put was stopped", kind, cap,
													 (unsigned long long)i->a));
				if (i->a != seen_out)
					res.set("wrong-item", fmt("%s of %zu: got %llu, expected %llu", kind, cap, (unsigned long long)i->a,
											  (unsigned long long)seen_out));
				seen_out = i->a + 1;
				n++;
			}
			if (n < f)
				res.set("filled-not-there", fmt("%s of %zu: %zu filled but only %llu to get", kind, cap, f, (unsigned long long)n));
			if (n < held)
				res.set("completed-puts-missing", fmt("%s of %zu: %u items put, only %llu to get", kind, cap, held, (unsigned long long)n));
		});
	} else {
		done = finishes([&] {
			size_t fr = q.num_free();
			u64 n = 0;
			while (q.put(Item{seen_in}))
				seen_in++, n++;
			if (n < fr)
				res.set("free-not-there", fmt("%s of %zu: %zu free but only %llu accepted", kind, cap, fr, (unsigned long long)n));
			if (n < cap - held)
				res.set("free-slots-refused", fmt("%s of %zu holding %u: only %llu accepted", kind, cap, held, (unsigned long long)n));
			if (n > cap - held + (held && !(stopped && at == 0))) // stopped at the first copy, the one out of the slot
				res.set("slot-in-use-overwritten", fmt("%s of %zu holding %u: %llu accepted while a get was stopped", kind, cap, held,
													   (unsigned long long)n));
			if (!q.full())
				res.set("refused-but-not-full", fmt("%s of %zu", kind, cap));
		});
	}
	if (!done) {
		other.detach();
		give_up("waits-for-stopped-party", fmt("%s of %zu holding %u: the %s does not finish while a %s is stopped at its copy %d", kind,
											   cap, held, stop_producer ? "consumer" : "producer", stop_producer ? "put" : "get", at));
	}
	if (stopped)
		gate.let_go();
	other.join();
	delete gatep;
	if (!res.key.empty())
		fail(res.key.c_str(), res.msg);
	if (stop_producer) {
		VF_CHECK(op_ok == (held < cap), "resumed-put-wrong", "%s of %zu holding %u: put returned %d", kind, cap, held, op_ok);
		if (op_ok)
			next_in++;
		next_out = seen_out;
		if (next_out < next_in) {
			auto i = q.get();
			VF_CHECK(i && i->whole() && i->a == next_out, "resumed-put-lost", "%s of %zu: the item of a resumed put is not there", kind, cap);
			next_out++;
		}
		VF_CHECK(!q.get(), "extra-item", "%s of %zu", kind, cap);
	} else {
		VF_CHECK(op_ok == (held > 0), "resumed-get-wrong", "%s of %zu holding %u: get returned %d", kind, cap, held, op_ok);
		if (op_ok) {
			VF_CHECK(taken.whole() && taken.a == next_out, "resumed-get-disturbed", "%s of %zu: resumed get gave %llu, expected %llu",
					 kind, cap, (unsigned long long)taken.a, (unsigned long long)next_out);
			next_out++;
		}
		next_in = seen_in;
		while (auto i = q.get()) {
			VF_CHECK(i->whole() && i->a == next_out, "wrong-item", "%s of %zu: %llu, expected %llu", kind, cap,
					 (unsigned long long)i->a, (unsigned long long)next_out);
			next_out++;
		}
		VF_CHECK(next_out == next_in, "completed-puts-missing", "%s of %zu: %llu items missing", kind, cap,
				 (unsigned long long)(next_in - next_out));
	}
	if (stopped && stop_producer)
		VF_COVER("puts_stopped_at_a_copy");
	if (stopped && !stop_producer)
		VF_COVER("gets_stopped_at_a_copy");
	Hash h;
	h.add(cap).add(held).add(stop_producer).add(at).add(how).add(stopped).add(std::string_view{kind}).add(next_in % 64);
	if (stopped)
		nontrivial(h);
	if (stopped && want_sample())
		sample(fmt("%s of %zu holding %u: %s stopped at its copy %d, other side took %llu / put %llu, then resumed", kind, cap, held,
				   stop_producer ? "put" : "get", at, (unsigned long long)(seen_out - 1), (unsigned long long)(seen_in - 1)));
}
template<size_t N>
static void stop_fixed(Rng &rng) {
	// kept alive on failure: a thread may still be inside
	auto *q = new LockFreeFifoSpsc<Item, N>;
	stop_inside_copy(rng, *q, N, "fixed queue");
	delete q;
}
VF_SUITE(stopped_at_copy, 2500, 200000) {
	switch (idx % 8) {
		case 0:
			return stop_fixed<1>(rng);
		case 1:
			return stop_fixed<2>(rng);
		case 2:
			return stop_fixed<4>(rng);
		case 3:
			return stop_fixed<16>(rng);
		default: {
			size_t cap = 1 + rng.below(12);
			auto *q = new LockFreeFifoSpscDyn<Item>(cap);
			stop_inside_copy(rng, *q, cap, "run-time-sized queue");
			delete q;
		}
	}
}

// ------------------------------------------------------------------ stopped anywhere, by a signal
struct Stopper {
	struct sigaction old {};
	Stopper() {
		struct sigaction sa {};
		sa.sa_handler = on_stop;
		sigemptyset(&sa.sa_mask);
		sa.sa_flags = SA_RESTART;
		sigaction(SIGUSR2, &sa, &old);
	}
	~Stopper() {
		sigaction(SIGUSR2, &old, nullptr);
	}
};

template<class Q>
static void stop_anywhere(Rng &rng, Q &q, size_t cap, const char *kind) {
	Stopper st;
	auto *gate = new Gate; // left behind with the thread when giving up
	Result res;
	bool stop_producer = rng.chance(1, 2);
	u64 seed = rng.next();
	std::atomic<bool> quit{false}, ready{false};
	std::atomic<u64> completed{0}; // operations of the stopped party which returned
	u64 in = 1, out = 1;		   // producer's next, consumer's next
	auto consume_one = [&] {
		auto i = q.get();
		if (!i)
			return false;
		if (!i->whole())
			res.set("half-written-item", fmt("%s of %zu: item %llu", kind, cap, (unsigned long long)i->a));
		if (i->a != out)
			res.set("wrong-item", fmt("%s of %zu: got %llu, expected %llu", kind, cap, (unsigned long long)i->a, (unsigned long long)out));
		out = i->a + 1;
		return true;
	};
	std::thread other([&] {
		Rng r(seed);
		ready = true;
		while (!quit.load(std::memory_order_relaxed)) {
			gate->in_op.store(true, std::memory_order_relaxed);
			if (stop_producer) {
				if (q.put(Item{in})) {
					in++;
					completed.fetch_add(1, std::memory_order_relaxed);
				}
			} else if (consume_one())
				completed.fetch_add(1, std::memory_order_relaxed);
			gate->in_op.store(false, std::memory_order_relaxed);
		}
	});
	while (!ready)
		sched_yield();
	g_gate = gate;
	unsigned rounds = 12;
	u64 inside = 0, mine = 0;
	for (unsigned k = 0; k < rounds && res.key.empty(); k++) {
		// let it run into something to do first
		for (unsigned m = rng.below(2 * cap + 2); m; m--) {
			if (stop_producer)
				mine += consume_one();
			else if (q.put(Item{in}))
				in++, mine++;
		}
		for (volatile unsigned w = rng.below(400); w; w = w - 1)
			;
		pthread_kill(other.native_handle(), SIGUSR2);
		while (!gate->stopped)
			sched_yield();
		inside += gate->stopped_in_op;
		bool done;
		if (stop_producer) {
			u64 had = completed.load();
			done = finishes([&] {
				while (consume_one())
					mine++;
				if (out <= had)
					res.set("completed-puts-missing", fmt("%s of %zu: %llu puts returned, taken up to %llu", kind, cap,
														  (unsigned long long)had, (unsigned long long)(out - 1)));
				if (out > had + 2)
					res.set("item-from-nowhere", fmt("%s of %zu: %llu puts returned, taken up to %llu", kind, cap,
													 (unsigned long long)had, (unsigned long long)(out - 1)));
			});
		} else {
			u64 had = completed.load();
			done = finishes([&] {
				while (q.put(Item{in}))
					in++, mine++;
				u64 held = in - 1 - had; // a get being made may have finished its work
				if (held < cap || held > cap + 1)
					res.set("capacity-wrong-at-stop", fmt("%s of %zu: refuses with %llu held", kind, cap, (unsigned long long)held));
			});
		}
		if (!done) {
			g_gate = nullptr;
			other.detach();
			give_up("waits-for-stopped-party", fmt("%s of %zu: the %s does not finish while the %s is stopped (%s operation)", kind, cap,
												   stop_producer ? "consumer" : "producer", stop_producer ? "producer" : "consumer",
												   gate->stopped_in_op ? "inside an" : "outside any"));
		}
		gate->let_go();
	}
	g_gate = nullptr;
	quit = true;
	other.join();
	delete gate;
	if (!res.key.empty())
		fail(res.key.c_str(), res.msg);
	while (consume_one())
		;
	if (!res.key.empty())
		fail(res.key.c_str(), res.msg);
	VF_CHECK(out == in, "completed-puts-missing", "%s of %zu: %llu items put, %llu taken", kind, cap, (unsigned long long)in,
			 (unsigned long long)out);
	VF_COVERN("stops_by_signal", rounds);
	VF_COVERN("stops_inside_queue_operation", inside);
	Hash h;
	h.add(cap).add(stop_producer).add(inside).add(in).add(mine);
	if (inside)
		nontrivial(h);
}
template<size_t N>
static void anywhere_fixed(Rng &rng) {
	auto *q = new LockFreeFifoSpsc<Item, N>;
	stop_anywhere(rng, *q, N, "fixed queue");
	delete q;
}
VF_SUITE(stopped_anywhere, 200, 6000) {
	switch (idx % 8) {
		case 0:
			return anywhere_fixed<1>(rng);
		case 1:
			return anywhere_fixed<4>(rng);
		case 2:
			return anywhere_fixed<64>(rng);
		default: {
			size_t cap = 1 + rng.below(30);
			auto *q = new LockFreeFifoSpscDyn<Item>(cap);
			stop_anywhere(rng, *q, cap, "run-time-sized queue");
			delete q;
		}
	}
}

// ------------------------------------------------------------------ pool: one user stopped anywhere
template<size_t N>
static void pool_stopped(Rng &rng) {
	Stopper st;
	auto *gate = new Gate;
	auto *pool = new cpputil::ThreadSafePool<u64, N>;
	auto *owner = new std::array<std::atomic<int>, N>{};
	Result res, res2;
	std::atomic<bool> quit{false}, ready{false};
	std::atomic<unsigned> held_by_other{0}; // slots the other party knows it owns
	u64 seed = rng.next();
	auto take = [&, pool, owner](int who, Result &rs) -> std::optional<size_t> {
		auto s = pool->create();
		if (s) {
			if (*s >= N) {
				rs.set("index-out-of-range", fmt("create() returned %zu", *s));
				return std::nullopt;
			}
			if (int p = (*owner)[*s].exchange(who))
				rs.set("two-owners", fmt("slot %zu of %zu given to party %d while party %d owns it", *s, N, who, p));
			(*pool)[*s] = (u64)who << 32 | *s;
		}
		return s;
	};
	auto give = [&, pool, owner](int who, size_t s, Result &rs) {
		if ((*pool)[s] != ((u64)who << 32 | s))
			rs.set("slot-content-disturbed", fmt("slot %zu", s));
		if ((*owner)[s].exchange(0) != who)
			rs.set("two-owners", fmt("slot %zu of %zu changed owner", s, N));
		if (!pool->destroy(s))
			rs.set("destroy-owned-refused", fmt("slot %zu", s));
	};
	unsigned maxheld = rng.below(N);
	std::thread other([&] {
		Rng r(seed);
		std::vector<size_t> mine;
		mine.reserve(N + 1);
		ready = true;
		while (!quit.load(std::memory_order_relaxed)) {
			gate->in_op.store(true, std::memory_order_relaxed);
			if (mine.size() <= maxheld && (mine.empty() || r.chance(1, 2))) {
				if (auto s = take(2, res2))
					mine.push_back(*s);
			} else {
				size_t s = mine.back();
				mine.pop_back();
				give(2, s, res2);
			}
			gate->in_op.store(false, std::memory_order_relaxed);
			held_by_other.store(mine.size());
		}
		for (size_t s : mine)
			give(2, s, res2);
	});
	while (!ready)
		sched_yield();
	g_gate = gate;
	unsigned rounds = 12;
	u64 inside = 0;
	std::vector<size_t> own;
	own.reserve(N + 1);
	u64 sum = 0;
	for (unsigned k = 0; k < rounds && res.key.empty(); k++) {
		for (volatile unsigned w = rng.below(400); w; w = w - 1)
			;
		pthread_kill(other.native_handle(), SIGUSR2);
		while (!gate->stopped)
			sched_yield();
		inside += gate->stopped_in_op;
		unsigned theirs = held_by_other.load();
		bool done = finishes([&] {
			unsigned got = 0;
			while (auto s = take(1, res)) {
				own.push_back(*s);
				if (++got > N)
					break;
			}
			// everything the other does not hold, except perhaps the one slot its stopped operation is about
			if (got + theirs > N + 1)
				res.set("two-owners", fmt("pool of %zu: %u created while the other holds %u", N, got, theirs));
			if (got + theirs + 1 < N)
				res.set("free-slots-refused", fmt("pool of %zu: only %u created while the other holds %u", N, got, theirs));
			sum += got;
			for (size_t s : own)
				give(1, s, res);
			own.clear();
		});
		if (!done) {
			g_gate = nullptr;
			other.detach();
			give_up("waits-for-stopped-party", fmt("pool of %zu: create/destroy do not finish while another user is stopped (%s operation)",
												   N, gate->stopped_in_op ? "inside an" : "outside any"));
		}
		gate->let_go();
	}
	g_gate = nullptr;
	quit = true;
	other.join();
	if (!res.key.empty())
		fail(res.key.c_str(), res.msg);
	if (!res2.key.empty())
		fail(res2.key.c_str(), res2.msg);
	for (size_t i = 0; i < N; i++)
		VF_CHECK(!pool->is_used(i), "slot-left-used", "slot %zu of %zu", i, N);
	delete gate;
	delete pool;
	delete owner;
	VF_COVERN("pool_stops", rounds);
	VF_COVERN("stops_inside_pool_operation", inside);
	Hash h;
	h.add(N).add(inside).add(sum).add(maxheld);
	if (inside)
		nontrivial(h);
}
VF_SUITE(pool_user_stopped, 160, 4000) {
	switch (idx % 4) {
		case 0:
			return pool_stopped<1>(rng);
		case 1:
			return pool_stopped<3>(rng);
		case 2:
			return pool_stopped<8>(rng);
		default:
			return pool_stopped<32>(rng);
	}
}

// ------------------------------------------------------------------ interrupts on the same thread
// The handler is the other party; it must finish inside the interrupted operation.
static void (*volatile g_isr)() = nullptr;
static std::atomic<u64> g_isr_calls{0};
static void on_interrupt(int) {
	int e = errno;
	if (auto f = g_isr)
		f();
	g_isr_calls.fetch_add(1, std::memory_order_relaxed);
	errno = e;
}
struct Interrupts {
	struct sigaction old {};
	std::atomic<bool> quit{false};
	std::thread th;
	u64 before;
	explicit Interrupts(u64 seed) {
		before = g_isr_calls;
		struct sigaction sa {};
		sa.sa_handler = on_interrupt;
		sigemptyset(&sa.sa_mask);
		sa.sa_flags = SA_RESTART;
		sigaction(SIGUSR1, &sa, &old);
		pthread_t me = pthread_self();
		th = std::thread([this, me, seed] {
			Rng r(seed);
			u64 sent = 0;
			while (!quit) {
				// one at a time
				if (g_isr_calls.load(std::memory_order_relaxed) - before >= sent) {
					pthread_kill(me, SIGUSR1);
					sent++;
				}
				for (volatile unsigned w = r.below(300); w; w = w - 1)
					;
			}
		});
	}
	u64 stop() {
		quit = true;
		th.join();
		g_isr = nullptr;
		return g_isr_calls - before;
	}
	~Interrupts() {
		sigaction(SIGUSR1, &old, nullptr);
	}
};

static LockFreeFifoSpsc<Item, 8> *g_q;
static u64 g_isr_in, g_isr_out, g_isr_bad, g_isr_ops, g_main_in_op, g_isr_hit;
VF_SUITE(queue_interrupted, 80, 1600) {
	LockFreeFifoSpsc<Item, 8> q;
	g_q = &q;
	g_isr_in = g_isr_out = 1;
	g_isr_bad = g_isr_ops = g_main_in_op = g_isr_hit = 0;
	bool isr_produces = rng.chance(1, 2);
	u64 bad = 0, mine = 0, n = 1;
	Interrupts irq(rng.next());
	auto volatile &busy = g_main_in_op;
	if (isr_produces)
		g_isr = [] {
			g_isr_hit += g_main_in_op;
			for (int i = 0; i < 3; i++)
				if (g_q->put(Item{g_isr_in}))
					g_isr_in++, g_isr_ops++;
		};
	else
		g_isr = [] {
			g_isr_hit += g_main_in_op;
			for (int i = 0; i < 3; i++)
				if (auto x = g_q->get()) {
					if (!x->whole() || x->a != g_isr_out)
						g_isr_bad++;
					g_isr_out = x->a + 1;
					g_isr_ops++;
				}
		};
	while (g_isr_calls.load(std::memory_order_relaxed) - irq.before < 100) {
		busy = 1;
		if (isr_produces) {
			size_t f = q.num_filled();
			unsigned got = 0;
			while (auto x = q.get()) {
				if (!x->whole() || x->a != n)
					bad++;
				n = x->a + 1;
				mine++;
				if (++got > 40)
					break;
			}
			if (got < f)
				bad += 1000;
		} else {
			size_t f = q.num_free();
			unsigned put = 0;
			while (q.put(Item{n})) {
				n++;
				mine++;
				if (++put > 40)
					break;
			}
			if (put < f)
				bad += 1000;
		}
		busy = 0;
	}
	u64 irqs = irq.stop();
	while (auto x = q.get()) {
		if (!x->whole() || x->a != (isr_produces ? n : g_isr_out))
			bad++;
		(isr_produces ? n : g_isr_out) = x->a + 1;
	}
	VF_CHECK(bad == 0 && g_isr_bad == 0, "wrong-under-interrupts", "%llu + %llu wrong observations, interrupt %s",
			 (unsigned long long)bad, (unsigned long long)g_isr_bad, isr_produces ? "produces" : "consumes");
	u64 in = isr_produces ? g_isr_in : n, out = isr_produces ? n : g_isr_out;
	VF_CHECK(in == out, "completed-puts-missing", "%llu put, %llu taken", (unsigned long long)in, (unsigned long long)out);
	VF_COVERN("interrupts", irqs);
	VF_COVERN("interrupts_inside_queue_operations", g_isr_hit);
	VF_COVERN("items_through_interrupts", in - 1);
	Hash h;
	h.add(isr_produces).add(in).add(mine).add(g_isr_ops).add(g_isr_hit);
	nontrivial(h);
}

static cpputil::ThreadSafePool<u64, 4> *g_pool;
static int g_owner[4];
static u64 g_isr_full;
VF_SUITE(pool_interrupted, 80, 1600) {
	cpputil::ThreadSafePool<u64, 4> pool;
	g_pool = &pool;
	g_isr_bad = g_isr_ops = g_isr_full = g_main_in_op = g_isr_hit = 0;
	for (auto &o : g_owner)
		o = 0;
	u64 bad = 0, n = 0;
	auto volatile &busy = g_main_in_op;
	Interrupts irq(rng.next());
	g_isr = [] {
		g_isr_hit += g_main_in_op;
		size_t got[5];
		unsigned k = 0;
		while (k < 5) {
			auto s = g_pool->create();
			if (!s)
				break;
			if (*s >= 4 || g_owner[*s]) {
				g_isr_bad++;
				break;
			}
			g_owner[*s] = 2;
			(*g_pool)[*s] = 2;
			got[k++] = *s;
		}
		if (k < 2) // the interrupted code holds at most two, or is about to
			g_isr_bad++;
		g_isr_full += k;
		while (k) {
			size_t s = got[--k];
			if ((*g_pool)[s] != 2)
				g_isr_bad++;
			g_owner[s] = 0;
			if (!g_pool->destroy(s))
				g_isr_bad++;
			g_isr_ops++;
		}
	};
	while (g_isr_calls.load(std::memory_order_relaxed) - irq.before < 100) {
		size_t mine[2];
		busy = 1;
		unsigned k = 0;
		for (; k < 2; k++) {
			auto s = pool.create();
			if (!s || *s >= 4) {
				bad++;
				break;
			}
			// an interrupt before this line finds the slot used, not owned: it cannot get it
			const_cast<volatile int &>(g_owner[*s]) = 1;
			const_cast<volatile u64 &>(pool[*s]) = 100 + *s;
			mine[k] = *s;
		}
		while (k) {
			size_t s = mine[--k];
			if (const_cast<volatile u64 &>(pool[s]) != 100 + s || const_cast<volatile int &>(g_owner[s]) != 1)
				bad++;
			const_cast<volatile int &>(g_owner[s]) = 0;
			if (!pool.destroy(s))
				bad++;
			n++;
		}
		busy = 0;
	}
	u64 irqs = irq.stop();
	VF_CHECK(bad == 0 && g_isr_bad == 0, "pool-wrong-under-interrupts", "%llu + %llu wrong observations", (unsigned long long)bad,
			 (unsigned long long)g_isr_bad);
	VF_COVERN("interrupts", irqs);
	VF_COVERN("interrupts_inside_pool_operations", g_isr_hit);
	Hash h;
	h.add(n).add(g_isr_ops).add(g_isr_full).add(g_isr_hit);
	nontrivial(h);
}

// New readings marked from an interrupt
using Filt = FilteredInterpArray<2, NoFilter<float>>;
static Filt *g_f;
static volatile float g_raw[2];
VF_SUITE(mark_interrupted, 80, 1600) {
	Filt f;
	g_f = &f;
	g_raw[0] = g_raw[1] = 0;
	g_isr_hit = g_main_in_op = 0;
	Interrupts irq(rng.next());
	auto volatile &busy = g_main_in_op;
	g_isr = [] {
		g_isr_hit += g_main_in_op;
		g_raw[0] = g_raw[0] + 1;
		g_raw[1] = g_raw[0] * 2;
		g_f->mark_new_data_ready();
	};
	u64 steps = 0, lost = 0;
	float v[2]{}, latest = 0;
	f.set_num_updates(1 + rng.below(20));
	while (g_isr_calls.load(std::memory_order_relaxed) - irq.before < 200) {
		// whatever was marked before the call is read by the end of it
		float marked = g_raw[0];
		std::atomic_signal_fence(std::memory_order_seq_cst);
		busy = 1;
		f.add_new_readings([&](unsigned i) {
			float x = g_raw[i];
			if (i == 0)
				latest = x;
			for (volatile unsigned w = rng.below(30); w; w = w - 1)
				;
			return x;
		});
		lost += latest < marked;
		for (unsigned k = rng.below(4); k; k--)
			f.get_interp_values([&](unsigned i, float x) { v[i] = x; });
		busy = 0;
		steps++;
	}
	u64 irqs = irq.stop();
	VF_CHECK(lost == 0, "mark-lost", "%llu of %llu calls did not take in readings marked before them (%llu interrupts)",
			 (unsigned long long)lost, (unsigned long long)steps, (unsigned long long)irqs);
	// however the last mark fell, the last values are reached
	f.add_new_readings([](unsigned i) { return g_raw[i]; });
	f.set_num_updates(1);
	f.get_interp_values([&](unsigned i, float x) { v[i] = x; });
	VF_CHECK(v[0] == g_raw[0] && v[1] == g_raw[1], "mark-lost", "after %llu interrupts: %f %f, latest readings %f %f",
			 (unsigned long long)irqs, (double)v[0], (double)v[1], (double)g_raw[0], (double)g_raw[1]);
	VF_COVERN("interrupts", irqs);
	VF_COVERN("interrupts_inside_readings", g_isr_hit);
	Hash h;
	h.add(irqs).add(steps).add(g_isr_hit);
	nontrivial(h);
}

// The mark made inside a callback, as an interrupt there would
VF_SUITE(mark_in_callback, 4000, 200000) {
	auto run = [&]<size_t N>(std::integral_constant<size_t, N>) {
		FilteredInterpArray<N, NoFilter<float>> f;
		float raw[N]{}, taken[N]{};
		u64 marks = 0, inside = 0, seq = 0;
		f.set_num_updates(1 + rng.below(6));
		Hash h;
		auto mark = [&] {
			seq++;
			for (unsigned c = 0; c < N; c++)
				raw[c] = seq * 8 + c;
			f.mark_new_data_ready();
			marks++;
		};
		for (unsigned k = 10 + rng.below(30); k; k--) {
			if (rng.chance(1, 3))
				mark();
			float before = raw[0];
			bool mark_here = rng.chance(1, 2);
			unsigned at = rng.below(N);
			bool after = rng.chance(1, 2);
			f.add_new_readings([&](unsigned i) {
				if (mark_here && !after && i == at)
					mark(), inside++, mark_here = false;
				float x = taken[i] = raw[i];
				if (mark_here && after && i == at)
					mark(), inside++, mark_here = false;
				return x;
			});
			VF_CHECK(taken[0] >= before, "mark-lost", "reading %f taken, %f marked before the call", (double)taken[0], (double)before);
			if (rng.chance(1, 2)) {
				bool m = rng.chance(1, 3);
				f.get_interp_values([&](unsigned, float) {
					if (m)
						mark(), inside++, m = false;
				});
			}
			h.add(mark_here).add(at).add(after);
		}
		// nothing marked any more: the last readings are taken and reached
		f.add_new_readings([&](unsigned i) { return taken[i] = raw[i]; });
		f.set_num_updates(1);
		float out[N]{};
		f.get_interp_values([&](unsigned i, float x) { out[i] = x; });
		for (unsigned c = 0; c < N; c++)
			if (marks)
				VF_CHECK(out[c] == raw[c], "mark-lost", "channel %u: %f, latest reading %f after %llu marks", c, (double)out[c],
						 (double)raw[c], (unsigned long long)marks);
		VF_COVERN("marks_inside_callbacks", inside);
		if (inside)
			nontrivial(h.add(marks).add(N));
	};
	switch (idx % 3) {
		case 0:
			return run(std::integral_constant<size_t, 1>{});
		case 1:
			return run(std::integral_constant<size_t, 2>{});
		default:
			return run(std::integral_constant<size_t, 5>{});
	}
}
