// C38: asking changes nothing.
#include "obs.hh"
#include <sched.h>
#include <sys/mman.h>
#include <thread>
using namespace vf;
using namespace comps;

struct Asked {
	const Kind *k;
	Questions q;
};
static const std::vector<Asked> &askable() {
	static const std::vector<Asked> l = [] {
		std::vector<Asked> v;
		for (auto &k : kinds()) {
			for (auto &[name, q] : questions_list())
				if (name == k.name)
					v.push_back({&k, q});
		}
		return v;
	}();
	return l;
}
static const std::vector<Asked> &const_askable() {
	static const std::vector<Asked> l = [] {
		std::vector<Asked> v;
		for (auto &a : askable())
			if (a.q.by_const)
				v.push_back(a);
		return v;
	}();
	return l;
}

// memory of whole pages for one object
struct Page {
	void *mem;
	size_t size;
	Comp *c = nullptr;
	explicit Page(const Kind &k)
		: size{(k.size + 4095) / 4096 * 4096} {
		mem = mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
		if (mem == MAP_FAILED)
			fail("harness", "no memory");
		memset(mem, 0x5A, k.size);
		c = k.make(mem);
	}
	void read_only(bool ro) {
		mprotect(mem, size, ro ? PROT_READ : PROT_READ | PROT_WRITE);
	}
	~Page() {
		c->~Comp();
		munmap(mem, size);
	}
};

static u64 ask(const Asked &a, Comp &c, u64 seed, bool only_const) {
	Rng r(seed);
	Hash h;
	if (a.q.by_const)
		h.add(a.q.by_const(c.self(), r));
	if (a.q.other && !only_const)
		h.add(a.q.other(c.self(), r));
	return h;
}

// A history is the same with and without questions in it, and a question asked again has the same answer.
VF_SUITE(questions_between, 24000, 800000) {
	auto &a = askable()[idx % askable().size()];
	unsigned n = 10 + rng.below(60);
	u64 seed = rng.next();
	Page x(*a.k), y(*a.k);
	Rng rx(seed), ry(seed);
	unsigned asked = 0, repeated = 0;
	u64 all = 0;
	for (unsigned i = 0; i < n; i++) {
		std::array<std::pair<u64, u64>, 5> told{};
		unsigned m = rng.below(6), known = 0;
		for (unsigned j = 0; j < m; j++) {
			bool again = known && rng.chance(1, 2);
			unsigned which = again ? rng.below(known) : known;
			u64 s = again ? told[which].first : rng.next();
			u64 g = ask(a, *y.c, s, false);
			asked++;
			if (again) {
				repeated++;
				VF_CHECK(g == told[which].second, "answer-changes", "%s: the same question asked again after step %u is answered otherwise",
						 a.k->name, i);
			} else
				told[known++] = {s, g};
			all = mix(all ^ g);
		}
		u64 want = x.c->step(rx), got = y.c->step(ry);
		VF_CHECK(want == got, "asking-has-an-effect", "%s: step %u differs when %u questions were asked since the one before", a.k->name, i, m);
	}
	VF_COVERN("questions_asked", asked);
	VF_COVERN("questions_repeated", repeated);
	VF_COVERN("steps_compared", n);
	Hash h;
	h.add(idx % askable().size()).add(n).add(all);
	nontrivial(h);
	if (want_sample())
		sample(fmt("%s: %u steps with %u questions between as without, %u asked again with the same answer", a.k->name, n, asked, repeated));
}

// The const members write nothing to the object: it lies in memory that cannot be written.
VF_SUITE(in_read_only_memory, 12000, 400000) {
	auto &a = const_askable()[idx % const_askable().size()];
	unsigned n = rng.below(50);
	Page x(*a.k);
	Rng r(rng.next());
	for (unsigned i = 0; i < n; i++)
		(void)x.c->step(r);
	u64 s[4], before[4], after[4];
	for (unsigned j = 0; j < 4; j++)
		before[j] = ask(a, *x.c, s[j] = rng.next(), true);
	x.read_only(true);
	for (unsigned j = 0; j < 4; j++)
		after[j] = ask(a, *x.c, s[j], true);
	x.read_only(false);
	for (unsigned j = 0; j < 4; j++)
		VF_CHECK(before[j] == after[j], "answer-changes", "%s: answer differs in read-only memory after %u steps", a.k->name, n);
	VF_COVERN("questions_in_read_only_memory", 4);
	Hash h;
	h.add(idx % const_askable().size()).add(n).add(before[0]).add(before[3]);
	nontrivial(h);
}

// Any number of threads may ask one object at once.
VF_SUITE(mt_askers, 2400, 80000) {
	auto &a = const_askable()[idx % const_askable().size()];
	unsigned n = rng.below(40), T = 2 + rng.below(3), m = 20 + rng.below(60);
	Page x(*a.k);
	Rng r(rng.next());
	for (unsigned i = 0; i < n; i++)
		(void)x.c->step(r);
	u64 base = rng.next();
	std::vector<std::vector<u64>> got(T, std::vector<u64>(m));
	std::atomic<unsigned> go{0};
	std::vector<std::thread> th;
	for (unsigned t = 0; t < T; t++)
		th.emplace_back([&, t] {
			go.fetch_add(1, std::memory_order_relaxed);
			while (go.load(std::memory_order_relaxed) < T)
				sched_yield();
			for (unsigned i = 0; i < m; i++)
				got[t][i] = ask(a, *x.c, base + (i + t) % m, true);
		});
	for (auto &e : th)
		e.join();
	u64 all = 0;
	for (unsigned i = 0; i < m; i++) {
		u64 want = ask(a, *x.c, base + i, true);
		all = mix(all ^ want);
		for (unsigned t = 0; t < T; t++)
			VF_CHECK(got[t][(i + m - t % m) % m] == want, "concurrent-answer", "%s: a question asked by %u threads at once was answered otherwise",
					 a.k->name, T);
	}
	VF_COVERN("threads_asking", T);
	VF_COVERN("questions_asked_at_once", T * m);
	Hash h;
	h.add(idx % const_askable().size()).add(T).add(n).add(all);
	nontrivial(h);
}

// What is asked, and whether the read-only memory is
VF_SUITE(enum_kinds, 1, 1) {
	const size_t listed = questions_list().size();
	VF_COVERN("kinds_asked", askable().size());
	VF_COVERN("kinds_asked_by_const", const_askable().size());
	VF_CHECK(listed == askable().size(), "harness", "%zu kinds have questions, %zu of them exist", listed, askable().size());
	evaluated(askable().size());
	nontrivial(askable().size());
}
