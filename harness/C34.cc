// C34: objects are independent values.
#include "comps.hh"
#include <sched.h>
#include <thread>
using namespace vf;
using namespace comps;

// memory for one object, filled with a pattern so that state left over in it shows
struct Slot {
	void *mem;
	Comp *c = nullptr;
	explicit Slot(const Kind &k, int fill)
		: mem{aligned_alloc(64, (k.size + 127) / 64 * 64)} {
		volatile u8 *p = (volatile u8 *)mem;
		for (size_t i = 0; i < k.size; i++)
			p[i] = (u8)(fill < 0 ? mix(i) : fill);
	}
	~Slot() {
		if (c)
			c->~Comp();
		free(mem);
	}
};

static std::vector<u64> solo(const Kind &k, u64 seed, unsigned n, int fill) {
	Slot s(k, fill);
	s.c = k.make(s.mem);
	Rng r(seed);
	std::vector<u64> t(n);
	for (auto &e : t)
		e = s.c->step(r);
	return t;
}
static const Kind &pick(u64 idx) {
	return kinds()[idx % kinds().size()];
}

VF_SUITE(interleaved_objects, 24000, 800000) {
	const Kind &k = pick(idx);
	unsigned n = run_length(rng, 10 + rng.below(60), 70000, 997);
	u64 s1 = rng.next(), s2 = rng.chance(1, 4) ? s1 : rng.next();
	auto want1 = solo(k, s1, n, 0xAA), want2 = solo(k, s2, n, 0);
	Slot a(k, 0x55), b(k, -1);
	Rng r1(s1), r2(s2);
	a.c = k.make(a.mem);
	unsigned i = 0, j = 0, turns = 0;
	int last = -1;
	while (i < n || j < n) {
		bool first = j >= n || (i < n && rng.chance(1, 2));
		turns += last != (int)first;
		last = first;
		if (first) {
			u64 g = a.c->step(r1);
			VF_CHECK(g == want1[i], "disturbed-by-another-object",
					 "%s: step %u of one object differs when another object is used in between", k.name, i);
			i++;
		} else {
			if (!b.c)
				b.c = k.make(b.mem);
			u64 g = b.c->step(r2);
			VF_CHECK(g == want2[j], "disturbed-by-another-object",
					 "%s: step %u of an object differs when another object is used in between", k.name, j);
			j++;
			if (i < n && j == n) { // its end must not matter either
				b.c->~Comp();
				b.c = nullptr;
			}
		}
	}
	VF_COVER("interleaved_pairs");
	VF_COVERN("interleaved_steps", 2 * n);
	VF_COVERN("switches_between_objects", turns);
	if (s1 == s2)
		VF_COVER("same_history_pairs");
	Hash h;
	h.add(idx % kinds().size()).add(turns).add(n).add(s1);
	nontrivial(h);
	if (want_sample())
		sample(fmt("%s: two objects, %u steps each, %u switches, both as alone", k.name, n, turns));
}

VF_SUITE(copies, 24000, 800000) {
	const Kind &k = pick(idx);
	if (!k.values)
		return;
	unsigned n = 10 + rng.below(60), at = rng.below(n);
	u64 seed = rng.next();
	auto want = solo(k, seed, n, 0xAA);
	Slot a(k, 0x33), b(k, 0xCC);
	Rng r(seed);
	a.c = k.make(a.mem);
	for (unsigned i = 0; i < at; i++)
		(void)a.c->step(r);
	bool assigned = rng.chance(1, 2);
	if (assigned) { // over an object with a history of its own
		b.c = k.make(b.mem);
		Rng o(rng.next());
		for (unsigned i = rng.below(20); i; i--)
			(void)b.c->step(o);
		if (!k.assignable) {
			VF_COVER("not_assignable");
			return;
		}
		if (rng.chance(1, 4)) {
			VF_COVER("assigned_to_itself");
			VF_CHECK(k.assign(*a.c, *a.c), "assignment-result", "%s: the result is not the object", k.name);
		}
		VF_CHECK(k.assign(*b.c, *a.c), "assignment-result", "%s: the result is not the object assigned to", k.name);
		VF_COVER("assigned");
	} else {
		b.c = k.copy(b.mem, *a.c);
		VF_COVER("copy_constructed");
	}
	Rng ra = r, rb = r, other(rng.next());
	switch (rng.below(4)) {
		case 0: // copy takes another path, original continues
			for (unsigned i = at; i < n; i++) {
				for (unsigned q = rng.below(3); q; q--)
					(void)b.c->step(other);
				VF_CHECK(a.c->step(ra) == want[i], "copy-disturbs-original", "%s: step %u after a copy was %s", k.name,
						 i, assigned ? "assigned" : "made");
			}
			VF_COVER("original_continued");
			break;
		case 1: // original takes another path, copy continues
			for (unsigned i = at; i < n; i++) {
				for (unsigned q = rng.below(3); q; q--)
					(void)a.c->step(other);
				VF_CHECK(b.c->step(rb) == want[i], "copy-differs", "%s: step %u of a %s copy", k.name, i,
						 assigned ? "assigned" : "constructed");
			}
			VF_COVER("copy_continued");
			break;
		case 2: // original ends
			a.c->~Comp();
			a.c = nullptr;
			memset(a.mem, 0xEE, k.size);
			for (unsigned i = at; i < n; i++)
				VF_CHECK(b.c->step(rb) == want[i], "copy-differs", "%s: step %u of a %s copy, original ended", k.name, i,
						 assigned ? "assigned" : "constructed");
			VF_COVER("copy_outlived");
			break;
		default: // copy ends
			b.c->~Comp();
			b.c = nullptr;
			for (unsigned i = at; i < n; i++)
				VF_CHECK(a.c->step(ra) == want[i], "copy-disturbs-original", "%s: step %u after a copy ended", k.name, i);
			VF_COVER("copy_ended");
	}
	Hash h;
	h.add(idx % kinds().size()).add(at).add(n).add(seed);
	nontrivial(h);
}

// Different objects in different threads
VF_SUITE(mt_objects, 1200, 40000) {
	unsigned T = 2 + rng.below(3);
	const Kind &k = pick(idx);
	unsigned n = 60 + rng.below(200);
	std::vector<u64> seeds(T);
	std::vector<std::vector<u64>> want, got(T, std::vector<u64>(n));
	std::vector<std::unique_ptr<Slot>> slots;
	for (unsigned t = 0; t < T; t++) {
		seeds[t] = rng.next();
		want.push_back(solo(k, seeds[t], n, 0xAA));
		slots.push_back(std::make_unique<Slot>(k, 0x77));
	}
	std::atomic<unsigned> go{0};
	std::vector<std::thread> th;
	for (unsigned t = 0; t < T; t++)
		th.emplace_back([&, t] {
			go.fetch_add(1, std::memory_order_relaxed);
			while (go.load(std::memory_order_relaxed) < T)
				sched_yield();
			Rng r(seeds[t]);
			slots[t]->c = k.make(slots[t]->mem);
			for (unsigned i = 0; i < n; i++)
				got[t][i] = slots[t]->c->step(r);
		});
	for (auto &x : th)
		x.join();
	for (unsigned t = 0; t < T; t++)
		for (unsigned i = 0; i < n; i++)
			VF_CHECK(got[t][i] == want[t][i], "disturbed-by-another-thread",
					 "%s: step %u differs when other threads use objects of their own", k.name, i);
	VF_COVERN("threaded_objects", T);
	VF_COVERN("threaded_steps", T * n);
	Hash h;
	h.add(idx % kinds().size()).add(T).add(n).add(seeds[0]);
	nontrivial(h);
}

// the list itself: every kind takes part
VF_SUITE(enum_kinds, 1, 1) {
	VF_COVERN("kinds_of_object", kinds().size());
	u64 v = 0;
	for (auto &k : kinds())
		v += k.values;
	VF_COVERN("kinds_copied", v);
	VF_CHECK(v > 30, "harness", "only %llu kinds copied", (unsigned long long)v);
	evaluated(kinds().size());
	nontrivial(kinds().size());
}
