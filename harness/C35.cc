// C35: components with storage of their own never use the heap.
#include "comps.hh"
#include <new>
#ifdef VF_CFG_SAN
#include <sanitizer/allocator_interface.h>
#endif
using namespace vf;
using namespace comps;

// Every request of memory while armed is counted.
static thread_local bool armed = false;
static thread_local u64 requests = 0, releases = 0, last_size = 0;
static inline void on_request(size_t n) {
	if (armed)
		requests++, last_size = n;
}
static inline void on_release() {
	if (armed)
		releases++;
}
#ifdef VF_CFG_SAN
static void hook_malloc(const volatile void *, size_t n) {
	on_request(n);
}
static void hook_free(const volatile void *p) {
	if (p)
		on_release();
}
static const int hooked = __sanitizer_install_malloc_and_free_hooks(hook_malloc, hook_free);
#else
extern "C" {
void *__libc_malloc(size_t);
void *__libc_calloc(size_t, size_t);
void *__libc_realloc(void *, size_t);
void *__libc_memalign(size_t, size_t);
void __libc_free(void *);
void *malloc(size_t n) {
	on_request(n);
	return __libc_malloc(n);
}
void *calloc(size_t a, size_t b) {
	on_request(a * b);
	return __libc_calloc(a, b);
}
void *realloc(void *p, size_t n) {
	on_request(n);
	return __libc_realloc(p, n);
}
void *memalign(size_t a, size_t n) {
	on_request(n);
	return __libc_memalign(a, n);
}
void *aligned_alloc(size_t a, size_t n) {
	on_request(n);
	return __libc_memalign(a, n);
}
void free(void *p) {
	if (p)
		on_release();
	__libc_free(p);
}
}
#endif

struct Arm {
	Arm() {
		requests = releases = 0;
		armed = true;
	}
	~Arm() {
		armed = false;
	}
};
static void judge(const Kind &k, const char *what) {
	if (k.heap_free)
		VF_CHECK(requests == 0 && releases == 0, "uses-the-heap", "%s: %llu requests of memory (last %llu bytes), %llu releases while %s",
				 k.name, (unsigned long long)requests, (unsigned long long)last_size, (unsigned long long)releases, what);
	else if (requests)
		VF_COVERN("requests_seen_where_allowed", requests);
}

VF_SUITE(histories, 12000, 600000) {
	const Kind &k = kinds()[idx % kinds().size()];
	unsigned n = run_length(rng, 10 + rng.below(80), 70000, 499);
	Rng ra(rng.next());
	void *ma = aligned_alloc(64, (k.size + 127) / 64 * 64), *mb = aligned_alloc(64, (k.size + 127) / 64 * 64);
	Comp *a, *b = nullptr;
	{
		Arm arm;
		a = k.make(ma);
	}
	judge(k, "constructing");
	unsigned copies = 0;
	for (unsigned i = 0; i < n; i++) {
		{
			Arm arm;
			(void)a->step(ra);
		}
		judge(k, "working");
		if (k.values && rng.chance(1, 8)) {
			{
				Arm arm;
				if (!b)
					b = k.copy(mb, *a);
				else if (rng.chance(1, 2)) {
					b->~Comp();
					b = k.copy(mb, *a);
				} else
					(void)k.assign(*b, *a);
				(void)b->step(ra);
			}
			copies++;
			judge(k, "copying");
		}
	}
	{
		Arm arm;
		a->~Comp();
		if (b)
			b->~Comp();
	}
	judge(k, "ending");
	free(ma);
	free(mb);
	if (k.heap_free) {
		VF_COVERN("steps_without_heap", n);
		VF_COVERN("copies_without_heap", copies);
	}
	Hash h;
	h.add(idx % kinds().size()).add(n).add(copies).add(ra.s);
	nontrivial(h);
	if (want_sample() && k.heap_free)
		sample(fmt("%s: constructed, %u steps, %u copies, destroyed: no request of memory", k.name, n, copies));
}

// The run-time-sized queue has its storage from construction or resize on.
VF_SUITE(dyn_fifo_after_construction, 2000, 60000) {
	size_t cap = 1 + rng.below(20);
	LockFreeFifoSpscDyn<u32> f(cap);
	unsigned n = 20 + rng.below(60);
	u64 h0 = 0;
	for (unsigned i = 0; i < n; i++) {
		{
			Arm arm;
			Hash h;
			fifo_step(f, rng, h);
			h0 ^= h;
		}
		VF_CHECK(requests == 0 && releases == 0, "queue-uses-the-heap", "operation %u on a queue of %zu: %llu requests", i, cap,
				 (unsigned long long)requests);
		if (rng.chance(1, 10)) {
			bool same = rng.chance(1, 2);
			size_t want = same ? cap : 1 + rng.below(20);
			{
				Arm arm;
				f.resize(want);
			}
			if (want == cap)
				VF_CHECK(requests == 0 && releases == 0, "same-resize-uses-the-heap", "resize to the same %zu", cap);
			cap = want;
		}
	}
	VF_COVERN("dyn_fifo_operations", n);
	Hash h;
	h.add(h0).add(n);
	nontrivial(h);
}

// Wider elements than a word, larger capacities
struct Wide {
	u64 w[6];
	bool operator==(const Wide &) const = default;
	auto operator<=>(const Wide &) const = default;
};
static Wide wide(Rng &r) {
	u64 a = r.next();
	return {{a, a + 1, a + 2, a + 3, a + 4, a + 5}};
}
template<size_t N>
static void wide_case(Rng &r) {
	static FixedVector<Wide, N> v;
	static CircularBuffer<Wide, N> c;
	static LockFreeFifoSpsc<Wide, N> q;
	static SeqMap<Wide, Wide, N> m;
	static SequentialMap<int, Wide, N> s;
	static CircularStack<Wide, (int)N> st;
	static cpputil::Pool<Wide, N> p;
	static Partition<4, N, unsigned> part;
	static StaticString<N * 8> str;
	static std::array<unsigned, N> nums;
	static std::array<Wide *, N> made;
	static std::array<Wide, N> mkeys;
	size_t nmade = 0;
	{
		Arm arm;
		v.clear();
		for (size_t i = 0; i < N + 2; i++) {
			Wide w = wide(r);
			v.push_back(w);
			v.insert(r.below(i + 1), w);
			c.put(w);
			q.put(w);
			m.overwrite(w, w);
			mkeys[i % N] = w;
			s[(int)r.below(2 * N)] = w;
			st.push_back(w);
			if (auto *x = p.create()) {
				*x = w;
				if (nmade < N)
					made[nmade++] = x;
			}
			if (i < N)
				nums[i] = r.below(1000);
		}
		v.erase(r.below(N));
		v.erase(v.begin() + 1, v.begin() + N / 2);
		auto v2 = v;
		v = v2;
		while (q.get())
			;
		(void)c.get();
		m.remove(mkeys[r.below(N)]);
		s.erase((int)r.below(2 * N));
		(void)st.pop_back();
		for (size_t i = 0; i < nmade; i++)
			p.destroy(made[i]);
		part.calc_partitions(nums);
		char text[N * 10];
		memset(text, 'q', sizeof text - 1);
		text[sizeof text - 1] = 0;
		str.copy(text);
	}
	VF_CHECK(requests == 0 && releases == 0, "uses-the-heap", "containers of %zu elements of 48 bytes: %llu requests (last %llu bytes)", N,
			 (unsigned long long)requests, (unsigned long long)last_size);
	VF_COVER("wide_cases");
	Hash h;
	h.add(r.next()).add(N);
	nontrivial(h);
}
VF_SUITE(wide_elements, 600, 10000) {
	switch (idx % 3) {
		case 0:
			return wide_case<8>(rng);
		case 1:
			return wide_case<64>(rng);
		default:
			return wide_case<256>(rng);
	}
}

// the monitor sees what it should
VF_SUITE(enum_monitor, 1, 1) {
	std::vector<int> v;
	{
		Arm arm;
		v.resize(1000);
		std::vector<int>().swap(v);
		auto *volatile q = new std::string(100, 'x');
		delete q;
	}
	VF_CHECK(requests == 3 && releases == 3, "harness", "monitor saw %llu requests and %llu releases of 3", (unsigned long long)requests,
			 (unsigned long long)releases);
	u64 f = 0;
	for (auto &k : kinds())
		f += k.heap_free;
	VF_COVERN("heap_free_kinds", f);
	evaluated(1);
	nontrivial(f);
}
