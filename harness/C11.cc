// C11: lifetime and dispatch of fixed-size callables.
#include "vf.hh"
#include "util/callable.hh"
#include "util/overloaded.hh"
#include <variant>
using namespace vf;

static i64 g_live = 0, g_bad = 0;
static u64 g_last_called = 0;
// Function object which records its lifetime. Pad makes it as big as wanted.
template<size_t Pad>
struct Fn {
	u32 magic = 0xF00D;
	u32 id;
	u32 state = 0; // own, mutated by each call
	u32 *own;
	char pad[Pad];
	explicit Fn(u32 i)
		: id{i}
		, own{new u32{i}} {
		g_live++;
		memset(pad, (char)i, Pad);
	}
	Fn(const Fn &o)
		: id{o.id}
		, state{o.state}
		, own{new u32{o.id}} {
		if (o.magic != 0xF00D || *o.own != o.id)
			g_bad++;
		memcpy(pad, o.pad, Pad);
		g_live++;
	}
	Fn &operator=(const Fn &) = delete;
	~Fn() {
		if (magic != 0xF00D)
			g_bad++;
		magic = 0;
		delete own;
		own = nullptr;
		g_live--;
	}
	u32 operator()(u32 x, const std::string &s) {
		if (magic != 0xF00D || *own != id)
			g_bad++;
		for (size_t i = 0; i < Pad; i++)
			if (pad[i] != (char)id)
				g_bad++;
		state++;
		g_last_called = id;
		return id * 1000000 + state * 1000 + x + s.size();
	}
};
// trivially copyable one
struct Small {
	u32 id;
	u32 state;
	u32 operator()(u32 x, const std::string &s) {
		state++;
		g_last_called = id;
		return id * 1000000 + state * 1000 + x + s.size();
	}
};
static u32 plain_fn(u32 x, const std::string &s) {
	g_last_called = 9;
	return 9 * 1000000 + x + s.size();
}

struct M {
	bool set = false;
	u32 id = 0;
	u32 state = 0;
};

// What fits must be accepted; a callable that refuses it is reported, not a harness that does not compile.
template<typename F, typename C>
static F put(C c) {
	if constexpr (std::is_constructible_v<F, C>)
		return F(c);
	else {
		fail("fitting-object-refused", fmt("an object of %zu bytes", sizeof(C)));
		return F{};
	}
}
template<unsigned Size>
static void function_case(Rng &rng) {
	i64 live0 = g_live;
	i64 bad0 = g_bad;
	{
		using F = FunctionSized<Size, u32(u32, const std::string &)>;
		constexpr size_t K = 4;
		std::array<std::unique_ptr<Guarded<F>>, K> f;
		std::array<M, K> m;
		i64 expect_live = live0;
		std::array<bool, K> owning{};
		for (auto &p : f)
			p = std::make_unique<Guarded<F>>();
		Hash h;
		u32 nid = 10;
		auto make = [&](unsigned kind, M &mm, bool &own) -> F {
			mm = {true, nid++, 0};
			own = true;
			switch (kind) {
				case 0:
					own = false;
					return put<F>(Small{mm.id, 0});
				case 1:
					own = false;
					mm.id = 9;
					return F(plain_fn);
				case 2:
					own = false;
					return F([id = mm.id, st = 0u](u32 x, const std::string &s) mutable {
						st++;
						g_last_called = id;
						return u32(id * 1000000 + st * 1000 + x + s.size());
					});
				case 3:
					if constexpr (Size >= sizeof(Fn<Size - 24>))
						return put<F>(Fn<Size - 24>(mm.id)); // fills the buffer completely
					[[fallthrough]];
				default:
					return put<F>(Fn<1>(mm.id));
			}
		};
		unsigned ops = run_length(rng, 6 + rng.below(50), 100000, 1500);
		for (unsigned k = 0; k < ops; k++) {
			unsigned a = rng.below(K), b = rng.below(K), op = rng.below(9);
			h.add(op).add(a).add(b);
			M mm;
			bool own = false;
			switch (op) {
				case 0:
				case 1: {
					unsigned kind = rng.below(5);
					h.add(kind);
					VF_LOG("assign new function object kind %u to %u", kind, a);
					f[a]->obj = make(kind, mm, own);
					m[a] = mm;
					owning[a] = own;
					break;
				}
				case 2:
					VF_LOG("copy-assign %u = %u", a, b);
					f[a]->obj = f[b]->obj;
					m[a] = m[b];
					owning[a] = owning[b];
					if (a == b)
						VF_COVER("self_assigned");
					else if (owning[a])
						VF_COVER("owning_copied");
					break;
				case 3:
					VF_LOG("move-assign %u = move(%u)", a, b);
					if (a == b)
						break;
					{
						F tmp(f[b]->obj);
						f[a]->obj = std::move(tmp);
					}
					m[a] = m[b];
					owning[a] = owning[b];
					break;
				case 4: {
					VF_LOG("copy-construct %u from %u", a, b);
					if (a == b)
						break;
					f[a].reset();
					f[a] = std::make_unique<Guarded<F>>(f[b]->obj);
					m[a] = m[b];
					owning[a] = owning[b];
					break;
				}
				case 5:
					VF_LOG("empty %u", a);
					f[a]->obj = F{};
					m[a] = {};
					owning[a] = false;
					VF_COVER("reset_to_empty");
					break;
				case 6: {
					VF_LOG("destroy and recreate %u", a);
					f[a] = std::make_unique<Guarded<F>>();
					m[a] = {};
					owning[a] = false;
					break;
				}
				default:
					if (m[a].set) {
						u32 x = rng.below(900);
						std::string s(rng.below(40), 'q');
						g_last_called = 0;
						VF_LOG("call %u", a);
						u32 r = op == 7 ? f[a]->obj(x, s) : f[a]->obj.call(x, s);
						u32 st = m[a].id == 9 ? 0 : ++m[a].state;
						VF_EQ(g_last_called, m[a].id, "wrong-function-called");
						VF_EQ(r, u32(m[a].id * 1000000 + st * 1000 + x + s.size()), "result");
						VF_COVER("calls");
					}
					break;
			}
			expect_live = live0;
			for (size_t i = 0; i < K; i++) {
				expect_live += owning[i];
				VF_EQ((bool)f[i]->obj, m[i].set, "truth-value");
				VF_CHECK(f[i]->intact(), "storage-overrun", "memory around callable %zu", i);
			}
			VF_EQ(g_live, expect_live, "live-objects");
			VF_EQ(g_bad, bad0, "dead-or-corrupt-object-used");
		}
		nontrivial(h.add(Size));
		if (want_sample())
			sample(fmt("buffer of %u bytes, %u operations on 4 callables", Size, ops));
	}
	VF_EQ(g_live, live0, "live-objects-at-end");
	VF_EQ(g_bad, bad0, "dead-or-corrupt-object-used");
}
VF_SUITE(function, 10000, 500000) {
	switch (rng.below(3)) {
		case 0:
			return function_case<32>(rng);
		case 1:
			return function_case<48>(rng);
		default:
			return function_case<80>(rng);
	}
}

// void() callbacks, reference / move-only / by-value arguments
static int g_count;
VF_SUITE(callback, 4000, 200000) {
	i64 live0 = Live::live;
	{
		Hash h;
		std::vector<CallbackSized<48>> v;
		std::vector<int> m; // id or 0
		Callback small;
		int hits = 0;
		VF_CHECK(!small, "truth-value", "default-constructed callback");
		small = [&hits] { hits++; };
		Callback copy = small;
		small = Callback{};
		VF_CHECK(!small && copy, "truth-value", "copy survives");
		copy();
		copy.call();
		VF_EQ(hits, 2, "result");
		for (unsigned k = 0; k < 30; k++) {
			unsigned op = rng.below(6);
			h.add(op);
			if (op < 2) {
				int id = 1 + rng.below(1000);
				Live l(id);
				v.push_back(CallbackSized<48>([l, id] { g_count += l.get() == id ? id : -100000; }));
				m.push_back(id);
			} else if (op == 2 && !v.empty()) {
				size_t i = rng.below(v.size()), j = rng.below(v.size());
				v[i] = v[j];
				m[i] = m[j];
			} else if (op == 3 && !v.empty()) {
				size_t i = rng.below(v.size());
				v.erase(v.begin() + i); // assigns each follower downwards
				m.erase(m.begin() + i);
			} else if (op == 4) {
				v.insert(v.begin() + rng.below(v.size() + 1), CallbackSized<48>{});
				// find where: rebuild by truth values is ambiguous, so only append
				v.clear();
				m.clear();
			} else if (!v.empty()) {
				size_t i = rng.below(v.size());
				g_count = 0;
				v[i]();
				VF_EQ(g_count, m[i], "result");
			}
			VF_EQ(Live::live - live0, (i64)m.size(), "live-objects");
			for (auto &c : v)
				VF_CHECK((bool)c, "truth-value", "set callback is falsy");
		}
		for (size_t i = 0; i < v.size(); i++) {
			g_count = 0;
			v[i]();
			VF_EQ(g_count, m[i], "result");
		}
		// argument passing
		Function<int(int &, std::unique_ptr<int>)> g = [](int &r, std::unique_ptr<int> p) {
			r += *p;
			return r;
		};
		int acc = 5;
		VF_EQ(g(acc, std::make_unique<int>(7)), 12, "result");
		VF_EQ(acc, 12, "reference-argument");
		Function<int &(int &)> idf = [](int &r) -> int & { return r; };
		VF_CHECK(&idf(acc) == &acc, "reference-result", "address");
		int got = 0;
		const int sent = (int)rng.next();
		std::string text(1 + rng.below(40), 'x'), heard;
		const void *same = nullptr;
		FunctionSized<48, void(int, const std::string &)> wide = [&got, &heard, &same](int v, const std::string &t) {
			same = &t, got = v, heard = t;
		};
		wide(sent, text);
		VF_CHECK(got == sent && heard == text && same == &text, "arguments-of-void-callable", "%d for %d", got, sent);
		Function<void(u64)> half = [&got](u64 v) { got = (int)(v >> 32); };
		half((u64)(u32)sent << 32);
		VF_EQ(got, sent, "arguments-of-void-callable");
		nontrivial(h);
	}
	VF_EQ(Live::live, live0, "live-objects-at-end");
	VF_EQ(Live::errors, 0u, "dead-or-corrupt-object-used");
}

// ---------------------------------------------------------------- objects which must lie at certain addresses
static u64 g_misplaced = 0, g_placed = 0;
template<size_t A>
struct alignas(A) Placed {
	u32 id;
	u32 state = 0;
	explicit Placed(u32 i)
		: id{i} {
		where();
	}
	Placed(const Placed &o)
		: id{o.id}
		, state{o.state} {
		where();
	}
	~Placed() {
		where();
	}
	[[gnu::noinline]] void where() const {
		const void *volatile p = this; // the compiler must not conclude anything from the type
		g_placed++;
		if ((uintptr_t)p % A)
			g_misplaced++;
	}
	u32 operator()(u32 x) {
		where();
		return id * 1000 + ++state * 100 + x;
	}
};
template<size_t A, unsigned Size>
static void placed_case(Rng &rng) {
	using F = FunctionSized<Size, u32(u32)>;
	if constexpr (std::is_constructible_v<F, Placed<A>>) {
		struct Odd {
			char c;
			F f;
		};
		u64 bad0 = g_misplaced;
		auto odd = std::make_unique<Odd>();
		auto row = std::make_unique<std::array<F, 5>>();
		u32 id = 1 + rng.below(1000), st = 0;
		odd->f = F(Placed<A>(id));
		VF_EQ(odd->f(7), id * 1000 + ++st * 100 + 7, "result");
		for (auto &f : *row) {
			f = odd->f;
			VF_EQ(f(1), id * 1000 + (st + 1) * 100 + 1, "result");
		}
		F copy((*row)[rng.below(5)]);
		VF_EQ(copy(2), id * 1000 + (st + 2) * 100 + 2, "result");
		VF_EQ(g_misplaced, bad0, "misplaced-object");
		VF_COVER("placed_objects");
	} else
		VF_COVER("alignments_refused");
}
VF_SUITE(placed, 3000, 100000) {
	placed_case<4, 16>(rng);
	placed_case<8, 16>(rng);
	placed_case<16, 16>(rng);
	placed_case<16, 48>(rng);
	placed_case<32, 64>(rng);
	placed_case<64, 128>(rng);
	nontrivial(rng.next());
}

// ---------------------------------------------------------------- capacity
// A function object of N bytes: up to the capacity it must be accepted and keep every byte, in the
// callable and its copies, without touching what lies next to them; above it, either it is refused
// (as now) or, were it accepted, the same must hold.
template<size_t N>
struct Bytes {
	unsigned char b[N];
	u32 operator()(u32 x) const {
		u32 h = x;
		for (unsigned char c : b)
			h = h * 31 + c;
		return h;
	}
};
template<size_t N, unsigned Size>
static void capacity_case(Rng &rng) {
	using F = FunctionSized<Size, u32(u32)>;
	if constexpr (std::is_constructible_v<F, Bytes<N>>) {
		Bytes<N> o;
		for (auto &c : o.b)
			c = (unsigned char)rng.next();
		// each on a block of its own, so that a byte beyond it is seen
		auto a = std::make_unique<F>(o);
		auto b = std::make_unique<F>(*a);
		auto c = std::make_unique<F>();
		struct Row {
			u64 before = 0x1122334455667788ull;
			F f;
			u64 after = 0x8877665544332211ull;
		};
		auto row = std::make_unique<Row>();
		*c = *b;
		row->f = *c;
		u32 x = (u32)rng.next(), want = o(x);
		VF_EQ((*a)(x), want, "sized-object");
		VF_EQ((*b)(x), want, "sized-object");
		VF_EQ((*c)(x), want, "sized-object");
		VF_EQ(row->f(x), want, "sized-object");
		VF_EQ(row->before, 0x1122334455667788ull, "neighbour-overwritten");
		VF_EQ(row->after, 0x8877665544332211ull, "neighbour-overwritten");
		VF_COVER("sizes_accepted");
	} else {
		VF_CHECK(N > Size, "fitting-object-refused", "an object of %zu bytes, capacity %u", N, Size);
		VF_COVER("sizes_refused");
	}
}
template<unsigned Size, size_t... N>
static void capacity_cases(Rng &rng, std::index_sequence<N...>) {
	(capacity_case<N + 1, Size>(rng), ...);
}
VF_SUITE(capacity, 600, 100000) {
	capacity_cases<1>(rng, std::make_index_sequence<20>{});
	capacity_cases<16>(rng, std::make_index_sequence<40>{});
	capacity_cases<33>(rng, std::make_index_sequence<56>{});
	nontrivial(rng.next());
}

// ---------------------------------------------------------------- overload sets
VF_SUITE(overload_sets, 3000, 100000) {
	u32 a = (u32)rng.next();
	int calls[3]{};
	auto set = overloaded{[&](int i) {
							  calls[0]++;
							  return (u32)i + a;
						  },
						  [&](double d) {
							  calls[1]++;
							  return (u32)(d * 2);
						  },
						  [&](const std::string &s) {
							  calls[2]++;
							  return (u32)s.size();
						  }};
	Hash h;
	for (unsigned k = 0, n = 1 + rng.below(20); k < n; k++) {
		std::variant<int, double, std::string> v;
		u32 want = 0, x = rng.below(1000);
		unsigned kind = rng.below(3);
		if (kind == 0)
			v = (int)x, want = x + a;
		else if (kind == 1)
			v = (double)x, want = x * 2;
		else
			v = std::string(x % 50, 'x'), want = x % 50;
		int before = calls[kind];
		VF_EQ(std::visit(set, v), want, "overload-result");
		VF_EQ(calls[kind], before + 1, "overload-called");
		h.add(kind).add(x);
	}
	VF_COVER("overload_sets");
	nontrivial(h);
}
