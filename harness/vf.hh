// Small monitoring framework shared by every harness.
// A harness registers suites; a suite is run for many case indices, each with
// its own deterministic random stream.  Monitors report with VF_CHECK; what was
// observed is recorded with VF_COVER / vf::nontrivial / vf::sample.
#pragma once
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <mutex>
#include <string>
#include <unordered_set>
#include <vector>
#include <array>
#include <algorithm>
#include <atomic>
#include <concepts>
#include <cmath>
#include <functional>
#include <limits>
#include <memory>
#include <optional>
#include <span>
#include <string_view>
#include <type_traits>
#include <utility>

namespace vf
{
using u8 = uint8_t;
using u16 = uint16_t;
using u32 = uint32_t;
using u64 = uint64_t;
using i64 = int64_t;

inline u64 mix(u64 z) {
	z += 0x9E3779B97F4A7C15ull;
	z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
	z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
	return z ^ (z >> 31);
}

struct Rng {
	u64 s;
	explicit Rng(u64 seed)
		: s{mix(seed)} {
	}
	u64 next() {
		s += 0x9E3779B97F4A7C15ull;
		u64 z = s;
		z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
		z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
		return z ^ (z >> 31);
	}
	// [0, n)
	u64 below(u64 n) {
		return n ? next() % n : 0;
	}
	// [a, b]
	i64 range(i64 a, i64 b) {
		return (i64)((u64)a + below((u64)b - (u64)a + 1));
	}
	bool chance(unsigned num, unsigned den) {
		return below(den) < num;
	}
	double unit() {
		return (next() >> 11) * (1.0 / 9007199254740992.0);
	}
	double real(double a, double b) {
		return a + (b - a) * unit();
	}
	template<typename T>
	T pick(std::initializer_list<T> l) {
		return *(l.begin() + below(l.size()));
	}
	// any value of the integer type, biased to the boundaries and to few-bit values
	template<typename T>
	T anyint() {
		using U = std::make_unsigned_t<T>;
		constexpr unsigned B = sizeof(T) * 8;
		switch (below(8)) {
			case 0:
				return (T)(U)(below(17) - 8);
			case 1:
				return (T)((U)std::numeric_limits<T>::max() - (U)below(9));
			case 2:
				return (T)((U)std::numeric_limits<T>::min() + (U)below(9));
			case 3:
				return (T)(((U)1 << below(B)) + (U)(below(5) - 2));
			case 4:
				return (T)(U)(0 - (((U)1 << below(B)) + (U)(below(5) - 2)));
			case 5:
				return (T)(U)(next() >> below(64));
			default:
				return (T)(U)next();
		}
	}
	// finite float, log-distributed magnitude in [2^lo, 2^hi], either sign, sometimes 0
	float anyfloat(int lo, int hi) {
		if (chance(1, 24))
			return 0.f;
		double e = real(lo, hi);
		double v = std::exp2(e);
		if (chance(1, 4))
			v = std::exp2(std::floor(e));
		return (float)(chance(1, 2) ? -v : v);
	}
};

struct Hash {
	u64 h = 0x243F6A8885A308D3ull;
	template<typename T>
	requires(std::is_integral_v<T> || std::is_enum_v<T>)
	Hash &add(T v) {
		h = mix(h ^ (u64)v);
		return *this;
	}
	Hash &add(std::string_view v) {
		for (char c : v)
			h = mix(h ^ (u8)c);
		return add(v.size());
	}
	Hash &addf(double v) {
		u64 b;
		memcpy(&b, &v, 8);
		return add(b);
	}
	operator u64() const {
		return h;
	}
};

struct Fail {};

struct Violation {
	std::string suite, key, msg, log;
	u64 idx;
	bool replayed = false;
};

struct State {
	const char *suite = "";
	std::atomic<u64> idx{0};
	std::atomic<u64> tick_idx{~0ull};
	std::atomic<int> ticks{0};
	int hang_limit = 60;
	bool logging = false;
	std::string log;
	std::mutex mu;
	std::vector<Violation> violations;
	std::map<std::string, u64> counters;
	std::unordered_set<u64> distinct;
	std::vector<std::string> samples;
	u64 evaluations = 0;
	u64 seed = 1;
	bool thorough = false;
};
inline State &st() {
	static State *s = new State;
	return *s;
}

inline std::string vfmt(const char *fmt, va_list ap) {
	char buf[1500];
	vsnprintf(buf, sizeof buf, fmt, ap);
	return buf;
}
__attribute__((format(printf, 1, 2))) inline std::string fmt(const char *f, ...) {
	va_list ap;
	va_start(ap, f);
	auto r = vfmt(f, ap);
	va_end(ap);
	return r;
}

// Operation log, only built when a failing case is replayed
#define VF_LOG(...)                                                                                                    \
	do {                                                                                                               \
		if (::vf::st().logging) {                                                                                      \
			::vf::st().log += ::vf::fmt(__VA_ARGS__);                                                                  \
			::vf::st().log += '\n';                                                                                    \
			if (::vf::st().log.size() > 400000) /* a long history: keep its end */                                              \
				::vf::st().log.erase(0, 200000);                                                                           \
		}                                                                                                              \
	} while (0)

inline void record(const char *key, std::string msg) {
	auto &s = st();
	std::lock_guard l(s.mu);
	if (s.violations.size() < 64)
		s.violations.push_back({s.suite, key, std::move(msg), {}, s.idx.load()});
}

[[noreturn]] inline void fail(const char *key, std::string msg) {
	record(key, std::move(msg));
	throw Fail{};
}

// VF_CHECK(cond, "key", "format", ...)
#define VF_CHECK(c, key, ...)                                                                                          \
	do {                                                                                                               \
		if (!(c)) [[unlikely]]                                                                                         \
			::vf::fail(key, ::vf::fmt("line %d: expected %s; ", __LINE__, #c) + ::vf::fmt(__VA_ARGS__));               \
	} while (0)

#define VF_EQ(a, b, key)                                                                                               \
	do {                                                                                                               \
		auto vf_a = (a);                                                                                               \
		auto vf_b = (b);                                                                                               \
		if (!(vf_a == vf_b)) [[unlikely]]                                                                              \
			::vf::fail(key,                                                                                            \
					   ::vf::fmt("line %d: %s: observed %lld, model says %lld",                                        \
								 __LINE__,                                                                             \
								 #a,                                                                                   \
								 (long long)vf_a,                                                                      \
								 (long long)vf_b));                                                                    \
	} while (0)

inline u64 &counter(const char *name) {
	return st().counters[name];
}
// only from the main thread of a case
#define VF_COVERN(name, n)                                                                                             \
	do {                                                                                                               \
		static ::vf::u64 &vf_c = ::vf::counter(name);                                                                  \
		vf_c += (n);                                                                                                   \
	} while (0)
#define VF_COVER(name) VF_COVERN(name, 1)

inline void nontrivial(u64 h) {
	auto &d = st().distinct;
	if (d.size() < 400000)
		d.insert(h);
}

inline bool want_sample() {
	return st().samples.size() < 2;
}
inline void sample(std::string s) {
	if (want_sample())
		st().samples.push_back(std::move(s));
}
// number of individual comparisons/inputs evaluated inside one case (exhaustive loops)
inline void evaluated(u64 n) {
	st().evaluations += n;
}

// Sizes and indices far beyond n whose low bits look like ones up to n
inline u64 wild(Rng &rng, u64 n, unsigned bits = 64) {
	return ((u64)1 << (8 + rng.below(bits - 8))) + rng.below(n + 1);
}

// Length of a history: n, but once in a while so long that 16-bit counters of operations or positions wrap.
// During a long history, rarely() makes what would restart the object's history improbable.
inline bool &in_long_history() {
	static bool b = false;
	return b;
}
inline unsigned run_length(Rng &rng, unsigned n, unsigned longest = 280000, unsigned every = 2000) {
	in_long_history() = st().idx.load() % every == every / 3;
	if (!in_long_history())
		return n;
	VF_COVER("long_histories");
	return longest - (unsigned)rng.below(longest / 4);
}
inline bool rarely(Rng &rng) {
	return !in_long_history() || rng.chance(1, 50000);
}

using SuiteFn = void (*)(Rng &, u64);
struct Suite {
	const char *name;
	u64 quick, thorough;
	SuiteFn fn;
};
inline std::vector<Suite> &suites() {
	static auto *v = new std::vector<Suite>;
	return *v;
}
struct Reg {
	Reg(const char *n, u64 q, u64 t, SuiteFn f) {
		suites().push_back({n, q, t, f});
	}
};
// mt_ suites are threaded; suites named enum_ enumerate a finite space: same count in both tiers
#define VF_SUITE(name, quick, thorough)                                                                                \
	static void vf_suite_##name(::vf::Rng &, ::vf::u64);                                                               \
	static ::vf::Reg vf_reg_##name{#name, quick, thorough, vf_suite_##name};                                           \
	static void vf_suite_##name([[maybe_unused]] ::vf::Rng &rng, [[maybe_unused]] ::vf::u64 idx)

// ---------------------------------------------------------------------------
// Element type which records its own lifetime: copies own memory, so that a
// double destruction, a bytewise copy or a use after destruction is visible.
struct Live {
	static inline i64 live = 0;
	static inline u64 errors = 0;
	u32 magic;
	i64 v;
	i64 *own;
	static constexpr i64 Default = 41; // not the value of zeroed storage
	Live()
		: Live(Default) {
	}
	Live(i64 x)
		: magic{0xA11CE}
		, v{x}
		, own{new i64{x}} {
		live++;
	}
	Live(const Live &o)
		: Live(o.get()) {
	}
	Live(Live &&o)
		: Live(o.get()) {
		o.set(-777);
	}
	Live &operator=(const Live &o) {
		i64 x = o.get();
		set(x);
		return *this;
	}
	Live &operator=(Live &&o) {
		i64 x = o.get();
		if (this != &o)
			o.set(-777);
		set(x);
		return *this;
	}
	~Live() {
		if (magic != 0xA11CE) {
			errors++;
			return;
		}
		magic = 0xDEAD;
		delete own;
		own = nullptr;
		live--;
	}
	i64 get() const {
		if (magic != 0xA11CE || *own != v)
			errors++;
		return magic == 0xA11CE ? *own : -999;
	}
	void set(i64 x) {
		if (magic != 0xA11CE) {
			errors++;
			return;
		}
		v = x;
		*own = x;
	}
	friend bool operator==(const Live &a, const Live &b) {
		return a.get() == b.get();
	}
	friend auto operator<=>(const Live &a, const Live &b) {
		return a.get() <=> b.get();
	}
};

// Object of type T between canary zones: an overrun inside the enclosing
// allocation (which ASan cannot see) is detected by intact().
template<typename T>
struct Guarded {
	static constexpr size_t Z = 64;
	alignas(alignof(T) > 16 ? alignof(T) : 16) unsigned char pre[Z];
	T obj;
	unsigned char post[Z];
	template<typename... A>
	Guarded(A &&...a)
		: obj(std::forward<A>(a)...) {
		memset(pre, 0xC5, Z);
		memset(post, 0x5C, Z);
	}
	bool intact() const {
		for (size_t i = 0; i < Z; i++)
			if (pre[i] != 0xC5 || post[i] != 0x5C)
				return false;
		return true;
	}
};

} // namespace vf

extern "C" void __sanitizer_set_death_callback(void (*)(void)) __attribute__((weak));

#ifndef VF_NO_MAIN
#include <csignal>
#include <sys/time.h>
#include <unistd.h>

namespace vf
{
inline void crash_note(const char *what) {
	char b[256];
	int n = snprintf(b,
					 sizeof b,
					 "\nVF-%s suite=%s idx=%llu\n",
					 what,
					 st().suite,
					 (unsigned long long)st().idx.load());
	(void)!write(2, b, n);
}
inline void on_death() {
	crash_note("CRASH");
}
inline void on_signal(int sig) {
	char b[64];
	int n = snprintf(b, sizeof b, "\nVF-SIGNAL %d\n", sig);
	(void)!write(2, b, n);
	crash_note("CRASH");
	_exit(78);
}
inline void on_tick(int) {
	auto &s = st();
	u64 i = s.idx.load();
	if (s.tick_idx.load() == i) {
		if (++s.ticks > s.hang_limit) {
			crash_note("HANG");
			_exit(77);
		}
	} else {
		s.tick_idx = i;
		s.ticks = 0;
	}
}
inline std::string jstr(const std::string &s) {
	std::string o = "\"";
	for (unsigned char c : s) {
		if (c == '"' || c == '\\') {
			o += '\\';
			o += c;
		} else if (c < 32 || c >= 127) {
			char b[8];
			snprintf(b, sizeof b, "\\u%04x", c);
			o += b;
		} else
			o += c;
	}
	return o + "\"";
}
inline u64 case_seed(const char *suite, u64 idx) {
	Hash h;
	h.add(st().seed).add(std::string_view(suite)).add(idx);
	return h;
}
inline bool run_case(const Suite &s, u64 idx) {
	auto &S = st();
	S.idx = idx;
	in_long_history() = false;
	size_t before = S.violations.size();
	Rng rng(case_seed(s.name, idx));
	S.evaluations++;
	try {
		s.fn(rng, idx);
	} catch (Fail &) {
	}
	return S.violations.size() == before;
}
} // namespace vf

int main(int argc, char **argv) {
	using namespace vf;
	auto &S = st();
	std::string suite, out, hashes;
	u64 lo = 0, hi = 0;
	bool list = false, replay = false;
	for (int i = 1; i < argc; i++) {
		std::string a = argv[i];
		auto nx = [&] { return std::string(i + 1 < argc ? argv[++i] : ""); };
		if (a == "--list")
			list = true;
		else if (a == "--suite")
			suite = nx();
		else if (a == "--seed")
			S.seed = strtoull(nx().c_str(), 0, 10);
		else if (a == "--lo")
			lo = strtoull(nx().c_str(), 0, 10);
		else if (a == "--hi")
			hi = strtoull(nx().c_str(), 0, 10);
		else if (a == "--out")
			out = nx();
		else if (a == "--hashes")
			hashes = nx();
		else if (a == "--thorough")
			S.thorough = true;
		else if (a == "--replay")
			replay = true;
		else if (a == "--hang")
			S.hang_limit = atoi(nx().c_str());
	}
	if (list) {
		for (auto &s : suites())
			printf("%s %llu %llu\n", s.name, (unsigned long long)s.quick, (unsigned long long)s.thorough);
		return 0;
	}
	if (__sanitizer_set_death_callback)
		__sanitizer_set_death_callback(on_death);
	else
		for (int sg : {SIGSEGV, SIGBUS, SIGFPE, SIGILL, SIGABRT, SIGTRAP})
			signal(sg, on_signal);
	{
		struct sigaction sa {};
		sa.sa_handler = on_tick;
		sa.sa_flags = SA_RESTART;
		sigaction(SIGPROF, &sa, nullptr);
		struct itimerval it {
			{1, 0}, { 1, 0 }
		};
		setitimer(ITIMER_PROF, &it, nullptr);
	}
	for (auto &s : suites()) {
		if (suite != s.name)
			continue;
		S.suite = s.name;
		if (replay)
			S.logging = true;
		std::map<std::string, int> seen;
		for (u64 i = lo; i < hi; i++) {
			size_t nv = S.violations.size();
			if (!run_case(s, i)) {
				bool fresh = false;
				for (size_t k = nv; k < S.violations.size(); k++)
					if (seen[S.violations[k].key]++ == 0)
						fresh = true;
				if (fresh && !S.logging && S.violations.size() < 40) {
					// replay the failing case with the operation log on
					S.logging = true;
					S.log.clear();
					size_t n2 = S.violations.size();
					bool again = !run_case(s, i);
					S.logging = false;
					S.violations.resize(n2);
					if (S.log.size() > 20000)
						S.log = S.log.substr(0, 2000) + "\n...\n" + S.log.substr(S.log.size() - 17000);
					for (size_t k = nv; k < n2; k++) {
						S.violations[k].log = S.log;
						S.violations[k].replayed = again;
					}
				}
				// one violation per key is enough, but look for other keys
				size_t total = 0;
				for (auto &[k, n] : seen)
					total += n;
				if (total > 30)
					break;
			}
		}
		if (replay)
			fputs(S.log.c_str(), stdout);
	}
	if (!out.empty()) {
		FILE *f = fopen(out.c_str(), "w");
		if (!f)
			return 3;
		fprintf(f, "{\"suite\":%s,\"evaluations\":%llu,\"distinct\":%zu,", jstr(suite).c_str(), (unsigned long long)S.evaluations, S.distinct.size());
		fprintf(f, "\"counters\":{");
		bool first = true;
		for (auto &[k, v] : S.counters) {
			fprintf(f, "%s%s:%llu", first ? "" : ",", jstr(k).c_str(), (unsigned long long)v);
			first = false;
		}
		fprintf(f, "},\"samples\":[");
		first = true;
		for (auto &s : S.samples) {
			fprintf(f, "%s%s", first ? "" : ",", jstr(s).c_str());
			first = false;
		}
		fprintf(f, "],\"violations\":[");
		first = true;
		for (auto &v : S.violations) {
			fprintf(f,
					"%s{\"suite\":%s,\"key\":%s,\"idx\":%llu,\"msg\":%s,\"replayed\":%s,\"log\":%s}",
					first ? "" : ",",
					jstr(v.suite).c_str(),
					jstr(v.key).c_str(),
					(unsigned long long)v.idx,
					jstr(v.msg).c_str(),
					v.replayed ? "true" : "false",
					jstr(v.log).c_str());
			first = false;
		}
		fprintf(f, "]}\n");
		fclose(f);
	}
	if (!hashes.empty()) {
		FILE *f = fopen(hashes.c_str(), "wb");
		if (f) {
			for (u64 h : S.distinct)
				fwrite(&h, 8, 1, f);
			fclose(f);
		}
	}
	for (auto &v : S.violations)
		fprintf(stderr, "VF-VIOLATION suite=%s idx=%llu key=%s %s\n", v.suite.c_str(), (unsigned long long)v.idx, v.key.c_str(), v.msg.c_str());
	fflush(stdout);
	_exit(S.violations.empty() ? 0 : 1);
}
#endif
