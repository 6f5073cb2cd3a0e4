// C10: StaticString against truncated text.
#ifdef VF_CFG_OPT // the optional conversions; the sanitized build runs the default class
#define CPPUTIL_STATIC_STRING_USE_STD_STRING
#endif
#include <string>
#include "vf.hh"
#include "util/static_string.hh"
using namespace vf;

// text without zero bytes, in an exact-size heap block (no terminator)
static std::string text(Rng &rng, size_t n) {
	std::string s;
	for (size_t i = 0; i < n; i++)
		s += rng.chance(1, 4) ? (char)(1 + rng.below(255)) : (char)('a' + rng.below(3));
	return s;
}
struct Raw {
	std::unique_ptr<char[]> p;
	size_t n;
	Raw(const std::string &s, bool zero)
		: p{new char[s.size() + zero]}
		, n{s.size()} {
		memcpy(p.get(), s.data(), n);
		if (zero)
			p[n] = 0;
	}
	std::string_view view() const {
		return {p.get(), n};
	}
};

template<size_t C>
static void look(const StaticString<C> &s, const std::string &m) {
	VF_CHECK(s.data()[m.size()] == '\0', "not-terminated", "capacity %zu, %zu characters", C, m.size());
	VF_CHECK(memcmp(s.data(), m.data(), m.size()) == 0, "content", "capacity %zu", C);
	VF_EQ(s.length(), m.size(), "length");
	VF_EQ(s.size(), m.size(), "length");
	VF_EQ(s.available(), C - m.size(), "available");
	VF_EQ(s.capacity, C, "capacity");
	VF_CHECK(s.c_str() == s.data() && s.begin() == s.data(), "pointer", "c_str/data");
	VF_CHECK(std::string_view(s) == m, "view", "view differs");
	const char *p = s;
	VF_CHECK(m == p, "view", "const char* differs");
	VF_EQ((size_t)(s.end() - s.begin()), m.size(), "iteration");
	std::string it;
	for (char c : s)
		it += c;
	VF_CHECK(it == m, "iteration", "iterated text differs");
	auto &w = const_cast<StaticString<C> &>(s);
	VF_CHECK(w.begin() == s.data() && w.end() == s.data() + m.size(), "iteration", "capacity %zu, %zu characters", C, m.size());
	it.clear();
	for (char &c : w)
		it += c;
	VF_CHECK(it == m, "iteration", "iterated text differs (mutable)");
	VF_CHECK(w.c_str() == s.data() && w.data() == s.data() && w.length() == m.size() && w.size() == m.size(), "pointer", "mutable");
	VF_CHECK(s.is_equal(m.c_str()), "equality", "is_equal own text");
	VF_CHECK(!s.is_equal((m + "x").c_str()), "equality", "longer text is not equal");
	if (!m.empty())
		VF_CHECK(!s.is_equal(m.substr(0, m.size() - 1).c_str()), "equality", "prefix is not equal");
}

template<size_t C, size_t D>
static void pair(Rng &rng) {
	// memory filled with garbage before construction
	auto mem = std::make_unique<std::array<u8, sizeof(Guarded<StaticString<C>>) + 64>>();
	memset(mem->data(), rng.pick({0x00, 0xFF, 0x41}), mem->size());
	Hash h;
	h.add(C).add(D);
	std::string m;
	auto src = [&] {
		size_t n = rng.pick({(size_t)0, C, C + 1, C ? C - 1 : 0, rng.below(C + 1), rng.below(2 * C + 3)});
		return text(rng, n);
	};
	unsigned how = rng.below(4);
	auto g = [&]() -> std::unique_ptr<Guarded<StaticString<C>>> {
		if (how == 0)
			return std::make_unique<Guarded<StaticString<C>>>();
		std::string t = src();
		m = t.substr(0, C);
		h.add(t.size());
		if (how == 1) {
			Raw r(t, true);
			return std::make_unique<Guarded<StaticString<C>>>((const char *)r.p.get());
		}
		Raw r(t, false);
		return std::make_unique<Guarded<StaticString<C>>>(r.view());
	}();
	StaticString<C> &s = g->obj;
	VF_LOG("capacity %zu construct kind %u", C, how);
	look<C>(s, m);
	VF_CHECK(g->intact(), "storage-overrun", "constructor");
	for (unsigned k = 0; k < 12; k++) {
		unsigned op = rng.below(11);
		std::string t = src();
		h.add(op).add(t.size());
		VF_LOG("op %u source length %zu", op, t.size());
		bool foreign = false;
		if ((op < 5 || op == 6 || op == 7) && rng.chance(1, 8)) {
			// whatever the storage was filled with (a file, a device), storing a text gives that text
			foreign = true;
			memset(s.begin(), 1 + (int)rng.below(255), C + 1);
			VF_COVER("stored_over_foreign_bytes");
		}
		switch (op) {
			case 0: {
				Raw r(t, true);
				s.copy((const char *)r.p.get());
				m = t.substr(0, C);
				VF_COVER("copied_c_string");
				break;
			}
			case 1:
			case 2: {
				Raw r(t, false);
				s.copy(r.view());
				m = t.substr(0, C);
				VF_COVER("copied_unterminated_view");
				if (t.size() > C)
					VF_COVER("truncated");
				if (t.size() == C)
					VF_COVER("exact_fit");
				break;
			}
			case 3:
				if (!foreign && rng.chance(1, 2)) { // its own text
					rng.chance(1, 2) ? s.copy(s.c_str()) : s.copy(std::string_view(s));
					VF_COVER("copied_its_own_text");
					break;
				}
				s.clear();
				m.clear();
				break;
			case 4: {
				auto o = std::make_unique<StaticString<D>>(std::string_view(t));
				s.copy(*o);
				m = t.substr(0, D).substr(0, C);
				look<D>(*o, t.substr(0, D));
				VF_COVER("copied_other_capacity");
				break;
			}
			case 5: {
				auto o = std::make_unique<StaticString<D>>(std::string_view(t));
				std::string ot = t.substr(0, D);
				VF_EQ(s == *o, m == ot, "equality");
				VF_EQ(*o == s, m == ot, "equality");
				o->copy(std::string_view(m));
				VF_EQ(s == *o, m.size() <= D, "equality");
				break;
			}
			case 6: {
				volatile StaticString<C> *v = &s;
				Raw r(t, true);
				v->copy((const char *)r.p.get());
				m = t.substr(0, C);
				break;
			}
			case 7: {
				volatile StaticString<C> *v = &s;
				StaticString<D> o{std::string_view(t)};
				m = t.substr(0, D).substr(0, C);
				if (rng.chance(1, 2)) {
					v->copy(o);
				} else {
					volatile StaticString<D> &vo = o;
					v->copy(vo);
				}
				break;
			}
			case 9: { // assignment of a text
				Raw r(t, rng.chance(1, 2));
				if (r.p && t.size() && rng.chance(1, 2)) {
					s = r.view();
				} else {
					Raw z(t, true);
					s = (const char *)z.p.get();
				}
				m = t.substr(0, C);
				VF_COVER("assigned_text");
				break;
			}
			case 10: {
#ifdef CPPUTIL_STATIC_STRING_USE_STD_STRING
				std::string from = s;
				VF_CHECK(from == m, "std-string", "converted to %zu characters of %zu", from.size(), m.size());
				std::string from2 = std::as_const(s);
				VF_CHECK(from2 == m, "std-string", "converted to %zu characters of %zu", from2.size(), m.size());
				if (rng.chance(1, 2)) {
					s = StaticString<C>(t);
				} else {
					s = t;
				}
				m = t.substr(0, C);
				VF_COVER("std_string_conversions");
#else
				// writing through the iterators changes the text
				for (char &c : s)
					c = (char)((c & 63) + 1);
				for (char &c : m)
					c = (char)((c & 63) + 1);
				VF_COVER("written_through_iterators");
#endif
				break;
			}
			case 8: {
				StaticString<C> c(s);
				look<C>(c, m);
				Raw r(t, false);
				c = StaticString<C>(r.view());
				look<C>(c, t.substr(0, C));
				look<C>(s, m);
				s = c;
				m = t.substr(0, C);
				break;
			}
		}
		look<C>(s, m);
		VF_CHECK(g->intact(), "storage-overrun", "operation %u", op);
	}
	nontrivial(h);
	if (want_sample())
		sample(fmt("capacity %zu (other %zu), final text of %zu characters", C, D, m.size()));
}
VF_SUITE(text, 12000, 600000) {
	switch (rng.chance(1, 40) ? 8 + rng.below(2) : rng.below(8)) {
		case 8:
			VF_COVER("capacity_beyond_a_byte");
			return pair<300, 1000>(rng);
		case 9:
			if (rng.chance(1, 20)) {
				VF_COVER("capacity_beyond_a_short");
				return pair<66000, 300>(rng);
			}
			return pair<1000, 300>(rng);
		case 0:
			return pair<0, 4>(rng);
		case 1:
			return pair<1, 3>(rng);
		case 2:
			return pair<2, 1>(rng);
		case 3:
			return pair<3, 7>(rng);
		case 4:
			return pair<7, 3>(rng);
		case 5:
			return pair<15, 31>(rng);
		case 6:
			return pair<31, 15>(rng);
		default:
			return pair<255, 100>(rng);
	}
}
