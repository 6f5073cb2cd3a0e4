// C17: text utilities against naive references; sources in exact-size heap blocks.
#define __NO_CTYPE // no inline versions: every call is seen by the monitor below
#include "vf.hh"
#include <string>
#include "util/contains_word.hh"
#include "util/string_compare.hh"
#include "util/string_util.hh"
using namespace vf;

// The character functions are only defined for EOF and the values of unsigned char.
static thread_local int g_bad_char = 0;
extern "C" int tolower(int c) {
	if (c < -1 || c > 255)
		g_bad_char = c;
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
extern "C" int toupper(int c) {
	if (c < -1 || c > 255)
		g_bad_char = c;
	return c >= 'a' && c <= 'z' ? c - 32 : c;
}
static void chars_defined() {
	int bad = g_bad_char;
	g_bad_char = 0;
	VF_CHECK(!bad, "undefined-character-argument", "a character function was called with %d", bad);
}

static std::string text(Rng &rng, unsigned maxlen, std::string_view alphabet) {
	std::string s;
	for (unsigned i = 0, n = rng.below(maxlen + 1); i < n; i++)
		s += alphabet[rng.below(alphabet.size())];
	return s;
}
static char low(char c) {
	return c >= 'A' && c <= 'Z' ? c + 32 : c;
}
static std::string lower(std::string s) {
	for (auto &c : s)
		c = low(c);
	return s;
}

static std::string ref_replace(const std::string &s, const std::string &f, const std::string &r) {
	if (f.empty())
		return s;
	std::string o;
	for (size_t i = 0; i < s.size();) {
		if (s.size() - i >= f.size() && !memcmp(s.data() + i, f.data(), f.size())) {
			o += r;
			i += f.size();
		} else
			o += s[i++];
	}
	return o;
}
static void check_replace(const std::string &s, const std::string &f, const std::string &r) {
	VF_LOG("replace '%s' by '%s' in '%s'", f.c_str(), r.c_str(), s.c_str());
	ReplaceString x(s);
	auto &same = x.replace_all(f, r);
	VF_CHECK(&same == &x, "returns-itself", "%s", "");
	auto want = ref_replace(s, f, r);
	VF_CHECK(x.str == want, "replaced-text", "'%s' -> '%s' in '%s' gave '%s', expected '%s'", f.c_str(), r.c_str(), s.c_str(), x.str.c_str(), want.c_str());
	if (want != s) {
		VF_COVER("replaced");
		if (r.find(f) != r.npos)
			VF_COVER("replacement_contains_needle");
		nontrivial(Hash{}.add(std::string_view(s)).add(std::string_view(f)).add(std::string_view(r)));
	}
	if (f.empty())
		VF_COVER("empty_needle");
}
VF_SUITE(replace_all, 60000, 4000000) {
	std::string_view al = rng.chance(1, 2) ? "ab" : "abc ";
	unsigned longest = 24, needle = rng.chance(1, 2) ? 2 : 4;
	if (rng.chance(1, 1000)) {
		longest = rng.pick({300u, 3000u, 70000u});
		needle = 5;
		al = "abcdefgh";
		VF_COVER("long_texts");
	}
	auto s = text(rng, longest, al), f = text(rng, needle, al), r = text(rng, 5, al);
	if (longest > 24 && f.size() < 3)
		f = "abc";
	if (rng.chance(1, 4))
		r = text(rng, 2, al) + f + text(rng, 2, al);
	check_replace(s, f, r);
	// several in a chain
	ReplaceString x(s);
	x.replace_all(f, r).replace_all("a", "bb");
	VF_CHECK(x.str == ref_replace(ref_replace(s, f, r), "a", "bb"), "chained-replacement", "'%s'", x.str.c_str());
	// its own text as what to find or as the replacement
	if (!s.empty() && s.size() < 100) {
		ReplaceString y(s), z(s);
		y.replace_all(y.str, r);
		VF_CHECK(y.str == r, "own-text-as-argument", "whole text '%s' -> '%s' gave '%s'", s.c_str(), r.c_str(), y.str.c_str());
		z.replace_all(f, z.str);
		VF_CHECK(z.str == ref_replace(s, f, s), "own-text-as-argument", "'%s' -> itself in '%s' gave '%s'", f.c_str(), s.c_str(), z.str.c_str());
		if (s.find(f) != s.npos && !f.empty() && s != f)
			VF_COVER("own_text_as_argument");
	}
	if (want_sample())
		sample(fmt("replace '%s' by '%s' in '%s'", f.c_str(), r.c_str(), s.c_str()));
}
// all texts over {a,b} up to 6, needles up to 3, replacements up to 3
VF_SUITE(enum_replace, 127, 127) {
	auto nth = [](u64 i) {
		std::string s;
		for (i++; i > 1; i /= 2)
			s += i & 1 ? 'b' : 'a';
		return s;
	};
	for (u64 f = 0; f < 15; f++)
		for (u64 r = 0; r < 15; r++)
			check_replace(nth(idx), nth(f), nth(r));
	evaluated(225);
}

VF_SUITE(tokenize, 60000, 4000000) {
	std::string del = text(rng, 3, ",;: ");
	if (rng.chance(1, 20))
		del = std::string(1, '\0') + ",";
	std::string al = "abc,;: ";
	if (rng.chance(1, 8))
		al += '\0';
	auto s = text(rng, rng.chance(1, 2000) ? 70000 : rng.chance(1, 100) ? 700 : 20, al);
	std::unique_ptr<char[]> p(new char[s.size()]);
	std::copy(s.begin(), s.end(), p.get());
	std::vector<std::string> got{"kept"}, want{"kept"};
	bool dflt = rng.chance(1, 4);
	if (dflt) {
		del = ",";
		tokenize_string(std::string_view(p.get(), s.size()), got);
	} else
		tokenize_string(std::string_view(p.get(), s.size()), got, del);
	std::string cur;
	for (char c : s) {
		if (del.find(c) != del.npos) {
			if (!cur.empty())
				want.push_back(cur);
			cur.clear();
		} else
			cur += c;
	}
	if (!cur.empty())
		want.push_back(cur);
	VF_CHECK(got == want, "tokens", "'%s' split at '%s': %zu tokens, expected %zu", s.c_str(), del.c_str(), got.size(), want.size());
	VF_COVERN("tokens_found", got.size() - 1);
	if (got.size() > 2)
		nontrivial(Hash{}.add(std::string_view(s)).add(std::string_view(del)));
	if (want_sample())
		sample(fmt("split '%s' at '%s': %zu tokens", s.c_str(), del.c_str(), got.size() - 1));
}

VF_SUITE(words, 100000, 6000000) {
	std::string_view al = rng.chance(1, 2) ? "iN " : "inINx  \xE9";
	unsigned longest = 14;
	if (rng.chance(1, 2000)) {
		longest = rng.pick({300u, 3000u, 70000u});
		al = "iiiiiiiiNnnnnnnnxxxxxxxx ";
	}
	auto name = text(rng, longest, al), word = text(rng, 3, al);
	if (rng.chance(1, 3)) {
		word = "in";
		name = text(rng, 6, al) + (rng.chance(1, 2) ? " " : "") + "In" + (rng.chance(1, 2) ? " " : "") + text(rng, 6, al);
	}
	bool want = false;
	auto n = lower(name), w = lower(word);
	for (size_t p = 0; p + w.size() <= n.size(); p++)
		if (n.compare(p, w.size(), w) == 0 && (p == 0 || n[p - 1] == ' ') && (p + w.size() == n.size() || n[p + w.size()] == ' '))
			want = true;
	VF_EQ(contains_word(name, word), want, "word-found");
	chars_defined();
	if (std::any_of(name.begin(), name.end(), [](char c) { return c < 0; }))
		VF_COVER("words_in_other_alphabets");
	if (want)
		VF_COVER("words_found");
	else if (n.find(w) != n.npos)
		VF_COVER("part_of_a_word_only");
	nontrivial(Hash{}.add(std::string_view(name)).add(std::string_view(word)));
}

VF_SUITE(case_insensitive, 100000, 6000000) {
	std::string al = "aAbB[{@`Zz\xC0\xE0\x80";
	if (rng.chance(1, 8))
		al += '\0';
	auto a = text(rng, 6, al), b = rng.chance(1, 2) ? a : text(rng, 6, al);
	for (auto &c : b)
		if (rng.chance(1, 2) && ((c | 32) >= 'a' && (c | 32) <= 'z') && (unsigned char)c < 128)
			c ^= 32;
	if (rng.chance(1, 4) && !b.empty())
		b.pop_back();
	auto la = lower(a), lb = lower(b);
	std::unique_ptr<char[]> pa(new char[a.size()]), pb(new char[b.size()]);
	std::copy(a.begin(), a.end(), pa.get());
	std::copy(b.begin(), b.end(), pb.get());
	std::string_view va(pa.get(), a.size()), vb(pb.get(), b.size());
	VF_EQ(equal_ci(va, vb), la == lb, "equal-ignoring-case");
	// as unsigned bytes, like comparing lower-cased text
	VF_EQ(less_ci(va, vb), la < lb, "less-ignoring-case");
	VF_EQ(less_ci(vb, va), lb < la, "less-ignoring-case");
	chars_defined();
	VF_CHECK((int)less_ci(va, vb) + (int)less_ci(vb, va) + (int)equal_ci(va, vb) == 1, "exactly-one-relation", "'%s' '%s'", a.c_str(), b.c_str());
	if (la == lb && a != b)
		VF_COVER("equal_but_for_case");
	nontrivial(Hash{}.add(std::string_view(a)).add(std::string_view(b)));
}
