// Property-based testing engine: choice-sequence generators, forked workers,
// crash/hang capture, integrated shrinking and replay files.
//
// A property is a set of facets; a facet is a function taking a Case. Every random
// decision goes through Case::draw, so a case *is* its sequence of choices: it can be
// recorded, replayed, and shrunk (shorter / smaller choices = simpler case).
#pragma once
#include <cstdint>
#include <cstring>
#include <functional>
#include <map>
#include <set>
#include <sstream>
#include <stdexcept>
#include <string>
#include <vector>

namespace pbt
{
struct Discard {};
struct Failure
{
	std::string msg;
};

inline uint64_t mix(uint64_t x)
{
	x += 0x9E3779B97F4A7C15ull;
	x = (x ^ (x >> 30)) * 0xBF58476D1CE4E5B9ull;
	x = (x ^ (x >> 27)) * 0x94D049BB133111EBull;
	return x ^ (x >> 31);
}

class Case
{
  public:
	// generation mode
	explicit Case(uint64_t seed) : state(seed), replay(false) {}
	// replay mode
	explicit Case(std::vector<uint64_t> s) : seq(std::move(s)), replay(true) {}

	// uniform in [0,n)
	uint64_t draw(uint64_t n)
	{
		if (n <= 1) return 0;
		uint64_t v;
		if (replay)
			v = pos < seq.size() ? seq[pos] % n : 0;
		else
			v = next() % n;
		used.push_back(v);
		++pos;
		if (used.size() > 200000) throw Discard{};
		return v;
	}
	// inclusive range. 'lo' is the simplest value.
	int64_t range(int64_t lo, int64_t hi) { return lo + int64_t(draw(uint64_t(hi - lo) + 1)); }
	// inclusive symmetric-ish range, simplest value is 0: 0,1,-1,2,-2...
	int64_t around(int64_t m)
	{
		auto v = draw(2 * m + 1);
		return (v & 1) ? int64_t((v + 1) / 2) : -int64_t(v / 2);
	}
	bool flip() { return draw(2) == 1; }
	// true with probability num/den; the simplest choice is false.
	bool chance(uint64_t num, uint64_t den) { return draw(den) >= den - num; }
	template <class T>
	const T &pick(const std::vector<T> &v)
	{
		if (v.empty()) throw Discard{};
		return v[draw(v.size())];
	}
	size_t weighted(const std::vector<unsigned> &w)
	{
		uint64_t tot = 0;
		for (auto x : w) tot += x;
		uint64_t v = draw(tot);
		for (size_t i = 0; i < w.size(); ++i)
		{
			if (v < w[i]) return i;
			v -= w[i];
		}
		return 0;
	}
	std::vector<int64_t> permutation(size_t n)
	{
		std::vector<int64_t> p(n);
		for (size_t i = 0; i < n; ++i) p[i] = i;
		for (size_t i = 0; i + 1 < n; ++i)
		{
			auto j = i + draw(n - i);
			std::swap(p[i], p[j]);
		}
		return p;
	}
	// sorted subset of size k of 0..n-1
	std::vector<int64_t> subset(size_t n, size_t k)
	{
		auto p = permutation(n);
		p.resize(k);
		std::sort(p.begin(), p.end());
		return p;
	}

	void discard() { throw Discard{}; }
	void assume(bool b)
	{
		if (!b) throw Discard{};
	}
	void label(const std::string &l) { labels.insert(l); }
	void nontrivial(bool b = true)
	{
		if (b) is_nontrivial = true;
	}
	[[noreturn]] void fail(const std::string &m) { throw Failure{m}; }

	bool want_notes = false;
	template <class F>
	void note(F &&f)
	{
		if (want_notes) notes.push_back(f());
	}

	std::vector<uint64_t> used;
	std::set<std::string> labels;
	bool is_nontrivial = false;
	std::vector<std::string> notes;

  private:
	uint64_t next()
	{
		state += 0x9E3779B97F4A7C15ull;
		return mix(state);
	}
	std::vector<uint64_t> seq;
	uint64_t state = 0;
	size_t pos = 0;
	bool replay;
};

template <class... A>
std::string cat(const A &...a)
{
	std::ostringstream o;
	o.precision(17);
	(o << ... << a);
	return o.str();
}

using Fn = std::function<void(Case &)>;
struct Facet
{
	std::string name;
	unsigned weight;     // share of the generated cases
	Fn fn;
	std::string known;   // non-empty: fixed reproduction of a known finding; its failure is reported, not raised
	unsigned cap = 0;    // if not 0, maximum number of cases whatever the tier (enumerated facets)
};
std::vector<Facet> &facets();
// called in every worker before the first case, and before every case.
extern std::function<void()> worker_init;
extern std::function<void()> case_init;
// text of the nontriviality rule, shown in the evidence.
extern std::string rule_text;
// default number of cases (quick), and factor for thorough.
extern unsigned quick_cases, thorough_cases;
extern std::vector<std::string> assumptions;

struct Reg
{
	Reg(const char *name, unsigned w, Fn f, const char *known = "", unsigned cap = 0)
	{
		facets().push_back({name, w, std::move(f), known, cap});
	}
};
} // namespace pbt

#define PBT_CAT2(a, b) a##b
#define PBT_CAT(a, b) PBT_CAT2(a, b)
#define FACET(ident, weight)                                      \
	static void ident(pbt::Case &c);                              \
	static pbt::Reg PBT_CAT(reg_, ident)(#ident, weight, ident);  \
	static void ident([[maybe_unused]] pbt::Case &c)
// A facet that replays one specific defect that is recorded, not repaired.
#define KNOWN_FACET(ident, text)                                        \
	static void ident(pbt::Case &c);                                    \
	static pbt::Reg PBT_CAT(reg_, ident)(#ident, 1, ident, text, 1);    \
	static void ident([[maybe_unused]] pbt::Case &c)

#define PROP(cond, ...)                                                                            \
	do                                                                                             \
	{                                                                                              \
		if (!(cond)) c.fail(pbt::cat(__FILE__ ":", __LINE__, ": [", #cond, "] ", ##__VA_ARGS__));  \
	} while (0)

// expr must throw; anything else is a failure. A known exception type is not required by default.
#define MUST_THROW(expr, ...)                                                                                   \
	do                                                                                                          \
	{                                                                                                           \
		bool pbt_thrown = false;                                                                                \
		try                                                                                                     \
		{                                                                                                       \
			(void)(expr);                                                                                       \
		}                                                                                                       \
		catch (const std::exception &)                                                                          \
		{                                                                                                       \
			pbt_thrown = true;                                                                                  \
		}                                                                                                       \
		if (!pbt_thrown) c.fail(pbt::cat(__FILE__ ":", __LINE__, ": no exception from [", #expr, "] ", ##__VA_ARGS__)); \
	} while (0)
