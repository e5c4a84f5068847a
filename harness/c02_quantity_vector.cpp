// C02: a list of type-erased charges behaves like an ordinary sequence (model: std::vector of integer codes).
#include "pbt.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include <algorithm>
#include <string>
using namespace quantit;
using namespace quantit::conserved;
using pbt::cat;
using AV = any_quantity_vector;
std::string pbt::rule_text =
    "a case is a history of 1 to 40 operations on three lists of charges and their models; non-trivial when at least 6 operations ran, a list "
    "reached 4 entries with at least 2 different values, and at least two kinds of modification were used";
unsigned pbt::quick_cases = 120000, pbt::thorough_cases = 2000000;
std::vector<std::string> pbt::assumptions = {"positions and iterators handed to the list are valid for it, as for std::vector"};
std::function<void()> pbt::worker_init, pbt::case_init;

// eight distinct values of each kind, 0 being neutral
template <class T>
T value(int k);
using T1 = quantity<Z>;
using T2 = quantity<C<2>, Z>;
using T3 = quantity<C<5>>;
using T4 = quantity<Z, Z, C<3>>;
using T5 = quantity<Z, C<2>, C<3>, Z, Z>; // the element size is not a power of two
template <>
T1 value<T1>(int k) { return T1(k < 4 ? k : 3 - k); }
template <>
T2 value<T2>(int k) { return T2(k % 2, k / 2 - (k > 5 ? 4 : 0)); }
template <>
T3 value<T3>(int k) { return T3(k % 5); }
template <>
T4 value<T4>(int k) { return T4(k & 1, -(k >> 1 & 1), 2 * (k >> 2 & 1)); }
template <>
T5 value<T5>(int k) { return T5(k & 1, k >> 1 & 1, 2 * (k >> 2 & 1), 0, k & 1); }
template <class T>
int nval() { return std::is_same_v<T, T3> ? 5 : 8; }

template <class T>
struct Hist
{
	pbt::Case &c;
	struct L
	{
		AV v;
		std::vector<int> m;
		bool init = false; // holds a concrete type
	};
	L l[3];
	std::string log;
	int ops = 0;
	size_t biggest = 0;
	bool various = false;
	std::set<int> kinds;
	Hist(pbt::Case &c) : c(c) {}
	int code() { return (int)c.draw(nval<T>()); }
	static any_quantity val(int k) { return any_quantity(value<T>(k)); }
	any_quantity other_kind()
	{
		if (std::is_same_v<T, T1>) return any_quantity(T2(1, 1));
		return any_quantity(T1(1));
	}
	AV make(const std::vector<int> &m)
	{
		if (m.empty()) return AV(0, value<T>(0));
		switch (c.draw(4))
		{
		case 0:
		{
			quantity_vector<T> q;
			for (auto k : m) q.push_back(value<T>(k));
			return AV(static_cast<const vquantity_vector &>(q));
		}
		case 1:
		{
			quantity_vector<T> q;
			for (auto k : m) q.push_back(value<T>(k));
			return AV(std::move(q));
		}
		case 2:
		{
			AV r;
			for (auto k : m) r.push_back(val(k));
			return r;
		}
		default:
			if (m.size() == 1) return AV{val(m[0])};
			if (m.size() == 2) return AV{val(m[0]), val(m[1])};
			if (m.size() == 3) return c.flip() ? AV{val(m[0]), val(m[1]), val(m[2])} : AV{value<T>(m[0]), value<T>(m[1]), value<T>(m[2])};
			AV r(m.size(), value<T>(m[0]));
			for (size_t i = 0; i < m.size(); ++i) r[i] = val(m[i]);
			return r;
		}
	}
	std::vector<int> codes(int maxn)
	{
		std::vector<int> r(c.range(0, maxn));
		for (auto &x : r) x = code();
		return r;
	}
	std::string show(const std::vector<int> &m)
	{
		std::string s = "{";
		for (auto x : m) s += std::to_string(x) + " ";
		return s + "}";
	}
	void check(L &x, int which)
	{
		const AV &cv = x.v;
		auto &m = x.m;
		PROP(cv.size() == m.size(), "list ", which, " has ", cv.size(), " entries, expected ", m.size(), " after ", log);
		PROP(cv.empty() == m.empty(), "after ", log);
		for (size_t i = 0; i < m.size(); ++i)
		{
			PROP(cv[i] == val(m[i]), "entry ", i, " of list ", which, " is not value ", m[i], " after ", log);
			PROP(x.v[i] == value<T>(m[i]), "after ", log);
			PROP(cv.at(i) == val(m[i]), "after ", log);
		}
		size_t i = 0;
		for (auto it = cv.begin(); it != cv.end(); ++it, ++i) PROP(i < m.size() && *it == val(m[i]), "iteration of list ", which, " after ", log);
		PROP(i == m.size(), "iteration of list ", which, " stopped at ", i, " after ", log);
		i = 0;
		for (auto it = x.v.begin(); it != x.v.end(); ++it, ++i) PROP(i < m.size() && *it == val(m[i]), "after ", log);
		PROP(i == m.size());
		if (x.init)
		{
			i = m.size();
			for (auto it = cv.rbegin(); it != cv.rend(); ++it) { PROP(i > 0 && *it == val(m[--i]), "reverse iteration of list ", which, " after ", log); }
			PROP(i == 0, "after ", log);
			MUST_THROW(cv.at(m.size()), "after ", log);
			MUST_THROW(x.v.at(m.size()), "after ", log);
			PROP(cv.capacity() >= m.size());
			PROP(cv.end() - cv.begin() == ptrdiff_t(m.size()));
		}
		if (!m.empty())
		{
			PROP(cv.front() == val(m.front()) && x.v.front() == val(m.front()), "after ", log);
			PROP(cv.back() == val(m.back()) && x.v.back() == val(m.back()), "after ", log);
			PROP(x.v.data() == x.v.begin().base() && cv.data() == cv.begin().base());
			auto p = c.draw(m.size());
			PROP(*(cv.begin() + p) == val(m[p]) && *(cv.end() - (m.size() - p)) == val(m[p]) && cv.begin()[p] == val(m[p]), "after ", log);
		}
		biggest = std::max(biggest, m.size());
		various |= m.size() >= 4 && std::set<int>(m.begin(), m.end()).size() > 1;
	}
	void step()
	{
		++ops;
		auto which = c.draw(3);
		L &x = l[which];
		L &y = l[c.draw(3)];
		auto &m = x.m;
		auto pos = [&](const std::vector<int> &m) { return c.draw(m.size() + 1); };
		int op = (int)c.draw(24);
		kinds.insert(op);
		log += " " + std::to_string(which) + ":";
		if (!x.init && op >= 2 && op <= 10)
		{
			log += "push on empty";
			auto k = code();
			if (c.flip()) { x.v.push_back(val(k)); m.push_back(k); }
			else { x.v.resize(2, val(k)); m.assign(2, k); }
			x.init = true;
			return;
		}
		switch (op)
		{
		case 0:
		{
			m = codes(6);
			log += "make " + show(m);
			x.v = make(m);
			x.init = true;
			return;
		}
		case 1:
		{
			auto k = code();
			log += "push " + std::to_string(k);
			if (x.init && !m.empty() && c.chance(1, 4))
			{ // an entry of the same list
				auto p = c.draw(m.size());
				x.v.push_back(x.v[p]);
				m.push_back(int(m[p]));
				return;
			}
			x.v.push_back(val(k));
			m.push_back(k);
			x.init = true;
			return;
		}
		case 2:
		{
			auto p = pos(m);
			auto k = code();
			log += cat("insert ", k, "@", p);
			auto it = x.v.insert(x.v.cbegin() + p, val(k));
			m.insert(m.begin() + p, k);
			PROP(*it == val(k) && it - x.v.begin() == ptrdiff_t(p), "iterator returned after ", log);
			return;
		}
		case 3:
		{ // an entry of the list itself
			if (m.empty()) return;
			auto p = pos(m), s = c.draw(m.size());
			log += cat("insert own ", s, "@", p);
			int k = m[s];
			auto it = x.v.insert(x.v.cbegin() + p, x.v[s]);
			m.insert(m.begin() + p, k);
			PROP(*it == val(k), "after ", log);
			return;
		}
		case 4:
		{
			auto p = pos(m), n = c.draw(4);
			auto k = code();
			log += cat("insert ", n, "x", k, "@", p);
			auto it = x.v.insert(x.v.cbegin() + p, n, val(k));
			m.insert(m.begin() + p, n, k);
			PROP(it - x.v.begin() == ptrdiff_t(p), "after ", log);
			return;
		}
		case 5:
		{
			if (&x == &y || !y.init) return;
			auto p = pos(m), a = c.draw(y.m.size() + 1), b = a + c.draw(y.m.size() - a + 1);
			log += cat("insert range ", a, "-", b, "@", p);
			const AV &cy = y.v;
			auto it = x.v.insert(x.v.cbegin() + p, cy.begin() + a, cy.begin() + b);
			m.insert(m.begin() + p, y.m.begin() + a, y.m.begin() + b);
			PROP(it - x.v.begin() == ptrdiff_t(p), "after ", log);
			return;
		}
		case 6:
		{
			if (&x == &y || !y.init) return;
			auto p = pos(m), a = c.draw(y.m.size() + 1), b = a + c.draw(y.m.size() - a + 1);
			log += cat("insert reversed range ", a, "-", b, "@", p);
			const AV &cy = y.v;
			auto it = x.v.insert(x.v.cbegin() + p, cy.rbegin() + a, cy.rbegin() + b);
			m.insert(m.begin() + p, y.m.rbegin() + a, y.m.rbegin() + b);
			PROP(it - x.v.begin() == ptrdiff_t(p), "after ", log);
			return;
		}
		case 7:
		{
			if (m.empty()) return;
			auto p = c.draw(m.size());
			log += cat("erase ", p);
			auto it = x.v.erase(x.v.cbegin() + p);
			m.erase(m.begin() + p);
			PROP(it - x.v.begin() == ptrdiff_t(p) && (it == x.v.end()) == (p == m.size()), "after ", log);
			return;
		}
		case 8:
		{
			auto a = pos(m), b = a + c.draw(m.size() - a + 1);
			log += cat("erase ", a, "-", b);
			auto it = x.v.erase(x.v.cbegin() + a, x.v.cbegin() + b);
			m.erase(m.begin() + a, m.begin() + b);
			PROP(it - x.v.begin() == ptrdiff_t(a), "after ", log);
			return;
		}
		case 9:
		{
			if (m.empty()) return;
			log += "pop";
			x.v.pop_back();
			m.pop_back();
			return;
		}
		case 10:
		{
			auto n = c.draw(10);
			log += cat("resize ", n);
			if (c.flip())
			{
				x.v.resize(n);
				m.resize(n, 0);
			}
			else if (!m.empty() && c.flip())
			{
				auto s = c.draw(m.size());
				int k = m[s];
				x.v.resize(n, x.v[s]);
				m.resize(n, k);
			}
			else
			{
				auto k = code();
				x.v.resize(n, val(k));
				m.resize(n, k);
			}
			return;
		}
		case 11:
		{
			log += "clear";
			x.v.clear();
			m.clear();
			return;
		}
		case 12:
		{
			log += "reserve";
			x.v.reserve(c.draw(30));
			if (c.flip()) x.v.shrink_to_fit();
			return;
		}
		case 13:
		case 14:
		{ // copies are independent
			log += "copy";
			if (c.flip())
				y.v = x.v;
			else
			{
				AV t(x.v);
				y.v = t;
				if (!t.empty()) t[0] = val((m[0] + 1) % nval<T>());
			}
			y.m = x.m;
			y.init = x.init;
			if (&y != &x && !y.m.empty())
			{
				auto p = c.draw(y.m.size());
				auto k = code();
				y.v[p] = val(k);
				y.m[p] = k;
			}
			return;
		}
		case 15:
		{
			log += "move";
			AV t(std::move(x.v));
			y.v = std::move(t);
			if (&x != &y)
			{
				y.m = x.m;
				y.init = x.init;
				x.v = AV();
				x.m.clear();
				x.init = false;
			}
			return;
		}
		case 16:
		{
			log += "swap";
			c.flip() ? x.v.swap(y.v) : swap(x.v, y.v);
			std::swap(x.m, y.m);
			std::swap(x.init, y.init);
			return;
		}
		case 17:
		case 18:
		{ // write through a reference
			if (m.empty()) return;
			auto p = c.draw(m.size());
			auto k = code();
			log += cat("write ", k, "@", p);
			switch (c.draw(5))
			{
			case 0: x.v[p] = val(k); break;
			case 1: x.v.at(p) = val(k); break;
			case 2: *(x.v.begin() + p) = val(k); break;
			case 3:
			{
				any_quantity_ref r = x.v[p];
				r = val(k);
				break;
			}
			default:
			{
				auto it = x.v.begin();
				for (size_t i = 0; i < p; ++i) ++it;
				*it = val(k);
			}
			}
			m[p] = k;
			return;
		}
		case 19:
		{ // swap two entries, assign one from another
			if (m.size() < 2) return;
			auto p = c.draw(m.size()), q = c.draw(m.size());
			log += cat("exchange ", p, ",", q);
			if (c.flip())
			{
				swap(x.v[p], x.v[q]);
				std::swap(m[p], m[q]);
			}
			else
			{
				x.v[p] = x.v[q];
				m[p] = m[q];
			}
			return;
		}
		case 20:
		{ // permutation of consecutive groups
			if (!x.init) return;
			std::vector<int64_t> rep;
			size_t tot = 0;
			while (tot < m.size())
			{
				auto r = c.draw(std::min<size_t>(4, m.size() - tot + 1));
				rep.push_back(r);
				tot += r;
				if (rep.size() > 12) { rep.push_back(m.size() - tot); tot = m.size(); }
			}
			auto p = c.permutation(rep.size());
			log += "permute";
			auto r = x.v.permute(p.data(), p.data() + p.size(), rep);
			std::vector<int> out;
			for (auto i : p)
			{
				size_t s = 0;
				for (int64_t j = 0; j < i; ++j) s += rep[j];
				out.insert(out.end(), m.begin() + s, m.begin() + s + rep[i]);
			}
			y.v = r;
			y.m = out;
			y.init = true;
			return;
		}
		case 21:
		{ // another kind of charge is refused, and nothing changes
			if (!x.init) return;
			auto o = other_kind();
			log += "refuse";
			switch (c.draw(6))
			{
			case 0: MUST_THROW(x.v.push_back(o), log); break;
			case 1: MUST_THROW(x.v.insert(x.v.cbegin(), o), log); break;
			case 2: MUST_THROW(x.v.insert(x.v.cbegin(), 2, o), log); break;
			case 3:
			{
				AV t(2, o);
				const AV &ct = t;
				MUST_THROW(x.v.insert(x.v.cbegin(), ct.begin(), ct.end()), log);
				break;
			}
			case 4: MUST_THROW(x.v.resize(m.size() + 1, o), log); break;
			default:
				if (!m.empty())
				{
					MUST_THROW(x.v[0] = o, log);
					MUST_THROW(x.v[m.size() - 1] *= o, log);
				}
			}
			return;
		}
		case 22:
		{
			log += "compare";
			if (x.init || y.init)
			{
				bool eq = x.init && y.init && m == y.m;
				PROP((x.v == y.v) == eq, "after ", log);
				PROP((x.v != y.v) == !eq, "after ", log);
			}
			return;
		}
		default:
		{ // combine entries in place
			if (m.empty()) return;
			auto p = c.draw(m.size());
			log += cat("invert ", p);
			auto want = val(m[p]).inverse();
			AV t(x.v);
			t[p].inverse_();
			PROP(t[p] == want, "after ", log);
			t[p] *= val(m[p]);
			PROP(t[p] == val(0), "after ", log);
			for (size_t i = 0; i < m.size(); ++i) PROP(i == p || t[i] == val(m[i]), "another entry changed after ", log);
			return;
		}
		}
	}
	void run()
	{
		auto steps = c.range(1, 40);
		for (int64_t i = 0; i < steps; ++i)
		{
			step();
			for (int j = 0; j < 3; ++j) check(l[j], j);
		}
		c.nontrivial(ops >= 6 && biggest >= 4 && various && kinds.size() > 1);
		if (biggest > 16) c.label("more than 16 entries");
		c.note([&] { return log; });
	}
};
FACET(integers, 2) { Hist<T1>(c).run(); }
FACET(pairs, 2) { Hist<T2>(c).run(); }
FACET(cyclic, 1) { Hist<T3>(c).run(); }
FACET(triples, 1) { Hist<T4>(c).run(); }
FACET(quintuples, 2) { Hist<T5>(c).run(); }
