// C03: the block map behaves like a sorted map with unique keys (model: std::map).
#include "pbt.h"
#include "blockTensor/flat_map.h"
#include <algorithm>
#include <list>
#include <map>
#include <string>
using quantit::flat_map;
using pbt::cat;
std::string pbt::rule_text =
    "a case is a history of 1 to 40 operations on two maps and their models; non-trivial when at least 5 operations ran, the map reached at "
    "least 3 entries, and at least one key collided";
unsigned pbt::quick_cases = 150000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {
    "the maps merged with each other have the same order of keys"};
std::function<void()> pbt::worker_init, pbt::case_init;

template <class K>
static K key(int k);
template <>
int key<int>(int k)
{
	return k;
}
template <>
std::string key<std::string>(int k)
{
	return std::string(1 + (k & 1), char('a' + k / 2));
}
template <>
std::vector<int64_t> key<std::vector<int64_t>>(int k)
{
	return {k / 9, (k / 3) % 3, k % 3};
}
static std::string ks(int k) { return std::to_string(k); }
static std::string ks(const std::string &k) { return k; }
static std::string ks(const std::vector<int64_t> &k) { return cat(k[0], ",", k[1], ",", k[2]); }

struct Coarse
{
	bool operator()(int a, int b) const { return a / 2 < b / 2; }
};
// the order is a value
struct Switched
{
	int mode = 0;
	int at(int k) const { return mode == 0 ? k : mode == 1 ? -k : (k % 3) * 100 + k; }
	bool operator()(int a, int b) const { return at(a) < at(b); }
};
template <class K, class Less>
struct Hist
{
	static constexpr bool switched = std::is_same_v<Less, Switched>;
	static constexpr bool coarse = std::is_same_v<Less, Coarse>;
	static bool same(const K &a, const K &b) { return !Less()(a, b) && !Less()(b, a); }
	using A = std::allocator<std::pair<K, std::string>>;
	Less draw_order()
	{
		if constexpr (switched) return Switched{(int)c.draw(3)};
		else return Less();
	}
	static bool is_default(const Less &l)
	{
		if constexpr (switched) return l.mode == 0;
		else return true;
	}
	// whether the two maps have the same order
	bool aligned()
	{
		if constexpr (switched) return m.key_comp().mode == n.key_comp().mode;
		else return true;
	}
	using F = flat_map<K, std::string, Less>;
	using M = std::map<K, std::string, Less>;
	pbt::Case &c;
	F f, g;
	M m, n;
	int collisions = 0, ops = 0, keys;
	size_t biggest = 0;
	int serial = 0;
	std::string log;
	Hist(pbt::Case &c) : c(c)
	{
		keys = c.flip() ? 26 : 6;
		if (switched)
		{
			auto a = draw_order(), b = draw_order();
			f = F(a), m = M(a), g = F(b), n = M(b);
		}
	}
	K k() { return key<K>((int)c.draw(keys)); }
	std::string v() { return "v" + std::to_string(serial++); }
	void check(const F &f, const M &m, const char *which)
	{
		PROP(f.size() == m.size(), which, " has ", f.size(), " entries, expected ", m.size(), " after ", log);
		PROP(f.empty() == m.empty());
		auto it = m.begin();
		for (auto &x : f)
		{
			PROP(x.first == it->first, which, ": key ", ks(x.first), " instead of ", ks(it->first), " after ", log);
			PROP(x.second == it->second, which, ": key ", ks(x.first), " holds ", x.second, " instead of ", it->second, " after ", log);
			++it;
		}
		PROP(size_t(f.end() - f.begin()) == m.size());
		PROP(f.cbegin() == f.begin() && f.cend() == f.end());
		if (m.size() > 1)
		{
			auto a = f.begin()->first, b = (f.end() - 1)->first;
			PROP(f.key_comp()(a, b) && !f.key_comp()(b, a), which, ": the order of keys is not the one of the map after ", log);
			PROP(f.value_comp()(*f.begin(), *(f.end() - 1)) && !f.value_comp()(*(f.end() - 1), *f.begin()), which, ": the order of values is not the one of the map after ", log);
		}
		auto rt = m.rbegin();
		for (auto r = f.rbegin(); r != f.rend(); ++r, ++rt) PROP((*r).first == rt->first && (*r).second == rt->second, "reverse iteration after ", log);
	}
	void lookups()
	{
		auto kk = k();
		const F &cf = f;
		auto it = m.find(kk);
		bool has = it != m.end();
		PROP(f.contains(kk) == has, ks(kk), " after ", log);
		PROP(cf.count(kk) == (has ? 1u : 0u), ks(kk), " after ", log);
		auto fi = f.find(kk);
		auto ci = cf.find(kk);
		PROP((fi == f.end()) == !has, "find ", ks(kk), " after ", log);
		PROP((ci == cf.end()) == !has, "find ", ks(kk), " after ", log);
		if (has) PROP(same(fi->first, kk) && fi->second == it->second && ci->second == it->second, "find ", ks(kk), " after ", log);
		auto [a, b] = f.equal_range(kk);
		PROP(b - a == (has ? 1 : 0), "equal_range ", ks(kk), " after ", log);
		if (has)
		{
			PROP(same(a->first, kk));
			PROP(f.at(kk) == it->second && cf.at(kk) == it->second, "at ", ks(kk), " after ", log);
		}
		else
		{
			MUST_THROW(f.at(kk), ks(kk), " after ", log);
			MUST_THROW(cf.at(kk), ks(kk), " after ", log);
		}
		auto lm = m.lower_bound(kk), um = m.upper_bound(kk);
		PROP(f.lower_bound(kk) - f.begin() == std::distance(m.begin(), lm), "lower_bound ", ks(kk), " after ", log);
		PROP(cf.lower_bound(kk) - cf.begin() == std::distance(m.begin(), lm), "lower_bound ", ks(kk), " after ", log);
		PROP(f.upper_bound(kk) - f.begin() == std::distance(m.begin(), um), "upper_bound ", ks(kk), " after ", log);
		PROP(cf.upper_bound(kk) - cf.begin() == std::distance(m.begin(), um), "upper_bound ", ks(kk), " after ", log);
	}
	std::vector<std::pair<K, std::string>> items(int maxn)
	{
		std::vector<std::pair<K, std::string>> r;
		auto cnt = c.range(0, maxn);
		for (int64_t i = 0; i < cnt; ++i) { auto kk = k(); r.push_back({kk, v()}); }
		return r;
	}
	// reference semantics of inserting a sorted source with callbacks
	void model_merge(M &m, const M &src, bool coll, bool nocoll)
	{
		for (auto &x : src)
		{
			auto it = m.find(x.first);
			if (it != m.end())
			{
				++collisions;
				if (coll) it->second = "<" + it->second + "+" + x.second + ">";
			}
			else
				m[x.first] = nocoll ? "n" + x.second : x.second;
		}
	}
	void step()
	{
		++ops;
		auto coll = [](auto &a, auto &b) { a = "<" + a + "+" + b + ">"; };
		auto noc = [](auto &a) { a = "n" + a; };
		switch (c.draw(32))
		{
		case 0:
		{ // plain insertion
			auto kk = k();
			auto vv = v();
			log += " insert(" + ks(kk) + ")";
			std::pair<K, std::string> p{kk, vv};
			const auto cp = p;
			auto how = c.draw(3);
			auto [it, ok] = how == 0 ? f.insert(p) : how == 1 ? f.insert(cp) : f.insert(std::move(p));
			auto [mt, mok] = m.insert({kk, vv});
			PROP(ok == mok, "insertion outcome after ", log);
			PROP(same(it->first, kk) && it->second == mt->second, "iterator after ", log);
			collisions += !mok;
			return;
		}
		case 1:
		{
			auto kk = k();
			auto vv = v();
			log += " insert(make_pair " + ks(kk) + ")";
			auto [it, ok] = f.insert(std::pair<const K, const char *>(kk, vv.c_str()));
			auto [mt, mok] = m.insert({kk, vv});
			PROP(ok == mok && it->second == mt->second, "after ", log);
			return;
		}
		case 2:
		case 3:
		{ // hinted insertion with any hint
			auto kk = k();
			auto vv = v();
			auto h = c.draw(f.size() + 1);
			log += " insert(hint " + std::to_string(h) + "," + ks(kk) + ")";
			std::pair<K, std::string> p{kk, vv};
			auto it = c.flip() ? f.insert(f.cbegin() + h, p) : f.insert(f.cbegin() + h, std::move(p));
			auto r = m.insert({kk, vv});
			collisions += !r.second;
			PROP(it != f.end() && same(it->first, kk) && it->second == m[kk], "iterator returned after ", log);
			return;
		}
		case 4:
		case 5:
		{ // hinted emplacement
			auto kk = k();
			auto vv = v();
			auto h = c.draw(f.size() + 1);
			log += " emplace(hint " + std::to_string(h) + "," + ks(kk) + ")";
			auto [it, ok] = c.flip() ? f.emplace(f.cbegin() + h, kk, vv) : f.emplace(f.begin() + h, kk, vv);
			auto r = m.insert({kk, vv});
			collisions += !r.second;
			PROP(ok == r.second, "outcome after ", log);
			PROP(it != f.end() && same(it->first, kk) && it->second == m[kk], "iterator returned after ", log);
			return;
		}
		case 6:
		{
			auto kk = k();
			auto vv = v();
			log += " [" + ks(kk) + "]=";
			f[kk] = vv;
			m[kk] = vv;
			return;
		}
		case 7:
		{
			auto kk = k();
			log += " [" + ks(kk) + "]";
			PROP(f[kk] == m[kk], "after ", log);
			return;
		}
		case 8:
		{
			auto kk = k();
			log += " erase(" + ks(kk) + ")";
			auto a = f.erase(kk);
			auto b = m.erase(kk);
			PROP(a == b, "number of erased entries after ", log);
			return;
		}
		case 9:
		{
			if (f.empty()) return;
			auto h = c.draw(f.size());
			log += " erase(it " + std::to_string(h) + ")";
			auto it = c.flip() ? f.erase(f.cbegin() + h) : f.erase(f.begin() + h);
			auto mt = m.erase(std::next(m.begin(), h));
			PROP(it - f.begin() == (ptrdiff_t)h && (it == f.end()) == (mt == m.end()), "after ", log);
			return;
		}
		case 10:
		{
			auto a = c.draw(f.size() + 1), b = a + c.draw(f.size() - a + 1);
			if (b - a > 3) b = a + 3;
			log += " erase(range)";
			auto it = c.flip() ? f.erase(f.cbegin() + a, f.cbegin() + b) : f.erase(f.begin() + a, f.begin() + b);
			m.erase(std::next(m.begin(), a), std::next(m.begin(), b));
			PROP(it - f.begin() == (ptrdiff_t)a, "after ", log);
			return;
		}
		case 11:
		{ // fill the other map from an unsorted range, duplicates included: the first one wins
			auto it = items(c.flip() ? 5 : 40);
			log += " other=range(" + std::to_string(it.size()) + ")";
			auto how = c.draw(3);
			auto l = draw_order();
			if (!is_default(l)) how = 3;
			g = how == 0 ? F(it.begin(), it.end()) : how == 1 ? F(it) : how == 2 ? F(std::vector<std::pair<K, std::string>>(it)) : F(it.begin(), it.end(), l);
			n = M(it.begin(), it.end(), l);
			return;
		}
		case 12:
		{ // range insertion from a map
			bool cl = c.flip(), nc = c.flip();
			if (!aligned()) return;
			log += " insert(other range)";
			const F &cg = g;
			auto a = c.draw(g.size() + 1), b = a + c.draw(g.size() - a + 1);
			if (nc)
				cl ? f.insert(cg.begin() + a, cg.begin() + b, coll, noc) : f.insert(cg.begin() + a, cg.begin() + b, [](auto &, auto &) {}, noc);
			else if (cl)
				f.insert(cg.begin() + a, cg.begin() + b, coll);
			else
				f.insert(cg.begin() + a, cg.begin() + b);
			M s(std::next(n.begin(), a), std::next(n.begin(), b), n.key_comp());
			model_merge(m, s, cl, nc);
			return;
		}
		case 13:
		case 14:
		{
			auto how = c.draw(3);
			if (!aligned()) return;
			log += " merge(other," + std::to_string(how) + ")";
			const F &cg = g;
			how == 0 ? f.merge(cg) : how == 1 ? f.merge(cg, coll) : f.merge(cg, coll, noc);
			model_merge(m, n, how > 0, how > 1);
			return;
		}
		case 15:
		case 16:
		{ // merge from a temporary, with or without spare room in it
			auto how = c.range(0, 2);
			if (!aligned()) return;
			F t(g);
			bool room = c.flip() && !coarse; // the keys of the temporary may be kept
			if (room) t.reserve(t.size() + f.size() + c.draw(2));
			log += " merge(moved other," + std::to_string(how) + (room ? ",room" : "") + ")";
			how == 0 ? f.merge(std::move(t)) : how == 1 ? f.merge(std::move(t), coll) : f.merge(std::move(t), coll, noc);
			model_merge(m, n, how > 0, how > 1);
			return;
		}
		case 17:
		{ // unsorted range with a commutative collision
			auto it = items(30);
			log += " insert(unsorted " + std::to_string(it.size()) + ")";
			switch (c.draw(4))
			{
			case 0: f.insert(it.begin(), it.end(), [](auto &, auto &) {}); break;
			case 1: f.insert(it.begin(), it.end()); break;
			case 2:
			{
				std::list<std::pair<K, std::string>> l(it.begin(), it.end());
				f.insert(l.begin(), l.end());
				break;
			}
			default:
			{
				std::multimap<K, std::string, Less> l;
				for (auto &x : it) l.insert(x);
				f.insert(l.begin(), l.end());
			}
			}
			for (auto &x : it) collisions += !m.insert(x).second;
			return;
		}
		case 18:
		{
			log += " swap";
			c.flip() ? f.swap(g) : g.swap(f);
			m.swap(n);
			return;
		}
		case 19:
		{
			log += " copy";
			switch (c.draw(3))
			{
			case 0: g = f; break;
			case 1: g = F(f); break;
			default:
			{
				F t(f);
				g = std::move(t);
			}
			}
			n = m;
			// the copy is independent
			auto kk = k();
			g[kk] = "changed";
			n[kk] = "changed";
			return;
		}
		case 20:
		{
			if (c.flip())
			{
				log += " clear";
				f.clear();
				m.clear();
			}
			else
			{
				log += " reserve";
				f.reserve(c.draw(50));
				f.shrink_to_fit();
			}
			return;
		}
		case 21:
		{ // equality
			PROP((f == g) == (m == n), "equality after ", log);
			PROP(f == F(f));
			return;
		}
		case 22:
		case 23:
		{
			auto kk = k();
			auto vv = v();
			bool hinted = c.flip();
			auto h = c.draw(f.size() + 1);
			log += " insert_or_assign(" + (hinted ? "hint " + std::to_string(h) + "," : std::string()) + ks(kk) + ")";
			bool had = m.count(kk);
			K t = kk;
			if (hinted)
			{
				auto it = c.flip() ? f.insert_or_assign(f.cbegin() + h, kk, vv) : f.insert_or_assign(f.cbegin() + h, std::move(t), vv.c_str());
				PROP(it != f.end() && same(it->first, kk) && it->second == vv, "iterator returned after ", log);
			}
			else
			{
				auto [it, ok] = c.flip() ? f.insert_or_assign(kk, vv) : f.insert_or_assign(std::move(t), vv.c_str());
				PROP(ok == !had, "outcome after ", log);
				PROP(it != f.end() && same(it->first, kk) && it->second == vv, "iterator returned after ", log);
			}
			m.insert_or_assign(kk, vv);
			collisions += had;
			return;
		}
		case 24:
		case 25:
		{
			auto kk = k();
			bool hinted = c.flip();
			auto h = c.draw(f.size() + 1);
			auto nargs = c.draw(3);
			auto vv = nargs == 0 ? std::string() : nargs == 1 ? v() : std::string(4, 'x');
			log += " try_emplace(" + (hinted ? "hint " + std::to_string(h) + "," : std::string()) + ks(kk) + ")";
			bool had = m.count(kk);
			K t = kk;
			auto go = [&](auto &&...hint)
			{
				switch (nargs)
				{
				case 0: return c.flip() ? f.try_emplace(hint..., kk) : f.try_emplace(hint..., std::move(t));
				case 1: return c.flip() ? f.try_emplace(hint..., kk, vv) : f.try_emplace(hint..., std::move(t), vv);
				default: return c.flip() ? f.try_emplace(hint..., kk, 4, 'x') : f.try_emplace(hint..., std::move(t), 4, 'x');
				}
			};
			auto [it, ok] = hinted ? go(f.cbegin() + h) : go();
			auto r = m.try_emplace(kk, vv);
			PROP(ok == !had, "outcome after ", log);
			PROP(it != f.end() && same(it->first, kk) && it->second == r.first->second, "iterator returned after ", log);
			collisions += had;
			return;
		}
		case 26:
		{
			auto kk = k();
			auto vv = v();
			log += " emplace(" + ks(kk) + ")";
			auto [it, ok] = c.flip() ? f.emplace(kk, vv) : f.emplace(std::pair<K, std::string>(kk, vv));
			auto r = m.emplace(kk, vv);
			PROP(ok == r.second, "outcome after ", log);
			PROP(it != f.end() && same(it->first, kk) && it->second == r.first->second, "iterator returned after ", log);
			collisions += !ok;
			return;
		}
		case 27:
		{
			auto a = k(), b = k(), d = k();
			log += " other = list(" + ks(a) + " " + ks(b) + " " + ks(d) + ")";
			auto va = v(), vb = v(), vd = v();
			switch (c.draw(4))
			{
			case 0: g = {{a, va}, {b, vb}, {d, vd}}, n.clear(); break;
			case 1: g = F({{a, va}, {b, vb}, {d, vd}}), n = M(); break;
			case 2: g = F({{a, va}, {b, vb}, {d, vd}}, A()), n = M(); break;
			default:
			{
				auto l = draw_order();
				g = F({{a, va}, {b, vb}, {d, vd}}, typename F::value_compare(l), A()), n = M(l);
			}
			}
			n.insert({a, va});
			n.insert({b, vb});
			n.insert({d, vd});
			return;
		}
		case 28:
		{ // every way to make an empty map or to take the entries of another
			auto how = c.draw(9);
			auto l = draw_order();
			log += " other constructed " + std::to_string(how);
			switch (how)
			{
			case 0: g = F(), n = M(); break;
			case 1: g = F(l), n = M(l); break;
			case 2:
			{
				auto cap = c.draw(40);
				F t(cap, l);
				PROP(t.capacity() >= cap && t.empty(), "a capacity of ", t.capacity(), " instead of ", cap, " after ", log);
				g = std::move(t), n = M(l);
				break;
			}
			case 3: g = F(A()), n = M(); break;
			case 4: g = F(f, A()), n = m; break;
			case 5: g = F(F(f), A()), n = m; break;
			case 6: g = F(f.begin(), f.end(), l), n = M(m.begin(), m.end(), l); break;
			case 7: g = F(f.begin(), f.end(), A()), n = M(m.begin(), m.end()); break;
			default:
			{
				auto it = items(20);
				g = F(it.begin(), it.end(), A()), n = M(it.begin(), it.end());
			}
			}
			return;
		}
		case 29:
		{ // merge of a map with another order
			using R = std::conditional_t<std::is_same_v<Less, std::greater<K>>, std::less<K>, std::greater<K>>;
			auto it = items(20);
			log += " merge(reversed " + std::to_string(it.size()) + ")";
			const flat_map<K, std::string, R> r(it.begin(), it.end());
			std::map<K, std::string, R> s(it.begin(), it.end());
			f.merge(r);
			for (auto &x : s) collisions += !m.insert(x).second;
			return;
		}
		default:
		{ // keys changed in place, then sorted again
			if constexpr (std::is_same_v<K, int>)
			{
				log += " rekey";
				M t(m.key_comp());
				for (auto &x : m) t[25 - x.first] = x.second;
				for (auto &x : f) x.first = 25 - x.first;
				c.flip() ? f.sort() : f.sort(f.begin(), f.end());
				m = t;
			}
			return;
		}
		}
	}
	void run()
	{
		auto steps = c.range(1, 40);
		for (int64_t i = 0; i < steps; ++i)
		{
			step();
			check(f, m, "map");
			check(g, n, "other map");
			lookups();
			biggest = std::max(biggest, f.size());
		}
		if (biggest > 16) c.label("more than 16 entries");
		c.nontrivial(ops >= 5 && biggest >= 3 && collisions > 0);
		c.note([&] { return log; });
	}
};
FACET(int_keys, 4) { Hist<int, std::less<int>>(c).run(); }
FACET(string_keys, 1) { Hist<std::string, std::less<std::string>>(c).run(); }
FACET(reversed_order, 1) { Hist<int, std::greater<int>>(c).run(); }
FACET(index_keys, 2) { Hist<std::vector<int64_t>, std::less<std::vector<int64_t>>>(c).run(); }
FACET(coarse_order, 2) { Hist<int, Coarse>(c).run(); }
FACET(switched_order, 2) { Hist<int, Switched>(c).run(); }
