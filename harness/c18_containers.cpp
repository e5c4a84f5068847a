// C18: matrix product containers.
#include "model_net.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "lists of 0-5 tensors that form a state or an operator (dense: edges of any size; symmetric: 7 group types), half of them with one fault (rank, bond size, number of sections, section size, "
    "bond charge, kind of charge) at one site, given to every constructor; histories of up to 25 container operations on two networks of each of the six types; non-trivial when the list "
    "has two tensors or the history changes a non-empty network";
unsigned pbt::quick_cases = 400000, pbt::thorough_cases = 10000000;
std::vector<std::string> pbt::assumptions = {"insertion, removal and element access do not validate, like in the documented std::vector interface they reuse", "std::vector is correct"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

template <class N>
constexpr bool is_block = std::is_same_v<typename N::Tens, btensor>;
template <class N>
constexpr size_t rank_of = std::is_same_v<N, MPS> || std::is_same_v<N, bMPS> ? 3 : 4;
template <class N>
constexpr bool has_center = std::is_same_v<N, MPS> || std::is_same_v<N, bMPS>;
// identity of a tensor that survives copies of the handle
static const void *mark(const Tensor &t) { return t.defined() ? t.unsafeGetTensorImpl() : nullptr; }
static const void *mark(const btensor &t)
{
	for (auto &b : t) return b.second.unsafeGetTensorImpl();
	return nullptr;
}
template <class N>
static std::vector<const void *> marks(const N &n)
{
	std::vector<const void *> r;
	for (size_t i = 0; i < n.size(); ++i) r.push_back(mark(n[i]));
	return r;
}
template <class V>
static std::vector<const void *> vmarks(const V &n)
{
	std::vector<const void *> r;
	for (auto &x : n) r.push_back(mark(x));
	return r;
}

// ---------------------------------------------------------------- validation
struct DenseList
{
	std::vector<Tensor> t;
	bool ok = true;
	std::string what = "valid";
};
static DenseList dense_list(Case &c, size_t rank)
{
	DenseList l;
	auto L = (size_t)c.range(0, 5);
	std::vector<IL> sz;
	int64_t left = c.range(1, 3);
	for (size_t i = 0; i < L; ++i)
	{
		IL s{left, c.range(1, 3), c.range(1, 3)};
		if (rank == 4) s.push_back(c.range(1, 3));
		left = s[2];
		sz.push_back(s);
	}
	if (L && c.flip())
	{
		auto i = c.draw(L);
		auto &s = sz[i];
		if (c.flip())
		{
			auto r = c.range(0, 5);
			if ((size_t)r != rank)
			{
				// a bond that still matches, when there is one
				while (s.size() < (size_t)r) s.push_back(1);
				s.resize(r);
				l.ok = false;
				l.what = cat("rank ", r, " at ", i);
			}
		}
		else if (L > 1)
		{
			size_t d = i == 0 ? 2 : i == L - 1 ? 0 : c.flip() ? 2 : 0;
			s[d] += c.range(1, 2);
			l.ok = false;
			l.what = cat("bond ", d, " of site ", i);
		}
	}
	for (auto &s : sz) l.t.push_back(torch::ones(s));
	return l;
}
struct BlockList
{
	std::vector<btensor> t;
	bool ok = true;
	std::string what = "valid";
};
static BlockList block_list(Case &c, size_t rank)
{
	BlockList l;
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(0, 5);
	auto phys = gen_phys(c, kind, L, {2, 2, 2});
	NetLim lim;
	lim.edge = 2;
	if (L == 0) return l;
	auto n = rank == 3 ? gen_bstate(c, kind, phys, Val::ints, lim) : gen_boper(c, kind, phys, phys, Val::ints, lim);
	std::vector<Spec> s;
	for (auto &x : n.t) s.push_back(x.s);
	if (c.flip())
	{
		auto i = c.draw(L);
		size_t d = i == 0 ? 2 : i == L - 1 ? 0 : c.flip() ? 2 : 0;
		auto &x = s[i].dims[d];
		auto k = c.draw(x.size());
		switch (L == 1 ? 0 : c.draw(5))
		{
		case 0:
		{
			auto r = c.range(0, 5);
			if ((size_t)r == rank) break;
			while (s[i].dims.size() < (size_t)r) s[i].dims.push_back(Dim{Sec{1, qzero(kind)}});
			s[i].dims.resize(r);
			l.ok = false;
			l.what = cat("rank ", r, " at ", i);
			break;
		}
		case 1:
			x[k].size += c.range(1, 2);
			l.ok = false;
			l.what = cat("section ", k, " of bond ", d, " of site ", i, " is larger");
			break;
		case 2:
		{
			auto q = x[k].q;
			auto &m = kinds()[kind].mod;
			auto f = c.draw(q.size());
			q[f] += m[f] ? c.range(1, m[f] - 1) : c.range(1, 3) * (c.flip() ? 1 : -1);
			x[k].q = qnorm(kind, q);
			l.ok = false;
			l.what = cat("section ", k, " of bond ", d, " of site ", i, " has another charge");
			break;
		}
		case 3:
			x.push_back(x[k]);
			l.ok = false;
			l.what = cat("bond ", d, " of site ", i, " has one more section");
			break;
		default:
			if (x.size() == 1) break;
			x.pop_back();
			l.ok = false;
			l.what = cat("bond ", d, " of site ", i, " has one section less");
		}
		if (!l.ok)
		{
			for (size_t j = 0; j < L; ++j) l.t.push_back(j == i ? make_shape(s[j]) : n.t[j].t);
			return l;
		}
		if (L > 1 && c.flip()) // another kind of charge
		{
			auto other = (kind + 1 + (int)c.draw(kinds().size() - 1)) % (int)kinds().size();
			Spec o = s[i];
			o.kind = other;
			for (auto &dd : o.dims)
				for (auto &y : dd) y.q = qzero(other);
			o.sel = qzero(other);
			l.ok = false;
			l.what = cat("kind of charge of site ", i);
			for (size_t j = 0; j < L; ++j) l.t.push_back(j == i ? make_shape(o) : n.t[j].t);
			return l;
		}
	}
	for (auto &x : n.t) l.t.push_back(x.t);
	return l;
}

template <class N, class T, class Build>
static void expect(Case &c, const std::vector<T> &list, bool ok, const std::string &what, const char *ctor, size_t oc, bool takes_oc, Build build)
{
	bool oc_ok = !takes_oc || oc == 0 || oc < list.size();
	bool accepted = true;
	try
	{
		N n = build();
		PROP(n.size() == list.size(), ctor, ": ", n.size(), " tensors instead of ", list.size());
		auto m = vmarks(list);
		for (size_t i = 0; i < list.size(); ++i) PROP(mark(n[i]) == m[i], ctor, ": site ", i, " is another tensor");
		if constexpr (has_center<N>)
			PROP((size_t)n.orthogonality_center == (takes_oc ? oc : 0), ctor, ": center at ", (size_t)n.orthogonality_center, " instead of ", oc);
		PROP(n.check_ranks() == ok, ctor, ": the check says ", n.check_ranks(), " for: ", what);
	}
	catch (const std::invalid_argument &)
	{
		accepted = false;
	}
	PROP(accepted == (ok && oc_ok), ctor, accepted ? " accepted " : " refused ", what, ", center ", oc);
}
template <class N, class G, class T>
static void constructors(Case &c, const std::vector<T> &list, bool ok, const std::string &what)
{
	constexpr bool oc_ctor = has_center<N>;
	size_t oc = oc_ctor ? c.draw(list.size() + 3) : 0;
	if (oc == list.size() + 2) oc = (size_t)-1;
	c.note([&] { return cat(list.size(), " tensors, ", what, ", center ", oc); });
	switch (c.draw(5))
	{
	case 0:
		c.label("vector");
		expect<N>(c, list, ok, what, "from a vector", oc, oc_ctor, [&] {
			if constexpr (oc_ctor) return N(list, oc);
			else return N(list);
		});
		break;
	case 1:
		c.label("network lvalue");
		expect<N>(c, list, ok, what, "from a tensor train", oc, oc_ctor, [&] {
			G g(list);
			if constexpr (oc_ctor) return N(static_cast<const G &>(g), oc);
			else return N(static_cast<const G &>(g));
		});
		break;
	case 2:
		c.label("network rvalue");
		expect<N>(c, list, ok, what, "from a moved tensor train", oc, oc_ctor, [&] {
			G g(list);
			if constexpr (oc_ctor) return N(std::move(g), oc);
			else return N(std::move(g));
		});
		break;
	case 3:
		c.label("iterators");
		expect<N>(c, list, ok, what, "from iterators", 0, false, [&] { return N(list.cbegin(), list.cend()); });
		break;
	default:
		c.label("initializer list");
		c.assume(list.size() <= 3 && list.size() > 0);
		expect<N>(c, list, ok, what, "from an initializer list", oc, oc_ctor, [&] {
			auto &l = list;
			if constexpr (oc_ctor) return l.size() == 1 ? N({l[0]}, oc) : l.size() == 2 ? N({l[0], l[1]}, oc) : N({l[0], l[1], l[2]}, oc);
			else return l.size() == 1 ? N({l[0]}) : l.size() == 2 ? N({l[0], l[1]}) : N({l[0], l[1], l[2]});
		});
	}
	c.nontrivial(list.size() >= 2);
}
FACET(dense_lists, 2)
{
	if (c.flip())
	{
		auto l = dense_list(c, 3);
		constructors<MPS, MPT>(c, l.t, l.ok, l.what);
	}
	else
	{
		auto l = dense_list(c, 4);
		constructors<MPO, MPT>(c, l.t, l.ok, l.what);
	}
}
FACET(block_lists, 3)
{
	if (c.flip())
	{
		auto l = block_list(c, 3);
		constructors<bMPS, bMPT>(c, l.t, l.ok, l.what);
	}
	else
	{
		auto l = block_list(c, 4);
		constructors<bMPO, bMPT>(c, l.t, l.ok, l.what);
	}
}
// n copies of one tensor
template <class N, class T>
static void repeated(Case &c, const T &val, bool ok)
{
	auto n = (size_t)c.range(0, 4);
	size_t oc = 0;
	if constexpr (has_center<N>)
		if (c.flip()) oc = c.range(0, 6);
	bool oc_ok = oc == 0 || oc < n;
	c.note([&] { return cat(n, " copies, center ", oc, ok ? " valid" : " invalid"); });
	PROP(N::check_one(val) == ok, "check of one tensor");
	bool accepted = true;
	try
	{
		auto make = [&] {
			if constexpr (has_center<N>) return N(n, val, oc);
			else return N(n, val);
		};
		N m = make();
		PROP(m.size() == n);
		for (auto &x : m) PROP(mark(x) == mark(val));
		if constexpr (has_center<N>) PROP((size_t)m.orthogonality_center == oc);
		if (n) PROP(m.check_ranks());
	}
	catch (const std::invalid_argument &)
	{
		accepted = false;
	}
	PROP(accepted == (ok && oc_ok), accepted ? "accepted" : "refused");
	if constexpr (has_center<N>)
	{
		// tensors to be defined later
		size_t where = c.range(0, 5);
		bool in = where == 0 || where < n;
		try
		{
			N m(n, where);
			PROP(m.size() == n);
			size_t at = m.orthogonality_center;
			PROP(at == 0 || at < n, "center at ", at, " of ", n, " sites");
			if (in) PROP(at == where, "center at ", at, " instead of ", where);
		}
		catch (const std::invalid_argument &)
		{
			PROP(!in, "refused center ", where, " of ", n, " sites");
		}
	}
	c.nontrivial(n >= 2);
}
FACET(copies_of_one, 1)
{
	if (c.flip())
	{
		bool state = c.flip();
		size_t want = state ? 3 : 4, r = c.chance(1, 4) ? c.range(0, 5) : want;
		IL s;
		for (size_t i = 0; i < r; ++i) s.push_back(c.range(1, 3));
		if (r > 2 && c.chance(3, 4)) s[2] = s[0];
		auto t = torch::ones(s);
		bool ok = r == want && s[0] == s[2];
		if (state) repeated<MPS>(c, t, ok);
		else repeated<MPO>(c, t, ok);
	}
	else
	{
		bool state = c.flip();
		size_t want = state ? 3 : 4, r = c.chance(1, 4) ? c.range(0, 5) : want;
		auto k = gen_kind(c);
		auto s = gen_spec(c, k, r);
		if (r > 2 && c.chance(3, 4)) s.dims[2] = conj_dim(k, s.dims[0]);
		bool ok = r == want && s.dims[2] == conj_dim(k, s.dims[0]);
		s.sel = gen_sel(c, s);
		auto t = gen_tensor(c, s, Val::ints, 2);
		if (state) repeated<bMPS>(c, t.t, ok);
		else repeated<bMPO>(c, t.t, ok);
	}
}

// ---------------------------------------------------------------- histories
template <class N>
struct Model
{
	std::vector<typename N::Tens> v;
	size_t oc = 0;
};
template <class N>
static void agree(Case &c, const N &n, const Model<N> &m, const char *after)
{
	PROP(n.size() == m.v.size(), "after ", after, ": ", n.size(), " tensors instead of ", m.v.size());
	PROP(n.empty() == m.v.empty() && n.capacity() >= n.size() && n.max_size() >= n.size());
	size_t i = 0;
	for (auto &x : n)
	{
		PROP(mark(x) == mark(m.v[i]), "after ", after, ": site ", i, " is another tensor");
		++i;
	}
	PROP(i == m.v.size());
	for (auto it = n.crbegin(); it != n.crend(); ++it) PROP(mark(*it) == mark(m.v[--i]), "after ", after, ": reverse iteration");
	for (auto it = n.cbegin(); it != n.cend(); ++it, ++i) PROP(mark(*it) == mark(m.v[i]) && mark(n.at(i)) == mark(m.v[i]) && mark(n.data()[i]) == mark(m.v[i]));
	if (i) PROP(mark(n.front()) == mark(m.v.front()) && mark(n.back()) == mark(m.v.back()));
	MUST_THROW(n.at(i), "past the end");
	if constexpr (has_center<N>) PROP((size_t)n.orthogonality_center == m.oc, "after ", after, ": center at ", (size_t)n.orthogonality_center, " instead of ", m.oc);
}
template <class N>
static typename N::Tens new_tensor(Case &c)
{
	if constexpr (is_block<N>)
	{
		static std::vector<btensor> shapes;
		if (shapes.empty())
			for (int k = 0; k < 3; ++k)
			{
				Spec s;
				s.kind = k;
				for (size_t i = 0; i < 3 + (size_t)k % 2; ++i) s.dims.push_back(Dim{Sec{1, qzero(k)}, Sec{2, qzero(k)}});
				s.sel = qzero(k);
				shapes.push_back(make_shape(s));
			}
		btensor t = shapes[c.draw(shapes.size())];
		t.block(IL(t.dim(), 0)) = torch::ones(IL(t.dim(), 1));
		return t;
	}
	else
		return torch::ones(IL(c.range(3, 4), 1));
}
template <class N, class G>
static void containers(Case &c)
{
	using T = typename N::Tens;
	using V = std::vector<T>;
	N n[2];
	Model<N> m[2];
	bool changed = false;
	for (int k = 0; k < 2; ++k)
	{
		auto L = (size_t)c.range(0, 4);
		if constexpr (has_center<N>)
			if (L && c.flip())
			{
				m[k].oc = c.draw(L);
				n[k] = N(L, m[k].oc);
			}
			else n[k] = N(L);
		else n[k] = N(L);
		m[k].v.resize(L);
		for (size_t i = 0; i < L; ++i) n[k][i] = m[k].v[i] = new_tensor<N>(c);
		agree(c, n[k], m[k], "construction");
	}
	auto steps = c.range(1, 25);
	for (int64_t s = 0; s < steps; ++s)
	{
		auto k = c.draw(2);
		auto &a = n[k], &b = n[1 - k];
		auto &x = m[k], &y = m[1 - k];
		const char *name = "";
		auto pos = c.draw(x.v.size() + 1);
		auto at = [&] { return a.begin() + pos; };
		changed = changed || !x.v.empty();
		switch (c.draw(27))
		{
		case 0:
		{
			name = "push_back";
			auto t = new_tensor<N>(c);
			a.push_back(t), x.v.push_back(t);
			break;
		}
		case 1:
		{
			name = "push_back of a temporary";
			auto t = new_tensor<N>(c), u = t;
			a.push_back(std::move(u)), x.v.push_back(t);
			break;
		}
		case 2:
		{
			name = "emplace_back";
			auto t = new_tensor<N>(c);
			a.emplace_back(t), x.v.emplace_back(t);
			break;
		}
		case 3:
			name = "pop_back";
			if (x.v.empty()) break;
			a.pop_back(), x.v.pop_back();
			break;
		case 4:
		{
			name = "insert";
			auto t = new_tensor<N>(c);
			auto it = a.insert(at(), t);
			x.v.insert(x.v.begin() + pos, t);
			PROP(it == at() && mark(*it) == mark(t), "position returned by insert");
			break;
		}
		case 5:
		{
			name = "insert of a temporary";
			auto t = new_tensor<N>(c), u = t;
			auto it = a.insert(at(), std::move(u));
			x.v.insert(x.v.begin() + pos, t);
			PROP(it == at() && mark(*it) == mark(t), "position returned by insert");
			break;
		}
		case 6:
		{
			name = "insert of copies";
			auto t = new_tensor<N>(c), u = t;
			size_t cnt = c.draw(4);
			auto it = a.insert(at(), cnt, std::move(u));
			x.v.insert(x.v.begin() + pos, cnt, t);
			PROP(it == at(), "position returned by insert");
			break;
		}
		case 7:
		{
			name = "insert of a range";
			auto f = c.draw(y.v.size() + 1), l = f + c.draw(y.v.size() + 1 - f);
			auto it = a.insert(at(), b.cbegin() + f, b.cbegin() + l);
			x.v.insert(x.v.begin() + pos, y.v.begin() + f, y.v.begin() + l);
			PROP(it == at(), "position returned by insert");
			break;
		}
		case 8:
		{
			name = "insert of a list";
			auto t = new_tensor<N>(c), u = new_tensor<N>(c);
			a.insert(at(), {t, u});
			x.v.insert(x.v.begin() + pos, {t, u});
			break;
		}
		case 9:
		{
			name = "emplace";
			auto t = new_tensor<N>(c);
			auto it = a.emplace(at(), t);
			x.v.emplace(x.v.begin() + pos, t);
			PROP(it == at());
			break;
		}
		case 10:
			name = "erase";
			if (pos == x.v.size()) break;
			{
				auto it = a.erase(at());
				x.v.erase(x.v.begin() + pos);
				PROP(it == at());
			}
			break;
		case 11:
		{
			name = "erase of a range";
			auto l = pos + c.draw(x.v.size() + 1 - pos);
			auto it = a.erase(a.cbegin() + pos, a.cbegin() + l);
			x.v.erase(x.v.begin() + pos, x.v.begin() + l);
			PROP(it == at());
			break;
		}
		case 12:
		{
			name = "resize";
			auto l = c.draw(7);
			a.resize(l), x.v.resize(l);
			// an undefined dense tensor has no identity of its own
			break;
		}
		case 13:
		{
			name = "resize with a value";
			auto l = c.draw(7);
			auto t = new_tensor<N>(c);
			a.resize(l, t), x.v.resize(l, t);
			break;
		}
		case 14:
			name = "assignment of an element";
			if (pos == x.v.size()) break;
			{
				auto t = new_tensor<N>(c);
				switch (c.draw(5))
				{
				case 0: a[pos] = t; break;
				case 1: a.at(pos) = t; break;
				case 2: *at() = t; break;
				case 3: a.data()[pos] = t; break;
				default: *(a.rbegin() + (x.v.size() - 1 - pos)) = t;
				}
				x.v[pos] = t;
			}
			break;
		case 15:
			name = "front and back";
			if (x.v.empty()) break;
			{
				auto t = new_tensor<N>(c);
				if (c.flip()) a.front() = t, x.v.front() = t;
				else a.back() = t, x.v.back() = t;
			}
			break;
		case 16:
			name = "member swap";
			a.swap(b);
			std::swap(x, y);
			break;
		case 17:
		{
			name = "swap";
			using std::swap;
			if (c.chance(1, 4)) swap(a, a);
			else swap(a, b), std::swap(x, y);
			break;
		}
		case 18:
			name = "copy assignment";
			if (c.chance(1, 4))
			{
				auto &self = a;
				a = self;
			}
			else a = b, x = y;
			break;
		case 19:
		{
			name = "copy construction";
			N t(b);
			agree(c, t, y, name);
			if (!y.v.empty())
			{
				t[c.draw(y.v.size())] = new_tensor<N>(c); // the list is not shared
				t.push_back(new_tensor<N>(c));
			}
			a = t;
			x.v.assign(t.begin(), t.end());
			x.oc = y.oc;
			break;
		}
		case 20:
		{
			name = "move";
			N t(std::move(b));
			agree(c, t, y, "move construction");
			a = std::move(t);
			x = y;
			b = N();
			y = {};
			break;
		}
		case 21:
			name = "clear";
			a.clear(), x.v.clear();
			break;
		case 22:
			name = "reserve";
			a.reserve(c.draw(12));
			a.shrink_to_fit();
			break;
		case 23:
			name = "conversion to a tensor train";
			if constexpr (!std::is_same_v<N, G>)
			{
				G g(static_cast<G>(a));
				PROP(vmarks(g) == vmarks(x.v), "conversion to a tensor train");
				g.push_back(new_tensor<N>(c));
				if (!x.v.empty()) g[0] = new_tensor<N>(c);
			}
			break;
		case 24:
		{
			name = "same element type";
			bool defined = !x.v.empty();
			for (auto &t : x.v)
				if (!mark(t)) defined = false;
			if (!defined) break;
			N t = a.to(torch::kFloat64); // nothing to convert: the tensors are the same
			PROP(t.size() == x.v.size());
			if constexpr (has_center<N>)
				if (x.oc < x.v.size()) PROP((size_t)t.orthogonality_center == x.oc);
			break;
		}
		case 25:
		{
			name = "iteration in reverse";
			size_t i = x.v.size();
			for (auto it = a.rbegin(); it != a.rend(); ++it) PROP(mark(*it) == mark(x.v[--i]));
			PROP(i == 0);
			break;
		}
		default:
		{
			name = "construction from a vector of tensors";
			if constexpr (std::is_same_v<N, G>)
			{
				const V v = x.v;
				N t(v);
				agree(c, t, Model<N>{v, 0}, name);
				N u(a.cbegin() + std::min(pos, x.v.size()), a.cend());
				agree(c, u, Model<N>{V(x.v.begin() + pos, x.v.end()), 0}, "slicing");
			}
			break;
		}
		}
		c.note([&] { return cat(name, " on ", k, " at ", pos); });
		agree(c, n[0], m[0], name);
		agree(c, n[1], m[1], name);
	}
	c.nontrivial(changed && steps > 1);
}
FACET(histories, 4)
{
	switch (c.draw(6))
	{
	case 0: c.label("MPS"); return containers<MPS, MPT>(c);
	case 1: c.label("MPO"); return containers<MPO, MPT>(c);
	case 2: c.label("MPT"); return containers<MPT, MPT>(c);
	case 3: c.label("bMPS"); return containers<bMPS, bMPT>(c);
	case 4: c.label("bMPO"); return containers<bMPO, bMPT>(c);
	default: c.label("bMPT"); return containers<bMPT, bMPT>(c);
	}
}

// ---------------------------------------------------------------- element types
template <class N>
static void retyped(Case &c, N n, Val v)
{
	auto to = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble});
	if (v == Val::cints) to = torch::kComplexDouble;
	auto before = tensors_of(n);
	auto copy = tensors_of(n);
	for (auto &x : copy) x = x.clone();
	c.note([&] {
		std::string s = cat("to ", to, ": ");
		for (auto &x : before) s += tstr(x) + "; ";
		return s;
	});
	size_t oc = 0;
	if constexpr (has_center<N>) oc = n.orthogonality_center;
	N r;
	bool in_place = c.flip();
	bool force = c.flip();
	auto convert = [&](auto &&...args) {
		if (in_place)
		{
			r = n;
			auto &ref = r.to_(args...);
			PROP(&ref == &r);
		}
		else r = n.to(args...);
	};
	switch (c.draw(4))
	{
	case 0: convert(to, false, force); break;
	case 1: convert(torch::TensorOptions().dtype(to), false, force); break;
	case 2: convert(torch::Device(torch::kCPU), to, false, force); break;
	default:
		if constexpr (is_block<N>)
		{
			Spec s;
			s.sel = qzero(0);
			auto like = make_shape(s, to);
			convert(like, false, force);
		}
		else convert(torch::zeros({1}, to), false, force);
	}
	PROP(r.size() == n.size());
	if constexpr (has_center<N>) PROP((size_t)r.orthogonality_center == oc, "the center changed");
	auto after = tensors_of(r);
	for (size_t i = 0; i < after.size(); ++i)
	{
		SAME(after[i], copy[i], true, "site ", i, " converted to ", to);
		if constexpr (is_block<N>)
		{
			VALID(r[i]);
			PROP(torch::typeMetaToScalarType(r[i].options().dtype()) == to, "element type of site ", i);
			for (auto &b : r[i]) PROP(b.second.scalar_type() == to, "element type of a block of site ", i);
		}
		else PROP(after[i].scalar_type() == to, "element type of site ", i);
		SAME(tensors_of(n)[i], copy[i], true, "the original changed");
	}
	PROP(r.check_ranks() == n.check_ranks());
	if (force)
	{
		for (auto &x : r)
			if constexpr (is_block<N>)
				for (auto &b : x) b.second.zero_();
			else x.zero_();
		auto now = tensors_of(n);
		for (size_t i = 0; i < now.size(); ++i) SAME(now[i], copy[i], true, "a requested copy shares its elements with the original");
	}
	c.nontrivial(n.size() >= 2);
}
FACET(element_types, 2)
{
	auto L = (size_t)c.range(1, 4);
	auto v = c.pick(std::vector<Val>{Val::ints, Val::f32, Val::cints});
	if (c.flip())
	{
		IL p, q;
		for (size_t i = 0; i < L; ++i) p.push_back(c.range(1, 3)), q.push_back(c.range(1, 3));
		auto b = gen_bonds(c, L, 3, 2);
		auto f = gen_filler(c);
		std::vector<Tensor> t;
		bool state = c.flip();
		for (size_t i = 0; i < L; ++i) t.push_back(fill(f, state ? IL{b[i], p[i], b[i + 1]} : IL{b[i], p[i], b[i + 1], q[i]}, v));
		if (state) retyped(c, MPS(t, c.draw(L)), v);
		else retyped(c, MPO(t), v);
	}
	else
	{
		auto k = gen_kind(c);
		auto p = gen_phys(c, k, L, {2, 2, 2});
		bool state = c.flip();
		auto n = state ? gen_bstate(c, k, p, Val::ints, {}) : gen_boper(c, k, p, p, Val::ints, {});
		std::vector<btensor> t;
		for (auto &x : n.t) t.push_back(gen_tensor(c, x.s, v).t);
		if (state) retyped(c, bMPS(t, c.draw(L)), v);
		else retyped(c, bMPO(t), v);
	}
}
