// Generators and dense expansions of matrix product states and operators.
#pragma once
#include "model_la.h"
#include "MPT.h"
namespace gen
{
// a filling of varied nature: random, zero, small, rank one
inline Tensor gen_dense(Case &c, const IL &sz, Val v)
{
	auto f = gen_filler(c);
	auto x = fill(f, sz, v);
	switch (c.weighted({8, 1, 1, 1, 1}))
	{
	case 1: return x * 0;
	case 2: return x * std::pow(10., -(double)c.draw(6));
	case 3:
		if (x.dim() >= 2 && x.numel())
			return (fill(f, {x.size(0), 1}, v).matmul(fill(f, {1, x.numel() / x.size(0)}, v))).reshape(sz);
		return x;
	case 4: return x.transpose(0, x.dim() - 1).contiguous().transpose(0, x.dim() - 1);
	default: return x;
	}
}
inline std::vector<Tensor> gen_dense_state(Case &c, const IL &phys, const IL &bonds, Val v)
{
	std::vector<Tensor> r;
	for (size_t i = 0; i < phys.size(); ++i) r.push_back(gen_dense(c, {bonds[i], phys[i], bonds[i + 1]}, v));
	return r;
}
inline std::vector<Tensor> gen_dense_oper(Case &c, const IL &out, const IL &in, const IL &bonds, Val v)
{
	std::vector<Tensor> r;
	for (size_t i = 0; i < out.size(); ++i) r.push_back(gen_dense(c, {bonds[i], out[i], bonds[i + 1], in[i]}, v));
	return r;
}
inline IL gen_bonds(Case &c, size_t L, int64_t max, int64_t edge)
{
	IL b;
	for (size_t i = 0; i <= L; ++i) b.push_back(i == 0 || i == L ? (c.chance(1, 5) ? c.range(1, edge) : 1) : c.range(1, max));
	return b;
}
// {left, all physical, right}
inline Tensor expand_state(const std::vector<Tensor> &t)
{
	Tensor r = wide(t[0]);
	for (size_t i = 1; i < t.size(); ++i)
	{
		auto x = wide(t[i]);
		auto l = r.size(0), p = r.size(1), b = r.size(2);
		r = r.reshape({l * p, b}).matmul(x.reshape({x.size(0), x.size(1) * x.size(2)})).reshape({l, p * x.size(1), x.size(2)});
	}
	return r;
}
// {left, all out, right, all in}
inline Tensor expand_oper(const std::vector<Tensor> &t)
{
	Tensor r = wide(t[0]);
	for (size_t i = 1; i < t.size(); ++i)
	{
		auto x = wide(t[i]);
		auto y = torch::einsum("aobi,bpcq->aopciq", {r, x});
		r = y.reshape({r.size(0), r.size(1) * x.size(1), x.size(2), r.size(3) * x.size(3)});
	}
	return r;
}
template <class N>
std::vector<Tensor> tensors_of(const N &n)
{
	std::vector<Tensor> r;
	for (auto &x : n)
		if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Tensor>) r.push_back(x);
		else r.push_back(dense_of(x));
	return r;
}
template <class N>
Tensor state_of(const N &n) { return expand_state(tensors_of(n)); }
template <class N>
Tensor oper_of(const N &n) { return expand_oper(tensors_of(n)); }

// ---------------------------------------------------------------- block networks
struct Net
{
	std::vector<BT> t;
	int kind = 0;
	std::vector<Tensor> d() const
	{
		std::vector<Tensor> r;
		for (auto &x : t) r.push_back(x.d);
		return r;
	}
	template <class N>
	N as() const
	{
		std::vector<btensor> v;
		for (auto &x : t) v.push_back(m_deep(x.t));
		return N(v);
	}
};
inline std::string str(const Net &n)
{
	std::string s;
	for (auto &x : n.t) s += str(x) + " = " + tstr(x.d) + "; ";
	return s;
}
struct NetLim
{
	int sec = 3, size = 2;
	int edge = 1; // sections at the ends, at most
	bool sel = true; // a charge carried by some tensor
	bool neutral_edges = false;
	bool gaps = true; // some blocks are absent, zero, etc
};
inline Dim gen_bond(Case &c, int kind, const std::vector<Dim> &others, const Q &sel, int sec, int size)
{
	Dim d;
	auto n = c.range(1, sec);
	for (int64_t i = 0; i < n; ++i)
	{
		Q q = sel;
		for (auto &o : others) q = qadd(kind, q, qneg(kind, o[c.draw(o.size())].q));
		d.push_back(Sec{c.range(1, size), q});
	}
	return d;
}
inline BT gen_site(Case &c, const Spec &s, Val v, bool gaps)
{
	return gaps ? gen_la(c, s, v) : gen_tensor(c, s, v, 2);
}
inline Net gen_bstate(Case &c, int kind, const std::vector<Dim> &phys, Val v, NetLim l = {})
{
	Net n;
	n.kind = kind;
	size_t L = phys.size();
	Dim left;
	if (l.edge > 1 && c.chance(1, 3)) left = gen_dim(c, kind, {l.edge, l.size, 2});
	else left = Dim{Sec{1, l.neutral_edges ? qzero(kind) : c.chance(1, 4) ? gen_q(c, kind) : qzero(kind)}};
	size_t where = l.sel ? (c.chance(1, 3) ? c.draw(L) : 0) : L;
	for (size_t i = 0; i < L; ++i)
	{
		Spec s;
		s.kind = kind;
		s.sel = qzero(kind);
		if (i == where || (l.sel && c.chance(1, 12))) s.sel = gen_q(c, kind);
		bool last = i + 1 == L;
		Dim right;
		if (last && l.neutral_edges)
		{
			right = Dim{Sec{1, qzero(kind)}};
			// the charge is settled here when it is not elsewhere
		}
		else right = gen_bond(c, kind, {left, phys[i]}, s.sel, last ? l.edge : l.sec, last && l.edge == 1 ? 1 : l.size);
		s.dims = {left, phys[i], right};
		n.t.push_back(gen_site(c, s, v, l.gaps));
		left = conj_dim(kind, right);
	}
	return n;
}
inline Net gen_boper(Case &c, int kind, const std::vector<Dim> &out, const std::vector<Dim> &in, Val v, NetLim l = {})
{
	Net n;
	n.kind = kind;
	size_t L = out.size();
	Dim left;
	if (l.edge > 1 && c.chance(1, 3)) left = gen_dim(c, kind, {l.edge, l.size, 2});
	else left = Dim{Sec{1, l.neutral_edges ? qzero(kind) : c.chance(1, 4) ? gen_q(c, kind) : qzero(kind)}};
	for (size_t i = 0; i < L; ++i)
	{
		Spec s;
		s.kind = kind;
		s.sel = qzero(kind);
		if (l.sel && c.chance(1, 12)) s.sel = gen_q(c, kind);
		bool last = i + 1 == L;
		auto cin = conj_dim(kind, in[i]);
		Dim right = last && l.neutral_edges ? Dim{Sec{1, qzero(kind)}}
		                                    : gen_bond(c, kind, {left, out[i], cin}, s.sel, last ? l.edge : l.sec, last && l.edge == 1 ? 1 : l.size);
		s.dims = {left, out[i], right, cin};
		n.t.push_back(gen_site(c, s, v, l.gaps));
		left = conj_dim(kind, right);
	}
	return n;
}
inline std::vector<Dim> gen_phys(Case &c, int kind, size_t L, Lim l = {3, 2, 2})
{
	std::vector<Dim> p;
	bool uniform = c.flip();
	for (size_t i = 0; i < L; ++i) p.push_back(i && uniform ? p[0] : gen_dim(c, kind, l));
	return p;
}
inline int64_t states(const std::vector<Dim> &p)
{
	int64_t n = 1;
	for (auto &d : p) n *= dim_size(d);
	return n;
}
inline Q total_sel(const Net &n)
{
	Q q = qzero(n.kind);
	for (auto &x : n.t) q = qadd(n.kind, q, x.s.sel);
	return q;
}
template <class N>
any_quantity total_sel(const N &n)
{
	any_quantity q = sel_of(n[0]);
	for (size_t i = 1; i < n.size(); ++i) q *= sel_of(n[i]);
	return q;
}
// neighbouring bonds carry the same sections with opposite charges
inline std::string bond_diff(const btensor &a, size_t da, const btensor &b, size_t db)
{
	if (a.section_number(da) != b.section_number(db)) return cat("bond of ", a.section_number(da), " sections next to ", b.section_number(db));
	auto [s, e, q, qe] = a.section_sizes_cqtts(da);
	auto [s2, e2, q2, qe2] = b.section_sizes_cqtts(db);
	for (; s != e; ++s, ++q, ++s2, ++q2)
	{
		if (*s != *s2) return "bond sections of different sizes";
		if (!(any_quantity(*q).inverse() == any_quantity(*q2))) return "bond charges are not opposite";
	}
	return "";
}
} // namespace gen
