// Problems, references and checks for the ground-state search.
#pragma once
#include "dmrg.h"
#include "model_net.h"
#include "model_models.h"
#include "models.h"
namespace gen
{
template <class T>
constexpr bool is_block = std::is_same_v<T, btensor>;
inline Tensor dn(const Tensor &t) { return t; }
inline Tensor dn(const btensor &t) { return dense_of(t); }
template <class T>
using MPS_of = std::conditional_t<is_block<T>, bMPS, MPS>;
template <class T>
using MPO_of = std::conditional_t<is_block<T>, bMPO, MPO>;

inline BT bt_from(const Spec &s, const Tensor &d, Val v)
{
	BT r{s, make_shape(s, d.scalar_type()), d.clone(), v};
	for (auto &b : allowed_blocks(s))
	{
		auto x = sub_block(d, block_offsets(s, b), block_sizes(s, b));
		if (maxabs(x) == 0) continue;
		r.t.block(b) = x.clone();
	}
	return r;
}
template <class T>
std::vector<T> net_tensors(const Net &n)
{
	std::vector<T> r;
	for (auto &x : n.t)
		if constexpr (is_block<T>) r.push_back(m_deep(x.t));
		else r.push_back(x.d.clone());
	return r;
}
template <class T>
MPO_of<T> mpo_of(const Net &n)
{
	const auto v = net_tensors<T>(n);
	return MPO_of<T>(v);
}
template <class T>
MPS_of<T> mps_of(const Net &n)
{
	const auto v = net_tensors<T>(n);
	return MPS_of<T>(v);
}
inline Dim join(Dim a, const Dim &b)
{
	a.insert(a.end(), b.begin(), b.end());
	return a;
}
// all pairs of sections, the last varies first
inline Dim outer_dim(int kind, const Dim &x, const Dim &y)
{
	Dim r;
	for (auto &a : x)
		for (auto &b : y) r.push_back(Sec{a.size * b.size, qadd(kind, a.q, b.q)});
	return r;
}
struct Problem
{
	int kind = 0;
	std::vector<Dim> phys;
	Net H;
	Tensor M;            // {N, N}, complex
	std::vector<Q> q;    // charge of every basis state
	Q edge;              // charge on the outer bonds of the operator
	Val v = Val::real;
	double norm = 0;     // largest magnitude of an eigenvalue
	double rounding = 0; // scale of the terms that add up to it
	std::string what;
	bool generic = false; // no symmetry but the charges
	std::vector<btensor> lib; // the operator, when it comes from the library
	size_t L() const { return phys.size(); }
	int64_t N() const { return (int64_t)q.size(); }
};
inline std::vector<Q> basis_charges(int kind, const std::vector<Dim> &phys)
{
	std::vector<Q> r{qzero(kind)};
	for (auto &d : phys)
	{
		std::vector<Q> n;
		for (auto &a : r)
			for (auto &s : d)
				for (int64_t i = 0; i < s.size; ++i) n.push_back(qadd(kind, a, s.q));
		r = n;
	}
	return r;
}
// for dense networks, everything is neutral
template <class T>
std::vector<Dim> draw_phys(Case &c, int kind, size_t L, int64_t most)
{
	std::vector<Dim> p;
	bool uniform = c.flip();
	int64_t n = 1;
	for (size_t i = 0; i < L; ++i)
	{
		Dim d;
		if (i && uniform) d = p[0];
		else if constexpr (is_block<T>) d = gen_dim(c, kind, {3, 2, 2});
		else d = Dim{Sec{c.range(1, 4), qzero(kind)}};
		while (n * dim_size(d) > most)
		{ // smaller
			if (d.back().size > 1) --d.back().size;
			else d.pop_back();
			if (d.empty())
			{
				d = Dim{Sec{1, qzero(kind)}};
				break;
			}
		}
		n *= dim_size(d);
		p.push_back(d);
	}
	return p;
}
inline Tensor block_matrix_mask(const Problem &p)
{
	auto m = torch::zeros({p.N(), p.N()}, torch::kFloat64);
	auto a = m.accessor<double, 2>();
	for (int64_t i = 0; i < p.N(); ++i)
		for (int64_t j = 0; j < p.N(); ++j)
			if (p.q[i] == p.q[j]) a[i][j] = 1;
	return m;
}
// indices of the basis states of a charge
inline Tensor sector(const Problem &p, const Q &q)
{
	std::vector<int64_t> k;
	for (int64_t i = 0; i < p.N(); ++i)
		if (p.q[i] == q) k.push_back(i);
	return torch::tensor(k, torch::kInt64);
}
// V f(w) V^dagger, charge by charge
template <class F>
Tensor map_spectrum(const Problem &p, const Tensor &M, F f)
{
	auto r = torch::zeros({p.N(), p.N()}, torch::kComplexDouble);
	std::set<Q> done;
	for (auto &q : p.q)
		if (done.insert(q).second)
		{
			auto k = sector(p, q);
			auto S = M.index_select(0, k).index_select(1, k);
			auto [w, V] = torch::linalg::eigh(S, "L");
			auto R = V.matmul(torch::diag(f(w).to(torch::kComplexDouble))).matmul(dag(V));
			auto rows = torch::zeros({k.numel(), p.N()}, torch::kComplexDouble);
			rows.index_copy_(1, k, R);
			r.index_copy_(0, k, rows);
		}
	return r;
}
inline Tensor narrow_type(const Tensor &t, Val v)
{
	if (v == Val::cplx || v == Val::cints) return t.to(torch::kComplexDouble);
	return torch::real(t.to(torch::kComplexDouble)).contiguous().to(dtype(v));
}
// an exact operator network for any matrix: the outer sites pass their indices to one site that holds the matrix
inline Net exact_mpo(const Problem &p, const Tensor &M, size_t at)
{
	int k = p.kind;
	Net n;
	n.kind = k;
	auto unit = Dim{Sec{1, qzero(k)}};
	auto L = p.L();
	auto pair = [&](const Dim &d) { return outer_dim(k, d, conj_dim(k, d)); };
	auto full = [&](const Dim &d) { // sections of size one, in the order of the elements
		Dim r;
		for (auto &s : d)
			for (int64_t i = 0; i < s.size; ++i) r.push_back(Sec{1, s.q});
		return r;
	};
	std::vector<Dim> ph;
	for (auto &d : p.phys) ph.push_back(full(d));
	IL N;
	for (auto &d : ph) N.push_back((int64_t)d.size());
	auto prod = [&](size_t b, size_t e) { return prod_of(N, b, e); };
	// left bonds: (out of 0..i)(in of 0..i)
	Dim lout{Sec{1, qzero(k)}}, b = unit;
	auto opt = torch::TensorOptions().dtype(dtype(p.v));
	for (size_t i = 0; i < at; ++i)
	{
		auto nl = outer_dim(k, lout, ph[i]);
		auto right = pair(nl); // elements (out)(in)
		auto A = prod(0, i), d = N[i];
		auto I1 = torch::eye(A, opt), I2 = torch::eye(d, opt);
		// W[(a a'), o, (x y x' y'), i] = d_ax d_oy d_a'x' d_iy'
		auto W = torch::einsum("ax,oy,bz,iw->aboxyzwi", {I1, I2, I1, I2}).reshape({A * A, d, A * d * A * d, d});
		n.t.push_back(bt_from(Spec{k, {b, p.phys[i], conj_dim(k, right), conj_dim(k, p.phys[i])}, qzero(k)}, W, p.v));
		b = right;
		lout = nl;
	}
	Dim rout{Sec{1, qzero(k)}}, rb = unit;
	std::vector<BT> right_sites;
	for (size_t i = L; i-- > at + 1;)
	{
		auto nr = outer_dim(k, ph[i], rout);
		auto left = pair(nr);
		auto A = prod(i + 1, L), d = N[i];
		auto I1 = torch::eye(A, opt), I2 = torch::eye(d, opt);
		auto W = torch::einsum("oy,ax,iw,bz->yxwzoabi", {I2, I1, I2, I1}).reshape({A * d * A * d, d, A * A, d});
		right_sites.push_back(bt_from(Spec{k, {conj_dim(k, left), p.phys[i], rb, conj_dim(k, p.phys[i])}, qzero(k)}, W, p.v));
		rb = left;
		rout = nr;
	}
	auto A = prod(0, at), d = N[at], B = prod(at + 1, L);
	auto W = narrow_type(M, p.v).reshape({A, d, B, A, d, B}).permute({0, 3, 1, 2, 5, 4}).reshape({A * A, d, B * B, d});
	// the bond of the left carries (out)(conj in); it enters here with the same charges
	n.t.push_back(bt_from(Spec{k, {b, p.phys[at], rb, conj_dim(k, p.phys[at])}, qzero(k)}, W, p.v));
	std::reverse(right_sites.begin(), right_sites.end());
	for (auto &x : right_sites) n.t.push_back(x);
	return n;
}
// n + its conjugate; the outer bonds are neutral
inline Net with_conjugate(const Net &n)
{
	Net r;
	r.kind = n.kind;
	int k = n.kind;
	for (size_t i = 0; i < n.t.size(); ++i)
	{
		auto &x = n.t[i];
		bool first = i == 0, last = i + 1 == n.t.size();
		auto s = x.s;
		if (!first) s.dims[0] = join(s.dims[0], conj_dim(k, s.dims[0]));
		if (!last) s.dims[2] = join(s.dims[2], conj_dim(k, s.dims[2]));
		auto a = x.d.size(0), b = x.d.size(2);
		auto d = torch::zeros(full_sizes(s), x.d.options());
		d.narrow(0, 0, a).narrow(2, 0, b).add_(x.d);
		d.narrow(0, first ? 0 : a, a).narrow(2, last ? 0 : b, b).add_(x.d.conj().permute({0, 3, 2, 1}));
		r.t.push_back(bt_from(s, d, x.v));
	}
	return r;
}
inline Net scaled(Net n, double f)
{
	auto &x = n.t[0];
	x = bt_from(x.s, x.d * f, x.v);
	return n;
}
// move a charge on every bond: left to right
inline Net shifted(const Net &n, const Q &q)
{
	Net r = n;
	for (auto &x : r.t)
	{
		auto s = x.s;
		for (auto &e : s.dims[0]) e.q = qadd(n.kind, e.q, q);
		for (auto &e : s.dims[2]) e.q = qadd(n.kind, e.q, qneg(n.kind, q));
		x = bt_from(s, x.d, x.v);
	}
	return r;
}
inline void finish(Problem &p)
{
	auto o = oper_of(p.H.d());
	auto w = torch::linalg::eigvalsh(p.M, "L");
	p.norm = maxabs(w);
	double m = 1;
	for (auto &x : p.H.t) m *= std::max(frob(x.d), 1e-300);
	p.rounding = m;
}
enum class Style
{
	any,
	gapped // in every sector: lowest -1, the others in [0, 1]
};
template <class T>
Problem gen_problem(Case &c, Style style, size_t maxL = 5, int64_t most = 48)
{
	Problem p;
	p.kind = gen_kind(c);
	p.v = style == Style::gapped ? (Val)c.weighted({0, 3, 2}) : (Val)c.weighted({2, 4, 4, 1, 1});
	p.edge = qzero(p.kind);
	int how = style == Style::gapped ? 1 : (int)c.draw(2);
	auto L = (size_t)c.range(2, how == 1 ? std::min<int64_t>(maxL, 4) : (int64_t)maxL);
	p.phys = draw_phys<T>(c, p.kind, L, how == 1 ? (L == 4 ? 16 : L == 3 ? 27 : 36) : most);
	p.q = basis_charges(p.kind, p.phys);
	if (how == 0)
	{
		NetLim lim;
		lim.sel = false;
		lim.neutral_edges = true;
		if constexpr (is_block<T>) p.H = gen_boper(c, p.kind, p.phys, p.phys, p.v, lim);
		else
		{ // neutral bonds
			p.H.kind = p.kind;
			IL b = gen_bonds(c, L, 4, 1);
			for (size_t i = 0; i < L; ++i)
			{
				Spec s{p.kind, {Dim{Sec{b[i], qzero(p.kind)}}, p.phys[i], Dim{Sec{b[i + 1], qzero(p.kind)}}, p.phys[i]}, qzero(p.kind)};
				p.H.t.push_back(bt_from(s, gen_dense(c, full_sizes(s), p.v), p.v));
			}
		}
		p.H = with_conjugate(p.H);
		p.what = "sum of products";
	}
	else
	{
		auto f = gen_filler(c);
		auto R = wide(fill(f, {p.N(), p.N()}, p.v)) * block_matrix_mask(p);
		p.M = R + dag(R);
		int kind = style == Style::gapped ? 3 : (int)c.weighted({12, 4, 4, 8, 4, 1});
		switch (kind)
		{
		case 1: p.M = torch::eye(p.N(), torch::kComplexDouble) * (double)c.around(3); break;
		case 2: p.M = map_spectrum(p, p.M, [&](const Tensor &w) { return torch::round(w / std::max(1e-9, maxabs(w)) * 2); }); break; // degenerate
		case 3: {
			p.M = map_spectrum(p, p.M, [&](const Tensor &w) {
				auto x = torch::zeros({w.numel()}, torch::kFloat64);
				for (int64_t i = 0; i < w.numel(); ++i) x[i] = i ? (double)c.draw(101) / 100 : -1.;
				return x;
			});
			break;
		}
		case 4: p.M = torch::diag(torch::diagonal(p.M)); break;
		case 5: p.M = torch::eye(p.N(), torch::kComplexDouble) * 1e5 + p.M / std::max(1., maxabs(p.M)) / 64; break; // around a large energy
		default:;
		}
		p.generic = (kind == 0 || kind == 3) && !f.seq && (p.v == Val::real || p.v == Val::cplx);
		p.M = wide(narrow_type(p.M, p.v));
		p.H = exact_mpo(p, p.M, (size_t)(L == 4 ? c.range(1, 2) : c.draw(L)));
		p.what = "matrix";
	}
	if (style == Style::any)
	{
		double s = 1;
		switch (c.weighted({6, 1, 1, 1}))
		{
		case 1: s = std::pow(10., (double)c.range(1, 6)); break;
		case 2: s = std::pow(10., -(double)c.range(1, 10)); break;
		case 3: s = -1; break;
		default:;
		}
		if (s != 1) p.H = scaled(p.H, s);
	}
	if (is_block<T> && c.chance(1, 6)) p.H = shifted(p.H, p.edge = gen_q(c, p.kind));
	auto o = oper_of(p.H.d());
	p.M = o.select(2, 0).select(0, 0).contiguous();
	p.M = (p.M + dag(p.M)) / 2;
	finish(p);
	return p;
}
// a chain from the library; the reference is written out from the definition of the model
template <class T>
Problem gen_model(Case &c)
{
	Problem p;
	p.kind = gen_kind(c);
	p.v = Val::real;
	p.edge = qzero(p.kind);
	bool spins = c.flip();
	auto L = (size_t)c.range(2, spins ? 5 : 3);
	auto k = p.kind;
	std::vector<Q> q{qzero(k), qzero(k)};
	if (!spins) q.resize(4, qzero(k));
	if (is_block<T>)
	{
		auto q0 = gen_q(c, k), u = gen_q(c, k), v = gen_q(c, k);
		if (spins) q = {q0, u};
		else q = {q0, qadd(k, q0, u), qadd(k, q0, v), qadd(k, qadd(k, q0, u), v)};
	}
	Dim d;
	for (auto &x : q)
		if (!d.empty() && d.back().q == x) d.back().size++;
		else d.push_back(Sec{1, x});
	p.phys.assign(L, d);
	p.q = basis_charges(k, p.phys);
	double a = (double)c.around(8) / 2, b = (double)c.around(8) / 2;
	p.what = spins ? "Heisenberg" : "Hubbard";
	p.M = wide(spins ? heisenberg(a, (int64_t)L) : hubbard(a, b, (int64_t)L));
	auto take = [&](auto &&H) {
		double m = 1;
		for (auto &x : H)
		{
			BT t{Spec{k, {}, qzero(k)}, btensor(), dn(x).clone(), Val::real};
			m *= std::max(frob(t.d), 1e-300);
			p.H.t.push_back(t);
			if constexpr (is_block<T>) p.lib.push_back(x);
		}
		p.H.kind = k;
		p.rounding = m;
	};
	if constexpr (is_block<T>)
	{
		auto shape = make_shape(Spec{k, {d}, qzero(k)});
		if (spins) take(Heisenberg(torch::Scalar(a), L, shape));
		else take(Hubbard(torch::Scalar(a), torch::Scalar(b), L, shape));
	}
	else if (spins) take(Heisenberg(torch::Scalar(a), L));
	else take(Hubbard(torch::Scalar(a), torch::Scalar(b), L));
	p.norm = maxabs(torch::linalg::eigvalsh(p.M, "L"));
	c.note([&] { return cat(p.what, " of ", L, " sites, couplings ", a, " ", b, " local space ", str(Spec{k, {d}, qzero(k)})); });
	return p;
}
// lowest eigenvalue among the states of a charge
inline double lowest(const Problem &p, const Q &q)
{
	auto k = sector(p, q);
	return torch::linalg::eigvalsh(p.M.index_select(0, k).index_select(1, k), "L")[0].item().toDouble();
}
struct Start
{
	Net n;
	Q q;          // charge of the state
	Tensor psi;   // {N}
	int64_t oc = 0;
	std::string what;
	bool generic = false;
};
// an exact network for any vector of a charge q
inline Net exact_mps(const Problem &p, const Tensor &psi, const Q &q)
{
	int k = p.kind;
	Net n;
	n.kind = k;
	Dim left{Sec{1, qzero(k)}};
	auto L = p.L();
	int64_t A = 1;
	auto opt = torch::TensorOptions().dtype(dtype(p.v));
	for (size_t i = 0; i < L; ++i)
	{
		Dim f;
		for (auto &s : p.phys[i])
			for (int64_t j = 0; j < s.size; ++j) f.push_back(Sec{1, s.q});
		auto d = (int64_t)f.size();
		if (i + 1 == L)
		{
			auto W = narrow_type(psi, p.v).reshape({A, d, 1});
			n.t.push_back(bt_from(Spec{k, {left, p.phys[i], Dim{Sec{1, qneg(k, q)}}}, qzero(k)}, W, p.v));
			break;
		}
		auto out = outer_dim(k, left, f);
		auto W = torch::eye(A * d, opt).reshape({A, d, A * d});
		n.t.push_back(bt_from(Spec{k, {left, p.phys[i], conj_dim(k, out)}, qzero(k)}, W, p.v));
		left = out;
		A *= d;
	}
	return n;
}
template <class T>
Start gen_start(Case &c, const Problem &p, bool generic)
{
	Start s;
	int k = p.kind;
	if (!generic && c.flip())
	{ // any tensors
		if constexpr (is_block<T>)
		{
			NetLim lim;
			lim.sel = c.flip();
			s.n = gen_bstate(c, k, p.phys, p.v, lim);
			s.q = total_sel(s.n);
			s.q = qadd(k, s.q, qneg(k, s.n.t.front().s.dims[0][0].q));
			s.q = qadd(k, s.q, qneg(k, s.n.t.back().s.dims[2][0].q));
		}
		else
		{
			s.n.kind = k;
			IL b = gen_bonds(c, p.L(), 5, 1);
			for (size_t i = 0; i < p.L(); ++i)
			{
				Spec sp{k, {Dim{Sec{b[i], qzero(k)}}, p.phys[i], Dim{Sec{b[i + 1], qzero(k)}}}, qzero(k)};
				s.n.t.push_back(bt_from(sp, gen_dense(c, full_sizes(sp), p.v), p.v));
			}
			s.q = qzero(k);
		}
		s.psi = expand_state(s.n.d()).reshape({-1});
		s.what = "tensors";
	}
	else
	{
		s.q = p.q[c.draw(p.q.size())];
		auto idx = sector(p, s.q);
		auto f = gen_filler(c);
		auto x = wide(fill(f, {idx.numel()}, p.v));
		s.what = "vector";
		s.generic = !f.seq && (p.v == Val::real || p.v == Val::cplx);
		int how = generic ? 0 : (int)c.weighted({2, 2, 2, 1});
		s.generic = s.generic && how == 0;
			switch (how)
			{
			case 1: { // a basis state
				x = torch::zeros({idx.numel()}, torch::kComplexDouble);
				x[(int64_t)c.draw(idx.numel())] = 1.;
				s.what = "basis state";
				break;
			}
			case 2:
			case 3: { // an eigenvector, up to something small
				auto S = p.M.index_select(0, idx).index_select(1, idx);
				if (p.v != Val::cplx && p.v != Val::cints) S = torch::real(S).contiguous();
				auto [w, V] = torch::linalg::eigh(S, "L");
				auto e = wide(V.select(1, (int64_t)c.draw(idx.numel())));
				if (c.flip()) e = e + x * std::pow(10., -(double)c.range(2, 15));
				x = e;
				s.what = "eigenvector";
				break;
			}
			default:;
			}
		auto full = torch::zeros({p.N()}, torch::kComplexDouble);
		full.index_copy_(0, idx, x);
		s.n = exact_mps(p, full, s.q);
		s.psi = expand_state(s.n.d()).reshape({-1});
	}
	c.assume(frob(s.psi) > 0);
	if (!generic && c.chance(1, 4))
	{ // not normalized
		double f = c.flip() ? std::pow(10., (double)c.range(-3, 3)) : 1 / frob(s.psi);
		auto &x = s.n.t.front();
		x = bt_from(x.s, x.d * f, x.v);
		s.psi = s.psi * f;
	}
	c.assume(frob(s.psi) > 1e-6);
	if (is_block<T> && c.chance(1, 6))
	{
		auto q = gen_q(c, k);
		s.n = shifted(s.n, q);
	}
	s.oc = (int64_t)c.draw(p.L());
	return s;
}
// in canonical form around its center
template <class T>
MPS_of<T> canonical(const Start &s)
{
	auto m = mps_of<T>(s.n);
	auto L = (int)m.size();
	m.move_oc(L - 1);
	m.move_oc(0);
	m.move_oc((int)s.oc);
	return m;
}
inline double expect(const Problem &p, const Tensor &psi)
{
	auto x = wide(psi).reshape({-1, 1});
	auto e = dag(x).matmul(p.M).matmul(x) / dag(x).matmul(x);
	return torch::real(e).item().toDouble();
}
// only what has to be defined: by default the logger receives the three of them once per iteration and once at the end
struct Plain : dmrg_logger
{
	std::vector<size_t> steps;
	std::vector<double> E;
	std::vector<std::vector<int64_t>> bonds;
	bool in_step = true;
	void log_step(size_t i) override
	{
		in_step &= steps.size() == E.size() && E.size() == bonds.size();
		steps.push_back(i);
	}
	void log_energy(const Tensor &e) override { E.push_back(torch::real(wide(e)).item().toDouble()); }
	void log_energy(const btensor &e) override { log_energy(dense_of(e)); }
	template <class N>
	void bond(const N &s)
	{
		std::vector<int64_t> b;
		for (size_t i = 0; i < s.size(); ++i) b.push_back(s[i].sizes()[2]);
		bonds.push_back(b);
	}
	void log_bond_dims(const MPS &s) override { bond(s); }
	void log_bond_dims(const bMPS &s) override { bond(s); }
};
struct Log : dmrg_logger
{
	Plain plain;
	dmrg_default_logger silent;
	dmrg_log_simple simple;
	dmrg_log_sweeptime timed;
	std::vector<std::vector<int64_t>> bonds; // of each iteration and of the end
	std::vector<size_t> ends_at;
	std::chrono::steady_clock::time_point start;
	double elapsed = 0;
	template <class F>
	void others(F f)
	{
		f(plain), f(silent), f(simple), f(timed);
	}
	template <class N>
	void bond(const N &s)
	{
		std::vector<int64_t> b;
		for (size_t i = 0; i < s.size(); ++i) b.push_back(s[i].sizes()[2]);
		bonds.push_back(b);
	}
	int inits = 0, ends = 0;
	bool order = true;
	std::vector<size_t> steps, max_bond;
	std::vector<double> E;
	double lastE = 0, imag = 0;
	bool scalars = true;
	void log_step(size_t) override {}
	void log_energy(const Tensor &) override {}
	void log_energy(const btensor &) override {}
	void log_bond_dims(const MPS &) override {}
	void log_bond_dims(const bMPS &) override {}
	void init(const dmrg_options &o) override
	{
		simple.it_num = simple.middle_bond_dim = 12345678;
		start = std::chrono::steady_clock::now();
		others([&](auto &l) { l.init(o); });
		if (inits || ends || !E.empty()) order = false;
		++inits;
	}
	double value(const Tensor &t)
	{
		if (t.dim() != 0) scalars = false;
		auto z = wide(t).reshape({-1})[0].item<c10::complex<double>>();
		imag = std::max(imag, std::abs(z.imag()));
		return z.real();
	}
	template <class N>
	void it(size_t i, const Tensor &e, const N &s)
	{
		if (!inits || ends) order = false;
		steps.push_back(i);
		E.push_back(value(e));
		size_t m = 0;
		for (size_t j = 0; j + 1 < s.size(); ++j) m = std::max(m, (size_t)s[j].sizes()[2]);
		max_bond.push_back(m);
		bond(s);
	}
	template <class T, class N>
	void end(size_t i, const T &e, const N &s)
	{
		lastE = value(dn(e)), ++ends;
		ends_at.push_back(i);
		bond(s);
		others([&](auto &l) { l.end_log_all(i, e, s); });
		elapsed = std::chrono::duration<double>(std::chrono::steady_clock::now() - start).count();
	}
	void it_log_all(size_t i, const Tensor &e, const MPS &s) override
	{
		it(i, e.detach(), s);
		others([&](auto &l) { l.it_log_all(i, e, s); });
	}
	void it_log_all(size_t i, const btensor &e, const bMPS &s) override
	{
		it(i, dense_of(e).detach(), s);
		others([&](auto &l) { l.it_log_all(i, e, s); });
	}
	void end_log_all(size_t i, const Tensor &e, const MPS &s) override { end(i, e.detach(), s); }
	void end_log_all(size_t i, const btensor &e, const bMPS &s) override { end(i, e, s); }
};
inline std::string str(const dmrg_options &o)
{
	return pbt::cat("cutoff ", o.cutoff, " criterion ", o.convergence_criterion, " bonds ", o.minimum_bond, "..", (long)o.maximum_bond, " iterations ", o.maximum_iterations, o.state_gradient ? " with the gradient of the state" : "", o.hamil_gradient ? " with the gradient of the operator" : "");
}
inline std::string str(const Problem &p) { return p.H.t[0].s.dims.empty() ? p.what : pbt::cat(p.what, " H ", str(p.H)); }
inline std::string str(const Start &s) { return pbt::cat("start (", s.what, ") center ", s.oc, ": ", str(s.n)); }

// the tensors left of the reported center are isometries from the left on the support of the center, and conversely
template <class N>
std::string center_diff(const N &s, double tol)
{
	auto d = tensors_of(s);
	size_t oc = s.orthogonality_center;
	if (oc >= d.size()) return pbt::cat("center at ", oc);
	auto G = torch::eye(d[0].size(0), torch::kComplexDouble);
	for (size_t i = 0; i < oc; ++i)
	{
		auto x = wide(d[i]);
		G = torch::einsum("ab,apc,bpd->cd", {G, x.conj(), x});
	}
	auto R = torch::eye(d.back().size(2), torch::kComplexDouble);
	for (size_t i = d.size() - 1; i > oc; --i)
	{
		auto x = wide(d[i]);
		R = torch::einsum("cd,apc,bpd->ab", {R, x.conj(), x});
	}
	auto C = wide(d[oc]);
	auto gl = torch::einsum("ab,bpd->apd", {G, C}), gr = torch::einsum("bd,apd->apb", {R, C});
	if (maxabs(gl - C) > tol) return pbt::cat("the sites left of ", oc, " are not isometries: ", tstr(G));
	if (maxabs(gr - C) > tol) return pbt::cat("the sites right of ", oc, " are not isometries: ", tstr(R));
	return "";
}
inline double precision(const Problem &p) { return p.v == Val::f32 ? 2e-4 : 1e-11; }
inline double error_of(const Problem &p) { return precision(p) * p.norm + (p.v == Val::f32 ? 3e-6 : 1e-14) * p.rounding; }
// elements of a bond that are in use: truncation leaves empty sections behind
inline int64_t used_bond(const MPS &s, size_t i) { return s[i].size(2); }
inline int64_t used_bond(const bMPS &s, size_t i)
{
	std::set<size_t> l, r;
	for (auto &b : s[i]) l.insert(b.first[2]);
	for (auto &b : s[i + 1]) r.insert(b.first[0]);
	auto [n, e] = s[i].section_sizes(2);
	int64_t t = 0;
	for (size_t k = 0; n != e; ++n, ++k)
		if (l.count(k) && r.count(k)) t += *n;
	return t;
}
// ---- requests for gradients
inline void trace(Tensor &t) { t.requires_grad_(true); }
inline void trace(btensor &t)
{
	for (auto &b : t) std::get<1>(b).requires_grad_(true);
}
inline std::vector<const Tensor *> parts(const Tensor &t) { return {&t}; }
inline std::vector<const Tensor *> parts(const btensor &t)
{
	std::vector<const Tensor *> r;
	for (auto &b : t) r.push_back(&std::get<1>(b));
	return r;
}
inline size_t traced(const Tensor &t) { return t.requires_grad(); }
inline size_t traced(const btensor &t)
{
	size_t n = 0;
	for (auto &b : t) n += std::get<1>(b).requires_grad();
	return n;
}
inline size_t stored(const Tensor &) { return 1; }
inline size_t stored(const btensor &t) { return (size_t)std::distance(t.begin(), t.end()); }
// which of the tensors given to the search were recorded for gradients before it
template <class N>
void detach_(N &m)
{
	for (auto &t : m)
		for (auto x : parts(t)) const_cast<Tensor &>(*x) = x->detach();
}
template <class T>
struct Tracing
{
	std::vector<std::vector<const void *>> data;
	std::vector<std::vector<bool>> hamil;
	bool state = false, any = false;
	void record(const MPO_of<T> &H)
	{
		data.clear(), hamil.clear();
		for (size_t i = 0; i < H.size(); ++i)
		{
			data.emplace_back(), hamil.emplace_back();
			for (auto x : parts(H[i])) data.back().push_back(x->data_ptr()), hamil.back().push_back(x->requires_grad());
		}
	}
	Tracing(Case &c, MPO_of<T> &H, MPS_of<T> *m)
	{
		if (c.chance(1, 4))
		{
			any = true;
			if (c.flip())
				for (auto &t : H)
					if (c.chance(2, 3)) trace(t);
			if (m && c.flip())
			{
				for (auto &t : *m) trace(t);
				state = traced((*m)[0]) > 0;
			}
		}
		record(H);
	}
	void hamil_kept(Case &c, const MPO_of<T> &H) const
	{
		PROP(H.size() == data.size(), "length ", H.size(), " of the operator");
		for (size_t i = 0; i < H.size(); ++i)
		{
			auto x = parts(H[i]);
			PROP(x.size() == data[i].size(), "site ", i, " of the operator changed");
			for (size_t k = 0; k < x.size(); ++k)
				PROP(x[k]->data_ptr() == data[i][k] && x[k]->requires_grad() == hamil[i][k] && x[k]->is_leaf(), "site ", i, " of the operator was given with requires_grad=", (bool)hamil[i][k], ", it is left with ",
				     x[k]->requires_grad(), " leaf ", x[k]->is_leaf());
		}
	}
	void state_kept(Case &c, const MPS_of<T> &m, bool requested = false) const
	{
		for (size_t i = 0; i < m.size(); ++i)
		{
			size_t n = traced(m[i]);
			PROP(n == (state ? stored(m[i]) : 0), "the state was given with requires_grad=", state, ", site ", i, " is left with ", n, " of ", stored(m[i]), " tensors that require gradients");
			if (!requested)
				for (auto x : parts(m[i])) PROP(x->is_leaf(), "the state carries the history of the search");
		}
	}
	void after(Case &c, const MPO_of<T> &H, const MPS_of<T> &m, const T &E, const dmrg_options &o) const
	{
		hamil_kept(c, H);
		state_kept(c, m, o.state_gradient || o.hamil_gradient);
		if (!o.state_gradient && !o.hamil_gradient) PROP(traced(E) == 0, "the energy carries the history of the search");
		if (o.hamil_gradient) PROP(traced(E) == stored(E), "the energy has no history, the gradient of the operator was requested");
	}
};
template <class T>
void after_search(Case &c, const Problem &p, const MPS_of<T> &s, const MPO_of<T> &H, const Q &q, const Tensor &Et, const Log &log, const dmrg_options &o, int64_t want_oc, double eps, bool truncated, double *energy = nullptr)
{
	double tol = error_of(p);
	PROP(Et.dim() == 0, "the energy is not a scalar");
	auto Ez = wide(Et).item<c10::complex<double>>();
	double E = Ez.real();
	if (energy) *energy = E;
	PROP(std::isfinite(E) && std::abs(Ez.imag()) <= tol, "energy ", Ez);
	PROP(s.size() == p.L(), "length ", s.size());
	for (size_t i = 0; i < s.size(); ++i)
	{
		PROP(s[i].dim() == 3 && s[i].sizes()[1] == dim_size(p.phys[i]), "site ", i, " has sizes ", s[i].sizes());
		PROP(i + 1 == s.size() || s[i].sizes()[2] == s[i + 1].sizes()[0], "bonds of sites ", i, " and ", i + 1, " do not match");
		PROP(s[i].options().dtype() == torch::scalarTypeToTypeMeta(dtype(p.v)), "element type of site ", i, " ", s[i].options().dtype());
		if constexpr (is_block<T>)
		{
			PROP(invalid(s[i]).empty(), "site ", i, ": ", invalid(s[i]));
			if (i + 1 < s.size()) PROP(bond_diff(s[i], 2, s[i + 1], 0).empty(), "bond ", i, ": ", bond_diff(s[i], 2, s[i + 1], 0));
		}
	}
	auto psi = state_of(s);
	PROP(psi.size(0) == 1 && psi.size(2) == 1, "edges of sizes ", psi.sizes());
	psi = psi.reshape({-1});
	PROP(std::abs(frob(psi) - 1) <= 20 * eps, "the state has norm ", frob(psi));
	// support in the sector
	for (int64_t i = 0; i < p.N(); ++i)
		if (p.q[i] != q) PROP(psi[i].abs().item().toDouble() == 0, "the state left its sector: ", tstr(psi));
	auto low = lowest(p, q);
	PROP(E >= low - tol, "the energy ", E, " is below the lowest ", low);
	double real = expect(p, psi);
	double slack = truncated ? 4 * p.norm * std::min(1., o.cutoff * 1.001) : 0;
	if (!truncated || o.maximum_bond > (size_t)p.N()) PROP(std::abs(real - E) <= tol + slack, "returned ", E, " but the state has energy ", real);
	PROP((int64_t)(size_t)s.orthogonality_center == want_oc, "center reported at ", (size_t)s.orthogonality_center, " instead of ", want_oc);
	PROP(center_diff(s, 20 * eps).empty(), center_diff(s, 20 * eps));
	// the record
	PROP(log.inits == 1 && log.ends == 1 && log.order, "calls of the logger: ", log.inits, " ", log.ends);
	PROP(log.scalars && log.imag <= tol);
	PROP(log.lastE == E, "logged ", log.lastE, " at the end, returned ", E);
	PROP(log.E.size() <= o.maximum_iterations, log.E.size(), " iterations");
	for (size_t i = 0; i < log.E.size(); ++i)
	{
		PROP(log.steps[i] == i, "iteration ", i, " logged as ", log.steps[i]);
		PROP(log.E[i] >= low - tol, "the energy ", log.E[i], " of iteration ", i, " is below the lowest ", low);
		bool last = i + 1 == log.E.size();
		if (i == 0)
		{
			PROP(!last || o.maximum_iterations == 1, "stopped after the first iteration, at ", log.E[0], ", before any change of the energy could be known");
			continue;
		}
		// the change is relative to the energy with charges, absolute without
		double gain = std::abs(log.E[i] - log.E[i - 1]), m = is_block<T> ? std::abs(log.E[i]) : 1.;
		double crit = o.convergence_criterion;
		if (!last) PROP(gain > crit * m * (1 - 1e-6), "did not stop at iteration ", i, " where the energy changed by ", gain);
		if (last && log.E.size() < o.maximum_iterations) PROP(gain <= crit * m * (1 + 1e-6) || m == 0, "stopped although the energy changed by ", gain);
	}
	if (!log.E.empty()) PROP(log.E.back() == E, "returned ", E, " and the last iteration has ", log.E.back());
	{
		size_t n = log.E.size(), mid = s.size() / 2;
		// a search that stops by itself is not past its last iteration
		PROP(log.ends_at.size() == 1 && (log.ends_at[0] == n || (n && log.ends_at[0] == n - 1)), "the end was logged at iteration ", log.ends_at.empty() ? 0 : log.ends_at[0], " of ", n);
		PROP(log.plain.in_step && log.plain.steps.size() == n + 1 && log.plain.E.size() == n + 1 && log.plain.bonds == log.bonds, "a logger with the default functions received ", log.plain.steps.size(), " steps, ",
		     log.plain.E.size(), " energies and ", log.plain.bonds.size(), " states for ", n, " iterations");
		for (size_t i = 0; i <= n; ++i)
			PROP(log.plain.steps[i] == (i < n ? i : log.ends_at[0]) && log.plain.E[i] == (i < n ? log.E[i] : E), "a logger with the default functions received step ", log.plain.steps[i], ", energy ", log.plain.E[i], " at iteration ", i);
		auto middle = [&](size_t i) {
			auto &b = log.bonds[i];
			return (size_t)std::max(b[mid], mid ? b[mid - 1] : (int64_t)1);
		};
		auto now = [&](size_t i) { return (int64_t)s[i].sizes()[2]; };
		for (size_t i = 0; i < s.size(); ++i) PROP(log.bonds.back()[i] == now(i), "the state logged at the end is not the one that is returned");
		PROP(log.simple.it_num == log.ends_at[0] && log.simple.middle_bond_dim == middle(n), "dmrg_log_simple has ", log.simple.it_num, " iterations, a bond of ", log.simple.middle_bond_dim, " for ", n, ", ", middle(n));
		auto &t = log.timed;
		PROP(t.it_num == log.ends_at[0] && t.middle_bond_dim == middle(n), "dmrg_log_sweeptime has ", t.it_num, " iterations, a bond of ", t.middle_bond_dim, " for ", n, ", ", middle(n));
		PROP(t.time_list.size() == o.maximum_iterations && t.bond_list.size() == o.maximum_iterations);
		double total = 0;
		for (size_t i = 0; i < o.maximum_iterations; ++i)
		{
			PROP(t.bond_list[i] == (i < n ? middle(i) : 0), "dmrg_log_sweeptime has a bond of ", t.bond_list[i], " at iteration ", i, " of ", n);
			PROP(t.time_list[i] >= 0 && (i < n || t.time_list[i] == 0), "dmrg_log_sweeptime has a time of ", t.time_list[i], " at iteration ", i, " of ", n);
			total += t.time_list[i];
		}
		PROP(total <= log.elapsed, "dmrg_log_sweeptime has a total of ", total, " s for a search of ", log.elapsed);
	}
	// the operator is left alone
	for (size_t i = 0; i < H.size(); ++i)
	{
		PROP(same(dn(H[i]).detach(), p.H.t[i].d, true), "site ", i, " of the operator changed");
	}
}
inline int64_t final_center(const Start &s, size_t L) { return std::min<int64_t>(s.oc, (int64_t)L - 2); }
template <class T>
MPO_of<T> operator_of(const Problem &p)
{
	if constexpr (is_block<T>)
	{
		if (!p.lib.empty())
		{
			std::vector<btensor> v;
			for (auto &x : p.lib) v.push_back(m_deep(x));
			const auto w = v;
			return bMPO(w);
		}
	}
	else if (p.H.t[0].s.dims.empty())
	{
		std::vector<Tensor> v;
		for (auto &x : p.H.t) v.push_back(x.d.clone());
		const auto w = v;
		return MPO(w);
	}
	return mpo_of<T>(p.H);
}
inline dmrg_options gen_options(Case &c, const Problem &p, bool truncated)
{
	dmrg_options o(0., 0.);
	o.convergence_criterion = c.pick(std::vector<double>{1e-5, 1e-10, 1e-3, 1e-1, 0.});
	o.maximum_iterations = (size_t)c.range(1, c.chance(1, 5) ? 12 : 4);
	o.minimum_bond = (size_t)c.pick(std::vector<int64_t>{4, 1, 0, 2, 100});
	if (truncated)
	{
		o.cutoff = c.pick(std::vector<double>{1e-6, 1e-10, 1e-3, 1e-1, 0.5, 1e-14});
		o.maximum_bond = c.flip() ? (size_t)c.range(1, 6) : (size_t)-1;
		o.minimum_bond = std::min(o.minimum_bond, o.maximum_bond);
	}
	if (c.chance(1, 5)) o.state_gradient = c.flip(), o.hamil_gradient = c.flip();
	(void)p;
	return o;
}
template <class T>
void search_case(Case &c, const Problem &p, bool truncated)
{
	auto s = gen_start<T>(c, p, false);
	auto o = gen_options(c, p, truncated);
	c.note([&] { return str(p); });
	c.note([&] { return str(s); });
	c.note([&] { return str(o); });
	auto H = operator_of<T>(p);
	auto m = canonical<T>(s);
	auto eps = precision(p);
	double before = expect(p, s.psi), tol = 4 * error_of(p);
	Tracing<T> tr(c, H, &m);
	Log log;
	auto E = dmrg(H, m, o, log);
	tr.after(c, H, m, E, o);
	detach_(m);
	double e;
	after_search<T>(c, p, m, H, s.q, dn(E).detach(), log, o, final_center(s, p.L()), eps, truncated, &e);
	if (!truncated)
	{
		double last = before;
		for (auto x : log.E)
		{
			PROP(x <= last + tol, "the energy rose from ", last, " to ", x);
			last = x;
		}
	}
	else
		for (size_t i = 0; i + 1 < m.size(); ++i)
		{
			auto n = (size_t)used_bond(m, i);
			if (n <= o.maximum_bond) continue;
			// equal singular values are kept together by the symmetric truncation: where other bonds are truncated
			// later on, this shows only when no value repeats.
			if (is_block<T> && !(p.generic && s.generic))
			{
				if (p.L() != 2) continue;
				int64_t rows = 1;
				for (size_t j = 0; j <= i; ++j) rows *= dim_size(p.phys[j]);
				auto w = torch::linalg::svdvals(state_of(m).reshape({rows, -1}));
				if (w.numel() > (int64_t)o.maximum_bond && o.maximum_bond)
				{
					auto a = w[(int64_t)o.maximum_bond].item().toDouble(), b = w[(int64_t)o.maximum_bond - 1].item().toDouble();
					if (a >= b * (1 - 1e-6)) continue;
				}
			}
			PROP(n <= o.maximum_bond, "bond of ", n, " at site ", i);
		}
	c.nontrivial(p.norm > 0 && sector(p, s.q).numel() > 1);
	c.label(s.what);
	c.label(p.what);
	if (std::abs(e - before) > 1e-6 * p.norm) c.label("improved");
	if (log.E.size() == o.maximum_iterations) c.label("all iterations");
}
template <class T>
void ground_case(Case &c, bool model = false)
{
	auto p = model ? gen_model<T>(c) : gen_problem<T>(c, Style::gapped, 4);
	auto s = gen_start<T>(c, p, true);
	dmrg_options o(0., 1e-14);
	o.minimum_bond = 1000;
	o.maximum_iterations = 300;
	c.note([&] { return str(p); });
	c.note([&] { return str(s); });
	auto H = operator_of<T>(p);
	auto idx = sector(p, s.q);
	auto [w, V] = torch::linalg::eigh(p.M.index_select(0, idx).index_select(1, idx), "L");
	double overlap = dag(V.select(1, 0).reshape({-1, 1})).matmul(s.psi.index_select(0, idx).reshape({-1, 1})).abs().item().toDouble() / frob(s.psi);
	double gap = idx.numel() > 1 ? w[1].item().toDouble() - w[0].item().toDouble() : 1;
	if (model)
	{ // the lowest level may be degenerate
		int64_t n = 1;
		double scale = std::max(p.norm, 1e-9);
		while (n < idx.numel() && w[n].item().toDouble() - w[0].item().toDouble() < 1e-9 * scale) ++n;
		overlap = frob(dag(V.narrow(1, 0, n)).matmul(s.psi.index_select(0, idx).reshape({-1, 1}).to(V.scalar_type()))) / frob(s.psi);
		gap = n < idx.numel() ? w[n].item().toDouble() - w[0].item().toDouble() : 1;
		c.assume(gap > 0.05 * scale);
	}
	c.assume(overlap > 1e-2);
	auto m = canonical<T>(s);
	Log log;
	auto E = dmrg(H, m, o, log);
	double e;
	after_search<T>(c, p, m, H, s.q, dn(E), log, o, final_center(s, p.L()), precision(p), false, &e);
	PROP(e <= lowest(p, s.q) + 1e-8 * std::max(1., p.norm), "stopped at ", e, " after ", log.E.size(), " iterations from an overlap of ", overlap);
	c.nontrivial(idx.numel() > 2);
	c.label(pbt::cat(p.L(), " sites"));
}
// no iteration: only an evaluation
template <class T>
void evaluate_case(Case &c)
{
	auto p = gen_problem<T>(c, Style::any);
	auto s = gen_start<T>(c, p, false);
	auto o = gen_options(c, p, c.flip());
	o.maximum_iterations = 0;
	c.note([&] { return str(p); });
	c.note([&] { return str(s); });
	auto H = operator_of<T>(p);
	auto m = canonical<T>(s);
	auto before = tensors_of(m);
	Tracing<T> tr(c, H, &m);
	Log log;
	auto Eb = dmrg(H, m, o, log);
	tr.after(c, H, m, Eb, o);
	detach_(m);
	auto E = wide(dn(Eb)).detach();
	PROP(E.dim() == 0, "the energy is not a scalar");
	double want = expect(p, s.psi), e = torch::real(E).item().toDouble();
	PROP(std::abs(e - want) <= 4 * error_of(p), "returned ", e, " for a state of energy ", want);
	PROP((int64_t)(size_t)m.orthogonality_center == s.oc, "center moved");
	auto after = tensors_of(m);
	for (size_t i = 0; i < m.size(); ++i) PROP(same(before[i], after[i], true), "site ", i, " changed");
	PROP(log.inits == 1 && log.ends == 1 && log.E.empty() && log.lastE == e, "log");
	c.nontrivial(p.norm > 0);
}
template <class F>
bool refused(F f)
{
	try
	{
		f();
	}
	catch (const std::invalid_argument &)
	{
		return true;
	}
	return false;
}
template <class T>
void refusal_case(Case &c)
{
	auto p = gen_problem<T>(c, Style::any);
	auto s = gen_start<T>(c, p, false);
	auto o = gen_options(c, p, c.flip());
	c.note([&] { return str(p); });
	c.note([&] { return str(s); });
	auto H = operator_of<T>(p);
	auto m = canonical<T>(s);
	switch (c.draw(3))
	{
	case 0: { // one is shorter
		bool shorten_state = c.flip();
		auto n = c.range(1, (int64_t)p.L() - 1);
		if (shorten_state)
		{
			auto v = s.n;
			v.t.resize((size_t)n);
			m = mps_of<T>(v);
		}
		else
		{
			auto v = p.H;
			v.t.resize((size_t)n);
			H = mpo_of<T>(v);
		}
		auto before = tensors_of(m);
		Tracing<T> tr(c, H, &m);
		PROP(refused([&] { dmrg(H, m, o); }), "accepted an operator of ", H.size(), " sites with a state of ", m.size());
		tr.hamil_kept(c, H), tr.state_kept(c, m);
		detach_(m);
		auto after = tensors_of(m);
		PROP(after.size() == before.size());
		for (size_t i = 0; i < after.size(); ++i) PROP(same(before[i], after[i], true), "site ", i, " changed");
		break;
	}
	case 1: { // a single site
		auto v = s.n;
		v.t.resize(1);
		auto w = p.H;
		w.t.resize(1);
		m = mps_of<T>(v);
		H = mpo_of<T>(w);
		Tracing<T> tr(c, H, &m);
		PROP(refused([&] { dmrg(H, m, o); }), "accepted a single site");
		tr.hamil_kept(c, H), tr.state_kept(c, m);
		break;
	}
	default: { // nothing to start from
		auto v = s.n;
		auto i = c.draw(v.t.size());
		auto &x = v.t[i];
		bool kept = c.flip();
		x = bt_from(x.s, x.d * 0, x.v);
		if (kept)
			for (auto &b : allowed_blocks(x.s)) x.t.block(b) = torch::zeros(block_sizes(x.s, b), dtype(x.v));
		m = mps_of<T>(v);
		Tracing<T> tr(c, H, &m);
		PROP(refused([&] { dmrg(H, m, o); }), "accepted a state of zero norm");
		tr.hamil_kept(c, H), tr.state_kept(c, m);
	}
	}
	c.nontrivial();
}
// started from a state drawn by the library
template <class T>
void drawn_case(Case &c)
{
	auto p = gen_problem<T>(c, Style::any);
	auto o = gen_options(c, p, c.flip());
	c.note([&] { return str(p); });
	c.note([&] { return str(o); });
	bool truncated = o.cutoff > 0;
	auto H = operator_of<T>(p);
	torch::manual_seed((int64_t)c.draw(1000));
	Tracing<T> tr(c, H, nullptr);
	Log log;
	auto q = p.q[c.draw(p.q.size())];
	if constexpr (is_block<T>)
	{
		if (c.chance(1, 6))
		{
			auto w = gen_q(c, p.kind, 9);
			if (std::find(p.q.begin(), p.q.end(), w) == p.q.end())
			{
				MUST_THROW(dmrg(H, to_any(p.kind, w), o, log), "there is no state of this charge");
				return;
			}
		}
		auto [E, m] = dmrg(H, to_any(p.kind, q), o, log);
		tr.after(c, H, m, E, o);
		after_search<T>(c, p, m, H, q, dn(E).detach(), log, o, 0, precision(p), truncated);
	}
	else
	{
		auto [E, m] = dmrg(H, o, log);
		tr.after(c, H, m, E, o);
		after_search<T>(c, p, m, H, q, dn(E).detach(), log, o, 0, precision(p), truncated);
	}
	c.nontrivial(p.norm > 0);
}
// the dense search follows the same path as the symmetric one when nothing but rounding is truncated
inline void compare_case(Case &c)
{
	auto p = gen_problem<btensor>(c, c.flip() ? Style::gapped : Style::any);
	auto s = gen_start<btensor>(c, p, true);
	c.assume(p.generic && s.generic); // from states of high symmetry, rounding decides which way the dense search goes
	dmrg_options o(1e-9, 0.); // without it, the dense search keeps vectors of no definite charge beside the state
	o.maximum_iterations = (size_t)c.range(1, 3);
	o.minimum_bond = 1;
	c.note([&] { return str(p); });
	c.note([&] { return str(s); });
	c.note([&] { return str(o); });
	auto H = operator_of<btensor>(p);
	auto m = canonical<btensor>(s);
	auto d = tensors_of(m);
	std::vector<Tensor> hd;
	for (auto &x : p.H.t) hd.push_back(x.d.clone());
	const auto cd = d, ch = hd;
	MPS md(cd, (size_t)m.orthogonality_center);
	MPO Hd(ch);
	Log a, b;
	dmrg(H, m, o, a);
	dmrg(Hd, md, o, b);
	auto n = std::min(a.E.size(), b.E.size());
	double tol = 1e-6 * p.norm + 1e4 * error_of(p);
	double low = lowest(p, s.q);
	for (size_t i = 0; i < n; ++i)
	{
		if (a.E[i] - low < 1e-4 * p.norm) return; // what follows amplifies rounding
		PROP(std::abs(a.E[i] - b.E[i]) <= tol, "iteration ", i, ": ", a.E[i], " with charges, ", b.E[i], " without; tolerance ", tol);
		c.nontrivial();
	}
	if (a.E.size() != b.E.size()) PROP(std::abs(a.E.back() - b.E.back()) <= tol, "the searches stopped at ", a.E.back(), " and ", b.E.back());
	if (n > 1 && std::abs(a.E[0] - a.E[1]) > 1e-6 * p.norm) c.label("moving");
}
// the options are what the constructors were given, and the documented defaults otherwise
inline void options_case(Case &c)
{
	double cutoff = c.pick(std::vector<double>{0., 1e-3, 0.25, 1e-12}), crit = c.pick(std::vector<double>{0., 1e-8, 0.5, 1e-2});
	size_t big = (size_t)c.range(0, 1000), small = (size_t)c.range(0, 1000), it = (size_t)c.range(0, 1000);
	bool s = c.flip(), h = c.flip();
	auto check = [&](const dmrg_options &o, double a, double b, size_t x, size_t y, size_t z, bool g, bool k) {
		PROP(o.cutoff == a && o.convergence_criterion == b && o.maximum_bond == x && o.minimum_bond == y && o.maximum_iterations == z && o.state_gradient == g && o.hamil_gradient == k, "options (", str(o), ") instead of ", a,
		     " ", b, " ", y, "..", x, " ", z, " ", g, " ", k);
	};
	const size_t top = std::numeric_limits<size_t>::max();
	check(dmrg_options(), 1e-6, 1e-5, top, 4, 1000, false, false);
	check(dmrg_options(cutoff, crit), cutoff, crit, top, 4, 1000, false, false);
	check(dmrg_options(big, small, it), 1e-6, 1e-5, big, small, it, false, false);
	check(dmrg_options(cutoff, crit, big, small, it), cutoff, crit, big, small, it, false, false);
	check(dmrg_options(cutoff, crit, big, small, it, s), cutoff, crit, big, small, it, s, false);
	dmrg_options full(cutoff, crit, big, small, it, s, h), other;
	check(full, cutoff, crit, big, small, it, s, h);
	other = full;
	check(other, cutoff, crit, big, small, it, s, h);
	c.nontrivial();
}
} // namespace gen
