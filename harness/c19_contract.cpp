// C19: contraction of matrix product states and operators.
#include "model_net.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random states and operators of 1-5 sites (dense: bonds 1-4, physical sizes 1-3, rectangular operators, edges up to 3; symmetric: 7 group types, repeated charges, operators and states that "
    "carry a charge, absent, zero, small and low-rank blocks), real and complex, non-symmetric; non-trivial when the expected value is not zero and there are two sites";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 4000000;
std::vector<std::string> pbt::assumptions = {"torch::einsum on the dense expansion is correct",
                                             "torch refuses to multiply a real with a complex tensor: all the tensors of a contraction have the same element type"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
static double tol = 1e-12;
static Val gen_v(Case &c)
{
	auto v = c.pick(std::vector<Val>{Val::ints, Val::real, Val::cplx, Val::cints, Val::f32, Val::c64});
	tol = v == Val::f32 || v == Val::c64 ? 1e-5 : 1e-12;
	return v;
}
static std::string tens_str(const std::vector<Tensor> &t)
{
	std::string s;
	for (auto &x : t) s += tstr(x) + "; ";
	return s;
}
static double norms(const std::vector<Tensor> &t)
{
	double r = 1;
	for (auto &x : t) r *= frob(x);
	return r;
}
#define SCALAR(got, want, scale, ...)                                                                                        \
	do                                                                                                                       \
	{                                                                                                                        \
		Tensor g_ = wide(got), w_ = want;                                                                                    \
		PROP(g_.dim() == 0, "the result has rank ", g_.dim());                                                               \
		PROP(maxabs(g_ - w_) <= tol * (scale) + 1e-290, tstr(g_), " instead of ", tstr(w_), " (scale ", (scale), ") ", ##__VA_ARGS__); \
	} while (0)
static Tensor overlap(const Tensor &a, const Tensor &b, const Tensor &l, const Tensor &r)
{
	return torch::einsum("xy,xpr,ypt,rt->", {wide(l), a, b.conj(), wide(r)});
}
static Tensor element(const Tensor &a, const Tensor &b, const Tensor &o, const Tensor &l, const Tensor &r)
{
	auto t = torch::einsum("xwy,xpr->wypr", {wide(l), a});
	t = torch::einsum("wypr,wqsp->yrqs", {t, o});
	t = torch::einsum("yrqs,yqt->rst", {t, b.conj()});
	return torch::einsum("rst,rst->", {t, wide(r)});
}

FACET(dense_overlap, 2)
{
	auto L = (size_t)c.range(1, 5);
	auto v = gen_v(c);
	IL phys;
	for (size_t i = 0; i < L; ++i) phys.push_back(c.range(1, 3));
	auto ba = gen_bonds(c, L, 4, 3), bb = gen_bonds(c, L, 4, 3);
	bool edges = c.flip();
	if (!edges) bb[0] = ba[0], bb[L] = ba[L];
	auto a = gen_dense_state(c, phys, ba, v), b = c.chance(1, 6) && !edges && ba == bb ? a : gen_dense_state(c, phys, bb, v);
	c.note([&] { return cat("a ", tens_str(a), " b ", tens_str(b)); });
	MPS A(a), B(b);
	Tensor l = torch::eye(ba[0]), r = torch::eye(ba[L]), got;
	if (edges)
	{
		l = gen_dense(c, {ba[0], bb[0]}, v);
		r = gen_dense(c, {ba[L], bb[L]}, v);
		got = contract(A, B, l, r);
	}
	else got = contract(A, B);
	auto want = overlap(expand_state(a), expand_state(b), l, r);
	auto scale = norms(a) * norms(b) * frob(l) * frob(r);
	SCALAR(got, want, scale);
	// exchanging the states conjugates
	auto back = edges ? contract(B, A, l.transpose(0, 1).conj(), r.transpose(0, 1).conj()) : contract(B, A);
	SCALAR(back, want.conj(), scale, "after exchanging the states");
	for (size_t i = 0; i < L; ++i) SAME(A[i], a[i], true, "contracted state");
	c.nontrivial(L > 1 && maxabs(want) > 0);
}
FACET(dense_element, 2)
{
	auto L = (size_t)c.range(1, 4);
	auto v = gen_v(c);
	IL pa, pb;
	bool square = c.flip();
	for (size_t i = 0; i < L; ++i)
	{
		pa.push_back(c.range(1, 3));
		pb.push_back(square ? pa.back() : c.range(1, 3));
	}
	auto ba = gen_bonds(c, L, 3, 3), bb = gen_bonds(c, L, 3, 3), bo = gen_bonds(c, L, 3, 3);
	bool edges = c.flip();
	if (!edges) bb[0] = ba[0], bb[L] = ba[L];
	auto a = gen_dense_state(c, pa, ba, v), b = gen_dense_state(c, pb, bb, v);
	auto o = gen_dense_oper(c, pb, pa, bo, v);
	c.note([&] { return cat("a ", tens_str(a), " b ", tens_str(b), " operator ", tens_str(o)); });
	MPS A(a), B(b);
	MPO O(o);
	Tensor got, l, r;
	if (edges)
	{
		l = gen_dense(c, {ba[0], bo[0], bb[0]}, v);
		r = gen_dense(c, {ba[L], bo[L], bb[L]}, v);
		got = contract(A, B, O, l, r);
	}
	else
	{
		l = torch::einsum("xy,w->xwy", {torch::eye(ba[0]), torch::ones({bo[0]})});
		r = torch::einsum("xy,w->xwy", {torch::eye(ba[L]), torch::ones({bo[L]})});
		got = contract(A, B, O);
	}
	auto want = element(expand_state(a), expand_state(b), expand_oper(o), l, r);
	SCALAR(got, want, norms(a) * norms(b) * norms(o) * frob(l) * frob(r));
	c.nontrivial(L > 1 && maxabs(want) > 0);
}
// a state over the same physical space, reaching the same edges when asked
static Net like_state(Case &c, const Net &a, Val v, bool same_edges, bool gaps)
{
	auto kind = a.kind;
	size_t L = a.t.size();
	NetLim l;
	l.edge = 2;
	l.gaps = gaps;
	std::vector<Dim> phys;
	for (auto &x : a.t) phys.push_back(x.s.dims[1]);
	if (!same_edges) return gen_bstate(c, kind, phys, v, l);
	Net n;
	n.kind = kind;
	auto left = a.t[0].s.dims[0];
	for (size_t i = 0; i < L; ++i)
	{
		Spec s;
		s.kind = kind;
		s.sel = a.t[i].s.sel;
		Dim right;
		if (i + 1 == L) right = a.t[i].s.dims[2];
		else if (c.chance(1, 3)) right = a.t[i].s.dims[2];
		else
		{
			right = gen_bond(c, kind, {left, phys[i]}, s.sel, 3, 2);
			// share some charges with the other state, so that the overlap is not zero
			auto &o = a.t[i].s.dims[2];
			for (auto &x : o)
				if (c.flip()) right.insert(right.begin() + c.draw(right.size() + 1), Sec{c.range(1, 2), x.q});
		}
		s.dims = {left, phys[i], right};
		n.t.push_back(gen_site(c, s, v, l.gaps));
		left = conj_dim(kind, right);
	}
	return n;
}
static btensor edge(Case &c, int kind, const std::vector<Dim> &d, Val v, const Q &want, Tensor &dense)
{
	Spec s;
	s.kind = kind;
	s.dims = d;
	s.sel = c.chance(1, 8) ? gen_q(c, kind) : want;
	auto t = gen_tensor(c, s, v);
	dense = t.d;
	return t.t;
}
static Q any_block(Case &c, int kind, const std::vector<Dim> &d)
{
	Q q = qzero(kind);
	for (auto &x : d) q = qadd(kind, q, x[c.draw(x.size())].q);
	return q;
}
static void scalar(Case &c, const btensor &got, const Tensor &want, double scale, const any_quantity &charge)
{
	PROP(got.dim() == 0, "the result has rank ", got.dim());
	VALID(got);
	SCALAR(dense_of(got), want, scale);
	PROP(sel_of(got) == charge, "charge of the result: ", fmt::format("{} instead of {}", sel_of(got), charge));
}
FACET(block_overlap, 3)
{
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(1, 5);
	auto v = gen_v(c);
	auto phys = gen_phys(c, kind, L, L > 3 ? Lim{2, 1, 2} : Lim{3, 2, 2});
	c.assume(states(phys) <= 128);
	NetLim lim;
	lim.edge = 2;
	bool gaps = lim.gaps = c.flip();
	auto a = gen_bstate(c, kind, phys, v, lim);
	bool edges = c.flip();
	auto b = like_state(c, a, v, !edges || c.flip(), gaps);
	if (!edges && c.chance(1, 6)) b = a;
	bMPS A = a.as<bMPS>(), B = b.as<bMPS>();
	Tensor l, r;
	btensor got;
	auto la = a.t[0].s.dims[0], lb = b.t[0].s.dims[0], ra = a.t[L - 1].s.dims[2], rb = b.t[L - 1].s.dims[2];
	auto charge = to_any(kind, total_sel(a)) * to_any(kind, qneg(kind, total_sel(b)));
	c.note([&] { return cat("a ", str(a), " b ", str(b)); });
	if (edges)
	{
		std::vector<Dim> dl{conj_dim(kind, la), lb}, dr{conj_dim(kind, ra), rb};
		auto el = edge(c, kind, dl, v, any_block(c, kind, dl), l), er = edge(c, kind, dr, v, any_block(c, kind, dr), r);
		charge = charge * sel_of(el) * sel_of(er);
		c.note([&] { return cat("left ", tstr(l), " right ", tstr(r)); });
		auto sl = snap(el), sr = snap(er);
		got = contract(A, B, el, er);
		UNCHANGED(sl, el);
		UNCHANGED(sr, er);
	}
	else
	{
		l = torch::eye(dim_size(la)), r = torch::eye(dim_size(ra));
		got = contract(A, B);
	}
	auto want = overlap(expand_state(a.d()), expand_state(b.d()), l, r);
	auto scale = norms(a.d()) * norms(b.d()) * frob(l) * frob(r);
	scalar(c, got, want, scale, charge);
	for (size_t i = 0; i < L; ++i) SAME(dense_of(A[i]), a.t[i].d, true, "contracted state");
	c.nontrivial(L > 1 && maxabs(want) > 0);
}
FACET(block_element, 3)
{
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(1, 4);
	auto v = gen_v(c);
	auto phys = gen_phys(c, kind, L, L > 2 ? Lim{2, 1, 2} : Lim{3, 2, 2});
	c.assume(states(phys) <= 64);
	NetLim lim;
	lim.edge = 2;
	bool gaps = lim.gaps = c.flip();
	auto a = gen_bstate(c, kind, phys, v, lim);
	bool edges = c.flip();
	auto b = like_state(c, a, v, !edges || c.flip(), gaps);
	NetLim lo;
	lo.gaps = gaps;
	lo.edge = edges ? 2 : 1;
	lo.neutral_edges = !edges;
	lo.sel = edges || c.chance(1, 4);
	auto o = gen_boper(c, kind, phys, phys, v, lo);
	bMPS A = a.as<bMPS>(), B = b.as<bMPS>();
	bMPO O = o.as<bMPO>();
	Tensor l, r;
	btensor got;
	auto la = a.t[0].s.dims[0], lb = b.t[0].s.dims[0], ra = a.t[L - 1].s.dims[2], rb = b.t[L - 1].s.dims[2];
	auto ol = o.t[0].s.dims[0], orr = o.t[L - 1].s.dims[2];
	auto charge = to_any(kind, total_sel(a)) * to_any(kind, qneg(kind, total_sel(b))) * to_any(kind, total_sel(o));
	c.note([&] { return cat("a ", str(a), " b ", str(b), " operator ", str(o)); });
	if (edges)
	{
		std::vector<Dim> dl{conj_dim(kind, la), conj_dim(kind, ol), lb}, dr{conj_dim(kind, ra), conj_dim(kind, orr), rb};
		auto el = edge(c, kind, dl, v, any_block(c, kind, dl), l), er = edge(c, kind, dr, v, any_block(c, kind, dr), r);
		charge = charge * sel_of(el) * sel_of(er);
		c.note([&] { return cat("left ", tstr(l), " right ", tstr(r)); });
		got = contract(A, B, O, el, er);
	}
	else
	{
		l = torch::eye(dim_size(la)).unsqueeze(1), r = torch::eye(dim_size(ra)).unsqueeze(1);
		got = contract(A, B, O);
	}
	auto want = element(expand_state(a.d()), expand_state(b.d()), expand_oper(o.d()), l, r);
	scalar(c, got, want, norms(a.d()) * norms(b.d()) * norms(o.d()) * frob(l) * frob(r), charge);
	c.nontrivial(L > 1 && maxabs(want) > 0);
}
FACET(coalesce, 2)
{
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(0, 4);
	auto v = gen_v(c);
	auto in = gen_phys(c, kind, L, L > 2 ? Lim{2, 1, 2} : Lim{2, 2, 2});
	auto out = c.flip() ? in : gen_phys(c, kind, L, L > 2 ? Lim{2, 1, 2} : Lim{2, 2, 2});
	c.assume(states(in) * states(out) <= 1024);
	NetLim lim;
	lim.edge = 2;
	lim.size = 3;
	lim.gaps = c.flip();
	auto o = gen_boper(c, kind, out, in, v, lim);
	c.note([&] { return str(o); });
	bMPO O = o.as<bMPO>();
	double cut = c.flip() ? 0. : std::pow(10., -(double)c.draw(8)) * c.range(1, 3);
	c.note([&] { return cat("cutoff ", cut); });
	auto before = O;
	auto &ret = cut == 0 && c.flip() ? O.coalesce() : O.coalesce(cut);
	PROP(&ret == &O && O.size() == L);
	if (L == 0) return;
	double err = 0, all = norms(o.d());
	for (size_t i = 0; i + 1 < L; ++i)
	{
		double rest = 1;
		for (size_t j = 0; j < L; ++j)
			if (j != i) rest *= frob(o.t[j].d);
		err += rest * cut;
	}
	for (size_t i = 0; i < L; ++i)
	{
		VALID(O[i]);
		PROP(O[i].dim() == 4);
		if (i)
		{
			auto b = bond_diff(O[i - 1], 2, O[i], 0);
			PROP(b == "", "around site ", i, ": ", b);
			if (cut == 0) PROP(O[i].sizes()[0] <= before[i].sizes()[0], "bond ", i, " grew");
		}
		auto p = bond_diff(O[i].conj(), 1, before[i], 1) + bond_diff(O[i].conj(), 3, before[i], 3);
		PROP(p == "", "physical indices of site ", i, ": ", p);
	}
	PROP(total_sel(O) == total_sel(before), "the charge of the operator changed");
	auto was = expand_oper(o.d()), now = oper_of(O);
	PROP(was.sizes() == now.sizes());
	double d = frob(was - now);
	PROP(d <= err * (1 + 1e-9) + tol * all, "the operator changed by ", d, ", bound ", err);
	c.nontrivial(L > 1 && frob(was) > 0);
}
// states and operators of different lengths, or of no site at all
FACET(lengths, 1)
{
	size_t n[3];
	auto L = c.range(0, 3);
	for (auto &x : n) x = L;
	bool bad = L == 0;
	if (c.flip())
	{
		auto k = c.draw(3);
		n[k] = (L + c.range(1, 3)) % 4;
		bad = true;
	}
	bool oper = c.flip();
	if (!oper)
	{
		n[2] = n[0];
		bad = n[0] != n[1] || n[0] == 0;
	}
	c.note([&] { return cat(n[0], n[1], n[2], oper); });
	auto run = [&](auto f) {
		bool thrown = false;
		try
		{
			f();
		}
		catch (const std::invalid_argument &)
		{
			thrown = true;
		}
		PROP(thrown == bad, bad ? "accepted" : "refused", " lengths ", n[0], " ", n[1], " ", n[2]);
	};
	if (c.flip())
	{
		MPS a(std::vector<Tensor>(n[0], torch::ones({1, 2, 1}))), b(std::vector<Tensor>(n[1], torch::ones({1, 2, 1})));
		MPO o(std::vector<Tensor>(n[2], torch::ones({1, 2, 1, 2})));
		bool e = c.flip();
		auto x = torch::ones({1, 1, 1}), y = torch::ones({1, 1});
		if (n[0] == 0 && n[1] == 0 && n[2] == 0 && e) bad = false; // the edges alone
		run([&] { oper ? (e ? contract(a, b, o, x, x) : contract(a, b, o)) : (e ? contract(a, b, y, y) : contract(a, b)); });
	}
	else
	{
		Spec s;
		s.sel = qzero(0);
		Dim one{Sec{1, qzero(0)}}, two{Sec{2, qzero(0)}};
		s.dims = {one, two, one};
		auto st = ones_like(make_shape(s));
		s.dims = {one, two, one, two};
		auto op = ones_like(make_shape(s));
		s.dims = {one, one};
		auto y = ones_like(make_shape(s));
		s.dims = {one, one, one};
		auto x = ones_like(make_shape(s));
		bMPS a(std::vector<btensor>(n[0], st)), b(std::vector<btensor>(n[1], st));
		bMPO o(std::vector<btensor>(n[2], op));
		bool e = c.flip();
		if (n[0] == 0 && n[1] == 0 && n[2] == 0 && e) bad = false; // the edges alone
		run([&] { oper ? (e ? contract(a, b, o, x, x) : contract(a, b, o)) : (e ? contract(a, b, y, y) : contract(a, b)); });
	}
	c.nontrivial(bad);
}
