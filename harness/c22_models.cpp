// C22: model Hamiltonians.
#include "model_net.h"
#include "model_models.h"
#include "models.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "Heisenberg chains of 1-6 sites and Hubbard chains of 1-4 sites (with zero sites refused); couplings zero, one, integer up to 100000, tiny (1e-12), large (1e8), negative, drawn, given as "
    "scalars or tensors of every real and integer type, with both default precisions; for the symmetric models 7 group types, any charges of the local states, any grouping in sections, inconsistent "
    "charges and local spaces of the wrong size; non-trivial when there are at least two sites and a non-zero operator, or when the input is refused";
unsigned pbt::quick_cases = 60000, pbt::thorough_cases = 1500000;
std::vector<std::string> pbt::assumptions = {"the reference operators are written out in the harness; torch::kron is correct"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
struct Coupling
{
	double v;      // as a number
	Tensor t;      // as a tensor
	torch::Scalar s;
	bool tensor;
};
static Coupling gen_coupling(Case &c)
{
	Coupling x;
	x.tensor = c.flip();
	bool integer = c.chance(1, 3);
	double v;
	if (integer) v = (double)c.pick(std::vector<int64_t>{0, 1, -1, 2, 3, 63, 64, 65, 100, 127, 128, 129, 200, 255, 256, 1000, 32768, 100000}) * (c.flip() ? 1 : -1);
	else
		switch (c.weighted({3, 1, 1, 1, 2}))
		{
		case 0: v = (double)c.around(32) / 8; break;
		case 1: v = 0; break;
		case 2: v = std::pow(10., -(double)c.range(3, 12)); break;
		case 3: v = std::pow(10., (double)c.range(2, 8)); break;
		default: v = (double)c.around(1000) / 300; break;
		}
	if (!integer && c.chance(1, 4)) v = -v;
	if (x.tensor)
	{
		auto ty = integer ? c.pick(std::vector<torch::ScalarType>{torch::kInt64, torch::kInt32}) : c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat64, torch::kFloat32});
		x.t = torch::full({}, v, torch::TensorOptions().dtype(ty));
		v = x.t.item<double>();
	}
	else x.s = integer ? torch::Scalar((int64_t)v) : torch::Scalar(v);
	x.v = v;
	if (!x.tensor) x.t = Tensor();
	return x;
}
struct Precision
{
	double eps = 1e-14;
	Precision(Case &c)
	{
		if (c.chance(1, 6))
		{
			torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat32));
			eps = 3e-6;
		}
	}
	~Precision() { torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64)); }
};
// (the compression of the symmetric operators rounds at the scale of the products of their tensors: `coupling`)
static void compare(Case &c, const Tensor &got, const Tensor &want, double eps, const char *what, double coupling = 0)
{
	PROP(got.sizes() == want.sizes(), what, ": ", got.sizes(), " instead of ", want.sizes());
	auto err = maxabs(wide(got) - want), tol = eps * (1 + maxabs(want)) * (1 + coupling) * 10;
	PROP(err <= tol, what, ": error ", err, " tolerance ", tol);
}
template <class N>
static Tensor full_of(Case &c, const N &n)
{
	auto o = oper_of(n);
	PROP(o.size(0) == 1 && o.size(2) == 1, "edges ", o.sizes());
	return o.select(2, 0).select(0, 0);
}
template <class M>
static void dense_checks(Case &c, const M &H, size_t L, int64_t d)
{
	PROP(H.size() == L, "length ", H.size());
	PROP(H.check_ranks());
	for (size_t i = 0; i < L; ++i)
	{
		PROP(H[i].sizes()[1] == d && H[i].sizes()[3] == d, "physical sizes ", H[i].sizes());
		PROP(H[i].options().dtype() == torch::get_default_dtype(), "element type of site ", i);
	}
}
template <class F>
static bool refused(F f)
{
	try
	{
		f();
	}
	catch (const std::exception &)
	{
		return true;
	}
	return false;
}
FACET(dense_heisenberg, 2)
{
	Precision p(c);
	auto L = (size_t)c.range(0, 6);
	auto J = gen_coupling(c);
	c.note([&] { return cat("length ", L, " J ", J.v, J.tensor ? " tensor" : " scalar", p.eps > 1e-10 ? " float" : ""); });
	auto make = [&] { return J.tensor ? Heisenberg(J.t, L) : Heisenberg(J.s, L); };
	if (L == 0)
	{
		PROP(refused(make), "accepted no site");
		c.nontrivial();
		return;
	}
	auto H = make();
	dense_checks(c, H, L, 2);
	compare(c, full_of(c, H), heisenberg(J.v, L), p.eps, "Heisenberg");
	// relative to the coupling itself
	if (L > 1) PROP(maxabs(wide(full_of(c, H)) - heisenberg(J.v, L)) <= 100 * p.eps * std::abs(J.v), "a small coupling was lost");
	c.nontrivial(L > 1 && J.v != 0);
}
FACET(dense_hubbard, 2)
{
	Precision p(c);
	auto L = (size_t)c.range(0, 4);
	auto U = gen_coupling(c), mu = gen_coupling(c);
	mu.tensor = U.tensor;
	if (mu.tensor && !mu.t.defined()) mu.t = torch::full({}, mu.v, torch::TensorOptions().dtype(torch::kFloat64));
	if (!mu.tensor && mu.t.defined()) mu.s = torch::Scalar(mu.v);
	c.note([&] { return cat("length ", L, " U ", U.v, " mu ", mu.v, U.tensor ? " tensor" : " scalar", p.eps > 1e-10 ? " float" : ""); });
	auto make = [&] { return U.tensor ? Hubbard(U.t, mu.t, L) : Hubbard(U.s, mu.s, L); };
	if (L == 0)
	{
		PROP(refused(make), "accepted no site");
		c.nontrivial();
		return;
	}
	auto H = make();
	dense_checks(c, H, L, 4);
	auto want = hubbard(U.v, mu.v, L);
	compare(c, full_of(c, H), want, p.eps, "Hubbard");
	compare(c, full_of(c, H), wide(full_of(c, H)).t(), p.eps, "Hermitian");
	c.nontrivial(L > 1);
}
static Dim grouped(Case &c, const std::vector<Q> &q)
{
	Dim d;
	for (auto &x : q)
		if (!d.empty() && d.back().q == x && c.flip()) d.back().size++;
		else d.push_back(Sec{1, x});
	return d;
}
static btensor phys_of(Case &c, int kind, const std::vector<Q> &q, Dim &d)
{
	Spec s;
	s.kind = kind;
	d = grouped(c, q);
	s.dims = {d};
	s.sel = c.chance(1, 6) ? gen_q(c, kind) : qzero(kind);
	c.note([&] { return str(s); });
	return c.chance(1, 6) ? gen_tensor(c, s, Val::real).t : make_shape(s);
}
static void block_checks(Case &c, const bMPO &H, size_t L, int kind, const btensor &phys)
{
	PROP(H.size() == L, "length ", H.size());
	PROP(H.check_ranks());
	for (size_t i = 0; i < L; ++i)
	{
		VALID(H[i]);
		PROP(H[i].dim() == 4);
		auto d = bond_diff(H[i].conj(), 1, phys, 0) + bond_diff(H[i], 3, phys, 0);
		PROP(d == "", "physical indices of site ", i, ": ", d);
		if (i)
		{
			d = bond_diff(H[i - 1], 2, H[i], 0);
			PROP(d == "", "around site ", i, ": ", d);
		}
	}
	// the Hamiltonian conserves the charges: what it adds vanishes
	auto q = total_sel(H) * any_quantity(H[0].section_conserved_qtt(0, 0)).inverse() * any_quantity(H[L - 1].section_conserved_qtt(2, 0)).inverse();
	PROP(q == to_any(kind, qzero(kind)), fmt::format("the Hamiltonian has a charge {}", q));
}
FACET(block_heisenberg, 3)
{
	auto L = (size_t)c.range(0, 5);
	auto J = gen_coupling(c);
	auto kind = gen_kind(c);
	Dim d;
	auto m = c.chance(1, 6) ? 9 : 2;
	std::vector<Q> q{c.flip() ? qzero(kind) : gen_q(c, kind, m), gen_q(c, kind, m)};
	auto phys = phys_of(c, kind, q, d);
	c.note([&] { return cat("length ", L, " J ", J.v, J.tensor ? " tensor" : " scalar"); });
	auto make = [&] { return J.tensor ? Heisenberg(J.t, L, phys) : Heisenberg(J.s, L, phys); };
	if (L == 0)
	{
		PROP(refused(make), "accepted no site");
		c.nontrivial();
		return;
	}
	auto before = snap(phys);
	auto H = make();
	UNCHANGED(before, phys);
	block_checks(c, H, L, kind, phys);
	compare(c, full_of(c, H), heisenberg(J.v, L), 1e-14, "Heisenberg", std::abs(J.v));
	c.nontrivial(L > 1 && J.v != 0);
}
FACET(block_hubbard, 3)
{
	auto L = (size_t)c.range(0, 3);
	auto U = gen_coupling(c), mu = gen_coupling(c);
	auto kind = gen_kind(c);
	auto k = kind;
	auto m = c.chance(1, 6) ? 9 : 2;
	auto q0 = c.flip() ? qzero(k) : gen_q(c, k, m), u = gen_q(c, k, m), v = c.chance(1, 3) ? (c.flip() ? u : qneg(k, u)) : gen_q(c, k, m);
	std::vector<Q> q{q0, qadd(k, q0, u), qadd(k, q0, v), qadd(k, qadd(k, q0, u), v)};
	if (c.chance(1, 8)) q[c.draw(4)] = gen_q(c, k, m);
	bool ok = qnorm(k, qadd(k, q[0], q[3])) == qnorm(k, qadd(k, q[1], q[2]));
	Dim d;
	auto phys = phys_of(c, kind, q, d);
	bool ten = U.tensor;
	auto tu = ten ? U.t : torch::full({}, U.v, torch::TensorOptions().dtype(torch::kFloat64)), tm = torch::full({}, mu.v, torch::TensorOptions().dtype(torch::kFloat64));
	c.note([&] { return cat("length ", L, " U ", U.v, " mu ", mu.v, ten ? " tensor" : " scalar", ok ? "" : " inconsistent"); });
	auto make = [&] { return ten ? Hubbard(tu, tm, L, phys) : Hubbard(U.s, torch::Scalar(mu.v), L, phys); };
	if (L == 0 || (!ok && L > 1))
	{
		PROP(refused(make), "accepted ", L ? "inconsistent charges" : "no site");
		c.nontrivial();
		return;
	}
	if (!ok) return; // on a single site there is no hopping
	auto H = make();
	block_checks(c, H, L, kind, phys);
	compare(c, full_of(c, H), hubbard(U.v, mu.v, L), 1e-14, "Hubbard", std::abs(U.v) + std::abs(mu.v));
	c.nontrivial(L > 1);
}
FACET(wrong_input, 1)
{
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(1, 3);
	std::vector<Q> q;
	auto n = c.range(1, 6);
	for (int64_t i = 0; i < n; ++i) q.push_back(qzero(kind));
	Dim d;
	auto phys = phys_of(c, kind, q, d);
	c.note([&] { return cat("length ", L, " local space of ", n); });
	if (n != 2) PROP(refused([&] { Heisenberg(1., L, phys); }), "Heisenberg accepted a local space of ", n);
	if (n != 4) PROP(refused([&] { Hubbard(1., 1., L, phys); }), "Hubbard accepted a local space of ", n);
	auto J = torch::ones({c.range(1, 2)}, torch::kFloat64), x = torch::ones({}, torch::kFloat64);
	PROP(refused([&] { Heisenberg(J, L); }), "Heisenberg accepted a vector of couplings");
	PROP(refused([&] { Hubbard(J, x, L); }) && refused([&] { Hubbard(x, J, L); }), "Hubbard accepted a vector of couplings");
	c.nontrivial();
}
// complex couplings are those of a Hamiltonian that isn't Hermitian, the terms are the same
FACET(complex_couplings, 1)
{
	auto L = (size_t)c.range(1, 4);
	auto num = [&](bool cplx) { return c10::complex<double>(double(c.around(4)) / 2, cplx ? double(c.around(4)) / 2 : 0.); };
	bool cu = c.flip(), cm = !cu || c.flip(), tensor = c.flip(), hub = c.flip(), block = c.flip();
	auto u = num(cu), m = num(cm);
	if (!hub) u = num(true);
	c.note([&] { return cat(hub ? "Hubbard" : "Heisenberg", " length ", L, " couplings ", u, m, tensor ? " tensors" : " scalars", block ? " symmetric" : ""); });
	auto scalar = [](c10::complex<double> x, bool cplx) { return cplx ? torch::Scalar(x) : torch::Scalar(x.real()); };
	auto ten = [&](c10::complex<double> x, bool cplx) { return torch::full({}, scalar(x, cplx), torch::TensorOptions().dtype(cplx ? torch::kComplexDouble : torch::kFloat64)); };
	auto C = torch::kComplexDouble;
	Tensor got, want;
	auto kind = gen_kind(c);
	auto q0 = gen_q(c, kind), q1 = gen_q(c, kind), q2 = gen_q(c, kind);
	std::vector<Q> q{q0, qadd(kind, q0, q1)};
	if (hub)
	{
		if (L > 3) L = 3;
		q.push_back(qadd(kind, q0, q2));
		q.push_back(qadd(kind, q[1], q2));
	}
	Dim d;
	auto phys = phys_of(c, kind, q, d);
	if (hub)
	{
		auto zero = hubbard(0, 0, L).to(C);
		want = zero + (hubbard(1, 0, L).to(C) - zero) * torch::Scalar(u) + (hubbard(0, 1, L).to(C) - zero) * torch::Scalar(m);
		if (block) got = full_of(c, tensor ? Hubbard(ten(u, cu), ten(m, cm), L, phys) : Hubbard(scalar(u, cu), scalar(m, cm), L, phys));
		else got = full_of(c, tensor ? Hubbard(ten(u, cu), ten(m, cm), L) : Hubbard(scalar(u, cu), scalar(m, cm), L));
	}
	else
	{
		want = heisenberg(1, L).to(C) * torch::Scalar(u);
		if (block) got = full_of(c, tensor ? Heisenberg(ten(u, true), L, phys) : Heisenberg(scalar(u, true), L, phys));
		else got = full_of(c, tensor ? Heisenberg(ten(u, true), L) : Heisenberg(scalar(u, true), L));
	}
	PROP(got.is_complex(), "real Hamiltonian");
	PROP(got.sizes() == want.sizes() && maxabs(got.to(C) - want) <= 1e-12 * (1 + maxabs(want)), "error ", maxabs(got.to(C) - want));
	c.nontrivial(u.imag() != 0 || m.imag() != 0);
}
