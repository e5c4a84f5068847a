// C25: the pieces of the two-site optimization.
#include "model_net.h"
#include "dmrg.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "local problems with environments, two-site operators and states of bonds 1-6 and physical spaces 1-4 (symmetric: 7 group types, repeated and absent sectors, selection rules), arbitrary for the "
    "application of the operator, Hermitian by construction (sum of a drawn operator and its conjugate, scales 1e-14 to 1e8, multiples of the identity, eigenvector starts) for the Lanczos step; "
    "2x2 Hermitian problems with off-diagonal and diagonal splittings from 1e-30 to 1e30 apart; networks of 2-6 sites for the two-site operators; non-trivial when the operator applied to the state is not zero";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 1500000;
std::vector<std::string> pbt::assumptions = {"libtorch einsum is correct"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

template <class T>
static const T &get(const BT &b)
{
	if constexpr (std::is_same_v<T, btensor>) return b.t;
	else return b.d;
}
static Tensor d_of(const Tensor &t) { return t; }
static Tensor d_of(const btensor &t) { return dense_of(t); }
template <class T>
constexpr bool blocky = std::is_same_v<T, btensor>;
// in dense problems, everything is neutral
template <class T>
static Dim draw_dim(Case &c, int kind, int sec, int size)
{
	if constexpr (blocky<T>) return gen_dim(c, kind, {sec, size, 2});
	else return Dim{Sec{c.range(1, 1 + (sec * size) / 2), qzero(kind)}};
}
static BT from_dense(Case &c, const Spec &s, const Tensor &d, Val v)
{
	BT r{s, make_shape(s, d.scalar_type()), d.clone(), v};
	for (auto &b : allowed_blocks(s))
	{
		auto x = sub_block(d, block_offsets(s, b), block_sizes(s, b));
		if (maxabs(x) == 0) continue;
		r.t.block(b) = x.clone();
	}
	return r;
}
static Dim join(Dim a, const Dim &b)
{
	a.insert(a.end(), b.begin(), b.end());
	return a;
}
static Val gen_v(Case &c) { return (Val)c.weighted({2, 4, 4, 1, 1}); }
struct Local
{
	BT state, H, L, R;
	int kind;
	std::string str() const { return cat("state ", gen::str(state), "\n = ", tstr(state.d), "\nH ", gen::str(H), "\n = ", tstr(H.d), "\nL ", gen::str(L), "\n = ", tstr(L.d), "\nR ", gen::str(R), "\n = ", tstr(R.d)); }
};
static Tensor applied(const Tensor &s, const Tensor &H, const Tensor &L, const Tensor &R)
{
	auto a = torch::einsum("abc,adef->bcdef", {wide(L), wide(s)});
	auto b = torch::einsum("bcdef,bxygde->cxyfg", {a, wide(H)});
	return torch::einsum("cxyfg,fgz->cxyz", {b, wide(R)});
}
template <class T>
static BT draw_tensor(Case &c, const Spec &s, Val v)
{
	if constexpr (blocky<T>) return gen_la(c, s, v);
	else
	{
		BT b{s, make_shape(s, dtype(v)), gen_dense(c, full_sizes(s), v), v};
		return b;
	}
}
// any environments
template <class T>
static Local gen_any(Case &c, Val v)
{
	Local x;
	int k = x.kind = gen_kind(c);
	auto dim = [&](int a, int b) { return draw_dim<T>(c, k, a, b); };
	Spec st, H, L, R;
	st.kind = H.kind = L.kind = R.kind = k;
	st.dims = {dim(3, 2), dim(2, 2), dim(2, 2), dim(3, 2)};
	bool same_out = c.flip();
	H.dims = {dim(2, 2), same_out ? st.dims[1] : dim(2, 2), same_out ? st.dims[2] : dim(2, 2), dim(2, 2), conj_dim(k, st.dims[1]), conj_dim(k, st.dims[2])};
	L.dims = {conj_dim(k, st.dims[0]), conj_dim(k, H.dims[0]), c.flip() ? st.dims[0] : dim(2, 2)};
	R.dims = {conj_dim(k, st.dims[3]), conj_dim(k, H.dims[3]), c.flip() ? st.dims[3] : dim(2, 2)};
	for (auto *s : {&st, &H, &L, &R}) s->sel = blocky<T> ? gen_sel(c, *s) : qzero(k);
	x.state = draw_tensor<T>(c, st, v);
	x.H = draw_tensor<T>(c, H, v);
	x.L = draw_tensor<T>(c, L, v);
	x.R = draw_tensor<T>(c, R, v);
	return x;
}
// environments such that the operator is Hermitian, state normalized
template <class T>
static Local gen_hermitian(Case &c, Val v)
{
	Local x;
	int k = x.kind = gen_kind(c);
	auto dim = [&](int a, int b) { return draw_dim<T>(c, k, a, b); };
	Dim l = dim(3, 2), p1 = dim(2, 2), p2 = dim(2, 2), r = dim(3, 2);
	auto cd = [&](const Dim &d) { return conj_dim(k, d); };
	bool simple = c.chance(1, 4); // trivial environments
	auto unit = Dim{Sec{1, qzero(k)}};
	Dim hl = simple ? unit : dim(2, 1), hr = simple ? unit : dim(2, 1);
	Spec H{k, {hl, p1, p2, hr, cd(p1), cd(p2)}, qzero(k)}, L{k, {cd(l), cd(hl), l}, qzero(k)}, R{k, {cd(r), cd(hr), r}, qzero(k)};
	if (!simple && blocky<T>)
	{
		// bonds of the operator which let blocks through
		for (auto &s : hl) s.q = qadd(k, l[c.draw(l.size())].q, qneg(k, l[c.draw(l.size())].q));
		for (auto &s : hr) s.q = qadd(k, r[c.draw(r.size())].q, qneg(k, r[c.draw(r.size())].q));
		H.dims[0] = hl, H.dims[3] = hr, L.dims[1] = cd(hl), R.dims[1] = cd(hr);
	}
	auto h0 = draw_tensor<T>(c, H, v), l0 = draw_tensor<T>(c, L, v), r0 = draw_tensor<T>(c, R, v);
	if (simple)
	{
		auto ident = [&](const Dim &d) {
			auto n = dim_size(d);
			return torch::eye(n, torch::TensorOptions().dtype(dtype(v))).reshape({n, 1, n});
		};
		l0.d = ident(l);
		r0.d = ident(r);
	}
	double scale = 1;
	switch (c.weighted({6, 1, 1, 1, 1}))
	{
	case 1: scale = std::pow(10., (double)c.range(1, 8)); break;
	case 2: scale = std::pow(10., -(double)c.range(1, 14)); break;
	case 3: // proportional to the identity up to a perturbation
	case 4:
	{
		auto n1 = dim_size(p1), n2 = dim_size(p2);
		auto I = torch::eye(n1 * n2, torch::TensorOptions().dtype(dtype(v))).reshape({1, n1, n2, 1, n1, n2});
		if (simple)
		{
			double e = c.flip() ? 0 : std::pow(10., -(double)c.range(1, 17));
			h0.d = I * (double)c.around(3) + h0.d * e;
		}
		break;
	}
	default:;
	}
	h0.d = h0.d * scale;
	// H + H^dagger
	auto ld = torch::cat({l0.d, l0.d.conj().permute({2, 1, 0})}, 1), rd = torch::cat({r0.d, r0.d.conj().permute({2, 1, 0})}, 1);
	auto a = h0.d.size(0), b = h0.d.size(3);
	auto hs = IL{2 * a, h0.d.size(1), h0.d.size(2), 2 * b, h0.d.size(4), h0.d.size(5)};
	auto hd = torch::zeros(hs, h0.d.options());
	hd.narrow(0, 0, a).narrow(3, 0, b).copy_(h0.d);
	hd.narrow(0, a, a).narrow(3, b, b).copy_(h0.d.conj().permute({0, 4, 5, 3, 1, 2}));
	hl = join(hl, cd(hl));
	hr = join(hr, cd(hr));
	H.dims[0] = hl, H.dims[3] = hr, L.dims[1] = cd(hl), R.dims[1] = cd(hr);
	x.H = from_dense(c, H, hd, v);
	x.L = from_dense(c, L, ld, v);
	x.R = from_dense(c, R, rd, v);
	Spec st{k, {l, p1, p2, r}, qzero(k)};
	if (blocky<T>) st.sel = gen_sel(c, st);
	x.state = draw_tensor<T>(c, st, v);
	auto n = frob(x.state.d);
	c.assume(n > 0);
	if (c.chance(1, 4))
	{ // start (nearly) from an eigenvector: power of the operator
		auto m = c.range(1, 3);
		auto M = torch::einsum("abc,bxygde,fgz->cxyzadef", {wide(x.L.d), wide(x.H.d), wide(x.R.d)});
		auto N = dim_size(l) * dim_size(p1) * dim_size(p2) * dim_size(r);
		M = M.reshape({N, N});
		auto msk = mask(st).to(torch::kComplexDouble).reshape({-1}).contiguous();
		std::vector<int64_t> keep;
		for (int64_t i = 0; i < N; ++i)
			if (msk[i].abs().item().toDouble() != 0) keep.push_back(i);
		auto idx = torch::tensor(keep, torch::kInt64);
		auto S = M.index_select(0, idx).index_select(1, idx);
		if (v != Val::cplx && v != Val::cints) S = torch::real(S).contiguous();
		auto [w, V] = torch::linalg::eigh(S, "L");
		auto e = V.select(1, (int64_t)c.draw(keep.size()));
		auto full = torch::zeros({N}, e.options());
		full.index_copy_(0, idx, e);
		auto y = full.reshape(x.state.d.sizes());
		if (m == 1) y = y + x.state.d / n * std::pow(10., -(double)c.range(1, 16));
		x.state = from_dense(c, st, y.to(dtype(v)), v);
		n = frob(x.state.d);
		c.label("eigenvector");
	}
	x.state.d = (x.state.d / n).to(dtype(v));
	x.state = from_dense(c, st, x.state.d, v);
	return x;
}
template <class T>
static void check_shape(Case &c, const T &t, const Spec &s, const char *what)
{
	if constexpr (blocky<T>)
	{
		PROP(spec_diff(t, s).empty(), what, ": ", spec_diff(t, s));
		PROP(invalid(t).empty(), what, ": ", invalid(t));
	}
	else PROP(IL(t.sizes().begin(), t.sizes().end()) == full_sizes(s), what, ": ", t.sizes());
}
template <class T>
static void apply_case(Case &c)
{
	auto v = gen_v(c);
	auto x = gen_any<T>(c, v);
	c.note([&] { return x.str(); });
	auto want = applied(x.state.d, x.H.d, x.L.d, x.R.d);
	auto out = details::hamil2site_times_state(get<T>(x.state), get<T>(x.H), get<T>(x.L), get<T>(x.R));
	int k = x.kind;
	Spec s{k, {x.L.s.dims[2], x.H.s.dims[1], x.H.s.dims[2], x.R.s.dims[2]}, qzero(k)};
	for (auto *t : {&x.state, &x.H, &x.L, &x.R}) s.sel = qadd(k, s.sel, t->s.sel);
	check_shape(c, out, s, "H psi");
	PROP(out.options().dtype() == torch::scalarTypeToTypeMeta(dtype(v)), "element type ", out.options().dtype());
	auto got = wide(d_of(out));
	double tol = (v == Val::f32 ? 1e-4 : 1e-12) * (1 + frob(x.state.d) * frob(x.H.d) * frob(x.L.d) * frob(x.R.d));
	PROP(maxabs(got - want) <= tol, "H psi is wrong by ", maxabs(got - want), " ", tstr(got), " instead of ", tstr(want));
	for (auto *t : {&x.state, &x.H, &x.L, &x.R}) PROP(same(d_of(get<T>(*t)), t->d, true), "an argument changed");
	c.nontrivial(maxabs(want) > 0);
}
FACET(apply_block, 3) { apply_case<btensor>(c); }
FACET(apply_dense, 2) { apply_case<Tensor>(c); }

static Tensor zt(std::complex<double> z) { return torch::full({}, c10::complex<double>(z.real(), z.imag()), torch::kComplexDouble); }
static Tensor braket(const Tensor &a, const Tensor &b) { return (a.conj() * b).sum(); }
static std::complex<double> num(const Tensor &t)
{
	auto z = wide(t).item<c10::complex<double>>();
	return {z.real(), z.imag()};
}
template <class T>
static std::complex<double> scal(Case &c, const T &t, const char *what)
{
	PROP(t.dim() == 0, what, " is not a scalar: ", t.sizes());
	auto d = d_of(t);
	return num(d);
}
// lowest eigenpair of [[a, conj b],[b, d]], real a, d
template <class T>
static void check_pair(Case &c, std::complex<double> a, std::complex<double> d, std::complex<double> b, std::complex<double> E, std::complex<double> o, std::complex<double> n, double eps)
{
	double A = a.real(), D = d.real(), B = std::abs(b);
	double scale = std::max({std::abs(A), std::abs(D), B});
	long double h = ((long double)A - D) / 2;
	long double want = ((long double)A + D) / 2 - std::sqrt(h * h + (long double)B * B);
	auto where = [&] { return cat(" for a0=", A, " a1=", D, " b=", b, ": E=", E, " o=", o, " n=", n, " expected E=", (double)want); };
	PROP(std::abs(E - std::complex<double>((double)want)) <= 8 * eps * scale, "eigenvalue", where());
	PROP(std::abs(std::norm(o) + std::norm(n) - 1) <= 30 * eps, "the vector is not normalized: ", std::norm(o) + std::norm(n) - 1, where());
	auto r0 = a * o + std::conj(b) * n - E * o, r1 = b * o + d * n - E * n;
	PROP(std::abs(r0) <= 30 * eps * scale && std::abs(r1) <= 30 * eps * scale, "not an eigenvector, residuals ", r0, r1, where());
}
template <class T>
static void lanczos_case(Case &c)
{
	auto v = gen_v(c);
	auto x = gen_hermitian<T>(c, v);
	c.note([&] { return x.str(); });
	double eps = v == Val::f32 ? 1e-6 : 2e-15;
	auto s = wide(x.state.d);
	auto apply = [&](const Tensor &t) { return applied(t, x.H.d, x.L.d, x.R.d); };
	auto Hs = apply(s);
	double norm = frob(x.H.d) * frob(x.L.d) * frob(x.R.d), tol = eps * 200 * norm;
	auto [psi_t, a0_t, a1_t, b_t] = details::one_step_lanczos(get<T>(x.state), get<T>(x.H), get<T>(x.L), get<T>(x.R));
	check_shape(c, psi_t, x.state.s, "psi_ip");
	auto psi = wide(d_of(psi_t));
	auto a0 = scal(c, a0_t, "a0"), a1 = scal(c, a1_t, "a1"), b = scal(c, b_t, "b");
	PROP(same(d_of(get<T>(x.state)), x.state.d, true), "the state changed");
	auto type = [&](const auto &t, const char *what) { PROP(t.options().dtype() == torch::scalarTypeToTypeMeta(dtype(v)), "element type of ", what, ": ", t.options().dtype()); };
	type(psi_t, "psi'"), type(a0_t, "a0"), type(a1_t, "a1"), type(b_t, "b");
	PROP(std::abs(a0 - num(braket(s, Hs))) <= tol, "a0 = ", a0, " instead of ", num(braket(s, Hs)));
	PROP(a0.imag() == 0 && b.imag() == 0 && b.real() >= 0 && std::abs(a1.imag()) <= tol * (1 + frob(psi) * frob(psi)), "a0, a1, b: ", a0, a1, b);
	auto res = maxabs(Hs - s * zt(a0) - psi * zt(b));
	PROP(res <= tol + 1e-14, "H psi differs from a0 psi + b psi' by ", res, " b ", b);
	if (b.real() != 0)
	{
		PROP(std::abs(frob(psi) - 1) <= 100 * eps, "psi' has norm ", frob(psi));
		PROP(std::abs(num(braket(s, psi))) <= 200 * eps, "psi' is not orthogonal to psi: ", num(braket(s, psi)), " b ", b);
	}
	auto want1 = num(braket(psi, apply(psi)));
	PROP(std::abs(a1 - want1) <= tol * (1 + frob(psi) * frob(psi)), "a1 = ", a1, " instead of ", want1);
	// the local update
	if (b.real() == 0)
	{ // the state is an eigenvector, there is nothing to diagonalize
		c.nontrivial(maxabs(Hs) > 0);
		c.label("singular");
		return;
	}
	auto [E_t, o_t, n_t] = details::eig2x2Mat(a0_t, a1_t, b_t);
	auto E = scal(c, E_t, "E"), o = scal(c, o_t, "o"), n = scal(c, n_t, "n");
	type(E_t, "E"), type(o_t, "o"), type(n_t, "n");
	check_pair<T>(c, a0, a1, b, E, o, n, v == Val::f32 ? 3e-7 : 3e-16);
	if (b.real() != 0)
	{
		auto up = s * zt(o) + psi * zt(n);
		auto e = num(braket(up, apply(up)));
		PROP(std::abs(frob(up) - 1) <= 500 * eps, "the updated state has norm ", frob(up));
		PROP(std::abs(e - E) <= 4 * tol, "energy of the updated state ", e, " reported ", E);
		PROP(E.real() <= a0.real() + tol, "the update raised the energy: ", E, " from ", a0);
	}
	c.nontrivial(maxabs(Hs) > 0);
	if (b.real() < 1e-8 * norm) c.label("nearly singular");
	if (v == Val::cplx || v == Val::cints) c.label("complex");
}
FACET(lanczos_block, 4) { lanczos_case<btensor>(c); }
FACET(lanczos_dense, 3) { lanczos_case<Tensor>(c); }

template <class T>
static T scalar_of(Case &c, int kind, std::complex<double> z, bool cplx, bool stored)
{
	auto t = cplx ? torch::full({}, c10::complex<double>(z.real(), z.imag()), torch::kComplexDouble) : torch::full({}, z.real(), torch::kFloat64);
	if constexpr (blocky<T>)
	{
		btensor r({}, to_any(kind, qzero(kind)), t.options());
		if (stored || z != 0.) r.block({}) = t;
		return r;
	}
	else return t;
}
template <class T>
static void eig_case(Case &c)
{
	bool cplx = c.chance(1, 3);
	int kind = gen_kind(c);
	auto number = [&]() -> double {
		double x = (double)c.around(20) / 4;
		switch (c.weighted({4, 2, 1, 1}))
		{
		case 1: x *= std::pow(10., -(double)c.range(1, 30)); break;
		case 2: x *= std::pow(10., (double)c.range(1, 30)); break;
		case 3: x = (double)c.around(1000000) / 333333; break;
		default:;
		}
		return x;
	};
	double A = number(), D = number();
	switch (c.weighted({3, 1, 1}))
	{
	case 1: D = A; break;
	case 2: D = A * (1 + number() * 1e-15) + number() * 1e-12; break;
	default:;
	}
	std::complex<double> b = number();
	if (cplx) b = {b.real(), number()};
	bool st = c.flip();
	auto a0 = scalar_of<T>(c, kind, A, cplx, st), a1 = scalar_of<T>(c, kind, D, cplx, st), bt = scalar_of<T>(c, kind, b, cplx, st);
	c.note([&] { return cat("a0 ", A, " a1 ", D, " b ", b); });
	auto [E, o, n] = details::eig2x2Mat(a0, a1, bt);
	check_pair<T>(c, A, D, b, scal(c, E, "E"), scal(c, o, "o"), scal(c, n, "n"), 5e-16);
	PROP(num(d_of(a0)) == std::complex<double>(A) && num(d_of(a1)) == std::complex<double>(D) && num(d_of(bt)) == b, "an argument changed");
	c.nontrivial(b != 0. || A != D);
}
FACET(eig2x2_dense, 3) { eig_case<Tensor>(c); }
FACET(eig2x2_block, 3) { eig_case<btensor>(c); }

FACET(two_site_operators_block, 2)
{
	auto v = gen_v(c);
	int k = gen_kind(c);
	auto L = (size_t)c.range(2, 6);
	auto out = gen_phys(c, k, L, {2, 2, 2}), in = c.chance(3, 4) ? out : gen_phys(c, k, L, {2, 2, 2});
	NetLim lim;
	lim.edge = 2;
	auto n = gen_boper(c, k, out, in, v, lim);
	c.note([&] { return str(n); });
	auto mpo = n.as<bMPO>();
	auto two = details::compute_2sitesHamil(mpo);
	PROP(two.size() == L - 1, "number of operators ", two.size());
	for (size_t i = 0; i + 1 < L; ++i)
	{
		auto &a = n.t[i], &b = n.t[i + 1];
		Spec s{k, {a.s.dims[0], a.s.dims[1], b.s.dims[1], b.s.dims[2], a.s.dims[3], b.s.dims[3]}, qadd(k, a.s.sel, b.s.sel)};
		check_shape(c, two[i], s, "two-site operator");
		auto want = torch::einsum("aobi,bpcq->aopciq", {wide(a.d), wide(b.d)});
		PROP(maxabs(wide(dense_of(two[i])) - want) <= (v == Val::f32 ? 1e-4 : 1e-12) * (1 + frob(a.d) * frob(b.d)), "operator of sites ", i, ", ", i + 1);
		if (maxabs(want) > 0) c.nontrivial();
	}
}
FACET(two_site_operators_dense, 1)
{
	auto v = gen_v(c);
	auto L = (size_t)c.range(2, 6);
	IL out, in;
	for (size_t i = 0; i < L; ++i) out.push_back(c.range(1, 4)), in.push_back(c.chance(3, 4) ? out[i] : c.range(1, 4));
	const auto t = gen_dense_oper(c, out, in, gen_bonds(c, L, 4, 3), v);
	MPO mpo(t);
	auto two = details::compute_2sitesHamil(mpo);
	PROP(two.size() == L - 1, "number of operators ", two.size());
	for (size_t i = 0; i + 1 < L; ++i)
	{
		auto want = torch::einsum("aobi,bpcq->aopciq", {wide(t[i]), wide(t[i + 1])});
		PROP(two[i].sizes() == want.sizes(), "sizes ", two[i].sizes());
		PROP(maxabs(wide(two[i]) - want) <= (v == Val::f32 ? 1e-4 : 1e-12) * (1 + frob(t[i]) * frob(t[i + 1])), "operator of sites ", i, ", ", i + 1);
		if (maxabs(want) > 0) c.nontrivial();
	}
}
// the closing environments of networks with ends of size one
FACET(edges_block, 2)
{
	int k = gen_kind(c);
	auto unit = [&] { return Dim{Sec{1, c.flip() ? gen_q(c, k) : qzero(k)}}; };
	auto tensor = [&](size_t rank, size_t dim) {
		Spec s;
		s.kind = k;
		for (size_t i = 0; i < rank; ++i) s.dims.push_back(i == dim ? unit() : gen_dim(c, k, {3, 2, 2}));
		s.sel = gen_sel(c, s);
		return gen_tensor(c, s, Val::real);
	};
	auto rl = (size_t)c.range(1, 4), rh = (size_t)c.range(1, 6), ru = (size_t)c.range(1, 4);
	auto il = (size_t)c.draw(rl), ih = (size_t)c.draw(rh), iu = (size_t)c.draw(ru);
	auto lo = tensor(rl, il), h = tensor(rh, ih), up = tensor(ru, iu);
	c.note([&] { return cat(str(lo), " at ", il, ", ", str(h), " at ", ih, ", ", str(up), " at ", iu); });
	auto e = details::trivial_edge(lo.t, h.t, up.t, (int64_t)il, (int64_t)ih, (int64_t)iu);
	Spec s{k, {conj_dim(k, lo.s.dims[il]), conj_dim(k, h.s.dims[ih]), conj_dim(k, up.s.dims[iu])}, qzero(k)};
	PROP(spec_diff(e, s, false).empty(), spec_diff(e, s, false));
	PROP(invalid(e).empty(), invalid(e));
	PROP(same(dense_of(e), torch::ones({1, 1, 1}, torch::kFloat64), true), "not ones: ", tstr(dense_of(e)));
	auto p = details::edge_shape_prep(lo.t, (int64_t)il);
	Spec s1{k, {s.dims[0]}, qzero(k)};
	PROP(spec_diff(p, s1, false).empty(), spec_diff(p, s1, false));
	PROP(sel_of(p) == to_any(k, s.dims[0][0].q), "the prepared edge does not accept its only element");
	PROP(p.begin() == p.end(), "a shape with elements");
	c.nontrivial();
}
FACET(edges_dense, 1)
{
	auto sizes = [&](size_t n) {
		IL s;
		for (size_t i = 0; i < n; ++i) s.push_back(c.range(1, 3));
		return s;
	};
	auto rl = (size_t)c.range(1, 4), rh = (size_t)c.range(1, 6), ru = (size_t)c.range(1, 4);
	auto il = (int64_t)c.draw(rl), ih = (int64_t)c.draw(rh), iu = (int64_t)c.draw(ru);
	auto lo = gen_dense(c, sizes(rl), Val::real), h = gen_dense(c, sizes(rh), Val::real), up = gen_dense(c, sizes(ru), Val::real);
	auto e = details::trivial_edge(lo, h, up, il, ih, iu);
	PROP(same(e, torch::ones({lo.size(il), h.size(ih), up.size(iu)}, torch::kFloat64), true), "not ones: ", tstr(e));
	c.nontrivial();
}
