// C14: factorizations of dense tensors and their truncation.
#include "gen_bt.h"
#include "LinearAlgebra.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random dense tensors of rank 1-5 (real, complex, low rank, prescribed and degenerate spectra) and random lists of weights, split positions, tolerances and size limits; "
    "non-trivial when the matrix has at least two rows and columns and is not zero, or when there are at least two weights";
unsigned pbt::quick_cases = 150000, pbt::thorough_cases = 4000000;
std::vector<std::string> pbt::assumptions = {"torch::linalg::qr gives orthonormal columns", "tolerances within a relative 1e-6 of a partial sum of weights accept either count, except in the exact facets"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

static constexpr size_t NOMAX = std::numeric_limits<size_t>::max();
static IL gen_sizes(Case &c, int64_t n, int64_t cap)
{
	IL r;
	for (int64_t i = 0; i < n; ++i)
	{
		auto s = c.range(1, 4);
		if (cap < s) s = 1;
		cap /= s;
		r.push_back(s);
	}
	return r;
}
static int64_t prod_of(const IL &s)
{
	int64_t n = 1;
	for (auto x : s) n *= x;
	return n;
}
static IL join(IL a, const IL &b)
{
	a.insert(a.end(), b.begin(), b.end());
	return a;
}
static Val gen_v(Case &c) { return c.flip() ? Val::real : c.flip() ? Val::cplx : c.flip() ? Val::ints : c.flip() ? Val::f32 : Val::c64; }
static double tol_of(Val v) { return v == Val::f32 || v == Val::c64 ? 2e-4 : 1e-10; }
static Tensor wide(const Tensor &t) { return t.to(torch::kComplexDouble); }
static Tensor dag(const Tensor &t) { return t.conj().transpose(-1, -2); }
static Tensor orthonormal(Case &c, int64_t n, int64_t k, Val v)
{
	auto f = gen_filler(c);
	auto x = fill(f, {n, n}, v == Val::cplx ? Val::cplx : Val::real) + torch::eye(n, dtype(v == Val::cplx ? v : Val::real)) * 3;
	return std::get<0>(torch::linalg::qr(x, "reduced")).narrow(1, 0, k);
}
// non negative, in decreasing order; possibly degenerate and with zeros
static std::vector<double> gen_spectrum(Case &c, int64_t n)
{
	std::vector<double> s;
	double x = 1;
	for (int64_t i = 0; i < n; ++i)
	{
		switch (c.draw(5))
		{
		case 0: break; // degenerate with the previous one
		case 1: x *= 0.5; break;
		case 2: x *= 0.1 + c.draw(900) * 1e-3; break;
		case 3: x *= 1e-3; break;
		default: x *= c.chance(1, 4) ? 0. : 0.9; break;
		}
		s.push_back(x);
	}
	return s;
}
// numbers of values that may be kept: between the count for a slightly larger and that for a slightly smaller tolerance
struct Allowed
{
	int64_t lo, hi;
};
static int64_t count_kept(const std::vector<double> &s, double bound, double pow, size_t min, size_t max)
{
	// s by decreasing magnitude
	size_t n = s.size();
	double acc = 0;
	while (n > 0)
	{
		acc += std::pow(std::abs(s[n - 1]), pow);
		bool within = !(acc > bound);
		if (n <= min) break;
		if (!within && n <= max) break;
		--n;
	}
	return n;
}
static Allowed allowed_counts(const std::vector<double> &s, double tol, double pow, size_t min, size_t max, double rel, double noise)
{
	double b = std::pow(tol, pow);
	auto up = s, dn = s;
	for (auto &x : up) x = std::abs(x) + noise;
	for (auto &x : dn) x = std::max(0., std::abs(x) - noise);
	return {count_kept(dn, b * (1 + rel), pow, min, max), count_kept(up, b * (1 - rel), pow, min, max)};
}
static double gen_tol(Case &c, const std::vector<double> &s, double pow)
{
	switch (c.draw(4))
	{
	case 0: return 0;
	case 1: return std::pow(10., -(double)c.draw(9));
	case 2: return c.draw(2000) * 1e-3;
	default: // next to a partial sum
	{
		double acc = 0;
		auto k = c.draw(s.size() + 1);
		for (size_t i = 0; i < k; ++i) acc += std::pow(std::abs(s[s.size() - 1 - i]), pow);
		return std::pow(acc * (c.flip() ? 1.001 : 0.999), 1 / pow);
	}
	}
}
static void gen_limits(Case &c, size_t n, size_t &min, size_t &max)
{
	min = c.range(0, 1) ? c.draw(n + 2) : 1;
	max = c.flip() ? NOMAX : c.draw(n + 3);
	if (max < min) max = min;
}
static void check_svd(Case &c, const Tensor &A, int64_t split, const Tensor &u, const Tensor &d, const Tensor &v, double tol, int64_t n)
{
	IL left(A.sizes().begin(), A.sizes().begin() + split), right(A.sizes().begin() + split, A.sizes().end());
	PROP(IL(u.sizes().begin(), u.sizes().end()) == join(left, {n}), "u has sizes ", u.sizes(), " for ", A.sizes(), " split at ", split);
	PROP(IL(v.sizes().begin(), v.sizes().end()) == join(right, {n}), "v has sizes ", v.sizes(), " for ", A.sizes(), " split at ", split);
	PROP(d.dim() == 1 && d.size(0) == n, "d has sizes ", d.sizes());
	PROP(!d.is_complex());
	PROP(u.scalar_type() == A.scalar_type() && v.scalar_type() == A.scalar_type());
	auto U = wide(u).reshape({prod_of(left), n}), V = wide(v).reshape({prod_of(right), n});
	auto I = wide(torch::eye(n, torch::kFloat64));
	if (!same(dag(U).matmul(U), I, false, tol)) c.fail(cat("left vectors are not orthonormal: ", tstr(dag(U).matmul(U))));
	if (!same(dag(V).matmul(V), I, false, tol)) c.fail(cat("right vectors are not orthonormal: ", tstr(dag(V).matmul(V))));
	auto D = d.to(torch::kFloat64);
	for (int64_t i = 0; i < n; ++i)
	{
		PROP(D[i].item().toDouble() >= 0, "singular value ", i, " is ", D[i].item().toDouble());
		if (i) PROP(D[i].item().toDouble() <= D[i - 1].item().toDouble(), "the singular values are not in decreasing order: ", tstr(D));
	}
}
static Tensor rebuild(const Tensor &A, const Tensor &u, const Tensor &d, const Tensor &v)
{
	auto n = d.size(0);
	if (n == 0) return wide(torch::zeros_like(A));
	auto U = wide(u).reshape({-1, n}), V = wide(v).reshape({-1, n});
	return (U * wide(d)).matmul(dag(V)).reshape(A.sizes());
}
static double frob(const Tensor &t)
{
	return t.numel() ? std::sqrt(wide(t).abs().pow(2).sum().item().toDouble()) : 0.;
}

// ---------------------------------------------------------------- singular values
FACET(svd_full, 3)
{
	auto v = gen_v(c);
	auto rank = c.range(1, 5);
	auto split = c.range(0, rank);
	auto l = gen_sizes(c, split, 12), r = gen_sizes(c, rank - split, 12);
	auto m = prod_of(l), n = prod_of(r);
	auto f = gen_filler(c);
	Tensor A;
	bool low = c.chance(1, 3);
	if (low)
	{ // of low rank, or zero
		auto k = c.range(0, std::min(m, n));
		A = k == 0 ? torch::zeros({m, n}, dtype(v)) : fill(f, {m, k}, v).matmul(fill(f, {k, n}, v));
	}
	else
		A = fill(f, {m, n}, v);
	A = A.reshape(join(l, r));
	if (rank >= 2 && c.flip()) // not contiguous
		A = A.transpose(0, rank - 1).contiguous().transpose(0, rank - 1);
	auto keep = A.clone();
	c.note([&] { return cat(A.sizes(), " split at ", split, ": ", tstr(A)); });
	auto [u, d, w] = c.flip() ? quantit::svd(A, (size_t)split) : quantit::svd(A, (int)split);
	double t = tol_of(v);
	check_svd(c, A, split, u, d, w, t, std::min(m, n));
	auto R = rebuild(A, u, d, w);
	if (!same(R, wide(A), false, t)) c.fail(cat("the product is ", tstr(R), " instead of ", tstr(A)));
	PROP(A.equal(keep), "the decomposed tensor was modified");
	c.nontrivial(m > 1 && n > 1 && frob(A) > 0);
}
FACET(svd_truncated, 4)
{
	auto v = c.flip() ? Val::real : Val::cplx;
	auto rank = c.range(2, 5);
	auto split = c.range(1, rank - 1);
	auto l = gen_sizes(c, split, 12), r = gen_sizes(c, rank - split, 12);
	auto m = prod_of(l), n = prod_of(r), k = std::min(m, n);
	auto s = gen_spectrum(c, k);
	double scale = std::pow(10., c.around(3));
	for (auto &x : s) x *= scale;
	auto U = orthonormal(c, m, k, v), V = orthonormal(c, n, k, v);
	auto A = (U * torch::tensor(s, torch::kFloat64).to(U.scalar_type())).matmul(dag(V)).reshape(join(l, r));
	double pow = std::vector<double>{2, 1, 3, 2.5}[c.draw(4)];
	size_t min = 1, max = NOMAX;
	double tol = gen_tol(c, s, pow);
	Tensor u, d, w;
	auto form = c.draw(4);
	c.note([&] { return cat(A.sizes(), " split at ", split, " values ", tstr(torch::tensor(s, torch::kFloat64)), " tol ", tol, " pow ", pow, " min ", min, " max ", (int64_t)max, " form ", form); });
	if (form == 0) std::tie(u, d, w) = quantit::svd(A, (size_t)split, tol, pow);
	else if (form == 1) pow = 2, std::tie(u, d, w) = quantit::svd(A, (size_t)split, tol);
	else
	{
		gen_limits(c, k, min, max);
		if (form == 2) pow = 2, std::tie(u, d, w) = quantit::svd(A, (size_t)split, tol, min, max);
		else std::tie(u, d, w) = quantit::svd(A, (size_t)split, tol, min, max, pow);
	}
	// rounding perturbs each value by about this much
	double noise = 1e-13 * scale;
	auto a = allowed_counts(s, tol, pow, min, max, 1e-6, noise);
	auto got = d.size(0);
	PROP(got >= a.lo && got <= a.hi, "kept ", got, " values instead of ", a.lo, a.hi == a.lo ? "" : cat(" to ", a.hi));
	check_svd(c, A, split, u, d, w, 1e-9, got);
	double lost = 0;
	for (int64_t i = 0; i < k; ++i)
	{
		if (i < got) PROP(std::abs(d[i].item().toDouble() - s[i]) <= 1e-9 * scale, "value ", i, " is ", d[i].item().toDouble(), " instead of ", s[i]);
		else lost += s[i] * s[i];
	}
	auto err = frob(rebuild(A, u, d, w) - wide(A));
	PROP(std::abs(err - std::sqrt(lost)) <= 1e-9 * scale, "the error is ", err, " instead of ", std::sqrt(lost));
	if (got < k) c.label("truncated");
	c.nontrivial(k > 1 && s[0] > 0);
}

// ---------------------------------------------------------------- Hermitian
FACET(eigh_full, 2)
{
	auto v = gen_v(c);
	auto l = gen_sizes(c, c.range(0, 3), 10);
	auto m = prod_of(l);
	// the other side can be arranged differently
	IL r = l;
	if (c.flip()) r = {m};
	else if (c.flip() && r.size() > 1) std::reverse(r.begin(), r.end());
	auto f = gen_filler(c);
	auto M = fill(f, {m, m}, v);
	if (c.chance(1, 4)) M = M * 0 + torch::eye(m, dtype(v)) * (double)c.around(3);
	M = M + dag(M);
	auto A = M.reshape(join(l, r)).clone();
	auto keep = A.clone();
	c.note([&] { return cat(A.sizes(), " split at ", l.size(), ": ", tstr(A)); });
	auto [d, u] = c.flip() ? quantit::eigh(A, l.size()) : quantit::eigh(A, (int)l.size());
	double t = tol_of(v);
	PROP(IL(u.sizes().begin(), u.sizes().end()) == join(l, {m}), "vectors of sizes ", u.sizes());
	PROP(d.dim() == 1 && d.size(0) == m && !d.is_complex());
	auto U = wide(u).reshape({m, m});
	if (!same(dag(U).matmul(U), wide(torch::eye(m, torch::kFloat64)), false, t)) c.fail("the eigenvectors are not orthonormal");
	auto R = (U * wide(d)).matmul(dag(U));
	if (!same(R, wide(M), false, t)) c.fail(cat("the product is ", tstr(R), " instead of ", tstr(M)));
	for (int64_t i = 1; i < m; ++i) PROP(d[i].item().toDouble() >= d[i - 1].item().toDouble(), "the eigenvalues are not in increasing order: ", tstr(d));
	PROP(A.equal(keep), "the decomposed tensor was modified");
	c.nontrivial(m > 1);
}
FACET(eigh_rectangular, 1)
{
	auto rank = c.range(1, 4);
	auto split = c.range(0, rank);
	auto l = gen_sizes(c, split, 12), r = gen_sizes(c, rank - split, 12);
	c.assume(prod_of(l) != prod_of(r));
	auto A = torch::ones(join(l, r), torch::kFloat64);
	MUST_THROW(quantit::eigh(A, (size_t)split), "eigenvalues of a rectangular matrix ", A.sizes(), " split at ", split);
	MUST_THROW(quantit::eigh(A, (size_t)split, 0.1), "eigenvalues of a rectangular matrix ", A.sizes(), " split at ", split);
	c.nontrivial();
}
FACET(eigh_truncated, 3)
{
	auto v = c.flip() ? Val::real : Val::cplx;
	auto l = gen_sizes(c, c.range(1, 3), 10);
	auto m = prod_of(l);
	auto s = gen_spectrum(c, m);
	for (auto &x : s)
		if (c.flip()) x = -x;
	auto U = orthonormal(c, m, m, v);
	auto A = (U * torch::tensor(s, torch::kFloat64).to(U.scalar_type())).matmul(dag(U));
	A = ((A + dag(A)) / 2).reshape(join(l, l)).clone();
	double pow = std::vector<double>{1, 2, 3, 1.5}[c.draw(4)];
	size_t min = 1, max = NOMAX;
	double tol = gen_tol(c, s, pow);
	Tensor u, d;
	auto form = c.draw(4);
	c.note([&] { return cat(A.sizes(), " values ", tstr(torch::tensor(s, torch::kFloat64)), " tol ", tol, " pow ", pow, " min ", min, " max ", (int64_t)max, " form ", form); });
	if (form == 0) std::tie(d, u) = quantit::eigh(A, l.size(), tol, pow);
	else if (form == 1) pow = 1, std::tie(d, u) = quantit::eigh(A, l.size(), tol);
	else
	{
		gen_limits(c, m, min, max);
		if (form == 2) pow = 1, std::tie(d, u) = quantit::eigh(A, l.size(), tol, min, max);
		else std::tie(d, u) = quantit::eigh(A, l.size(), tol, min, max, pow);
	}
	auto a = allowed_counts(s, tol, pow, min, max, 1e-6, 1e-13);
	auto got = d.size(0);
	PROP(got >= a.lo && got <= a.hi, "kept ", got, " values instead of ", a.lo, a.hi == a.lo ? "" : cat(" to ", a.hi));
	PROP(IL(u.sizes().begin(), u.sizes().end()) == join(l, {got}), "vectors of sizes ", u.sizes());
	auto W = wide(u).reshape({m, got});
	if (!same(dag(W).matmul(W), wide(torch::eye(got, torch::kFloat64)), false, 1e-9)) c.fail("the eigenvectors are not orthonormal");
	auto M = wide(A).reshape({m, m});
	if (!same(M.matmul(W), W * wide(d), false, 1e-9)) c.fail("the vectors kept do not correspond to the values kept");
	for (int64_t i = 1; i < got; ++i) PROP(d[i].item().toDouble() >= d[i - 1].item().toDouble(), "the eigenvalues kept are not in the order of the full decomposition: ", tstr(d));
	std::vector<double> k;
	for (int64_t i = 0; i < got; ++i) k.push_back(std::abs(d[i].item().toDouble()));
	std::sort(k.rbegin(), k.rend());
	double lost = 0;
	for (int64_t i = 0; i < m; ++i)
	{
		if (i < got) PROP(std::abs(k[i] - std::abs(s[i])) <= 1e-9, "the values kept are not the largest: ", tstr(d));
		else lost += s[i] * s[i];
	}
	auto err = frob((W * wide(d)).matmul(dag(W)) - M);
	PROP(std::abs(err - std::sqrt(lost)) <= 1e-9, "the error is ", err, " instead of ", std::sqrt(lost));
	c.nontrivial(m > 1);
}

// ---------------------------------------------------------------- truncation itself, exactly
FACET(truncation_exact, 4)
{
	// small integer multiples of a quarter, with power 1 or 2: all the sums are exact, equality with the tolerance is meaningful
	int64_t batch = c.chance(1, 3) ? c.range(1, 3) : 0;
	auto n = c.range(1, 7);
	int64_t rows = std::max<int64_t>(1, batch);
	std::vector<std::vector<double>> s(rows);
	bool neg = c.chance(1, 3);
	for (auto &x : s)
	{
		double y = 0;
		for (int64_t i = 0; i < n; ++i)
		{
			y += 0.25 * c.draw(4);
			x.push_back(y);
		}
		std::reverse(x.begin(), x.end());
		if (neg)
			for (auto &z : x)
				if (c.flip()) z = -z;
	}
	auto ty = c.flip() ? torch::kFloat64 : torch::kFloat32;
	Tensor d = torch::zeros({rows, n}, ty);
	for (int64_t i = 0; i < rows; ++i)
		for (int64_t j = 0; j < n; ++j) d[i][j] = s[i][j];
	if (!batch) d = d[0];
	double pow = c.flip() ? 2 : 1;
	double tol = c.flip() ? 0.25 * c.draw(12) : 0.125 + 0.25 * c.draw(12);
	if (pow == 1 && c.flip())
	{
		auto k = c.draw(n + 1);
		tol = 0;
		for (size_t i = 0; i < k; ++i) tol += std::abs(s[0][n - 1 - i]);
	}
	size_t min, max;
	gen_limits(c, n, min, max);
	c.note([&] { return cat(tstr(d), " ", d.sizes(), " tol ", tol, " pow ", pow, " min ", min, " max ", (int64_t)max); });
	int64_t want = 0;
	{
		// the truncation is common to all the rows: it stops at the first that would lose too much
		int64_t k = n;
		std::vector<double> acc(rows);
		while (k > 0)
		{
			bool within = true;
			for (int64_t i = 0; i < rows; ++i) within &= (acc[i] += std::pow(std::abs(s[i][k - 1]), pow)) <= std::pow(tol, pow);
			if (k <= (int64_t)min || (!within && (size_t)k <= max)) break;
			--k;
		}
		want = k;
	}
	auto keep = d.clone();
	auto last = compute_last_index(d, tol, pow, min, max);
	PROP(last == want - 1, "compute_last_index gives ", last, " instead of ", want - 1);
	auto asc = d.flip({-1});
	auto first = compute_first_index_ascending(asc, tol, pow, min, max);
	PROP(first == n - want, "compute_first_index_ascending gives ", first, " instead of ", n - want);
	PROP(d.equal(keep), "the weights were modified");
	auto f = gen_filler(c);
	IL us = gen_sizes(c, c.range(0, 2), 6), vs = gen_sizes(c, c.range(0, 2), 6);
	auto u = fill(f, join(us, {n}), Val::real), v = fill(f, join(vs, {n}), Val::cplx);
	auto cut = [&](const Tensor &t) { return t.narrow(-1, 0, want); };
	auto form = c.draw(4);
	if (form == 0)
	{
		auto [a, b, e] = truncate(u, d, v, tol, min, max, pow);
		PROP(a.equal(cut(u)) && b.equal(cut(d)) && e.equal(cut(v)), "truncate(u,d,v): kept ", b.sizes(), " instead of ", want);
	}
	else if (form == 1)
	{
		auto [a, b, e] = truncate(std::make_tuple(u, d, v), tol, min, max, pow);
		PROP(a.equal(cut(u)) && b.equal(cut(d)) && e.equal(cut(v)), "truncate of a triple: kept ", b.sizes(), " instead of ", want);
	}
	else if (form == 2)
	{
		auto [a, b] = truncate(u, d, tol, min, max, pow);
		PROP(a.dim() == u.dim() && a.equal(cut(u)) && b.equal(cut(d)), "truncate(u,e): kept ", b.sizes(), " instead of ", want);
	}
	else
	{
		auto p = std::make_tuple(u, d);
		auto [a, b] = truncate(p, tol, min, max, pow);
		PROP(a.dim() == u.dim() && a.equal(cut(u)) && b.equal(cut(d)), "truncate of a pair: kept ", b.sizes(), " instead of ", want);
	}
	c.nontrivial(n > 1);
}
FACET(truncation_defaults, 1)
{
	// without arguments only the zeros go, and one value stays
	auto n = c.range(1, 6);
	auto z = c.draw(n + 1);
	auto d = torch::zeros({n}, torch::kFloat64);
	for (int64_t i = 0; i < n - (int64_t)z; ++i) d[i] = double(n - i);
	auto f = gen_filler(c);
	auto u = fill(f, {3, n}, Val::real);
	int64_t want = std::max<int64_t>(1, n - z);
	auto [a, b] = truncate(u, d);
	PROP(b.equal(d.narrow(0, 0, want)) && a.equal(u.narrow(1, 0, want)), "kept ", b.sizes(), " of ", n, " with ", z, " zeros");
	auto [a3, b3, e3] = truncate(u, d, u);
	PROP(b3.equal(d.narrow(0, 0, want)) && a3.equal(u.narrow(1, 0, want)) && e3.equal(a3), "kept ", b3.sizes(), " of ", n, " with ", z, " zeros");
	c.nontrivial(n > 1);
}
