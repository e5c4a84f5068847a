// C16: truncation of block tensor factorizations.
#include "model_la.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 2-5 over 7 group types (see C15), tolerances zero, next to partial sums of the spectrum, small or large, count limits from 0 to beyond the number of values, powers 1 and 2; "
    "non-trivial when something is discarded and something is kept";
unsigned pbt::quick_cases = 120000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {"torch::linalg::svd and eigh of the dense form are correct",
                                             "values equal to the last one kept, to rounding, stay with it even beyond the maximum count (the code's documented intention of preserving multiplets)"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;
static size_t stored(const btensor &t) { return t.end() - t.begin(); }
struct Params
{
	double tol, pow;
	size_t min, max;
	bool limits;
};
static Params gen_params(Case &c, const std::vector<double> &s, double default_pow)
{
	Params p{0, c.chance(1, 3) ? (c.flip() ? 1. : 2.) : default_pow, 1, (size_t)-1, true};
	p.tol = gen_tol(c, s, p.pow);
	p.limits = c.chance(2, 3);
	if (p.limits)
	{
		p.min = c.draw(4) ? c.draw(4) : c.draw(s.size() + 2);
		p.max = c.flip() ? (size_t)-1 : c.draw(s.size() + 2);
		if (p.max < p.min) std::swap(p.min, p.max);
	}
	return p;
}
static std::string str(const Params &p) { return pbt::cat("tol=", p.tol, " pow=", p.pow, " min=", p.min, " max=", (long)p.max); }
// what every truncated factorization must satisfy. full: the values of the factorization before truncation, stored or not.
static void check_values(Case &c, const btensor &d, const std::vector<double> &values, size_t untruncated, const Params &p)
{
	auto s = values;
	// values that belong to sectors without blocks are zero and never stored
	s.resize(std::max(s.size(), untruncated), 0.);
	s.resize(untruncated);
	double scale = s.empty() ? 1. : std::max(std::abs(s[0]), 1e-300), noise = 1e-13 * scale;
	auto [lo, hi, strict] = allowed_counts(s, p.tol, p.pow, std::min(p.min, untruncated), p.max, 1e-9, noise);
	auto kept = stored_values(d);
	PROP(kept.size() >= lo && kept.size() <= hi, kept.size(), " values kept instead of ", lo, " to ", hi, ": ", vstr(kept), "of ", vstr(s), str(p));
	if (kept.size() && kept.back() == 0)
		PROP(kept.size() <= strict, kept.size(), " values kept, with zeros, instead of at most ", strict, ": ", vstr(kept), "of ", vstr(s), str(p));
	for (size_t i = 0; i < kept.size(); ++i)
		PROP(std::abs(std::abs(kept[i]) - std::abs(s[i])) <= 1e-11 * scale, "kept ", vstr(kept), "of ", vstr(s));
}
static double dropped_norm(const std::vector<double> &s, size_t kept)
{
	double r = 0;
	for (size_t i = kept; i < s.size(); ++i) r += s[i] * s[i];
	return std::sqrt(r);
}
static void check_reconstruction(Case &c, const btensor &t, const BT &a, const std::vector<double> &s, size_t kept)
{
	VALID(t);
	HAS_SPEC(t, a.s);
	double err = frob(dense_of(t) - a.d), want = dropped_norm(s, kept), scale = s.empty() ? 1. : std::max(1., std::abs(s[0]));
	PROP(std::abs(err - want) <= 1e-7 * scale, "the error is ", err, " and the norm of the discarded values ", want);
}
// the emptied sections keep the elements of the others in place: rows of the bond of u, d, w agree
static void bonds_agree(Case &c, const btensor &u, const btensor &d)
{
	auto n = d.section_number(0);
	auto last = u.dim() - 1;
	PROP(u.section_number(last) == n, "bonds have ", u.section_number(last), " and ", n, " sections");
	auto [b, e] = d.section_sizes(0);
	auto [ub, ue] = u.section_sizes(last);
	for (size_t i = 0; i < (size_t)n; ++i, ++b, ++ub) PROP(*b == *ub, "section ", i, " of the bond has sizes ", *ub, " and ", *b);
}

FACET(svd_truncated, 5)
{
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : c.flip() ? Val::cplx : Val::ints;
	auto rank = c.range(2, 5);
	auto a = gen_la(c, gen_spec(c, kind, rank, rank > 3 ? Lim{2, 2, 2} : Lim{4, 3, 2}), v);
	c.assume(numel(a.s) <= 4000);
	size_t split = c.range(1, rank - 1);
	auto s = dense_singular_values(as_matrix(a.d, split));
	auto p = gen_params(c, s, 2.);
	c.note([&] { return cat(str(a), " split at ", split, " ", str(p), ": ", vstr(s), tstr(a.d)); });
	auto [u0, d0, w0] = quantit::svd(a.t, split);
	auto n0 = stored_values(d0).size();
	auto before = snap(a.t);
	btensor u, d, w;
	auto how = c.draw(3);
	if (how == 2)
	{
		auto [u1, d1, w1] = quantit::svd(a.t, split);
		std::tie(u, d, w) = quantit::truncate(std::move(u1), std::move(d1), std::move(w1), p.max, p.min, p.tol, p.pow);
	}
	else if (p.limits)
	{
		if (how && p.pow == 2.)
			std::tie(u, d, w) = c.flip() ? quantit::svd(a.t, (int)split, p.tol, p.min, p.max) : quantit::svd(a.t, split, p.tol, p.min, p.max);
		else
			std::tie(u, d, w) = quantit::svd(a.t, split, p.tol, p.min, p.max, p.pow);
	}
	else
	{
		if (how && p.pow == 2.)
			std::tie(u, d, w) = c.flip() ? quantit::svd(a.t, (int)split, p.tol) : quantit::svd(a.t, split, p.tol);
		else
			std::tie(u, d, w) = quantit::svd(a.t, split, p.tol, p.pow);
	}
	UNCHANGED(before, a.t, "decomposed tensor");
	VALID(u);
	VALID(d);
	VALID(w);
	bonds_agree(c, u, d);
	bonds_agree(c, w, d);
	ISOMETRY(u, d, 1e-10);
	ISOMETRY(w, d, 1e-10);
	check_values(c, d, s, n0, p);
	auto k = stored_values(d).size();
	auto t = tensordot(u.mul(d), w.conj(), {(int64_t)u.dim() - 1}, {(int64_t)w.dim() - 1});
	check_reconstruction(c, t, a, s, k);
	// Projections by the factors: U U^+ A is the same approximation
	std::vector<int64_t> rows(split);
	for (size_t i = 0; i < split; ++i) rows[i] = i;
	auto P = tensordot(u, tensordot(u.conj(), a.t, rows, rows), {(int64_t)split}, {0});
	// values that are degenerate with what is kept can be mixed with it
	if (k < s.size() && k > 0 && s[k - 1] - s[k] > 1e-6 * s[0]) SAME(dense_of(P), dense_of(t), false, "projection on the kept vectors");
	c.nontrivial(k > 0 && k < n0);
}
FACET(eigh_truncated, 3)
{
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : c.flip() ? Val::cplx : Val::ints;
	auto half = c.range(1, 2);
	auto a = gen_hermitian(c, kind, half, v, half == 2 ? Lim{2, 2, 2} : Lim{4, 3, 2});
	auto e = dense_eigenvalues(as_matrix(a.d, half));
	auto p = gen_params(c, e, 1.);
	c.note([&] { return cat(str(a), " ", str(p), ": ", vstr(e), tstr(a.d)); });
	auto [d0, u0] = quantit::eigh(a.t, (size_t)half);
	auto n0 = stored_values(d0).size();
	auto before = snap(a.t);
	btensor u, d;
	auto how = c.draw(3);
	if (how == 2)
	{
		auto [d1, u1] = quantit::eigh(a.t, (size_t)half);
		std::tie(d, u) = quantit::truncate(std::move(d1), std::move(u1), p.max, p.min, p.tol, p.pow);
	}
	else if (p.limits)
		std::tie(d, u) = how && p.pow == 1. ? quantit::eigh(a.t, (size_t)half, p.tol, p.min, p.max) : quantit::eigh(a.t, (size_t)half, p.tol, p.min, p.max, p.pow);
	else
		std::tie(d, u) = how && p.pow == 1. ? quantit::eigh(a.t, (size_t)half, p.tol) : quantit::eigh(a.t, (size_t)half, p.tol, p.pow);
	UNCHANGED(before, a.t, "decomposed tensor");
	VALID(u);
	VALID(d);
	bonds_agree(c, u, d);
	ISOMETRY(u, d, 1e-10);
	check_values(c, d, e, n0, p);
	auto k = stored_values(d).size();
	auto t = tensordot(u.mul(d), u.conj(), {half}, {half});
	check_reconstruction(c, t, a, e, k);
	c.nontrivial(k > 0 && k < n0);
}
FACET(truncated_twice, 1)
{
	// truncation of factors that have already lost sections
	auto kind = gen_kind(c);
	auto a = gen_la(c, gen_spec(c, kind, 2, Lim{4, 3, 2}), Val::real);
	auto s = dense_singular_values(as_matrix(a.d, 1));
	auto p = gen_params(c, s, 2.), q = gen_params(c, s, 2.);
	c.note([&] { return cat(str(a), " ", str(p), " then ", str(q), ": ", vstr(s), tstr(a.d)); });
	auto [u, d, w] = quantit::svd(a.t, (size_t)1, p.tol, p.min, p.max, p.pow);
	auto kept = stored_values(d);
	std::tie(u, d, w) = quantit::truncate(std::move(u), std::move(d), std::move(w), q.max, q.min, q.tol, q.pow);
	VALID(u);
	VALID(d);
	VALID(w);
	ISOMETRY(u, d, 1e-10);
	ISOMETRY(w, d, 1e-10);
	check_values(c, d, kept, kept.size(), q);
	auto k = stored_values(d).size();
	auto t = tensordot(u.mul(d), w.conj(), {1}, {1});
	check_reconstruction(c, t, a, s, k);
	c.nontrivial(k > 0 && k < kept.size() && kept.size() < s.size());
}
