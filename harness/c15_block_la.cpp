// C15: factorizations of block tensors against their dense form.
#include "model_la.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 1-5 over 7 group types with blocks absent, zero, small, of rank one or proportional to the identity, repeated charges and non-neutral "
    "selection rules; Hermitian ones from mirrored dimensions; non-trivial when two blocks are stored";
unsigned pbt::quick_cases = 120000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {"torch::linalg::svd and eigh of the dense form are correct", "eigh is only defined for operators that conserve the charge (neutral selection rule)"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;
static Val gen_v(Case &c) { return c.flip() ? Val::real : c.flip() ? Val::cplx : Val::ints; }
static size_t stored(const btensor &t) { return t.end() - t.begin(); }
static Spec part(const Spec &s, size_t b, size_t e)
{
	Spec r;
	r.kind = s.kind;
	r.dims.assign(s.dims.begin() + b, s.dims.begin() + e);
	r.sel = qzero(s.kind);
	return r;
}
// dimensions [0,n) of t are those of s
static std::string dims_diff(const btensor &t, const Spec &s)
{
	for (size_t i = 0; i < s.rank(); ++i)
	{
		if (t.section_number(i) != s.dims[i].size()) return cat("dimension ", i, " has ", t.section_number(i), " sections");
		auto [b, e] = t.section_sizes(i);
		auto [qb, qe] = t.section_cqtts(i);
		for (auto &x : s.dims[i])
		{
			if (*b != x.size) return cat("dimension ", i, " has a section of size ", *b, " instead of ", x.size);
			if (!(any_quantity(*qb) == to_any(s.kind, x.q))) return cat("dimension ", i, " has another charge than ", qstr(x.q));
			++b;
			++qb;
		}
	}
	return "";
}
static bool is_type(const btensor &t, torch::ScalarType ty)
{
	if (torch::typeMetaToScalarType(t.options().dtype()) != ty) return false;
	for (auto &b : t)
		if (b.second.scalar_type() != ty) return false;
	return true;
}
static void same_spectrum(Case &c, const std::vector<double> &got, const std::vector<double> &want, double tol)
{
	PROP(got.size() <= want.size(), got.size(), " values for a dense matrix that has ", want.size());
	for (size_t i = 0; i < want.size(); ++i)
	{
		double g = i < got.size() ? got[i] : 0.;
		PROP(std::abs(std::abs(g) - std::abs(want[i])) <= tol * std::max(1., std::abs(want[0])), "values ", vstr(got), "instead of ", vstr(want));
	}
}

FACET(svd_split, 4)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto rank = c.range(1, 5);
	auto a = gen_la(c, gen_spec(c, kind, rank, rank > 3 ? Lim{2, 2, 2} : Lim{4, 3, 2}), v);
	c.assume(numel(a.s) <= 4000);
	size_t split = rank == 1 ? c.draw(2) : c.range(1, rank - 1);
	if (c.chance(1, 12)) split = c.flip() ? 0 : rank;
	c.note([&] { return cat(str(a), " split at ", split, ": ", tstr(a.d)); });
	auto s = snap(a.t);
	auto [u, d, w] = c.flip() ? quantit::svd(a.t, split) : quantit::svd(a.t, (int)split);
	UNCHANGED(s, a.t, "decomposed tensor");
	VALID(u);
	VALID(d);
	VALID(w);
	PROP(u.dim() == (int64_t)split + 1 && d.dim() == 1 && w.dim() == rank - (int64_t)split + 1, "ranks ", u.dim(), " ", d.dim(), " ", w.dim());
	auto l = dims_diff(u, part(a.s, 0, split)), r = dims_diff(w, m_negated(part(a.s, split, rank)));
	PROP(l == "", "the row dimensions are not those of the tensor: ", l);
	PROP(r == "", "the column dimensions are not those of the conjugate of the tensor: ", r);
	PROP(sel_of(u) == to_any(kind, a.s.sel), "the selection rule of the tensor must be on U");
	PROP(sel_of(w) == to_any(kind, qzero(kind)) && sel_of(d) == to_any(kind, qzero(kind)));
	PROP(is_type(u, dtype(v)) && is_type(w, dtype(v)) && is_type(d, torch::kFloat64), "element types");
	PROP(u.sizes().back() == d.sizes()[0] && w.sizes().back() == d.sizes()[0]);
	ISOMETRY(u, d, 1e-10);
	ISOMETRY(w, d, 1e-10);
	for (auto &b : d)
		for (int64_t i = 0; i < b.second.size(0); ++i)
		{
			PROP(b.second[i].item().toDouble() >= 0, "negative singular value");
			if (i) PROP(b.second[i].item().toDouble() <= b.second[i - 1].item().toDouble(), "singular values of a section not in decreasing order");
		}
	same_spectrum(c, stored_values(d), dense_singular_values(as_matrix(a.d, split)), 1e-10);
	auto t = tensordot(u.mul(d), w.conj(), {(int64_t)u.dim() - 1}, {(int64_t)w.dim() - 1});
	VALID(t);
	HAS_SPEC(t, a.s);
	SAME(dense_of(t), a.d, false, "product of the factors");
	c.nontrivial(stored(a.t) >= 2);
}
FACET(svd_batched, 3)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto rank = c.range(2, 4);
	auto a = gen_la(c, gen_spec(c, kind, rank, rank > 3 ? Lim{2, 2, 2} : Lim{3, 3, 2}), v);
	c.assume(numel(a.s) <= 4000);
	c.note([&] { return cat(str(a), ": ", tstr(a.d)); });
	auto s = snap(a.t);
	auto [u, d, w] = c.flip() ? quantit::svd(a.t) : quantit::svd(a.t, BOOL(true), BOOL(true));
	UNCHANGED(s, a.t, "decomposed tensor");
	VALID(u);
	VALID(d);
	VALID(w);
	PROP(u.dim() == rank && w.dim() == rank && d.dim() == rank - 1);
	PROP(is_type(u, dtype(v)) && is_type(w, dtype(v)) && is_type(d, torch::kFloat64), "element types");
	auto n = u.sizes().back();
	auto m1 = full_sizes(a.s)[rank - 2], m2 = full_sizes(a.s)[rank - 1];
	if (n)
	{
		auto U = wide(dense_of(u)).reshape({-1, m1, n}), W = wide(dense_of(w)).reshape({-1, m2, n}), D = dense_of(d).reshape({-1, n});
		auto A = wide(a.d).reshape({-1, m1, m2});
		auto dm = m_deep(d);
		for (auto &b : dm) b.second.fill_(1.);
		auto mk = dense_of(dm).reshape({-1, n});
		for (int64_t b = 0; b < A.size(0); ++b)
		{
			auto I = wide(torch::diag(mk[b]));
			auto GU = dag(U[b]).matmul(U[b]), GW = dag(W[b]).matmul(W[b]);
			if (!same(GU, I, false)) c.fail(cat("the left vectors of matrix ", b, " are not orthonormal: ", tstr(GU)));
			if (!same(GW, I, false)) c.fail(cat("the right vectors of matrix ", b, " are not orthonormal: ", tstr(GW)));
			auto got = sorted_desc(D[b]);
			while (got.size() && got.back() == 0) got.pop_back();
			same_spectrum(c, got, dense_singular_values(A[b]), 1e-10);
			if (!same((U[b] * wide(D[b])).matmul(dag(W[b])), A[b], false)) c.fail(cat("matrix ", b, " is not the product of its factors"));
		}
	}
	else
		PROP(maxabs(a.d) == 0, "no singular value for a tensor that is not zero");
	// as documented
	auto dr = d.reshape_as(shape_from(d, btensor({{{1, d.selection_rule->neutral()}}}, d.selection_rule->neutral()))).transpose_(-1, -2);
	auto t = u.mul(dr).bmm(w.transpose(-1, -2).conj());
	VALID(t);
	HAS_SPEC(t, a.s);
	SAME(dense_of(t), a.d, false, "documented product of the factors");
	c.nontrivial(stored(a.t) >= 2);
}
FACET(svd_values_only, 1)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto a = gen_la(c, gen_spec(c, kind, 2, Lim{4, 3, 2}), v);
	c.note([&] { return cat(str(a), ": ", tstr(a.d)); });
	auto [u, d, w] = quantit::svd(a.t, BOOL(true), BOOL(false));
	VALID(d);
	same_spectrum(c, stored_values(d), dense_singular_values(as_matrix(a.d, 1)), 1e-10);
	// the vectors are not computed: what stands for them is zero
	VALID(u);
	VALID(w);
	PROP(maxabs(dense_of(u)) == 0 && maxabs(dense_of(w)) == 0, "vectors that are not computed are not zero");
	c.nontrivial(stored(a.t) >= 2);
}
FACET(svd_full_square, 1)
{
	// without 'some', when every sector is square
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	Spec s;
	s.kind = kind;
	auto n = c.range(1, 4);
	Dim d;
	for (int64_t i = 0; i < n; ++i)
	{
		auto q = gen_q(c, kind);
		bool dup = false;
		for (auto &x : d) dup |= x.q == q;
		if (!dup) d.push_back({c.range(1, 4), q});
	}
	s.dims = {d, conj_dim(kind, d)};
	s.sel = qzero(kind);
	auto a = gen_la(c, s, v);
	auto [u, e, w] = quantit::svd(a.t, BOOL(false), BOOL(true));
	VALID(u);
	VALID(e);
	VALID(w);
	ISOMETRY(u, e, 1e-10);
	ISOMETRY(w, e, 1e-10);
	auto t = tensordot(u.mul(e), w.conj(), {1}, {1});
	HAS_SPEC(t, a.s);
	SAME(dense_of(t), a.d, false, "product of the factors");
	c.nontrivial(stored(a.t) >= 2);
}
KNOWN_FACET(svd_full_rectangular, "svd(tensor, some=false) of a 2x3 single block gives a U whose block does not have the size of its section (the documentation warns that the full decomposition is untested)")
{
	using Z = conserved::Z;
	btensor t({{{2, Z(0)}}, {{3, Z(0)}}}, any_quantity(Z(0)));
	t.block({0, 0}) = torch::rand({2, 3}, torch::kFloat64);
	auto [u, d, w] = quantit::svd(t, BOOL(false), BOOL(true));
	VALID(u);
	VALID(w);
	auto r = tensordot(u.mul(d), w.conj(), {1}, {1});
	SAME(dense_of(r), dense_of(t), false);
}

FACET(eigh_split, 3)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto half = c.range(1, 2);
	auto a = gen_hermitian(c, kind, half, v, half == 2 ? Lim{2, 2, 2} : Lim{4, 3, 2});
	c.note([&] { return cat(str(a), ": ", tstr(a.d)); });
	auto s = snap(a.t);
	auto [d, u] = quantit::eigh(a.t, (size_t)half);
	UNCHANGED(s, a.t, "decomposed tensor");
	VALID(u);
	VALID(d);
	PROP(u.dim() == half + 1 && d.dim() == 1);
	auto l = dims_diff(u, part(a.s, 0, half));
	PROP(l == "", "the row dimensions are not those of the tensor: ", l);
	PROP(sel_of(u) == to_any(kind, a.s.sel) && sel_of(d) == to_any(kind, qzero(kind)), "selection rules");
	PROP(is_type(u, dtype(v)) && is_type(d, torch::kFloat64), "element types");
	ISOMETRY(u, d, 1e-10);
	for (auto &b : d)
		for (int64_t i = 1; i < b.second.size(0); ++i) PROP(b.second[i].item().toDouble() >= b.second[i - 1].item().toDouble(), "eigenvalues of a section not in increasing order");
	auto e = stored_values(d);
	auto want = dense_eigenvalues(as_matrix(a.d, half));
	same_spectrum(c, e, want, 1e-10);
	// with their sign, up to zeros
	e.resize(std::max(e.size(), want.size()), 0.);
	std::sort(e.begin(), e.end());
	std::sort(want.begin(), want.end());
	for (size_t i = 0; i < want.size(); ++i) PROP(std::abs(e[i] - want[i]) <= 1e-10 * std::max(1., std::abs(want.back())), "eigenvalues ", vstr(e), "instead of ", vstr(want));
	auto t = tensordot(u.mul(d), u.conj(), {half}, {half});
	VALID(t);
	HAS_SPEC(t, a.s);
	SAME(dense_of(t), a.d, false, "product of the factors");
	c.nontrivial(stored(a.t) >= 2);
}
FACET(eigh_triangle, 2)
{
	// only one triangle is looked at; batches are independent
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto h = gen_hermitian(c, kind, 1, v, Lim{4, 3, 2});
	bool upper = c.flip();
	auto n = dim_size(h.s.dims[0]);
	// the other triangle is replaced by garbage, or left out where a whole block is in it
	auto f = gen_filler(c);
	auto garbage = fill(f, {n, n}, v) * mask(h.s).to(dtype(v));
	auto M = upper ? torch::triu(h.d) + torch::tril(garbage, -1) : torch::tril(h.d) + torch::triu(garbage, 1);
	auto t = make_shape(h.s, dtype(v));
	bool omit = c.flip();
	for (auto &b : allowed_blocks(h.s))
	{
		bool other = upper ? b[0] > b[1] : b[0] < b[1];
		auto x = sub_block(M, block_offsets(h.s, b), block_sizes(h.s, b)).clone();
		auto y = sub_block(h.d, block_offsets(h.s, b), block_sizes(h.s, b));
		if (other && omit) continue;
		if (!other && maxabs(y) == 0 && maxabs(x) == 0) continue;
		t.block(b) = x;
	}
	c.note([&] { return cat(str(h.s), upper ? " upper " : " lower ", tstr(h.d)); });
	auto s = snap(t);
	auto [d, u] = upper || c.flip() ? quantit::eigh(t, BOOL(upper)) : quantit::eigh(t);
	UNCHANGED(s, t, "decomposed tensor");
	VALID(u);
	VALID(d);
	ISOMETRY(u, d, 1e-10);
	auto r = tensordot(u.mul(d), u.conj(), {1}, {1});
	HAS_SPEC(r, h.s);
	SAME(dense_of(r), h.d, false, "product of the factors");
	c.nontrivial(stored(t) >= 2);
}
FACET(eigh_batched, 1)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto n = c.range(1, 3);
	// a batch dimension: every section carries the same charge, which is the selection rule
	Spec s;
	s.kind = kind;
	auto q = gen_q(c, kind);
	Dim bd;
	for (int64_t i = 0; i < n; ++i) bd.push_back({c.range(1, 2), q});
	auto first = gen_hermitian(c, kind, 1, v, Lim{3, 3, 2});
	s.dims = {bd, first.s.dims[0], first.s.dims[1]};
	s.sel = q;
	auto m = dim_size(s.dims[1]);
	auto f = gen_filler(c);
	auto M = fill(f, {dim_size(bd), m, m}, v);
	M = (M + dag(M)) * mask(first.s).to(dtype(v));
	auto t = make_shape(s, dtype(v));
	for (int64_t k = 0; k < n; ++k)
		for (auto &b : allowed_blocks(first.s))
		{
			IL bi{k, b[0], b[1]};
			t.block(bi) = sub_block(M, block_offsets(s, bi), block_sizes(s, bi)).clone();
		}
	auto [d, u] = quantit::eigh(t, BOOL(c.flip()));
	VALID(u);
	VALID(d);
	auto N = u.sizes().back();
	auto U = wide(dense_of(u)), D = wide(dense_of(d));
	auto R = (U * D.unsqueeze(1)).matmul(dag(U));
	if (!same(R, wide(M), false)) c.fail(cat("the product is ", tstr(R), " instead of ", tstr(M)));
	c.nontrivial(N >= 2 && n >= 2);
}

FACET(single_precision, 2)
{
	auto kind = gen_kind(c);
	auto rank = c.range(1, 4);
	bool herm = c.chance(1, 3);
	auto v = c.flip() ? Val::f32 : Val::c64;
	BT a;
	int64_t split;
	if (herm)
	{
		split = c.range(1, 2);
		a = gen_hermitian(c, kind, split, v, Lim{3, 2, 2});
	}
	else
	{
		a = gen_la(c, gen_spec(c, kind, rank, rank > 3 ? Lim{2, 2, 2} : Lim{3, 3, 2}), v);
		split = rank == 1 ? c.draw(2) : c.range(1, rank - 1);
	}
	c.assume(numel(a.s) <= 4000);
	c.note([&] { return cat(str(a), " split at ", split, ": ", tstr(a.d)); });
	auto all_float = [&](const btensor &t, const char *what) { PROP(is_type(t, dtype(v)), "element type of ", what); };
	auto real_float = [&](const btensor &t, const char *what) { PROP(is_type(t, torch::kFloat32), "element type of ", what); };
	btensor r;
	double scale = 1 + frob(a.d);
	if (herm)
	{
		auto [d, u] = quantit::eigh(a.t, (size_t)split);
		real_float(d, "the eigenvalues"), all_float(u, "the eigenvectors");
		ISOMETRY(u, d, 1e-4);
		r = tensordot(u.mul(d), u.conj(), {(int64_t)split}, {(int64_t)split});
	}
	else
	{
		auto [u, d, w] = c.flip() ? quantit::svd(a.t, (size_t)split) : quantit::svd(a.t, (size_t)split, 0., 0, 1000);
		all_float(u, "the left vectors"), real_float(d, "the singular values"), all_float(w, "the right vectors");
		ISOMETRY(u, d, 1e-4);
		ISOMETRY(w, d, 1e-4);
		r = tensordot(u.mul(d), w.conj(), {(int64_t)u.dim() - 1}, {(int64_t)w.dim() - 1});
	}
	all_float(r, "the product");
	PROP(maxabs(wide(dense_of(r)) - wide(a.d)) <= 1e-5 * scale, "the product is ", tstr(dense_of(r)));
	c.nontrivial(stored(a.t) >= 2);
}
