// C13: charge transformations change charges and selection rule consistently and leave the elements alone.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 0-5 over 7 group types with random missing blocks and random shifts; non-trivial when the tensor has a non-zero element and a "
    "non-neutral charge";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
#define RESULT(t, spec, want, ex, ...)                                        \
	do                                                                        \
	{                                                                         \
		auto &&rs_ = (t);                                                     \
		VALID(rs_, #t " ", ##__VA_ARGS__);                                    \
		HAS_SPEC(rs_, spec, #t " ", ##__VA_ARGS__);                           \
		SAME(dense_of(rs_), want, ex, #t " ", ##__VA_ARGS__);                 \
		SAME(rs_.to_dense(), want, ex, "to_dense of " #t " ", ##__VA_ARGS__); \
	} while (0)
static void note(Case &c, const BT &a)
{
	bool q = qnorm(a.s.kind, a.s.sel) != qzero(a.s.kind);
	for (auto &d : a.s.dims)
		for (auto &x : d) q |= qnorm(a.s.kind, x.q) != qzero(a.s.kind);
	c.nontrivial(q && maxabs(a.d) > 0);
	c.note([&] { return str(a); });
}
static BT mk(Case &c, int lo = 0, int hi = 5)
{
	auto r = c.range(lo, hi);
	Lim l;
	if (r > 3) l.maxsize = 2;
	if (r > 4) l.maxsec = 2;
	return gen_bt(c, gen_kind(c), r, gen_val(c), l);
}
static Spec negated(Spec s)
{
	for (auto &d : s.dims) d = conj_dim(s.kind, d);
	s.sel = qneg(s.kind, s.sel);
	return s;
}
static Spec shifted(Spec s, const Q &q, int64_t dim, bool rule)
{
	for (auto &x : s.dims[dim]) x.q = qadd(s.kind, x.q, q);
	if (rule) s.sel = qadd(s.kind, s.sel, q);
	return s;
}
static size_t stored(const btensor &t) { return t.end() - t.begin(); }
FACET(inversion, 4)
{
	auto a = mk(c);
	note(c, a);
	auto n = negated(a.s);
	auto sa = snap(a.t);
	RESULT(a.t.inverse_cvals(), n, a.d, true);
	RESULT(inverse_cvals(a.t), n, a.d, true);
	RESULT(inverse_cvals(btensor(a.t)), n, a.d, true);
	UNCHANGED(sa, a.t);
	RESULT(a.t.inverse_cvals().inverse_cvals(), a.s, a.d, true);
	PROP(stored(a.t.inverse_cvals()) == stored(a.t));
	auto b = a.t;
	auto &r = c.flip() ? b.inverse_cvals_() : inverse_cvals_(b);
	PROP(&r == &b);
	RESULT(b, n, a.d, true);
	UNCHANGED(sa, a.t);
	b.inverse_cvals_();
	RESULT(b, a.s, a.d, true);
}
FACET(conjugation, 4)
{
	auto a = mk(c);
	note(c, a);
	auto n = negated(a.s);
	auto sa = snap(a.t);
	auto dc = a.d.conj();
	RESULT(a.t.conj(), n, dc, true);
	RESULT(a.t.conj_only(), a.s, dc, true);
	RESULT(a.t.conj().conj(), a.s, a.d, true);
	RESULT(a.t.conj_only().conj_only(), a.s, a.d, true);
	RESULT(a.t.conj_only().inverse_cvals(), n, dc, true);
	RESULT(a.t.inverse_cvals().conj_only(), n, dc, true);
	UNCHANGED(sa, a.t);
}
FACET(shift, 4)
{
	auto a = mk(c, 1);
	note(c, a);
	auto q = gen_q(c, a.s.kind, 4);
	int64_t dim = c.draw(a.s.rank());
	c.note([&] { return "shift " + qstr(q) + " of dim " + std::to_string(dim); });
	auto s = shifted(a.s, q, dim, true);
	auto sa = snap(a.t);
	auto aq = to_any(a.s.kind, q), iq = to_any(a.s.kind, qneg(a.s.kind, q));
	RESULT(a.t.cval_shift(aq, dim), s, a.d, true);
	UNCHANGED(sa, a.t);
	RESULT(a.t.cval_shift(aq, dim).cval_shift(iq, dim), a.s, a.d, true);
	auto b = a.t;
	auto &r = c.flip() ? b.cval_shift_(aq, dim) : cval_shift_(b, aq, dim);
	PROP(&r == &b);
	RESULT(b, s, a.d, true);
	UNCHANGED(sa, a.t);
	// moving a charge from one dimension to another leaves the selection rule
	int64_t other = c.draw(a.s.rank());
	RESULT(b.cval_shift(iq, other), shifted(s, qneg(a.s.kind, q), other, true), a.d, true);
	// the shift is undone by the inversion of everything
	RESULT(b.inverse_cvals().cval_shift(aq, dim), negated(a.s), a.d, true);
	// by a charge of the tensor itself
	{
		auto own = a.t;
		int64_t od = c.draw(a.s.rank()), ok = c.draw(a.s.dims[od].size());
		auto oq = c.chance(1, 3) ? a.s.sel : a.s.dims[od][ok].q;
		if (oq == a.s.sel && c.flip())
		{
			const vquantity &w = own.selection_rule;
			own.cval_shift_(w, dim);
			oq = a.s.sel;
		}
		else
		{
			oq = a.s.dims[od][ok].q;
			own.cval_shift_(own.section_conserved_qtt(od, ok), dim);
		}
		RESULT(own, shifted(a.s, oq, dim, true), a.d, true, "shift by a charge of the tensor");
	}
	MUST_THROW(b.cval_shift(aq, a.s.rank() + c.range(0, 2)), "dimension out of range");
	MUST_THROW(b.cval_shift_(aq, a.s.rank() + c.range(0, 2)), "dimension out of range");
	MUST_THROW(b.cval_shift_(aq, -1 - c.range(0, 2)), "dimension out of range");
	RESULT(b, s, a.d, true, "after a refused shift");
}
FACET(empty_tensors, 3)
{
	auto a = mk(c, 1);
	note(c, a);
	auto q = gen_q(c, a.s.kind, 4);
	auto aq = to_any(a.s.kind, q);
	int64_t dim = c.draw(a.s.rank());
	auto z = torch::zeros_like(a.d);
	auto e = sparse_zeros_like(a.t);
	auto sp = a.s;
	for (int n = c.range(1, 4); n > 0; --n)
	{
		btensor *r = nullptr;
		int w = c.draw(5);
		bool fr = c.flip();
		if (w == 0)
		{
			r = fr ? &non_conserving_cval_shift_(e, aq, dim) : &e.non_conserving_cval_shift_(aq, dim);
			sp = shifted(sp, q, dim, false);
		}
		if (w == 1)
		{
			r = fr ? &shift_selection_rule_(e, aq) : &e.shift_selection_rule_(aq);
			sp.sel = qadd(sp.kind, sp.sel, q);
		}
		if (w == 2)
		{
			r = fr ? &set_selection_rule_(e, aq) : &e.set_selection_rule_(aq);
			sp.sel = q;
		}
		if (w == 3)
		{
			auto before = sp;
			auto n2 = sp;
			n2.sel = qzero(sp.kind);
			RESULT(e.neutral_selection_rule(), n2, z, true);
			HAS_SPEC(e, before);
			r = &e.neutral_selection_rule_();
			sp = n2;
		}
		if (w == 4)
		{
			r = &e.cval_shift_(aq, dim);
			sp = shifted(sp, q, dim, true);
		}
		PROP(r == &e, "operation ", w);
		VALID(e);
		HAS_SPEC(e, sp, "operation ", w);
	}
	// the blocks allowed are those of the new rule
	auto f = ones_like(e);
	RESULT(f, sp, mask(sp).to(dtype(a.v)), true);
	// tensors with blocks refuse those that would make them invalid
	if (stored(a.t))
	{
		auto sa = snap(a.t);
		MUST_THROW(a.t.non_conserving_cval_shift_(aq, dim), "tensor with blocks");
		MUST_THROW(a.t.shift_selection_rule_(aq), "tensor with blocks");
		MUST_THROW(a.t.set_selection_rule_(aq), "tensor with blocks");
		MUST_THROW(a.t.neutral_selection_rule_(), "tensor with blocks");
		MUST_THROW(a.t.neutral_selection_rule(), "tensor with blocks");
		UNCHANGED(sa, a.t);
	}
}
FACET(squared_norm, 3)
{
	auto a = mk(c);
	note(c, a);
	IL all;
	for (size_t i = 0; i < a.s.rank(); ++i) all.push_back(i);
	auto p = c.permutation(a.s.rank());
	auto r = tensordot(a.t, a.t.conj(), p, p);
	Spec s;
	s.kind = a.s.kind;
	s.sel = qzero(s.kind);
	auto want = (a.d * a.d.conj()).sum();
	RESULT(r, s, want, exact(a.v));
	PROP(std::abs(r.item().toComplexDouble().imag()) == 0 || !exact(a.v));
	// reversing only the charges gives the sum of squares
	RESULT(tensordot(a.t, a.t.inverse_cvals(), all, all), s, (a.d * a.d).sum(), exact(a.v));
}
FACET(contraction, 5)
{
	// two tensors sharing n dimensions
	auto k = gen_kind(c);
	auto v = gen_val(c);
	size_t n = c.range(0, 2), ra = n + c.range(0, 2), rb = n + c.range(0, 2);
	Lim l;
	l.maxsize = 2;
	auto sa = gen_spec(c, k, ra, l);
	auto da = c.subset(ra, n);
	Spec sb;
	sb.kind = k;
	auto db = c.permutation(rb);
	db.resize(n);
	for (size_t i = 0; i < rb; ++i) sb.dims.push_back(gen_dim(c, k, l));
	for (size_t i = 0; i < n; ++i) sb.dims[db[i]] = conj_dim(k, sa.dims[da[i]]);
	sb.sel = gen_sel(c, sb);
	auto a = gen_tensor(c, sa, v), b = gen_tensor(c, sb, v);
	note(c, a);
	c.note([&] { return str(b); });
	Spec sp;
	sp.kind = k;
	IL ka, kb;
	for (size_t i = 0; i < ra; ++i)
		if (std::find(da.begin(), da.end(), (int64_t)i) == da.end()) ka.push_back(i), sp.dims.push_back(sa.dims[i]);
	for (size_t i = 0; i < rb; ++i)
		if (std::find(db.begin(), db.end(), (int64_t)i) == db.end()) kb.push_back(i), sp.dims.push_back(sb.dims[i]);
	sp.sel = qadd(k, sa.sel, sb.sel);
	auto want = torch::tensordot(a.d, b.d, da, db);
	bool ex = exact(v);
	auto r = tensordot(a.t, b.t, da, db);
	RESULT(r, sp, want, ex);
	// conjugation and inversion distribute over the contraction
	RESULT(tensordot(a.t.conj(), b.t.conj(), da, db), negated(sp), want.conj(), ex);
	RESULT(r.conj(), negated(sp), want.conj(), ex);
	RESULT(tensordot(a.t.inverse_cvals(), b.t.inverse_cvals(), da, db), negated(sp), want, ex);
	auto q = gen_q(c, k, 3);
	auto aq = to_any(k, q), iq = to_any(k, qneg(k, q));
	// a shift of a contracted dimension must be undone by its partner, and has then no effect
	if (n)
	{
		auto i = c.draw(n);
		RESULT(tensordot(a.t.cval_shift(aq, da[i]), b.t.cval_shift(iq, db[i]), da, db), sp, want, ex);
		if (qnorm(k, q) != qzero(k))
		{
			MUST_THROW(tensordot(a.t.cval_shift(aq, da[i]), b.t, da, db), "charges of the contracted dimensions do not cancel");
			MUST_THROW(tensordot(a.t, b.t.cval_shift(aq, db[i]), da, db), "charges of the contracted dimensions do not cancel");
		}
	}
	// a shift of another dimension commutes with the contraction
	if (ka.size())
	{
		auto i = c.draw(ka.size());
		auto s2 = shifted(sp, q, i, true);
		RESULT(tensordot(a.t.cval_shift(aq, ka[i]), b.t, da, db), s2, want, ex);
		RESULT(r.cval_shift(aq, i), s2, want, ex);
	}
}
FACET(layout, 2)
{
	// charge transformations commute with permutations, and with grouping of dimensions
	auto a = mk(c, 1, 4);
	note(c, a);
	auto q = gen_q(c, a.s.kind, 3);
	auto aq = to_any(a.s.kind, q);
	auto p = c.permutation(a.s.rank());
	int64_t dim = c.draw(a.s.rank());
	auto x = a.t.permute(p).cval_shift(aq, dim), y = a.t.cval_shift(aq, p[dim]).permute(p);
	VALID(x);
	VALID(y);
	PROP(btensor::test_same_shape(x, y) && sel_of(x) == sel_of(y));
	SAME(dense_of(x), dense_of(y), true);
	auto u = a.t.permute(p).inverse_cvals(), w = a.t.inverse_cvals().permute(p);
	PROP(btensor::test_same_shape(u, w) && sel_of(u) == sel_of(w));
	SAME(dense_of(u), dense_of(w), true);
	if (a.s.rank() > 1)
	{
		IL g{(int64_t)c.range(1, a.s.rank() - 1)};
		auto i = c.draw(a.s.rank());
		auto m = a.t.cval_shift(aq, i).reshape(g), n = a.t.reshape(g).cval_shift(aq, (int64_t)i >= g[0]);
		VALID(m);
		VALID(n);
		PROP(btensor::test_same_shape(m, n) && sel_of(m) == sel_of(n));
		SAME(dense_of(m), dense_of(n), true);
	}
}
