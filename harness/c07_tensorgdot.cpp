// C07: generalized contraction accumulates exactly beta*C + alpha*(A.B).
#include "gen_bt.h"
#include "tensorgdot.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random dense tensors of rank 0-5 (sizes 1-4, size-one dimensions broadcast in the contraction, strided and permuted operands and outputs), 0-3 contracted "
    "dimensions, random alpha and beta; non-trivial when alpha times the product is not zero and the output has at least two elements";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {"alpha and beta have the meaning they have in torch::addmm, which the documentation refers to",
                                             "the output given to tensorgdot_out has the shape of the result"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

// the same values behind another memory layout; the returned tensor may be a view in a larger tensor
static Tensor relayout(Case &c, const Tensor &x, Tensor *base = nullptr)
{
	Tensor r = x;
	switch (c.draw(4))
	{
	case 0: r = x.clone(); break;
	case 1: // permuted storage
	{
		auto p = c.permutation(x.dim());
		IL inv(p.size());
		for (size_t i = 0; i < p.size(); ++i) inv[p[i]] = i;
		r = x.permute(p).clone(torch::MemoryFormat::Contiguous).permute(inv);
		break;
	}
	case 2: // part of a larger tensor
	{
		IL s;
		for (auto z : x.sizes()) s.push_back(z + 1);
		auto big = torch::full(s, 99., x.options());
		r = big;
		for (int64_t i = 0; i < x.dim(); ++i) r = r.narrow(i, c.draw(2), x.size(i));
		r.copy_(x);
		if (base) *base = big;
		break;
	}
	default: // strided
		if (x.dim() > 0)
		{
			auto big = torch::full(x.sizes(), 99., x.options()).repeat_interleave(2, 0);
			r = big.slice(0, 0, 2 * x.size(0), 2);
			r.copy_(x);
			if (base) *base = big;
		}
		else
			r = x.clone();
	}
	return r;
}
static torch::Scalar gen_coef(Case &c, Val v)
{
	if (is_cplx(v) && c.flip()) return torch::Scalar(c10::complex<double>(double(c.around(2)), double(c.around(2))));
	switch (c.draw(5))
	{
	case 0: return torch::Scalar(int64_t(1));
	case 1: return torch::Scalar(int64_t(0));
	case 2: return torch::Scalar(int64_t(c.around(3)));
	default: return v == Val::i64 ? torch::Scalar(int64_t(c.around(5))) : torch::Scalar(double(c.around(3)) + 0.5);
	}
}
FACET(listed_dimensions, 5)
{
	auto v = gen_val(c);
	size_t ra = c.range(0, 5), rb = c.range(0, 5);
	size_t k = c.range(0, std::min<size_t>(3, std::min(ra, rb)));
	IL A, B;
	int64_t m = ra + rb > 6 ? 2 : 4;
	for (size_t i = 0; i < ra; ++i) A.push_back(c.range(1, m));
	for (size_t i = 0; i < rb; ++i) B.push_back(c.range(1, m));
	auto pa = c.permutation(ra), pb = c.permutation(rb);
	IL da(pa.begin(), pa.begin() + k), db(pb.begin(), pb.begin() + k);
	for (size_t i = 0; i < k; ++i)
		switch (c.weighted({4, 1, 1}))
		{
		case 0: B[db[i]] = A[da[i]]; break;
		case 1: B[db[i]] = 1; break;
		default: A[da[i]] = 1;
		}
	if (c.chance(1, 4))
		for (size_t i = 0; i < k; ++i)
			if (c.flip())
				da[i] -= ra;
			else
				db[i] -= rb;
	auto f = gen_filler(c);
	auto a0 = fill(f, A, v), b0 = fill(f, B, v);
	auto ab = torch::tensordot(a0, b0, da, db);
	IL O(ab.sizes().begin(), ab.sizes().end());
	auto c0 = fill(f, O, v);
	auto beta = gen_coef(c, v), alpha = gen_coef(c, v);
	auto a = relayout(c, a0), b = relayout(c, b0);
	Tensor base;
	auto add = relayout(c, c0, &base);
	auto how = c.draw(4);
	c.note([&] {
		return cat("A ", a.sizes(), a.strides(), " B ", b.sizes(), b.strides(), " dims ", torch::IntArrayRef(da), torch::IntArrayRef(db), " C ", add.sizes(), add.strides(),
		           " beta ", beta.toComplexDouble(), " alpha ", alpha.toComplexDouble(), " variant ", how);
	});
	auto want = c0 * beta + ab * alpha;
	c.nontrivial(want.numel() > 1 && maxabs(ab * alpha) > 0);
	c.label(add.is_contiguous() ? "contiguous output" : "strided output");
	bool ex = exact(v);
	auto old = base.defined() ? base.clone() : Tensor();
	Tensor r;
	if (how == 0)
	{
		r = tensorgdot(add, a, b, da, db, beta, alpha);
		SAME(add, c0, true, "the accumulated tensor was modified");
	}
	else if (how == 1)
	{
		auto &q = tensorgdot_(add, a, b, da, db, beta, alpha);
		PROP(&q == &add);
		r = add;
	}
	else if (how == 2)
	{
		Tensor obase;
		auto out = relayout(c, torch::full(O, 5., c0.options()), &obase);
		auto &q = tensorgdot_out(out, add, a, b, da, db, beta, alpha);
		PROP(&q == &out);
		SAME(add, c0, true, "the accumulated tensor was modified");
		r = out;
	}
	else
	{
		auto &q = tensorgdot_out(add, add, a, b, da, db, beta, alpha);
		PROP(&q == &add);
		r = add;
	}
	SAME(r, want, ex);
	PROP(r.scalar_type() == c0.scalar_type());
	SAME(a, a0, true, "left factor modified");
	SAME(b, b0, true, "right factor modified");
	if (base.defined() && (how == 1 || how == 3))
	{
		// elements around the output are untouched
		add.fill_(99.);
		PROP(base.eq(99.).all().item().toBool(), "wrote outside of the output");
	}
}
FACET(defaults, 1)
{
	auto v = gen_val(c);
	IL A{c.range(1, 4), c.range(1, 4), c.range(1, 4)}, B{A[1], c.range(1, 4), A[0]};
	auto f = gen_filler(c);
	auto a = fill(f, A, v), b = fill(f, B, v), c0 = fill(f, {A[2], B[1]}, v);
	auto ab = torch::tensordot(a, b, {0, 1}, {2, 0});
	c.nontrivial(maxabs(ab) > 0 && ab.numel() > 1);
	auto o = c0.clone();
	SAME(tensorgdot(c0, a, b, {0, 1}, {2, 0}), c0 + ab, exact(v));
	tensorgdot_(o, a, b, {0, 1}, {2, 0});
	SAME(o, c0 + ab, exact(v));
	auto beta = gen_coef(c, v);
	c.note([&] { return cat(a.sizes(), b.sizes(), " beta ", beta.toComplexDouble()); });
	SAME(tensorgdot(c0, a, b, {0, 1}, {2, 0}, beta), c0 * beta + ab, exact(v));
}
FACET(trailing_dimensions, 2)
{
	auto v = gen_val(c);
	int64_t k = c.range(0, 3);
	IL A, B, O;
	auto na = c.range(0, 2), nb = c.range(0, 2);
	for (int64_t i = 0; i < na; ++i) A.push_back(c.range(1, 4)), O.push_back(A.back());
	for (int64_t i = 0; i < k; ++i) A.push_back(c.range(1, 3)), B.push_back(A.back());
	for (int64_t i = 0; i < nb; ++i) B.push_back(c.range(1, 4)), O.push_back(B.back());
	auto f = gen_filler(c);
	auto a0 = fill(f, A, v), b0 = fill(f, B, v), c0 = fill(f, O, v);
	IL da, db;
	for (int64_t i = 0; i < k; ++i) da.push_back(na + i), db.push_back(i);
	auto ab = torch::tensordot(a0, b0, da, db);
	auto beta = gen_coef(c, v), alpha = gen_coef(c, v);
	auto a = relayout(c, a0), b = relayout(c, b0);
	Tensor base;
	auto add = relayout(c, c0, &base);
	c.note([&] {
		return cat("A ", a.sizes(), a.strides(), " B ", b.sizes(), b.strides(), " dims ", k, " C ", add.sizes(), add.strides(), " beta ", beta.toComplexDouble(), " alpha ",
		           alpha.toComplexDouble());
	});
	c.nontrivial(ab.numel() > 1 && maxabs(ab * alpha) > 0);
	auto &q = tensorgdot_(add, a, b, int(k), beta, alpha);
	PROP(&q == &add);
	SAME(add, c0 * beta + ab * alpha, exact(v));
	SAME(a, a0, true, "left factor modified");
	SAME(b, b0, true, "right factor modified");
}
FACET(rejected, 1)
{
	// a contraction or an output of the wrong shape is refused and the output is left alone
	IL A{c.range(1, 4), c.range(2, 4)}, B{c.range(2, 4), c.range(1, 4)};
	auto f = gen_filler(c);
	auto a = fill(f, A, Val::ints), b = fill(f, B, Val::ints);
	bool badcon = A[1] != B[0];
	IL O{A[0], B[1]};
	bool badout = !badcon;
	if (badout) O[c.draw(2)] += 1;
	auto o = fill(f, O, Val::ints), keep = o.clone();
	c.note([&] { return cat(a.sizes(), b.sizes(), o.sizes()); });
	c.nontrivial();
	MUST_THROW(tensorgdot(o, a, b, {1}, {0}));
	MUST_THROW(tensorgdot_(o, a, b, {1}, {0}));
	MUST_THROW(tensorgdot_(o, a, b, 1));
	MUST_THROW(tensorgdot_(o, a, b, {1}, {}));
	auto o2 = o.clone();
	MUST_THROW(tensorgdot_out(o2, o, a, b, {1}, {0}));
	SAME(o, keep, true, "modified by a refused contraction");
}
