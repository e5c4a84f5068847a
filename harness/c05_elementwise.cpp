// C05: elementwise and broadcast arithmetic on block tensors agrees with dense tensors.
#include "gen_bt.h"
#include <optional>
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 0-4 over 7 group types with random missing blocks; non-trivial when an operand has at least two sections in "
    "some dimension, at least one allowed block holds a non-zero value, and the result has at least one stored block";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 6000000;
std::vector<std::string> pbt::assumptions = {"both operands have the same element type in additions and in-place operations",
                                             "quotients and comparisons are defined on the blocks stored by both operands, and are zero elsewhere"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;

// 1 where a block is stored
static Tensor stored(const btensor &t, const Spec &s)
{
	auto m = torch::zeros(full_sizes(s), torch::kFloat64);
	for (auto &b : t) sub_block(m, block_offsets(s, b.first), block_sizes(s, b.first)).fill_(1);
	return m;
}
static Val gen_number(Case &c)
{
	auto v = gen_val(c);
	return v == Val::i64 ? Val::ints : v; // the integers are in the facets about scalar types
}
static bool interesting(const BT &a)
{
	bool multi = false;
	for (auto &d : a.s.dims) multi |= d.size() > 1;
	return multi && maxabs(a.d) > 0;
}
static torch::Scalar gen_scalar(Case &c, Val v, bool nonzero = false)
{
	if (is_cplx(v))
		if (c.flip()) return torch::Scalar(c10::complex<double>(double(c.around(2)) + (nonzero ? 0.5 : 0.), double(c.around(2))));
	double x = double(c.around(3));
	if (c.chance(1, 4)) x += 0.5;
	if (nonzero && x == 0) x = 2;
	if (v != Val::f32 && c.flip() && x == std::floor(x)) return torch::Scalar(int64_t(x));
	return torch::Scalar(x);
}
static BT same_shape(Case &c, const BT &a) { return gen_tensor(c, a.s, a.v); }
static BT clone(const BT &a)
{
	BT r{a.s, make_shape(a.s, dtype(a.v)), a.d.clone(), a.v};
	for (auto &b : a.t) r.t.block(b.first) = b.second.clone();
	return r;
}
#define RESULT(t, spec, want, ex, ...)                  \
	do                                                  \
	{                                                   \
		auto &&rs_ = (t);                               \
		VALID(rs_, #t " ", ##__VA_ARGS__);              \
		HAS_SPEC(rs_, spec, #t " ", ##__VA_ARGS__);     \
		SAME(dense_of(rs_), want, ex, #t " ", ##__VA_ARGS__); \
		SAME(rs_.to_dense(), want, ex, "to_dense of " #t " ", ##__VA_ARGS__); \
		for (auto &bl_ : rs_)                           \
			PROP(bl_.second.scalar_type() == torch::typeMetaToScalarType(rs_.options().dtype()), "element type of " #t " ", ##__VA_ARGS__); \
	} while (0)

FACET(addition, 4)
{
	auto kind = gen_kind(c);
	auto a = gen_bt(c, kind, c.range(0, 4), gen_number(c));
	auto b = same_shape(c, a);
	auto how = c.draw(14);
	torch::Scalar al = how >= 6 ? torch::Scalar(int64_t(1)) : gen_scalar(c, a.v);
	bool sub = how % 2;
	c.note([&] { return cat(str(a), " and ", str(b), " variant ", how, " alpha ", c10::toString(al.type()), al.toComplexDouble()); });
	c.nontrivial(interesting(a) && maxabs(b.d) > 0);
	auto want = sub ? a.d.sub(b.d, al) : a.d.add(b.d, al);
	btensor bt2 = clone(b).t;
	btensor *ret = nullptr;
	btensor r;
	switch (how)
	{
	case 0: r = a.t.add(b.t, al); break;
	case 1: r = a.t.sub(b.t, al); break;
	case 2: r = a.t.add(std::move(bt2), al); break;
	case 3: r = c.flip() ? a.t.sub(std::move(bt2), al) : a.t.subtract(b.t, al); break;
	case 4: ret = c.flip() ? &a.t.add_(b.t, al) : &a.t.add_(std::move(bt2), al); break;
	case 5: ret = c.flip() ? &a.t.sub_(b.t, al) : c.flip() ? &a.t.sub_(std::move(bt2), al) : &a.t.subtract_(b.t, al); break;
	case 6:
	case 8: r = a.t + b.t; break;
	case 7:
	case 9: r = a.t - b.t; break;
	case 10: ret = &(a.t += b.t); break;
	case 11: ret = &(a.t -= b.t); break;
	case 12: ret = &(a.t += std::move(bt2)); break;
	default: ret = &(a.t -= std::move(bt2)); break;
	}
	if (ret)
	{
		PROP(ret == &a.t);
		r = a.t;
	}
	RESULT(r, a.s, want, exact(a.v));
}
FACET(addition_self, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), gen_number(c));
	auto al = gen_scalar(c, a.v);
	c.nontrivial(interesting(a));
	c.note([&] { return str(a); });
	auto want = a.d.add(a.d, al);
	RESULT(a.t.add(a.t, al), a.s, want, exact(a.v));
	RESULT(a.t - a.t, a.s, torch::zeros_like(a.d), exact(a.v));
	auto b = clone(a);
	b.t.add_(b.t, al);
	RESULT(b.t, a.s, want, exact(a.v), "adding a tensor to itself in place");
}
FACET(addition_scalar, 2)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), gen_number(c));
	bool sub = c.flip();
	auto v = gen_scalar(c, a.v), al = gen_scalar(c, a.v);
	bool use_alpha = c.flip();
	if (!use_alpha) al = torch::Scalar(int64_t(1));
	c.note([&] { return cat(str(a), " value ", v.toComplexDouble(), " alpha ", al.toComplexDouble(), sub ? " sub" : " add"); });
	c.nontrivial(interesting(a));
	auto cv = v.toComplexDouble() * al.toComplexDouble();
	auto shift = a.d.is_complex() ? torch::Scalar(cv) : torch::Scalar(cv.real());
	auto m = mask(a.s).to(a.d.scalar_type());
	auto want = sub ? a.d - m * shift : a.d + m * shift;
	auto b = clone(a);
	btensor r, *ret;
	if (use_alpha)
	{
		r = sub ? a.t.sub(v, al) : a.t.add(v, al);
		ret = sub ? &b.t.sub_(v, al) : &b.t.add_(v, al);
	}
	else
	{
		r = sub ? a.t.sub(v) : a.t.add(v);
		ret = sub ? &(b.t -= v) : &(b.t += v);
	}
	RESULT(r, a.s, want, exact(a.v));
	PROP(ret == &b.t);
	RESULT(b.t, a.s, want, exact(a.v), "in place");
}
// a second operand that broadcasts against the first one
struct Pair
{
	BT a, b;
	Spec out;
};
static Dim prod_dim(int kind, const Dim &x, const Dim &y)
{
	auto &big = x.size() == 1 && x[0].size == 1 ? y : x;
	Dim o = big;
	for (size_t i = 0; i < o.size(); ++i) o[i].q = qadd(kind, x[std::min(i, x.size() - 1)].q, y[std::min(i, y.size() - 1)].q);
	return o;
}
static Pair gen_pair(Case &c, Val va, Val vb, bool inplace)
{
	auto kind = gen_kind(c);
	size_t rl = c.range(0, 4), rs = c.range(0, rl);
	if (c.flip()) rs = rl;
	Spec l, s;
	l.kind = s.kind = kind;
	for (size_t i = 0; i < rl; ++i) l.dims.push_back(gen_dim(c, kind));
	for (size_t i = 0; i < rs; ++i)
	{
		auto &d = l.dims[rl - rs + i];
		Dim o = d;
		switch (c.weighted({4, 2, inplace && rl != rs ? 0u : 1u}))
		{
		case 0:
			if (c.flip())
				for (auto &x : o) x.q = gen_q(c, kind);
			break;
		case 1: o = {Sec{1, gen_q(c, kind)}}; break;
		default:
			o = gen_dim(c, kind);
			d = {Sec{1, gen_q(c, kind)}};
		}
		s.dims.push_back(o);
	}
	l.sel = gen_sel(c, l);
	s.sel = gen_sel(c, s);
	bool swapped = !inplace && c.flip();
	auto &A = swapped ? s : l;
	auto &B = swapped ? l : s;
	Pair p{gen_tensor(c, A, va), gen_tensor(c, B, vb), {}};
	p.out = l;
	for (size_t i = 0; i < rs; ++i) p.out.dims[rl - rs + i] = prod_dim(kind, l.dims[rl - rs + i], s.dims[i]);
	p.out.sel = qadd(kind, l.sel, s.sel);
	return p;
}
static void note_pair(Case &c, const Pair &p)
{
	c.note([&] { return cat(str(p.a), "  with  ", str(p.b)); });
	c.nontrivial((interesting(p.a) || interesting(p.b)) && maxabs(p.a.d) > 0 && maxabs(p.b.d) > 0);
	if (p.a.s.rank() != p.b.s.rank()) c.label("different ranks");
}
FACET(product, 4)
{
	auto va = gen_number(c);
	auto vb = va;
	auto p = gen_pair(c, va, vb, false);
	note_pair(c, p);
	auto want = p.a.d * p.b.d;
	RESULT(c.flip() ? p.a.t.mul(p.b.t) : p.a.t * p.b.t, p.out, want, exact(va));
}
FACET(sum_mixed_types, 2)
{
	auto va = gen_number(c), vb = gen_number(c);
	auto s = gen_spec(c, gen_kind(c), c.range(0, 4), Lim{2, 2, 2});
	auto a = gen_tensor(c, s, va), b = gen_tensor(c, s, vb);
	c.note([&] { return cat(str(a), "  with  ", str(b)); });
	c.nontrivial(maxabs(a.d) > 0 && maxabs(b.d) > 0);
	auto sa = snap(a.t), sb = snap(b.t);
	bool ex = exact(va) && exact(vb), sub = c.flip();
	auto want = sub ? a.d - b.d : a.d + b.d;
	auto check = [&](const btensor &r) {
		RESULT(r, s, want, ex);
		for (auto &x : r) PROP(x.second.scalar_type() == want.scalar_type(), "blocks have the type of the sum");
		if (stored(a.t, s).numel() && (a.t.begin() != a.t.end())) PROP(r.options().dtype() == torch::scalarTypeToTypeMeta(want.scalar_type()));
	};
	check(sub ? a.t - b.t : a.t + b.t);
	check(sub ? a.t.sub(btensor(b.t)) : a.t.add(btensor(b.t)));
	UNCHANGED(sa, a.t);
	UNCHANGED(sb, b.t);
	if (torch::promote_types(dtype(va), dtype(vb)) == dtype(va))
	{
		if (c.flip()) (void)(sub ? a.t.sub_(b.t) : a.t.add_(b.t));
		else (void)(sub ? a.t.sub_(btensor(b.t)) : a.t.add_(btensor(b.t)));
		check(a.t);
		UNCHANGED(sb, b.t);
	}
}
FACET(product_mixed_types, 1)
{
	auto va = gen_number(c), vb = gen_number(c);
	auto p = gen_pair(c, va, vb, false);
	note_pair(c, p);
	auto want = p.a.d * p.b.d;
	auto r = p.a.t.mul(p.b.t);
	RESULT(r, p.out, want, exact(va) && exact(vb));
	if (r.begin() != r.end()) PROP(r.begin()->second.scalar_type() == want.scalar_type());
}
FACET(product_in_place, 3)
{
	auto va = gen_number(c);
	auto p = gen_pair(c, va, va, true);
	note_pair(c, p);
	auto want = p.a.d * p.b.d;
	auto &r = c.flip() ? p.a.t.mul_(p.b.t) : (p.a.t *= p.b.t);
	PROP(&r == &p.a.t);
	RESULT(p.a.t, p.out, want, exact(va));
}
// shift the stored values away from zero
static void away_from_zero(BT &b)
{
	for (auto &x : b.t) x.second = torch::where(x.second.abs().to(torch::kFloat64) < 0.25, x.second + 2, x.second);
	b.d = dense_of(b.t).to(dtype(b.v)).reshape(full_sizes(b.s));
}
FACET(quotient, 3)
{
	auto v = gen_number(c);
	bool inplace = c.flip();
	auto p = gen_pair(c, v, v, inplace);
	note_pair(c, p);
	away_from_zero(p.b);
	auto m = (stored(p.a.t, p.a.s) * stored(p.b.t, p.b.s)) > 0;
	auto den = torch::where(p.b.d.abs().to(torch::kFloat64) == 0, torch::ones_like(p.b.d), p.b.d);
	auto q = p.a.d / den;
	auto want = torch::where(m, q, torch::zeros_like(q));
	if (inplace)
	{
		auto &r = c.flip() ? p.a.t.div_(p.b.t) : (p.a.t /= p.b.t);
		PROP(&r == &p.a.t);
		RESULT(p.a.t, p.out, want, false);
	}
	else
		RESULT(c.flip() ? p.a.t.div(p.b.t) : p.a.t / p.b.t, p.out, want, false);
}
FACET(power, 2)
{
	Val v = c.flip() ? Val::ints : Val::f32;
	bool inplace = c.flip();
	auto p = gen_pair(c, v, v, inplace);
	note_pair(c, p);
	for (auto &x : p.b.t) x.second = x.second.abs();
	p.b.d = p.b.d.abs();
	auto m = (stored(p.a.t, p.a.s) * stored(p.b.t, p.b.s)) > 0;
	auto q = p.a.d.pow(p.b.d);
	auto want = torch::where(m, q, torch::zeros_like(q));
	if (inplace)
	{
		auto &r = c.flip() ? p.a.t.pow_(p.b.t) : pow_(p.a.t, p.b.t);
		PROP(&r == &p.a.t);
		RESULT(p.a.t, p.out, want, false);
	}
	else
		RESULT(c.flip() ? p.a.t.pow(p.b.t) : pow(p.a.t, p.b.t), p.out, want, false);
}
FACET(comparison, 3)
{
	auto v = c.pick(std::vector<Val>{Val::ints, Val::real, Val::f32});
	auto p = gen_pair(c, v, v, false);
	note_pair(c, p);
	auto m = (stored(p.a.t, p.a.s) * stored(p.b.t, p.b.s)) > 0;
	Tensor q;
	btensor r;
	bool f = c.flip(), o = c.flip();
	auto &a = p.a.t;
	auto &b = p.b.t;
	auto k = c.draw(6);
	switch (k)
	{
	case 0: q = p.a.d.ge(p.b.d); r = f ? a.ge(b) : o ? ge(a, b) : a >= b; break;
	case 1: q = p.a.d.le(p.b.d); r = f ? a.le(b) : o ? le(a, b) : a <= b; break;
	case 2: q = p.a.d.less(p.b.d); r = f ? a.less(b) : o ? less(a, b) : a < b; break;
	case 3: q = p.a.d.greater(p.b.d); r = f ? a.greater(b) : o ? greater(a, b) : a > b; break;
	case 4: q = p.a.d.eq(p.b.d); r = f ? a.eq(b) : o ? eq(a, b) : a == b; break;
	default: q = p.a.d.not_equal(p.b.d); r = f ? a.not_equal(b) : o ? not_equal(a, b) : a != b; break;
	}
	auto want = torch::logical_and(q, m);
	RESULT(r, p.out, want.to(torch::kFloat64), true, "comparison ", k);
	for (auto &x : r) PROP(x.second.scalar_type() == torch::kBool);
	PROP(torch::typeMetaToScalarType(r.options().dtype()) == torch::kBool);
}
FACET(comparison_scalar, 2)
{
	auto v = c.pick(std::vector<Val>{Val::ints, Val::real, Val::f32});
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), v);
	auto s = gen_scalar(c, v);
	c.note([&] { return cat(str(a), " value ", s.toDouble()); });
	c.nontrivial(interesting(a));
	auto m = stored(a.t, a.s) > 0;
	Tensor q;
	btensor r;
	auto how = c.draw(4);
	auto k = c.draw(6);
	auto &t = a.t;
#define CMP(meth, rev, sym)                                                                                                         \
	q = how < 2 ? a.d.meth(s) : a.d.rev(s), r = how == 0 ? (c.flip() ? t.meth(s) : meth(t, s)) : how == 1 ? t sym s : how == 2 ? meth(s, t) : s sym t
	switch (k)
	{
	case 0: CMP(ge, le, >=); break;
	case 1: CMP(le, ge, <=); break;
	case 2: CMP(less, greater, <); break;
	case 3: CMP(greater, less, >); break;
	case 4: CMP(eq, eq, ==); break;
	default: CMP(not_equal, not_equal, !=); break;
	}
	auto want = torch::logical_and(q, m);
	RESULT(r, a.s, want.to(torch::kFloat64), true, "comparison ", k, " variant ", how);
	for (auto &x : r) PROP(x.second.scalar_type() == torch::kBool);
}
FACET(scale, 2)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 4), gen_number(c));
	auto s = gen_scalar(c, a.v, true);
	c.note([&] { return cat(str(a), " factor ", s.toComplexDouble()); });
	c.nontrivial(interesting(a));
	auto b = clone(a);
	switch (c.draw(6))
	{
	case 0: RESULT(c.flip() ? a.t.mul(s) : a.t.multiply(s), a.s, a.d * s, exact(a.v)); break;
	case 1: RESULT(c.flip() ? a.t * s : s * a.t, a.s, a.d * s, exact(a.v)); break;
	case 2:
	{
		auto &r = c.flip() ? b.t.mul_(s) : c.flip() ? (b.t *= s) : b.t.multiply_(s);
		PROP(&r == &b.t);
		RESULT(b.t, a.s, a.d * s, exact(a.v));
		break;
	}
	case 3: RESULT(c.flip() ? a.t.div(s) : a.t / s, a.s, a.d / s, false); break;
	case 4:
	{
		auto &r = c.flip() ? b.t.div_(s) : (b.t /= s);
		PROP(&r == &b.t);
		if (!same(dense_of(b.t), a.d / s, false, a.v == Val::f32 || a.v == Val::c64 ? 1e-6 : 1e-10)) c.fail("division in place " + tstr(dense_of(b.t)) + " vs " + tstr(a.d / s));
		break;
	}
	default:
	{
		const btensor &ca = a.t;
		RESULT(-a.t, a.s, -a.d, true);
		RESULT(-ca, a.s, -a.d, true);
	}
	}
}
FACET(scalar_quotient, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), gen_number(c));
	auto s = gen_scalar(c, a.v, true);
	c.note([&] { return cat(str(a), " numerator ", s.toComplexDouble()); });
	c.nontrivial(interesting(a));
	away_from_zero(a);
	auto m = stored(a.t, a.s) > 0;
	auto den = torch::where(m, a.d, torch::ones_like(a.d));
	Tensor q = s / den;
	auto want = torch::where(m, q, torch::zeros_like(q));
	RESULT(s / a.t, a.s, want, false);
}
FACET(unary, 3)
{
	auto v = gen_number(c);
	auto a = gen_bt(c, gen_kind(c), c.range(0, 4), v);
	c.note([&] { return str(a); });
	c.nontrivial(interesting(a));
	auto b = clone(a);
	switch (c.draw(5))
	{
	case 0:
	{
		for (auto &x : a.t) x.second = x.second * x.second.conj();
		for (auto &x : b.t) x.second = x.second * x.second.conj();
		auto d = (a.d * a.d.conj()).sqrt();
		RESULT(c.flip() ? a.t.sqrt() : sqrt(a.t), a.s, d, false);
		auto &r = c.flip() ? b.t.sqrt_() : sqrt_(b.t);
		PROP(&r == &b.t);
		RESULT(b.t, a.s, d, false);
		break;
	}
	case 1:
	{
		RESULT(a.t.abs(), a.s, a.d.abs(), false);
		if (!a.d.is_complex())
		{
			auto &r = b.t.abs_();
			PROP(&r == &b.t);
			RESULT(b.t, a.s, a.d.abs(), false);
		}
		break;
	}
	case 2:
	{
		auto p = torch::Scalar(c.range(1, 3));
		if (c.flip()) p = torch::Scalar(double(p.toDouble()));
		RESULT(c.flip() ? a.t.pow(p) : pow(a.t, p), a.s, a.d.pow(p), false);
		auto &r = c.flip() ? b.t.pow_(p) : pow_(b.t, p);
		PROP(&r == &b.t);
		RESULT(b.t, a.s, a.d.pow(p), false);
		break;
	}
	case 3:
	{
		auto s = c.flip() ? a.t.sum() : sum(a.t);
		VALID(s);
		PROP(s.dim() == 0);
		SAME(dense_of(s), a.d.sum(), exact(v));
		PROP(std::abs(std::complex<double>(s.item().toComplexDouble()) - std::complex<double>(a.d.sum().item().toComplexDouble())) < 1e-9);
		break;
	}
	default:
	{
		SAME(a.t.to_dense(), a.d, true);
		auto sz = a.t.sizes();
		PROP(sz == full_sizes(a.s));
	}
	}
}
FACET(truth_and_nan, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), c.pick(std::vector<Val>{Val::ints, Val::real, Val::f32}));
	c.note([&] { return str(a); });
	c.nontrivial(interesting(a));
	size_t nb = a.t.end() - a.t.begin();
	size_t which = nb ? c.draw(nb) : 0;
	bool nan = c.flip();
	if (nan && nb)
	{
		auto f = (a.t.begin() + which)->second.reshape({-1}).clone();
		f[(int64_t)c.draw(f.numel())] = std::nan("");
		auto it = a.t.begin() + which;
		it->second = f.reshape(it->second.sizes());
	}
	auto d = dense_of(a.t);
	PROP(a.t.anynan() == d.isnan().any().item().toBool());
	auto n = a.t.isnan();
	RESULT(n, a.s, d.isnan().to(torch::kFloat64), true);
	auto tr = c.flip() ? n : c.flip() ? a.t > 3 : a.t != 0;
	auto any = tr.any();
	if (nb)
		PROP(any.item().toBool() == dense_of(tr).to(torch::kBool).any().item().toBool(), "any() of ", tstr(dense_of(tr)));
	else
		PROP(any.defined() && !any.item().toBool());
}
FACET(closeness, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), c.pick(std::vector<Val>{Val::ints, Val::real, Val::cplx}));
	auto b = clone(a);
	c.note([&] { return str(a); });
	c.nontrivial(interesting(a));
	// zero blocks may be stored or not
	for (auto &x : allowed_blocks(a.s))
		if (!b.t.blocks().contains(x) && c.flip()) b.t.block(x) = torch::zeros(block_sizes(a.s, x), dtype(a.v));
	size_t nb = b.t.end() - b.t.begin();
	double eps = c.pick(std::vector<double>{0, 1e-12, 1e-3, 1.});
	if (nb && c.flip())
	{
		auto it = b.t.begin() + c.draw(nb);
		auto f = it->second.reshape({-1}).clone();
		f[(int64_t)c.draw(f.numel())] += eps;
		it->second = f.reshape(it->second.sizes());
	}
	auto db = dense_of(b.t).to(dtype(a.v)).reshape(full_sizes(a.s));
	PROP(allclose(a.t, b.t) == torch::allclose(a.d, db), "allclose of ", tstr(a.d), " and ", tstr(db));
	PROP(allclose(b.t, a.t) == torch::allclose(db, a.d), "allclose of ", tstr(db), " and ", tstr(a.d));
	PROP(allclose(a.t, b.t, 1., 0.) == torch::allclose(a.d, db, 1., 0.));
	PROP(allclose(b.t, a.t, 1., 0.) == torch::allclose(db, a.d, 1., 0.));
	PROP(allclose(a.t, b.t, 0, 1e-2) == torch::allclose(a.d, db, 0, 1e-2));
}
FACET(product_self, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), gen_number(c));
	c.note([&] { return str(a); });
	c.nontrivial(interesting(a));
	auto spec = a.s;
	spec.sel = qadd(spec.kind, spec.sel, spec.sel);
	for (auto &d : spec.dims)
		for (auto &x : d) x.q = qadd(spec.kind, x.q, x.q);
	auto want = a.d * a.d;
	RESULT(a.t.mul(a.t), spec, want, exact(a.v));
	a.t.mul_(a.t);
	RESULT(a.t, spec, want, exact(a.v));
}
FACET(conversion, 1)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 4), c.pick(std::vector<Val>{Val::ints, Val::real, Val::f32, Val::cplx}));
	c.note([&] { return str(a); });
	c.nontrivial(interesting(a));
	bool cplx = a.d.is_complex();
	auto to = cplx ? torch::kComplexDouble : c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble, torch::kInt64});
	auto before = snap(a.t);
	auto want = a.d.to(to);
	btensor r;
	int how = (int)c.draw(7);
	switch (how)
	{
	case 0: r = a.t.to(to); break;
	case 1: r = a.t.to(torch::TensorOptions().dtype(to)); break;
	case 2: r = a.t.to(torch::Device(torch::kCPU), to); break;
	case 3: r = a.t.to(torch::scalarTypeToTypeMeta(to)); break;
	case 4: r = a.t.to(torch::empty({2}, torch::TensorOptions().dtype(to))); break;
	case 5: {
		auto o = make_shape(gen_bt(c, gen_kind(c), c.range(0, 2), Val::real).s, to);
		r = a.t.to(o);
		break;
	}
	default: // what is not asked for stays
		r = a.t.to(torch::TensorOptions().requires_grad(false));
		want = a.d;
		to = a.d.scalar_type();
	}
	PROP(torch::typeMetaToScalarType(r.options().dtype()) == to, "converted to ", r.options().dtype(), " instead of ", to, ", variant ", how);
	RESULT(r, a.s, want, true, "variant ", how);
	UNCHANGED(before, a.t);
}
// ------------------------------------------------------------ every scalar type
// the same tensor with elements of another type; the values are non-zero where a block is stored if asked for
static const std::vector<torch::ScalarType> &all_types()
{
	static const std::vector<torch::ScalarType> t{torch::kFloat64, torch::kFloat32, torch::kInt64, torch::kInt32, torch::kInt8, torch::kUInt8, torch::kInt16, torch::kBool, torch::kComplexDouble, torch::kComplexFloat};
	return t;
}
static void retype(Case &c, BT &a, torch::ScalarType ty, bool positive)
{
	bool z = torch::isComplexType(ty), half = !z && torch::isFloatingType(ty) && c.flip();
	btensor t = make_shape(a.s, ty);
	a.d = torch::zeros(full_sizes(a.s), ty);
	for (auto &b : a.t)
	{
		auto x = torch::real(b.second).to(torch::kFloat64).round();
		if (positive) x = x.abs() % 3 + 1;
		if (half) x = x + 0.5;
		Tensor y = z ? torch::complex(x, (x * 2 + 1).remainder(3)) : x;
		y = y.to(ty);
		sub_block(a.d, block_offsets(a.s, b.first), block_sizes(a.s, b.first)).copy_(y);
		t.block(b.first) = y;
	}
	a.t = t;
}
static bool low_precision_input;
static btensor own_copy(const btensor &t)
{
	btensor r = t;
	for (auto &b : r) b.second = b.second.clone();
	return r;
}
static double type_tol(const Tensor &x)
{
	auto t = x.scalar_type();
	return low_precision_input || t == torch::kFloat32 || t == torch::kComplexFloat ? 1e-5 : 1e-10;
}
#define TYPED(t, spec, want, what)                                                                                                      \
	do                                                                                                                              \
	{                                                                                                                               \
		const btensor &tt_ = (t);                                                                                               \
		const Tensor tw_ = (want);                                                                                              \
		VALID(tt_, what);                                                                                                       \
		HAS_SPEC(tt_, spec, what);                                                                                              \
		auto td_ = tt_.to_dense();                                                                                              \
		PROP(torch::typeMetaToScalarType(tt_.options().dtype()) == tw_.scalar_type(), what, " has type ",                       \
		     c10::toString(torch::typeMetaToScalarType(tt_.options().dtype())), " instead of ", c10::toString(tw_.scalar_type())); \
		for (auto &bl_ : tt_)                                                                                                   \
			PROP(bl_.second.scalar_type() == tw_.scalar_type(), what, " has a block of type ", c10::toString(bl_.second.scalar_type()), \
			     " instead of ", c10::toString(tw_.scalar_type()));                                                         \
		PROP(td_.scalar_type() == tw_.scalar_type(), what, " is made dense with type ", c10::toString(td_.scalar_type()));       \
		if (!same(dense_of(tt_), tw_, false, type_tol(tw_)) || !same(td_, tw_, false, type_tol(tw_)))                            \
			c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", what, ": ", gen::tstr(td_), " != ", gen::tstr(tw_)));              \
	} while (0)
template <class F>
static std::optional<Tensor> attempt(F &&f)
{
	try
	{
		return f();
	}
	catch (const std::exception &)
	{
		return std::nullopt;
	}
}
static const char *const bin_name[] = {"mul", "div", "pow", "lt", "le", "gt", "ge", "eq", "ne", "add", "sub"};
FACET(types_of_pairs, 3)
{
	low_precision_input = false;
	auto ta = c.pick(all_types()), tb = c.pick(all_types());
	auto op = c.draw(11);
	if (op == 10 && (ta == torch::kBool || tb == torch::kBool)) op = 9; // torch has no subtraction of booleans
	bool inplace = c.chance(1, 3) && (op < 3 || op > 8);
	auto p = gen_pair(c, Val::ints, Val::ints, inplace);
	bool moved = false;
	torch::Scalar alpha = 1;
	if (op > 8) // no broadcast in sums
	{
		moved = c.flip();
		if (c.flip()) alpha = c.pick(std::vector<torch::Scalar>{2, -1, 3, 0, 0.5, 0.1, torch::Scalar(c10::complex<double>(0, 1))});
		p.b = gen_tensor(c, p.a.s, Val::ints);
		p.out = p.a.s;
	}
	retype(c, p.a, ta, op == 2);
	retype(c, p.b, tb, op == 1 || op == 2);
	c.note([&] { return cat(bin_name[op], inplace ? "_ " : " ", c10::toString(ta), " ", c10::toString(tb), " factor ", alpha.toComplexDouble().real(), " ", str(p.a), "  with  ", str(p.b)); });
	c.nontrivial(ta != tb && maxabs(p.a.d) > 0 && maxabs(p.b.d) > 0);
	auto both = op > 8 ? mask(p.out) > 0 : (stored(p.a.t, p.a.s) * stored(p.b.t, p.b.s)) > 0;
	// where a block is missing the elements don't take part in the operation
	auto den = op > 8 ? p.b.d : torch::where(stored(p.b.t, p.b.s) > 0, p.b.d, torch::ones_like(p.b.d));
	auto dense = [&](const Tensor &a, const Tensor &b) {
		switch (op)
		{
		case 0: return a.mul(b);
		case 1: return a.div(b);
		case 2: return a.pow(b);
		case 3: return a.less(b);
		case 4: return a.le(b);
		case 5: return a.greater(b);
		case 6: return a.ge(b);
		case 7: return a.eq(b);
		case 8: return a.not_equal(b);
		case 9: return a.add(b, alpha);
		default: return a.sub(b, alpha);
		}
	};
	auto block = [&](const btensor &a, const btensor &b) {
		switch (op)
		{
		case 0: return a.mul(b);
		case 1: return a.div(b);
		case 2: return a.pow(b);
		case 3: return a.less(b);
		case 4: return a.le(b);
		case 5: return a.greater(b);
		case 6: return a.ge(b);
		case 7: return a.eq(b);
		case 8: return a.not_equal(b);
		case 9: return moved ? a.add(own_copy(b), alpha) : a.add(b, alpha);
		default: return moved ? a.sub(own_copy(b), alpha) : a.sub(b, alpha);
		}
	};
	auto q = attempt([&] { return dense(p.a.d, den); });
	Tensor want;
	if (q) want = torch::where(both, *q, torch::zeros_like(*q));
	auto sa = snap(p.a.t), sb = snap(p.b.t);
	bool some = both.any().item<bool>();
	if (!inplace)
	{
		if (!q)
		{
			if (some) MUST_THROW(block(p.a.t, p.b.t), "torch refuses ", bin_name[op]);
		}
		else
			TYPED(block(p.a.t, p.b.t), p.out, want, bin_name[op]);
		UNCHANGED(sa, p.a.t);
		UNCHANGED(sb, p.b.t);
		return;
	}
	auto in = [&]() -> btensor & {
		switch (op)
		{
		case 0: return p.a.t.mul_(p.b.t);
		case 1: return p.a.t.div_(p.b.t);
		case 2: return p.a.t.pow_(p.b.t);
		case 9: return moved ? p.a.t.add_(own_copy(p.b.t), alpha) : p.a.t.add_(p.b.t, alpha);
		default: return moved ? p.a.t.sub_(own_copy(p.b.t), alpha) : p.a.t.sub_(p.b.t, alpha);
		}
	};
	if (!q || !torch::can_cast(want.scalar_type(), ta))
	{
		if (!some || (op > 8 && p.a.t.begin() == p.a.t.end())) return;
		MUST_THROW(in(), "torch refuses ", bin_name[op], " in place");
		UNCHANGED(sa, p.a.t);
		UNCHANGED(sb, p.b.t);
		return;
	}
	if (op > 8 && p.a.t.begin() == p.a.t.end()) return; // a tensor without values takes the type of the sum
	auto &r = in();
	PROP(&r == &p.a.t);
	TYPED(p.a.t, p.out, want.to(ta), cat(bin_name[op], " in place"));
	UNCHANGED(sb, p.b.t);
}
FACET(types_with_scalars, 3)
{
	low_precision_input = false;
	auto ta = c.pick(all_types());
	static const std::vector<torch::Scalar> values{int64_t(2), int64_t(-3), int64_t(1), 0.5, -1.5, 2., true, c10::complex<double>(1, 2), c10::complex<double>(2, 0)};
	auto v = c.pick(values);
	auto op = c.draw(12);
	if (op == 10 && (ta == torch::kBool || v.isBoolean())) op = 9;
	torch::Scalar al = op > 8 && c.flip() ? c.pick(values) : torch::Scalar(int64_t(1));
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), Val::ints);
	retype(c, a, ta, op == 2 || op == 11);
	bool inplace = c.flip() && (op < 3 || op == 9 || op == 10);
	static const char *const name[] = {"mul", "div", "pow", "lt", "le", "gt", "ge", "eq", "ne", "add", "sub", "reversed div"};
	c.note([&] { return cat(name[op], inplace ? "_ " : " ", c10::toString(ta), " by ", c10::toString(v.type()), v.toComplexDouble(), " alpha ", c10::toString(al.type()), al.toComplexDouble(), " ", str(a)); });
	c.nontrivial(maxabs(a.d) > 0);
	auto st = stored(a.t, a.s) > 0;
	auto m = op == 9 || op == 10 ? mask(a.s) > 0 : st;
	auto den = op == 11 ? torch::where(st, a.d, torch::ones_like(a.d)) : a.d;
	auto run = [&](auto &x) -> std::decay_t<decltype(x)> {
		switch (op)
		{
		case 0: return inplace ? x.mul_(v) : x.mul(v);
		case 1: return inplace ? x.div_(v) : x.div(v);
		case 2: return inplace ? x.pow_(v) : x.pow(v);
		case 3: return x.less(v);
		case 4: return x.le(v);
		case 5: return x.greater(v);
		case 6: return x.ge(v);
		case 7: return x.eq(v);
		case 8: return x.not_equal(v);
		case 9: return inplace ? x.add_(v, al) : x.add(v, al);
		case 10: return inplace ? x.sub_(v, al) : x.sub(v, al);
		default:
			if constexpr (std::is_same_v<std::decay_t<decltype(x)>, Tensor>) return x.reciprocal().mul(v);
			else return v / x;
		}
	};
	auto q = attempt([&] {
		auto x = den.clone();
		return run(x);
	});
	auto sa = snap(a.t);
	if (!q)
	{
		if (m.any().item<bool>()) MUST_THROW(run(a.t), "torch refuses ", name[op]);
		UNCHANGED(sa, a.t);
		return;
	}
	auto want = torch::where(m, *q, torch::zeros_like(*q));
	auto r = run(a.t);
	low_precision_input = ta == torch::kFloat32 || ta == torch::kComplexFloat; // of the reference
	TYPED(r, a.s, want, name[op]);
	if (inplace)
		TYPED(a.t, a.s, want, name[op]);
	else
		UNCHANGED(sa, a.t);
}
FACET(truth_of_types, 1)
{
	low_precision_input = false;
	auto ta = c.pick(all_types());
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), Val::ints);
	retype(c, a, ta, false);
	if (c.flip()) // without any true element, maybe
		for (auto &b : a.t)
			if (c.chance(3, 4)) std::get<1>(b).zero_();
	auto d = dense_of(a.t);
	c.note([&] { return cat(c10::toString(ta), " ", str(a)); });
	c.nontrivial(stored(a.t, a.s).any().item<bool>());
	auto sa = snap(a.t);
	bool nan = d.isnan().any().item<bool>();
	PROP(a.t.anynan() == nan, "anynan of ", c10::toString(ta));
	PROP(!a.t.isnan().any().item<bool>() == !nan);
	if (auto q = attempt([&] { return d.any(); }))
	{
		auto r = a.t.any();
		PROP(r.dim() == 0 && r.item().toBool() == q->item().toBool(), "any of ", c10::toString(ta), " is ", tstr(r));
	}
	UNCHANGED(sa, a.t);
}
FACET(types_of_functions, 2)
{
	low_precision_input = false;
	auto ta = c.pick(all_types());
	auto op = c.draw(8);
	auto a = gen_bt(c, gen_kind(c), c.range(0, 3), Val::ints);
	retype(c, a, ta, op < 2);
	static const char *const name[] = {"sqrt", "sqrt_", "abs", "abs_", "sum", "isnan", "conj", "negation"};
	c.note([&] { return cat(name[op], " of ", c10::toString(ta), " ", str(a)); });
	c.nontrivial(maxabs(a.d) > 0);
	auto st = stored(a.t, a.s) > 0;
	auto dense = [&](Tensor x) {
		switch (op)
		{
		case 0: return x.sqrt();
		case 1: return x.sqrt_();
		case 2: return x.abs();
		case 3: return x.abs_();
		case 4: return x.sum();
		case 5: return x.isnan();
		case 6: return x.conj();
		default: return -x;
		}
	};
	auto block = [&](btensor &x) {
		switch (op)
		{
		case 0: return x.sqrt();
		case 1: return x.sqrt_();
		case 2: return x.abs();
		case 3: return x.abs_();
		case 4: return x.sum();
		case 5: return x.isnan();
		case 6: return x.conj();
		default: return -x;
		}
	};
	auto q = attempt([&] { return dense(a.d.clone()); });
	auto sa = snap(a.t);
	if (!q)
	{
		if (op == 7) return; // torch has no negation of booleans
		if (st.any().item<bool>()) MUST_THROW(block(a.t), "torch refuses ", name[op]);
		UNCHANGED(sa, a.t);
		return;
	}
	auto spec = a.s;
	if (op == 4)
	{
		spec.dims.clear();
		spec.sel = qzero(spec.kind);
	}
	if (op == 6)
	{
		for (auto &d : spec.dims)
			for (auto &x : d) x.q = qneg(spec.kind, x.q);
		spec.sel = qneg(spec.kind, spec.sel);
	}
	TYPED(block(a.t), spec, *q, name[op]);
	if (op != 1 && op != 3) UNCHANGED(sa, a.t);
	else TYPED(a.t, a.s, *q, name[op]);
}
