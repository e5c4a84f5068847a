// C11: operands are left alone, results do not depend on aliasing, in-place operations are their out-of-place form.
#include "model_la.h"
#include "tensorgdot.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 1-4 over 7 group types, every operation of the interface, with operands that are distinct, the same object, shallow copies or views of one another; "
    "then independent modification of results and operands; non-trivial when two blocks are stored in the operands together";
unsigned pbt::quick_cases = 250000, pbt::thorough_cases = 4000000;
std::vector<std::string> pbt::assumptions = {"in-place value changes are seen by shallow copies and views of the same tensor, as documented", "dense factorizations of libtorch do not modify their argument"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;
static size_t stored(const btensor &t) { return t.end() - t.begin(); }
static Tensor plain(const Tensor &t)
{
	auto x = t.is_complex() ? torch::view_as_real(t.to(torch::kComplexDouble).contiguous()) : t.to(torch::kFloat64);
	return torch::nan_to_num(x, 12345., 23456., -34567.);
}
static bool agree(const btensor &a, const btensor &b)
{
	auto x = dense_of(a), y = dense_of(b);
	return x.sizes() == y.sizes() && same(plain(x), plain(y), false, 1e-9);
}
static std::string differ(const btensor &a, const btensor &b)
{
	if (a.dim() != b.dim() || a.section_numbers() != b.section_numbers()) return "other sections";
	auto sa = snap(a), sb = snap(b);
	if (sa.sizes != sb.sizes) return "other section sizes";
	for (size_t i = 0; i < sa.q.size(); ++i)
		if (!(sa.q[i] == sb.q[i])) return "other charges";
	if (!(sa.sel == sb.sel)) return "another selection rule";
	if (!agree(a, b)) return cat("values ", tstr(dense_of(a)), " instead of ", tstr(dense_of(b)));
	return "";
}
#define SAME_AS(a, b, ...)                                                                   \
	do                                                                                       \
	{                                                                                        \
		auto df_ = differ(a, b);                                                             \
		if (df_ != "") c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", #a, " has ", df_, " ", ##__VA_ARGS__)); \
	} while (0)
using Bt = const btensor &;
using Out = std::vector<btensor>;
struct Op
{
	std::string name;
	bool fresh; // the result is new storage
	std::function<Out(Bt, Bt)> f;
};
// a modification of the values that is visible in every stored element
static void disturb(btensor &t, double by = 1)
{
	for (auto &b : t)
		if (b.second.numel()) b.second.copy_(b.second.scalar_type() == torch::kBool ? b.second.logical_not() : b.second + by);
}
struct World
{
	Case &c;
	int kind;
	Val v;
	BT a;
	btensor b; // second operand
	std::string alias = "distinct";
	std::string text;
};
// scalars, those for which an operation has nothing to do more often than others
static btensor::Scalar gen_scalar(Case &c)
{
	static const double values[] = {1, 0, 2, -1, 3, 0.5, 4, -2.5};
	auto v = values[c.draw(8)];
	if (v == int64_t(v) && c.flip()) return btensor::Scalar(int64_t(v));
	return btensor::Scalar(v);
}
// operations on one tensor
static Op unary(Case &c, const BT &a)
{
	auto s = gen_scalar(c), s2 = gen_scalar(c);
	int64_t r = a.t.dim();
	bool cplx = a.d.is_complex();
	switch (c.draw(24))
	{
	case 0: return {"mul(scalar)", true, [s, s2](Bt x, Bt) { return Out{x.mul(s)}; }};
	case 1: return {"div(scalar)", true, [s, s2](Bt x, Bt) { return Out{x.div(s)}; }};
	case 2: return {"add(scalar)", true, [s, s2](Bt x, Bt) { return Out{x.add(s)}; }};
	case 3: return {"sub(scalar)", true, [s, s2](Bt x, Bt) { return Out{x.sub(s, s2)}; }};
	case 4: return {"abs", true, [](Bt x, Bt) { return Out{x.abs()}; }};
	case 5: return {"pow(scalar)", true, [s, s2](Bt x, Bt) { return Out{x.pow(s)}; }};
	case 6: return {"sqrt", true, [](Bt x, Bt) { return Out{x.mul(x.conj()).sqrt(), x.sqrt()}; }};
	case 7: return {"sum", true, [](Bt x, Bt) { return Out{x.sum(), sum(x)}; }};
	case 8: return {"negation", true, [](Bt x, Bt) { return Out{-x, btensor(x).operator-()}; }};
	case 9: return {"inverse", true, [s, s2](Bt x, Bt) { return Out{s.toDouble() / x}; }};
	case 10:
		if (cplx) return {"eq(scalar)", true, [s, s2](Bt x, Bt) { return Out{x == s, x != s}; }};
		return {"comparison(scalar)", true, [s, s2](Bt x, Bt) { return Out{x > s, x < s, x >= s, x <= s, x == s, x != s, s.toDouble() > x}; }};
	case 11:
	{
		auto p = c.permutation(r);
		std::vector<int64_t> q(p.begin(), p.end());
		return {"permute", false, [q](Bt x, Bt) { return Out{x.permute(q)}; }};
	}
	case 12:
	{
		auto i = c.draw(r), j = c.draw(r);
		return {"transpose", false, [i, j](Bt x, Bt) { return Out{x.transpose(i, j)}; }};
	}
	case 13:
	{
		std::vector<int64_t> g;
		for (int64_t i = 1; i < r; ++i)
			if (c.flip()) g.push_back(i);
		return {"reshape", false, [g](Bt x, Bt) { return Out{x.reshape(torch::IntArrayRef(g))}; }};
	}
	case 14: return {"squeeze", false, [](Bt x, Bt) { return Out{x.squeeze(), squeeze(x)}; }};
	case 15: return {"conj", false, [](Bt x, Bt) { return Out{x.conj(), x.conj_only()}; }};
	case 16: return {"inverse_cvals", false, [](Bt x, Bt) { return Out{x.inverse_cvals(), inverse_cvals(x)}; }};
	case 17:
	{
		auto q = to_any(a.s.kind, gen_q(c, a.s.kind));
		auto d = c.draw(r);
		return {"cval_shift", false, [q, d](Bt x, Bt) { return Out{x.cval_shift(q, d)}; }};
	}
	case 18: return {"shapes", true, [s, s2](Bt x, Bt) { return Out{sparse_zeros_like(x).neutral_shape(), sparse_zeros_like(x), zeros_like(x), ones_like(x), full_like(x, s), x.tensor_product_shape(x)}; }};
	case 19:
	{
		auto ty = c.flip() ? torch::kFloat64 : torch::kComplexDouble;
		return {"to", false, [ty](Bt x, Bt) { return Out{x.to(ty)}; }};
	}
	case 20: return {"to with copy", true, [](Bt x, Bt) { return Out{x.to(x.options(), false, true)}; }};
	case 21:
	{
		size_t k = r == 1 ? c.draw(2) : c.range(1, r - 1);
		return {"svd", true, [k](Bt x, Bt) {
			        auto [u, d, w] = quantit::svd(x, k);
			        return Out{tensordot(u.mul(d), w.conj(), {u.dim() - 1}, {w.dim() - 1})};
		        }};
	}
	case 22:
	{
		size_t k = r == 1 ? c.draw(2) : c.range(1, r - 1);
		return {"truncated svd", true, [k](Bt x, Bt) {
			        auto [u, d, w] = quantit::svd(x, k, 1e-3, 1, 2);
			        return Out{d};
		        }};
	}
	default:
		return {"truth values", true, [](Bt x, Bt) {
			        x.isnan();
			        x.any();
			        x.anynan();
			        x.to_dense().fill_(17.);
			        return Out{};
		        }};
	}
}
// operations on two tensors of the same structure
static Op binary_same(Case &c, const BT &a)
{
	auto s = gen_scalar(c);
	bool cplx = a.d.is_complex();
	switch (c.draw(9))
	{
	case 0: return {"add", true, [](Bt x, Bt y) { return Out{x.add(y), x + y}; }};
	case 1: return {"add with alpha", true, [s](Bt x, Bt y) { return Out{x.add(y, s)}; }};
	case 2: return {"sub", true, [s](Bt x, Bt y) { return Out{x.sub(y), x - y, x.subtract(y, s)}; }};
	case 3: return {"mul", true, [](Bt x, Bt y) { return Out{x.mul(y), x * y}; }};
	case 4: return {"div", true, [](Bt x, Bt y) { return Out{x.div(y), x / y}; }};
	case 5: return {"pow", true, [](Bt x, Bt y) { return Out{x.pow(y)}; }};
	case 6:
		if (cplx) return {"eq", true, [](Bt x, Bt y) { return Out{x == y, x != y}; }};
		return {"comparison", true, [](Bt x, Bt y) { return Out{x > y, x < y, x >= y, x <= y, x == y, x != y}; }};
	case 7: return {"closeness", true, [](Bt x, Bt y) {
		                allclose(x, y);
		                return Out{};
	                }};
	default: return {"shape_from", true, [](Bt x, Bt y) { return Out{quantit::shape_from(x, y), x.tensor_product_shape(y)}; }};
	}
}
// operations on a tensor and another that has the conjugate structure on some dimensions
static Op contraction(Case &c, const BT &a)
{
	int64_t r = a.t.dim();
	auto n = c.range(0, r);
	auto p = c.permutation(r);
	std::vector<int64_t> d1(p.begin(), p.begin() + n);
	if (n == 0 && r > 2) d1 = {0};
	switch (c.draw(2))
	{
	case 0: return {"tensordot", true, [d1](Bt x, Bt y) { return Out{x.tensordot(y, d1, d1), tensordot(x, y, d1, d1)}; }};
	default: return {"squared norm", true, [](Bt x, Bt y) {
		                 std::vector<int64_t> all(x.dim());
		                 for (int64_t i = 0; i < x.dim(); ++i) all[i] = i;
		                 return Out{x.tensordot(y, all, all)};
	                 }};
	}
}
static Out deep(const Out &o)
{
	Out r;
	for (auto &x : o) r.push_back(m_deep(x));
	return r;
}

FACET(out_of_place, 6)
{
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : c.flip() ? Val::ints : Val::cplx;
	auto a = gen_bt(c, kind, c.range(1, 4), v, Lim{3, 2, 2});
	auto type = c.draw(3);
	// the second operand
	btensor own; // used when it is another object
	std::string alias;
	btensor conjugate;
	const btensor *x = &a.t, *y = nullptr;
	auto how = c.draw(4);
	Op op;
	if (type == 0)
	{
		op = unary(c, a);
		y = x;
	}
	else
	{
		if (type == 1)
		{
			op = binary_same(c, a);
			if (how == 0)
			{
				y = x;
				alias = "the same object";
			}
			else if (how == 1)
			{
				own = a.t;
				alias = "a shallow copy";
			}
			else if (how == 2)
			{
				// same structure only for conserved views: transposition twice of a copy
				own = a.t.transpose(0, a.t.dim() - 1).transpose(0, a.t.dim() - 1);
				alias = "a view";
			}
			else
				own = gen_tensor(c, a.s, v).t;
		}
		else
		{
			op = contraction(c, a);
			if (how < 2)
			{
				own = how ? a.t.conj() : a.t.inverse_cvals(); // shares the blocks
				alias = "sharing the blocks";
			}
			else
				own = gen_tensor(c, m_negated(a.s), v).t;
		}
		if (!y) y = &own;
	}
	c.note([&] { return cat(op.name, " of ", str(a), " and ", alias, tstr(a.d), tstr(dense_of(*y))); });
	// reference: on tensors that share nothing
	auto da = m_deep(*x), db = m_deep(*y);
	auto want = deep(op.f(da, db));
	auto sx = snap(*x), sy = snap(*y);
	auto got = op.f(*x, *y);
	UNCHANGED(sx, *x, op.name, " changed its first operand");
	UNCHANGED(sy, *y, op.name, " changed its second operand");
	UNCHANGED(sx, da, op.name, " changed its first operand (distinct)");
	UNCHANGED(sy, db, op.name, " changed its second operand (distinct)");
	PROP(got.size() == want.size());
	for (size_t i = 0; i < got.size(); ++i)
	{
		VALID(got[i], op.name);
		SAME_AS(got[i], want[i], op.name, " result ", i, " with aliased operands");
	}
	// again
	auto again = op.f(*x, *y);
	for (size_t i = 0; i < got.size(); ++i) SAME_AS(again[i], want[i], op.name, " applied again");
	if (op.fresh)
	{
		for (auto &g : got) disturb(g, 2);
		UNCHANGED(sx, *x, op.name, ": modifying the result changed the first operand");
		UNCHANGED(sy, *y, op.name, ": modifying the result changed the second operand");
		for (size_t i = 0; i < got.size(); ++i) SAME_AS(again[i], want[i], op.name, ": modifying a result changed another");
		disturb(a.t);
		if (y != x) disturb(own);
		for (size_t i = 0; i < got.size(); ++i) SAME_AS(again[i], want[i], op.name, ": modifying an operand changed the result");
	}
	else
	{
		// structure is never shared: changing the structure of the result leaves the operand alone
		for (auto &g : got)
		{
			if (g.dim() > 1) g.transpose_(0, g.dim() - 1);
			g.inverse_cvals_();
			for (auto &b : g) b.second = torch::zeros_like(b.second);
		}
		UNCHANGED(sx, *x, op.name, ": replacing blocks of the result changed the operand");
	}
	c.nontrivial(stored(sx.rank >= 0 ? *x : *y) + (y != x ? stored(*y) : 0) >= 2);
}

struct InOp
{
	std::string name;
	bool structural; // leaves shallow copies entirely alone
	std::function<btensor &(btensor &, Bt)> in;
	std::function<btensor(Bt, Bt)> out;
};
static InOp gen_inplace(Case &c, const BT &a, int &second)
{
	// second: 0 none, 1 same structure
	int64_t r = a.t.dim();
	second = 0;
	auto s = gen_scalar(c), s2 = gen_scalar(c);
	bool cplx = a.d.is_complex();
	switch (c.draw(24))
	{
	case 0: return {"mul_(scalar)", false, [s, s2](btensor &x, Bt) -> btensor & { return x.mul_(s); }, [s](Bt x, Bt) { return x.mul(s); }};
	case 1: return {"div_(scalar)", false, [s](btensor &x, Bt) -> btensor & { return x /= s; }, [s](Bt x, Bt) { return x / s; }};
	case 2: return {"add_(scalar)", false, [s, s2](btensor &x, Bt) -> btensor & { return x.add_(s, s2); }, [s, s2](Bt x, Bt) { return x.add(s, s2); }};
	case 3: return {"-=scalar", false, [s, s2](btensor &x, Bt) -> btensor & { return x -= s; }, [s](Bt x, Bt) { return x.sub(s); }};
	case 4:
		if (cplx) return {"*=scalar", false, [s](btensor &x, Bt) -> btensor & { return x *= s; }, [s](Bt x, Bt) { return x * s; }};
		return {"abs_", false, [](btensor &x, Bt) -> btensor & { return x.abs_(); }, [](Bt x, Bt) { return x.abs(); }};
	case 5: return {"pow_(scalar)", false, [s, s2](btensor &x, Bt) -> btensor & { return x.pow_(s); }, [s](Bt x, Bt) { return x.pow(s); }};
	case 6: return {"sqrt_", false, [](btensor &x, Bt) -> btensor & { return x.sqrt_(); }, [](Bt x, Bt) { return x.sqrt(); }};
	case 7:
	{
		auto p = c.permutation(r);
		std::vector<int64_t> q(p.begin(), p.end());
		return {"permute_", true, [q](btensor &x, Bt) -> btensor & { return x.permute_(q); }, [q](Bt x, Bt) { return x.permute(q); }};
	}
	case 8:
	{
		auto i = c.draw(r), j = c.draw(r);
		return {"transpose_", true, [i, j](btensor &x, Bt) -> btensor & { return x.transpose_(i, j); }, [i, j](Bt x, Bt) { return x.transpose(i, j); }};
	}
	case 9:
		if (r < 2) return {"squeeze_", true, [](btensor &x, Bt) -> btensor & { return squeeze_(x); }, [](Bt x, Bt) { return x.squeeze(); }};
		return {"t_", true, [](btensor &x, Bt) -> btensor & { return x.t_(); }, [](Bt x, Bt) { return x.t(); }};
	case 10: return {"squeeze_", true, [](btensor &x, Bt) -> btensor & { return x.squeeze_(); }, [](Bt x, Bt) { return x.squeeze(); }};
	case 11: return {"inverse_cvals_", true, [](btensor &x, Bt) -> btensor & { return x.inverse_cvals_(); }, [](Bt x, Bt) { return x.inverse_cvals(); }};
	case 12:
	{
		auto q = to_any(a.s.kind, gen_q(c, a.s.kind));
		auto d = c.draw(r);
		return {"cval_shift_", true, [q, d](btensor &x, Bt) -> btensor & { return x.cval_shift_(q, d); }, [q, d](Bt x, Bt) { return x.cval_shift(q, d); }};
	}
	default: break;
	}
	second = 1;
	switch (c.draw(9))
	{
	case 0: return {"add_", false, [](btensor &x, Bt y) -> btensor & { return x.add_(y); }, [](Bt x, Bt y) { return x.add(y); }};
	case 1: return {"add_ with alpha", false, [s](btensor &x, Bt y) -> btensor & { return x.add_(y, s); }, [s](Bt x, Bt y) { return x.add(y, s); }};
	case 2: return {"+=", false, [](btensor &x, Bt y) -> btensor & { return x += y; }, [](Bt x, Bt y) { return x + y; }};
	case 3: return {"-=", false, [](btensor &x, Bt y) -> btensor & { return x -= y; }, [](Bt x, Bt y) { return x - y; }};
	case 4: return {"sub_ with alpha", false, [s](btensor &x, Bt y) -> btensor & { return x.subtract_(y, s); }, [s](Bt x, Bt y) { return x.sub(y, s); }};
	case 5: return {"mul_", false, [](btensor &x, Bt y) -> btensor & { return x.mul_(y); }, [](Bt x, Bt y) { return x.mul(y); }};
	case 6: return {"*=", false, [](btensor &x, Bt y) -> btensor & { return x *= y; }, [](Bt x, Bt y) { return x * y; }};
	case 7: return {"div_", false, [](btensor &x, Bt y) -> btensor & { return x.div_(y); }, [](Bt x, Bt y) { return x.div(y); }};
	default: return {"/=", false, [](btensor &x, Bt y) -> btensor & { return x /= y; }, [](Bt x, Bt y) { return x / y; }};
	}
}
FACET(in_place, 5)
{
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : Val::cplx;
	auto a = gen_bt(c, kind, c.range(1, 4), v, Lim{3, 2, 2});
	int second;
	auto op = gen_inplace(c, a, second);
	btensor own;
	const btensor *y = &own;
	std::string alias = "distinct";
	bool shares = false;
	if (second)
	{
		switch (c.draw(4))
		{
		case 0:
			y = &a.t;
			alias = "the same object";
			shares = true;
			break;
		case 1:
			own = a.t;
			alias = "a shallow copy";
			shares = true;
			break;
		default: own = gen_tensor(c, a.s, v).t;
		}
	}
	c.note([&] { return cat(op.name, " of ", str(a), " and ", alias, tstr(a.d), second ? tstr(dense_of(*y)) : std::string()); });
	c.nontrivial(stored(a.t) >= 2);
	auto dx = m_deep(a.t), dy = second ? m_deep(*y) : btensor();
	auto want = m_deep(op.out(dx, second ? dy : dx));
	btensor copy = a.t, assigned;
	assigned = a.t;
	auto sc = snap(copy);
	Snap sy;
	if (second) sy = snap(*y);
	btensor *ret = &op.in(a.t, second ? *y : copy);
	PROP(ret == &a.t, op.name, " must return the object it is called on");
	VALID(a.t, op.name);
	SAME_AS(a.t, want, op.name, " against its out-of-place form, other operand ", alias);
	if (second && !shares)
	{
		UNCHANGED(sy, own, op.name, " changed its second operand");
		// and they have nothing in common afterwards
		disturb(a.t);
		UNCHANGED(sy, own, op.name, ": a later change of the result changed the second operand");
		SAME_AS(dy, *y);
	}
	// copies keep their structure, the values of the blocks they share can change
	VALID(copy, "copy of the tensor after ", op.name);
	if (op.structural)
	{
		UNCHANGED(sc, copy, op.name, " changed a copy");
		UNCHANGED(sc, assigned, op.name, " changed a copy");
		if (second == 0) return;
	}
	auto now = snap(copy);
	PROP(now.sections == sc.sections && now.sizes == sc.sizes && now.sel == sc.sel, op.name, " changed the structure of a copy");
	for (size_t i = 0; i < now.q.size(); ++i) PROP(now.q[i] == sc.q[i], op.name, " changed the charges of a copy");
}
FACET(temporaries, 4)
{
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : Val::cplx;
	auto a = gen_bt(c, kind, c.range(1, 3), v, Lim{3, 2, 2}), b = gen_tensor(c, a.s, v);
	c.nontrivial(stored(a.t) + stored(b.t) >= 2);
	int64_t r = a.t.dim();
	// what the temporary is made from
	auto how = c.draw(6);
	btensor third;
	auto temp = [&]() -> btensor
	{
		switch (how)
		{
		case 0: return m_deep(b.t);
		case 1: return b.t;                                                         // shares the blocks of b
		case 2: return b.t.transpose(0, r - 1).transpose(0, r - 1);                  // views of b
		case 3: return b.t.inverse_cvals().inverse_cvals();
		case 4: third = b.t; return std::move(third);
		default: return b.t.mul(1);
		}
	};
	auto al = c.range(-2, 3);
	auto w = c.draw(8);
	c.note([&] { return cat("variant ", w, " temporary ", how, " alpha ", al, " ", str(a), tstr(a.d), tstr(b.d)); });
	auto sa = snap(a.t), sb = snap(b.t);
	auto da = m_deep(a.t);
	bool in = w >= 4, sub = w % 2;
	btensor got;
	switch (w)
	{
	case 0: got = a.t.add(temp(), al); break;
	case 1: got = a.t.sub(temp(), al); break;
	case 2: got = temp().add(a.t.mul(al)); break;
	case 3: got = temp().sub(a.t.mul(-1)).sub(a.t.mul(1)).sub(a.t.mul(1)).mul(1); break;
	case 4: got = da.add_(temp(), al); break;
	case 5: got = da.sub_(temp(), al); break;
	case 6: da += temp(); got = da; break;
	default: da -= temp(); got = da; break;
	}
	auto x = wide(a.d), y = wide(b.d);
	Tensor want;
	if (w < 2 || w == 4 || w == 5) want = sub ? x - y * al : x + y * al;
	else if (w == 2) want = y + x * al;
	else if (w == 3) want = y - x;
	else want = sub ? x - y : x + y;
	VALID(got);
	HAS_SPEC(got, a.s);
	SAME(wide(dense_of(got)), want, false, "with a temporary");
	UNCHANGED(sa, a.t, "the first operand changed");
	UNCHANGED(sb, b.t, "the tensor the temporary was made from changed");
	disturb(got);
	UNCHANGED(sa, a.t, "the first operand changed with the result");
	UNCHANGED(sb, b.t, "the tensor the temporary was made from changed with the result");
	(void)in;
}
FACET(assignment_of_parts, 3)
{
	// the values put in a tensor are copied
	auto kind = gen_kind(c);
	auto v = c.flip() ? Val::real : Val::cplx;
	auto a = gen_bt(c, kind, c.range(1, 3), v, Lim{3, 2, 2});
	auto b = gen_tensor(c, a.s, v);
	int64_t r = a.t.dim();
	std::vector<int64_t> basic;
	for (int64_t i = 0; i < r; ++i)
	{
		auto n = dim_size(a.s.dims[i]);
		if (n && c.flip())
		{
			auto k = (int64_t)c.draw(n);
			basic.push_back(k);
		}
		else
			basic.push_back(-1);
	}
	c.nontrivial(stored(a.t) + stored(b.t) >= 2);
	c.note([&] { return cat(str(a), " at ", pbt::cat(basic.size()), tstr(a.d), tstr(b.d)); });
	auto sb = snap(b.t);
	auto part = b.t.basic_create_view(basic);
	UNCHANGED(sb, b.t, "making a view");
	auto sp = snap(part);
	auto copy = a.t;
	auto target = m_deep(a.t);
	bool dense = c.flip();
	auto pd = dense_of(part);
	auto pd0 = pd.clone();
	btensor *ret;
	if (dense) ret = &target.basic_index_put_(basic, pd);
	else ret = &target.basic_index_put_(basic, part);
	PROP(ret == &target);
	UNCHANGED(sb, b.t, "the origin of the values changed");
	UNCHANGED(sp, part, "the values changed");
	auto want = m_deep(target);
	disturb(target);
	UNCHANGED(sb, b.t, "the origin of the values changed with the tensor they were put in");
	UNCHANGED(sp, part, "the values changed with the tensor they were put in");
	SAME(pd, pd0, true, "the dense values changed");
	// and the other way
	target = m_deep(want);
	(dense ? target.basic_index_put_(basic, pd) : target.basic_index_put_(basic, part));
	disturb(part);
	pd.add_(1);
	SAME_AS(target, want, "changed with the origin of the values");
}
FACET(copies, 4)
{
	// copies, moves, swaps; then changes of structure of one of them
	auto kind = gen_kind(c);
	auto v = Val::real;
	auto a = gen_bt(c, kind, c.range(0, 3), v, Lim{3, 2, 2}), b = gen_bt(c, kind, c.range(0, 3), v, Lim{3, 2, 2});
	c.nontrivial(stored(a.t) + stored(b.t) >= 2);
	auto sa = snap(a.t), sb = snap(b.t);
	btensor x(a.t), y;
	y = b.t;
	const Snap *px = &sa, *py = &sb;
	std::string log;
	auto n = c.range(1, 6);
	for (int64_t k = 0; k < n; ++k)
	{
		switch (c.draw(9))
		{
		case 0:
			x = y;
			px = py;
			log += "copy assignment; ";
			break;
		case 1:
			x.swap(y);
			std::swap(px, py);
			log += "swap; ";
			break;
		case 2:
		{
			using std::swap;
			swap(x, y);
			std::swap(px, py);
			log += "free swap; ";
			break;
		}
		case 3:
		{
			btensor z = std::move(x);
			x = std::move(z);
			log += "moves; ";
			break;
		}
		case 4:
		{
			auto &r = x;
			x = r;
			log += "self assignment; ";
			break;
		}
		case 5:
		{
			x = std::move(y);
			y = b.t;
			px = py;
			py = &sb;
			log += "move assignment; ";
			break;
		}
		case 6:
		{
			btensor z = y, w = x;
			for (auto t : {&z, &w})
			{
				if (t->dim() > 1) t->transpose_(0, 1);
				t->inverse_cvals_();
				for (auto &bl : *t) bl.second = bl.second * 3;
				if (t->dim()) t->squeeze_();
			}
			log += "changed copies; ";
			break;
		}
		case 7:
		{
			// new blocks in a copy
			btensor w = c.flip() ? y : x;
			w.add_(1); // creates every allowed block, and modifies those that exist
			// values of the blocks that are shared have changed: take them away again
			auto restore = [&](btensor &t, const Snap &s)
			{
				size_t i = 0;
				PROP((size_t)(t.end() - t.begin()) == s.blocks.size(), "a block appeared in a copy after: ", log);
				for (auto &bl : t) bl.second.copy_(s.blocks[i++].second);
			};
			restore(x, *px);
			restore(y, *py);
			restore(a.t, sa);
			restore(b.t, sb);
			log += "new blocks in a copy; ";
			break;
		}
		default:
		{
			btensor z;
			z = x;
			btensor w(std::move(z));
			UNCHANGED(*px, w, "copied then moved after: ", log);
			log += "copy and move; ";
		}
		}
		UNCHANGED(*px, x, "first after: ", log);
		UNCHANGED(*py, y, "second after: ", log);
		UNCHANGED(sa, a.t, "first original after: ", log);
		UNCHANGED(sb, b.t, "second original after: ", log);
	}
}
FACET(dense_operands, 2)
{
	auto v = c.flip() ? Val::real : Val::cplx;
	auto f = gen_filler(c);
	auto r = c.range(2, 4);
	IL s(r);
	for (auto &x : s) x = c.range(1, 3);
	bool view = c.flip();
	auto base = fill(f, s, v);
	auto a = view ? base.permute([&] { std::vector<int64_t> q; for (auto x : c.permutation(r)) q.push_back(x); return q; }()) : base;
	auto keep = a.clone();
	size_t k = c.range(1, r - 1);
	auto how = c.draw(5);
	c.note([&] { return cat("variant ", how, " split ", k, tstr(a)); });
	c.nontrivial(a.numel() > 1);
	switch (how)
	{
	case 0:
	{
		auto [u, d, w] = quantit::svd(a, k);
		d.fill_(0);
		u.fill_(0);
		break;
	}
	case 1:
	{
		auto [u, d, w] = quantit::svd(a, k, 1e-2, (size_t)1, (size_t)2);
		u.fill_(0);
		break;
	}
	case 2:
	{
		auto [u, d, w] = quantit::svd(a, k);
		auto u0 = u.clone(), d0 = d.clone(), w0 = w.clone();
		auto [x, y, z] = quantit::truncate(u, d, w, 0.1, 1, 2);
		SAME(u, u0, true, "truncate changed its argument");
		SAME(d, d0, true, "truncate changed its argument");
		SAME(w, w0, true, "truncate changed its argument");
		break;
	}
	case 3:
	{
		std::vector<int64_t> dims{(int64_t)c.draw(r)};
		auto b = fill(f, IL(a.sizes().begin(), a.sizes().end()), v);
		auto b0 = b.clone();
		auto add = torch::tensordot(a, b, dims, dims);
		auto add0 = add.clone();
		auto res = quantit::tensorgdot(add, a, b, dims, dims, 2, 3);
		SAME(add, add0, true, "tensorgdot changed the tensor it adds to");
		SAME(b, b0, true, "tensorgdot changed an operand");
		auto &ret = quantit::tensorgdot_(add, a, b, dims, dims, 2, 3);
		PROP(&ret == &add);
		SAME(add, res, false, "tensorgdot_ against tensorgdot");
		SAME(b, b0, true, "tensorgdot_ changed an operand");
		break;
	}
	default:
	{
		auto m = a.reshape({prod_of(IL(a.sizes().begin(), a.sizes().end()), 0, k), -1});
		auto h = m.matmul(dag(m));
		auto h0 = h.clone();
		auto [e, S] = quantit::eigh(h, (size_t)1);
		S.fill_(0);
		SAME(h, h0, true, "eigh changed its argument");
	}
	}
	SAME(a, keep, true, "operand changed");
}
