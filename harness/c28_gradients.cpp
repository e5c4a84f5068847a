// C28: gradients through operations on block tensors equal those of the dense operations.
#include "model_net.h"
#include "blockTensor/LinearAlgebra.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors (7 group types, rank 0-4, random missing blocks, real and complex) some of whose blocks record gradients, through chains of one to three operations "
    "(sum, difference, product, quotient, power, conjugate, permutation, contraction, batched product, reshaping, squeezing, views, assignment, conversions, overlaps, singular values); "
    "non-trivial when the gradient of some block is not zero";
unsigned pbt::quick_cases = 150000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {"the gradients torch computes for dense operations are correct"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

// a block tensor whose blocks are leaves of the graph, and the dense leaf it corresponds to
struct Leaf
{
	BT b;
	btensor t;
	Tensor d;
	std::vector<std::pair<IL, Tensor>> blocks;
};
static Leaf leaf(Case &c, const BT &b)
{
	Leaf l{b, make_shape(b.s, dtype(b.v)), b.d.clone().requires_grad_(true), {}};
	bool all = c.chance(3, 4);
	if (all && c.flip()) l.t = btensor(vec_list(b.s), to_any(b.s.kind, b.s.sel), torch::TensorOptions().dtype(dtype(b.v)).requires_grad(true)); // every block of the tensor records
	for (auto &x : b.t)
	{
		IL i(x.first.begin(), x.first.end());
		auto y = x.second.detach().clone();
		y.requires_grad_(all || c.flip());
		l.t.block(i) = y;
		l.blocks.emplace_back(i, y);
	}
	return l;
}
static Tensor re(const Tensor &x) { return x.is_complex() ? torch::real(x) : x; }
// real scalar that depends on every element; invariant: does not depend on the position of the elements
static Tensor dense_loss(const Tensor &d, const Tensor &w) { return re((d * w).sum()); }
static Tensor block_loss(const btensor &t, const Tensor &w)
{
	Tensor r = torch::zeros({}, torch::kFloat64);
	std::vector<IL> off(t.dim());
	for (int64_t i = 0; i < t.dim(); ++i)
	{
		auto [b, e] = t.section_sizes(i);
		int64_t o = 0;
		for (auto it = b; it != e; ++it) off[i].push_back(o), o += *it;
	}
	for (auto &b : t)
	{
		IL o, sz(b.second.sizes().begin(), b.second.sizes().end());
		for (size_t i = 0; i < sz.size(); ++i) o.push_back(off[i][b.first[i]]);
		r = r + re((b.second * sub_block(w, o, sz)).sum());
	}
	return r;
}
static Tensor weights(Case &c, const Tensor &like)
{
	auto f = gen_filler(c);
	return fill(f, IL(like.sizes().begin(), like.sizes().end()), like.is_complex() ? Val::cplx : Val::real);
}
static Tensor grad_of(const Tensor &x) { return x.grad().defined() ? x.grad() : torch::zeros_like(x.detach()); }
static void compare(Case &c, std::vector<Leaf> &leaves, const Tensor &block, const Tensor &dense)
{
	auto v = block.detach().to(torch::kFloat64).item().toDouble(), w = dense.detach().to(torch::kFloat64).item().toDouble();
	PROP(std::abs(v - w) <= 1e-9 * (1 + std::abs(w)), "value ", v, " instead of ", w);
	if (block.requires_grad()) block.backward();
	if (dense.requires_grad()) dense.backward();
	bool nontrivial = false;
	for (size_t k = 0; k < leaves.size(); ++k)
	{
		auto &l = leaves[k];
		auto g = grad_of(l.d);
		auto scale = 1e-9 * std::max(1., maxabs(g));
		for (auto &[i, x] : l.blocks)
		{
			if (!x.requires_grad()) continue;
			auto want = sub_block(g, block_offsets(l.b.s, i), block_sizes(l.b.s, i));
			auto got = grad_of(x);
			nontrivial |= maxabs(want) > 0;
			PROP(x.is_leaf(), "a block of an operand is not a leaf anymore");
			PROP(maxabs(got - want) <= scale, "operand ", k, " block ", IL(i), ": gradient ", tstr(got), " instead of ", tstr(want));
		}
		SAME(dense_of(l.t).detach(), l.b.d, true, "operand ", k, " modified");
	}
	c.nontrivial(nontrivial);
}
static Val gen_v(Case &c) { return c.weighted({3, 1}) ? Val::cplx : Val::real; }
static torch::Scalar coef(Case &c) { return torch::Scalar(c.chance(1, 3) ? 1. : double(c.around(2)) + 0.5); }

struct Chain
{
	Spec s;
	btensor t;
	Tensor d;
};
// one operation on a value and, possibly, new operands
static std::string step(Case &c, Chain &x, std::vector<Leaf> &leaves, Val v)
{
	auto kind = x.s.kind;
	Lim lim;
	lim.maxsize = 2;
	auto operand = [&](const Spec &s) -> Leaf & {
		leaves.push_back(leaf(c, gen_tensor(c, s, v)));
		return leaves.back();
	};
	// on a result of the previous operations
	auto mul = [&](double f) {
		x.t = x.t.mul(f);
		x.d = x.d * f;
	};
	auto rank = x.s.rank();
	switch (c.draw(23))
	{
	case 0:
	{
		auto &o = operand(x.s);
		auto a = coef(c);
		x.t = x.t.add(o.t, a);
		x.d = x.d + a.toDouble() * o.d;
		return "add";
	}
	case 1:
	{
		auto &o = operand(x.s);
		auto a = coef(c);
		x.t = c.flip() ? x.t.sub(o.t, a) : x.t.sub(btensor(o.t), a);
		x.d = x.d - a.toDouble() * o.d;
		return "sub";
	}
	case 2:
	{
		auto &o = operand(x.s);
		x.t = x.t.mul(o.t);
		x.d = x.d * o.d;
		for (auto &d : x.s.dims)
			for (auto &s : d) s.q = qadd(kind, s.q, s.q);
		x.s.sel = qadd(kind, x.s.sel, x.s.sel);
		return "mul";
	}
	case 3:
	{
		auto a = coef(c);
		x.t = c.flip() ? x.t.mul(a) : x.t * a;
		x.d = x.d * a.toDouble();
		return "mul scalar";
	}
	case 4:
	{
		auto a = coef(c);
		x.t = x.t.div(a);
		x.d = x.d / a.toDouble();
		return "div scalar";
	}
	case 5:
		x.t = x.t.pow(2);
		x.d = x.d * x.d;
		// the charges are those of the operand
		return "pow";
	case 6:
		x.t = x.t.conj();
		x.d = x.d.conj();
		for (auto &d : x.s.dims) d = conj_dim(kind, d);
		x.s.sel = qneg(kind, x.s.sel);
		return "conj";
	case 7:
	{
		auto p = c.permutation(rank);
		IL q(p.begin(), p.end());
		x.t = x.t.permute(q);
		x.d = x.d.permute(q);
		auto old = x.s;
		for (size_t i = 0; i < rank; ++i) x.s.dims[i] = old.dims[p[i]];
		return "permute";
	}
	case 8:
	case 9:
	{
		size_t k = c.range(0, std::min<size_t>(rank, 2));
		size_t more = c.range(0, rank - k >= 3 ? 0 : 3 - (rank - k));
		auto pa = c.permutation(rank), pb = c.permutation(k + more);
		IL da(pa.begin(), pa.begin() + k), db(pb.begin(), pb.begin() + k);
		Spec o;
		o.kind = kind;
		for (size_t i = 0; i < k + more; ++i) o.dims.push_back(gen_dim(c, kind, lim));
		for (size_t i = 0; i < k; ++i) o.dims[db[i]] = conj_dim(kind, x.s.dims[da[i]]);
		o.sel = gen_sel(c, o);
		auto &b = operand(o);
		Spec out;
		out.kind = kind;
		for (size_t i = 0; i < rank; ++i)
			if (std::find(da.begin(), da.end(), (int64_t)i) == da.end()) out.dims.push_back(x.s.dims[i]);
		for (size_t i = 0; i < o.rank(); ++i)
			if (std::find(db.begin(), db.end(), (int64_t)i) == db.end()) out.dims.push_back(o.dims[i]);
		out.sel = qadd(kind, x.s.sel, o.sel);
		x.t = tensordot(x.t, b.t, da, db);
		x.d = torch::tensordot(x.d, b.d, da, db);
		x.s = out;
		return "tensordot";
	}
	case 10:
	{
		if (rank < 2) return "";
		Spec o = x.s;
		for (size_t i = 0; i + 2 < rank; ++i)
			for (auto &s : o.dims[i]) s.q = qzero(kind);
		o.dims[rank - 2] = conj_dim(kind, x.s.dims[rank - 1]);
		o.dims[rank - 1] = gen_dim(c, kind, lim);
		o.sel = gen_sel(c, o);
		auto &b = operand(o);
		x.t = x.t.bmm(b.t);
		x.d = torch::matmul(x.d, b.d);
		x.s.dims[rank - 1] = o.dims[rank - 1];
		x.s.sel = qadd(kind, x.s.sel, o.sel);
		return "bmm";
	}
	case 11:
		x.t = x.t.sum();
		x.d = x.d.sum();
		x.s = Spec{kind, {}, qzero(kind)};
		return "sum";
	case 12:
	{
		if (rank == 0) return "";
		IL dims(rank, -1);
		auto sel = x.s.sel;
		auto d = x.d;
		Spec out;
		out.kind = kind;
		for (size_t i = 0; i < rank; ++i)
			if (x.s.dims[i].size() == 1 && x.s.dims[i][0].size == 1 && c.flip()) dims[i] = 0, sel = qadd(kind, sel, qneg(kind, x.s.dims[i][0].q));
			else out.dims.push_back(x.s.dims[i]);
		for (int64_t i = (int64_t)rank - 1; i >= 0; --i)
			if (dims[i] == 0) d = d.select(i, 0);
		if (out.dims.empty()) return "";
		out.sel = sel;
		x.t = x.t.basic_create_view(dims);
		x.d = d;
		x.s = out;
		return "view";
	}
	case 13:
	{
		mul(1.5);
		auto &o = operand(x.s);
		auto a = coef(c);
		if (c.flip()) x.t.add_(o.t, a), x.d = x.d + a.toDouble() * o.d;
		else x.t.sub_(o.t, a), x.d = x.d - a.toDouble() * o.d;
		return "add_";
	}
	case 14:
	{
		mul(-0.5);
		auto a = coef(c);
		if (c.flip()) x.t.mul_(a), x.d = x.d * a.toDouble();
		else x.t.div_(a), x.d = x.d / a.toDouble();
		return "mul_ scalar";
	}
	case 15:
	{
		if (rank == 0) return "";
		mul(2);
		// another value takes the place of a selection
		IL dims(rank, -1);
		bool some = false;
		Spec o;
		o.kind = kind;
		o.sel = x.s.sel;
		for (size_t i = 0; i < rank; ++i)
		{
			std::vector<int64_t> unit;
			int64_t at = 0;
			for (auto &s : x.s.dims[i])
			{
				if (s.size == 1) unit.push_back(at);
				at += s.size;
			}
			if (!unit.empty() && c.flip())
			{
				dims[i] = c.pick(unit);
				some = true;
				at = 0;
				for (auto &s : x.s.dims[i])
				{
					if (at == dims[i]) o.sel = qadd(kind, o.sel, qneg(kind, s.q));
					at += s.size;
				}
			}
			else o.dims.push_back(x.s.dims[i]);
		}
		if (!some || o.dims.empty()) return "";
		auto &b = operand(o);
		x.t.basic_index_put_(dims, b.t);
		auto d = x.d.clone(), view = d;
		for (int64_t i = (int64_t)rank - 1; i >= 0; --i)
			if (dims[i] != -1) view = view.select(i, dims[i]);
		view.copy_(b.d);
		x.d = d;
		return "index_put_";
	}
	case 16:
	{
		// a vector along the last dimension
		if (rank < 2) return "";
		Spec o{kind, {x.s.dims.back()}, {}};
		for (auto &s : o.dims[0]) s.q = qzero(kind);
		o.sel = qzero(kind);
		auto &b = operand(o);
		if (c.flip())
		{
			x.t = x.t.mul(b.t);
			x.d = x.d * b.d;
			return "mul vector";
		}
		mul(3);
		x.t.mul_(b.t);
		x.d = x.d * b.d;
		return "mul_ vector";
	}
	case 17:
	{
		auto big = x.d.detach();
		(void)big;
		auto t = x.t.to_dense();
		x.t = from_basic_tensor_like(make_shape(x.s, dtype(v)), t);
		return "through dense";
	}
	case 18:
	{
		if (rank < 2) return "";
		auto i = c.range(0, rank - 1), j = c.range(0, rank - 1);
		x.t = x.t.transpose(i, j);
		x.d = x.d.transpose(i, j);
		std::swap(x.s.dims[i], x.s.dims[j]);
		return "transpose";
	}
	case 19:
		x.t = x.t.to(dtype(v));
		return "to";
	case 20:
		if (v == Val::cplx) return "";
		x.t = c.flip() ? x.t.abs() : x.t.mul(1.).abs_();
		x.d = x.d.abs();
		return "abs";
	case 21:
	{
		// a dimension of a single element goes away
		for (size_t i = 0; i < rank; ++i)
			if (x.s.dims[i].size() == 1 && x.s.dims[i][0].size == 1 && rank > 1)
			{
				x.t = x.t.squeeze(i);
				x.d = x.d.squeeze(i);
				x.s.sel = qadd(kind, x.s.sel, qneg(kind, x.s.dims[i][0].q));
				x.s.dims.erase(x.s.dims.begin() + i);
				return "squeeze";
			}
		return "";
	}
	default:
	{
		auto y = x.t; // copies share the history
		x.t = std::move(y);
		x.t.inverse_cvals_();
		for (auto &d : x.s.dims) d = conj_dim(kind, d);
		x.s.sel = qneg(kind, x.s.sel);
		return "inverse_cvals_";
	}
	}
}
FACET(chains, 8)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	Lim lim;
	lim.maxsize = 2;
	std::vector<Leaf> leaves;
	leaves.reserve(16);
	leaves.push_back(leaf(c, gen_bt(c, kind, c.range(0, 3), v, lim)));
	Chain x{leaves[0].b.s, leaves[0].t, leaves[0].d};
	std::string ops;
	for (int n = c.range(1, 3); n > 0; --n)
	{
		auto o = step(c, x, leaves, v);
		if (o.empty()) continue;
		ops += (ops.empty() ? "" : ", ") + o;
		c.label(o);
	}
	c.note([&] {
		std::string s = ops;
		for (auto &l : leaves) s += "; " + str(l.b);
		return s;
	});
	if (ops.empty()) c.discard();
	auto w = weights(c, x.d.detach());
	SAME(dense_of(x.t).detach(), x.d.detach(), false, ops);
	Tensor bl;
	if (c.chance(1, 3)) bl = dense_loss(x.t.to_dense(), w), c.label("to_dense");
	else bl = block_loss(x.t, w);
	compare(c, leaves, bl, dense_loss(x.d, w));
}
// operations that move the elements around: a loss that does not depend on where they are
FACET(reorganized, 2)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	std::vector<Leaf> leaves;
	auto a = gen_bt(c, kind, c.range(1, 4), v);
	leaves.push_back(leaf(c, a));
	auto &l = leaves[0];
	btensor t;
	std::string op;
	switch (c.draw(3))
	{
	case 0:
	{
		IL cut;
		for (size_t i = 1; i < a.s.rank(); ++i)
			if (c.flip()) cut.push_back(i);
		t = l.t.reshape(cut);
		if (c.flip()) t = t.reshape_as(l.t), op = "and back";
		op = "reshape " + op;
		break;
	}
	case 1:
		t = l.t.squeeze();
		op = "squeeze";
		break;
	default:
		t = l.t.reshape(IL{});
		op = "flatten";
	}
	c.label(op);
	c.note([&] { return op + " " + str(a); });
	auto f = [](const Tensor &x) { return re((x * x * x).sum()) + re((x * x.conj()).sum()); };
	Tensor bl = torch::zeros({}, torch::kFloat64);
	for (auto &b : t) bl = bl + f(b.second);
	compare(c, leaves, bl, f(l.d));
}
FACET(singular_values, 1)
{
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	Spec s;
	s.kind = kind;
	s.dims = {gen_dim(c, kind), gen_dim(c, kind)};
	s.sel = gen_sel(c, s);
	auto a = gen_tensor(c, s, v, 2);
	c.note([&] { return str(a); });
	std::vector<Leaf> leaves{leaf(c, a)};
	auto &l = leaves[0];
	auto [U, d, V] = quantit::svd(l.t, (size_t)1);
	Tensor bl = torch::zeros({}, torch::kFloat64);
	for (auto &b : d) bl = bl + (b.second * b.second * b.second).sum();
	auto sv = std::get<1>(torch::svd(l.d));
	compare(c, leaves, bl, (sv * sv * sv).sum());
}
FACET(networks, 2)
{
	auto L = (size_t)c.range(1, 3);
	auto kind = gen_kind(c);
	auto v = gen_v(c);
	auto phys = gen_phys(c, kind, L, {2, 2, 1});
	NetLim lim;
	lim.sec = 2;
	auto a = gen_bstate(c, kind, phys, v, lim);
	lim.neutral_edges = true;
	lim.sel = c.chance(1, 4);
	auto o = gen_boper(c, kind, phys, phys, v, lim);
	c.note([&] { return cat("a ", str(a), " o ", str(o)); });
	std::vector<Leaf> leaves;
	bMPS A(L);
	bMPO O(L);
	for (size_t i = 0; i < L; ++i)
	{
		leaves.push_back(leaf(c, a.t[i]));
		A[i] = leaves.back().t;
	}
	bool with = c.flip();
	for (size_t i = 0; i < L && with; ++i)
	{
		leaves.push_back(leaf(c, o.t[i]));
		O[i] = leaves.back().t;
	}
	auto r = with ? contract(A, A, O) : contract(A, A);
	std::vector<Tensor> at, ot;
	for (size_t i = 0; i < L; ++i) at.push_back(leaves[i].d);
	for (size_t i = 0; i < L && with; ++i) ot.push_back(leaves[L + i].d);
	auto S = expand_state(at);
	Tensor want;
	if (with)
	{
		auto H = expand_oper(ot);
		want = torch::einsum("xpr,xqr,wqsp->", {S, S.conj(), H});
	}
	else want = (S * S.conj()).sum();
	auto w = weights(c, want.detach());
	compare(c, leaves, block_loss(r, w), dense_loss(want, w));
}
// block tensors created by the factories with or without requires_grad
FACET(factories, 1)
{
	auto kind = gen_kind(c);
	auto v = c.weighted({3, 1}) ? Val::cplx : Val::real;
	Lim lim;
	lim.maxsize = 2;
	auto like = gen_bt(c, kind, c.range(0, 3), v, lim);
	bool grad = c.chance(3, 4), spec_grad = c.flip();
	auto opt = torch::TensorOptions().dtype(dtype(v)).requires_grad(grad);
	auto shape = vec_list(like.s);
	auto sel = to_any(kind, like.s.sel);
	btensor model = like.t;
	if (spec_grad && model.dim() > 0) model = quantit::zeros(shape, sel, torch::TensorOptions().dtype(dtype(v)).requires_grad(true));
	int which = c.range(0, v == Val::cplx ? 11 : 13);
	bool eye = which == 12 - 2 * (v == Val::cplx) || which == 13 - 2 * (v == Val::cplx);
	if ((which < 12 && which % 2 == 0 && like.s.rank() == 0) || (eye && like.s.rank() != 2)) c.discard();
	btensor t;
	std::string name;
	if (eye)
	{
		name = "eye_like";
		t = quantit::eye_like(model, opt);
		if (c.flip())
		{
			name = "eye";
			shape = vec_list(Spec{kind, {like.s.dims[0]}, like.s.sel});
			t = quantit::eye(shape, opt);
		}
	}
	else
	{
		bool ml = which % 2 == 1; // from an existing tensor
		double f = c.around(2);
		switch (which / 2)
		{
		case 0: name = "zeros", t = ml ? quantit::zeros_like(model, opt) : quantit::zeros(shape, sel, opt); break;
		case 1: name = "ones", t = ml ? quantit::ones_like(model, opt) : quantit::ones(shape, sel, opt); break;
		case 2: name = "rand", t = ml ? quantit::rand_like(model, opt) : quantit::rand(shape, sel, opt); break;
		case 3: name = "randn", t = ml ? quantit::randn_like(model, opt) : quantit::randn(shape, sel, opt); break;
		case 4: name = "full", t = ml ? quantit::full_like(model, f, opt) : quantit::full(shape, sel, f, opt); break;
		default: name = "randint", t = ml ? quantit::randint_like(-3, 3, model, opt) : quantit::randint(-3, 3, shape, sel, opt);
		}
		if (ml) name += "_like";
	}
	c.label(name);
	c.note([&] { return cat(name, grad ? " recording" : "", " ", str(like)); });
	PROP(!t.options().requires_grad(), name, ": the options of the block tensor ask for every tensor created from them to record its gradient");
	bool any = false;
	for (auto &b : t)
	{
		any = true;
		PROP(b.second.requires_grad() == grad, name, ": block ", tstr(b.second), grad ? " does not record" : " records");
		PROP(b.second.is_leaf(), name, ": a block is not a leaf");
		PROP(b.second.scalar_type() == dtype(v), name, ": scalar type");
	}
	auto d = t.to_dense();
	auto want = dense_of(t);
	SAME(d.detach(), want.detach(), true, name, ": dense form");
	PROP(d.requires_grad() == (grad && any), name, ": the dense form lost the history");
	auto w = weights(c, want.detach());
	auto loss = dense_loss(d, w);
	auto total = t.mul(2.).sum();
	for (auto &b : total) loss = loss + re(b.second);
	if (!(grad && any)) return;
	loss.backward();
	auto dl = want.detach().clone().requires_grad_(true);
	(dense_loss(dl, w) + 2. * re(dl.sum())).backward();
	for (auto &b : t)
	{
		IL o;
		for (int64_t i = 0; i < t.dim(); ++i)
		{
			auto [x, e] = t.section_sizes(i);
			int64_t p = 0;
			for (size_t k = 0; k < b.first[i]; ++k) p += *(x + k);
			o.push_back(p);
		}
		auto g = sub_block(dl.grad(), o, IL(b.second.sizes().begin(), b.second.sizes().end()));
		PROP(maxabs(grad_of(b.second) - g) <= 1e-12 * (1 + maxabs(g)), name, ": gradient ", tstr(grad_of(b.second)), " instead of ", tstr(g));
		c.nontrivial(maxabs(g) > 0);
	}
}
