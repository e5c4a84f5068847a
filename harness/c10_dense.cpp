// C10: conversion between dense and block tensors, search for a selection rule, factories.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block structures of rank 0-5 over 7 group types with random dense or block content; non-trivial when some dimension has two sections or more and the "
    "structure has both allowed and forbidden blocks";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {"an element type given explicitly to the conversion can represent the values"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = [] { torch_case_init(); empty_dims() = 40; };
static bool rich(const Spec &s)
{
	bool multi = false;
	size_t n = 1;
	for (auto &d : s.dims) multi |= d.size() > 1, n *= d.size();
	auto a = allowed_blocks(s).size();
	return multi && a > 0 && a < n;
}
static void note(Case &c, const Spec &s)
{
	c.nontrivial(rich(s));
	c.note([&] { return str(s); });
}
static Spec mk(Case &c, int lo = 0, int hi = 5)
{
	auto r = c.range(lo, hi);
	Lim l;
	if (r > 3) l.maxsize = 2;
	if (r > 4) l.maxsec = 2;
	return gen_spec(c, gen_kind(c), r, l);
}
static size_t stored(const btensor &t) { return t.end() - t.begin(); }
static bool types(const btensor &t, torch::ScalarType ty)
{
	for (auto &b : t)
		if (b.second.scalar_type() != ty) return false;
	return t.options().dtype().toScalarType() == ty;
}
static double fro(const Tensor &t) { return t.numel() ? t.abs().to(torch::kFloat64).pow(2).sum().sqrt().item().toDouble() : 0.; }

FACET(to_dense, 3)
{
	auto s = mk(c);
	note(c, s);
	auto v = gen_val(c);
	auto a = gen_tensor(c, s, v);
	auto sa = snap(a.t);
	auto d = a.t.to_dense();
	PROP(d.scalar_type() == dtype(v), "element type of to_dense");
	SAME(d, a.d, true);
	d.fill_(3);
	UNCHANGED(sa, a.t, "by writing in its dense form");
	// a view or permutation (non-contiguous blocks) converts as well
	auto p = c.permutation(s.rank());
	SAME(a.t.permute(p).to_dense(), a.d.permute(p), true);
}
FACET(single_element, 1)
{
	// a tensor of a single element is that number, stored or not; anything else is not a number
	Lim l;
	l.maxsec = c.chance(1, 3) ? 2 : 1;
	l.maxsize = c.chance(1, 4) ? 2 : 1;
	auto s = gen_spec(c, gen_kind(c), c.range(0, 4), l);
	auto v = gen_val(c);
	auto a = gen_tensor(c, s, v);
	auto sa = snap(a.t);
	int64_t n = 1;
	for (auto x : full_sizes(s)) n *= x;
	c.nontrivial(s.rank() > 0 && (n == 1 || n == 2));
	c.note([&] { return cat(str(s), stored(a.t), " blocks"); });
	if (n == 1)
	{
		auto z = a.t.item();
		PROP(z.toComplexDouble() == a.d.item().toComplexDouble(), "item() gives ", z.toComplexDouble().real());
		PROP(z.isComplex() == is_cplx(v), "kind of number");
	}
	else
		MUST_THROW(a.t.item(), "a tensor of ", n, " elements with ", stored(a.t), " blocks, converted to a number");
	UNCHANGED(sa, a.t, "by item()");
}
FACET(from_dense, 4)
{
	auto s = mk(c);
	note(c, s);
	auto v = gen_val(c);
	auto f = gen_filler(c);
	auto d = fill(f, full_sizes(s), v);
	auto m = mask(s);
	bool respects = c.flip();
	if (respects) d = d * m.to(d.scalar_type());
	// some blocks are small
	double scale = std::pow(10., -(double)c.range(1, 12));
	std::set<IL> small;
	for (auto &b : allowed_blocks(s))
		if (c.chance(1, 3))
		{
			sub_block(d, block_offsets(s, b), block_sizes(s, b)).mul_(c.chance(1, 3) || v == Val::i64 ? torch::Scalar(int64_t(0)) : torch::Scalar(scale));
			small.insert(b);
		}
	if (c.chance(1, 3) && d.dim() > 1) d = d.transpose(0, d.dim() - 1).contiguous().transpose(0, d.dim() - 1);
	auto d0 = d.clone();
	auto want = d * m.to(d.scalar_type());
	double cut = c.pick(std::vector<double>{1e-16, 0., scale * 0.3, scale * 5, 1e-3, 1.0});
	bool deflt = c.chance(1, 3);
	if (deflt) cut = 1e-16;
	// keep away from the threshold
	for (auto &b : allowed_blocks(s))
	{
		auto n = fro(sub_block(d, block_offsets(s, b), block_sizes(s, b)));
		c.assume(n == 0 || std::abs(n - cut) > 1e-5 * std::max(n, cut));
	}
	btensor r;
	if (c.flip())
		r = deflt ? from_basic_tensor(vec_list(s), to_any(s.kind, s.sel), d) : from_basic_tensor(vec_list(s), to_any(s.kind, s.sel), d, cut);
	else
	{
		auto shape = make_shape(s, dtype(v));
		if (c.flip()) shape = gen_tensor(c, s, v).t;
		auto ss = snap(shape);
		r = deflt ? from_basic_tensor_like(shape, d) : from_basic_tensor_like(shape, d, cut);
		UNCHANGED(ss, shape);
	}
	PROP(d.equal(d0), "dense tensor modified");
	VALID(r);
	HAS_SPEC(r, s);
	for (auto &b : allowed_blocks(s))
	{
		auto w = sub_block(want, block_offsets(s, b), block_sizes(s, b));
		bool keep = fro(w) > cut;
		PROP(r.blocks().contains(b) == keep, "block of norm ", fro(w), (keep ? " dropped" : " stored"), " with cut off ", cut);
		if (!keep) w.zero_();
	}
	SAME(dense_of(r), want, true);
	PROP(types(r, dtype(v)), "element type of the conversion");
	SAME(r.to_dense(), want, true);
	if (respects && cut < 1e-13) SAME(r.to_dense(), d0, false, "round trip");
	// and back to blocks
	auto q = from_basic_tensor_like(r, r.to_dense(), 0.);
	VALID(q);
	SAME(dense_of(q), want, true);
	PROP(stored(q) == stored(r));
}
FACET(from_dense_refused, 1)
{
	auto s = mk(c);
	note(c, s);
	auto sz = full_sizes(s);
	int m = s.rank() ? c.draw(3) : 0;
	if (m == 0) sz.push_back(c.range(1, 2));
	if (m == 1) sz.pop_back();
	if (m == 2)
	{
		auto &x = sz[c.draw(sz.size())];
		x = x <= 1 || c.flip() ? x + c.range(1, 2) : x - 1;
	}
	auto d = torch::ones(sz);
	MUST_THROW(from_basic_tensor(vec_list(s), to_any(s.kind, s.sel), d), d.sizes());
	MUST_THROW(from_basic_tensor_like(make_shape(s), d), d.sizes());
}
FACET(conversion_with_element_type, 1)
{
	auto s = mk(c);
	note(c, s);
	auto f = gen_filler(c);
	auto v = c.flip() ? Val::ints : Val::f32;
	auto d = fill(f, full_sizes(s), v) * mask(s).to(dtype(v));
	auto ty = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble});
	auto r = c.flip() ? from_basic_tensor(vec_list(s), to_any(s.kind, s.sel), d, 1e-16, torch::TensorOptions().dtype(ty))
	                  : from_basic_tensor_like(make_shape(s, dtype(v)), d, 1e-16, torch::TensorOptions().dtype(ty));
	VALID(r);
	HAS_SPEC(r, s);
	PROP(types(r, ty), "element type");
	SAME(dense_of(r), d, true);
	SAME(r.to_dense(), d, true);
	auto t = r.to(torch::kComplexDouble);
	HAS_SPEC(t, s);
	PROP(types(t, torch::kComplexDouble));
	SAME(t.to_dense(), d, true);
}
FACET(rule_search, 4)
{
	auto s = mk(c, 2, 2);
	note(c, s);
	auto v = c.pick(std::vector<Val>{Val::ints, Val::real, Val::cplx});
	auto a = gen_tensor(c, s, v);
	auto d = a.d.clone();
	double cut = c.pick(std::vector<double>{0., 1e-6, 0.5});
	auto shape = make_shape(s, dtype(v));
	if (c.flip()) shape = make_shape([&] { auto z = s; z.sel = gen_q(c, s.kind); return z; }(), dtype(v)); // its selection rule does not matter
	// noise below the threshold, anywhere
	if (cut > 0 && c.flip())
	{
		auto f = gen_filler(c);
		d = d + fill(f, full_sizes(s), Val::real).to(d.scalar_type()) * (cut * 0.4);
	}
	bool odd = c.chance(1, 3);
	if (odd && numel(s))
	{
		IL bi{(int64_t)c.draw(dim_size(s.dims[0])), (int64_t)c.draw(dim_size(s.dims[1]))};
		d.index_put_({bi[0], bi[1]}, 7.);
	}
	// charges of the significant elements
	std::set<Q> qs;
	auto ab = d.abs().to(torch::kFloat64);
	for_blocks(s, [&](const IL &b) {
		auto x = sub_block(ab, block_offsets(s, b), block_sizes(s, b));
		if ((x > cut).any().item().toBool()) qs.insert(block_charge(s, b));
	});
	bool near = ((ab - cut).abs() < 1e-9 * (1 + cut)).any().item().toBool() && cut > 0;
	c.assume(!near);
	if (c.chance(1, 3)) d = d.t().contiguous().t();
	if (qs.size() > 1)
		MUST_THROW(find_selection_rule(d, shape, cut), "elements of ", qs.size(), " charges");
	else
	{
		auto q = cut == 0 && c.flip() ? find_selection_rule(d, shape) : find_selection_rule(d, shape, cut);
		PROP(q == to_any(s.kind, qs.empty() ? qzero(s.kind) : *qs.begin()), "found ", fmt::format("{}", q));
		// under that rule the conversion keeps everything significant
		auto z = shape;
		z.set_selection_rule_(q);
		auto r = from_basic_tensor_like(z, d);
		VALID(r);
		auto diff = (r.to_dense() - d).abs().to(torch::kFloat64);
		PROP(maxabs(diff) <= cut, "lost an element of size ", maxabs(diff));
	}
	c.label(qs.size() > 1 ? "no rule" : qs.empty() ? "nothing significant" : "one rule");
}
FACET(rule_search_refused, 1)
{
	auto s = mk(c, 1, 3);
	note(c, s);
	auto sz = full_sizes(s);
	if (s.rank() == 2)
	{
		auto &x = sz[c.draw(2)];
		x = x <= 1 || c.flip() ? x + c.range(1, 2) : x - 1;
	}
	MUST_THROW(find_selection_rule(torch::ones(sz), make_shape(s)), "rank or size mismatch");
	auto two = mk(c, 2, 2);
	if (s.rank() != 2)
	{
		MUST_THROW(find_selection_rule(torch::ones(full_sizes(two)), make_shape(s)), "rank of the shape");
		MUST_THROW(find_selection_rule(torch::ones(full_sizes(s)), make_shape(two)), "rank of the tensor");
	}
}
FACET(factories, 5)
{
	auto s = mk(c);
	note(c, s);
	auto ty = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble});
	auto sty = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble});
	auto opt = torch::TensorOptions().dtype(ty);
	auto vl = vec_list(s);
	auto sel = to_any(s.kind, s.sel);
	bool like = c.flip(), with_opt = c.flip();
	auto shape = make_shape(s, sty);
	if (c.flip())
		for (auto &b : allowed_blocks(s))
			if (c.flip()) shape.block(b) = torch::full(block_sizes(s, b), 5, sty);
	auto ss = snap(shape);
	torch::ScalarType wt = with_opt ? ty : like ? sty : torch::kFloat64;
	auto o = with_opt ? opt : torch::TensorOptions();
	int64_t lo = c.range(-3, 3), hi = lo + c.range(1, 4);
	double val = c.range(-3, 3) * 0.5;
	auto m = mask(s);
	int w = c.draw(10);
	if (w == 5 || w == 8) c.assume(wt != torch::kComplexDouble); // torch has no complex random integers
	btensor r;
	switch (w)
	{
	case 0: r = like ? zeros_like(shape, o) : zeros(vl, sel, o); break;
	case 1: r = like ? ones_like(shape, o) : ones(vl, sel, o); break;
	case 2: r = like ? empty_like(shape, o) : empty(vl, sel, o); break;
	case 3: r = like ? rand_like(shape, o) : rand(vl, sel, o); break;
	case 4: r = like ? full_like(shape, val, o) : full(vl, sel, val, o); break;
	case 5: r = like ? (c.flip() ? randint_like(lo, hi, shape, o) : randint_like(shape, lo, hi, o))
	                 : (c.flip() ? randint(lo, hi, vl, sel, o) : randint(vl, sel, lo, hi, o));
		break;
	case 6: r = like ? randn_like(shape, o) : randn(vl, sel, o); break;
	case 7: r = like ? sparse_zeros_like(shape, o) : sparse_zeros(vl, sel, o); break;
	case 8:
		hi = c.range(1, 5);
		lo = 0;
		r = like ? (c.flip() ? randint_like(hi, shape, o) : randint_like(shape, hi, o)) : (c.flip() ? randint(hi, vl, sel, o) : randint(vl, sel, hi, o));
		break;
	default: r = btensor(vl, sel, o); like = false; wt = with_opt ? ty : torch::kFloat64; break;
	}
	if (w == 2)
		for (auto &b : r) b.second.zero_(); // its values are arbitrary
	c.label(cat("factory ", w));
	VALID(r);
	HAS_SPEC(r, s, "factory ", w);
	PROP(types(r, wt), "element type of factory ", w, ": ", r.options().dtype().name());
	bool sparse = w == 7 || w == 9;
	PROP(stored(r) == (sparse ? 0 : allowed_blocks(s).size()), "factory ", w, " stores ", stored(r), " blocks");
	auto d = dense_of(r);
	SAME(r.to_dense(), d, true);
	auto mm = m.to(torch::kFloat64);
	if (w == 0 || w == 2 || sparse) SAME(d, torch::zeros_like(m), true);
	if (w == 1) SAME(d, m, true);
	if (w == 4) SAME(d, m * val, true);
	auto re = torch::real(d).to(torch::kFloat64);
	if (numel(s))
	{
		if (w == 3) PROP(re.min().item().toDouble() >= 0 && re.max().item().toDouble() < 1);
		if (w == 5 || w == 8)
		{
			auto in = re.masked_select(m > 0);
			if (in.numel()) PROP(in.min().item().toDouble() >= lo && in.max().item().toDouble() < hi && in.equal(in.round()), "values outside of [", lo, ",", hi, ")");
		}
		if (w == 6 || w == 3)
		{
			// continuous distributions do not repeat a value
			auto in = re.masked_select(m > 0);
			if (in.numel() > 1 && wt != torch::kFloat32) PROP(std::get<0>(at::_unique(in)).numel() == in.numel(), "repeated random values");
		}
	}
	UNCHANGED(ss, shape);
	// blocks are independent of each other and of later tensors
	if (!sparse && stored(r) > 1)
	{
		auto d1 = dense_of(r);
		auto b = r.begin()->first;
		r.begin()->second.fill_(9);
		sub_block(d1, block_offsets(s, b), block_sizes(s, b)).fill_(9);
		SAME(dense_of(r), d1, true, "blocks share storage");
	}
}
FACET(identity, 2)
{
	empty_dims() = 0; // eye() takes the kind of charge from the first section
	auto k = gen_kind(c);
	Lim l;
	bool one = c.flip();
	Spec s;
	s.kind = k;
	s.sel = qzero(k);
	s.dims.push_back(gen_dim(c, k, l));
	s.dims.push_back(one || c.chance(1, 2) ? conj_dim(k, s.dims[0]) : gen_dim(c, k, l));
	auto ty = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kComplexDouble});
	auto opt = torch::TensorOptions().dtype(ty);
	btensor r;
	if (one)
	{
		auto h = s;
		h.dims.pop_back();
		r = eye(vec_list(h), opt);
	}
	else if (c.flip())
		r = eye(vec_list(s), opt);
	else
	{
		if (c.flip()) s.sel = block_charge(s, {(int64_t)c.draw(s.dims[0].size()), (int64_t)c.draw(s.dims[1].size())});
		r = eye_like(make_shape(s, ty));
	}
	note(c, s);
	VALID(r);
	HAS_SPEC(r, s);
	PROP(types(r, ty), "element type");
	auto want = torch::zeros(full_sizes(s));
	for (size_t i = 0; i < std::min(s.dims[0].size(), s.dims[1].size()); ++i)
	{
		IL b{(int64_t)i, (int64_t)i};
		if (allowed(s, b)) sub_block(want, block_offsets(s, b), block_sizes(s, b)).copy_(torch::eye(s.dims[0][i].size, s.dims[1][i].size));
	}
	SAME(dense_of(r), want, true);
	if (one)
	{
		// the identity of the contraction
		auto sp = gen_spec(c, k, 2);
		sp.dims[0] = s.dims[0];
		sp.sel = gen_sel(c, sp);
		auto a = gen_tensor(c, sp, Val::ints);
		auto p = tensordot(r.to(torch::kFloat64), a.t, {1}, {0});
		SAME(dense_of(p), a.d, true);
		HAS_SPEC(p, sp);
	}
	auto bad = mk(c, 3, 4);
	MUST_THROW(eye(vec_list(bad)), "rank ", bad.rank());
	MUST_THROW(eye_like(make_shape(bad)), "rank ", bad.rank());
	MUST_THROW(eye_like(make_shape(mk(c, 0, 1))), "rank");
}
FACET(default_element_type, 1)
{
	auto s = mk(c);
	note(c, s);
	auto vl = vec_list(s);
	auto sel = to_any(s.kind, s.sel);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat32));
	auto a = ones(vl, sel);
	auto z = sparse_zeros(vl, sel);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	// the element type is that of the time of creation
	PROP(types(a, torch::kFloat32) && types(z, torch::kFloat32));
	PROP(types(ones_like(a), torch::kFloat32) && types(zeros_like(z), torch::kFloat32));
	PROP(a.to_dense().scalar_type() == torch::kFloat32 && z.to_dense().scalar_type() == torch::kFloat32);
	SAME(a.to_dense(), mask(s), true);
}
