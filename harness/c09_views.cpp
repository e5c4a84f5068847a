// C09: views, sub-tensor assignment and block access touch exactly the selected part.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 0-5 over 7 group types with random missing blocks, with a random choice of dimensions fixed to an element; non-trivial when at "
    "least one dimension is fixed, one has several sections, and the tensor has a non-zero element";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {"an assigned sub-tensor has the element type of the tensor it is assigned to"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = [] { torch_case_init(); empty_dims() = 0; };
#define RESULT(t, spec, want, ...)                                              \
	do                                                                          \
	{                                                                           \
		auto &&rs_ = (t);                                                       \
		VALID(rs_, #t " ", ##__VA_ARGS__);                                      \
		HAS_SPEC(rs_, spec, #t " ", ##__VA_ARGS__);                             \
		SAME(dense_of(rs_), want, true, #t " ", ##__VA_ARGS__);                 \
		SAME(rs_.to_dense(), want, true, "to_dense of " #t " ", ##__VA_ARGS__); \
	} while (0)
static BT mk(Case &c, int lo = 0)
{
	auto r = c.range(lo, 5);
	Lim l;
	if (r > 3) l.maxsize = 2;
	if (r > 4) l.maxsec = 2;
	return gen_bt(c, gen_kind(c), r, gen_val(c), l);
}
static std::string show(const IL &d)
{
	std::string s = "{";
	for (auto x : d) s += std::to_string(x) + " ";
	return s + "}";
}
static void note(Case &c, const BT &a, const IL &dims)
{
	bool multi = false, fixed = false;
	for (auto &d : a.s.dims) multi |= d.size() > 1;
	for (auto &d : dims) fixed |= d != -1;
	c.nontrivial(fixed && multi && maxabs(a.d) > 0);
	c.note([&] { return str(a) + " at " + show(dims); });
}
static IL gen_dims(Case &c, const Spec &s)
{
	IL r;
	for (auto &d : s.dims) r.push_back(c.flip() ? (int64_t)c.draw(dim_size(d)) : -1);
	return r;
}
static int64_t section_of(const Dim &d, int64_t e)
{
	int64_t k = 0;
	while (e >= d[k].size) e -= d[k++].size;
	return k;
}
// shape of the selected part
static Spec selected(const Spec &s, const IL &dims)
{
	Spec r;
	r.kind = s.kind;
	r.sel = s.sel;
	for (size_t i = 0; i < dims.size(); ++i)
	{
		if (dims[i] == -1)
			r.dims.push_back(s.dims[i]);
		else
			r.sel = qadd(s.kind, r.sel, qneg(s.kind, s.dims[i][section_of(s.dims[i], dims[i])].q));
	}
	return r;
}
static Tensor selected(Tensor d, const IL &dims)
{
	for (int64_t i = (int64_t)dims.size() - 1; i >= 0; --i)
		if (dims[i] != -1) d = d.select(i, dims[i]);
	return d;
}
static bool in_selection(const Spec &s, const IL &dims, const IL &block)
{
	for (size_t i = 0; i < dims.size(); ++i)
		if (dims[i] != -1 && section_of(s.dims[i], dims[i]) != block[i]) return false;
	return true;
}
FACET(view, 4)
{
	auto a = mk(c);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto sa = snap(a.t);
	auto want = selected(a.d, dims);
	auto sp = selected(a.s, dims);
	auto shape = a.t.shape_from(dims);
	VALID(shape);
	HAS_SPEC(shape, sp);
	PROP(shape.begin() == shape.end(), "shape_from stores blocks");
	HAS_SPEC(shape_from(a.t, dims), sp);
	auto v = a.t.basic_create_view(dims);
	RESULT(v, sp, want);
	UNCHANGED(sa, a.t);
	size_t n = 0;
	for (auto &b : a.t) n += in_selection(a.s, dims, b.first);
	PROP(size_t(v.end() - v.begin()) == n, v.end() - v.begin(), " blocks in the view, ", n, " of the stored blocks are selected");
	// storage is shared, both ways
	if (c.flip())
	{
		int k = 0;
		for (auto &b : v) b.second.fill_(100 + k++);
		auto d = dense_of(v);
		auto expect = a.d.clone();
		selected(expect, dims).copy_(d);
		SAME(dense_of(a.t), expect, true, "after writing in the view");
	}
	else
	{
		int k = 0;
		for (auto &b : a.t) b.second.fill_(100 + k++);
		SAME(dense_of(v), selected(dense_of(a.t), dims), true, "after writing in the viewed tensor");
	}
	VALID(a.t);
	VALID(v);
}
FACET(view_preserving_rank, 2)
{
	auto a = mk(c);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto sa = snap(a.t);
	auto sp = a.s;
	IL sz;
	for (size_t i = 0; i < dims.size(); ++i)
	{
		if (dims[i] != -1) sp.dims[i] = Dim{Sec{1, a.s.dims[i][section_of(a.s.dims[i], dims[i])].q}};
		sz.push_back(dim_size(sp.dims[i]));
	}
	auto want = selected(a.d, dims).reshape(sz);
	auto v = a.t.basic_create_view(dims, true);
	RESULT(v, sp, want);
	UNCHANGED(sa, a.t);
	for (auto &b : v) b.second.fill_(77);
	auto expect = a.d.clone();
	selected(expect, dims).copy_(dense_of(v).reshape(selected(a.d, dims).sizes()));
	SAME(dense_of(a.t), expect, true, "after writing in the view");
}
// assignment to a selection
FACET(assign_block_tensor, 4)
{
	auto a = mk(c);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto v = gen_tensor(c, selected(a.s, dims), a.v);
	auto sv = snap(v.t);
	auto &r = a.t.basic_index_put_(dims, v.t);
	PROP(&r == &a.t);
	UNCHANGED(sv, v.t);
	auto want = a.d.clone();
	selected(want, dims).copy_(v.d);
	RESULT(a.t, a.s, want);
	// the assigned values are a copy
	for (auto &b : v.t) b.second.fill_(55);
	SAME(dense_of(a.t), want, true, "after modification of the assigned tensor");
}
FACET(assign_dense_tensor, 3)
{
	auto a = mk(c);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto sp = selected(a.s, dims);
	auto f = gen_filler(c);
	auto v = fill(f, full_sizes(sp), a.v);
	if (c.chance(1, 4)) v.zero_();
	auto v0 = v.clone();
	auto &r = a.t.basic_index_put_(dims, v);
	PROP(&r == &a.t);
	PROP(v.equal(v0), "assigned tensor modified");
	auto want = a.d.clone();
	selected(want, dims).copy_(v * mask(sp).to(v.scalar_type())); // what the conservation law forbids is dropped
	RESULT(a.t, a.s, want);
	v.fill_(55);
	SAME(dense_of(a.t), want, true, "after modification of the assigned tensor");
}
FACET(assign_view_of_self, 1)
{
	auto a = mk(c, 1);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto v = a.t.basic_create_view(dims);
	a.t.basic_index_put_(dims, v);
	RESULT(a.t, a.s, a.d);
}
FACET(assign_history, 2)
{
	auto a = mk(c, 1);
	bool first = true;
	for (int n = c.range(1, 5); n > 0; --n)
	{
		auto dims = gen_dims(c, a.s);
		if (first) note(c, a, dims);
		first = false;
		auto v = gen_tensor(c, selected(a.s, dims), a.v);
		a.t.basic_index_put_(dims, v.t);
		selected(a.d, dims).copy_(v.d);
		RESULT(a.t, a.s, a.d, show(dims));
		RESULT(a.t.basic_create_view(dims), v.s, v.d, show(dims));
	}
}
FACET(assignment_refused, 3)
{
	auto a = mk(c, 1);
	auto dims = gen_dims(c, a.s);
	note(c, a, dims);
	auto sp = selected(a.s, dims);
	auto sa = snap(a.t);
	int w = c.draw(6);
	if (w == 0) // wrong charge
	{
		auto q = gen_q(c, a.s.kind);
		c.assume(qnorm(a.s.kind, q) != qzero(a.s.kind));
		sp.sel = qadd(a.s.kind, sp.sel, q);
		auto v = gen_tensor(c, sp, a.v);
		auto sv = snap(v.t);
		MUST_THROW(a.t.basic_index_put_(dims, v.t), "wrong selection rule");
		UNCHANGED(sv, v.t);
	}
	else if (w == 1 || w == 2) // a section of the wrong size or charge
	{
		c.assume(sp.rank() > 0);
		auto &d = sp.dims[c.draw(sp.rank())];
		auto &x = d[c.draw(d.size())];
		if (w == 1)
			x.size += c.range(1, 2);
		else
		{
			auto q = gen_q(c, a.s.kind);
			c.assume(qnorm(a.s.kind, q) != qzero(a.s.kind));
			x.q = qadd(a.s.kind, x.q, q);
		}
		auto v = gen_tensor(c, sp, a.v);
		MUST_THROW(a.t.basic_index_put_(dims, v.t), "wrong section ", str(v.s));
		if (w == 1)
		{
			auto f = gen_filler(c);
			MUST_THROW(a.t.basic_index_put_(dims, fill(f, full_sizes(sp), a.v)), "wrong dense size ", str(v.s));
		}
	}
	else if (w == 3) // one dimension more
	{
		sp.dims.push_back(Dim{Sec{1, qzero(a.s.kind)}});
		auto v = gen_tensor(c, sp, a.v);
		MUST_THROW(a.t.basic_index_put_(dims, v.t), "rank");
		MUST_THROW(a.t.basic_index_put_(dims, v.d), "rank");
	}
	else // bad selection
	{
		auto bad = dims;
		int64_t k = c.draw(dims.size());
		int m = c.draw(4);
		if (m == 0) bad[k] = dim_size(a.s.dims[k]) + c.range(0, 2);
		if (m == 1) bad[k] = -2 - c.range(0, 2);
		if (m == 2) bad.push_back(-1);
		if (m == 3) bad.pop_back();
		auto v = gen_tensor(c, sp, a.v);
		c.note([&] { return "selection " + show(bad); });
		MUST_THROW(a.t.shape_from(bad), show(bad));
		MUST_THROW(a.t.basic_create_view(bad), show(bad));
		MUST_THROW(a.t.basic_index_put_(bad, v.t), show(bad));
		MUST_THROW(a.t.basic_index_put_(bad, v.d), show(bad));
	}
	UNCHANGED(sa, a.t, "after a refused assignment");
}
static IL gen_block(Case &c, const Spec &s)
{
	IL r;
	for (auto &d : s.dims) r.push_back(c.draw(d.size()));
	return r;
}
FACET(block_access, 4)
{
	auto a = mk(c);
	note(c, a, c.flip() ? IL{} : IL{0});
	for (int n = c.range(1, 4); n > 0; --n)
	{
		auto al = allowed_blocks(a.s);
		auto b = al.size() && c.chance(2, 3) ? c.pick(al) : gen_block(c, a.s);
		bool present = false;
		for (auto &x : a.t) present |= x.first == b;
		auto sa = snap(a.t);
		PROP(a.t.blocks().contains(b) == present);
		PROP(a.t.block_conservation_rule_test(b) == allowed(a.s, b), show(b));
		if (present)
		{
			auto &x = a.t.block_at(b);
			auto &y = a.t.block(b);
			PROP(&x == &y);
			SAME(x, sub_block(a.d, block_offsets(a.s, b), block_sizes(a.s, b)), true, show(b));
			UNCHANGED(sa, a.t, "by access");
		}
		else
		{
			bool oor = false;
			try
			{
				a.t.block_at(b);
			}
			catch (const std::out_of_range &)
			{
				oor = true;
			}
			PROP(oor, "no out_of_range for the absent block ", show(b));
			UNCHANGED(sa, a.t, "by access");
		}
		auto f = gen_filler(c);
		auto x = fill(f, block_sizes(a.s, b), a.v);
		if (allowed(a.s, b))
		{
			a.t.block(b) = x.clone();
			sub_block(a.d, block_offsets(a.s, b), block_sizes(a.s, b)).copy_(x);
			PROP(a.t.block_at(b).equal(x));
			if (c.flip())
			{
				a.t.block(b).mul_(2);
				sub_block(a.d, block_offsets(a.s, b), block_sizes(a.s, b)).mul_(2);
			}
		}
		else
		{
			MUST_THROW(a.t.block(b), "forbidden block ", show(b));
			UNCHANGED(sa, a.t, "by access to a forbidden block");
		}
		RESULT(a.t, a.s, a.d);
	}
	// positions that do not exist
	auto sa = snap(a.t);
	auto b = gen_block(c, a.s);
	int m = a.s.rank() ? c.draw(4) : 0;
	if (m == 0) b.push_back(0);
	if (m == 1) b.pop_back();
	if (m >= 2)
	{
		auto k = c.draw(b.size());
		b[k] = m == 2 ? a.s.dims[k].size() + c.range(0, 2) : -1 - c.range(0, 2);
	}
	MUST_THROW(a.t.block(b), "block ", show(b), " does not exist");
	MUST_THROW(a.t.block_at(b), "block ", show(b), " does not exist");
	UNCHANGED(sa, a.t, "by access to a block that does not exist");
}
FACET(structure, 3)
{
	empty_dims() = 40;
	auto a = mk(c);
	note(c, a, IL{0});
	auto &s = a.s;
	PROP(a.t.dim() == (int64_t)s.rank());
	PROP(a.t.sizes() == full_sizes(s));
	for (size_t i = 0; i < s.rank(); ++i)
	{
		PROP(a.t.section_number(i) == s.dims[i].size());
		PROP(a.t.section_numbers()[i] == (int64_t)s.dims[i].size());
		auto [cb, ce] = std::as_const(a.t).section_conserved_qtt_range(i);
		PROP(size_t(ce - cb) == s.dims[i].size());
		int64_t e = 0;
		for (size_t k = 0; k < s.dims[i].size(); ++k)
		{
			auto q = to_any(s.kind, s.dims[i][k].q);
			PROP(a.t.section_size(i, k) == (size_t)s.dims[i][k].size);
			PROP(a.t.section_conserved_qtt(i, k) == q);
			PROP(*(cb + k) == q);
			auto [sz, cq] = a.t.section_size_cqtt(i, k);
			PROP(sz == (size_t)s.dims[i][k].size && cq == q);
			for (int64_t j = 0; j < s.dims[i][k].size; ++j) PROP(a.t.element_conserved_qtt(i, e++) == q, "dim ", i, " element ", e - 1);
		}
		MUST_THROW(a.t.element_conserved_qtt(i, e), "element past the end");
		MUST_THROW(a.t.element_conserved_qtt(i, e + 3), "element past the end");
	}
	// the increment visits every block exactly once and comes back
	int64_t total = 1;
	for (auto &d : s.dims) total *= d.size();
	std::set<IL> seen;
	IL idx(s.rank(), 0);
	for (int64_t k = 0; k < total; ++k)
	{
		PROP(seen.insert(idx).second, "block ", show(idx), " visited twice");
		for (size_t i = 0; i < idx.size(); ++i) PROP(idx[i] >= 0 && idx[i] < (int64_t)s.dims[i].size(), "increment out of range");
		auto bs = a.t.block_sizes(idx);
		PROP(IL(bs.begin(), bs.end()) == block_sizes(s, idx));
		size_t i = 0;
		for (auto &&q : a.t.block_quantities(idx))
		{
			PROP(q == to_any(s.kind, s.dims[i][idx[i]].q));
			++i;
		}
		PROP(i == s.rank());
		PROP(a.t.block_conservation_rule_test(idx) == allowed(s, idx));
		a.t.block_increment(idx);
	}
	PROP(idx == IL(s.rank(), 0), "increment does not come back to the first block");
	if (numel(s)) PROP(btensor::btensor_compute_max_size(a.t) >= allowed_blocks(s).size(), btensor::btensor_compute_max_size(a.t));
	// element to block coordinates
	if (s.rank() && numel(s))
	{
		IL e, bi, off;
		for (auto &d : s.dims)
		{
			e.push_back(c.draw(dim_size(d)));
			bi.push_back(section_of(d, e.back()));
		}
		auto bo = block_offsets(s, bi);
		for (size_t i = 0; i < e.size(); ++i) off.push_back(e[i] - bo[i]);
		auto [x, y] = a.t.element_index_decompose(e);
		PROP(x == bi && y == off, show(e), " gives ", show(x), show(y));
	}
	// single element
	if (numel(s) == 1)
	{
		auto z = a.t.item();
		PROP(z.toComplexDouble() == a.d.item().toComplexDouble());
	}
	// the shape of a tensor product
	auto b = gen_bt(c, s.kind, c.range(0, 2), a.v);
	Spec p = s;
	p.dims.insert(p.dims.end(), b.s.dims.begin(), b.s.dims.end());
	p.sel = qadd(s.kind, s.sel, b.s.sel);
	HAS_SPEC(shape_from(a.t, b.t), p);
	HAS_SPEC(a.t.tensor_product_shape(b.t), p);
	auto p3 = p;
	p3.dims.insert(p3.dims.end(), b.s.dims.begin(), b.s.dims.end());
	p3.sel = qadd(s.kind, p.sel, b.s.sel);
	HAS_SPEC(shape_from(std::vector<btensor>{a.t, b.t, b.t}), p3);
	HAS_SPEC(disambiguated_shape_from({a.t, b.t, b.t}), p3);
	// an empty tensor can be made neutral
	Spec n = s;
	n.sel = qzero(s.kind);
	for (auto &d : n.dims)
		for (auto &x : d) x.q = qzero(s.kind);
	auto e = sparse_zeros_like(a.t);
	HAS_SPEC(e, s);
	HAS_SPEC(e.neutral_shape(), n);
	HAS_SPEC(e, s);
	PROP(&e.neutral_shape_() == &e);
	HAS_SPEC(e, n);
	if (a.t.begin() != a.t.end()) MUST_THROW(a.t.neutral_shape_(), "a tensor with blocks has no neutral shape");
}
FACET(dense_shapes, 1)
{
	IL a, b, d, k;
	for (int n = c.range(0, 4); n > 0; --n) a.push_back(c.range(1, 4));
	for (int n = c.range(0, 3); n > 0; --n) b.push_back(c.range(1, 4));
	for (auto x : a)
	{
		d.push_back(c.flip() ? -1 : (int64_t)c.draw(x));
		if (d.back() == -1) k.push_back(x);
	}
	c.nontrivial(a.size() > 1);
	c.note([&] { return show(a) + show(b) + show(d); });
	auto ta = torch::zeros(a), tb = torch::zeros(b, torch::kComplexDouble);
	torch_shape sa(ta), sb(tb);
	IL ab = a;
	ab.insert(ab.end(), b.begin(), b.end());
	PROP(shape_from(sa, sb).sizes().vec() == ab);
	PROP(shape_from({sb, sa, sb}).dim() == int64_t(a.size() + 2 * b.size()));
	PROP(shape_from(sa, d).sizes().vec() == k, show(shape_from(sa, d).sizes().vec()));
}
