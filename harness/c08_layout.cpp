// C08: permute, transpose, reshape and squeeze move every block to its documented place and are invertible.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random block tensors of rank 0-5 over 7 group types with random missing blocks, permuted, transposed, grouped, regrouped and squeezed; non-trivial when the "
    "tensor has rank two or more, a dimension with at least two sections, and a non-zero element";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {"the dimension given to squeeze(dim) is not negative"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;

static void note(Case &c, const BT &a)
{
	bool multi = false;
	for (auto &d : a.s.dims) multi |= d.size() > 1;
	c.nontrivial(a.s.rank() >= 2 && multi && maxabs(a.d) > 0);
	c.note([&] { return str(a); });
}
#define RESULT(t, spec, want, ...)                                               \
	do                                                                           \
	{                                                                            \
		auto &&rs_ = (t);                                                        \
		VALID(rs_, #t " ", ##__VA_ARGS__);                                       \
		HAS_SPEC(rs_, spec, #t " ", ##__VA_ARGS__);                              \
		SAME(dense_of(rs_), want, true, #t " ", ##__VA_ARGS__);                  \
		SAME(rs_.to_dense(), want, true, "to_dense of " #t " ", ##__VA_ARGS__);  \
	} while (0)
static Spec permuted(const Spec &s, const IL &p)
{
	Spec r = s;
	for (size_t i = 0; i < p.size(); ++i) r.dims[i] = s.dims[p[i]];
	return r;
}
static BT mk(Case &c, int lo = 0)
{
	auto r = c.range(lo, 5);
	Lim l;
	if (r > 3) l.maxsize = 2;
	if (r > 4) l.maxsec = 2;
	return gen_bt(c, gen_kind(c), r, gen_val(c), l);
}
FACET(permutation, 4)
{
	auto a = mk(c);
	note(c, a);
	auto p = c.permutation(a.s.rank()), q = p;
	if (c.chance(1, 3))
		for (auto &x : q)
			if (c.flip()) x -= a.s.rank();
	auto sa = snap(a.t);
	auto want = a.d.permute(p);
	auto sp = permuted(a.s, p);
	btensor r;
	if (c.flip())
		r = a.t.permute(q);
	else
	{
		r = a.t;
		auto &x = r.permute_(q);
		PROP(&x == &r);
	}
	UNCHANGED(sa, a.t);
	RESULT(r, sp, want);
	PROP(size_t(r.end() - r.begin()) == size_t(a.t.end() - a.t.begin()), "number of stored blocks");
	// inverse
	IL inv(p.size());
	for (size_t i = 0; i < p.size(); ++i) inv[p[i]] = i;
	RESULT(r.permute(inv), a.s, a.d);
	// composition
	auto p2 = c.permutation(a.s.rank());
	RESULT(r.permute(p2), permuted(sp, p2), want.permute(p2));
}
FACET(transposition, 2)
{
	auto a = mk(c, 1);
	note(c, a);
	int64_t R = a.s.rank(), i = c.draw(R), j = c.draw(R);
	auto n = [&](int64_t x) { return c.chance(1, 3) ? x - R : x; };
	IL p(R);
	for (int64_t k = 0; k < R; ++k) p[k] = k;
	std::swap(p[i], p[j]);
	auto sa = snap(a.t);
	RESULT(a.t.transpose(n(i), n(j)), permuted(a.s, p), a.d.transpose(i, j));
	UNCHANGED(sa, a.t);
	auto b = a.t;
	auto &x = b.transpose_(n(i), n(j));
	PROP(&x == &b);
	RESULT(b, permuted(a.s, p), a.d.transpose(i, j));
	UNCHANGED(sa, a.t);
	RESULT(b.transpose(i, j), a.s, a.d);
	if (R >= 2)
	{
		IL q(R);
		for (int64_t k = 0; k < R; ++k) q[k] = k;
		std::swap(q[R - 1], q[R - 2]);
		RESULT(a.t.t(), permuted(a.s, q), a.d.transpose(R - 1, R - 2));
	}
}
// ---------------------------------------------------------------- grouping of dimensions
static Spec grouped(const Spec &s, const IL &full)
{
	Spec r;
	r.kind = s.kind;
	r.sel = s.sel;
	for (size_t g = 0; g + 1 < full.size(); ++g)
	{
		Dim d{Sec{1, qzero(s.kind)}};
		for (auto i = full[g]; i < full[g + 1]; ++i)
		{
			Dim n;
			for (auto &x : d)
				for (auto &y : s.dims[i]) n.push_back(Sec{x.size * y.size, qadd(s.kind, x.q, y.q)});
			d = n;
		}
		r.dims.push_back(d);
	}
	return r;
}
static IL group_index(const Spec &s, const IL &full, const IL &idx)
{
	IL r;
	for (size_t g = 0; g + 1 < full.size(); ++g)
	{
		int64_t k = 0;
		for (auto i = full[g]; i < full[g + 1]; ++i) k = k * s.dims[i].size() + idx[i];
		r.push_back(k);
	}
	return r;
}
static Tensor grouped_dense(const BT &a, const IL &full, const Spec &g)
{
	auto r = torch::zeros(full_sizes(g), a.d.options());
	for (auto &b : allowed_blocks(a.s))
	{
		auto gi = group_index(a.s, full, b);
		auto sz = block_sizes(g, gi);
		sub_block(r, block_offsets(g, gi), sz).copy_(sub_block(a.d, block_offsets(a.s, b), block_sizes(a.s, b)).reshape(sz));
	}
	return r;
}
static IL gen_groups(Case &c, int64_t R, bool empty_groups)
{
	IL g;
	for (int64_t i = 1; i < R; ++i)
		if (c.flip()) g.push_back(i);
	if (empty_groups && c.chance(1, 4)) // bundles of no dimension: a dimension of size one
	{
		auto n = c.range(1, 2);
		for (int64_t i = 0; i < n; ++i) g.push_back(c.draw(R + 1));
		std::sort(g.begin(), g.end());
	}
	return g;
}
static IL full_groups(const IL &g, int64_t R)
{
	IL f{0};
	f.insert(f.end(), g.begin(), g.end());
	f.push_back(R);
	return f;
}
FACET(grouping, 4)
{
	auto a = mk(c);
	note(c, a);
	int64_t R = a.s.rank();
	auto g = gen_groups(c, R, true);
	auto f = full_groups(g, R);
	c.note([&] { return cat("groups ", torch::IntArrayRef(g)); });
	auto sp = grouped(a.s, f);
	auto want = grouped_dense(a, f, sp);
	auto sa = snap(a.t);
	auto r = a.t.reshape(torch::IntArrayRef(g));
	RESULT(r, sp, want);
	UNCHANGED(sa, a.t);
	// and back
	auto shape = make_shape(a.s, dtype(a.v));
	RESULT(r.reshape_as(shape), a.s, a.d);
	RESULT(r.reshape_as(a.t), a.s, a.d);
	// any other grouping of the same dimensions can be reached directly
	auto g2 = gen_groups(c, R, true);
	auto f2 = full_groups(g2, R);
	auto sp2 = grouped(a.s, f2);
	RESULT(r.reshape_as(make_shape(sp2, dtype(a.v))), sp2, grouped_dense(a, f2, sp2));
	// the selection rule of the target does not matter, nor the way charges are spread over the dimensions
	auto sp3 = sp2;
	sp3.sel = gen_q(c, a.s.kind);
	if (sp3.rank() >= 2)
	{
		auto i = c.draw(sp3.rank()), j = c.draw(sp3.rank());
		auto q = gen_q(c, a.s.kind);
		for (auto &x : sp3.dims[i]) x.q = qadd(a.s.kind, x.q, q);
		for (auto &x : sp3.dims[j]) x.q = qadd(a.s.kind, x.q, qneg(a.s.kind, q));
	}
	auto r3 = r.reshape_as(make_shape(sp3, dtype(a.v)));
	sp3.sel = a.s.sel;
	RESULT(r3, sp3, grouped_dense(a, f2, sp2));
}
FACET(overwritten_charges, 2)
{
	auto a = mk(c);
	note(c, a);
	int64_t R = a.s.rank();
	auto g = gen_groups(c, R, false);
	auto f = full_groups(g, R);
	if (R == 0) f = {0};
	auto sp = R == 0 ? a.s : grouped(a.s, f);
	for (auto &x : sp.dims) c.assume(!x.empty());
	auto old = sp;
	bool same_law = c.flip();
	if (same_law)
	{
		// the charges are all shifted and the rule follows
		for (auto &d : sp.dims)
		{
			auto q = gen_q(c, sp.kind);
			for (auto &x : d) x.q = qadd(sp.kind, x.q, q);
			sp.sel = qadd(sp.kind, sp.sel, q);
		}
	}
	else if (sp.rank())
	{
		auto &d = sp.dims[c.draw(sp.rank())];
		d[c.draw(d.size())].q = gen_q(c, sp.kind);
		if (c.flip()) sp.sel = gen_q(c, sp.kind);
	}
	c.note([&] { return cat("into ", str(sp)); });
	bool ok = true;
	for (auto &b : a.t) ok &= allowed(sp, R == 0 ? b.first : group_index(a.s, f, b.first));
	auto sa = snap(a.t);
	auto shape = make_shape(sp, dtype(a.v));
	if (ok)
	{
		c.label("accepted");
		RESULT(a.t.reshape_as<reshape_mode::overwrite_c_vals>(shape), sp, R == 0 ? a.d : grouped_dense(a, f, old));
	}
	else
	{
		c.label("refused");
		MUST_THROW(a.t.reshape_as<reshape_mode::overwrite_c_vals>(shape));
	}
	UNCHANGED(sa, a.t);
}
FACET(incompatible_targets, 1)
{
	auto a = mk(c, 1);
	note(c, a);
	int64_t R = a.s.rank();
	auto f = full_groups(gen_groups(c, R, false), R);
	auto sp = grouped(a.s, f);
	for (auto &x : sp.dims) c.assume(!x.empty());
	auto &d = sp.dims[c.draw(sp.rank())];
	auto &x = d[c.draw(d.size())];
	switch (c.draw(3))
	{
	case 0: x.size += c.range(1, 3); break;
	case 1:
	{
		auto q = gen_q(c, sp.kind);
		c.assume(q != qzero(sp.kind));
		x.q = qadd(sp.kind, x.q, q);
		break;
	}
	default: d.push_back(d.back());
	}
	c.note([&] { return cat("into ", str(sp)); });
	auto sa = snap(a.t);
	MUST_THROW(a.t.reshape_as(make_shape(sp, dtype(a.v))));
	UNCHANGED(sa, a.t);
}
FACET(squeezing, 3)
{
	auto kind = gen_kind(c);
	auto R = c.range(0, 5);
	Spec s;
	s.kind = kind;
	Lim l;
	l.maxsize = 2;
	for (int64_t i = 0; i < R; ++i)
		if (c.flip())
			s.dims.push_back({Sec{1, gen_q(c, kind)}});
		else
			s.dims.push_back(gen_dim(c, kind, l));
	s.sel = gen_sel(c, s);
	auto a = gen_tensor(c, s, gen_val(c));
	note(c, a);
	auto drop = [&](Spec x, size_t i) {
		x.sel = qadd(kind, x.sel, qneg(kind, x.dims[i][0].q));
		x.dims.erase(x.dims.begin() + i);
		return x;
	};
	auto unit = [](const Dim &d) { return d.size() == 1 && d[0].size == 1; };
	auto sa = snap(a.t);
	if (R > 0 && c.flip())
	{
		auto i = c.draw(R);
		auto sp = unit(s.dims[i]) ? drop(s, i) : s;
		auto want = a.d.squeeze(i);
		auto how = c.draw(3);
		c.note([&] { return cat("squeeze dimension ", i); });
		if (how == 0) RESULT(a.t.squeeze(i), sp, want);
		else if (how == 1) RESULT(squeeze(a.t, i), sp, want);
		else
		{
			auto b = a.t;
			auto &x = c.flip() ? b.squeeze_(i) : squeeze_(b, i);
			PROP(&x == &b);
			RESULT(b, sp, want);
		}
	}
	else
	{
		auto sp = s;
		for (int64_t i = R - 1; i >= 0; --i)
			if (unit(sp.dims[i])) sp = drop(sp, i);
		auto want = a.d.squeeze();
		auto how = c.draw(3);
		c.note([&] { return std::string("squeeze all"); });
		if (how == 0) RESULT(a.t.squeeze(), sp, want);
		else if (how == 1) RESULT(squeeze(a.t), sp, want);
		else
		{
			auto b = a.t;
			auto &x = c.flip() ? b.squeeze_() : squeeze_(b);
			PROP(&x == &b);
			RESULT(b, sp, want);
		}
	}
	UNCHANGED(sa, a.t);
}
