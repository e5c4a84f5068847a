// C12: incompatible operands are refused with an exception and left intact; compatible ones are accepted.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random compatible operands of rank 0-4 over 7 group types made incompatible in exactly one respect; non-trivial when the call to refuse has an operand with a stored block";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {
    "the library is compiled with assertions enabled and _GLIBCXX_ASSERTIONS, so that an access out of bounds ends the process"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

static size_t stored(const btensor &t) { return t.end() - t.begin(); }
static Q bump(int kind, Q q)
{
	q[0] += 1;
	return qnorm(kind, q);
}
static BT mk(Case &c, int lo, int hi, int dens = -1)
{
	auto r = c.range(lo, hi);
	Lim l;
	if (r > 3) l.maxsize = l.maxsec = 2;
	return gen_bt(c, gen_kind(c), r, gen_val(c), l, dens);
}
// charges of another group, otherwise the same structure
static Spec other_kind(Case &c, Spec s)
{
	int k = (s.kind + 1 + (int)c.draw(kinds().size() - 1)) % (int)kinds().size();
	auto conv = [&](const Q &q) {
		Q r(kinds()[k].mod.size());
		for (size_t i = 0; i < r.size(); ++i) r[i] = i < q.size() ? q[i] : 0;
		return qnorm(k, r);
	};
	for (auto &d : s.dims)
		for (auto &x : d) x.q = conv(x.q);
	s.sel = conv(s.sel);
	s.kind = k;
	return s;
}
enum Why
{
	size,
	charge,
	rule,
	split,
	rank_more,
	rank_less,
	section_more,
	kind,
	regroup,
	merge
};
// change one thing
static Spec perturb(Case &c, Spec s, Why w, int64_t dim = -1)
{
	if (dim < 0 && s.rank()) dim = c.draw(s.rank());
	if ((w == size || w == charge || w == split || w == section_more || w == rank_less) && s.rank() == 0) c.discard();
	switch (w)
	{
	case size: s.dims[dim][c.draw(s.dims[dim].size())].size += c.range(1, 2); break;
	case charge:
	{
		auto &x = s.dims[dim][c.draw(s.dims[dim].size())];
		x.q = bump(s.kind, x.q);
		break;
	}
	case rule: s.sel = bump(s.kind, s.sel); break;
	case split:
	{
		auto &d = s.dims[dim];
		auto k = c.draw(d.size());
		if (d[k].size < 2) d[k].size = 1; // a section of size 1 gives a section of size 0
		auto x = d[k];
		x.size = d[k].size > 1 ? 1 : 0;
		d[k].size -= x.size;
		d.insert(d.begin() + k, x);
		break;
	}
	case section_more:
	{
		auto &d = s.dims[dim];
		d.push_back(d[c.draw(d.size())]);
		break;
	}
	case rank_more: s.dims.insert(s.dims.begin() + c.draw(s.rank() + 1), Dim{{1, qzero(s.kind)}}); break;
	case rank_less: s.dims.erase(s.dims.begin() + dim); break;
	case kind: s = other_kind(c, s); break;
	case regroup:
	{ // the same list of sections, divided otherwise between two dimensions
		if (s.rank() < 2) c.discard();
		auto i = c.draw(s.rank() - 1);
		auto &x = s.dims[i], &y = s.dims[i + 1];
		if (x.size() + y.size() < 3) c.discard();
		if (y.size() < 2 || (x.size() > 1 && c.flip()))
		{
			y.insert(y.begin(), x.back());
			x.pop_back();
		}
		else
		{
			x.push_back(y.front());
			y.erase(y.begin());
		}
		break;
	}
	case merge:
	{ // two dimensions merged in one with all their sections
		if (s.rank() < 2) c.discard();
		auto i = c.draw(s.rank() - 1);
		auto &x = s.dims[i], &y = s.dims[i + 1];
		x.insert(x.end(), y.begin(), y.end());
		s.dims.erase(s.dims.begin() + i + 1);
		break;
	}
	}
	s.sel = qnorm(s.kind, s.sel);
	return s;
}
static const char *why_name(Why w)
{
	static const char *n[] = {"size", "charge", "selection rule", "split section", "more dimensions", "fewer dimensions", "more sections", "kind of charge", "sections of other dimensions", "sections of two dimensions together"};
	return n[w];
}
static BT mk2(Case &c, const Spec &s, Val v, int dens = -1) { return gen_tensor(c, s, v, dens); }
#define REFUSE(expr, ...)                            \
	do                                               \
	{                                                \
		MUST_THROW(expr, ##__VA_ARGS__);             \
		UNCHANGED(sa, a.t, "after " #expr " ", ##__VA_ARGS__); \
		UNCHANGED(sb, b.t, "after " #expr " ", ##__VA_ARGS__); \
		VALID(a.t, "after " #expr);                  \
		VALID(b.t, "after " #expr);                  \
	} while (0)

FACET(addition, 4)
{
	auto a = mk(c, 0, 4);
	Why w = (Why)c.draw(10);
	auto g = mk2(c, a.s, a.v);
	auto b = mk2(c, perturb(c, a.s, w), a.v);
	c.label(why_name(w));
	c.note([&] { return str(a) + " with another " + why_name(w) + ": " + str(b); });
	c.nontrivial(stored(a.t) || stored(b.t));
	auto sa = snap(a.t), sb = snap(b.t);
	if (c.flip())
	{ // the compatible call
		(void)a.t.add(g.t);
		(void)(a.t - g.t);
		UNCHANGED(sa, a.t);
	}
	REFUSE(a.t.add(b.t), why_name(w));
	REFUSE(b.t.add(a.t), why_name(w));
	REFUSE(a.t.add(std::move(b.t)), why_name(w));
	REFUSE(a.t.add_(b.t), why_name(w));
	REFUSE(b.t.add_(a.t, 2.), why_name(w));
	REFUSE(a.t.add_(std::move(b.t)), why_name(w));
	REFUSE(a.t.sub(b.t), why_name(w));
	REFUSE(a.t.sub_(b.t), why_name(w));
	REFUSE(a.t + b.t, why_name(w));
	REFUSE(b.t - a.t, why_name(w));
	REFUSE(a.t += b.t, why_name(w));
	REFUSE(b.t -= a.t, why_name(w));
	if (w != kind) // they are not close either
	{
		PROP(!allclose(a.t, b.t) && !allclose(b.t, a.t), "tensors of different structures are close: ", why_name(w));
	}
}
FACET(broadcast, 4)
{
	// b has the last dimensions of a; one of them is made incompatible
	auto a = mk(c, 1, 4);
	auto s = a.s;
	size_t drop = c.draw(s.rank());
	s.dims.erase(s.dims.begin(), s.dims.begin() + drop);
	bool k = c.chance(1, 4);
	Why w = kind;
	for (auto &d : s.dims)
		if (c.chance(1, 4)) d = Dim{{1, gen_q(c, s.kind)}};
	s.sel = gen_sel(c, s);
	auto g = mk2(c, s, a.v);
	if (!k)
	{
		// a dimension that is broadcast by neither of the two
		std::vector<size_t> cand;
		auto single = [](const Dim &d) { return d.size() == 1 && d[0].size == 1; };
		for (size_t i = 0; i < s.rank(); ++i)
			if (!single(s.dims[i]) && !single(a.s.dims[i + drop])) cand.push_back(i);
		if (cand.empty()) c.discard();
		w = c.pick(std::vector<Why>{size, split, section_more});
		s = perturb(c, s, w, cand[c.draw(cand.size())]);
		s.sel = gen_sel(c, s);
	}
	else
		s = other_kind(c, s);
	auto b = mk2(c, s, a.v);
	c.label(why_name(w));
	c.note([&] { return str(a) + " with another " + why_name(w) + ": " + str(b); });
	c.nontrivial(stored(a.t) || stored(b.t));
	auto sa = snap(a.t), sb = snap(b.t);
	if (c.flip())
	{
		(void)a.t.mul(g.t);
		(void)g.t.mul(a.t);
		UNCHANGED(sa, a.t);
	}
	REFUSE(a.t.mul(b.t), why_name(w));
	REFUSE(b.t.mul(a.t), why_name(w));
	REFUSE(a.t.mul_(b.t), why_name(w));
	REFUSE(b.t.mul_(a.t), why_name(w));
	REFUSE(a.t.div(b.t), why_name(w));
	REFUSE(a.t.div_(b.t), why_name(w));
	REFUSE(b.t.div_(a.t), why_name(w));
	REFUSE(a.t.pow(b.t), why_name(w));
	REFUSE(a.t.pow_(b.t), why_name(w));
	REFUSE(a.t *= b.t, why_name(w));
	REFUSE(b.t / a.t, why_name(w));
	if (!is_cplx(a.v))
	{
		REFUSE(a.t.ge(b.t), why_name(w));
		REFUSE(b.t.le(a.t), why_name(w));
		REFUSE(a.t.greater(b.t), why_name(w));
		REFUSE(b.t.less(a.t), why_name(w));
	}
	REFUSE(a.t.eq(b.t), why_name(w));
	REFUSE(b.t.not_equal(a.t), why_name(w));
}
FACET(contraction, 5)
{
	auto a = mk(c, 1, 4);
	auto n = c.range(1, a.s.rank());
	auto da = c.subset(a.s.rank(), n);
	IL pa;
	for (auto i : c.permutation(n)) pa.push_back(da[i]);
	Spec s;
	s.kind = a.s.kind;
	int64_t extra = c.range(0, 2);
	IL order = c.permutation(n + extra);
	for (auto &x : order)
		if (x >= n) x = -1;
	IL pb(n);
	Lim l;
	l.maxsec = l.maxsize = 2;
	for (size_t i = 0; i < order.size(); ++i)
	{
		if (order[i] >= 0)
		{
			pb[order[i]] = (int64_t)i;
			s.dims.push_back(conj_dim(s.kind, a.s.dims[pa[order[i]]]));
		}
		else
			s.dims.push_back(gen_dim(c, s.kind, l));
	}
	s.sel = gen_sel(c, s);
	auto g = mk2(c, s, a.v);
	auto snd = c.draw(10);
	int64_t j = c.draw(n);
	BT b = g;
	std::string why;
	auto qa = pa, qb = pb;
	if (snd < 4)
	{
		Why w = c.pick(std::vector<Why>{size, charge, split, section_more});
		why = why_name(w);
		s = perturb(c, s, w, pb[j]);
		s.sel = gen_sel(c, s);
		b = mk2(c, s, a.v);
	}
	else if (snd == 4)
	{
		why = "kind";
		b = mk2(c, other_kind(c, s), a.v);
	}
	else if (snd == 5)
	{
		why = "lengths of the lists";
		if (c.flip()) qa.pop_back();
		else qb.pop_back();
	}
	else if (snd == 6)
	{
		why = "repeated dimension";
		if (c.flip()) qa.push_back(pa[j]), qb.push_back(pb[j]); // both repeated
		else if (c.flip() && a.s.rank() > 1)
			qa[j] = pa[(j + 1) % n], qa.push_back(qa[j]), qb.push_back(c.draw(s.rank()));
		else
			qb.push_back(pb[j]), qa.push_back(c.draw(a.s.rank()));
	}
	else if (snd == 7)
	{
		why = "dimension too large";
		if (c.flip()) qa[j] = a.s.rank() + c.range(0, 2);
		else qb[j] = s.rank() + c.range(0, 2);
	}
	else if (snd == 8)
	{
		why = "dimension too small";
		if (c.flip()) qa[j] = -(int64_t)a.s.rank() - 1 - c.range(0, 2);
		else qb[j] = -(int64_t)s.rank() - 1 - c.range(0, 2);
	}
	else
	{ // the compatible call, with dimensions counted from the end, like torch
		for (auto &x : qa)
			if (c.flip()) x -= a.s.rank();
		for (auto &x : qb)
			if (c.flip()) x -= s.rank();
		c.nontrivial(stored(a.t) && stored(b.t));
		auto sa = snap(a.t), sb = snap(b.t);
		auto x = a.t.tensordot(b.t, qa, qb), y = a.t.tensordot(b.t, pa, pb);
		UNCHANGED(sa, a.t);
		UNCHANGED(sb, b.t);
		VALID(x);
		SAME(dense_of(x), torch::tensordot(a.d, b.d, pa, pb), exact(a.v));
		SAME(dense_of(x), dense_of(y), true);
		return;
	}
	c.label(why);
	c.note([&] {
		std::string o = str(a) + " x " + str(b) + " " + why + " dims";
		for (auto x : qa) o += " " + std::to_string(x);
		o += " with";
		for (auto x : qb) o += " " + std::to_string(x);
		return o;
	});
	c.nontrivial(stored(a.t) || stored(b.t));
	auto sa = snap(a.t), sb = snap(b.t);
	(void)a.t.tensordot(g.t, pa, pb);
	UNCHANGED(sa, a.t);
	REFUSE(a.t.tensordot(b.t, qa, qb), why);
	REFUSE(tensordot(b.t, a.t, qb, qa), why);
	if (why == "kind")
	{
		REFUSE(a.t.tensordot(b.t, {}, {}), why);
		REFUSE(a.t.tensor_product_shape(b.t), why);
		REFUSE(shape_from(a.t, b.t), why);
		REFUSE(shape_from({b.t, a.t}), why);
	}
	if (why == "size" || why == "charge" || why == "split section" || why == "more sections" || why == "kind")
	{
		PROP(!btensor::check_product_compat<false>(a.t, b.t, qa, qb), why);
	}
	PROP(btensor::check_product_compat<false>(a.t, g.t, pa, pb));
}
FACET(batched, 3)
{
	int kd = gen_kind(c);
	auto r = c.range(2, 4);
	Lim l;
	if (r == 4) l.maxsec = l.maxsize = 2;
	Spec s = gen_spec(c, kd, r, l);
	auto v = gen_val(c);
	Spec s2 = s;
	s2.dims[r - 2] = conj_dim(kd, s.dims[r - 1]);
	s2.dims[r - 1] = gen_dim(c, kd, l);
	for (int64_t i = 0; i < r - 2; ++i)
		for (auto &x : s2.dims[i]) x.q = gen_q(c, kd);
	s2.sel = gen_sel(c, s2);
	auto a = mk2(c, s, v), g = mk2(c, s2, v);
	auto snd = c.draw(4);
	std::string why;
	Spec t = s2;
	if (snd == 0)
	{
		Why w = c.pick(std::vector<Why>{size, charge, split, section_more});
		why = std::string("matrix ") + why_name(w);
		t = perturb(c, t, w, r - 2);
	}
	else if (snd == 1 && r > 2)
	{
		Why w = c.pick(std::vector<Why>{size, split, section_more});
		why = std::string("batch ") + why_name(w);
		t = perturb(c, t, w, c.draw(r - 2));
	}
	else if (snd == 2)
	{
		why = "kind";
		t = other_kind(c, t);
	}
	else
	{
		Why w = c.flip() ? rank_more : rank_less;
		why = why_name(w);
		t = perturb(c, t, w, c.draw(r));
	}
	t.sel = gen_sel(c, t);
	auto b = mk2(c, t, v);
	c.label(why);
	c.note([&] { return str(a) + " bmm " + str(b) + " " + why; });
	c.nontrivial(stored(a.t) || stored(b.t));
	auto sa = snap(a.t), sb = snap(b.t);
	(void)a.t.bmm(g.t);
	UNCHANGED(sa, a.t);
	REFUSE(a.t.bmm(b.t), why);
	// too few dimensions
	if (c.chance(1, 4))
	{
		Lim l2;
		auto d = gen_dim(c, kd, l2);
		auto one = gen_tensor(c, Spec{kd, {d}, d[0].q}, v), other = gen_tensor(c, Spec{kd, {conj_dim(kd, d)}, qneg(kd, d[0].q)}, v);
		MUST_THROW(one.t.bmm(other.t));
		MUST_THROW(one.t.bmm(a.t));
		REFUSE(a.t.bmm(one.t));
	}
}
FACET(dimension_numbers, 4)
{
	auto a = mk(c, 0, 4);
	auto b = a;
	int64_t r = a.s.rank();
	c.note([&] { return str(a); });
	c.nontrivial(stored(a.t));
	auto sa = snap(a.t), sb = snap(b.t);
	int64_t bad = c.flip() ? r + c.range(r == 0, 2) : -r - 1 - c.range(r == 0, 2);
	int64_t good = r ? c.range(-r, r - 1) : 0;
	if (r)
	{
		REFUSE(a.t.transpose(bad, good));
		REFUSE(a.t.transpose(good, bad));
		REFUSE(b.t.transpose_(bad, good));
		REFUSE(b.t.transpose_(good, bad));
		(void)a.t.transpose(good, c.range(-r, r - 1));
		(void)a.t.squeeze(good);
		int64_t pos = good < 0 ? good + r : good;
		auto q = dense_of(a.t.squeeze(good));
		auto single = a.s.dims[pos].size() == 1 && a.s.dims[pos][0].size == 1;
		SAME(q, (single ? a.d.squeeze(pos) : a.d), true, "squeeze ", good);
	}
	else
		REFUSE(a.t.transpose(bad, bad));
	REFUSE(a.t.squeeze(bad));
	REFUSE(b.t.squeeze_(bad));
	auto aq = to_any(a.s.kind, gen_q(c, a.s.kind));
	if (bad >= 0) REFUSE(a.t.cval_shift(aq, bad));
	// permutations
	auto p0 = c.permutation(r);
	IL p(p0.begin(), p0.end());
	(void)a.t.permute(p);
	IL w = p;
	auto how = r == 0 ? 1 : c.draw(4);
	if (how == 0) w.pop_back();
	else if (how == 1) w.push_back(r ? (int64_t)c.draw(r) : 0);
	else if (how == 2) w[c.draw(r)] = bad;
	else
	{
		if (r < 2) c.discard();
		auto i = c.draw(r);
		auto j = (i + 1 + c.draw(r - 1)) % r;
		w[i] = w[j];
		if (c.flip()) w[i] = w[i] - r; // the same dimension counted from the end
	}
	REFUSE(a.t.permute(w));
	REFUSE(b.t.permute_(w));
	// groups of a reshape
	IL gr;
	auto n = c.range(0, 3);
	for (int64_t i = 0; i < n; ++i) gr.push_back(c.range(0, r));
	std::sort(gr.begin(), gr.end());
	(void)a.t.reshape(gr);
	auto gb = gr;
	if (gb.empty() || c.flip())
	{
		if (c.flip()) gb.push_back(r + 1 + c.range(0, 2));
		else gb.insert(gb.begin(), -1 - c.range(0, 2));
	}
	else
	{
		if (r == 0) c.discard();
		auto i = c.draw(gb.size());
		if (gb[i] < r) gb.insert(gb.begin() + i, c.range(gb[i] + 1, r));
		else gb.insert(gb.begin() + i + 1, c.range(0, gb[i] - 1));
	}
	REFUSE(a.t.reshape(gb));
	// accessors
	if (r)
	{
		size_t pos = good < 0 ? good + r : good;
		(void)a.t.section_size(pos, a.s.dims[pos].size() - 1);
		(void)a.t.section_conserved_qtt(pos, a.s.dims[pos].size() - 1);
		(void)a.t.element_conserved_qtt(pos, dim_size(a.s.dims[pos]) - 1);
		REFUSE(a.t.element_conserved_qtt(pos, dim_size(a.s.dims[pos]) + c.draw(2)));
#ifndef NDEBUG
		// these are only verified by the library when assertions are enabled
		REFUSE(a.t.section_size(pos, a.s.dims[pos].size() + c.draw(2)));
		REFUSE(a.t.section_conserved_qtt(pos, a.s.dims[pos].size() + c.draw(2)));
		REFUSE(a.t.section_size_cqtt(pos, a.s.dims[pos].size() + c.draw(2)));
		REFUSE(a.t.section_size(r + c.draw(2), 0));
		REFUSE(a.t.section_conserved_qtt(r + c.draw(2), 0));
#endif
	}
	REFUSE(a.t.element_conserved_qtt(r + c.draw(3), 0));
	REFUSE(std::as_const(a.t).section_conserved_qtt_range(r + c.draw(3)));
}
FACET(reshaping_to, 3)
{
	// the target groups the dimensions of a, then is changed in one respect
	auto a = mk(c, 1, 4);
	IL gr;
	auto n = c.range(0, 2);
	for (int64_t i = 0; i < n; ++i) gr.push_back(c.range(0, a.s.rank()));
	std::sort(gr.begin(), gr.end());
	Spec s;
	s.kind = a.s.kind;
	s.sel = a.s.sel;
	size_t at = 0;
	gr.push_back(a.s.rank());
	for (auto e : gr)
	{
		Dim d{{1, qzero(s.kind)}};
		for (; (int64_t)at < e; ++at)
		{
			Dim nd;
			for (auto &x : d)
				for (auto &y : a.s.dims[at]) nd.push_back({x.size * y.size, qadd(s.kind, x.q, y.q)});
			d = nd;
		}
		s.dims.push_back(d);
	}
	bool back = c.flip();
	Spec from = back ? s : a.s, to = back ? a.s : s;
	from.sel = qnorm(from.kind, from.sel);
	a = mk2(c, from, a.v);
	auto g = mk2(c, to, a.v);
	auto w = c.pick(std::vector<Why>{size, charge, section_more, kind});
	Spec bad = w == kind ? other_kind(c, to) : perturb(c, to, w);
	auto b = mk2(c, bad, a.v);
	c.label(why_name(w));
	c.note([&] { return str(a) + " reshaped as " + str(b) + " " + why_name(w); });
	c.nontrivial(stored(a.t));
	auto sa = snap(a.t), sb = snap(b.t);
	(void)a.t.reshape_as(g.t);
	(void)a.t.reshape_as<reshape_mode::overwrite_c_vals>(g.t);
	REFUSE(a.t.reshape_as(b.t), why_name(w));
	if (w == size || w == section_more) REFUSE((a.t.reshape_as<reshape_mode::overwrite_c_vals>(b.t)), why_name(w));
	if (stored(a.t))
	{
		auto other = g;
		other.s.sel = bump(other.s.kind, other.s.sel);
		other = mk2(c, other.s, a.v);
		MUST_THROW(a.t.reshape_as<reshape_mode::overwrite_c_vals>(other.t), "rule that forbids the blocks");
		UNCHANGED(sa, a.t);
	}
}
FACET(selection_of_parts, 4)
{
	auto a = mk(c, 1, 4);
	int64_t r = a.s.rank();
	IL sel;
	for (int64_t i = 0; i < r; ++i) sel.push_back(c.flip() ? -1 : (int64_t)c.draw(dim_size(a.s.dims[i])));
	Spec vs;
	vs.kind = a.s.kind;
	vs.sel = a.s.sel;
	for (int64_t i = 0; i < r; ++i)
	{
		if (sel[i] == -1) vs.dims.push_back(a.s.dims[i]);
		else
		{
			int64_t e = sel[i];
			for (auto &x : a.s.dims[i])
			{
				if (e < x.size)
				{
					vs.sel = qadd(vs.kind, vs.sel, qneg(vs.kind, x.q));
					break;
				}
				e -= x.size;
			}
		}
	}
	vs.sel = qnorm(vs.kind, vs.sel);
	auto g = mk2(c, vs, a.v);
	Why w = (Why)c.draw(10);
	auto b = mk2(c, perturb(c, vs, w), a.v);
	c.label(why_name(w));
	c.note([&] { return str(a) + " part assigned " + str(b); });
	c.nontrivial(stored(a.t));
	auto sa = snap(a.t), sb = snap(b.t);
	HAS_SPEC(a.t.shape_from(sel), vs);
	(void)a.t.basic_create_view(sel);
	UNCHANGED(sa, a.t);
	REFUSE(a.t.basic_index_put_(sel, b.t), why_name(w));
	// dense value of the wrong size
	{
		auto sz = full_sizes(vs);
		if (sz.empty() || c.flip()) sz.push_back(2);
		else sz[c.draw(sz.size())] += 1;
		REFUSE(a.t.basic_index_put_(sel, torch::ones(sz)), "dense value of the wrong size");
	}
	auto wrong = sel;
	auto how = c.draw(4);
	if (how == 0) wrong.push_back(-1);
	else if (how == 1) wrong.pop_back();
	else
	{
		auto i = c.draw(r);
		wrong[i] = how == 2 ? dim_size(a.s.dims[i]) + c.range(0, 2) : -2 - c.range(0, 2);
	}
	REFUSE(a.t.shape_from(wrong));
	REFUSE(a.t.basic_create_view(wrong));
	REFUSE(a.t.basic_create_view(wrong, true));
	REFUSE(a.t.basic_index_put_(wrong, g.t));
	REFUSE(a.t.basic_index_put_(wrong, g.d));
	// blocks
	IL bi;
	for (auto &d : a.s.dims) bi.push_back(c.draw(d.size()));
	if (!allowed(a.s, bi)) REFUSE(a.t.block(bi), "forbidden block");
	bool here = false;
	for (auto &x : a.t) here |= x.first == bi;
	if (!here) REFUSE(a.t.block_at(bi), "absent block");
	auto bw = bi;
	auto i = c.draw(r);
	bw[i] = c.flip() ? (int64_t)a.s.dims[i].size() + c.range(0, 2) : -1 - c.range(0, 2);
	REFUSE(a.t.block(bw), "block out of range");
	REFUSE(a.t.block_at(bw), "block out of range");
	bw = bi;
	if (c.flip()) bw.push_back(0);
	else bw.pop_back();
	REFUSE(a.t.block(bw), "wrong number of block indices");
	REFUSE(a.t.block_at(bw), "wrong number of block indices");
}
FACET(kinds_of_charge, 3)
{
	auto a = mk(c, 1, 4);
	auto b = mk2(c, other_kind(c, a.s), a.v);
	c.note([&] { return str(a) + " with charges of " + kinds()[b.s.kind].name; });
	c.nontrivial(stored(a.t));
	auto e = sparse_zeros_like(a.t);
	auto sa = snap(a.t), sb = snap(b.t), se = snap(e);
	auto q = to_any(b.s.kind, gen_q(c, b.s.kind));
	auto own = to_any(a.s.kind, gen_q(c, a.s.kind));
	int64_t dim = c.draw(a.s.rank());
	REFUSE(a.t.cval_shift(q, dim));
	REFUSE(a.t.cval_shift_(q, dim));
	MUST_THROW(e.non_conserving_cval_shift_(q, dim));
	UNCHANGED(se, e);
	MUST_THROW(e.shift_selection_rule_(q));
	UNCHANGED(se, e);
	MUST_THROW(e.set_selection_rule_(q));
	UNCHANGED(se, e);
	if (stored(a.t))
	{ // these keep the blocks but not the conservation law
		REFUSE(a.t.non_conserving_cval_shift_(own, dim));
		REFUSE(a.t.shift_selection_rule_(own));
		REFUSE(a.t.set_selection_rule_(own));
		REFUSE(a.t.neutral_shape_());
		REFUSE(a.t.neutral_shape());
		REFUSE(a.t.neutral_selection_rule_());
	}
	// construction
	auto list = vec_list(a.s);
	auto opt = torch::TensorOptions().dtype(dtype(a.v));
	MUST_THROW(btensor(list, q, opt));
	MUST_THROW(zeros(list, q, opt));
	MUST_THROW(from_basic_tensor(list, q, a.d));
	MUST_THROW(from_basic_tensor_like(sparse_zeros_like(b.t), a.d.unsqueeze(0)));
	auto mixed = list;
	{
		auto d = c.draw(mixed.size());
		std::vector<std::tuple<size_t, any_quantity>> x(mixed[d].begin(), mixed[d].end());
		std::get<1>(x[c.draw(x.size())]) = q;
		mixed[d] = x;
	}
	MUST_THROW(btensor(mixed, own, opt), "one section has another kind of charge");
	MUST_THROW(rand(mixed, own, opt), "one section has another kind of charge");
	UNCHANGED(sa, a.t);
	UNCHANGED(sb, b.t);
}
FACET(element_types, 2)
{
	// in-place operations that cannot hold the result: all or nothing
	auto a = mk(c, 0, 3);
	auto tb = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kComplexDouble, torch::kFloat32, torch::kInt64});
	auto b = mk2(c, a.s, Val::ints);
	auto ta = c.pick(std::vector<torch::ScalarType>{torch::kInt64, torch::kFloat64, torch::kFloat32});
	a = mk2(c, a.s, Val::ints);
	a.t = a.t.to(ta);
	b.t = b.t.to(tb);
	c.note([&] { return str(a) + " " + torch::toString(ta) + " and " + str(b) + " " + torch::toString(tb); });
	c.nontrivial(stored(a.t) && stored(b.t));
	auto sa = snap(a.t), sb = snap(b.t);
	auto w = c.draw(4);
	bool thrown = false;
	try
	{
		if (w == 0) a.t.add_(b.t);
		if (w == 1) a.t.mul_(b.t);
		if (w == 2) a.t.add_(btensor(b.t), 2);
		if (w == 3) a.t.sub_(b.t);
	}
	catch (const std::exception &)
	{
		thrown = true;
	}
	UNCHANGED(sb, b.t);
	if (thrown)
	{
		c.label("refused");
		UNCHANGED(sa, a.t, "after a refused in-place operation");
	}
	else
	{
		auto want = w == 0 ? a.d + b.d : w == 1 ? a.d * b.d : w == 2 ? a.d + 2 * b.d : a.d - b.d;
		SAME(dense_of(a.t), want, true);
		VALID(a.t);
	}
}
