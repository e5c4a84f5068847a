// C01: conserved quantities obey the laws of an abelian group.
#include "pbt.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/Composite/quantity_vector.h"
#include "Conserved/quantity.h"
#include <fmt/format.h>
#include <algorithm>
using namespace quantit;
using namespace quantit::conserved;
using pbt::cat;
std::string pbt::rule_text =
    "values are drawn uniformly, near the edges (0, +-1, +-N, multiples of the modulus, int16 limits) and equal to earlier ones; a case is "
    "non-trivial when at least two of the three drawn values are different and not neutral";
unsigned pbt::quick_cases = 1500000, pbt::thorough_cases = 10000000;
std::vector<std::string> pbt::assumptions = {"integer charges are kept within the documented range [-32767,32767], sums included"};
std::function<void()> pbt::worker_init, pbt::case_init;

static int64_t gen_int(pbt::Case &c, int64_t N, int64_t lim)
{
	switch (c.draw(4))
	{
	case 0: return c.around(std::min<int64_t>(lim, 6));
	case 1: return std::clamp<int64_t>(N * c.around(lim / std::max<int64_t>(N, 1)) + c.around(1), -lim, lim);
	case 2: return c.flip() ? lim : -lim;
	default: return c.range(-lim, lim);
	}
}
static int64_t residue(int64_t v, int64_t N) { return N ? ((v % N) + N) % N : v; }

// ------------------------------------------------------------- simple groups
template <class G>
static int64_t modulus()
{
	if constexpr (std::is_same_v<G, Z>)
		return 0;
	else
		return G::N;
}
template <class G>
static void simple_laws(pbt::Case &c)
{
	const int64_t N = modulus<G>();
	// three integers whose sums stay in the documented range
	const int64_t lim = N == 0 ? 10900 : 32767;
	int64_t v[3];
	for (auto &x : v) x = gen_int(c, N ? N : 7, lim);
	if (c.chance(1, 6)) v[1] = v[0];
	if (N && c.chance(1, 8)) v[2] = std::clamp<int64_t>(v[1] - N, -lim, lim);
	c.note([&] { return cat("modulus ", N, " values ", v[0], " ", v[1], " ", v[2]); });
	G g[3] = {G(int16_t(v[0])), G(int16_t(v[1])), G(int16_t(v[2]))};
	int64_t r[3];
	for (int i = 0; i < 3; ++i)
	{
		r[i] = residue(v[i], N);
		PROP(int64_t(g[i].get_val()) == r[i], "value ", g[i].get_val(), " for ", v[i]);
	}
	c.nontrivial(r[0] && r[1] && r[0] != r[1]);
	G e;
	PROP(int64_t(e.get_val()) == 0);
	auto val = [](G x) { return int64_t(x.get_val()); };
	auto sum = residue(r[0] + r[1], N);
	PROP(val(g[0] * g[1]) == sum, "got ", val(g[0] * g[1]));
	PROP(val(g[0] + g[1]) == sum);
	PROP(g[0] * g[1] == g[1] * g[0]);
	PROP((g[0] * g[1]) * g[2] == g[0] * (g[1] * g[2]));
	PROP(val((g[0] * g[1]) * g[2]) == residue(r[0] + r[1] + r[2], N));
	PROP(g[0] * e == g[0]);
	PROP(e * g[0] == g[0]);
	PROP(val(g[0].inverse()) == residue(-r[0], N));
	PROP(g[0].inverse() * g[0] == e);
	PROP(g[0].inverse().inverse() == g[0]);
	PROP((g[0] * g[1]).inverse() == g[0].inverse() * g[1].inverse());
	PROP(g[0] == G(int16_t(v[0])));
	auto q = g[0];
	PROP(&q.op(g[1]) == &q);
	PROP(val(q) == sum);
	q = g[0];
	q.op(g[1], false);
	PROP(val(q) == r[0]);
	q.op(g[1], true);
	PROP(val(q) == sum);
	q = g[0];
	q += g[1];
	PROP(val(q) == sum);
	q = g[0];
	q *= g[1];
	PROP(val(q) == sum);
	q = g[0];
	q.inverse_();
	PROP(val(q) == residue(-r[0], N));
	q = g[0];
	q.op(q);
	PROP(val(q) == residue(2 * r[0], N), "combination with itself in place");
	PROP(val(conserved::op(g[0], g[1])) == sum);
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j)
		{
			PROP((g[i] == g[j]) == (r[i] == r[j]), r[i], " ", r[j]);
			PROP((g[i] != g[j]) == (r[i] != r[j]), r[i], " ", r[j]);
			PROP(int(g[i] < g[j]) + int(g[j] < g[i]) + int(g[i] == g[j]) == 1, "order is not total: ", r[i], " ", r[j]);
			PROP((g[i] < g[j]) == (g[j] > g[i]));
			PROP(g[i].distance2(g[j]) == (r[i] - r[j]) * (r[i] - r[j]));
			PROP(g[i].distance2(g[j]) == g[j].distance2(g[i]));
			PROP((fmt::format("{}", g[i]) == fmt::format("{}", g[j])) == (r[i] == r[j]));
		}
	if (g[0] < g[1] && g[1] < g[2]) PROP(g[0] < g[2]);
	auto a = g[0], b = g[1];
	a.swap(b);
	PROP(a == g[1] && b == g[0]);
	PROP(fmt::format("{}", g[0]) == (N ? fmt::format("C<{}>({})", N, r[0]) : fmt::format("Z({})", r[0])), fmt::format("{}", g[0]));
}
FACET(simple_groups, 4)
{
	switch (c.draw(12))
	{
	case 0: return simple_laws<Z>(c);
	case 1: return simple_laws<C<5>>(c);
	case 2: return simple_laws<C<2>>(c);
	case 3: return simple_laws<C<3>>(c);
	case 4: return simple_laws<C<6>>(c);
	case 5: return simple_laws<C<1>>(c);
	case 6: return simple_laws<C<100>>(c);
	case 7: return simple_laws<C<255>>(c);
	case 8: return simple_laws<C<32767>>(c);
	case 9: return simple_laws<C<32769>>(c);
	case 10: return simple_laws<C<50000>>(c);
	default: return simple_laws<C<65534>>(c);
	}
}
// every element of small cyclic groups: full addition table
template <uint16_t N>
static void table(pbt::Case &c)
{
	for (int i = -2 * N - 1; i <= 2 * N + 1; ++i)
		for (int j = -2 * N - 1; j <= 2 * N + 1; ++j)
		{
			C<N> a(i), b(j);
			PROP(int(a.get_val()) == residue(i, N), "C<", N, ">(", i, ")");
			PROP(int((a * b).get_val()) == residue(i + j, N), "C<", N, "> ", i, " ", j);
			PROP((a == b) == (residue(i - j, N) == 0), "C<", N, "> ", i, " ", j);
		}
	c.nontrivial();
}
FACET(cyclic_tables, 1)
{
	auto k = c.draw(8);
	c.note([&] { return cat("full table of the cyclic group number ", k); });
	switch (k)
	{
	case 0: return table<1>(c);
	case 1: return table<2>(c);
	case 2: return table<3>(c);
	case 3: return table<4>(c);
	case 4: return table<5>(c);
	case 5: return table<6>(c);
	case 6: return table<7>(c);
	default: return table<12>(c);
	}
}
static const bool cap_tables = [] {
	for (auto &f : pbt::facets())
		if (f.name == "cyclic_tables") f.cap = 100;
	return true;
}();

// ------------------------------------------------------------- composites, direct and type erased
using V = std::vector<int64_t>;
// the constructors take 16 bit integers: large residues are named by their negative representative
template <class G>
static G mk1(int64_t x)
{
	if (x > 32767) x -= modulus<G>();
	return G(int16_t(x));
}
template <class... G>
struct Comp
{
	using T = quantity<G...>;
	static V mods() { return {modulus<G>()...}; }
	template <size_t... I>
	static T make_impl(const V &v, std::index_sequence<I...>)
	{
		return T(mk1<G>(v[I])...);
	}
	static T make(const V &v) { return make_impl(v, std::index_sequence_for<G...>()); }
	template <size_t... I>
	static any_quantity any_impl(const V &v, std::index_sequence<I...>)
	{
		return any_quantity(mk1<G>(v[I])...);
	}
	static any_quantity any(const V &v) { return any_impl(v, std::index_sequence_for<G...>()); }
	static std::string text(const V &r)
	{
		auto m = mods();
		std::string s = "[";
		for (size_t i = 0; i < r.size(); ++i)
			s += (i ? "," : "") + (m[i] ? fmt::format("C<{}>({})", m[i], r[i]) : fmt::format("Z({})", r[i]));
		return s + "]";
	}
};
template <class M>
static V gen_v(pbt::Case &c)
{
	V v;
	for (auto m : M::mods()) v.push_back(gen_int(c, m ? m : 7, m ? std::min<int64_t>(32767, 4 * m + 3) : 10900));
	return v;
}
template <class M>
static V res(const V &v)
{
	V r = v;
	auto m = M::mods();
	for (size_t i = 0; i < r.size(); ++i) r[i] = residue(r[i], m[i]);
	return r;
}
static V addv(V a, const V &b)
{
	for (size_t i = 0; i < a.size(); ++i) a[i] += b[i];
	return a;
}
static V negv(V a)
{
	for (auto &x : a) x = -x;
	return a;
}
template <class M>
static void gen3(pbt::Case &c, V v[3], V r[3])
{
	for (int i = 0; i < 3; ++i) v[i] = gen_v<M>(c);
	if (c.chance(1, 6)) v[1] = v[0];
	// same value in one component only: the order must then be decided by the others
	if (c.chance(1, 3)) v[1][0] = v[0][0];
	if (c.chance(1, 3)) v[1].back() = v[0].back();
	for (int i = 0; i < 3; ++i) r[i] = res<M>(v[i]);
	c.nontrivial(r[0] != r[1] && r[0] != V(r[0].size(), 0) && r[1] != V(r[0].size(), 0));
	c.note([&] { return cat("values ", M::text(r[0]), " ", M::text(r[1]), " ", M::text(r[2])); });
}
template <class M>
static void composite_laws(pbt::Case &c)
{
	using T = typename M::T;
	V v[3], r[3];
	gen3<M>(c, v, r);
	T g[3] = {M::make(v[0]), M::make(v[1]), M::make(v[2])};
	auto mk = [&](const V &x) { return M::make(res<M>(x)); };
	const auto s01 = mk(addv(r[0], r[1]));
	const T e;
	PROP(e == mk(V(r[0].size(), 0)));
	auto p = [](T a, const T &b) { return a * b; };
	PROP(p(g[0], g[1]) == s01);
	PROP(p(g[1], g[0]) == s01);
	PROP((T(g[0]) + g[1]) == s01);
	PROP((T(g[0]) * T(g[1])) == s01, "product with a temporary");
	PROP((T(g[0]) + T(g[1])) == s01, "sum with a temporary");
	PROP(p(p(g[0], g[1]), g[2]) == p(g[0], p(g[1], g[2])));
	PROP(p(g[0], e) == g[0]);
	T i0 = g[0];
	PROP(&i0.inverse_() == &i0);
	PROP(i0 == mk(negv(r[0])));
	PROP(p(i0, g[0]) == e);
	T x = g[0];
	x.op(g[1], false);
	PROP(x == g[0]);
	x.op(g[1], true);
	PROP(x == s01);
	x = g[0];
	x.op(g[1]);
	PROP(x == s01);
	x = g[0];
	x *= g[1];
	PROP(x == s01);
	x = g[0];
	x += g[1];
	PROP(x == s01);
	x = g[1];
	g[0].op_to(x);
	PROP(x == s01);
	x = g[0];
	T y = g[1];
	x.swap(y);
	PROP(x == g[1] && y == g[0]);
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j)
		{
			bool eq = r[i] == r[j];
			PROP((g[i] == g[j]) == eq, i, j);
			PROP((g[i] != g[j]) == !eq, i, j);
			PROP(int(g[i] < g[j]) + int(g[j] < g[i]) + int(eq) == 1, "order is not total");
			PROP((g[i] < g[j]) == (g[j] > g[i]));
			PROP((fmt::format("{}", g[i]) == fmt::format("{}", g[j])) == eq);
			int64_t d = 0;
			for (size_t k = 0; k < r[i].size(); ++k) d += (r[i][k] - r[j][k]) * (r[i][k] - r[j][k]);
			PROP(g[i].distance2(g[j]) == d);
		}
	if (g[0] < g[1] && g[1] < g[2]) PROP(g[0] < g[2]);
	PROP(fmt::format("{}", g[0]) == M::text(r[0]), fmt::format("{}", g[0]));
}
template <class M>
static void erased_laws(pbt::Case &c)
{
	V v[3], r[3];
	gen3<M>(c, v, r);
	bool direct = c.flip();
	auto mk = [&](const V &x) { return direct ? M::any(x) : any_quantity(M::make(x)); };
	any_quantity g[3] = {mk(v[0]), mk(v[1]), mk(v[2])};
	any_quantity_cref cr0 = g[0], cr1 = g[1];
	const auto s01 = mk(res<M>(addv(r[0], r[1])));
	const auto e = g[0].neutral();
	const auto conc0 = M::make(v[0]), conc1 = M::make(v[1]);
	PROP(e == mk(V(r[0].size(), 0)));
	// every overload of the product
	PROP(g[0] * g[1] == s01);
	PROP(g[1] * g[0] == s01);
	PROP(g[0] + g[1] == s01);
	PROP(cr0 * cr1 == s01);
	PROP(any_quantity(g[0]) * g[1] == s01);
	PROP(g[0] * any_quantity(g[1]) == s01);
	PROP(any_quantity(g[0]) * any_quantity(g[1]) == s01);
	PROP(any_quantity(g[0]) + g[1] == s01);
	PROP(g[0] + any_quantity(g[1]) == s01);
	PROP(any_quantity(g[0]) + any_quantity(g[1]) == s01);
	PROP(cr0 + cr1 == s01);
	PROP((g[0] * g[1]) * g[2] == g[0] * (g[1] * g[2]));
	PROP(g[0] * e == g[0]);
	const auto n0 = mk(res<M>(negv(r[0])));
	PROP(g[0].inverse() == n0);
	PROP(any_quantity(g[0]).inverse() == n0);
	PROP(cr0.inverse() == n0);
	PROP(cr0.inv() == n0);
	PROP(cr0.neutral() == e);
	PROP(g[0].inverse() * g[0] == e);
	any_quantity x(g[0]);
	x.inverse_();
	PROP(x == n0);
	PROP(x.inverse() == g[0]);
	x = any_quantity(g[0]);
	x *= g[1];
	PROP(x == s01);
	x = any_quantity(g[0]);
	x += g[1];
	PROP(x == s01);
	x = any_quantity(g[0]);
	x.op(g[1], false);
	PROP(x == g[0]);
	x.op(g[1], true);
	PROP(x == s01);
	x = any_quantity(g[0]);
	x *= x;
	PROP(x == mk(res<M>(addv(r[0], r[0]))), "combination with itself in place");
	{ // vquantity interface
		auto p = cr0.clone();
		p->op(cr1);
		PROP(*p == s01);
		p = cr1.clone();
		cr0.op_to(*p);
		PROP(*p == s01);
		p = cr0.clone();
		*p *= cr1;
		PROP(*p == s01);
		p = cr0.clone();
		*p += cr1;
		PROP(*p == s01);
		p->inv_();
		PROP(*p * s01 == e);
		*p = cr1;
		PROP(*p == g[1]);
	}
	{ // value semantics: a copy is independent of the original
		any_quantity a(g[0]), b(a);
		b *= g[1];
		PROP(a == g[0]);
		PROP(b == s01);
		any_quantity d(g[2]);
		d = a;
		d *= g[1];
		PROP(a == g[0] && d == s01);
		any_quantity_cref ra = a;
		d = ra;
		PROP(d == g[0]);
		d *= g[1];
		PROP(a == g[0] && d == s01);
		swap(a, d);
		PROP(a == s01 && d == g[0]);
		any_quantity_ref r1 = a, r2 = d;
		swap(r1, r2);
		PROP(a == g[0] && d == s01);
		any_quantity f(std::move(d));
		PROP(f == s01);
		d = a; // a moved-from handle can be assigned
		PROP(d == g[0]);
	}
	for (int i = 0; i < 3; ++i)
		for (int j = 0; j < 3; ++j)
		{
			bool eq = r[i] == r[j];
			PROP((g[i] == g[j]) == eq);
			PROP((g[i] != g[j]) == !eq);
			// same answers as the concrete type
			auto a = M::make(v[i]), b = M::make(v[j]);
			PROP((g[i] < g[j]) == (a < b), "handle and concrete type order differently");
			PROP((g[i] > g[j]) == (a > b));
			PROP((g[i] == g[j]) == (a == b));
			PROP((g[i] == b) == eq);
			PROP((a == g[j]) == eq);
			PROP(distance2(g[i], g[j]) == a.distance2(b));
			PROP(std::abs(distance(g[i], g[j]) - std::sqrt(double(a.distance2(b)))) < 1e-9 * (1 + a.distance(b)));
			PROP(fmt::format("{}", g[i]) == fmt::format("{}", a));
			PROP(to_string(g[i]) == M::text(r[i]));
		}
	PROP(g[0].get() == conc0);
	PROP(static_cast<const vquantity &>(conc0).same_type(g[1].get()));
}
#define ALL_KINDS(F)                                       \
	switch (c.draw(10))                                    \
	{                                                      \
	case 0: return F<Comp<Z>>(c);                          \
	case 1: return F<Comp<C<2>>>(c);                       \
	case 2: return F<Comp<C<5>>>(c);                       \
	case 3: return F<Comp<Z, Z>>(c);                       \
	case 4: return F<Comp<Z, C<2>>>(c);                    \
	case 5: return F<Comp<C<2>, C<3>>>(c);                 \
	case 6: return F<Comp<C<3>, Z, C<2>>>(c);              \
	case 7: return F<Comp<Z, Z, C<4>>>(c);                 \
	case 8: return F<Comp<C<6>, C<50000>>>(c);             \
	default: return F<Comp<C<2>, Z, C<7>, Z>>(c);          \
	}
FACET(composites, 3) { ALL_KINDS(composite_laws) }
FACET(type_erased, 4) { ALL_KINDS(erased_laws) }

// ------------------------------------------------------------- different kinds
static any_quantity gen_any(pbt::Case &c, int kind)
{
	int16_t a = (int16_t)c.around(9), b = (int16_t)c.around(9);
	switch (kind)
	{
	case 0: return any_quantity(Z(a));
	case 1: return any_quantity(C<2>(a));
	case 2: return any_quantity(C<3>(a));
	case 3: return any_quantity(Z(a), Z(b));
	case 4: return any_quantity(Z(a), C<2>(b));
	case 5: return any_quantity(C<2>(b), Z(a));
	case 6: return any_quantity(C<5>(a));
	case 7: return any_quantity(Z(a), Z(b), Z(a));
	case 8: return any_quantity();
	default: return any_quantity(C<2>(a), C<2>(b));
	}
}
FACET(different_kinds, 2)
{
	int ka = (int)c.draw(10), kb = (int)c.draw(9);
	if (kb >= ka) ++kb;
	auto a = gen_any(c, ka), b = gen_any(c, kb);
	c.note([&] { return cat(to_string(a), " with ", to_string(b)); });
	c.nontrivial();
	const auto sa = to_string(a), sb = to_string(b);
	any_quantity_cref ra = a, rb = b;
	MUST_THROW(a == b);
	MUST_THROW(a != b);
	MUST_THROW(a < b);
	MUST_THROW(a > b);
	MUST_THROW(a * b);
	MUST_THROW(a + b);
	MUST_THROW(ra * any_quantity(b));
	MUST_THROW(any_quantity(a) * rb);
	MUST_THROW(any_quantity(a) * any_quantity(b));
	MUST_THROW(ra + any_quantity(b));
	MUST_THROW(any_quantity(a) + rb);
	MUST_THROW(a *= b);
	MUST_THROW(a += b);
	MUST_THROW(a.op(b, true));
	MUST_THROW(distance2(a, b));
	MUST_THROW(distance(a, b));
	{
		any_quantity_ref x = a, y = b;
		MUST_THROW((swap(x, y), 0));
	}
	PROP(!ra.same_type(rb));
	PROP(!rb.same_type(ra));
	PROP(to_string(a) == sa, "operand changed by a refused operation");
	PROP(to_string(b) == sb, "operand changed by a refused operation");
	// documented: assignment to the handle may change the kind it holds; swapping two handles always works
	any_quantity d(a);
	d = rb;
	PROP(d == b);
	d = any_quantity(a);
	PROP(d == a);
	const any_quantity &cb = b;
	d = cb;
	PROP(d == b, "assignment of another kind");
	any_quantity x(a), y(b);
	swap(x, y);
	PROP(x == b && y == a);
}
