// C27: the helpers on lists of dimensions, scalar types and tuples.
#include "gen_bt.h"
#include "dimension_manip.h"
#include "numeric.h"
#include "templateMeta.h"
#include "Conserved/Composite/cquantity.h"
#include "Conserved/quantity_utils.h"
#include <numeric>
using pbt::Case;
using pbt::cat;
using torch::Tensor;
std::string pbt::rule_text = "lists of 0-8 dimensions between 0 and 9 and every start and count; all scalar types; tuples of 1-5 elements of varied types; non-trivial when a list has at least two dimensions or the type is a floating point one";
unsigned pbt::quick_cases = 200000, pbt::thorough_cases = 2000000;
std::vector<std::string> pbt::assumptions = {"dimensions whose product fits 64 bits"};
std::function<void()> pbt::worker_init, pbt::case_init;
using IL = std::vector<int64_t>;
static IL gen_list(Case &c)
{
	IL r;
	// the product of the list is representable
	int64_t room = std::numeric_limits<int64_t>::max();
	bool large = c.chance(1, 3), sign = c.chance(1, 8);
	for (auto n = c.range(0, 8); n > 0; --n)
	{
		int64_t top = !large ? 9 : c.flip() ? 100 : c.flip() ? 100000 : 10000000000;
		auto x = (int64_t)c.draw(std::min(top, room) + 1);
		room /= std::max<int64_t>(x, 1);
		r.push_back(sign && c.flip() ? -x : x);
	}
	return r;
}
static IL plain(torch::IntArrayRef x) { return IL(x.begin(), x.end()); }
static std::string s(const IL &x)
{
	std::string r = "{";
	for (auto i : x) r += std::to_string(i) + " ";
	return r + "}";
}
FACET(dimensions, 4)
{
	using namespace quantit;
	auto a = gen_list(c), b = gen_list(c), d = gen_list(c);
	const auto keep = a;
	int64_t p = 1;
	for (auto x : a) p *= x;
	PROP(prod(a) == p, "prod of ", s(a), " is ", prod(a));
	auto join = [](std::initializer_list<IL> l) {
		IL r;
		for (auto &x : l)
			for (auto y : x) r.push_back(y);
		return r;
	};
	PROP(concat(a) == a && concat(a, b) == join({a, b}) && concat(a, b, d) == join({a, b, d}) && concat(a, a, b, d) == join({a, a, b, d}), "concatenation of ", s(a), s(b), s(d));
	PROP(concat({a, b, d}) == join({a, b, d}) && concat({}) == IL{}, "concatenation of ", s(a), s(b), s(d));
	PROP(concat(torch::IntArrayRef(a), b) == join({a, b}), "concatenation of ", s(a), s(b));
	auto r = quantit::reverse(a);
	PROP(r == IL(a.rbegin(), a.rend()), "reverse of ", s(a), " is ", s(r));
	auto start = c.draw(a.size() + 1), n = c.draw(a.size() - start + 1);
	IL part(a.begin() + start, a.begin() + start + n);
	PROP(plain(quantit::slice(a, start, n)) == part, "slice of ", s(a), " from ", start, " of ", n, " is ", s(plain(quantit::slice(a, start, n))));
	PROP(plain(quantit::slice(torch::IntArrayRef(a), start, n)) == part, "slice of ", s(a), " from ", start, " of ", n);
	PROP(n == 0 || quantit::slice(a, start, n).data() == a.data() + start, "a slice is a copy");
	PROP(prod(a, start, n) == std::accumulate(part.begin(), part.end(), (int64_t)1, std::multiplies<int64_t>()), "prod of ", s(part), " is ", prod(a, start, n));
	auto past = a.size() - start + 1 + c.draw(3);
	MUST_THROW(quantit::slice(a, start, past), "slice of ", s(a), " from ", start, " of ", past);
	MUST_THROW(prod(a, start, past), "prod of ", s(a), " from ", start, " of ", past);
	PROP(a == keep);
	c.nontrivial(a.size() > 1);
}
static std::vector<torch::ScalarType> all_types()
{
	return {torch::kFloat64, torch::kFloat32, torch::kHalf, torch::kBFloat16, torch::kComplexDouble, torch::kComplexFloat, torch::kUInt8, torch::kInt8, torch::kInt16, torch::kInt32, torch::kInt64, torch::kBool};
}
FACET(scalar_types, 1)
{
	auto t = c.pick(all_types());
	auto e = quantit::eps(t);
	c.note([&] { return cat(t, " eps ", e.toDouble()); });
	if (torch::isFloatingType(t) || torch::isComplexType(t))
	{
		auto real = torch::isComplexType(t) ? c10::toValueType(t) : t;
		// the distance from one to the next number
		auto one = torch::ones({}, real), step = torch::full({}, e.toDouble(), real);
		PROP(((one + step).to(torch::kFloat64) - 1).item().toDouble() == e.toDouble() && e.toDouble() > 0, "eps of ", t, " is ", e.toDouble());
		PROP((one + step / 2).to(torch::kFloat64).item().toDouble() == 1, "eps of ", t, " is ", e.toDouble());
		if (t != torch::kHalf && t != torch::kBFloat16) PROP(quantit::real_type(t) == real, "the real type of ", t, " is ", quantit::real_type(t));
		c.nontrivial();
	}
	else PROP(e.toDouble() == 0, "eps of ", t, " is ", e.toDouble());
}
FACET(tuples, 1)
{
	using quantit::for_each;
	using quantit::for_each2;
	auto a = (int)c.around(100), b = (int)c.around(100);
	std::string w(c.draw(5), 'w');
	IL l = gen_list(c);
	auto t = std::make_tuple(a, w, l, (double)b);
	const auto keep = t;
	int calls = 0;
	std::string order;
	auto describe = [&](const auto &x) {
		++calls;
		if constexpr (std::is_same_v<std::decay_t<decltype(x)>, int> || std::is_same_v<std::decay_t<decltype(x)>, double>) return cat(x);
		else return cat("size ", x.size());
	};
	auto r = for_each(t, describe);
	PROP(std::tuple_size_v<decltype(r)> == 4 && calls == 4, calls, " calls");
	PROP(std::get<0>(r) == cat(a) && std::get<1>(r) == cat("size ", w.size()) && std::get<2>(r) == cat("size ", l.size()) && std::get<3>(r) == cat((double)b));
	for_each(t, [&](const auto &x) -> void { order += describe(x) + ";"; });
	PROP(order == std::get<0>(r) + ";" + std::get<1>(r) + ";" + std::get<2>(r) + ";" + std::get<3>(r) + ";", "the elements are visited in the order ", order);
	PROP(t == keep);
	auto u = std::make_tuple(b, a, a + b, a - b), v = std::make_tuple(1, 2, 3, 4);
	auto m = for_each2(u, v, [](auto x, auto y) { return x * 10 + y; });
	PROP(m == std::make_tuple(b * 10 + 1, a * 10 + 2, (a + b) * 10 + 3, (a - b) * 10 + 4));
	std::vector<int> seen;
	for_each2(u, v, [&](auto x, auto &y) -> void { seen.push_back(x), y += x; });
	PROP((seen == std::vector<int>{b, a, a + b, a - b}) && v == std::make_tuple(1 + b, 2 + a, 3 + a + b, 4 + a - b));
	for_each(u, [](auto &x) -> void { x = -x; });
	PROP(u == std::make_tuple(-b, -a, -a - b, b - a), "the elements are not the ones of the tuple");
	c.nontrivial(l.size() > 1);
}
// what can be a charge is decided at compile time
struct NotAGroup
{
};
struct NoInverse
{
	static constexpr bool is_Abelian = true;
	NoInverse &op(const NoInverse &) { return *this; }
	bool operator==(const NoInverse &) const { return true; }
	bool operator!=(const NoInverse &) const { return false; }
};
struct NotAbelian
{
	static constexpr bool is_Abelian = false;
	constexpr NotAbelian &op(const NotAbelian &) { return *this; }
	constexpr NotAbelian &inverse_() { return *this; }
	constexpr bool operator==(const NotAbelian &) const { return true; }
	constexpr bool operator!=(const NotAbelian &) const { return false; }
};
struct Trivial
{
	static constexpr bool is_Abelian = true;
	constexpr Trivial &op(const Trivial &) { return *this; }
	constexpr Trivial &inverse_() { return *this; }
	constexpr bool operator==(const Trivial &) const { return true; }
	constexpr bool operator!=(const Trivial &) const { return false; }
};
// a group whose default value is not neutral
struct Shifted
{
	int v = 1;
	static constexpr bool is_Abelian = true;
	constexpr Shifted &op(const Shifted &o) { return v += o.v, *this; }
	constexpr Shifted &inverse_() { return v = -v, *this; }
	constexpr bool operator==(const Shifted &o) const { return v == o.v; }
	constexpr bool operator!=(const Shifted &o) const { return v != o.v; }
};
FACET(traits, 1)
{
	using namespace quantit::conserved;
	PROP(is_conserved_QuantiT_v<Z> && is_conserved_QuantiT_v<C<2>> && is_conserved_QuantiT_v<C<7>> && is_conserved_QuantiT_v<Trivial>);
	PROP(!is_conserved_QuantiT_v<int> && !is_conserved_QuantiT_v<std::string> && !is_conserved_QuantiT_v<NotAGroup> && !is_conserved_QuantiT_v<NoInverse> && !is_conserved_QuantiT_v<NotAbelian>);
	PROP(!is_conserved_QuantiT_v<Shifted>);
	PROP((all_group_v<Z, C<3>, Trivial>)&&!(all_group_v<Z, int>)&&!(all_group_v<int, Z>)&&!(all_group_v<Z, NotAGroup, C<3>>));
	using quantit::and_;
	using quantit::or_;
	using t = std::true_type;
	using f = std::false_type;
	PROP((and_<>::value) && (and_<t>::value) && (and_<t, t, t>::value) && !(and_<t, f, t>::value) && !(and_<f>::value) && !(and_<t, t, f>::value));
	PROP(!(or_<>::value) && !(or_<f, f>::value) && (or_<f, t>::value) && (or_<t, f, f>::value) && (or_<f, f, t>::value));
	(void)c;
}
