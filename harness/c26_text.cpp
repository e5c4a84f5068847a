// C26: text output.
#include "gen_bt.h"
#include "MPT.h"
#include "blockTensor/LinearAlgebra.h"
#include "torch_formatter.h"
#include <regex>
#include <sstream>
#include <unistd.h>
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "charges of 7 group types over their whole range; block tensors of rank 0-4 with any pattern of stored blocks, and variants that differ in a single size, charge, block or value; dense tensors of every element type with "
    "extreme and non-finite values, undefined, empty and of rank 0-4; line lengths 0 to 400, malformed options; non-trivial when there is something to print";
unsigned pbt::quick_cases = 600000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {"at::print writes a correct text for a dense tensor"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

static BT copy_of(const BT &a)
{
	BT r{a.s, make_shape(a.s, dtype(a.v)), a.d.clone(), a.v};
	for (auto &b : a.t) r.t.block(b.first) = b.second.clone();
	return r;
}
// the numbers in a text; the moduli of the groups are skipped
static std::vector<int64_t> numbers(std::string s)
{
	static const std::regex group("C<[0-9]+>"), number("-?[0-9]+");
	s = std::regex_replace(s, group, "C");
	std::vector<int64_t> r;
	for (std::sregex_iterator it(s.begin(), s.end(), number), e; it != e; ++it) r.push_back(std::stoll(it->str()));
	return r;
}
static std::vector<int64_t> moduli(const std::string &s)
{
	static const std::regex group("Z|C<([0-9]+)>");
	std::vector<int64_t> r;
	for (std::sregex_iterator it(s.begin(), s.end(), group), e; it != e; ++it) r.push_back((*it)[1].matched ? std::stoll((*it)[1].str()) : 0);
	return r;
}
static std::string nstr(const std::vector<int64_t> &v)
{
	std::string s;
	for (auto x : v) s += std::to_string(x) + " ";
	return s;
}
template <class T>
static std::string text(const char *f, const T &t)
{
	return fmt::format(fmt::runtime(f), t);
}
template <class F>
static bool refused(F f)
{
	try
	{
		f();
	}
	catch (const fmt::format_error &)
	{
		return true;
	}
	return false;
}
// what f writes to the standard output
template <class F>
static std::string captured(F f)
{
	fflush(stdout);
	auto file = tmpfile();
	int old = dup(1);
	dup2(fileno(file), 1);
	f();
	fflush(stdout);
	dup2(old, 1);
	close(old);
	rewind(file);
	std::string s;
	char buf[4096];
	size_t n;
	while ((n = fread(buf, 1, sizeof buf, file)) > 0) s.append(buf, n);
	fclose(file);
	return s;
}
static std::string reference(const Tensor &t, int64_t width)
{
	std::stringstream s;
	at::print(s, t, width);
	auto r = s.str();
	for (auto &x : r)
		if (x == '{') x = '(';
		else if (x == '}') x = ')';
	return r;
}
static Q any_q(Case &c, int kind) { return c.chance(1, 3) ? gen_q(c, kind, 32767) : gen_q(c, kind); }

FACET(charges, 3)
{
	auto kind = gen_kind(c);
	auto a = qnorm(kind, any_q(c, kind)), b = c.chance(1, 4) ? a : qnorm(kind, any_q(c, kind));
	auto A = to_any(kind, a), B = to_any(kind, b);
	c.note([&] { return cat(kinds()[kind].name, " ", qstr(a), " ", qstr(b)); });
	auto ta = fmt::format("{}", A), tb = fmt::format("{}", B);
	PROP(numbers(ta) == a, "text \"", ta, "\" for ", qstr(a));
	PROP(moduli(ta) == kinds()[kind].mod, "text \"", ta, "\" for groups ", kinds()[kind].name);
	PROP((ta == tb) == (a == b), "texts \"", ta, "\" and \"", tb, "\"");
	any_quantity_cref r = A;
	PROP(fmt::format("{}", r) == ta);
	PROP(to_string(r) == ta, "to_string \"", to_string(r), "\"");
	std::stringstream s;
	s << r;
	PROP(s.str() == ta, "stream \"", s.str(), "\"");
	PROP(fmt::format("<{}|{}>", A, B) == "<" + ta + "|" + tb + ">");
	PROP(fmt::format("{1} {0} {1}", A, B) == tb + " " + ta + " " + tb);
	PROP(refused([&] { text(c.pick(std::vector<const char *>{"{:3}", "{:d}", "{:>10}", "{:x"}), A); }), "an unknown option was accepted");
	any_quantity_vector v(2, A);
	*(v.begin() + 1) = B;
	auto tv = fmt::format("{}", v);
	auto both = a;
	both.insert(both.end(), b.begin(), b.end());
	PROP(numbers(tv) == both, "text \"", tv, "\" for ", qstr(a), " and ", qstr(b));
	c.nontrivial(a != b);
}
template <class G>
static void simple(Case &c, int64_t v, int64_t N)
{
	G g((int16_t)v);
	int64_t r = N ? ((v % N) + N) % N : v;
	auto t = fmt::format("{}", g);
	PROP(numbers(t) == std::vector<int64_t>{r}, "text \"", t, "\" for ", v);
	PROP(moduli(t) == std::vector<int64_t>{N}, "text \"", t, "\" for a modulus of ", N);
	std::stringstream s;
	s << g;
	PROP(numbers(s.str()) == std::vector<int64_t>{r}, "stream \"", s.str(), "\" for ", v);
	PROP(refused([&] { text("{:4}", g); }), "an unknown option was accepted");
	PROP(fmt::format("{}{}", g, g) == t + t);
}
FACET(simple_charges, 1)
{
	using namespace quantit::conserved;
	auto v = c.chance(1, 3) ? c.around(32767) : c.around(20);
	c.note([&] { return cat("value ", v); });
	switch (c.draw(4))
	{
	case 0: simple<Z>(c, v, 0); break;
	case 1: simple<C<2>>(c, v, 2); break;
	case 2: simple<C<5>>(c, v, 5); break;
	default: simple<C<1000>>(c, v, 1000);
	}
	c.nontrivial(v);
}
static void push(std::vector<int64_t> &r, const Q &q) { r.insert(r.end(), q.begin(), q.end()); }
FACET(block_tensors, 4)
{
	auto kind = gen_kind(c);
	auto a = gen_bt(c, kind, c.range(0, 4), gen_val(c));
	c.note([&] { return str(a); });
	auto t = fmt::format("{}", a.t);
	// the structure: rank, selection rule, numbers of sections, sizes, charges
	std::vector<int64_t> want{(int64_t)a.s.rank()};
	push(want, qnorm(kind, a.s.sel));
	for (auto &d : a.s.dims) want.push_back((int64_t)d.size());
	for (auto &d : a.s.dims)
		for (auto &s : d) want.push_back(s.size);
	for (auto &d : a.s.dims)
		for (auto &s : d) push(want, qnorm(kind, s.q));
	// then every stored block: index and elements
	size_t at = 0;
	std::string head = t;
	bool first = true;
	for (auto &b : a.t)
	{
		auto body = reference(b.second, 80);
		// the index precedes the elements
		auto p = t.find(body, at);
		PROP(p != std::string::npos, "the text lacks the elements of block ", nstr({b.first.begin(), b.first.end()}), ":\n", t);
		auto before = t.substr(at, p - at);
		auto n = numbers(before);
		auto k = b.first.size();
		PROP(n.size() >= k && std::equal(b.first.begin(), b.first.end(), n.end() - k), "the text lacks the index of block ", nstr({b.first.begin(), b.first.end()}), ":\n", t);
		n.resize(n.size() - k);
		if (first) PROP(n == want, "the structure reads ", nstr(n), "instead of ", nstr(want), "in\n", t);
		else PROP(n.empty(), "unexpected numbers between blocks in\n", t);
		first = false;
		at = p + body.size();
	}
	auto rest = numbers(t.substr(at));
	if (first) PROP(rest == want, "the structure reads ", nstr(rest), "instead of ", nstr(want), "in\n", t);
	else PROP(rest.empty(), "unexpected numbers at the end of\n", t);
	PROP(to_string(a.t) == t, "to_string differs:\n", to_string(a.t), "and\n", t);
	if (c.chance(1, 8)) PROP(captured([&] { quantit::print(a.t); }) == t + "\n\n", "print differs");
	PROP(fmt::format("{}|{}", a.t, a.t) == t + "|" + t);
	PROP(refused([&] { text(c.pick(std::vector<const char *>{"{:3}", "{:s}", "{:>10}", "{:"}), a.t); }), "an unknown option was accepted");
	c.nontrivial(a.t.begin() != a.t.end());
}
FACET(block_variants, 3)
{
	auto kind = gen_kind(c);
	auto a = gen_bt(c, kind, c.range(1, 3), c.pick(std::vector<Val>{Val::ints, Val::real, Val::cplx}));
	auto b = copy_of(a);
	c.note([&] { return str(a); });
	auto t = fmt::format("{}", a.t);
	PROP(fmt::format("{}", b.t) == t, "equal tensors have different texts:\n", t, fmt::format("{}", b.t));
	auto s = a.s;
	// one difference
	switch (c.draw(4))
	{
	case 0: {
		auto &d = s.dims[c.draw(s.dims.size())];
		if (d.empty() || c.flip()) d.push_back(Sec{1, qzero(kind)});
		else d[c.draw(d.size())].size++;
		break;
	}
	case 1: {
		auto &d = s.dims[c.draw(s.dims.size())];
		c.assume(!d.empty());
		auto &x = d[c.draw(d.size())];
		auto q = qnorm(kind, gen_q(c, kind));
		c.assume(q != qnorm(kind, x.q));
		x.q = q;
		break;
	}
	case 2: {
		auto q = qnorm(kind, gen_q(c, kind));
		c.assume(q != qnorm(kind, s.sel));
		s.sel = q;
		break;
	}
	default: { // a block more, or less
		auto all = allowed_blocks(s);
		c.assume(!all.empty());
		auto x = all[c.draw(all.size())];
		auto other = copy_of(a);
		if (a.t.blocks().contains(x)) return;
		other.t.block(x) = torch::zeros(block_sizes(s, x), dtype(a.v));
		PROP(fmt::format("{}", other.t) != t, "a block more does not show in\n", t);
		c.nontrivial();
		return;
	}
	}
	auto x = make_shape(s), y = make_shape(a.s);
	PROP(fmt::format("{}", x) != fmt::format("{}", y), "the texts of ", str(s), " and ", str(a.s), " are the same:\n", fmt::format("{}", x));
	c.nontrivial();
}
FACET(dense_tensors, 4)
{
	Tensor t;
	auto type = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat32, torch::kInt64, torch::kBool, torch::kComplexDouble, torch::kUInt8});
	IL sizes;
	if (!c.chance(1, 20))
	{
		auto r = c.draw(5);
		for (size_t i = 0; i < r; ++i) sizes.push_back(c.range(c.chance(1, 10) ? 0 : 1, r == 1 ? 40 : 6));
		if (r == 2 && c.flip()) sizes[1] = c.range(1, 60);
		auto f = gen_filler(c);
		t = fill(f, sizes, c.flip() ? Val::real : Val::ints);
		switch (c.draw(5))
		{
		case 0: t = t * std::pow(10., (double)c.around(18)); break;
		case 1:
			if (t.numel())
			{
				auto k = t.reshape({-1});
				k[(int64_t)c.draw(t.numel())] = c.pick(std::vector<double>{INFINITY, -INFINITY, NAN, 1e300, -1e-300});
				t = k.reshape(sizes);
			}
			break;
		default:;
		}
		if (type == torch::kComplexDouble) t = torch::complex(t, -t);
		else t = (type == torch::kInt64 || type == torch::kUInt8 || type == torch::kBool ? t.nan_to_num(0., 0., 0.).clamp(-1e18, 1e18) : t).to(type);
	}
	c.note([&] { return t.defined() ? cat("sizes ", nstr(sizes), " of ", type) : std::string("undefined"); });
	auto r = fmt::format("{}", t);
	PROP(r == reference(t, 80), "the text is\n", r, "instead of\n", reference(t, 80));
	PROP(text("{:}", t) == r);
	auto w = c.range(24, 400);
	auto f = "{:" + std::to_string(w) + "}";
	auto rw = text(f.c_str(), t);
	PROP(rw == reference(t, w), "with lines of ", w, " the text is\n", rw, "instead of\n", reference(t, w));
	// very short lines are not possible, but they don't fail
	auto sf = "{:" + std::to_string(c.range(0, 23)) + "}";
	auto sw = text(sf.c_str(), t);
	PROP(!sw.empty() && sw.find_first_of("{}") == std::string::npos);
	PROP(fmt::format("a{}b{}c", t, 1) == "a" + r + "b1c");
	PROP(fmt::format(fmt::runtime("{0:" + std::to_string(w) + "}-{0}"), t) == rw + "-" + r, "options of one field change the other");
	PROP(refused([&] { text(c.pick(std::vector<const char *>{"{:x}", "{:1x}", "{:1x2}", "{:x1}", "{:-5}", "{:99999999999}", "{:5.2}", "{:80", "{:"}), t); }), "a malformed option was accepted");
	if (c.chance(1, 8)) PROP(captured([&] { quantit::print(t); }) == r + "\n\n", "print differs");
	c.nontrivial(t.defined() && t.numel());
}
FACET(networks, 1)
{
	auto n = c.range(0, 5);
	std::vector<int64_t> want;
	bool block = c.flip();
	std::string out;
	if (block)
	{
		auto kind = gen_kind(c);
		bMPT m((size_t)n);
		for (auto &x : m)
		{
			auto a = gen_bt(c, kind, c.range(0, 4), Val::ints);
			x = a.t;
			push(want, full_sizes(a.s));
		}
		out = captured([&] { print_dims(m); });
	}
	else
	{
		MPT m((size_t)n);
		for (auto &x : m)
		{
			IL s;
			auto r = c.draw(5);
			for (size_t i = 0; i < r; ++i) s.push_back(c.range(0, 12));
			x = torch::zeros(s);
			push(want, s);
		}
		out = captured([&] { print_dims(m); });
	}
	PROP(numbers(out) == want, "printed ", out, "for ", nstr(want));
	c.nontrivial(!want.empty());
}
