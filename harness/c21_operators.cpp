// C21: algebra of the local operators.
#include "model_net.h"
#include "operators.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "chains of 1-3 sites for the dense operators, any two modes; for the symmetric operators, 7 group types, any charges of the empty state and of the particles (equal, opposite, neutral, "
    "extreme), any grouping of equal charges in sections, any shift between the two sides, specification tensors that carry a charge, and assignments that are inconsistent or of the "
    "wrong size; non-trivial when the charges of the basis states are not all equal, or for two different modes";
unsigned pbt::quick_cases = 120000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {"torch::kron and matmul are correct"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
static Tensor D(const Tensor &t) { return t.to(torch::kFloat64); }
static Tensor unit(int64_t n, int64_t k)
{
	auto t = torch::zeros({n});
	t[k] = 1;
	return t;
}
#define EQ(a, b, what) PROP(torch::equal(D(a), D(b)), what, ": ", tstr(a), " instead of ", tstr(b))
// operator `a` on site k of L, with strings f before it
static Tensor embed(const Tensor &a, const Tensor &f, int64_t k, int64_t L)
{
	Tensor r = torch::ones({1, 1});
	for (int64_t i = 0; i < L; ++i) r = torch::kron(r, i < k ? D(f) : i == k ? D(a) : torch::eye(a.size(0)));
	return r;
}
FACET(dense_fermions, 1)
{
	auto L = c.range(1, 3);
	auto [cu, cd, F, id] = fermions();
	for (auto &x : {cu, cd, F, id}) PROP(x.sizes() == (IL{4, 4}), "sizes ", x.sizes());
	auto i = c.draw(L), j = c.draw(L), s = c.draw(2), t = c.draw(2);
	c.note([&] { return cat("length ", L, " modes ", i, s ? "dn " : "up ", j, t ? "dn" : "up"); });
	auto a = embed(s ? cd : cu, F, i, L), b = embed(t ? cd : cu, F, j, L), one = torch::eye(a.size(0));
	bool same = i == j && s == t;
	EQ(a.matmul(dag(b)) + dag(b).matmul(a), one * (double)same, "{c,c+}");
	EQ(a.matmul(b) + b.matmul(a), one * 0., "{c,c}");
	EQ(id, torch::eye(4), "identity");
	auto n = dag(a).matmul(a), string = embed(F, F, L - 1, L);
	EQ(n.matmul(n), n, "the number operator is a projector");
	EQ(string.matmul(string), one, "square of the string operator");
	EQ(string.matmul(a), -a.matmul(string), "{string,c}");
	// the string operator is the parity of the number of particles
	auto N = torch::zeros_like(one);
	for (int64_t k = 0; k < L; ++k)
		for (auto &x : {cu, cd})
		{
			auto y = embed(x, F, k, L);
			N = N + dag(y).matmul(y);
		}
	EQ(string, torch::diag(1 - 2 * torch::remainder(N.diag(), 2)), "string operator and parity");
	EQ(N, torch::diag(N.diag()), "the number of particles is diagonal");
	// empty, up, down, both
	EQ(dag(D(cu)).matmul(unit(4, 0)), unit(4, 1), "c+_up on the empty state");
	EQ(dag(D(cd)).matmul(unit(4, 0)), unit(4, 2), "c+_dn on the empty state");
	EQ(dag(D(cu)).matmul(dag(D(cd)).matmul(unit(4, 0))).abs(), unit(4, 3), "both on the empty state");
	c.nontrivial(!same);
	cu.fill_(7), cd.fill_(7), F.fill_(7), id.fill_(7);
	auto again = fermions();
	EQ(std::get<3>(again), torch::eye(4), "operators share their storage between calls");
}
FACET(dense_pauli, 1)
{
	auto [x, iy, z, lo, id] = pauli();
	auto L = c.range(1, 3), i = (int64_t)c.draw(L), j = (int64_t)c.draw(L);
	auto a = (int)c.draw(3), b = (int)c.draw(3);
	c.note([&] { return cat("length ", L, " operators ", a, " at ", i, ", ", b, " at ", j); });
	auto I = torch::eye(2);
	auto at = [&](int k, int64_t w) {
		auto m = (k == 0 ? D(x) : k == 1 ? D(iy) : D(z)).to(torch::kComplexDouble);
		if (k == 1) m = m * c10::complex<double>(0, -1);
		Tensor r = torch::ones({1, 1}, torch::kComplexDouble);
		for (int64_t q = 0; q < L; ++q) r = torch::kron(r, q == w ? m : I.to(torch::kComplexDouble));
		return r;
	};
	auto A = at(a, i), B = at(b, j);
	Tensor want = torch::zeros_like(A);
	if (i == j && a != b)
	{
		int k = 3 - a - b;
		want = at(k, i) * c10::complex<double>(0, (b - a + 3) % 3 == 1 ? 2 : -2);
	}
	PROP(torch::equal(A.matmul(B) - B.matmul(A), want), "commutator");
	if (i == j) PROP(torch::equal(A.matmul(B) + B.matmul(A), torch::eye(1 << L, torch::kComplexDouble) * (a == b ? 2. : 0.)), "anticommutator");
	EQ(id, I, "identity");
	EQ(D(z).diag(), torch::tensor({1., -1.}), "S_z");
	EQ(lo, (D(x) - D(iy)) / 2, "lowering operator");
	EQ(D(z).matmul(D(lo)) - D(lo).matmul(D(z)), -2 * D(lo), "the lowering operator lowers the spin");
	EQ(D(lo).matmul(unit(2, 1)), torch::zeros({2}), "lowest state");
	c.nontrivial(a != b || i != j);
	lo.fill_(5), x.fill_(5), z.fill_(5), iy.fill_(5), id.fill_(5);
	EQ(std::get<4>(pauli()), I, "operators share their storage between calls");
}
// a dimension whose elements have the given charges
static Dim grouped(Case &c, const std::vector<Q> &q)
{
	Dim d;
	for (auto &x : q)
		if (!d.empty() && d.back().q == x && c.flip()) d.back().size++;
		else d.push_back(Sec{1, x});
	return d;
}
struct Assignment
{
	int kind;
	std::vector<Q> left, right; // charges of the elements on both sides
	btensor shape;
};
static Assignment assign(Case &c, int n, bool &consistent_hint)
{
	Assignment a;
	a.kind = gen_kind(c);
	auto k = a.kind;
	auto m = c.chance(1, 6) ? 9 : 2;
	auto q0 = c.flip() ? qzero(k) : gen_q(c, k, m);
	std::vector<Q> part;
	for (int i = 0; i < 2; ++i) part.push_back(i && c.chance(1, 3) ? (c.flip() ? part[0] : qneg(k, part[0])) : gen_q(c, k, m));
	if (n == 4) a.left = {q0, qadd(k, q0, part[0]), qadd(k, q0, part[1]), qadd(k, qadd(k, q0, part[0]), part[1])};
	else a.left = {q0, qadd(k, q0, part[0])};
	consistent_hint = !c.chance(1, 5);
	if (!consistent_hint) a.left[c.draw(n)] = gen_q(c, k, m);
	auto shift = c.chance(1, 4) ? gen_q(c, k) : qzero(k);
	for (auto &x : a.left) a.right.push_back(qadd(k, qneg(k, x), shift));
	if (!consistent_hint && c.chance(1, 3)) a.right[c.draw(n)] = gen_q(c, k, m);
	Spec s;
	s.kind = k;
	s.dims = {grouped(c, a.left), grouped(c, a.right)};
	bool alike = s.dims[0].size() != s.dims[1].size() && c.chance(3, 4);
	for (size_t i = 0, k = 0; alike && i < s.dims[0].size(); k += s.dims[0][i++].size)
		for (int64_t e = 1; e < s.dims[0][i].size; ++e) alike &= a.right[k + e] == a.right[k];
	if (alike)
	{ // the same grouping on both sides
		s.dims[1] = {};
		for (size_t i = 0, k = 0; i < s.dims[0].size(); k += s.dims[0][i++].size) s.dims[1].push_back(Sec{s.dims[0][i].size, a.right[k]});
	}
	s.sel = c.chance(1, 4) ? gen_q(c, k) : qzero(k);
	a.shape = make_shape(s);
	c.note([&] { return str(s); });
	return a;
}
// charge of the non-zero elements of an operator, if they agree
static bool charge_of(const Assignment &a, const Tensor &t, Q &q)
{
	bool found = false;
	q = qzero(a.kind);
	auto d = D(t);
	for (int64_t i = 0; i < d.size(0); ++i)
		for (int64_t j = 0; j < d.size(1); ++j)
			if (d[i][j].item<double>() != 0)
			{
				auto x = qadd(a.kind, a.left[i], a.right[j]);
				if (found && x != q) return false;
				found = true;
				q = x;
			}
	return true;
}
template <class D_, class F>
static void block_ops(Case &c, const Assignment &a, const D_ &dense, F make)
{
	bool ok = true;
	std::vector<Q> charges;
	for (auto &t : dense)
	{
		Q q;
		ok &= charge_of(a, t, q);
		charges.push_back(qnorm(a.kind, q));
	}
	std::vector<btensor> ops;
	auto before = snap(a.shape);
	try
	{
		ops = make();
	}
	catch (const std::exception &e)
	{
		PROP(!ok, "a consistent assignment was refused: ", e.what());
		c.nontrivial();
		return;
	}
	UNCHANGED(before, a.shape);
	PROP(ok, "an inconsistent assignment was accepted");
	bool differ = false;
	for (auto &x : a.left) differ |= x != a.left[0];
	for (size_t i = 0; i < ops.size(); ++i)
	{
		VALID(ops[i]);
		PROP(torch::equal(D(dense_of(ops[i])), D(dense[i])), "operator ", i, ": ", tstr(dense_of(ops[i])), " instead of ", tstr(dense[i]));
		PROP(sel_of(ops[i]) == to_any(a.kind, charges[i]), "charge of operator ", i, fmt::format(" {} instead of {}", sel_of(ops[i]), to_any(a.kind, charges[i])));
		auto d = bond_diff(ops[i].conj(), 0, a.shape, 0) + bond_diff(ops[i].conj(), 1, a.shape, 1);
		PROP(d == "", "indices of operator ", i, ": ", d);
	}
	c.nontrivial(differ);
}
static btensor prod(const btensor &a, const btensor &b) { return tensordot(a, b, {1}, {0}); }
static btensor bdag(const btensor &a) { return a.conj().permute({1, 0}); }
// on two sites: {out1, out2, in1, in2}
static btensor two(const btensor &a, const btensor &b) { return tensordot(a, b, {}, {}).permute({0, 2, 1, 3}); }
static btensor prod2(const btensor &a, const btensor &b) { return tensordot(a, b, {2, 3}, {0, 1}); }
FACET(block_fermions, 3)
{
	bool hint;
	auto a = assign(c, 4, hint);
	auto [cu, cd, F, id] = fermions();
	std::vector<btensor> o;
	block_ops(c, a, std::vector<Tensor>{cu, cd, F, id}, [&] {
		auto [x, y, f, i] = fermions(a.shape);
		return o = {x, y, f, i};
	});
	if (o.empty()) return;
	if (bond_diff(a.shape, 0, a.shape, 1) != "") return; // the operators do not act within one space
	auto s = c.draw(2), t = c.draw(2);
	auto x = o[s], y = o[t];
	auto anti = [&](const btensor &p, const btensor &q, auto pr) { return D(dense_of(pr(p, q) + pr(q, p))); };
	// on one site
	EQ(anti(x, bdag(y), prod), torch::eye(4) * (double)(s == t), "{c,c+}");
	EQ(anti(x, y, prod), torch::zeros({4, 4}), "{c,c}");
	EQ(anti(o[2], x, prod), torch::zeros({4, 4}), "{F,c}");
	EQ(dense_of(prod(o[2], o[2])), torch::eye(4), "F F");
	EQ(dense_of(prod(o[3], x)), dense_of(x), "identity");
	// between sites
	auto p = two(x, o[3]), q = two(o[2], y);
	EQ(anti(p, q, prod2), torch::zeros({4, 4, 4, 4}), "{c1,c2}");
	EQ(anti(p, q.conj().permute({2, 3, 0, 1}), prod2), torch::zeros({4, 4, 4, 4}), "{c1,c2+}");
}
FACET(block_pauli, 2)
{
	bool hint;
	auto a = assign(c, 2, hint);
	auto [x, iy, z, lo, id] = pauli();
	std::vector<btensor> o;
	block_ops(c, a, std::vector<Tensor>{z, lo, id}, [&] {
		auto [p, q, r] = pauli(a.shape);
		return o = {p, q, r};
	});
	if (o.empty()) return;
	if (bond_diff(a.shape, 0, a.shape, 1) != "") return;
	EQ(dense_of(prod(o[0], o[1]) - prod(o[1], o[0])), -2 * D(dense_of(o[1])), "[S_z,lo]");
	EQ(dense_of(prod(bdag(o[1]), o[1]) - prod(o[1], bdag(o[1]))), D(dense_of(o[0])), "[hi,lo]");
	EQ(dense_of(prod(o[1], bdag(o[1])) + prod(bdag(o[1]), o[1])), dense_of(o[2]), "{lo,hi}");
	EQ(dense_of(prod(o[0], o[0])), dense_of(o[2]), "S_z S_z");
}
FACET(wrong_size, 1)
{
	auto kind = gen_kind(c);
	Spec s;
	s.kind = kind;
	auto rank = c.range(0, 3);
	for (int64_t i = 0; i < rank; ++i)
	{
		Dim d;
		auto n = c.range(1, 5);
		for (int64_t k = 0; k < n; ++k) d.push_back(Sec{1, qzero(kind)});
		s.dims.push_back(d);
	}
	s.sel = qzero(kind);
	auto sz = full_sizes(s);
	c.note([&] { return str(s); });
	auto t = make_shape(s);
	auto run = [&](bool good, auto f) {
		bool thrown = false;
		try
		{
			f();
		}
		catch (const std::exception &)
		{
			thrown = true;
		}
		PROP(thrown != good, good ? "refused " : "accepted ", str(s));
	};
	run(sz == (IL{4, 4}), [&] { fermions(t); });
	run(sz == (IL{2, 2}), [&] { pauli(t); });
	c.nontrivial();
}
