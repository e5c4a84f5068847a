// C06: contraction of block tensors agrees with dense contraction.
#include "gen_bt.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random pairs of block tensors of rank 0-4 over 7 group types sharing 0-4 contracted dimensions at random positions, with random missing blocks; "
    "non-trivial when an operand has at least two sections in some dimension and the expected result has a non-zero element";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 5000000;
std::vector<std::string> pbt::assumptions = {"both operands have the same element type", "dimension indices are not negative"};
std::function<void()> pbt::worker_init = [] { torch_worker_init(); empty_dims() = 40; }, pbt::case_init = torch_case_init;

struct Con
{
	BT a, b;
	IL da, db;
	Spec out;
	Tensor want;
};
// torch doesn't initialize empty sums of integers
static Tensor dense_tensordot(const Tensor &a, const Tensor &b, torch::IntArrayRef da, torch::IntArrayRef db)
{
	if (a.scalar_type() != torch::kInt64) return torch::tensordot(a, b, da, db);
	return torch::tensordot(a.to(torch::kFloat64), b.to(torch::kFloat64), da, db).to(torch::kInt64);
}
static Con gen_con(Case &c, int maxrank = 4, bool all = false)
{
	auto kind = gen_kind(c);
	auto v = gen_val(c);
	size_t ra = c.range(0, maxrank), rb = c.range(0, maxrank);
	if (all) rb = ra;
	size_t k = all ? ra : c.range(0, std::min(ra, rb));
	Lim lim;
	if (ra + rb - 2 * k > 5) lim.maxsize = 2;
	Spec A, B;
	A.kind = B.kind = kind;
	for (size_t i = 0; i < ra; ++i) A.dims.push_back(gen_dim(c, kind, lim));
	for (size_t i = 0; i < rb; ++i) B.dims.push_back(gen_dim(c, kind, lim));
	auto pa = c.permutation(ra), pb = c.permutation(rb);
	IL da(pa.begin(), pa.begin() + k), db(pb.begin(), pb.begin() + k);
	for (size_t i = 0; i < k; ++i) B.dims[db[i]] = conj_dim(kind, A.dims[da[i]]);
	A.sel = gen_sel(c, A);
	B.sel = gen_sel(c, B);
	if (all && c.flip()) B.sel = qneg(kind, A.sel);
	Con r{gen_tensor(c, A, v), gen_tensor(c, B, v), da, db, {}, {}};
	r.out.kind = kind;
	for (size_t i = 0; i < ra; ++i)
		if (std::find(da.begin(), da.end(), (int64_t)i) == da.end()) r.out.dims.push_back(A.dims[i]);
	for (size_t i = 0; i < rb; ++i)
		if (std::find(db.begin(), db.end(), (int64_t)i) == db.end()) r.out.dims.push_back(B.dims[i]);
	r.out.sel = qadd(kind, A.sel, B.sel);
	r.want = dense_tensordot(r.a.d, r.b.d, da, db);
	return r;
}
static void note(Case &c, const Con &x)
{
	bool multi = false;
	for (auto &d : x.a.s.dims) multi |= d.size() > 1;
	for (auto &d : x.b.s.dims) multi |= d.size() > 1;
	c.nontrivial(multi && maxabs(x.want) > 0);
	c.note([&] {
		std::string s = cat(str(x.a), "  with  ", str(x.b), " over ");
		for (size_t i = 0; i < x.da.size(); ++i) s += cat("(", x.da[i], ",", x.db[i], ")");
		return s;
	});
	c.label(cat(x.da.size(), " contracted dims"));
}
#define RESULT(t, spec, want, ex, ...)                  \
	do                                                  \
	{                                                   \
		auto &&rs_ = (t);                               \
		VALID(rs_, #t " ", ##__VA_ARGS__);              \
		HAS_SPEC(rs_, spec, #t " ", ##__VA_ARGS__);     \
		SAME(dense_of(rs_), want, ex, #t " ", ##__VA_ARGS__); \
		SAME(rs_.to_dense(), want, ex, "to_dense of " #t " ", ##__VA_ARGS__); \
	} while (0)
FACET(tensordot_any, 5)
{
	auto x = gen_con(c);
	note(c, x);
	auto sa = snap(x.a.t), sb = snap(x.b.t);
	auto r = c.flip() ? x.a.t.tensordot(x.b.t, x.da, x.db) : tensordot(x.a.t, x.b.t, x.da, x.db);
	RESULT(r, x.out, x.want, exact(x.a.v));
	UNCHANGED(sa, x.a.t);
	UNCHANGED(sb, x.b.t);
	// the result does not share storage with the operands
	for (auto &b : r) b.second.fill_(7);
	UNCHANGED(sa, x.a.t, "writing in the result");
	UNCHANGED(sb, x.b.t, "writing in the result");
	// only blocks of the operands that meet contribute, and nothing is stored outside the conservation law
	for (auto &b : r) PROP(allowed(x.out, b.first));
}
FACET(full_contraction, 1)
{
	auto x = gen_con(c, 4, true);
	note(c, x);
	auto r = tensordot(x.a.t, x.b.t, x.da, x.db);
	RESULT(r, x.out, x.want, exact(x.a.v));
	PROP(r.dim() == 0);
	PROP(r.sizes().empty());
	if (x.out.sel == qzero(x.out.kind))
	{
		auto z = r.item().toComplexDouble();
		auto w = x.want.item().toComplexDouble();
		PROP(std::abs(std::complex<double>(z.real() - w.real(), z.imag() - w.imag())) <= 1e-10 * (1 + std::abs(w.real()) + std::abs(w.imag())));
	}
}
FACET(norm, 1)
{
	// <A|A>: the contraction of a tensor with its conjugate is the sum of the squares
	auto a = gen_bt(c, gen_kind(c), c.range(0, 4), gen_val(c));
	c.note([&] { return str(a); });
	bool multi = false;
	for (auto &d : a.s.dims) multi |= d.size() > 1;
	c.nontrivial(multi && maxabs(a.d) > 0);
	auto p = c.permutation(a.s.rank());
	auto r = tensordot(a.t, a.t.conj(), p, p);
	VALID(r);
	PROP(r.dim() == 0);
	double n = 0;
	if (a.d.numel()) n = torch::real(a.d * a.d.conj()).sum().to(torch::kFloat64).item().toDouble();
	auto z = r.item().toComplexDouble();
	PROP(std::abs(z.real() - n) <= 1e-9 * (1 + n) && std::abs(z.imag()) <= 1e-9 * (1 + n), z.real(), " + i ", z.imag(), " vs ", n);
}
FACET(views_as_operands, 2)
{
	// permuted operands, given with the permuted dimension lists, give the same result up to the order of the output dimensions
	auto x = gen_con(c, 3);
	note(c, x);
	auto pa = c.permutation(x.a.s.rank()), pb = c.permutation(x.b.s.rank());
	auto inv = [](const IL &p) {
		IL r(p.size());
		for (size_t i = 0; i < p.size(); ++i) r[p[i]] = i;
		return r;
	};
	auto ia = inv(pa), ib = inv(pb);
	IL da, db;
	for (auto d : x.da) da.push_back(ia[d]);
	for (auto d : x.db) db.push_back(ib[d]);
	auto r = tensordot(x.a.t.permute(pa), x.b.t.permute(pb), da, db);
	auto want = dense_tensordot(x.a.d.permute(pa), x.b.d.permute(pb), da, db);
	VALID(r);
	SAME(dense_of(r), want, exact(x.a.v));
	// swapping the operands exchanges the two groups of output dimensions
	auto s = tensordot(x.b.t, x.a.t, x.db, x.da);
	VALID(s);
	IL p;
	int64_t na = x.a.s.rank() - da.size(), nb = x.b.s.rank() - da.size();
	for (int64_t i = 0; i < nb; ++i) p.push_back(na + i);
	for (int64_t i = 0; i < na; ++i) p.push_back(i);
	SAME(dense_of(s), x.want.permute(p), exact(x.a.v));
	// the order in which the pairs of dimensions are listed does not matter
	auto q = c.permutation(x.da.size());
	IL qa, qb;
	for (auto i : q) qa.push_back(x.da[i]), qb.push_back(x.db[i]);
	RESULT(tensordot(x.a.t, x.b.t, qa, qb), x.out, x.want, exact(x.a.v));
}
FACET(associativity, 1)
{
	// chain of three: (AB)C = A(BC)
	auto kind = gen_kind(c);
	Lim lim;
	lim.maxsize = 2;
	auto d = [&] { return gen_dim(c, kind, lim); };
	Dim x = d(), y = d();
	auto mk = [&](std::vector<Dim> dims) {
		Spec s{kind, dims, {}};
		s.sel = gen_sel(c, s);
		return gen_tensor(c, s, Val::ints);
	};
	auto a = mk({d(), x}), b = mk({conj_dim(kind, x), d(), y}), e = mk({conj_dim(kind, y), d()});
	c.note([&] { return cat(str(a), " ", str(b), " ", str(e)); });
	auto l = tensordot(tensordot(a.t, b.t, {1}, {0}), e.t, {2}, {0});
	auto r = tensordot(a.t, tensordot(b.t, e.t, {2}, {0}), {1}, {0});
	VALID(l);
	VALID(r);
	auto want = dense_tensordot(dense_tensordot(a.d, b.d, {1}, {0}), e.d, {2}, {0});
	c.nontrivial(maxabs(want) > 0 && (x.size() > 1 || y.size() > 1));
	SAME(dense_of(l), want, true);
	SAME(dense_of(r), want, true);
}
FACET(batched_matrix_product, 4)
{
	auto kind = gen_kind(c);
	auto v = gen_val(c);
	size_t nb = c.range(0, 3);
	Spec A, B, O;
	A.kind = B.kind = O.kind = kind;
	Lim lim;
	if (nb > 1) lim.maxsize = 2;
	for (size_t i = 0; i < nb; ++i)
	{
		auto x = gen_dim(c, kind, lim);
		auto y = x;
		if (c.flip())
			for (auto &s : y) s.q = gen_q(c, kind);
		A.dims.push_back(x);
		B.dims.push_back(y);
		for (size_t j = 0; j < x.size(); ++j) x[j].q = qadd(kind, x[j].q, y[j].q);
		O.dims.push_back(x);
	}
	auto m = gen_dim(c, kind, lim), k = gen_dim(c, kind, lim), n = gen_dim(c, kind, lim);
	A.dims.push_back(m);
	A.dims.push_back(k);
	B.dims.push_back(conj_dim(kind, k));
	B.dims.push_back(n);
	O.dims.push_back(m);
	O.dims.push_back(n);
	A.sel = gen_sel(c, A);
	B.sel = gen_sel(c, B);
	O.sel = qadd(kind, A.sel, B.sel);
	auto a = gen_tensor(c, A, v), b = gen_tensor(c, B, v);
	c.note([&] { return cat(str(a), "  with  ", str(b)); });
	auto w = v == Val::i64 ? torch::kFloat64 : dtype(v);
	auto want = torch::matmul(a.d.to(w), b.d.to(w)).to(dtype(v));
	bool multi = k.size() > 1 || m.size() > 1 || n.size() > 1;
	c.nontrivial(multi && maxabs(want) > 0);
	c.label(cat(nb, " batch dims"));
	auto sa = snap(a.t), sb = snap(b.t);
	RESULT(a.t.bmm(b.t), O, want, exact(v));
	UNCHANGED(sa, a.t);
	UNCHANGED(sb, b.t);
}
