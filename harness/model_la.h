// Generators and oracles shared by the checks of block tensor factorizations.
#pragma once
#include "model_bt.h"
#include "LinearAlgebra.h"
#include "blockTensor/LinearAlgebra.h"
namespace gen
{
inline Tensor wide(const Tensor &t) { return t.to(torch::kComplexDouble); }
inline Tensor dag(const Tensor &t) { return t.conj().transpose(-1, -2); }
inline double frob(const Tensor &t)
{
	return t.numel() ? std::sqrt(wide(t).abs().pow(2).sum().item().toDouble()) : 0.;
}
// blocks of varied nature: random, zero, small, of rank one, multiples of the identity; some are absent
inline BT gen_la(Case &c, const Spec &s, Val v)
{
	BT r{s, make_shape(s, dtype(v)), torch::zeros(full_sizes(s), dtype(v)), v};
	auto bl = allowed_blocks(s);
	auto f = gen_filler(c);
	bool sparse = c.flip();
	int style = (int)c.draw(3); // 0: random blocks, 1: varied, 2: only multiples of the identity
	bool rev = c.chance(1, 4);
	if (rev) std::reverse(bl.begin(), bl.end());
	for (auto &b : bl)
	{
		if (sparse && c.chance(1, 3)) continue;
		auto sz = block_sizes(s, b);
		int k = style == 0 ? 0 : style == 1 ? (int)c.draw(6) : 4;
		Tensor x = fill(f, sz, v);
		if (k == 1) x = x * 0;
		if (k == 2) x = x * std::pow(10., -(double)c.draw(5));
		if (k == 3 && x.dim() >= 2)
		{
			auto m = fill(f, {x.size(0), 1}, v).matmul(fill(f, {1, x.numel() / x.size(0)}, v));
			x = m.reshape(sz);
		}
		if (k == 4 && x.dim() >= 2)
		{
			int64_t row = x.size(0), col = x.numel() / row;
			x = (torch::eye(std::max(row, col), dtype(v)).narrow(0, 0, row).narrow(1, 0, col) * std::exp2(-(double)c.draw(4))).reshape(sz).clone();
		}
		sub_block(r.d, block_offsets(s, b), sz).copy_(x);
		if (x.dim() >= 2 && c.chance(1, 8)) x = x.transpose(0, x.dim() - 1).contiguous().transpose(0, x.dim() - 1);
		r.t.block(b) = x;
	}
	return r;
}
inline int64_t prod_of(const IL &s, size_t b, size_t e)
{
	int64_t n = 1;
	for (auto i = b; i < e; ++i) n *= s[i];
	return n;
}
inline Tensor as_matrix(const Tensor &t, size_t split)
{
	IL s(t.sizes().begin(), t.sizes().end());
	return wide(t).reshape({prod_of(s, 0, split), prod_of(s, split, s.size())});
}
// 1 on the elements of a rank one tensor that belong to a stored block
inline Tensor stored_mask(const btensor &d)
{
	auto r = torch::zeros(IL(1, d.sizes()[0]), torch::kComplexDouble);
	auto [b, e] = d.section_sizes(0);
	IL off;
	int64_t o = 0;
	for (auto it = b; it != e; ++it)
	{
		off.push_back(o);
		o += *it;
	}
	for (auto &x : d) r.narrow(0, off[x.first[0]], x.second.size(0)).fill_(1.);
	return r;
}
inline std::vector<double> sorted_desc(const Tensor &t)
{
	auto x = t.to(torch::kFloat64).contiguous().flatten();
	std::vector<double> r(x.data_ptr<double>(), x.data_ptr<double>() + x.numel());
	std::sort(r.begin(), r.end(), [](double a, double b) { return std::abs(a) > std::abs(b); });
	return r;
}
// the values stored in the blocks of d, by decreasing magnitude
inline std::vector<double> stored_values(const btensor &d)
{
	std::vector<double> r;
	for (auto &b : d)
	{
		auto v = sorted_desc(b.second);
		r.insert(r.end(), v.begin(), v.end());
	}
	std::sort(r.begin(), r.end(), [](double a, double b) { return std::abs(a) > std::abs(b); });
	return r;
}
inline std::vector<double> dense_singular_values(const Tensor &M)
{
	if (M.numel() == 0) return {};
	return sorted_desc(std::get<1>(torch::linalg::svd(M, false)));
}
inline std::vector<double> dense_eigenvalues(const Tensor &M)
{
	if (M.numel() == 0) return {};
	return sorted_desc(std::get<0>(torch::linalg::eigh(M, "L")));
}
inline std::string vstr(const std::vector<double> &v)
{
	std::string s;
	for (auto x : v) s += pbt::cat(x, " ");
	return s;
}
// the factors are isometries onto the stored part of the bond
inline std::string isometry_diff(const btensor &u, const btensor &d, double tol)
{
	auto U = wide(dense_of(u));
	auto n = U.size(-1);
	if (n == 0) return "";
	U = U.reshape({-1, n});
	auto G = dag(U).matmul(U), I = torch::diag(stored_mask(d));
	if (same(G, I, false, tol)) return "";
	return "not an isometry: " + tstr(G);
}
#define ISOMETRY(u, d, tol)                                                   \
	do                                                                        \
	{                                                                         \
		auto is_ = gen::isometry_diff(u, d, tol);                             \
		if (is_ != "") c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", #u, " is ", is_)); \
	} while (0)
// number of values kept, following the documented rule: s by decreasing magnitude
inline size_t count_kept(const std::vector<double> &s, double bound, double pow, size_t min, size_t max)
{
	size_t n = s.size();
	double acc = 0;
	while (n > 0)
	{
		acc += std::pow(std::abs(s[n - 1]), pow);
		bool within = !(acc > bound);
		if (n <= min) break;
		if (!within && n <= max) break;
		--n;
	}
	return n;
}
// how many may be kept, when each value is known to within noise, and the values that are as large as the last one kept stay with it
// equal values are kept together; zeros are no multiplet: when some are kept, no more than `strict` values are
struct Counts
{
	size_t lo, hi, strict;
};
inline Counts allowed_counts(const std::vector<double> &s, double tol, double pow, size_t min, size_t max, double rel, double noise)
{
	double b = std::pow(tol, pow);
	auto up = s, dn = s;
	for (auto &x : up) x = std::abs(x) + noise;
	for (auto &x : dn) x = std::max(0., std::abs(x) - noise);
	auto lo = count_kept(dn, b * (1 + rel), pow, min, max), hi = count_kept(up, b * (1 - rel), pow, min, max), strict = hi;
	while (hi > 0 && hi < s.size() && std::abs(s[hi]) >= std::abs(s[hi - 1]) * (1 - 1e-9) - 2 * noise) ++hi;
	return {lo, hi, strict};
}
inline double gen_tol(Case &c, const std::vector<double> &s, double pow)
{
	switch (c.draw(4))
	{
	case 0: return 0;
	case 1: return std::pow(10., -(double)c.draw(9));
	case 2: return c.draw(2000) * 1e-3;
	default: // next to a partial sum
	{
		double acc = 0;
		auto k = c.draw(s.size() + 1);
		for (size_t i = 0; i < k; ++i) acc += std::pow(std::abs(s[s.size() - 1 - i]), pow);
		return std::pow(acc * (c.flip() ? 1.001 : 0.999), 1 / pow);
	}
	}
}
// a Hermitian block tensor: its second half of dimensions mirrors the first
inline BT gen_hermitian(Case &c, int kind, size_t half, Val v, Lim l = {})
{
	Spec s;
	s.kind = kind;
	for (size_t i = 0; i < half; ++i) s.dims.push_back(gen_dim(c, kind, l));
	for (size_t i = 0; i < half; ++i) s.dims.push_back(conj_dim(kind, s.dims[i]));
	s.sel = qzero(kind);
	auto a = gen_la(c, s, v);
	auto sz = full_sizes(s);
	auto M = as_matrix(a.d, half);
	auto H = M + dag(M);
	BT r{s, make_shape(s, dtype(v)), (is_cplx(v) ? H : torch::real(H)).to(dtype(v)).reshape(sz).clone(), v};
	for (auto &b : allowed_blocks(s))
	{
		auto x = sub_block(r.d, block_offsets(s, b), block_sizes(s, b)).clone();
		if (maxabs(x) == 0 && c.flip()) continue; // zeros are stored or not
		r.t.block(b) = x;
	}
	return r;
}
} // namespace gen
