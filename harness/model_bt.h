// Model of the operations on block tensors: their effect on the structure (Spec) and on the dense value.
#pragma once
#include "gen_bt.h"
namespace gen
{
inline Spec m_permuted(const Spec &s, const IL &p)
{
	Spec r = s;
	for (size_t i = 0; i < p.size(); ++i) r.dims[i] = s.dims[p[i]];
	return r;
}
inline Spec m_grouped(const Spec &s, const IL &full)
{
	Spec r;
	r.kind = s.kind;
	r.sel = s.sel;
	for (size_t g = 0; g + 1 < full.size(); ++g)
	{
		Dim d{Sec{1, qzero(s.kind)}};
		for (auto i = full[g]; i < full[g + 1]; ++i)
		{
			Dim n;
			for (auto &x : d)
				for (auto &y : s.dims[i]) n.push_back(Sec{x.size * y.size, qadd(s.kind, x.q, y.q)});
			d = n;
		}
		r.dims.push_back(d);
	}
	return r;
}
inline IL m_group_index(const Spec &s, const IL &full, const IL &idx)
{
	IL r;
	for (size_t g = 0; g + 1 < full.size(); ++g)
	{
		int64_t k = 0;
		for (auto i = full[g]; i < full[g + 1]; ++i) k = k * s.dims[i].size() + idx[i];
		r.push_back(k);
	}
	return r;
}
// every block of the original, allowed or not, goes to its block of the grouped tensor
inline Tensor m_grouped_dense(const Tensor &d, const Spec &s, const IL &full, const Spec &g)
{
	auto r = torch::zeros(full_sizes(g), d.options());
	for_blocks(s, [&](const IL &b) {
		auto gi = m_group_index(s, full, b);
		auto sz = block_sizes(g, gi);
		sub_block(r, block_offsets(g, gi), sz).copy_(sub_block(d, block_offsets(s, b), block_sizes(s, b)).reshape(sz));
	});
	return r;
}
inline Tensor m_ungrouped_dense(const Tensor &d, const Spec &g, const IL &full, const Spec &s)
{
	auto r = torch::zeros(full_sizes(s), d.options());
	for_blocks(s, [&](const IL &b) {
		auto gi = m_group_index(s, full, b);
		sub_block(r, block_offsets(s, b), block_sizes(s, b))
		    .copy_(sub_block(d, block_offsets(g, gi), block_sizes(g, gi)).reshape(block_sizes(s, b)));
	});
	return r;
}
inline int64_t m_section_of(const Dim &d, int64_t e)
{
	int64_t k = 0;
	while (e >= d[k].size) e -= d[k++].size;
	return k;
}
inline Spec m_selected(const Spec &s, const IL &dims)
{
	Spec r;
	r.kind = s.kind;
	r.sel = s.sel;
	for (size_t i = 0; i < dims.size(); ++i)
	{
		if (dims[i] == -1) r.dims.push_back(s.dims[i]);
		else r.sel = qadd(s.kind, r.sel, qneg(s.kind, s.dims[i][m_section_of(s.dims[i], dims[i])].q));
	}
	return r;
}
inline Tensor m_selected(Tensor d, const IL &dims)
{
	for (int64_t i = (int64_t)dims.size() - 1; i >= 0; --i)
		if (dims[i] != -1) d = d.select(i, dims[i]);
	return d;
}
inline bool m_single(const Dim &d) { return d.size() == 1 && d[0].size == 1; }
inline Dim m_prod_dim(int kind, const Dim &x, const Dim &y)
{
	auto &big = m_single(x) ? y : x;
	Dim o = big;
	for (size_t i = 0; i < o.size(); ++i) o[i].q = qadd(kind, x[std::min(i, x.size() - 1)].q, y[std::min(i, y.size() - 1)].q);
	return o;
}
inline Spec m_negated(Spec s)
{
	for (auto &d : s.dims) d = conj_dim(s.kind, d);
	s.sel = qneg(s.kind, s.sel);
	return s;
}
inline Spec m_contracted(const Spec &a, const Spec &b, const IL &da, const IL &db)
{
	Spec o;
	o.kind = a.kind;
	auto has = [](const IL &l, int64_t i) { return std::find(l.begin(), l.end(), i) != l.end(); };
	for (size_t i = 0; i < a.rank(); ++i)
		if (!has(da, i)) o.dims.push_back(a.dims[i]);
	for (size_t i = 0; i < b.rank(); ++i)
		if (!has(db, i)) o.dims.push_back(b.dims[i]);
	o.sel = qadd(a.kind, a.sel, b.sel);
	return o;
}
// an independent copy, sharing no storage
inline btensor m_deep(const btensor &t)
{
	btensor r = t;
	for (auto &b : r) b.second = b.second.clone();
	return r;
}
} // namespace gen
