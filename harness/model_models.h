// The operators of the models, written out.
#pragma once
#include "gen_bt.h"
namespace gen
{
inline Tensor mat(int64_t n, std::vector<double> v) { return torch::tensor(v, torch::kFloat64).reshape({n, n}); }
inline Tensor on_sites(const std::vector<std::pair<int64_t, Tensor>> &ops, int64_t L, int64_t d)
{
	Tensor r = torch::ones({1, 1}, torch::kFloat64);
	for (int64_t i = 0; i < L; ++i)
	{
		Tensor m = torch::eye(d, torch::kFloat64);
		for (auto &o : ops)
			if (o.first == i) m = m.matmul(o.second);
		r = torch::kron(r, m);
	}
	return r;
}
inline Tensor heisenberg(double J, int64_t L)
{
	auto z = mat(2, {.5, 0, 0, -.5}), p = mat(2, {0, 1, 0, 0}), m = mat(2, {0, 0, 1, 0});
	Tensor H = torch::zeros({1 << L, 1 << L}, torch::kFloat64);
	for (int64_t i = 0; i + 1 < L; ++i)
		H = H - J * (on_sites({{i, z}, {i + 1, z}}, L, 2) + .5 * (on_sites({{i, p}, {i + 1, m}}, L, 2) + on_sites({{i, m}, {i + 1, p}}, L, 2)));
	return H;
}
inline Tensor hubbard(double U, double mu, int64_t L)
{
	// empty, up, down, both = c+_up c+_dn or the opposite: |3> such that c_up|3> = |2>, c_dn|3> = -|1>
	auto up = mat(4, {0, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 1, 0, 0, 0, 0}), dn = mat(4, {0, 0, 1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 0, 0, 0, 0}), F = mat(4, {1, 0, 0, 0, 0, -1, 0, 0, 0, 0, -1, 0, 0, 0, 0, 1});
	auto c_ = [&](const Tensor &x, int64_t k) {
		std::vector<std::pair<int64_t, Tensor>> o;
		for (int64_t i = 0; i < k; ++i) o.emplace_back(i, F);
		o.emplace_back(k, x);
		return on_sites(o, L, 4);
	};
	int64_t n = 1 << (2 * L);
	Tensor H = torch::zeros({n, n}, torch::kFloat64);
	for (int64_t i = 0; i < L; ++i)
	{
		auto a = c_(up, i), b = c_(dn, i);
		auto nu = a.t().matmul(a), nd = b.t().matmul(b);
		H = H + U * nu.matmul(nd) - mu * (nu + nd);
		if (i + 1 < L)
			for (auto &x : {up, dn})
			{
				auto p = c_(x, i), q = c_(x, i + 1);
				H = H + p.t().matmul(q) + q.t().matmul(p);
			}
	}
	return H;
}
} // namespace gen
