// C17: moving the orthogonality center.
#include "model_net.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random states of 1-6 sites (dense: physical and bond sizes 1-4, edges up to 3; symmetric: 7 group types, repeated charges, charges carried by any site, absent, zero, small and "
    "low-rank blocks), real, complex and single precision, initial centers anywhere, histories of up to 8 moves of which some are outside the state; non-trivial when the center crosses two bonds and the state is not zero";
unsigned pbt::quick_cases = 60000, pbt::thorough_cases = 1500000;
std::vector<std::string> pbt::assumptions = {"libtorch matrix products are correct",
                                             "a freshly built state is not assumed to be canonical: only the tensors the center moved across are"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
static Val gen_v(Case &c) { return (Val)c.weighted({3, 3, 3, 1, 1}); }

template <class N>
static void history(Case &c, N &s, Val v, bool block)
{
	double tol = v == Val::f32 ? 2e-4 : 1e-10;
	auto L = (int64_t)s.size();
	auto before = state_of(s);
	double scale = 1; // for absolute errors
	for (auto &t : tensors_of(s)) scale *= std::max(1e-300, frob(t));
	std::vector<int> on(L, 0); // -1 left-orthonormal, 1 right-orthonormal
	int64_t pos = (size_t)s.orthogonality_center;
	std::vector<btensor> outer;
	if constexpr (std::is_same_v<N, bMPS>)
		for (auto &t : s) outer.push_back(m_deep(t));
	auto total = [&] {
		if constexpr (std::is_same_v<N, bMPS>) return total_sel(s);
		else return 0;
	};
	auto charge = total();
	auto moves = c.range(1, 8);
	int64_t crossed = 0;
	for (int64_t m = 0; m < moves; ++m)
	{
		if (c.chance(1, 8))
		{
			int bad = c.flip() ? int(L + c.draw(3)) : c.flip() ? -1 - (int)c.draw(3) : c.flip() ? INT_MAX : INT_MIN;
			c.note([&] { return cat("move to ", bad); });
			auto copy = tensors_of(s);
			bool thrown = false;
			try
			{
				s.move_oc(bad);
			}
			catch (const std::invalid_argument &)
			{
				thrown = true;
			}
			PROP(thrown, "a center outside of the state was accepted: ", bad);
			PROP((size_t)s.orthogonality_center == (size_t)pos, "a refused move changed the center");
			auto after = tensors_of(s);
			for (int64_t i = 0; i < L; ++i) PROP(same(after[i], copy[i], true), "a refused move changed site ", i);
			continue;
		}
		auto to = c.range(0, L - 1);
		c.note([&] { return cat("move to ", to); });
		s.move_oc((int)to);
		PROP((int64_t)s.size() == L);
		PROP((size_t)s.orthogonality_center == (size_t)to, "the center is reported at ", (size_t)s.orthogonality_center, " instead of ", to);
		for (auto i = pos; i < to; ++i) on[i] = -1;
		for (auto i = pos; i > to; --i) on[i] = 1;
		crossed += std::abs(to - pos);
		on[to] = 0;
		pos = to;
		auto d = tensors_of(s);
		for (int64_t i = 0; i < L; ++i)
		{
			PROP(d[i].dim() == 3, "site ", i, " has rank ", d[i].dim());
			PROP(s[i].options().dtype() == torch::scalarTypeToTypeMeta(dtype(v)), "element type of site ", i);
			if (i) PROP(d[i - 1].size(2) == d[i].size(0), "bonds around site ", i, " do not match");
			if (on[i] == 0 || d[i].numel() == 0) continue;
			auto M = on[i] < 0 ? as_matrix(d[i], 2) : dag(as_matrix(d[i], 1));
			auto G = dag(M).matmul(M), I = torch::eye(M.size(1), torch::kComplexDouble);
			PROP(same(G, I, false, tol), "site ", i, on[i] < 0 ? " is not left-orthonormal: " : " is not right-orthonormal: ", tstr(G));
		}
		auto now = expand_state(d);
		PROP(now.sizes() == before.sizes(), "the state changed shape");
		PROP(maxabs(now - before) <= tol * std::max(scale, 1e-30), "the state changed: ", tstr(now), " instead of ", tstr(before));
		if constexpr (std::is_same_v<N, bMPS>)
		{
			for (int64_t i = 0; i < L; ++i)
			{
				VALID(s[i]);
				if (i)
				{
					auto b = bond_diff(s[i - 1], 2, s[i], 0);
					PROP(b == "", "around site ", i, ": ", b);
				}
				auto p = bond_diff(s[i].conj(), 1, outer[i], 1);
				PROP(p == "", "physical index of site ", i, ": ", p);
			}
			auto l = bond_diff(s[0].conj(), 0, outer[0], 0), r = bond_diff(s[L - 1].conj(), 2, outer[L - 1], 2);
			PROP(l == "" && r == "", "the edges changed: ", l, r);
			PROP(total() == charge, "the charge of the state changed");
		}
		// bonds never grow
	}
	c.label(block ? "block" : "dense");
	c.nontrivial(crossed >= 2 && maxabs(before) > 0);
}

FACET(dense, 1)
{
	auto L = (size_t)c.range(1, 6);
	auto v = gen_v(c);
	IL phys;
	for (size_t i = 0; i < L; ++i) phys.push_back(c.range(1, L > 4 ? 2 : 4));
	auto t = gen_dense_state(c, phys, gen_bonds(c, L, 4, 3), v);
	auto oc = c.draw(L);
	c.note([&] {
		std::string s = cat("center ", oc, ": ");
		for (auto &x : t) s += tstr(x) + "; ";
		return s;
	});
	MPS s(t, oc);
	PROP((size_t)s.orthogonality_center == oc);
	history(c, s, v, false);
}
FACET(block, 2)
{
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(1, 6);
	auto v = gen_v(c);
	auto phys = gen_phys(c, kind, L, L > 3 ? Lim{2, 1, 2} : Lim{3, 2, 2});
	c.assume(states(phys) <= 256);
	NetLim l;
	l.edge = 2;
	l.gaps = c.flip();
	auto n = gen_bstate(c, kind, phys, v, l);
	auto oc = c.draw(L);
	c.note([&] { return cat("center ", oc, ": ", str(n)); });
	std::vector<btensor> t;
	for (auto &x : n.t) t.push_back(x.t);
	bMPS s(t, oc);
	PROP((size_t)s.orthogonality_center == oc);
	history(c, s, v, true);
}
