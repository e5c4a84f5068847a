// C20: random states.
#include "model_net.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random states of 1-7 sites over 7 group types: uniform, varying and very uneven physical spaces (1-3 sections, repeated charges, extreme charges), target charges that are sums of site charges, "
    "extreme sums, random or unreachable, bond dimensions 1-8, drawn seeds; non-trivial when the charge is reachable by some but not all configurations and there are two sites, or when it is not reachable";
unsigned pbt::quick_cases = 300000, pbt::thorough_cases = 6000000;
std::vector<std::string> pbt::assumptions = {"the reachable charges are enumerated exactly by the harness"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;

static torch::TensorOptions gen_opt(Case &c, torch::ScalarType &ty)
{
	ty = c.pick(std::vector<torch::ScalarType>{torch::kFloat64, torch::kFloat64, torch::kFloat32, torch::kComplexDouble, torch::kComplexFloat});
	return torch::TensorOptions().dtype(ty);
}
FACET(dense, 1)
{
	torch::manual_seed(c.draw(1000));
	auto L = (size_t)c.range(0, 6), D = (size_t)c.range(0, 6);
	torch::ScalarType ty;
	auto opt = gen_opt(c, ty);
	IL phys;
	bool uniform = c.flip();
	for (size_t i = 0; i < L; ++i) phys.push_back(i && uniform ? phys[0] : c.range(1, 4));
	auto how = c.draw(3);
	if (how == 0 && L) phys.assign(L, phys[0]);
	c.note([&] { return cat("length ", L, " bond ", D, " how ", how); });
	auto make = [&]() -> MPS {
		if (how == 0) return random_MPS(L, D, L ? phys[0] : 2, opt);
		if (how == 1) return random_MPS(D, phys, opt);
		std::vector<Tensor> t;
		for (auto p : phys) t.push_back(torch::zeros({c.range(1, 2), c.range(1, 5), 1, p}));
		for (size_t i = 1; i < L; ++i) t[i] = torch::zeros({t[i - 1].size(2), t[i].size(1), 1, phys[i]});
		const auto ct = t;
		return random_MPS(D, MPO(ct), opt);
	};
	if (L == 0 || D == 0)
	{
		bool thrown = false;
		try
		{
			make();
		}
		catch (const std::invalid_argument &)
		{
			thrown = true;
		}
		PROP(thrown, "a state without sites or bond was produced");
		return;
	}
	auto s = make();
	PROP(s.size() == L, "length ", s.size());
	PROP(s.orthogonality_center < L, "center ", s.orthogonality_center);
	PROP(s.check_ranks());
	for (size_t i = 0; i < L; ++i)
	{
		PROP(s[i].sizes() == (IL{i ? (int64_t)D : 1, phys[i], i + 1 < L ? (int64_t)D : 1}), "site ", i, " is ", s[i].sizes());
		PROP(s[i].scalar_type() == ty);
		auto r = torch::view_as_real(s[i].to(torch::kComplexDouble));
		PROP(r.min().item<double>() >= 0 && r.max().item<double>() < 1 && maxabs(s[i]) > 0, "elements out of range");
	}
	c.nontrivial(L > 1 && D > 1);
}
// charges that the sites can add up to, with how often
static std::map<Q, double> sums(int kind, const std::vector<Dim> &phys)
{
	std::map<Q, double> r{{qzero(kind), 1}};
	for (auto &d : phys)
	{
		std::map<Q, double> n;
		for (auto &x : r)
			for (auto &s : d) n[qadd(kind, x.first, s.q)] += x.second;
		r.swap(n);
	}
	return r;
}
static void random_block(Case &c, size_t maxL, size_t maxD, bool uneven)
{
	torch::manual_seed(c.draw(1000));
	auto kind = gen_kind(c);
	auto L = (size_t)c.range(1, maxL), D = (size_t)c.range(1, maxD);
	torch::ScalarType ty;
	auto opt = gen_opt(c, ty);
	auto how = c.draw(6);
	std::vector<Dim> phys;
	bool uniform = how < 2 || c.chance(1, 3);
	for (size_t i = 0; i < L; ++i)
	{
		if (i && uniform) phys.push_back(phys[0]);
		else if (i && c.chance(1, 3)) phys.push_back(phys[c.draw(i)]);
		else if (uneven)
		{
			Dim d;
			auto n = c.range(1, 4);
			for (int64_t k = 0; k < n; ++k) d.push_back(Sec{c.range(1, 2), gen_q(c, kind, 9)});
			phys.push_back(d);
		}
		else phys.push_back(gen_dim(c, kind, {4, 2, 3}));
	}
	auto all = sums(kind, phys);
	Q target;
	switch (c.weighted({4, 2, 2, 1}))
	{
	case 0: // what some configuration has
	{
		target = qzero(kind);
		for (auto &d : phys) target = qadd(kind, target, d[c.draw(d.size())].q);
		break;
	}
	case 1: target = (c.flip() ? all.begin() : std::prev(all.end()))->first; break;
	case 2: target = std::next(all.begin(), c.draw(all.size()))->first; break;
	default: target = gen_q(c, kind, 12);
	}
	bool possible = all.count(qnorm(kind, target));
	auto seed = (unsigned)c.draw(1u << 16);
	std::vector<btensor> spec;
	bool odd = c.chance(1, 8); // the description of the physical space carries a charge and blocks
	for (auto &d : phys)
	{
		Spec s;
		s.kind = kind;
		s.dims = {d};
		s.sel = odd ? d[c.draw(d.size())].q : qzero(kind);
		spec.push_back(odd ? gen_tensor(c, s, Val::real).t : make_shape(s));
	}
	auto q = to_any(kind, target);
	c.note([&] {
		std::string p;
		for (auto &d : phys)
		{
			p += "{";
			for (auto &x : d) p += cat(x.size, ":", qstr(x.q), " ");
			p += "}";
		}
		return cat(kinds()[kind].name, " how ", how, " phys ", p, " target ", qstr(target), " bond ", D, " seed ", seed, odd ? " odd" : "", possible ? "" : " unreachable");
	});
	bMPO H;
	if (how >= 4)
	{
		std::vector<btensor> t;
		auto bo = gen_dim(c, kind, {2, 2, 2});
		for (size_t i = 0; i < L; ++i)
		{
			Spec s;
			s.kind = kind;
			// an operator from this space to any other
			Dim out = c.flip() ? phys[i] : gen_dim(c, kind, {2, 2, 2});
			s.dims = {bo, out, conj_dim(kind, bo), conj_dim(kind, phys[i])};
			s.sel = c.chance(1, 4) ? gen_q(c, kind) : qzero(kind);
			t.push_back(gen_tensor(c, s, Val::real).t);
		}
		const auto ct = t;
		H = bMPO(ct);
	}
	auto make = [&]() -> bMPS {
		switch (how)
		{
		case 0: return random_bMPS(L, D, spec[0], q, opt, seed);
		case 1: return random_MPS(L, D, spec[0], q, opt, seed);
		case 2: return random_bMPS(D, spec, q, opt, seed);
		case 3: return random_MPS(D, spec, q, opt, seed);
		case 4: return random_bMPS(D, H, q, opt, seed);
		default: return random_MPS(D, H, q, opt, seed);
		}
	};
	bMPS s;
	bool thrown = false;
	try
	{
		s = make();
	}
	catch (const std::invalid_argument &e)
	{
		thrown = true;
		c.note([&] { return cat("threw ", e.what()); });
	}
	PROP(thrown == !possible, thrown ? "a reachable charge was refused" : "an unreachable charge was accepted");
	if (!possible)
	{
		c.nontrivial();
		return;
	}
	PROP(s.size() == L, "length ", s.size());
	PROP(s.orthogonality_center < L, "center ", s.orthogonality_center);
	PROP(s.check_ranks());
	any_quantity total = q.neutral();
	for (size_t i = 0; i < L; ++i)
	{
		VALID(s[i]);
		PROP(s[i].dim() == 3);
		auto sz = s[i].sizes();
		PROP(sz[0] <= (i ? (int64_t)D : 1) && sz[2] <= (i + 1 < L ? (int64_t)D : 1), "bonds of site ", i, ": ", sz);
		PROP(sz[0] > 0 && sz[2] > 0);
		PROP(s[i].options().dtype() == opt.dtype(), "element type");
		auto d = bond_diff(s[i].conj(), 1, how >= 4 ? H[i] : spec[i].conj(), how >= 4 ? 3 : 0);
		if (how >= 4) d = bond_diff(s[i], 1, H[i], 3);
		else d = bond_diff(s[i].conj(), 1, spec[i], 0);
		PROP(d == "", "physical index of site ", i, ": ", d);
		if (i)
		{
			d = bond_diff(s[i - 1], 2, s[i], 0);
			PROP(d == "", "around site ", i, ": ", d);
		}
		total *= sel_of(s[i]);
	}
	// the charge of the state is its selection rules less the charges of its ends
	total *= any_quantity(s[0].section_conserved_qtt(0, 0)).inverse();
	total *= any_quantity(s[L - 1].section_conserved_qtt(2, 0)).inverse();
	PROP(total == q, fmt::format("total charge {} instead of {}", total, q));
	if (s[0].options().dtype() == torch::kFloat64) // (the amplitudes of a real state can only add up)
	{
		auto psi = state_of(s);
		PROP(maxabs(psi) > 0, "the state is zero");
	}
	// the drawn seed decides the structure
	auto s2 = make();
	for (size_t i = 0; i < L; ++i)
	{
		PROP(s2[i].section_numbers() == s[i].section_numbers() && std::get<0>(s2[i].section_sizes_cqtts(2)) != std::get<1>(s2[i].section_sizes_cqtts(2)));
		auto d = bond_diff(s2[i].conj(), 2, s[i], 2);
		PROP(d == "", "the same seed gave another bond ", i, ": ", d);
	}
	c.nontrivial(L > 1 && all.size() > 1);
}
FACET(block, 3) { random_block(c, 5, 5, false); }
FACET(block_uneven, 2) { random_block(c, 5, 4, true); }
FACET(block_long, 1) { random_block(c, 7, 8, c.flip()); }
FACET(block_nothing, 1)
{
	auto kind = gen_kind(c);
	Spec s;
	s.kind = kind;
	s.dims = {gen_dim(c, kind, {2, 2, 2})};
	s.sel = qzero(kind);
	auto t = make_shape(s);
	size_t L = c.flip() ? 0 : c.range(1, 3), D = L ? 0 : c.range(0, 3);
	auto how = c.draw(3);
	c.note([&] { return cat("length ", L, " bond ", D, " how ", how); });
	auto q = to_any(kind, qzero(kind));
	bool thrown = false;
	try
	{
		if (how == 0) random_bMPS(L, D, t, q, {}, 1);
		else if (how == 1) random_bMPS(D, std::vector<btensor>(L, t), q, {}, 1);
		else
		{
			s.dims = {Dim{Sec{1, qzero(kind)}}, s.dims[0], Dim{Sec{1, qzero(kind)}}, conj_dim(kind, s.dims[0])};
			const std::vector<btensor> v(L, make_shape(s));
			random_bMPS(D, bMPO(v), q, {}, 1);
		}
	}
	catch (const std::invalid_argument &)
	{
		thrown = true;
	}
	PROP(thrown, "a state without sites or bond was produced");
	c.nontrivial();
}
