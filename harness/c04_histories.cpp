// C04: every tensor reached by any history of operations is valid, and the library's check says exactly that.
#include "model_bt.h"
#include "blockTensor/LinearAlgebra.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "random histories of 1-14 operations on a pool of block tensors over 7 group types, and random structures, valid or broken in one respect; non-trivial when the history "
    "contains at least three operations on tensors with a stored block, or when the structure has a stored block";
unsigned pbt::quick_cases = 600000, pbt::thorough_cases = 3000000;
std::vector<std::string> pbt::assumptions = {};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
static size_t stored(const btensor &t) { return t.end() - t.begin(); }

static BT rescale(Case &c, BT r)
{
	// keep magnitudes near one, by powers of two so that nothing is rounded
	double m = maxabs(r.d);
	if (m > 64 || (m > 0 && m < 1. / 64))
	{
		double f = std::exp2(-std::round(std::log2(m)));
		r.t = r.t.mul(f);
		r.d = r.d * f;
	}
	return r;
}
struct World
{
	Case &c;
	int kind;
	Val v;
	std::vector<BT> pool;
	std::vector<Snap> snaps;
	std::string log;
	int real_steps = 0;
	Lim l{2, 2, 2};

	BT fresh(const Spec &s) { return gen_tensor(c, s, v); }
	BT &any() { return pool[c.draw(pool.size())]; }
	void put(BT r, const std::string &what)
	{
		log += what + "; ";
		VALID(r.t, what, " at the end of: ", log);
		HAS_SPEC(r.t, r.s, what, " at the end of: ", log);
		auto d = dense_of(r.t);
		if (!same(d, r.d, false, 1e-8)) c.fail(cat(what, " gave ", tstr(d), " instead of ", tstr(r.d), " at the end of: ", log));
		if (stored(r.t)) ++real_steps;
		r = rescale(c, r);
		if (pool.size() >= 4)
		{
			auto k = c.draw(pool.size());
			pool[k] = r;
			snaps[k] = snap(r.t);
		}
		else
		{
			pool.push_back(r);
			snaps.push_back(snap(r.t));
		}
	}
	bool fits(const Spec &s) { return s.rank() <= 6 && numel(s) <= 1500; }
	bool step()
	{
		BT a = any(); // shares the blocks of the pool member, which must not change
		int64_t r = a.s.rank();
		switch (c.draw(26))
		{
		case 0: // sum with something of the same structure
		{
			auto b = fresh(a.s);
			bool sub = c.flip();
			put({a.s, sub ? a.t - b.t : a.t + b.t, sub ? a.d - b.d : a.d + b.d, v}, "sum");
			return true;
		}
		case 1:
		{
			auto b = fresh(a.s);
			a.t = m_deep(a.t);
			a.t.add_(c.flip() ? b.t : btensor(b.t), 2);
			put({a.s, a.t, a.d + 2 * b.d, v}, "sum in place");
			return true;
		}
		case 2:
			put({a.s, a.t.mul(0.5).mul(-3), a.d * -1.5, v}, "product with a scalar");
			return true;
		case 3: // broadcast product
		{
			Spec s;
			s.kind = kind;
			size_t k = c.range(0, r);
			Spec o = a.s;
			for (size_t i = r - k; i < (size_t)r; ++i)
			{
				Dim d = a.s.dims[i];
				if (c.chance(1, 3)) d = {Sec{1, gen_q(c, kind)}};
				else if (m_single(d) && c.flip()) d = gen_dim(c, kind, l);
				else if (c.flip())
					for (auto &x : d) x.q = gen_q(c, kind);
				o.dims[i] = m_prod_dim(kind, d, a.s.dims[i]);
				s.dims.push_back(d);
			}
			s.sel = gen_sel(c, s);
			o.sel = qadd(kind, o.sel, s.sel);
			if (!fits(o)) return false;
			auto b = fresh(s);
			if (c.flip()) put({o, a.t.mul(b.t), a.d * b.d, v}, "product");
			else put({o, b.t.mul(a.t), b.d * a.d, v}, "product");
			return true;
		}
		case 4: // in place product
		{
			Spec s = a.s;
			for (auto &d : s.dims)
			{
				if (c.chance(1, 3)) d = {Sec{1, gen_q(c, kind)}};
				else
					for (auto &x : d) x.q = gen_q(c, kind);
			}
			s.sel = gen_sel(c, s);
			Spec o = a.s;
			for (size_t i = 0; i < o.rank(); ++i) o.dims[i] = m_prod_dim(kind, a.s.dims[i], s.dims[i]);
			o.sel = qadd(kind, a.s.sel, s.sel);
			auto b = fresh(s);
			a.t = m_deep(a.t);
			a.t.mul_(b.t);
			put({o, a.t, a.d * b.d, v}, "product in place");
			return true;
		}
		case 5:
		case 6:
		{
			auto p = c.permutation(r);
			BT o{m_permuted(a.s, p), c.flip() ? a.t.permute(p) : btensor(a.t).permute_(p), a.d.permute(p), v};
			put(o, "permute");
			return true;
		}
		case 7:
		{
			if (r < 2) return false;
			int64_t i = c.draw(r), j = c.draw(r);
			IL p(r);
			for (int64_t k = 0; k < r; ++k) p[k] = k;
			std::swap(p[i], p[j]);
			put({m_permuted(a.s, p), a.t.transpose(i, j - (c.flip() ? r : 0)), a.d.permute(p), v}, "transpose");
			return true;
		}
		case 8:
		case 9: // group dimensions; sometimes split them again
		{
			IL g, full{0};
			for (int64_t i = 1; i < r; ++i)
				if (c.flip()) g.push_back(i);
			full.insert(full.end(), g.begin(), g.end());
			full.push_back(r);
			auto s = m_grouped(a.s, full);
			size_t blocks = 1;
			for (auto &d : s.dims) blocks *= d.size();
			if (blocks > 400) return false;
			auto t = a.t.reshape(g);
			auto d = m_grouped_dense(a.d, a.s, full, s);
			if (c.flip()) put({s, t, d, v}, "reshape");
			else
			{
				VALID(t, log);
				HAS_SPEC(t, s, log);
				// something happens to the grouped tensor, then it is split again
				auto q = gen_q(c, kind);
				auto u = t.mul(2).conj_only();
				put({a.s, u.reshape_as(make_shape(a.s, dtype(v))), (a.d * 2).conj(), v}, "reshape, scale and conjugate, reshape_as");
			}
			return true;
		}
		case 10:
		{
			IL p;
			int64_t dim = r ? c.draw(r) : 0;
			bool all = c.flip() || r == 0;
			Spec s = a.s;
			s.dims.clear();
			IL sel;
			for (int64_t i = 0; i < r; ++i)
			{
				bool sq = m_single(a.s.dims[i]) && (all || i == dim);
				sel.push_back(sq ? 0 : -1);
			}
			put({m_selected(a.s, sel), all ? a.t.squeeze() : a.t.squeeze(dim), m_selected(a.d, sel), v}, "squeeze");
			return true;
		}
		case 11:
		case 12: // view
		{
			IL sel;
			for (auto &d : a.s.dims) sel.push_back(c.chance(1, 3) ? (int64_t)c.draw(dim_size(d)) : -1);
			put({m_selected(a.s, sel), a.t.basic_create_view(sel), m_selected(a.d, sel), v}, "view");
			return true;
		}
		case 13: // assignment of a part
		{
			IL sel;
			for (auto &d : a.s.dims) sel.push_back(c.flip() ? (int64_t)c.draw(dim_size(d)) : -1);
			auto b = fresh(m_selected(a.s, sel));
			auto d = a.d.clone();
			m_selected(d, sel).copy_(b.d);
			a.t = m_deep(a.t);
			a.t.basic_index_put_(sel, b.t);
			put({a.s, a.t, d, v}, "assignment of a part");
			return true;
		}
		case 14:
		case 15:
		case 16: // contraction with a new tensor, or with a member of the pool that fits
		{
			IL da, db;
			BT b = a;
			auto w = c.draw(3);
			if (w == 0)
			{ // with its own conjugate
				b = BT{m_negated(a.s), a.t.conj(), a.d.conj(), v};
				for (int64_t i = 0; i < r; ++i)
					if (c.flip()) da.push_back(i), db.push_back(i);
			}
			else if (w == 1)
			{
				b = any();
				std::vector<bool> used(b.s.rank());
				for (int64_t i = 0; i < r; ++i)
					for (size_t j = 0; j < b.s.rank(); ++j)
						if (!used[j] && b.s.dims[j] == conj_dim(kind, a.s.dims[i]))
						{
							da.push_back(i);
							db.push_back(j);
							used[j] = true;
							break;
						}
			}
			else
			{
				Spec s;
				s.kind = kind;
				auto n = c.range(1, 3);
				for (int64_t j = 0; j < n; ++j)
				{
					int64_t i = r ? c.draw(r) : 0;
					if (r && c.chance(2, 3) && std::find(da.begin(), da.end(), i) == da.end())
					{
						da.push_back(i);
						db.push_back(j);
						s.dims.push_back(conj_dim(kind, a.s.dims[i]));
					}
					else
						s.dims.push_back(gen_dim(c, kind, l));
				}
				s.sel = gen_sel(c, s);
				b = fresh(s);
			}
			auto o = m_contracted(a.s, b.s, da, db);
			if (!fits(o)) return false;
			put({o, a.t.tensordot(b.t, da, db), torch::tensordot(a.d, b.d, da, db), v}, "contraction");
			return true;
		}
		case 17:
		{
			auto w = c.draw(3);
			if (w == 0) put({m_negated(a.s), a.t.conj(), a.d.conj(), v}, "conj");
			if (w == 1) put({a.s, a.t.conj_only(), a.d.conj(), v}, "conj_only");
			if (w == 2) put({m_negated(a.s), a.t.inverse_cvals(), a.d, v}, "inverse_cvals");
			return true;
		}
		case 18:
		{
			if (r == 0) return false;
			auto q = gen_q(c, kind);
			int64_t dim = c.draw(r);
			auto s = a.s;
			for (auto &x : s.dims[dim]) x.q = qadd(kind, x.q, q);
			s.sel = qadd(kind, s.sel, q);
			put({s, a.t.cval_shift(to_any(kind, q), dim), a.d, v}, "cval_shift");
			return true;
		}
		case 19: // write one block
		{
			auto bl = allowed_blocks(a.s);
			if (bl.empty()) return false;
			auto &b = c.pick(bl);
			auto f = gen_filler(c);
			auto x = fill(f, block_sizes(a.s, b), v);
			auto d = a.d.clone();
			sub_block(d, block_offsets(a.s, b), block_sizes(a.s, b)).copy_(x);
			a.t = m_deep(a.t);
			a.t.block(b) = x;
			put({a.s, a.t, d, v}, "block written");
			return true;
		}
		case 20: // to dense and back
		{
			auto t = from_basic_tensor_like(a.t, a.t.to_dense());
			put({a.s, t, a.d, v}, "to_dense and from_basic_tensor_like");
			return true;
		}
		case 21: // decomposition and recombination
		{
			if (r < 2 || a.v == Val::f32) return false;
			auto g = a.s;
			int64_t split = c.range(1, r - 1);
			auto [u, d, w] = quantit::svd(a.t, (size_t)split);
			VALID(u, log);
			VALID(d, log);
			VALID(w, log);
			auto t = u.mul(d).tensordot(w.conj(), {(int64_t)u.dim() - 1}, {(int64_t)w.dim() - 1});
			put({a.s, t, a.d, v}, "svd and recombination");
			return true;
		}
		case 22:
		{
			if (v == Val::cplx) return false; // the result is real, and torch refuses to combine it with complex tensors
			put({a.s, a.t.abs(), a.d.abs(), v}, "abs");
			return true;
		}
		case 23:
		{
			// shapes of parts of two tensors put together
			auto &b = any();
			Spec s;
			s.kind = kind;
			s.dims = a.s.dims;
			s.dims.insert(s.dims.end(), b.s.dims.begin(), b.s.dims.end());
			s.sel = qadd(kind, a.s.sel, b.s.sel);
			if (!fits(s) || allowed_blocks(s).size() > 200) return false;
			auto sh = shape_from(a.t, b.t);
			put({s, c.flip() ? zeros_like(sh) : sh, torch::zeros(full_sizes(s), dtype(v)), v}, "shape_from");
			return true;
		}
		case 24:
		{
			auto s = a.t.sum();
			put({Spec{kind, {}, qzero(kind)}, s, a.d.sum(), v}, "sum of the elements");
			return true;
		}
		default:
		{
			auto e = ones_like(a.t);
			auto s = a.s; // the charges of the two factors add up
			for (auto &x : s.dims)
				for (auto &y : x) y.q = qadd(kind, y.q, y.q);
			s.sel = qadd(kind, s.sel, s.sel);
			put({s, e.mul(a.t), mask(a.s).to(a.d.scalar_type()) * a.d, v}, "ones_like times the tensor");
			return true;
		}
		}
	}
};
FACET(histories, 4)
{
	World w{c, gen_kind(c), c.flip() ? Val::real : c.flip() ? Val::ints : Val::cplx, {}, {}, {}};
	auto n0 = c.range(1, 2);
	for (int64_t i = 0; i < n0; ++i)
	{
		auto s = gen_spec(c, w.kind, c.range(0, 4), Lim{3, 2, 2});
		w.pool.push_back(w.fresh(s));
		w.snaps.push_back(snap(w.pool.back().t));
	}
	std::string start;
	for (auto &x : w.pool) start += str(x.s) + " ";
	c.note([&] { return start + ": " + w.log; });
	auto steps = c.range(1, 14);
	for (int64_t i = 0; i < steps; ++i)
	{
		auto before = w.pool.size();
		(void)before;
		w.step();
		for (size_t k = 0; k < w.pool.size(); ++k) UNCHANGED(w.snaps[k], w.pool[k].t, "a tensor that the operation should leave alone, at the end of: ", w.log);
	}
	c.nontrivial(w.real_steps >= 3);
}
// ---------------------------------------------------------------- construction from parts
struct Raw
{
	IL secs, sizes;
	std::vector<any_quantity> q;
	any_quantity sel;
	std::vector<std::pair<IL, Tensor>> blocks;
	size_t rank;
};
static Raw parts(const BT &a)
{
	Raw r;
	r.rank = a.s.rank();
	for (auto &d : a.s.dims)
	{
		r.secs.push_back(d.size());
		for (auto &x : d)
		{
			r.sizes.push_back(x.size);
			r.q.push_back(to_any(a.s.kind, x.q));
		}
	}
	r.sel = to_any(a.s.kind, a.s.sel);
	for (auto &b : a.t) r.blocks.push_back({b.first, b.second});
	return r;
}
static btensor build(const Raw &r, int kind, torch::TensorOptions o)
{
	any_quantity_vector q(r.q.size(), to_any(kind, qzero(kind)));
	for (size_t i = 0; i < r.q.size(); ++i) q[i] = r.q[i];
	btensor::block_list_t::content_t l(r.blocks.begin(), r.blocks.end());
	return btensor(r.rank, btensor::block_list_t(std::move(l)), r.secs, r.sizes, q, r.sel, o);
}
FACET(construction, 3)
{
	auto a = gen_bt(c, gen_kind(c), c.range(0, 4), gen_val(c), Lim{2, 3, 2});
	auto raw = parts(a);
	auto o = torch::TensorOptions().dtype(dtype(a.v));
	auto how = c.draw(9);
	c.note([&] { return str(a) + " broken in way " + std::to_string(how); });
	c.nontrivial(stored(a.t) > 0);
	if (how == 0)
	{
		auto t = build(raw, a.s.kind, o);
		VALID(t);
		HAS_SPEC(t, a.s);
		SAME(dense_of(t), a.d, true);
		PROP(btensor::check_tensor(t) == "");
		btensor::throw_bad_tensor(t);
		return;
	}
	if (how == 1)
	{ // without blocks
		any_quantity_vector q(raw.q.size(), to_any(a.s.kind, qzero(a.s.kind)));
		for (size_t i = 0; i < raw.q.size(); ++i) q[i] = raw.q[i];
		btensor t(raw.secs, q, raw.sizes, raw.sel, o);
		VALID(t);
		HAS_SPEC(t, a.s);
		PROP(stored(t) == 0);
		return;
	}
	if (how <= 5 && raw.blocks.empty()) c.discard();
	size_t k = raw.blocks.empty() ? 0 : c.draw(raw.blocks.size());
	if (how == 2) // misplaced: at a forbidden position of the right size
	{
		std::vector<IL> bad;
		for_blocks(a.s, [&](const IL &i) {
			if (!allowed(a.s, i)) bad.push_back(i);
		});
		auto b = c.pick(bad);
		raw.blocks.push_back({b, torch::ones(block_sizes(a.s, b), o)});
	}
	if (how == 3) // missized in one dimension
	{
		if (raw.rank == 0) c.discard();
		auto b = raw.blocks[k];
		auto sz = block_sizes(a.s, b.first);
		auto i = c.draw(sz.size());
		sz[i] += c.flip() || sz[i] < 2 ? 1 : -1;
		raw.blocks[k].second = torch::ones(sz, o);
	}
	if (how == 4) // wrong rank, index or block
	{
		if (c.flip()) raw.blocks[k].second = raw.blocks[k].second.unsqueeze(c.draw(raw.rank + 1));
		else if (c.flip() || raw.rank == 0)
			raw.blocks[k].first.push_back(0);
		else
			raw.blocks[k].first.pop_back();
	}
	if (how == 5) // outside
	{
		if (raw.rank == 0) c.discard();
		auto i = c.draw(raw.rank);
		raw.blocks[k].first[i] = c.flip() ? raw.secs[i] + c.range(0, 2) : -1 - c.range(0, 2);
	}
	if (how == 6) // structure lists that don't fit together
	{
		if (raw.rank == 0) c.discard();
		auto w = c.draw(4);
		if (w == 0) raw.sizes.push_back(1);
		if (w == 1) raw.sizes.pop_back();
		if (w == 2) raw.q.push_back(raw.q.back());
		if (w == 3) raw.q.pop_back();
	}
	if (how == 7)
	{
		if (raw.rank == 0 || raw.blocks.empty()) c.discard();
		raw.rank += c.flip() ? 1 : -1;
	}
	if (how == 8) // a rule that forbids the stored blocks
	{
		if (raw.blocks.empty()) c.discard();
		auto q = a.s.sel;
		q[0] += 1;
		raw.sel = to_any(a.s.kind, q);
	}
	MUST_THROW(build(raw, a.s.kind, o), "construction from inconsistent parts");
}
// the library's validity check on tensors whose blocks were replaced through a block reference
FACET(tampering, 2)
{
	auto a = gen_bt(c, gen_kind(c), c.range(1, 4), gen_val(c), Lim{2, 3, 2}, 2);
	if (!stored(a.t)) c.discard();
	c.note([&] { return str(a); });
	c.nontrivial(true);
	PROP(btensor::check_tensor(a.t) == "");
	auto k = c.draw(stored(a.t));
	auto it = a.t.begin() + k;
	auto idx = it->first;
	auto sz = block_sizes(a.s, idx);
	auto i = c.draw(sz.size());
	if (c.flip()) sz[i] += c.range(1, 2);
	else if (c.flip() && sz[i] > 1) sz[i] -= 1;
	else if (c.flip()) sz.erase(sz.begin() + i);
	else sz.insert(sz.begin() + i, 1);
	if (c.flip()) it->second = torch::ones(sz);
	else a.t.block(idx) = torch::ones(sz);
	PROP(btensor::check_tensor(a.t) != "", "a block of the wrong size is accepted");
	MUST_THROW(btensor::throw_bad_tensor(a.t));
	it->second = torch::ones(block_sizes(a.s, idx));
	PROP(btensor::check_tensor(a.t) == "");
	btensor::throw_bad_tensor(a.t);
}
