// Generators, independent model and comparisons for block tensors.
#pragma once
#include "pbt.h"
#include "blockTensor/btensor.h"
#include <torch/torch.h>

namespace gen
{
using namespace quantit;
using torch::Tensor;
using pbt::Case;
using pbt::cat;
using IL = std::vector<int64_t>;

// ---------------------------------------------------------------- charges
using Q = std::vector<int64_t>; // one component per factor group
struct Kind
{
	const char *name;
	std::vector<int64_t> mod; // 0: the integers
};
inline const std::vector<Kind> &kinds()
{
	static const std::vector<Kind> k{
	    {"Z", {0}}, {"C2", {2}}, {"C3", {3}}, {"Z,Z", {0, 0}}, {"Z,C2", {0, 2}}, {"C2,C3", {2, 3}}, {"C5", {5}}, {"C200", {200}}, {"C3,Z,C2", {3, 0, 2}}};
	return k;
}
inline Q qnorm(int kind, Q q)
{
	auto &m = kinds()[kind].mod;
	for (size_t i = 0; i < m.size(); ++i)
		if (m[i]) q[i] = ((q[i] % m[i]) + m[i]) % m[i];
	return q;
}
inline Q qzero(int kind) { return Q(kinds()[kind].mod.size(), 0); }
inline Q qadd(int kind, const Q &a, const Q &b)
{
	Q r = a;
	for (size_t i = 0; i < r.size(); ++i) r[i] += b[i];
	return qnorm(kind, r);
}
inline Q qneg(int kind, const Q &a)
{
	Q r = a;
	for (auto &x : r) x = -x;
	return qnorm(kind, r);
}
inline any_quantity to_any(int kind, const Q &q0)
{
	using namespace conserved;
	Q q = qnorm(kind, q0);
	auto s = [](int64_t x) {
		if (std::abs(x) > 32000) throw pbt::Discard{}; // outside of the charges the library represents
		return static_cast<int16_t>(x);
	};
	switch (kind)
	{
	case 0: return any_quantity(quantity<Z>(Z(s(q[0]))));
	case 1: return any_quantity(quantity<C<2>>(C<2>(s(q[0]))));
	case 2: return any_quantity(quantity<C<3>>(C<3>(s(q[0]))));
	case 3: return any_quantity(quantity<Z, Z>(Z(s(q[0])), Z(s(q[1]))));
	case 4: return any_quantity(quantity<Z, C<2>>(Z(s(q[0])), C<2>(s(q[1]))));
	case 5: return any_quantity(quantity<C<2>, C<3>>(C<2>(s(q[0])), C<3>(s(q[1]))));
	case 6: return any_quantity(quantity<C<5>>(C<5>(s(q[0]))));
	case 7: return any_quantity(quantity<C<200>>(C<200>(s(q[0]))));
	default: return any_quantity(quantity<C<3>, Z, C<2>>(C<3>(s(q[0])), Z(s(q[1])), C<2>(s(q[2]))));
	}
}
inline std::string qstr(const Q &q)
{
	std::string s = "(";
	for (size_t i = 0; i < q.size(); ++i) s += (i ? "," : "") + std::to_string(q[i]);
	return s + ")";
}
inline int gen_kind(Case &c) { return (int)c.draw(kinds().size()); }
inline Q gen_q(Case &c, int kind, int64_t m = 2)
{
	Q q;
	for (auto mod : kinds()[kind].mod)
		q.push_back(!mod ? c.around(m) : mod <= 5 ? c.range(0, mod - 1) : c.chance(1, 8) ? c.range(0, mod - 1) : (mod + c.around(2)) % mod);
	return q;
}

// ---------------------------------------------------------------- shapes
struct Sec
{
	int64_t size;
	Q q;
	bool operator==(const Sec &o) const { return size == o.size && q == o.q; }
};
using Dim = std::vector<Sec>;
struct Spec
{
	int kind = 0;
	std::vector<Dim> dims;
	Q sel;
	size_t rank() const { return dims.size(); }
};
inline std::string str(const Spec &s)
{
	std::string o = std::string(kinds()[s.kind].name) + " sel" + qstr(s.sel) + " [";
	for (auto &d : s.dims)
	{
		o += "{";
		for (auto &x : d) o += std::to_string(x.size) + ":" + qstr(x.q) + " ";
		o += "}";
	}
	return o + "]";
}
inline int64_t dim_size(const Dim &d)
{
	int64_t n = 0;
	for (auto &s : d) n += s.size;
	return n;
}
inline IL full_sizes(const Spec &s)
{
	IL r;
	for (auto &d : s.dims) r.push_back(dim_size(d));
	return r;
}
inline int64_t numel(const Spec &s)
{
	int64_t n = 1;
	for (auto &d : s.dims) n *= dim_size(d);
	return n;
}
// visit every block index
template <class F>
void for_blocks(const Spec &s, F &&f)
{
	IL idx(s.rank(), 0);
	for (auto &d : s.dims)
		if (d.empty()) return;
	while (true)
	{
		f(idx);
		int i = (int)s.rank() - 1;
		for (; i >= 0; --i)
		{
			if (++idx[i] < (int64_t)s.dims[i].size()) break;
			idx[i] = 0;
		}
		if (i < 0) break;
	}
}
inline Q block_charge(const Spec &s, const IL &idx)
{
	Q q = qzero(s.kind);
	for (size_t i = 0; i < idx.size(); ++i) q = qadd(s.kind, q, s.dims[i][idx[i]].q);
	return q;
}
inline bool allowed(const Spec &s, const IL &idx) { return block_charge(s, idx) == qnorm(s.kind, s.sel); }
inline std::vector<IL> allowed_blocks(const Spec &s)
{
	std::vector<IL> r;
	for_blocks(s, [&](const IL &i) {
		if (allowed(s, i)) r.push_back(i);
	});
	return r;
}
inline IL block_sizes(const Spec &s, const IL &idx)
{
	IL r;
	for (size_t i = 0; i < idx.size(); ++i) r.push_back(s.dims[i][idx[i]].size);
	return r;
}
inline IL block_offsets(const Spec &s, const IL &idx)
{
	IL r;
	for (size_t i = 0; i < idx.size(); ++i)
	{
		int64_t o = 0;
		for (int64_t k = 0; k < idx[i]; ++k) o += s.dims[i][k].size;
		r.push_back(o);
	}
	return r;
}
inline Tensor sub_block(const Tensor &dense, const IL &off, const IL &sz)
{
	Tensor t = dense;
	for (size_t i = 0; i < off.size(); ++i) t = t.narrow(i, off[i], sz[i]);
	return t;
}
inline btensor::vec_list_t vec_list(const Spec &s)
{
	btensor::vec_list_t r;
	for (auto &d : s.dims)
	{
		std::vector<std::tuple<size_t, any_quantity>> v;
		for (auto &x : d) v.emplace_back(size_t(x.size), to_any(s.kind, x.q));
		r.push_back(std::move(v));
	}
	return r;
}
struct Lim
{
	int maxsec = 3, maxsize = 3;
	int64_t maxq = 2;
	bool wide = false; // see gen_dim
};
// a harness that handles them can ask for dimensions without sections (they come out of factorizing an empty tensor)
inline unsigned &empty_dims()
{
	static unsigned one_in = 0;
	return one_in;
}
inline Dim gen_dim(Case &c, int kind, Lim l = {})
{
	Dim d;
	if (empty_dims() && c.chance(1, empty_dims())) return d;
	auto n = c.range(1, l.maxsec);
	if (l.wide && c.chance(1, 32)) n = l.maxsec + 1 + c.draw(4); // more sections than usual
	if (l.wide && c.chance(1, 32)) l.maxq = 150;                // larger charges than usual
	for (int64_t i = 0; i < n; ++i)
	{
		Sec s;
		s.size = c.range(1, l.maxsize);
		s.q = gen_q(c, kind, l.maxq);
		d.push_back(s);
	}
	return d;
}
inline Dim conj_dim(int kind, Dim d)
{
	for (auto &s : d) s.q = qneg(kind, s.q);
	return d;
}
// a selection rule that allows at least one block most of the time
inline Q gen_sel(Case &c, const Spec &s)
{
	if (c.chance(1, 12)) return gen_q(c, s.kind);
	IL idx;
	for (auto &d : s.dims)
	{
		if (d.empty()) return gen_q(c, s.kind);
		idx.push_back((int64_t)c.draw(d.size()));
	}
	return block_charge(s, idx);
}
inline Spec gen_spec(Case &c, int kind, size_t rank, Lim l = {})
{
	Spec s;
	s.kind = kind;
	l.wide = true;
	if (rank >= 3 && c.chance(1, 100))
	{
		// every block is allowed, and there are many
		s.sel = qzero(kind);
		for (size_t i = 0; i < rank; ++i) s.dims.push_back(Dim((size_t)c.range(2, rank > 3 ? 4 : 6), Sec{1, s.sel}));
		return s;
	}
	for (size_t i = 0; i < rank; ++i)
	{
		// often mirror an earlier dimension, so that many blocks are allowed
		if (i > 0 && c.chance(1, 3))
			s.dims.push_back(conj_dim(kind, s.dims[c.draw(i)]));
		else
			s.dims.push_back(gen_dim(c, kind, l));
	}
	s.sel = gen_sel(c, s);
	return s;
}

// ---------------------------------------------------------------- values
enum class Val
{
	ints,    // small integers stored as double: sums and products are exact
	real,    // random doubles
	cplx,    // random complex
	cints,   // complex with small integer parts: exact
	f32,     // small integers stored as float: exact
	c64,     // the same as complex with float parts
	i64      // the same as 64 bits integers
};
inline torch::ScalarType dtype(Val v)
{
	switch (v)
	{
	case Val::cplx:
	case Val::cints: return torch::kComplexDouble;
	case Val::f32: return torch::kFloat32;
	case Val::c64: return torch::kComplexFloat;
	case Val::i64: return torch::kInt64;
	default: return torch::kFloat64;
	}
}
inline Val gen_val(Case &c) { return (Val)c.weighted({10, 4, 2, 2, 2, 1, 1}); }
inline bool exact(Val v) { return v != Val::real && v != Val::cplx; }
inline bool is_cplx(Val v) { return v == Val::cplx || v == Val::cints || v == Val::c64; }
struct Filler
{
	uint64_t state;
	bool seq;
	int64_t k = 0;
	explicit Filler(uint64_t seed) : state(pbt::mix(seed * 77 + 5)), seq(seed == 0) {}
	uint64_t next()
	{
		state += 0x9E3779B97F4A7C15ull;
		return pbt::mix(state);
	}
	int64_t small() { return seq ? (k++ % 5) + 1 : int64_t(next() % 9) - 4; }
	double real() { return seq ? double((k++ % 5) + 1) : double(next() >> 11) / double(1ull << 53) * 2 - 1; }
};
inline Filler gen_filler(Case &c) { return Filler(c.draw(1 << 20)); }
inline Tensor fill(Filler &f, const IL &sizes, Val v)
{
	int64_t n = 1;
	for (auto s : sizes) n *= s;
	Tensor t;
	if (is_cplx(v))
	{
		t = torch::empty({n}, torch::kComplexDouble);
		auto *p = t.data_ptr<c10::complex<double>>();
		for (int64_t i = 0; i < n; ++i)
		{
			double a = v == Val::cplx ? f.real() : double(f.small());
			double b = v == Val::cplx ? f.real() : double(f.small());
			p[i] = {a, b};
		}
		if (v == Val::c64) t = t.to(torch::kComplexFloat);
	}
	else
	{
		t = torch::empty({n}, torch::kFloat64);
		auto *p = t.data_ptr<double>();
		for (int64_t i = 0; i < n; ++i) p[i] = v == Val::real ? f.real() : double(f.small());
		if (v == Val::f32 || v == Val::i64) t = t.to(dtype(v));
	}
	return t.reshape(sizes);
}

// ---------------------------------------------------------------- tensors
struct BT
{
	Spec s;
	btensor t;
	Tensor d; // dense value, built independently of the library
	Val v = Val::ints;
};
inline btensor make_shape(const Spec &s, torch::ScalarType ty = torch::kFloat64)
{
	return btensor(vec_list(s), to_any(s.kind, s.sel), torch::TensorOptions().dtype(ty));
}
// density: 0 empty, 1: some blocks, 2: all blocks
inline BT gen_tensor(Case &c, const Spec &s, Val v, int density = -1)
{
	BT r{s, make_shape(s, dtype(v)), torch::zeros(full_sizes(s), dtype(v)), v};
	auto bl = allowed_blocks(s);
	if (density < 0) density = (int)c.weighted({4, 4, 1}) == 0 ? 2 : (c.chance(1, 8) ? 0 : 1);
	auto f = gen_filler(c);
	// blocks can also be created in any order, and with non-contiguous storage
	auto layout = c.weighted({6, 2, 1});
	bool rev = c.chance(1, 4);
	if (rev) std::reverse(bl.begin(), bl.end());
	for (auto &b : bl)
	{
		if (density == 0) break;
		if (density == 1 && !c.chance(2, 3)) continue;
		auto x = fill(f, block_sizes(s, b), v);
		sub_block(r.d, block_offsets(s, b), block_sizes(s, b)).copy_(x);
		if (layout == 1 && x.dim() >= 2) x = x.transpose(0, x.dim() - 1).contiguous().transpose(0, x.dim() - 1);
		if (layout == 2)
		{
			// part of a larger storage
			IL sz(x.sizes().begin(), x.sizes().end());
			for (auto &n : sz) n += 2;
			auto y = torch::full(sz, 77, x.options());
			for (int64_t i = 0; i < x.dim(); ++i) y = y.narrow(i, 1, x.size(i));
			y.copy_(x);
			x = y;
		}
		r.t.block(b) = x;
	}
	return r;
}
inline BT gen_bt(Case &c, int kind, size_t rank, Val v, Lim l = {}, int density = -1)
{
	auto s = gen_spec(c, kind, rank, l);
	return gen_tensor(c, s, v, density);
}
// dense form computed from the stored blocks only, with our own offsets
inline Tensor dense_of(const btensor &t)
{
	IL sizes, first;
	size_t rank = t.dim();
	std::vector<IL> off(rank);
	for (size_t i = 0; i < rank; ++i)
	{
		auto [b, e] = t.section_sizes(i);
		int64_t o = 0;
		for (auto it = b; it != e; ++it)
		{
			off[i].push_back(o);
			o += *it;
		}
		sizes.push_back(o);
	}
	Tensor r;
	bool set = false;
	auto ty = torch::kFloat64;
	for (auto &b : t)
		if (b.second.defined()) ty = b.second.scalar_type();
	r = torch::zeros(sizes, ty);
	for (auto &b : t)
	{
		if (b.first.size() != rank) throw std::runtime_error("block index of the wrong length");
		IL o, sz(b.second.sizes().begin(), b.second.sizes().end());
		for (size_t i = 0; i < rank; ++i)
		{
			if (b.first[i] < 0 || b.first[i] >= (int64_t)off[i].size()) throw std::runtime_error("block index out of range");
			o.push_back(off[i][b.first[i]]);
		}
		sub_block(r, o, sz).copy_(b.second);
	}
	(void)set;
	return r;
}
inline std::string tstr(const Tensor &t)
{
	std::ostringstream o;
	o << t.sizes() << t.scalar_type() << ":";
	auto f = t.contiguous().reshape({-1});
	for (int64_t i = 0; i < std::min<int64_t>(f.numel(), 24); ++i)
	{
		if (f.is_complex())
		{
			auto z = f[i].item().toComplexDouble();
			o << " " << z.real() << "+" << z.imag() << "i";
		}
		else
			o << " " << f[i].item().toDouble();
	}
	if (f.numel() > 24) o << " ...";
	return o.str();
}
inline std::string str(const BT &b)
{
	std::string o = str(b.s) + " blocks";
	for (auto &x : b.t)
	{
		o += " (";
		for (size_t i = 0; i < x.first.size(); ++i) o += (i ? "," : "") + std::to_string(x.first[i]);
		o += ")";
	}
	return o;
}
inline double maxabs(const Tensor &t)
{
	return t.numel() == 0 ? 0. : t.scalar_type() == torch::kBool ? double(t.any().item<bool>()) : t.abs().max().to(torch::kFloat64).item().toDouble();
}
// value equality, exact or to a tolerance relative to the magnitude of the reference
inline bool same(const Tensor &a, const Tensor &b, bool ex, double tol = 1e-10)
{
	if (a.sizes() != b.sizes()) return false;
	if (a.numel() == 0) return true;
	auto ty = a.is_complex() || b.is_complex() ? torch::kComplexDouble : torch::kFloat64;
	auto x = a.to(ty), y = b.to(ty);
	if (ex) return x.equal(y);
	auto d = (x - y).abs().max().to(torch::kFloat64).item().toDouble();
	auto f32 = [](auto t) { return t == torch::kFloat32 || t == torch::kComplexFloat; };
	if (f32(a.scalar_type()) || f32(b.scalar_type())) tol = std::max(tol, 1e-5);
	return d <= tol * std::max(1., maxabs(y)); // false for nan
}
#define SAME(a, b, ex, ...)                                                                                      \
	do                                                                                                           \
	{                                                                                                            \
		auto sa_ = (a);                                                                                          \
		auto sb_ = (b);                                                                                          \
		if (!gen::same(sa_, sb_, ex))                                                                            \
			c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", #a, " != ", #b, ": ", gen::tstr(sa_), " vs ", gen::tstr(sb_), \
			                " ", ##__VA_ARGS__));                                                                \
	} while (0)

inline any_quantity sel_of(const btensor &t)
{
	const vquantity &q = t.selection_rule;
	return any_quantity(q);
}
// Our own statement of validity: shapes, section counts, block positions, sizes and conservation law.
inline std::string invalid(const btensor &t)
{
	size_t rank = t.dim();
	if (t.section_numbers().size() != rank) return "number of dimensions and of section counts differ";
	size_t tot = 0;
	for (size_t i = 0; i < rank; ++i)
	{
		tot += t.section_number(i);
		auto [b, e] = t.section_sizes(i);
		if (size_t(e - b) != t.section_number(i)) return cat("dim ", i, ": section sizes do not match the section count");
		for (auto it = b; it != e; ++it)
			if (*it < 0) return "negative section size";
		auto [qb, qe] = t.section_cqtts(i);
		if (size_t(qe - qb) != t.section_number(i)) return cat("dim ", i, ": section charges do not match the section count");
	}
	if (rank > 0 && t.get_cvals().size() != tot) return "number of charges differs from number of sections";
	bool first = true;
	IL prev;
	for (auto &b : t)
	{
		if (b.first.size() != rank) return "block index has the wrong length";
		if (!first && !(prev < b.first)) return "block list is not strictly sorted";
		prev = b.first;
		first = false;
		if (!b.second.defined()) return "stored block is undefined";
		if ((size_t)b.second.dim() != rank) return "stored block has the wrong rank";
		any_quantity q = sel_of(t).neutral();
		for (size_t i = 0; i < rank; ++i)
		{
			if (b.first[i] < 0 || b.first[i] >= (int64_t)t.section_number(i)) return "block index out of range";
			auto [sb, se] = t.section_sizes(i);
			if (b.second.size(i) != *(sb + b.first[i])) return cat("stored block has size ", b.second.size(i), " in dim ", i, ", its section says ", *(sb + b.first[i]));
			auto [qb, qe] = t.section_cqtts(i);
			q *= *(qb + b.first[i]);
		}
		if (!(q == sel_of(t))) return "stored block violates the selection rule";
	}
	auto s = btensor::check_tensor(t);
	if (s != "") return "the library's own check complains: " + s;
	return "";
}
#define VALID(t, ...)                                                                                  \
	do                                                                                                 \
	{                                                                                                  \
		auto vs_ = gen::invalid(t);                                                                    \
		if (vs_ != "") c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", #t, " is invalid: ", vs_, " ", ##__VA_ARGS__)); \
	} while (0)
// does the tensor have exactly the sections, charges and selection rule of the model
inline std::string spec_diff(const btensor &t, const Spec &s, bool check_sel = true)
{
	if ((size_t)t.dim() != s.rank()) return cat("rank ", t.dim(), " instead of ", s.rank());
	for (size_t i = 0; i < s.rank(); ++i)
	{
		if (t.section_number(i) != s.dims[i].size()) return cat("dim ", i, " has ", t.section_number(i), " sections instead of ", s.dims[i].size());
		auto [b, e, qb, qe] = t.section_sizes_cqtts(i);
		for (size_t k = 0; k < s.dims[i].size(); ++k)
		{
			if (*(b + k) != s.dims[i][k].size) return cat("dim ", i, " section ", k, " has size ", *(b + k), " instead of ", s.dims[i][k].size);
			if (!(*(qb + k) == to_any(s.kind, s.dims[i][k].q))) return cat("dim ", i, " section ", k, " has charge ", fmt::format("{}", *(qb + k)), " instead of ", qstr(s.dims[i][k].q));
		}
	}
	if (check_sel && !(sel_of(t) == to_any(s.kind, s.sel)))
		return cat("selection rule ", fmt::format("{}", sel_of(t)), " instead of ", qstr(s.sel));
	return "";
}
#define HAS_SPEC(t, s, ...)                                                                                  \
	do                                                                                                       \
	{                                                                                                        \
		auto vs_ = gen::spec_diff(t, s);                                                                     \
		if (vs_ != "") c.fail(pbt::cat(__FILE__ ":", __LINE__, ": ", #t, ": ", vs_, " ", ##__VA_ARGS__)); \
	} while (0)
// mask of the elements the conservation law allows
inline Tensor mask(const Spec &s)
{
	auto m = torch::zeros(full_sizes(s), torch::kFloat64);
	for (auto &b : allowed_blocks(s)) sub_block(m, block_offsets(s, b), block_sizes(s, b)).fill_(1);
	return m;
}
// a full snapshot of a tensor, to detect any later change of the operand
struct Snap
{
	std::vector<std::pair<IL, Tensor>> blocks;
	IL sections, sizes;
	std::vector<any_quantity> q;
	any_quantity sel;
	int64_t rank;
	torch::ScalarType ty;
};
inline Snap snap(const btensor &t)
{
	Snap s;
	for (auto &b : t) s.blocks.push_back({b.first, b.second.clone()});
	s.sections = t.section_numbers();
	s.rank = t.dim();
	for (int64_t i = 0; i < s.rank; ++i)
	{
		auto [b, e, qb, qe] = t.section_sizes_cqtts(i);
		for (auto it = b; it != e; ++it) s.sizes.push_back(*it);
		for (auto it = qb; it != qe; ++it) s.q.emplace_back(*it);
	}
	s.sel = sel_of(t);
	return s;
}
inline std::string changed(const Snap &s, const btensor &t)
{
	if (t.dim() != s.rank || t.section_numbers() != s.sections) return "rank or sections changed";
	size_t k = 0;
	for (int64_t i = 0; i < s.rank; ++i)
	{
		auto [b, e, qb, qe] = t.section_sizes_cqtts(i);
		for (; b != e; ++b, ++qb, ++k)
		{
			if (k >= s.sizes.size() || *b != s.sizes[k]) return "section sizes changed";
			if (!(s.q[k] == *qb)) return "section charges changed";
		}
	}
	if (!(sel_of(t) == s.sel)) return "selection rule changed";
	if (size_t(t.end() - t.begin()) != s.blocks.size()) return cat("number of stored blocks changed from ", s.blocks.size(), " to ", t.end() - t.begin());
	size_t n = 0;
	for (auto &b : t)
	{
		if (b.first != s.blocks[n].first) return "positions of stored blocks changed";
		auto &o = s.blocks[n].second;
		if (b.second.sizes() != o.sizes() || b.second.scalar_type() != o.scalar_type()) return "size or element type of a stored block changed";
		if (!(b.second.equal(o) || (b.second.isnan().any().item().toBool()))) return cat("values of a stored block changed: ", tstr(o), " to ", tstr(b.second));
		++n;
	}
	return "";
}
#define UNCHANGED(s, t, ...)                                                                                          \
	do                                                                                                                \
	{                                                                                                                 \
		auto vs_ = gen::changed(s, t);                                                                                \
		if (vs_ != "") c.fail(pbt::cat(__FILE__ ":", __LINE__, ": operand ", #t, " was modified: ", vs_, " ", ##__VA_ARGS__)); \
	} while (0)

inline void torch_worker_init()
{
	at::set_num_threads(1);
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
}
inline void torch_case_init()
{
	torch::set_default_dtype(torch::scalarTypeToTypeMeta(torch::kFloat64));
	torch::manual_seed(1234);
}
} // namespace gen
