// C24: ground-state search on symmetric networks.
#include "model_dmrg.h"
using namespace gen;
using pbt::Case;
std::string pbt::rule_text =
    "charge-conserving Hermitian operators on 2-5 sites for 7 group types (sums of drawn products with their conjugate; exact networks of drawn, degenerate, diagonal, gapped and identity-like matrices; scales 1e-10 to 1e6; charged "
    "outer bonds; the models of the library), real, complex and single precision; canonical starts of every charge from drawn tensors, vectors, basis states and (nearly) eigenvectors, at every center, normalized or not; all options; "
    "non-trivial when the sector has at least two states and the operator is not zero";
unsigned pbt::quick_cases = 30000, pbt::thorough_cases = 400000;
std::vector<std::string> pbt::assumptions = {"libtorch dense eigenvalues are correct", "the start is canonical around its center, as the library's own functions leave it", "the state and the operator have the same element type"};
std::function<void()> pbt::worker_init = torch_worker_init, pbt::case_init = torch_case_init;
FACET(exact_search, 4) { search_case<btensor>(c, gen_problem<btensor>(c, Style::any), false); }
FACET(truncated_search, 4) { search_case<btensor>(c, gen_problem<btensor>(c, Style::any), true); }
FACET(ground_energy, 2) { ground_case<btensor>(c); }
FACET(no_iteration, 1) { evaluate_case<btensor>(c); }
FACET(refusals, 1) { refusal_case<btensor>(c); }
FACET(drawn_start, 2) { drawn_case<btensor>(c); }
FACET(model_search, 2)
{
	auto p = gen_model<btensor>(c);
	search_case<btensor>(c, p, c.flip());
}
FACET(model_ground_energy, 1) { ground_case<btensor>(c, true); }
FACET(dense_search, 2) { compare_case(c); }
