# property -> harness sources and the library sources it links (None: all)
BT = ['btensor', 'any_quantity', 'groups', 'torch_formatter', 'dimension_manip', 'tensorgdot', 'LinearAlgebra', 'btensor_linalg']
CHECKS = {
 'C01': dict(src=['c01_groups.cpp'], libs=['any_quantity', 'groups'],
             technique='property-based testing: group axioms and a tuple-of-integers reference model over random charges',
             note='Random search over charges of 9 group shapes; each charge is compared with an independent integer model. Trusts the integer model and the compiler.'),
 'C02': dict(src=['c02_quantity_vector.cpp'], libs=['any_quantity', 'groups'],
             technique='model-based stateful property testing against std::vector',
             note='Random histories of up to 40 operations on three lists of charges of 5 kinds, compared entry by entry with a vector of integer codes after every step.'),
 'C03': dict(src=['c03_flat_map.cpp'], libs=[],
             technique='model-based stateful property testing against std::map',
             note='Random histories of up to 40 operations on two maps over 4 key types, compared with std::map after every step. Trusts std::map.'),
 'C05': dict(src=['c05_elementwise.cpp'], libs=BT,
             technique='differential property-based testing of block tensors against dense tensors',
             note='Random block tensors; every result is compared element by element with the same dense operation, computed from an independently assembled dense tensor, and with the expected sections, charges and selection rule. Trusts libtorch.'),
 'C06': dict(src=['c06_contraction.cpp'], libs=BT,
             technique='differential property-based testing of block tensor contraction against dense contraction',
             note='Random pairs of block tensors; values, sections, charges and selection rule of the result are compared with torch::tensordot and matmul on independently assembled dense tensors. Trusts libtorch.'),
 'C07': dict(src=['c07_tensorgdot.cpp'], libs=['tensorgdot'],
             technique='differential property-based testing against torch::tensordot over memory layouts and coefficients',
             note='Random dense operands in random memory layouts, compared with beta*C + alpha*tensordot(A,B). Trusts libtorch.'),
 'C08': dict(src=['c08_layout.cpp'], libs=BT,
             technique='property-based testing: dense reference for permute/transpose/squeeze, block-wise reference and round trips for reshape',
             note='Random block tensors; layout changes are compared with the same change of an independently assembled dense tensor (block by block for reshape), and undone. Trusts libtorch.'),
 'C09': dict(src=['c09_views.cpp'], libs=BT,
             technique='property-based testing: a dense reference for views and sub-tensor assignment, aliasing checks, and a model of the block structure',
             note='Random block tensors and selections; views, assignments and block access are compared with the same selection of an independently assembled dense tensor, and storage sharing is checked by writing. Trusts libtorch.'),
 'C10': dict(src=['c10_dense.cpp'], libs=BT,
             technique='property-based testing: round trips between dense and block form, and an independent mask of the allowed elements as oracle for factories',
             note='Random block structures; conversions are checked against an independently computed mask of the allowed elements, the search of a selection rule against the set of charges of the significant elements. Trusts libtorch.'),
 'C13': dict(src=['c13_charges.cpp'], libs=BT,
             technique='property-based testing: group model of charges, round trips, and metamorphic relations with contraction and permutation',
             note='Random block tensors and shifts; charges and selection rule of every result are compared with an integer model of the group, elements with an independently assembled dense tensor. Trusts libtorch.'),
 'C12': dict(src=['c12_refusal.cpp'], libs=BT,
             technique='property-based testing: compatible operands made incompatible in exactly one respect, with snapshots of every operand',
             note='Random operands with a single mismatch; the call must raise and leave every operand as it was, and the compatible call must be accepted. Trusts the model of compatibility.'),
 'C04': dict(src=['c04_histories.cpp'], libs=BT,
             technique='model-based stateful property testing of operation histories, and structure mutation against the validity check',
             note='Random histories of up to 14 operations; after each the result is compared with a model of sections, charges, selection rule and dense value, and every other tensor with its snapshot. Trusts libtorch and the model.'),
 'C14': dict(src=['c14_dense_la.cpp'], libs=BT,
             technique='property-based testing: reconstruction, isometry and optimality of truncation over prescribed spectra',
             note='Random tensors with prescribed spectra, tolerances and limits; counts kept are compared with an independent model of the truncation rule, factors with their defining equations. Trusts libtorch matrix products and QR.'),
 'C15': dict(src=['c15_block_la.cpp'], libs=BT,
             technique='property-based testing: reconstruction, isometry, and spectra compared with dense factorizations',
             note='Random block tensors; factors are compared with the defining equations on independently assembled dense values and spectra with the dense factorization. Trusts libtorch.'),
 'C16': dict(src=['c16_block_truncation.cpp'], libs=BT,
             technique='property-based testing: kept values and approximation error compared with the dense spectrum',
             note='Random block tensors, tolerances and limits; the number of values kept, which ones, the error, and the validity and isometry of the factors are compared with a reference rule applied to the dense spectrum.'),
 'C11': dict(src=['c11_value_semantics.cpp'], libs=BT,
             technique='property-based testing: snapshots of operands around every operation, differential against operands that share nothing, and independent later modification',
             note='Every operation on random operands that are distinct, identical, shallow copies or views; operands, results and copies are compared before and after, and after each other is modified.'),
 'C17': dict(src=['c17_move_oc.cpp'], libs=None,
             technique='property-based testing of histories of moves: invariants of the represented state and of the gauge of every site',
             note='Random states and histories of moves; after each move the expanded state is compared with the original one, and every site the center crossed with its orthonormality relation.'),
 'C18': dict(src=['c18_containers.cpp'], libs=None,
             technique='property-based testing of validation with single faults, and model-based stateful testing of container histories against std::vector',
             note='Valid lists and lists with one fault given to every constructor; histories on all six network types compared with std::vector and a model of the center after every step.'),
 'C19': dict(src=['c19_contract.cpp'], libs=None,
             technique='differential property-based testing of network contraction against the dense expansion',
             note='Random states, operators and edges; the contraction is compared with torch::einsum of the expanded vectors and matrices, and the coalesced operator with the original one.'),
 'C20': dict(src=['c20_random_states.cpp'], libs=None,
             technique='property-based testing of random states against an exact enumeration of the reachable charges',
             note='Random physical spaces, targets, bond dimensions and seeds; the state is produced exactly when the charge is reachable, and its structure is checked.'),
 'C21': dict(src=['c21_operators.cpp'], libs=None,
             technique='property-based testing of operator algebra over generated charge assignments',
             note='Anticommutation and spin algebra on chains; symmetric operators compared with the dense ones for random charge assignments, consistent and not.'),
 'C22': dict(src=['c22_models.cpp'], libs=None,
             technique='differential property-based testing of model Hamiltonians against sums of Kronecker products',
             note='Random lengths, couplings and charge assignments; the expanded operator is compared with a reference written out term by term.'),
    'C25': dict(src=['c25_local.cpp'], libs=None,
             technique='property-based testing of the two-site step of DMRG against dense einsum algebra and exact 2x2 eigenproblems',
             note='Random environments, operators and states, Hermitian by construction for the Lanczos step; eigenvector starts and extreme scales.'),
    'C23': dict(src=['c23_dmrg.cpp'], libs=None,
             technique='property-based testing of ground-state search against exact diagonalization',
             note='Random Hermitian operators, starts, centers and options; every result is compared with the dense spectrum, expectation value, canonical form and the record of the iterations.'),
    'C24': dict(src=['c24_block_dmrg.cpp'], libs=None,
             technique='property-based testing of symmetric ground-state search against exact diagonalization by sector, and differential testing against the dense search',
             note='Random charge-conserving Hermitian operators, sectors, starts, centers and options.'),
 'C26': dict(src=['c26_text.cpp'], libs=None,
             technique='property-based testing of text output: the text is read back and compared with the value, differential against at::print',
             note='Random charges, block tensors, dense tensors and format options; the numbers in the text are compared with the structure, and texts of values with one difference with each other.'),
 'C27': dict(src=['c27_utilities.cpp'], libs=None,
             technique='property-based testing of the shape, scalar-type and tuple helpers against element-wise definitions',
             note='Random lists of dimensions, ranges, scalar types and tuples; results compared with definitions written out in the harness.'),
 'C28': dict(src=['c28_gradients.cpp'], libs=None,
             technique='differential property-based testing of gradients through block-tensor operations against the gradients of the dense operations',
             note='Random chains of operations on blocks that record gradients, networks and factorizations; the gradient of every block is compared with that part of the gradient of the dense computation.'),
}
