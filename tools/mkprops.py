"""Writes properties.jsonl (kept as code so that the texts are easy to edit)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, **kw):
    a = {'files': files, 'mechanism': [{'name': n, 'where': w} for n, w in mech]}
    a.update(kw)
    assert len(title) <= 80, title
    P.append({'id': id, 'title': title, 'statement': statement,
              'quantifier': {'over': over, 'text': text},
              'why_tests_cant': why, 'anchors': a})

MPA = 'mpnum/mparray.py'
INP = ['inputs', 'configurations']
HIS = ['inputs', 'configurations', 'histories']

p('C01', 'Dense arrays survive the round trip through matrix product form',
  'Converting any dense array to matrix product form and back, in local or in global leg order, returns exactly the same array, for every split of the legs over the sites, including sites with different numbers of legs, legs of dimension one and preserved outer virtual legs. Reported shape, leg counts, ranks, length, size and data type describe the stored tensors. A tensor product of given factors represents exactly their outer product.',
  INP, 'for every array value, leg dimension, number of sites, per-site leg count and real/complex mix',
  'Tests sample random arrays with the same shape on every site; an error that needs unequal leg counts, dimension-one legs or rank-deficient intermediate factors is never sampled.',
  [MPA, 'mpnum/utils/array_transforms.py'],
  [('conversion', MPA + ':MPArray.from_array,from_array_global,from_kron,to_array,to_array_global'),
   ('factor extraction', MPA + ':_extract_factors,_ltens_to_array'),
   ('leg order', 'mpnum/utils/array_transforms.py:global_to_local,local_to_global')])
p('C02', 'Addition, subtraction, scaling and weighted sums are the dense ones',
  'Sums, differences, negation, scalar multiples, scalar quotients (also in place) and weighted sums of any number of matrix product arrays represent exactly the same operation on the represented dense arrays, whatever the ranks, shapes, data types and canonical forms of the operands. Shapes are preserved and operands with mismatching length or non-scalar factors are refused.',
  INP, 'for all local tensors, scalars, weights, ranks, shapes and canonical-form claims within the bounds',
  'The tests add arrays of equal shape and rank; the block structure has to be right for every pair of different ranks and every mix of real and complex sites.',
  [MPA], [('arithmetic', MPA + ':MPArray.__add__,__sub__,__mul__,__imul__,__truediv__,__itruediv__'), ('sums', MPA + ':sumup,_local_add')])
p('C03', 'Local contractions compute the contraction of the dense arrays',
  'Contracting two matrix product arrays site by site over any choice of physical legs, partially at any offset, as a local outer product, by chaining or by injecting further sites at any positions represents exactly the corresponding contraction or tensor product of the dense arrays, with the legs of the left operand before those of the right one on every site.',
  INP, 'for all local tensors, leg choices (positive, negative, per-site, multiple), offsets, ranks and shapes within the bounds',
  'Correctness of the leg bookkeeping has to hold for every combination of leg counts, axes and ranks; tests only use uniform operands.',
  [MPA], [('contraction', MPA + ':dot,partialdot,_local_dot,localouter'), ('concatenation', MPA + ':chain,inject')])
p('C04', 'Inner products and sandwiches equal the dense scalar products',
  'The inner product of two matrix product arrays equals the conjugate-linear scalar product of the dense arrays, conjugating the first operand only, for any number of legs per site and any ranks; the sandwich of an operator between one or two vectors equals the corresponding matrix element, and the specialised inner product with product vectors agrees with the general one.',
  INP, 'for all local tensors, ranks, shapes and real/complex mixes within the bounds',
  'A misplaced conjugation or transposition is invisible on real or symmetric samples and on equal ranks.',
  [MPA, 'mpnum/special.py'], [('scalar product', MPA + ':inner,sandwich'), ('fast path', 'mpnum/special.py:inner_prod_mps')])
p('C05', 'Leg operations act on the represented array exactly as on a dense array',
  'Transposing, conjugating, taking adjoints, reshaping, flattening, mirroring the chain, indexing, iterating over legs, summing over legs, taking partial or full traces and diagonals of a matrix product array represent exactly the same operation on the dense array, for every documented way of selecting legs.',
  INP, 'for all local tensors, leg selections, permutations, index values, ranks and shapes within the bounds',
  'The documented argument forms (per-site, shared, None, empty, negative) multiply with per-site leg counts far beyond what the tests sample.',
  [MPA], [('leg operations', MPA + ':MPArray.T,transpose,adj,conj,reshape,ravel,reverse,get,axis_iter,sum'), ('traces', MPA + ':partialtrace,trace,diag')])
p('C06', 'Regrouping of sites and bond legs never changes the represented array',
  'Grouping and splitting sites, turning a bond into physical legs and back, cutting the chain at a bond, removing legless sites or dimension-one legs, and padding ranks keep the represented array unchanged up to the documented rearrangement of its legs, also when such steps are combined.',
  HIS, 'for all local tensors, positions, group sizes, ranks, shapes and canonical-form claims within the bounds',
  'Tests use equal shapes per site and never look at the claims carried along.',
  [MPA], [('regrouping', MPA + ':MPArray.group_sites,split_sites,vleg2leg,leg2vleg,split,prune'), ('padding', MPA + ':MPArray.pad_ranks')])
p('C07', 'Claimed canonical form is always true, for every history of operations',
  'At any time and after any sequence of operations, every site an array claims to be left-canonical is a left isometry and every site it claims to be right-canonical is a right isometry, and the two claimed ranges do not overlap. This includes replacing local tensors directly with any index or slice and any declared canonicalization.',
  HIS, 'for every sequence of tensor replacements, canonicalizations, scalings, reshapes and derived arrays',
  'It is an inductive invariant over histories; tests check a few sequences from fresh arrays and never assign out of order.',
  ['mpnum/mpstruct.py', MPA], [('bookkeeping', 'mpnum/mpstruct.py:LocalTensors.update,_update,canonical_form'), ('propagation of claims', MPA + ':every LocalTensors(..., cform=...) call')], state=[{'name': 'LocalTensors._lcanonical/_rcanonical', 'meaning': 'number of leading sites claimed left-canonical / first site claimed right-canonical'}])
p('C08', 'Canonicalization reaches its target and preserves the represented array',
  'Bringing an array into canonical form with any permitted pair of targets leaves the represented array unchanged, makes all sites before the left target left-canonical and all sites from the right target on right-canonical, and reports at least that form; targets out of range and overlapping targets are refused without touching the array.',
  HIS, 'for all local tensors (also rank-deficient ones), ranks above and below the local dimension, all targets and all starting forms within the bounds',
  'All pairs of starting form and target times arbitrary tensors; tests sample full-rank random tensors from few starting forms.',
  [MPA, 'mpnum/mpstruct.py'], [('canonicalize', MPA + ':MPArray.canonicalize,_rcanonicalize,_lcanonicalize')])
p('C09', 'The norm and the distance are the 2-norms of the dense array',
  'The computed norm is the non-negative square root of the sum of squared moduli of the dense array for every canonical form the array may be in, and the computed distance of two arrays is the norm of their difference; neither changes the represented arrays.',
  HIS, 'for all local tensors, ranks and starting canonical forms within the bounds',
  'The norm is read off a single local tensor, so it is right only if the canonical form is right for every history.',
  [MPA], [('norm', MPA + ':norm,normdist')])
p('C10', 'SVD compression keeps the documented overlap, rank and error relations',
  'After compression by singular value decomposition in any direction, rank and truncation setting, the ranks do not exceed the given bound, the returned number equals the overlap of original and result and also the squared norm of the result, the claimed canonical form is true, and with no truncation the array is unchanged. Truncating by relative error keeps the smallest rank whose discarded fraction of singular values is within that error.',
  INP, 'for all local tensors, directions, rank bounds, relative errors, ranks and starting canonical forms within the bounds',
  'The overlap relation holds only if the isometries used in every step are right for every input; tests check it to tolerance on random arrays.',
  [MPA, 'mpnum/utils/extmath.py'], [('compression', MPA + ':MPArray.compress,compression,_compress_svd,_compress_svd_r,_compress_svd_l'), ('truncation', 'mpnum/utils/extmath.py:truncated_svd')])
p('C11', 'Bond singular values are those of the dense bipartition',
  'The singular values reported for every bond are the sorted non-negative singular values of the dense array cut at that bond, whatever the starting canonical form.',
  INP, 'for all local tensors, ranks, bonds and starting canonical forms within the bounds',
  'Reading the values off local tensors is only right for the right canonical form at every bond.',
  [MPA], [('singular values', MPA + ':MPArray.singularvals')])
p('C12', 'Variational compression returns a normal overlap and respects its rank bound',
  'Variational compression from any starting array and any number of sweeps returns an array of the same shape whose rank is within the bound, whose claimed canonical form is true, and whose overlap with the original equals its squared norm and the returned number. It reproduces the original exactly whenever the rank bound permits and the optimised window spans the chain.',
  INP, 'for all local tensors, starting arrays, sweeps, window sizes and ranks within the bounds',
  'The sweep environments must match the local tensors in every step; a stale environment still converges on the samples of the tests.',
  [MPA], [('variational compression', MPA + ':MPArray._compression_var,_adapt_to_add_l,_adapt_to_add_r,_adapt_to_new_lten,_adapt_to')])
p('C13', 'State conversions and reductions agree with the dense partial traces',
  'Turning pure states, locally purified states and density operators into one another preserves the represented operator, and every reduced state over any window of sites is the partial trace of the dense operator over the other sites, in the documented order and with the same window semantics for all three representations.',
  INP, 'for all local tensors, windows, ranks and shapes within the bounds',
  'Reductions reuse partial contractions across windows; errors show only for particular window sequences and non-uniform dimensions.',
  ['mpnum/mpsmpo.py'], [('reductions', 'mpnum/mpsmpo.py:reductions_mpo,reductions_pmps,reductions_mps_as_mpo,reductions_mps_as_pmps,pmps_reduction'), ('conversions', 'mpnum/mpsmpo.py:mps_to_mpo,mps_to_pmps,pmps_to_mpo,pmps_to_mps,mpo_to_pmps,pmps_dm_to_array')])
p('C14', 'Measurement probabilities follow the Born rule in every mode and layout',
  'Probabilities and expectation values of a product measurement on a pure, locally purified or mixed state equal the traces of the dense operator with the dense measurement elements, whichever implementation is used and however the measurement is embedded in, repeated over or split across the chain.',
  INP, 'for all measurement elements, states, start sites, repetition counts and representations within the bounds',
  'Implementations are only compared on random states with one uniform local dimension.',
  ['mpnum/povm/mppovm.py'], [('probabilities', 'mpnum/povm/mppovm.py:MPPovm.pmf,pmf_as_array,expectations,probability_map'), ('layout', 'mpnum/povm/mppovm.py:MPPovm.embed,block,repeat,MPPovmList')])
p('C15', 'Built-in and combined measurements are valid and invert correctly',
  'The provided local measurements have positive semidefinite elements that sum to the identity, concatenation keeps this with the given relative weights, the linear map to probabilities is the Born rule, the pseudo-inverse inverts it on informationally complete measurements, and a product of measurements consists of the tensor products of elements.',
  INP, 'for all operators, local dimensions and weights within the bounds',
  'The identities must hold for every operator the map is applied to.',
  ['mpnum/povm/localpovm.py', 'mpnum/povm/mppovm.py'], [('local measurements', 'mpnum/povm/localpovm.py:POVM,concat,x_povm,y_povm,z_povm,pauli_povm'), ('product measurements', 'mpnum/povm/mppovm.py:MPPovm.from_local_povm,eye,from_local_povm')])
p('C16', 'Samples are drawn from the exact outcome distribution',
  'Every way of drawing samples draws each outcome sequence with exactly the probability the measurement assigns to it, for every group size and every state; the conditional distributions requested from the random generator multiply to the joint probability, and the requested number of samples in the requested packing is returned.',
  ['inputs', 'configurations', 'schedules'], 'for all states, measurements, group sizes and all sequences of outcomes of the random generator within the bounds',
  'A biased conditional distribution is statistically invisible to a test drawing a few hundred samples.',
  ['mpnum/povm/mppovm.py'], [('sampling', 'mpnum/povm/mppovm.py:MPPovm.sample,_sample_direct,_sample_cond,_sample_cond_single')])
p('C17', 'Packing samples is a bijection and counts are exact',
  'Packing outcome sequences into integers and unpacking them are inverse to each other for all numbers of outcomes per site, and the estimated distribution of a set of samples is the exact fraction of samples with each outcome.',
  INP, 'for all samples, numbers of outcomes per site and numbers of sites within the bounds',
  'The space of samples and outcome numbers is not exhausted by random samples.',
  ['mpnum/povm/mppovm.py'], [('packing', 'mpnum/povm/mppovm.py:MPPovm.pack_samples,unpack_samples'), ('counting', 'mpnum/povm/mppovm.py:MPPovm.est_pmf')])
p('C18', 'Estimators have the documented mean and variance for all samples',
  'Estimates and exact values of linear functions of outcome probabilities, from one measurement or a list of measurements or derived from another measurement, equal the documented weighted sums, variances and sample counts for all samples, coefficients and weights; giving a sample a weight is the same as repeating it.',
  INP, 'for all samples, coefficients, weights, sample counts and matching measurements within the bounds',
  'Tests compare estimates within statistical error, which hides wrong weights and variances.',
  ['mpnum/povm/mppovm.py'], [('estimators', 'mpnum/povm/mppovm.py:MPPovm.lfun,est_lfun,est_pmf_from,_lfun_estimator,MPPovmList.est_lfun,lfun,est_lfun_from,lfun_from')])
p('C19', 'The compressed sum of product vectors equals the weighted sum',
  'The specialised routine for sums of product vectors returns, for every number of summands, weights, target ranks and random choices, an array of the right shape whose rank is within the bound which equals the exact weighted sum when the rank bound permits with a deterministic decomposition, and which otherwise is the orthogonal projection of the exact sum onto the basis it returns.',
  INP, 'for all summands, weights, ranks and random matrices within the bounds',
  'Tests compare overlaps of random sums up to a tolerance.',
  ['mpnum/special.py'], [('sum', 'mpnum/special.py:sumup,_local_add_sparse')])
p('C20', 'Eigenvalue search minimises the dense quadratic form it claims to',
  'In every step of the eigenvector searches (single operator or sum of operators), the local problem handed to the eigensolver is exactly the restriction of the dense operator to the current neighbourhood of the state, the solver solution is written back consistently, and the returned value is the quadratic form of the returned normalised state.',
  ['inputs', 'configurations', 'histories'], 'for all operators, starting states, sweeps, window widths, ranks and solver answers within the bounds',
  'A stale or conjugated environment still converges to an approximate minimum on random Hermitian samples.',
  ['mpnum/linalg.py'], [('search', 'mpnum/linalg.py:eig,eig_sum,_eig_minimize_locally,_eig_sum_minimize_locally'), ('environments', 'mpnum/linalg.py:_eig_leftvec_add,_eig_rightvec_add,_eig_sum_leftvec_add,...')])
p('C21', 'Factory arrays have the shapes, ranks and structure they promise',
  'Identity, zero, diagonal and unit arrays represent exactly those dense arrays, and every random array has the requested shape and ranks and the structure it promises, namely Hermitian, positive semidefinite, normalised or canonical, for every outcome of the random generator.',
  INP, 'for all outcomes of the random generator, sites, dimensions and ranks within the bounds',
  'Structure has to hold for every random draw, not for the seeds in the tests.',
  ['mpnum/factory.py'], [('factories', 'mpnum/factory.py:eye,zero,diagonal_mpa,random_mpa,random_mps,random_mpo,random_mpdo,random_op,random_vec,random_state')])
p('C22', 'Local sums and embeddings place every local term at the right sites',
  'The sum of local terms over overlapping windows, with or without slice embedding, represents the dense sum of the terms padded by identities or given embeddings, and slicing helpers enumerate exactly the regular windows that fit.',
  INP, 'for all local terms, widths, offsets, ranks and shapes within the bounds',
  'Tests use terms of equal width, rank and type.',
  [MPA], [('local sums', MPA + ':local_sum,_local_sum_identity,embed_slice,regular_slices'), ('rank helper', MPA + ':full_rank')])
p('C23', 'Tensor utilities agree with their dense definitions',
  'Leg reordering between global and local form, partial traces, Kronecker products, generalised block-diagonal matrices, contraction helpers and truncated or randomised decompositions agree with their definitions for all shapes and values.',
  INP, 'for all arrays, shapes, axes and ranks within the bounds',
  'Tests sample a few shapes with equal dimensions.',
  ['mpnum/utils/array_transforms.py', 'mpnum/utils/extmath.py'], [('transforms', 'mpnum/utils/array_transforms.py:global_to_local,local_to_global'), ('linear algebra', 'mpnum/utils/extmath.py:partial_trace,block_diag,mkron,matdot,truncated_svd,randomized_svd')])
p('C24', 'Serialised arrays are restored exactly',
  'An array written to storage and read back has the same local tensors, data types, shapes and canonical-form claims as before, for every shape and canonical form.',
  INP, 'for all local tensors, shapes and canonical forms within the bounds',
  'Two tests on one shape, which fail with the installed storage library.',
  [MPA], [('serialisation', MPA + ':MPArray.dump,load')])
p('C25', 'Operations never modify their operands and copies are independent',
  'No operation that returns a new array changes its operands: their represented values stay the same and, except where a state is canonicalized on the way (reduced purified states), so do their local tensors and claimed form. In-place operations change only their target, and later in-place changes of a result or copy never reach the operand it came from or another result, nor the other way round. Local tensors handed out by an array cannot be written to.',
  HIS, 'for all operations followed by any in-place operation on the result',
  'Sharing of local tensors shows only in particular sequences of an operation followed by in-place changes.',
  [MPA, 'mpnum/mpstruct.py'], [('ownership', 'mpnum/mpstruct.py:LocalTensors.__init__,copy,__getitem__'), ('in-place operations', MPA + ':MPArray.__imul__,canonicalize,compress')])
p('C26', 'Model Hamiltonians agree between sparse, local and matrix product form',
  'A cyclic nearest-neighbour Hamiltonian is the same operator as matrix product operator, as sparse matrix and as the sum of its local terms, whatever the terms and their representation (the last term acts on the first and the last spin). The terms of the cyclic XY model are the documented ones for every asymmetry, and the returned ground state energy follows the documented formula, which for two spins is the smallest eigenvalue; other chain lengths are refused.',
  INP, 'for all coupling parameters and chain lengths within the bounds',
  'Parameters are continuous; tests use single values.',
  ['mpnum/utils/physics.py'], [('Hamiltonians', 'mpnum/utils/physics.py:mpo_cH,sparse_cH,cXY_local_terms,cXY_E0')])
p('C27', 'Projection onto probabilities refuses or returns a probability vector',
  'The checked projection refuses values with an imaginary part, a negative part or a deviation of the sum from one beyond the given tolerances, and otherwise returns the values with small ones replaced by zero, divided by their sum. The result is a probability vector and equals the input whenever the input is one. Complex input is left untouched and real input is updated in place, as documented.',
  INP, 'for all real and complex vectors, tolerances and truncation thresholds within the bounds',
  'The branches depend on the size and order of all entries; tests sample random vectors.',
  ['mpnum/utils/pmf.py'], [('projection', 'mpnum/utils/pmf.py:project_pmf,project_nonneg')])
import re
for x in P:
    n = len(re.findall(r'[.](?: |$)', x['statement']))
    assert n <= 3, (x['id'], n)
with open(os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'properties.jsonl'), 'w') as f:
    for x in P:
        f.write(json.dumps(x) + '\n')
