"""Writes /verif/properties.jsonl from the table below (run by hand when the list changes)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, observe, state=None):
    P.append(dict(id=id, title=title, statement=statement, quantifier=dict(over=over, text=text),
        why_tests_cant=why, anchors=dict(files=["thewalrus/" + f for f in files],
        state=state or [], mechanism=[dict(name=a, where="thewalrus/" + b) for a, b in mech],
        observe_at=observe, hook_needed=None)))

p("C01", "Every hafnian algorithm equals the sum over perfect matchings",
  "For every symmetric matrix of every size and numeric type, hafnian() returns the sum over all perfect matchings of the products of the matched entries, whichever exact method (glynn, inclexcl, recursive) is selected; with loop=True the sum runs over all matchings that may also use loops, a loop contributing the diagonal entry. The empty matrix gives 1, an odd-sized matrix without loops gives 0, and loop_hafnian(A, D) equals the loop hafnian of A with diagonal D. The pure-Python reference implementation (thewalrus.reference.hafnian, spm, pmp) lists every matching exactly once and gives the same values, and approx=True is an unbiased estimate of the hafnian of a non-negative real matrix.",
  ["inputs", "configurations"], "all symmetric real/complex/integer matrices of every size, both loop settings, all exact methods",
  "The tests compare a few methods on all-ones and random matrices up to size ~12 (mostly one seed); the identity must hold for every size and every entry pattern (zero diagonal, zero rows, odd sizes, integer dtype).",
  ["_hafnian.py"], [("hafnian dispatch and explicit n<=4 formulas", "_hafnian.py:hafnian"), ("power-trace inclusion-exclusion sum", "_hafnian.py:_calc_hafnian"), ("coefficient of z^n of exp of power traces", "_hafnian.py:f, f_loop, f_loop_odd"), ("recursive polynomial algorithm", "_hafnian.py:recursive_hafnian, solve")],
  ["return value of hafnian() and loop_hafnian()"])
p("C02", "Hafnian with repetitions equals the hafnian of the expanded matrix",
  "For every symmetric A, repetition vector rpt and diagonal mu, hafnian_repeated(A, rpt, mu, loop) equals the (loop) hafnian of the matrix obtained by repeating row and column i rpt[i] times (with mu on the diagonal when loops are on), and hafnian/loop_hafnian with reps equal the same value. reduction() returns exactly that repeated matrix or vector, and matched_reps pairs the repeated indices so that every index is used as often as requested.",
  ["inputs"], "all symmetric matrices, all non-negative integer repetition vectors (including zeros, odd totals, all-equal), all diagonals",
  "Tests cover a handful of repetition patterns on random matrices; the identity quantifies over all repetition vectors and the internal pairing changes shape with each of them.",
  ["_hafnian.py"], [("hafnian_repeated", "_hafnian.py:hafnian_repeated"), ("pairing", "_hafnian.py:matched_reps"), ("submatrix and signs", "_hafnian.py:find_kept_edges, get_AX_S")],
  ["hafnian_repeated, hafnian(method), loop_hafnian(reps=...), reduction, matched_reps"])
p("C03", "Sparse, banded and low-rank hafnians agree with the hafnian",
  "For every symmetric matrix the sparse hafnian (over any index subset, with or without loops) and the banded hafnian equal the (loop) hafnian of that matrix or of the submatrix on the chosen indices. For every factor G the low-rank hafnian of G equals the hafnian of G Gᵀ, and bandwidth() returns the largest distance from the diagonal of a non-zero entry.",
  ["inputs"], "all symmetric matrices with arbitrary sparsity/band structure, all index subsets, all n-by-r factors",
  "Tests use a few random banded/sparse matrices; agreement has to hold for every zero pattern, since both algorithms prune on zeros.",
  ["_hafnian.py", "_low_rank_haf.py"], [("Laplace expansion with memoisation", "_hafnian.py:hafnian_sparse"), ("band subset DP", "_hafnian.py:hafnian_banded"), ("polynomial expansion", "_low_rank_haf.py:low_rank_hafnian")],
  ["hafnian_sparse, hafnian_banded, low_rank_hafnian, bandwidth"])
p("C04", "Multidimensional Hermite tensors obey their defining recurrence",
  "Every entry of the tensor returned by hermite_multidimensional(R, cutoff, y), for every dimension, cutoff (scalar or per-mode) and dtype, is the multidimensional Hermite polynomial of that index (divided by the root of the factorials when renormalised; built from R y unless modified). hafnian_batched(A, cutoff, mu) holds at index k the loop hafnian of the reduction of A (diagonal mu) by k, and interferometer(U, cutoff) holds the corresponding boson-sampling amplitudes.",
  ["inputs", "configurations"], "all complex symmetric R, vectors y, cutoffs and options, all tensor indices",
  "Tests check a few sizes and indices; the recurrence must hold at every index for every number of modes and cutoff, including unequal cutoffs and large cutoffs.",
  ["_hermite_multidimensional.py"], [("recurrences", "_hermite_multidimensional.py:_hermite_multidimensional, _interferometer"), ("rotation to modified form and renormalisation", "_hermite_multidimensional.py:hermite_multidimensional, hafnian_batched")],
  ["hermite_multidimensional, hafnian_batched, interferometer"])
p("C05", "Every permanent algorithm equals the sum over permutations",
  "For every square matrix of every size and dtype, perm(A) with every method equals the sum over all permutations of the products of entries (1 for the empty matrix). permanent_repeated(A, rpt) equals the permanent of A with row and column i repeated rpt[i] times.",
  ["inputs", "configurations"], "all square real/complex/integer matrices of every size; all repetition vectors",
  "Tests compare with formulas for all-ones and small random matrices; the Gray-code loops must be right for every size and entry.",
  ["_permanent.py"], [("Ryser Gray-code loop", "_permanent.py:perm_ryser"), ("BBFG Gray-code loop", "_permanent.py:perm_bbfg"), ("dispatch", "_permanent.py:perm"), ("block matrix", "_permanent.py:permanent_repeated")],
  ["perm, permanent_repeated"])
p("C06", "Torontonian functions equal their inclusion-exclusion definition",
  "For every admissible matrix O, tor(O) (direct and recursive) equals the signed sum over subsets S of modes of 1/sqrt(det(1 - O_S)), and ltor(O, gamma) the same sum with each term multiplied by exp(gamma_S (1-O_S)^-1 gamma_S*/2). The probability that a Gaussian state gives a threshold click pattern equals the corresponding normalised inclusion-exclusion sum for every pattern, state and hbar, and the probabilities of all patterns sum to one.",
  ["inputs", "configurations"], "all valid Gaussian states (any mode number, mean, hbar), all click patterns, recursive on/off",
  "Tests compare the two code paths with each other on random states of few modes and check few patterns; correctness of the recursive Cholesky update must hold at every depth and pattern.",
  ["_torontonian.py"], [("direct sum", "_torontonian.py:numba_tor, numba_ltor"), ("recursive Cholesky", "_torontonian.py:rec_torontonian, rec_ltorontonian, quad_cholesky, recursiveTor, recursiveLTor"), ("detection probability", "_torontonian.py:threshold_detection_prob")],
  ["tor, ltor, rec_torontonian, rec_ltorontonian, numba_tor, numba_ltor, threshold_detection_prob"])
p("C07", "Montrealer functions equal their sum over alternating walks",
  "For every admissible matrix A, mtl(A) equals the sum over all perfect matchings of the doubled index set whose union with the fixed pairing forms a single cycle, of the product of matched entries; lmtl(A, zeta), for a doubled vector zeta = (z, conj z), additionally sums the open walks whose two end points carry the conjugated entries of zeta. This holds for every number of modes, including a single mode; the reference implementation (thewalrus.reference.mtl) gives the same sums.",
  ["inputs"], "all symmetric matrices of even size and all loop vectors",
  "Tests compare with the reference enumeration for few small sizes on all-ones and random matrices.",
  ["_montrealer.py"], [("power-trace sum", "_montrealer.py:mtl, lmtl, power_loop")],
  ["mtl, lmtl"])
p("C08", "Power traces and characteristic polynomial are exact",
  "For every square matrix H and every n >= 1, powertrace(H, n) returns n numbers (n = 0 power up to n-1) whose k-th entry is the trace of H to the power k, and charpoly(H) returns the coefficients of the monic characteristic polynomial of H after the leading one, highest power first. Neither reads nor writes outside its arrays, whatever the matrix size, and neither changes the caller's matrix.",
  ["inputs"], "all square real/complex matrices (sizes 0, 1, 2, ...; singular, defective, already triangular) and all n",
  "Tests check random matrices of a few sizes with n >= size; compiled code runs without bounds checks so stray writes are invisible to tests.",
  ["charpoly.py"], [("Householder reduction to Hessenberg form", "charpoly.py:reduce_matrix_to_hessenberg, apply_householder"), ("La Budde recurrence", "charpoly.py:_charpoly"), ("Newton/Cayley-Hamilton recurrence", "charpoly.py:powertrace")],
  ["powertrace, charpoly"])
p("C09", "Bristolian and threshold boson-sampling probabilities match definitions",
  "For all matrices A, E of matching sizes, brs(A, E) and ubrs(A) equal their subset sums of permanents, and for every interferometer (unitary or lossy) and input photon pattern, the threshold and photon-number outcome probabilities computed from them equal the values obtained by summing squared permanents over all compatible photon patterns; the probabilities of all outcomes add up to one. Vacuum inputs and outputs are included.",
  ["inputs"], "all interferometers, all photon patterns (including vacuum and repeated photons), all outcomes",
  "Tests check a few interferometers of 2-4 modes and few patterns.",
  ["_permanent.py"], [("brs, ubrs, fock_prob, fock_threshold_prob", "_permanent.py")],
  ["brs, ubrs, fock_prob, fock_threshold_prob"])
p("C10", "Batched loop hafnians agree with single loop hafnians",
  "For every symmetric A, displacement D, fixed photon pattern and cutoff, entry k of loop_hafnian_batch is the loop hafnian of A with the fixed repetitions plus k photons in the last mode, for every k from 0 to the cutoff. loop_hafnian_batch_gamma gives the same for each row of displacements.",
  ["inputs"], "all symmetric matrices, displacements, fixed patterns (odd and even totals, zeros) and cutoffs (odd and even)",
  "Tests run a few random patterns; four parity branches of hand-written recurrences must agree for all patterns and cutoffs.",
  ["loop_hafnian_batch.py", "loop_hafnian_batch_gamma.py"], [("even/odd batch kernels", "loop_hafnian_batch.py:_calc_loop_hafnian_batch_even, _calc_loop_hafnian_batch_odd"), ("gamma kernels", "loop_hafnian_batch_gamma.py")],
  ["loop_hafnian_batch, loop_hafnian_batch_gamma"])
p("C11", "Symplectic gates are symplectic and expansion acts only on named modes",
  "Every gate constructor returns, for every real parameter and mode count, a real symplectic matrix implementing the documented transformation, and loss, vacuum and displacement builders return the documented state for every hbar. Expanding an operation or vector to N modes acts exactly as the original on the listed modes, in the listed order, and as the identity on every other mode; passive transformations act as the given transfer matrix with vacuum in the lost modes.",
  ["inputs"], "all parameter values, mode lists (any order), mode counts, hbar",
  "Tests check few angles and mode lists; the statement is an identity in the parameters and for every mode subset and order.",
  ["symplectic.py"], [("gates", "symplectic.py:squeezing, two_mode_squeezing, beam_splitter, rotation, interferometer, mean_photon_number"), ("expand/expand_vector/expand_passive", "symplectic.py"), ("loss, passive_transformation", "symplectic.py")],
  ["all public functions of thewalrus.symplectic"])
p("C12", "Conversions between phase-space descriptions are mutually inverse",
  "For every covariance matrix, mean vector and hbar, the Q, covariance, adjacency (A) and complex/real displacement conversions implement their definitions, the Q and covariance conversions are inverse to each other, the displacement conversions are inverse to each other, and xxpp/xpxp reorderings are inverse permutations. Expressing the same physical state with a different hbar gives the same Q, A and complex displacements.",
  ["inputs"], "all covariance matrices/means, all mode counts, all hbar > 0",
  "Tests check a few states and hbar = 2 mostly.",
  ["quantum/conversions.py", "symplectic.py"], [("Qmat, Covmat, Amat, Xmat, displacement conversions", "quantum/conversions.py"), ("xxpp_to_xpxp, xpxp_to_xxpp", "symplectic.py")],
  ["Qmat, Covmat, Amat, Xmat, real_to_complex_displacements, complex_to_real_displacements, xxpp_to_xpxp, xpxp_to_xxpp"])
p("C13", "Reduced states contain exactly the requested modes in requested order",
  "For every Gaussian state and every list of distinct modes (also a single integer, all modes, or a permutation of them), the reduced mean vector and covariance matrix contain the entries of exactly those modes, in the order requested, in both implementations. Requests for modes that do not exist are rejected with ValueError.",
  ["inputs"], "all states, all mode lists in any order",
  "Tests request sorted subsets; any order and the full-length permutation are never tried.",
  ["quantum/conversions.py", "symplectic.py"], [("reduced_gaussian", "quantum/conversions.py:reduced_gaussian"), ("reduced_state", "symplectic.py:reduced_state")],
  ["reduced_gaussian, reduced_state"])
p("C14", "Photon-number and click statistics equal Gaussian moment formulas",
  "For every Gaussian state, mode selection and hbar, the photon-number means, covariances, (normally/s-ordered) expectations, moments, cumulants and click means, variances and cumulants equal the moments of the state's photon-number or click distribution. Quantities of a subset of modes depend only on that subset, and results do not depend on hbar when the same physical state is supplied.",
  ["inputs"], "all Gaussian states, mode selections, powers/orderings, hbar",
  "Tests use a handful of states (mostly one- and two-mode, hbar = 2).",
  ["quantum/means_and_variances.py"], [("mean/covariance formulas", "quantum/means_and_variances.py:photon_number_mean, photon_number_covar"), ("expectation via s-ordering", "quantum/means_and_variances.py:s_ordered_expectation, normal_ordered_expectation, photon_number_moment"), ("cumulants", "quantum/means_and_variances.py:photon_number_cumulant, click_cumulant")],
  ["all public functions of thewalrus.quantum.means_and_variances"])
p("C15", "Fock amplitudes, density matrices and probabilities are consistent",
  "For every Gaussian state and hbar, single amplitudes and density-matrix elements equal the corresponding entries of the full state vector, density matrix and probability tensors, for every index and cutoff, with or without post-selection or normalisation. Density matrices are Hermitian with the probabilities on their diagonal, and Fock tensors of Gaussian transformations map input amplitudes to output amplitudes.",
  ["inputs", "configurations"], "all Gaussian states, all Fock indices and cutoffs, all post-selections",
  "Tests check selected states and few indices.",
  ["quantum/fock_tensors.py"], [("pure_state_amplitude, state_vector, density_matrix_element, density_matrix, fock_tensor, probabilities", "quantum/fock_tensors.py")],
  ["functions of thewalrus.quantum.fock_tensors"])
p("C16", "Loss and noise maps act as binomial thinning and convolution",
  "For every transmission and probability tensor with any number of modes, the loss map multiplies each mode by the binomial thinning matrix of its own transmission and nothing else, preserving total probability, and the noise map convolves each mode with its own noise distribution truncated at the cutoff. Transmission one and noise-free distributions leave the probabilities unchanged, and losses in sequence compose multiplicatively.",
  ["inputs"], "all transmissions in [0,1], all probability tensors of any mode number and cutoff, all noise vectors",
  "Tests use up to a few modes; index handling changes with the number of modes.",
  ["quantum/fock_tensors.py"], [("loss_mat, update_probabilities_with_loss, _update_1d, update_probabilities_with_noise", "quantum/fock_tensors.py")],
  ["loss_mat, update_probabilities_with_loss, update_probabilities_with_noise"])
p("C17", "n-body marginals are the marginals of each ordered mode tuple",
  "For every Gaussian state, n and cutoff, the entry for an ordered tuple of modes is the joint photon-number distribution of those modes in that order, so permuting the tuple permutes the axes of the distribution. This holds for any number of modes and tuple length.",
  ["inputs"], "all states, mode numbers, tuples and cutoffs",
  "Tests compare with a reference on 3-4 modes and only some tuples; cyclic permutations and high mode numbers are not covered.",
  ["quantum/fock_tensors.py"], [("n_body_marginals, _prefactor", "quantum/fock_tensors.py")],
  ["n_body_marginals"])
p("C18", "Fock-basis gates are exact and gradients are their true derivatives",
  "The Fock-basis arrays returned for displacement, squeezing, two-mode squeezing, beam splitter and Mach-Zehnder gates equal the truncated matrices of the corresponding unitaries for every real parameter and cutoff. Each returned gradient is the derivative of the gate with respect to its parameter, and the Hermite-tensor gradient routine returns the derivatives of the tensor with respect to its normalisation, matrix and vector arguments.",
  ["inputs"], "all gate parameters and cutoffs; every matrix element",
  "Tests compare against finite differences at a few parameter values and small cutoffs.",
  ["fock_gradients.py", "_hermite_multidimensional.py"], [("gate recurrences and gradients", "fock_gradients.py"), ("gradient recurrence", "_hermite_multidimensional.py:_grad_hermite_multidimensional")],
  ["fock_gradients.*, grad_hermite_multidimensional"])
p("C19", "Matrix decompositions reproduce their input with factors of promised form",
  "For every admissible matrix the Takagi, Williamson, Bloch-Messiah, pre-Iwasawa and Iwasawa decompositions multiply back to the input, with factors of the promised form: unitary or orthogonal-symplectic, symplectic, and real non-negative ordered diagonal. Diagonal, real, degenerate, zero and rank-deficient inputs are included.",
  ["inputs", "configurations"], "all symmetric complex, positive-definite real, symplectic matrices incl. degenerate spectra; both singular-value orders",
  "Tests use random matrices and few structured ones; special-case branches depend on structure of the input.",
  ["decompositions.py"], [("williamson, symplectic_eigenvals, blochmessiah, takagi, pre_iwasawa, iwasawa", "decompositions.py")],
  ["functions of thewalrus.decompositions"])
p("C20", "Samplers draw from the distribution of the given state",
  "For every Gaussian state and hbar, the photon-number, threshold, classical and graph samplers draw each pattern with the probability that the corresponding exact probability function assigns to it, within their documented cutoffs. Each sample has one entry per mode in the caller's mode order, and seeding reproduces the samples.",
  ["inputs", "histories"], "all states, hbar, cutoffs, random histories (seeds)",
  "Tests compare histograms of one or two states at hbar = 2 with loose tolerances.",
  ["samples.py", "csamples.py"], [("chain-rule samplers", "samples.py:generate_hafnian_sample, generate_torontonian_sample"), ("wrappers and pools", "samples.py"), ("graph samplers", "csamples.py")],
  ["functions of thewalrus.samples and thewalrus.csamples"])
p("C21", "State predicates, fidelity and entanglement measures obey definitions",
  "The validity, purity, classicality and symplecticity predicates accept exactly the matrices satisfying their definitions up to the tolerance, for every hbar. Fidelity is symmetric, lies between zero and one, equals one for identical states and the Gaussian overlap for pure states; entropies and logarithmic negativity equal their symplectic-spectrum formulas, vanish for pure/product states, and depend only on the requested partition and not on hbar or local operations.",
  ["inputs"], "all covariance matrices, means, partitions, hbar",
  "Tests use few states, mostly hbar = 2 and two modes.",
  ["quantum/gaussian_checks.py", "quantum/entanglement.py"], [("is_valid_cov, is_pure_cov, is_classical_cov, is_symplectic, fidelity", "quantum/gaussian_checks.py"), ("vonneumann_entropy, entanglement_entropy, log_negativity", "quantum/entanglement.py")],
  ["functions of gaussian_checks and entanglement"])
p("C22", "Public functions never modify the caller's arrays",
  "No public function changes the contents, shape or dtype of any array or list passed to it. Calling a deterministic function twice with the same arguments gives the same result whatever was called in between.",
  ["inputs", "histories"], "all public functions, all inputs, all call histories",
  "Tests never compare arguments before and after a call; in-place kernels mutate only for particular sizes and parameters.",
  ["_hafnian.py", "_permanent.py", "_torontonian.py", "_montrealer.py", "_hermite_multidimensional.py", "charpoly.py", "symplectic.py", "decompositions.py", "loop_hafnian_batch.py", "quantum/conversions.py", "quantum/means_and_variances.py", "quantum/fock_tensors.py"], [("defensive copies in wrappers and in-place kernels", "charpoly.py:powertrace, charpoly; _hafnian.py:loop_hafnian, hafnian; symplectic.py:loss")],
  ["argument contents before and after every public call"])
p("C23", "Malformed inputs are rejected instead of giving a number",
  "Functions documented to require square, symmetric, correctly sized, NaN-free, correctly typed or in-range inputs raise ValueError or TypeError for inputs that violate the requirement, and never raise for inputs that satisfy it. This holds for every position of the offending entry. Where rtol and atol are parameters, they decide what counts as symmetric.",
  ["inputs"], "all malformed inputs (wrong shape, asymmetric at any entry, NaN at any entry, wrong lengths, out-of-range numbers)",
  "Tests try one malformed input per check; the check must hold wherever the bad entry is.",
  ["_hafnian.py", "_permanent.py", "_torontonian.py", "_hermite_multidimensional.py", "symplectic.py", "decompositions.py", "samples.py", "csamples.py", "quantum/gaussian_checks.py", "quantum/conversions.py"], [("input validation", "_hafnian.py:input_validation and guards in each public function")],
  ["exceptions raised by public functions"])
p("C24", "Photon-number distributions of squeezed light are exact",
  "Total photon-number distributions of pure and uniformly lossy squeezed light, their characteristic functions, and photon-number means, covariances and samples of distinguishable squeezers equal those obtained from the photon statistics of the individual modes, for every squeezing, loss, cutoff and hbar. Grouped click estimates sum to one and agree with the exact click distribution within their statistical error. Truncation bounds on the total variation distance bound the true missing mass.",
  ["inputs"], "all squeezing parameters, losses, noises, cutoffs, hbar, mode numbers and groupings",
  "Tests check few parameter values.",
  ["quantum/photon_number_distributions.py", "quantum/distinguishable_squeezers.py", "grouped_click_probabilities.py", "quantum/fock_tensors.py"], [("pure_state_distribution, total_photon_number_distribution, characteristic_function", "quantum/photon_number_distributions.py"), ("hom/het vacuum and density matrix", "quantum/distinguishable_squeezers.py"), ("grouped clicks", "grouped_click_probabilities.py"), ("tvd_cutoff_bounds", "quantum/fock_tensors.py")],
  ["those functions' return values"])
p("C25", "Graph embeddings give valid states with the requested mean",
  "For every symmetric adjacency matrix and target mean, scaling the matrix yields a state whose mean photon (or click) number is the target, and converting an adjacency matrix to a Q or covariance matrix yields a valid state whose adjacency matrix is the original one (real matrices, as documented). Random unitaries, symplectic matrices, covariance matrices and interferometers returned by the generators are valid objects of their kind for every size, option and hbar.",
  ["inputs", "histories"], "all symmetric adjacency matrices, all targets, all random seeds, sizes and options",
  "Tests check few matrices and targets.",
  ["quantum/adjacency_matrices.py", "random.py", "csamples.py"], [("adj_scaling, adj_scaling_torontonian, adj_to_qmat, mean_number_of_clicks_graph", "quantum/adjacency_matrices.py"), ("random_covariance, random_symplectic, random_interferometer, random_block_interferometer, randnc", "random.py")],
  ["adj_scaling, adj_scaling_torontonian, adj_to_qmat, thewalrus.random.*"])
with open(os.path.join(os.path.dirname(__file__), "..", "properties.jsonl"), "w") as fh:
    for d in P: fh.write(json.dumps(d, ensure_ascii=False) + "\n")
print(len(P))
