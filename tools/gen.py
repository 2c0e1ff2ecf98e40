#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from the table below."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
LIB, COM, GRA, DIS, RND, UTI = ["src/ff/%s.py" % x for x in (
    "ff_lib", "ff_combinatorics", "ff_graph_theory", "ff_distance_measures", "ff_random_states", "ff_utils")]

# id: (title, statement, over, quantifier text, why tests cannot, files, [mechanisms], how it is enumerated)
P = {}


def prop(pid, title, statement, over, text, why, files, mech, how):
    assert len(title) <= 80, (pid, len(title))
    P[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, files=files,
                  mech=mech, how=how)


prop("C01", "Jordan-Wigner operators act on Fock states as the definition says",
     "For every number of sites, the lowering, ladder (creation operators first, then annihilation) and Majorana operator lists have the documented length and order, and each operator sends every occupation basis state to the basis state and sign given by the Jordan-Wigner transformation with site 0 as the most significant factor and |0> as the vacuum. "
     "The ladder operators satisfy the canonical anticommutation relations and the Majoranas satisfy {g_i, g_j} = delta_ij. Repeated calls, with any site counts in between and with earlier results overwritten, return the same operators.",
     ["inputs", "histories"], "every site count, basis state and operator index; every history of calls with other site counts",
     "tests check anticommutators for 1-4 sites only, which a wrong ordering or sign string can also satisfy, and never repeat calls",
     [LIB], ["jordan_wigner_lowering", "jordan_wigner_alphas", "jordan_wigner_majoranas"],
     "explicit-state: every Fock state x operator is a transition of a reference Fock-space automaton, compared with the returned matrices")
prop("C02", "The Pauli group listing is complete, ordered and exact",
     "For every number of qubits n the listing contains exactly the 4^n tensor products of {I, X, Y, Z}, in lexicographic order of their words over I<X<Y<Z with the first letter on the most significant qubit, each with its exact matrix. "
     "In verbose mode the listing is the same and the words are printed one per line in that order. The three Pauli matrices are returned in the order X, Y, Z.",
     ["inputs"], "every qubit count and Pauli word, verbose or not",
     "tests look at lengths, a few elements and commutation for up to 3 qubits, not at each word's position",
     [LIB], ["generate_pauli_group", "pauli_matrices"], "explicit-state: all words as states of a base-4 counter")
prop("C03", "Operator rotation is the defining linear combination",
     "Rotating a list of operators by a square coefficient matrix C returns, for each row k, the sum over l of C_kl times operator l; in left mode the coefficient matrix is replaced by its conjugate transpose. "
     "This holds for any operator set (not only fermionic ones), any real or complex coefficients, any memory layout and either order of the two arguments, and rotating by C and then by D equals rotating by DC. The coefficient matrix is never modified.",
     ["inputs", "histories"], "all operator sets, coefficient matrices, modes and argument orders; all products of rotations",
     "tests use a handful of dense rotations of ladder operators; single coefficients, integer operators, left mode and composition are not swept",
     [LIB], ["rotate_operators", "_perform_rotation"],
     "explicit-state: every single-entry coefficient change x mode; closure of the 384-element signed permutation group under composition")
prop("C04", "Quadratic forms are lifted to exactly the defining operator sum",
     "Building the many-body operator from a 2n x 2n coefficient matrix R and 2n operators a_i returns sum_ij R_ij a_i^dagger a_j by default, and sum_ij R_ij a_i a_j in the direct form, for any operators and any real or complex coefficients. "
     "Terms with |R_ij| below 1e-10 may be dropped; the verbose flag changes nothing, and R is never modified.",
     ["inputs"], "all coefficient matrices, operator sets, forms and verbosity",
     "tests lift a few dense Hermitian matrices and compare traces or Hermiticity; a lost or conjugated single coefficient in one form goes unnoticed",
     [LIB], ["build_op"], "explicit-state: every single coefficient (i, j, value) over three base matrices and four operator sets")
prop("C05", "Coefficient-matrix builders produce exactly the documented blocks",
     "For all n x n inputs the Hamiltonian builder returns [[-A*, B], [-B*, A]] and its direct-form counterpart returns [[-Z*, A], [-A*, Z]] (second block zero when omitted), never sharing memory with the inputs; the Kitaev chain has -mu on the diagonal, -t hopping and +delta/-delta pairing between neighbouring sites. "
     "Omega = [[1, 1], [i, -i]]/sqrt 2 is unitary and carries ladder operators to Majoranas, the xx-to-xp reordering is the exact permutation (0, n, 1, n+1, ...), and the K matrix is the unitary that relates paired form to particle-hole form.",
     ["inputs"], "all sizes, entries, dtypes and memory layouts; all chain parameters",
     "tests check shapes and Hermiticity on random matrices; wrong conjugation or a swapped block on one size, dtype or parameter sign survives",
     [LIB], ["build_H", "build_V", "kitaev_chain", "build_Omega", "build_reordering_xx_to_xp", "build_K"],
     "explicit-state: every entry x value, parameter lattice for the chain, sizes to 8 for constants")
prop("C06", "Lifted quadratic Hamiltonians obey the single-particle dynamics",
     "For Hermitian A and antisymmetric B the lifted Hamiltonian is Hermitian, its commutator with ladder operator k is -2 sum_j H_kj times ladder operator j, and its spectrum is the set of all signed sums of the mode energies. "
     "Heisenberg evolution of every ladder operator for time t equals rotating the ladder operators by exp(-2iHt), and building the same Hamiltonian in direct form gives the same operator.",
     ["inputs"], "all (A, B) of every size",
     "needs several functions to agree for all coefficient pairs, including zero modes and degeneracies; tests try a few generic ones",
     [LIB], ["build_H", "build_V", "build_op", "rotate_operators", "jordan_wigner_alphas"],
     "explicit-state: coefficient lattices with all zero-mode/degenerate members, single-particle model vs many-body operator")
prop("C07", "Ladder-basis diagonalisation returns a symplectic canonical form",
     "For every H built from Hermitian A and antisymmetric B, diagonalisation returns (L, U) with U unitary, preserving the ladder anticommutators (U S U^T = S, blocks of U paired by conjugation), L = U^dagger H U = diag(-s, s) real with exactly the spectrum of H, including zero modes and degenerate energies, whatever the unit of energy. "
     "The direct-form variant applied to V = S H returns (L, U) with U of the same kind and L = U^T V U an off-diagonal antisymmetric pair holding the same magnitudes. The inputs are not modified.",
     ["inputs"], "all particle-hole symmetric matrices, singular and degenerate ones included",
     "tests use generic random matrices; degenerate or zero-mode spectra, where eigenvector choices matter, form a measure-zero set",
     [LIB], ["eigh_sp", "eigv_sp"], "explicit-state: exhaustive coefficient lattices (rich in degeneracies) to 5 sites against the algebraic contract")
prop("C08", "Majorana-basis diagonalisation returns orthogonal canonical forms",
     "For every purely imaginary antisymmetric matrix of even size, both variants return (L, O) with O real orthogonal and L = O^T G O with exactly the spectrum of G: adjacent pairs (2k, 2k+1) for the canonical variant and pairs (k, n+k) for the standard one, with zeros elsewhere. "
     "This includes zero modes and degenerate energies, in any unit; results are plain arrays and the input is not modified.",
     ["inputs"], "all Majorana coefficient matrices, singular and degenerate ones included",
     "tests check a few generic matrices; zero modes and degeneracies are not covered",
     [LIB], ["eigm_sp_can", "eigm_sp"], "explicit-state: exhaustive coefficient lattices to 5 sites")
prop("C09", "Gaussian states are the normalised Gibbs states of their generators",
     "Generating a Gaussian state from a 2n x 2n coefficient matrix, with default or supplied operators (rotated ones included), or from the many-body operator itself (for n < 3, where the sizes coincide, one without the particle-hole symmetry of a coefficient matrix), returns exp(-H)/Tr exp(-H): Hermitian, positive, unit trace, at any temperature (energies in units of it to 1e5 and more). "
     "For n > 2 the coefficient matrix may be any Hermitian one; for one with the particle-hole symmetry the two-point matrix <a_i a_j^dagger> equals the Fermi function 1/(1 + exp(-2H)) of the coefficient matrix.",
     ["inputs"], "all coefficient matrices, operator sets and input forms",
     "tests check trace, Hermiticity and positivity of a few states, which the Gibbs state of a different Hamiltonian also satisfies",
     [LIB], ["generate_gaussian_state", "compute_2corr_matrix"], "explicit-state: coefficient lattices, Gibbs state from the eigenbasis as reference")
prop("C10", "Wick's theorem links states, correlation matrices and the Pfaffian",
     "For every Gaussian state, the expectation of every product of 2, 4 or 6 distinct ladder or Majorana operators (in index order) equals the Pfaffian of the antisymmetrised upper triangle of the package's own two-point matrix restricted to those indices.",
     ["inputs"], "all Gaussian states and index subsets",
     "crosses four modules for every index subset; no test does it",
     [LIB, COM], ["generate_gaussian_state", "compute_2corr_matrix", "correlation_matrix", "pf"],
     "explicit-state: every index subset of every lattice state")
prop("C11", "Correlation matrices equal the trace definition for any state",
     "For any matrix rho, the two-point matrix is Tr(rho a_i a_j) by default, Tr(rho a_i^dagger a_j) for negative and Tr(rho a_i a_j^dagger) for non-negative integer conjugation arguments, with the ladder operators as default operators; the ladder correlation matrix is the default case. "
     "The covariance matrix is G - G^T of the unconjugated two-point matrix, whether or not the number of sites and the operators are given.",
     ["inputs"], "all states (any matrix), operator sets and conjugation arguments",
     "linear in rho: a basis of matrix units settles it, tests use a few symmetric states where index or conjugation mix-ups cancel",
     [LIB], ["compute_2corr_matrix", "compute_cov_matrix", "correlation_matrix"], "explicit-state: every matrix unit x operator pair x mode")
prop("C12", "Structure predicates decide their defining equations",
     "The symplectic test accepts a matrix exactly when it is square of even dimension 2n and U S U^T = S with S the block swap; the matchgate test accepts a 4 x 4 matrix exactly when its corner and inner 2 x 2 determinants are equal, whatever the other entries and the verbose flag, and no other shape. "
     "The canonical-form test accepts exactly real antisymmetric matrices of even dimension whose only non-zero entries are the (2k, 2k+1) pairs.",
     ["inputs"], "all matrices on an exact value grid, all shapes",
     "tests try a few positive and negative examples each",
     [LIB], ["is_symp", "is_matchgate", "check_canonical_form"], "explicit-state: all matrices over small value sets, every single-entry perturbation")
prop("C13", "The anticommutator table of an operator set is exact",
     "For any list of 2n operators obtained from ladder or Majorana operators by an arbitrary linear map M, the reported table of anticommutators equals M S M^T with S the original algebra (block swap, or identity for Majoranas), for real, integer and complex operators. The verbose flag does not change the table.",
     ["inputs"], "all linear maps of both operator families",
     "tests only compute it for canonical sets",
     [LIB], ["compute_algebra_S"], "explicit-state: every single-entry map x value, dense maps")
prop("C14", "Permutation lists convert to matrices as a homomorphism, others are refused",
     "Every permutation of 0..n-1 (list, tuple or array) gives the matrix that sends basis vector i to basis vector p(i), so products of matrices correspond to compositions of permutations. Every other sequence of integers (repeated, negative or too large entries) gives None.",
     ["inputs"], "all integer sequences", "tests try three permutations and two invalid lists",
     [LIB], ["permutation_to_matrix"], "explicit-state: Cayley graph of S_1..S_6 and all sequences over {-1..n} to length 4")
prop("C15", "The Pfaffian equals its definition",
     "For every antisymmetric matrix (integer, real or complex; array or nested list; any memory layout) the Pfaffian equals the signed sum over perfect matchings, with value 1 for the empty matrix and 0 in odd dimension. "
     "Consequently its square is the determinant and a congruence by an elementary matrix multiplies it by that matrix's determinant. The argument is not modified.",
     ["inputs"], "all antisymmetric matrices of any number type and scale",
     "tests use a few 2x2, 4x4 and random matrices; sparse sign patterns are not swept",
     [COM], ["pf", "sgn"], "explicit-state: all 4x4 over four values, all 6x6 zero patterns, elementary congruences as transitions")
prop("C16", "The Hafnian and the permanent equal their definitions",
     "For every symmetric matrix the Hafnian equals the sum over perfect matchings of products of entries, independent of the diagonal, with value 1 for the empty matrix and 0 in odd dimension; for every square matrix the permanent equals the sum over permutations. "
     "Both accept integer, real or complex arrays and nested lists in any memory layout, are unchanged by (simultaneous, resp. row) permutations, and do not modify the argument.",
     ["inputs"], "all matrices of any number type and scale", "tests use a few small matrices",
     [COM], ["hf", "pt"], "explicit-state: all 3x3 / 4x4 over small value sets, all 6x6 zero patterns, permutations as transitions")
prop("C17", "Both determinant routines equal the determinant",
     "For every square matrix (integer, real or complex; any layout; for the combinatorial routine also nested lists) the combinatorial determinant equals the signed sum over permutations - exactly for integers - and the eigenvalue determinant agrees with it to floating-point accuracy. "
     "Row operations multiply both by the expected factor, the argument is not modified, and the eigenvalue routine returns None for non-square input.",
     ["inputs"], "all square matrices of any number type and scale, all rectangular shapes", "tests use a few small matrices",
     [COM], ["dt", "dt_eigen"], "explicit-state: all 2x2 / 3x3 over small value sets, every elementary row operation")
prop("C18", "The sign of a permutation is its parity",
     "For every sequence of distinct comparable items (list, tuple or array; any labels) the sign is +1 or -1 according to the parity of the number of inversions; the empty permutation has sign +1. Exchanging any two items flips the sign.",
     ["inputs"], "all permutations and transpositions", "tests try a few permutations of at most 4 items",
     [COM], ["sgn"], "explicit-state: all permutations to length 7 with all transpositions")
prop("C19", "Perfect matchings are counted correctly on every graph",
     "For every undirected graph with at least one vertex and non-negative edge weights (missing weights count as 1), the perfect matching count equals the sum over perfect matchings of the product of edge weights, whatever the vertex labels, the order in which vertices and edges were inserted and whether the graph is connected; non-planar graphs of at most 15 vertices are included and the planar routine agrees on planar graphs (to a relative error of 1e-5, for weights within a factor of 10^6 of each other, of any size on forests). "
     "The input graph is not modified.",
     ["inputs"], "all graphs, labellings, insertion orders and non-negative weights",
     "tests count a few named graphs with 0..n-1 integer labels in order",
     [GRA, COM], ["count_perfect_matchings", "count_perfect_matchings_planar", "pfo_algorithm", "find_perfect_matchings_brute"],
     "explicit-state: every labelled graph on <= 5 vertices, every graph on 6-7 vertices, families to 36 vertices; deletion recurrence as transition relation")
prop("C20", "The Pfaffian orientation gives every perfect matching the same sign",
     "For every planar graph, the orientation matrix (read above the diagonal, rows and columns in vertex insertion order) has entries +1 or -1 exactly at edges and 0 elsewhere, and all perfect matchings contribute to its Pfaffian with one common sign. This holds for any labels, insertion order and weights, and for disconnected graphs; repeated and verbose calls agree.",
     ["inputs"], "all planar graphs, labellings and insertion orders",
     "tests check the count on a few graphs; an orientation can be wrong on one face and still pass",
     [GRA], ["pfo_algorithm", "complete_face", "faces", "dual_graph_H"],
     "explicit-state: every planar graph in the graph space, every perfect matching as a transition")
prop("C21", "Completing a face makes its traversal odd and changes nothing else",
     "Given a face as a list of consecutive directed edges with exactly one edge not yet oriented (zero or imaginary entry), completing it sets that edge to +1 or -1 (above the diagonal) such that the number of edges oriented against the traversal is odd, where an edge walked in both directions (a bridge) counts once in each. No entry for any other pair of vertices changes.",
     ["inputs"], "all cycles, vertex orders, orientations and missing edges", "tests complete two or three faces",
     [GRA], ["complete_face"], "explicit-state: every cycle order, sign assignment and missing edge for lengths 3-6, closed walks with bridges")
prop("C22", "Faces and dual graphs are exact for every connected planar graph",
     "For every connected planar graph with at least one edge, the face list walks every edge exactly once in each direction, each face is a closed walk following the given embedding, and vertices - edges + faces = 2; for a non-planar graph the result is 0. "
     "For every spanning tree, the dual graph has one vertex per face and exactly the edges joining the two faces beside each non-tree edge, so that it is a tree.",
     ["inputs"], "all connected planar graphs (integer labels), embeddings and spanning trees",
     "tests count faces of a few graphs with one spanning tree",
     [GRA], ["faces", "dual_graph_H"], "explicit-state: all graphs in the space, up to 80 spanning trees each; half-edge successor as transition relation")
prop("C23", "Brute-force matching returns each perfect matching exactly once",
     "For every graph with 1 to 15 vertices the brute-force search returns every perfect matching exactly once as a list of edges, and an empty list when there is none, whatever the labels and insertion order. Larger graphs give an empty list.",
     ["inputs"], "all graphs, labellings and insertion orders", "tests check a handful of graphs",
     [GRA], ["find_perfect_matchings_brute"], "explicit-state: every graph in the space against an independent recursive enumeration")
prop("C24", "Tree depth is the eccentricity of the first vertex; non-trees are refused",
     "For every tree, the depth equals the greatest number of edges between the first inserted vertex and another one, whatever the labels, weights, edge order and direction of insertion. Every non-tree graph is refused with ValueError.",
     ["inputs"], "all trees, roots and labellings; all non-trees", "tests use a path, a star and a cycle",
     [GRA], ["compute_tree_depth"], "explicit-state: all Pruefer sequences to 7 vertices x every root; all labelled non-trees to 5 vertices")
prop("C25", "Random planar graphs are valid and reproducible",
     "For every vertex count and seed the generator returns a simple connected planar graph on vertices 0..n-1 with at least n-1 and at most max(n-1, 2n-3) edges; only for more than 12 vertices may it give up and return None. For up to four vertices every such graph can occur. The same seed (0 included) gives the same graph whatever the state of the global generators.",
     ["inputs", "histories"], "all vertex counts, seeds and prior generator states", "tests try a few seeds and sizes and no seed 0",
     [GRA], ["generate_random_planar_graph"], "explicit-state: vertex count x seed x prior generator state, and every choice of the generator's first words")
prop("C26", "Stabilizer entropies are exact and Clifford invariant",
     "For every state given as vector, column, list or density matrix, the stabilizer distribution is <P>^2 / (2^n Tr rho^2) over the 4^n Pauli words in lexicographic order, a probability distribution; the stabilizer Renyi entropy of order a > 0 (default 2) is the Renyi entropy of that distribution minus n log 2. "
     "It vanishes on every pure stabilizer state and is unchanged by Clifford gates.",
     ["inputs"], "all states and orders; all Clifford circuits", "tests check a few product and Bell states",
     [DIS], ["stabilizer_distribution", "SRE"], "explicit-state: full stabilizer orbits on 1-3 qubits and orbits of magic states, Clifford gates as transitions")
prop("C27", "Covariance spectrum and anti-flatness are exact and braid invariant",
     "For every pure or mixed state (vector, column or density matrix), the covariance distribution holds the squares of the non-negative eigenvalues of the Majorana covariance matrix and the order-k fermionic anti-flatness (default k = 2) is n minus the sum of their k-th powers, i.e. n - sum lambda^(2k). "
     "It vanishes exactly on pure free-fermion states and is unchanged by free-fermion rotations.",
     ["inputs"], "all states, orders and Majorana braids", "tests check a few named states",
     [DIS, LIB], ["cov_distribution", "FAF", "compute_cov_matrix"], "explicit-state: braid-group orbits of seed states, dense pure and mixed states")
prop("C28", "Renyi and linear entropies equal their definitions on every input form",
     "For every distribution, given as array, list, column, diagonal density matrix, wavefunction or pure density matrix with those populations, the Renyi entropy of order a equals log(sum p^a)/(1-a) with the limits at a = 1 (Shannon) and a = infinity (min-entropy), and log of the support size at a = 0 for exact distributions; it never grows with a and is additive on products. "
     "The linear entropy is 1 - sum p^2 when the number of outcomes is a perfect square, and other sizes are refused.",
     ["inputs"], "all distributions, orders and input forms", "tests check uniform and pure distributions and a few orders",
     [DIS, UTI], ["renyi_entropy", "linear_entropy", "cast_to_pdf"], "explicit-state: all lattice distributions k/N x 9 orders x 8 input forms")
prop("C29", "Divergences between distributions equal their definitions",
     "For every pair of distributions of equal size in any mix of input forms, total variation, Bhattacharyya coefficient, relative entropy and Jensen-Shannon divergence equal their textbook formulas (natural logarithm; relative entropy infinite or very large when the second distribution misses support). "
     "All but relative entropy are symmetric, total variation obeys the triangle inequality, and rounding noise below zero in a density matrix changes nothing.",
     ["inputs"], "all pairs of distributions and input forms", "tests check a few pairs without zeros on one side only",
     [DIS, UTI], ["total_variation_distance", "bhattacharyya_coeff", "relative_entropy", "jensen_shannon_divergence", "cast_to_pdf"],
     "explicit-state: all ordered pairs of lattice distributions with rotating input forms")
prop("C30", "Trace distance is half the trace norm, a unitarily invariant metric",
     "For every pair of states (vectors, columns, lists or density matrices) the trace distance equals half the sum of singular values of the difference of the density matrices; for pure states it is sqrt(1 - |overlap|^2) and for diagonal states the total variation distance. It is symmetric, unitarily invariant and obeys the triangle inequality.",
     ["inputs"], "all pairs of states", "tests check identical, orthogonal and two diagonal states",
     [DIS, UTI], ["trace_distance", "cast_to_density_matrix"], "explicit-state: all pairs of a 54-point Bloch lattice, dense pairs to dimension 8")
prop("C31", "Casting accepts exactly valid states and never distorts them",
     "Unit-norm vectors (array, column, row or list; any global phase) are cast to the projector with populations |amplitude|^2, other vectors that sum to 1 with non-negative real entries, however close to a single outcome, to the diagonal density matrix, and valid density matrices are returned unchanged; populations are real and non-negative. "
     "Vectors of neither normalisation, non-square arrays, arrays with three or more axes all longer than one, and matrices with wrong trace, broken Hermiticity or an eigenvalue below -1e-12 are refused with AssertionError or ValueError.",
     ["inputs"], "all vectors and matrices, each single defect", "tests check a few valid inputs and one or two defects",
     [UTI], ["cast_to_density_matrix", "cast_to_pdf"], "explicit-state: all vectors over six values to length 4, every single defect introduced into valid matrices")
prop("C32", "Partial traces equal the index contraction for every factorisation",
     "For any matrix on a d1 x d2 product space, tracing out the first factor (given d2) and the second (given d1) returns the entrywise index contraction, for every dtype and memory layout, hence Tr(A) B and Tr(B) A on A (x) B. Dimensions that do not divide the system are refused with AssertionError or ValueError, and the argument is not modified. Imaginary parts that are all below 1e-8 may be dropped.",
     ["inputs"], "all dimension pairs and matrices (linear: all matrix units)", "tests use 2x2 product and Bell states where the two factors cannot be confused",
     [UTI], ["partial_trace_diagblocksum", "partial_trace_blockTr"], "explicit-state: every matrix unit of every factorisation up to dimension 12")
prop("C33", "The direct sum is block diagonal for every shape",
     "For any two matrices of any shapes (square or not), dtypes and layouts, the direct sum is [[a, 0], [0, b]] entry by entry (integers up to 2^53), and it is associative.",
     ["inputs"], "all shapes, dtypes and layouts", "tests use square matrices of a few sizes",
     [UTI], ["kron_plus"], "explicit-state: all shapes to 4x4 each x dtypes x layouts")
prop("C34", "Cleaning zeroes small values, rounds the rest, and is idempotent",
     "Cleaning with threshold t (default 1e-6; an integer d > 0 means 10^-d) replaces numbers of magnitude below t by exactly 0, rounds the others to the matching number of decimals (real and imaginary parts separately), and returns real numbers or arrays when all imaginary parts are below t; scalars, complex numbers, lists, nested lists, arrays and matrices are treated alike. "
     "Cleaning twice changes nothing, unsigned decimal strings are cleaned as numbers and other text is returned unchanged.",
     ["inputs"], "all magnitudes, thresholds and containers", "tests clean a few arrays at the default threshold",
     [UTI], ["clean"], "explicit-state: 19 magnitudes (and all complex pairs) x 10 thresholds x 7 containers; idempotence as a transition")
prop("C35", "Printing restores the global print options and formats exactly",
     "Printing an object with k digits writes its entries rounded to k decimals, drops imaginary parts that are all negligible, and leaves NumPy's print options exactly as they were, for every object, precision and prior options, even when writing to the output fails at any point. "
     "Formatted output shows a real number, or a complex number with non-negligible imaginary part, with exactly the requested decimals (default 6) and correct signs, and other objects as text.",
     ["inputs", "fault_sequences"], "all objects, precisions, prior option sets and every failing write", "tests only check that something is printed",
     [UTI], ["print_custom", "_print", "formatted_output"], "fault enumeration inside the state space: every (object, precision, prior options, failing write)")
prop("C36", "Random rotations, their generators and orbital matrices agree",
     "For every site count and seed, the drawn many-body rotation W is unitary, the generator drawn with the same seed is Hermitian with W = exp(-i generator), and the orbital matrix C drawn with the same seed is unitary, preserves the ladder anticommutators, is a special orthogonal rotation in the Majorana basis, and satisfies W^dagger a_j W = sum_i C_ji a_i for every ladder operator.",
     ["inputs"], "all site counts and seeds", "tests check unitarity and shapes for a few seeds, not that the three forms describe one rotation",
     [LIB], ["random_FF_rotation", "build_op"], "explicit-state: site count x (seed or chosen generator outputs), every ladder operator conjugated")
prop("C37", "Random generators have exactly the promised symmetry",
     "For every site count and seed the random generator matrix is Hermitian and particle-hole symmetric with generic complex entries (independent phases) and, for two or more sites, pairing; in number-conserving mode it has no pairing and its lifted operator commutes with the number operator.",
     ["inputs"], "all site counts, seeds and both modes", "tests check Hermiticity for a few seeds",
     [LIB], ["random_H_generator", "build_H"], "explicit-state: site count x (seed or chosen generator outputs) x mode")
prop("C38", "Every random free-fermion state is a valid Gaussian state of its kind",
     "For every generator of random free-fermion states, every site count, seed and option, the result is a normalised column vector or a valid density matrix; thermal and pure states satisfy Wick's theorem for all products of Majoranas, the rotated distribution has the returned probabilities as spectrum and conserves parity, the rotated vacuum has even parity and the rotated N-particle state parity (-1)^N (both parities occur when N is not given). "
     "A returned generator is Hermitian and produces the returned state (exp(-beta H)/Z for some beta > 0, or exp(-iH)|vacuum>), asking for it does not change the state, and with the number-conserving option the mixed state and its generator commute with the number operator, while the generic generator of two or more sites does not.",
     ["inputs"], "all generators, site counts, seeds, particle numbers and options", "tests check norm, trace and shape for a few seeds",
     [LIB, RND], ["random_FF_state", "random_FF_state_randH", "random_FF_state_rotPDF", "random_FF_pure_state_W0", "random_FF_pure_state_WN", "random_FF_pure_state_CN"],
     "explicit-state: generator x options x sites x (seed or chosen generator outputs), all 4^n Majorana monomials of each state")
prop("C39", "Random qubit states are valid and generic; stabilizer draws are passed on",
     "For every qubit count and seed the random pure state is a normalised column vector with no vanishing amplitude and the random mixed state a valid density matrix, not pure, with non-degenerate spectrum and coherences. The random Clifford state is exactly the state vector drawn by the external sampler, as a column vector.",
     ["inputs"], "all qubit counts and seeds, all sampler outcomes", "tests check norms for a few seeds and skip the Clifford sampler when it is absent",
     [RND], ["random_qubit_state", "random_qubit_pure_state", "random_CHP_state"], "explicit-state: qubits x (seed or chosen generator outputs); every stabilizer state as outcome of a stand-in sampler")
prop("C40", "Random bit strings have exactly the requested weight and reach every string",
     "For all lengths n and weights 0 <= k <= n the generator returns an array of n zeros and ones with exactly k ones, every such string can occur, and any other k gives None.",
     ["inputs"], "all lengths, weights and generator states", "tests try a few lengths",
     [UTI], ["generate_random_bitstring"], "explicit-state: length x weight x generator state, every choice of the generator's first words; reachability of every string to length 5")
prop("C41", "A seed fixes the result in every history; without one draws are fresh",
     "For every seeded random generator and every valid seed (0 and 2^32-1 included), the result depends only on the arguments: any earlier calls, seeded or not, and any prior state of the global generators leave it unchanged, and different seeds give different results. "
     "Without a seed, consecutive draws differ and follow the global generator, so re-seeding it reproduces the sequence.",
     ["inputs", "histories"], "all generators, seeds and call histories", "tests repeat a call with one seed right after itself",
     [LIB, RND, GRA, UTI], ["np.random.seed handling in every generator", "generate_random_planar_graph"],
     "history exploration: every generator x seed after every other call (pairs in the thorough tier)")
prop("C42", "Paths between states are the great circle and the normalised chord",
     "For all non-zero vectors w and v (row-less or column, real, integer or complex, list or array) of equal length, the unitary path is a column vector of unit norm that starts at w/|w|, ends at v/|v|, moves at constant speed and follows the great circle sin((1-t)a) w + sin(ta) v over sin a, with a the angle between the vectors as real vectors. "
     "The linear path is the normalised straight line between the normalised vectors wherever that is defined.",
     ["inputs"], "all vector pairs and parameters", "tests check the endpoints of a few paths",
     [RND], ["build_unitary_path", "build_linear_path"], "explicit-state: all pairs of vectors over a value grid x parameter steps, near-parallel and antipodal families")
prop("C43", "Completing a vector to a basis gives an orthonormal basis that starts with it",
     "For every non-zero vector of length at least 2 (1-d, column or list; real, integer or complex) the result is a square matrix with orthonormal columns whose first column is the normalised vector. A zero vector (norm below 1e-8) gives the standard basis and a vector of length 1 an empty array. The argument is not modified.",
     ["inputs"], "all vectors", "tests try a few real vectors",
     [RND], ["get_orthogonal_vectors"], "explicit-state: all vectors over 7 values to dimension 4")
prop("C44", "Invalid sizes and particle numbers are refused with the documented error",
     "The Pauli-group listing and every random qubit, Clifford and free-fermion state generator that documents it refuse a size that is not an integer with TypeError and a non-positive size with ValueError. The fixed-number generator refuses with ValueError every particle number that is not an integer in 0..n. A refused call leaves the random generators untouched, whether or not it was given a seed.",
     ["inputs"], "all invalid arguments of every such function", "tests try one or two invalid arguments of some functions",
     [LIB, RND], ["input validation at the top of each generator"], "explicit-state: function x wrong type x wrong value")
prop("C45", "No call changes its arguments or what any later call returns",
     "Every deterministic function of the package returns the same result for the same arguments in every call history - after any other call, valid, refused or verbose, even when earlier results and arguments have been overwritten or a buffer is reused with new contents - and seeded generators likewise. "
     "No call modifies its arguments (except the face-completion helper, whose purpose it is), and deterministic calls leave the random generators, print and error settings, working directory and standard output untouched.",
     ["histories", "inputs"], "all call histories over the public API", "tests call each function in isolation",
     [LIB, COM, GRA, DIS, RND, UTI], ["absence of module-level state and in-place updates in every public function"],
     "history exploration: every ordered pair of 202 representative calls, with results and arguments overwritten in between")
prop("C46", "Plotting helpers draw and return exactly the data they were given",
     "For every square weight matrix with zero diagonal, or graph, the weighted-graph plot returns a graph on vertices 0..n-1 that is undirected exactly when the matrix is symmetric and has exactly the non-zero entries as edges, with weights rounded to 4 decimals, leaving the input unchanged. "
     "The drawing shows every vertex label and edge weight, and highlights in red exactly the edges of the matching it was given. "
     "The embedding plot draws exactly the edges with a non-zero orientation, as arrows from the smaller to the larger vertex when the entry above the diagonal is negative and the other way when positive. "
     "The population plot draws the diagonal in index order and the eigenvalues of the state in decreasing order on a logarithmic axis, as stems or lines.",
     ["inputs"], "all weight matrices, graphs and states", "tests mock the plotting calls",
     [GRA, UTI], ["plot_graph_with_edge_weights", "plot_planar_embedding", "analyze_pdf"], "explicit-state: all 3-vertex and symmetric 4-vertex matrices over small value sets")

prop("C47", "Normal modes carry the same algebra, Hamiltonian and Gibbs state",
     "Rotating the ladder operators by the mode matrix of either symplectic eigensolver gives operators with the same anticommutation relations in which the returned diagonal form is the same many-body Hamiltonian, a sum of independent modes; likewise the Majorana operators with the orthogonal matrix of either Majorana solver. "
     "The Gibbs state built in the normal modes is the one built in the original modes, and its modes are uncorrelated with the Fermi occupation of their energy.",
     ["inputs"], "all quadratic Hamiltonians, degenerate and gapless ones included", "tests check each step on one generic Hamiltonian, never the composition",
     [LIB], ["eigh_sp, eigv_sp, eigm_sp, eigm_sp_can", "rotate_operators", "build_op", "generate_gaussian_state"],
     "explicit-state: coefficient lattices; every rotated operator, Hamiltonian and state compared")
prop("C48", "Reduced systems have the restricted correlations at every cut",
     "For any matrix on n sites and every cut of the chain, the correlation, covariance and occupation matrices of the partial trace are exactly the blocks of the full ones that belong to the kept sites; tracing in two steps equals tracing at once. The reduced state of a Gaussian state is the Gaussian state of the restricted correlations.",
     ["inputs"], "all matrices, sizes and cuts", "tests compare no partial trace with a correlation matrix",
     [LIB, UTI], ["partial_trace_over_1, partial_trace_over_2", "correlation_matrix, compute_cov_matrix, compute_2corr_matrix", "generate_gaussian_state"],
     "explicit-state: every matrix unit to 4 sites, every cut (linear: decides all matrices)")
prop("C49", "Independent subsystems factorise",
     "For two sets of sites that do not interact: the joint Hamiltonian is the sum of its parts, the joint Gaussian state their product, the Pauli distribution of a product state the product, stabilizer Renyi entropy (of parts that are not completely mixed), Renyi entropies, relative entropy and, for states of definite parity, anti-flatness are additive, the correlation matrix is block diagonal, the Bhattacharyya coefficient is multiplicative, and "
     "trace distance, total variation and Jensen-Shannon divergence are unchanged by an independent system.",
     ["inputs"], "all pairs of Hamiltonians and states", "tests never compare a joint system with its parts",
     [LIB, DIS, UTI], ["kron_plus", "build_H, build_op, generate_gaussian_state", "stabilizer_distribution, SRE, FAF", "distance measures"],
     "explicit-state: all pairs of a family of Hamiltonians and states over six splits")
prop("C50", "Pfaffian, Hafnian, determinant and permanent obey their identities",
     "Direct sums multiply each of the four functions; determinant and permanent are unchanged by transposition and obey row expansion; the determinant is multiplicative, equals its eigenvalue form and changes by the sign of a row permutation; the Pfaffian squares to the determinant, changes sign (-1)^k on transposing a 2k matrix and by det Q under congruence; "
     "the Hafnian is invariant under relabelling; on bipartite matrices the Pfaffian is the signed determinant and the Hafnian the permanent of the block; a permutation matrix has the sign of its permutation as determinant and 1 as permanent.",
     ["inputs"], "all matrices", "tests check single values, never the identities",
     [COM, UTI], ["pf, hf, dt, dt_eigen, pt", "sgn, permutation_to_matrix", "kron_plus"],
     "explicit-state: all pairs of 2x2 matrices over -1,0,1, all 3x3 0/1 matrices, all permutations")
prop("C51", "Matching counts obey the edge recursion",
     "For every graph with non-negative weights, planar or of at most 15 vertices, and every edge e = uv of weight w, the weighted number of perfect matchings equals that of the graph without e plus w times that of the graph without u and v; it is the Hafnian of the weighted adjacency matrix and the total weight of the listed matchings; a separate edge leaves it unchanged and an isolated vertex makes it 0. With weights of either sign the count has the magnitude of the signed total.",
     ["inputs"], "all graphs, weights and edges", "tests count a few named graphs",
     [GRA, COM], ["count_perfect_matchings", "count_perfect_matchings_planar, pfo_algorithm", "find_perfect_matchings_brute", "hf"],
     "explicit-state: all graphs to 6 vertices, each edge deletion a transition; families to 36 vertices")
prop("C52", "The distance measures agree with each other",
     "For all states: 0 <= TV, BC, trace distance <= 1; 1 - BC <= TV <= sqrt(1 - BC^2); KL >= 2 TV^2; TV^2/2 <= JS <= TV log 2; KL >= -2 log BC; JS is the entropy gap of the average; relabelling the outcomes changes nothing; the entropy is log d minus the relative entropy to the uniform distribution; TV of the populations is the trace distance of the dephased states and at most the trace distance, which no partial trace increases, "
     "which averaging with the other state halves, and which free-fermion rotations leave unchanged (as they do anti-flatness).",
     ["inputs"], "all pairs of states", "tests check single values per measure",
     [DIS, UTI, LIB], ["every measure of ff_distance_measures", "cast_to_pdf", "partial traces"],
     "explicit-state: all ordered pairs of lattice distributions and of a family of two-qubit states")
prop("C53", "Planar matching counts stay exact at scale",
     "For every planar graph with non-negative weights of comparable size, up to hundreds of vertices (grids, cylinders, Aztec diamonds, bands, towers, hexagonal and triangular lattices, wheels, chains, unions, with edges or vertices removed), in any vertex order and under any names, the count equals the weighted number of perfect matchings to a relative error of 1e-5 (and ten decimals), and is exactly 0 when there is no perfect matching (odd order, unbalanced, or an isolated vertex). Weights are within a factor of 1000 of each other, of 10 beyond 120 vertices.",
     ["inputs"], "all planar weighted graphs, of any size", "tests count graphs of at most a dozen vertices, where a listing of the matchings is affordable",
     [GRA], ["count_perfect_matchings", "count_perfect_matchings_planar", "pfo_algorithm"],
     "explicit-state: every reachable state of an exact sweep over each graph, against the package's count")

NA = [("C90", "Random samplers follow the advertised distributions",
       "The random rotations and pure states are Haar distributed, bit strings are uniform among those of their weight, and thermal parameters follow their stated distributions.",
       "a statement about probability measures: exhaustive exploration of executions decides which outcomes are possible (C36-C41 do), not their frequencies; a statistical test would be sampling")]
NOTE = ("Exhaustive enumeration of the stated bounded space on the real code, in fresh forked processes, against an "
        "independent reference model (mc/ref.py). Nothing beyond the bounds is covered; trusts NumPy, SciPy, "
        "NetworkX and the reference model.")


def main():
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for pid, p in P.items():
            f.write(json.dumps(dict(
                id=pid, title=p["title"], statement=p["statement"],
                quantifier=dict(over=p["over"], text=p["text"]), why_tests_cant=p["why"],
                anchors=dict(files=p["files"],
                             mechanism=[dict(name=m, where=p["files"][0] if len(p["files"]) == 1 else ", ".join(p["files"]))
                                        for m in p["mech"]],
                             observe_at=["return values and raised errors of the public functions of package ff"],
                             hook_needed=None))) + "\n")
        for pid, title, st, why in NA:
            f.write(json.dumps(dict(
                id=pid, title=title, statement=st, quantifier=dict(over=["inputs"], text="all draws"),
                why_tests_cant="a distribution is not settled by any number of draws",
                anchors=dict(files=[LIB, RND, UTI], mechanism=[dict(name="SciPy/NumPy samplers", where=LIB)]))) + "\n")
    man = dict(
        version=1,
        setup_cmd="/opt/venv/bin/python -B -c \"import sys; sys.path.insert(0, '/repo/src'); import ff, numpy, scipy, networkx\"",
        checks=[dict(
            property=pid,
            quick_cmd="/opt/venv/bin/python -B run.py %s" % pid,
            thorough_cmd="/opt/venv/bin/python -B run.py %s --tier thorough" % pid,
            technique="bounded exhaustive model checking of the implementation; " + p["how"],
            level="model_checking", level_note=NOTE) for pid, p in P.items()],
        not_applicable=[dict(property=pid, reason=why) for pid, _, _, why in NA],
        notes="No hooks: the checks import /repo/src directly. See DESIGN.md.")
    with open(os.path.join(ROOT, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


main()
