"""levels.json: how each property is decided (read by mkmanifest.py)"""
import json, os
H = os.path.dirname(os.path.abspath(__file__))
T = "contract-based deductive verification (dv: symbolic execution of /repo's current source against contracts, normal form + z3)"
N = "Trusted: dv (interpreter, normal form, loop rules), z3, contracts assumed of numpy/scipy (dv/npmodel.py), numba = Python semantics, exact arithmetic instead of floating point. "
B = "Bounded stage next to it: the same contracts evaluated on the compiled functions for the inputs of lib/cases/%s.py, never counted as proved. "
S = {  # property: (level, scope of the obligations)
 "C01": ("other", "Obligations hold for all entries (real and complex) at each stated matrix size; sizes are bounded (no induction over the size)."),
 "C02": ("other", "The hafnian of repeated modes: all entries at each stated repetition vector (bounded); the reduction (expansion) itself, matched_reps, find_kept_edges and the binomial tables for all repetitions at the stated numbers of modes."),
 "C03": ("other", "Obligations hold for all values at each stated size and zero pattern; low-rank hafnians at the stated factor shapes."),
 "C04": ("other", "Every cutoff vector at one to four modes (inductive array invariants over the filled tensor), all R, y, C; interferometers at one and two modes; flattening and options at the stated cutoff vectors."),
 "C05": ("other", "Obligations hold for all entries at each stated size or repetition vector; sizes are bounded."),
 "C06": ("other", "Obligations hold for all matrices at one to three modes; quad_cholesky for every size; rejections for every size."),
 "C07": ("other", "Obligations hold for all entries at one to three modes; rejections for every size."),
 "C08": ("other", "Obligations hold for all entries at each stated size; reduction to Hessenberg form is covered step by step."),
 "C09": ("other", "Obligations hold for all matrices at each stated pattern."),
 "C10": ("other", "Obligations hold for all entries at each stated pattern and cutoff."),
 "C11": ("proof", "Obligations hold for every mode count, parameter and hbar."),
 "C12": ("proof", "Obligations hold for every mode count, covariance, mean and hbar."),
 "C13": ("proof", "Obligations hold for every mode count, state and list of distinct modes."),
 "C14": ("other", "Photon-number means, covariances and click means hold for every mode count; the other moments for all states at the stated mode counts and orders."),
 "C15": ("other", "Obligations hold for all states (the state enters through its A, Q and B matrices, verified under C12), all gate parameters and all hbar, at one to three modes: single amplitudes and elements for any photon numbers, state vectors, density matrices, probabilities, post-selected states and Fock tensors at every cutoff."),
 "C16": ("other", "Loss, dark counts and their truncated convolutions hold for every cutoff and noise length at the stated mode counts (1 to 5), for all distributions."),
 "C17": ("other", "Obligations hold for all states, cutoffs and hbar at the stated mode counts and orders."),
 "C18": ("other", "Obligations hold for all real parameters at every cutoff (inductive array invariants), and again cell by cell at small cutoffs; the gradient of the Hermite tensor at every cutoff for one and two modes (three: thorough tier)."),
 "C19": ("other", "All matrices of the stated size and sign, order or degeneracy pattern (sizes 1 to 3); symplectic_eigenvals and the rejections for every size. Each external factorisation (sqrtm, schur, eigh, svd, polar, qr, eigvals) is an assumed contract whose factors are generic; that every symplectic matrix has the pre-Iwasawa and polar form the inputs are written in is trusted mathematics."),
 "C20": ("other", "The classical samplers and the mean/covariance of the fan-out hold for every size; the chain-rule samplers, pools and graph samplers for all states and all draws at the stated mode counts and cutoffs (each conditional law handed to the random source is compared with the one of Bulmer et al., whose sampling theorem is trusted; loop hafnians and A matrices by the contracts of C01 and C12); the rank-one and thermal graph samplers at the stated sizes."),
 "C21": ("other", "Predicates hold for every mode count; measures for all states at one to three modes, the fidelity of pure states for every size."),
 "C22": ("other", "Frame condition of every function under contract, on every path of every proof: unbounded where the proof is. Kernels specified as in-place are excepted."),
 "C23": ("other", "Rejections hold at every size and every position of the offending entry, except those with a stated occupation pattern."),
 "C24": ("other", "Means, covariances and pure-state distributions hold for every size; the rest for all values at the stated shapes."),
 "C25": ("other", "Adjacency conversions hold for every size; the function, derivative, bracket and use of the scaling search and the random generators for all inputs and draws at the stated sizes."),
}
S.update(json.load(open(os.path.join(H, "scopes.json"))) if os.path.exists(os.path.join(H, "scopes.json")) else {})
out = {}
for k in range(1, 26):
    i = "C%02d" % k
    if i in S: out[i] = dict(technique=T, level=S[i][0], note=S[i][1] + " " + B % i + N)
    else: out[i] = dict(technique="contracts on the real functions evaluated at run time (bounded stand-in for the deductive check)", level="exploration", note="Contracts of the public functions evaluated on the real compiled code for the inputs of lib/cases/%s.py; bounded, nothing proved for all inputs." % i)
json.dump(out, open(os.path.join(H, "levels.json"), "w"), indent=1)
