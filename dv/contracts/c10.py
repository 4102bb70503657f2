from prove import *
from c02 import reduced
from c01 import symmat
LB = "thewalrus.loop_hafnian_batch."; LG = "thewalrus.loop_hafnian_batch_gamma."
def mk(reps, cut, glynn):
    n = len(reps) + 1
    @proof("C10", "loop_hafnian_batch, fixed %s, cutoff %d%s" % (list(reps), cut, "" if glynn else ", inclexcl"), LB + "loop_hafnian_batch", LB + "_calc_loop_hafnian_batch_even", LB + "_calc_loop_hafnian_batch_odd", LB + "add_batch_edges_even", LB + "add_batch_edges_odd", bound="fixed %s, cutoff %d, all entries" % (list(reps), cut))
    def h(p):
        p.exact_close(); A = symmat(p, n); D = p.arr("D", (n,), "complex")
        r = p.call(LB + "loop_hafnian_batch", A, D, list(reps), cut, glynn)
        p.eq_arr("entry k is the loop hafnian with k photons in the last mode", r, (cut + 1,), lambda k: reduced(A, D, tuple(reps) + (k,), True)); p.frame()
    if glynn or sum(reps) <= 1:
        @proof("C10", "loop_hafnian_batch_gamma, fixed %s, cutoff %d%s" % (list(reps), cut, "" if glynn else ", inclexcl"), LG + "loop_hafnian_batch_gamma", LG + "_calc_loop_hafnian_batch_gamma_even", LG + "_calc_loop_hafnian_batch_gamma_odd", bound="fixed %s, cutoff %d, 2 rows, all entries" % (list(reps), cut))
        def g(p):
            p.exact_close(); A = symmat(p, n); D = p.arr("D", (2, n), "complex")
            r = p.call(LG + "loop_hafnian_batch_gamma", A, D, list(reps), cut, glynn)
            rows = [Arr((n,), lambda q, a=a: D.get(a, q[0]), "complex") for a in range(2)]
            p.eq_arr("entry (row, k) is the loop hafnian with the displacements of the row", r, (2, cut + 1), lambda a, k: reduced(A, rows[a], tuple(reps) + (k,), True)); p.frame()
for reps, cut in (((), 3), ((0,), 2), ((1,), 0), ((1,), 1), ((1,), 3), ((2,), 2), ((2,), 3), ((3,), 2), ((1, 1), 2), ((1, 1), 1), ((2, 1), 1), ((2, 1), 2), ((0, 1), 2), ((1, 0, 1), 2), ((1, 1, 1), 1)):
    for g in (True, False): mk(reps, cut, g)
