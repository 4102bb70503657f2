"""dv proof runner: proofs are functions of a builder P; the builder makes the symbolic parameters of a function of
/repo, runs its body from the current source, and states obligations about the result and the heap."""
import time, traceback, sys, os
from core import *
import core
from arr import *
import arr
import interp as ip
from interp import *
import npmodel
import loops

PROOFS = []      # (property, name, functions, thunk)
THOROUGH = os.environ.get("VERIF_TIER", "quick") == "thorough"
def proof(prop, name, *fns, bound=None, thorough=False):
    """register a proof; thorough: only part of the thorough tier (long)"""
    def d(f):
        if THOROUGH or not thorough: PROOFS.append((prop if isinstance(prop, tuple) else (prop,), name, fns, f, bound))
        return f
    return d
FRAME = False        # property C22: every proof also states the frame condition of the parameters
FRAMENAME = "caller's arrays unchanged"
class Skip(Exception): pass
class P:
    def __init__(self, c): self.c = c; self.obs = []; self.params = []; self.lists = []; self.results = []
    # ---- parameters
    def int(self, name, lo=None, hi=None):
        v = ivar(name)
        if lo is not None: self.assume(ble(lo, v))
        if hi is not None: self.assume(ble(v, hi))
        return v
    def assume(self, *bs): self.c.assume(*bs)
    def real(self, name): return sym(name)
    def pos(self, name): return sym(name, pos=True)
    def cplx(self, name): return sym(name, real=False)
    def arr(self, name, shape, kind="complex", symm=False, fn=None):
        if symm: SYMNAMES.add(name)
        a = Arr(shape, (lambda ix: fn(*ix)) if fn else (lambda ix: el(name, ix, kind == "real")), kind, origin="param")
        self.params.append((name, a)); return a
    def block2(self, name, n, A, Bm, C, D, kind="real"):
        """2n x 2n array given by its blocks (element functions)"""
        def f(i, j):
            t, u = decide(blt(i, n)), decide(blt(j, n))
            return (A if u else Bm)(i, j if u else j - n) if t else (C if u else D)(i - n, j if u else j - n)
        return self.arr(name, (2 * n, 2 * n), kind, fn=f)
    def halves(self, name, n, A, Bm, kind="real"):
        return self.arr(name, (2 * n,), kind, fn=lambda i: A(i) if decide(blt(i, n)) else Bm(i - n))
    def mat(self, name, real=True, symm=False):
        if symm: SYMNAMES.add(name)
        return lambda i, j: el(name, (i, j), real)
    def vec(self, name, real=True): return lambda i: el(name, (i,), real)
    def seq(self, name, n, ub=None, inj=True, typ=list): return IntSeq(name, n, ub, inj, typ)
    # ---- execution
    def call(self, qual, *args, **kw):
        f = repo_func(qual)
        for a in list(args) + list(kw.values()):
            if isinstance(a, list): self.lists.append((qual, a, list(a)))
        # the body of the function under proof, contracts for its callees
        r = Interp.call(f, list(args), kw, inline=True); self.results.append(r); return r
    def inline(self, *quals):
        """verify the bodies of these callees instead of using their contracts"""
        self.c.no_contract |= set(quals)
    def exact_close(self, generic=False):
        """tolerance comparisons are decided as exact comparisons: quantities that are not identical are not within tolerance; numbers that vanish
        together under linear equations between the inputs are also looked at in that case, unless generic is set (the case has its own proof)"""
        self.c.exact_close = "generic" if generic else True
    def tol(self):
        """tolerance comparisons are the inequalities |a - b| <= atol + rtol |b| between the entries (arrays of known size)"""
        self.c.tol = True
    def fills(self, name, match, *options):
        """invariant of arrays the function creates: every cell written holds value(*idx), which relation(idx, v) characterises, for one of
        the options (value, relation) (see induct.py)"""
        self.c.fills.append(dict(name=name, match=match, options=options))
    def use(self, qual, *args, **kw): return Interp.call(repo_func(qual), list(args), kw)
    # ---- obligations
    def ensures(self, name, cond, detail=""):
        if callable(cond): cond = cond()
        if isinstance(cond, B): cond = self.c.entails(cond)
        self.obs.append((name, bool(cond), detail))
    def eq_arr(self, name, res, shape, fn, pre=None):
        if isinstance(res, (list, tuple, SymList)): res = to_arr(res)
        if not isinstance(res, Arr): self.obs.append((name, False, "result is %s" % type(res).__name__)); return
        spec = Arr(shape, lambda ix: fn(*ix), "complex")
        ok = arr_equal(res, spec); det_ = ""
        if not ok: det_ = self.diff(res, spec)
        self.obs.append((name, ok, det_))
    def eq_num(self, name, res, val):
        if isinstance(res, Arr) and res.ndim == 0: res = res.get()
        if not (isinstance(res, S) or isint(res)): self.obs.append((name, False, "result is %s" % type(res).__name__)); return
        d = toS(num(res)) - toS(num(val)); ok = is_zero(d)
        self.obs.append((name, ok, "" if ok else "difference: " + show(d)[:600]))
    def eq_int(self, name, a, b): self.obs.append((name, self.c.entails(beq(a, b)), "%r vs %r" % (a, b)))
    def diff(self, x, y):
        c = self.c
        if len(x.shape) != len(y.shape): return "rank %d vs %d" % (len(x.shape), len(y.shape))
        for p, q in zip(x.shape, y.shape):
            if not (p == q or c.entails(beq(p, q))): return "shape %r vs %r" % (x.shape, y.shape)
        names = [c.fresh("e") for _ in x.shape]; ix = [ivar(n) for n in names]
        facts = [z for q, d in zip(ix, x.shape) for z in (ble(0, q), blt(q, d))]
        try:
            for lits, r in c.explore(lambda: toS(num(x.get(*ix))) - toS(num(y.get(*ix))), "prove", names, facts):
                pass
            def f():
                d = toS(num(x.get(*ix))) - toS(num(y.get(*ix)))
                return None if is_zero(d) else "element %s when %s: result - specification = %s" % (ix, [l for l in c.frames[-1].lits], show(d)[:500])
            for lits, r in c.explore(f, "prove", names, facts):
                if r: return r
        except (SymRaise, Unsupported) as e: return str(e)
        return "?"
    def frame(self, name=FRAMENAME):
        bad = [n for n, a in self.params if a.root.writes] + ["list argument of " + q for q, a, b in self.lists if len(a) != len(b) or any(x is not y for x, y in zip(a, b))] + persistent_changed()
        out = [w for r in self.results for w in handed_out(r)]
        self.obs.append((name, not bad and not out, "writes to " + ", ".join(bad) if bad else "the result is storage of " + ", ".join(out) if out else ""))
    def fresh_result(self, name, *res):
        """the result shares no storage with a parameter"""
        bad = [n for n, a in self.params for r in res if isinstance(r, Arr) and r.root is a.root]
        self.obs.append((name, not bad, "result aliases " + ", ".join(bad) if bad else ""))
    def raises(self, name, qual, *args, kinds=("ValueError", "TypeError", "IndexError"), **kw):
        try: r = self.call(qual, *args, **kw)
        except SymRaise as e:
            self.obs.append((name, e.kind in kinds, "raised " + e.kind)); return
        self.obs.append((name, False, "returned a value"))
def run_proof(pr, limit=120):
    props, name, fns, thunk, bound = pr
    c = Ctx(); c.limit = time.time() + limit; t0 = time.time(); c.hints = []; c.exact_close = False; c.tol = False; c.fills = []; c.fillmap = {}; c.discover = 0; c.disc = []; c.call_obs = []; c.no_contract = set()
    SYMNAMES.clear(); Interp.depth = 0; core._cc.clear()
    sat = []; out = {}; status = None; detail = ""; npaths = 0
    def one():
        p = P(c); c.fills, c.fillmap, c.disc = [], {}, []; c.memo = {}; PERSISTENT[:] = [x for x in PERSISTENT if not x[0].startswith("cached")]
        try: thunk(p)
        except SymRaise as e:
            p.obs.append(("no exception on valid input", False, "%s: %s" % (e.kind, e.msg)))
        p.obs.extend(c.call_obs); c.call_obs = []
        if FRAME and not any(o[0] == FRAMENAME for o in p.obs): p.frame()
        sat.append(any(sat) or c.check([], 2000) is True)
        return p.obs
    try:
        leaves = c.explore(one, "prove")
        npaths = len(leaves)
        for lits, obs in leaves:
            for n, ok, d in obs:
                st = out.setdefault(n, [True, "", 0]); st[2] += 1
                if not ok and st[0]: st[0] = False; st[1] = "on the path %s: %s" % ([repr(x) for x in lits][:8], d)
    except Unsupported as e: status = "unsupported"; detail = str(e)
    except RecursionError: status = "unsupported"; detail = "recursion"
    except Exception as e:
        status = "unsupported"; detail = "engine: " + "".join(traceback.format_exception(e)[-3:])[-700:]
    obs = []
    if not status and not any(c_sat for c_sat in sat):
        status = "failed"; detail = "vacuous: no path of the proof is shown satisfiable"
    if status: obs.append(dict(name=name, status=status, detail=detail))
    else:
        if not out: obs.append(dict(name=name, status="failed", detail="no obligation was generated"))
        for n, (ok, d, k) in out.items():
            obs.append(dict(name="%s: %s" % (name, n), status="discharged" if ok else "failed", detail=d))
    for o in obs: o.update(function=", ".join(fns), bound=bound)
    return obs, dict(paths=npaths, seconds=time.time() - t0, solver_s=c.solver_s, queries=c.queries, inlined=sorted(c.inlined), contracts=sorted(c.used_contracts))
