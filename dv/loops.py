"""dv loops of symbolic length. The iteration is run once at a generic index k; from that run the loop's effect is
classified and the classification itself is proved: array cells written by different iterations are disjoint and no
iteration reads a cell another one writes (independent iterations), scalars are changed by adding a term that does not
depend on the running value, or by multiplying with a factor that does not (sums and products), lists grow by one
element per iteration. The state after the loop is then exact for every number of iterations. Anything else is
left to a contract of the enclosing function, or is unsupported."""
import ast
from core import *
import core
from arr import *
import arr
import interp as ip
from interp import *

def names_stored(body):
    out = set()
    for s in body:
        for n in ast.walk(s):
            if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store): out.add(n.id)
            elif isinstance(n, ast.FunctionDef): out.add(n.name)
            elif isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and n.func.attr in ("append",) and isinstance(n.func.value, ast.Name): out.add(n.func.value.id)
    return out
def roots_of(v, acc, seen):
    if id(v) in seen: return
    seen.add(id(v))
    if isinstance(v, Arr): acc[v.root.id] = v.root
    elif isinstance(v, (list, tuple)):
        for x in v: roots_of(x, acc, seen)
    elif isinstance(v, dict):
        for x in list(v.values()): roots_of(x, acc, seen)
    elif isinstance(v, Func) and v.closure is not None: roots_of(v.closure, acc, seen)
def copy_env(env):
    return {k: (list(v) if isinstance(v, list) else dict(v) if isinstance(v, dict) else v) for k, v in env.items()}
class RecList(list):
    """a list being appended to inside a symbolic loop: remembers only the new elements"""
class LoopState:
    """everything needed to re-run one iteration from the state before the loop"""
    def __init__(self, I_, s, it, env, n):
        self.I, self.s, self.it, self.n = I_, s, it, n
        self.env = copy_env(env)
        acc = {}; roots_of(env, acc, set())
        if I_.fn is not None and I_.fn.closure is not None: roots_of(I_.fn.closure, acc, set())
        self.roots = acc; self.gets = {i: r.get for i, r in acc.items()}; self.writes = {}; self.nm = None; self.accum = set()
    def guarded(self, i, k):
        """contents before the loop, readable only where no other iteration writes"""
        base, lst, nm, n = self.gets[i], self.writes[i], self.nm, self.n
        def get(r):
            c = ctx(); nm2 = c.fresh("k"); k2 = ivar(nm2)
            for lits, w in lst:
                conds = [ble(0, k2), blt(k2, n), bnot(beq(k, k2))] + [substB(x, {nm: k2}) for x in lits if nm in bvars(x)]
                for s, x in zip(w.sel, r):
                    if s[0] == "pt": conds.append(beq(substI(toI(s[1]), {nm: k2}), x))
                    elif s[0] == "rng" and s[3] == 1:
                        lo, ln = substI(toI(s[1]), {nm: k2}), substI(toI(s[2]), {nm: k2}); conds += [ble(lo, x), blt(x, lo + ln)]
                conds = [q for q in conds if q is not True]
                if any(q is False for q in conds): continue
                if c.check(conds) is not False: raise Unsupported("an iteration reads a cell that another iteration writes")
            return base(r)
        return get
    def run(self, k, place, then):
        """execute the body for iteration k from the pre-loop state and return then(env, writes)"""
        cur = {i: r.get for i, r in self.roots.items()}; wr = {i: r.writes for i, r in self.roots.items()}
        logs = {i: r.log for i, r in self.roots.items()}
        for i, r in self.roots.items():
            r.get = acc_cell(r) if i in self.accum else self.gets[i] if i not in self.writes else self.guarded(i, k); r.log = []
        try:
            env = copy_env(self.env)
            for nm, v in place.items(): env[nm] = v() if callable(v) else v
            self.I.assign(self.s.target, seqget(self.it, k), env)
            try: self.I.block(self.s.body, env)
            except Cont: pass
            except Brk: raise Unsupported("break in a loop of symbolic length")
            except Ret: raise Unsupported("return in a loop of symbolic length")
            return then(env, {i: r.log for i, r in self.roots.items() if r.log})
        finally:
            for i, r in self.roots.items(): r.get = cur[i]; r.log = logs[i]; r.writes = wr[i]
def acc_sym(nm): return satom(("sym", "ACC:" + nm, False, False))
def acc_cell(root):
    """the running contents of an array that is added to"""
    return lambda r: el("ACC:cell%d" % root.id, r, root.kind == "real")
def added_to(root, lst, nm):
    """every iteration writes the same cells of the array, once"""
    if root.kind not in ("real", "complex") or any(isinstance(w, LoopWrite) for _, w in lst) or len({id(l) for l, _ in lst}) < len(lst): return False
    if any(s[0] == "seq" or s[0] == "rng" and s[3] != 1 for _, w in lst for s in w.sel): return False
    key = {repr([(s[0], toI(s[1])) if s[0] == "pt" else (s[0], toI(s[1]), toI(s[2])) for s in w.sel]) for _, w in lst}
    return len(key) == 1 and not any(nm in vars_of(toI(e)) for s in lst[0][1].sel for e in s[1:(2 if s[0] == "pt" else 3)])
def has_acc(s, nm): 
    return any(a[0] == "sym" and a[1] == "ACC:" + nm or (a[0] not in ("sym", "i") and ("ACC:" + nm) in repr(a)) for m in s.t for a, _ in m[2])
def last_value(e, x):
    if x not in e: raise Unsupported("%s may have no value after the loop" % x)
    return e[x]
def unreadable(why):
    def f(): raise Unsupported(why)
    return Unreadable(f)
def symbolic_for(I_, s, it, env):
    c = ctx()
    if s.orelse: raise Unsupported("for/else of symbolic length")
    if isinstance(it, NdIdx):
        import induct
        st = LoopState(I_, s, it, env, None)
        if it.skip == 2 or not all(decide(ble(1, d)) for d in it.dims): return
        if not (c.fills and induct.fill_for(st, s, it, env, None, I_, names_stored([s]), set())): raise Unsupported("iteration over a symbolic index set")
        it.skip = 2; return
    n = seqlen(it)
    if decide(ble(n, 0)): return
    st = LoopState(I_, s, it, env, n)
    stored = names_stored(s.body) | names_stored([ast.Assign(targets=[s.target], value=ast.Constant(0))])
    tnames = {x.id for x in ast.walk(s.target) if isinstance(x, ast.Name)}
    if c.fills:
        import induct
        if induct.fill_for(st, s, it, env, n, I_, stored, tnames): return
    accs = [x for x in stored if x in env and x not in tnames]
    place = {}; kinds = {}
    for x in accs:
        v = env[x]
        if isinstance(v, Lazy) and not isinstance(v, Unreadable):
            try: v = v.fn()
            except Unsupported as e: v = unreadable(str(e))
            env[x] = st.env[x] = v
        if isinstance(v, list): place[x] = RecList; kinds[x] = "list"
        elif isinstance(v, S) or isint(v): place[x] = acc_sym(x); kinds[x] = "num"
        elif isinstance(v, Arr): kinds[x] = "arr"
        else: kinds[x] = "other"
    nm = c.fresh("k"); k = ivar(nm); rng = [ble(0, k), blt(k, n)]
    def probe(e, logs):
        out = {}
        for x in accs:
            v = e.get(x)
            if kinds[x] == "num": out[x] = toS(num(v)) if not isinstance(v, Arr) else Poison("accumulator becomes an array")
            elif kinds[x] == "list": out[x] = len(v) if isinstance(v, RecList) else None
            else: out[x] = v is env[x] or (isinstance(v, Arr) and isinstance(env[x], Arr) and v.root is env[x].root and v.desc == env[x].desc)
        return out, {i: list(l) for i, l in logs.items()}
    def trial():
        try: return st.run(k, place, probe)
        except SymRaise as e: return e
    leaves = c.explore(trial, "sum", [nm], rng)
    written = {}
    for lits, r in leaves:
        if not isinstance(r, SymRaise):
            for i, l in r[1].items(): written.setdefault(i, []).extend((lits, w) for w in l)
    st.accum = {i for i, lst in written.items() if added_to(st.roots[i], lst, nm)}
    if st.accum:
        leaves = c.explore(trial, "sum", [nm], rng)
        for lits, r in leaves:
            if not isinstance(r, SymRaise) and any(isinstance(v, S) and "ACC:cell" in repr(v) for v in r[0].values()): raise Unsupported("value depends on an array that is being added to")
    raising = [(l, r) for l, r in leaves if isinstance(r, SymRaise)]
    if raising:
        # some iterations raise: either one of them does (and the loop raises), or none does
        if len({r.kind for _, r in raising}) > 1: raise Unsupported("a loop raises different exceptions")
        cond = forall(n, lambda q: bnot(bor(*[band(*[substB(x, {nm: q}) for x in l]) for l, _ in raising])))
        if not decide(cond): raise raising[0][1]
        leaves = [(l, r) for l, r in leaves if not isinstance(r, SymRaise)]
    if not leaves: return
    # ---- scalars
    final = {}
    for x in accs:
        rs = [r[0][x] for _, r in leaves]
        if kinds[x] == "num":
            if any(isinstance(r, Poison) for r in rs): raise Unsupported(rs[0].why)
            A = acc_sym(x)
            if all(not has_acc(r - A, x) for r in rs): final[x] = "sum"
            elif all(not has_acc(r, x) for r in rs): final[x] = "last"
            elif all(all(any(a == ("sym", "ACC:" + x, False, False) and e == 1 for a, e in m[2]) for m in r.t) for r in rs): final[x] = "prod"
            else: raise Unsupported("running value of %s is neither a sum nor a product" % x)
        elif kinds[x] == "list":
            if any(r is None for r in rs): final[x] = "last"
            elif all(r == 0 for r in rs): final[x] = "same"
            elif all(r == 1 for r in rs): final[x] = "append"
            else: raise Unsupported("list %s grows irregularly" % x)
        else:
            final[x] = "same" if all(r is True for r in rs) else "last"
    # values that depend on another running value
    running = [x for x in final if final[x] in ("sum", "prod")]
    for lits, (vals, logs) in leaves:
        for x in running:
            for y in running:
                if x != y and isinstance(vals[y], S) and has_acc(vals[y], x): raise Unsupported("coupled running values %s, %s" % (x, y))
        for q in lits:
            if "ACC:" in repr(q): raise Unsupported("branch on a running value")
    # ---- arrays: independence of iterations
    writes = {}
    for lits, (vals, logs) in leaves:
        for i, l in logs.items():
            for w in l: writes.setdefault(i, []).append((lits, w))
    sums = {i: writes.pop(i) for i in st.accum if i in writes}
    for i, lst in writes.items(): check_disjoint(c, nm, n, lst)
    st.writes, st.nm = writes, nm
    def delta(x):
        def f(kk):
            def th(e, logs):
                r = toS(num(e[x])); A = acc_sym(x)
                if final[x] == "sum": return r - A
                return S({(m[0], m[1], tuple((a, e_) for a, e_ in m[2] if a != ("sym", "ACC:" + x, False, False))): v for m, v in r.t.items()})
            return st.run(kk, place, th)
        return f
    for x in accs:
        if final[x] == "sum":
            tot = ssum(0, n, delta(x)); base = env[x]
            env[x] = toS(num(base)) + tot
        elif final[x] == "prod":
            env[x] = toS(num(env[x])) * opaque("prod", (Arr((n,), (lambda ix, d=delta(x): d(ix[0])), "complex"),), ())
        elif final[x] == "append":
            old = list(env[x]); m = len(old)
            def fn(q, x=x, old=old, m=m):
                if m and decide(blt(q, m)): return pick(q, [lambda v=v: v for v in old])
                return st.run(q - m, place, lambda e, logs: e[x][0])
            env[x] = SymList(n + m, fn)
        elif final[x] == "last":
            env[x] = Lazy(lambda x=x: st.run(n - 1, place, lambda e, logs: guard_acc(last_value(e, x), running, st.accum)))
    for x in stored:
        if x not in accs: env[x] = Lazy(lambda x=x: st.run(n - 1, place, lambda e, logs: guard_acc(last_value(e, x), running, st.accum)))
    # ---- arrays: state after the loop
    for i, lst in sums.items():
        root = st.roots[i]; root.writes += 1; w = lst[0][1]; cell = acc_cell(root)
        def delta_at(kk, r, root=root, cell=cell):
            d = st.run(kk, place, lambda e, logs: toS(num(root.get(r))) - cell(r))
            if "ACC:cell" in repr(d): raise Unsupported("what is added to an array depends on its running contents")
            return guard_acc(d, running, ())
        def ga(r, i=i, w=w, delta_at=delta_at):
            for cond, co in w.alternatives(r):
                if decide(cond): return toS(num(st.gets[i](r))) + ssum(0, n, lambda kk: delta_at(kk, r))
            return st.gets[i](r)
        def val(co, w=w, ga=ga): return ga(tuple(s[1] if s[0] == "pt" else s[1] + co[s[4]] for s in w.sel))
        if root.log is not None: root.log.append(Write(w.sel, val, w.n))
        root.get = ga
    for i, lst in writes.items():
        root = st.roots[i]; root.writes += len(lst)
        if running:
            place0 = place
        def g(r, lst=lst, i=i, root=root):
            for lits, w in lst:
                for cond, k0 in solve_iter(nm, n, lits, w, r):
                    if decide(cond):
                        return st.run(k0, place, lambda e, logs: guard_acc(root.get(r), running, st.accum))
            return st.gets[i](r)
        if root.log is not None: root.log.append(LoopWrite(nm, n, lst))
        root.get = g
class LoopWrite:
    def __init__(self, nm, n, lst): self.nm, self.n, self.lst = nm, n, lst
def guard_acc(v, running, accum):
    if isinstance(v, S):
        if accum and "ACC:cell" in repr(v): raise Unsupported("value depends on an array that is being added to")
        for x in running:
            if has_acc(v, x): raise Unsupported("value depends on the running value " + x)
    return v
def sel_k(w, nm):
    """index of a selector dimension that determines the iteration, with its expression"""
    for d, s in enumerate(w.sel):
        if s[0] == "pt" and nm in vars_of(toI(s[1])): return d
    return None
def solve_iter(nm, n, lits, w, r):
    """[(condition, iteration)] for which the write covers root index r"""
    if isinstance(w, LoopWrite): raise Unsupported("nested loop writes")
    k = ivar(nm); d = sel_k(w, nm)
    if d is None:
        # a range of cells starting at k-dependent position is not inverted here
        for s in w.sel:
            if s[0] == "rng" and (nm in vars_of(toI(s[1])) or nm in vars_of(toI(s[2]))): raise Unsupported("iteration writes a moving slice only")
        raise Unsupported("every iteration writes the same cells")
    sol = solve1(toI(w.sel[d][1]), nm, r[d])
    if sol is None: raise Unsupported("cannot solve for the iteration")
    cond, k0 = sol
    conds = [cond, ble(0, k0), blt(k0, n)]
    mp = {nm: k0}
    for q, s in enumerate(w.sel):
        if q == d: continue
        if s[0] == "pt": conds.append(beq(substI(toI(s[1]), mp), r[q]))
        elif s[0] == "rng":
            lo, ln, sp = substI(toI(s[1]), mp), substI(toI(s[2]), mp), s[3]; dd = r[q] - lo
            if sp == 1: conds += [ble(0, dd), blt(dd, ln)]
            else: conds += [beq(toI(dd) % sp, 0), ble(0, dd), blt(toI(dd) // sp, ln)]
        else:
            _, fn, L, ax = s
            alts = invert(fn, L, r[q])
            if any(nm in vars_of(toI(kk)) or nm in bvars(cc) for cc, kk in alts if isinstance(cc, B)): raise Unsupported("index array of the iteration")
            conds.append(bor(*[cc for cc, kk in alts]))
    conds += [substB(x, mp) for x in lits if nm in bvars(x)]
    return [(band(*conds), k0)]
def check_disjoint(c, nm, n, lst):
    """no cell is written by two different iterations (so order does not matter); cells with a constant selector are refused"""
    nm2 = c.fresh("k"); k, k2 = ivar(nm), ivar(nm2)
    for lits, w in lst:
        if isinstance(w, LoopWrite): raise Unsupported("nested symbolic loop writing an outer array")
        for lits2, v in lst:
            conds = []
            for s, t in zip(w.sel, v.sel):
                if s[0] == "pt" and t[0] == "pt": conds.append(beq(s[1], substI(toI(t[1]), {nm2: k2}) if False else substI(toI(t[1]), {nm: k2})))
                elif s[0] == "pt" and t[0] == "rng" and t[3] == 1:
                    lo, ln = substI(toI(t[1]), {nm: k2}), substI(toI(t[2]), {nm: k2}); conds += [ble(lo, s[1]), blt(s[1], lo + ln)]
                elif s[0] == "rng" and t[0] == "pt" and s[3] == 1:
                    e = substI(toI(t[1]), {nm: k2}); conds += [ble(s[1], e), blt(e, s[1] + s[2])]
                elif s[0] == "rng" and t[0] == "rng" and s[3] == 1 and t[3] == 1:
                    lo, ln = substI(toI(t[1]), {nm: k2}), substI(toI(t[2]), {nm: k2})
                    conds += [blt(s[1], lo + ln), blt(lo, s[1] + s[2])]
            facts = [ble(0, k), blt(k, n), ble(0, k2), blt(k2, n), bnot(beq(k, k2))] + list(lits) + [substB(x, {nm: k2}) for x in lits2]
            facts = [f for f in facts if f is not True]
            if any(q is False for q in conds + facts): continue
            if c.check(facts + conds) is not False: raise Unsupported("iterations may write the same cell")
