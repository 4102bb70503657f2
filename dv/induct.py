"""dv inductive array invariants ("filled arrays"). A proof may state, for an array the function creates, what every cell that
is written has to hold:  value(idx), characterised by relation(idx, v) <=> v is the value (e.g. the recurrence that defines it).
Then loops of symbolic length that fill the array cell by cell, each from cells written before, are verified by induction:
  - a first run of the body finds which cells an iteration writes, under which conditions (families of cells);
  - in iteration k the invariant says: the cells written before the loop and by the iterations 0..k-1 (and so far in this one)
    hold their value, every other cell what it held when the array was created; each write has to establish relation();
  - after the loop the cells of all iterations hold their value.
Nothing about the shape or order of the loops is prescribed by the proof."""
from core import *
import core, arr
from core import show
from arr import *

READ = "read of a filled array"
class Fam:
    """cells {sel(b) : 0 <= b_i < n_i, lits}"""
    __slots__ = ("binders", "lits", "sel")
    def __init__(self, binders, lits, sel): self.binders, self.lits, self.sel = list(binders), list(lits), list(sel)
    def sub(self, mp):
        si = lambda e: substI(toI(e), mp) if not isinstance(e, int) else e
        return Fam([(n, si(u)) for n, u in self.binders], [substB(x, mp) for x in self.lits], [("pt", si(s[1])) if s[0] == "pt" else ("rng", si(s[1]), si(s[2])) for s in self.sel])
    def ren(self):
        """fresh names for the binders"""
        c = ctx(); mp = {n: ivar(c.fresh("k")) for n, _ in self.binders}; f = self.sub(mp)
        f.binders = [(next(iter(vars_of(toI(mp[n])))), substI(toI(u), mp) if not isinstance(u, int) else u) for n, u in self.binders]; return f
    def cover(self, r):
        """condition that the family contains the cell r"""
        conds = []; eqs = []
        for s, x in zip(self.sel, r):
            if s[0] == "pt": eqs.append((s[1], x))
            else: conds += [ble(s[1], x), blt(x, s[1] + s[2])]
        conds += list(self.lits); todo = [n for n, _ in self.binders]; ub = list(self.binders)
        for n, u in ub: conds += [ble(0, ivar(n)), blt(ivar(n), u)]
        while todo:
            for q, (e, x) in enumerate(eqs):
                names = [n for n in todo if n in vars_of(toI(e))]
                if not names: continue
                # an equation with a single unknown first
                if len(names) > 1 and any(len([n for n in todo if n in vars_of(toI(e2))]) == 1 for e2, _ in eqs): continue
                sol = None
                for nm in names:
                    sol = solve1(toI(e), nm, x)
                    if sol is not None: break
                if sol is None: continue
                cond, k0 = sol; mp = {nm: k0}; todo.remove(nm); del eqs[q]
                eqs = [(substI(toI(e2), mp), substI(toI(x2), mp) if isinstance(x2, I) else x2) for e2, x2 in eqs]
                conds = [substB(z, mp) for z in conds] + [cond]; break
            else: raise Unsupported("cannot tell which iteration writes a cell")
        return band(*conds, *[beq(e, x) for e, x in eqs])

class Fill:
    """state of one filled array"""
    def __init__(self, root, spec):
        self.root, self.spec, self.base, self.fams = root, spec, root.get, []
        self.cands = list(spec["options"])      # (value, relation): what this array may turn out to hold
    def publish(self):
        fams = list(self.fams); base = self.base
        def val(*r):
            del self.cands[1:]      # once read, the choice is made
            return self.cands[0][0](*r)
        def get(r):
            if ctx().discover: return el(READ, r, False)
            for f in reversed(fams):
                if decide(f.cover(r)): return val(*r)
            return base(r)
        self.root.get = get
def fill_of(root):
    """the invariant stated for this array, if any"""
    c = ctx()
    if not c.fills or root.origin == "param": return None
    if root.id in c.fillmap: return c.fillmap[root.id]
    f = None
    for spec in c.fills:
        if spec["match"](root): f = Fill(root, spec); break
    c.fillmap[root.id] = f; return f
def fill_store(fs, w, conv):
    """a write to a filled array"""
    c = ctx(); sel = []
    for s in w.sel:
        if s[0] == "pt": sel.append(("pt", s[1]))
        elif s[0] == "rng" and s[3] == 1: sel.append(("rng", s[1], s[2]))
        else: raise Unsupported("scattered write to a filled array")
    if c.discover: c.disc.append((fs.root.id, Fam([], [], sel))); return
    names, ix, co, facts = [], [], [None] * w.n, []
    for s in w.sel:
        if s[0] == "pt": ix.append(s[1])
        else:
            nm = c.fresh("e"); v = ivar(nm); names.append(nm); co[s[4]] = v; ix.append(s[1] + v); facts += [ble(0, v), blt(v, s[2])]
    det = []
    def ok():
        v = conv(w.val(co)); ok_ = [q for q in fs.cands if q[1](tuple(ix), v)]; r = bool(ok_)
        if r: fs.cands[:] = ok_
        if not r: det.append("cell %s receives %s" % (ix, show(toS(num(v)))[:300]))
        return bool(r)
    good = c.query(ok, names, facts) if names else ok()
    whole = not getattr(c, "filling", 0) and all(q[0] == "rng" and q[1] == 0 and decide(beq(q[2], d)) for q, d in zip(sel, fs.root.shape))
    if whole and not good:      # outside of loops the whole array gets new contents: nothing is claimed about it from here on
        old = fs.root.get; axes = [s[4] for s in w.sel]; snap = w.val
        def put(r):
            co = [None] * w.n
            for a, x in zip(axes, r): co[a] = x
            return conv(snap(co))
        if fs.fams: c.fillmap[fs.root.id] = None
        else: fs.base = put
        fs.root.get = put; return
    c.call_obs.append((fs.spec["name"], good, "; ".join(det[:1]) + (" when %s" % [l for f in c.frames for l in f.lits][:8] if det else "")))
    fs.fams = fs.fams + [Fam([], [], sel)]; fs.publish()
def fill_for(st, s, it, env, n, I_, stored, tnames, discover_only=False):
    """the loop fills arrays with invariants: True when handled here"""
    from loops import copy_env, names_stored
    from interp import NdIdx, Unreadable, Cont, Brk, Ret
    from interp import seqget
    c = ctx()
    if isinstance(it, NdIdx):       # all index tuples in lexicographic order
        names = [c.fresh("k") for _ in it.dims]; dims = list(it.dims); elem = lambda ks: tuple(ks); first = it.skip
    else: names = [c.fresh("k")]; dims = [n]; elem = lambda ks: seqget(it, ks[0]); first = 0
    ks = [ivar(x) for x in names]; rng = [z for k, d in zip(ks, dims) for z in (ble(0, k), blt(k, d))]
    skip = [bnot(band(*[beq(k, 0) for k in ks]))] if first else []
    rng = rng + skip
    def poison(x):
        def f(): raise Unsupported("value of %s carried from one iteration to the next" % x)
        return Unreadable(f)
    def body(running=False):
        e = copy_env(env)
        for x in stored:
            if x in e: e[x] = satom(("sym", "ACC:" + x, False, False)) if running and isinstance(e[x], (S, int, I)) and not isinstance(e[x], bool) else poison(x)
        I_.assign(s.target, elem(ks), e)
        try: I_.block(s.body, e)
        except Cont: pass
        except Brk: raise Unsupported("break in a loop of symbolic length")
        except Ret: raise Unsupported("return in a loop of symbolic length")
    # which cells does an iteration write?
    c.discover += 1; outer, c.disc = c.disc, []; fams = {}
    others = {i: (r.get, r.writes, r.log) for i, r in st.roots.items()}
    def trial():
        c.disc = []
        for i, r in st.roots.items(): r.log = []
        for_other = lambda: [i for i, r in st.roots.items() if r.log and c.fillmap.get(i) is None]
        try: body(True); return list(c.disc), for_other()
        finally:
            for i, r in st.roots.items(): r.get, r.writes, r.log = others[i]
    try: leaves = c.explore(trial, "sum", names, rng)
    except SymRaise: leaves = None
    finally: c.disc = outer; c.discover -= 1
    if leaves is None or not any(r[0] for _, r in leaves): return False
    if any(r[1] for _, r in leaves): raise Unsupported("a loop fills an array and changes another one")
    if any(READ in repr(x) for l, _ in leaves for x in l): raise Unsupported("which cells a loop fills depends on the cells")
    for lits, (d, _) in leaves:
        for i, f in d: fams.setdefault(i, []).append(Fam(list(zip(names, dims)) + f.binders, skip + list(lits) + f.lits, f.sel))
    if c.discover:
        for i, l in fams.items():
            for f in l: c.disc.append((i, f))
        for i in fams: st.roots[i].writes += 1
        return True
    # induction step at a generic iteration
    start = {i: list(c.fillmap[i].fams) for i in fams}; obs = []
    keep, c.call_obs = c.call_obs, []
    def step():
        for i, l in fams.items():
            fs = c.fillmap[i]; fs.fams = start[i] + [ff for ff in earlier(l, ks)]; fs.publish()
        c.filling = getattr(c, "filling", 0) + 1
        try: body()
        finally:
            c.filling -= 1
            for i in fams: c.fillmap[i].fams = start[i]
        o, c.call_obs = c.call_obs, []; return o
    for lits, o in c.explore(step, "sum", names, rng): obs += o
    c.call_obs = keep + obs
    for i, l in fams.items():
        fs = c.fillmap[i]; fs.fams = start[i] + [f.ren() for f in l]; fs.publish(); st.roots[i].writes += 1
    for x in stored: env[x] = poison(x)
    return True
def earlier(l, ks):
    """the cells of the iterations before ks, in lexicographic order"""
    out = []; d = len(ks)
    for f in l:
        for q in range(d):
            g = f.ren(); mp = {g.binders[j][0]: ks[j] for j in range(q)}; nq = g.binders[q][0]; rest = g.binders[q + 1:]; g.binders = []
            g = g.sub(mp); g.binders = [(nq, ks[q])] + [(x, substI(toI(u), mp) if not isinstance(u, int) else u) for x, u in rest]; out.append(g)
    return out
