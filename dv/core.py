"""dv core: integer terms, conditions, the decision context (path/region splitting over z3), and the scalar
normal form (polynomials over exact atoms with symbolic sums)."""
import itertools, math, re, time
from fractions import Fraction
import z3

class Unsupported(Exception):
    """the engine cannot translate a construct: the obligation stays undecided"""
DIGITS = re.compile(r"#\d+")
class Infeasible(Exception): pass
class Restart(BaseException):
    """a decision inside an exploration split an enclosing one: the exploration starts again under the new fact"""
    def __init__(self, level): self.level = level
class SymRaise(Exception):
    """the program under proof raises"""
    def __init__(self, kind, msg=""): self.kind, self.msg = kind, msg; super().__init__("%s: %s" % (kind, msg))

# ------------------------------------------------------------------ integer terms
class I:
    """integer polynomial over interned atoms; immutable, hashable, canonical"""
    __slots__ = ("t", "_h", "_k", "_s")
    def __init__(self, t):
        self.t = {m: c for m, c in t.items() if c != 0}; self._h = None; self._k = None; self._s = None
    @property
    def key(self):
        if self._k is None: self._k = tuple(sorted(((m, c) for m, c in self.t.items()), key=skey))
        return self._k
    def __hash__(self):
        if self._h is None: self._h = hash(("I", self.key))
        return self._h
    def __eq__(self, o):
        if isinstance(o, bool): return NotImplemented
        if isinstance(o, int): o = I({(): o})
        return isinstance(o, I) and self.key == o.key
    def __ne__(self, o): return not self.__eq__(o)
    def const(self):
        """int value if constant, else None"""
        if not self.t: return 0
        if len(self.t) == 1 and () in self.t: return self.t[()]
        return None
    def __add__(self, o):
        o = toI(o)
        if o is None: return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items(): t[m] = t.get(m, 0) + c
        return simpI(I(t))
    __radd__ = __add__
    def __neg__(self): return I({m: -c for m, c in self.t.items()})
    def __sub__(self, o):
        o = toI(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o): return toI(o) - self if toI(o) is not None else NotImplemented
    def __mul__(self, o):
        o = toI(o)
        if o is None: return NotImplemented
        t = {}
        for m, c in self.t.items():
            for n, d in o.t.items():
                k = tuple(sorted(m + n, key=skey)); t[k] = t.get(k, 0) + c * d
        return simpI(I(t))
    __rmul__ = __mul__
    def __floordiv__(self, o):
        o = toI(o)
        if o is None: return NotImplemented
        d = o.const()
        if d is None: return iatom(("fdiv", self, o))
        if d == 0: raise SymRaise("ZeroDivisionError")
        q, r = {}, {}
        for m, c in self.t.items():
            if m and c % d == 0: q[m] = c // d
            elif not m: q[m] = c // d; r[m] = c - (c // d) * d
            else: r[m] = c
        rest = I(r)
        if rest.const() is not None: return simpI(I(q) + (rest.const() // d))
        return I(q) + iatom(("fdiv", rest, toI(d)))
    def __mod__(self, o):
        o = toI(o)
        if o is None: return NotImplemented
        d = o.const()
        if d is None: return iatom(("mod", self, o))
        rest = I({m: c % d for m, c in self.t.items()})
        if rest.const() is not None: return rest.const() % d
        return iatom(("mod", rest, toI(d)))
    def __pow__(self, e):
        if isinstance(e, int) and e >= 0:
            r = 1
            for _ in range(e): r = r * self
            return r
        return NotImplemented
    def __repr__(self):
        if not self.t: return "0"
        return "+".join(("%s" % c if not m else ("" if c == 1 else "%d*" % c) + "*".join(ashow(a) for a in m)) for m, c in self.key).replace("+-", "-")
def ashow(a):
    if a[0] == "v": return a[1]
    if a[0] == "app": return "%s(%s)" % (a[1], ",".join(map(repr, a[2:])))
    return "%s(%s)" % (a[0], ",".join(map(repr, a[1:])))
_sk = {}
def skey(x):
    """total order on nested tuples / I / numbers / strings"""
    if isinstance(x, I):
        if x._s is None: x._s = "I" + repr([(skey(m), c) for m, c in x.key])
        return x._s
    if isinstance(x, tuple): return "(" + ",".join(skey(y) for y in x) + ")"
    return type(x).__name__[0] + repr(x)
def toI(x):
    if isinstance(x, I): return x
    if isinstance(x, bool): return I({(): int(x)})
    if isinstance(x, int): return I({(): x})
    return None
def simpI(x):
    if isinstance(x, int): return x
    c = x.const()
    return x if c is None else c
def iatom(a): return I({(a,): 1})
def ivar(name): return iatom(("v", name))
def iapp(name, *args): return iatom(("app", name) + tuple(toI(a) for a in args))
def isint(x): return isinstance(x, (int, I)) and not isinstance(x, bool)
def vars_of(x, acc=None):
    if acc is None: acc = set()
    if isinstance(x, I):
        for m in x.t:
            for a in m: vars_of(a, acc)
    elif isinstance(x, S):
        for m in x.t: vars_of(m, acc)
    elif isinstance(x, tuple):
        if len(x) == 2 and x[0] == "v": acc.add(x[1])
        else:
            for y in x: vars_of(y, acc)
    return acc
def substI(x, mp):
    """substitute int variables {name: I|int} in an I, returning I|int"""
    if isinstance(x, int): return x
    r = 0
    for m, c in x.t.items():
        p = c
        for a in m: p = p * subst_atom(a, mp)
        r = r + p
    return r
def subst_atom(a, mp):
    if a[0] == "v":
        v = mp.get(a[1])
        return iatom(a) if v is None else v
    if a[0] == "app": return mkapp(a[1], *[substI(z, mp) for z in a[2:]])
    if a[0] == "fdiv": return toI(substI(a[1], mp)) // substI(a[2], mp)
    if a[0] == "mod": return toI(substI(a[1], mp)) % substI(a[2], mp)
    raise Unsupported("subst " + repr(a))
def mkapp(name, *args):
    """application of an integer function symbol with built-in simplification: inv_w(w(k)) = k, w(inv_w(i)) = i
    (the latter only where member, which is what every use is guarded by)"""
    args = [toI(x) for x in args]
    if name.startswith("inv:") and len(args) == 1 and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][0] == "app" and m[0][1] == name[4:]: return simpI(m[0][2])
    if len(args) == 1 and len(args[0].t) == 1:
        (m, c), = args[0].t.items()
        if c == 1 and len(m) == 1 and m[0][0] == "app" and m[0][1] == "inv:" + name: return simpI(m[0][2])
    return iatom(("app", name) + tuple(args))

# ------------------------------------------------------------------ conditions
class B:
    """a condition; op in le (arg<=0), eq (arg==0), opq (named predicate), not, and, or"""
    __slots__ = ("op", "args", "_h", "_k")
    def __init__(self, op, *args): self.op, self.args = op, args
    def key(self):
        try: return self._k
        except AttributeError:
            self._k = (self.op,) + tuple(a.key() if isinstance(a, B) else a for a in self.args); return self._k
    def __hash__(self):
        try: return self._h
        except AttributeError: self._h = hash(self.key()); return self._h
    def __eq__(self, o): return self is o or (isinstance(o, B) and hash(self) == hash(o) and self.key() == o.key())
    def __repr__(self):
        if self.op == "le": return "(%r <= 0)" % (self.args[0],)
        if self.op == "eq": return "(%r == 0)" % (self.args[0],)
        if self.op == "not": return "not %r" % (self.args[0],)
        if self.op in ("and", "or"): return "(" + (" %s " % self.op).join(map(repr, self.args)) + ")"
        return "%s" % (self.args,)
    def __invert__(self): return bnot(self)
    def __and__(self, o): return band(self, o)
    __rand__ = __and__
    def __or__(self, o): return bor(self, o)
    __ror__ = __or__
def ble(a, b):
    d = a - b
    if isinstance(d, int): return d <= 0
    return B("le", d)
def blt(a, b): return ble(a + 1, b)
def beq(a, b):
    d = a - b
    if isinstance(d, int): return d == 0
    k = d.key
    if k and k[0][1] < 0: d = -d
    return B("eq", d)
def bnot(x):
    if isinstance(x, bool): return not x
    if x.op == "not": return x.args[0]
    if x.op == "le": return ble(1, x.args[0])
    if x.op == "and": return bor(*[bnot(y) for y in x.args])
    if x.op == "or": return band(*[bnot(y) for y in x.args])
    if x.op == "opq" and x.args[0] == "real" and x.args[1] in ("lt", "le") and len(x.args) == 3: return opq("real", "le" if x.args[1] == "lt" else "lt", -x.args[2])
    return B("not", x)
def band(*xs):
    r = []
    for x in xs:
        if x is False or (not isinstance(x, B) and not x): return False
        if isinstance(x, B): r.extend(x.args if x.op == "and" else [x])
    return True if not r else r[0] if len(r) == 1 else B("and", *r)
def bor(*xs):
    r = []
    for x in xs:
        if isinstance(x, B): r.extend(x.args if x.op == "or" else [x])
        elif x: return True
    return False if not r else r[0] if len(r) == 1 else B("or", *r)
def opq(*key):
    if key[0] == "real" and len(key) == 3 and isinstance(key[2], S) and key[2].t:      # scaled: leading coefficient 1 (eq) or of modulus 1 (lt, le)
        d = key[2]; c = d.key()[0][1]
        if key[1] == "eq" and c != G1: key = key[:2] + (d.scale(ginv(c)),)
        elif c[1] == 0 and abs(c[0]) != 1: key = key[:2] + (d.scale((1 / abs(c[0]), Fraction(0))),)
    return B("opq", *key)
def bvars(b, acc=None):
    if acc is None: acc = set()
    if isinstance(b, B):
        for a in b.args: bvars(a, acc)
    else: vars_of(b, acc)
    return acc
def substB(b, mp):
    if isinstance(b, bool): return b
    if b.op == "le": return ble(substI(b.args[0], mp), 0)
    if b.op == "eq": return beq(substI(b.args[0], mp), 0)
    if b.op == "not": return bnot(substB(b.args[0], mp))
    if b.op == "and": return band(*[substB(a, mp) for a in b.args])
    if b.op == "or": return bor(*[substB(a, mp) for a in b.args])
    return B("opq", *[substI(a, mp) if isinstance(a, I) else substB(a, mp) if isinstance(a, B) else subst(a, mp) if isinstance(a, S) else a for a in b.args])
def forall(n, fn):
    """for all 0<=q<n: fn(q), as a condition (fn evaluated once at a bound variable, its case splits become a disjunction)"""
    c = ctx(); nm = "!" + c.fresh("q"); q = ivar(nm)
    def th():
        r = fn(q)
        return r
    leaves = c.explore(th, "sum", [nm], [ble(0, q), blt(q, n)])
    if all(r is True for _, r in leaves): return True
    if not leaves: return True
    body = bor(*[band(r, *l) for l, r in leaves])
    if body is True: return True
    mp = {nm: ivar("!b%d" % depthB(body))}
    return B("opq", "forall", simpI(toI(n)) if not isinstance(n, I) else n, mp[nm], substB(body, mp))
def depthB(b):
    if not isinstance(b, B): return 0
    d = max([depthB(a) for a in b.args] + [0])
    return d + 1 if b.op == "opq" and b.args[0] == "forall" else d

# ------------------------------------------------------------------ context
def body_false(b): return b is False
class Frame:
    __slots__ = ("prefix", "pos", "dec", "lits", "facts", "vars", "alts", "kind", "sub", "nfn")
    def __init__(self, kind, prefix, vars_, facts):
        self.kind, self.prefix, self.vars, self.facts = kind, prefix, set(vars_), list(facts)
        self.pos = 0; self.dec = []; self.lits = []; self.alts = []; self.sub = {}
class Ctx:
    cur = None
    def __init__(self):
        self.frames = [Frame("prove", [], [], [])]; self.n = 0; self.zc = {}; self.cache = {}; self.zcache = {}; self.lincache = {}; self.solver_s = 0.0; self.queries = 0
        self.seqs = {}        # name -> (length, upper bound, injective)
        self.fns = []         # interned opaque functions of arrays
        self.hidden = {}      # their numbers -> integer variables their arguments depend on
        self.realnames = set(); self.posnames = set(); self.inlined = set(); self.used_contracts = set(); self.hints = []
        self.limit = time.time() + 600; self.consulted = 0
        Ctx.cur = self
    def fresh(self, base="k"):
        self.n += 1; return "%s#%d" % (base, self.n)
    # ---- z3
    def zi(self, x, ax):
        if isinstance(x, int): return z3.IntVal(x)
        r = None
        for m, c in x.t.items():
            p = None
            for a in m:
                z = self.za(a, ax); p = z if p is None else p * z
            p = z3.IntVal(c) if p is None else (p if c == 1 else c * p)
            r = p if r is None else r + p
        return z3.IntVal(0) if r is None else r
    def za(self, a, ax):
        z = self.zc.get(a)
        if z is None:
            if a[0] == "v": z = z3.Int(a[1])
            elif a[0] == "app":
                f = z3.Function(a[1], *([z3.IntSort()] * (len(a) - 1)))
                z = f(*[self.zi(q, ax) for q in a[2:]])
            elif a[0] == "fdiv": z = self.zi(a[1], ax) / self.zi(a[2], ax)
            elif a[0] == "mod": z = self.zi(a[1], ax) % self.zi(a[2], ax)
            else: raise Unsupported("z3 of %r" % (a,))
            self.zc[a] = z
        if a not in ax["seen"]:
            ax["seen"].add(a)
            if a[0] == "app": self.axioms_app(a, ax)
            for q in a[1:]:
                if isinstance(q, I): self.zi(q, ax)
        return z
    def axioms_app(self, a, ax):
        name = a[1]
        if name in self.seqs:
            L, ub, inj = self.seqs[name]
            k = a[2]; z = self.zc[a]; zk = self.zi(k, ax); inr = z3.And(zk >= 0, zk < self.zi(toI(L), ax))
            c = []
            if ub is not None: c += [z >= 0, z < self.zi(toI(ub), ax)]
            if inj:
                c += [z3.Bool("mem") if False else self.zmem(name, z), self.zinv(name)(z) == zk]
            ax["extra"].append(z3.Implies(inr, z3.And(*c)))
        elif name.startswith("inv:") and name[4:] in self.seqs:
            w = name[4:]; L, ub, inj = self.seqs[w]; z = self.zc[a]; zi = self.zi(a[2], ax)
            ax["extra"].append(z3.Implies(self.zmem(w, zi), z3.And(z >= 0, z < self.zi(toI(L), ax), z3.Function(w, z3.IntSort(), z3.IntSort())(z) == zi)))
        elif name == "pow2":
            z = self.zc[a]; ax["extra"].append(z >= 1)
    def zmem(self, w, z): return z3.Function("mem:" + w, z3.IntSort(), z3.BoolSort())(z)
    def zinv(self, w): return z3.Function("inv:" + w, z3.IntSort(), z3.IntSort())
    def zb(self, b, ax):
        if isinstance(b, bool): return z3.BoolVal(b)
        if b.op == "le": return self.zi(b.args[0], ax) <= 0
        if b.op == "eq": return self.zi(b.args[0], ax) == 0
        if b.op == "not": return z3.Not(self.zb(b.args[0], ax))
        if b.op == "and": return z3.And(*[self.zb(a, ax) for a in b.args])
        if b.op == "or": return z3.Or(*[self.zb(a, ax) for a in b.args])
        if b.args[0] == "mem":
            zi = self.zi(b.args[2], ax); w = b.args[1]; L, ub, inj = self.seqs[w]
            iv = self.zinv(w)(zi)
            ax["extra"].append(z3.Implies(self.zmem(w, zi), z3.And(iv >= 0, iv < self.zi(toI(L), ax), z3.Function(w, z3.IntSort(), z3.IntSort())(iv) == zi, zi >= 0, *( [zi < self.zi(toI(ub), ax)] if ub is not None else []))))
            return self.zmem(w, zi)
        if b.args[0] == "forall":
            _, n, v, body = b.args; ax2 = dict(seen=set(), extra=[]); zv = self.zi(v, ax2)
            zbody = self.zb(body, ax2)
            return z3.ForAll([zv], z3.Implies(z3.And(zv >= 0, zv < self.zi(toI(n), ax), *ax2["extra"]), zbody)) if not body_false(body) else self.zi(toI(n), ax) <= 0
        if b.args[0] == "isid":
            w, n = b.args[1], b.args[2]; L, ub, inj = self.seqs[w]
            p = z3.Bool("isid:" + w); j = z3.Int("j!isid"); fw = z3.Function(w, z3.IntSort(), z3.IntSort()); zl = self.zi(toI(L), ax)
            q = z3.And(p, zl == self.zi(n, ax))
            ax["extra"].append(z3.Implies(p, z3.ForAll([j], z3.Implies(z3.And(0 <= j, j < zl), fw(j) == j), patterns=[fw(j)])))
            return q
        if b.args[0] == "real":     # ("real", op, S): S op 0 over reals
            return self.zreal(b, ax)
        ints = [a for a in b.args if isinstance(a, I)]
        name = skey(tuple("_" if isinstance(a, I) else a for a in b.args))
        if ints: return z3.Function(name, *([z3.IntSort()] * len(ints) + [z3.BoolSort()]))(*[self.zi(a, ax) for a in ints])
        return z3.Bool(name)
    def zreal(self, b, ax):
        _, op, s = b.args
        r = self.zS(s, ax)
        if r is None:
            if op == "le": return z3.Not(z3.Bool(skey(opq("real", "lt", -s).key())))
            return z3.Bool(skey(b.key()))
        return {"lt": r < 0, "le": r <= 0, "eq": r == 0}[op]
    def zS(self, s, ax):
        """real z3 term of a scalar, None when it has complex coefficients, sums or non-polynomial atoms"""
        r = z3.RealVal(0)
        for m, c in s.t.items():
            if c[1] != 0 or m[0] or m[1]: return None
            p = z3.RealVal(str(c[0]))
            for at, e in m[2]:
                if e.denominator != 1: return None
                if at[0] == "sym":
                    if not at[2]: return None
                    z = z3.Real("R:" + at[1])
                    if at[1] in self.posnames: ax["extra"].append(z > 0)
                elif at[0] == "i": z = z3.ToReal(self.za(at[1], ax))
                elif at[0] in ("el", "fn"):
                    if not real_atom(at): return None
                    ix = [self.zi(toI(i), ax) for i in at[2]]; nm = "R:%s:%s" % (at[0], at[1])
                    z = z3.Function(nm, *([z3.IntSort()] * len(ix) + [z3.RealSort()]))(*ix) if ix else z3.Real(nm)
                elif at[0] == "app" and at[1] == "abs" and real_S(at[2][0]):
                    y = self.zS(at[2][0], ax)
                    if y is None: return None
                    z = z3.If(y >= 0, y, -y)
                else:
                    if vars_of(at) or not real_atom(at): return None
                    z = z3.Real("R:" + skey(at))
                    if at[0] == "exp": ax["extra"].append(z > 0)
                if e < 0: z = 1 / z
                for _ in range(abs(int(e))): p = p * z
            r = r + p
        return r
    def facts(self):
        for f in self.frames:
            yield from f.facts
            yield from f.lits
    def check(self, conds, timeout=4000):
        """satisfiability of facts and conds: True / False / None"""
        self.consulted += 1
        if time.time() > self.limit: raise Unsupported("time limit of the proof stage")
        key = (tuple(self.facts()), tuple(conds))
        if key in self.cache: return self.cache[key]
        zs, extra = [], {}
        for b in itertools.chain(key[0], conds):
            z, ex = self.translated(b); zs.append(z)
            for e in ex: extra[e.get_id()] = e
        t = time.time(); s = z3.SimpleSolver(); s.set("timeout", 1000); s.add(*zs, *extra.values()); r = s.check()
        if r == z3.unknown: s = z3.Solver(); s.set("timeout", timeout); s.add(*zs, *extra.values()); r = s.check()
        self.solver_s += time.time() - t; self.queries += 1
        v = True if r == z3.sat else False if r == z3.unsat else None
        self.cache[key] = v
        return v
    def translated(self, b):
        """z3 term of a condition, and the axioms it needs"""
        ver = (len(self.seqs), len(self.posnames)); k = self.zcache.get(b)
        if k is None or k[0] != ver:
            ax = dict(seen=set(), extra=[]); z = self.zb(b, ax); k = self.zcache[b] = (ver, z, ax["extra"])
        return k[1:]
    def entails(self, b):
        if isinstance(b, bool): return b
        return self.check([bnot(b)]) is False
    def assume(self, *bs):
        for b in bs:
            if b is True: continue
            if b is False: raise Infeasible()
            self.frames[-1].facts.append(b)
    # ---- decisions
    def decide(self, b):
        """truth of b on the current path; splits the path when undetermined"""
        if not isinstance(b, B): return bool(b)
        self.consulted += 1
        if b.op == "and":
            return all(self.decide(x) for x in b.args)
        if b.op == "or":
            return any(self.decide(x) for x in b.args)
        if b.op == "not": return not self.decide(b.args[0])
        can_f = self.check([bnot(b)]) is not False
        if not can_f: return True
        if self.check([b]) is False: return False
        vs = bvars(b); cand = -1
        for d, f in enumerate(self.frames):
            if f.vars & vs: cand = d
        d = None
        for k in range(len(self.frames) - 1, -1, -1):
            if self.frames[k].kind == "prove" and k >= cand: d = k; break
        if d is None: d = cand
        f = self.frames[d]
        key = DIGITS.sub("#", repr(b))
        if f.pos < len(f.prefix):
            v, k0 = f.prefix[f.pos]
            if k0 != key: raise Unsupported("exploration of paths is not reproducible")
        else:
            v = True; f.alts.append(f.dec + [(False, key)])
        f.pos += 1; f.dec = f.dec + [(v, key)]
        lit = b if v else bnot(b)
        f.lits.append(lit)
        if d < len(self.frames) - 1: raise Restart(d + 1)
        return v
    def explore(self, thunk, kind="prove", vars_=(), facts=(), maxpaths=4000):
        """run thunk once per path; returns [(literals, result)]"""
        out = []; stack = [[]]; n = 0
        while stack:
            prefix = stack.pop(); n += 1
            if n > maxpaths: raise Unsupported("too many paths")
            f = Frame(kind, prefix, vars_, facts); self.frames.append(f); depth = len(self.frames)
            try:
                if self.check([]) is not False:
                    out.append((list(f.lits), thunk()))
                    out[-1] = (list(f.lits), out[-1][1])
            except Infeasible: pass
            except Restart as e:
                if e.level != depth - 1: raise
                out, stack, f.alts = [], [[]], []
            finally:
                del self.frames[depth - 1:]
            stack.extend(f.alts)
        return out
    def query(self, thunk, vars_=(), facts=()):
        """True iff thunk() is true on every path (no splitting of the outer path)"""
        try:
            for _, r in self.explore(thunk, "prove", vars_, facts):
                if r is not True: return False
            return True
        except SymRaise: return False
    def eqsubst(self):
        """substitution read off the equality facts of the current path"""
        self.consulted += 1
        mp = {}
        for f in self.facts():
            if isinstance(f, B) and f.op == "eq":
                e = substI(f.args[0], mp)
                if isinstance(e, int): continue
                best = None
                for m, c in e.t.items():
                    if len(m) == 1 and m[0][0] == "v" and abs(c) == 1 and not any(m[0][1] in vars_of(a) for mm in e.t for a in mm if mm != m):
                        nm = m[0][1]; rank = (0 if "#" in nm else 1, nm)
                        if best is None or rank < best[0]: best = (rank, nm, -c, m)
                if best:
                    _, nm, s, m = best; rest = I({k: v for k, v in e.t.items() if k != m}); rhs = simpI(rest * s)
                    mp = {k: substI(toI(v), {nm: rhs}) for k, v in mp.items()}; mp[nm] = rhs
        return mp
def ctx(): return Ctx.cur
def decide(b): return Ctx.cur.decide(b)

# ------------------------------------------------------------------ scalars
G0 = (Fraction(0), Fraction(0)); G1 = (Fraction(1), Fraction(0))
def gmul(a, b):
    if not a[1] and not b[1]: return (a[0] * b[0], a[1])
    return (a[0] * b[0] - a[1] * b[1], a[0] * b[1] + a[1] * b[0])
def gadd(a, b): return (a[0] + b[0], a[1] + b[1])
def ginv(a):
    n = a[0] * a[0] + a[1] * a[1]
    return (a[0] / n, -a[1] / n)
class S:
    """sum of terms; term key = (bounds, guards, factors): bounds = upper limits of the canonical bound variables
    @0, @1, ... (each from 0), guards = conditions on them, factors = ((atom, exponent), ...)"""
    __slots__ = ("t",)
    def __init__(self, t): self.t = {m: c for m, c in t.items() if c != G0}
    def __hash__(self): return hash(self.key())
    def key(self): return tuple(sorted(self.t.items(), key=skey))
    def __eq__(self, o): return isinstance(o, S) and self.t == o.t
    def const(self):
        if not self.t: return G0
        if len(self.t) == 1 and ((), (), ()) in self.t: return self.t[((), (), ())]
        return None
    def __add__(self, o):
        o = toS(o)
        if o is None: return NotImplemented
        t = dict(self.t)
        for m, c in o.t.items():
            v = gadd(t.get(m, G0), c)
            if v == G0: t.pop(m, None)
            else: t[m] = v
        return S(t)
    __radd__ = __add__
    def __neg__(self): return S({m: (-c[0], -c[1]) for m, c in self.t.items()})
    def __sub__(self, o):
        o = toS(o)
        return NotImplemented if o is None else self + (-o)
    def __rsub__(self, o):
        o = toS(o)
        return NotImplemented if o is None else o - self
    def __mul__(self, o):
        o = toS(o)
        if o is None: return NotImplemented
        r = {}
        if len(self.t) * len(o.t) > 40000: raise Unsupported("term explosion")
        for m, c in self.t.items():
            for n, d in o.t.items():
                for k, e in tmul(m, n):
                    v = gadd(r.get(k, G0), gmul(gmul(c, d), e))
                    if v == G0: r.pop(k, None)
                    else: r[k] = v
        return S(r)
    __rmul__ = __mul__
    def scale(self, c): return S({m: gmul(v, c) for m, v in self.t.items()})
    def __truediv__(self, o):
        o = toS(o)
        return NotImplemented if o is None else self * spow(o, Fraction(-1))
    def __rtruediv__(self, o):
        o = toS(o)
        return NotImplemented if o is None else o * spow(self, Fraction(-1))
    def __pow__(self, e):
        if isinstance(e, S):
            c = e.const()
            if c is not None and c[1] == 0: e = c[0]
            else: return s_exp(e * s_log(self))
        if isinstance(e, float): e = Fraction(e)
        if isinstance(e, I): return S_atompow(self, e)
        return spow(self, Fraction(e))
    def __rpow__(self, b): return toS(b) ** self
    def __repr__(self): return show(self)
def show(s):
    if not s.t: return "0"
    out = []
    for (b, g, f), c in sorted(s.t.items(), key=skey)[:12]:
        cs = str(c[0]) if not c[1] else "(%s+%sj)" % c
        fs = "*".join((atomshow(a) if e == 1 else "%s^%s" % (atomshow(a), e)) for a, e in f)
        sm = "".join("Sum_{@%d<%r}" % (i, h) for i, h in enumerate(b)) + ("".join("[%r]" % (x,) for x in g))
        out.append("%s%s%s%s" % (sm, cs, "*" if fs else "", fs))
    return " + ".join(out) + (" + ..." if len(s.t) > 12 else "")
def atomshow(a):
    if a[0] == "sym": return a[1]
    if a[0] == "el": return "%s[%s]%s" % (a[1], ",".join(map(repr, a[2])), "*" if a[4] else "")
    if a[0] == "exp": return "exp(%s%s)" % ("i " if a[1] else "", "*".join(atomshow(x) if e == 1 else "%s^%s" % (atomshow(x), e) for x, e in a[2][2]))
    if a[0] == "poly": return "(%s)" % show(S(dict(a[1])))
    if a[0] == "i": return ashow(a[1])
    return str(a)
ONE_T = ((), (), ())
def toS(x):
    if isinstance(x, S): return x
    if isinstance(x, bool): return S({ONE_T: G1}) if x else S({})
    if isinstance(x, (int, Fraction)): return S({ONE_T: (Fraction(x), Fraction(0))})
    if isinstance(x, float): return S({ONE_T: (Fraction(x), Fraction(0))})
    if isinstance(x, complex): return S({ONE_T: (Fraction(x.real), Fraction(x.imag))})
    if isinstance(x, I):
        r = {}
        for m, c in x.t.items():
            d = {}
            for a in m: d[("i", a)] = d.get(("i", a), 0) + 1
            k = ((), (), tuple(sorted(((a, Fraction(e)) for a, e in d.items()), key=skey)))
            r[k] = gadd(r.get(k, G0), (Fraction(c), Fraction(0)))
        return S(r)
    return None
ZERO, ONE = S({}), S({ONE_T: G1})
IM = S({ONE_T: (Fraction(0), Fraction(1))})
def satom(a, e=1): return S({((), (), ((a, Fraction(e)),)): G1})
def sym(name, pos=False, real=True):
    c = ctx()
    if pos: c.posnames.add(name)
    return satom(("sym", name, real, False))
SYMNAMES = set()
def symidx(name, idx): return tuple(sorted(idx, key=skey)) if name in SYMNAMES else tuple(idx)
def el(name, idx, real, conj=False): return satom(("el", name, symidx(name, idx), real, conj and not real))
def rename_obj(x, mp):
    """substitute int variables in any key object"""
    if isinstance(x, I): return substI(x, mp)
    if isinstance(x, B): return substB(x, mp)
    if isinstance(x, tuple):
        if len(x) == 2 and x[0] == "v" and isinstance(x[1], str): raise Unsupported("bare variable")
        if x and x[0] == "i" and len(x) == 2: return ("i!", subst_atom(x[1], mp))
        return tuple(rename_obj(y, mp) for y in x)
    return x
def nb(b): return len(b)
def tmul(m, n):
    """product of two terms -> list of (term, coef)"""
    b1, g1, f1 = m; b2, g2, f2 = n
    if b2 and b1:
        mp = {"@%d" % i: ivar("@%d" % (i + len(b1))) for i in range(len(b2))}
        b2 = tuple(rename_obj(x, mp) for x in b2); g2 = tuple(rename_obj(x, mp) for x in g2); f2 = ren_factors(f2, mp)
    d = dict(f1)
    ex = False
    for a, e in f2:
        v = d.get(a, 0) + e
        if v == 0: d.pop(a, None)
        else:
            d[a] = v
            if a[0] == "poly" and v >= 1: ex = True
            if a[0] == "prime" and (v >= 1 or v < 0): ex = True
    if not ex:
        f = tuple(sorted(d.items(), key=skey)) if f2 else f1
        return [(canon(b1 + b2, g1 + g2, f), G1)]
    # expand integer powers of polynomial atoms
    co = Fraction(1); polys = []
    for a, e in list(d.items()):
        if a[0] == "poly" and e >= 1:
            k = int(e) if e == int(e) else int(e // 1); polys.append((S(dict(a[1])), k)); d[a] = e - k
            if d[a] == 0: del d[a]
        elif a[0] == "prime" and (e >= 1 or e < 0):
            k = e // 1; co *= Fraction(a[1]) ** int(k); d[a] = e - k
            if d[a] == 0: del d[a]
    r = S({canon(b1 + b2, g1 + g2, tuple(sorted(d.items(), key=skey))): (co, Fraction(0))})
    for p, k in polys:
        for _ in range(k): r = r * p
    return list(r.t.items())
def ren_factors(f, mp):
    """substitution in factors; int atoms may become polynomials -> handled by callers through subst_term"""
    out = []
    for a, e in f:
        vs = vars_of(a)
        out.append((ren_atom(a, mp) if vs & set(mp) else a, e))
    return tuple(out)
def ren_atom(a, mp):
    if a[0] == "i":
        x = subst_atom(a[1], mp)
        if isinstance(x, I) and len(x.t) == 1:
            (m, c), = x.t.items()
            if c == 1 and len(m) == 1: return ("i", m[0])
        raise Unsupported("non-atomic substitution in a renaming")
    if a[0] in ("el",): return (a[0], a[1], symidx(a[1], tuple(substI(i, mp) if isinstance(i, I) else i for i in a[2]))) + a[3:]
    if a[0] == "fn": return (a[0], a[1], tuple(substI(i, mp) if isinstance(i, I) else i for i in a[2])) + a[3:]
    if a[0] == "exp":
        b, g, f = a[2]; return ("exp", a[1], (b, g, ren_factors(f, mp)))
    if a[0] == "poly": return ("poly", subst(S(dict(a[1])), mp).key())
    if a[0] == "app": return ("app", a[1], tuple(subst(x, mp) if isinstance(x, S) else x for x in a[2])) + a[3:]
    if a[0] == "inat": return ("inat", substI(a[1], mp) if isinstance(a[1], I) else a[1])
    if a[0] == "powi": return ("powi", a[1] if not isinstance(a[1], S) else subst(a[1], mp), substI(a[2], mp))
    return a
_cc = {}
def canon(b, g, f):
    """canonical order of the bound variables"""
    n = len(b)
    if n == 0: return (b, g, f)
    key = (b, g, f)
    r = _cc.get(key)
    if r is not None: return r
    if n == 1: r = (b, tuple(sorted(g, key=lambda x: skey(x.key()))), tuple(sorted(f, key=skey)))
    else:
        best = None
        for p in itertools.permutations(range(n)):
            mp = {"@%d" % i: ivar("@%d" % p[i]) for i in range(n)}
            nbnd = [None] * n
            for i in range(n): nbnd[p[i]] = rename_obj(b[i], mp)
            # a bound may only mention variables of smaller index
            if any(vars_of(h) & {"@%d" % q for q in range(i, n)} for i, h in enumerate(nbnd)): continue
            c = (tuple(nbnd), tuple(sorted((rename_obj(x, mp) for x in g), key=lambda x: skey(x.key()))), tuple(sorted(ren_factors(f, mp), key=skey)))
            k = skey((c[0], tuple(x.key() for x in c[1]), c[2]))
            if best is None or k < best[0]: best = (k, c)
        if best is None: raise Unsupported("cyclic summation bounds")
        r = best[1]
    _cc[key] = r
    return r
def subst(s, mp):
    """substitute int variables by int terms everywhere in an S"""
    vs = set(mp)
    out = ZERO; keep = {}
    for (b, g, f), c in s.t.items():
        if not (vars_of((b, f)) & vs or any(bvars(x) & vs for x in g)): keep[(b, g, f)] = c; continue
        gs = []; dead = False
        for x in g:
            y = substB(x, mp)
            if y is True: continue
            if y is False: dead = True; break
            gs.append(y)
        if dead: continue
        r = S({ONE_T: c})
        for a, e in f:
            if not vars_of(a) & vs: r = S({m2: v for m2, v in (r * satom_e(a, e)).t.items()}); continue
            if a[0] == "i": r = r * spow(toS(subst_atom(a[1], mp)), e)
            elif a[0] == "poly":
                q = subst(S(dict(a[1])), mp)
                r = r * (spow(q, e) if q.t or e > 0 else satom_e(ren_atom(a, mp), e))
            else: r = r * satom_e(ren_atom(a, mp), e)
        bb = tuple(rename_obj(x, mp) for x in b)
        if b:
            r = S({canon(bb + m[0], tuple(gs) + m[1], m[2]): v for m, v in r.t.items()}) if not any(m[0] for m in r.t) else rebind(r, bb, gs)
        elif gs: raise Unsupported("guard without bound variable")
        out = out + r
    return S(keep) + out
def rebind(r, bb, gs): raise Unsupported("nested binding")
def satom_e(a, e): return S({((), (), ((a, e),)): G1})
def sfac(n):
    d = {}; p = 2
    while p * p <= n:
        while n % p == 0: d[p] = d.get(p, 0) + 1; n //= p
        p += 1
    if n > 1: d[n] = d.get(n, 0) + 1
    return d
def positive(a):
    """atoms known to be positive reals"""
    if a[0] == "sym": return a[1] in ctx().posnames
    if a[0] == "exp": return not a[1] and real_term(a[2])
    if a[0] == "app" and a[1] == "fact":
        import arr; k = arr.as_int(a[2][0]); return k is not None and (k >= 0 if isinstance(k, int) else ctx().entails(ble(0, k)))
    if a[0] == "prime": return True
    if a[0] == "inat": return True
    if a[0] == "i": return ctx().entails(ble(1, iatom(a[1])))
    if a[0] == "poly": return all(not m[0] and not m[1] and c[1] == 0 and c[0] > 0 and all(positive(x) for x, _ in m[2]) for m, c in a[1])
    return False
def spow(s, e):
    e = Fraction(e)
    if e == 0: return ONE
    if not s.t:
        if e > 0: return ZERO
        raise SymRaise("ZeroDivisionError")
    if e.denominator == 1 and e > 0:
        r = ONE; k = int(e); base = s
        while k:
            if k & 1: r = r * base
            base = base * base if k > 1 else base; k >>= 1
        return r
    if len(s.t) == 1:
        ((b, g, f), c), = s.t.items()
        if not b and not g:
            if e.denominator == 1:
                r = S({ONE_T: G1}); k = -e
                ci = ginv(c); co = G1
                for _ in range(int(k)): co = gmul(co, ci)
                r = S({ONE_T: co})
                for a, x in f: r = r * satom_e2(a, x * e)
                return r
            if c == G1 and len(f) == 1 and f[0][0][0] == "i" and f[0][1] == 1 and e > 0 and ctx().entails(ble(0, iatom(f[0][0][1]))): return satom_e2(f[0][0], e)
            if c[1] == 0 and c[0] > 0 and all(positive(a) for a, _ in f):
                r = ONE
                for p, k in sfac(c[0].numerator).items(): r = r * primepow(p, k * e)
                for p, k in sfac(c[0].denominator).items(): r = r * primepow(p, -k * e)
                for a, x in f: r = r * satom_e2(a, x * e)
                return r
    # a sum of fractions over positive denominators that collapses to one term
    den = {}
    for (b, g, f) in s.t:
        if b or g: den = {}; break
        for a, x in f:
            if a[0] == "poly" and x < 0: den[a] = min(den.get(a, 0), x)
    if den and all(x.denominator == 1 for x in den.values()) and (e.denominator == 1 or all(positive(a) for a in den)):
        n = ZERO
        for (b, g, f), c in s.t.items():
            ex = dict(f)
            for a, x in den.items(): ex[a] = ex.get(a, 0) - x
            n = n + merge_poly(S({(b, g, tuple(sorted(((a, x) for a, x in ex.items() if x), key=skey))): c}))
        if len(n.t) == 1:
            r = spow(n, e)
            for a, x in den.items(): r = r * satom_e2(a, x * e)
            return r
    # polynomial atom, normalised by its leading coefficient
    items = s.key()
    lead = items[0][1]
    if e.denominator == 1:
        co = ginv(lead); n = s.scale(co); r = S({ONE_T: G1}); ci = co
        for _ in range(int(-e)): r = r.scale(ci)
        return r * satom_e2(("poly", n.key()), e)
    if lead[1] == 0:
        q = poly_sqrt(s) if e.denominator % 2 == 0 else None
        if q is not None: return spow(q, 2 * e)
        a = abs(lead[0]); n = s.scale((1 / a, Fraction(0))); r = ONE
        for p, k in sfac(a.numerator).items(): r = r * primepow(p, k * e)
        for p, k in sfac(a.denominator).items(): r = r * primepow(p, -k * e)
        return r * satom_e2(("poly", n.key()), e)
    return satom_e2(("poly", items), e)
def poly_sqrt(s):
    """q with s = q^2, q a sum of positive terms, or None"""
    if len(s.t) < 3 or any(m[0] or m[1] or c[1] != 0 for m, c in s.t.items()): return None
    at = sorted({a for m in s.t for a, _ in m[2]}, key=skey)
    if any(a[0] == "poly" or not positive(a) for a in at): return None
    def lead(x):
        def vec(m): d = dict(m[2]); return [d.get(a, Fraction(0)) for a in at]
        m = max(x.t, key=vec); return S({m: x.t[m]})
    try:
        l0 = lead(s); c0 = list(l0.t.values())[0][0]
        if c0 <= 0: return None
        rt = Fraction(math.isqrt(c0.numerator), math.isqrt(c0.denominator))
        if rt * rt != c0: return None
        ((b, g, f), _), = l0.t.items(); q0 = S({(b, g, tuple((a, Fraction(x) / 2) for a, x in f)): (rt, Fraction(0))}); q = q0; rem = s - q * q; inv = ONE / (q0 + q0)
        for _ in range(len(s.t)):
            if not rem.t: break
            if len(rem.t) > 4 * len(s.t): return None
            t = lead(rem) * inv
            if list(t.t.values())[0][0] <= 0: return None
            rem = rem - t * (q + q + t); q = q + t
        return q if not rem.t else None
    except (ZeroDivisionError, ValueError): return None
def merge_poly(n):
    """expand non-negative integer powers of polynomial atoms"""
    r = ZERO
    for (b, g, f), c in n.t.items():
        t = S({(b, g, tuple((a, x) for a, x in f if not (a[0] == "poly" and x >= 1 and x.denominator == 1))): c})
        for a, x in f:
            if a[0] == "poly" and x >= 1 and Fraction(x).denominator == 1: t = t * spow(S(dict(a[1])), x)
        r = r + t
    return r
def primepow(p, e):
    k = e // 1; r = e - k
    s = S({ONE_T: (Fraction(p) ** int(k), Fraction(0))})
    return s if r == 0 else s * S({((), (), ((("prime", p), r),)): G1})
def satom_e2(a, e):
    """atom power, expanding non-negative integer parts of polynomial atoms"""
    if e == 0: return ONE
    if a[0] == "poly" and e >= 1:
        k = e // 1; r = spow(S(dict(a[1])), k)
        return r if e == k else r * S({((), (), ((a, e - k),)): G1})
    if a[0] == "prime": return primepow(a[1], e)
    return S({((), (), ((a, e),)): G1})
def S_atompow(s, e):
    c = s.const()
    if c is not None and c == G1: return ONE
    return satom(("powi", s, e))
def s_sqrt(s): return spow(toS(s), Fraction(1, 2))
PI_T = ((), (), ((("sym", "pi", True, False), Fraction(1)),))
def s_exp(s):
    s = toS(s); r = ONE
    for m, c in s.t.items():
        if m == ONE_T:
            if c[0]: r = r * satom_e2(("exp", False, ONE_T), c[0])
            if c[1]: r = r * satom_e2(("exp", True, ONE_T), c[1])
            continue
        if c[1] and not c[0] and (2 * c[1]).denominator == 1 and m == PI_T and getattr(ctx(), "ghosts", None) is not None:
            r = r * (ONE, IM, -ONE, -IM)[int(2 * c[1]) % 4]; continue
        if c[0]: r = r * satom_e2(("exp", False, m), c[0])
        if c[1]: r = r * satom_e2(("exp", True, m), c[1])
    return r
def s_log(s):
    if len(s.t) == 1:
        (m, c), = s.t.items()
        if c == G1 and not m[0] and len(m[2]) == 1 and m[2][0][0][0] == "exp" and not m[2][0][0][1]:
            return S({m[2][0][0][2]: (m[2][0][1], Fraction(0))})
    return satom(("app", "log", (s,), True, False))
def s_fun(name, s):
    s = toS(s); H = S({ONE_T: (Fraction(1, 2), Fraction(0))})
    if name == "cos": a = s_exp(s * IM); b = s_exp(-(s * IM)); return (a + b) * H
    if name == "sin": a = s_exp(s * IM); b = s_exp(-(s * IM)); return (a - b) * H * (-IM)
    if name in ("sinh", "cosh", "tanh") and len(s.t) == 1:      # of an inverse hyperbolic sine
        ((b, g, f), c), = s.t.items()
        if not b and not g and c == G1 and len(f) == 1 and f[0][1] == 1 and f[0][0][:2] == ("app", "arcsinh"):
            x = f[0][0][2][0]; h = spow(ONE + x * x, Fraction(1, 2)); return {"sinh": x, "cosh": h, "tanh": x / h}[name]
    if name == "cosh": return (s_exp(s) + s_exp(-s)) * H
    if name == "sinh": return (s_exp(s) - s_exp(-s)) * H
    if name == "tan": return s_fun("sin", s) / s_fun("cos", s)
    if name == "tanh": return s_fun("sinh", s) / s_fun("cosh", s)
    return satom(("app", name, (s,), real_S(s), False))
def real_atom(a):
    k = a[0]
    if k == "sym": return a[2]
    if k == "el": return a[3]
    if k in ("prime", "i", "inat"): return True
    if k == "exp": return not a[1] and real_term(a[2])
    if k == "poly": return real_S(S(dict(a[1])))
    if k in ("fn", "app"): return a[3]
    if k == "powi": return real_S(a[1]) if isinstance(a[1], S) else True
    return False
def real_term(m): return all(real_atom(a) for a, _ in m[2])
def real_S(s): return all(c[1] == 0 and real_term(m) for m, c in s.t.items())
def conj_atom(a):
    """conjugate as (atom, exponent sign)"""
    k = a[0]
    if real_atom(a): return a, 1
    if k == "sym": return ("sym", a[1], a[2], not a[3]), 1
    if k == "el": return a[:4] + (not a[4],), 1
    if k == "exp":
        if real_term(a[2]): return a, -1
        (m, c), = conj(S({a[2]: G1})).t.items()
        if c not in (G1, (Fraction(-1), Fraction(0))): raise Unsupported("conj of exp")
        return ("exp", a[1], m), (-1 if a[1] else 1) * int(c[0])
    if k == "poly": return ("poly", conj(S(dict(a[1]))).key()), 1
    if k == "fn": return a[:4] + (not a[4],) + a[5:], 1
    if k == "app": return a[:4] + (not a[4],), 1
    if k == "powi": return ("powi", conj(a[1]), a[2]), 1
    raise Unsupported("conj of %r" % (a,))
def conj(s):
    s = toS(s); r = {}
    for (b, g, f), c in s.t.items():
        nf = {}
        for a, e in f:
            a2, sg = conj_atom(a); nf[a2] = nf.get(a2, 0) + sg * e
        k = canon(b, g, tuple(sorted(((a, e) for a, e in nf.items() if e), key=skey)))
        r[k] = gadd(r.get(k, G0), (c[0], -c[1]))
    return S(r)
HALF = S({ONE_T: (Fraction(1, 2), Fraction(0))})
def re_(s): s = toS(s); return s if real_S(s) else (s + conj(s)) * HALF
def im_(s): s = toS(s); return ZERO if real_S(s) else (s - conj(s)) * HALF * (-IM)

# ------------------------------------------------------------------ symbolic sums
def bind(s, name, h):
    """Sum_{name=0}^{h-1} s"""
    r = ZERO; acc = {}
    for (b, g, f), c in s.t.items():
        if name not in vars_of((b, f)) and not any(name in bvars(x) for x in g):
            r = r + S({(b, g, f): c}) * toS(h); continue
        n = len(b)
        # the new variable becomes @0 (bounds may mention it), the others shift
        mp = {"@%d" % i: ivar("@%d" % (i + 1)) for i in range(n)}
        mp[name] = ivar("@0")
        b2 = (h,) + tuple(rename_obj(x, mp) for x in b)
        k = canon(b2, tuple(rename_obj(x, mp) for x in g), ren_factors(f, mp))
        acc[k] = gadd(acc.get(k, G0), c)
    return r + S(acc)
def lin(x, name):
    """(coef, rest) if the int term is linear in variable name, else None"""
    if isinstance(x, int): return 0, x
    c = 0; rest = {}
    for m, v in x.t.items():
        if m == (("v", name),): c = v
        elif any(name in vars_of(a) for a in m): return None
        else: rest[m] = v
    return c, simpI(I(rest))
def cval(n):
    """the constant that the equality facts of the path force on an integer term, or the term itself"""
    if isinstance(n, int): return n
    mp = ctx().eqsubst()
    if mp:
        v = substI(n, mp)
        if isinstance(v, int) or v.const() is not None: return v if isinstance(v, int) else v.const()
    return n
def ssum(lo, hi, fn, cur=None):
    """Sum_{k=lo}^{hi-1} fn(k), fn evaluated with region splitting"""
    n = hi - lo
    if isinstance(n, int):
        r = ZERO
        for k in range(n): r = r + toS(fn(lo + k))
        return r
    c = ctx(); n = cval(n)
    if isinstance(n, int):
        r = ZERO
        for k in range(n): r = r + toS(fn(lo + k))
        return r
    if decide(ble(n, 0)): return ZERO
    name = c.fresh("s"); k = ivar(name)
    leaves = c.explore(lambda: toS(fn(k + lo)), "sum", [name], [ble(0, k), blt(k, n)])
    total = ZERO
    for lits, val in siblings(leaves):
        if not val.t: continue
        total = total + region_sum(name, n, [x for x in lits], val)
    return total
def siblings(leaves):
    """join the two sides of a case distinction that makes no difference"""
    out = []
    for lits, val in leaves:
        lits = list(lits)
        while out and lits and len(out[-1][0]) == len(lits) and out[-1][1] == val and out[-1][0][:-1] == lits[:-1] and bnot(out[-1][0][-1]) == lits[-1]: lits = lits[:-1]; out.pop()
        out.append((lits, val))
    return out
def fn_ids(x, acc=None):
    """opaque functions occurring in a value"""
    if acc is None: acc = set()
    if isinstance(x, S):
        for m in x.t: fn_ids(m, acc)
    elif isinstance(x, tuple):
        if x and x[0] == "fn" and len(x) == 5: acc.add(x[1])
        else:
            for y in x: fn_ids(y, acc)
    return acc
def region_sum(name, n, lits, val):
    """Sum over 0<=name<n satisfying lits of val"""
    hid = ctx().hidden
    if hid and any(name in hid.get(i, ()) for i in fn_ids(val)): raise Unsupported("sum over an index inside the argument of an opaque function")
    los, his, eqs, nes, gs = [0], [n], [], [], []
    k = ivar(name)
    for x in lits:
        if name not in bvars(x):
            raise Unsupported("literal without the summation variable")
        y = x.args[0] if x.op == "not" else x
        l = lin(y.args[0], name) if y.op in ("le", "eq") else None
        if l is None or abs(l[0]) != 1: gs.append(x); continue
        co, rest = l
        if y.op == "le" and x.op != "not":
            if co == 1: his.append(1 - rest)
            else: los.append(rest)
        elif y.op == "eq":
            e = rest * (-co)
            (nes if x.op == "not" else eqs).append(e)
        else: gs.append(x)
    if eqs:
        e = eqs[0]
        conds = [ble(l, e) for l in los] + [blt(e, h) for h in his] + [beq(e, q) for q in eqs[1:]] + [bnot(beq(e, q)) for q in nes] + [substB(g, {name: e}) for g in gs]
        for q in conds:
            if not decide(q): return ZERO
        return subst(val, {name: e})
    lo = los[0]
    for l in los[1:]:
        if decide(blt(lo, l)): lo = l
    hi = his[0]
    for h in his[1:]:
        if decide(blt(h, hi)): hi = h
    if decide(ble(hi, lo)): return ZERO
    r = ZERO
    v2 = subst(val, {name: k + lo}) if lo != 0 else val
    g2 = [substB(g, {name: k + lo}) for g in gs] if lo != 0 else gs
    if g2:
        v2 = S({(b, g + tuple(x for x in g2), f): c for (b, g, f), c in v2.t.items()})
        acc = ZERO
        for (b, g, f), c in v2.t.items():
            m = len(b); mp = {"@%d" % i: ivar("@%d" % (i + 1)) for i in range(m)}; mp[name] = ivar("@0")
            acc = acc + S({canon((hi - lo,) + tuple(rename_obj(x, mp) for x in b), tuple(rename_obj(x, mp) for x in g), ren_factors(f, mp)): c})
        r = acc
    elif isinstance(hi - lo, int):
        for q in range(hi - lo): r = r + subst(v2, {name: q})
    else: r = bind(v2, name, hi - lo)
    seen = []
    for e in nes:
        if any(decide(beq(e, q)) for q in seen): continue
        seen.append(e)
        if decide(band(ble(lo, e), blt(e, hi))):
            if g2 and not all(decide(substB(g, {name: e - lo})) for g in g2): continue
            r = r - subst(val, {name: e})
    return r

# ------------------------------------------------------------------ zero test
def clear_den(s):
    """multiply by polynomial atoms with negative integer exponents until none is left"""
    for _ in range(12):
        neg = {}
        for (b, g, f), c in s.t.items():
            for a, e in f:
                if e < 0 and a[0] == "poly": neg[a] = min(neg.get(a, 0), e)
        neg = {a: e for a, e in neg.items() if not any(v.startswith("@") for v in vars_of(a))}
        if not neg: return s
        a, e = sorted(neg.items(), key=skey)[0]
        k = -((e) // 1)
        s = s * satom_raw(a, k)
    return s
def satom_raw(a, k): return S({((), (), ((a, Fraction(k)),)): G1}) if a[0] != "poly" else PolyPow(a, k)
class PolyPow:
    """p^k kept symbolic so that negative powers cancel before expansion"""
    def __init__(self, a, k): self.a, self.k = a, Fraction(k)
    def __rmul__(self, s):
        out = ZERO
        for (b, g, f), c in s.t.items():
            d = dict(f); e = d.pop(self.a, Fraction(0)) + self.k
            base = S({(b, g, tuple(sorted(d.items(), key=skey))): c})
            out = out + (base * satom_e2(self.a, e) if e else base)
        return out
S_mul_orig = S.__mul__
def _mul(self, o):
    if isinstance(o, PolyPow): return o.__rmul__(self)
    return S_mul_orig(self, o)
S.__mul__ = _mul
def peel(s):
    """bring sums of the same body to the same upper limit when limits differ by a constant"""
    groups = {}
    for (b, g, f), c in s.t.items():
        if len(b) == 1 and not g: groups.setdefault(f, []).append((b[0], c))
    for f, lst in groups.items():
        if len(lst) < 2: continue
        lst = sorted(lst, key=skey); h0 = lst[0][0]
        for h, c in lst[1:]:
            d = h - h0
            if isinstance(d, int) and 0 < abs(d) <= 4:
                s = s - S({((h,), (), f): c})
                s = s + S({((h0,), (), f): c})
                body = S({((), (), ren_factors_free(f)): c})
                rng = range(d) if d > 0 else range(d, 0)
                for q in rng:
                    t = subst(body, {"%b": h0 + q}); s = s + (t if d > 0 else -t)
                return peel(s)
    return s
def ren_factors_free(f):
    return tuple(sorted(ren_factors(f, {"@0": ivar("%b")}), key=skey))
def modulus(m):
    """the monomial is a squared modulus (times positive factors)"""
    d = {a: e for a, e in m[2] if not positive(a) and not (a[0] == "poly" and all(v[1] == 0 and v[0] > 0 and not k[0] and not k[1] and modulus(k) for k, v in a[1]))}
    return all((real_atom(a) and e % 2 == 0) or (not real_atom(a) and a[0] in ("el", "sym", "fn") and d.get(conj_atom(a)[0]) == e) for a, e in d.items())
def zero_atoms(c):
    """atoms that the path facts force to zero"""
    z = set(); eqs = [l.args[2] for fr in c.frames for l in fr.lits if isinstance(l, B) and l.op == "opq" and l.args[:2] == ("real", "eq")]
    again = bool(eqs)
    while again:
        again = False
        for q in eqs:
            t = {m: v for m, v in q.t.items() if not any(a in z and e > 0 for a, e in m[2])}
            if any(m[0] or m[1] for m in t): continue
            # a single term, or a sum of squared moduli
            if len(t) > 1 and not all(v[1] == 0 and v[0] > 0 and modulus(m) for m, v in t.items()): continue
            for m in t:
                at = {a for a, e in m[2] if not positive(a) and a[0] != "poly"}; at = {a for a in at if not (len(at) > 1 and a[-1] is True and conj_atom(a)[0] in at)}
                if len(at) == 1:
                    (a,) = at
                    if a[0] in ("el", "sym", "fn") and a not in z: z.add(a); z.add(conj_atom(a)[0]); again = True
    return z
def lin_eqs(c): return [q for fr in c.frames for l in fr.lits if isinstance(l, B) and l.op == "opq" and l.args[:2] == ("lin", "zero") for q in l.args[2:]]
def eliminate(eqs):
    """solution of linear equations with constant coefficients between numbers: {atom: value}; None without a solution; raises ValueError when an
    equation is not of this kind"""
    mp = {}; todo = list(eqs); steps = 0
    while todo:
        q = lin_sub(todo.pop(0), mp)
        if not q.t: continue
        if q.const() is not None: return None
        at = []
        for (bd, g, f), v in q.t.items():
            if bd or g or len(f) > 1 or (f and (f[0][1] != 1 or f[0][0][0] not in ("el", "sym") or (f[0][0][0] == "el" and any(isinstance(i, I) for i in f[0][0][2])))): raise ValueError("not linear")
            if f: at.append((f[0][0], v))
        if any(positive(a) for a, _ in at): raise ValueError("sign")
        re = [real_atom(a) for a, _ in at]
        if all(re):     # real and imaginary part
            for pt in (0, 1):
                r = S({m: (v[pt], Fraction(0)) for m, v in q.t.items()})
                if not r.t: continue
                if r.const() is not None: return None
                (m, v) = next((m, v) for m, v in r.t.items() if m[2]); a = m[2][0][0]
                x = toS((satom(a) - r.scale(ginv(v)))); one = {a: x}
                mp = {k: lin_sub(w, one) for k, w in mp.items()}; mp[a] = x
                q = lin_sub(q, one)
            continue
        cx = [(a, v) for (a, v), r in zip(at, re) if not r]
        if len({a[-1] for a, _ in cx}) > 1:      # numbers and their conjugates: a real equation is solved for a conjugate, others are split
            steps += 1
            if steps > 400: raise ValueError("mixed with conjugates")
            cq = conj(q)
            if (q - cq).t:
                todo[:0] = [z for z in (q + cq, (q - cq) * IM) if z.t]; continue
            a, v = next((a, v) for a, v in cx if a[-1]); one = {a: satom(a) - q.scale(ginv(v))}
            if any(m[0] == a for w in one.values() for t in w.t for m in t[2]): raise ValueError("mixed with conjugates")
            mp = {k: lin_sub(w, one) for k, w in mp.items()}; mp.update(one); continue
        a, v = cx[0]; x = satom(a) - q.scale(ginv(v)); one = {a: x, conj_atom(a)[0]: conj(x)}
        mp = {k: lin_sub(w, one) for k, w in mp.items()}; mp.update(one)
    return mp
def lin_sub(s, mp):
    if not mp: return s
    r = ZERO
    for m, v in s.t.items():
        if m[0] or m[1] or not any(touches(a, mp) for a, _ in m[2]): r = r + S({m: v}); continue
        t = S({((), (), ()): v})
        for a, e in m[2]:
            if a in mp: t = t * spow(mp[a], e)
            elif a[0] == "poly" and touches(a, mp): t = t * spow(lin_sub(S(dict(a[1])), mp), e)
            elif a[0] == "exp" and touches(a, mp): t = t * s_exp(lin_sub(S({a[2]: G1}), mp) * toS(e) * (IM if a[1] else ONE))
            else: t = t * satom_e2(a, e)
        r = r + t
    return r
def touches(a, mp): return a in mp or (a[0] == "poly" and any(touches(x, mp) for m, _ in a[1] for x, _ in m[2])) or (a[0] == "exp" and any(touches(x, mp) for x, _ in a[2][2]))
def lin_map(c):
    eqs = tuple(lin_eqs(c))
    if not eqs: return None
    if eqs not in c.lincache:
        try: c.lincache[eqs] = eliminate(eqs)
        except ValueError: c.lincache[eqs] = {}
    return c.lincache[eqs]
def drop_zero(s):
    c = ctx(); lm = lin_map(c)
    if lm:
        s = lin_sub(s, lm)
        for fr in c.frames:
            for l in fr.lits:      # contradictory path facts: nothing to show
                if isinstance(l, B) and l.op == "not" and isinstance(l.args[0], B) and l.args[0].op == "opq" and l.args[0].args[:2] == ("real", "eq") and not lin_sub(l.args[0].args[2], lm).t: return ZERO
    z = zero_atoms(c)
    if not z: return s
    for fr in c.frames:
        for l in fr.lits:      # contradictory path facts: nothing to show
            if isinstance(l, B) and l.op == "not" and isinstance(l.args[0], B) and l.args[0].op == "opq" and l.args[0].args[:2] == ("real", "eq") and not zsub(l.args[0].args[2], z).t: return ZERO
    return zsub(s, z)
def zsub(s, z):
    """s with the atoms z replaced by zero, also inside powers of polynomials"""
    r = ZERO
    for m, v in s.t.items():
        if any(a in z and e > 0 for a, e in m[2]): continue
        ps = [(a, e) for a, e in m[2] if a[0] == "poly"]
        if not ps or m[0] or m[1]: r = r + S({m: v}); continue
        t = S({(m[0], m[1], tuple(x for x in m[2] if x[0][0] != "poly")): v})
        for a, e in ps:
            q = S(dict(a[1])); q2 = zsub(q, z)
            t = t * (S({((), (), ((a, e),)): G1}) if q2 == q else spow(q2, e))
        r = r + t
    return r
def cyclo_reduce(s, N):
    """powers of the primitive root of unity exp(2 pi i/N) in the basis below the degree of its minimal polynomial"""
    PI = ("exp", True, ((), (), ((("sym", "pi", True, False), Fraction(1)),))); r = ZERO
    from sympy import cyclotomic_poly, Poly, symbols
    x = symbols("x"); P = [int(v) for v in Poly(cyclotomic_poly(N, x), x).all_coeffs()][::-1]; d = len(P) - 1
    def red(j):
        v = [0] * max(N, d + 1); v[j] = 1
        for k in range(len(v) - 1, d - 1, -1):
            q = v[k]
            if q:
                for t in range(d + 1): v[k - d + t] -= q * P[t]
        return v[:d]
    for (b, g, f), c in s.t.items():
        e = dict(f).get(PI)
        if e is None: r = r + S({(b, g, f): c}); continue
        j = e * N / 2
        if j.denominator != 1: raise Unsupported("another root of unity")
        rest = tuple((a, q) for a, q in f if a != PI)
        for t, v in enumerate(red(int(j) % N)):
            if v: r = r + S({(b, g, rest): gmul(c, (Fraction(v), Fraction(0)))}) * (satom_e2(PI, Fraction(2 * t, N)) if t else ONE)
    return r
def is_zero(s):
    if not s.t: return True
    N = getattr(ctx(), "cyclo", None)
    if N:
        s = cyclo_reduce(s, N)
        if not s.t: return True
    c = ctx(); s = drop_zero(s)
    if not s.t: return True
    s0 = s; mp = c.eqsubst()
    if mp: s = subst(s, mp)
    if settle(s): return True
    if mp:
        m2 = forced(s0)
        if m2: s = subst(s0, m2); return settle(subst(s, {k: substI(toI(v), m2) for k, v in mp.items() if k not in m2}))
    return False
def settle(s):
    if not s.t: return True
    mp = forced(s)
    if mp: s = subst(s, mp)
    if not s.t: return True
    s = clear_den(s)
    if not s.t: return True
    s = unify_fns(s)
    if not s.t: return True
    s = unify_bounds(s)
    if not s.t: return True
    s = peel(s)
    if not s.t: return True
    s = clear_den(s)
    return not s.t
def forced(s):
    """integer variables of s that the path facts force to a constant"""
    c = ctx(); mp = {}; vs = sorted(v for v in vars_of(tuple(s.t)) if not v.startswith(("@", "s#", "%")))
    if len(vs) > 8: return mp
    for v in vs:
        x = ivar(v)
        for lo in (0, 1, 2, 3):
            b = beq(x, lo)
            if isinstance(b, B) and c.check([b]) is not False:
                if c.entails(b): mp[v] = lo
                break
    return mp
def unify_bounds(s):
    """identify index terms and summation limits that are equal under the current facts"""
    c = ctx(); reps = []
    def rep(i):
        if isinstance(i, int) or any(v.startswith("@") or v.startswith("s#") for v in vars_of(i)): 
            return i
        for r in reps:
            if r == i: return r
        for r in reps:
            if c.entails(beq(i, r)): return r
        # prefer constants
        reps.append(i); return i
    def fix(a):
        if a[0] in ("el", "fn"): return a[:2] + (tuple(rep(i) for i in a[2]),) + a[3:]
        if a[0] == "powi": return ("powi", a[1], rep(a[2]))
        return a
    out = {}
    for (b, g, f), v in s.t.items():
        b2 = tuple(rep(h) for h in b)
        d = {}
        for a, e in f:
            a2 = fix(a); d[a2] = d.get(a2, 0) + e
        k = canon(b2, g, tuple(sorted(((a, e) for a, e in d.items() if e), key=skey)))
        out[k] = gadd(out.get(k, G0), v)
    return S(out)
def unify_fns(s):
    """identify opaque functions of arrays whose arguments are equal under the current facts"""
    c = ctx(); ids = {}
    for (b, g, f), v in s.t.items():
        for a, e in f:
            if a[0] == "fn": ids.setdefault(a[1], None)
    if len(ids) < 2: return s
    lst = sorted(ids); mp = {}
    for i, x in enumerate(lst):
        for y in lst[:i]:
            if mp.get(y, y) == y and c.fns[x].same(c.fns[y]): mp[x] = y; break
    if not mp: return s
    out = {}
    for (b, g, f), v in s.t.items():
        d = {}
        for a, e in f:
            if a[0] == "fn" and a[1] in mp: a = ("fn", mp[a[1]]) + a[2:]
            d[a] = d.get(a, 0) + e
        k = canon(b, g, tuple(sorted(((a, e) for a, e in d.items() if e), key=skey)))
        out[k] = gadd(out.get(k, G0), v)
    return S(out)
def deriv(s, x):
    """derivative of s (no sums, no guards) in the symbol x"""
    ((m, c),) = x.t.items(); ((xa, e),) = m[2]; out = ZERO
    for (b, g, f), v in s.t.items():
        if b or g: raise Unsupported("derivative of a sum")
        for q, (a, e) in enumerate(f):
            rest = S({((), (), f[:q] + f[q + 1:]): v})
            if a == xa: d = S({((), (), ((a, e - 1),)): (e, Fraction(0))}) if e != 1 else ONE
            elif a[0] == "exp":
                i = deriv(S({a[2]: G1}), x)
                if not i.t: continue
                d = S({((), (), ((a, e),)): (e, Fraction(0))}) * i * (IM if a[1] else ONE)
            elif a[0] == "poly":
                i = deriv(S(dict(a[1])), x)
                if not i.t: continue
                d = S({((), (), ((a, e - 1),)): (e, Fraction(0))}) * i if e != 1 else i
            elif a[0] == "el" and xa[0] == "el": continue
            elif repr(xa[1]) in repr(a): raise Unsupported("derivative of %r" % (a,))
            else: continue
            out = out + rest * d
    return out
def equal(a, b): return is_zero(toS(a) - toS(b))
