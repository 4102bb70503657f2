"""dv arrays: shape + element function over a heap cell (Root); views keep a map to the root, so that writes
and the frame condition are decided on the storage, not on the name."""
from fractions import Fraction
import itertools
from core import *
import core

class Poison:
    """value that must not be used"""
    def __init__(self, why): self.why = why
KINDS = {"bool": 0, "int": 1, "real": 2, "complex": 3, "obj": 4}
def kmax(*ks): return max(ks, key=lambda k: KINDS[k])

class Memo:
    """contents of an array as a function of the index; a value at constant indices is kept when its evaluation consulted
    neither a path decision nor the solver (so that it is the same on every path)"""
    __slots__ = ("f", "d")
    def __init__(self, f): self.f, self.d = f, {}
    def __call__(self, ix):
        for i in ix:
            if type(i) is not int: return self.f(ix)
        v = self.d.get(ix)
        if v is None:
            c = core.Ctx.cur; k = c.consulted
            v = self.f(ix)
            if c.consulted == k: self.d[ix] = v
        return v
def memoised(f): return f if f is None or isinstance(f, Memo) else Memo(f)
class Root:
    n = 0
    __slots__ = ("shape", "_get", "origin", "id", "log", "writes", "kind")
    @property
    def get(self): return self._get
    @get.setter
    def get(self, f): self._get = memoised(f)
    def __init__(self, shape, get, kind, origin="fresh"):
        self.shape, self.get, self.kind, self.origin = tuple(shape), get, kind, origin
        Root.n += 1; self.id = Root.n; self.log = None; self.writes = 0
class Arr:
    __slots__ = ("shape", "kind", "root", "desc", "xf", "sparse")
    def __init__(self, shape, get=None, kind="complex", origin="fresh", root=None, desc=None, xf=None):
        self.shape = tuple(shape); self.kind = kind; self.sparse = None      # SciPy sparse format
        self.root = root or Root(shape, get, kind, origin)
        self.desc = desc or [("ax", d, 0, 1) for d in range(len(self.shape))]
        self.xf = xf          # read-only elementwise view (real/imag/conj of a view)
    @property
    def ndim(self): return len(self.shape)
    def rootidx(self, idx):
        r = []
        for d in self.desc:
            if d[0] == "fix": r.append(d[1])
            else:
                _, ax, st, sp = d; r.append(st + (idx[ax] * sp if sp != 1 else idx[ax]))
        return tuple(r)
    def get(self, *idx):
        v = self.root.get(self.rootidx(idx))
        if isinstance(v, Poison): raise Unsupported(v.why)
        return self.xf(v) if self.xf else v
    def snapshot(self):
        """element function of the current contents (later writes do not change it)"""
        g, desc, xf = self.root.get, self.desc, self.xf
        me = Arr(self.shape, kind=self.kind, root=self.root, desc=desc, xf=xf)
        def f(*idx):
            v = g(me.rootidx(idx))
            if isinstance(v, Poison): raise Unsupported(v.why)
            return xf(v) if xf else v
        return f
    def __repr__(self): return "Arr%s:%s" % (self.shape, self.kind)
    def fullroot(self):
        return self.xf is None and all(d == ("ax", i, 0, 1) for i, d in enumerate(self.desc)) and len(self.desc) == len(self.shape)
class SymList:
    """python list of symbolic length (read only)"""
    def __init__(self, n, fn): self.n, self.fn = n, fn
class IntSeq:
    """a list/tuple parameter of distinct ints w[0..L), each in [0, ub)"""
    def __init__(self, name, n, ub=None, inj=True, typ=list): self.name, self.n, self.ub, self.inj, self.typ = name, n, ub, inj, typ; core.Ctx.cur.seqs[name] = (n, ub, inj)
    def fn(self, k): return mkapp(self.name, k)
def fresh_arr(shape, fn, kind): return Arr(shape, lambda ix: fn(*ix), kind)
def copy_arr(a):
    f = a.snapshot(); return Arr(a.shape, lambda ix: f(*ix), a.kind)
def kind_of(x):
    if isinstance(x, Arr): return x.kind
    if isinstance(x, (bool, B)): return "bool"
    if isint(x): return "int"
    if isinstance(x, S): return "real" if real_S(x) or not (x - conj(x)).t else "complex"
    if isinstance(x, (float, Fraction)): return "real"
    if isinstance(x, complex): return "complex"
    if isinstance(x, (list, tuple)): return kmax("bool", *[kind_of(y) for y in x])
    if isinstance(x, (SymList,)): return kind_of(x.fn(ivar(ctx().fresh("q"))))
    if isinstance(x, IntSeq): return "int"
    return "obj"
def to_arr(x):
    """np.array / np.asarray of anything (shares storage for Arr)"""
    if isinstance(x, Arr): return x
    if isinstance(x, IntSeq): return Arr((x.n,), lambda ix: x.fn(ix[0]), "int")
    if isinstance(x, SymList):
        n = x.n; nm = ctx().fresh("q")
        probe = []
        c = ctx()
        for _, r in c.explore(lambda: x.fn(ivar(nm)), "sum", [nm], [ble(0, ivar(nm)), blt(ivar(nm), n)]): probe.append(r)
        if not probe: return Arr((n,), lambda ix: ZERO, "real")
        p = probe[0]
        if isinstance(p, Arr) or isinstance(p, (SymList, list, tuple)):
            sh = to_arr(p).shape
            if nm in vars_of(tuple(z for z in sh if isinstance(z, I))): raise Unsupported("ragged list")
            return Arr((n,) + sh, lambda ix: to_arr(x.fn(ix[0])).get(*ix[1:]), kind_of(p))
        return Arr((n,), lambda ix: x.fn(ix[0]), kmax("bool", *[kind_of(r) for r in probe]))
    if isinstance(x, (list, tuple)):
        if len(x) == 0: return Arr((0,), lambda ix: ZERO, "real")
        subs = [to_arr(y) if isinstance(y, (list, tuple, Arr, SymList, IntSeq)) else y for y in x]
        if any(isinstance(y, Arr) for y in subs):
            sh = subs[0].shape; k = kmax(*[y.kind for y in subs])
            for y in subs:
                if not all(decide(beq(p, q)) for p, q in zip(y.shape, sh)): raise Unsupported("ragged array")
            fs = [y.snapshot() for y in subs]
            return Arr((len(x),) + sh, lambda ix: pick(ix[0], [lambda f=f: f(*ix[1:]) for f in fs]), k)
        vals = list(subs); k = kmax(*[kind_of(v) for v in vals])
        return Arr((len(vals),), lambda ix: pick(ix[0], [lambda v=v: v for v in vals]), k)
    if isinstance(x, (int, I, S, B, bool, Fraction, float, complex)):
        return Arr((), lambda ix: x, kind_of(x))
    raise Unsupported("array of %s" % type(x).__name__)
def pick(i, thunks):
    if isinstance(i, int): return thunks[i]()
    for q in range(len(thunks) - 1):
        if decide(beq(i, q)): return thunks[q]()
    return thunks[-1]()
# ---------------------------------------------------------------- elementwise
def num(x):
    """element as a number usable in arithmetic: I/int stays int, else S"""
    if isinstance(x, (bool,)): return int(x)
    if isinstance(x, B): return 1 if decide(x) else 0
    if isint(x) or isinstance(x, S): return x
    return toS(x)
def bshape(*shs):
    n = max(len(s) for s in shs); out = []
    for d in range(n):
        dims = [s[len(s) - n + d] for s in shs if len(s) - n + d >= 0]
        cur = 1
        for q in dims:
            if q == 1 and isinstance(q, int): continue
            if isinstance(cur, int) and cur == 1: cur = q
            elif cur == q: continue
            elif decide(beq(cur, q)): continue
            elif isinstance(q, I) and decide(beq(q, 1)): continue
            elif isinstance(cur, I) and decide(beq(cur, 1)): cur = q
            else: raise SymRaise("ValueError", "operands could not be broadcast together")
        out.append(cur)
    return tuple(out)
def bget(a, shape, ix):
    """element of a at broadcast index ix of the result shape"""
    off = len(shape) - len(a.shape); r = []
    for d, s in enumerate(a.shape):
        one = (isinstance(s, int) and s == 1) or (isinstance(s, I) and not isinstance(shape[off + d], int) and s != shape[off + d] and decide(beq(s, 1)))
        r.append(0 if one else ix[off + d])
    return a_get(a, r)
def a_get(f, r): return f.fn(*r) if isinstance(f, Snap) else f.get(*r)
class Snap:
    def __init__(self, a): self.shape, self.fn, self.kind = a.shape, a.snapshot(), a.kind
def elementwise(op, *xs, kind=None):
    """op on numbers lifted to arrays; scalars when no array is involved"""
    xs = [to_arr(x) if isinstance(x, (list, tuple, SymList, IntSeq)) else x for x in xs]
    if not any(isinstance(x, Arr) for x in xs): return op(*[x for x in xs])
    arrs = [Snap(x if isinstance(x, Arr) else to_arr(x)) for x in xs]
    sh = bshape(*[a.shape for a in arrs])
    k = kind(*[a.kind for a in arrs]) if callable(kind) else kind or kmax(*[a.kind for a in arrs])
    return Arr(sh, lambda ix: op(*[bget(a, sh, ix) for a in arrs]), k)
def arith(op, a, b):
    if op == "add": f = lambda x, y: num(x) + num(y)
    elif op == "sub": f = lambda x, y: num(x) - num(y)
    elif op == "mul": f = lambda x, y: num(x) * num(y)
    elif op == "div": f = lambda x, y: toS(num(x)) / toS(num(y))
    elif op == "fdiv": f = lambda x, y: floordiv(num(x), num(y))
    elif op == "mod": f = lambda x, y: imod(num(x), num(y))
    elif op == "pow": f = npow
    elif op == "bitand": f = lambda x, y: bitop("&", x, y)
    elif op == "bitor": f = lambda x, y: bitop("|", x, y)
    elif op == "xor": f = lambda x, y: bitop("^", x, y)
    elif op == "lsh": f = lambda x, y: x << y if isinstance(x, int) and isinstance(y, int) else x * mkpow2(y)
    elif op == "rsh": f = lambda x, y: x >> y if isinstance(x, int) and isinstance(y, int) else toI(x) // mkpow2(y)
    else: raise Unsupported(op)
    if op == "div": kind = lambda *ks: kmax("real", *ks)
    elif op in ("add", "sub", "mul", "pow", "fdiv", "mod"): kind = lambda *ks: kmax("int", *ks) if op != "add" or True else None
    else: kind = None
    return elementwise(f, a, b, kind=kind)
def bitop(o, x, y):
    if isinstance(x, (B, bool)) and isinstance(y, (B, bool)): return band(x, y) if o == "&" else bor(x, y) if o == "|" else bor(band(x, bnot(y)), band(bnot(x), y))
    if isinstance(x, int) and isinstance(y, int): return eval("x%sy" % o)
    if o == "&" and isinstance(y, int) and y == 1: return toI(x) % 2
    if o == "&" and isinstance(x, int) and x == 1: return toI(y) % 2
    if o == "&":       # m & (1 << j)
        pass
    return iapp("bit" + {"&": "and", "|": "or", "^": "xor"}[o], toI(x), toI(y))
def mkpow2(y): return iapp("pow2", y) if isinstance(y, I) else 2 ** y
def floordiv(x, y):
    if isint(x) and isint(y): return x // y if isinstance(x, int) and isinstance(y, int) else toI(x) // y
    c = as_int(x), as_int(y)
    if c[0] is not None and c[1] is not None: return toS(floordiv(*c))
    raise Unsupported("floor division of reals")
def imod(x, y):
    if isint(x) and isint(y): return x % y if isinstance(x, int) and isinstance(y, int) else toI(x) % y
    c = as_int(x), as_int(y)
    if c[0] is not None and c[1] is not None: return imod(*c)
    if isinstance(x, S) and c[1] == 1:
        k = next((cf for m, cf in x.t.items() if not m[0] and not m[1] and not m[2]), None)
        if k is not None and k[1] == 0 and as_int(x - toS(k[0])) is not None: return toS(k[0] - (k[0].numerator // k[0].denominator))
    raise Unsupported("mod of reals")
def npow(x, y):
    x, y = num(x), num(y)
    if isinstance(x, int) and isinstance(y, int): return x ** y if y >= 0 else toS(Fraction(x) ** y)
    if isinstance(y, S):
        ci = as_int(y)
        if ci is not None: y = ci
    if isint(y) and isinstance(y, int):
        if isint(x) and y >= 0: return toI(x) ** y if isinstance(x, I) else x ** y
        return toS(x) ** y
    if isinstance(y, I):
        if isinstance(x, int) and x == 2: return mkpow2(y)
        if isinstance(x, int) and x == -1:
            if decide(beq(toI(y) % 2, 0)): return 1
            return -1
        return pow_sym(toS(x), y)
    return toS(x) ** y
def pow_sym(x, y):
    """x**y for symbolic integer y: x^(y0+c) = x^c * powi(x, y0)"""
    y = toI(y); c = y.t.get((), 0); rest = simpI(y - c)
    r = ONE
    if isint(rest) and not isinstance(rest, int): r = satom(("powi", x, rest)) if x != ONE else ONE
    if c: r = r * spow(x, c)
    return r
def as_int(x):
    """int value (int or I) of a number known to be an integer, else None"""
    if isint(x): return x
    if isinstance(x, bool): return int(x)
    x = toS(x)
    r = 0
    for (b, g, f), c in x.t.items():
        if b or g or c[1] != 0 or c[0].denominator != 1: return None
        p = int(c[0])
        for a, e in f:
            if a[0] == "i" and e.denominator == 1 and e > 0:
                for _ in range(int(e)): p = p * iatom(a[1])
            elif a[0] == "inat" and e == 1: p = p * a[1]
            else: return None
        r = r + p
    return r
def algebraic_sign(d):
    """sign of a sum of rational multiples of powers of primes (exact zero is recognised by the normal form), else None"""
    import decimal
    tot = decimal.Decimal(0); mag = decimal.Decimal(1)
    with decimal.localcontext() as cx:
        cx.prec = 60
        for m, c in d.t.items():
            if m[0] or m[1] or c[1] != 0 or any(at[0] != "prime" for at, e in m[2]): return None
            v = decimal.Decimal(c[0].numerator) / decimal.Decimal(c[0].denominator)
            for at, e in m[2]: v = v * decimal.Decimal(int(at[1])) ** (decimal.Decimal(e.numerator) / decimal.Decimal(e.denominator))
            tot += v; mag += abs(v)
        if not d.t: return 0
        if abs(tot) > mag * decimal.Decimal(10) ** -40: return 1 if tot > 0 else -1
    return None
def compare(op, x, y):
    x, y = (num(x), num(y)) if not isinstance(x, B) and not isinstance(y, B) else (x, y)
    if isint(x) and isint(y):
        return {"==": beq, "!=": lambda a, b: bnot(beq(a, b)), "<": blt, "<=": ble, ">": lambda a, b: blt(b, a), ">=": lambda a, b: ble(b, a)}[op](x, y)
    d = toS(x) - toS(y); ci = as_int(d)
    if ci is not None: return compare(op, ci, 0)
    c = d.const()
    if c is not None:
        if op == "==": return c == G0
        if op == "!=": return c != G0
        if c[1] != 0: raise Unsupported("ordering of complex numbers")
        v = c[0]
        return {"<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
    v = algebraic_sign(d)
    if v is not None: return {"==": v == 0, "!=": v != 0, "<": v < 0, "<=": v <= 0, ">": v > 0, ">=": v >= 0}[op]
    if op == "==": return opq("real", "eq", d)
    if op == "!=": return bnot(opq("real", "eq", d))
    if op == "<": return opq("real", "lt", d)
    if op == "<=": return opq("real", "le", d)
    if op == ">": return opq("real", "lt", -d)
    return opq("real", "le", -d)
# ---------------------------------------------------------------- indexing
def norm_index(i, n):
    if isinstance(i, S):
        i = as_int(i)
        if i is None: raise SymRaise("IndexError", "non-integer index")
    if isinstance(i, int) and isinstance(n, int):
        if not -n <= i < n: raise SymRaise("IndexError", "index %d out of range %d" % (i, n))
        return i % n if n else i
    if isinstance(i, int) and i < 0: i2 = n + i
    elif isinstance(i, int): i2 = i
    else: i2 = n + i if decide(blt(i, 0)) else i
    if not decide(band(ble(0, i2), blt(i2, n))): raise SymRaise("IndexError", "index %r out of range %r" % (i, n))
    return i2
def imin(a, b):
    if isinstance(a, int) and isinstance(b, int): return min(a, b)
    return a if decide(ble(a, b)) else b
def imax(a, b):
    if isinstance(a, int) and isinstance(b, int): return max(a, b)
    return a if decide(ble(b, a)) else b
def norm_slice(s, n):
    """slice -> (start, length, step)"""
    st = 1 if s.step is None else s.step
    cv = lambda v: v if v is None or isint(v) else as_int(v)
    lo, hi = cv(s.start), cv(s.stop)
    if isinstance(st, int) and st == -1 and lo is None and hi is None: return (n - 1, n, -1)
    if not isinstance(st, int) or st < 1: raise Unsupported("slice step")
    def fix(v, d):
        if v is None: return d
        neg = v < 0 if isinstance(v, int) else decide(blt(v, 0))
        if neg: v = n + v; return imax(v, 0)
        return imin(v, n)
    lo, hi = fix(lo, 0), fix(hi, n)
    ln = hi - lo
    ln = max(ln, 0) if isinstance(ln, int) else imax(ln, 0)
    if st != 1: ln = (ln + (st - 1)) // st
    return (lo, ln, st)
NOINDEX = {"coo_array", "dia_array", "bsr_array"}
def index(a, key):
    """a[key] for an Arr: view for basic indexing, copy for fancy indexing, number for full indices"""
    if a.sparse in NOINDEX: raise SymRaise("TypeError", "object is not subscriptable")
    if not isinstance(key, tuple): key = (key,)
    if any(k is Ellipsis for k in key):
        p = [i for i, k in enumerate(key) if k is Ellipsis][0]
        used = sum(1 for k in key if k is not None and k is not Ellipsis)
        key = key[:p] + (slice(None),) * (a.ndim - used) + key[p + 1:]
    key = tuple(to_arr(k) if isinstance(k, (list, IntSeq, SymList)) else k for k in key)
    if any(isinstance(k, Arr) and k.ndim > 0 for k in key): return fancy(a, key)
    key = tuple(k.get() if isinstance(k, Arr) else k for k in key)
    used = sum(1 for k in key if k is not None)
    if used > a.ndim: raise SymRaise("IndexError", "too many indices")
    key = key + (slice(None),) * (a.ndim - used)
    desc = list(a.desc); shape = []; ax = 0; newpos = {}; fixes = {}
    for k in key:
        if k is None: shape.append(1); continue
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, a.shape[ax]); newpos[ax] = (len(shape), st, sp); shape.append(ln)
        else: fixes[ax] = norm_index(k, a.shape[ax])
        ax += 1
    nd = []
    for d in a.desc:
        if d[0] == "fix": nd.append(d); continue
        _, x, st, sp = d
        if x in fixes: nd.append(("fix", st + fixes[x] * sp))
        else:
            p, s2, sp2 = newpos[x]; nd.append(("ax", p, st + s2 * sp, sp * sp2))
    if not shape:
        v = a.root.get(tuple(d[1] for d in nd))
        if isinstance(v, Poison): raise Unsupported(v.why)
        return a.xf(v) if a.xf else v
    return Arr(shape, kind=a.kind, root=a.root, desc=nd, xf=a.xf)
def fancy(a, key):
    key = key + (slice(None),) * (a.ndim - len(key))
    if any(k is None for k in key): raise Unsupported("newaxis with fancy index")
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "bool": raise Unsupported("boolean mask")
    f = a.snapshot()
    if any(isinstance(k, Arr) and k.kind == "bool" for k in key): raise Unsupported("boolean mask")
    adv = [i for i, k in enumerate(key) if not isinstance(k, slice)]
    arrs = {i: Snap(key[i] if isinstance(key[i], Arr) else to_arr(key[i])) for i in adv}
    bs = bshape(*[s.shape for s in arrs.values()])
    for i in adv: check_index_array(arrs[i], a.shape[i])
    contiguous = adv == list(range(adv[0], adv[-1] + 1))
    sl = {i: norm_slice(k, a.shape[i]) for i, k in enumerate(key) if isinstance(k, slice)}
    shape = []; pos = {}
    if contiguous:
        for i in range(len(key)):
            if i == adv[0]: pos["adv"] = len(shape); shape += list(bs)
            if i in sl: pos[i] = len(shape); shape.append(sl[i][1])
    else:
        pos["adv"] = 0; shape += list(bs)
        for i in sorted(sl): pos[i] = len(shape); shape.append(sl[i][1])
    dims = a.shape
    def g(ix):
        b = ix[pos["adv"]:pos["adv"] + len(bs)]; r = []
        for i in range(len(key)):
            if i in sl: r.append(sl[i][0] + ix[pos[i]] * sl[i][2])
            else:
                v = bget(arrs[i], bs, b); r.append(wrapneg(v, dims[i]))
        return f(*r)
    return Arr(shape, g, a.kind)
def wrapneg(v, n):
    if isinstance(v, S): v = as_int(v)
    if isinstance(v, int): return v if v >= 0 else n + v
    return n + v if decide(blt(v, 0)) else v
def check_index_array(s, n):
    c = ctx(); names = [c.fresh("x") for _ in s.shape]; ix = [ivar(x) for x in names]
    facts = [z for x, d in zip(ix, s.shape) for z in (ble(0, x), blt(x, d))]
    if s.kind not in ("int", "bool") and not (len(s.shape) == 1 and s.shape[0] == 0): raise SymRaise("IndexError", "arrays used as indices must be of integer type")
    if any(isinstance(d, int) and d == 0 for d in s.shape): return
    def ok():
        v = s.fn(*ix)
        if isinstance(v, S): v = as_int(v)
        return c.entails(band(ble(-n, v), blt(v, n)))
    if not c.query(ok, names, facts):
        # decide in-range element by element where possible, else undecided
        raise SymRaise("IndexError", "index array may leave range %r" % (n,))
def invert(fn, L, t):
    """solve fn(k) == t for 0<=k<L: returns [(cond, k)] alternatives (fn injective)"""
    c = ctx()
    if isinstance(L, int) and L <= 8:
        return [(beq(toI(fn(q)), t), q) for q in range(L)]
    nm = c.fresh("y"); k = ivar(nm)
    outs = c.explore(lambda: fn(k), "sum", [nm], [ble(0, k), blt(k, L)])
    res = []
    for lits, e in outs:
        if isinstance(e, S): e = as_int(e)
        sol = solve1(e, nm, t)
        if sol is None: raise Unsupported("cannot invert index map %r" % (e,))
        cond, k0 = sol
        res.append((band(cond, ble(0, k0), blt(k0, L), *[substB(x, {nm: k0}) for x in lits]), k0))
    return res
def solve1(e, nm, t):
    """solve e(nm) == t for nm: (cond, value) or None"""
    if isinstance(e, int): return None
    l = lin(e, nm)
    if l is not None and abs(l[0]) == 1:
        return True, (t - l[1]) * l[0]
    if l is not None and l[0] != 0:
        d = t - l[1]
        return beq(toI(d) % abs(l[0]), 0), (toI(d) // abs(l[0])) * (1 if l[0] > 0 else -1)
    # w(nm + c) + rest
    for m, cf in e.t.items():
        if len(m) == 1 and m[0][0] == "app" and cf == 1 and m[0][1] in ctx().seqs and ctx().seqs[m[0][1]][2]:
            rest = simpI(I({k: v for k, v in e.t.items() if k != m}))
            if nm in vars_of(toI(rest)): continue
            arg = m[0][2]; la = lin(arg, nm)
            if la is None or abs(la[0]) != 1: continue
            w = m[0][1]; tgt = t - rest
            k = (mkapp("inv:" + w, tgt) - la[1]) * la[0]
            return opq("mem", w, toI(tgt)), k
    return None
class Write:
    """one write to a root: sel = per root dim ("pt", e) | ("rng", lo, ln, step) | ("seq", fn, L, axis) ; val(coords)"""
    def __init__(self, sel, val, n): self.sel, self.val, self.n = sel, val, n
    def alternatives(self, r):
        """[(cond, coords)]"""
        alts = [(True, [None] * self.n)]
        for s, x in zip(self.sel, r):
            nxt = []
            for cond, co in alts:
                if s[0] == "pt": nxt.append((band(cond, beq(s[1], x)), co))
                elif s[0] == "rng":
                    _, lo, ln, sp, ax = s; d = x - lo
                    if sp == 1: k = d; cc = band(ble(0, d), blt(d, ln))
                    else: k = toI(d) // sp; cc = band(beq(toI(d) % sp, 0), ble(0, d), blt(k, ln))
                    c2 = list(co); c2[ax] = k; nxt.append((band(cond, cc), c2))
                else:
                    _, fn, L, ax = s
                    if co[ax] is not None: nxt.append((band(cond, beq(toI(fn(co[ax])), x)), co))
                    else:
                        for cc, k in invert(fn, L, x):
                            c2 = list(co); c2[ax] = k; nxt.append((band(cond, cc), c2))
            alts = [z for z in nxt if z[0] is not False]
        return alts
def store(a, key, val):
    """a[key] = val"""
    if not isinstance(a, Arr): raise Unsupported("store to %s" % type(a).__name__)
    if a.xf: raise Unsupported("store through an elementwise view")
    if not isinstance(key, tuple): key = (key,)
    key = tuple(to_arr(k) if isinstance(k, (list, IntSeq, SymList)) else k for k in key)
    if any(k is None or k is Ellipsis for k in key): raise Unsupported("store with newaxis")
    if len(key) == 1 and isinstance(key[0], Arr) and key[0].kind == "bool" and not isinstance(val, Arr) and key[0].ndim == a.ndim == len(a.root.shape) and all(d[0] != "fix" and d[1] == i and d[2] == 0 and d[3] == 1 for i, d in enumerate(a.desc)):
        # a[mask] = scalar
        m = Snap(key[0]); root = a.root; old = root.get; root.writes += 1
        for p, q in zip(m.shape, a.shape):
            if not decide(beq(p, q)): raise SymRaise("IndexError", "boolean index did not match")
        if root.log is not None: root.log.append(Write([("rng", 0, n, 1, k) for k, n in enumerate(a.shape)], lambda co: val, a.ndim))
        def g(r): return (toS(val) if root.kind in ("real", "complex") else val) if decide(m.fn(*r)) else old(r)
        root.get = g; return
    if any(isinstance(k, Arr) and k.kind == "bool" for k in key): raise Unsupported("masked store")
    key = tuple(k.get() if isinstance(k, Arr) and k.ndim == 0 else k for k in key)
    if len(key) > a.ndim: raise SymRaise("IndexError", "too many indices")
    key = key + (slice(None),) * (a.ndim - len(key))
    adv = [i for i, k in enumerate(key) if isinstance(k, Arr)]
    arrs = {i: Snap(key[i]) for i in adv}
    shape = []
    if adv:
        bs = bshape(*[s.shape for s in arrs.values()])
        for i in adv: check_index_array(arrs[i], a.shape[i])
        if adv != list(range(adv[0], adv[-1] + 1)): raise Unsupported("store with separated index arrays")
    per = {}
    for i, k in enumerate(key):
        if adv and i == adv[0]: advpos = len(shape); shape += list(bs)
        if isinstance(k, Arr): continue
        if isinstance(k, slice):
            st, ln, sp = norm_slice(k, a.shape[i]); per[i] = ("rng", st, ln, sp, len(shape)); shape.append(ln)
        else: per[i] = ("pt", norm_index(k, a.shape[i]))
    for i in adv:
        s = arrs[i]; off = len(bs) - len(s.shape)
        axes = [off + d for d, n in enumerate(s.shape) if not (isinstance(n, int) and n == 1)]
        dim = a.shape[i]
        if len(axes) > 1: raise Unsupported("two-dimensional index array in a store")
        if not axes: per[i] = ("pt", wrapneg(s.fn(*[0] * len(s.shape)), dim))
        else:
            d = axes[0] - off
            fn = lambda k, s=s, d=d, dim=dim: wrapneg(s.fn(*[k if q == d else 0 for q in range(len(s.shape))]), dim)
            per[i] = ("seq", fn, bs[axes[0]], advpos + axes[0])
    # through the view to the root
    sel = []
    for d in a.desc:
        if d[0] == "fix": sel.append(("pt", d[1])); continue
        _, x, st, sp = d; p = per[x]
        if p[0] == "pt": sel.append(("pt", st + p[1] * sp))
        elif p[0] == "rng":
            if sp < 0 or p[3] < 0: raise Unsupported("store through a reversed view")
            sel.append(("rng", st + p[1] * sp, p[2], p[3] * sp, p[4]))
        else: sel.append(("seq", (lambda k, f=p[1], st=st, sp=sp: st + f(k) * sp), p[2], p[3]))
    if isinstance(val, (list, tuple, SymList, IntSeq)): val = to_arr(val)
    if isinstance(val, Arr):
        v = Snap(val); full = tuple(shape)
        bs2 = bshape(v.shape, full) if full else v.shape
        if len(v.shape) > len(full):
            lead = v.shape[:len(v.shape) - len(full)]
            if not all(decide(beq(q, 1)) for q in lead): raise SymRaise("ValueError", "could not broadcast")
            vf = lambda co: v.fn(*([0] * len(lead) + co))
        else:
            for p, q in zip(bs2, full):
                if not decide(beq(p, q)): raise SymRaise("ValueError", "could not broadcast input array")
            vf = lambda co: bget(v, full, co)
        vk = val.kind
    else: vf = lambda co: val; vk = kind_of(val)
    rk = a.root.kind
    if KINDS.get(vk, 4) > KINDS.get(rk, 4) and rk != "obj":
        if rk in ("int", "bool") and vk != "bool": raise SymRaise("TruncationError", "storing %s into an %s array truncates" % (vk, rk))
        if rk == "real" and vk == "complex":
            # allowed only if the stored value is real for every index
            vf0 = vf
            def vf(co):
                x = toS(vf0(co))
                if not is_zero(im_(x)): raise SymRaise("TruncationError", "storing a complex value into a real array discards the imaginary part")
                return re_(x)
    w = Write(sel, vf, len(shape)); root = a.root; old = root.get
    root.writes += 1
    if root.log is not None: root.log.append(w)
    conv = (lambda x: toS(x)) if rk in ("real", "complex") else (lambda x: x)
    if core.Ctx.cur.fills:
        import induct
        fs = induct.fill_of(root)
        if fs is not None: induct.fill_store(fs, w, conv); return
    def g(r):
        for cond, co in w.alternatives(r):
            if decide(cond): return conv(w.val(co))
        return old(r)
    root.get = g
# ---------------------------------------------------------------- linear algebra
def matmul(a, b):
    a, b = to_arr(a), to_arr(b)
    A, Bb = Snap(a), Snap(b); k = kmax(a.kind, b.kind, "int")
    ka, kb = a.shape[-1], (b.shape[-2] if b.ndim > 1 else b.shape[0])
    if not (ka == kb or decide(beq(ka, kb))): raise SymRaise("ValueError", "matmul: mismatch in its core dimension")
    mul = lambda x, y: toS(num(x)) * toS(num(y))
    memo = {}
    if a.ndim == 1 and b.ndim == 1 and type(ka) is int:
        q = solved_norm(A, Bb, ka)
        if q is not None: return q
    if a.ndim == 1 and b.ndim == 1: return ssum(0, ka, lambda q: mul(A.fn(q), Bb.fn(q)))
    if a.ndim == 2 and b.ndim == 1: return Arr((a.shape[0],), lambda ix: ssum(0, ka, lambda q: mul(A.fn(ix[0], q), Bb.fn(q))), k)
    if a.ndim == 1 and b.ndim == 2: return Arr((b.shape[1],), lambda ix: ssum(0, ka, lambda q: mul(A.fn(q), Bb.fn(q, ix[0]))), k)
    if a.ndim == 2 and b.ndim == 2: return Arr((a.shape[0], b.shape[1]), lambda ix: ssum(0, ka, lambda q: mul(A.fn(ix[0], q), Bb.fn(q, ix[1]))), k)
    raise Unsupported("matmul of stacks")
def solved_norm(A, B_, n):
    """x^H x for the whole vector x solving cholesky(M) x = y is y^H M^-1 y"""
    c = ctx(); F = None
    if n == 0: return ZERO
    for k in range(n):
        x, z = num(B_.fn(k)), num(A.fn(k))
        if not (isinstance(x, S) and isinstance(z, S) and len(x.t) == 1): return None
        ((m, cf),) = x.t.items()
        if cf != G1 or m[0] or m[1] or len(m[2]) != 1 or m[2][0][1] != 1: return None
        at = m[2][0][0]
        if at[0] != "fn" or tuple(at[2]) != (k,) or at[4] or c.fns[at[1]].name != "solution": return None
        if F is None: F = at[1]
        if F != at[1] or not is_zero(z - conj(x)): return None
    M, y = c.fns[F].args
    if M.shape[0] != n: return None
    V = inv(Arr(M.shape, lambda ix: M.fn(*ix), M.kind)); r = ZERO
    for i in range(n):
        for j in range(n): r = r + conj(toS(num(y.fn(i)))) * V.get(i, j) * toS(num(y.fn(j)))
    return r
def transpose(a):
    if a.ndim < 2: return a
    n = a.ndim; nd = []
    for d in a.desc: nd.append(d if d[0] == "fix" else ("ax", n - 1 - d[1], d[2], d[3]))
    return Arr(a.shape[::-1], kind=a.kind, root=a.root, desc=nd, xf=a.xf)
def arr_equal(x, y):
    """extensional equality of two array-like values under the current facts (a query)"""
    c = ctx()
    sx, sy = x.shape, y.shape
    if len(sx) != len(sy): return False
    for p, q in zip(sx, sy):
        if not (p == q or c.entails(beq(p, q))): return False
    names = [c.fresh("e") for _ in sx]; ix = [ivar(n) for n in names]
    facts = [z for q, d in zip(ix, sx) for z in (ble(0, q), blt(q, d))]
    gx = x.fn if isinstance(x, Snap) else x.get; gy = y.fn if isinstance(y, Snap) else y.get
    size = 1
    for d in sx: size = size * d if isinstance(d, int) else 10**9
    if size <= 400:
        for ix in itertools.product(*[range(d) for d in sx]):
            def f():
                a, b = gx(*ix), gy(*ix)
                if isinstance(a, (B, bool)) or isinstance(b, (B, bool)): return a == b
                return is_zero(toS(num(a)) - toS(num(b)))
            if not c.query(f): return False
        return True
    def f():
        a, b = gx(*ix), gy(*ix)
        if isinstance(a, (B, bool)) or isinstance(b, (B, bool)): return a == b
        return is_zero(toS(num(a)) - toS(num(b)))
    return c.query(f, names, facts)
class FnApp:
    """opaque function applied to scalars and arrays; element-wise result atoms ("fn", id, idx, real, conj)"""
    def __init__(self, name, args, real): self.name, self.args, self.real = name, args, real
    def same(self, o):
        if self.name != o.name or len(self.args) != len(o.args): return False
        for a, b in zip(self.args, o.args):
            if isinstance(a, Snap) != isinstance(b, Snap): return False
            if isinstance(a, Snap):
                if not arr_equal(a, b): return False
            elif isinstance(a, S) or isinstance(b, S):
                if not is_zero(toS(a) - toS(b)): return False
            elif isint(a) and isint(b):
                if not (a == b or ctx().entails(beq(a, b))): return False
            elif a != b: return False
        return True
def opaque(name, args, idx=(), real=None):
    """atom for element idx of the opaque function name(args)"""
    c = ctx(); args = tuple(Snap(to_arr(a)) if isinstance(a, (Arr, list, tuple, SymList, IntSeq)) else a for a in args)
    if real is None:
        real = all((a.kind != "complex") if isinstance(a, Snap) else (real_S(toS(a)) if isinstance(a, S) else True) for a in args)
    f = FnApp(name, args, real)
    for i, g in enumerate(c.fns):
        if g is f or g.same(f): return satom(("fn", i, tuple(idx), g.real, False))
    h = hidden_vars(args); c.fns.append(f); c.hidden.pop(len(c.fns) - 1, None)
    if h: c.hidden[len(c.fns) - 1] = h
    return satom(("fn", len(c.fns) - 1, tuple(idx), real, False))
def hidden_vars(args):
    """integer variables the arguments of an opaque function depend on: substitution does not reach them, so that they
    must not be summation variables"""
    c = ctx(); out = set()
    def see(x, drop=()):
        if not isinstance(x, (S, I)): return
        out.update(vars_of(x) - set(drop))
        if isinstance(x, S):
            for i in fn_ids(x): out.update(c.hidden.get(i, ()))
    for a in args:
        if not isinstance(a, Snap): see(a); continue
        names = [c.fresh("h") for _ in a.shape]; ix = [ivar(n) for n in names]
        for d in a.shape: see(d)
        if not any("#" in v for f in c.frames for v in f.vars): continue
        facts = [z for q, d in zip(ix, a.shape) for z in (ble(0, q), blt(q, d))]
        try:
            for lits, r in c.explore(lambda: toS(num(a.fn(*ix))), "prove", names, facts):
                see(r, names)
                for l in lits: out.update(bvars(l) - set(names)) if isinstance(l, B) else None
        except (Unsupported, SymRaise): pass
    return frozenset(v for v in out if "#" in v or v.startswith("@"))
def opaque_id(name, args, real=None):
    s = opaque(name, args, (), real); ((_, _, f),) = s.t.keys(); return f[0][0][1]
def opaque_arr(name, args, shape, kind):
    box = []
    def g(ix):
        if not box: box.append(opaque_id(name, args, kind != "complex"))
        return satom(("fn", box[0], tuple(ix), kind != "complex", False))
    args = tuple(Snap(to_arr(a)) if isinstance(a, (Arr, list, tuple, SymList, IntSeq)) else a for a in args)
    box.append(opaque_id(name, args, kind != "complex"))
    return Arr(shape, g, kind)
def opaque_of(a):
    """the opaque matrix function whose result the whole of a is, or None"""
    c = ctx()
    if a.ndim != 2: return None
    names = [c.fresh("e") for _ in a.shape]; ix = [ivar(n) for n in names]
    facts = [z for q, d in zip(ix, a.shape) for z in (ble(0, q), blt(q, d))]
    rs = set(); f = a.snapshot()
    try:
        for lits, r in c.explore(lambda: toS(num(f(*ix))), "prove", names, facts): rs.add(r)
    except (Unsupported, SymRaise): return None
    if len(rs) != 1: return None
    r = rs.pop()
    if len(r.t) != 1: return None
    ((m, cf),) = r.t.items()
    if cf != G1 or m[0] or m[1] or len(m[2]) != 1: return None
    (at, e), = m[2]
    if e != 1 or at[0] != "fn" or at[2] != tuple(ix) or at[4]: return None
    return c.fns[at[1]]
def known_matrix(a):
    """(inverse, determinant) given by the proof for the designated matrix (ctx().designated: name -> ...)"""
    d = getattr(ctx(), "designated", None)
    if not d or not all(isinstance(k, int) for k in a.shape) or a.ndim != 2: return None
    f = a.snapshot()
    for (M, iv, dt) in d:
        if tuple(M.shape) == tuple(a.shape) and all(is_zero(toS(num(f(*ix))) - toS(num(M.get(*ix)))) for ix in itertools.product(*[range(k) for k in a.shape])): return iv, dt
    return None
def det(a):
    n = cval(a.shape[0]); kn = known_matrix(a)
    if kn: return kn[1]
    if isinstance(n, int) and n <= 5:
        f = a.snapshot(); memo = {}; e = {}
        def el_(i, j):
            if (i, j) not in e: e[i, j] = toS(num(f(i, j)))
            return e[i, j]
        def rec(i, cols):
            if i == n: return ONE
            if cols not in memo:
                r = ZERO
                for q, c in enumerate(cols):
                    x = el_(i, c)
                    if x.t: r = r + (x if q % 2 == 0 else -x) * rec(i + 1, cols[:q] + cols[q + 1:])
                memo[cols] = r
            return memo[cols]
        return rec(0, tuple(range(n)))
    return opaque("det", (a,), (), real_det(a))
def real_det(a):
    """the determinant of a real or Hermitian matrix is real"""
    if a.kind != "complex": return None
    f = a.snapshot()
    b = Arr(a.shape, lambda ix: conj(toS(num(f(*ix)))), a.kind)
    return True if arr_equal(a, b) or arr_equal(a, transpose(b)) else None
def small_inv(a, n):
    """adjugate over determinant"""
    f = a.snapshot(); M = [[toS(num(f(i, j))) for j in range(n)] for i in range(n)]
    def d(rows, cols):
        if not rows: return ONE
        r = ZERO
        for q, c in enumerate(cols):
            x = M[rows[0]][c]
            if x.t: r = r + (x if q % 2 == 0 else -x) * d(rows[1:], cols[:q] + cols[q + 1:])
        return r
    R = tuple(range(n)); D = d(R, R)
    if not D.t: raise SymRaise("LinAlgError", "singular matrix")
    Di = ONE / D; out = [[d(tuple(r for r in R if r != j), tuple(c for c in R if c != i)) * (1 if (i + j) % 2 == 0 else -1) * Di for j in range(n)] for i in range(n)]
    return Arr((n, n), lambda ix: pick(ix[0], [lambda r=r: pick(ix[1], [lambda x=x: x for x in r]) for r in out]), a.kind)
def inv(a):
    if not decide(beq(a.shape[0], a.shape[1])): raise SymRaise("LinAlgError")
    if getattr(ctx(), "ghosts", None) is not None and isinstance(cval(a.shape[0]), int) and cval(a.shape[0]) <= 3 and not known_matrix(a): return small_inv(a, cval(a.shape[0]))
    kn = known_matrix(a)
    if kn: return copy_arr(kn[0])
    g = opaque_of(a)
    if g is not None and g.name == "inv":      # the inverse of an inverse (of an invertible matrix)
        f = g.args[0]; return Arr(a.shape, lambda ix: toS(num(f.fn(*ix))), a.kind)
    return opaque_arr("inv", (a,), a.shape, kmax("real", a.kind))
