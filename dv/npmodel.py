"""dv: assumed contracts of numpy / scipy / the standard library (the trusted models), and python built-ins."""
from fractions import Fraction
import re
import itertools
from core import *
import core
from arr import *
import arr
from interp import *
import interp as ip

PI = None
def pi(): return satom(("sym", "pi", True, False))
T_FLOAT, T_COMPLEX, T_INT, T_BOOL = Ty("float", "real"), Ty("complex", "complex"), Ty("int", "int"), Ty("bool", "bool")
T_LIST, T_TUPLE, T_STR, T_DICT, T_SET, T_RANGE = Ty("list"), Ty("tuple"), Ty("str"), Ty("dict"), Ty("set"), Ty("range")
T_NDARRAY = Ty("ndarray"); T_OBJECT = Ty("object", "obj")
def extern(base, nm):
    k = base + "." + nm
    if k in EXT: return EXT[k]
    if k in SUBMODULES: return ModRef(k)
    if base in ("typing", "numba.cpython.unsafe.tuple") : return Opq(k)
    return Builtin(k, lambda *a, **kw: (_ for _ in ()).throw(Unsupported("external function " + k)))
SUBMODULES = {"scipy.stats.nbinom", "numpy.linalg", "numpy.random", "numpy.fft", "scipy.linalg", "scipy.special", "scipy.sparse", "scipy.optimize", "scipy.stats", "numba.cpython"}
EXT = {}
def ext(*names):
    def d(f):
        for n in names: EXT[n] = Builtin(n, f)
        return f
    return d
BI = {}
def bi(name):
    def d(f): BI[name] = Builtin(name, f); return f
    return d
def builtin(nm):
    if nm in BI: return BI[nm]
    if nm in ("ValueError", "TypeError", "IndexError", "KeyError", "NotImplementedError", "Exception", "RuntimeError", "UserWarning", "DeprecationWarning", "AssertionError"): return Opq(nm)
    raise Unsupported("name " + nm)
for n_, t_ in (("int", T_INT), ("float", T_FLOAT), ("complex", T_COMPLEX), ("bool", T_BOOL), ("list", T_LIST), ("tuple", T_TUPLE), ("str", T_STR), ("dict", T_DICT), ("set", T_SET), ("range", T_RANGE), ("frozenset", T_SET), ("object", T_OBJECT)): BI[n_] = t_
for n_ in ("float64", "float32", "float128", "double"): EXT["numpy." + n_] = Ty("float", "real")
for n_ in ("complex128", "complex64"): EXT["numpy." + n_] = Ty("complex", "complex")
for n_ in ("int64", "int32", "int8", "int16", "uint8", "int_", "intp"): EXT["numpy." + n_] = Ty("int", "int")
EXT["numpy.bool_"] = T_BOOL; EXT["numpy.ndarray"] = T_NDARRAY; EXT["numpy.inexact"] = Ty("inexact"); EXT["numpy.floating"] = Ty("floating"); EXT["numpy.complexfloating"] = Ty("complexfloating"); EXT["numpy.integer"] = Ty("integer")
EXT["numpy.newaxis"] = None
EXT["collections.abc.Iterable"] = EXT["typing.Iterable"] = Ty("Iterable"); EXT["typing.Sequence"] = Ty("Iterable")
EXT["collections.OrderedDict"] = T_DICT
class LazyConst: pass
def dtkind(d, default="real"):
    if d is None: return default
    if isinstance(d, Ty): return d.kind or default
    if isinstance(d, DT): return d.kind
    raise Unsupported("dtype")
def call_type(t, args, kw):
    n = t.name
    if n == "list":
        if not args: return []
        v = args[0]; it = None
        if isinstance(v, PyIter): return list(v.items())
        if isinstance(v, (Range, IntSeq, SymList, Arr)) and not isinstance(seqlen(v), int):
            return SymList(seqlen(v), lambda k: seqget(v, k)) if not isinstance(v, IntSeq) else IntSeqAs(v, list)
        return list(Interp(None, None).iterate(v))
    if n == "tuple":
        if not args: return ()
        v = args[0]
        if isinstance(v, (Range, IntSeq, SymList, Arr)) and not isinstance(seqlen(v), int): return SymList(seqlen(v), lambda k: seqget(v, k))
        return tuple(Interp(None, None).iterate(v))
    if n in ("set", "frozenset"):
        if not args: return set()
        it = Interp(None, None).iterate(args[0])
        if it is None: raise Unsupported("symbolic set")
        return set(hashkey(x) for x in it)
    if n == "dict": return dict(args[0]) if args else dict(kw)
    if n == "range":
        a = [cnum(x) for x in args]
        if len(a) == 1: return Range(0, a[0])
        return Range(*a)
    if n == "int":
        if args and isinstance(args[0], str):
            if len(args) > 1 or args[0] == "<str>": raise Unsupported("int() of this text")
            try: return int(args[0])
            except ValueError as e: raise SymRaise("ValueError", str(e))
        if not args: return 0
        v = args[0]
        if isinstance(v, Arr): v = v.get(*[0] * v.ndim)
        if isint(v): return v
        if isinstance(v, bool): return int(v)
        if isinstance(v, B): return 1 if decide(v) else 0
        i = as_int(v)
        if i is not None: return i
        c = toS(v).const()
        if c is not None and c[1] == 0: return int(c[0])
        h = halfint(v)
        if h is not None: return h
        raise Unsupported("int() of a real")
    if n in ("float", "complex"):
        v = args[0]
        if isinstance(v, Arr): return elementwise(lambda x: toS(num(x)), v, kind=t.kind) if v.ndim else toS(num(v.get()))
        r = toS(num(v))
        if len(args) > 1: r = r + IM * toS(num(args[1]))
        return r
    if n == "bool":
        v = args[0]
        return v if isinstance(v, (B, bool)) else Interp(None, None).truth(v)
    if n == "str": return str(args[0]) if args and isinstance(args[0], (int, str)) else "<str>"
    if n in SPARSE: return to_sparse(args[0], n)
    raise Unsupported("call of type " + n)
def halfint(v):
    """int(x/2) for an integer x >= 0"""
    t = toS(v) * 2; i = as_int(t)
    if i is None: return None
    if ctx().entails(ble(0, i)): return toI(i) // 2 if not isinstance(i, int) else i // 2
    return None
def cnum(x):
    if isinstance(x, S):
        i = as_int(x)
        if i is None: raise SymRaise("TypeError", "float cannot be interpreted as an integer")
        return i
    if isinstance(x, bool): return int(x)
    if isinstance(x, Arr): return cnum(x.get(*[0] * x.ndim))
    if isint(x): return x
    raise SymRaise("TypeError", "not an integer")
class IntSeqAs(IntSeq):
    def __init__(self, s, typ): self.name, self.n, self.ub, self.inj, self.typ = s.name, s.n, s.ub, s.inj, typ
# ------------------------------------------------------------------ built-ins
@bi("len")
def _len(v): return seqlen(v)
@bi("abs")
def _abs(v): return EXT["numpy.abs"].fn(v)
@bi("sum")
def _sum(v, start=0):
    it = None if isinstance(v, (SymList, IntSeq, Range, Arr)) and not isinstance(seqlen(v), int) else Interp(None, None).iterate(v)
    if it is None:
        n = seqlen(v)
        if isinstance(v, Arr) and v.ndim > 1: return np_sum(v, axis=0)
        return sum_int_or_S(0, n, lambda k: seqget(v, k))
    r = start
    for x in it: r = arith("add", r, x)
    return r
def sum_int_or_S(lo, hi, fn):
    return ssum(lo, hi, lambda k: toS(num(fn(k))))
@bi("isinstance")
def _isinstance(v, t):
    ts = t if isinstance(t, tuple) else (t,)
    return any(isinst(v, x) for x in ts)
def isinst(v, t):
    if isinstance(t, (Opq, Builtin)): return False
    n = t.name
    if n == "int": return isint(v) or isinstance(v, bool)
    if n == "float": return isinstance(v, S) and kind_of(v) == "real"
    if n == "complex": return isinstance(v, S) and kind_of(v) == "complex"
    if n == "ndarray": return isinstance(v, Arr) and v.sparse is None
    if n == "list": return isinstance(v, list) or (isinstance(v, (SymList, IntSeq)) and getattr(v, "typ", list) is list)
    if n == "tuple": return isinstance(v, tuple) or (isinstance(v, (SymList, IntSeq)) and getattr(v, "typ", list) is tuple)
    if n == "range": return isinstance(v, Range)
    if n == "str": return isinstance(v, str)
    if n == "dict": return isinstance(v, dict)
    if n == "Iterable": return isinstance(v, (list, tuple, Arr, SymList, IntSeq, Range, dict, set, str))
    if n == "bool": return isinstance(v, (bool, B))
    if n in SPARSE: return isinstance(v, Arr) and v.sparse == n
    raise Unsupported("isinstance " + n)
@bi("type")
def _type(v):
    if isinstance(v, Arr): return T_NDARRAY
    if isinstance(v, bool): return T_BOOL
    if isint(v): return T_INT
    if isinstance(v, S): return T_COMPLEX if kind_of(v) == "complex" else T_FLOAT
    if isinstance(v, list) or isinstance(v, (SymList, IntSeq)): return T_LIST if getattr(v, "typ", list) is list else T_TUPLE
    if isinstance(v, tuple): return T_TUPLE
    if isinstance(v, str): return T_STR
    raise Unsupported("type()")
@bi("enumerate")
def _enumerate(v, start=0):
    if isinstance(v, PyIter): return PyIter([(start + i, x) for i, x in enumerate(v.items())])
    n = seqlen(v)
    if isinstance(n, int): return [(start + k, seqget(v, k)) for k in range(n)]
    return SymList(n, lambda k: (k + start, seqget(v, k)))
@bi("zip")
def _zip(*vs):
    if len(vs) == 1 and isinstance(vs[0], ip.StarSym): raise Unsupported("zip of a symbolic list")
    ns = [seqlen(v) for v in vs]
    if all(isinstance(n, int) for n in ns): return [tuple(seqget(v, k) for v in vs) for k in range(min(ns))]
    n = ns[0]
    for m in ns[1:]: n = imin(n, m)
    return SymList(n, lambda k: tuple(seqget(v, k) for v in vs))
@bi("min")
def _min(*a, **kw): return minmax(a, kw, imin, "lt")
@bi("max")
def _max(*a, **kw): return minmax(a, kw, imax, "gt")
def minmax(a, kw, f, o):
    if kw: raise Unsupported("min/max with key")
    if len(a) == 1:
        it = Interp(None, None).iterate(a[0])
        if it is None: raise Unsupported("min/max of a symbolic sequence")
        a = list(it)
        if not a: raise SymRaise("ValueError", "empty sequence")
    r = a[0]
    for x in a[1:]:
        if isint(r) and isint(x): r = f(r, x)
        else: r = x if decide(compare("<" if o == "lt" else ">", x, r)) else r
    return r
@bi("any")
def _any(v): return np_any(v) if not isinstance(v, (list, tuple)) else bor(*[Interp(None, None).truth(x) for x in v])
@bi("all")
def _all(v): return np_all(v) if not isinstance(v, (list, tuple)) else band(*[Interp(None, None).truth(x) for x in v])
@bi("sorted")
def _sorted(v, key=None, reverse=False):
    it = list(Interp(None, None).iterate(v) or []) if isinstance(seqlen(v), int) else None
    if it is None:
        if is_iota(v): return SymList(seqlen(v), lambda k: seqget(v, k))
        raise Unsupported("sorted of a symbolic sequence")
    if key is not None: raise Unsupported("sorted with key")
    if all(isinstance(x, (int, str)) or (isinstance(x, tuple) and all(isinstance(y, int) for y in x)) for x in it): return sorted(it, reverse=reverse)
    out = []
    for x in it:          # insertion sort with decided comparisons, stable
        p = len(out)
        while p > 0 and decide(lexlt(x, out[p - 1]) if not reverse else lexlt(out[p - 1], x)): p -= 1
        out.insert(p, x)
    return out
def lexlt(x, y):
    if isinstance(x, tuple):
        for a, b in zip(x, y):
            if decide(compare("<", a, b)): return True
            if decide(compare("<", b, a)): return False
        return len(x) < len(y)
    return compare("<", x, y)
@bi("reversed")
def _reversed(v):
    n = seqlen(v)
    if isinstance(n, int): return [seqget(v, n - 1 - k) for k in range(n)]
    return SymList(n, lambda k: seqget(v, n - 1 - k))
@bi("next")
def _next(it, *d):
    if isinstance(it, NdIdx): return it.first()
    try: return next(it)
    except StopIteration: raise SymRaise("StopIteration")
@bi("iter")
def _iter(v): return iter(Interp(None, None).iterate(v))
@bi("round")
def _round(v, *a): raise Unsupported("round")
@bi("print")
def _print(*a, **k): return None
@bi("map")
def _map(f, *vs): return [Interp.call(f, list(x), {}) for x in zip(*[Interp(None, None).iterate(v) for v in vs])]
@bi("getattr")
def _getattr(v, n, *d): return attribute(None, v, n)
@bi("divmod")
def _divmod(a, b): return (arith("fdiv", a, b), arith("mod", a, b))
@bi("pow")
def _pow(a, b): return arith("pow", a, b)
# ------------------------------------------------------------------ attributes and methods
def concrete_text(v):
    """python value of v if it is concrete text or an integer, else None"""
    if isinstance(v, str) and v != "<str>": return v
    if isint(v) and not isinstance(v, bool):
        v = cval(v); return v if isinstance(v, int) else None
    return None
def str_method(v, a, x, k):
    if concrete_text(v) is None: return "<str>"
    if a == "join":
        ws = [concrete_text(w) for w in Interp(None, None).iterate(x[0])] if isinstance(x[0], (list, tuple, str)) else [None]
        return v.join(ws) if all(isinstance(w, str) for w in ws) else "<str>"
    x = [concrete_text(w) for w in x]; k = {q: concrete_text(w) for q, w in k.items()}
    if any(w is None for w in x) or any(w is None for w in k.values()): return "<str>"
    return getattr(v, a)(*x, **k)
def attribute(it, v, a):
    if isinstance(v, ModRef): return v.attr(a)
    if isinstance(v, B) or isinstance(v, bool):
        if a in ("any", "all"): return Bound(lambda: v)
    if isinstance(v, Arr): return arr_attr(v, a)
    if isint(v) or isinstance(v, S):
        if a == "real": return re_(v) if isinstance(v, S) else v
        if a == "imag": return im_(v) if isinstance(v, S) else 0
        if a in ("conj", "conjugate"): return Bound(lambda: conj(v) if isinstance(v, S) else v)
        if a == "copy": return Bound(lambda: v)
        if a == "dtype": return DT(kind_of(v))
        if a == "astype": return Bound(lambda d, **k: cast_scalar(v, d))
        if a == "item": return Bound(lambda: v)
        if a == "shape": return ()
        if a == "ndim": return 0
        if a == "sum": return Bound(lambda: v)
        if a == "T": return v
        if a == "coeff": return Bound(lambda m: sy_coeff(v, m))
        raise SymRaise("AttributeError", a)
    if isinstance(v, DT):
        if a == "type": return Builtin("dtype.type", lambda x: cast_scalar(x, v))
        if a == "kind": return {"real": "f", "complex": "c", "int": "i", "bool": "b"}[v.kind]
        if a == "name": return v.kind
    if isinstance(v, list):
        if a == "append": return Bound(lambda x: v.append(x))
        if a == "extend": return Bound(lambda x: v.extend(Interp(None, None).iterate(x)))
        if a == "pop": return Bound(lambda *k: v.pop(*k))
        if a == "copy": return Bound(lambda: list(v))
        if a == "insert": return Bound(lambda i, x: v.insert(i, x))
        if a == "reverse": return Bound(lambda: v.reverse())
        if a == "sort": 
            def srt(**kw): v[:] = _sorted(v, **kw)
            return Bound(srt)
        if a == "index": return Bound(lambda x: list_index(v, x))
        if a == "count": return Bound(lambda x: sum(1 for y in v if decide(compare("==", x, y))))
        raise SymRaise("AttributeError", a)
    if isinstance(v, tuple):
        if a == "index": return Bound(lambda x: list_index(v, x))
        if a == "count": return Bound(lambda x: sum(1 for y in v if decide(compare("==", x, y))))
    if isinstance(v, dict):
        if a == "get": return Bound(lambda k, d=None: v[hashkey(k)] if hashkey(k) in v else d)
        if a == "keys": return Bound(lambda: list(v.keys()))
        if a == "values": return Bound(lambda: list(v.values()))
        if a == "items": return Bound(lambda: list(v.items()))
        if a == "copy": return Bound(lambda: dict(v))
        if a == "pop": return Bound(lambda k, *d: v.pop(hashkey(k), *d))
    if isinstance(v, (set, frozenset)):
        if a == "add": return Bound(lambda x: v.add(hashkey(x)))
        if a in ("difference", "intersection", "union"): return Bound(lambda o: getattr(set(v), a)(set(Interp(None, None).iterate(o))))
        if a == "pop": return Bound(lambda: v.pop())
        if a == "copy": return Bound(lambda: set(v))
    if isinstance(v, (SymList, IntSeq)):
        if a == "copy": return Bound(lambda: v)
        if a == "append": raise Unsupported("append to a symbolic list")
    if isinstance(v, str):
        if a in ("format", "join", "lower", "upper", "strip"): return Bound(lambda *x, **k: str_method(v, a, x, k))
    if isinstance(v, Ty) and a in ("__name__",): return v.name
    if isinstance(v, Func) and a == "py_func": return v
    if isinstance(v, Opq): return Opq(v.name + "." + a)
    if v is None: raise SymRaise("AttributeError", a)
    if v is T_DICT and a == "fromkeys":
        def fromkeys(ks, d=None):
            ks = list(Interp(None, None).iterate(ks))
            if any(not isinstance(q, (int, str, tuple)) for q in ks): raise Unsupported("symbolic dictionary keys")
            return dict.fromkeys(ks, d)
        return Bound(fromkeys)
    raise Unsupported("attribute %s of %s" % (a, type(v).__name__))
def list_index(v, x):
    for i, y in enumerate(v):
        if decide(compare("==", x, y)): return i
    raise SymRaise("ValueError", "not in list")
def cast_scalar(x, d):
    k = dtkind(d)
    if isinstance(x, Arr): return astype(x, d)
    if k == "int": return call_type(T_INT, [x], {})
    if k == "bool": return x
    r = toS(num(x))
    if k == "real" and not real_S(r):
        if not is_zero(im_(r)): raise SymRaise("TruncationError", "complex to real")
        r = re_(r)
    return r
def astype(v, d, **kw):
    k = dtkind(d)
    if KINDS[k] < KINDS.get(v.kind, 0):
        f0 = v.snapshot()
        return Arr(v.shape, lambda ix: cast_scalar(f0(*ix), d), k)
    f = v.snapshot()
    if k in ("real", "complex"): return Arr(v.shape, lambda ix: toS(num(f(*ix))), k)
    return Arr(v.shape, lambda ix: f(*ix), k)
def view_xf(v, fn, kind):
    old = v.xf
    return Arr(v.shape, kind=kind, root=v.root, desc=v.desc, xf=(lambda x: fn(old(x))) if old else fn)
def size(v):
    n = 1
    for d in v.shape: n = n * d
    return n
def arr_attr(v, a):
    if a == "shape": return v.shape
    if a == "ndim": return v.ndim
    if a == "size": return size(v)
    if a == "dtype": return DT(v.kind)
    if a == "T": return transpose(v)
    if a == "real": return v if v.kind != "complex" else view_xf(v, lambda x: re_(toS(num(x))), "real")
    if a == "imag":
        return view_xf(v, lambda x: im_(toS(num(x))), "real")
    if a in ("conj", "conjugate"): return Bound(lambda: np_conj(v))
    if a == "copy": return Bound(lambda *x, **k: copy_arr(v))
    if a == "flat": return reshape(v, (-1,))
    if a in ("flatten",): return Bound(lambda *x: copy_arr(reshape(v, (-1,))))
    if a == "ravel": return Bound(lambda *x: reshape(v, (-1,)))
    if a == "reshape": return Bound(lambda *s, **k: reshape(v, s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s))
    if a == "astype": return Bound(lambda d, **k: astype(v, d))
    if a == "sum": return Bound(lambda axis=None, **k: np_sum(v, axis=axis))
    if a == "prod": return Bound(lambda axis=None, **k: np_prod(v, axis=axis))
    if a == "any": return Bound(lambda **k: np_any(v))
    if a == "all": return Bound(lambda **k: np_all(v))
    if a == "mean": return Bound(lambda: np_sum(v) / toS(size(v)))
    if a == "max": return Bound(lambda **k: np_maxmin(v, "max"))
    if a == "min": return Bound(lambda **k: np_maxmin(v, "min"))
    if a == "diagonal": return Bound(lambda: np_diag(v))
    if a == "trace": return Bound(lambda: np_trace(v))
    if a == "dot": return Bound(lambda o: np_dot(v, o))
    if a == "transpose": return Bound(lambda *p: np_transpose(v, p[0] if len(p) == 1 else (p or None)))
    if a == "tolist":
        if v.ndim == 0: return Bound(lambda: v.get())
        return Bound(lambda: [index(v, k) if v.ndim == 1 else arr_attr(index(v, k), "tolist").fn() for k in range(v.shape[0])] if isinstance(v.shape[0], int) else tolist_sym(v))
    if a == "item": return Bound(lambda: v.get(*[0] * v.ndim))
    if a == "fill": return Bound(lambda x: store(v, (slice(None),) * v.ndim, x))
    if a == "cumsum": return Bound(lambda: np_cumsum(v))
    if a == "round": raise Unsupported("round")
    raise Unsupported("array attribute " + a)
def tolist_sym(v):
    f = v.snapshot()
    return SymList(v.shape[0], lambda k: f(k))
# ------------------------------------------------------------------ constructors
def shp(s):
    if isinstance(s, Arr): s = [s.get(k) for k in range(s.shape[0])] if s.ndim else [s.get()]
    if isinstance(s, (SymList, IntSeq)):
        if isinstance(s.n, int): s = [s.fn(k) for k in range(s.n)]
        else: raise Unsupported("array of symbolic rank")
    r = tuple(cnum(x) for x in s) if isinstance(s, (list, tuple)) else (cnum(s),)
    for d in r:
        if isinstance(d, int) and d < 0: raise SymRaise("ValueError", "negative dimensions")
        if isinstance(d, I) and not ctx().entails(ble(0, d)):
            if decide(blt(d, 0)): raise SymRaise("ValueError", "negative dimensions")
    return r
def const_of(kind, x): return x if kind in ("int", "bool", "obj") else toS(x)
@ext("numpy.zeros", "numpy.empty")
def np_zeros(s, dtype=None, **kw):
    k = dtkind(dtype); z = const_of(k, 0); return Arr(shp(s), lambda ix: z, k)
@ext("numpy.ones")
def np_ones(s, dtype=None, **kw):
    k = dtkind(dtype); z = const_of(k, 1); return Arr(shp(s), lambda ix: z, k)
@ext("numpy.full")
def np_full(s, v, dtype=None):
    k = dtkind(dtype, kind_of(v)); return Arr(shp(s), lambda ix: v, k)
@ext("numpy.zeros_like", "numpy.empty_like")
def np_zeros_like(a, dtype=None, **kw):
    a = to_arr(a); k = dtkind(dtype, a.kind); z = const_of(k, 0)
    return Arr(a.shape, lambda ix: z, k) 
@ext("numpy.ones_like")
def np_ones_like(a, dtype=None):
    a = to_arr(a); k = dtkind(dtype, a.kind); z = const_of(k, 1); return Arr(a.shape, lambda ix: z, k)
@ext("numpy.identity", "numpy.eye")
def np_identity(n, m=None, dtype=None, k=0, **kw):
    kd = dtkind(dtype); one, zero = const_of(kd, 1), const_of(kd, 0)
    n = shp(n)[0]; m = n if m is None else shp(m)[0]
    return Arr((n, m), lambda ix: one if decide(beq(ix[0] + k, ix[1])) else zero, kd)
@ext("numpy.array", "numpy.asarray", "numpy.ascontiguousarray", "numpy.asanyarray")
def np_array(v, dtype=None, copy=None, **kw): return np_array_(v, dtype)
def np_array_(v, dtype=None):
    if isinstance(v, PyIter): v = list(v.items())
    if isinstance(v, Range): v = SymList(v.length(), v.at) if not isinstance(v.length(), int) else [v.at(k) for k in range(v.length())]
    a = to_arr(v)
    if isinstance(v, Arr): a = copy_arr(v)
    if dtype is not None: a = astype(a, dtype)
    return a
EXT["numpy.asarray"] = Builtin("numpy.asarray", lambda v, dtype=None, **kw: v if isinstance(v, Arr) and (dtype is None or dtkind(dtype) == v.kind) else np_array_(v, dtype))
@ext("numpy.copy")
def np_copy(v): return copy_arr(to_arr(v))
@ext("numpy.arange")
def np_arange(*a, dtype=None):
    a = [cnum(x) for x in a]; r = Range(0, a[0]) if len(a) == 1 else Range(*a)
    k = dtkind(dtype, "int"); n = r.length()
    if isinstance(n, I) and not ctx().entails(ble(0, n)): n = imax(n, 0)
    return Arr((n,), (lambda ix: r.at(ix[0])) if k == "int" else (lambda ix: toS(r.at(ix[0]))), k)
@ext("numpy.linspace")
def np_linspace(*a, **k): raise Unsupported("linspace")
@ext("numpy.block")
def np_block(v):
    def go(x, depth):
        if isinstance(x, list):
            parts = [go(y, depth + 1) for y in x]
            return parts[0] if len(parts) == 1 else concat(parts, -1 if not isinstance(x[0], list) else -2)
        a = to_arr(x)
        if a.ndim < 2:
            f = a.snapshot()
            a = Arr((1,) * (2 - a.ndim) + a.shape, lambda ix, f=f, n=a.ndim: f(*ix[2 - n:]), a.kind)
        return a
    return copy_arr(go(v, 0))
@ext("scipy.linalg.block_diag")
def la_block_diag(*arrs):
    ps = [to_arr(x) for x in arrs]; ps = [index(p, (None,)) if p.ndim == 1 else p for p in ps]
    if not ps or any(p.ndim != 2 or not all(isinstance(d, int) for d in p.shape) for p in ps): raise Unsupported("block_diag")
    k = kmax(*[p.kind for p in ps]); sn = [p.snapshot() for p in ps]; r0, c0 = [0], [0]
    for p in ps: r0.append(r0[-1] + p.shape[0]); c0.append(c0[-1] + p.shape[1])
    where = lambda x, o: next(q for q in range(len(o) - 1) if q == len(o) - 2 or decide(blt(x, o[q + 1])))
    def g(ix):
        a = where(ix[0], r0); b = where(ix[1], c0)
        return sn[a](ix[0] - r0[a], ix[1] - c0[b]) if a == b else const_of(k, 0)
    return Arr((r0[-1], c0[-1]), g, k)
@ext("numpy.concatenate")
def np_concatenate(v, axis=0):
    if isinstance(v, (SymList,)): raise Unsupported("concatenate of a symbolic list")
    return concat([to_arr(x) for x in v], axis)
def concat(parts, axis):
    if not parts: raise SymRaise("ValueError", "need at least one array")
    nd = parts[0].ndim
    if any(p.ndim != nd for p in parts): raise SymRaise("ValueError", "concatenation of arrays of different rank")
    ax = axis % nd; snaps = [Snap(p) for p in parts]
    for d in range(nd):
        if d != ax:
            for p in parts[1:]:
                if not decide(beq(p.shape[d], parts[0].shape[d])): raise SymRaise("ValueError", "dimensions must match")
    offs = [0]
    for p in parts: offs.append(offs[-1] + p.shape[ax])
    sh = list(parts[0].shape); sh[ax] = offs[-1]
    nonempty = [p for p in parts if not (isinstance(p.shape[ax], int) and p.shape[ax] == 0)]
    k = kmax(*[p.kind for p in (parts)])
    if any(p.kind != k for p in parts) and all(p.kind == "int" for p in nonempty) and k == "real" and len(nonempty) < len(parts): k = "real"
    def g(ix):
        t = ix[ax]
        for q in range(len(snaps)):
            if q == len(snaps) - 1 or decide(blt(t, offs[q + 1])):
                j = list(ix); j[ax] = t - offs[q]
                return snaps[q].fn(*j)
    return Arr(sh, g, k)
@ext("numpy.vstack")
def np_vstack(v):
    ps = [to_arr(x) for x in v]; ps = [index(p, (None,)) if p.ndim == 1 else p for p in ps]
    return concat(ps, 0)
@ext("numpy.hstack")
def np_hstack(v):
    ps = [to_arr(x) for x in v]; return concat(ps, 0 if ps[0].ndim == 1 else 1)
@ext("numpy.stack")
def np_stack(v, axis=0): 
    if axis != 0: raise Unsupported("stack")
    return to_arr(list(v))
@ext("numpy.append")
def np_append(a, v): 
    a = reshape(to_arr(a), (-1,)); v = to_arr(v); v = v if v.ndim == 1 else reshape(v, (-1,))
    return concat([a, v], 0)
@ext("numpy.atleast_1d")
def np_atleast_1d(v):
    a = to_arr(v)
    if a.ndim: return a
    f = a.snapshot(); return Arr((1,), lambda ix: f(), a.kind)
@ext("numpy.atleast_2d")
def np_atleast_2d(v): raise Unsupported("atleast_2d")
@ext("numpy.diag")
def np_diag(v, k=0):
    a = to_arr(v); f = a.snapshot()
    if a.ndim == 1:
        if k != 0: raise Unsupported("diag offset")
        n = a.shape[0]; return Arr((n, n), lambda ix: f(ix[0]) if decide(beq(ix[0], ix[1])) else const_of(a.kind, 0), a.kind)
    kk = cnum(k)
    r0, c0 = (0, kk) if (isinstance(kk, int) and kk >= 0) or (isinstance(kk, I) and decide(ble(0, kk))) else (-kk, 0)
    n = imin(a.shape[0] - r0, a.shape[1] - c0)
    if isinstance(n, int): n = max(n, 0)
    return Arr((n,), lambda ix: f(ix[0] + r0, ix[0] + c0), a.kind)
@ext("numpy.diagonal")
def np_diagonal(v): return np_diag(v)
@ext("numpy.trace")
def np_trace(v):
    a = to_arr(v); f = a.snapshot(); n = imin(a.shape[0], a.shape[1])
    return ssum(0, n, lambda k: toS(num(f(k, k))))
@ext("numpy.triu")
def np_triu(v, k=0):
    a = to_arr(v); f = a.snapshot(); return Arr(a.shape, lambda ix: f(*ix) if decide(ble(ix[0] + k, ix[1])) else const_of(a.kind, 0), a.kind)
@ext("numpy.tril")
def np_tril(v, k=0):
    a = to_arr(v); f = a.snapshot(); return Arr(a.shape, lambda ix: f(*ix) if decide(ble(ix[1], ix[0] + k)) else const_of(a.kind, 0), a.kind)
@ext("numpy.fill_diagonal")
def np_fill_diagonal(a, v):
    n = imin(a.shape[0], a.shape[1]); vv = to_arr(v) if isinstance(v, (Arr, list, tuple, SymList)) else v
    vf = (lambda co: (vv.get(co[0]) if isinstance(vv, Arr) and vv.ndim else vv.get() if isinstance(vv, Arr) else vv))
    if isinstance(vv, Arr) and vv.ndim:
        sn = Snap(vv); vf = lambda co: sn.fn(co[0])
        if not decide(beq(vv.shape[0], n)): raise Unsupported("fill_diagonal wraps")
    vk = kind_of(vv)
    if KINDS[vk] > KINDS[a.root.kind] and a.root.kind in ("int", "bool", "real"): raise SymRaise("TruncationError", "fill_diagonal of %s into %s" % (vk, a.root.kind))
    if not a.fullroot(): raise Unsupported("fill_diagonal of a view")
    w = Write([("rng", 0, n, 1, 0), ("same", 0)], vf, 1)
    old = a.root.get; a.root.writes += 1
    if a.root.log is not None: raise Unsupported("fill_diagonal in a symbolic loop")
    conv = toS if a.root.kind in ("real", "complex") else (lambda x: x)
    a.root.get = lambda r: conv(vf([r[0]])) if decide(beq(r[0], r[1])) else old(r)
@ext("numpy.ix_")
def np_ix(*seqs):
    out = []
    n = len(seqs)
    for d, s in enumerate(seqs):
        a = to_arr(s); f = a.snapshot(); sh = [1] * n; sh[d] = a.shape[0]
        k = a.kind if not (isinstance(a.shape[0], int) and a.shape[0] == 0) else "int"
        out.append(Arr(sh, lambda ix, f=f, d=d: f(ix[d]), k))
    return tuple(out)
@ext("numpy.outer")
def np_outer(a, b):
    a, b = Snap(to_arr(a)), Snap(to_arr(b))
    return Arr((a.shape[0], b.shape[0]), lambda ix: toS(num(a.fn(ix[0]))) * toS(num(b.fn(ix[1]))), kmax(a.kind, b.kind))
@ext("numpy.kron")
def np_kron(a, b): raise Unsupported("kron")
def reshape(v, s):
    s = [cnum(x) for x in (s if isinstance(s, (tuple, list)) else [s])]
    tot = size(v)
    if -1 in [x for x in s if isinstance(x, int)]:
        p = [i for i, x in enumerate(s) if isinstance(x, int) and x == -1][0]
        rest = 1
        for i, x in enumerate(s):
            if i != p: rest = rest * x
        if isinstance(rest, int) and rest == 0: raise Unsupported("reshape")
        if isinstance(rest, int): s[p] = tot // rest if isinstance(tot, int) else toI(tot) // rest
        else:
            if tot == rest: s[p] = 1
            else:
                q = idiv_exact(tot, rest)
                if q is None: raise Unsupported("reshape of symbolic size")
                s[p] = q
    f = v.snapshot(); src = v.shape
    if len(src) == 1 and len(s) == 1: return Arr(s, lambda ix: f(*ix), v.kind) if s[0] != src[0] else v
    # keep a view when only unit dimensions are added / removed (so that stores are seen): reshape copies otherwise
    def flat(ix):
        t = 0
        for d, x in zip(s, ix): t = t * d + x
        return t
    nz = [d for d in s if not (isinstance(d, int) and d == 1)]; ns = [d for d in src if not (isinstance(d, int) and d == 1)]
    if nz == ns:
        m1 = [i for i, d in enumerate(s) if not (isinstance(d, int) and d == 1)]
        m2 = [i for i, d in enumerate(src) if not (isinstance(d, int) and d == 1)]
        def g0(ix):
            r = [0] * len(src)
            for i, j in zip(m1, m2): r[j] = ix[i]
            return f(*r)
        return Arr(s, lambda ix: g0(ix), v.kind)
    def g(ix):
        t = flat(ix); r = []
        for d in range(len(src) - 1, 0, -1):
            q, m = divmod_dim(t, src[d], src[:d]); r.append(m); t = q
        r.append(t); return f(*r[::-1])
    return Arr(s, g, v.kind)
def idiv_exact(a, b):
    """a / b for integer polynomials when b is a single monomial dividing every term"""
    b = toI(b)
    if len(b.t) != 1: 
        return None
    (m, c), = b.t.items(); out = {}
    for k, v in toI(a).t.items():
        kk = list(k)
        for x in m:
            if x in kk: kk.remove(x)
            else: return None
        if v % c: return None
        out[tuple(kk)] = v // c
    return simpI(I(out))
def divmod_dim(t, d, lead):
    """t = q*d + m, 0<=m<d, when q ranges over a small constant range or d is constant"""
    if isinstance(d, int):
        return (t // d, t % d) if isinstance(t, int) else (toI(t) // d, toI(t) % d)
    n = 1
    for x in lead: n = n * x
    if isinstance(n, int) and n <= 6:
        for q in range(n - 1):
            if decide(blt(t, d * (q + 1))): return q, t - d * q
        return n - 1, t - d * (n - 1)
    raise Unsupported("reshape with symbolic divisor")
@ext("numpy.reshape")
def np_reshape(v, s):
    if isinstance(s, Arr): s = [cnum(as_int(num(x))) if isinstance(num(x), S) else cnum(num(x)) for x in ([s.get(k) for k in range(s.shape[0])] if s.ndim else [s.get()])]
    return reshape(to_arr(v), s if isinstance(s, (tuple, list)) else (s,))
@ext("numpy.transpose")
def np_transpose(v, axes=None):
    v = to_arr(v)
    if axes is None: return transpose(v)
    axes = [cnum(x) for x in (Interp(None, None).iterate(axes))]
    if sorted(axes) != list(range(v.ndim)): raise SymRaise("ValueError", "axes don't match array")
    inv = {a: i for i, a in enumerate(axes)}
    nd = [d if d[0] == "fix" else ("ax", inv[d[1]], d[2], d[3]) for d in v.desc]
    return Arr([v.shape[a] for a in axes], kind=v.kind, root=v.root, desc=nd, xf=v.xf)
@ext("numpy.swapaxes")
def np_swapaxes(v, a, b):
    p = list(range(v.ndim)); p[a], p[b] = p[b], p[a]; return np_transpose(v, p)
# ------------------------------------------------------------------ elementwise functions
def lift(f, kind=None):
    def g(x, *a, dtype=None, **kw):
        if kw: raise Unsupported("keyword %s" % list(kw))
        return elementwise(lambda y: f(toS(num(y))), x, kind=kind or (lambda k: kmax("real", k)))
    return g
for n_ in ("cos", "sin", "cosh", "sinh", "tan", "tanh", "arctanh", "arcsinh", "arccosh", "arccos", "arcsin", "arctan"):
    EXT["numpy." + n_] = Builtin(n_, lift(lambda s, n=n_: s_fun(n, s)))
def s_csqrt(s):
    """principal root of a complex number: negative reals have an imaginary root"""
    if len(s.t) == 1:
        ((m, c),) = s.t.items()
        if c[1] == 0 and c[0] < 0 and not m[0] and not m[1] and all(positive(at) for at, e in m[2]): return IM * s_sqrt(-s)
    return s_sqrt(s)
_rsqrt = lift(s_sqrt)
def np_sqrt(x, *a, **kw): return lift(s_csqrt)(x, *a, **kw) if isinstance(x, Arr) and x.kind == "complex" else _rsqrt(x, *a, **kw)
EXT["numpy.sqrt"] = Builtin("sqrt", np_sqrt)
EXT["numpy.exp"] = Builtin("exp", lift(s_exp))
EXT["numpy.log"] = Builtin("log", lift(s_log))
def s_abs(s):
    if not s.t: return ZERO
    c = s.const()
    if c is not None and c[1] == 0: return toS(abs(c[0]))
    if len(s.t) == 1:
        ((m, cf),) = s.t.items()
        if cf[1] == 0 and not m[0] and not m[1] and all(positive(at) for at, e in m[2]): return s if cf[0] > 0 else -s
        ph = [(at, e) for at, e in m[2] if at[0] == "exp" and at[1]]
        if not m[0] and not m[1] and (ph or cf[0] == 0) and (cf[0] == 0 or cf[1] == 0):      # a phase times a real number
            r = S({(m[0], m[1], tuple(x for x in m[2] if x not in ph)): (cf[0] + cf[1], Fraction(0))})
            if real_S(r): return s_abs(r)
    return spow(s * conj(s), Fraction(1, 2)) if not real_S(s) else (s if ctx().entails(opq("real", "le", -s)) else -s if ctx().entails(opq("real", "le", s)) else absatom(s))
def absatom(s):
    k = s.key()
    if k[0][1][0] < 0: s = -s
    return satom(("app", "abs", (s,), True, False))
@ext("numpy.abs", "numpy.absolute")
def np_abs(v):
    def f(x):
        x = num(x)
        if isinstance(x, int): return abs(x)
        if isinstance(x, I): return x if decide(ble(0, x)) else -x
        return s_abs(x)
    return elementwise(f, v, kind=lambda k: "real" if k == "complex" else k)
@ext("numpy.sign")
def np_sign(v):
    def f(x):
        x = toS(num(x))
        if getattr(ctx(), "ghosts", None) is None: return s_fun("sign", x)
        return ONE if decide(compare(">", x, 0)) else -ONE if decide(compare("<", x, 0)) else ZERO
    return elementwise(f, v)
def ghost(name, *a):
    """the factors the proof supplies for this matrix (each within the contract of the external function), None when it supplies none at all"""
    g = getattr(ctx(), "ghosts", None)
    if not g or name not in g: return None
    for h in g[name]:
        r = h(*a)
        if r is not None: return r
    raise Unsupported("%s of a matrix that is not the expected one" % name)
@ext("numpy.square")
def np_square(v): return arith("mul", v, v)
@ext("numpy.conj", "numpy.conjugate")
def np_conj(v):
    if isinstance(v, Arr) and v.kind != "complex": return copy_arr(v)
    return elementwise(lambda x: conj(toS(num(x))) if not isint(x) else x, v, kind=lambda k: k)
@ext("numpy.real")
def np_real(v):
    if isinstance(v, Arr): return arr_attr(v, "real")
    return elementwise(lambda x: re_(num(x)) if not isint(x) else x, v, kind="real")
@ext("numpy.imag")
def np_imag(v):
    if isinstance(v, Arr): return arr_attr(v, "imag")
    return elementwise(lambda x: im_(num(x)) if not isint(x) else 0, v, kind="real")
@ext("numpy.real_if_close")
def np_real_if_close(v, **kw):
    if getattr(ctx(), "ghosts", None) is not None:
        a = to_arr(v)
        if a.kind == "complex" and all(isinstance(k, int) for k in a.shape) and all(real_S(toS(num(a.get(*ix)))) for ix in itertools.product(*[range(k) for k in a.shape])):
            f = a.snapshot(); return Arr(a.shape, lambda ix: f(*ix), "real")
        return a
    return v if isinstance(v, Arr) or isinstance(v, S) or isint(v) else to_arr(v)
@ext("numpy.angle")
def np_angle(v):
    def f(x):
        x = toS(num(x))
        if not x.t: return ZERO
        if len(x.t) == 1:      # r exp(i t), r > 0, t declared to be in (-pi, pi); or the opposite number
            ((m, c),) = x.t.items(); an = getattr(ctx(), "angles", ())
            ph = [(a, e) for a, e in m[2] if a[0] == "exp" and a[1]]
            if c[1] == 0 and not m[0] and not m[1] and all(positive(a) for a, e in m[2] if not (a[0] == "exp" and a[1])):
                t = sum((S({a[2]: (Fraction(e), Fraction(0))}) for a, e in ph), ZERO)
                if not ph or any(is_zero(t - y) for y in an):
                    if c[0] > 0: return t
                    return t + pi() if not ph or not decide(opq("real", "lt", -t)) else t - pi()
        return satom(("app", "angle", (x,), True, False))
    return elementwise(f, v, kind="real")
@ext("numpy.mod", "numpy.remainder")
def np_mod(a, b): return arith("mod", a, b)
def ufunc(op):
    def g(a, b, out=None, **kw):
        if kw: raise Unsupported("ufunc options")
        r = arith(op, a, b)
        if out is None: return r
        out = out[0] if isinstance(out, tuple) else out
        if not isinstance(out, Arr) or not isinstance(r, Arr) or not all(decide(beq(x, y)) for x, y in zip(out.shape, r.shape)) or out.ndim != r.ndim: raise Unsupported("out argument")
        store(out, (slice(None),) * out.ndim, r); return out
    return g
for n_, o_ in (("multiply", "mul"), ("add", "add"), ("subtract", "sub"), ("divide", "div"), ("true_divide", "div")): EXT["numpy." + n_] = Builtin("numpy." + n_, ufunc(o_))
@ext("numpy.power")
def np_power(a, b): return arith("pow", a, b)
@ext("numpy.maximum")
def np_maximum(a, b): return elementwise(lambda x, y: maxterm(x, y, 1), a, b)
@ext("numpy.minimum")
def np_minimum(a, b): return elementwise(lambda x, y: maxterm(x, y, -1), a, b)
def maxterm(x, y, s):
    x, y = num(x), num(y)
    if isint(x) and isint(y): return imax(x, y) if s > 0 else imin(x, y)
    c = compare(">=" if s > 0 else "<=", x, y)
    if isinstance(c, bool): return x if c else y
    return satom(("app", "max" if s > 0 else "min", (toS(x), toS(y)), True, False))
@ext("numpy.heaviside")
def np_heaviside(a, b):
    if getattr(ctx(), "ghosts", None) is not None: return elementwise(lambda x, y: ONE if decide(compare(">", num(x), 0)) else ZERO if decide(compare("<", num(x), 0)) else toS(num(y)), a, b)
    return elementwise(lambda x: satom(("app", "heaviside", (toS(num(x)), toS(num(b))), True, False)), a)
@ext("numpy.where")
def np_where(c, *ab):
    if ab:
        a, b = ab
        return elementwise(lambda q, x, y: x if decide(asB(q)) else y, c, a, b, kind=lambda k, x, y: kmax(x, y))
    return (nonzero1(c),)
@ext("numpy.nonzero")
def np_nonzero(c):
    a = to_arr(c)
    if a.ndim != 1:
        if not all(isinstance(d, int) for d in a.shape): raise Unsupported("nonzero of a matrix of symbolic shape")
        pos = [ix for ix in itertools.product(*[range(d) for d in a.shape]) if decide(asB(a.get(*ix)))]
        return tuple(Arr((len(pos),), lambda q, d=d: pick(q[0], [lambda v=v: v[d] for v in pos]), "int") for d in range(a.ndim))
    return (nonzero1(elementwise(lambda x: asB(x), a, kind="bool")),)
@ext("numpy.flatnonzero")
def np_flatnonzero(c): return np_nonzero(c)[0]
def asB(x):
    if isinstance(x, (B, bool)): return x
    if isint(x): return bnot(beq(x, 0))
    return compare("!=", x, 0)
def nonzero1(c):
    c = to_arr(c)
    if c.ndim != 1: raise Unsupported("where of a matrix")
    n = c.shape[0]
    if not isinstance(n, int): raise Unsupported("positions of the true entries of a symbolic vector")
    pos = [k for k in range(n) if decide(asB(c.get(k)))]
    return Arr((len(pos),), lambda ix: pick(ix[0], [lambda v=v: v for v in pos]), "int")
@ext("numpy.count_nonzero")
def np_count_nonzero(c): raise Unsupported("count_nonzero")
@ext("numpy.isnan")
def np_isnan(v): return elementwise(lambda x: nanpred(x), v, kind="bool")
def nanpred(x):
    """not-a-number is the value of the constant NaN, which proofs put at designated positions"""
    x = num(x)
    return isinstance(x, S) and any(at[0] == "sym" and at[1] == "NaN" for m in x.t for at, e in m[2])
def surely_nonzero(x):
    """a single term: product of positive quantities and phases"""
    x = toS(num(x))
    if len(x.t) != 1: return False
    ((m, c),) = x.t.items()
    return not m[0] and not m[1] and all(positive(at) or at[0] == "exp" for at, e in m[2])
def at_hints(shape, test):
    """some witness position named by the proof satisfies test"""
    c = ctx()
    for h in c.hints:
        for w in itertools.product(h, repeat=len(shape)):
            try:
                if all(c.entails(band(ble(0, q), blt(q, d))) for q, d in zip(w, shape)) and c.query(lambda: test(*w)): return True
            except SymRaise: pass
    return False
@ext("numpy.isscalar")
def np_isscalar(v): return isint(v) or isinstance(v, S)
@ext("numpy.isrealobj")
def np_isrealobj(v): return kind_of(v) != "complex"
@ext("numpy.iscomplexobj")
def np_iscomplexobj(v): return kind_of(v) == "complex"
@ext("numpy.iscomplex")
def np_iscomplex(v): return elementwise(lambda x: compare("!=", im_(toS(num(x))), 0), v, kind="bool")
@ext("numpy.isreal")
def np_isreal(v): return elementwise(lambda x: compare("==", im_(toS(num(x))), 0), v, kind="bool")
# ------------------------------------------------------------------ reductions
@ext("numpy.sum")
def np_sum(v, axis=None, **kw):
    if isinstance(v, PyIter): v = list(v.items())
    a = to_arr(v); f = a.snapshot()
    if a.kind == "bool": f0 = f; f = lambda *ix: 1 if decide(asB(f0(*ix))) else 0
    ii = a.kind in ("int", "bool")
    def mk(n, g):
        if ii and isinstance(n, int):
            r = 0
            for k in range(n): r = r + num(g(k))
            return r
        return ssum(0, n, lambda k: toS(num(g(k))))
    if axis is None:
        def rec(pre):
            d = len(pre)
            if d == a.ndim: return f(*pre)
            return mk(a.shape[d], lambda k: rec(pre + [k]))
        return rec([])
    axis = cnum(axis) % a.ndim
    sh = a.shape[:axis] + a.shape[axis + 1:]
    if not sh: return mk(a.shape[0], lambda k: f(k))
    return Arr(sh, lambda ix: mk(a.shape[axis], lambda k: f(*(list(ix[:axis]) + [k] + list(ix[axis:])))), a.kind if a.kind != "bool" else "int")
@ext("numpy.prod", "numpy.product")
def np_prod(v, axis=None, dtype=None, **kw):
    if isinstance(v, PyIter): v = list(v.items())
    a = to_arr(v); f = a.snapshot()
    if axis is not None and a.ndim > 1:
        ax = axis % a.ndim; n = a.shape[ax]
        if not isinstance(n, int): raise Unsupported("prod along an axis")
        def pr(ix):
            r = 1
            for k in range(n): r = arith("mul", r, f(*(list(ix[:ax]) + [k] + list(ix[ax:]))))
            return r
        return Arr(a.shape[:ax] + a.shape[ax + 1:], pr, a.kind)
    if a.ndim == 0: return f()
    if a.ndim != 1:
        if not all(isinstance(d, int) for d in a.shape): raise Unsupported("prod of a matrix")
        r = 1
        for ix in itertools.product(*[range(d) for d in a.shape]): r = arith("mul", r, f(*ix))
        return r
    n = a.shape[0]
    if isinstance(n, int):
        M = chol_diag(f, n)
        if M is not None: return s_sqrt(det(M))
        r = 1
        for k in range(n): r = arith("mul", r, f(k))
        return r
    # integer product of 0/1-valued factors and the like stays opaque
    return opaque("prod", (a,), ())
def chol_diag(f, n):
    """M when the entries f(0..n-1) are the whole diagonal of cholesky(M): their product is then sqrt(det M)"""
    c = ctx(); M = None
    for k in range(n):
        x = f(k)
        if not isinstance(x, S) or len(x.t) != 1: return None
        ((m, cf),) = x.t.items()
        if cf != G1 or m[0] or m[1] or len(m[2]) != 1 or m[2][0][1] != 1: return None
        at = m[2][0][0]
        if at[0] != "fn" or c.fns[at[1]].name != "cholesky" or tuple(at[2]) != (k, k): return None
        if M is None: M = at[1]
        elif M != at[1]: return None
    return None if M is None or c.fns[M].args[0].shape[0] != n else snap_arr(c.fns[M].args[0])
def snap_arr(s): return Arr(s.shape, lambda ix: s.fn(*ix), s.kind)
@ext("numpy.cumsum")
def np_cumsum(v):
    a = to_arr(v); f = a.snapshot(); return Arr(a.shape, lambda ix: ssum(0, ix[0] + 1, lambda k: toS(num(f(k)))), a.kind)
@ext("numpy.bincount")
def np_bincount(v, weights=None, minlength=0):
    a = to_arr(v); n = cval(a.shape[0]); m = cnum(minlength)
    if weights is not None or not isinstance(n, int) or not isinstance(m, int): raise Unsupported("bincount")
    x = [cval(as_int(num(a.get(q))) if isinstance(num(a.get(q)), S) else num(a.get(q))) for q in range(n)]
    if not all(isinstance(k, int) for k in x): raise Unsupported("bincount of symbolic values")
    if any(k < 0 for k in x): raise SymRaise("ValueError", "negative")
    c = [x.count(q) for q in range(max([m] + [k + 1 for k in x]))]
    return Arr((len(c),), lambda ix: pick(ix[0], [lambda k=k: k for k in c]), "int")
@ext("numpy.mean")
def np_mean(v): a = to_arr(v); return np_sum(a) / toS(size(a))
def np_maxmin(v, w):
    a = to_arr(v)
    if a.ndim == 1 and isinstance(a.shape[0], int):
        return minmax(([a.get(k) for k in range(a.shape[0])],), {}, imax if w == "max" else imin, "gt" if w == "max" else "lt")
    return opaque(w, (a,), ())
@ext("numpy.max", "numpy.amax")
def np_max(v, **k): return np_maxmin(v, "max")
@ext("numpy.min", "numpy.amin")
def np_min(v, **k): return np_maxmin(v, "min")
@ext("numpy.any")
def np_any(v):
    if isinstance(v, (B, bool)): return v
    a = to_arr(v); return quant(a, True)
@ext("numpy.all")
def np_all(v):
    if isinstance(v, (B, bool)): return v
    a = to_arr(v); r = quant(elementwise(lambda x: bnot(asB(x)), a, kind="bool"), True)
    return bnot(r) if isinstance(r, B) else not r
def int_only(b):
    """the condition speaks about integers only (so that it can be quantified exactly)"""
    if not isinstance(b, B): return True
    if b.op == "opq" and b.args[0] == "real":
        return ctx().zS(b.args[2], dict(seen=set(), extra=[])) is not None
    if b.op == "opq" and b.args[0] not in ("mem", "forall", "isid"): return False
    return all(int_only(x) for x in b.args if isinstance(x, B))
def quant(a, _):
    """exists index: a[index], as True / False / opaque condition"""
    c = ctx(); f = a.snapshot()
    if all(isinstance(d, int) for d in a.shape):
        n = 1
        for d in a.shape: n *= d
        if n <= 64:
            return bor(*[asB(f(*ix)) for ix in itertools.product(*[range(d) for d in a.shape])])
    def rec(pre):
        d = len(pre)
        if d == a.ndim: return bnot(asB(f(*pre)))
        return forall(a.shape[d], lambda q: rec(pre + [q]))
    try:
        r = rec([])
        if int_only(r): return bnot(r)
    except Unsupported: pass
    names = [c.fresh("q") for _ in a.shape]; ix = [ivar(n) for n in names]
    facts = [z for q, d in zip(ix, a.shape) for z in (ble(0, q), blt(q, d))]
    if c.query(lambda: not decide(asB(f(*ix))), names, facts): return False
    if at_hints(a.shape, lambda *w: decide(asB(f(*w)))): return True
    return opq("exists", c.fresh("any"))
@ext("numpy.allclose")
def np_allclose(a, b, rtol=None, atol=None, **kw): return close(a, b, rtol, atol)
@ext("numpy.isclose")
def np_isclose(a, b, rtol=None, atol=None, **kw):
    if isinstance(a, Arr) and a.ndim or isinstance(b, Arr) and b.ndim:
        return elementwise(lambda x, y: close(x, y, rtol, atol), a, b, kind="bool")
    return close(a, b, rtol, atol)
@ext("numpy.array_equal")
def np_array_equal(a, b): return arr_equal(to_arr(a), to_arr(b)) or opq("array_equal", ctx().fresh("ae"))
def close(a, b, rtol, atol):
    """|a-b| <= atol + rtol|b| everywhere: True when equal; otherwise an uninterpreted predicate of the operands"""
    rt = toS(num(rtol)) if rtol is not None else toS(Fraction(1, 100000)); at = toS(num(atol)) if atol is not None else toS(Fraction(1, 10**8))
    d = arith("sub", a, b)
    if ctx().tol:
        if not isinstance(d, Arr): return within(d, b, rt, at)
        if all(isinstance(x, int) for x in d.shape):
            bb = elementwise(lambda x, y: toS(num(y)) + 0 * toS(num(x)), a, b)
            return all(decide(within(d.get(*ix), bb.get(*ix), rt, at)) for ix in itertools.product(*map(range, d.shape)))
        bb = elementwise(lambda x, y: toS(num(y)) + 0 * toS(num(x)), a, b); fd = d.snapshot(); fb = bb.snapshot(); c = ctx()
        if at_hints(d.shape, lambda *w: not decide(within(fd(*w), fb(*w), rt, at))): return False
        names = [c.fresh("q") for _ in d.shape]; ix = [ivar(n) for n in names]
        if c.query(lambda: decide(within(fd(*ix), fb(*ix), rt, at)), names, [z for q, m in zip(ix, d.shape) for z in (ble(0, q), blt(q, m))]): return True
        raise Unsupported("tolerance comparison that the facts do not decide")
    if isinstance(d, Arr):
        z = Arr(d.shape, lambda ix: ZERO, "real")
        if ctx().hints:
            da = elementwise(lambda x, y: bor(nanpred(x), nanpred(y)), a, b, kind="bool"); fa = da.snapshot(); fd = d.snapshot()
            if at_hints(d.shape, lambda *w: decide(asB(fa(*w)))): return False
        if arr_equal(d, z): return True
        if ctx().hints and ctx().exact_close:
            if at_hints(d.shape, lambda *w: surely_nonzero(fd(*w))): return False
            return opq("close", ctx().fresh("close"))
        if ctx().exact_close: return may_vanish([toS(num(d.get(*ix))) for ix in itertools.product(*map(range, d.shape))]) if all(isinstance(x, int) for x in d.shape) and d.kind != "bool" else False
        bb = elementwise(lambda x, y: toS(num(y)) + 0 * toS(num(x)), a, b)
        i = opaque_id("close", (d, bb, rt, at), True)
        return opq("pred", "close", i)
    if is_zero(toS(num(d))): return True
    cd, cb = toS(num(d)).const(), toS(num(b)).const()
    if cd is not None and cb is not None and rt.const() is not None and at.const() is not None:
        import cmath
        return abs(complex(cd[0], cd[1])) <= float(at.const()[0]) + float(rt.const()[0]) * abs(complex(cb[0], cb[1]))
    if ctx().exact_close: return may_vanish([toS(num(d))])
    i = opaque_id("close", (toS(num(d)), toS(num(b)), rt, at), True)
    return opq("pred", "close", i)
def may_vanish(ds):
    """the given numbers are all zero: a case of its own where that is a system of linear equations; otherwise only the generic case is looked at"""
    if ctx().exact_close == "generic": return False
    ds = [drop_zero(d) for d in ds]; ds = [d for d in ds if d.t]
    if not ds: return True
    try: sol = eliminate(ds)
    except ValueError: return False
    if sol is None or any(isinstance(l, B) and l.op == "not" and isinstance(l.args[0], B) and l.args[0].op == "opq" and l.args[0].args[:2] == ("real", "eq") and not lin_sub(l.args[0].args[2], sol).t for fr in ctx().frames for l in itertools.chain(fr.lits, fr.facts)): return False
    return B("opq", "lin", "zero", *sorted(set(ds), key=lambda d: repr(d.key())))
def within(d, b, rt, at):
    """|d| <= at + rt|b| as an inequality between the real numbers (equal numbers are within every tolerance)"""
    return True if is_zero(toS(num(d))) else compare("<=", s_abs(toS(num(d))), at + rt * s_abs(toS(num(b))))
@ext("numpy.dot")
def np_dot(a, b):
    if not isinstance(a, Arr) and not isinstance(b, Arr) and (isint(a) or isinstance(a, S)): return arith("mul", a, b)
    return matmul(a, b)
EXT["numpy.matmul"] = Builtin("matmul", lambda a, b: matmul(a, b))
@ext("numpy.vdot")
def np_vdot(a, b): return matmul(np_conj(to_arr(a)), b)
@ext("numpy.issubdtype")
def np_issubdtype(d, t):
    k = dtkind(d); n = t.name
    return {"inexact": k in ("real", "complex"), "floating": k == "real", "complexfloating": k == "complex", "integer": k == "int", "int": k == "int", "float": k == "real", "complex": k == "complex"}[n]
@ext("numpy.dtype")
def np_dtype(t): return DT(dtkind(t))
@ext("numpy.result_type")
def np_result_type(*a): return DT(kmax(*[dtkind(x) if isinstance(x, (Ty, DT)) else kind_of(x) for x in a]))
@ext("numpy.shape")
def np_shape(a): return to_arr(a).shape
@ext("numpy.ndim")
def np_ndim(a): return to_arr(a).ndim
@ext("numpy.isfinite")
def np_isfinite(v): return elementwise(lambda x: True, v, kind="bool")
@ext("numpy.argsort")
def np_argsort(v, **kw):
    a = to_arr(v)
    if a.ndim == 1 and isinstance(a.shape[0], int):
        vals = [(a.get(k), k) for k in range(a.shape[0])]; s = _sorted(vals); return to_arr([k for _, k in s])
    raise Unsupported("argsort")
@ext("numpy.argmax")
def np_argmax(v, axis=None, **kw):
    if axis is not None: raise Unsupported("argmax along an axis")
    r = ghost("argmax", to_arr(v))
    if r is None: raise Unsupported("argmax")
    return r
@ext("numpy.sort")
def np_sort(v, **kw):
    a = to_arr(v)
    if a.ndim == 1 and isinstance(a.shape[0], int): return to_arr(_sorted([a.get(k) for k in range(a.shape[0])]))
    raise Unsupported("sort")
@ext("numpy.unique")
def np_unique(v, **kw): raise Unsupported("unique")
@ext("numpy.flip")
def np_flip(v, axis=None): raise Unsupported("flip")
@ext("numpy.ndindex")
def np_ndindex(*s):
    sh = shp(s[0] if len(s) == 1 and isinstance(s[0], (tuple, list)) else s)
    if all(isinstance(d, int) for d in sh): return iter(list(itertools.product(*[range(d) for d in sh])))
    return NdIdx(sh)
@ext("numpy.unravel_index")
def np_unravel_index(i, shape, order="C"):
    k = as_int(num(i)) if isinstance(num(i), S) else cval(num(i)); sh = [cval(x) for x in as_shape(shape)]
    if not isinstance(k, int) or not all(isinstance(x, int) for x in sh) or order != "C": raise Unsupported("unravel_index")
    r = []
    for d in reversed(sh): r.append(k % d); k //= d
    if k: raise SymRaise("ValueError", "index out of bounds")
    return tuple(reversed(r))
@ext("numpy.tile")
def np_tile(v, n):
    a = to_arr(v)
    if a.ndim == 1 and isinstance(n, int): return concat([a] * n, 0)
    raise Unsupported("tile")
@ext("numpy.repeat")
def np_repeat(v, n, **kw): raise Unsupported("repeat")
@ext("numpy.einsum")
def np_einsum(sub, *ops, **kw):
    """explicit or implicit subscripts, with an ellipsis for the remaining axes; no broadcasting of axes of length one"""
    if not isinstance(sub, str) or set(kw) - {"optimize"}: raise Unsupported("einsum form")
    sub = sub.replace(" ", ""); ins, arrow, out = sub.partition("->"); ins = ins.split(",")
    ops = [to_arr(o) for o in ops]
    if len(ins) != len(ops): raise SymRaise("ValueError", "einsum operands")
    labels, nell = [], 0
    for t, o in zip(ins, ops):
        if "..." in t:
            a, _, b = t.partition("..."); k = o.ndim - len(a) - len(b)
            if k < 0: raise SymRaise("ValueError", "einsum rank")
            nell = max(nell, k); labels.append(list(a) + [("...", q) for q in range(-k, 0)] + list(b))
        else:
            if len(t) != o.ndim: raise SymRaise("ValueError", "einsum rank")
            labels.append(list(t))
    ell = [("...", q) for q in range(-nell, 0)]
    if arrow:
        if "..." in out: a, _, b = out.partition("..."); res = list(a) + ell + list(b)
        else:
            if nell: raise SymRaise("ValueError", "einsum ellipsis")
            res = list(out)
    else:
        flat = [l for t in labels for l in t]; res = ell + sorted(l for l in set(flat) if isinstance(l, str) and flat.count(l) == 1)
    dims = {}
    for t, o in zip(labels, ops):
        for l, d in zip(t, o.shape):
            if l in dims:
                if not (dims[l] == d or decide(beq(dims[l], d))): raise SymRaise("ValueError", "einsum dimensions")
            else: dims[l] = d
    if any(l not in dims for l in res) or len(set(res)) != len(res): raise SymRaise("ValueError", "einsum output")
    summed = []
    for t in labels:
        for l in t:
            if l not in res and l not in summed: summed.append(l)
    fs = [o.snapshot() for o in ops]; kind = kmax(*[o.kind for o in ops])
    def el_(ix):
        at = dict(zip(res, ix))
        def rec(q):
            if q == len(summed):
                r = ONE
                for f, t in zip(fs, labels):
                    r = r * toS(num(f(*[at[l] for l in t])))
                    if not r.t: return r
                return r
            def g(k):
                at[summed[q]] = k; return rec(q + 1)
            return ssum(0, dims[summed[q]], g)
        return rec(0)
    r = Arr(tuple(dims[l] for l in res), lambda ix: el_(tuple(ix)), kind)
    return r.get() if not res else r
# ------------------------------------------------------------------ linear algebra (assumed contracts)
@ext("numpy.linalg.inv")
def la_inv(a): return inv(to_arr(a))
@ext("numpy.linalg.solve", "scipy.linalg.solve")
def la_solve(a, b): return matmul(inv(to_arr(a)), to_arr(b))
@ext("numpy.linalg.det")
def la_det(a): return det(to_arr(a))
@ext("numpy.linalg.norm")
def la_norm(v, *a, **k):
    x = to_arr(v)
    if a or k: raise Unsupported("norm with options")
    f = x.snapshot()
    if x.ndim == 1: return spow(ssum(0, x.shape[0], lambda q: toS(num(f(q))) * conj(toS(num(f(q))))), Fraction(1, 2))
    raise Unsupported("matrix norm")
def square(a):
    a = to_arr(a)
    if not decide(beq(a.shape[0], a.shape[1])): raise SymRaise("LinAlgError")
    return a
@ext("numpy.linalg.eigvalsh")
def la_eigvalsh(a):
    a = square(a); r = ghost("eigvalsh", a)
    return r if r is not None else opaque_arr("eigvalsh", (a,), (a.shape[0],), "real")
@ext("numpy.linalg.eigvals")
def la_eigvals(a):
    a = square(a); r = ghost("eigvals", a)
    return r if r is not None else opaque_arr("eigvals", (a,), (a.shape[0],), "complex")
@ext("numpy.linalg.svd")
def la_svd(a, compute_uv=True, **kw):
    a = to_arr(a)
    if compute_uv is not False:
        r = ghost("svd", a)
        if r is None or kw: raise Unsupported("svd factors")
        return r
    return opaque_arr("svdvals", (a,), (imin(a.shape[0], a.shape[1]),), "real")
@ext("numpy.linalg.cholesky")
def la_chol(a): a = square(a); return opaque_arr("cholesky", (a,), a.shape, kmax("real", a.kind))
@ext("scipy.linalg.sqrtm")
def la_sqrtm(a):
    a = square(a); r = ghost("sqrtm", a)
    return r if r is not None else opaque_arr("sqrtm", (a,), a.shape, "complex")
def la_factor(name, *opts):
    def g(a, **kw):
        r = ghost(name, to_arr(a), *[kw.pop(o, d) for o, d in opts])
        if r is None or kw: raise Unsupported(name)
        return r
    return g
EXT["numpy.linalg.eigh"] = EXT["scipy.linalg.eigh"] = Builtin("eigh", la_factor("eigh")); EXT["scipy.linalg.schur"] = Builtin("schur", la_factor("schur", ("output", "real")))
EXT["scipy.linalg.polar"] = Builtin("polar", la_factor("polar", ("side", "right"))); EXT["scipy.linalg.qr"] = EXT["numpy.linalg.qr"] = Builtin("qr", la_factor("qr"))
@ext("scipy.sparse.issparse")
def sp_issparse(a): return isinstance(a, Arr) and a.sparse is not None
@ext("scipy.sparse.identity", "scipy.sparse.eye", "scipy.sparse.eye_array")
def sp_identity(n, m=None, dtype=None, format="dia"):
    r = np_identity(n, m, dtype); r.sparse = concrete_text(format) + "_array"; return r
SPARSE = ("csr_array", "csc_array", "lil_array", "coo_array", "dia_array", "bsr_array")
for _t in SPARSE: EXT["scipy.sparse." + _t] = Ty(_t)
def to_sparse(a, fmt):
    a = to_arr(a); f = a.snapshot(); r = Arr(a.shape, lambda ix: f(*ix), a.kind); r.sparse = fmt; return r
@ext("scipy.special.factorial")
def sp_factorial(v, **kw): return elementwise(lambda x: s_factorial(num(x)), v, kind="real")
def s_factorial(x):
    if isinstance(x, S): 
        i = as_int(x)
        if i is None: raise Unsupported("factorial of a real")
        x = i
    import math
    if isinstance(x, int): return toS(math.factorial(x)) if x >= 0 else ZERO
    return satom(("app", "fact", (toS(x),), True, False))
@ext("math.factorial")
def m_factorial(v): return s_factorial(num(v))
@ext("scipy.special.binom")
def sp_binom(n, k): return elementwise(s_binom, n, k, kind="real")
def ratconst(x):
    c = toS(num(x)).const()
    return c[0] if c is not None and c[1] == 0 else None
def s_binom(x, y):
    """generalised binomial coefficient for rational x and an integer y >= 0"""
    a, b = ratconst(x), ratconst(y)
    if a is not None and b is not None and b.denominator == 1 and b >= 0:
        r = Fraction(1)
        for q in range(int(b)): r = r * (a - q) / (q + 1)
        return toS(r)
    return satom(("app", "binom", (toS(num(x)), toS(num(y))), True, False))
def poch(a, q):
    r = Fraction(1)
    for t in range(q): r *= a + t
    return r
@ext("scipy.special.hyp2f1")
def sp_hyp(*a):
    """the defining power series; a proof about its coefficients sets ctx().series and gets the terms below that order"""
    Q = getattr(ctx(), "series", None); v = [ratconst(x) for x in a[:3]]
    if Q and None not in v:
        r = ZERO; z = toS(num(a[3]))
        for q in range(Q): r = r + spow(z, q) * toS(poch(v[0], q) * poch(v[1], q) / (poch(v[2], q) * poch(Fraction(1), q)))
        return r
    return satom(("app", "hyp2f1", tuple(toS(num(x)) for x in a), True, False))
@ext("scipy.stats.nbinom.pmf")
def st_nbinom(k, n=None, p=None):
    """probability of k failures before the n-th success: (n)_k / k! p^n (1-p)^k"""
    r, q = ratconst(n), toS(num(p))
    if r is None: raise Unsupported("negative binomial with a symbolic number of successes")
    def f(x):
        x = as_int(num(x)) if isinstance(x, S) else cval(x)
        if not isinstance(x, int): raise Unsupported("negative binomial at a symbolic point")
        if x < 0: return ZERO
        return toS(poch(r, x) / poch(Fraction(1), x)) * spow(q, r) * spow(ONE - q, x)
    return elementwise(f, k, kind="real")
@ext("numpy.convolve")
def np_convolve(a, b, mode="full"):
    a, b = to_arr(a), to_arr(b)
    if mode != "full" or a.ndim != 1 or b.ndim != 1: raise Unsupported("convolve mode")
    n, m = cval(a.shape[0]), cval(b.shape[0])
    if not (isinstance(n, int) and isinstance(m, int)): raise Unsupported("convolve of symbolic length")
    if not n or not m: raise SymRaise("ValueError", "empty")
    f, g = a.snapshot(), b.snapshot(); A = [toS(num(f(q))) for q in range(n)]; Bv = [toS(num(g(q))) for q in range(m)]
    vals = [sum((A[i] * Bv[q - i] for i in range(max(0, q - m + 1), min(n, q + 1))), ZERO) for q in range(n + m - 1)]
    return Arr((n + m - 1,), lambda ix: pick(ix[0], [lambda v=v: v for v in vals]), kmax(a.kind, b.kind))
@ext("numpy.random.seed")
def rn_seed(x=None):
    c = ctx(); c.rng = getattr(c, "rng", []) + [("seed", x)]
def rng_log(*e):
    c = ctx(); c.rng = getattr(c, "rng", []) + [e]
def rng_name():
    c = ctx(); return "draw%d" % len(getattr(c, "rng", []))
class Rec:
    """an object with the given attributes"""
    def __init__(self, **kw): self.kw = kw
@ext("scipy.optimize.root_scalar")
def so_root_scalar(f, args=(), method=None, bracket=None, fprime=None, fprime2=None, x0=None, x1=None, xtol=None, rtol=None, maxiter=None, options=None):
    """a number within the bracket; where the search converged, a zero of f"""
    call = lambda g, x: Interp.call(g, [x] + list(args), {}); c = ctx(); k = len(getattr(c, "roots", [])); x = sym("root%d" % k, pos=bracket is not None and is_zero(toS(num(bracket[0])))); conv = opq("converged", k)
    if bracket is not None: c.assume(compare("<", toS(num(bracket[0])), x), compare("<", x, toS(num(bracket[1]))))
    c.roots = getattr(c, "roots", []) + [dict(x=x, conv=conv, f=lambda y: toS(num(call(f, y))), fp=(lambda y: toS(num(call(fprime, y)))) if fprime is not None and fprime is not True else None, bracket=bracket, x0=x0)]
    return Rec(root=x, converged=conv)
def as_shape(size):
    if isinstance(size, (tuple, list, SymList)): return tuple(Interp(None, None).iterate(size))
    if isinstance(size, Arr): return tuple(num(x) for x in Interp(None, None).iterate(size))
    return (num(size),)
@ext("numpy.random.normal")
def rn_normal(loc=None, scale=None, size=None):
    """location + scale times standard normal draws (arbitrary reals); the draws of a run are recorded in order"""
    nm = rng_name(); loc = 0 if loc is None else loc; scale = 1 if scale is None else scale
    if size is None and not isinstance(loc, Arr) and not isinstance(scale, Arr):
        x = sym(nm); rng_log("normal", x); return arith("add", arith("mul", x, scale), loc)
    shape = as_shape(size) if size is not None else bshape(*[a.shape for a in (loc, scale) if isinstance(a, Arr)])
    z = Arr(shape, lambda ix: el(nm, ix, True), "real"); rng_log("normal", z)
    return arith("add", arith("mul", z, scale), loc)
@ext("numpy.random.randn")
def rn_randn(*shape): return rn_normal(size=tuple(shape)) if shape else rn_normal()
@ext("numpy.random.random", "numpy.random.random_sample")
def rn_random(size=None):
    """arbitrary reals in [0, 1)"""
    nm = rng_name()
    def u(x):
        ctx().assume(compare(">=", x, ZERO), compare("<", x, ONE)); return x
    if size is None: x = u(sym(nm)); rng_log("uniform", x); return x
    z = Arr(as_shape(size), lambda ix: u(el(nm, ix, True)), "real"); rng_log("uniform", z); return z
EXT["numpy.random.rand"] = Builtin("numpy.random.rand", lambda *sh: rn_random(tuple(sh) if sh else None))
@ext("numpy.random.binomial")
def rn_binomial(n, p, size=None):
    """an arbitrary count of 0..n; parameters recorded"""
    if size is not None: raise Unsupported("binomial with a size")
    n = num(n); n = as_int(n) if isinstance(n, S) else n
    if not isinstance(n, int): raise Unsupported("binomial of symbolically many")
    k = draw_index(n + 1); rng_log("binomial", n, toS(num(p)), k); return k
@ext("numpy.random.multivariate_normal")
def rn_mvn(mean, cov, size=None):
    """rows with the recorded mean and covariance"""
    nm = rng_name(); mean, cov = to_arr(mean), to_arr(cov); sh = (as_shape(size) if size is not None else ()) + (mean.shape[0],)
    z = Arr(sh, lambda ix: el(nm, ix, True), "real"); rng_log("multivariate_normal", copy_arr(mean), copy_arr(cov), z); return z
@ext("numpy.random.poisson")
def rn_poisson(lam=1, size=None):
    """independent Poisson counts of the recorded means"""
    if size is not None: raise Unsupported("poisson with a size")
    nm = rng_name()
    if not isinstance(lam, Arr): x = sym(nm); rng_log("poisson", lam, x); return x
    z = Arr(lam.shape, lambda ix: el(nm, ix, True), "real"); rng_log("poisson", copy_arr(lam), z); return z
def draw_index(n):
    """an arbitrary index below n: one path for each"""
    k = len(getattr(ctx(), "rng", []))
    for q in range(n - 1):
        if decide(opq("draw", k, q)): return q
    return n - 1
@ext("numpy.random.choice")
def rn_choice(a, size=None, replace=True, p=None):
    """an arbitrary element: one path for each; the probabilities handed over are recorded"""
    if size is not None:
        sh = as_shape(size); m = cval(sh[0]) if len(sh) == 1 else None
        if not isinstance(m, int) or replace is not True: raise Unsupported("choice with a size")
        v = [rn_choice(a, None, True, p) for _ in range(m)]
        return Arr((m,), lambda ix: pick(ix[0], [lambda x=x: x for x in v]), a.kind if isinstance(a, Arr) else "int")
    n = cval(num(a)) if not isinstance(a, (Arr, list, tuple, SymList)) else cval(seqlen(a))
    if not isinstance(n, int): raise Unsupported("choice among symbolically many")
    if n <= 0: raise SymRaise("ValueError", "empty choice")
    if p is None: pr = [toS(Fraction(1, n))] * n
    else:
        pa = to_arr(p)
        if not decide(beq(pa.shape[0], n)): raise SymRaise("ValueError", "a and p must have same size")
        pr = [toS(num(pa.get(q))) for q in range(n)]
    k = draw_index(n); rng_log("choice", pr, k)
    return k if not isinstance(a, (Arr, list, tuple, SymList)) else (a.get(k) if isinstance(a, Arr) else a[k])
@ext("numpy.random.negative_binomial")
def rn_nb(n, p, size=None):
    """an arbitrary count of at most ctx().nb_max; parameters recorded"""
    m = getattr(ctx(), "nb_max", None)
    if m is None: raise Unsupported("negative binomial draw")
    k = draw_index(m + 1); rng_log("negative_binomial", toS(num(n)), toS(num(p)), k)
    if size is None: return k
    if cval(num(size)) != 1: raise Unsupported("negative binomial with a size")
    return Arr((1,), lambda ix: k, "int")
@ext("numpy.fft.fft")
def fft_fft(a, n=None, axis=-1, norm=None):
    """the discrete Fourier transform of a vector of 1, 2 or 4 entries"""
    a = to_arr(a); m = cval(a.shape[0])
    if a.ndim != 1 or n is not None or m not in (1, 2, 4): raise Unsupported("fft of this shape")
    w = {1: [ONE], 2: [ONE, -ONE], 4: [ONE, -IM, -ONE, IM]}[m]; f = a.snapshot(); v = [toS(num(f(q))) for q in range(m)]
    sc = ONE if norm in (None, "backward") else spow(toS(m), Fraction(-1, 2)) if norm == "ortho" else toS(Fraction(1, m))
    out = [sum((v[q] * w[q * k % m] for q in range(m)), ZERO) * sc for k in range(m)]
    return Arr((m,), lambda ix: pick(ix[0], [lambda x=x: x for x in out]), "complex")
@ext("warnings.warn")
def w_warn(*a, **k): return None
@ext("itertools.product")
def it_product(*seqs, repeat=1):
    its = [Interp(None, None).iterate(s) for s in seqs]; ls = [None if s is None else list(s) for s in its]
    rp = cnum(repeat)
    if any(l is None for l in ls) and isinstance(rp, int) and all(l is not None or isinstance(s, Range) and is_iota(s) for l, s in zip(ls, seqs)) and all(l is None or l == list(range(len(l))) for l in ls):
        return NdIdx([seqlen(s) for s in seqs] * rp)
    if any(l is None for l in ls) or not isinstance(rp, int): raise Unsupported("product of symbolic sequences")
    return list(itertools.product(*ls, repeat=rp))
@ext("itertools.combinations")
def it_combinations(s, r): return list(itertools.combinations(list(Interp(None, None).iterate(s)), cnum(r)))
@ext("itertools.chain")
def it_chain(*s): return list(itertools.chain(*[Interp(None, None).iterate(x) for x in s]))
EXT["itertools.chain.from_iterable"] = Builtin("from_iterable", lambda s: list(itertools.chain(*[Interp(None, None).iterate(x) for x in Interp(None, None).iterate(s)])))
@ext("itertools.count")
def it_count(s=0): return itertools.count(s)
@ext("numba.prange")
def nb_prange(*a): return call_type(T_RANGE, list(a), {})
def _special(m, nm): pass
_old_attr = attribute
def attribute(it, v, a):
    if isinstance(v, Rec):
        if a in v.kw: return v.kw[a]
        raise SymRaise("AttributeError", a)
    if isinstance(v, Builtin) and v.name + "." + a in EXT: return EXT[v.name + "." + a]
    if isinstance(v, Builtin) and v.name == "itertools.chain" and a == "from_iterable": return EXT["itertools.chain.from_iterable"]
    return _old_attr(it, v, a)
EXT["numpy.pi"] = satom(("sym", "pi", True, False))
EXT["math.pi"] = EXT["numpy.pi"]
EXT["math.sqrt"] = EXT["numpy.sqrt"]; EXT["math.exp"] = EXT["numpy.exp"]; EXT["math.cos"] = EXT["numpy.cos"]; EXT["math.sin"] = EXT["numpy.sin"]

@ext("functools.lru_cache")
def ft_lru(*a, **k): return a[0] if a and isinstance(a[0], Func) else Builtin("lru_cache", lambda f: f)
@ext("collections.Counter")
def col_counter(v):
    it = Interp(None, None).iterate(v)
    if it is None: raise Unsupported("Counter of a symbolic sequence")
    d = {}
    for x in it: d[hashkey(x)] = d.get(hashkey(x), 0) + 1
    return d
@ext("scipy.special.factorial2")
def sp_factorial2(n, *a, **k):
    n = num(n); n = as_int(n) if isinstance(n, S) else n
    if not isinstance(n, int): raise Unsupported("factorial2 of a symbolic number")
    if n < 0: return ONE if n == -1 and k.get("extend") == "complex" else ZERO
    r = 1
    while n > 1: r *= n; n -= 2
    return toS(r)
@ext("sympy.Integer")
def sy_integer(x): return toS(num(x))
@ext("sympy.symbols")
def sy_symbols(txt):
    m = re.fullmatch(r"(\w*?)(\d+):(\d+)", txt)
    if not m: raise Unsupported("sympy.symbols(%r)" % txt)
    return tuple(sym("$%s%d" % (m.group(1), k), real=False) for k in range(int(m.group(2)), int(m.group(3))))
@ext("sympy.expand")
def sy_expand(x): return x
def sy_coeff(p, mono):
    """coefficient of a monomial in symbols of an expanded polynomial"""
    p, mono = toS(num(p)), toS(num(mono))
    if len(mono.t) != 1: raise Unsupported("coeff of a sum")
    ((b, g, f), c), = mono.t.items()
    if b or g or c != G1 or not f or not all(a[0] == "sym" and a[1].startswith("$") for a, e in f): raise Unsupported("coeff of %s" % show(mono))
    want = dict(f); r = {}
    for (b2, g2, f2), c2 in p.t.items():
        have = {a: e for a, e in f2 if a in want}
        if have == want:
            k = (b2, g2, tuple((a, e) for a, e in f2 if a not in want)); o = r.get(k, G0); r[k] = (o[0] + c2[0], o[1] + c2[1])
    return S(r)
@ext("numba.cpython.unsafe.tuple.tuple_setitem")
def nb_tuple_setitem(t, i, v):
    i = cval(i)
    if not isinstance(i, int): raise Unsupported("tuple_setitem at a symbolic position")
    t = list(t); t[i] = v; return tuple(t)
@ext("dask.delayed")
def dk_delayed(f): return Builtin("delayed call", lambda *a, **k: Interp.call(f, list(a), k) if isinstance(f, Func) else f(*a, **k))
@ext("dask.compute")
def dk_compute(*a, scheduler=None, **k): return tuple(a)
@ext("itertools.permutations")
def it_permutations(v, r=None):
    it = Interp(None, None).iterate(v)
    if it is None or not (r is None or isinstance(r, int)): raise Unsupported("permutations of a symbolic sequence")
    return list(itertools.permutations(list(it), r))
