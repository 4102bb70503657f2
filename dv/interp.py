"""dv interpreter: executes the AST of the functions in /repo over symbolic values. Nothing of the code is rewritten:
the source is parsed on every run, names are resolved through the module's own imports, calls to functions under
contract use the contract, other repo functions are inlined."""
import ast
import sys, os
from fractions import Fraction
from core import *
import core
from arr import *
import arr

REPO = os.environ.get("DV_REPO", "/repo")

class Ret(Exception):
    def __init__(self, v): self.v = v
class Brk(Exception): pass
class Cont(Exception): pass

class Mod:
    """a repo module: parsed source and lazily evaluated globals"""
    cache = {}
    def __init__(self, name, path, is_pkg):
        self.name, self.path, self.is_pkg = name, path, is_pkg
        self.src = open(path).read(); self.tree = ast.parse(self.src); self.env = {}; self.defs = {}
        for n in self.tree.body: self.scan(n)
    def scan(self, n):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)): self.defs[n.name] = n
        elif isinstance(n, ast.Import):
            for a in n.names: self.defs[a.asname or a.name.split(".")[0]] = ("import", a.name if a.asname else a.name.split(".")[0])
        elif isinstance(n, ast.ImportFrom):
            base = n.module or ""
            if n.level:
                parts = self.name.split(".")
                if not self.is_pkg: parts = parts[:-1]
                parts = parts[:len(parts) - (n.level - 1)]
                base = ".".join(parts + ([n.module] if n.module else []))
            for a in n.names: self.defs[a.asname or a.name] = ("from", base, a.name)
        elif isinstance(n, ast.Assign) and len(n.targets) == 1 and isinstance(n.targets[0], ast.Name): self.defs[n.targets[0].id] = ("expr", n.value)
    @staticmethod
    def load(name):
        m = Mod.cache.get(name)
        if m is None:
            p = os.path.join(REPO, *name.split("."))
            if os.path.isdir(p): m = Mod(name, os.path.join(p, "__init__.py"), True)
            elif os.path.exists(p + ".py"): m = Mod(name, p + ".py", False)
            else: return None
            Mod.cache[name] = m
        return m
    def lookup(self, nm):
        if nm in self.env: return self.env[nm]
        d = self.defs.get(nm)
        if d is None: return None
        if isinstance(d, ast.FunctionDef): v = Func(d, self, None)
        elif isinstance(d, ast.ClassDef): raise Unsupported("class " + nm)
        elif d[0] == "import": v = resolve_mod(d[1])
        elif d[0] == "from":
            v = resolve_from(d[1], d[2])
        else: v = persistent(Interp(self, None).ev(d[1], {}), "module variable %s" % nm)
        self.env[nm] = v
        return v
PERSISTENT = []     # objects that outlive a call (module variables, default arguments): (what, object, copy)
def persistent(v, what):
    if isinstance(v, (list, dict, Arr)): PERSISTENT.append((what, v, v.root.writes if isinstance(v, Arr) else v.copy()))
    return v
def persistent_changed():
    return [w for w, v, c in PERSISTENT if (v.root.writes != c if isinstance(v, Arr) else len(v) != len(c) or any(x is not y for x, y in (zip(v, c) if isinstance(v, list) else zip(v.values(), c.values()))))]
class ModRef:
    def __init__(self, name): self.name = name
    def attr(self, a): return resolve_from(self.name, a)
def resolve_mod(name):
    return ModRef(name)
def resolve_from(base, nm):
    if base.split(".")[0] == "thewalrus":
        m = Mod.load(base)
        if m is None: raise Unsupported("module " + base)
        if nm in m.defs: return m.lookup(nm)
        if Mod.load(base + "." + nm): return ModRef(base + "." + nm)
        raise Unsupported("name %s in %s" % (nm, base))
    from npmodel import extern
    return extern(base, nm)
class Func:
    """a function of the repo (or a nested function / lambda with its closure)"""
    def __init__(self, node, mod, closure):
        self.node, self.mod, self.closure = node, mod, closure; self.dflt = {}
        self.name = getattr(node, "name", "<lambda>"); self.cached, self.deco = decorators(node) if getattr(node, "decorator_list", None) else (False, [])
    @property
    def qual(self): return self.mod.name + "." + self.name if self.closure is None else None
COMPILED = ("jit", "njit", "delayed", "wraps", "memoized")    # decorators without an effect on the values (the last one caches generators of tuples)
def decorators(node):
    """(results are cached, decorators that have to be applied)"""
    cached, rest = False, []
    for d in node.decorator_list:
        e = d.func if isinstance(d, ast.Call) else d
        nm = e.attr if isinstance(e, ast.Attribute) else e.id if isinstance(e, ast.Name) else "?"
        if nm in ("lru_cache", "cache"): cached = True
        elif nm not in COMPILED: rest.append(d)
    return cached, rest
def shared(v, what):
    """everything mutable in a value that is handed out again by a later call"""
    if isinstance(v, (list, dict)): PERSISTENT.append((what, v, v.copy()))
    if isinstance(v, Arr): PERSISTENT.append((what, v, v.root.writes))
    if isinstance(v, (list, tuple)):
        for x in v: shared(x, what)
    if isinstance(v, dict):
        for x in v.values(): shared(x, what)
def handed_out(v):
    """module-level storage that a result shares"""
    if isinstance(v, (tuple, list)):
        return [w for x in v for w in handed_out(x)] + [w for w, q, c in PERSISTENT if q is v and isinstance(v, list)]
    return [w for w, q, c in PERSISTENT if q is v or isinstance(v, Arr) and isinstance(q, Arr) and q.root is v.root] if isinstance(v, (Arr, dict)) else []
def memo_key(f, args, kw):
    try: return (id(f.node), tuple((type(a).__name__, a.key() if hasattr(a, "key") else a if isinstance(a, (int, str, bool, type(None))) else repr(a)) for a in args), tuple(sorted((k, repr(v)) for k, v in kw.items())))
    except Exception: return None
class Lazy:
    def __init__(self, fn): self.fn = fn
class Unreadable(Lazy):
    """a value that must not be read"""
class Builtin:
    def __init__(self, name, fn): self.name, self.fn = name, fn
class Bound:
    """attribute of a value, as a call"""
    def __init__(self, fn): self.fn = fn
class Ty:
    """a type object used as dtype or in isinstance"""
    def __init__(self, name, kind=None): self.name, self.kind = name, kind
    def __repr__(self): return "Ty(%s)" % self.name
    def __eq__(self, o): return isinstance(o, Ty) and (self.name == o.name)
    def __hash__(self): return hash(self.name)
class Range:
    def __init__(self, lo, hi, st=1): self.lo, self.hi, self.st = lo, hi, st
    def length(self):
        if isinstance(self.lo, int) and isinstance(self.hi, int): return len(range(self.lo, self.hi, self.st))
        if self.st == 1: d = self.hi - self.lo
        elif self.st == -1: d = self.lo - self.hi
        elif self.st > 1: d = toI(self.hi - self.lo + self.st - 1) // self.st
        else: raise Unsupported("range step")
        return d if isinstance(d, int) and d > 0 else 0 if isinstance(d, int) else (d if ctx().entails(ble(0, d)) else imax(d, 0))
    def at(self, k): return self.lo + k * self.st
class SymBool: pass
class Opq:
    """an opaque python value (compared only by identity)"""
    def __init__(self, name): self.name = name
class DT:
    def __init__(self, kind): self.kind = kind

CONTRACTS = {}      # qualified name -> contract object
class Interp:
    depth = 0
    def __init__(self, mod, fn, skip_contract=None):
        self.mod, self.fn = mod, fn
    # ------------------------------------------------------------ functions
    @staticmethod
    def call(f, args, kw, inline=False):
        if isinstance(f, Builtin): return f.fn(*args, **kw)
        if isinstance(f, Bound): return f.fn(*args, **kw)
        if isinstance(f, Ty):
            from npmodel import T_RANGE, call_type
            return call_type(f, args, kw)
        if isinstance(f, Func):
            if not inline and f.qual in CONTRACTS and f.qual not in ctx().no_contract:
                c = ctx(); con = CONTRACTS[f.qual]
                c.used_contracts.add(f.qual)
                r = con.apply(bind_args(f, args, kw))
                if f.cached: shared(r, "cached result of %s" % f.name)
                return r
            return run(f, args, kw)
        raise Unsupported("call of %s" % type(f).__name__)
    # ------------------------------------------------------------ statements
    def block(self, body, env):
        for s in body: self.st(s, env)
    def st(self, s, env):
        getattr(self, "s_" + type(s).__name__, self.s_unsup)(s, env)
    def s_unsup(self, s, env): raise Unsupported("statement %s line %s" % (type(s).__name__, getattr(s, "lineno", "?")))
    def s_Pass(self, s, env): pass
    def s_Expr(self, s, env):
        if isinstance(s.value, ast.Constant): return
        self.ev(s.value, env)
    def s_Return(self, s, env): raise Ret(None if s.value is None else self.ev(s.value, env))
    def s_Break(self, s, env): raise Brk()
    def s_Continue(self, s, env): raise Cont()
    def s_FunctionDef(self, s, env): env[s.name] = Func(s, self.mod, env)
    def s_Import(self, s, env):
        for a in s.names: env[a.asname or a.name.split(".")[0]] = resolve_mod(a.name if a.asname else a.name.split(".")[0])
    def s_Raise(self, s, env):
        e = s.exc; nm = "Exception"
        if isinstance(e, ast.Call): e = e.func
        if isinstance(e, ast.Name): nm = e.id
        raise SymRaise(nm)
    def s_Assert(self, s, env):
        if not self.truth(self.ev(s.test, env)): raise SymRaise("AssertionError")
    def s_If(self, s, env):
        if self.truth(self.ev(s.test, env)): self.block(s.body, env)
        else: self.block(s.orelse, env)
    def s_Assign(self, s, env):
        v = self.ev(s.value, env)
        for t in s.targets: self.assign(t, v, env)
    def s_AnnAssign(self, s, env):
        if s.value is not None: self.assign(s.target, self.ev(s.value, env), env)
    def s_AugAssign(self, s, env):
        op = OPS[type(s.op)]
        if isinstance(s.target, ast.Name):
            cur = self.name(s.target.id, env); v = self.ev(s.value, env)
            if isinstance(cur, Arr):
                if cur.ndim: store(cur, (slice(None),) * cur.ndim, self.binop(op, cur, v))
                else: env[s.target.id] = self.binop(op, cur, v)
            elif isinstance(cur, list) and op == "add": env[s.target.id] = self.extend(cur, v)
            else: env[s.target.id] = self.binop(op, cur, v)
        elif isinstance(s.target, ast.Subscript):
            base = self.ev(s.target.value, env); key = self.key(s.target.slice, env); v = self.ev(s.value, env)
            if isinstance(base, (list, dict)): self.setitem(base, key, self.binop(op, self.getitem(base, key), v)); return
            cur = self.getitem(base, key)
            store(base, key, self.binop(op, cur, v))
        else: raise Unsupported("augmented assignment")
    def extend(self, cur, v):
        it = self.iterate(v)
        if it is None: raise Unsupported("list += symbolic")
        cur.extend(it); return cur
    def assign(self, t, v, env):
        if isinstance(t, ast.Name): env[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            if any(isinstance(x, ast.Starred) for x in t.elts): raise Unsupported("starred target")
            vs = self.unpack(v, len(t.elts))
            for x, y in zip(t.elts, vs): self.assign(x, y, env)
        elif isinstance(t, ast.Subscript):
            base = self.ev(t.value, env); key = self.key(t.slice, env)
            self.setitem(base, key, v)
        else: raise Unsupported("assignment target")
    def setitem(self, base, key, v):
        if isinstance(base, Arr): store(base, key, v)
        elif isinstance(base, list):
            k = as_int(key) if isinstance(key, S) else key
            if isinstance(k, int):
                if not -len(base) <= k < len(base): raise SymRaise("IndexError")
                base[k] = v
            else: raise Unsupported("list store at a symbolic position")
        elif isinstance(base, dict): base[hashkey(key)] = v
        else: raise Unsupported("store into %s" % type(base).__name__)
    def unpack(self, v, n):
        if isinstance(v, Arr):
            if not decide(beq(v.shape[0], n)): raise SymRaise("ValueError", "unpack")
            return [index(v, k) for k in range(n)]
        it = self.iterate(v)
        if it is None:
            ln = seqlen(v)
            if not decide(beq(ln, n)): raise SymRaise("ValueError", "unpack")
            return [seqget(v, k) for k in range(n)]
        it = list(it)
        if len(it) != n: raise SymRaise("ValueError", "unpack")
        return it
    def truth(self, v):
        if isinstance(v, B): return decide(v)
        if isinstance(v, bool): return v
        if v is None: return False
        if isint(v): return decide(bnot(beq(v, 0)))
        if isinstance(v, S):
            return decide(compare("!=", v, 0)) if isinstance(compare("!=", v, 0), B) else compare("!=", v, 0)
        if isinstance(v, (list, tuple, dict, str, set)): return len(v) > 0
        if isinstance(v, (IntSeq, SymList)): return decide(blt(0, v.n))
        if isinstance(v, Arr):
            n = 1
            for d in v.shape: n = n * d
            if decide(beq(n, 1)): return self.truth(v.get(*[0] * v.ndim))
            raise SymRaise("ValueError", "truth value of an array is ambiguous")
        if isinstance(v, (Func, Builtin, Ty)): return True
        raise Unsupported("truth of %s" % type(v).__name__)
    # ------------------------------------------------------------ loops
    def counting_while(self, s, env):
        """while t < h: body; t += 1 (or the increment first) over a symbolic range: the for loop it is, and the final t"""
        from loops import names_stored, symbolic_for
        from npmodel import T_RANGE, call_type
        T, b = s.test, s.body
        if s.orelse or not (isinstance(T, ast.Compare) and len(T.ops) == 1): return False
        l, r, op = T.left, T.comparators[0], type(T.ops[0])
        if op in (ast.Gt, ast.GtE): l, r, op = r, l, {ast.Gt: ast.Lt, ast.GtE: ast.LtE}[op]
        if op not in (ast.Lt, ast.LtE) or not isinstance(l, ast.Name): return False
        t = l.id
        def inc(x):
            if isinstance(x, ast.AugAssign) and isinstance(x.target, ast.Name) and x.target.id == t: return isinstance(x.op, ast.Add) and isinstance(x.value, ast.Constant) and x.value.value == 1
            return isinstance(x, ast.Assign) and len(x.targets) == 1 and isinstance(x.targets[0], ast.Name) and x.targets[0].id == t and ast.dump(x.value) in (ast.dump(ast.parse(t + " + 1", mode="eval").body), ast.dump(ast.parse("1 + " + t, mode="eval").body))
        first = bool(b) and inc(b[0]); last = bool(b) and inc(b[-1])
        if first == last: return False
        if any(isinstance(x, ast.Subscript) and not (isinstance(x.value, ast.Attribute) and x.value.attr == 'shape') for x in ast.walk(r)): return False
        body = b[1:] if first else b[:-1]; st = names_stored(body)
        if t in st or any(isinstance(x, ast.Name) and x.id in st for x in ast.walk(r)): return False
        if any(isinstance(x, (ast.Break, ast.Continue)) for y in body for x in ast.walk(y)): return False
        t0, h = num(self.ev(l, env)), num(self.ev(r, env))
        if not (isint(t0) and isint(h)) or isinstance(h - t0, int): return False
        if op is ast.LtE: h = h + 1
        d = int(first); f = ast.copy_location(ast.For(ast.Name(t, ast.Store()), T, body, []), s); ast.fix_missing_locations(f)
        if not decide(ble(t0, h)): return True
        symbolic_for(self, f, call_type(T_RANGE, [t0 + d, h + d], {}), env); env[t] = h
        return True
    def s_While(self, s, env):
        n = 0
        if self.counting_while(s, env): return
        while True:
            if not self.truth(self.ev(s.test, env)): break
            n += 1
            if n > 200: raise Unsupported("while loop without a bound")
            try: self.block(s.body, env)
            except Brk: return
            except Cont: pass
        self.block(s.orelse, env)
    def s_For(self, s, env):
        it = self.ev(s.iter, env)
        vals = self.iterate(it)
        if vals is not None:
            for v in vals:
                self.assign(s.target, v, env)
                try: self.block(s.body, env)
                except Brk: return
                except Cont: pass
            self.block(s.orelse, env)
            return
        from loops import symbolic_for
        symbolic_for(self, s, it, env)
    def iterate(self, it):
        """python list of the elements when the length is concrete, else None"""
        if isinstance(it, (list, tuple)): return list(it)
        if isinstance(it, str): return list(it)
        if isinstance(it, (dict, set, frozenset)): return list(it)
        if isinstance(it, Range):
            n = cval(it.length())
            if isinstance(n, int):
                if n > 4000: raise Unsupported("long concrete loop")
                return [it.at(k) for k in range(n)]
            return None
        if isinstance(it, Arr):
            n = cval(it.shape[0])
            return [index(it, k) for k in range(n)] if isinstance(n, int) else None
        if isinstance(it, (IntSeq, SymList)):
            n = cval(it.n)
            return [it.fn(k) for k in range(n)] if isinstance(n, int) else None
        if hasattr(it, "__next__"): return it
        if isinstance(it, NdIdx): return None
        if isinstance(it, PyIter): return it.items()
        raise Unsupported("iteration over %s" % type(it).__name__)
    # ------------------------------------------------------------ expressions
    def ev(self, e, env):
        m = getattr(self, "e_" + type(e).__name__, None)
        if m is None: raise Unsupported("expression %s" % type(e).__name__)
        return m(e, env)
    def e_Constant(self, e, env):
        v = e.value
        if isinstance(v, bool) or v is None or isinstance(v, (str, int)): return v
        if isinstance(v, float):
            if v != v or v in (float("inf"), float("-inf")): raise Unsupported("inf/nan constant")
            return toS(Fraction(repr(v)))
        if isinstance(v, complex): return toS(Fraction(repr(v.imag))) * IM + toS(Fraction(repr(v.real)))
        if v is Ellipsis: return Ellipsis
        raise Unsupported("constant")
    def name(self, nm, env):
        if nm in env:
            v = env[nm]
        else:
            f = self; v = None; found = False; cl = self.fn.closure if self.fn else None
            if cl is not None and nm in cl: v = cl[nm]; found = True
            if not found:
                if self.fn is not None and getattr(self.fn, "mod", None) is not None and nm in self.mod.defs: v = self.mod.lookup(nm)
                elif nm in self.mod.defs: v = self.mod.lookup(nm)
                else:
                    from npmodel import builtin
                    v = builtin(nm)
        if isinstance(v, Lazy):
            v = v.fn(); env[nm] = v
        if isinstance(v, Poison): raise Unsupported(v.why)
        return v
    def e_Name(self, e, env): return self.name(e.id, env)
    def e_Tuple(self, e, env): return tuple(self.elts(e.elts, env))
    def e_List(self, e, env): return list(self.elts(e.elts, env))
    def e_Set(self, e, env): return set(hashkey(x) for x in self.elts(e.elts, env))
    def elts(self, es, env):
        out = []
        for x in es:
            if isinstance(x, ast.Starred):
                it = self.iterate(self.ev(x.value, env))
                if it is None: raise Unsupported("starred symbolic")
                out.extend(it)
            else: out.append(self.ev(x, env))
        return out
    def e_Dict(self, e, env): return {hashkey(self.ev(k, env)): self.ev(v, env) for k, v in zip(e.keys, e.values)}
    def e_BinOp(self, e, env): return self.binop(OPS[type(e.op)], self.ev(e.left, env), self.ev(e.right, env))
    def binop(self, op, a, b):
        if op == "matmul": return matmul(a, b)
        if isinstance(a, (str,)) or isinstance(b, str):
            if op == "add" and isinstance(a, str) and isinstance(b, str): return a + b
            if op == "mod": return a
            raise Unsupported("string operation")
        if isinstance(a, set) and isinstance(b, set):
            return {"sub": a - b, "bitand": a & b, "bitor": a | b}[op]
        if op == "add" and isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)): return a + b
        if op == "add" and isinstance(a, (list, tuple, SymList, IntSeq)) and isinstance(b, (list, tuple, SymList, IntSeq)): return listcat(a, b)
        if op == "mul" and isinstance(a, (list, tuple)) and isint(b):
            if isinstance(b, int): return a * b
            if len(a) == 1: x = a[0]; return SymList(b if ctx().entails(ble(0, b)) else imax(b, 0), lambda k: x)
        if op == "mul" and isinstance(b, (list, tuple)) and isint(a): return self.binop(op, b, a)
        if isinstance(a, (list, tuple)) and not isinstance(b, Arr): raise SymRaise("TypeError", "list arithmetic")
        if isinstance(a, (B, bool)) and isinstance(b, (B, bool)) and op in ("bitand", "bitor", "xor"): return bitop({"bitand": "&", "bitor": "|", "xor": "^"}[op], a, b)
        if a is None or b is None: raise SymRaise("TypeError", "None in arithmetic")
        return arith(op, a, b)
    def e_UnaryOp(self, e, env):
        v = self.ev(e.operand, env)
        if isinstance(e.op, ast.Not): return not self.truth(v) if not isinstance(v, (B, bool)) else bnot(v)
        if isinstance(e.op, ast.USub):
            if isinstance(v, bool): return -int(v)
            if isinstance(v, (int, I, S)): return -v
            return elementwise(lambda x: -num(x), v)
        if isinstance(e.op, ast.UAdd): return v
        if isinstance(e.op, ast.Invert):
            if isinstance(v, Arr) and v.kind == "bool": return elementwise(lambda x: bnot(x), v, kind="bool")
            if isinstance(v, (B,)): return bnot(v)
            return -v - 1
        raise Unsupported("unary")
    def e_BoolOp(self, e, env):
        isand = isinstance(e.op, ast.And); v = None
        for i, x in enumerate(e.values):
            v = self.ev(x, env)
            if i == len(e.values) - 1: return v
            t = self.truth(v)
            if isand and not t: return v if not isinstance(v, B) else False
            if not isand and t: return v if not isinstance(v, B) else True
        return v
    def e_IfExp(self, e, env): return self.ev(e.body, env) if self.truth(self.ev(e.test, env)) else self.ev(e.orelse, env)
    def e_Compare(self, e, env):
        l = self.ev(e.left, env); res = True
        for op, r in zip(e.ops, e.comparators):
            r = self.ev(r, env); v = self.cmp(op, l, r)
            if len(e.ops) == 1: return v
            if not self.truth(v): return False
            l = r
        return True
    def cmp(self, op, a, b):
        if isinstance(op, (ast.Is, ast.IsNot)):
            if isinstance(a, (Arr, Func)) or isinstance(b, (Arr, Func)): r = a is b
            elif a is None or b is None: r = a is b
            elif isinstance(a, bool) and isinstance(b, bool): r = a is b
            elif isinstance(a, B) and isinstance(b, bool): return a if (b ^ isinstance(op, ast.IsNot)) else bnot(a)
            elif isinstance(b, bool): r = False
            elif isinstance(a, Ty) and isinstance(b, Ty): r = a == b
            else: raise Unsupported("is")
            return r if isinstance(op, ast.Is) else not r
        if isinstance(op, (ast.In, ast.NotIn)):
            r = self.contains(b, a)
            return r if isinstance(op, ast.In) else (bnot(r))
        o = CMP[type(op)]
        if isinstance(a, (Arr,)) or isinstance(b, (Arr,)):
            if o in ("==", "!=") and (a is None or b is None): raise Unsupported("array == None")
            return elementwise(lambda x, y: compare(o, x, y), a, b, kind="bool")
        if isinstance(a, (Ty, DT)) or isinstance(b, (Ty, DT)) or isinstance(a, str) or isinstance(b, str) or a is None or b is None:
            r = (type(a) == type(b) and (a == b or (isinstance(a, DT) and a.kind == b.kind)))
            if o == "==": return r
            if o == "!=": return not r
            raise SymRaise("TypeError", "ordering")
        if isinstance(a, (list, tuple, SymList, IntSeq, Range, set)) or isinstance(b, (list, tuple, SymList, IntSeq, Range, set)):
            r = seq_eq(a, b)
            if o == "==": return r
            if o == "!=": return bnot(r)
            raise Unsupported("ordering of sequences")
        return compare(o, a, b)
    def contains(self, c, x):
        if isinstance(c, (dict, set, frozenset)): 
            hk = hashkey(x)
            if hk in c: return True
            for k in c:
                if isint(k) and isint(hk):
                    if decide(beq(k, hk)): return True
                elif isinstance(k, (I, S)): raise Unsupported("symbolic member")
            return False
        if isinstance(c, str): return x in c
        if isinstance(c, (list, tuple)):
            for y in c:
                if isinstance(y, str) or isinstance(x, str) or y is None or x is None:
                    if y is x or y == x: return True
                    continue
                if self.truth(compare("==", x, y)): return True
            return False
        if isinstance(c, Range) and c.st == 1: return band(ble(c.lo, x), blt(x, c.hi))
        if isinstance(c, IntSeq): return opq("mem", c.name, toI(x))
        raise Unsupported("membership in %s" % type(c).__name__)
    def e_Call(self, e, env):
        f = self.ev(e.func, env)
        args = []
        for a in e.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, env))
                if it is None:
                    args.append(StarSym(self.ev(a.value, env)))
                else: args.extend(it)
            elif isinstance(a, ast.GeneratorExp): args.append(self.ev(a, env))
            else: args.append(self.ev(a, env))
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                d = self.ev(k.value, env)
                if not isinstance(d, dict): raise Unsupported("**")
                kw.update(d)
            else: kw[k.arg] = self.ev(k.value, env)
        return Interp.call(f, args, kw)
    def e_Attribute(self, e, env):
        v = self.ev(e.value, env)
        if isinstance(v, ModRef): return v.attr(e.attr)
        from npmodel import attribute
        return attribute(self, v, e.attr)
    def key(self, k, env):
        if isinstance(k, ast.Tuple): return tuple(self.key(x, env) for x in k.elts)
        if isinstance(k, ast.Slice):
            g = lambda x: None if x is None else self.ev(x, env)
            return slice(g(k.lower), g(k.upper), g(k.step))
        v = self.ev(k, env)
        return v
    def e_Subscript(self, e, env):
        return self.getitem(self.ev(e.value, env), self.key(e.slice, env))
    def getitem(self, b, k):
        if isinstance(b, Arr): return index(b, k)
        if isinstance(b, dict):
            hk = hashkey(k)
            if hk in b: return b[hk]
            for q in b:
                if isint(q) and isint(hk) and decide(beq(q, hk)): return b[q]
            raise SymRaise("KeyError")
        if isinstance(b, (list, tuple, str)):
            if isinstance(k, slice):
                f = lambda x: x if x is None or isinstance(x, int) else cint(x)
                return b[slice(f(k.start), f(k.stop), f(k.step))]
            k = as_int(k) if isinstance(k, S) else k
            if isinstance(k, Arr): k = k.get()
            if isinstance(k, bool): k = int(k)
            if isinstance(k, int):
                if not -len(b) <= k < len(b): raise SymRaise("IndexError", "list index out of range")
                return b[k]
            if isinstance(k, I):
                k2 = norm_index(k, len(b))
                for q in range(len(b)):
                    if decide(beq(k2, q)): return b[q]
                raise Infeasible()
            raise SymRaise("TypeError", "list index")
        if isinstance(b, (SymList, IntSeq, Range)):
            n = seqlen(b)
            if isinstance(k, slice):
                st, ln, sp = norm_slice(k, n)
                return SymList(ln, lambda q: seqget(b, st + q * sp))
            return seqget(b, norm_index(k, n))
        if isinstance(b, Ty): return b
        raise Unsupported("subscript of %s" % type(b).__name__)
    def e_Lambda(self, e, env):
        f = Func(e, self.mod, env); f.interp = self
        return f
    def comp(self, e, gens, env, elt):
        """list comprehension; symbolic single generator gives a SymList"""
        g = gens[0]; it = self.ev(g.iter, env); vals = self.iterate(it)
        if vals is None:
            if len(gens) > 1 or g.ifs: raise Unsupported("filtered or nested symbolic comprehension")
            env = dict(env)
            def fn(k, it=it, env=env):
                e2 = dict(env); self.assign(g.target, seqget(it, k), e2); return elt(e2)
            return SymList(seqlen(it), fn)
        out = []
        for v in vals:
            e2 = env if False else ChildEnv(env)
            self.assign(g.target, v, e2)
            if all(self.truth(self.ev(c, e2)) for c in g.ifs):
                if len(gens) > 1:
                    r = self.comp(e, gens[1:], e2, elt)
                    out = out + r if isinstance(out, list) and isinstance(r, list) else listcat(out, r)
                else: out.append(elt(e2))
        return out
    def e_ListComp(self, e, env): return self.comp(e, e.generators, env, lambda x: self.ev(e.elt, x))
    def e_GeneratorExp(self, e, env): return self.comp(e, e.generators, env, lambda x: self.ev(e.elt, x))
    def e_SetComp(self, e, env):
        r = self.comp(e, e.generators, env, lambda x: hashkey(self.ev(e.elt, x)))
        if not isinstance(r, list): raise Unsupported("symbolic set")
        return set(r)
    def e_DictComp(self, e, env):
        r = self.comp(e, e.generators, env, lambda x: (hashkey(self.ev(e.key, x)), self.ev(e.value, x)))
        if not isinstance(r, list): raise Unsupported("symbolic dict")
        return dict(r)
    def e_Yield(self, e, env):
        env["$yield"].append(None if e.value is None else self.ev(e.value, env))
        if len(env["$yield"]) > 5000: raise Unsupported("long generator")
    def e_YieldFrom(self, e, env):
        it = self.iterate(self.ev(e.value, env))
        if it is None: raise Unsupported("yield from symbolic")
        for v in it: env["$yield"].append(v)
    def e_JoinedStr(self, e, env):
        out = ""
        for q in e.values:
            if isinstance(q, ast.Constant): out += str(q.value); continue
            if q.format_spec is not None or q.conversion != -1: return "<str>"
            from npmodel import concrete_text
            try: v = concrete_text(self.ev(q.value, env))
            except Unsupported: v = None
            if v is None: return "<str>"
            out += str(v)
        return out
    def e_Starred(self, e, env): raise Unsupported("starred")
    def e_Slice(self, e, env): return self.key(e, env)
    def e_NamedExpr(self, e, env):
        v = self.ev(e.value, env); self.assign(e.target, v, env); return v
class ChildEnv(dict):
    """comprehension scope"""
    def __init__(self, parent): super().__init__(parent)
class StarSym:
    def __init__(self, v): self.v = v
class NdIdx:
    """all index tuples of a shape, some dimension symbolic, in lexicographic order; `skip` of them consumed"""
    def __init__(self, dims): self.dims, self.skip = dims, 0
    def first(self):
        if self.skip or not decide(band(*[ble(1, d) for d in self.dims])): raise Unsupported("next() of an index iterator")
        self.skip = 1; return (0,) * len(self.dims)
class PyIter:
    def __init__(self, items): self._i = items
    def items(self): return self._i() if callable(self._i) else self._i
def cint(x):
    v = as_int(x) if isinstance(x, S) else x
    if isinstance(v, int): return v
    raise Unsupported("symbolic bound of a python slice")
def hashkey(k):
    if isinstance(k, list): raise SymRaise("TypeError", "unhashable")
    if isinstance(k, S):
        i = as_int(k)
        return i if i is not None else k
    return k
OPS = {ast.Add: "add", ast.Sub: "sub", ast.Mult: "mul", ast.Div: "div", ast.FloorDiv: "fdiv", ast.Mod: "mod", ast.Pow: "pow",
       ast.MatMult: "matmul", ast.BitAnd: "bitand", ast.BitOr: "bitor", ast.BitXor: "xor", ast.LShift: "lsh", ast.RShift: "rsh"}
CMP = {ast.Eq: "==", ast.NotEq: "!=", ast.Lt: "<", ast.LtE: "<=", ast.Gt: ">", ast.GtE: ">="}
def seqlen(v):
    if isinstance(v, (list, tuple, dict, str, set)): return len(v)
    if isinstance(v, (SymList, IntSeq)): return v.n
    if isinstance(v, Range): return v.length()
    if isinstance(v, Arr):
        if not v.shape: raise SymRaise("TypeError", "len() of unsized object")
        return v.shape[0]
    if isint(v) or isinstance(v, S): raise SymRaise("TypeError", "object has no len()")
    raise Unsupported("len of %s" % type(v).__name__)
def seqget(v, k):
    if isinstance(v, (list, tuple, str)):
        return pick(k, [lambda x=x: x for x in v])
    if isinstance(v, (SymList, IntSeq)): return v.fn(k)
    if isinstance(v, Range): return v.at(k)
    if isinstance(v, Arr): return index(v, k)
    raise Unsupported("element of %s" % type(v).__name__)
def seq_eq(a, b):
    """equality of python sequences as a condition"""
    if isinstance(a, (list, tuple)) != isinstance(b, (list, tuple)) or isinstance(a, (SymList, IntSeq, Range)) or isinstance(b, (SymList, IntSeq, Range)):
        if not all(isinstance(x, (list, tuple, SymList, IntSeq, Range)) for x in (a, b)): return False
        ta, tb = seqtype(a), seqtype(b)
        if ta != tb: return False
        na, nb_ = seqlen(a), seqlen(b)
        if not decide(beq(na, nb_)): return False
        if isinstance(na, int): return band(*[compare("==", seqget(a, q), seqget(b, q)) for q in range(na)])
        r = forall(na, lambda q: compare("==", seqget(a, q), seqget(b, q)))
        from npmodel import int_only
        if int_only(r): return r
        raise Unsupported("equality of symbolic sequences")
    if type(a) is not type(b): return False
    if len(a) != len(b): return False
    r = True
    for x, y in zip(a, b):
        if isinstance(x, (list, tuple)) or isinstance(y, (list, tuple)): q = seq_eq(x, y)
        elif isinstance(x, str) or isinstance(y, str) or x is None or y is None: q = x == y
        elif isinstance(x, Arr) or isinstance(y, Arr): raise Unsupported("array in a sequence comparison")
        else: q = compare("==", x, y)
        if q is False: return False
        r = band(r, q)
    return r
def seqtype(x):
    if isinstance(x, list): return "list"
    if isinstance(x, tuple): return "tuple"
    if isinstance(x, Range): return "range"
    return getattr(x, "typ", list).__name__
def is_iota(y):
    if isinstance(y, Range): return y.lo == 0 and y.st == 1
    if isinstance(y, SymList):
        c = ctx(); nm = c.fresh("q"); k = ivar(nm)
        try: return y.fn(k) == k
        except Exception: return False
    if isinstance(y, list): return all(isinstance(v, int) and v == i for i, v in enumerate(y))
    return False
def listcat(a, b):
    na, n2 = seqlen(a), seqlen(b)
    return SymList(na + n2, lambda k: seqget(a, k) if decide(blt(k, na)) else seqget(b, k - na))
def bind_args(f, args, kw):
    """parameter name -> value, with the function's own defaults"""
    a = f.node.args; names = [x.arg for x in a.posonlyargs + a.args]; env = {}
    if len(args) > len(names) and not a.vararg: raise SymRaise("TypeError", "too many arguments")
    for n, v in zip(names, args): env[n] = v
    if a.vararg: env[a.vararg.arg] = tuple(args[len(names):])
    extra = {}
    kwnames = [x.arg for x in a.kwonlyargs]
    for k, v in kw.items():
        if k in names or k in kwnames:
            if k in env: raise SymRaise("TypeError", "multiple values for " + k)
            env[k] = v
        elif a.kwarg: extra[k] = v
        else: raise SymRaise("TypeError", "unexpected keyword " + k)
    if a.kwarg: env[a.kwarg.arg] = extra
    ip = Interp(f.mod, f)
    for n, d in list(zip(names[len(names) - len(a.defaults):], a.defaults)) + [(n, d) for n, d in zip(kwnames, a.kw_defaults) if d is not None]:
        if n not in env:
            if n in f.dflt: env[n] = f.dflt[n]; continue
            env[n] = ip.ev(d, dict(f.closure or {}))
            if isinstance(env[n], (list, dict, Arr)): f.dflt[n] = persistent(env[n], "default of parameter %s of %s" % (n, f.name))
    for n in names + kwnames:
        if n not in env: raise SymRaise("TypeError", "missing argument " + n)
    return env
def is_generator(node):
    def w(n):
        if isinstance(n, (ast.FunctionDef, ast.Lambda)): return False
        if isinstance(n, (ast.Yield, ast.YieldFrom)): return True
        return any(w(x) for x in ast.iter_child_nodes(n))
    return not isinstance(node, ast.Lambda) and any(w(x) for x in node.body)
def run(f, args, kw):
    if f.deco:
        g = Func(f.node, f.mod, f.closure); g.deco = []; g.dflt = f.dflt
        for d in reversed(f.deco): g = Interp.call(Interp(f.mod, None).ev(d, f.closure or {}), [g], {})
        return Interp.call(g, args, kw)
    if f.cached:
        c = ctx(); memo = c.__dict__.setdefault("memo", {}); k = memo_key(f, args, kw)
        if k is not None and k in memo: return memo[k]
        r = execute(f, args, kw); shared(r, "cached result of %s" % f.name)
        if k is not None: memo[k] = r
        return r
    return execute(f, args, kw)
def execute(f, args, kw):
    Interp.depth += 1
    if Interp.depth > 60: Interp.depth = 0; raise Unsupported("recursion without a contract")
    try:
        env = bind_args(f, args, kw); ip = Interp(f.mod, f)
        if f.qual: ctx().inlined.add(f.qual)
        if isinstance(f.node, ast.Lambda): return ip.ev(f.node.body, env)
        if is_generator(f.node):
            # a finite generator without side effects: the list of the values it yields
            env["$yield"] = []
            try: ip.block(f.node.body, env)
            except Ret: pass
            return PyIter(env["$yield"])
        try: ip.block(f.node.body, env)
        except Ret as r: return r.v
        return None
    finally: Interp.depth -= 1
def repo_func(qual):
    mod, nm = qual.rsplit(".", 1)
    m = Mod.load(mod)
    f = m.lookup(nm) if m else None
    # follow re-exports / wrappers
    if not isinstance(f, Func): raise Unsupported("no function " + qual)
    return f
