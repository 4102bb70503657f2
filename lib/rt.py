"""Run-time contract monitor: the bounded stage of every check.

A *case* is one call of a real function of /repo (imported from the working
tree, with its jit) together with the value its contract's `ensures` demands,
computed from an independent definition (lib/oracles.py).  Groups of cases run
in worker processes so that a crash or a hang of the code under test becomes a
reported violation with the offending call as the replay."""
import base64, copy, importlib, json, os, pickle, signal, sys, time, traceback, warnings
import numpy as np

REPO = os.environ.get("VERIF_REPO", "/repo")

def load_repo():
    if sys.path[0] != REPO:
        sys.path.insert(0, REPO)
    import thewalrus
    assert os.path.realpath(thewalrus.__file__).startswith(os.path.realpath(REPO) + "/"), thewalrus.__file__
    return thewalrus

def resolve(path):
    """'thewalrus._hafnian:f' or 'thewalrus.hafnian' -> object"""
    load_repo()
    if ":" in path:
        mod, name = path.split(":")
        obj = importlib.import_module(mod)
        for part in name.split("."):
            obj = getattr(obj, part)
        return obj
    parts = path.split(".")
    obj = importlib.import_module(parts[0])
    for p in parts[1:]:
        try:
            obj = getattr(obj, p)
        except AttributeError:
            obj = importlib.import_module(obj.__name__ + "." + p)
    return obj

def short(x, depth=0):
    if isinstance(x, np.ndarray):
        s = np.array2string(x, separator=",", threshold=60, precision=17).replace("\n", "")
        if len(s) > 400: s = s[:400] + "..."
        return "array(%s, dtype=%s)" % (s, x.dtype)
    s = repr(x)
    return s if len(s) < 400 else s[:400] + "..."

def enc(x):
    try:
        return base64.b64encode(pickle.dumps(x)).decode()
    except Exception:
        try:
            import cloudpickle
            return base64.b64encode(cloudpickle.dumps(x)).decode()
        except Exception:
            return None

def same(a, b):
    """bitwise-ish deep equality used for frame conditions"""
    if type(a) is not type(b): return False
    if isinstance(a, np.ndarray):
        return a.shape == b.shape and a.dtype == b.dtype and a.tobytes() == b.tobytes()
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return list(a.keys()) == list(b.keys()) and all(same(a[k], b[k]) for k in a)
    if callable(a): return True
    try:
        r = a == b
        return bool(r) or (a != a and b != b)
    except Exception:
        return True

def close(got, exp, tol, rtol=None):
    """got matches exp: same structure, no NaN, |got-exp| <= tol*max(1,|exp|_max) (elementwise vs. overall scale)"""
    if exp is None:
        return got is None
    if isinstance(exp, (tuple, list)) and not isinstance(got, np.ndarray):
        if not isinstance(got, (tuple, list)) or len(got) != len(exp): return False
        return all(close(g, e, tol) for g, e in zip(got, exp))
    if isinstance(exp, dict):
        if not isinstance(got, dict) or set(got) != set(exp): return False
        return all(close(got[k], exp[k], tol) for k in exp)
    if isinstance(exp, (bool, np.bool_)):
        return isinstance(got, (bool, np.bool_)) and bool(got) == bool(exp)
    if isinstance(exp, str):
        return got == exp
    try:
        g = np.asarray(got); e = np.asarray(exp)
    except Exception:
        return False
    if g.dtype == object:
        try: g = g.astype(complex)
        except Exception: return False
    if g.shape != e.shape: return False
    if g.size == 0: return True
    g = g.astype(complex); e = e.astype(complex)
    if np.isnan(g).any(): return bool(np.array_equal(np.isnan(g), np.isnan(e)))
    if not np.isfinite(g).all(): return False
    scale = max(1.0, float(np.max(np.abs(e))))
    return bool(np.max(np.abs(g - e)) <= tol * scale)

class CaseTimeout(Exception): pass

class Stop(Exception): pass

class Ctx:
    def __init__(self, prop, tier, seed, group, journal=None, deadline=None, max_viol=3, frame="off"):
        self.prop, self.tier, self.seed, self.group = prop, tier, seed, group
        import zlib
        self.rng = np.random.default_rng([seed, zlib.crc32(("%s/%s" % (prop, group)).encode())])
        self.evals = 0; self.nontrivial = set(); self.samples = []; self.viol = []
        self.journal = journal; self.deadline = deadline; self.max_viol = max_viol
        self.frame = frame; self.fn_counts = {}; self.rejects = 0
        self.thorough = tier == "thorough"
        self.case_timeout = 60

    def _j(self, rec):
        if self.journal:
            with open(self.journal, "wb") as fh: fh.write(pickle.dumps(rec))

    def over(self):
        return self.deadline is not None and time.time() > self.deadline

    def fail(self, fn, args, kwargs, exp, got, why, key=None, extra=None):
        self.viol.append(dict(property=self.prop, group=self.group, function=fn,
            args=[short(a) for a in args], kwargs={k: short(v) for k, v in kwargs.items()},
            expected=short(exp), got=short(got), why=why, key=key, extra=extra,
            pickle=enc((args, kwargs)), expected_pickle=enc(exp)))
        if len(self.viol) >= self.max_viol: raise Stop()

    def call(self, fn, *args, **kwargs):
        """run the real function; no expectation; a raised exception is a violation"""
        ok, val = self._run(fn, args, kwargs)
        if not ok:
            self.fail(fn, args, kwargs, "no exception", val, "raised although the precondition holds")
            raise Stop()
        return val

    def _run(self, fn, args, kwargs):
        f = resolve(fn) if isinstance(fn, str) else fn
        self._j((fn if isinstance(fn, str) else getattr(fn, "__name__", "fn"), args, kwargs))
        self.evals += 1
        name = fn if isinstance(fn, str) else getattr(fn, "__name__", "fn")
        self.fn_counts[name] = self.fn_counts.get(name, 0) + 1
        before = copy.deepcopy((args, kwargs)) if self.frame != "off" else None
        def onalarm(*_): raise CaseTimeout("no result within %ss" % self.case_timeout)
        old = signal.signal(signal.SIGALRM, onalarm); signal.alarm(self.case_timeout)
        try:
            with warnings.catch_warnings():
                warnings.simplefilter("ignore")
                with np.errstate(all="ignore"):
                    val = f(*args, **kwargs)
            ok = True
        except Stop: raise
        except BaseException as e:
            if isinstance(e, KeyboardInterrupt): raise
            val = e; ok = False
        finally:
            signal.alarm(0); signal.signal(signal.SIGALRM, old)
        if before is not None:
            if not same((list(args), kwargs), (list(before[0]), before[1])):
                self.fail(name, before[0], before[1], "arguments unchanged", short((args, kwargs)), "frame: the caller's arguments were modified")
        return ok, val

    def _count(self, fn, args, kwargs, exp):
        h = hash((str(fn), short(args), short(kwargs))) if args or kwargs else ("thunk", self.evals)
        if h not in self.nontrivial:
            self.nontrivial.add(h)
            if len(self.samples) < 2:
                self.samples.append("%s(%s) == %s" % (fn if isinstance(fn, str) else getattr(fn, "__name__", "fn"), ", ".join([short(a)[:160] for a in args] + ["%s=%s" % (k, short(v)[:80]) for k, v in kwargs.items()]), short(exp)[:120]))

    def eq(self, fn, args, kwargs, exp, tol=1e-8, key=None, post=None):
        """contract: fn(*args, **kwargs) == exp (value or thunk), with post(got) applied first if given"""
        if self.over(): return
        a0, k0 = copy.deepcopy((tuple(args), kwargs)) if not any(callable(a) for a in args) else (tuple(args), kwargs)
        ok, val = self._run(fn, args, kwargs)
        e = exp() if callable(exp) else exp
        if not ok:
            self.fail(fn if isinstance(fn, str) else fn.__name__, a0, k0, e, val, "raised %s" % type(val).__name__, key); return
        try:
            v = post(val) if post else val
        except Exception as ex:
            self.fail(fn if isinstance(fn, str) else fn.__name__, a0, k0, e, val, "result has wrong form: %r" % ex, key); return
        self._count(fn, a0, k0, e)
        if not close(v, e, tol):
            self.fail(fn if isinstance(fn, str) else fn.__name__, a0, k0, e, v, "ensures violated", key)

    def priv(self, fn, args, kwargs, exp, tol=1e-8, key=None, post=None):
        """like eq, for a non-public helper: skipped when the helper no longer exists or takes other arguments"""
        try: f = resolve(fn)
        except (AttributeError, ImportError): return
        import inspect
        try: inspect.signature(getattr(f, "py_func", f)).bind(*args, **kwargs)
        except (TypeError, ValueError): return
        return self.eq(fn, args, kwargs, exp, tol, key, post)

    def holds(self, fn, args, kwargs, pred, key=None):
        """contract: pred(result) (returns True or a reason string)"""
        if self.over(): return
        a0, k0 = copy.deepcopy((tuple(args), kwargs)) if not any(callable(a) for a in args) else (tuple(args), kwargs)
        ok, val = self._run(fn, args, kwargs)
        if not ok:
            self.fail(fn if isinstance(fn, str) else fn.__name__, a0, k0, "no exception", val, "raised %s" % type(val).__name__, key); return
        try: r = pred(val)
        except Exception as ex: r = "result has wrong form: %r" % (ex,)
        self._count(fn, a0, k0, "predicate")
        if r is not True and not (isinstance(r, np.bool_) and bool(r)):
            self.fail(fn if isinstance(fn, str) else fn.__name__, a0, k0, "predicate holds", val, "ensures violated: %s" % (r,), key)

    def raises(self, fn, args, kwargs, exc=(ValueError, TypeError), key=None):
        if self.over(): return
        ok, val = self._run(fn, args, kwargs)
        self.rejects += 1
        self._count(fn, tuple(args), kwargs, "raises")
        if ok:
            self.fail(fn, args, kwargs, "raises " + "/".join(e.__name__ for e in exc), val, "accepted an input outside its documented domain", key)
        elif not isinstance(val, exc):
            self.fail(fn, args, kwargs, "raises " + "/".join(e.__name__ for e in exc), val, "raised %s instead" % type(val).__name__, key)

GROUPS = {}
def group(prop, name=None, weight=1):
    def deco(fn):
        GROUPS.setdefault(prop, []).append((name or fn.__name__, fn)); return fn
    return deco
