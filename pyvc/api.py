"""The contract language: one harness, three readings (prove / replay / sample)."""
import math
import os
import random
import sys

from . import terms as T
from .terms import R, B, Unsupported

REPO = os.environ.get("VERIF_REPO", "/repo")


class Discard(BaseException):
    """concrete input violates the precondition"""


class Violated(Exception):
    pass


# packages whose modules import each other in a circle: they load only after metku.frame2d.frame2d
CIRCULAR = ("metku.eurocodes.en1992", "metku.eurocodes.en1995", "metku.materials", "metku.sandwich", "metku.structures", "metku.sections.timber")


def stand_in(cls, attrs):
    """an object of the real class with the given attributes in place of its constructor, properties and methods"""
    ns = {k: None for k in attrs}           # a plain class attribute hides a property of the same name
    ns["__module__"] = cls.__module__
    ns["__setattr__"] = lambda self, k, v: self.__dict__.__setitem__(k, v) if k in attrs else super(sub, self).__setattr__(k, v)
    if "__eq__" in vars(cls) and "__hash__" not in attrs:
        ns["__hash__"] = cls.__hash__
    meta = cls.__class__
    sub = meta(cls.__name__, (cls,), ns)
    if getattr(sub, "__abstractmethods__", None):
        sub.__abstractmethods__ = frozenset()
    x = cls.__new__(sub)
    x.__dict__.update(attrs)
    return x


# ------------------------------------------------------------------ prove mode
class ProveCtx:
    symbolic = True

    def __init__(self, eng):
        self.eng = eng
        self.pi = R(T.PI)
        self._patched = []
        self._ufs = {}

    def mod(self, name):
        from . import loader
        if name.startswith(CIRCULAR):
            loader.load("metku.frame2d.frame2d")
        return loader.load(name)

    def instance(self, cls, **attrs):
        return stand_in(cls, attrs)

    # inputs
    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        name = _fresh(name, self.eng.inputs)
        flo = _cf(lo)
        fhi = _cf(hi)
        node = T.var(name if (flo, fhi) == (None, None) else name + _suffix(name, flo, fhi), False)
        T.set_bounds(node, flo if flo is not None else -T.INF, fhi if fhi is not None else T.INF)
        self.eng.inputs[name] = node
        x = R(node)
        if lo is not None:
            self.assume(x > lo if lo_open else x >= lo)
        if hi is not None:
            self.assume(x < hi if hi_open else x <= hi)
        return x

    def integer(self, name, lo, hi):
        name = _fresh(name, self.eng.inputs)
        node = T.var(name + "_int", True)
        T.set_bounds(node, float(lo), float(hi))
        self.eng.inputs[name] = node
        return R(node, True)

    def choice(self, name, options):
        options = list(options)
        i = self.eng.choose(len(options), name)
        self.eng.choices[name] = i
        return options[i]

    def assume(self, cond):
        self.eng.assume(cond)

    requires = assume

    # obligations
    def ensures(self, name, cond, **k):
        return self.eng.ensure(name, cond)

    def eq(self, name, a, b, tol=None, scale=None):
        import numpy as np
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            la, lb = _flat(a), _flat(b)
            if len(la) != len(lb):
                return self.eng.ensure(name, False)
            ok = True
            for x, y in zip(la, lb):
                ok &= self.eng.ensure(name, _eqb(x, y))
            return ok
        return self.eng.ensure(name, _eqb(a, b))

    def le(self, name, a, b, tol=None):
        return self.eng.ensure(name, R.of(a) <= b)

    def lt(self, name, a, b, tol=None):
        return self.eng.ensure(name, R.of(a) < b)

    def ge(self, name, a, b, tol=None):
        return self.le(name, b, a)

    def same(self, name, a, b):
        """exact identity of discrete values (class numbers, strings, flags)"""
        if isinstance(a, R) or isinstance(b, R):
            return self.eng.ensure(name, _eqb(a, b))
        return self.eng.ensure(name, T.to_b(bool(a == b)))

    def cover(self, name):
        self.eng.vcs_cover = getattr(self.eng, "vcs_cover", {})
        self.eng.vcs_cover[name] = self.eng.vcs_cover.get(name, 0) + 1

    # run code that may raise
    def attempt(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except Exception as e:
            return ("raise", e)

    # spec functions
    sqrt = staticmethod(T.sqrt_)
    sin = staticmethod(T.sin_)
    cos = staticmethod(T.cos_)
    tan = staticmethod(T.tan_)
    atan = staticmethod(T.atan_)
    exp = staticmethod(T.exp_)
    log = staticmethod(T.log_)

    def min(self, *a):
        from .loader import s_min
        return s_min(*a)

    def max(self, *a):
        from .loader import s_max
        return s_max(*a)

    def stub(self, obj, attr, value, concrete=False):
        """replace obj.attr by a contract stub for the rest of this path; concrete runs keep the real callee unless told otherwise"""
        had = attr in vars(obj)
        self._patched.append((obj, attr, vars(obj).get(attr), had))
        setattr(obj, attr, value)

    def uf(self, name, *args, lo=None, hi=None):
        """uninterpreted function of the arguments (result of a callee under contract), within [lo, hi]"""
        nodes = [R.of(x).n for x in args]
        for old in self._ufs.setdefault(name, []):      # congruence: equal arguments give the same value
            if len(old.args) - 1 == len(nodes) and all(a is b or T.nf_zero(T.add(a, T.neg(b))) is True for a, b in zip(old.args[1:], nodes)):
                x = R(old)
                break
        else:
            x = R(T.fn("uf_" + name, *nodes))
            self._ufs[name].append(x.n)
        if lo is not None:
            self.assume(x >= lo)
        if hi is not None:
            self.assume(x <= hi)
        return x

    def array(self, x):
        from . import npshim
        return npshim.array(x)

    def restore(self):
        for obj, attr, old, had in reversed(self._patched):
            if had:
                setattr(obj, attr, old)
            else:
                delattr(obj, attr)
        self._patched = []


def _flat(x):
    import numpy as np
    out = []
    if isinstance(x, (list, tuple, np.ndarray)):
        for y in (x.reshape(-1) if isinstance(x, np.ndarray) else x):
            out.extend(_flat(y))
    else:
        out.append(x)
    return out


def _eqb(a, b):
    if a is None or b is None:
        return T.to_b(a is b)
    if isinstance(a, float) or isinstance(b, float):
        if isinstance(a, float) and isinstance(b, float):
            return T.to_b(a == b)
    try:
        x, y = R.of(a), R.of(b)
    except Unsupported:
        return T.FALSE
    if x is None or y is None:
        return T.to_b(bool(a == b))
    return T.b_cmp("=", T.add(x.n, T.neg(y.n)))


_names = {}


def _suffix(name, lo, hi):
    k = _names.setdefault(name, [])
    if (lo, hi) not in k:
        k.append((lo, hi))
    i = k.index((lo, hi))
    return "" if i == 0 else "'%d" % i


def _cf(x):
    """constant bound as a float that does not cut the exact bound, or None"""
    if x is None:
        return None
    r = R.of(x)
    if r.is_const:
        return float(r.value)
    return None


# ------------------------------------------------------------------ concrete mode
class ConcreteCtx:
    """runs the harness on CPython floats against the real, uninstrumented code"""
    symbolic = False
    pi = math.pi

    def __init__(self, values=None, choices=None, rng=None, rtol=1e-6):
        self.values = values or {}
        self.choices = choices or {}
        self.rng = rng or random.Random(1)
        self.rtol = rtol
        self.failures = []
        self.evals = 0
        self.inputs = {}
        self.choice_log = {}
        self._patched = []

    def mod(self, name):
        import importlib
        if name.startswith(CIRCULAR):
            importlib.import_module("metku.frame2d.frame2d")
        return importlib.import_module(name)

    def instance(self, cls, **attrs):
        return stand_in(cls, attrs)

    def real(self, name, lo=None, hi=None, lo_open=False, hi_open=False, **k):
        name = _fresh(name, self.inputs)
        if name in self.values:
            v = self.values[name]
            if v is None or (lo is not None and v < lo) or (hi is not None and v > hi):
                # rounding at the border: clamp when within 1e-9, else reject
                if v is not None and lo is not None and v < lo and lo - v <= 1e-9 * max(1, abs(lo)):
                    v = lo
                elif v is not None and hi is not None and v > hi and v - hi <= 1e-9 * max(1, abs(hi)):
                    v = hi
                else:
                    raise Discard()
            if (lo_open and v <= lo) or (hi_open and v >= hi):
                raise Discard()
        else:
            v = self._draw(lo, hi, k.get("scale"))
            if (lo_open and v <= lo) or (hi_open and v >= hi):
                raise Discard()
        v = float(v)
        self.inputs[name] = v
        return v

    def _draw(self, lo, hi, scale=None):
        r = self.rng
        if lo is None and hi is None:
            s = scale or 1000.0
            return r.choice([-1, 1]) * r.random() * s
        if lo is None:
            lo = hi - (scale or 1000.0)
        if hi is None:
            hi = lo + (scale or 1000.0)
        if hi < lo:
            raise Discard()
        u = r.random()
        if u < 0.06:
            return lo
        if u < 0.12:
            return hi
        if lo > 0 and hi / lo > 20 and u < 0.6:
            return math.exp(r.uniform(math.log(lo), math.log(hi)))
        v = r.uniform(lo, hi)
        if u > 0.85:
            v2 = float(round(v))
            if lo <= v2 <= hi:
                return v2
        return v

    def integer(self, name, lo, hi):
        name = _fresh(name, self.inputs)
        if name in self.values:
            v = int(self.values[name])
            if not lo <= v <= hi:
                raise Discard()
        else:
            v = self.rng.randint(lo, hi)
        self.inputs[name] = v
        return v

    def choice(self, name, options):
        options = list(options)
        i = self.choices.get(name)
        if i is None or i >= len(options):
            i = self.rng.randrange(len(options))
        self.choice_log[name] = i
        return options[i]

    def assume(self, cond):
        if not cond:
            raise Discard()

    requires = assume

    def _fail(self, name, msg):
        self.failures.append((name, msg))
        return False

    def ensures(self, name, cond, **k):
        self.evals += 1
        if not bool(cond):
            return self._fail(name, "condition is false")
        return True

    def _tol(self, a, b, tol, scale):
        if tol is None:
            tol = self.rtol
        m = max(abs(a), abs(b))
        if scale is not None:
            m = max(m, abs(scale))
        return tol * m + 1e-12

    def eq(self, name, a, b, tol=None, scale=None):
        import numpy as np
        if isinstance(a, (list, tuple, np.ndarray)) or isinstance(b, (list, tuple, np.ndarray)):
            la, lb = _flat(a), _flat(b)
            if len(la) != len(lb):
                self.evals += 1
                return self._fail(name, "lengths %d and %d differ" % (len(la), len(lb)))
            sc = scale
            if sc is None:
                nums = [abs(float(x)) for x in la + lb if _num(x) and math.isfinite(float(x))]
                sc = 1e-3 * max(nums) if nums else None
            ok = True
            for i, (x, y) in enumerate(zip(la, lb)):
                ok &= self.eq("%s" % name, x, y, tol, sc)
            return ok
        self.evals += 1
        if a is None or b is None or not _num(a) or not _num(b):
            if a is b or (a is not None and b is not None and bool(a == b)):
                return True
            return self._fail(name, "%r != %r" % (a, b))
        a, b = float(a), float(b)
        if a == b:
            return True
        if not (math.isfinite(a) and math.isfinite(b)) or abs(a - b) > self._tol(a, b, tol, scale):
            return self._fail(name, "%r != %r" % (a, b))
        return True

    def le(self, name, a, b, tol=None):
        self.evals += 1
        a, b = float(a), float(b)
        if a != a or b != b or a > b + self._tol(a, b, tol, None):
            return self._fail(name, "%r <= %r fails" % (a, b))
        return True

    def lt(self, name, a, b, tol=None):
        return self.le(name, a, b, tol)

    def ge(self, name, a, b, tol=None):
        return self.le(name, b, a, tol)

    def same(self, name, a, b):
        self.evals += 1
        if not bool(a == b):
            return self._fail(name, "%r != %r" % (a, b))
        return True

    def cover(self, name):
        pass

    def attempt(self, f, *a, **k):
        try:
            return ("ok", f(*a, **k))
        except Exception as e:
            return ("raise", e)

    sqrt = staticmethod(math.sqrt)
    sin = staticmethod(math.sin)
    cos = staticmethod(math.cos)
    tan = staticmethod(math.tan)
    atan = staticmethod(math.atan)
    exp = staticmethod(math.exp)
    log = staticmethod(math.log)

    def min(self, *a):
        return min(*a)

    def max(self, *a):
        return max(*a)

    def stub(self, obj, attr, value, concrete=False):
        if concrete:        # otherwise concrete runs use the real callee
            ProveCtx.stub(self, obj, attr, value)

    def array(self, x):
        import numpy as np
        return np.array(x)

    def restore(self):
        ProveCtx.restore(self)


def _fresh(name, used):
    """two inputs of one name are two inputs"""
    n, k = name, 2
    while n in used:
        n = "%s (%d)" % (name, k)
        k += 1
    return n


def _num(x):
    import numpy as np
    return isinstance(x, (int, float, np.integer, np.floating, np.bool_)) and not isinstance(x, str)
