"""Loads /repo's metku source, mechanically instrumented, into a private registry.

What the extraction changes, and nothing else (see DESIGN.md):
  * float literals become exact rationals, `/` and `**` keep exactness,
  * bare `except:` becomes `except Exception:`,
  * `for` statements iterate through a hook (identity unless a contract
    supplies an abstract sequence),
  * builtins float/int/isinstance/round/min/max/sum/abs/pow/print/range/open,
    math, numpy, scipy.linalg are shims that also accept symbolic reals;
    matplotlib & co. are inert dummies.
"""
import ast
import builtins
import functools
import importlib
import os
import re
import sys
import types
from fractions import Fraction

from . import terms as T
from .terms import R, B, Unsupported
from . import npshim

REPO = os.environ.get("VERIF_REPO", "/repo")
REGISTRY = {}
EXECUTED = set()       # (file, qualname) of metku functions executed
CONTRACT_STUBS = {}

_consts = {}


def K(s):
    r = _consts.get(s)
    if r is None:
        r = _consts[s] = R(T.const(Fraction(s)))
    return r


def idiv(a, b):
    import numpy as np
    if isinstance(a, np.ndarray) and a.dtype == object:
        a /= b
        return a
    return dv(a, b)


def dv(a, b):
    import numpy as np
    ta, tb = type(a), type(b)
    if ta is int or ta is bool:
        if tb is int or tb is bool:
            if b == 0:
                raise ZeroDivisionError("division by zero")
            return R(T.const(Fraction(a) / b))
    if isinstance(a, np.ndarray) and a.dtype != object and a.dtype.kind in "iuf":
        a = npshim.asobj(a)
    if isinstance(b, np.ndarray) and b.dtype != object and b.dtype.kind in "iuf":
        b = npshim.asobj(b)
    if isinstance(a, float) or isinstance(a, np.generic):
        a = _lift(a)
    if isinstance(b, float) or isinstance(b, np.generic):
        b = _lift(b)
        if type(a) is int:
            a = R.of(a)
    return a / b


def _lift(a):
    if isinstance(a, float) and (a != a or a in (T.INF, -T.INF)):
        return a
    r = R.of(a)
    return a if r is None else r


def pw(a, b):
    import numpy as np
    if type(a) is int and type(b) is int:
        if b < 0:
            return R(T.const(Fraction(a) ** b))
        return a ** b
    if isinstance(a, np.ndarray):
        if a.dtype == object or isinstance(b, R):
            return npshim.vec(lambda x: T.rpow(x, b))(a)
        return a ** b
    if isinstance(a, (int, float, Fraction, R)) and isinstance(b, (int, float, Fraction, R)):
        return T.rpow(a, b)
    return a ** b


class Rewrite(ast.NodeTransformer):
    def __init__(self):
        self.loop = 0

    def visit_Constant(self, n):
        if type(n.value) is float:
            if n.value in (T.INF, -T.INF) or n.value != n.value:
                return n
            txt = repr(n.value)
            return ast.copy_location(ast.Call(ast.Name("__K__", ast.Load()), [ast.Constant(txt)], []), n)
        return n

    def visit_JoinedStr(self, n):
        for v in n.values:
            if isinstance(v, ast.FormattedValue):
                v.value = self.visit(v.value)
        return n

    def visit_MatchValue(self, n):
        return n

    def visit_BinOp(self, n):
        self.generic_visit(n)
        if isinstance(n.op, ast.Div):
            return ast.copy_location(ast.Call(ast.Name("__dv__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Pow):
            return ast.copy_location(ast.Call(ast.Name("__pw__", ast.Load()), [n.left, n.right], []), n)
        if isinstance(n.op, ast.Mod) and (isinstance(n.left, ast.Constant) and type(n.left.value) is str):
            return ast.copy_location(ast.Call(ast.Name("__fmt__", ast.Load()), [n.left, n.right], []), n)
        return n

    def truth(self, n):
        return ast.copy_location(ast.Call(ast.Name("__truth__", ast.Load()), [n], []), n)

    def visit_Subscript(self, n):
        self.generic_visit(n)
        if isinstance(n.ctx, ast.Load) and (isinstance(n.slice, (ast.Compare, ast.BoolOp, ast.Name)) or isinstance(n.slice, ast.UnaryOp) and isinstance(n.slice.op, ast.Not)):
            n.slice = self.truth(n.slice)
        return n

    def visit_Compare(self, n):
        self.generic_visit(n)
        if len(n.ops) == 1 and isinstance(n.ops[0], (ast.Is, ast.IsNot)) and isinstance(n.comparators[0], ast.Constant) and type(n.comparators[0].value) is bool:
            n.left = self.truth(n.left)
        return n

    def visit_Match(self, n):
        self.generic_visit(n)
        n.subject = self.truth(n.subject)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.op, (ast.Div, ast.Pow)):
            f = "__idiv__" if isinstance(n.op, ast.Div) else "__pw__"
            src = ast.parse(ast.unparse(n.target), mode="eval").body
            src = Rewrite().visit(src)
            return ast.copy_location(ast.Assign([n.target], ast.Call(ast.Name(f, ast.Load()), [src, n.value], [])), n)
        return n

    def visit_ExceptHandler(self, n):
        self.generic_visit(n)
        if n.type is None:
            n.type = ast.Name("Exception", ast.Load())
        return n

    def visit_For(self, n):
        self.generic_visit(n)
        n.iter = ast.copy_location(ast.Call(ast.Name("__loop__", ast.Load()), [n.iter], []), n.iter)
        return n


def truth(x):
    """a symbolic condition as the Python bool of this path"""
    return bool(x) if type(x) is B else x


def fmt(s, args):
    """% formatting; symbolic numbers appear as text"""
    a = args if isinstance(args, (tuple, dict)) else (args,)
    if any(isinstance(x, (R, B)) for x in (a.values() if isinstance(a, dict) else a)):
        s = re.sub(r"%(\([^)]*\))?[-+ #0]*[\d*]*(?:\.\d+)?[diouxXeEfFgG]", r"%\1s", s)
    return s % args


class _Statistics(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("statistics." + n)


def _mean(xs):
    xs = list(xs)
    return dv(sum(xs, 0), len(xs))


STATISTICS = _Statistics("statistics")
STATISTICS.__dict__.update(mean=_mean, fmean=_mean)


def loop_iter(it):
    h = getattr(it, "__vc_iter__", None)
    if h is not None:
        return h()
    return it


def instrument(src, filename):
    tree = ast.parse(src, filename)
    tree = Rewrite().visit(tree)
    ast.fix_missing_locations(tree)
    return compile(tree, filename, "exec", dont_inherit=True)


# ---------------------------------------------------------------- builtins
class _FloatMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, R):
            return not x.is_int
        return isinstance(x, builtins.float)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.float)

    def __eq__(cls, o):
        return o is cls or o is builtins.float

    def __hash__(cls):
        return hash(builtins.float)


class SFloat(metaclass=_FloatMeta):
    def __new__(cls, x=0.0):
        if isinstance(x, R):
            return R(x.n)
        if isinstance(x, str):
            s = x.strip().lower()
            if s in ("inf", "+inf", "infinity"):
                return T.INF
            if s in ("-inf", "-infinity"):
                return -T.INF
            if s == "nan":
                return builtins.float("nan")
            return R(T.const(Fraction(s)))
        if isinstance(x, B):
            return R(T.const(1 if x else 0))
        if isinstance(x, builtins.float) and (x != x or x in (T.INF, -T.INF)):
            return x
        import numpy as np
        if isinstance(x, np.ndarray):
            if x.size == 1:
                return SFloat(x.reshape(-1)[0])
            raise TypeError("only length-1 arrays can be converted to Python scalars")
        r = R.of(x)
        if r is None:
            if hasattr(x, "__float__"):
                return SFloat(x.__float__())
            raise TypeError("float() argument must be a string or a real number, not %r" % type(x).__name__)
        return R(r.n)


class _IntMeta(type):
    def __instancecheck__(cls, x):
        if isinstance(x, R):
            return x.is_int
        return isinstance(x, builtins.int)

    def __subclasscheck__(cls, c):
        return c is cls or issubclass(c, builtins.int)

    def __eq__(cls, o):
        return o is cls or o is builtins.int

    def __hash__(cls):
        return hash(builtins.int)


class SInt(metaclass=_IntMeta):
    def __new__(cls, x=0, *a):
        if isinstance(x, R):
            return T.trunc_(x)
        if isinstance(x, B):
            return 1 if x else 0
        import numpy as np
        if isinstance(x, np.ndarray):
            return SInt(x.reshape(-1)[0])
        return builtins.int(x, *a)


def s_isinstance(x, t):
    if isinstance(x, (R, B)):
        ts = []

        def flat(q):
            if isinstance(q, tuple):
                for y in q:
                    flat(y)
            elif isinstance(q, types.UnionType):
                for y in q.__args__:
                    flat(y)
            else:
                ts.append(q)
        flat(t)
        import numbers
        import numpy as np
        for q in ts:
            if isinstance(x, B):
                if q is bool or q is object:
                    return True
                continue
            if q in (SFloat, SInt):
                if builtins.isinstance(x, q):
                    return True
            elif q in (numbers.Number, numbers.Real, object, R):
                return True
            elif q in (builtins.float, np.floating, np.float64):
                if not x.is_int and q is builtins.float:
                    return True
            elif q is builtins.int and x.is_int:
                return True
        return False
    return builtins.isinstance(x, t)


def s_type(*a):
    if len(a) == 1 and isinstance(a[0], R):
        return SInt if a[0].is_int else SFloat
    if len(a) == 1 and type(a[0]) is builtins.int:
        return SInt
    if len(a) == 1 and type(a[0]) is builtins.float:
        return SFloat
    return builtins.type(*a)


class _TypeMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, type)


def s_min(*a, **k):
    return _ext(a, k, lambda x, y: x < y)


def s_max(*a, **k):
    return _ext(a, k, lambda x, y: x > y)


s_min.__name__, s_max.__name__ = "min", "max"


def _ext(a, k, better):
    if len(a) == 1:
        a = list(a[0])
    else:
        a = list(a)
    if not a:
        if "default" in k:
            return k["default"]
        raise ValueError("min()/max() arg is an empty sequence")
    key = k.get("key") or (lambda z: z)
    best, kb = a[0], key(a[0])
    for x in a[1:]:
        kx = key(x)
        if better(kx, kb):
            best, kb = x, kx
    return best


def s_round(x, nd=None):
    if isinstance(x, (R, builtins.float)):
        return T.round_(x, nd)
    return builtins.round(x, nd) if nd is not None else builtins.round(x)


def s_pow(a, b, *m):
    if m:
        return builtins.pow(a, b, *m)
    return pw(a, b)


def s_sum(it, start=0):
    r = start
    for x in loop_iter(it):
        r = r + x
    return r


def s_print(*a, **k):
    return None


def s_open(*a, **k):
    raise Unsupported("file access")


def s_range(*a):
    return builtins.range(*[x.__index__() if isinstance(x, R) else x for x in a])


def s_any(it):
    for x in it:
        if x:
            return True
    return False


def s_all(it):
    for x in it:
        if not x:
            return False
    return True


def s_hasattr(o, n):
    try:
        getattr(o, n)
        return True
    except AttributeError:
        return False


# ---------------------------------------------------------------- imports
class Dummy:
    """inert stand-in for plotting/IO libraries"""

    def __init__(self, name="dummy"):
        self.__dict__["_dn"] = name

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        d = Dummy(self._dn + "." + n)
        self.__dict__[n] = d
        return d

    def __setattr__(self, n, v):
        self.__dict__[n] = v

    def __call__(self, *a, **k):
        return Dummy(self._dn + "()")

    def __iter__(self):
        return iter((Dummy(self._dn + "[0]"), Dummy(self._dn + "[1]")))

    def __getitem__(self, i):
        return Dummy(self._dn + "[]")

    def __mro_entries__(self, bases):
        return (DummyBase,)


class DummyBase:
    pass


class UnsupportedMod(Dummy):
    def __call__(self, *a, **k):
        raise Unsupported("call of external %s" % self._dn)

    def __getattr__(self, n):
        if n.startswith("__") and n.endswith("__"):
            raise AttributeError(n)
        d = UnsupportedMod(self._dn + "." + n)
        self.__dict__[n] = d
        return d


_math = types.SimpleNamespace(
    pi=R(T.PI), inf=T.INF, nan=float("nan"), e=None,
    sqrt=T.sqrt_, sin=T.sin_, cos=T.cos_, tan=T.tan_, atan=T.atan_, acos=T.acos_, asin=T.asin_,
    exp=T.exp_, log=T.log_, log10=T.log10_, floor=T.floor_, ceil=T.ceil_, trunc=T.trunc_,
    pow=lambda a, b: T.rpow(a, b) if R.of(a) is not None else a ** b,
    fabs=lambda x: abs(R(R.of(x).n)),
    radians=lambda x: R.of(x) * R(T.PI) / 180, degrees=lambda x: R.of(x) * 180 / R(T.PI),
    fsum=lambda xs: sum(xs, 0), prod=lambda xs, start=1: functools.reduce(lambda a, b: a * b, xs, start),
    hypot=lambda *a: T.sqrt_(sum(x * x for x in a)),
    isclose=lambda a, b, rel_tol=Fraction(1, 10**9), abs_tol=0: bool(
        abs(a - b) <= s_max(R.of(rel_tol) * s_max(abs(R.of(a)), abs(R.of(b))), abs_tol)),
    isinf=lambda x: isinstance(x, float) and x in (T.INF, -T.INF),
    isnan=lambda x: isinstance(x, float) and x != x,
    isfinite=lambda x: not (isinstance(x, float) and (x != x or x in (T.INF, -T.INF))),
    copysign=lambda a, b: abs(a) if b >= 0 else -abs(a),
    gcd=__import__("math").gcd, factorial=__import__("math").factorial,
    atan2=npshim.arctan2,
    dist=lambda p, q: T.sqrt_(sum((a - b) * (a - b) for a, b in zip(p, q))),
)


class _MathMod(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported("math." + n)


MATH = _MathMod("math")
MATH.__dict__.update({k: v for k, v in _math.__dict__.items() if v is not None})

DUMMIES = ("matplotlib", "plotly", "pandas", "openpyxl", "xlsxwriter", "pygame", "gurobipy", "ortools", "deap",
           "tkinter", "IPython", "pylab", "mpl_toolkits", "moocore", "ezdxf", "pyswarm", "numba", "tabulate",
           "cycler", "seaborn", "sklearn", "statsmodels")
REAL_OK = ("abc", "typing", "enum", "dataclasses", "copy", "functools", "itertools", "collections", "operator", "re",
           "string", "datetime", "time", "warnings", "types", "numbers", "random", "json", "csv", "os", "sys", "pathlib",
           "inspect", "logging", "fractions", "decimal", "contextlib", "bisect", "heapq", "uuid", "traceback",
           "__future__", "timeit", "pickle", "unittest", "subprocess", "shutil", "io", "platform", "multiprocessing",
           "concurrent", "threading", "queue", "textwrap", "struct", "hashlib", "glob", "winreg", "gc", "weakref",
           "pprint", "builtins", "math", "cProfile", "pstats", "argparse", "locale", "ast", "code", "treelib")


def dummy_root(name):
    d = sys.modules.get("__pyvc_dummy_" + name)
    if d is None:
        d = Dummy(name)
        sys.modules["__pyvc_dummy_" + name] = d
    return d


def s_import(name, globals=None, locals=None, fromlist=(), level=0):
    if level:
        pkg = globals.get("__package__") or globals["__name__"].rpartition(".")[0]
        parts = pkg.split(".")
        if level > 1:
            parts = parts[:-(level - 1)]
        name = ".".join(parts + ([name] if name else []))
    top = name.split(".")[0]
    if top == "metku":
        m = load(name)
        if not fromlist:
            return load(top)
        if "__path__" in m.__dict__:
            for f in fromlist:
                if f != "*" and f not in m.__dict__:
                    try:
                        load(name + "." + f)
                    except ModuleNotFoundError:
                        pass
        return m
    if name == "statistics":
        return STATISTICS
    if name == "math":
        return MATH
    if top == "numpy":
        if name == "numpy" or not fromlist:
            return npshim.NP
        sub = npshim.NP
        for p in name.split(".")[1:]:
            if p in ("core", "_core"):
                return npshim.NP
            sub = getattr(sub, p)
        return sub
    if top == "scipy":
        if name.startswith("scipy.linalg") or (name == "scipy" and fromlist and "linalg" in fromlist):
            return npshim.SCIPY_LINALG if name != "scipy" else npshim.SCIPY
        if not fromlist:
            return npshim.SCIPY
        return npshim.scipy_sub(name)
    if top in DUMMIES:
        d = dummy_root(top)
        if not fromlist:
            return d
        for p in name.split(".")[1:]:
            d = getattr(d, p)
        return d
    if top in REAL_OK or top == "pyvc":
        m = builtins.__import__(name, None, None, fromlist, 0)
        return m
    try:
        spec = importlib.util.find_spec(top)
    except Exception:
        spec = None
    if spec is None:
        raise ModuleNotFoundError("No module named %r" % top, name=top)
    return UnsupportedMod(name)


def make_builtins():
    b = dict(builtins.__dict__)
    b.update({
        "float": SFloat, "int": SInt, "isinstance": s_isinstance, "min": s_min, "max": s_max, "round": s_round,
        "pow": s_pow, "sum": s_sum, "print": s_print, "open": s_open, "range": s_range, "any": s_any, "all": s_all,
        "__import__": s_import, "__K__": K, "__dv__": dv, "__pw__": pw, "__idiv__": idiv, "__loop__": loop_iter, "__truth__": truth, "__fmt__": fmt,
        "input": s_open, "exec": s_open, "eval": s_open,
    })
    # type(x) is used as a plain call in metku; classes still subclass the real type
    class TypeShim(type, metaclass=_TypeMeta):
        def __new__(mcls, *a, **k):
            return s_type(*a, **k)
    b["type"] = s_type
    return b


BUILTINS = make_builtins()


def find(name):
    rel = name.replace(".", "/")
    d = os.path.join(REPO, rel)
    if os.path.isdir(d):
        init = os.path.join(d, "__init__.py")
        return (init if os.path.exists(init) else None), True, d
    f = d + ".py"
    if os.path.exists(f):
        return f, False, None
    return None, None, None


def load(name):
    if name in REGISTRY:
        return REGISTRY[name]
    if "." in name:
        parent = name.rpartition(".")[0]
        load(parent)
        if name in REGISTRY:
            return REGISTRY[name]
    path, ispkg, d = find(name)
    if ispkg is None:
        raise ModuleNotFoundError("No module named %r" % name, name=name)
    m = types.ModuleType(name)
    m.__dict__["__builtins__"] = BUILTINS
    if ispkg:
        m.__path__ = [d]
        m.__package__ = name
    else:
        m.__package__ = name.rpartition(".")[0]
    REGISTRY[name] = m
    m.__file__ = path
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        if leaf not in REGISTRY[parent].__dict__:
            setattr(REGISTRY[parent], leaf, m)
    try:
        if path:
            with open(path, encoding="utf-8") as f:
                src = f.read()
            code = instrument(src, path)
            exec(code, m.__dict__)
    except BaseException:
        REGISTRY.pop(name, None)
        raise
    if "." in name:
        parent, _, leaf = name.rpartition(".")
        setattr(REGISTRY[parent], leaf, m)
    return m


def load_contract(path, symbolic, extra=None):
    """contract files get the same literal treatment in prove mode"""
    with open(path, encoding="utf-8") as f:
        src = f.read()
    m = types.ModuleType("contract_" + os.path.basename(path)[:-3])
    m.__file__ = path
    if symbolic:
        m.__dict__["__builtins__"] = dict(BUILTINS, print=builtins.print)
        code = instrument(src, path)
    else:
        m.__dict__["__builtins__"] = dict(builtins.__dict__)
        code = compile(src, path, "exec", dont_inherit=True)
    m.__dict__.update(extra or {})
    exec(code, m.__dict__)
    return m


# ---------------------------------------------------------------- coverage of functions
def start_monitor():
    mon = sys.monitoring
    tid = 3
    try:
        mon.use_tool_id(tid, "pyvc")
    except ValueError:
        return

    def cb(code, off):
        f = code.co_filename
        if "/metku/" in f and code.co_flags & 2:      # function bodies only (CO_NEWLOCALS)
            EXECUTED.add((f[f.index("/metku/") + 1:], code.co_qualname))
        return mon.DISABLE
    mon.register_callback(tid, mon.events.PY_START, cb)
    mon.set_events(tid, mon.events.PY_START)
