"""numpy over exact/symbolic reals: object arrays of R, exact linear algebra."""
import types
import numpy as np
from fractions import Fraction

from . import terms as T
from .terms import R, B, Unsupported

PYFLOAT = float


class SArr(np.ndarray):
    """object array of R (or Python ints)"""

    def astype(self, dt, *a, **k):
        if _isfloat(dt):
            return vec(lambda x: R(R.of(x).n))(self)
        if _isint(dt):
            return mk([T.trunc_(x) if isinstance(x, R) else int(x) for x in self.reshape(-1)], self.shape)
        if dt is object:
            return self.copy()
        if dt in (bool, np.bool_):
            return np.array([bool(x) for x in self.reshape(-1)], dtype=bool).reshape(self.shape)
        if dt is str:
            return np.array([str(x) for x in self.reshape(-1)]).reshape(self.shape)
        raise Unsupported("astype(%r)" % (dt,))

    def max(self, axis=None, **k):
        return amax(self, axis)

    def min(self, axis=None, **k):
        return amin(self, axis)

    def argmax(self, axis=None, **k):
        return argmax(self, axis)

    def argmin(self, axis=None, **k):
        return argmin(self, axis)

    def mean(self, axis=None, **k):
        return mean(self, axis)

    def prod(self, axis=None, **k):
        assert axis is None
        return prod(self)

    def sum(self, axis=None, **k):
        return ssum(self, axis)

    def round(self, decimals=0, **k):
        return vec(lambda x: T.round_(x, decimals))(self)

    def any(self, axis=None, **k):
        return sany(self)

    def all(self, axis=None, **k):
        return sall(self)

    def dot(self, o):
        return dot(self, o)

    def tolist(self):
        return [x.tolist() if isinstance(x, np.ndarray) else x for x in self] if self.ndim else self.item()

    def sort(self, *a, **k):
        self[:] = mk(sorted(list(self)), self.shape)

    def __matmul__(self, o):
        return dot(self, o)

    def __rmatmul__(self, o):
        return dot(o, self)

    def __pow__(self, e):
        if isinstance(e, np.ndarray):
            return _bc(T.rpow, self, e)
        return vec(lambda x: T.rpow(x, e))(self)

    def __truediv__(self, o):
        return _bc(_tdiv, self, o)

    def __rtruediv__(self, o):
        return _bc(_tdiv, o, self)

    def __itruediv__(self, o):
        self[...] = _bc(_tdiv, self, o)
        return self

    def __lt__(self, o):
        return _bc(lambda a, b: a < b, self, o)

    def __le__(self, o):
        return _bc(lambda a, b: a <= b, self, o)

    def __gt__(self, o):
        return _bc(lambda a, b: a > b, self, o)

    def __ge__(self, o):
        return _bc(lambda a, b: a >= b, self, o)

    def __eq__(self, o):
        if o is None or isinstance(o, str):
            return np.zeros(self.shape, dtype=bool)
        return _bc(lambda a, b: a == b, self, o)

    def __ne__(self, o):
        if o is None or isinstance(o, str):
            return np.ones(self.shape, dtype=bool)
        return _bc(lambda a, b: a != b, self, o)

    __hash__ = None

    def __getitem__(self, i):
        i = _mask(i)
        if isinstance(i, tuple):
            i = tuple(_mask(j) for j in i)
        return super().__getitem__(i)

    def __setitem__(self, i, v):
        i = _mask(i)
        if isinstance(i, tuple):
            i = tuple(_mask(j) for j in i)
        super().__setitem__(i, v)

    def __bool__(self):
        if self.size == 1:
            return bool(self.reshape(-1)[0])
        return super().__bool__()

    def __float__(self):
        raise Unsupported("float(array)")

    def __format__(self, s):
        return "<array>"

    def __deepcopy__(self, memo):
        return self.copy()


def _tdiv(a, b):
    if isinstance(a, int):
        a = R.of(a)
    return a / b


def _mask(i):
    if isinstance(i, SArr) and i.dtype == object:
        flat = i.reshape(-1)
        if flat.size and all(isinstance(x, (B, bool, np.bool_)) for x in flat):
            return np.array([bool(x) for x in flat], dtype=bool).reshape(i.shape)
        if all(isinstance(x, (int, np.integer)) or (isinstance(x, R) and x.is_int) for x in flat):
            return np.array([int(x) for x in flat], dtype=int).reshape(i.shape)
    if isinstance(i, R):
        return i.__index__()
    return i


def mk(items, shape=None):
    items = list(items)
    a = np.empty(len(items), dtype=object)
    for k, x in enumerate(items):
        a[k] = x
    a = a.view(SArr)
    return a if shape is None else a.reshape(shape)


def asobj(a):
    if isinstance(a, SArr) and a.dtype == object:
        return a
    a = np.asarray(a)
    return mk([_el(x) for x in a.reshape(-1)], a.shape)


def _el(x):
    if isinstance(x, (np.bool_, bool)):
        return bool(x)
    if isinstance(x, np.integer):
        return int(x)
    if isinstance(x, float):
        if x != x or x in (T.INF, -T.INF):
            return float(x)
        return R.of(float(x))
    if isinstance(x, np.floating):
        return R.of(float(x))
    return x


def vec(f):
    def g(x, *a, **k):
        if isinstance(x, np.ndarray):
            return mk([f(y) for y in x.reshape(-1)], x.shape)
        if isinstance(x, (list, tuple)):
            return g(array(x))
        return f(x)
    return g


def _bc(f, a, b):
    a2 = a if isinstance(a, np.ndarray) else (array(a) if isinstance(a, (list, tuple)) else None)
    b2 = b if isinstance(b, np.ndarray) else (array(b) if isinstance(b, (list, tuple)) else None)
    if a2 is None and b2 is None:
        return f(a, b)
    if a2 is None:
        a2 = mk([a], ())
        a2 = mk([a])
        sh = b2.shape
        return mk([f(a, y) for y in b2.reshape(-1)], sh)
    if b2 is None:
        return mk([f(x, b) for x in a2.reshape(-1)], a2.shape)
    x, y = np.broadcast_arrays(np.asarray(a2), np.asarray(b2))
    return mk([f(p, q) for p, q in zip(x.reshape(-1), y.reshape(-1))], x.shape)


def _isfloat(dt):
    from . import loader
    return dt in (float, np.float64, np.float32, "float", "f", "d", float) or dt is loader.SFloat


def _isint(dt):
    from . import loader
    return dt in (int, np.int64, np.int32, "int", "i") or dt is loader.SInt


def _flat(x):
    if isinstance(x, (list, tuple)):
        for y in x:
            yield from _flat(y)
    elif isinstance(x, np.ndarray):
        yield from x.reshape(-1)
    else:
        yield x


def _shape(x):
    if isinstance(x, np.ndarray):
        return x.shape
    if isinstance(x, (list, tuple)):
        if len(x) == 0:
            return (0,)
        s = _shape(x[0])
        for y in x[1:]:
            if _shape(y) != s:
                raise ValueError("setting an array element with a sequence. inhomogeneous shape")
        return (len(x),) + s
    return ()


def array(x, dtype=None, copy=True, **k):
    if isinstance(x, (range, map, filter, zip)) or type(x).__name__ in ("dict_values", "dict_keys"):
        x = list(x) if isinstance(x, range) else x
    if isinstance(x, np.ndarray):
        if dtype is None:
            return x.copy()
        if x.dtype == object:
            return x.view(SArr).astype(dtype)
        if _isfloat(dtype):
            return vec(lambda y: R(R.of(y).n))(asobj(x))
        if _isint(dtype):
            return x.astype(int)
        return x.astype(dtype)
    if not isinstance(x, (list, tuple)):
        if isinstance(x, (R, int, float, Fraction, B)):
            return mk([R.of(x)], None).reshape(())
        return np.array(x, dtype=dtype)
    items = list(_flat(x))
    if dtype is object or dtype == "object":
        try:
            sh = _shape(x)
        except ValueError:          # rows of different lengths: an array of the rows
            out = np.empty(len(x), dtype=object)
            for i, row in enumerate(x):
                out[i] = row
            return out
        return mk(items, sh)
    if items and all(isinstance(y, (str, np.str_)) for y in items):
        return np.array(x)
    if items and all(isinstance(y, (bool, np.bool_)) for y in items):
        return np.array(x)
    if _isfloat(dtype) and any(y is None for y in items):
        items = [float("nan") if y is None else y for y in items]
    sh = _shape(x)
    if _isint(dtype) and dtype is not None:
        return np.array([int(y) for y in items], dtype=int).reshape(sh)
    if items and dtype is None and all(type(y) is int or isinstance(y, np.integer) for y in items):
        return np.array([int(y) for y in items], dtype=int).reshape(sh)
    if all(isinstance(y, (R, int, float, Fraction, B, np.generic)) for y in items):
        # mixed ints and floats become floats, as in numpy
        return mk([_tofloat(y) for y in items], sh)
    return mk(items, sh)


def _tofloat(y):
    if isinstance(y, float) and (y != y or y in (T.INF, -T.INF)):
        return y
    if isinstance(y, B):
        return y
    r = R.of(y)
    return R(r.n, False) if not (isinstance(y, R) and y.is_int) else R(r.n, True)


def asarray(x, dtype=None, **k):
    if isinstance(x, np.ndarray) and dtype is None:
        return x
    if isinstance(x, SArr) and _isfloat(dtype):
        return x
    return array(x, dtype)


def _fill(shape, v, dtype):
    if isinstance(shape, R):
        shape = shape.__index__()
    if isinstance(shape, (list, tuple)):
        shape = tuple(int(s) for s in shape)
    if dtype is None or _isfloat(dtype):
        n = int(np.prod(shape)) if not isinstance(shape, int) else shape
        return mk([R(T.const(v))] * n, shape)
    if _isint(dtype):
        return np.full(shape, v, dtype=int)
    if dtype in (bool, np.bool_):
        return np.full(shape, bool(v), dtype=bool)
    if dtype is object:
        return np.full(shape, v, dtype=object)
    raise Unsupported("dtype %r" % (dtype,))


def zeros(shape, dtype=None, **k):
    return _fill(shape, 0, dtype)


def ones(shape, dtype=None, **k):
    return _fill(shape, 1, dtype)


def full(shape, v, dtype=None):
    n = int(np.prod(shape))
    return mk([R.of(v) if not isinstance(v, R) else v] * n, shape)


def zeros_like(a, dtype=None, **k):
    a = asarray(a)
    if a.dtype.kind in "i" and dtype is None:
        return np.zeros_like(a)
    return zeros(a.shape)


def ones_like(a, dtype=None, **k):
    a = asarray(a)
    if a.dtype.kind in "i" and dtype is None:
        return np.ones_like(a)
    return ones(a.shape)


def eye(n, m=None, **k):
    m = n if m is None else m
    a = zeros((n, m))
    for i in range(min(n, m)):
        a[i, i] = R(T.ONE)
    return a


def diag(v, k=0):
    v = asarray(v)
    if v.ndim == 1:
        a = zeros((len(v), len(v)))
        for i in range(len(v)):
            a[i, i] = v[i]
        return a
    return mk([v[i, i] for i in range(min(v.shape))])


def linspace(a, b, num=50, endpoint=True, **k):
    num = int(num)
    a, b = R.of(a), R.of(b)
    if num == 1:
        return mk([R(a.n)])
    d = num - 1 if endpoint else num
    return mk([R((a + (b - a) * Fraction(i, d)).n) for i in range(num)])


def arange(*a, **k):
    if all(isinstance(x, (int, np.integer)) for x in a):
        return np.arange(*a, **k)
    a = [R.of(x) for x in a]
    if len(a) == 1:
        lo, hi, st = R.of(0), a[0], R.of(1)
    elif len(a) == 2:
        lo, hi, st = a[0], a[1], R.of(1)
    else:
        lo, hi, st = a
    n = T.ceil_((hi - lo) / st)
    if not isinstance(n, int):
        raise Unsupported("arange with symbolic length")
    return mk([lo + st * i for i in range(max(0, n))])


def dot(a, b):
    if not isinstance(a, np.ndarray) and not isinstance(a, (list, tuple)):
        return a * asarray(b) if isinstance(b, (list, tuple, np.ndarray)) else a * b
    a, b = asarray(a), asarray(b)
    if b.ndim == 0 or a.ndim == 0:
        return a * b
    A = a.reshape((1, -1)) if a.ndim == 1 else a
    Bm = b.reshape((-1, 1)) if b.ndim == 1 else b
    if A.ndim > 2 or Bm.ndim > 2:
        raise Unsupported("dot with ndim>2")
    if A.shape[1] != Bm.shape[0]:
        raise ValueError("shapes %r and %r not aligned" % (a.shape, b.shape))
    out = []
    for i in range(A.shape[0]):
        for j in range(Bm.shape[1]):
            s = R(T.ZERO)
            for k in range(A.shape[1]):
                x, y = A[i, k], Bm[k, j]
                if (isinstance(x, R) and x.n is T.ZERO) or (isinstance(y, R) and y.n is T.ZERO):
                    continue
                s = s + x * y
            out.append(s)
    if a.ndim == 1 and b.ndim == 1:
        return out[0]
    r = mk(out, (A.shape[0], Bm.shape[1]))
    if a.ndim == 1:
        return r.reshape(-1)
    if b.ndim == 1:
        return r.reshape(-1)
    return r


def outer(a, b):
    a, b = asarray(a).reshape(-1), asarray(b).reshape(-1)
    return mk([x * y for x in a for y in b], (len(a), len(b)))


def cross(a, b, **k):
    a, b = list(asarray(a)), list(asarray(b))
    if len(a) == 3 and len(b) == 3:
        return mk([a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]])
    if len(a) == 2 and len(b) == 2:
        return a[0] * b[1] - a[1] * b[0]
    raise Unsupported("cross")


def ssum(a, axis=None, **k):
    a = asarray(a)
    if axis is None:
        s = R(T.ZERO) if a.dtype == object else 0
        for x in a.reshape(-1):
            s = s + x
        return s
    a = np.moveaxis(a, axis, 0)
    r = a[0]
    for i in range(1, a.shape[0]):
        r = r + a[i]
    return r


def mean(a, axis=None, **k):
    a = asarray(a)
    n = a.size if axis is None else a.shape[axis]
    return ssum(a, axis) / R.of(n)


def prod(a, **k):
    r = 1
    for x in _flat(a):
        r = r * x
    return r


def _red(a, axis, better):
    a = asarray(a)
    if axis is not None and a.ndim > 1:
        m = np.moveaxis(a, axis, -1)
        sh = m.shape[:-1]
        return mk([_red(row, None, better) for row in m.reshape((-1, m.shape[-1]))], sh)
    it = list(a.reshape(-1))
    if not it:
        raise ValueError("zero-size array to reduction operation")
    b = it[0]
    for x in it[1:]:
        if better(x, b):
            b = x
    return b


def amax(a, axis=None, **k):
    return _red(a, axis, lambda x, y: x > y)


def amin(a, axis=None, **k):
    return _red(a, axis, lambda x, y: x < y)


def _arg(a, axis, better):
    if axis is not None and asarray(a).ndim > 1:
        raise Unsupported("argmax with axis")
    it = list(asarray(a).reshape(-1))
    b = 0
    for i in range(1, len(it)):
        if better(it[i], it[b]):
            b = i
    return b


def argmax(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x > y)


def argmin(a, axis=None, **k):
    return _arg(a, axis, lambda x, y: x < y)


def maximum(a, b):
    return _bc(lambda x, y: x if x >= y else y, a, b)


def minimum(a, b):
    return _bc(lambda x, y: x if x <= y else y, a, b)


def clip(x, lo, hi, **k):
    def f(v):
        if lo is not None and v < lo:
            return lo
        if hi is not None and v > hi:
            return hi
        return v
    if isinstance(lo, (np.ndarray, list, tuple)) or isinstance(hi, (np.ndarray, list, tuple)):
        if lo is not None:
            x = _bc(lambda v, l: l if v < l else v, x, lo)
        return x if hi is None else _bc(lambda v, h: h if v > h else v, x, hi)
    return vec(f)(x)


def sall(a, **k):
    for x in _flat(a):
        if not x:
            return False
    return True


def sany(a, **k):
    for x in _flat(a):
        if x:
            return True
    return False


def isclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    rtol, atol = R.of(rtol), R.of(atol)
    return _bc(lambda x, y: abs(x - y) <= atol + rtol * abs(y), a, b)


def allclose(a, b, rtol=Fraction(1, 100000), atol=Fraction(1, 10**8), **k):
    r = isclose(a, b, rtol, atol)
    return sall(r) if isinstance(r, np.ndarray) else bool(r)


def sign(x):
    def f(v):
        if v > 0:
            return R(T.ONE)
        if v < 0:
            return R(T.MONE)
        return R(T.ZERO)
    return vec(f)(x)


def where(c, *a):
    if a:
        x, y = a
        c = asarray(c)
        xs = x if isinstance(x, np.ndarray) else None
        ys = y if isinstance(y, np.ndarray) else None
        out = []
        for i, ci in enumerate(c.reshape(-1)):
            out.append((xs.reshape(-1)[i] if xs is not None else x) if ci else (ys.reshape(-1)[i] if ys is not None else y))
        return mk(out, c.shape)
    c = asarray(c)
    m = np.array([bool(v) for v in c.reshape(-1)], dtype=bool).reshape(c.shape)
    return np.where(m)


def nonzero(a):
    return where(asarray(a) != 0)


def arctan2(y, x):
    y, x = R.of(y), R.of(x)
    if x > 0:
        return T.atan_(y / x)
    if x < 0:
        a = T.atan_(y / x)
        return a + R(T.PI) if y >= 0 else a - R(T.PI)
    if y > 0:
        return R(T.PI) / 2
    if y < 0:
        return -R(T.PI) / 2
    return R(T.ZERO)


def interp(x, xp, fp, left=None, right=None):
    xp, fp = list(asarray(xp)), list(asarray(fp))

    def f(v):
        if v <= xp[0]:
            return fp[0] if left is None or not (v < xp[0]) else left
        for i in range(1, len(xp)):
            if v <= xp[i]:
                d = R.of(xp[i] - xp[i - 1])
                return fp[i - 1] + (fp[i] - fp[i - 1]) * ((v - xp[i - 1]) / d)
        return fp[-1] if right is None else right
    return vec(f)(x)


def matrix_power_unsupported(*a, **k):
    raise Unsupported("matrix_power")


def _iszero(x):
    if isinstance(x, R):
        if x.n is T.ZERO:
            return True
        lo, hi = T.interval(x.n)
        if lo > 0 or hi < 0:
            return False
        lim, T.LIMIT = T.LIMIT, 3000
        try:
            if T.nf_zero(x.n):
                return True
        finally:
            T.LIMIT = lim
        return bool(x == 0)
    return x == 0


def solve(A, b):
    A = asobj(asarray(A)).copy()
    b = asobj(asarray(b))
    vec1 = b.ndim == 1
    bb = b.reshape((len(b), -1)).copy()
    n = A.shape[0]
    if A.shape[0] != A.shape[1]:
        raise np.linalg.LinAlgError("Last 2 dimensions of the array must be square")
    for i in range(n):
        p = None
        # prefer pivots whose sign is known without case split
        for r in range(i, n):
            x = A[r, i]
            if isinstance(x, R) and not x.is_const:
                lo, hi = T.interval(x.n)
                if lo > 0 or hi < 0:
                    p = r
                    break
            elif x != 0:
                p = r
                break
        if p is None:
            for r in range(i, n):
                if not _iszero(A[r, i]):
                    p = r
                    break
        if p is None:
            raise np.linalg.LinAlgError("Singular matrix")
        if p != i:
            for k in range(n):
                A[i, k], A[p, k] = A[p, k], A[i, k]
            for k in range(bb.shape[1]):
                bb[i, k], bb[p, k] = bb[p, k], bb[i, k]
        piv = R.of(A[i, i])
        for r in range(i + 1, n):
            x = R.of(A[r, i])
            if x.n is T.ZERO:
                continue
            f = x / piv
            for k in range(i + 1, n):
                A[r, k] = _simp(A[r, k] - f * A[i, k])
            A[r, i] = R(T.ZERO)
            for k in range(bb.shape[1]):
                bb[r, k] = bb[r, k] - f * bb[i, k]
    X = zeros(bb.shape)
    for c in range(bb.shape[1]):
        for i in range(n - 1, -1, -1):
            s = bb[i, c]
            for k in range(i + 1, n):
                s = s - A[i, k] * X[k, c]
            X[i, c] = s / R.of(A[i, i])
    return X.reshape(-1) if vec1 else X


def _simp(x):
    """drop terms whose normal form is a constant (keeps zero patterns)"""
    if not isinstance(x, R) or x.is_const:
        return x
    lim, T.LIMIT = T.LIMIT, 2000
    try:
        q = T.nf_const(x.n)
    finally:
        T.LIMIT = lim
    return x if q is None else R(T.const(q))


def inv(A):
    A = asarray(A)
    return solve(A, eye(A.shape[0]))


def det(A):
    A = asobj(asarray(A)).copy()
    n = A.shape[0]
    if n == 1:
        return A[0, 0]
    if n == 2:
        return A[0, 0] * A[1, 1] - A[0, 1] * A[1, 0]
    s = R(T.ZERO)
    for j in range(n):
        if isinstance(A[0, j], R) and A[0, j].n is T.ZERO:
            continue
        m = mk([A[i, k] for i in range(1, n) for k in range(n) if k != j], (n - 1, n - 1))
        s = s + (-1) ** j * A[0, j] * det(m)
    return s


def norm(x, ord=None, axis=None, **k):
    if axis is not None:
        raise Unsupported("norm with axis")
    it = list(asarray(x).reshape(-1))
    if any(isinstance(v, float) and v != v for v in it):
        return float("nan")
    if ord in (None, 2):
        return T.sqrt_(sum((R.of(v) * v for v in it), R(T.ZERO)))
    if ord == 1:
        return sum((abs(v) for v in it), R(T.ZERO))
    if ord == np.inf:
        return amax([abs(v) for v in it])
    raise Unsupported("norm ord")


class _NS(types.ModuleType):
    def __getattr__(self, n):
        if n.startswith("__"):
            raise AttributeError(n)
        raise Unsupported(self.__name__ + "." + n)


LINALG = _NS("numpy.linalg")
LINALG.__dict__.update(solve=solve, inv=inv, det=det, norm=norm, LinAlgError=np.linalg.LinAlgError)

NP = _NS("numpy")
RANDOM = _NS("numpy.random")


class ArrayMeta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, np.ndarray)


def vstack(t):
    return np.vstack([asobj(asarray(x)) for x in t]).view(SArr)


def hstack(t):
    return np.hstack([asobj(asarray(x)) for x in t]).view(SArr)


def concatenate(t, axis=0, **k):
    t = [asarray(x) for x in t]
    if all(x.dtype.kind in "i" for x in t):
        return np.concatenate(t, axis=axis)
    return np.concatenate([asobj(x) for x in t], axis=axis).view(SArr)


def append(a, v, axis=None):
    a, v = asarray(a), asarray(v)
    if axis is None:
        return concatenate([a.reshape(-1), v.reshape(-1)])
    return concatenate([a, v], axis)


def count_nonzero(a, **k):
    return sum(1 if x else 0 for x in asarray(a).reshape(-1))


def heaviside(x, h):
    return vec(lambda v: 1 if v > 0 else 0 if v < 0 else h)(x)


def select(conds, vals, default=0):
    r = default
    for c, v in reversed(list(zip(conds, vals))):
        r = where(c, v, r)
    return r


def polyval(p, x):
    r = 0
    for c in list(asarray(p)):
        r = r * x + c
    return r


def ix_(*a):
    r = []
    for q in a:
        q = [x for x in q]
        if q and all(isinstance(x, (B, bool, np.bool_)) for x in q):
            r.append(np.array([i for i, x in enumerate(q) if bool(x)], dtype=int))
        else:
            r.append(np.array([int(x) for x in q], dtype=int))
    return np.ix_(*r)


def _structural(f):
    """numpy functions that only move entries around"""
    def g(a, *r, **k):
        if isinstance(a, (list, tuple)):
            a = [np.asarray(asarray(x)) for x in a] if f in _MANY else np.asarray(asarray(a))
        x = f(a if isinstance(a, list) else np.asarray(a), *r, **k)
        w = lambda y: y.view(SArr) if isinstance(y, np.ndarray) and y.dtype == object else y
        return [w(y) for y in x] if isinstance(x, list) else w(x)
    return g


_MANY = (np.column_stack, np.stack, np.dstack, np.vstack, np.hstack)


def flatnonzero(a):
    return np.array([i for i, x in enumerate(_flat(a)) if x != 0], dtype=int)


def isin(a, b, **k):
    b = list(_flat(b))
    return np.array([any(bool(x == y) for y in b) for x in _flat(a)], dtype=bool).reshape(asarray(a).shape)


def around(x, nd=0, **k):
    return vec(lambda v: T.round_(v, nd))(x)


def setdiff1d(a, b, **k):
    return np.setdiff1d(np.array([int(x) for x in a], dtype=int), np.array([int(x) for x in b], dtype=int))


def delete(a, i, axis=None):
    a = asarray(a)
    r = np.delete(np.asarray(a), [int(x) for x in i] if hasattr(i, "__len__") else int(i), axis)
    return r.view(SArr) if r.dtype == object else r


def cumsum(a, **k):
    out, s = [], 0
    for x in asarray(a).reshape(-1):
        s = s + x
        out.append(s)
    return mk(out) if any(isinstance(x, R) for x in out) else np.array(out)


def diff(a, **k):
    a = asarray(a)
    return mk([a[i + 1] - a[i] for i in range(len(a) - 1)])


def trapz(y, x=None, dx=1, **k):
    y = list(asarray(y))
    s = R(T.ZERO)
    for i in range(len(y) - 1):
        h = (x[i + 1] - x[i]) if x is not None else dx
        s = s + R.of(h) * (y[i] + y[i + 1]) / 2
    return s


def _passthrough(f):
    def g(a, *r, **k):
        a = asarray(a)
        res = f(np.asarray(a), *r, **k)
        return res.view(SArr) if isinstance(res, np.ndarray) and res.dtype == object else res
    return g


def unique(a, **k):
    it = list(asarray(a).reshape(-1))
    out = []
    for x in it:
        if not any(bool(x == y) for y in out):
            out.append(x)
    return array(sorted(out))


NP.__dict__.update(
    ndarray=np.ndarray, pi=R(T.PI), inf=T.INF, Inf=T.INF, nan=float("nan"), newaxis=None,
    float64=None, int64=np.int64, int32=np.int32, bool_=np.bool_, integer=np.integer, floating=np.floating,
    number=np.number, generic=np.generic, object_=object,
    array=array, asarray=asarray, asanyarray=asarray, zeros=zeros, ones=ones, full=full, empty=zeros, zeros_like=zeros_like,
    ones_like=ones_like, empty_like=zeros_like, eye=eye, identity=eye, diag=diag, linspace=linspace, arange=arange,
    dot=dot, matmul=dot, outer=outer, cross=cross, inner=dot, vdot=dot, sum=ssum, mean=mean, average=mean, prod=prod,
    max=amax, amax=amax, min=amin, amin=amin, argmax=argmax, argmin=argmin, maximum=maximum, minimum=minimum,
    clip=clip, all=sall, any=sany, isclose=isclose, allclose=allclose, sign=sign, where=where, nonzero=nonzero,
    sqrt=vec(T.sqrt_), sin=vec(T.sin_), cos=vec(T.cos_), tan=vec(T.tan_), arctan=vec(T.atan_), arccos=vec(T.acos_),
    arcsin=vec(T.asin_), exp=vec(T.exp_), log=vec(T.log_), log10=vec(T.log10_), arctan2=arctan2,
    abs=vec(abs), absolute=vec(abs), fabs=vec(abs), radians=vec(lambda x: R.of(x) * R(T.PI) / 180),
    deg2rad=vec(lambda x: R.of(x) * R(T.PI) / 180), degrees=vec(lambda x: R.of(x) * 180 / R(T.PI)),
    rad2deg=vec(lambda x: R.of(x) * 180 / R(T.PI)),
    floor=vec(T.floor_), ceil=vec(T.ceil_), round=around, around=around, round_=around, rint=around,
    power=lambda a, b: _bc(T.rpow, a, b), square=vec(lambda x: x * x), divide=lambda a, b: _bc(_tdiv, a, b),
    multiply=lambda a, b: _bc(lambda x, y: x * y, a, b), add=lambda a, b: _bc(lambda x, y: x + y, a, b),
    subtract=lambda a, b: _bc(lambda x, y: x - y, a, b), negative=vec(lambda x: -x),
    interp=interp, linalg=LINALG, random=RANDOM, vstack=vstack, hstack=hstack, concatenate=concatenate, append=append,
    ix_=ix_, setdiff1d=setdiff1d, delete=delete, cumsum=cumsum, diff=diff, trapz=trapz, trapezoid=trapz,
    transpose=lambda a, *r: asarray(a).T, reshape=lambda a, s: asarray(a).reshape(s), ravel=lambda a: asarray(a).reshape(-1),
    squeeze=_passthrough(np.squeeze), flip=_passthrough(np.flip), tile=_passthrough(np.tile), repeat=_passthrough(np.repeat),
    copy=lambda a: asarray(a).copy(), shape=lambda a: asarray(a).shape, size=lambda a: asarray(a).size,
    isnan=vec(lambda x: isinstance(x, float) and x != x),
    isinf=vec(lambda x: isinstance(x, float) and x in (T.INF, -T.INF)),
    isfinite=vec(lambda x: not (isinstance(x, float) and (x != x or x in (T.INF, -T.INF)))),
    isscalar=lambda x: isinstance(x, (R, int, float, str)), unique=unique, array_equal=lambda a, b: (
        asarray(a).shape == asarray(b).shape and sall(asarray(a) == asarray(b))),
    column_stack=_structural(np.column_stack), stack=_structural(np.stack), split=_structural(np.split),
    array_split=_structural(np.array_split), triu=_structural(np.triu), tril=_structural(np.tril), roll=_structural(np.roll),
    flipud=_structural(np.flipud), fliplr=_structural(np.fliplr), expand_dims=_structural(np.expand_dims),
    swapaxes=_structural(np.swapaxes), take=_structural(np.take), atleast_2d=_structural(np.atleast_2d), rot90=_structural(np.rot90),
    flatnonzero=flatnonzero, isin=isin, seterr=lambda *a, **k: None, errstate=None, set_printoptions=lambda *a, **k: None,
    fill_diagonal=None, count_nonzero=lambda a: sum(1 for x in _flat(a) if x != 0),
    argsort=lambda a, **k: np.array(sorted(range(len(a)), key=lambda i: a[i]), dtype=int),
    sort=lambda a, **k: array(sorted(list(asarray(a)))), atleast_1d=lambda x: asarray(x) if isinstance(x, (np.ndarray, list, tuple)) else mk([x]),
    hypot=lambda a, b: T.sqrt_(R.of(a) * a + R.of(b) * b), poly1d=None, polyfit=None, VisibleDeprecationWarning=Warning,
    median=None, std=None, vectorize=vec, logical_and=lambda a, b: _bc(lambda x, y: bool(x) and bool(y), a, b),
    logical_or=lambda a, b: _bc(lambda x, y: bool(x) or bool(y), a, b), logical_not=vec(lambda x: not x),
    meshgrid=None, atan2=arctan2, sinh=None, cosh=None, 
    NINF=-T.INF, NaN=float("nan"), finfo=None, uint8=np.uint8, str_=np.str_, save=None, load=None, loadtxt=None,
    savetxt=None, kron=None, roots=None, block=None, bmat=None, trace=lambda a: sum(a[i, i] for i in range(len(a))),
)
for _k, _v in list(NP.__dict__.items()):
    if _v is None and not _k.startswith("_") and _k not in ("newaxis",):
        del NP.__dict__[_k]


class _F64Meta(type):
    def __instancecheck__(cls, x):
        return isinstance(x, R) and not x.is_int

    def __eq__(cls, o):
        return o is cls or o is np.float64

    def __hash__(cls):
        return hash(np.float64)


class F64(metaclass=_F64Meta):
    def __new__(cls, x=0):
        return R(R.of(x).n)


NP.float64 = F64
NP.double = F64
NP.float32 = F64


def _no_float(*a):
    raise AttributeError("module 'numpy' has no attribute 'float'")


NP.__dict__.update(count_nonzero=count_nonzero, heaviside=heaviside, select=select, polyval=polyval, nanmax=amax, nanmin=amin)
_orig_ns_getattr = _NS.__getattr__


def _np_getattr(self, n):
    if self is NP and n in ("float", "int", "bool", "object", "float_", "product", "in1d", "trapz2", "complex"):
        raise AttributeError("module 'numpy' has no attribute %r" % n)
    return _orig_ns_getattr(self, n)


_NS.__getattr__ = _np_getattr
for _n in ("NINF", "Inf", "NaN", "trapz", "in1d", "round_"):
    NP.__dict__.pop(_n, None)

SCIPY_LINALG = _NS("scipy.linalg")
SCIPY_LINALG.__dict__.update(solve=solve, inv=inv, det=det, norm=norm, LinAlgError=np.linalg.LinAlgError)


class _Lazy:
    def __init__(self, name):
        self._n = name

    def __call__(self, *a, **k):
        raise Unsupported("call of " + self._n)

    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Lazy(self._n + "." + k)


class _LazyMod(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith("__"):
            raise AttributeError(k)
        return _Lazy(self.__name__ + "." + k)


SCIPY = _LazyMod("scipy")
SCIPY.linalg = SCIPY_LINALG


def scipy_sub(name):
    if name == "scipy":
        return SCIPY
    return _LazyMod(name)
