"""Hash-consed real-arithmetic terms, symbolic numbers (R) and formulas (B).

R is what an instrumented metku function sees instead of a float.  Every
arithmetic operation builds a term; comparing two R gives a B, and taking the
truth value of a B asks the engine which branch this path follows.
"""
from fractions import Fraction
import math as _math

ENGINE = None          # set by engine.py while a path is being executed


class Control(BaseException):
    """Engine control flow; never caught by `except Exception`."""


class Unsupported(Control):
    """The engine met a construct it cannot give a sound meaning to."""


# ---------------------------------------------------------------- nodes
class Node:
    __slots__ = ("op", "args", "id", "_rat", "_iv", "_ivgen", "atoms", "depth")

    def __repr__(self):
        return show(self)


_table = {}
_next = [0]


def _mk(op, args, key):
    k = (op,) + key
    n = _table.get(k)
    if n is None:
        n = Node()
        n.op = op
        n.args = args
        n.id = _next[0]
        _next[0] += 1
        n._rat = None
        n._iv = None
        n._ivgen = -1
        n.atoms = None
        n.depth = 0
        _table[k] = n
    return n


def const(q):
    if type(q) is not Fraction:
        q = Fraction(q)
    return _mk("const", q, (q,))


def var(name, integer=False):
    return _mk("var", (name, integer), (name, integer))


ZERO = const(0)
ONE = const(1)
MONE = const(-1)
PI = _mk("pi", (), ())


def add(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args + b.args)
    if a is ZERO:
        return b
    if b is ZERO:
        return a
    # a + (-1)*a
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ta is tb:
        return mul(const(ca + cb), ta)
    if a.id > b.id:
        a, b = b, a
    return _mk("add", (a, b), (a.id, b.id))


def _coef(a):
    if a.op == "mul" and a.args[0].op == "const":
        return a.args[0].args, a.args[1]
    return Fraction(1), a


def mul(a, b):
    if a.op == "const" and b.op == "const":
        return const(a.args * b.args)
    if b.op == "const":
        a, b = b, a
    if a.op == "const":
        if a.args == 0:
            return ZERO
        if a.args == 1:
            return b
        c, t = _coef(b)
        if c != 1:
            return mul(const(a.args * c), t)
        if b.op == "const":
            return const(a.args * b.args)
        return _mk("mul", (a, b), (a.id, b.id))
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(const(ca * cb), mul(ta, tb))
    if a.id > b.id:
        a, b = b, a
    if a is b:
        return power(a, 2)
    return _mk("mul", (a, b), (a.id, b.id))


def div(a, b):
    if b.op == "const":
        if b.args == 0:
            raise ZeroDivisionError("division by zero")
        return mul(const(1 / b.args), a)
    if a is ZERO:
        return ZERO
    if a is b:
        return ONE
    ca, ta = _coef(a)
    cb, tb = _coef(b)
    if ca != 1 or cb != 1:
        return mul(const(ca / cb), div(ta, tb))
    if a.op == "const" and a.args != 1:
        return mul(a, div(ONE, b))
    return _mk("div", (a, b), (a.id, b.id))


def neg(a):
    return mul(MONE, a)


def power(a, n):
    """integer power"""
    if n == 0:
        return ONE
    if n == 1:
        return a
    if a.op == "const":
        if n < 0 and a.args == 0:
            raise ZeroDivisionError
        return const(a.args ** n)
    if n < 0:
        return div(ONE, power(a, -n))
    c, t = _coef(a)
    if c != 1:
        return mul(const(c ** n), power(t, n))
    if a.op == "pow":
        return power(a.args[0], a.args[1] * n)
    if a.op == "root" and n % a.args[1] == 0:
        return power(a.args[0], n // a.args[1])
    return _mk("pow", (a, n), (a.id, n))


def _iroot(n, q):
    if n < 0:
        return None
    r = round(n ** (1.0 / q)) if n < 1 << 900 else None
    if r is None:
        return None
    for k in (r - 1, r, r + 1):
        if k >= 0 and k ** q == n:
            return k
    return None


def root(a, q):
    """principal q-th root; the caller guarantees a >= 0"""
    if q == 1:
        return a
    if a.op == "const":
        p, d = _iroot(a.args.numerator, q), _iroot(a.args.denominator, q)
        if p is not None and d is not None:
            return const(Fraction(p, d))
    return _mk("root", (a, q), (a.id, q))


def fn(name, *args):
    return _mk("fn", (name,) + args, (name,) + tuple(x.id for x in args))


def children(n):
    if n.op in ("add", "mul", "div"):
        return n.args
    if n.op in ("pow", "root"):
        return (n.args[0],)
    if n.op == "fn":
        return n.args[1:]
    return ()


def free_atoms(n):
    """set of leaf variables (var nodes) under n; pi is not counted"""
    if n.atoms is not None:
        return n.atoms
    stack = [n]
    while stack:
        x = stack[-1]
        if x.atoms is not None:
            stack.pop()
            continue
        ch = children(x)
        todo = [c for c in ch if c.atoms is None]
        if todo:
            stack.extend(todo)
            continue
        if x.op == "var":
            x.atoms = frozenset((x,))
        elif ch:
            s = frozenset()
            for c in ch:
                s = s | c.atoms
            x.atoms = s
        else:
            x.atoms = frozenset()
        stack.pop()
    return n.atoms


def show(n, depth=6):
    if n.op == "const":
        return str(n.args)
    if n.op == "var":
        return n.args[0]
    if n.op == "pi":
        return "pi"
    if depth == 0:
        return "..."
    if n.op == "add":
        return "(%s + %s)" % tuple(show(x, depth - 1) for x in n.args)
    if n.op == "mul":
        return "%s*%s" % tuple(show(x, depth - 1) for x in n.args)
    if n.op == "div":
        return "%s/(%s)" % tuple(show(x, depth - 1) for x in n.args)
    if n.op == "pow":
        return "(%s)^%d" % (show(n.args[0], depth - 1), n.args[1])
    if n.op == "root":
        return "root%d(%s)" % (n.args[1], show(n.args[0], depth - 1))
    return "%s(%s)" % (n.args[0], ", ".join(show(x, depth - 1) for x in n.args[1:]))


# ---------------------------------------------------------------- intervals
_ivgen = [0]
_bounds = {}          # var node -> (lo, hi) floats
INF = float("inf")


def reset_bounds():
    _bounds.clear()
    _ivgen[0] += 1


def set_bounds(node, lo, hi):
    old = _bounds.get(node, (-INF, INF))
    new = (max(old[0], lo), min(old[1], hi))
    if new != old:
        _bounds[node] = new
        _ivgen[0] += 1


def _dn(x):
    return _math.nextafter(x, -INF) if x == x else -INF


def _up(x):
    return _math.nextafter(x, INF) if x == x else INF


def _q2f(q):
    try:
        f = q.numerator / q.denominator
    except OverflowError:
        return (-INF, INF)
    return (f, f) if Fraction(f) == q else (_dn(f), _up(f))


def _ivmul(a, b):
    ps = []
    for x in a:
        for y in b:
            p = x * y
            if p != p:          # 0*inf
                p = 0.0
            ps.append(p)
    return (_dn(min(ps)) if min(ps) != 0 else 0.0 if _exact0(a, b, min(ps)) else _dn(0.0),
            _up(max(ps)) if max(ps) != 0 else 0.0 if _exact0(a, b, max(ps)) else _up(0.0))


def _exact0(a, b, p):
    # zero product is exact when an endpoint is exactly zero (no underflow)
    return any(x == 0.0 for x in a + b)


def interval(n):
    """sound float enclosure of the value of n under the declared bounds"""
    gen = _ivgen[0]
    if n._ivgen == gen:
        return n._iv
    stack = [n]
    while stack:
        x = stack[-1]
        if x._ivgen == gen:
            stack.pop()
            continue
        todo = [c for c in children(x) if c._ivgen != gen]
        if todo:
            stack.extend(todo)
            continue
        x._iv = _iv1(x)
        x._ivgen = gen
        stack.pop()
    return n._iv


def _iv1(n):
    op = n.op
    if op == "const":
        return _q2f(n.args)
    if op == "var":
        return _bounds.get(n, (-INF, INF))
    if op == "pi":
        return (3.141592653589793, 3.1415926535897936)
    if op == "add":
        a, b = n.args[0]._iv, n.args[1]._iv
        lo, hi = a[0] + b[0], a[1] + b[1]
        lo = lo if (a[0] == 0 or b[0] == 0) else _dn(lo)
        hi = hi if (a[1] == 0 or b[1] == 0) else _up(hi)
        if lo != lo:
            lo = -INF
        if hi != hi:
            hi = INF
        return (lo, hi)
    if op == "mul":
        return _ivmul(n.args[0]._iv, n.args[1]._iv)
    if op == "div":
        a, b = n.args[0]._iv, n.args[1]._iv
        if b[0] > 0 or b[1] < 0:
            inv = (_dn(1 / b[1]) if b[1] not in (INF, -INF) else 0.0,
                   _up(1 / b[0]) if b[0] not in (INF, -INF) else 0.0)
            if b[0] > 0:
                inv = (max(inv[0], 0.0), inv[1])
            return _ivmul(a, inv)
        if b[0] == 0 and b[1] > 0:      # positive denominators (value != 0 assumed)
            lo = 0.0 if a[0] >= 0 else -INF
            hi = 0.0 if a[1] <= 0 else INF
            return (lo, hi)
        return (-INF, INF)
    if op == "pow":
        a, k = n.args[0]._iv, n.args[1]
        try:
            p, q = a[0] ** k, a[1] ** k
        except OverflowError:
            return (0.0 if k % 2 == 0 or a[0] >= 0 else -INF, INF)
        if k % 2 == 0:
            if a[0] <= 0 <= a[1]:
                return (0.0, _up(max(p, q)))
            return (max(0.0, _dn(min(p, q))), _up(max(p, q)))
        lo = 0.0 if p == 0 else _dn(p)
        hi = 0.0 if q == 0 else _up(q)
        return (lo, hi)
    if op == "root":
        a, k = n.args[0]._iv, n.args[1]
        lo = 0.0 if a[0] <= 0 else (a[0] ** (1.0 / k) * (1 - 1e-14) if a[0] < INF else INF)
        hi = 0.0 if a[1] <= 0 else (a[1] ** (1.0 / k) * (1 + 1e-14) if a[1] < INF else INF)
        return (lo, hi)
    if op == "fn":
        name = n.args[0]
        if name in ("sin", "cos"):
            a, b = n.args[1]._iv
            if -1.57 < a and b < 1.57:
                u, v = (_math.sin(a), _math.sin(b)) if name == "sin" else (min(_math.cos(a), _math.cos(b)), 1.0 if a <= 0 <= b else max(_math.cos(a), _math.cos(b)))
                return (max(-1.0, u - 1e-12), min(1.0, v + 1e-12))
            return (-1.0, 1.0)
        if name in ("exp", "rpow"):
            return (0.0, INF)
        if name == "abs":
            a = n.args[1]._iv
            if a[0] >= 0:
                return a
            if a[1] <= 0:
                return (-a[1], -a[0])
            return (0.0, max(-a[0], a[1]))
        if name == "log":
            a = n.args[1]._iv
            lo = _math.log(a[0]) if a[0] > 0 else -INF
            hi = (_math.log(a[1]) if a[1] < INF else INF) if a[1] > 0 else INF
            return (lo - 1e-12 * abs(lo) - 1e-15 if lo > -INF else lo, hi + 1e-12 * abs(hi) + 1e-15 if hi < INF else hi)
        if name in ("floor", "ceil", "round"):
            a = n.args[1]._iv
            h = 1 if name != "round" else 0.5 * 10.0 ** -int(n.args[2].args) + 1e-12
            return (a[0] - h, a[1] + h)
        return (-INF, INF)
    raise AssertionError(op)


# ---------------------------------------------------------------- polynomials
class TooBig(Exception):
    pass


LIMIT = 60000
_atoms = []            # atom index -> Node  (var, pi, root, fn)
_atomidx = {}          # key -> index
_atomarg = {}          # root atom index -> Rat of its argument


def _atom(key, node):
    i = _atomidx.get(key)
    if i is None:
        i = len(_atoms)
        _atoms.append(node)
        _atomidx[key] = i
    return i


def p_const(q):
    return {(): q} if q else {}


def p_add(a, b):
    if len(a) < len(b):
        a, b = b, a
    r = dict(a)
    for m, c in b.items():
        s = r.get(m, 0) + c
        if s:
            r[m] = s
        else:
            del r[m]
    return r


def p_scale(a, k):
    if k == 0:
        return {}
    if k == 1:
        return a
    return {m: c * k for m, c in a.items()}


def m_mul(a, b):
    if not a:
        return b
    if not b:
        return a
    i = j = 0
    out = []
    la, lb = len(a), len(b)
    while i < la and j < lb:
        x, y = a[i], b[j]
        if x[0] == y[0]:
            out.append((x[0], x[1] + y[1]))
            i += 1
            j += 1
        elif x[0] < y[0]:
            out.append(x)
            i += 1
        else:
            out.append(y)
            j += 1
    out.extend(a[i:])
    out.extend(b[j:])
    return tuple(out)


def p_mul(a, b):
    if len(a) * len(b) > 40 * LIMIT:
        raise TooBig
    r = {}
    for m1, c1 in a.items():
        for m2, c2 in b.items():
            m = m_mul(m1, m2)
            s = r.get(m, 0) + c1 * c2
            if s:
                r[m] = s
            elif m in r:
                del r[m]
        if len(r) > LIMIT:
            raise TooBig
    return r


def p_pow(a, n):
    r = {(): Fraction(1)}
    base = a
    while n:
        if n & 1:
            r = p_mul(r, base)
        n >>= 1
        if n:
            base = p_mul(base, base)
    return r


def p_key(a):
    return frozenset(a.items())


class Rat:
    """num / prod(f^e): num a polynomial, the f canonical (monic) polynomials"""
    __slots__ = ("num", "den")

    def __init__(self, num, den=None):
        self.num = num
        self.den = den or {}


_factors = {}


def _factor_id(poly):
    k = p_key(poly)
    if k not in _factors:
        _factors[k] = poly
    return k


def _lead(p):
    return min(p.keys())


def _split_den(p):
    """p -> (scale, {factorkey: exp}): p == scale * prod; monomial content split off"""
    # monomial content
    it = iter(p.keys())
    first = dict(next(it))
    for m in it:
        if not first:
            break
        d = dict(m)
        for a in list(first):
            e = d.get(a, 0)
            if e == 0:
                del first[a]
            elif e < first[a]:
                first[a] = e
    den = {}
    if first:
        q = {}
        for m, c in p.items():
            nm = tuple((a, e - first.get(a, 0)) for a, e in m if e - first.get(a, 0) > 0)
            q[nm] = c
        for a, e in first.items():
            den[_factor_id({((a, 1),): Fraction(1)})] = e
        p = q
    lc = p[_lead(p)]
    if len(p) == 1 and () in p:
        return lc, den
    if lc != 1:
        p = {m: c / lc for m, c in p.items()}
    f = _factor_id(p)
    den[f] = den.get(f, 0) + 1
    return lc, den


def r_add(a, b):
    if not a.num:
        return b
    if not b.num:
        return a
    if a.den == b.den:
        return _cancel(Rat(p_add(a.num, b.num), a.den))
    den = dict(a.den)
    for f, e in b.den.items():
        if den.get(f, 0) < e:
            den[f] = e
    na, nb = a.num, b.num
    for f, e in den.items():
        ka = e - a.den.get(f, 0)
        if ka:
            na = p_mul(na, p_pow(_factors[f], ka))
        kb = e - b.den.get(f, 0)
        if kb:
            nb = p_mul(nb, p_pow(_factors[f], kb))
    return _cancel(Rat(p_add(na, nb), den))


def p_divexact(num, f, limit=4000):
    """num / f when f divides num exactly, else None (lexicographic leading-term division)"""
    atoms = sorted({a for m in f for a, _ in m})
    if not atoms:
        return None
    allat = sorted({a for m in num for a, _ in m} | set(atoms))
    if len(num) * len(f) > 40000:
        return None
    order = atoms + [a for a in allat if a not in set(atoms)]
    pos = {a: i for i, a in enumerate(order)}
    n = len(order)

    def vec(m):
        v = [0] * n
        for a, e in m:
            v[pos[a]] = e
        return tuple(v)
    N = {vec(m): c for m, c in num.items()}
    F = {vec(m): c for m, c in f.items()}
    lf = max(F)
    tf = min(F)
    # leading and trailing monomials must divide
    ln, tn = max(N), min(N)
    if any(a < b for a, b in zip(ln, lf)) or any(a < b for a, b in zip(tn, tf)):
        return None
    cf = F[lf]
    Q = {}
    steps = 0
    import heapq
    heap = [tuple(-x for x in v) for v in N]
    heapq.heapify(heap)
    while N:
        while True:
            v = tuple(-x for x in heapq.heappop(heap))
            if v in N:
                break
        q = tuple(a - b for a, b in zip(v, lf))
        if min(q) < 0:
            return None
        k = N[v] / cf
        Q[q] = k
        steps += 1
        if steps > limit:
            return None
        for m, c in F.items():
            t = tuple(a + b for a, b in zip(q, m))
            old = N.get(t)
            s = (old or 0) - k * c
            if s:
                N[t] = s
                if old is None:
                    heapq.heappush(heap, tuple(-x for x in t))
            elif old is not None:
                del N[t]
    return {tuple(sorted((order[i], e) for i, e in enumerate(v) if e)): c for v, c in Q.items()}


def _cancel(r):
    r = _cancel1(r)
    if r.den and r.num:
        for f, e in list(r.den.items()):
            poly = _factors[f]
            if len(poly) < 2 or len(r.num) < len(poly):
                continue
            while e:
                q = p_divexact(r.num, poly)
                if q is None:
                    break
                den = dict(r.den)
                e -= 1
                if e:
                    den[f] = e
                else:
                    del den[f]
                r = Rat(q, den)
    return r


def _cancel1(r):
    if not r.num:
        return Rat({}, {})
    if not r.den:
        return r
    # cancel monomial factors
    den = None
    for f, e in r.den.items():
        poly = _factors[f]
        if len(poly) == 1:
            (m,) = poly
            a = m[0][0]
            k = min(dict(mm).get(a, 0) for mm in r.num)
            k = min(k, e)
            if k:
                if den is None:
                    den = dict(r.den)
                if e == k:
                    del den[f]
                else:
                    den[f] = e - k
                r = Rat({tuple((x, (y - k if x == a else y)) for x, y in mm if not (x == a and y == k)): c
                         for mm, c in r.num.items()}, den)
        elif len(r.num) == len(poly):
            # proportional to the factor?
            lm = _lead(poly)
            lc = r.num.get(lm)
            if lc is not None and all(r.num.get(mm) == lc * c for mm, c in poly.items()):
                den = dict(den if den is not None else r.den)
                if den[f] == 1:
                    del den[f]
                else:
                    den[f] -= 1
                r = Rat({(): lc}, den)
                return r
    return r


def r_mul(a, b):
    if not a.num or not b.num:
        return Rat({}, {})
    den = dict(a.den)
    for f, e in b.den.items():
        den[f] = den.get(f, 0) + e
    return _cancel(Rat(p_mul(a.num, b.num), den))


def r_inv(a):
    if not a.num:
        raise ZeroDivisionError
    sc, den = _split_den(a.num)
    num = {(): 1 / sc}
    for f, e in a.den.items():
        k = den.get(f, 0)
        if k:
            m = min(k, e)
            if k == m:
                del den[f]
            else:
                den[f] = k - m
            e -= m
        if e:
            num = p_mul(num, p_pow(_factors[f], e))
    return _cancel(Rat(num, den))


def r_const(q):
    return Rat(p_const(Fraction(q)))


def rat(n):
    if n._rat is not None:
        return n._rat
    stack = [n]
    while stack:
        x = stack[-1]
        if x._rat is not None:
            stack.pop()
            continue
        todo = [c for c in children(x) if c._rat is None]
        if todo:
            stack.extend(todo)
            continue
        x._rat = _rat1(x)
        stack.pop()
    return n._rat


def _mono(i):
    return Rat({((i, 1),): Fraction(1)})


def _rat1(n):
    op = n.op
    if op == "const":
        return r_const(n.args)
    if op in ("var", "pi"):
        return _mono(_atom((op, n.id), n))
    if op == "add":
        return reduce_roots(r_add(n.args[0]._rat, n.args[1]._rat))
    if op == "mul":
        return reduce_roots(r_mul(n.args[0]._rat, n.args[1]._rat))
    if op == "div":
        return reduce_roots(r_mul(n.args[0]._rat, r_inv(n.args[1]._rat)))
    if op == "pow":
        b = n.args[0]._rat
        return reduce_roots(Rat(p_pow(b.num, n.args[1]), {f: e * n.args[1] for f, e in b.den.items()}))
    if op == "root":
        return _root_rat(n.args[0]._rat, n.args[1], n)
    if op == "fn":
        ks = tuple((p_key(c._rat.num), frozenset(c._rat.den.items())) for c in n.args[1:])
        return _mono(_atom(("fn", n.args[0], ks), n))
    raise AssertionError


def _nonneg_atom(i):
    nd = _atoms[i]
    if nd.op == "root" or nd.op == "pi":
        return True
    return interval(nd)[0] >= 0


def _root_rat(r, q, node):
    """q-th root of a Rat: pull out constants and nonnegative monomials"""
    if not r.num:
        return r_const(0)
    # common monomial of numerator
    outn = {}
    num = r.num
    it = iter(num)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(common):
            common[a] = min(common[a], d.get(a, 0))
    pull = {a: e // q for a, e in common.items() if e >= q and _nonneg_atom(a)}
    if pull:
        num = {tuple((a, e - q * pull.get(a, 0)) for a, e in m if e - q * pull.get(a, 0) > 0): c
               for m, c in num.items()}
    den = dict(r.den)
    pulld = {}
    for f, e in list(den.items()):
        poly = _factors[f]
        if e >= q and len(poly) == 1:
            (m,) = poly
            a = m[0][0]
            if _nonneg_atom(a):
                pulld[f] = e // q
                e -= q * (e // q)
                if e:
                    den[f] = e
                else:
                    del den[f]
    # constant content: make leading coefficient 1 and put its root outside when rational
    lc = abs(num[_lead(num)])
    p, d = _iroot(lc.numerator, q), _iroot(lc.denominator, q)
    sc = Fraction(1)
    if p is not None and d is not None:
        sc = Fraction(p, d)
        num = {m: c / lc for m, c in num.items()}
    if len(num) == 1 and () in num and not den and num[()] == 1:
        res = r_const(sc)
    else:
        key = ("root", q, p_key(num), frozenset(den.items()))
        new = key not in _atomidx
        i = _atom(key, node)
        if new:
            _atomarg[i] = (q, Rat(num, den))
        res = Rat({((i, 1),): sc})
    for a, e in pull.items():
        res = r_mul(res, Rat({((a, e),): Fraction(1)}))
    for f, e in pulld.items():
        res = r_mul(res, Rat({(): Fraction(1)}, {f: e}))
    return res


def reduce_roots(r):
    """replace root atoms to powers >= q, cos^2 -> 1 - sin^2; also in denominators"""
    for _ in range(200):
        # denominator atoms that are roots: multiply through 1/s = s^(q-1)/arg
        hit = None
        for f, e in r.den.items():
            poly = _factors[f]
            if len(poly) == 1:
                (m,) = poly
                a = m[0][0]
                if a in _atomarg:
                    hit = (f, e, a)
                    break
        if hit:
            f, e, a = hit
            q, arg = _atomarg[a]
            den = dict(r.den)
            del den[f]
            # 1/s^e = s^(q*k - e) / arg^k , k = ceil(e/q)
            k = -(-e // q)
            base = Rat(p_mul(r.num, {((a, q * k - e),): Fraction(1)} if q * k - e else {(): Fraction(1)}), den)
            ia = r_inv(arg)
            for _k in range(k):
                base = r_mul(base, ia)
            r = base
            continue
        best = None
        for m in r.num:
            for a, e in m:
                if a in _atomarg and e >= _atomarg[a][0]:
                    if best is None or a > best:
                        best = a
        if best is not None:
            q, arg = _atomarg[best]
            groups = {}
            for m, c in r.num.items():
                e = 0
                rest = []
                for x, y in m:
                    if x == best:
                        e = y
                    else:
                        rest.append((x, y))
                k, rem = divmod(e, q)
                if rem:
                    rest.append((best, rem))
                    rest.sort()
                groups.setdefault(k, {})[tuple(rest)] = c
            total = Rat({}, {})
            pw = r_const(1)
            cur = 0
            for k in sorted(groups):
                while cur < k:
                    pw = r_mul(pw, arg)
                    cur += 1
                total = r_add(total, r_mul(Rat(groups[k]), pw))
            r = r_mul(total, Rat({(): Fraction(1)}, dict(r.den)))
            continue
        best = None
        for m in r.num:
            for a, e in m:
                if e >= 2 and _atoms[a].op == "fn" and _atoms[a].args[0] == "cos":
                    best = a
                    break
            if best is not None:
                break
        if best is not None:
            arg = _atoms[best].args[1]
            s = rat(fn("sin", arg))
            one_minus = r_add(r_const(1), r_mul(r_const(-1), r_mul(s, s)))
            total = Rat({}, {})
            for m, c in r.num.items():
                e = dict(m).get(best, 0)
                k, rem = divmod(e, 2)
                rest = [(x, y) for x, y in m if x != best]
                if rem:
                    rest.append((best, 1))
                    rest.sort()
                t = Rat({tuple(rest): c})
                for _k in range(k):
                    t = r_mul(t, one_minus)
                total = r_add(total, t)
            r = r_mul(total, Rat({(): Fraction(1)}, dict(r.den)))
            continue
        return r
    return r


def nf_zero(node):
    """True: node is identically 0 by normal form; False: normal form non-zero; None: gave up"""
    try:
        r = rat(node)
    except (TooBig, ZeroDivisionError, RecursionError):
        return None
    return not r.num


def nf_const(node):
    """Fraction if the normal form is a constant, else None"""
    try:
        r = rat(node)
    except (TooBig, ZeroDivisionError, RecursionError):
        return None
    if not r.num:
        return Fraction(0)
    if not r.den and len(r.num) == 1 and () in r.num:
        return r.num[()]
    return None


def poly_node(p):
    """Node of a polynomial"""
    tot = ZERO
    for m, c in sorted(p.items(), key=lambda t: t[0]):
        x = const(c)
        for a, e in m:
            x = mul(x, power(_atoms[a], e))
        tot = add(tot, x)
    return tot


def bernstein_min(num, cap=6000):
    """lower bound of a polynomial over the box of its atoms' intervals (its smallest Bernstein coefficient), or None"""
    atoms = sorted({a for m in num for a, e in m})
    deg = [max(dict(m).get(a, 0) for m in num) for a in atoms]
    size = 1
    for d in deg:
        size *= d + 1
    if size > cap or not atoms:
        return None
    box = []
    for a in atoms:
        lo, hi = interval(_atoms[a])
        if not (-1e30 < lo and hi < 1e30):
            return None
        box.append((Fraction(lo), Fraction(hi) - Fraction(lo)))
    t = {}
    for m, c in num.items():
        d = dict(m)
        t[tuple(d.get(a, 0) for a in atoms)] = c
    for i, d in enumerate(deg):
        lo, w = box[i]
        rows = {}
        for k, c in t.items():
            rows.setdefault(k[:i] + k[i + 1:], {})[k[i]] = c
        t = {}
        for k, r in rows.items():
            sh = [Fraction(0)] * (d + 1)             # in u, a = lo + w u
            for e, c in r.items():
                for j in range(e + 1):
                    sh[j] += c * _math.comb(e, j) * lo ** (e - j) * w ** j
            for j in range(d + 1):
                t[k[:i] + (j,) + k[i:]] = sum((Fraction(_math.comb(j, q), _math.comb(d, q)) * sh[q] for q in range(j + 1) if sh[q]), Fraction(0))
    return min(t.values())


def bernstein_false(b, limit=400):
    """the comparison fails everywhere in the box of its atoms"""
    global LIMIT
    if b.op == "and":
        return bernstein_false(b.args[0], limit) or bernstein_false(b.args[1], limit)
    if b.op not in ("<", "<="):
        return False
    lim, LIMIT = LIMIT, limit
    try:
        r = rat(b.args[0])
    except (TooBig, ZeroDivisionError, RecursionError):
        return False
    finally:
        LIMIT = lim
    if r.den or not r.num:
        return False
    m = bernstein_min(r.num)
    return m is not None and (m >= 0 if b.op == "<" else m > 0)


def simp_cmp(op, node, sign_of, limit=400):
    """B equivalent to (node op 0) without division: the sign of every denominator factor and of the monomial
    content is established by sign_of(node) -> 1 / -1 / None; returns None when that fails"""
    global LIMIT
    lim, LIMIT = LIMIT, limit
    try:
        r = rat(node)
    except (TooBig, ZeroDivisionError, RecursionError):
        return None
    finally:
        LIMIT = lim
    if len(r.num) > limit:
        return None
    if not r.num:
        return TRUE if op != "<" else FALSE
    sg = 1
    if op != "=":
        for f, e in r.den.items():
            if e % 2:
                s = sign_of(poly_node(_factors[f]))
                if s is None:
                    return None
                sg *= s
    num = r.num
    it = iter(num)
    common = dict(next(it))
    for m in it:
        d = dict(m)
        for a in list(common):
            k = min(common[a], d.get(a, 0))
            if k:
                common[a] = k
            else:
                del common[a]
    for a in list(common):
        s = sign_of(_atoms[a])
        if s is None:
            del common[a]
        elif s < 0 and common[a] % 2:
            sg = -sg
    if common:
        num = {tuple((a, e - common.get(a, 0)) for a, e in m if e != common.get(a, 0)): c for m, c in num.items()}
    nd = poly_node(num)
    return b_cmp(op, nd if sg > 0 else neg(nd))


# ---------------------------------------------------------------- formulas
class B:
    """formula: ('cmp', op, node) meaning node op 0, op in < <= = ; or and/or/not/true/false"""
    __slots__ = ("op", "args", "key")
    _tab = {}

    def __new__(cls, op, args, key):
        k = (op,) + key
        b = cls._tab.get(k)
        if b is None:
            b = object.__new__(cls)
            b.op = op
            b.args = args
            b.key = k
            cls._tab[k] = b
        return b

    def __bool__(self):
        if self.op == "true":
            return True
        if self.op == "false":
            return False
        if ENGINE is None:
            raise Unsupported("truth value of a symbolic condition outside a path")
        return ENGINE.decide(self)

    def __and__(self, o):
        return b_and(self, to_b(o))

    __rand__ = __and__

    def __or__(self, o):
        return b_or(self, to_b(o))

    __ror__ = __or__

    def __invert__(self):
        return b_not(self)

    def __repr__(self):
        if self.op in ("<", "<=", "="):
            return "%s %s 0" % (show(self.args[0]), self.op)
        if self.op == "not":
            return "not(%r)" % (self.args[0],)
        if self.op in ("and", "or"):
            return "(%r %s %r)" % (self.args[0], self.op, self.args[1])
        return self.op

    def __hash__(self):
        return hash(self.key)

    def __eq__(self, o):
        if o is True or o is False:
            return bool(self) is o
        return self is o

    def __xor__(self, o):
        return bool(self) ^ bool(o)

    __rxor__ = __xor__

    def __index__(self):
        return int(bool(self))

    # bool-like arithmetic (int(cond), sum of conditions)
    def __add__(self, o):
        return int(bool(self)) + o

    __radd__ = __add__

    def __mul__(self, o):
        return int(bool(self)) * o

    __rmul__ = __mul__

    def __deepcopy__(self, memo):
        return self

    def __copy__(self):
        return self


TRUE = B("true", (), ())
FALSE = B("false", (), ())


def to_b(x):
    if isinstance(x, B):
        return x
    return TRUE if x else FALSE


def b_not(a):
    if a is TRUE:
        return FALSE
    if a is FALSE:
        return TRUE
    if a.op == "not":
        return a.args[0]
    if a.op == "<":                       # not x<0  ==  -x<=0
        return b_cmp("<=", neg(a.args[0]))
    if a.op == "<=":
        return b_cmp("<", neg(a.args[0]))
    return B("not", (a,), (a.key,))


def b_and(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE:
        return b
    if b is TRUE:
        return a
    return B("and", (a, b), (a.key, b.key))


def b_or(a, b):
    if a is TRUE or b is TRUE:
        return TRUE
    if a is FALSE:
        return b
    if b is FALSE:
        return a
    return B("or", (a, b), (a.key, b.key))


def b_cmp(op, node):
    """node op 0"""
    if node.op == "const":
        v = node.args
        r = v < 0 if op == "<" else v <= 0 if op == "<=" else v == 0
        return TRUE if r else FALSE
    if op == "=":
        c, t = _coef(node)
        node = t
    else:
        c, t = _coef(node)
        node = t if c > 0 else mul(MONE, t)
    return B(op, (node,), (node.id,))


def b_atoms(b):
    if b.op in ("<", "<=", "="):
        return free_atoms(b.args[0])
    s = frozenset()
    for a in b.args:
        s = s | b_atoms(a)
    return s


def b_interval(b):
    """True/False if decided by intervals, else None"""
    if b is TRUE:
        return True
    if b is FALSE:
        return False
    if b.op in ("<", "<=", "="):
        lo, hi = interval(b.args[0])
        if b.op == "<":
            if hi < 0:
                return True
            if lo >= 0:
                return False
        elif b.op == "<=":
            if hi <= 0:
                return True
            if lo > 0:
                return False
        else:
            if lo > 0 or hi < 0:
                return False
            if lo == 0 == hi:
                return True
        return None
    if b.op == "not":
        r = b_interval(b.args[0])
        return None if r is None else not r
    x, y = b_interval(b.args[0]), b_interval(b.args[1])
    if b.op == "and":
        if x is False or y is False:
            return False
        if x and y:
            return True
    else:
        if x or y:
            return True
        if x is False and y is False:
            return False
    return None


# ---------------------------------------------------------------- R
def frac(x):
    """exact rational meaning given to a concrete number (decimal reading of floats)"""
    if isinstance(x, bool):
        return Fraction(int(x))
    if isinstance(x, int):
        return Fraction(x)
    if isinstance(x, Fraction):
        return x
    f = float(x)
    if f != f or f in (INF, -INF):
        raise Unsupported("non-finite float in arithmetic")
    return Fraction(repr(f))


class R:
    """symbolic (or exact rational) real number; is_int marks Python-int semantics"""
    __slots__ = ("n", "is_int")
    __array_priority__ = 1000

    def __init__(self, n, is_int=False):
        self.n = n
        self.is_int = is_int

    # -- helpers
    @staticmethod
    def of(x):
        if isinstance(x, R):
            return x
        if isinstance(x, bool):
            return R(const(int(x)), True)
        if isinstance(x, int):
            return R(const(x), True)
        if isinstance(x, Fraction):
            return R(const(x))
        if isinstance(x, float):
            return R(const(frac(x)))
        if isinstance(x, B):
            return R(const(int(bool(x))), True)
        t = type(x).__module__
        if t == "numpy" and not hasattr(x, "__len__"):
            import numpy as np
            if isinstance(x, (np.integer, np.bool_)):
                return R(const(int(x)), True)
            if isinstance(x, np.floating):
                return R(const(frac(float(x))))
        return None

    @property
    def is_const(self):
        return self.n.op == "const"

    @property
    def value(self):
        return self.n.args

    def _bin(self, o, f, rev=False, div=False):
        if isinstance(o, float) and (o != o or o in (INF, -INF)):
            return _inf_arith(self, o, f, rev)
        o2 = R.of(o)
        if o2 is None:
            if hasattr(o, "reshape"):
                from . import npshim
                return npshim.vec(lambda y: R.of(y)._bin(self, f, not rev, div))(o)
            return NotImplemented
        a, b = (o2, self) if rev else (self, o2)
        return R(f(a.n, b.n), a.is_int and b.is_int and not div)

    def __add__(self, o):
        return self._bin(o, add)

    def __radd__(self, o):
        return self._bin(o, add, True)

    def __sub__(self, o):
        return self._bin(o, lambda a, b: add(a, neg(b)))

    def __rsub__(self, o):
        return self._bin(o, lambda a, b: add(a, neg(b)), True)

    def __mul__(self, o):
        if isinstance(o, (str, list, tuple)) and self.is_int:
            return self.__index__() * o
        return self._bin(o, mul)

    def __rmul__(self, o):
        if isinstance(o, (str, list, tuple)) and self.is_int:
            return self.__index__() * o
        return self._bin(o, mul, True)

    def __truediv__(self, o):
        return self._bin(o, _div, div=True)

    def __rtruediv__(self, o):
        return self._bin(o, _div, True, div=True)

    def __floordiv__(self, o):
        o = R.of(o)
        if o is None:
            return NotImplemented
        q = R(_div(self.n, o.n))
        r = floor_(q)
        return R(R.of(r).n, self.is_int and o.is_int)

    def __rfloordiv__(self, o):
        o = R.of(o)
        return NotImplemented if o is None else o // self

    def __mod__(self, o):
        o2 = R.of(o)
        if o2 is None:
            return NotImplemented
        return self - o2 * (self // o2)

    def __rmod__(self, o):
        o2 = R.of(o)
        return NotImplemented if o2 is None else o2 % self

    def __neg__(self):
        return R(neg(self.n), self.is_int)

    def __pos__(self):
        return self

    def __abs__(self):
        lo, hi = interval(self.n)
        if lo >= 0:
            return self
        if hi <= 0:
            return -self
        if self.is_const:
            return R(const(abs(self.value)), self.is_int)
        return self if self >= 0 else -self

    def __pow__(self, e, mod=None):
        return rpow(self, e)

    def __rpow__(self, b):
        b = R.of(b)
        return NotImplemented if b is None else rpow(b, self)

    # -- comparisons
    def _cmp(self, o, kind):
        if isinstance(o, float) and (o != o or o in (INF, -INF)):
            if o != o:
                return FALSE if kind != "!=" else TRUE
            big = o > 0
            return to_b({"<": big, "<=": big, ">": not big, ">=": not big, "==": False, "!=": True}[kind])
        o2 = R.of(o)
        if o2 is None:
            if hasattr(o, "__array__") and getattr(o, "ndim", 0):
                from . import npshim
                a = npshim.asobj(o)
                r = {"<": a.__gt__, "<=": a.__ge__, ">": a.__lt__, ">=": a.__le__, "==": a.__eq__, "!=": a.__ne__}[kind](self)
                if o.dtype == object:
                    return r
                # a plain numpy array cannot be indexed by symbolic conditions: decide them here
                import numpy as np
                return np.array([bool(x) for x in r.reshape(-1)], dtype=bool).reshape(r.shape)
            if kind == "==":
                return False
            if kind == "!=":
                return True
            return NotImplemented
        d = add(self.n, neg(o2.n))
        if kind == "<":
            return _b(b_cmp("<", d))
        if kind == "<=":
            return _b(b_cmp("<=", d))
        if kind == ">":
            return _b(b_cmp("<", neg(d)))
        if kind == ">=":
            return _b(b_cmp("<=", neg(d)))
        if kind == "==":
            return _b(b_cmp("=", d))
        return _b(b_not(b_cmp("=", d)))

    def __lt__(self, o):
        return self._cmp(o, "<")

    def __le__(self, o):
        return self._cmp(o, "<=")

    def __gt__(self, o):
        return self._cmp(o, ">")

    def __ge__(self, o):
        return self._cmp(o, ">=")

    def __eq__(self, o):
        return self._cmp(o, "==")

    def __ne__(self, o):
        return self._cmp(o, "!=")

    def __hash__(self):
        if self.n.op == "const":
            return hash(self.value)
        if ENGINE is not None:
            v = ENGINE.known_value(self.n)
            if v is not None:
                return hash(v)
        if ENGINE is not None and not ENGINE.allow_hash:
            raise Unsupported("hash of a symbolic number (dictionary or set key)")
        return hash(("R", self.n.id))

    def __bool__(self):
        return bool(self != 0)

    def __index__(self):
        if self.is_const and self.value.denominator == 1 and self.is_int:
            return int(self.value)
        if self.is_const:
            raise TypeError("'float' object cannot be interpreted as an integer")
        if self.is_int:
            raise Unsupported("symbolic integer used as an index")
        raise TypeError("'float' object cannot be interpreted as an integer")

    def __int__(self):
        if self.is_const:
            return int(self.value)
        raise Unsupported("int() of a symbolic number")

    def __float__(self):
        if self.is_const:
            return float(self.value)
        raise Unsupported("float() of a symbolic number by C code")

    def __trunc__(self):
        return trunc_(self)

    def __floor__(self):
        return floor_(self)

    def __ceil__(self):
        return ceil_(self)

    def __round__(self, nd=None):
        return round_(self, nd)

    def is_integer(self):
        if self.is_const:
            return self.value.denominator == 1
        return floor_(self) == self

    @property
    def real(self):
        return self

    @property
    def imag(self):
        return R(ZERO)

    def conjugate(self):
        return self

    def item(self):
        return self

    def tolist(self):
        return self

    def __format__(self, spec):
        if self.is_const:
            try:
                return format(float(self.value), spec)
            except Exception:
                return str(float(self.value))
        return "<" + show(self.n, 2) + ">"

    def __str__(self):
        if self.is_const:
            return str(int(self.value)) if self.is_int else str(float(self.value))
        return "<" + show(self.n, 3) + ">"

    def __repr__(self):
        return self.__str__()

    def __copy__(self):
        return self

    def __deepcopy__(self, memo):
        return self

    # numpy object-array ufunc hooks (np.sqrt on object arrays etc.)
    def sqrt(self):
        return sqrt_(self)

    def sin(self):
        return sin_(self)

    def cos(self):
        return cos_(self)

    def arctan(self):
        return R(fn("atan", self.n))


def _b(b):
    """simplify trivially decided comparisons to bool-like B"""
    return b


def _inf_arith(a, o, f, rev):
    if o != o:
        return o
    raise Unsupported("arithmetic with infinity/nan")


def need_nonzero(node, msg="division by zero"):
    if node.op == "const":
        if node.args == 0:
            raise ZeroDivisionError(msg)
        return
    lo, hi = interval(node)
    if lo > 0 or hi < 0:
        return
    if ENGINE is not None and ENGINE.decide(b_cmp("=", node)):
        raise ZeroDivisionError(msg)


def _div(a, b):
    need_nonzero(b)
    return div(a, b)


def need_nonneg(node, what):
    if node.op == "const":
        if node.args < 0:
            raise ValueError("math domain error: " + what)
        return
    lo, hi = interval(node)
    if lo >= 0:
        return
    if ENGINE is not None and ENGINE.decide(b_cmp("<", node)):
        raise ValueError("math domain error: " + what)


def sqrt_(x):
    x = R.of(x)
    need_nonneg(x.n, "sqrt")
    return R(_simproot(x.n, 2))


def _simproot(n, q):
    if n.op == "pow" and n.args[1] % q == 0:
        base = n.args[0]
        k = n.args[1] // q
        lo, hi = interval(base)
        if lo >= 0:
            return power(base, k)
        if q % 2 == 0:
            if k % 2 == 0:
                return power(base, k)
            if hi <= 0:
                return power(neg(base), k)
            if ENGINE is not None:
                if ENGINE.decide(b_cmp("<", base)):
                    return power(neg(base), k)
                return power(base, k)
    return root(n, q)


def rpow(b, e):
    b = R.of(b)
    e0 = R.of(e)
    if e0 is None:
        return NotImplemented
    e = e0
    if e.is_const:
        q = e.value
        if q.denominator == 1:
            k = int(q)
            if k < 0:
                need_nonzero(b.n, "0.0 cannot be raised to a negative power")
            return R(power(b.n, k), b.is_int and e.is_int and k >= 0)
        # fractional exponent
        if b.is_const and b.value == 0:
            if q < 0:
                raise ZeroDivisionError
            return R(ZERO)
        lo, hi = interval(b.n)
        if lo < 0:
            if b.is_const:
                raise Unsupported("fractional power of a negative number (complex)")
            if ENGINE is not None and ENGINE.decide(b_cmp("<", b.n)):
                raise Unsupported("fractional power of a negative number (complex)")
        if q < 0:
            need_nonzero(b.n)
        if q.denominator <= 12:
            r = _simproot(b.n, q.denominator)
            k = q.numerator
            return R(power(r, k) if k >= 0 else div(ONE, power(r, -k)))
        return R(cfn("rpow", b.n, e.n))
    lo, hi = interval(b.n)
    if not lo > 0:
        if ENGINE is None or ENGINE.decide(b_cmp("<=", b.n)):
            raise Unsupported("power with symbolic exponent and non-positive base")
    return R(cfn("rpow", b.n, e.n))


def _trig_const(x):
    """x == pi * q for small rational q -> q, else None"""
    n = x.n
    if n is ZERO:
        return Fraction(0)
    c, t = _coef(n)
    if t is PI:
        return c
    return None


_SQ2 = None


def _sinq(q):
    """sin(pi*q) exact for multiples of 1/12 that have simple values"""
    q = q % 2
    s2 = R(root(const(2), 2))
    s3 = R(root(const(3), 2))
    tab = {Fraction(0): R(ZERO), Fraction(1, 6): R(const(Fraction(1, 2))), Fraction(1, 4): s2 / 2,
           Fraction(1, 3): s3 / 2, Fraction(1, 2): R(ONE)}
    if q > 1:
        r = _sinq(q - 1)
        return None if r is None else -r
    if q > Fraction(1, 2):
        q = 1 - q
    return tab.get(q)


def cfn(name, *args):
    """the function term, or the first one made with arguments of the same normal form"""
    n = fn(name, *args)
    try:
        r = rat(n)
    except (TooBig, ZeroDivisionError, RecursionError):
        return n
    (m,) = r.num
    return _atoms[m[0][0]]


def sin_(x):
    x = R.of(x)
    q = _trig_const(x)
    if q is not None:
        r = _sinq(q)
        if r is not None:
            return r
    r = _arc_simplify("sin", x)
    if r is not None:
        return r
    c, t = _coef(x.n)
    if c < 0:
        return -R(cfn("sin", neg(x.n)))
    return R(cfn("sin", x.n))


def cos_(x):
    x = R.of(x)
    q = _trig_const(x)
    if q is not None:
        r = _sinq(q + Fraction(1, 2))
        if r is not None:
            return r
    r = _arc_simplify("cos", x)
    if r is not None:
        return r
    c, t = _coef(x.n)
    if c < 0:
        return R(cfn("cos", neg(x.n)))
    return R(cfn("cos", x.n))


def _arc_simplify(f, x):
    """sin/cos of atan/acos/asin terms, also of pi or pi/2 plus or minus one of them"""
    n = x.n
    if n.op != "fn":
        seen, stack, arcs, k = set(), [n], [], 0
        while stack and k < 40:
            m = stack.pop()
            k += 1
            if m.id in seen:
                continue
            seen.add(m.id)
            if m.op == "fn":
                if m.args[0] in ("atan", "acos", "asin"):
                    arcs.append(m)
                continue
            if m.op in ("add", "mul", "div"):
                stack.extend(children(m))
        if len(arcs) != 1 or stack:
            return None
        u = R(arcs[0])
        for sg in (1, -1):
            for h in (0, 2, 1, -1, -2):
                if nf_zero((x - sg * u - h * R(PI) / 2).n):
                    su, cu = _arc_simplify("sin", u) * sg, _arc_simplify("cos", u)
                    q = h % 4
                    if f == "sin":
                        return (su, cu, -su, -cu)[q]
                    return (cu, -su, -cu, su)[q]
        return None
    if n.args[0] == "atan":
        t = R(n.args[1])
        h = sqrt_(1 + t * t)
        return t / h if f == "sin" else 1 / h
    if n.args[0] == "acos":
        t = R(n.args[1])
        return t if f == "cos" else sqrt_(1 - t * t)
    if n.args[0] == "asin":
        t = R(n.args[1])
        return t if f == "sin" else sqrt_(1 - t * t)
    return None


def tan_(x):
    x = R.of(x)
    if x.n.op == "fn" and x.n.args[0] == "atan":
        return R(x.n.args[1])
    s, c = sin_(x), cos_(x)
    return s / c


def atan_(x):
    x = R.of(x)
    if x.n is ZERO:
        return R(ZERO)
    if x.n is ONE:
        return R(div(PI, const(4)))
    return R(fn("atan", x.n))


def acos_(x):
    x = R.of(x)
    if x.is_const:
        t = {1: R(ZERO), 0: R(div(PI, const(2))), -1: R(PI)}.get(x.value)
        if t is not None:
            return t
    if not (abs(x) <= 1):
        raise ValueError("math domain error: acos")
    return R(fn("acos", x.n))


def asin_(x):
    x = R.of(x)
    if not (abs(x) <= 1):
        raise ValueError("math domain error: asin")
    return R(fn("asin", x.n))


def exp_(x):
    x = R.of(x)
    if x.n is ZERO:
        return R(ONE)
    if x.n.op == "fn" and x.n.args[0] == "log":
        return R(x.n.args[1])
    return R(cfn("exp", x.n))


def log_(x, base=None):
    if base is not None:
        return log_(x) / log_(base)
    x = R.of(x)
    if x.n is ONE:
        return R(ZERO)
    lo, hi = interval(x.n)
    if not lo > 0:
        if x.is_const or ENGINE is None or ENGINE.decide(b_cmp("<=", x.n)):
            raise ValueError("math domain error: log")
    if x.n.op == "fn" and x.n.args[0] == "exp":
        return R(x.n.args[1])
    return R(cfn("log", x.n))


def log10_(x):
    return log_(x) / log_(R(const(10)))


def floor_(x):
    x = R.of(x)
    if x.is_const:
        return _math.floor(x.value)
    if x.is_int:
        return x
    return R(fn("floor", x.n), True)


def ceil_(x):
    x = R.of(x)
    if x.is_const:
        return _math.ceil(x.value)
    if x.is_int:
        return x
    return R(neg(fn("floor", neg(x.n))), True)


def trunc_(x):
    x = R.of(x)
    if x.is_const:
        return _math.trunc(x.value)
    if x.is_int:
        return x
    if x >= 0:
        return floor_(x)
    return ceil_(x)


def round_(x, nd=None):
    x0 = R.of(x)
    if x0 is None:
        return round(x, nd) if nd is not None else round(x)
    if x0.is_const:
        if nd is None:
            return round(x0.value)
        return R(const(round(x0.value, int(nd))))
    if x0.is_int and (nd is None or nd >= 0):
        return x0
    k = 0 if nd is None else int(nd)
    return R(fn("round", x0.n, const(k)), nd is None)
