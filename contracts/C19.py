"""C19: convex-linear and moving-asymptote approximations, finite-difference gradients, approximated problems."""
from types import SimpleNamespace as NS

F = "metku.optimization.opt_functions"
P = "metku.optimization.structopt"
V = "metku.optimization.variables"
CON = "metku.optimization.constraints"
M = "metku.optimization.solvers.mma"
B = "up to three variables"


def vec(c, tag, n, lo, hi):
    return [c.real("%s%d" % (tag, i), lo, hi) for i in range(n)]


def conlin_rest(xk, d, x):
    """what the approximation adds to the tangent"""
    return sum(0 if di >= 0 else -di * (xi - ki) * (xi - ki) / xi for ki, di, xi in zip(xk, d, x))


def mma_rest(xk, d, L, U, x):
    return sum(di * (xi - ki) * (xi - ki) / (u - xi) if di >= 0 else -di * (xi - ki) * (xi - ki) / (xi - l)
               for ki, di, xi, l, u in zip(xk, d, x, L, U))


def tangent(fk, d, xk, x):
    return fk + sum(di * (xi - ki) for di, xi, ki in zip(d, x, xk))


# The approximation is the tangent plus a remainder that is zero at the expansion point together with its derivative
# and non-negative everywhere between the asymptotes: so value and gradient agree, and the function lies above its
# tangent. Both facts are read off the closed form of the remainder below, for which the code is proved equal.

@harness()
def conlin_of_one_variable(c):
    xk, fk, d, x = c.real("xk", 0.1, 100), c.real("fk", -100, 100), c.real("slope", -50, 50), c.real("x", 0.1, 100)
    g = c.mod(F).conlin_fun(c.array([xk]), fk, c.array([d]))
    for i in range(2):
        got = g(c.array([x]))
        c.eq("tangent and remainder", got, tangent(fk, [d], [xk], [x]) + conlin_rest([xk], [d], [x]), scale=1e6)
        c.le("above its tangent", tangent(fk, [d], [xk], [x]) - 1e-6, got)
        c.eq("value at the expansion point", g(c.array([xk])), fk, scale=1e3)
        x = c.real("second x", 0.1, 100)


@harness()
def conlin_is_convex(c):
    xk, d = c.real("xk", 0.1, 100), c.real("slope", -50, 50)
    a, b, t = c.real("a", 0.1, 100), c.real("b", 0.1, 100), c.real("t", 0, 1)
    g = c.mod(F).conlin_fun(c.array([xk]), 0, c.array([d]))
    m = a + t * (b - a)
    # a, b, m > 0: multiply the convexity inequality by a b m
    ga, gb, gm = g(c.array([a])), g(c.array([b])), g(c.array([m]))
    gap = (ga + t * (gb - ga)) - gm
    c.eq("gap to the chord", gap, 0 if d >= 0 else -d * xk * xk * t * (1 - t) * (a - b) * (a - b) / (a * b * m), scale=1e8)


@harness(bounded=B)
def conlin_of_several(c):
    n = c.choice("variables", [2, 3])
    xk, fk, d, x = vec(c, "xk", n, 0.1, 100), c.real("fk", -100, 100), vec(c, "slope", n, -50, 50), vec(c, "x", n, 0.1, 100)
    g = c.mod(F).conlin_fun(c.array(xk), fk, c.array(d))
    for i in range(2):
        c.eq("tangent and remainder", g(c.array(x)), tangent(fk, d, xk, x) + conlin_rest(xk, d, x), scale=1e6)
        c.eq("value at the expansion point", g(c.array(xk)), fk, scale=1e3)


def mma_data(c, n):
    xk, L, U, x = [], [], [], []
    for i in range(n):
        l, w = c.real("L%d" % i, -50, 50), c.real("range %d" % i, 1, 50)
        L.append(l)
        U.append(l + w)
        xk.append(l + w * c.real("place of xk%d" % i, 0.05, 0.95))
        x.append(l + w * c.real("place of x%d" % i, 0.05, 0.95))
    return xk, L, U, x


def mma(n, bounded):
    @harness(name="mma_of_%d" % n, **({"bounded": bounded} if bounded else {}))
    def _(c):
        xk, L, U, x = mma_data(c, n)
        fk, d = c.real("fk", -100, 100), vec(c, "slope", n, -50, 50)
        m = c.mod(F)
        f = m.MMAFunction if c.choice("class", [True, False]) else m.mma_fun
        g = f(c.array(xk), fk, c.array(d), c.array(L), c.array(U))
        c.eq("tangent and remainder", g(c.array(x)), tangent(fk, d, xk, x) + mma_rest(xk, d, L, U, x), scale=1e6)
        c.eq("value at the expansion point", g(c.array(xk)), fk, scale=1e4)
        c.le("above its tangent", tangent(fk, d, xk, x) - 1e-6, g(c.array(x))) if n == 1 else None
        if f is m.MMAFunction:
            want = [di * (u - k) * (u - k) / ((u - y) * (u - y)) if di >= 0 else di * (k - l) * (k - l) / ((y - l) * (y - l))
                    for di, k, l, u, y in zip(d, xk, L, U, x)]
            c.eq("gradient", list(g.grad(c.array(x))), want, scale=1e5)
            c.eq("gradient at the expansion point", list(g.grad(c.array(xk))), d, scale=1e3)


mma(1, None)
mma(2, B)
mma(3, B)


@harness()
def mma_is_convex(c):
    """the gap to the chord between two points, in closed form: a sum of products of non-negative factors"""
    xk, L, U, _ = mma_data(c, 1)
    xk, l, u = xk[0], L[0], U[0]
    d = c.real("slope", -50, 50)
    a, b, t = l + (u - l) * c.real("a", 0.05, 0.95), l + (u - l) * c.real("b", 0.05, 0.95), c.real("t", 0, 1)
    g = c.mod(F).mma_fun(c.array([xk]), 0, c.array([d]), c.array([l]), c.array([u]))
    m = a + t * (b - a)
    ga, gb, gm = [g(c.array([y])) for y in (a, b, m)]
    k = d * (u - xk) * (u - xk) / ((u - a) * (u - b) * (u - m)) if d >= 0 else -d * (xk - l) * (xk - l) / ((a - l) * (b - l) * (m - l))
    c.eq("gap to the chord", (ga + t * (gb - ga)) - gm, k * t * (1 - t) * (a - b) * (a - b), scale=1e8)


@harness()
def numbers_instead_of_arrays(c):
    """functions of one variable may be given by numbers"""
    m = c.mod(F)
    k, x = c.choice("xk", [1, 2.5, 7]), c.choice("x", [1, 3.5])
    fk, d = c.choice("fk", [0, -3.5]), c.choice("slope", [2.0, -4.0])
    c.eq("conlin", m.conlin_fun(k, fk, d)(x), m.conlin_fun(c.array([k]), fk, c.array([d]))(c.array([x])))
    c.eq("mma", m.mma_fun(k, fk, d, -1.0, 9.0)(x), m.mma_fun(c.array([k]), fk, c.array([d]), c.array([-1.0]), c.array([9.0]))(c.array([x])))


def grads(n, bounded):
    @harness(name="gradients_of_%d" % n, **({"bounded": bounded} if bounded else {}))
    def _(c):
        """exact for linear functions, off by curvature times the step otherwise"""
        m = c.mod(F)
        a, q, b, x = vec(c, "a", n, -10, 10), vec(c, "q", n, -10, 10), c.real("b", -10, 10), vec(c, "x", n, -100, 100)
        as_list = c.choice("list", [True, False])
        X = list(x) if as_list else c.array(x)
        got = m.NumGrad(lambda y: b + sum(ai * yi for ai, yi in zip(a, y)), X)
        c.eq("linear", list(got), a, tol=1e-3, scale=10)
        c.eq("the point is kept", list(X), x)
        got = m.NumGrad(lambda y: sum(qi * yi * yi for qi, yi in zip(q, y)), X)
        for g, qi, xi in zip(got, q, x):
            c.le("quadratic", abs(g - 2 * qi * xi), abs(qi) * c.max(1e-6 * abs(xi), 1e-8) + (0 if c.symbolic else 2e-2))


grads(1, None)
grads(2, B)


@harness(bounded=B)
def linearisation_of_a_function(c):
    m = c.mod(F)
    n = c.choice("variables", [1, 2])
    a, b, x = vec(c, "a", n, -10, 10), c.real("b", -10, 10), vec(c, "x", n, -100, 100)
    f = lambda y: b + sum(ai * yi for ai, yi in zip(a, y))
    given = c.choice("gradient given", [True, False])
    A, v, w = m.Linearize(f, c.array(x), grad=(lambda y: c.array(a)) if given else None)
    c.eq("gradient", list(A), a, tol=1e-3, scale=10)
    c.eq("value", v, f(x), scale=1e3)
    c.eq("gradient times point", w, sum(ai * xi for ai, xi in zip(a, x)), tol=1e-3, scale=1e3)


@harness(bounded=B)
def potentially_active(c):
    m = c.mod(F)
    n = c.choice("constraints", [1, 2, 3])
    cons = []
    for i in range(n):
        k = NS(type=c.choice("type %d" % i, ["<", ">", "="]), g=c.real("g%d" % i, -1, 1))
        cons.append(type("C", (), {"type": k.type, "g": k.g, "__call__": lambda s, x: s.g})())
    got = m.potentially_active_constraints(NS(cons=cons), [0])
    c.same("those not far inside", [k in got for k in cons],
           [True if k.type == "=" else bool(k.g > -0.25) if k.type == "<" else bool(k.g < 0.25) for k in cons])


# ------------------------------------------------------------------ approximated problems

def original(c, lock=None, positive=True, sub=False):
    """two or three variables, a linear and a non-linear constraint that reads the design from the structure"""
    m, k = c.mod(V), c.mod(CON)
    n = 2 if lock is None else 3
    parts = [NS(A=0.0) for _ in range(n)]
    vs = [m.Variable("v%d" % i, 0.05 if positive else -100, 100, target={"property": "A", "objects": [o]}) for i, o in enumerate(parts)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    # the middle of the range, where the move limits of the sub-problem are those of the asymptotes
    x = vec(c, "xk", n, 10, 30) if sub else vec(c, "xk", n, 0.1, 90)
    for v in vs:
        v.substitute(1.0)
    if lock is not None:
        vs[lock].lock(x[lock])
    s = c.choice("sign", [-1, 1])
    signed = lambda tag, s: [s * (-1) ** i * x for i, x in enumerate(vec(c, tag, n, 0.01, 10))]
    D = NS(a=vec(c, "a", n, -10, 10), b=c.real("b", -10, 10), q=signed("q", s), r=signed("r", -s), n=n,
           free=[i for i in range(n) if i != lock], full=x, parts=parts, vs=vs)
    p.add(k.LinearConstraint(D.a, D.b, "<" if s > 0 else ">"))
    p.add(k.NonLinearConstraint(lambda y: sum(qi * o.A for qi, o in zip(D.q, parts)), "<"))
    p.add(c.mod("metku.optimization.objective").ObjectiveFunction("f", lambda y: sum(ri * yi for ri, yi in zip(D.r, y))))
    return p, D


def dot(a, b):
    return sum(x * y for x, y in zip(a, b))


def approximated(kind):
    @harness(name="%s_problem" % kind, bounded=B, samples=40)
    def _(c):
        lock = c.choice("locked", [None, 0, 2] if kind == "conlin" else [None, 0])
        p, D = original(c, lock, sub=kind == "mma_sub")
        x = [D.full[i] for i in D.free]
        y = vec(c, "y", len(D.free), 0.1, 90)
        bounds = [(v.lb, v.ub) for v in p.vars]
        if kind == "conlin":
            Q, rest = p.conlin(c.array(x)), lambda d: conlin_rest(x, d, y)
        else:
            L, U = [-10] * len(x), ([40] if kind == "mma_sub" else [200]) * len(x)
            rest = lambda d: mma_rest(x, d, L, U, y)
            if kind == "mma":
                Q = p.mma(c.array(x), c.array(U), c.array(L), mu=0.1)
            else:
                Q = c.mod(M).MMAProblem(p, c.array(x), c.array(U), c.array(L))
        c.same("a variable for each unlocked one", [v.name for v in Q.vars], [D.vs[i].name for i in D.free])
        c.eq("at the expansion point", [v.value for v in Q.vars], x)
        for (lb, ub), v, xi in zip(bounds, Q.vars, x):
            if kind == "conlin":
                c.eq("same bounds", [v.lb, v.ub], [lb, ub])
            else:
                c.le("not below the bound", lb, v.lb)
                c.le("not above the bound", v.ub, ub)
                c.le("contains the point", v.lb, xi)
                c.le("contains the point from above", xi, v.ub)
                c.lt("inside the lower asymptote", -10, v.lb)
                c.lt("inside the upper asymptote", v.ub, U[0])
        # the functions of the approximation (constraints as callables of the new problem, which substitutes)
        y = [v.lb + (yi / 90) * (v.ub - v.lb) for yi, v in zip(y, Q.vars)] if kind != "conlin" else y
        if kind != "conlin":
            rest = lambda d: mma_rest(x, d, L, U, y)
        Y = list(D.full)
        for i, yi in zip(D.free, y):
            Y[i] = yi
        d = [D.r[i] for i in D.free]
        e = dict(tol=1e-4, scale=1e5)
        c.eq("objective", Q.obj(c.array(y)), dot(D.r, D.full) + dot(d, [a - b for a, b in zip(y, x)]) + rest(d), **e)
        lin, non = Q.cons
        Q.substitute_variables(y)
        c.eq("the linear constraint stays", lin(y), dot(D.a, Y) - D.b, scale=1e4)
        d = [D.q[i] for i in D.free]
        c.eq("the approximated one", non.con(c.array(y)), dot(D.q, D.full) + dot(d, [a - b for a, b in zip(y, x)]) + rest(d), **e)
        c.same("types", [k.type for k in Q.cons], [k.type for k in p.cons])
        # the original problem is as it was
        c.same("the original keeps its constraints", [k.problem is p for k in p.cons], [True, True])
        z = vec(c, "z", len(D.free), 0.1, 90)
        Z = list(D.full)
        for i, zi in zip(D.free, z):
            Z[i] = zi
        p.substitute_variables(z)
        c.eq("its constraints keep their values", [k(z) for k in p.cons], [dot(D.a, Z) - D.b, dot(D.q, Z)], scale=1e4)
        c.eq("and its objective", p.obj(z), dot(D.r, Z), scale=1e4)


for _k in ("conlin", "mma", "mma_sub"):
    approximated(_k)


@harness()
def move_limits(c):
    """the sub-problem's bounds lie inside the asymptotes and the variable's bounds, and contain the point"""
    lb, w = c.real("lb", -50, 50), c.real("range", 1, 50)
    v = c.mod(V).Variable("v", lb, lb + w)
    x = lb + w * c.real("place", 0, 1)
    L, U = x - c.real("to the lower asymptote", 0.1, 100), x + c.real("to the upper asymptote", 0.1, 100)
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    p.obj, p.grad = (lambda y: 0.0), (lambda y: c.array([1.0]))
    sub = c.choice("sub-problem", [True, False])
    Q = c.mod(M).MMAProblem(p, c.array([x]), c.array([U]), c.array([L])) if sub else p.mma(c.array([x]), c.array([U]), c.array([L]))
    q = Q.vars[0]
    e = 0 if c.symbolic else 1e-9
    c.lt("lower asymptote", L, q.lb)
    c.lt("upper asymptote", q.ub, U)
    c.le("lower bound", lb, q.lb)
    c.le("upper bound", q.ub, lb + w)
    c.le("contains the point", q.lb, x + e)
    c.le("contains the point from above", x, q.ub + e)


@harness()
def asymptotes(c):
    """they move apart or together by the last steps, and always enclose the iterate"""
    m = c.mod(M)
    lb, w = c.real("lb", -50, 50), c.real("range", 1, 50)
    n = c.choice("iterates", [1, 2, 3])
    xs = [lb + w * c.real("place %d" % i, 0, 1) for i in range(n)]
    s = m.MMA()
    s.xvals = [c.array([x]) for x in xs]
    s.problem = c.mod(P).OptimizationProblem("p", variables=[c.mod(V).Variable("v", lb, lb + w)])
    s.problem.obj, s.problem.grad = (lambda y: 0.0), (lambda y: c.array([1.0]))
    asked = []
    m.SLSQP = lambda: NS(solve=lambda Q, x0=None, **k: asked.append((Q, x0)) or (0.0, x0))
    x, dl, du = xs[-1], None, None
    if n == 3:
        dl, du = c.real("last lower", 0.1, 100), c.real("last upper", 0.1, 100)
        s.L, s.U = [c.array([xs[1] - dl])], [c.array([xs[1] + du])]
    s.take_action()
    L, U = s.L[-1][0], s.U[-1][0]
    e = 0 if c.symbolic else 1e-9
    c.lt("below the iterate", L, x)
    c.lt("above the iterate", x, U)
    c.le("not too far below", x - 10 * w, L + e)
    c.le("not too far above", U, x + 10 * w + e)
    if n < 3:
        c.eq("half the range at first", [x - L, U - x], [w / 2, w / 2], scale=100)
    else:
        prod = (xs[2] - xs[1]) * (xs[1] - xs[0])
        g = 0.7 if prod < -1e-6 else 1.2 if prod > 1e-6 else 1
        c.eq("lower", x - L, c.max(c.min(g * dl, 10 * w), 0.1 * w), scale=100)
        c.eq("upper", U - x, c.max(c.min(g * du, 10 * w), 0.01 * w), scale=100)
    c.eq("sub-problem at the iterate", list(asked[0][1]), [x])
