"""C24: solvers solve the problem they are given and report the best feasible design they visited."""
import math
from types import SimpleNamespace as NS

V = "metku.optimization.variables"
P = "metku.optimization.structopt"
CON = "metku.optimization.constraints"
OBJ = "metku.optimization.objective"
S = "metku.optimization.solvers."
TYPES = ["<", ">", "="]


def black_box(c, name, x, lo, hi):
    """any function of the design"""
    if c.symbolic:
        return c.uf(name, *x, lo=lo, hi=hi)
    w = math.sin(sum(ord(k) for k in name) + sum((i + 1.7) * round(float(y), 6) for i, y in enumerate(x))) * 43758.5453
    return lo + (hi - lo) * (w - math.floor(w))


class Part:
    A = None


def problem(c, n, types=(), lo=-50, hi=50, f=None, g=None):
    """n variables within [lo, hi], a black-box objective and a black-box constraint of each type"""
    parts = [Part() for _ in range(n)]
    vs = [c.mod(V).Variable("v%d" % i, lo, hi, target={"property": "A", "objects": [o]}) for i, o in enumerate(parts)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    p.parts = parts
    f = f or (lambda x: black_box(c, "f", x, -1e3, 1e3))
    p.add(c.mod(OBJ).ObjectiveFunction("f", f))
    for i, t in enumerate(types):
        h = (lambda x, i=i: black_box(c, "g%d" % i, x, -10, 10)) if g is None else (lambda x, i=i: g(i, x))
        p.add(c.mod(CON).NonLinearConstraint(h, t))
    return p


def holds(t, g, tol=1e-4):
    return bool(g <= tol) if t == "<" else bool(g >= -tol) if t == ">" else bool(-tol <= g) and bool(g <= tol)


def clip(x, lo, hi):
    return lo if bool(x < lo) else hi if bool(x > hi) else x


def walker(c, actions, base="optsolver.OptSolver", *args, **kw):
    """solver whose subproblems have any solutions"""
    mod, cls = base.split(".")
    K = getattr(c.mod(S + mod), cls)
    W = type("W", (K,), dict(take_action=lambda self: actions.pop(0)))
    w = W(*args, **kw)
    w.step_length, w.step_factor = 1.0, 0.1
    return w


@harness(max_paths=8000, budget=600)
def best_feasible_design(c):
    """one iteration from any incumbent: the incumbent changes exactly when the starting point or the new design is feasible
    and better"""
    types = c.choice("constraints", [[], ["<"], [">"], ["="]])
    p = problem(c, 1, types)
    a, x0 = c.real("action", -200, 200), c.real("x0", -50, 50)
    w = walker(c, [c.array([a])])
    best = None
    if c.choice("incumbent", [True, False]):
        best = w.best_f, w.best_x = c.real("best f", -1e3, 1e3), [c.real("best x", -50, 50)]
    w.stopping_criterion = lambda *a, **k: False
    f, x = w.solve(p, x0=[x0], maxiter=1, log=False)
    x1 = clip(x0 + a, -50, 50)
    for y in (x0, x1):
        if all(holds(t, k([y])) for t, k in zip(types, p.cons)):
            fy = p.obj([y])
            if best is None or bool(fy < best[0]):
                best = fy, [y]
    p.substitute_variables([x1])
    if best:
        c.eq("value", f, best[0], scale=1e3)
        c.eq("design", list(x), best[1], scale=1e2)
    else:
        c.eq("no feasible design: value", f, p.obj([x1]), scale=1e3)
        c.eq("no feasible design: the last", list(x), [x1], scale=1e2)


@harness()
def best_of_several_iterations(c):
    """the best design of all those visited stays the incumbent when the solver moves on to worse ones"""
    p = problem(c, 1)
    x = [c.real("x0", -5, 5)]
    acts = [c.real("a%d" % i, -20, 20) for i in range(2)]
    w = walker(c, [c.array([a]) for a in acts])
    w.stopping_criterion = lambda *a, **k: False
    f, got = w.solve(p, x0=[x[0]], maxiter=2, log=False)
    x += [x[0] + acts[0], x[0] + acts[0] + acts[1]]
    best = None
    for y in x:
        if best is None or bool(p.obj([y]) < best[0]):
            best = p.obj([y]), y
    c.eq("value", f, best[0], scale=1e3)
    c.eq("design", list(got), [best[1]], scale=1e2)


@harness()
def history(c):
    """what is logged are the designs visited and their values, not what became of the arrays later; the given starting
    point is left alone"""
    p = problem(c, 1, ["<"])
    acts = [c.real("a%d" % i, -20, 20) for i in range(2)]
    x0 = c.real("x0", -10, 10)
    given = c.array([x0]) if c.choice("array", [True, False]) else [x0]
    base = c.choice("steps", ["optsolver.OptSolver", "mislp.MISLP"])
    w = walker(c, [c.array([a]) for a in acts], base)
    w.stopping_criterion = lambda *a, **k: False
    if base == "mislp.MISLP":
        for a in acts:
            c.assume(a == 0)        # its subproblems stay within the bounds
    w.solve(p, x0=given, maxiter=2)
    c.eq("the given point", given[0], x0, scale=1e2)
    x = [x0]
    for a in acts:
        x.append(clip(x[-1] + a, -50, 50))
    c.same("designs", len(w.xvals), 3)
    c.same("problem's", [len(y) for y in (w.fvals, p.states, p.fvals, p.gvals)] + [p.num_iters], [3, 2, 2, 2, 2])
    for i in range(3):
        c.eq("design %d" % i, w.xvals[i][0], x[i], scale=1e2)
        c.eq("value %d" % i, w.fvals[i], p.obj([x[i]]), scale=1e3)
        if i:
            c.eq("state %d" % i, list(p.states[i - 1]), [x[i]], scale=1e2)
            c.eq("state's value %d" % i, p.fvals[i - 1], p.obj([x[i]]), scale=1e3)
            c.eq("constraint %d" % i, list(p.gvals[i - 1]), [p.cons[0]([x[i]])], scale=1e2)


@harness()
def stops(c):
    """exactly when the design is feasible and either criterion says so"""
    p = problem(c, 1, ["<"])
    acts = [c.real("a%d" % i, -20, 20) for i in range(2)]
    w = walker(c, [c.array([a]) for a in acts])
    says = {k: c.choice(k, [False, True]) for k in "xf"}
    w.best_f, w.best_x = -2e3, [0]        # no news
    count, asked = [], []
    w.stopping_criterion = lambda kind="x", **k: asked.append((kind, [y if kind == "f" else y[0] for y in k[kind]])) or says[kind]
    real = w.step
    w.step = lambda a: count.append(1) or real(a)
    x0 = c.real("x0", -10, 10)
    w.solve(p, x0=[x0], maxiter=2, log=False)
    x1 = clip(x0 + acts[0], -50, 50)
    ok = holds("<", p.cons[0]([x1]))
    want = 1 if ok and (says["x"] or says["f"]) else 2
    c.same("iterations", len(count), want)
    c.eq("last design", list(w.X), [x1 if want == 1 else clip(x1 + acts[1], -50, 50)], scale=1e2)
    for kind, k in asked[:2] if ok else []:
        c.eq("compared by " + kind, k, [p.obj([x0]), p.obj([x1])] if kind == "f" else [x0, x1], scale=1e3)


@harness()
def stopping_criteria(c):
    w = c.mod(S + "optsolver").OptSolver()
    x = [c.array([c.real("x%d%d" % (i, j), -50, 50) for j in range(2)]) for i in range(2)]
    d, n = [c.sqrt(a * a + b * b) for a, b in ([x[1][0] - x[0][0], x[1][1] - x[0][1]], x[0])]
    tol = c.real("tol", 1e-9, 1)
    c.same("change of the design", bool(w.stopping_criterion("x", x=x, xtol=tol)), bool(d < tol * n))
    f = [c.real("f%d" % i, -1e3, 1e3) for i in range(2)]
    rel, ab = c.real("rel", 0, 1), c.real("abs", 0, 1)
    c.same("change of the objective", bool(w.stopping_criterion("f", f=f, abs_f_tol=ab, rel_f_tol=rel)),
           bool(abs(f[1] - f[0]) <= ab + rel * abs(f[0])))


@harness()
def feasibility_of_solvers(c):
    """any constraints, each within the problem's tolerance"""
    types = [c.choice("type %d" % i, TYPES) for i in range(c.choice("constraints", [0, 1, 2]))]
    p = problem(c, 1, types)
    p.con_tol = c.real("tolerance", 0, 1)
    w = c.mod(S + "optsolver").OptSolver()
    w.problem = p
    x = [c.real("x", -50, 50)]
    g = [k(x) for k in p.cons]
    if c.choice("of the current design", [True, False]):
        w.X = x
        w.calc_constraints()
        got = w.is_feasible()
    else:
        got = w.is_feasible(x)
    c.same("feasible", bool(got), all(holds(t, k, p.con_tol) for t, k in zip(types, g)))
    c.eq("values", list(w.constr_vals), g)


@harness()
def start_without_a_point(c):
    """a solver that is given no starting point begins from a random one"""
    p = problem(c, 1)
    a, x0 = c.real("action", -200, 200), c.real("x0", -50, 50)
    w = walker(c, [c.array([a])])
    w.random_feasible_point = lambda: c.array([x0])
    w.stopping_criterion = lambda *a, **k: False
    w.solve(p, maxiter=1)
    x1 = clip(x0 + a, -50, 50)
    c.eq("design", list(w.X), [x1], scale=1e2)
    c.eq("start", list(w.xvals[0]), [x0], scale=1e2)
    c.eq("its value", w.fvals[0], p.obj([x0]), scale=1e3)


@harness()
def steps(c):
    """designs after a step lie within the bounds; move limits, penalties and step lengths change by their factor"""
    kind = c.choice("solver", ["optsolver.OptSolver", "slp.SLP", "mislp.MISLP", "mma.MMA"])
    p = problem(c, 2)
    x = [c.real("x%d" % i, -50, 50) for i in range(2)]
    a = [c.real("a%d" % i, -200, 200) for i in range(2)]
    w = walker(c, [], kind)
    w.problem, w.X = p, c.array(x)
    g = c.real("gamma", 0, 1)
    if kind in ("slp.SLP", "mislp.MISLP"):
        w.gamma = g
        old = list(w.move_limits)
    if kind == "mislp.MISLP":
        for i in range(2):
            c.assume(abs(x[i] + a[i]) <= 50)
        beta = w.beta
    C = getattr(w, "C", None)
    w.step_factor = g
    got = w.step(c.array([x[i] + a[i] for i in range(2)] if kind == "mma.MMA" else a))
    c.same("goes on", bool(got[2]), False)
    want = [clip(x[i] + a[i], -50, 50) for i in range(2)]
    if kind != "mma.MMA":
        c.eq("design", list(got[0]), want, scale=1e2)
    if kind in ("optsolver.OptSolver", "slp.SLP", "mma.MMA"):
        c.eq("structure", [o.A for o in p.parts], want, scale=1e2)
    if kind in ("slp.SLP", "mislp.MISLP"):
        c.eq("move limits", list(w.move_limits), [m * (1 - g) for m in old])
        c.eq("in the history", list(w.move_limits_hist[-1]), [m * (1 - g) for m in old])
        c.eq("the history before", list(w.move_limits_hist[0]), old)
    if kind == "slp.SLP":
        c.eq("penalty", w.C, C * (1 + g))
    if kind == "mislp.MISLP":
        c.eq("feasibility variable", w.beta, beta * (1 - g))
    if kind == "optsolver.OptSolver":
        c.eq("step length", w.step_length, 1 - g)


# ------------------------------------------------------------------ linear programs
class Lin:
    """linear expression of the variables of a linear program"""
    __array_ufunc__ = None

    def __init__(self, terms=(), const=0):
        self.terms, self.const = dict(terms), const

    @staticmethod
    def of(x):
        return x if isinstance(x, Lin) else Lin((), x)

    def __add__(self, o):
        o = Lin.of(o)
        t = dict(self.terms)
        for k, v in o.terms.items():
            t[k] = t[k] + v if k in t else v
        return Lin(t, self.const + o.const)
    __radd__ = __add__

    def __mul__(self, k):
        return Lin({v: k * q for v, q in self.terms.items()}, self.const * k)
    __rmul__ = __mul__

    def __truediv__(self, k):
        return self * (1 / k)

    def __neg__(self):
        return self * -1

    def __sub__(self, o):
        return self + -Lin.of(o)

    def __rsub__(self, o):
        return Lin.of(o) + -self

    def __le__(self, o):
        return ("<", self - o)

    def __ge__(self, o):
        return (">", self - o)

    def __eq__(self, o):
        return ("=", self - o)
    __hash__ = None

    def at(self, y):
        return self.const + sum(q * y[k] for k, q in self.terms.items())


class Program:
    """the assumed contract of the LP solver: it finds an admissible solution"""
    OPTIMAL, FEASIBLE, INFEASIBLE = 0, 1, 2
    made, status, c = [], 0, None

    def __init__(self, *a):
        self.vars, self.rows, self.objective = [], [], None
        Program.made.append(self)

    def NumVar(self, lb, ub, name=""):
        x = Lin({len(self.vars): 1})
        x.solution_value = lambda i=len(self.vars): self.value(i)
        self.vars.append((lb, ub, x))
        return x

    def BoolVar(self, name=""):
        x = self.NumVar(0, 1, name)
        self.vars[-1] += ("bool",)
        return x

    def IntVar(self, lb, ub, name=""):
        return self.NumVar(lb, ub, name)

    def value(self, i):
        return self.solution[i]

    def variables(self):
        return [v[2] for v in self.vars]

    def Sum(self, terms):
        return sum(terms, Lin())

    def Add(self, row):
        self.rows.append(row)

    def Minimize(self, f):
        self.objective = ("min", Lin.of(f))

    def Maximize(self, f):
        self.objective = ("max", Lin.of(f))

    def Solve(self):
        self.solution = self.answer(self)
        return Program.status

    def admits(self, y):
        for v, k in zip(self.vars, y):
            if not (bool(v[0] <= k) and bool(k <= v[1])):
                return False
        for t, e in self.rows:
            d = e.at(y)
            if not (bool(d <= 0) if t == "<" else bool(d >= 0) if t == ">" else bool(d == 0)):
                return False
        return True


def lp_solver(c, module, answer, status=0):
    Program.made, Program.status, Program.answer = [], status, staticmethod(answer)
    kinds = {k: i for i, k in enumerate(("CLP_LINEAR_PROGRAMMING", "GLOP_LINEAR_PROGRAMMING", "CBC_MIXED_INTEGER_PROGRAMMING"))}
    K = type("Solver", (Program,), {**kinds, "CreateSolver": staticmethod(lambda *a: K())})
    return NS(Solver=K)


def linear_model(c, p, n, m, small=False):
    """the linearisation (C18) of a problem: any coefficients"""
    A = [[c.real("A%d%d" % (i, j), -10, 10) for j in range(n)] for i in range(m)]
    B = [c.real("B%d" % i, -100, 100) for i in range(m)]
    df = [c.real("df%d" % j, -10, 10) for j in range(n)]
    p.linearize = lambda x, *a, **k: (c.array(A), c.array(B), c.array(df), c.real("fx", -10, 10))
    return A, B, df


def row_holds(t, lhs, rhs, beta):
    if t == "<":
        return bool(lhs <= rhs + beta)
    if t == ">":
        return bool(lhs >= rhs - beta)
    return bool(lhs <= rhs + beta) and bool(lhs >= rhs - beta)


@harness()
def slp_subproblem(c):
    """the linearised problem within the move limits, constraints relaxed by the feasibility variable, which is penalised"""
    t = c.choice("type", TYPES)
    n = 2
    p = problem(c, n, [t])
    x = [c.real("x%d" % i, 1, 50) for i in range(n)]
    p.substitute_variables(x)
    A, B, df = linear_model(c, p, n, 1)
    lim = [c.real("lower limit", 0.01, 1), c.real("upper limit", 0.01, 1)]
    kind = c.choice("move limits", ["range", "relative"])
    with_beta = c.choice("feasibility variable", [True, False])
    mod = c.mod(S + "slp")
    sol = [c.real("solution %d" % i, -50, 50) for i in range(n)] + ([c.real("solution beta", 0, 10)] if with_beta else [])
    status = c.choice("status", [0, 2])
    c.stub(mod, "pywraplp", lp_solver(c, mod, lambda q: sol, status), concrete=True)
    w = mod.SLP(move_limits=lim, move_limit_type=kind, beta=10 if with_beta else 0, C=c.real("C", 0, 1e6))
    w.problem, w.X = p, c.array(x)
    d = w.take_action()
    q = Program.made[-1]
    y = [c.real("y%d" % i, -60, 60) for i in range(n)]
    b = c.real("beta", -1, 11) if with_beta else 0
    point = y + [b] if with_beta else y
    r = [100 if kind == "range" else k for k in x]
    want = all(bool(y[i] >= -50) and bool(y[i] <= 50) and bool(y[i] >= x[i] - lim[0] * r[i]) and bool(y[i] <= x[i] + lim[1] * r[i]) for i in range(n))
    want = want and bool(0 <= b) and bool(b <= 10) and row_holds(t, sum(a * k for a, k in zip(A[0], y)), B[0], b)
    c.same("admitted", q.admits(point), want)
    sense, f = q.objective
    c.same("minimized", sense, "min")
    c.eq("objective", f.at(point) - f.at([0] * len(point)), sum(a * k for a, k in zip(df, y)) + w.C * b, scale=1e6)
    c.eq("action", list(d), [0] * n if status == 2 else [sol[i] - x[i] for i in range(n)], scale=1e2)
    if with_beta and status == 0:
        c.eq("bound of the feasibility variable", w.beta, sol[n] if bool(sol[n] < 1) else 10)


@harness()
def linear_program(c):
    """LP hands over the problem's linear objective, constraints and bounds"""
    n = 2
    m = c.mod(V)
    b = [(c.real("lb%d" % i, -50, 0), c.real("ub%d" % i, 0, 50)) for i in range(n)]
    vs = [m.Variable("v%d" % i, lo, hi) for i, (lo, hi) in enumerate(b)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    q = [c.real("c%d" % i, -10, 10) for i in range(n)]
    sense = c.choice("sense", ["MIN", "MAX"])
    p.add(c.mod(OBJ).LinearObjective("f", q, sense))
    k = c.choice("constraints", [0, 1, 2])
    types = [c.choice("type %d" % i, TYPES) for i in range(k)]
    A = [[c.real("a%d%d" % (i, j), -10, 10) for j in range(n)] for i in range(k)]
    B = [c.real("b%d" % i, -100, 100) for i in range(k)]
    for i in range(k):
        p.add(c.mod(CON).LinearConstraint(A[i], B[i], types[i], name="c%d" % i))
    mod = c.mod(S + "lp")
    sol = [c.real("solution %d" % i, -50, 50) for i in range(n)]
    import sys
    import ortools.linear_solver as host
    c.stub(host, "pywraplp", lp_solver(c, mod, lambda q: sol), concrete=True)
    w = mod.LP("ortools")
    w.solve(p)
    lp = Program.made[-1]
    y = [c.real("y%d" % i, -60, 60) for i in range(n)]
    want = all(bool(lo <= z) and bool(z <= hi) for (lo, hi), z in zip(b, y))
    want = want and all(row_holds(types[i], sum(a * z for a, z in zip(A[i], y)), B[i], 0) for i in range(k))
    c.same("admitted", lp.admits(y), want)
    c.same("sense", lp.objective[0].upper(), sense)
    c.eq("objective", lp.objective[1].at(y), sum(a * z for a, z in zip(q, y)), scale=1e3)
    c.eq("solution", list(w.X), sol)


def mislp_subproblem(c, what):
    t = c.choice("type", TYPES) if what == "admitted" else "<"
    m = c.mod(V)
    vals = [c.real("value %d" % i, -50, 50) for i in range(3)]
    for a, b in zip(vals, vals[1:]):
        c.assume(b - a >= 0.5)
    p = c.mod(P).OptimizationProblem("p", variables=[m.Variable("v0", -50, 50), m.DiscreteVariable("v1", values=vals)])
    p.add(c.mod(OBJ).ObjectiveFunction("f", lambda x: 0.0))
    p.add(c.mod(CON).NonLinearConstraint(lambda x: 0.0, t))
    k = c.choice("at value", range(len(vals)))
    x = [c.real("x0", 1, 50), vals[k]]
    if what == "result" and c.choice("relaxed", [False, True]):
        x[1] = x[1] + c.real("off", -0.2, 0.2)
        c.assume(x[1] >= vals[0])
        c.assume(x[1] <= vals[-1])
    p.substitute_variables(x)
    A, B, df = linear_model(c, p, 2, 1)
    lim = [c.real("lower limit", 0.01, 1), c.real("upper limit", 0.01, 1)]
    mod = c.mod(S + "mislp")
    chosen = c.choice("chosen", range(len(vals))) if what == "result" else 0
    free = c.real("solution", -50, 50)
    beta = c.real("solution beta", 0, 10)

    def answer(q):
        y = [free, vals[chosen]]
        return [y[i] if i < 2 else beta if len(v) == 3 else 1.0 * (i - 3 == chosen) for i, v in enumerate(q.vars)]
    status = c.choice("status", [0, 2]) if what == "result" else 0
    c.stub(mod, "pywraplp", lp_solver(c, mod, answer, status), concrete=True)
    w = mod.MISLP(move_limits=lim, C=c.real("C", 0, 1e6), beta=10)
    w.problem, w.X = p, c.array(x)
    d = w.take_action()
    q = Program.made[-1]
    if what == "result":
        c.eq("action", list(d), [0, 0] if status == 2 else [free - x[0], vals[chosen] - x[1]], scale=1e2)
        return
    y0, b = c.real("y0", -60, 60), c.real("beta", -1, 11)
    j = c.choice("value tried", range(len(vals)))
    one = [1.0 * (i == j) for i in range(len(vals))]
    if what == "objective":
        c.same("minimized", q.objective[0], "min")
        c.eq("objective", q.objective[1].at([y0, vals[j], b] + one), df[0] * y0 + df[1] * vals[j] + w.C * b, scale=1e6)
        return
    if what == "nothing else":
        c.same("no other value", q.admits([y0, vals[j] + c.choice("off the list", [0.25, -0.25]), b] + one), False)
        c.same("one value", q.admits([y0, vals[j], b] + [0.0] * len(vals)), False)
        return
    lo, hi = [k * (vals[-1] - vals[0]) for k in lim]
    if k > 0 and bool(lo < x[1] - vals[k - 1]):
        lo = x[1] - vals[k - 1]
    if k < len(vals) - 1 and bool(hi < vals[k + 1] - x[1]):
        hi = vals[k + 1] - x[1]
    want = bool(y0 >= -50) and bool(y0 <= 50) and bool(y0 >= x[0] - lim[0] * 100) and bool(y0 <= x[0] + lim[1] * 100)
    want = want and bool(vals[j] >= x[1] - lo) and bool(vals[j] <= x[1] + hi) and bool(0 <= b) and bool(b <= 10)
    lhs = A[0][0] * y0 + A[0][1] * vals[j]
    # equality constraints are not relaxed
    want = want and (row_holds(t, lhs, B[0], b) if t != "=" else bool(lhs == B[0]))
    c.same("admitted", q.admits([y0, vals[j], b] + one), want)


def register_mislp(what):
    @harness(name="mislp_subproblem_" + what.replace(" ", "_"), bounded="two variables, a list of three values")
    def _(c):
        """discrete variables take a value of their list, their neighbouring values always within reach"""
        mislp_subproblem(c, what)


for what in ("result", "admitted", "nothing else", "objective"):
    register_mislp(what)


# ------------------------------------------------------------------ nonlinear programs
def reported(c, w, p, got, x0, f, fun, best, x, ok):
    c.eq("value", f, fun, scale=1e3)
    c.eq("design", list(best), x, scale=1e2)
    c.eq("starts from", list(got["x0"]), x0 if x0 is not None else [v.ub for v in p.vars], scale=1e2)
    z = [clip(k, v.lb, v.ub) for k, v in zip(x0, p.vars)] if x0 is not None else [v.ub for v in p.vars]
    c.eq("the structure too", got["at"], z, scale=1e2)
    if ok is not None:
        c.same("feasible", bool(w.feasible), ok)


def register_handover(cls):
    @harness(name="nonlinear_program_" + cls.split(".")[1])
    def _(c):
        """the external solver gets the problem's bounds, constraints in the sense it expects, and the objective; its
        result is reported"""
        what = c.choice("what", ["program", "result"])
        types = [c.choice("type %d" % i, TYPES) for i in range(c.choice("constraints", [0, 1, 2]))] if what == "program" else []
        n = 2 if what == "result" else 1
        p = problem(c, n, types)
        for i, v in enumerate(p.vars):
            v.lb, v.ub = c.real("lb%d" % i, -50, 0), c.real("ub%d" % i, 0, 50)
        got = {}
        x = [c.real("solution %d" % i, -50, 50) for i in range(n)]
        ok = c.choice("success", [True, False]) if what == "result" else True
        fun = c.real("solution's value", -1e3, 1e3)

        def minimize(f, x0, **k):
            got.update(k, f=f, x0=x0, at=[v.value for v in p.vars])
            return NS(x=c.array(x), fun=fun, success=ok, status=1, message="", nit=1, constr_violation=0.0 if ok else 1.0)
        mod = c.mod(S + cls.split(".")[0])
        c.stub(mod, "minimize", minimize, concrete=True)
        tr = cls.startswith("trust")
        if tr:
            c.stub(mod, "NonlinearConstraint", lambda f, lb, ub, **k: NS(f=f, lb=lb, ub=ub), concrete=True)
            c.stub(mod, "Bounds", lambda lb, ub, **k: NS(lb=lb, ub=ub), concrete=True)
            c.stub(mod, "LinCon", lambda *a, **k: NS(), concrete=True)
        w = getattr(mod, cls.split(".")[1])()
        x0 = [c.real("x0 %d" % i, -50, 50) for i in range(n)] if what == "result" and c.choice("starting point", [True, False]) else None
        f, best = w.solve(p, x0=x0)
        if what == "result":
            reported(c, w, p, got, x0, f, fun, best, x, None if tr else ok)
            return
        b = got["bounds"]
        b = [list(b.lb), list(b.ub)] if tr else [[k[0] for k in b], [k[1] for k in b]]
        c.eq("lower bounds", b[0], [v.lb for v in p.vars])
        c.eq("upper bounds", b[1], [v.ub for v in p.vars])
        y = [c.real("y%d" % i, -50, 50) for i in range(n)]
        for k, v in zip(y, p.vars):
            c.assume(v.lb <= k)
            c.assume(k <= v.ub)
        c.eq("objective", got["f"](y), p.obj(y), scale=1e3)
        given, admitted = got["constraints"], True
        c.same("constraints", len(given), len(types))
        for k in given:
            if tr:
                g = k.f(y)
                admitted = admitted and bool(k.lb <= g) and bool(g <= k.ub)
            else:
                g = k["fun"](y)
                admitted = admitted and (bool(g >= 0) if k["type"] == "ineq" else bool(g == 0))
        c.same("admits what the problem admits", admitted, all(holds(t, k(y), 0) for t, k in zip(types, p.cons)))


register_handover("slsqp.SLSQP")
register_handover("trust_region.TrustRegionConstr")


# ------------------------------------------------------------------ branch and bound
def variable(c, kind, i, vals=None):
    m = c.mod(V)
    if kind == "discrete":
        return m.DiscreteVariable("v%d" % i, values=vals)
    if kind == "integer":
        return m.IntegerVariable("v%d" % i, -20, 20)
    return m.Variable("v%d" % i, -20, 20)


def allowed(c, v, kind, tag):
    """any value the variable may have"""
    if kind == "discrete":
        return v.values[c.choice(tag, range(len(v.values)))]
    if kind == "integer":
        return c.integer(tag, -20, 20)
    return c.real(tag, -20, 20)


def tree(c, p):
    b = c.mod(S + "bnb")
    w = b.BnB(p)
    w.add_node(b.BnBNode(), "Root", "root")
    return b, w


KINDS = ["continuous", "integer", "discrete"]


def register_tightening(t):
    @harness(name="feasibility_tightening_" + {"<": "upper", ">": "lower", "=": "equal"}[t], bounded="two variables, a list of three values")
    def _(c):
        """no admissible design that satisfies the constraint is cut off, and bounds never widen"""
        kinds = [c.choice("kind", KINDS), "continuous"]
        vals = [-7.5, 0.3, 12.0]
        vs = [variable(c, k, i, vals) for i, k in enumerate(kinds)]
        p = c.mod(P).OptimizationProblem("p", variables=vs)
        a = [s * c.real("a%d" % i, 0.1, 10) for i, s in enumerate([c.choice("sign %d" % i, [1, -1, 0]) for i in range(2)])]
        rhs = c.real("b", -100, 100)
        x = [allowed(c, v, k, "x%d" % i) for i, (v, k) in enumerate(zip(vs, kinds))]
        lhs = a[0] * x[0] + a[1] * x[1]
        if t != ">":
            c.assume(lhs <= rhs)
        if t != "<":
            c.assume(lhs >= rhs)
        p.add(c.mod(CON).LinearConstraint(a, rhs, t, name="con"))
        was = [(v.lb, v.ub) for v in vs]
        b, w = tree(c, p)
        w.feasibility_tightening()
        for i, v in enumerate(vs):
            c.le("lower bound %d" % i, v.lb, x[i])
            c.ge("upper bound %d" % i, v.ub, x[i])
            c.ge("not lower %d" % i, v.lb, was[i][0])
            c.le("not higher %d" % i, v.ub, was[i][1])


for t in TYPES:
    register_tightening(t)


@harness()
def infeasible_by_tightening(c):
    """constraints that no allowed value satisfies give contradictory bounds"""
    kind, t = c.choice("kind", KINDS), c.choice("type", ["<", ">"])
    v = variable(c, kind, 0, [-7.5, 0.3, 12.0])
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    a = c.real("a", 0.1, 10) * c.choice("sign", [1, -1])
    far = c.real("far", 20.1, 30) * (1 if (t == ">") == bool(a > 0) else -1)
    p.add(c.mod(CON).LinearConstraint([a], a * far, t, name="con"))
    b, w = tree(c, p)
    w.optimality_tightening = lambda: None
    c.same("feasible", bool(w.pre_process(None)), False)


@harness(bounded="two variables, one linear constraint of each type")
def optimality_tightening(c):
    """given the minimum and maximum of every variable over the linear constraints, the bounds are these"""
    vs = [variable(c, "continuous", i) for i in range(2)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    for i, t in enumerate(TYPES):
        p.add(c.mod(CON).LinearConstraint([1.0 + i, 2.0], 3.0, t, name="con%d" % i))
    p.add(c.mod(CON).NonLinearConstraint(lambda x: 0.0))
    ok = c.choice("feasible", [True, False])
    ends = [(c.real("min%d" % i, -30, 30), c.real("max%d" % i, -30, 30)) for i in range(2)]
    seen = []

    class LP:
        feasible, X = False, None

        def __init__(self, *a):
            pass

        def solve(self, q, **k):
            i = [bool(z == 1) for z in q.obj.c].index(True)
            seen.append((i, q.obj.obj_type, [k.name for k in q.cons], list(q.vars) == vs, sum(bool(z == 0) for z in q.obj.c)))
            self.feasible = ok
            self.X = [None, None]
            self.X[i] = ends[i][0 if q.obj.obj_type == "MIN" else 1]
    b = c.mod(S + "bnb")
    c.stub(b, "LP", LP, concrete=True)
    b, w = tree(c, p)
    w.optimality_tightening()
    rows = ["con0", "con1", "con2"]
    c.same("programs", sorted(map(str, seen)), sorted(str((i, s, rows, True, 1)) for i in range(2) for s in ("MIN", "MAX")))
    for i, v in enumerate(vs):
        lo, hi = ends[i] if ok else (-20, 20)
        c.eq("lower bound %d" % i, v.lb, lo if bool(lo > -20) else -20)
        c.eq("upper bound %d" % i, v.ub, hi if bool(hi < 20) else 20)


@harness()
def branching(c):
    """every allowed value goes to exactly one branch, the relaxed value to none; the variable of the highest priority"""
    kinds = [c.choice("kind %d" % i, ["integer", "discrete", "continuous"]) for i in range(2)]
    vals = [-7.5, 0.3, 12.0]
    vs = [variable(c, k, i, vals) for i, k in enumerate(kinds)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    prio = [c.choice("priority %d" % i, [0, 1]) for i in range(2)]
    for v, k in zip(vs, prio):
        v.branch_priority = k
    x = [c.real("x%d" % i, -7.4, 11.9) for i in range(2)]
    viol = [v.discrete_violation(z) for v, z in zip(vs, x)]
    if not any(bool(k > 0) for k in viol):
        return
    b, w = tree(c, p)
    root = w.tree["root"]
    root.data.xR, root.data.lb = c.array(x), c.real("lower bound", -100, 100)
    w.nodes.remove("root")
    w.branch(root)
    c.same("two more nodes", len(w.nodes), 2)
    kids = [w.tree[k].data for k in w.nodes]
    c.same("below the node", [w.tree.parent(k).identifier for k in w.nodes], ["root", "root"])
    c.same("same variable", kids[0].var is kids[1].var, True)
    i = [j for j in range(2) if vs[j] is kids[0].var][0]
    c.ge("violates", viol[i], 1e-9)
    j = 1 - i
    if bool(viol[j] > 0):
        c.ge("priority", prio[i], prio[j])
        if prio[i] == prio[j]:
            c.ge("most", viol[i], viol[j])
    y = allowed(c, vs[i], kinds[i], "y")
    within = lambda n, z: bool(z <= n.lim) if n.sense == "<" else bool(z >= n.lim)
    c.same("one branch", [within(n, y) for n in kids].count(True), 1)
    c.same("no branch", [within(n, x[i]) for n in kids].count(True), 0)
    for n in kids:
        c.eq("inherits the lower bound", n.lb, root.data.lb, scale=100)


@harness(bounded="a tree of depth two")
def node_selection(c):
    """the deepest open node of the smallest lower bound, with the original bounds and all limits on its path"""
    vs = [variable(c, "continuous", i) for i in range(2)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    b, w = tree(c, p)
    w.nodes.remove("root")
    lim = [c.real("lim%d" % i, -20, 20) for i in range(4)]
    sense = [c.choice("sense %d" % i, ["<", ">"]) for i in range(4)]
    var = [0, 1, c.choice("variable", [0, 1]), 1]
    lb = [c.real("bound%d" % i, -100, 100) for i in range(4)]
    # 0 and 1 below the root, 2 and 3 below 0
    for i, up in enumerate(["root", "root", "n0", "n0"]):
        w.add_node(b.BnBNode(flb=lb[i], branched_var=vs[var[i]], lim=lim[i], sense=sense[i]), "n%d" % i, "n%d" % i, parent=up)
    w.nodes = c.choice("open", [["n1"], ["n1", "n2"], ["n1", "n2", "n3"], ["n3", "n1"]])
    opened = list(w.nodes)
    for v in vs:
        v.lb, v.ub = -1, 1          # what the node before left
    got = w.select_node()
    deep = [i for i in (2, 3) if "n%d" % i in opened] or [1]
    want = deep[-1] if len(deep) == 1 or bool(lb[deep[1]] < lb[deep[0]]) else deep[0]
    if len(deep) == 2:
        c.assume(lb[2] != lb[3])
    c.same("node", got.identifier, "n%d" % want)
    c.same("still open", sorted(w.nodes), sorted(k for k in opened if k != got.identifier))
    ends = [[-20, 20], [-20, 20]]
    for i in ([want, 0] if want > 1 else [want]):
        e = ends[var[i]]
        if sense[i] == "<":
            e[1] = lim[i] if bool(lim[i] < e[1]) else e[1]
        else:
            e[0] = lim[i] if bool(lim[i] > e[0]) else e[0]
    for v, e in zip(vs, ends):
        c.eq("lower bound", v.lb, e[0])
        c.eq("upper bound", v.ub, e[1])
    w.set_variable_bounds()
    c.same("original bounds", [(v.lb, v.ub) for v in vs], [(-20, 20)] * 2)


@harness()
def incumbents(c):
    """only feasible designs become incumbents, and only better ones"""
    types = c.choice("constraints", [[], ["<"], [">"], ["="]])
    p = problem(c, 1, types)
    b, w = tree(c, p)
    node = NS(data=NS(xR=[0.0]), identifier="root")
    x = [c.real("x%d" % i, -50, 50) for i in range(2)]
    p.discrete_neighborhood = lambda *a, **k: [(z,) for z in x]
    w.best_f, w.best_x = c.real("best", -1e3, 1e3), [7.0]
    bf, bx = w.best_f, 7.0
    for z in x:
        f = p.obj([z])
        if all(holds(t, k([z])) for t, k in zip(types, p.cons)) and bool(f < bf):
            bf, bx = f, z
    w.upper_bound(node)
    c.eq("value", w.best_f, bf, scale=1e3)
    c.eq("design", w.best_x[0], bx, scale=1e2)


@harness()
def relaxation(c):
    """the node gets the value and the design of the relaxation, variables without range keeping their value; an
    infeasible relaxation tells nothing"""
    vs = [variable(c, "continuous", i) for i in range(3)]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    flat = [i for i in range(3) if c.choice("flat %d" % i, [False, True])]
    if len(flat) == 3:
        return
    at = [c.real("at%d" % i, -20, 20) for i in range(3)]
    for i in flat:
        vs[i].lb = vs[i].ub = at[i]
    free = [i for i in range(3) if i not in flat]
    xs, f = [c.real("x%d" % i, -20, 20) for i in free], c.real("f", -100, 100)
    x0 = [c.real("s%d" % i, -20, 20) for i in range(3)]
    ok = c.choice("feasible", [True, False])
    seen = []

    def solve(q, x0=None, **k):
        seen.append((x0, list(q.vars)))
        return f, c.array(xs)
    b, w = tree(c, p)
    w.lb_solver = NS(solve=solve, feasible=ok, result=NS(success=ok))
    node = w.tree["root"]
    node.data.xR, node.data.lb = None, -1e9
    got = w.lower_bound(node, x0=c.array(x0))
    c.same("feasible", bool(got), ok)
    c.eq("starts from", list(seen[0][0]), [x0[i] for i in free], scale=1e2)
    c.same("free variables", [v.name for v in seen[0][1]], ["v%d" % i for i in free])
    c.same("unlocked afterwards", [v.locked for v in vs], [False] * 3)
    if ok:
        c.eq("lower bound", node.data.lb, f, scale=1e2)
        want = [at[i] if i in flat else xs[free.index(i)] for i in range(3)]
        c.eq("design", list(node.data.xR), want, scale=1e2)
    else:
        c.eq("no lower bound", node.data.lb, -1e9)


@harness()
def fathoming(c):
    """one node, from any incumbent: it is dropped only if infeasible, if its bound is worse than the incumbent, or if its
    relaxation is a design; otherwise it is branched"""
    vs = [variable(c, "discrete", 0, [-7.5, 0.3, 12.0])]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    b, w = tree(c, p)
    w.created_nodes = 0
    pre, feas = c.choice("bounds", [True, False]), c.choice("relaxation", [True, False])
    x, f = c.real("x", -7.4, 11.9), c.real("f", -100, 100)
    if c.choice("discrete", [True, False]):
        x = 0.3
    ub = c.choice("heuristic finds", [True, False])
    better = c.real("heuristic", -100, 100)
    was = w.best_f = c.real("incumbent", -100, 100)
    w.best_x = [99.0]
    w.pre_process = lambda node: pre
    order = []

    def lower(node, x0=None):
        order.append("lower")
        if feas:
            node.data.lb, node.data.xR = f, c.array([x])
        return feas

    def upper(node):
        order.append("upper")
        if ub and bool(better < w.best_f):
            w.best_f, w.best_x = better, [12.0]
    w.lower_bound, w.upper_bound = lower, upper
    branched = []
    w.branch = lambda node, **k: branched.append(node.identifier)
    w.solve(p, x0=[0.0], maxiter=0)
    bf, bx = was, 99.0
    keep = pre and feas and not bool(f > was)
    if keep:
        if ub and bool(better < bf):
            bf, bx = better, 12.0
        if vs[0].is_allowed_value(x):
            keep = False
            if bool(f < bf):
                bf, bx = f, x
    c.same("branched", branched, ["root"] if keep else [])
    c.same("kept", "root" in w.tree, keep)
    c.eq("incumbent's value", w.best_f, bf, scale=1e2)
    c.eq("incumbent", list(w.best_x), [bx], scale=1e2)
    c.same("original bounds", (vs[0].lb, vs[0].ub), (-7.5, 12.0))


# ------------------------------------------------------------------ heuristics
ALLOWED = [-7.5, 0.3, 12.0]
OTHER = [-3.0, 4.0]


def mixed(c, kinds):
    """one variable of each kind, on one structural part each"""
    m = c.mod(V)
    parts = [Part() for _ in kinds]
    vs = []
    for i, k in enumerate(kinds):
        n, t = "v%d" % i, {"property": "A", "objects": [parts[i]]}
        vs.append(m.Variable(n, -20, 20, target=t) if k == "continuous" else m.IntegerVariable(n, -4, 3, target=t) if k == "integer" else
                  m.DiscreteVariable(n, ALLOWED if k == "list" else OTHER, target=t))
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    p.parts = parts
    return p


@harness()
def particles_stay_admissible(c):
    """a particle moves by its velocity, but not out of the bounds, and lands on allowed values of each variable"""
    kinds = c.choice("variables", [["continuous", "continuous"], ["list", "other list"], ["other list", "list"], ["continuous", "list"], ["integer"]])
    p = mixed(c, kinds)
    n = len(kinds)
    x, v = [[c.real("%s%d" % (k, i), -60, 60) for i in range(n)] for k in "xv"]
    part = c.mod(S + "pso").Particle(c.array(x), c.array(v))
    part.move(p.xlb(), p.xub(), p)
    for i, k in enumerate(kinds):
        y, got = clip(x[i] + v[i], p.vars[i].lb, p.vars[i].ub), part.x[i]
        if k == "continuous":
            c.eq("moved", got, y, scale=1e2)
        elif k == "integer":
            c.le("nearest integer", abs(got - y), 0.5)
            c.same("integer", any(bool(abs(got - j) < 1e-9) for j in range(-4, 4)), True)
        else:
            vals = ALLOWED if k == "list" else OTHER
            c.same("allowed", any(bool(abs(got - z) < 1e-9) for z in vals), True)
            for z in vals:
                c.le("nearest", abs(got - y), abs(z - y))
    c.eq("personal best stays", list(part.best), x, scale=1e2)


@harness()
def particle_velocity(c):
    """inertia, pull of the personal and of the swarm's best, within the limits"""
    m = c.mod(S + "pso")
    p = mixed(c, ["continuous"])
    w = m.PSO(pop_size=1, c=[c.real("c1", 0, 4), c.real("c2", 0, 4)], inertia=c.real("w", 0, 1))
    w.problem = p
    r = [c.real("r1", 0, 1), c.real("r2", 0, 1)]
    draws = list(r)
    c.stub(m.np.random, "default_rng", lambda *a: NS(random=lambda *a: draws.pop(0)), concrete=True)
    x, v, b, g, lim = c.real("x", -20, 20), c.real("v", -5, 5), c.real("best", -20, 20), c.real("swarm", -20, 20), c.real("limit", 0, 8)
    part = m.Particle(c.array([x]), c.array([v]))
    part.best, w.best_x = c.array([b]), c.array([g])
    w.vmax, w.vmin = c.array([lim]), c.array([-lim])
    w.update_velocity(part)
    c.eq("velocity", part.v[0], clip(w.inertia * v + w.c[0] * r[0] * (b - x) + w.c[1] * r[1] * (g - x), -lim, lim), scale=1e2)
    c.eq("position", part.x[0], x, scale=1e2)


@harness()
def personal_best(c):
    """the least violation while infeasible, the best feasible design from then on"""
    m = c.mod(S + "pso")
    p = problem(c, 1)
    w = m.PSO(pop_size=1, penalty=lambda x: black_box(c, "violation", x, 0, 0.01) - 0.005)
    pen = w.penalty
    w.penalty = lambda x: pen(x) if bool(pen(x) > 0) else 0
    w.problem = p
    x, b = c.real("x", -50, 50), c.real("b", -50, 50)
    part = m.Particle(c.array([x]))
    bf, bs = c.real("best f", -1e3, 1e3), c.real("best violation", 0, 0.005)
    part.best, part.best_f, part.best_scv = c.array([b]), bf, bs
    w.eval_particle(part)
    f, s = p.obj([x]), w.penalty([x])
    tol = m.G_TOL
    c.eq("value", part.fval, f, scale=1e3)
    c.eq("violation", part.scv, s)
    c.eq("structure", p.parts[0].A, x, scale=1e2)
    if bool(bs > tol):
        new = bool(s <= bs)
    else:
        new = bool(s <= tol) and bool(f <= bf)
    c.eq("best", part.best[0], x if new else b, scale=1e2)
    c.eq("its value", part.best_f, f if new else bf, scale=1e3)
    c.eq("its violation", part.best_scv, s if new else bs)


@harness()
def swarm_best(c):
    """the best feasible particle so far; without any, the least violating one"""
    m = c.mod(S + "pso")
    tol = m.G_TOL
    w = m.PSO(pop_size=3)
    w.swarm = []
    for i in range(3):
        part = m.Particle(c.array([c.real("x%d" % i, -50, 50)]))
        part.fval, part.scv = c.real("f%d" % i, -100, 100), c.real("violation %d" % i, 0, 1)
        w.swarm.append(part)
    if c.choice("already", [True, False]):
        w.best_x, w.best_f, w.best_scv = c.array([c.real("x", -50, 50)]), c.real("f", -100, 100), 0
    best = [(w.best_x[0], w.best_f)] if w.best_x is not None else []
    for q in w.swarm:
        if bool(q.scv <= tol) and (not best or bool(q.fval < best[0][1])):
            best = [(q.x[0], q.fval)]
    xs = [q.x[0] for q in w.swarm]
    w.update_best()
    if best:
        c.eq("design", w.best_x[0], best[0][0], scale=1e2)
        c.eq("value", w.best_f, best[0][1], scale=1e2)
        was = w.best_x[0]
        for q in w.swarm:       # and stays the best when the particles move on
            q.x[0] = 99.0
        c.eq("kept", w.best_x[0], was, scale=1e2)
    else:
        i = [i for i in range(3) if all(bool(w.swarm[i].scv <= q.scv) for q in w.swarm)][0]
        c.eq("least violation", w.best_x[0], xs[i], scale=1e2)


@harness()
def discrete_neighbours(c):
    """a step from any point lies within the bounds of every variable, leaves the point alone, and is an improvement exactly
    when it is feasible and better than the incumbent"""
    types = c.choice("constraints", [[], ["<"], [">"], ["="]])
    m = c.mod(V)
    parts = [Part(), Part()]
    vs = [m.IntegerVariable("v%d" % i, lo, hi, target={"property": "A", "objects": [parts[i]]}) for i, (lo, hi) in enumerate([(0, 9), (-4, 3)])]
    p = c.mod(P).OptimizationProblem("p", variables=vs)
    p.add(c.mod(OBJ).ObjectiveFunction("f", lambda x: black_box(c, "f", x, -1e3, 1e3)))
    for t in types:
        p.add(c.mod(CON).NonLinearConstraint(lambda x: black_box(c, "g", x, -10, 10), t))
    w = c.mod(S + "vns").DiscreteVNS()
    w.problem = p
    x = [c.choice("x0", [0, 5, 9]), c.choice("x1", [-4, 0, 3])]
    a = [c.choice("a0", [-2, 1]), c.choice("a1", [-5, 0, 2])]
    w.X, w.best_fval = c.array(x), c.real("best", -1e3, 1e3)
    w.constr_vals = c.array([0.0 for _ in types])
    best = w.best_fval
    y, reward, done, _ = w.step(c.array(a))
    want = [min(max(q + d, lo), hi) for q, d, (lo, hi) in zip(x, a, [(0, 9), (-4, 3)])]
    c.eq("design", [float(k) for k in y], [float(k) for k in want])
    c.same("structure", [int(o.A) for o in parts], want)
    c.eq("where it came from", [float(k) for k in w.X], [float(k) for k in x])
    f = p.obj(want)
    ok = bool(f < best) and all(holds(t, k(want)) for t, k in zip(types, p.cons))
    c.same("improvement", bool(reward > 0), ok)
    c.eq("incumbent", w.best_fval, f if ok else best, scale=1e3)
    c.same("goes on", bool(done), False)


@harness(bounded="one variable, one iteration, every order of the neighbours")
def discrete_search(c):
    """moves to the first neighbour better than any feasible design before, and ends when there is none"""
    types = c.choice("constraints", [[], ["<"], [">"]])
    part = Part()
    v = c.mod(V).IntegerVariable("v", 0, 9, target={"property": "A", "objects": [part]})
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    p.add(c.mod(OBJ).ObjectiveFunction("f", lambda x: black_box(c, "f", x, -1e6, 1e6)))
    for t in types:
        p.add(c.mod(CON).NonLinearConstraint(lambda x: black_box(c, "g", x, -10, 10), t))
    m = c.mod(S + "vns")
    w = m.DiscreteVNS()
    import itertools
    order = c.choice("order", list(itertools.permutations([-1, 0, 1])))
    draws = [k for k in order for _ in range(2)]      # drawn again before anything new
    c.stub(m.np.random, "randint", lambda lo, hi, n: c.array([draws.pop(0)]), concrete=True)
    x0 = c.choice("x0", [0, 5, 9])
    given = [x0]
    f, x = w.solve(p, x0=given, maxiter=1)
    feasible = lambda y: all(holds(t, k([y])) for t, k in zip(types, p.cons))
    want, best = x0, p.obj([x0]) if feasible(x0) else None
    for d in order:
        y = min(max(x0 + d, 0), 9)
        if feasible(y) and (best is None or bool(p.obj([y]) < best)):
            want = y
            break
    c.eq("design", [float(k) for k in x], [float(want)])
    c.eq("value", f, p.obj([want]), scale=1e6)
    c.same("the given point", given, [x0])


@harness()
def fitness(c):
    """of individuals: objective and penalty of the violations, whatever the sense of the constraints; the fittest is kept"""
    types = c.choice("constraints", [[], ["<"], [">"], ["="], ["<", ">"]])
    p = mixed(c, ["integer", "integer"])
    p.add(c.mod(OBJ).ObjectiveFunction("f", lambda x: black_box(c, "f", x, -1e3, 1e3)))
    for i, t in enumerate(types):
        p.add(c.mod(CON).NonLinearConstraint(lambda x, i=i: black_box(c, "g%d" % i, x, -200, 200), t))
    w = c.mod(S + "ga").GA(pop_size=2)
    w.problem = p
    x = [c.choice("x0", [-4, 0, 3]), c.choice("x1", [-4, 2])]
    old, was = c.real("best", -1e9, 1e9), [1, 1]
    w.best_f, w.best_x = old, was
    got = w.eval_individual(list(x))
    f = p.obj(x)
    pen = 0
    for t, k in zip(types, p.cons):
        g = k(x)
        g = -g if t == ">" else abs(g) if t == "=" else g
        pen += clip(g, 0, 100) ** 2
    c.same("one value", len(got), 1)
    c.eq("fitness", got[0], f + 2e6 * pen, scale=1e9)
    better = bool(got[0] < old)
    c.eq("best", w.best_f, got[0] if better else old, scale=1e9)
    c.same("design", [int(k) for k in w.best_x], x if better else was)


@harness()
def second_phase(c):
    """the discrete problem starts from the values nearest to the continuous solution, on a window of the list around them"""
    m = c.mod(V)
    lists = [[1.0, 2.0, 3.5, 7.0, 7.5], [-5.0, 0.0, 5.0]]
    parts = [Part(), Part()]

    class Two(c.mod(P).OptimizationProblem):
        def __init__(self, prob_type="continuous"):
            super().__init__("p")
            self.prob_type = prob_type
            for i, vals in enumerate(lists):
                t = {"property": "A", "objects": [parts[i]]}
                self.add(m.Variable("v%d" % i, vals[0], vals[-1], target=t) if prob_type == "continuous" else m.DiscreteVariable("v%d" % i, list(vals), t))
    one = c.mod(S + "optsolver").OptSolver()
    low, up = c.choice("below", [0, 1, 3]), c.choice("above", [1, 2])
    w = c.mod(S + "two_phase").TwoPhase(one, one, limits=(low, up))
    x = [c.real("x0", 1, 7.5), c.real("x1", -5, 5)]
    one.X = c.array(x)
    w.problem = Two()
    w.discretize()
    for i, vals in enumerate(lists):
        var = w.problem.vars[i]
        k = [k for k in range(len(vals)) if all(bool(abs(vals[k] - x[i]) <= abs(z - x[i])) for z in vals)][0]
        c.same("nearest on the structure", parts[i].A, vals[k])
        c.same("window", list(var.values), vals[max(0, k - low):k + up])
        c.same("bounds", (var.lb, var.ub), (min(var.values), max(var.values)))
