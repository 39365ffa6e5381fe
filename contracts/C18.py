"""C18: what constraints, objectives, feasibility, penalties and multipliers mean."""
from types import SimpleNamespace as NS

V = "metku.optimization.variables"
P = "metku.optimization.structopt"
CON = "metku.optimization.constraints"
OBJ = "metku.optimization.objective"
TYPES = ["<", ">", "="]
B = "problems of up to three variables and three constraints"


class Part:
    A = None


class Structure:
    """counts the structural analyses, and what they were made for"""
    def __init__(self, parts):
        self.parts, self.done, self.state = parts, [], {}

    def calculate(self, load_id, **k):
        self.done.append(load_id)
        self.state[load_id] = [p.A for p in self.parts]


def problem(c, n, structure=False, value=True, wide=False):
    m = c.mod(V)
    parts = [Part() for _ in range(n)]
    vs = []
    for i, o in enumerate(parts):
        v = m.Variable("v%d" % i, -100, 100, target={"property": "A", "objects": [o]})
        if value:
            v.substitute(c.real("start %d" % i, -50, 50))
        vs.append(v)
    p = c.mod(P).OptimizationProblem("p", variables=vs, structure=Structure(parts) if structure else None)
    return p, vs, parts


def point(c, n, tag="x"):
    return [c.real("%s%d" % (tag, i), -50, 50) for i in range(n)]


def near(c, name, a, b, k=1):
    """equal up to the tolerance with which constraints take two designs for the same"""
    c.le(name, abs(a - b), 1e-7 * k)


def attach(c, p, con):
    how = c.choice("added by", ["add", "add_constraint", "add_constraints"])
    if how == "add_constraints":
        p.add_constraints([con])
    else:
        getattr(p, how)(con)


@harness(bounded=B)
def linear_constraints(c):
    """a'x - b at the design asked for, whatever the variables were before; locked variables take part with their value"""
    n = c.choice("variables", [1, 2, 3])
    p, vs, parts = problem(c, n, value=c.choice("had values before", [True, False]))
    t = c.choice("type", TYPES)
    a = [c.real("a%d" % i, -10, 10) for i in range(n)]
    b = c.real("b", -100, 100)
    asvar = n == 1 and c.choice("right-hand side is a variable", [False, True])
    rhs = b
    if asvar:
        rhs = c.mod(V).Variable("rhs", -100, 100)
        rhs.substitute(b)
    con = c.mod(CON).LinearConstraint(a, rhs, t)
    if n == 1:
        attach(c, p, con)
    else:
        p.add(con)
    lock = c.choice("locked", [None, 0]) if n > 1 else None
    full = point(c, n)
    if lock is not None:
        vs[0].lock(full[0])
    xs = full[1:] if lock is not None else full
    g = sum(y * z for y, z in zip(a, full)) - b
    near(c, "value", con(c.array(xs) if n == 2 else xs), g, 60)
    near(c, "negative", con.neg_call(xs), -g, 60)
    for i in range(n):
        near(c, "the variables have the design %d" % i, vs[i].value, full[i])
        near(c, "the structure has it %d" % i, parts[i].A, full[i])


@harness(bounded=B)
def index_variables_in_linear_constraints(c):
    m = c.mod(V)
    v = m.IndexVariable("i", ["a", "b", "c", "d"])
    w = m.Variable("w", -100, 100)
    p = c.mod(P).OptimizationProblem("p", variables=[v, w])
    a, b = [c.real("a%d" % i, -10, 10) for i in range(2)], c.real("b", -100, 100)
    con = c.mod(CON).LinearConstraint(a, b, c.choice("type", TYPES))
    p.add(con)
    for r in range(2):
        i, x = c.choice("index %d" % r, [0, 1, 3]), c.real("x%d" % r, -50, 50)
        near(c, "value %d" % r, con([i, x]), a[0] * i + a[1] * x - b, 60)


def fun(c, name):
    return (lambda x: c.uf(name, *x, lo=-1e3, hi=1e3)) if c.symbolic else (lambda x: sum((i + 1) * y * (y - 3) for i, y in enumerate(x)) + len(name))


@harness(bounded=B)
def nonlinear_constraints(c):
    """the function at the whole design, in one evaluation, with the structure at the design"""
    n = c.choice("variables", [1, 2, 3])
    p, vs, parts = problem(c, n, value=c.choice("had values before", [True, False]))
    f, seen = fun(c, "g"), []

    def g(x):
        seen.append((list(x), [o.A for o in parts]))
        return f(x)
    con = c.mod(CON).NonLinearConstraint(g, c.choice("type", TYPES))
    attach(c, p, con)
    lock = c.choice("locked", [None, 0, n - 1]) if n > 1 else None
    full = point(c, n)
    if lock is not None:
        vs[lock].lock(full[lock])
    xs = [x for i, x in enumerate(full) if i != lock]
    c.eq("value", con(xs), f(full))
    c.same("one evaluation", len(seen), 1)
    c.eq("at the whole design", seen[0][0], full)
    for i in range(n):
        near(c, "with the structure at the design %d" % i, seen[0][1][i], full[i])
    c.eq("negative", con.neg_call(xs), -f(full))


@harness()
def potentially_active(c):
    """a constraint is potentially active unless it holds by more than its tolerance"""
    f = c.real("value", -5, 5)
    t = c.choice("type", TYPES)
    linear = c.choice("linear", [True, False])
    v = c.mod(V).Variable("v", -100, 100)
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    m = c.mod(CON)
    con = m.LinearConstraint([1.0], 0.0, t) if linear else m.NonLinearConstraint(lambda x: x[0], t)
    p.add(con)
    tol = con.pot_tol = c.real("tolerance", 0.01, 1)
    v.substitute(c.real("before", -100, 50))
    for i in range(2):
        g = con([f])
        want = True if t == "=" else bool(g >= -tol) if t == "<" else bool(g <= tol)
        c.same("potentially active", bool(con.potential), want)
        f = c.real("second value", -5, 5)


@harness(bounded=B)
def structural_analysis(c):
    """a constraint or objective that needs analyses finds all of them made for the design it is evaluated at, once"""
    p, vs, parts = problem(c, 2, structure=True)
    S, log = p.structure, []
    ids = c.choice("load cases", [None, [2, 3]])
    names = ids or ["ALL"]
    con = c.mod(CON).NonLinearConstraint(lambda x: log.append(dict(S.state)) or 0.0, fea_required=True, load_ids=ids)
    other = c.mod(CON).NonLinearConstraint(lambda x: 0.0)
    p.add(con)
    p.add(other)
    obj = c.mod(OBJ).ObjectiveFunction("f", lambda x: log.append(dict(S.state)) or 0.0, fea_required=True)
    p.add(obj)
    x, y = point(c, 2), point(c, 2, "y")
    c.assume(abs(x[0] - y[0]) > 0.01)
    c.assume(abs(x[0] - vs[0].value) > 0.01)
    first = c.choice("before", ["nothing", "constraint", "other constraint", "objective", "substitution"])
    do = {"nothing": lambda z: 0, "constraint": con, "other constraint": other, "objective": obj, "substitution": p.substitute_variables}
    do[first](x)
    do[c.choice("then", ["nothing", "substitution", "other constraint", "constraint"])](y)
    z = y if c.choice("at the last design", [True, False]) else x
    which = c.choice("asked", ["constraint", "objective"])
    log.clear()
    n = len(S.done)
    do[which](z)
    for i in (names if which == "constraint" else ["ALL"]):
        c.same("analysis %s is there" % i, i in log[0], True)
        if i in log[0]:
            for k in range(2):
                near(c, "analysis %s is of the design" % i, log[0][i][k], z[k])
    c.le("no analysis twice", len(S.done) - n, len(names))
    if which == "constraint":
        n = len(S.done)
        con(z)
        c.same("none for the same design again", len(S.done), n)


@harness(bounded=B)
def objectives(c):
    """the function's value at the whole design; negated exactly once when it is to be maximised"""
    n = c.choice("variables", [1, 2, 3])
    p, vs, parts = problem(c, n, value=False)
    m = c.mod(OBJ)
    t = c.choice("type", ["MIN", "MAX", "min", "max", "default"])
    k = {} if t == "default" else {"obj_type": t}
    linear = c.choice("linear", [False, True])
    seen = []
    if linear:
        a = [c.real("c%d" % i, -10, 10) for i in range(n)]
        f = lambda x: sum(y * z for y, z in zip(a, x))
        o = m.LinearObjective("f", a, **k)
    else:
        f = fun(c, "f")
        o = m.ObjectiveFunction("f", lambda x: seen.append([q.A for q in parts]) or f(x), **k)
    if c.choice("given to the constructor", [False, True]):
        p = c.mod(P).OptimizationProblem("p", variables=vs, objective=o)
    else:
        p.add(o)
    lock = c.choice("locked", [None, 0, n - 1]) if n > 1 else None
    full = point(c, n)
    if lock is not None:
        vs[lock].lock(full[lock])
    xs = [x for i, x in enumerate(full) if i != lock]
    for r in range(2):
        c.eq("value", p.obj(xs), (-1 if t.upper() == "MAX" else 1) * f(full), scale=1e3)
        if not linear:
            c.eq("with the structure at the design", seen[-1], full)
    c.eq("negative", p.obj.neg_call(xs), (1 if t.upper() == "MAX" else -1) * f(full), scale=1e3)


class Value:
    """a constraint with a given value"""
    def __init__(self, t, g, mult=1.0):
        self.type, self.g, self.mult, self.potential, self.name = t, g, mult, True, "c"

    def __call__(self, x):
        return self.g


class Each(list):
    """a list of any length: its loop is decided by one round, from any state before, for any element"""
    def __init__(self, item):
        super().__init__([item])

    def __vc_iter__(self):
        yield self[0]


def holds(t, g, tol):
    return bool(g <= tol) if t == "<" else bool(g >= -tol) if t == ">" else bool(abs(g) <= tol)


@harness()
def one_constraint_decides(c):
    """any constraint of any list of constraints: a design that violates it is not feasible, one that satisfies it goes
    on to the next, and after the last one it is feasible"""
    p = c.mod(P).OptimizationProblem("p")
    t = c.choice("type", TYPES)
    g = c.real("g", -10, 10)
    p.con_tol = c.real("tolerance", 0, 1)
    p.cons = Each(Value(t, g))
    c.same("feasible", bool(p.feasible([0.0])), holds(t, g, p.con_tol))
    p.cons = []
    c.same("without constraints every design is feasible", bool(p.feasible([0.0])), True)


@harness(bounded=B)
def feasibility(c):
    """feasible exactly when every constraint holds within the tolerance"""
    n = c.choice("constraints", [1, 2, 3])
    ts = [c.choice("type %d" % i, TYPES) for i in range(n)]
    gs = [c.real("g%d" % i, -10, 10) for i in range(n)]
    m = c.mod(CON)
    v = c.mod(V).Variable("v", -100, 100)
    cons = [m.NonLinearConstraint((lambda x, g=g: g), t) for g, t in zip(gs, ts)]
    p = c.mod(P).OptimizationProblem("p", variables=[v], constraints=cons) if c.choice("given to the constructor", [False, True]) \
        else c.mod(P).OptimizationProblem("p", variables=[v])
    for k in cons:
        p.add(k)
    c.same("each constraint once", len(p.cons), n)
    tol = p.con_tol = c.real("tolerance", 0, 1)
    want = all(holds(t, g, tol) for t, g in zip(ts, gs))
    if c.choice("at the current design", [True, False]):
        p.substitute_variables([1.0])
        c.same("feasible", bool(p.feasible()), want)
    else:
        c.same("feasible", bool(p.feasible([1.0])), want)
    c.eq("all constraints in order", list(p.eval_cons([1.0])), gs)
    c.eq("equality constraints", list(p.eval_eq_con([1.0])), [g for g, t in zip(gs, ts) if t == "="])
    c.eq("inequality constraints as g >= 0", list(p.eval_ineq_con([1.0])), [-g if t == "<" else g for g, t in zip(gs, ts) if t != "="])


@harness(bounded="one constraint of each list, one variable")
def penalties(c):
    """penalties are zero where the constraint and the bounds hold, positive where they do not, and never grow inwards"""
    v = c.mod(V).Variable("v", c.real("lb", -10, 0), c.real("ub", 1, 10))
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    t = c.choice("type", TYPES)
    g, f, R = c.real("g", -10, 10), c.real("f", -10, 10), c.real("R", 0.1, 100)
    p.cons = Each(Value(t, g))
    p.obj = lambda x: f
    x = [c.real("x", -20, 20)]
    name = c.choice("penalty", ["exact", "exterior"])
    if name == "exact":
        F = p.exact_penalty_fun(R)(x)
    else:
        e = c.choice("exponent", [2, 3, 4])
        F = p.exterior_penalty_fun(R, e)(x) - f
    if holds(t, g, 0) and v.lb <= x[0] and x[0] <= v.ub:
        c.eq("nothing to pay", F, 0, scale=100)
    else:
        c.lt("something to pay", 0, F + (0 if c.symbolic else 1e-12))
    over = c.max(g, 0) if t == "<" else c.max(-g, 0) if t == ">" else abs(g)
    out = c.max(v.lb - x[0], 0) + c.max(x[0] - v.ub, 0)
    w = 1 if t == "=" else R       # the code weighs equality constraints with one
    if name == "exact":
        c.eq("linear in the violation", F, w * over + R * out, scale=1e4)
    else:
        # the code squares >= constraints and bounds whatever the exponent
        if t != ">":
            c.eq("a power of the violation", F, w * over ** e + R * out * out, scale=1e6)
        elif e == 2:
            c.eq("quadratic in the violation", F, w * over * over + R * out * out, scale=1e6)


@harness(bounded="one constraint of each list, one variable")
def multipliers(c):
    """the augmented Lagrangian and the update of its multipliers: each constraint and bound by its own multiplier"""
    v = c.mod(V).Variable("v", c.real("lb", -10, 0), c.real("ub", 1, 10))
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    t = c.choice("type", TYPES)
    g, f, R, Q = c.real("g", -10, 10), c.real("f", -10, 10), c.real("R", 0.1, 100), c.real("Req", 0.1, 100)
    m, ml, mu = c.real("mult", -5 if t == "=" else 0, 5), c.real("lower mult", 0, 5), c.real("upper mult", 0, 5)
    k = Value(t, g, m)
    p.cons = Each(k)
    p.obj = lambda x: f
    v.lb_mult, v.ub_mult = ml, mu
    x = [c.real("x", -20, 20)]
    F = p.augmented_lagrangian(R, Q)(x)
    pos = lambda y: c.max(y, 0)
    sq = lambda y: y * y
    own = {"=": -m * g + Q * g * g, "<": R * sq(pos(m / (2 * R) + g)), ">": R * sq(pos(m / (2 * R) - g))}[t]
    c.eq("augmented Lagrangian", F, f + own + R * sq(pos(ml / (2 * R) + v.lb - x[0])) + R * sq(pos(mu / (2 * R) + x[0] - v.ub)), scale=1e6)
    p.update_lag_mult(x, R, Q)
    c.eq("the constraint's multiplier", k.mult, {"=": m - 2 * Q * g, "<": pos(m + 2 * R * g), ">": pos(m - 2 * R * g)}[t], scale=1e4)
    c.eq("the lower bound's", v.lb_mult, pos(ml + 2 * R * (v.lb - x[0])), scale=1e4)
    c.eq("the upper bound's", v.ub_mult, pos(mu + 2 * R * (x[0] - v.ub)), scale=1e4)


@harness(bounded=B)
def linearisation(c):
    """rows of linear constraints are their coefficients, of non-linear ones and the objective difference quotients of
    the functions; the right-hand side makes the linear model exact at the point; afterwards the design is the point"""
    n = 1
    p, vs, parts = problem(c, n + 1, structure=True)
    lock = c.choice("locked", [None, 0, n])
    full = [s * c.real("x%d" % i, 0.1, 50) for i, s in enumerate([1, c.choice("sign", [-1, 1])])]
    if lock is not None:
        vs[lock].lock(full[lock])
    free = [i for i in range(n + 1) if i != lock]
    xs = [full[i] for i in free]
    edge = c.choice("at its upper bound", [None, free[-1]])
    if edge is not None:
        vs[edge].ub = full[edge]
    seen = []
    a, b = [c.real("a%d" % i, -10, 10) for i in range(n + 1)], c.real("b", -100, 100)
    q = [c.real("q%d" % i, -10, 10) for i in range(n + 1)]
    r = [c.real("r%d" % i, -10, 10) for i in range(n + 1)]
    m, S = c.mod(CON), p.structure
    p.add(m.LinearConstraint(a, b, c.choice("type", TYPES)))
    # depends on the design through the structural analysis only
    p.add(m.NonLinearConstraint(lambda x: sum(y * z for y, z in zip(q, S.state["ALL"])), fea_required=True))
    given = c.choice("gradient of the objective is given", [False, True])
    p.obj = c.mod(OBJ).ObjectiveFunction("f", lambda x: seen.append([v.value for v in vs]) or sum(y * z for y, z in zip(r, x)), problem=p)
    if given:
        p.grad = lambda x: c.array([r[i] for i in free])
    A, rhs, df, fx = p.linearize(c.array(xs))
    for x in seen:
        for v, y in zip(vs, x):
            c.le("within the bound", y, v.ub + 1e-9)
    c.eq("objective", fx, sum(y * z for y, z in zip(r, full)), scale=1e3)
    c.eq("gradient of the objective", list(df), [r[i] for i in free], tol=1e-4, scale=10)
    c.eq("linear row", list(A[0]), [a[i] for i in free])
    c.eq("non-linear row", list(A[1]), [q[i] for i in free], tol=1e-4, scale=10)
    c.eq("linear constraint: exact at the point", sum(A[0][j] * xs[j] for j in range(len(free))) - rhs[0], sum(y * z for y, z in zip(a, full)) - b, scale=1e4)
    c.eq("non-linear constraint: exact at the point", sum(A[1][j] * xs[j] for j in range(len(free))) - rhs[1], sum(y * z for y, z in zip(q, full)), tol=1e-4, scale=1e4)
    for i in range(n + 1):
        c.eq("the design is the point again %d" % i, vs[i].value, full[i], scale=1e3)
        c.eq("so is the structure %d" % i, parts[i].A, full[i], scale=1e3)
    near(c, "and its analysis", p.cons[1](xs), sum(y * z for y, z in zip(q, full)), 1e3)


@harness(bounded="one constraint of each list, one variable")
def barriers(c):
    """barrier terms inside the feasible region"""
    v = c.mod(V).Variable("v", c.real("lb", -10, 0), c.real("ub", 1, 10))
    p = c.mod(P).OptimizationProblem("p", variables=[v])
    t = c.choice("type", TYPES)
    d, f, R = c.real("distance from the boundary", 0.01, 10), c.real("f", -10, 10), c.real("R", 0.1, 100)
    p.cons = Each(Value(t, {"<": -d, ">": d, "=": 0}[t]))
    p.obj = lambda x: f
    u = c.real("place between the bounds", 0.01, 0.99)
    x = v.lb + u * (v.ub - v.lb)
    kind = c.choice("barrier", ["log", "inverse"])
    own = 0 if t == "=" else -c.log(d) / R if kind == "log" else 1 / (R * d)
    c.eq("barrier", p.barrier_fun(R, kind)([x]), f + own + 1 / (R * (x - v.lb)) + 1 / (R * (v.ub - x)), scale=10)
