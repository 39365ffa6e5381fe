"""C17: design variables: what a substitution writes, bounds, locking, and the assignment of a design vector."""
from types import SimpleNamespace as NS

V = "metku.optimization.variables"
P = "metku.optimization.structopt"
PROPS = ["A", "Iy", "Iz"]


class Each(list):
    """a list of any length: its loop is decided by one round for an arbitrary element"""
    def __init__(self, item, others=()):
        super().__init__([item, *others])

    def __vc_iter__(self):
        yield self[0]


class Part:
    """something with properties; remembers which were written"""
    def __init__(self, **k):
        self.__dict__.update(k, written={})

    def __setattr__(self, k, v):
        self.written[k] = v
        self.__dict__[k] = v


def part(c, tag, **k):
    return Part(**{p: c.real("%s %s before" % (tag, p), 1, 100) for p in PROPS}, **k)


def make(c, kind, target, **k):
    m = c.mod(V)
    if kind == "Variable":
        return m.Variable("v", 0, 100, target=target, **k)
    if kind == "IntegerVariable":
        return m.IntegerVariable("v", 0, 100, target=target, **k)
    if kind == "DiscreteVariable":
        return m.DiscreteVariable("v", [1.0, 2.5, 4.0], target, **k)
    if kind == "BooleanVariable":
        return m.BooleanVariable("v", target=target, **k)
    return m.CrossSectionVariable("v", 0, 100, target=target, **k)


KINDS = ["Variable", "IntegerVariable", "DiscreteVariable", "BooleanVariable", "CrossSectionVariable"]


def written(c, tag, o, want):
    c.same("%s: nothing else is changed" % tag, sorted(o.written), sorted(want))
    for k, v in want.items():
        if k in o.written:
            c.eq("%s: %s" % (tag, k), o.written[k], v)


@harness()
def value_times_scaling(c):
    """any number of objects, one or several properties, any scaling"""
    kind = c.choice("kind", KINDS)
    prop = c.choice("properties", ["A", ["A"], ["Iy", "Iz", "A"]])
    section = part(c, "section")
    o = part(c, "object", cross_section=section)
    other = part(c, "other object", cross_section=part(c, "other section"))
    objs = Each(o, [] if c.symbolic else [other])
    v = make(c, kind, {"property": prop, "objects": objs})
    s = 1
    for i in range(c.choice("scaled", [0, 1, 2])):
        f = c.real("scaling %d" % i, 0.1, 50)
        lb, ub = v.lb, v.ub
        v.scale(f)
        s = s * f
        c.eq("bounds are scaled", [v.lb * f, v.ub * f], [lb, ub])
    for i in range(c.choice("substitutions", [1, 2])):
        x = c.real("value %d" % i, -100, 200)
        v.substitute(x)
        c.eq("the variable has its value", v.value, x)
        for tag, q in [("object", o)] + ([] if c.symbolic else [("other object", other)]):
            if kind == "CrossSectionVariable" and isinstance(prop, str):
                written(c, tag, q, {})
                q = q.cross_section
            else:
                written(c, tag + "'s section", q.cross_section, {})
            written(c, tag, q, {p: x * s for p in ([prop] if isinstance(prop, str) else prop)})


@harness()
def functions_of_the_value(c):
    """a property with a target function gets the function's value, the others the value itself"""
    kind = c.choice("kind", ["Variable", "IntegerVariable", "DiscreteVariable", "CrossSectionVariable"])
    f = (lambda x: c.uf("f", x, lo=-1e3, hi=1e3)) if c.symbolic else (lambda x: x * x + 3 * x)
    o = part(c, "object", cross_section=part(c, "section"))
    v = make(c, kind, {"property": ["A", "Iy"], "objects": Each(o)}, target_fun={"Iy": f})
    s = c.real("scaling", 0.1, 50)
    v.scale(s)
    x = c.real("value", -100, 200)
    v.substitute(x)
    written(c, "object", o, {"A": x * s, "Iy": f(x * s)})


@harness()
def without_target(c):
    v = make(c, c.choice("kind", KINDS[:4]), None)
    x = c.real("value", -100, 200)
    v.substitute(x)
    c.eq("the variable has its value", v.value, x)


@harness()
def locked_variables(c):
    kind = c.choice("kind", KINDS + ["IndexVariable", "BinaryVariable"])
    m = c.mod(V)
    o = part(c, "object", cross_section=part(c, "section"), profile="before")
    if kind == "IndexVariable":
        v, xs = m.IndexVariable("v", ["a", "b", "c"], {"property": "profile", "objects": Each(o)}), [0, 2, 1]
    elif kind == "BinaryVariable":
        v, xs = m.BinaryVariable("v", "a section", target={"property": "profile", "objects": Each(o)}), [1, 0, 1]
    else:
        v = make(c, kind, {"property": ["A"], "objects": Each(o)})
        xs = [c.real("value %d" % i, 0, 100) for i in range(3)]
    v.substitute(xs[0])
    if c.choice("value given when locked", [False, True]):
        v.lock(xs[1])
        c.eq("locked at the given value", v.value, xs[1])
    else:
        v.lock()
        c.eq("locked at its value", v.value, xs[0])
    before = v.value
    o.written.clear()
    v.substitute(xs[2])
    c.eq("the value is kept", v.value, before)
    c.same("nothing is written", sorted(o.written), [])
    v.unlock()
    v.substitute(xs[2])
    c.eq("unlocked again", v.value, xs[2])


class Catalogue:
    """a catalogue whose entries know their place"""
    def __init__(self, n):
        self.n = n

    def __len__(self):
        return self.n

    def __getitem__(self, i):
        return ("entry", i)


@harness()
def catalogue_entries(c):
    m = c.mod(V)
    n = c.choice("length", [1, 2, 1000])
    prop = c.choice("property", ["profile", ["profile"], ["profile", "spare"]])
    o = part(c, "object", profile="before")
    cat = Catalogue(n)
    v = m.IndexVariable("v", cat, {"property": prop, "objects": Each(o)})
    c.same("bounds", (v.lb, v.ub), (0, n - 1))
    i = c.integer("index", 0, n - 1)
    for k in range(2):
        v.substitute(i)
        c.eq("the variable's value is the index", v.value, i)
        c.same("nothing else is changed", sorted(o.written), [prop] if isinstance(prop, str) else sorted(prop))
        for p in o.written:
            c.same("an entry of the catalogue", o.written[p][0], "entry")
            c.eq("the entry with the index", o.written[p][1], i)
        i = c.integer("second index", 0, n - 1)


@harness()
def existence_and_choice(c):
    """binary variables: a chosen section is given to the target, an absent member is passive, a present one active"""
    m = c.mod(V)
    prop = c.choice("property", ["profile", "cross_section", "member"])
    o = part(c, "object", profile="before", active=c.choice("active before", [True, False]))
    v = m.BinaryVariable("v", "the section", target={"property": prop, "objects": Each(o)})
    c.same("bounds", (v.lb, v.ub), (0, 1))
    for i in range(2):
        o.written.clear()
        x = c.choice("value %d" % i, [0, 1, 0.0, 1.0])
        v.substitute(x)
        c.eq("the variable's value", v.value, x)
        if prop == "member":
            c.same("the member is active when the variable is one", bool(o.active), bool(x == 1))
            c.same("nothing else", [k for k in o.written if k != "active"], [])
        else:
            c.same("the section is given when the variable is one", dict(o.written), {prop: "the section"} if x == 1 else {})


@harness()
def ways_to_name_the_target(c):
    m = c.mod(V)
    o = part(c, "object")
    objs = {"target_object": o} if c.choice("one object", [True, False]) else {"target_objects": Each(o)}
    props, names = c.choice("properties", [({"target_property": "A"}, ["A"]), ({"target_properties": ["A", "Iy"]}, ["A", "Iy"])])
    v = m.Variable("v", 0, 10, **objs, **props)
    x = c.real("value", 0, 10)
    v.substitute(x)
    written(c, "object", o, {p: x for p in names})
    r, e = c.attempt(lambda: m.Variable("v", 0, 10, **objs))
    c.same("objects need properties", type(e).__name__, "ValueError")
    r, e = c.attempt(lambda: m.Variable("v", 0, 10, **props))
    c.same("properties need objects", type(e).__name__, "ValueError")


@harness(bounded="groups of up to two attributes")
def groups(c):
    g = c.mod("metku.optimization.variable_group")
    o, q = part(c, "object", profile="before"), part(c, "other", profile="before")
    kind = c.choice("type", ["CONTINUOUS", "DISCRETE", "INDEX"])
    k = dict(name="group", var_type=g.VariableTypeEnum[kind], objects=[o, q])
    if kind == "INDEX":
        G = g.VariableGroup(attribute="profile", values=["a", "b", "c"], value=1, **k)
        c.same("one variable", len(G.variables), 1)
        i = c.choice("index", [0, 1, 2])
        G.variables[0].substitute(i)
        for x in (o, q):
            c.same("the chosen entry", dict(x.written), {"profile": "abc"[i]})
        return
    b = [c.real("bound %d" % i, 0, 10) for i in range(4)]
    if kind == "CONTINUOUS":
        G = g.VariableGroup(attributes=["A", ["Iy", "Iz"]], lower_bounds=b[:2], upper_bounds=[b[0] + b[2], b[1] + b[3]], **k)
        c.eq("bounds", [x for v in G.variables for x in (v.lb, v.ub)], [b[0], b[0] + b[2], b[1], b[1] + b[3]])
    else:
        G = g.VariableGroup(attributes=["A", ["Iy", "Iz"]], values=[[b[0], b[1]], [b[2], b[3]]], **k)
        c.eq("bounds", [x for v in G.variables for x in (v.lb, v.ub)],
             [c.min(b[0], b[1]), c.max(b[0], b[1]), c.min(b[2], b[3]), c.max(b[2], b[3])])
    x, y = c.real("x", 0, 10), c.real("y", 0, 10)
    G.variables[0].substitute(x)
    for t in (o, q):
        written(c, "first", t, {"A": x})
        t.written.clear()
    G.variables[1].substitute(y)
    for t in (o, q):
        written(c, "second", t, {"Iy": y, "Iz": y})


@harness(bounded="up to three allowed values")
def allowed_values(c):
    m = c.mod(V)
    kind = c.choice("kind", ["DiscreteVariable", "IntegerVariable"])
    x = c.real("x", -5, 25)
    if kind == "IntegerVariable":
        v = m.IntegerVariable("v", 0, 20)
        i = c.integer("an integer", -5, 25)
        c.eq("no violation at an integer", v.discrete_violation(i), 0)
        c.same("integers within the bounds are allowed", bool(v.is_allowed_value(i)), bool(0 <= i) and bool(i <= 20))
        f = c.real("away from integers", 0.001, 0.5)
        c.eq("distance to the nearest integer", v.discrete_violation(i + f), f)
        c.same("others are not", bool(v.is_allowed_value(i + f)), False)
        return
    vals = [c.real("value %d" % k, 0, 20) for k in range(c.choice("number", [1, 3]))]
    v = m.DiscreteVariable("v", vals)
    lo, hi, d = vals[0], vals[0], abs(vals[0] - x)
    for y in vals[1:]:
        lo, hi, d = c.min(lo, y), c.max(hi, y), c.min(d, abs(y - x))
    c.eq("bounds", [v.lb, v.ub], [lo, hi])
    w = v.discrete_violation(x)
    if d > 2e-3:
        c.eq("distance to the nearest value", w, d)
    c.eq("no violation at a value", v.discrete_violation(vals[-1]), 0)
    c.same("values are allowed", bool(v.is_allowed_value(vals[-1])), True)
    if d > 2e-3:
        c.same("others are not", bool(v.is_allowed_value(x)), False)


@harness(bounded="up to three values")
def neighbouring_values(c):
    m = c.mod(V)
    vals = [c.real("value %d" % k, 0, 20) for k in range(3)]
    x = c.real("x", 0, 20)
    v = m.DiscreteVariable("v", vals)
    below, above = [y for y in vals if y < x], [y for y in vals if y > x]
    if below:
        s = v.smaller_discrete_value(x)
        c.lt("smaller", s, x)
        for y in below:
            c.le("the closest of them", y, s)
        c.same("one of the values", any(bool(s == y) for y in below), True)
    if above:
        s = v.larger_discrete_value(x)
        c.lt("larger", x, s)
        for y in above:
            c.le("the closest of them from above", s, y)
        c.same("one of the values from above", any(bool(s == y) for y in above), True)


# ------------------------------------------------------------------ problems

def clip(c, x, lb, ub):
    return c.max(lb, c.min(x, ub))


def problem(c, kinds, how=None):
    """a problem with one variable per kind, each with its own object"""
    m, objs, vs = c.mod(V), [], []
    for i, k in enumerate(kinds):
        o = part(c, "object %d" % i, profile="before")
        t = {"property": "A", "objects": [o]}
        if k == "continuous":
            lb = c.real("lb %d" % i, -10, 10)
            v = m.Variable("v%d" % i, lb, lb + c.real("range %d" % i, 0, 20), target=t)
        elif k == "integer":
            v = m.IntegerVariable("v%d" % i, 1, 5, target=t)
        elif k == "discrete":
            v = m.DiscreteVariable("v%d" % i, [1.0, 2.5, 4.0], target=t)
        else:
            v = m.IndexVariable("v%d" % i, ["a", "b", "c"], target={"property": "profile", "objects": [o]})
        vs.append(v)
        objs.append(o)
    P_ = c.mod(P).OptimizationProblem
    how = c.choice("added", ["constructor", "add", "add_variable", "add_variables"]) if how is None else how
    p = P_("p", variables=vs) if how == "constructor" else P_("p")
    if how != "constructor":
        if how == "add_variables":
            p.add_variables(vs)
        else:
            for v in vs:
                getattr(p, how)(v)
    c.same("the problem has the variables in order", [v.name for v in p.vars], ["v%d" % i for i in range(len(kinds))])
    return p, vs, objs


MIXES = [["continuous"], ["continuous", "continuous"], ["continuous", "integer", "discrete"], ["index", "continuous"], ["continuous", "index", "continuous"]]
B = "problems of up to three variables of every kind"


@harness(bounded=B)
def building_a_problem(c):
    p, vs, objs = problem(c, c.choice("variables", MIXES))
    for v in vs:
        p.add(v)
    c.same("a variable is added once", p.nvars(), len(vs))


@harness(bounded=B)
def design_vectors(c):
    """each entry, clipped to its bounds, goes to its own variable"""
    kinds = c.choice("variables", MIXES)
    p, vs, objs = problem(c, kinds, "add")
    as_list = c.choice("a list", [True, False])
    p.fea_done = {"ALL": True, 3: False}
    for r in range(2 if len(kinds) < 3 else 1):
        xs = []
        for i, k in enumerate(kinds):
            xs.append(c.choice("x%d %d" % (i, r), [0, 2, 7]) if k == "index" else c.real("x%d %d" % (i, r), -20, 40))
        p.substitute_variables(xs if as_list else c.array(xs))
        want = [clip(c, x, v.lb, v.ub) for x, v in zip(xs, vs)]
        for i, k in enumerate(kinds):
            c.eq("value %d" % i, vs[i].value, want[i])
            if k == "index":
                c.same("object %d" % i, dict(objs[i].written), {"profile": "abc"[int(want[i])]})
            else:
                written(c, "object %d" % i, objs[i], {"A": want[i]})
        c.eq("the problem's point", list(p.X), want)
        if r == 0:
            c.eq("the starting point", list(p.x0), want)
        c.same("the structural analyses do not hold any more", sorted(map(str, p.fea_done.items())), ["('ALL', False)", "(3, False)"])


@harness(bounded=B)
def design_vectors_with_locked_variables(c):
    """a design vector has an entry for every unlocked variable; locked ones keep theirs"""
    kinds = c.choice("variables", MIXES[1:])
    p, vs, objs = problem(c, kinds, "add_variables")
    n = len(kinds)
    k = c.choice("locked", list(range(n)))
    if k >= n:
        return
    for i, v in enumerate(vs):
        v.substitute(1 if kinds[i] == "index" else v.lb + c.real("start %d" % i, 0, 1) * (v.ub - v.lb))
    vs[k].lock()
    before = [v.value for v in vs]
    for o in objs:
        o.written.clear()
    free = [i for i in range(n) if i != k]
    c.same("unlocked variables", [v.name for v in p.vars], [vs[i].name for i in free])
    c.same("locked variables", [v.name for v in p.locked_vars], [vs[k].name])
    c.same("number of variables", p.nvars(), n - 1)
    c.eq("values of the unlocked ones", list(p.var_values()), [before[i] for i in free])
    c.eq("bounds of the unlocked ones", list(p.xlb()) + list(p.xub()), [vs[i].lb for i in free] + [vs[i].ub for i in free])
    c.same("fixed values", [x is None for x in p.fixed_vals], [i != k for i in range(n)])
    xs = [c.choice("x%d" % i, [0, 2]) if kinds[i] == "index" else c.real("x%d" % i, -20, 40) for i in free]
    how = c.choice("by", ["substitution", "objective", "constraint"])
    seen = []
    f = lambda x: seen.append(list(x)) or 0.0
    if how == "substitution":
        p.substitute_variables(xs)
    elif how == "objective":
        p.add(c.mod("metku.optimization.objective").ObjectiveFunction("f", f))
        p.obj(xs)
    else:
        p.add(c.mod("metku.optimization.constraints").NonLinearConstraint(f))
        p.cons[0](xs)
    want = {i: clip(c, x, vs[i].lb, vs[i].ub) for i, x in zip(free, xs)}
    for i in range(n):
        if how == "constraint":     # which takes designs for the same when they differ by less than X_TOL
            c.le("value %d" % i, abs(vs[i].value - want.get(i, before[i])), 2e-8)
        else:
            c.eq("value %d" % i, vs[i].value, want.get(i, before[i]))
        if i == k:
            c.same("the locked variable writes nothing", dict(objs[i].written), {})
    full = list(before)
    for i, x in zip(free, xs):
        full[i] = x
    if seen:
        c.eq("the function sees the whole design", seen[-1], full)
    vs[k].unlock()
    c.same("all variables again", [v.name for v in p.vars], [v.name for v in vs])


@harness(bounded="sampled", concrete_only=True, samples=200)
def random_designs(c):
    """random designs are admissible"""
    p, vs, objs = problem(c, c.choice("variables", MIXES))
    for x, v in zip(p.random_values(), vs):
        c.le("lower bound", v.lb, x)
        c.le("upper bound", x, v.ub)
        if hasattr(v, "is_allowed_value"):
            c.same("admissible", bool(v.is_allowed_value(x)), True)


@harness(bounded="up to two variables, five values", samples=100)
def neighbourhood(c):
    """the discrete neighbourhood is the k admissible values nearest to the point, in every combination"""
    m = c.mod(V)
    vals = [1.0, 2.0, 3.5, 7.0, 7.5]
    p = c.mod(P).OptimizationProblem("p", variables=[m.DiscreteVariable("a", vals), m.IntegerVariable("b", 2, 6)])
    x = [c.choice("x0", [0.0, 2.1, 3.0, 5.5, 8.0]), c.choice("x1", [1.0, 3.2, 4.6, 9.0])]
    k = c.choice("k", [1, 2, 5])
    got = sorted([float(a), float(b)] for a, b in p.discrete_neighborhood(x, k))
    near = lambda vs, y: sorted(vs, key=lambda v: abs(v - y))[:k]
    c.same("neighbourhood", got, sorted([a, float(b)] for a in near(vals, x[0]) for b in near(range(2, 7), x[1])))
