"""C20: load combinations -- of frames (raami) and of EN 1990/1991 loads (eurocodes.en1991)."""
from types import SimpleNamespace as NS

FL = "metku.raami.frame_loads"
RA = "metku.raami.raami"
EN = "metku.eurocodes.en1991.en1991"
BF = "frames of up to three load cases with up to two loads each"
BE = "up to two permanent and three variable loads"
PSI0 = {"LIVE": 0.7, "SNOW": 0.7, "WIND": 0.6}
TYPES = ["DEAD", "LIVE", "SNOW", "WIND"]


def factor(kind, comb, lead):
    if kind == "DEAD":
        return 1.15 if comb == "ULS" else 1.0
    return (1.5 if comb == "ULS" else 1.0) * (1.0 if lead else PSI0[kind])


# ------------------------------------------------------------------ frames
class Member:
    def __init__(self, n=1):
        self.loads, self.fem_elements, self.num_elements = [], ["element %d" % i for i in range(n)], n

    def coords(self):
        return [[0.0, 0.0], [1.0, 0.0]]


def load(c, i, kind, f, name="load", lid=None, member=None):
    m = c.mod(FL)
    lid = i if lid is None else lid
    if (i + len(name)) % 2:
        return m.PointLoad(NS(coords=[0.0, 0.0], fem_node="node %d" % i), [i, -2.0 * i, 0.5], lid, kind, name, f)
    return m.LineLoad(member or Member(), [3.0 + i, 4.0 - i], "y", lid, f, kind, name)


@harness()
def factor_of_one_load(c):
    """own factor times the factor of the combination, which depends on the type, the combination and on being the leading one"""
    kind = c.choice("type", TYPES)
    comb = c.choice("combination", ["ULS", "SLS", "SLS_Characteristic"])
    lead = c.choice("leading", [True, False])
    f = c.real("own factor", -10, 10)
    o = load(c, c.choice("kind of load", [0, 1]), kind.lower() if c.choice("lower case", [True, False]) else kind, f)
    c.same("type", o.ltype, kind)
    o.factored(comb, lead)
    c.eq("factor", o.f, f * factor(kind, comb, lead))


@harness(bounded="load cases of up to two loads")
def factored_copies_of_a_load_case(c):
    """the factored loads of a case, the loads of the case stay as they are"""
    kind = c.choice("type", TYPES)
    comb = c.choice("combination", ["ULS", "SLS"])
    lead = c.choice("leading", [True, False])
    fs = [c.real("own factor %d" % i, -10, 10) for i in range(c.choice("loads", [0, 1, 2]))]
    loads = [load(c, i, kind, f, lid=7) for i, f in enumerate(fs)]
    m = c.mod(FL)
    late = c.choice("loads given", ["to begin with", "later", "twice"])
    case = m.LoadCase(3, loads if late != "later" else None)
    if late != "to begin with":
        for o in loads:
            case.add(o)
    c.same("loads of the case", [id(o) for o in case.loads], [id(o) for o in loads])
    c.same("identifier", [o.load_id for o in loads], [3] * len(loads))
    c.same("type of the case", case.load_type, kind if loads else None)
    for r in range(2):
        out = case.combine(comb, lead)
        c.same("one factored load for each %d" % r, len(out), len(loads))
        for i, o in enumerate(out):
            c.same("another object %d" % r, o is loads[i], False)
            c.eq("factor %d" % r, o.f, fs[i] * factor(kind, comb, lead))
            c.eq("loads of the case are not changed %d" % r, loads[i].f, fs[i])
            if hasattr(o, "values"):
                c.eq("values %d" % r, list(o.values), list(loads[i].values))
                c.same("direction %d" % r, (o.direction, o.coord_sys, o.member), (loads[i].direction, loads[i].coord_sys, loads[i].member))
            else:
                c.eq("vector %d" % r, list(o.v), list(loads[i].v))
                c.same("node %d" % r, o.node, loads[i].node)


def model(c, n, tag="", name="load"):
    """n load cases: [(type, factors, loads)]"""
    out = []
    for i in range(n):
        kind = c.choice("%stype %d" % (tag, i), ["DEAD", "SNOW", "WIND"] if n > 2 else TYPES)
        k = c.choice("%sloads %d" % (tag, i), [1, 2] if n < 3 else [1]) if i != 1 else 1
        fs = [c.real("%sf%d%d" % (tag, i, j), -5, 5) for j in range(k)]
        out.append((kind, fs, [load(c, i, kind, f, name + str(j) * (j > 0)) for j, f in enumerate(fs)]))
    return out


def expect(c, name, got, parts, comb, lead):
    """loads of the combined case"""
    want = [(o, f * factor(kind, comb, i == lead)) for i, (kind, fs, loads) in enumerate(parts) for o, f in zip(loads, fs)]
    c.same(name + ": one load for each", len(got), len(want))
    if len(got) != len(want):
        return
    for g, (o, f) in zip(sorted(got, key=lambda g: [i for i, (o, _) in enumerate(want) if same_place(g, o)][:1]), want):
        c.same(name + ": which load", same_place(g, o), True)
        c.eq(name + ": factor", g.f, f)


def same_place(g, o):
    return type(g) is type(o) and getattr(g, "node", getattr(g, "member", None)) is getattr(o, "node", getattr(o, "member", None))


def leading(parts):
    return next((i for i, (kind, _, _) in enumerate(parts) if kind != "DEAD"), None)


@harness(bounded=BF, budget=600)
def frame_combinations(c):
    """repeated combinations, several combinations, cases made by the user or from the loads added to the frame"""
    m, F = c.mod(FL), c.mod(RA).Raami()
    parts = model(c, c.choice("cases", [1, 2, 3]))
    how = c.choice("given as", ["load cases", "loads"])
    cases = []
    for i, (kind, fs, loads) in enumerate(parts):
        if how == "load cases":
            F.add(m.LoadCase(i, loads))
        else:
            for o in loads:
                F.add(o)
        cases.append(F.load_cases[i])
    comb = c.choice("combination", ["ULS", "SLS"])
    C = m.LoadCombination(10, comb, cases)
    F.add(C)
    total = sum(len(p[1]) for p in parts)
    second = None
    then = c.choice("then", ["nothing", "again", "another"])
    if then == "again":
        C.combine_loads()
        C.combine_loads()
    elif then == "another":
        second = m.LoadCombination(11, "SLS" if comb == "ULS" else "ULS", cases[::-1])
        F.add(second)
        C.combine_loads()
    expect(c, "combined", F.load_cases[10].loads, parts, comb, leading(parts))
    if second:
        expect(c, "second", F.load_cases[11].loads, parts[::-1], second.comb_type, leading(parts[::-1]))
    for i, (kind, fs, loads) in enumerate(parts):
        c.same("case %d keeps its loads" % i, [id(o) for o in F.load_cases[i].loads], [id(o) for o in loads])
        for o, f in zip(loads, fs):
            c.eq("load keeps its factor", o.f, f)
            c.same("and its identifier", (o.load_id, o.ltype), (i, kind))
    ids = list(range(len(parts))) + [10] + ([11] if second else [])
    c.same("identifiers", sorted(F.load_ids), ids)
    c.same("cases", sorted(F.load_cases), ids)
    n = total * (3 if second else 2)
    c.same("loads of the frame", len(F.loads), n)
    for i in ids:
        c.same("they are those of the cases %d" % i, all(any(o is p for p in F.loads.values()) for o in F.load_cases[i].loads), True)
        c.same("the identifier is that of the case %d" % i, [o.load_id for o in F.load_cases[i].loads], [i] * len(F.load_cases[i].loads))
    c.same("named by their keys", all(o.name == k for k, o in F.loads.items()), True)


@harness(bounded=BF)
def cases_that_change_between_combinations(c):
    """loads added to a case after the combination was made are there when it is made again; cases without loads are not the leading one"""
    m, F = c.mod(FL), c.mod(RA).Raami()
    kinds = [c.choice("type %d" % i, ["DEAD", "SNOW", "WIND"]) for i in range(2)]
    late = c.choice("empty to begin with", [0, 1])
    fs = [c.real("f%d" % i, -5, 5) for i in range(3)]
    loads = [load(c, i, kinds[i], fs[i]) for i in range(2)]
    cases = [m.LoadCase(i, [] if i == late else [loads[i]]) for i in range(2)]
    for x in cases:
        F.add(x)
    comb = c.choice("combination", ["ULS", "SLS"])
    C = m.LoadCombination(10, comb, cases)
    F.add(C)
    k = 1 - late
    first = [(kinds[i], [] if i == late else [fs[i]], [] if i == late else [loads[i]]) for i in range(2)]
    got = F.load_cases[10].loads
    expect(c, "combined", got, first, comb, k)
    F.add(loads[late])
    more = load(c, k, kinds[k], fs[2], "another")
    F.add(more)
    C.combine_loads()
    second = [(kinds[i], [fs[i]] + [fs[2]] * (i == k), [loads[i]] + [more] * (i == k)) for i in range(2)]
    lead = next((i for i in ([k, late]) if kinds[i] != "DEAD"), None)
    expect(c, "combined again", F.load_cases[10].loads, second, comb, lead)


@harness(bounded="members of up to four elements")
def loads_in_the_frame_model(c):
    """point loads go with their factor to their node, line loads are linear along the member, from first to last value, times the factor"""
    m = c.mod(FL)
    f = c.real("factor", -10, 10)
    got = []
    model = NS(add_load=got.append)
    if c.choice("point load", [True, False]):
        v = [c.real("v%d" % i, -100, 100) for i in range(3)]
        o = m.PointLoad(NS(coords=[0.0, 0.0], fem_node="node"), v, 4, "wind", "p", f)
        o.add_load(model)
        c.same("one load", len(got), 1)
        c.same("identifier and node", (got[0].sid, got[0].node), (4, "node"))
        for i in range(3):
            c.eq("load", got[0].v[i] * got[0].f, v[i] * f)
        return
    n = c.choice("elements", [1, 2, 3, 4])
    q = [c.real("q%d" % i, -100, 100) for i in range(2)]
    mem = Member(n)
    d, cs = c.choice("direction", ["x", "y"]), c.choice("coordinates", ["global", "local"])
    o = m.LineLoad(mem, q, d, 4, f, "wind", "l", cs)
    c.same("load of the member", [x is o for x in mem.loads], [True])
    o.add_load(model)
    c.same("one load per element", [g.elem for g in got], mem.fem_elements)
    for i, g in enumerate(got):
        c.same("identifier, direction, coordinates", (g.sid, g.dir, g.coords), (4, d, cs))
        for k in range(2):
            c.eq("place %d" % k, g.xloc[k], k)
            c.eq("value %d" % k, g.qval[k], f * (q[0] + (q[1] - q[0]) * (i + k) / n), scale=2000)


@harness(bounded="members of up to three elements")
def two_zone_loads_in_the_frame_model(c):
    """a line load of two zones, on a member in any direction: each element gets the load of its own zone times the factor,
    the element with the step the larger one"""
    m = c.mod(FL)
    FM = c.mod("metku.raami.frame_member")
    node = c.mod("metku.raami.frame_node").FrameNode
    fem = c.mod("metku.framefem.framefem")
    f, q = c.real("factor", -10, 10), [c.real("q%d" % i, -100, 100) for i in range(2)]
    L, x = c.real("length", 1, 1e4), c.real("step", 0.05, 0.95)
    dx, dy = c.choice("direction of the member", [(1.0, 0.0), (0.0, -1.0), (-0.6, 0.8)])
    start = (0.0, 0.0) if dx > 0.9 else (500.0, -200.0)
    n = c.choice("elements", [1, 2, 3])
    mem = object.__new__(FM.FrameMember)
    mem.nodes = [node([start[0] + s * L * dx, start[1] + s * L * dy]) for s in (0, 1)]
    mem.loads = []
    ps = [fem.FEMNode(i, start[0] + dx * L * i / n, start[1] + dy * L * i / n) for i in range(n + 1)]
    mem.fem_elements = [NS(nodes=[ps[i], ps[i + 1]], i=i) for i in range(n)]
    for i in range(1, n):
        c.assume(abs(x * n - i) >= 1e-3)
    d, cs = c.choice("direction", [("x", "global"), ("y", "local")])
    o = m.PWLineLoad(mem, q, x, d, 4, f, "wind", "l", cs)
    c.same("load of the member", [l is o for l in mem.loads], [True])
    got = []
    o.add_load(NS(add_load=got.append))
    c.same("one load per element", [g.elem.i for g in got], list(range(n)))
    for i, g in enumerate(got):
        c.same("identifier, direction, coordinates", (g.sid, g.dir, g.coords), (4, d, cs))
        if x * n >= i + 1:
            want = f * q[0]
        elif x * n <= i:
            want = f * q[1]
        else:
            want = f * (q[1] if abs(q[1]) > abs(q[0]) else q[0])
            if abs(f) * abs(abs(q[1]) - abs(q[0])) <= 1e-6:
                continue
        for k in range(2):
            c.eq("place %d" % k, g.xloc[k], k)
            c.eq("value %d" % k, g.qval[k], want, scale=2000)


@harness(bounded="chords of one member, two or three zone boundaries")
def zones_of_a_chord(c):
    """every part of the top chord gets the load of its zone, once"""
    m = c.mod("metku.raami." + c.choice("truss", ["raami_plane_truss", "raami_vierendeel"]))
    nb = c.choice("boundaries", [2, 3])
    b = [c.real("first boundary", 0, 10)]
    for i in range(nb - 1):
        b.append(b[-1] + c.real("width %d" % i, 1, 100))
    q = [c.real("q%d" % i, -10, 10) for i in range(nb + 1)]
    lo = c.real("start", -50, 300)
    hi = lo + c.real("length", 1, 100)
    # a member reaches over one boundary at most
    inside = [i for i in range(nb) if lo < b[i] and b[i] < hi]
    c.assume(len(inside) <= 1)
    mem = NS(nodes=[NS(x=lo, coords=[lo, 0.0]), NS(x=hi, coords=[hi, 0.0])], loads=[])
    got = []
    t = c.instance(m.SlopedTruss, top_chord=[mem], add=got.append)
    t.generate_piecewise_uniform_load(q, b, 3, "wind")
    c.same("one load", len(got), 1)
    zone = len([i for i in range(nb) if b[i] <= lo])
    vals = list(got[0].values)
    c.same("load of the member", (got[0].member is mem, got[0].load_id, got[0].direction, got[0].coord_sys), (True, 3, "y", "global"))
    c.eq("value at the start", vals[0], q[zone])
    c.eq("value at the end", vals[1], q[zone + len(inside)])
    if inside:
        c.eq("place of the step", got[0].xdiv * (hi - lo), b[inside[0]] - lo, scale=100)


@harness(bounded="one member")
def self_weight(c):
    """is there once, however often it is added, with the weight of the present section, and not at all when removed"""
    m = c.mod(RA)
    FM = c.mod("metku.raami.frame_member")
    w = [c.real("weight %d" % i, 0.01, 10) for i in range(2)]
    now = [w[0]]
    F = m.Raami()
    mem = object.__new__(FM.FrameMember)
    mem.loads, mem.self_weight, mem.fem_elements, mem.num_elements = [], False, ["e"], 1
    mem._FrameMember__cross_section = NS(self_weight=lambda: now[0])
    F.add(mem)
    other = load(c, 0, "DEAD", 1.0, name="self-weight", lid=c.choice("other load", [5, 100]))
    if c.choice("other load first", [True, False]):
        F.add(other)
    F.add_self_weight()
    F.add(other)
    here = True
    for i in range(2):
        what = c.choice("then %d" % i, ["nothing", "add", "remove", "new section and add"])
        if what == "new section and add":
            now[0] = w[1]
        if what == "remove":
            F.remove_self_weight()
            here = False
        elif what != "nothing":
            F.add_self_weight()
            here = True
    mine = [o for o in F.loads.values() if o is not other]
    c.same("number of self-weight loads", len(mine), int(here))
    c.same("of loads of the member", len(mem.loads), int(here))
    c.same("other load is kept", any(o is other for o in F.load_cases[other.load_id].loads), True)
    if here:
        o = mine[0]
        c.same("permanent, downwards, of the member", (o.ltype, o.direction, o.coord_sys, o.member is mem, o.load_id), ("DEAD", "y", "global", True, 100))
        got = []
        o.add_load(NS(add_load=got.append))
        for k in range(2):
            c.eq("its value", got[0].qval[k], -now[0])
        c.same("is in the load case", sum(x is o for x in F.load_cases[100].loads), 1)
    else:
        c.same("not in the load case", sum(x is not other for x in F.load_cases[100].loads), 0)


# ------------------------------------------------------------------ EN 1990 / EN 1991
CLASS = {"A": [0.7, 0.5, 0.3], "B": [0.7, 0.5, 0.3], "C": [0.7, 0.7, 0.3], "D": [0.7, 0.7, 0.6], "E": [1.0, 0.9, 0.8]}
KFI = {1: 0.9, 2: 1.0, 3: 1.1}


def make(c, kind, v):
    m = c.mod(EN)
    return {"G": m.Load, "area": m.AreaLoad, "snow": m.SnowLoad, "wind": m.WindLoad, "imposed": m.ImposedLoad}[kind](v)


def psi(kind, v, cls):
    if kind == "snow":
        return [0.7, 0.4 if bool(v < 2.75) else 0.5, 0.2]
    return {"wind": [0.6, 0.2, 0.0], "imposed": CLASS[cls]}[kind]


@harness()
def loads_of_the_standard(c):
    """characteristic value and combination factors"""
    m = c.mod(EN)
    v = c.real("value", 0, 10)
    kind = c.choice("kind", ["snow", "wind"])
    o = make(c, kind, v)
    if kind == "snow":
        c.assume(abs(v - 2.75) > 1e-9)
    p = psi(kind, v, "A")
    c.eq("value", o.value, v)
    for i in range(3):
        c.eq("factor %d" % i, o.comb_factors[i], p[i])
        c.eq("combined %d" % i, o.combined(i), v * p[i])


@harness()
def line_loads_of_the_combiner(c):
    """area loads become line loads of the spacing, other loads stay; imposed loads have the factors of the class; originals are kept"""
    kind = c.choice("kind", ["G", "area", "snow", "wind", "imposed"])
    cls = c.choice("class", "ABCDE")
    cc = c.choice("consequence class", [1, 2, 3])
    k, v = c.real("spacing", 0.5, 20), c.real("value", 0.1, 10)
    C = c.mod(EN).ULSCombiner(cls, cc, k)
    o = make(c, kind, v)
    before = list(o.comb_factors)
    if kind == "snow":
        c.assume(abs(v - 2.75) > 1e-9)
    C.add([o, "y", [0]])
    c.eq("original is kept", o.value, v)
    c.same("with its factors", list(o.comb_factors), before)
    line = v if kind == "G" else v * k
    r = C.get_result()
    f = KFI[cc] * (1.35 if kind in ("G", "area") else 1.5)
    c.le("result", abs(r["y"][0] - f * line), 0.005 + 1e-6)
    c.eq("nothing in the other direction", r["x"][0], 0)
    c.eq("no combination factor for permanent loads", C.sum_G_k(), line if kind in ("G", "area") else 0)
    if kind not in ("G", "area"):
        for i in range(3):
            c.eq("combination value %d" % i, C.sum_Q_k(i), line * psi(kind, v, cls)[i])


ROT = ["snow", "wind", "imposed"]
IDS = [[0], [0, 2], [2], [1, 0], [2, 1]]


def loads(c, k):
    """[(kind, line load, factors, direction, ids)], argument lists of add"""
    nG = c.choice("permanent loads", [0, 1, 2])
    nQ = c.choice("variable loads", [1, 2, 3] if nG == 0 else [0, 1, 2, 3])
    a, b = c.choice("first kind", [0, 1, 2]), c.choice("next", [0, 1, 2])
    cls = "AECD"[(a + b + nG) % 4]
    G, Q, args = [], [], []
    for i in range(nG):
        kind = ["area", "G"][(i + a) % 2]
        v = c.real("g%d" % i, -10, 10)
        where, ids = "yx"[(i + b) % 2], IDS[(i + a) % 5]
        G.append((v * (k if kind == "area" else 1), None, where, ids))
        args.append([make(c, kind, v), where, ids])
    for i in range(nQ):
        kind = ROT[(a + b * i) % 3]
        v = c.real("q%d" % i, -10, 10)
        if kind == "snow":
            c.assume(v <= 2.5 if (i + nG) % 2 else v >= 3)
        where, ids = "yxy"[(i + b) % 3], IDS[(i + b + 2) % 5]
        Q.append((v * k, psi(kind, v, cls), where, ids))
        args.append([make(c, kind, v), where, ids])
    return G, Q, args, cls


def candidates(what, G, Q, cc, Qkinds=None):
    """[{part: [(load, factor)]}] of EN 1990 6.4.3 and 6.5.3"""
    one = [(g, 1.0) for g in G]
    out = []
    if what == "uls":
        k = KFI[cc]
        out.append({"G": [(g, 1.35 * k) for g in G]})
        for i, q in enumerate(Q):
            out.append({"G": [(g, 1.15 * k) for g in G], "Q1": [(q, 1.5 * k)],
                        "Qi": [(p, 1.5 * k * p[1][0]) for j, p in enumerate(Q) if j != i]})
    elif what == "quasi":
        out.append({"G": one, "Qi": [(q, q[1][2]) for q in Q]})
    else:
        if not Q or what == "acc":
            out.append({"G": one})
        for i, q in enumerate(Q):
            first = {"char": 1.0, "freq": q[1][1], "acc": q[1][2] if Qkinds and Qkinds[i] == "imposed" else q[1][1]}[what]
            out.append({"G": one, "Q1": [(q, first)], "Qi": [(p, p[1][0 if what == "char" else 2]) for j, p in enumerate(Q) if j != i]})
    return out


def total(x):
    return sum((q[0] * f for part in x.values() for q, f in part), 0)


def govern(c, what, G, Q, cc=2, kinds=None):
    """the governing combination (a case split), at least 1e-6 above the others"""
    out = [x for x in candidates(what, G, Q, cc, kinds)]
    k = c.choice("governing %s" % what, list(range(len(out)))) if len(out) > 1 else 0
    for i, x in enumerate(out):
        if i != k:
            c.assume(total(out[k]) >= total(x) + 1e-6)
    return out[k]


def report(c, name, got, parts):
    """got = {'x': [...], 'y': [...]}: sums of the factored loads of every identifier and direction, each load rounded to two decimals"""
    entries = [e for p in parts for e in p]
    top = max(i for q, _ in entries for i in q[3])
    for d in "xy":
        c.same("%s: identifiers %s" % (name, d), len(got[d]), top + 1)
        for i in range(top + 1):
            here = [(q[0] * f, q[2]) for q, f in entries if i in q[3]]
            if not here:
                c.same("%s: nothing there" % name, got[d][i], None)
                continue
            want = [x for x, w in here if w == d]
            for sign in (1, -1):
                c.le("%s: sum %s" % (name, d), sign * (got[d][i] - sum(want, 0)), 0.005 * len(want) + 1e-6)


def kinds(args):
    return [{"Sn": "snow", "Wi": "wind", "Im": "imposed"}[type(a[0]).__name__[:2]] for a in args if type(a[0]).__name__[:2] in ("Sn", "Wi", "Im")]


def register(what):
    @harness(name="governing_combination_%s" % what, bounded=BE, budget=600)
    def h(c):
        """the report is the factored sum of the governing combination, again and again"""
        m = c.mod(EN)
        k = 5.0
        G, Q, args, cls = loads(c, k)
        cc = 1 + 2 * (len(G) % 2)
        C = {"uls": m.ULSCombiner, "acc": m.ACCCombiner}.get(what, m.SLSCombiner)(cls, cc, k)
        C.add(*args)
        best = govern(c, what, G, Q, cc, kinds(args))
        if not sum(len(p) for p in best.values()):
            c.assume(False)
        if what in ("uls", "acc"):
            res = C.combine()
            c.eq("value", res["value"], total(best), scale=1000)
            for r in range(2):
                report(c, "result %d" % r, C.get_result(), best.values())
        else:
            n = {"char": 0, "freq": 1, "quasi": 2}[what]
            c.eq("value", C.combine()[n]["value"], total(best), scale=1000)
            for r in range(2):
                report(c, "result %d" % r, C.get_result()[what], best.values())
            got = C.get_result(True)[what]
            for p in ("G", "Q1", "Qi"):
                c.same("part %s" % p, p in got, bool(best.get(p)))
                if best.get(p) and p in got:
                    report(c, "part " + p, got[p], [best[p]])


for w in ("uls", "char", "freq", "quasi", "acc"):
    register(w)


@harness()
def reduction_of_imposed_loads(c):
    """5/7 psi0 + A0/A between 0.7 and 1, for imposed loads of classes A to D only"""
    m = c.mod(EN)
    cls = c.choice("class", "ABCDE")
    k, L, v, w = c.real("spacing", 0.5, 20), c.real("length", 0.5, 60), c.real("imposed", 0.1, 10), c.real("wind", 0.1, 10)
    C = m.SLSCombiner(cls, 2, k)
    C.add([m.WindLoad(w), "y", [0]], [m.ImposedLoad(v), "y", [0]])
    C.use_reduction_factor(L)
    al = c.min(1.0, c.max(0.7, 5 / 7 * CLASS[cls][0] + 10 / (k * L))) if cls != "E" else 1.0
    p = CLASS[cls]
    for i in range(3):
        c.eq("combination value %d" % i, C.sum_Q_k(i), k * (v * al * p[i] + w * [0.6, 0.2, 0.0][i]), scale=1000)


@harness(bounded=BE)
def all_limit_states_at_once(c):
    """the combiner of all limit states has the same loads in each of them"""
    m = c.mod(EN)
    cls, cc, k = c.choice("class", ["A", "E"]), c.choice("consequence class", [1, 2, 3]), 4.0
    g, q, s = c.real("g", 0.5, 10), c.real("q", 0.1, 10), c.real("s", 0.1, 2.5)
    G = [(g, None, "y", [0])]
    Q = [(q * k, psi("imposed", q, cls), "y", [0]), (s * k, psi("snow", s, cls), "y", [0, 1])]
    M = m.MultiCombiner(cls, cc, k)
    lo = [[m.Load(g), "y", [0]], [m.ImposedLoad(q), "y", [0]], [m.SnowLoad(s), "y", [0, 1]]]
    if c.choice("added", ["at once", "one by one"]) == "at once":
        M.add(*lo)
    else:
        for x in lo:
            M.add(x)
    what = c.choice("limit state", ["uls", "char", "freq", "quasi", "acc"])
    best = govern(c, what, G, Q, cc, ["imposed", "snow"])
    r = M.get_result()
    report(c, what, r[what] if what in ("uls", "acc") else r["sls"][what], best.values())
