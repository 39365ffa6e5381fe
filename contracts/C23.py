"""C23: workshop costs: rates of a cost centre, time times rate plus consumption, parts adding up."""
from types import SimpleNamespace as NS

W = "metku.cost.workshop"
CD = "metku.cost.cost_data"
PL = "metku.structures.steel.plates"
FJ = "metku.structures.steel.fin_plate_joint"
PT = "metku.raami.raami_plane_truss"
FM = "metku.raami.frame_member"
YEAR = 252 * 8 * 60
WAGE = {"plate_and_construction": 18.37, "welding": 18.13, "machine": 19.76, "quality_control": 19.16, "erecting_work": 18.76}
KWH = 0.1


def annuity(p, i, n):
    q = (1 + i) ** n
    return p * i * q / (q - 1)


def labour(nw):
    return nw * WAGE["machine"] * 1.7 / 60


def rates(length, width, nw, invest, resale, maint, years):
    """costs of a cost centre per minute"""
    area = length * width
    return {"labour": labour(nw),
            "equipment": annuity(invest - resale, 0.05, years) / YEAR,
            "equip_maintenance": maint / YEAR,
            "real_estate": annuity(area * 1000 - area * 12, 0.05, 50) / YEAR,
            "real_maintenance": area * 8 * 6.385 * 1.81 / YEAR}


@harness()
def annual_instalment(c):
    """the instalments, discounted, pay back the investment"""
    n = c.choice("years", [1, 2, 3, 5])
    p, i = c.real("invested", -1e6, 1e6), c.real("interest", 0.001, 0.5)
    a = c.mod(W).annual_cost(p, i, n)
    q = 1 + i
    paid = 0
    for k in range(n):
        paid = paid * q + a
    c.eq("future value of the instalments", paid, p * q ** n, scale=1e7)


@harness()
def annual_instalment_of_decades(c):
    n, i = c.choice("years", [10, 20, 50]), c.choice("interest", [0.01, 0.05, 0.1])
    p = c.real("invested", -1e6, 1e6)
    c.eq("instalment", c.mod(W).annual_cost(p, i, n), annuity(p, i, n))


CENTRES = {"CostCentre": dict(length=20, width=10, nw=1, eq=(1000, 0, 1000, 20), name="Cost Centre"),
           "BeamWeldingCost": dict(length=20, width=15, nw=2, eq=(200000, 0, 1000, 20), name="Beam Welding"),
           "BlastingCost": dict(length=40, width=10, nw=1, eq=(200000, 0, 1000, 20), name="Blasting"),
           "CuttingCost": dict(length=20, width=10, nw=2, eq=(280000, 0, 1000, 20), name="Cutting"),
           "PaintingCost": dict(length=15, width=5, nw=1, eq=None, name="Painting"),
           "AssemblingCostWeld": dict(length=15, width=5, nw=1, eq=(5000, 0, 0, 10), name="Assembly welding"),
           "SawingCost": dict(length=35, width=15, nw=1, eq=(310e3, 0, 1e3, 20), name="Sawing"),
           "DrillingCost": dict(length=35, width=15, nw=1, eq=(520000, 0, 1000, 20), name="Drilling")}
YEARS = ("CostCentre", "AssemblingCostWeld", "SawingCost")


def check_rates(c, k, cc, length, width, nw, eq):
    want = rates(length, width, nw, *(eq or (0, 0, 0, 20)))
    if k == "CostCentre":
        want["labour"] = 0
    c.same("components", sorted(cc.costs), sorted(want))
    for x in want:
        c.eq(x, cc.costs[x], want[x])
    c.eq("area", cc.Area, length * width)
    c.eq("utility", cc.utility, 1)


@harness()
def rates_by_default(c):
    k = c.choice("centre", list(CENTRES))
    d = CENTRES[k]
    cc = getattr(c.mod(W), k)()
    c.same("name", cc.name, d["name"])
    check_rates(c, k, cc, d["length"], d["width"], d["nw"], d["eq"])


@harness()
def rates_given(c):
    k = c.choice("centre", list(CENTRES))
    l, w, nw = c.real("length", 1, 100), c.real("width", 1, 100), c.real("workers", 0, 20)
    eq = None
    a = dict(length=l, width=w, workers=nw)
    if CENTRES[k]["eq"]:
        eq = [c.real("invested", 0, 1e6), c.real("resale", 0, 1e6), c.real("maintenance", 0, 1e5), CENTRES[k]["eq"][3]]
        a.update(eq_invest=eq[0], eq_resale=eq[1], eq_maint=eq[2])
        if k in YEARS:
            eq[3] = a["eq_year"] = c.choice("years", [1, 7, 20])
    check_rates(c, k, getattr(c.mod(W), k)(**a), l, w, nw, eq)


def arbitrary(c, cc, tag=""):
    """whatever was made in the centre before, at whatever rates; returns the sum of its rates per minute"""
    cc.times = {"productive": c.real("productive before" + tag, 0, 1e4), "non-productive": c.real("non-productive" + tag, 0, 100)}
    r = 0
    for x in cc.costs:
        cc.costs[x] = c.real(x + tag, 0, 100)
        r = r + cc.costs[x]
    for x in cc.productive_costs:
        cc.productive_costs[x] = c.real(x + " before" + tag, 0, 100)
    cc.consumables_cost = c.real("consumption before" + tag, 0, 1e4)
    cc.utility = c.real("utility" + tag, 0.05, 1)
    return r


@harness()
def time_rate_and_consumption(c):
    """any cost centre, in any state; nothing is changed by asking"""
    cc = c.mod(W).CostCentre()
    r = arbitrary(c, cc)
    tp, tn = cc.times["productive"], cc.times["non-productive"]
    want = (tp + tn) * r / cc.utility + tp * (cc.productive_costs["consumables"] + cc.productive_costs["energy"]) + cc.consumables_cost
    s = 1e8
    c.eq("cost", cc.cost(), want, scale=s)
    c.eq("cost when asked again", cc.cost(), want, scale=s)
    more = c.real("more", 0, 1000)
    cc.times["productive"] = tp + more
    c.ge("more time is not cheaper", cc.cost(), want, tol=1e-3)


def blast(c, cc, tag):
    l = c.real("length" + tag, 1, 1e5)
    t = l / 3000
    return (l,), t, 0, 0.042 * 0.75, 40 * KWH / 60, cc.times["non-productive"]


def cut(c, cc, tag):
    t, l = c.real("thickness" + tag, 1, 150), c.real("length" + tag, 1, 1e5)
    if bool(t <= 30):
        v = 8.9212 * t * t - 486.87 * t + 8155.8
        return (t, l), l / v, 0, 0.071 * 0.3 + 40 / 480, 72 * KWH / 60, cc.times["non-productive"]
    v = 658.67 - 4.1939 * t
    return (t, l), l / v, 0, 0.0063 * 18.4 + (0.025 + 1e-5 * t * t + 0.001 * t + 0.0224) * 4.18, 0, cc.times["non-productive"]


LAYERS = {"alkyd": [(0.48, 80, 2.8), (0.45, 40, 3.6), (0.45, 40, 3.6)], "epoxy": [(0.5, 60, 4.2), (0.5, 60, 4.2), (0.48, 40, 4.9)],
          "polyurethane": [(0.5, 60, 4.2), (0.5, 60, 5.9)], "acryl": [(0.48, 60, 6.4), (0.48, 60, 6.4), (0.40, 40, 6.4)]}


def paint_of(name):
    """litres and euros per mm2"""
    vol = cost = 0
    for solid, dft, price in LAYERS[name]:
        p0 = (dft * 1e-3 + 0.01 + 0.3 * dft * 1e-3) / solid
        vol, cost = vol + p0, cost + price * 1e-6 * p0
    return vol / 900000, cost


def paint(c, cc, tag):
    a = c.real("area" + tag, 1, 1e8)
    t, k = paint_of(cc.paint)
    return (a,), t * a, k * a, None, None, cc.times["non-productive"]


def weld(c, cc, tag):
    kind = c.choice("type" + tag, ["fillet", "butt"])
    a, l = c.real("size" + tag, 1, 50), c.real("length" + tag, 1, 1e5)
    tack = 0.5 + 0.5 + 0.27 + 3 * 0.09 + 0.05
    if kind == "fillet":
        t, w = l / 1000 * (0.4988 * a * a - 0.0005 * a + 0.0021), l * a * a * 7850e-9
    else:
        t, w = l / 1000 * (0.249 * a * a + 0.0096 * a - 0.0506), l * a * a / 2 * 7850e-9
    return (a, l, kind), t + tack, w * (cc.wire_price + 0.4 * 3.79), None, None, cc.times["non-productive"]


SPEED = [(5, 120, 0.4), (10, 100, 0.45), (15, 90, 0.5), (20, 80, 0.55), (25, 70, 0.6), (30, 60, 0.65), (35, 50, 0.7)]


def saw_speed(t):
    for lim, s, f in SPEED:
        if bool(t <= lim):
            return s, f
    return 40, 0.8


def sawn(h, t, ah, at):
    """minutes and euros for one cut"""
    s, f = saw_speed(t)
    return h / 2 / s + ah / 1800, at / (1800 * 1350 * f) * 170


def saw(c, cc, tag):
    l, b = c.real("length" + tag, 1, 1e5), c.integer("bevels" + tag, 0, 2)
    h, ah, at = ([c.real("%s%d%s" % (x, i, tag), 0, 1e5) for i in (0, 1)] for x in ("h", "ah", "at"))
    t = [c.real("t0" + tag, 1, 100), c.choice("t1" + tag, [4, 12, 40])]
    e = [sawn(h[i], t[i], ah[i], at[i]) for i in (0, 1)]
    return (l, b, "S355", h, t, ah, at), e[0][0] + e[1][0], e[0][1] + e[1][1], None, None, 2 + 2 * 1.25 + b + l / 20e3


WORK = {"BlastingCost": blast, "CuttingCost": cut, "PaintingCost": paint, "AssemblingCostWeld": weld, "SawingCost": saw}


def centre(c, k):
    w = c.mod(W)
    if k == "PaintingCost":
        return w.PaintingCost(paint=c.choice("paint", list(LAYERS)))
    if k == "AssemblingCostWeld":
        return w.AssemblingCostWeld(steel_grade=c.choice("grade", ["S355", "S420", "S550", "S690"]))
    return getattr(w, k)()


def register(k):
    @harness(name="cost_of_" + k)
    def _(c):
        """whatever was made before: the cost of this piece is its own time at the rates plus what it consumes"""
        cc = centre(c, k)
        r = arbitrary(c, cc)
        pc = dict(cc.productive_costs)
        args, tp, cons, pcons, energy, tn = WORK[k](c, cc, "")
        if pcons is None:
            pcons, energy = pc["consumables"], pc["energy"]
        if k in ("BlastingCost",):
            pcons, energy = pc["consumables"], pc["energy"]
        if k in ("BlastingCost", "CuttingCost"):
            cons = cc.consumables_cost
        got = cc.cost(*args)
        c.eq("productive time", cc.times["productive"], tp, scale=1e3)
        c.eq("non-productive time", cc.times["non-productive"], tn, scale=1e2)
        c.eq("consumption", cc.consumables_cost, cons, scale=1e3)
        c.eq("consumption per minute", cc.productive_costs["consumables"], pcons)
        c.eq("energy per minute", cc.productive_costs["energy"], energy)
        t, n = cc.times["productive"], cc.times["non-productive"]
        p, e, q = cc.productive_costs["consumables"], cc.productive_costs["energy"], cc.consumables_cost
        c.eq("cost", got, (t + n) * r / cc.utility + t * (p + e) + q, scale=1e6)

    @harness(name="prices_of_" + k)
    def _(c):
        cc = centre(c, k)
        if k == "BlastingCost":
            c.eq("grains", cc.productive_costs["consumables"], 0.042 * 0.75)
            c.eq("energy", cc.productive_costs["energy"], 40 * KWH / 60)
        if k == "AssemblingCostWeld":
            g = c.choice("other grade", ["S355", "S420", "S550", "S690"])
            c.eq("wire", c.mod(W).AssemblingCostWeld(steel_grade=g).wire_price, {"S355": 1.66, "S420": 1.66, "S550": 3.5, "S690": 2.34}[g])
            c.eq("energy", cc.productive_costs["energy"], 6 * KWH / 60)
        if k == "SawingCost":
            c.eq("energy", cc.productive_costs["energy"], 10 * KWH / 60)
        c.eq("consumption before any work", cc.times["productive"], 0 if k != "AssemblingCostWeld" else cc.welding_time() + 1.59)


for k in WORK:
    register(k)


@harness()
def longer_is_not_cheaper(c):
    """two pieces of one kind in one centre"""
    k = c.choice("centre", list(WORK))
    cc = centre(c, k)
    x, y = c.real("smaller", 1, 1e5), c.real("more", 0, 1e5)
    y = x + y
    if k in ("BlastingCost", "PaintingCost"):
        f = lambda v: cc.cost(v)
    elif k == "CuttingCost":
        t = c.real("thickness", 1, 150)
        f = lambda v: cc.cost(t, v)
    elif k == "AssemblingCostWeld":
        a, kind = c.real("size", 1, 50), c.choice("type", ["fillet", "butt"])
        f = lambda v: cc.cost(a, v, kind)
    else:
        t, h, ah, at = c.real("t", 1, 100), c.real("h", 0, 1e3), c.real("ah", 0, 1e5), c.real("at", 0, 1e5)
        what = c.choice("which grows", ["length", "height", "solid area", "area"])
        f = {"length": lambda v: cc.cost(v, 0, "S355", [h], [t], [ah], [at]),
             "height": lambda v: cc.cost(1000, 0, "S355", [v], [t], [ah], [at]),
             "solid area": lambda v: cc.cost(1000, 0, "S355", [h], [t], [v], [at]),
             "area": lambda v: cc.cost(1000, 0, "S355", [h], [t], [ah], [v])}[what]
    first = f(x)
    c.le("cost", first, f(y), tol=1e-6)
    c.ge("cost of nothing", first, 0)


@harness()
def thicker_is_not_cheaper(c):
    """larger welds; thicker plates as far as the speeds of the table fall (27.28 mm), and again with the flame"""
    k = c.choice("centre", ["plasma", "flame", "weld", "saw"])
    w = c.mod(W)
    l = 1000
    if k == "weld":
        cc, kind = w.AssemblingCostWeld(), c.choice("type", ["fillet", "butt"])
        x = c.real("size", 1, 50)
        y = x + c.real("more", 0, 50)
        f = lambda v: cc.cost(v, l, kind)
    elif k == "saw":
        cc = w.SawingCost()
        h, ah = c.real("h", 0, 1e3), c.real("ah", 0, 1e5)
        x = c.real("t", 1, 100)
        y = x + c.real("more", 0, 100)
        f = lambda v: cc.productive_time("S355", h, v, ah)
    else:
        cc = w.CuttingCost()
        lo, hi = (1, 27.28) if k == "plasma" else (30.01, 150)
        x, y = c.real("thickness", lo, hi), c.real("thicker", lo, hi)
        c.assume(x <= y)
        f = lambda v: cc.ProductiveTime(v, l)
    c.le("cost", f(x), f(y), tol=1e-6)


@harness()
def sawing_tables(c):
    cc = c.mod(W).SawingCost()
    t = c.real("t", 0.1, 200)
    s, f = saw_speed(t)
    c.eq("feeding speed", cc.feeding_speed(t), s)
    c.eq("Fsp", cc.Fsp(t), f)
    g = c.choice("grade", ["S235", "S355", "S420", "S500", "S550", "S690", "S700"])
    c.eq("area sawn by one blade", cc.blade_durability(t, g), 1800 * 1350 * f)
    h, ah = c.real("h", 0, 1e4), c.real("ah", 0, 1e6)
    c.eq("time", cc.productive_time(g, h, t, ah), h / (2 * s) + ah / 1800, scale=1e3)


@harness()
def sawing_of_one_end(c):
    cc = c.mod(W).SawingCost()
    h, t, ah, at, l = c.real("h", 0, 1e4), c.real("t", 1, 100), c.real("ah", 0, 1e5), c.real("at", 0, 1e5), c.real("L", 1, 1e5)
    tp, cons = sawn(h, t, ah, at)
    cc.cost(l, 1, "S355", [h], [t], [ah], [at])
    c.eq("time", cc.times["productive"], tp, scale=1e3)
    c.eq("blades", cc.consumables_cost, cons, scale=1e2)


@harness()
def paint_tables(c):
    w = c.mod(W)
    k = c.choice("paint", list(LAYERS))
    t, p = paint_of(k)
    c.eq("minutes per mm2", w.paints[k]["TPP"] * 1e6, t * 1e6)
    c.eq("euros per mm2", w.paints[k]["CP"] * 1e6, p * 1e6)
    a = c.real("area", 0, 1e9)
    cc = w.PaintingCost(paint=k)
    c.eq("time", cc.productive_time(a), t * a, scale=1e3)


@harness()
def workshop_keeps_its_centres(c):
    w = c.mod(W)
    if c.choice("given", [True, False]):
        d = {"cutting": w.CuttingCost(), "mine": NS()}
        ws = w.Workshop(cost_centres=d)
        c.same("keys", list(ws.cost_centres), ["cutting", "mine"])
        c.ensures("same objects", ws.cost_centres["cutting"] is d["cutting"] and ws.cost_centres["mine"] is d["mine"])
    else:
        ws = w.Workshop()
        want = {"blasting": "BlastingCost", "cutting": "CuttingCost", "assembly_welding": "AssemblingCostWeld", "sawing": "SawingCost",
                "painting": "PaintingCost", "beam_welding": "BeamWeldingCost", "drilling": "DrillingCost"}
        c.same("centres", {k: type(v).__name__ for k, v in ws.cost_centres.items()}, want)
        c.ensures("not shared", w.Workshop().cost_centres["cutting"] is not ws.cost_centres["cutting"])
        c.eq("plates", ws.steel_price["plates"], 1169.0)


# ------------------------------------------------------------------ parts
class Centre:
    """a cost centre that takes some price for what it is asked to make"""
    def __init__(self, c, name):
        self.c, self.name, self.asked = c, name, []

    def cost(self, *a, **k):
        self.asked.append((a, k))
        return price(self.c, self.name, len(self.asked))


def shop(c):
    cs = {k: Centre(c, k) for k in ("cutting", "painting", "blasting", "assembly_welding", "sawing")}
    return NS(cost_centres=cs, steel_price={"plates": c.real("price of plates", 100, 5000)}), cs


def price(c, name, i=1):
    known = c.__dict__.setdefault("prices", {})
    if (name, i) not in known:
        known[name, i] = c.real("%s %d" % (name, i), 0, 1000)
    return known[name, i]


ADD = [(5, 140), (6, 140), (7, 82), (8, 35), (10, 23), (12, 12), (20, 0), (50, 12), (60, 47), (80, 58)]


def thickness_price(t):
    for lim, v in ADD:
        if bool(t < lim):
            return v
    return 140


@harness()
def price_list(c):
    m = c.mod(CD)
    t = c.real("t", 1, 200)
    c.eq("thickness", m.thickness_add_on(t), thickness_price(t))
    g = c.choice("grade", ["S235", "S355", "S420"])
    c.eq("grade", m.steel_grade_add_on(g), 0 if g == "S235" else 35)


def plate(c, holed=False, grade="S355"):
    b, h, t = c.real("b", 20, 2000), c.real("h", 20, 2000), c.choice("t", [4, 5, 8, 12, 20, 50, 70, 100])
    c.mod("metku.frame2d.frame2d")
    m = c.mod(PL)
    if holed:
        n1, n2 = c.choice("n1", [1, 2, 3]), c.choice("n2", [1, 2])
        return m.RectPlateWithHoles(b, h, t, c.real("d0", 5, 40), [50, 50], 60, 60, n1, n2, grade), b, h, t, n1 * n2
    return m.RectPlate(b, h, t, grade), b, h, t


@harness(branch_ms=200)
def cost_of_a_plate(c):
    """material by weight, cutting round the edge and the holes, painting both faces and the edge, blasting; nothing of
    what was there before"""
    ws, cs = shop(c)
    grade = c.choice("grade", ["S235", "S355"])
    p, b, h, t = plate(c, grade=grade)
    before = c.choice("before", ["new", "welded", "holes"])
    if before == "welded":
        p.weld_size = 5.0
        p.cost(ws)
        p.weld_size = 0.0
    if before == "holes":
        p.holes = [20, 20]
        p.cost(ws)
        p.holes = []
    for x in cs.values():
        x.asked.clear()
    now = c.choice("now", ["plain", "welded", "holes"])
    d = [c.real("d%d" % i, 5, 50) for i in (0, 1)]
    if now == "welded":
        p.weld_size = c.real("weld", 1, 20)
    if now == "holes":
        p.holes = list(d)
    k = c.real("price", 100, 5000)
    got = p.cost(ws, k)
    kg = 7850e-9 * b * h * t
    want = kg * (k + (0 if grade == "S235" else 35) + thickness_price(t)) / 1000 + price(c, "cutting") + price(c, "painting") + price(c, "blasting")
    if now == "welded":
        want = want + price(c, "assembly_welding")
    if now == "holes":
        want = want + price(c, "cutting", 2)
    c.eq("cost", got, want, scale=1e3)
    c.eq("weight", p.weight(), kg, scale=10)
    u = 2 * b + 2 * h
    jobs = [("cutting", 0, (t, u)), ("painting", 0, (2 * b * h + t * u,))]
    if now == "welded":
        jobs.append(("assembly_welding", 0, (p.weld_size, u)))
    if now == "holes":
        jobs.append(("cutting", 1, (t, c.pi * (d[0] + d[1]))))
    for name, i, args in jobs:
        a = cs[name].asked[i][0]
        c.same("%s jobs" % name, len(cs[name].asked), sum(1 for j in jobs if j[0] == name))
        for j, (x, y) in enumerate(zip(a, args)):
            c.eq("%s %d: %d" % (name, i, j), x, y, scale=1e4)
    a = cs["blasting"].asked[0][0][0]
    c.ge("blasted at least b", a, b)
    c.ge("blasted at least h", a, h)
    c.ensures("blasted side", a == b or a == h)


@harness()
def cost_of_a_plate_with_holes(c):
    ws, cs = shop(c)
    p, b, h, t, n = plate(c, True)
    p.cost(ws)
    p.cost(ws)
    c.same("holes", len(p.holes), n)
    c.eq("length of the holes", cs["cutting"].asked[-1][0][1], n * c.pi * p.d0, scale=1e3)


@harness()
def fin_plate_joint(c):
    """plate, bolts with one nut and washer each, holes in the beam and two-sided weld of the plate; again, when asked again"""
    ws, cs = shop(c)
    m = c.mod(FJ)
    d = c.choice("d", [12, 16, 20, 24])
    n = c.choice("n", [1, 2, 3, 6])
    hp = c.real("hp", 50, 1000)
    own = c.real("plate", 0, 1000)
    got_shop = []
    given = c.choice("given", [0, 1])
    j = object.__new__(m.FinPlateJoint)
    pl = NS(n=n, cost=lambda w, k: got_shop.append((w, k)) or own, h=hp, n1=n, n2=1)
    j.__dict__.update(plate=pl, _cost={"plate": 7.0, "welding": 7.0, "beam holes": 7.0, "bolts": 7.0}, workshop=None if given else ws,
                      bolt=NS(bolt_type=c.choice("thread", ["Full thread", "Part thread"]), length=50 if d == 12 else 70 if d in (16, 20) else 80, d=d, d0=d + 2),
                      beam=NS(tw=c.real("tw", 3, 30)), weld_size=c.real("weld", 2, 10))
    got = j.cost(ws) if given else j.cost()
    cd = c.mod(CD)
    table = cd.bolt_unit_cost_full_thread if j.bolt.bolt_type == "Full thread" else cd.bolt_unit_cost_part_thread
    each = table[j.bolt.length][d] + {12: 0.10, 16: 0.27, 20: 0.54, 24: 0.98}[d] + {12: 0.30, 16: 0.46, 20: 0.65, 24: 0.82}[d]
    c.eq("cost", got, own + n * each + price(c, "cutting") + price(c, "assembly_welding"), scale=1e3)
    c.ensures("plate made in the workshop", got_shop[0][0] is ws)
    c.eq("plate price", got_shop[0][1], ws.steel_price["plates"])
    c.eq("holes", cs["cutting"].asked[0][0][1], n * c.pi * j.d0, scale=1e3)
    c.eq("web", cs["cutting"].asked[0][0][0], j.beam.tw)
    c.eq("weld size", cs["assembly_welding"].asked[0][0][0], j.weld_size)
    c.eq("weld length", cs["assembly_welding"].asked[0][0][1], 2 * hp)


# ------------------------------------------------------------------ members and trusses
@harness()
def cost_of_a_member(c):
    ws, cs = shop(c)
    m, fm = c.mod(PT), c.mod(FM)
    kind = c.choice("member", ["TopChord", "BottomChord", "TrussBrace"])
    k = getattr(m, kind)
    L, au = c.real("L", 100, 1e5), c.real("Au", 10, 5000)
    h, b, t, a = c.real("H", 20, 500), c.real("B", 20, 500), c.choice("T", [3, 6, 12.5, 16]), c.real("A", 100, 1e5)
    own = c.real("material", 0, 1e4)
    x = object.__new__(k)
    x.__dict__.update(frame=NS(workshop=ws), member=NS(cost=lambda: own))
    x.__dict__["_c"] = None
    sec = NS(H=h, B=b, T=t, A=a, Au=au, material="S355")
    c.stub(k, "length", lambda self: L, concrete=True)
    c.stub(k, "cross_section", property(lambda self: sec), concrete=True)
    c.stub(k, "material", property(lambda self: "S355"), concrete=True)
    got = x.cost()
    want = {"material": own, "blasting": price(c, "blasting"), "painting": price(c, "painting")}
    if kind == "TrussBrace":
        want["sawing"] = price(c, "sawing")
        s = cs["sawing"].asked[0][0]
        c.eq("length sawn from", s[0], L)
        c.eq("bevels", s[1], 0)
        for i in (0, 1):
            c.eq("thin height %d" % i, s[3][i], b)
            c.eq("thin walls %d" % i, s[4][i], t)
            c.eq("solid area %d" % i, s[5][i], 2 * h * t, scale=1e4)
            c.eq("area %d" % i, s[6][i], a)
    c.same("components", sorted(got), sorted(want))
    for q in want:
        c.eq(q, got[q], want[q])
        c.eq(q + " kept", x.costs[q], want[q])
    c.eq("length blasted", cs["blasting"].asked[0][0][0], L)
    c.eq("area painted", cs["painting"].asked[0][0][0], L * au, scale=1e6)


KEYS = ["material", "blasting", "painting", "sawing"]


@harness(bounded="trusses of up to two members of each kind and two joints")
def cost_of_a_truss(c):
    """sum over its members and joints, and the same sum by components"""
    m = c.mod(PT)

    def mem(i):
        ks = KEYS if i.startswith("brace") else KEYS[:3]
        d = {k: c.real("%s of %s" % (k, i), 0, 1e4) for k in ks}
        return NS(costs=d, cost=lambda: d)

    def joint(i):
        v = c.real("joint %d" % i, 0, 1e3)
        return NS(costs={"welding": v}, cost=lambda: v)
    nb, nt, nl, nj = (c.choice(x, [0, 1, 2]) for x in ("braces", "top", "bottom", "joints"))
    br, to, bo = [mem("brace %d" % i) for i in range(nb)], [mem("top %d" % i) for i in range(nt)], [mem("bottom %d" % i) for i in range(nl)]
    js = [joint(i) for i in range(nj)]
    t = c.instance(m.PlaneTruss, braces={i: x for i, x in enumerate(br)}, top_chord=to, bottom_chord=bo, joints={i: x for i, x in enumerate(js)})
    got = t.cost()
    want = {k: 0 for k in KEYS + ["welding"]}
    for x in br + to + bo + js:
        for k, v in x.costs.items():
            want[k] = want[k] + v
    s = 1e5
    c.eq("cost", got, sum(want.values()), scale=s)
    for k in want:
        c.eq(k, t.costs[k], want[k], scale=s)


@harness()
def welds_of_a_joint(c):
    """each brace is welded all round where it meets the chord"""
    ws, cs = shop(c)
    m = c.mod(PT)
    n = c.choice("braces", [1, 2, 3])
    ang = [c.real("angle %d" % i, 20, 90) for i in range(n)]
    for a in ang:
        c.assume(c.sin(a * c.pi / 180) >= 0.3)
    br = [NS(cross_section=NS(H=c.real("H%d" % i, 30, 400), B=c.real("B%d" % i, 30, 400), R=c.real("R%d" % i, 3, 14), T=c.real("T%d" % i, 3, 16)), frame=NS(workshop=ws), i=i) for i in range(n)]
    size = [c.real("size %d" % i, 2, 20) for i in range(n)]
    j = c.instance(m.TubularJoint, braces=br, costs={"welding": 99.0}, brace_angle=lambda b: ang[b.i], weld_size=lambda b: size[b.i])
    got = j.cost()
    want = 0
    for i in range(n):
        want = want + price(c, "assembly_welding", i + 1)
        a = cs["assembly_welding"].asked[i]
        q = br[i].cross_section
        c.eq("size %d" % i, a[0][0], size[i])
        c.eq("length %d" % i, a[0][1], 2 * (q.H / c.sin(ang[i] * c.pi / 180) + q.B) - 8 * q.R + 2 * c.pi * q.R, scale=1e3)
        c.same("type %d" % i, a[1].get("weld_type"), "fillet")
    c.eq("cost", got, want, scale=1e3)
    c.eq("cost kept", j.costs["welding"], want, scale=1e3)


# ------------------------------------------------------------------ weights
@harness()
def weight_of_a_member(c):
    """area times length times density; cost by the section's unit price"""
    from_frame = c.mod(FM)
    sm = c.mod("metku.structures.steel.steel_member")
    a, L, rho, u = c.real("A", 100, 1e5), c.real("L", 100, 1e5), c.real("density", 1e-7, 1e-4), c.real("unit cost", 0.1, 10)
    sec = NS(A=a, density=rho, weight=lambda: a * rho, cost=lambda: a * rho * u)
    x = c.instance(from_frame.FrameMember, cross_section=sec, length=lambda: L, member=None)
    c.eq("frame member", x.weight(), a * L * rho, scale=1e3)
    z = c.instance(from_frame.MultiSpanMember, cross_section=sec, length=lambda: L, member=None)
    c.eq("several spans", z.weight(), a * L * rho, scale=1e3)
    c.eq("cost without a member", x.cost(), a * L * rho * u, scale=1e4)
    x.member = NS(cost=lambda: 3 * u)
    c.eq("cost with a member", x.cost(), 3 * u)
    y = c.instance(sm.SteelMember, profile=sec, length=L)
    c.eq("steel member", y.weight(), a * L * rho, scale=1e3)
    c.eq("steel member per length", y.weight_per_length(), a * rho)
    c.eq("cost of a steel member", y.cost(), a * L * rho * u, scale=1e4)
    m2 = c.mod("metku.frame2d.frame2d")
    c.eq("2d frame member", c.instance(m2.FrameMember, A=a, length=L, rho=rho).weight, a * L * rho, scale=1e3)


@harness()
def weight_of_a_profile(c):
    k = c.choice("profile", ["IPE", "HEA", "RHS", "CHS", "SHS"])
    c.mod("metku.frame2d.frame2d")
    m = c.mod("metku.sections.steel.%s" % {"IPE": "ISection", "HEA": "ISection", "SHS": "RHS"}.get(k, k))
    args = {"IPE": (300,), "HEA": (200,), "RHS": (200, 100, 6), "CHS": (168.3, 6), "SHS": (150, 6)}[k]
    p = getattr(m, k)(*args)
    a = c.real("A", 100, 1e5)
    p.A = a
    p.unit_cost = c.real("unit cost", 0.1, 10)
    c.eq("weight", p.weight(), a * 7850e-9)
    c.eq("self-weight", p.self_weight(), a * 7850e-9 * 9.81)
    c.eq("cost", p.cost(), a * 7850e-9 * p.unit_cost)


@harness(bounded="up to three members")
def weight_of_a_frame(c):
    n = c.choice("members", [0, 1, 2, 3])
    w = [c.real("w%d" % i, 0, 1e5) for i in range(n)]
    pt = c.mod(PT)
    kinds = [pt.TopChord, pt.BottomChord, pt.TrussBrace]
    which = [c.choice("kind %d" % i, [0, 1, 2]) for i in range(n)]
    ms = {}
    for i in range(n):
        x = object.__new__(kinds[which[i]])
        x.__dict__["weight"] = lambda i=i: w[i]
        ms[i] = x
    c.eq("frame", c.instance(c.mod("metku.raami.raami").Raami, members=ms).weight(), sum(w), scale=1e5)
    c.eq("2d frame", c.instance(c.mod("metku.frame2d.frame2d").Frame2D, members={i: NS(weight=w[i]) for i in range(n)}).weight, sum(w), scale=1e5)
    v = c.mod("metku.raami.raami_vierendeel")
    for m in (pt.SlopedTruss, v.VierendeelTruss, v.SlopedTruss):
        got = c.instance(m, members=ms).weight_detailed()
        for k in (0, 1, 2):
            c.eq("%s %d" % (m.__name__, k), got[k], sum(w[i] for i in range(n) if which[i] == k), scale=1e5)
