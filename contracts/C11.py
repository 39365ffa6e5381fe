"""C11: steel at elevated temperature by EN 1993-1-2 (tables 3.1, C.1, D.1, E.1; clauses 3.2 - 3.4, 4.2.5; annexes A and C)."""
F = "metku.eurocodes.en1993.en1993_1_2"
SD = "metku.materials.steel_data"
T13 = (20, 100, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200)
TBOLT = (20, 100, 150, 200, 300, 400, 500, 600, 700, 800, 900, 1000, 1100, 1200)
# independent transcription of the tables
TABLES = {
    ("carbon", "ky"): (T13, (1, 1, 1, 1, 1, 0.78, 0.47, 0.23, 0.11, 0.06, 0.04, 0.02, 0)),
    ("carbon", "kp"): (T13, (1, 1, 0.807, 0.613, 0.42, 0.36, 0.18, 0.075, 0.05, 0.0375, 0.025, 0.0125, 0)),
    ("carbon", "kE"): (T13, (1, 1, 0.9, 0.8, 0.7, 0.6, 0.31, 0.13, 0.09, 0.0675, 0.045, 0.0225, 0)),
    ("carbon", "kp02"): (T13, (1, 1, 0.89, 0.78, 0.65, 0.53, 0.30, 0.13, 0.07, 0.05, 0.03, 0.02, 0)),
    ("1.4301", "kE"): (T13, (1, 0.96, 0.92, 0.88, 0.84, 0.8, 0.76, 0.71, 0.63, 0.45, 0.2, 0.1, 0)),
    ("1.4301", "k02"): (T13, (1, 0.82, 0.68, 0.64, 0.60, 0.54, 0.49, 0.40, 0.27, 0.14, 0.06, 0.03, 0)),
    ("1.4301", "ku"): (T13, (1, 0.87, 0.77, 0.73, 0.72, 0.67, 0.58, 0.43, 0.27, 0.15, 0.07, 0.03, 0)),
    ("1.4301", "ky"): (T13, (0.26, 0.24, 0.19, 0.19, 0.19, 0.19, 0.22, 0.26, 0.35, 0.38, 0.40, 0.40, 0.40)),
    ("1.4301", "kEct"): (T13, (0.11, 0.05) + (0.02,) * 11),
    ("1.4301", "epsU"): (T13, (0.4,) * 6 + (0.35, 0.3) + (0.2,) * 5),
    ("bolts", "kb"): (TBOLT, (1, 0.968, 0.952, 0.935, 0.903, 0.775, 0.55, 0.22, 0.1, 0.067, 0.033, 0, 0, 0)),
}
FALLING = [k for k in TABLES if k != ("1.4301", "ky")]


def factor(c, key, t):
    T, k = TABLES[key]
    for i in range(1, len(T)):
        if t <= T[i]:
            return k[i - 1] + (k[i] - k[i - 1]) * (t - T[i - 1]) / (T[i] - T[i - 1])


def table(key):
    @harness(name="factor_%s_%s" % key, timeout=10)
    def _(c):
        t = c.real("t", 20, 1200)
        k = c.mod(F).reduce_property(t, key[1], key[0])
        c.eq("interpolated between the rows of the table", k, factor(c, key, t))
        c.ge("not negative", k, 0)
        c.le("not above 1", k, 1)

    @harness(name="rows_%s_%s" % key)
    def _(c):
        m = c.mod(F)
        for t, k in zip(*TABLES[key]):
            c.eq("value at %d degrees" % t, m.reduce_property(t, key[1], key[0]), k)
            c.eq("value at %d.0 degrees" % t, m.reduce_property(float(t), key[1], key[0]), k)


for _k in TABLES:
    table(_k)


def falling(key):
    @harness(name="falling_%s_%s" % key, timeout=10)
    def _(c):
        """never increases, and continuous (0.35 % per degree is the steepest row of all tables)"""
        t1, t2 = c.real("t1", 20, 1200), c.real("t2", 20, 1200)
        c.assume(t1 <= t2)
        m = c.mod(F)
        k1, k2 = m.reduce_property(t1, key[1], key[0]), m.reduce_property(t2, key[1], key[0])
        c.le("never grows with temperature", k2, k1)
        c.le("continuous", k1 - k2, 0.0035 * (t2 - t1))


for _k in FALLING:
    falling(_k)


@harness()
def interpolation(c):
    m = c.mod(F)
    x1, d, y1, y2, s = c.real("x1", -1e4, 1e4), c.real("dx", 0.01, 1e4), c.real("y1", -10, 10), c.real("y2", -10, 10), c.real("s", 0, 1)
    c.eq("point on the chord", m.linear_interpolation((x1, y1), (x1 + d, y2), x1 + s * d), y1 + s * (y2 - y1))


def factors_only(c, m):
    """replace reduce_property, under contract above, by its factors"""
    c.stub(m, "reduce_property", lambda t, prop, steel="carbon": c.uf("k_%s_%s" % (steel, prop), t, lo=0, hi=1))
    return m


@harness()
def material_values(c):
    m = factors_only(c, c.mod(F))
    t, x = c.real("t", 20, 1200), c.real("value at 20 degrees", 100, 3e5)
    c.eq("E", m.EaT(t, x), m.reduce_property(t, "kE") * x)
    c.eq("E of stainless steel", m.EaT(t, x, "1.4301"), m.reduce_property(t, "kE", "1.4301") * x)
    c.eq("default E", m.EaT(t), m.reduce_property(t, "kE") * 210000)
    c.eq("yield strength", m.fyT(t, x), m.reduce_property(t, "ky") * x)
    c.eq("proportional limit", m.fpT(t, x), m.reduce_property(t, "kp") * x)
    c.eq("0.2 % proof strength of stainless steel", m.f02pT(t, x), m.reduce_property(t, "k02", "1.4301") * x)
    c.eq("ultimate strength of stainless steel", m.fuT(t, x, "1.4301"), m.reduce_property(t, "ku", "1.4301") * x)
    c.eq("bolts", m.kbT(t), m.reduce_property(t, "kb", "bolts"))
    fu = 1.25 * x if t < 300 else (2 - 0.0025 * t) * x if t < 400 else x
    c.eq("ultimate strength of carbon steel (annex A)", m.fuT(t, x), fu)
    c.ge("ultimate strength is not below the yield strength", m.fuT(t, x), x)


@harness()
def material_object(c):
    m = factors_only(c, c.mod(F))
    grade = c.choice("grade", ["S235", "S355", "S420", "S700"])
    s = c.mod(SD).Steel(grade)
    s.fy = c.real("fy", 200, 1000)
    t = c.real("t", 20, 1200)
    c.eq("Etemp", s.Etemp(t), m.reduce_property(t, "kE") * 210000)
    c.eq("fy_temp", s.fy_temp(t), m.reduce_property(t, "ky") * s.fy)
    c.eq("fp_temp", s.fp_temp(t), m.reduce_property(t, "kp") * s.fy)
    c.eq("fu_temp", s.fu_temp(t), m.fuT(t, m.reduce_property(t, "ky") * s.fy))
    e, h = c.real("strain", 0, 0.25), c.choice("hardening", [False, True])
    c.stub(m, "stress", lambda e, t, E, f, h=False: c.uf("stress%s" % h, e, t, E, f))
    c.eq("stress_temp", s.stress_temp(e, t, h), m.stress(e, t, 210000, s.fy, h))


# ------------------------------------------------------------------ stress-strain curve
def mechanics(c):
    """arbitrary reduced values with kp fy <= ky fy and a proportional strain below 2 %"""
    m = c.mod(F)
    fy, ep, E, kp = c.real("fyT", 5, 700), c.real("proportional strain", 1e-5, 0.019), c.real("EaT", 1000, 210000), None
    fp = ep * E
    c.assume(fp < fy)
    c.assume((0.02 - ep) * E > 2.02 * (fy - fp))      # holds for every temperature of Table 3.1 and fy up to 700 (harness below)
    return m, fy, ep, E, fp


def with_values(c, m, fy, fp, E):
    c.stub(m, "fyT", lambda t, f=355, steel="carbon": fy)
    c.stub(m, "fpT", lambda t, f=355, steel="carbon": fp)
    c.stub(m, "EaT", lambda t, Ea=210000, steel="carbon": E)


CURVE = ["elastic", "ellipse", "plateau", "falling", "broken"]


def curve(branch):
    @harness(name="stress_" + branch, timeout=15)
    def _(c):
        m = c.mod(F)
        t = c.choice("t", [20, 100, 150, 200, 270, 300, 350, 399, 400, 430, 500, 550, 600, 685, 700, 800, 850, 900, 1000, 1150])
        fya, Ea = c.real("fy", 200, 700), 210000
        fy, fp, E = m.fyT(t, fya), m.fpT(t, fya), m.EaT(t, Ea)          # under contract above
        hard = c.choice("hardening", [False, True])
        fu = m.fuT(t, fy)
        ep = fp / E
        if branch == "elastic":
            e = c.real("strain/proportional strain", 0, 1) * ep
            c.eq("E strain", m.stress(e, t, Ea, fya, hard), E * e)
        elif branch == "ellipse":
            e = ep + (0.02 - ep) * c.real("position", 0, 1, lo_open=True, hi_open=True)
            st = m.stress(e, t, Ea, fya, hard)
            if fy == fp:
                c.eq("no ellipse at low temperature", st, fy)
            else:
                cc = (fy - fp) ** 2 / ((0.02 - ep) * E - 2 * (fy - fp))
                a2 = (0.02 - ep) * (0.02 - ep + cc / E)
                b2 = cc * (0.02 - ep) * E + cc ** 2
                # the point (strain, stress) lies on the ellipse with half axes a, b about (0.02, fp - c), above its centre
                c.eq("on the ellipse", ((st - fp + cc) ** 2) * a2, b2 * (a2 - (0.02 - e) ** 2))
                c.ge("upper half", st, fp - cc)
        elif branch == "plateau":
            e = c.real("strain", 0.02, 0.15)
            want = fy
            if hard:
                want = 50 * (fu - fy) * e + 2 * fy - fu if e < 0.04 else fu
            c.eq("yield plateau or strain hardening", m.stress(e, t, Ea, fya, hard), want)
        elif branch == "falling":
            e = c.real("strain", 0.15, 0.2, lo_open=True)
            f = fu if hard else fy
            c.eq("linear descent to zero at 20 %", m.stress(e, t, Ea, fya, hard), f * (1 - 20 * (e - 0.15)) if e < 0.2 else 0)
        else:
            e = c.real("strain", 0.2, 1)
            c.eq("no stress beyond 20 %", m.stress(e, t, Ea, fya, hard), 0)


for _b in CURVE:
    curve(_b)


# every temperature: reduced strengths under contract above, taken here as arbitrary values
def curve_any(branch):
    @harness(name="stress_any_values_" + branch, timeout=20)
    def _(c):
        m, fy, ep, E, fp = mechanics(c)
        t = c.real("t", 20, 1199)
        f0 = c.real("fy", 200, 700)
        if not c.symbolic:
            return               # real callees are used above
        with_values(c, m, fy, fp, E)
        if branch == "elastic":
            e = ep * c.real("strain/proportional strain", 0, 1)
            c.eq("E strain", m.stress(e, t, 210000, f0), E * e)
        elif branch == "ellipse":
            e = ep + (0.02 - ep) * c.real("position", 0, 1, lo_open=True, hi_open=True)
            st = m.stress(e, t, 210000, f0)
            cc = (fy - fp) ** 2 / ((0.02 - ep) * E - 2 * (fy - fp))
            a2 = (0.02 - ep) * (0.02 - ep + cc / E)
            b2 = cc * (0.02 - ep) * E + cc ** 2
            c.eq("on the ellipse", ((st - fp + cc) ** 2) * a2, b2 * (a2 - (0.02 - e) ** 2))
            c.ge("upper half", st, fp - cc)
        elif branch == "plateau":
            e = c.real("strain", 0.02, 0.15)
            c.eq("plateau", m.stress(e, t, 210000, f0), fy)
            fu = m.fuT(t, fy)
            c.eq("hardening", m.stress(e, t, 210000, f0, True), 50 * (fu - fy) * e + 2 * fy - fu if e < 0.04 else fu)
        else:
            e = c.real("strain", 0.15, 1, lo_open=True)
            c.eq("descent", m.stress(e, t, 210000, f0), fy * (1 - 20 * (e - 0.15)) if e < 0.2 else 0)
            c.eq("descent with hardening", m.stress(e, t, 210000, f0, True), m.fuT(t, fy) * (1 - 20 * (e - 0.15)) if e < 0.2 else 0)


for _b in CURVE[:4]:
    curve_any(_b)


@harness(timeout=15)
def strains_are_ordered(c):
    """precondition of the ellipse (used above): the proportional strain stays well below 2 % and the ellipse exists"""
    m = c.mod(F)
    t, fya = c.real("t", 20, 1199), c.real("fy", 200, 700)
    fy, fp, E = fya * factor(c, ("carbon", "ky"), t), fya * factor(c, ("carbon", "kp"), t), 210000 * factor(c, ("carbon", "kE"), t)
    c.ensures("E > 0", E > 0)
    c.le("proportional limit not above the yield strength", fp, fy)
    c.lt("proportional strain below 2 %", fp, 0.019 * E)
    c.lt("the ellipse exists", 2.02 * (fy - fp), 0.02 * E - fp)


# ------------------------------------------------------------------ stainless steel curve (annex C)
@harness(timeout=20)
def stainless_second_part(c):
    m = c.mod(F)
    t = c.choice("t", [20, 100, 250, 300, 475, 500, 600, 650, 700, 800, 900, 1000])
    Ea = 200000
    f02, E, fu = [m.f02pT(t, 210), m.EaT(t, Ea, "1.4301"), m.fuT(t, 520, "1.4301")]
    Ect, eu = Ea * m.reduce_property(t, "kEct", "1.4301"), m.reduce_property(t, "epsU", "1.4301")
    ec = f02 / E + 0.002
    e = ec + (eu - ec) * c.real("position", 0, 1, lo_open=True)
    st = m.stress_stainless(e, t, Ea, 210, 520)
    q = (fu - f02) ** 2 / ((eu - ec) * Ect - 2 * (fu - f02))
    c2 = (eu - ec) * (eu - ec + q / Ect)
    d2 = q * (eu - ec) * Ect + q ** 2
    c.eq("on the ellipse", (st - f02 + q) ** 2 * c2, d2 * (c2 - (eu - e) ** 2))


@harness(timeout=20)
def stainless_first_part(c):
    m = c.mod(F)
    t = c.choice("t", [20, 100, 250, 300, 475, 500, 600, 650, 700, 800, 900, 1000])
    Ea = 200000
    f02, E = m.f02pT(t, 210), m.EaT(t, Ea, "1.4301")
    Ect = Ea * m.reduce_property(t, "kEct", "1.4301")
    ec = f02 / E + 0.002
    b = (1 - ec * Ect / f02) * E * ec / ((E * ec / f02 - 1) * f02)
    a = (E * ec - f02) / (f02 * ec ** b)
    s = c.choice("strain/ec", [0.0, 0.1, 0.3, 0.5, 0.8, 0.9, 0.999])
    c.eq("E strain/(1 + a strain^b)", m.stress_stainless(s * ec, t, Ea, 210, 520), E * s * ec / (1 + a * (s * ec) ** b))


# ------------------------------------------------------------------ thermal properties
@harness()
def thermal_carbon(c):
    m = c.mod(F)
    t = c.real("t", 20, 1200)
    el = 1.2e-5 * t + 0.4e-8 * t ** 2 - 2.416e-4 if t < 750 else 1.1e-2 if t <= 860 else 2e-5 * t - 6.2e-3
    c.eq("elongation", m.therm_elongation(t), el)
    c.eq("conductivity", m.therm_conductivity(t), 54 - 3.33e-2 * t if t < 800 else 27.3)


@harness()
def specific_heat(c):
    m = c.mod(F)
    t = c.real("t", 20, 1200)
    if t < 600:
        ca = 425 + 7.73e-1 * t - 1.69e-3 * t ** 2 + 2.22e-6 * t ** 3
    elif t < 735:
        ca = 666 + 13002 / (738 - t)
    elif t < 900:
        ca = 545 + 17820 / (t - 731)
    else:
        ca = 650
    c.eq("specific heat", m.spec_heat(t), ca)
    c.ensures("positive", m.spec_heat(t) > 0)


@harness()
def thermal_stainless(c):
    m = c.mod(F)
    t = c.real("t", 20, 1200)
    c.eq("elongation", m.therm_elongation_stainless(t), (16 + 4.79e-3 * t - 1.243e-6 * t ** 2) * (t - 20) * 1e-6)
    c.eq("conductivity", m.therm_conductivity_stainless(t), 14.6 + 1.27e-2 * t)
    c.eq("specific heat", m.spec_heat_stainless(t), 450 + 0.28 * t - 2.91e-4 * t ** 2 + 1.34e-7 * t ** 3)


# ------------------------------------------------------------------ gas temperature and heating
@harness()
def fires(c):
    m = c.mod(F)
    t = c.real("t", 0, 600)
    c.eq("ISO 834", m.standard_fire(t), 20 + 345 * c.log(8 * t + 1) / c.log(10))
    c.eq("hydrocarbon", m.hydrocarbon_fire(t), 20 + 1080 * (1 - 0.325 * c.exp(-0.167 * t) - 0.675 * c.exp(-2.5 * t)))


@harness()
def heat_flux(c):
    m = c.mod(F)
    g, s = c.real("gas", 20, 1300), c.real("steel", 20, 1200)
    phi, ef, em, ac = c.real("phi", 0, 1), c.real("eps_f", 0, 1), c.real("eps_m", 0, 1), c.real("ac", 4, 50)
    c.eq("convection + radiation", m.hnet(g, s, phi, ef, em, ac), ac * (g - s) + phi * em * ef * 5.67e-8 * ((g + 273) ** 4 - (s + 273) ** 4))
    c.eq("defaults", m.hnet(g, s), 25 * (g - s) + 0.7 * 5.67e-8 * ((g + 273) ** 4 - (s + 273) ** 4))


def heating(kind):
    @harness(name="heating_" + kind, bounded="three time steps from an arbitrary steel temperature")
    def _(c):
        m = c.mod(F)
        c.stub(m, "hnet", lambda g, s, phi=1.0, eps_f=1.0, eps_m=0.7, ac=25: c.uf("hnet", g, s, phi, eps_f, eps_m, ac))
        heat = "spec_heat" if kind == "carbon" else "spec_heat_stainless"
        c.stub(m, heat, lambda t: c.uf("heat", t, lo=400, hi=5000))
        run = m.steel_temp if kind == "carbon" else m.stainless_steel_temp
        em = 0.7 if kind == "carbon" else 0.4
        k, AmV, T0 = c.real("ksh", 0.5, 1), c.real("Am/V", 10, 400), c.real("T0", 20, 300)
        dt = c.choice("dt", [5, 2.5])
        fire, ac = c.choice("fire", [("standard_fire", 25), ("hydrocarbon_fire", 50)])
        gas = getattr(m, fire)
        T, time = run(k, AmV, 3 * dt, gas_temp=gas, dt=dt, Tsteel_ini=T0)
        c.same("one temperature per time", (len(T), len(time)), (4, 4))
        c.eq("starts at the given temperature", T[0], T0)
        for i in range(3):
            c.eq("time in minutes", time[i + 1], (i + 1) * dt / 60)
            q = m.hnet(gas(i * dt / 60), T[i], 1.0, 1.0, em, ac)
            c.eq("(4.25)", T[i + 1] - T[i], k * AmV / getattr(m, heat)(T[i]) / 7850 * q * dt)


heating("carbon")
heating("stainless")
