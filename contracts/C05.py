"""C05: steel member resistances and checks."""
SM = "metku.structures.steel.steel_member"
EC = "metku.eurocodes.en1993.en1993_1_1"
ec3 = use("ec3")
make = use("sections").make
E, G = 210e3, 81e3


class Profile:
    """profile with arbitrary properties (the member reads nothing else)"""
    code = None


def member(c, **k):
    sm = c.mod(SM)
    p = Profile()
    p.A, p.fy, p.E = c.real("A", 100, 1e5), c.real("fy", 235, 700), E
    p.G = c.real("G", 7e4, 9e4)
    p.I = [c.real("Iy", 1e4, 1e9), c.real("Iz", 1e4, 1e9)]
    p.Iy, p.Iz = p.I
    p.It, p.Iw = c.real("It", 1e2, 1e8), c.real("Iw", 0, 1e13)
    p.h, p.tf = c.real("h", 50, 1000), c.real("tf", 3, 40)
    p.imp_factor = [c.real("alpha_y", 0.13, 0.76), c.real("alpha_z", 0.13, 0.76)]
    p.imp_factor_LT, p.imp_factor_LT_gen = c.real("alpha_LT", 0.21, 0.76), c.real("alpha_LT_gen", 0.21, 0.76)
    p.r0 = c.real("i0", 5, 500)
    p.i0 = lambda: p.r0
    L = c.real("L", 100, 30000)
    ky, kz = c.real("ky", 0.5, 2), c.real("kz", 0.5, 2)
    m = sm.SteelMember(p, L, Lcr=[ky, kz], **k)
    return m, p, L, [ky, kz]


@harness()
def critical_loads_and_slenderness(c):
    m, p, L, k = member(c)
    N = m.ncrit()
    s = m.slenderness()
    c.same("one critical load per axis", (len(N), len(s)), (2, 2))
    for i in (0, 1):
        c.eq("Ncr = pi^2 E I/(k L)^2", N[i], c.pi ** 2 * E * p.I[i] / (k[i] * L) ** 2)
        c.eq("slenderness^2 = A fy/Ncr", s[i] ** 2, p.A * p.fy * (k[i] * L) ** 2 / (c.pi ** 2 * E * p.I[i]))
        c.ge("slenderness is non-negative", s[i], 0)
    NT = (p.G * p.It + c.pi ** 2 * E * p.Iw / L ** 2) / p.r0 ** 2
    c.eq("Ncr,T", m.ncrit_T(), NT)
    t = m.slenderness_torsional()
    c.eq("torsional slenderness^2 = A fy/Ncr,T", t ** 2, p.A * p.fy / NT)
    c.ge("torsional slenderness is non-negative", t, 0)
    c.eq("fy", m.fy(), p.fy)


@harness(timeout=15)
def buckling_strength(c):
    """the member's NbRd is chi(slenderness, curve of that axis) A fy; slendernesses under contract above"""
    m, p, L, k = member(c)
    ly, lz = c.real("ly", 0, 5), c.real("lz", 0, 5)
    # choose the second moments that give these slendernesses
    c.assume(ly > 0.01)
    c.assume(lz > 0.01)
    p.I = [p.A * p.fy * (k[0] * L / (c.pi * ly)) ** 2 / E, p.A * p.fy * (k[1] * L / (c.pi * lz)) ** 2 / E]
    N = m.buckling_strength()
    for i, l in ((0, ly), (1, lz)):
        c.eq("NbRd = chi A fy", N[i], ec3.chi(c, l, p.imp_factor[i]) * p.A * p.fy)
        c.le("NbRd <= A fy", N[i], p.A * p.fy)
    c.eq("NbRd property", m.NbRd[0], N[0])
    c.eq("NbRd property", m.NbRd[1], N[1])


@harness(timeout=15)
def torsional_buckling_strength(c):
    m, p, L, k = member(c)
    lT = c.real("lT", 0.01, 5)
    # choose the torsion constant that gives this slenderness
    p.Iw = 0
    p.It = p.A * p.fy * p.r0 ** 2 / (lT ** 2 * p.G)
    c.eq("NbRd,T = chi A fy with the z curve", m.torsional_buckling_strength(), ec3.chi(c, lT, p.imp_factor[1]) * p.A * p.fy)


@harness(timeout=15)
def LT_strength(c):
    m, p, L, k = member(c)
    l = c.real("slend", 0.05, 4)
    MRd = c.real("MRd", 1e3, 1e10)
    Mcr = MRd / l ** 2
    meth = c.choice("method", ["general", "specific"])
    r = c.real("r", 0, 2)
    m.add_section(myed=r * Mcr)
    got = m.LT_buckling_strength(Mcr, method=meth, MRd=MRd)
    l0 = 0.2 if meth == "general" else 0.4
    a = p.imp_factor_LT_gen if meth == "general" else p.imp_factor_LT
    x = 1 if r <= l0 ** 2 else ec3.chi_lt(c, l, a, meth)
    c.eq("MbRd = chi_LT MRd", got, x * MRd)
    c.le("MbRd <= MRd", got, MRd)
    c.eq("LT slenderness", m.LT_slenderness(Mcr, MRd=MRd), l)


@harness(timeout=15)
def mcrit_dual(c):
    m, p, L, k = member(c)
    C1, C2 = c.real("C1", 0.5, 4), c.real("C2", 0, 2)
    kz, kw, za = c.real("kz_", 0.5, 2), c.real("kw_", 0.5, 2), c.real("za", -500, 500)
    z = C2 * za
    N = c.pi ** 2 * E * p.I[1] / (kz * L) ** 2
    want = C1 * N * (c.sqrt((kz / kw) ** 2 * p.Iw / p.I[1] + G * p.It / N + z ** 2) - z)
    c.eq("Mcr of a doubly symmetric section", m.mcrit([C1, C2, 0], [kz, kw], za), want)


@harness(timeout=15)
def mcrit_mono(c):
    m, p, L, k = member(c, symmetry="mono")
    C1, C2, C3 = c.real("C1", 0.5, 4), c.real("C2", 0, 2), c.real("C3", 0, 2)
    kz, kw = c.real("kz_", 0.5, 2), c.real("kw_", 0.5, 2)
    p.zs, p.zj = c.real("zs", -200, 200), c.real("zj", -200, 200)
    z = C2 * (0 - p.zs) - C3 * p.zj
    N = c.pi ** 2 * E * p.I[1] / (kz * L) ** 2
    want = C1 * N * (c.sqrt((kz / kw) ** 2 * p.Iw / p.I[1] + G * p.It / N + z ** 2) - z)
    c.eq("Mcr of a mono-symmetric section", m.mcrit([C1, C2, C3], [kz, kw]), want)


@harness(timeout=15)
def mcrit_default(c):
    m, p, L, k = member(c)
    N = c.pi ** 2 * E * p.I[1] / L ** 2
    c.eq("Mcr with C1 = 1.12, centroidal load", m.mcrit(), 1.12 * N * c.sqrt(p.Iw / p.I[1] + G * p.It / N))


def forces(c, i):
    return dict(ned=c.real("N%d" % i, -1e6, 1e6), myed=c.real("My%d" % i, -1e8, 1e8), mzed=c.real("Mz%d" % i, -1e8, 1e8),
                vyed=c.real("Vy%d" % i, -1e6, 1e6), vzed=c.real("Vz%d" % i, -1e6, 1e6), ted=c.real("T%d" % i, -1e6, 1e6))


@harness(bounded="4 sections per member", timeout=15)
def extreme_forces(c):
    m, p, L, k = member(c)
    f = [forces(c, i) for i in range(1, 5)]
    for x, d in zip((0.0, 0.35, 0.5, 1.0), f):
        m.add_section(loc=x, **d)
    c.same("number of sections", m.nsect(), 4)
    for name, key in (("ned", "ned"), ("myed", "myed"), ("mzed", "mzed"), ("vyed", "vyed"), ("vzed", "vzed"), ("ted", "ted")):
        c.eq("forces are stored per section: " + name, list(getattr(m, name)), [d[key] for d in f])
    at, key = c.choice("quantity", [("NEd", "ned"), ("NcEd", 0), ("MEdY", "myed"), ("MEdZ", "mzed"), ("VEdY", "vyed"),
                                    ("VEdZ", "vzed")])
    want = c.max(*[abs(d[key]) for d in f]) if key else c.min(0, *[d["ned"] for d in f])
    c.eq("extreme over the sections: " + at, getattr(m, at), want)
    m.clear_sections()
    c.same("sections can be cleared", m.nsect(), 0)


def stub_strength(c, m, name):
    """replace the resistance under contract by an arbitrary positive value (both readings)"""
    y, z = c.real(name + "y", 1e3, 1e8), c.real(name + "z", 1e3, 1e8)
    m.buckling_strength = lambda verb=False: [y, z]
    return y, z


@harness(bounded="4 sections per member", timeout=15)
def check_buckling(c):
    m, p, L, k = member(c)
    Ns = [c.real("N%d" % i, -1e6, 1e6) for i in range(1, 5)]
    for x, N in zip((0.0, 0.35, 0.5, 1.0), Ns):
        m.add_section(loc=x, ned=N)
    Nby, Nbz = stub_strength(c, m, "Nb")
    r = m.check_buckling()
    N = c.max(0, *[-N for N in Ns])
    c.eq("largest compression over NbRd,y", r[0], N / Nby)
    c.eq("largest compression over NbRd,z", r[1], N / Nbz)
    c.eq("stored ratio y", m.stability["buck_y"], N / Nby)
    c.eq("stored ratio z", m.stability["buck_z"], N / Nbz)


@harness(bounded="3 sections per member", timeout=15)
def check_LT(c):
    m, p, L, k = member(c, LT_buckling=True)
    Ms = [c.real("M%d" % i, -1e8, 1e8) for i in range(1, 4)]
    for x, M in zip((0.0, 0.4, 1.0), Ms):
        m.add_section(loc=x, myed=M)
    Mb, Mc = c.real("MbRd", 1e3, 1e9), c.real("Mcr", 1e3, 1e9)
    m.mcrit = lambda *a, **k: Mc
    m.LT_buckling_strength = lambda Mcr, **k: Mb
    c.eq("largest moment over MbRd", m.check_LT_buckling(), c.max(*[abs(M) for M in Ms]) / Mb)


@harness(bounded="2 sections per member", timeout=15)
def check_sections(c):
    s, p = make(c)
    sm = c.mod(SM)
    m = sm.SteelMember(s, 5000)
    f = []
    for i in (1, 2):
        d = dict(ned=-c.real("N%d" % i, 1, 1e6), myed=c.real("M%d" % i, 1, 1e8), vzed=c.real("V%d" % i, 0, 1e6))
        f.append(d)
        m.add_section(loc=i - 1, **d)
    per = []
    for i in (0, 1):
        n = -f[i]["ned"] / (p["A"] * p["fy"])
        q = f[i]["myed"] / (p["Wpl"][0] * p["fy"])
        v = f[i]["vzed"] * c.sqrt(3) / (p["Av"][1] * p["fy"])
        u = [n, v, q, q / (1 - n) if n < 1 else n + q]
        r = m.check_section(i)
        c.eq("section ratios [N, V, M, MN]", list(r), u)
        w = m.sections[i]["utilization"]
        c.eq("stored ratios", [w["n"], w["vz"], w["my"], w["mny"]], u)
        per.append(c.max(*u))
    c.eq("largest ratio over the sections", m.check_sections(), c.max(*per))


@harness(bounded="3 sections per member", timeout=15)
def check_beamcolumn(c):
    m, p, L, k = member(c)
    N1, N2 = c.real("N1", -1e6, 1e6), c.real("N2", -1e6, 1e6)
    M1, M2 = c.real("M1", -1e8, 1e8), c.real("M2", -1e8, 1e8)
    Mz = c.choice("Mz", [0.0, 5.0e6])
    m.add_section(loc=0.0, mzed=Mz)
    m.add_section(loc=0.4, ned=N1, myed=M1)
    m.add_section(loc=1.0, ned=N2, myed=M2)
    M = c.max(abs(M1), abs(M2))
    c.assume(M >= 1e-3)
    cls = c.choice("class", [1, 3])
    p.section_class = lambda verb=False: cls
    p.MRd = c.real("MRd", 1e3, 1e9)
    Nby, Nbz = stub_strength(c, m, "Nb")
    ly, lz = c.real("ly", 0, 3), c.real("lz", 0, 3)
    m.slenderness = lambda verb=False: [ly, lz]
    Cm = c.real("Cm", 0.4, 1)
    m.Cmy = lambda sway=True, load="uniform": Cm
    r = m.check_beamcolumn()
    N = c.max(0, -N1, -N2)
    ky = ec3.kyy(c, N / Nby, ly, Cm, cls)
    kz = 0 if Mz == 0 else (0.6 if cls < 3 else 0.8) * ky
    c.eq("(6.61)", r[0], N / Nby + ky * M / p.MRd)
    c.eq("(6.62)", r[1], N / Nbz + kz * M / p.MRd)
    c.eq("stored ratio y", m.stability["bc_y"], r[0])
    c.eq("stored ratio z", m.stability["bc_z"], r[1])


@harness(bounded="1 section per member", timeout=15)
def check_beamcolumn_LTB(c):
    m, p, L, k = member(c, LT_buckling=True)
    N, M = c.real("N", 0, 1e6), c.real("M", 1, 1e8)
    m.add_section(loc=0.0, ned=-N, myed=M)
    cls = c.choice("class", [1, 3])
    p.section_class = lambda verb=False: cls
    Mb = c.real("MbRd", 1e3, 1e9)
    p.MRd = c.real("MRd", 1e3, 1e9)
    m.mcrit = lambda *a, **k: 1e9
    m.LT_buckling_strength = lambda Mcr, **k: Mb
    Nby, Nbz = stub_strength(c, m, "Nb")
    ly, lz = c.real("ly", 0, 3), c.real("lz", 0, 3)
    m.slenderness = lambda verb=False: [ly, lz]
    Cm = c.real("Cm", 0.4, 1)
    m.Cmy = lambda sway=True, load="uniform": Cm
    r = m.check_beamcolumn()
    ky = ec3.kyy(c, N / Nby, ly, Cm, cls)
    kz = ec3.kzy(c, ky, N / Nbz, lz, 1.0, cls, True)
    c.eq("(6.61) with chi_LT", r[0], N / Nby + ky * M / Mb)
    c.eq("(6.62) with chi_LT", r[1], N / Nbz + kz * M / Mb)


@harness()
def no_moment(c):
    m, p, L, k = member(c)
    m.add_section(ned=c.real("N", -1e6, 1e6))
    c.eq("no bending, no interaction", list(m.check_beamcolumn()), [0, 0])


@harness(timeout=15)
def Cmy(c):
    """the member hands its end and mid-span moments to Table B.3"""
    m, p, L, k = member(c)
    M0, M1 = c.real("M0", 1, 1e8), c.real("M1", -1e8, 1e8)
    load = c.choice("load", ["uniform", "point"])
    c.assume(abs(M1) >= 1)
    m.add_section(loc=0, myed=M0)
    m.add_section(loc=1, myed=M1)
    c.eq("sway frame", m.Cmy(sway=True), 0.9)
    c.eq("two end moments", m.Cmy(sway=False, load=load), ec3.cm(c, M0, M1, None, load))
    Ms = c.real("Ms", -1e8, 1e8)
    c.assume(abs(Ms - 0.5 * (M0 + M1)) >= 1)
    m.add_section(loc=0.5, myed=Ms)
    c.eq("two end moments and the mid-span moment", m.Cmy(sway=False, load=load), ec3.cm(c, M0, M1, Ms, load))


@harness(bounded="stubbed checks", timeout=15)
def design(c):
    ltb = c.choice("LTB", [False, True])
    m, p, L, k = member(c, LT_buckling=ltb)
    N = c.real("N", -1e6, 1e6)
    m.add_section(ned=N)
    u = [c.real("u%d" % i, 0, 3) for i in range(6)]
    m.check_sections = lambda class1or2=True, verb=False: u[0]
    m.check_LT_buckling = lambda: u[1]
    m.check_buckling = lambda: [u[2], u[3]]
    m.check_beamcolumn = lambda *a, **k: [u[4], u[5]]
    want = [u[0]] + ([u[1]] if ltb else []) + (u[2:] if N < 0 else [])
    c.eq("largest of all applicable ratios", m.design(), c.max(*want) if len(want) > 1 else want[0])


@harness()
def weight_and_cost(c):
    s, p = make(c)
    L = c.real("L", 100, 30000)
    m = c.mod(SM).SteelMember(s, L)
    c.eq("weight = A rho L", m.weight(), p["A"] * 7850e-9 * L)
    c.eq("cost = unit cost times weight", m.cost(), p["A"] * 7850e-9 * L)


@harness()
def sway_imperfection(c):
    m = c.mod(EC)
    h, n = c.real("h", 0.1, 100), c.integer("m", 1, 1000)
    c.eq("EN 1993-1-1 (5.5)", m.sway_imperfection(h, n),
         c.min(1, c.max(2 / c.sqrt(h), 2 / 3)) * c.sqrt((1 + 1 / n) / 2) / 200)


@harness()
def curve_of_rolled_I(c):
    """Table 6.2, rolled sections; Tables 6.4 and 6.5 for lateral-torsional buckling"""
    i = c.mod("metku.sections.steel.ISection")
    h, b, tf = c.real("h", 100, 1500), c.real("b", 50, 500), c.real("tf", 4, 140)
    c.assume(h > 2 * tf + 40)
    g = c.choice("steel", ["S235", "S355", "S420", "S460M", "S700"])
    s = i.CustomISection(h, b, tf, 10, 15, fy=g)
    high = g in ("S460M", "S700")
    if h > 1.2 * b:
        want = (("a0", "a0") if high else ("a", "b")) if tf <= 40 else (("a", "a") if high else ("b", "c"))
    else:
        want = (("a", "a") if high else ("b", "c")) if tf <= 100 else (("c", "c") if high else ("d", "d"))
    c.eq("flexural buckling", list(s.imp_factor), [ec3.ALPHA[k] for k in want])
    lt = ("a", "b") if h <= 2 * b else ("b", "c")
    c.eq("lateral-torsional buckling", [s.imp_factor_LT_gen, s.imp_factor_LT], [ec3.ALPHA[k] for k in lt])


@harness()
def curve_of_welded_I(c):
    w = c.mod("metku.sections.steel.wi")
    h, bt, bb, tt, tb = c.real("h", 300, 3000), c.real("bt", 60, 900), c.real("bb", 60, 900), c.real("tt", 4, 80), c.real("tb", 4, 80)
    s = w.WISection(h, 10, [bt, bb], [tt, tb])
    want = ("b", "c") if c.max(tt, tb) <= 40 else ("c", "d")
    c.eq("flexural buckling", list(s.imp_factor), [ec3.ALPHA[k] for k in want])
    lt = "c" if h <= 2 * c.min(bt, bb) else "d"
    c.eq("lateral-torsional buckling", [s.imp_factor_LT_gen, s.imp_factor_LT], [ec3.ALPHA[lt]] * 2)


@harness()
def curve_of_hollow_sections(c):
    """cold-formed hollow sections: curve c"""
    r, h = c.mod("metku.sections.steel.RHS"), c.mod("metku.sections.steel.CHS")
    for s in (r.RHS(200, 100, 6), r.SHS(150, 5), h.CHS(168.3, 6)):
        c.eq("flexural buckling", list(s.imp_factor), [ec3.ALPHA["c"]] * 2)
