"""C02: EN 1993-1-1 chapter 6 cross-section resistances and utilisation ratios."""
EC = "metku.eurocodes.en1993.en1993_1_1"
SS = "metku.sections.steel.steel_section"


make = use("sections").make


@harness()
def resistance_functions(c):
    m = c.mod(EC)
    A, fy, fu = c.real("A", 1, 1e6), c.real("fy", 200, 960), c.real("fu", 200, 1200)
    c.eq("tension (6.6)", m.tension_resistance(A, fy), A * fy / 1.0)
    c.eq("net section (6.7)", m.net_section_resistance(A, fu), 0.9 * A * fu / 1.25)
    c.eq("compression (6.10)", m.compression_resistance(A, fy), A * fy / 1.0)
    c.eq("bending (6.13)", m.bending_resistance(A, fy), A * fy / 1.0)
    c.eq("shear (6.18)", m.shear_resistance(A, fy), A * (fy / c.sqrt(3)) / 1.0)


@harness()
def section_axial_and_shear(c):
    s, p = make(c)
    N = c.real("N", -1e7, 1e7)
    s.Ned = N
    c.eq("NRd", s.NRd, p["A"] * p["fy"])
    c.eq("axial force resistance", s.axial_force_resistance(), p["A"] * p["fy"])
    c.eq("VRd", s.VRd, p["Av"][1] * p["fy"] / c.sqrt(3))
    c.eq("VzRd", s.VzRd, p["Av"][1] * p["fy"] / c.sqrt(3))
    c.eq("VyRd", s.VyRd, p["Av"][0] * p["fy"] / c.sqrt(3))
    C = c.choice("C", [1, 2, 3, 4])
    c.eq("shear force resistance z", s.shear_force_resistance(C=C), p["Av"][1] * p["fy"] / c.sqrt(3))
    c.eq("shear force resistance y", s.shear_force_resistance(C=C, axis="y"), p["Av"][0] * p["fy"] / c.sqrt(3))


@harness()
def section_bending(c):
    s, p = make(c)
    C = c.choice("C", [1, 2, 3])
    ax = c.choice("axis", ["y", "z"])
    i = 0 if ax == "y" else 1
    M, Cr = s.bending_resistance(C=C, axis=ax)
    c.same("class is passed through", Cr, C)
    c.eq("bending resistance uses Wpl in class 1-2, Wel in class 3", M, (p["Wpl"] if C < 3 else p["Wel"])[i] * p["fy"])
    c.eq("elastic resistance", s.elastic_bending_resistance(axis=ax), p["Wel"][i] * p["fy"])
    c.eq("plastic resistance", s.plastic_bending_resistance(axis=ax), p["Wpl"][i] * p["fy"])


@harness()
def section_bending_own_class(c):
    k = c.choice("C", [1, 2, 3])
    s, p = make(c, cls=(k, k, k, k))
    s.Med = [c.real("M", 1, 1e9), 0.0]
    W = p["Wpl"] if k < 3 else p["Wel"]
    c.eq("MRd", s.MRd, W[0] * p["fy"])
    c.eq("MyRd", s.MyRd, W[0] * p["fy"])
    c.eq("MzRd", s.MzRd, W[1] * p["fy"])


def force(c, name, hi):
    """zero, or at least 1e-3 in size (the code treats |M| < 1e-4 as zero)"""
    k = c.choice(name + "_sign", ["zero", "+", "-"])
    if k == "zero":
        return 0.0
    x = c.real(name, 1e-3, hi)
    return x if k == "+" else -x


@harness()
def class_of_section(c):
    cl = [c.choice(n, [1, 2, 3, 4]) for n in ("flange", "web_comp", "web_bend", "web_both")]
    s, p = make(c, cls=cl)
    N, M = force(c, "N", 1e7), force(c, "M", 1e9)
    s.Ned, s.Med = N, [M, 0.0]
    if N > 0 and M != 0:
        c.assume(N / p["A"] >= abs(M) / p["Wel"][0])
        want = 1
    elif N < 0 and M != 0:
        want = max(cl[0], cl[3])
    elif N < 0:
        want = max(cl[0], cl[1])
    elif M != 0:
        want = max(cl[0], cl[2])
    else:
        want = 1
    c.same("class of the section is the worst class of its compressed parts", s.section_class(), want)
    c.same("C", s.C, want)


@harness(timeout=12)
def utilisation(c):
    k = c.choice("C", [1, 2, 3])
    ax = c.choice("axis", ["y", "z"])
    s, p = make(c, cls=(k, k, k, k))
    N = -c.real("N", 1, 1e7)
    My, Mz = c.real("My", -1e9, 1e9), c.real("Mz", -1e9, 1e9)
    c.assume(abs(My) >= 1e-3)
    Vy, Vz = c.real("Vy", -1e6, 1e6), c.real("Vz", -1e6, 1e6)
    s.Ned, s.Med, s.Ved = N, [My, Mz], [Vy, Vz]
    UN, UV, UM, UMN = s.section_resistance(axis=ax)
    i = 0 if ax == "y" else 1
    M = (My, Mz)[i]
    V = (Vz, Vy)[i]
    Av = p["Av"][1 - i]
    W = (p["Wpl"] if k < 3 else p["Wel"])[i]
    n = -N / (p["A"] * p["fy"])
    m = abs(M) / (W * p["fy"])
    c.eq("UN = |N|/NRd", UN, n)
    c.eq("UV = |V|/VRd", UV, abs(V) * c.sqrt(3) / (Av * p["fy"]))
    c.eq("UM = |M|/MRd", UM, m)
    if k < 3 and n < 1:
        c.eq("UMN = |M|/MNRd", UMN, m / (1 - n))
    else:
        c.eq("UMN = UN + UM", UMN, n + m)
    c.eq("largest ratio", s.section_resistance(axis=ax, return_list=False), c.max(UN, UV, UM, UMN))


@harness(timeout=12)
def tension_utilisation(c):
    s, p = make(c, cls=(1, 1, 1, 1))
    N = c.real("N", 0, 1e7)
    M = c.real("M", -1e9, 1e9)
    s.Ned, s.Med, s.Ved = N, [M, 0.0], [0.0, 0.0]
    UN, UV, UM, UMN = s.section_resistance()
    c.eq("UN = N/NRd", UN, N / (p["A"] * p["fy"]))
    c.eq("UM", UM, abs(M) / (p["Wpl"][0] * p["fy"]))
    c.eq("UV", UV, 0.0)


@harness()
def derived(c):
    s, p = make(c)
    c.eq("weight per length", s.weight(), p["A"] * 7850e-9)
    c.eq("self weight N/mm", s.self_weight(), p["A"] * 7850e-9 * 9.81)
    c.eq("section factor", s.section_factor, p["Au"] / p["A"] * 1000)
    c.eq("iy^2 = Iy/A", s.iy() ** 2, p["I"][0] / p["A"])
    c.eq("iz^2 = Iz/A", s.iz() ** 2, p["I"][1] / p["A"])
    c.ge("iy >= 0", s.iy(), 0)
    c.ge("iz >= 0", s.iz(), 0)
    c.eq("i0^2 = iy^2 + iz^2", s.i0() ** 2, (p["I"][0] + p["I"][1]) / p["A"])
    N, M = c.real("N", -1e7, 1e7), c.real("M", -1e9, 1e9)
    s.Ned, s.Med = N, [M, 0.0]
    c.eq("normal stress", s.sigmaN(), N / p["A"])
    c.eq("bending stress", s.sigmaM(), M / p["Wel"][0])
    c.eq("largest compressive stress", s.sigma_com(), -N / p["A"] + M / p["Wel"][0])
    u = c.real("unit_cost", 0, 100)
    s.unit_cost = u
    c.eq("cost", s.cost(), p["A"] * 7850e-9 * u)


@harness()
def axes_follow_rotation(c):
    """the y/z properties read and write principal axis 0/1, exchanged when the section is rotated"""
    s, p = make(c)
    rot = c.choice("rotate", [False, True])
    s.rotate = rot
    y, z = (1, 0) if rot else (0, 1)
    c.eq("Iy", s.Iy, p["I"][y])
    c.eq("Iz", s.Iz, p["I"][z])
    c.eq("Wply", s.Wply, p["Wpl"][y])
    c.eq("Wplz", s.Wplz, p["Wpl"][z])
    c.eq("Wely", s.Wely, p["Wel"][y])
    c.eq("Welz", s.Welz, p["Wel"][z])
    what = c.choice("what", ["I", "Wpl", "Wel"])
    names = {"I": ("Iy", "Iz"), "Wpl": ("Wply", "Wplz"), "Wel": ("Wely", "Welz")}[what]
    v, w = c.real("v", 1, 1e9), c.real("w", 1, 1e9)
    setattr(s, names[0], v)
    c.eq("assignment to y reads back", getattr(s, names[0]), v)
    c.eq("assignment to y leaves z alone", getattr(s, names[1]), p[what][z])
    setattr(s, names[1], w)
    c.eq("assignment to z reads back", getattr(s, names[1]), w)
    c.eq("assignment to z leaves y alone", getattr(s, names[0]), v)


def interaction(c, s, bt, A):
    n = c.real("n", 0, 2)
    MRd = c.real("MRd", 1, 1e9)
    a = c.min((A - bt) / A, 0.5)
    got = s.moment_axial_force_interact(n, MRd)
    if n > 1:
        c.eq("no bending resistance left beyond the squash load", got, 0)
    else:
        c.eq("MNRd (6.36)/(6.39)", got, MRd * c.min(1, (1 - n) / (1 - 0.5 * a)))
    c.le("never above MRd", got, MRd)
    c.ge("never negative", got, 0)


@harness(timeout=12)
def interaction_I(c):
    m = c.mod("metku.sections.steel.ISection")
    s = m.CustomISection(300, 150, 10.7, 7.1, 15)
    b, t, A = c.real("b", 40, 500), c.real("tf", 3, 60), c.real("A", 500, 2e5)
    c.assume(A > 2 * b * t)
    s.b, s.tf, s.A = b, t, A
    interaction(c, s, 2 * b * t, A)


@harness(timeout=12)
def interaction_RHS(c):
    m = c.mod("metku.sections.steel.RHS")
    h, b, t = c.real("h", 20, 1000), c.real("b", 20, 1000), c.real("t", 1, 40)
    c.assume(h >= 7 * t)
    c.assume(b >= 7 * t)
    s = m.RHS(h, b, t)
    interaction(c, s, 2 * b * t, s.A)


@harness(timeout=12)
def interaction_CHS(c):
    m = c.mod("metku.sections.steel.CHS")
    D, t = c.real("D", 20, 1000), c.real("t", 1, 40)
    c.assume(D >= 4 * t)
    s = m.CHS(D, t)
    n, MRd = c.real("n", 0, 2), c.real("MRd", 1, 1e9)
    got = s.moment_axial_force_interact(n, MRd)
    c.eq("MNRd = MRd (1 - n^1.7)", got, 0 if n > 1 else MRd * (1 - n ** 1.7))


@harness(timeout=12)
def interaction_WI(c):
    m = c.mod("metku.sections.steel.wi")
    h, tw, b, t = c.real("h", 100, 3000), c.real("tw", 3, 40), c.real("b", 50, 800), c.real("t", 4, 60)
    c.assume(h >= 3 * t)
    c.assume(b >= 2 * tw)
    s = m.WISection(h, tw, [b, b], [t, t])
    interaction(c, s, 2 * b * t, s.A)


@harness()
def minor_axis_interaction_RHS(c):
    """6.2.9.1(5): about the minor axis the reduction uses af = (A - 2ht)/A"""
    m = c.mod("metku.sections.steel.RHS")
    h, b, t = c.real("h", 100, 400), c.real("b", 100, 400), c.real("t", 4, 10)
    s = m.RHS(h, b, t)
    n = c.real("n", 0.1, 0.9)
    M = c.real("M", 1e3, 1e7)
    s.Ned, s.Med = -n * s.A * 355, [0.0, M]
    got = s.section_resistance(axis="z")[3]
    af = c.min((s.A - 2 * h * t) / s.A, 0.5)
    c.eq("UMN uses the minor-axis interaction", got, M / (s.Wpl[1] * 355 * c.min(1, (1 - n) / (1 - 0.5 * af))))
