"""C06: hollow sections have the exact properties of the EN 10210/10219 profile."""
sh = use("shapes")
RHS = "metku.sections.steel.RHS"
CHS = "metku.sections.steel.CHS"


def dims(c, square=False):
    """T in (0, 40]; straight parts of positive length"""
    T = c.real("T", 1, 40)
    R = 2 * T if T <= 6 else (2.5 * T if T <= 10 else 3 * T)
    H = 2 * R + c.real("straight part of H", 0.1, 1000)
    B = H if square else 2 * R + c.real("straight part of B", 0.1, 1000)
    return H, B, T, R


@harness()
def corner_radius(c):
    m = c.mod(RHS)
    T = c.real("T", 0.5, 40)
    R = m.RHS_outer_radius(T)
    c.eq("EN 10219-2 outer corner radius", R, 2 * T if T <= 6 else (2.5 * T if T <= 10 else 3 * T))
    c.eq("R attribute", m.RHS(300, 200, T).R, R)


def check_rhs(c, s, H, B, T, R, what):
    pi = c.pi
    A, Iy, Wely, Wply = sh.hollow(pi, H, B, T, R)
    A2, Iz, Welz, Wplz = sh.hollow(pi, B, H, T, R)
    if what == "A":
        c.eq("A", s.A, A)
        c.eq("shear area for a force along the width", s.Ashear[0], A * B / (B + H))
        c.eq("shear area for a force along the height", s.Ashear[1], A * H / (B + H))
        c.eq("perimeter", s.Au, 2 * (H + B) - 8 * R + 2 * pi * R)
        c.eq("section factor", s.section_factor, s.Au / s.A * 1000)
        c.eq("h", s.h, H)
        c.eq("b", s.b, B)
        c.eq("t", s.t, T)
        c.eq("r", s.r, R)
        c.eq("straight part of the web", s.c_web, H - 2 * R)
        c.eq("straight part of the flange", s.c_flange, B - 2 * R)
    if what == "I":
        c.eq("Iy", s.I[0], Iy)
        c.eq("Iz", s.I[1], Iz)
        c.eq("Iy attribute", s.Iy, Iy)
        c.eq("Iz attribute", s.Iz, Iz)
    if what == "Wel":
        c.eq("Wel,y", s.Wel[0], Wely)
        c.eq("Wel,z", s.Wel[1], Welz)
    if what == "Wpl":
        c.eq("Wpl,y", s.Wpl[0], Wply)
        c.eq("Wpl,z", s.Wpl[1], Wplz)
    if what == "It":
        # EN 10219-2 annex: It = t^3 h/3 + 2 K Ah with mid-line length h, enclosed area Ah and corner radius Rc
        Rc = R - T / 2
        h = 2 * ((B - T) + (H - T)) - 8 * Rc + 2 * pi * Rc
        Ah = (B - T) * (H - T) - 4 * Rc ** 2 + pi * Rc ** 2
        c.eq("It", s.It, T ** 3 * h / 3 + 4 * Ah ** 2 * T / h)
        c.eq("Iw", s.Iw, 0)


@harness()
def rectangular(c):
    what = c.choice("what", ["A", "I", "Wel", "Wpl", "It"])
    H, B, T, R = dims(c)
    check_rhs(c, c.mod(RHS).RHS(H, B, T), H, B, T, R, what)


@harness()
def square(c):
    what = c.choice("what", ["A", "I", "Wel", "Wpl", "It"])
    H, B, T, R = dims(c, True)
    s = c.mod(RHS).SHS(H, T)
    check_rhs(c, s, H, B, T, R, what)
    c.eq("square", s.H, s.B)


@harness()
def functions(c):
    """the functions are exact for any outer corner radius R >= T"""
    m = c.mod(RHS)
    pi = c.pi
    T = c.real("T", 0.5, 40)
    R = T + c.real("inner radius", 0, 100)
    H = 2 * R + c.real("straight part of H", 0, 1000)
    B = 2 * R + c.real("straight part of B", 0, 1000)
    A, I, Wel, Wpl = sh.hollow(pi, H, B, T, R)
    c.eq("RHS_area", m.RHS_area(H, B, T, R), A)
    c.eq("RHS_second_moment", m.RHS_second_moment(H, B, T, R), I)
    c.eq("RHS_plastic_modulus", m.RHS_plastic_modulus(H, B, R, T), Wpl)
    c.eq("RHS_elastic_modulus", m.RHS_elastic_modulus(H, I), Wel)
    c.eq("RHS_paint_area", m.RHS_paint_area(H, B, R), 2 * (H - 2 * R) + 2 * (B - 2 * R) + 2 * pi * R)
    c.eq("RHS_shear_area", m.RHS_shear_area(A, H, B), A * H / (H + B))


@harness()
def exchange(c):
    m = c.mod(RHS)
    H, B, T, R = dims(c)
    s, x = m.RHS(H, B, T), m.RHS(B, H, T)
    c.eq("A", s.A, x.A)
    c.eq("Au", s.Au, x.Au)
    c.eq("It", s.It, x.It)
    for n in ("I", "Wel", "Wpl", "Ashear"):
        c.eq(n + " y = z", getattr(s, n)[0], getattr(x, n)[1])
        c.eq(n + " z = y", getattr(s, n)[1], getattr(x, n)[0])


@harness()
def circular(c):
    m = c.mod(CHS)
    pi = c.pi
    cls = c.choice("class", ["CHS", "CustomCHS"])
    D = c.real("D", 10, 2000)
    t = c.real("t", 0.5, 100)
    c.assume(2 * t < D)
    s = getattr(m, cls)(D, t)
    d = D - 2 * t
    A = pi * (D ** 2 - d ** 2) / 4
    I = pi * (D ** 4 - d ** 4) / 64
    c.eq("A", s.A, A)
    for i in (0, 1):
        c.eq("I %d" % i, s.I[i], I)
        c.eq("Wel %d" % i, s.Wel[i], 2 * I / D)
        c.eq("Wpl %d" % i, s.Wpl[i], (D ** 3 - d ** 3) / 6)
        c.eq("shear area %d" % i, s.Ashear[i], 2 * A / pi)
    c.eq("It", s.It, 2 * I)
    c.eq("Au", s.Au, pi * D)
    c.eq("Iw", s.Iw, 0)


@harness()
def circular_functions(c):
    m = c.mod(CHS)
    pi = c.pi
    D = c.real("D", 10, 2000)
    t = c.real("t", 0.5, 100)
    c.assume(2 * t < D)
    d = D - 2 * t
    A = pi * (D ** 2 - d ** 2) / 4
    I = pi * (D ** 4 - d ** 4) / 64
    c.eq("CHS_area", m.CHS_area(D, t), A)
    c.eq("CHS_paint_area", m.CHS_paint_area(D), pi * D)
    c.eq("CHS_shear_area", m.CHS_shear_area(A), 2 * A / pi)
    c.eq("CHS_second_moment", m.CHS_second_moment(D, t), I)
    c.eq("CHS_elastic_modulus", m.CHS_elastic_modulus(D, I), 2 * I / D)
    c.eq("CHS_plastic_modulus", m.CHS_plastic_modulus(D, t), (D ** 3 - d ** 3) / 6)
    c.eq("CHS_torsion_modulus", m.CHS_torsion_modulus(D, t), 2 * I)


@harness()
def ordering(c):
    """plastic modulus at least the elastic one; both positive; the strong axis is the one with the larger dimension"""
    m = c.mod(CHS)
    D = c.real("D", 10, 2000)
    k = c.real("t/D", 0.001, 0.49)
    s = m.CHS(D, k * D)
    c.lt("Wel > 0", 0, s.Wel[0])
    c.le("Wel <= Wpl", s.Wel[0], s.Wpl[0])
