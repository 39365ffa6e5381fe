"""C13: welded joints of rectangular hollow sections by EN 1993-1-8, 7.5 (Tables 7.10 - 7.12), as single joints and as joints of a truss."""
from types import SimpleNamespace as NS

J = "metku.eurocodes.en1993.en1993_1_8.rhs_joints"
T = "metku.raami.raami_plane_truss"
RH = "metku.sections.steel.RHS"
E = 210e3


def rad(c, a):
    return a * c.pi / 180


def angle(c, name):
    """an angle between 30 and 90 degrees; its sine lies between 1/2 and 1"""
    a = c.real(name, 30, 90)
    s = c.sin(rad(c, a))
    c.assume(s >= 0.499)
    c.assume(s <= 1)
    return a


def profile(c, tag, fy):
    p = NS(H=c.real("h" + tag, 20, 500), B=c.real("b" + tag, 20, 500), T=c.real("t" + tag, 1, 20), fy=fy)
    c.assume(p.H > 5 * p.T)
    return p


def chord(c):
    p = profile(c, "0", c.real("fy0", 235, 960))
    p.A, p.Wel, p.VRd, p.imp_factor = c.real("A0", 100, 4e4), [c.real("Wel0", 1e3, 5e6), c.real("Welz", 1e3, 5e6)], c.real("Vpl", 1e3, 1e7), [0.49, 0.49]
    p.Ashear = [c.real("Avy", 50, 4e4), c.real("Avz", 50, 4e4)]
    p.shear_force_resistance = lambda *a, **k: p.VRd
    return p


class Kinds:
    """the same joint as a single joint (rhs_joints) and as a joint of a truss (raami_plane_truss)"""

    @staticmethod
    def make(c, kind, truss, n):
        m = c.mod(RH) and c.mod(T if truss else J)
        ch = chord(c)
        cls = getattr(m, {("Y", 0): "RHSYJoint", ("K", 0): "RHSKGapJoint", ("X", 0): "RHSXJoint", ("Y", 1): "TubularYJoint", ("K", 1): "TubularKGapJoint"}[kind, truss])
        br = [profile(c, str(i + 1), c.real("fy%d" % (i + 1), 235, 960)) for i in range(n)]
        ang = [angle(c, "theta%d" % (i + 1)) for i in range(n)]
        spec = {}
        if truss:
            # angle(s) and gap of the drawn truss are under contract in the harness "angles"
            spec = {"angle": ang[0], "angles": ang}
            if kind == "K":
                spec["gap"] = c.real("gap", 1, 300)
        sub = type(cls.__name__, (cls,), spec)
        j = sub.__new__(sub)
        j.r, j.N0, j.M0, j.V0 = 0, c.real("N0", -5e6, 5e6), c.real("M0", -1e9, 1e9), 0.0
        j.chord_face_plate = {"lp": 0, "bp": 0, "tp": 0}
        N = [c.real("N%d" % (i + 1), -3e6, 3e6) for i in range(n)]
        if truss:
            j.chords = [NS(cross_section=ch, NEd={0: j.N0}), NS(cross_section=ch, NEd={0: 0.0})]
            j.braces = [NS(cross_section=b, NEd={0: F}) for b, F in zip(br, N)]
            j.utilization = {}
        else:
            j.chord = NS(profile=ch, fy=lambda: ch.fy)
            mem = [NS(profile=b, fy=(lambda b=b: b.fy), NEd=abs(F), NcEd=c.min(F, 0), ned=[F]) for b, F in zip(br, N)]
            if kind == "K":
                j.braces, j.angles, j.gap = mem, ang, c.real("gap", 1, 300)
            else:
                j.brace, j.angle, j._N1 = mem[0], ang[0], N[0]
        return j, ch, br, ang, N


def reduction(fy):
    return 1 if fy <= 355 else 0.9 if fy <= 460 else 0.8


def kn(c, ch, j, beta):
    n = (-j.N0 / ch.A + j.M0 / ch.Wel[0]) / ch.fy
    return c.min(1.3 - 0.4 * n / beta, 1) if n > 0 else 1


def fixed(c, j):
    """strength reduction and chord stress factor, under contract below, as arbitrary values"""
    r, k = c.real("r", 0.5, 1), c.real("kn", 0.05, 1)
    j.strength_reduction = lambda: r
    j.eval_KN = lambda: k
    return r, k


VARIANTS = [("Y", 0, 1), ("K", 0, 2), ("X", 0, 1), ("Y", 1, 1), ("K", 1, 2)]


def chord_stress(kind, truss, n):
    tag = kind + ("_truss" if truss else "")

    @harness(name="chord_stress_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, kind, truss, n)
        b = br[0].B / ch.B if n == 1 else (br[0].B + br[1].B + br[0].H + br[1].H) / (4 * ch.B)
        c.eq("beta", j.beta(), b)
        c.eq("gamma", j.gamma(), ch.B / (2 * ch.T))
        c.eq("chord stress, compression positive", j.chord_stress(), -j.N0 / ch.A + j.M0 / ch.Wel[0])
        k = j.eval_KN()
        c.eq("kn", k, kn(c, ch, j, b))
        c.le("kn <= 1", k, 1)
        if j.eval_N() <= 0:
            c.eq("no reduction for a chord in tension", k, 1)

    @harness(name="strength_reduction_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, kind, truss, n)
        c.eq("reduction of high strength steel", j.strength_reduction(), reduction(ch.fy))
        j.r = c.real("given", 0.1, 1)
        c.eq("given reduction", j.strength_reduction(), j.r)


for _v in VARIANTS:
    chord_stress(*_v)


# ------------------------------------------------------------------ T, Y and X joints
def y_face(c, ch, b1, s, r, k, beta):
    return r * k * ch.fy * ch.T ** 2 / ((1 - beta) * s) * (2 * b1.H / ch.B / s + 4 * c.sqrt(1 - beta))


def y_brace(c, ch, b1, r):
    beff = c.min(10 / (ch.B / ch.T) * ch.fy * ch.T / (b1.fy * b1.T), 1) * b1.B
    return r * b1.fy * b1.T * (2 * b1.H - 4 * b1.T + 2 * beff)


def y_punching(c, ch, b1, s, r):
    return r * ch.fy * ch.T / (c.sqrt(3) * s) * (2 * b1.H / s + 2 * c.min(10 / (ch.B / ch.T), 1) * b1.B)


def y_joint(kind, truss, n):
    tag = kind + ("_truss" if truss else "")

    @harness(name="resistances_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, kind, truss, 1)
        r, k = fixed(c, j)
        b1, s = br[0], c.sin(rad(c, ang[0]))
        c.assume(b1.B <= 0.99 * ch.B)
        beta = b1.B / ch.B
        c.eq("chord face failure", j.chord_face_failure(), y_face(c, ch, b1, s, r, k, beta))
        c.eq("brace failure", j.brace_failure(), y_brace(c, ch, b1, r))
        c.eq("punching shear", j.punching_shear(), y_punching(c, ch, b1, s, r))
        c.eq("slenderness of the side wall", j.slend(), 3.46 * (ch.H / ch.T - 2) * c.sqrt(1 / s) / (c.pi * c.sqrt(E / ch.fy)))

    @harness(name="side_wall_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, kind, truss, 1)
        r, k = fixed(c, j)
        lam = c.real("slenderness", 0.05, 5)
        j.slend = lambda: lam
        b1, s = br[0], c.sin(rad(c, ang[0]))
        phi = 0.5 * (1 + 0.49 * (lam - 0.2) + lam ** 2)
        chi = c.min(1, 1 / (phi + c.sqrt(phi ** 2 - lam ** 2)))
        fb = (0.8 * chi * s if kind == "X" else chi) * ch.fy if N[0] < 0 else ch.fy
        c.eq("strength of the side wall", j.fb(0) if truss else j.fb(), fb)
        want = r * k * fb * ch.T / s * (2 * b1.H / s + 10 * ch.T)
        if kind == "X" and c.cos(rad(c, ang[0])) > b1.H / ch.H:
            want = c.min(want, r * ch.fy * ch.Ashear[1] / c.sqrt(3) / s)
        c.eq("side wall failure", j.chord_web_buckling(0) if truss else j.chord_web_buckling(), want)

    @harness(name="design_" + tag)
    def _(c):
        """the governing failure mode by the width ratio, linear between chord face failure at 0.85 and side wall failure at 1.0"""
        j, ch, br, ang, N = Kinds.make(c, kind, truss, 1)
        r, k = fixed(c, j)
        b1, s = br[0], c.sin(rad(c, ang[0]))
        c.assume(b1.B <= ch.B)
        beta = b1.B / ch.B
        Fw, Fb, Fp = c.real("side wall", 1e3, 1e7), c.real("brace", 1e3, 1e7), c.real("punching", 1e3, 1e7)
        j.chord_web_buckling, j.brace_failure, j.punching_shear = (lambda *a: Fw), (lambda: Fb), (lambda: Fp)
        if beta < 0.85:
            R = y_face(c, ch, b1, s, r, k, beta)
        else:
            F85 = y_face(c, ch, b1, s, r, k, 0.85)
            R = c.min(F85 + (beta - 0.85) / 0.15 * (Fw - F85), Fb)
            if beta <= 1 - 1 / j.gamma():
                R = c.min(R, Fp)
        u = j.design(0) if truss else j.design()
        c.eq("utilization", u, abs(N[0]) / R)


for _v in VARIANTS:
    if _v[0] != "K":
        y_joint(*_v)


# ------------------------------------------------------------------ K and N joints with gap
def k_joint(truss):
    tag = "K" + ("_truss" if truss else "")

    @harness(name="face_brace_punching_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, "K", truss, 2)
        r, k = fixed(c, j)
        if c.choice("face plate", [False, True]):
            j.chord_face_plate = {"lp": 100, "bp": 100, "tp": c.real("tp", 4, 30)}
        t0 = j.chord_face_plate["tp"] if j.chord_face_plate["tp"] else ch.T
        F, B, P = j.chord_face_failure(), j.brace_failure(), j.punching_shear()
        for i in range(2):
            s = c.sin(rad(c, ang[i]))
            c.eq("chord face failure %d" % i, F[i], 8.9 * r * k * ch.fy * t0 ** 2 * c.sqrt(ch.B / (2 * ch.T)) / s * (br[0].B + br[1].B + br[0].H + br[1].H) / (4 * ch.B))
            beff = c.min(10 / (ch.B / t0) * ch.fy * t0 / (br[i].fy * br[i].T), 1) * br[i].B
            c.eq("brace failure %d" % i, B[i], r * br[i].fy * br[i].T * (2 * br[i].H - 4 * br[i].T + br[i].B + beff))
            bep = c.min(10 / (ch.B / t0), 1) * br[i].B
            c.eq("punching shear %d" % i, P[i], r * ch.fy * t0 / (c.sqrt(3) * s) * (2 * br[i].H / s + br[i].B + bep))

    @harness(name="chord_shear_" + tag)
    def _(c):
        j, ch, br, ang, N = Kinds.make(c, "K", truss, 2)
        r, k = fixed(c, j)
        al = c.sqrt(1 / (1 + 4 * j.gap ** 2 / (3 * ch.T ** 2)))
        Av = (2 * ch.H + al * ch.B) * ch.T
        c.eq("shear area", j.a_eta(), Av)
        ratio = c.real("V/Vpl", 0, 2)
        c.assume(abs(ratio - 1) > 1e-6)
        V = ratio * ch.VRd
        if truss:
            Ni, N0 = j.chord_shear(V)
        else:
            type(j).V0gap = V
            Ni, N0 = j.chord_shear()
        for i in range(2):
            c.eq("shear of the chord, brace %d" % i, Ni[i], r * ch.fy * Av / c.sqrt(3) / c.sin(rad(c, ang[i])))
        c.eq("chord in the gap", N0, 0 if ratio > 1 else r * ch.fy * ((ch.A - Av) + Av * c.sqrt(1 - ratio ** 2)))

    def design(c, free, N0s):
        """the modes of brace 'free' govern in any order, the other brace has one common resistance"""
        j, ch, br, ang, N = Kinds.make(c, "K", truss, 2)
        modes = {}
        common = c.real("common", 1e3, 1e7)
        for n in ("face", "shear", "brace", "punching"):
            modes[n] = [c.real("%s %d" % (n, i), 1e3, 1e7) if i == free else common for i in range(2)]
        N0Rd = c.real("N0Rd", 1e3, 1e7)
        j.chord_face_failure = lambda: c.array(modes["face"])
        j.chord_shear = lambda V=0: (c.array(modes["shear"]), N0Rd)
        j.brace_failure = lambda: c.array(modes["brace"])
        j.punching_shear = lambda: c.array(modes["punching"])
        beta = c.real("beta", 0.3, 1.1)
        j.beta = lambda: beta
        N0 = j.N0
        c.assume(N0 > 0 if free is None else N0 < 0)
        if truss:
            c.mod(T)
            j.V0gap = lambda load: 0.0
            other = c.real("N0 other side", -5e6, 5e6) if N0s else 0.0
            j.chords[1].NEd[0] = other
            N0 = c.max(abs(N0), abs(other))
            u = j.design(0, verb=False)
            if N0s:
                c.eq("stored utilization", j.utilization[0], c.max(*[u[i] for i in range(3)]))
        else:
            u = j.design()
        c.ensures("two braces and the chord", len(u) == 3)
        for i in range(2):
            if i == free:
                R = c.min(*([modes[n][i] for n in ("face", "shear", "brace")] + ([modes["punching"][i]] if beta <= 1 - 1 / j.gamma() else [])))
            else:
                R = common
            c.eq("brace %d" % i, u[i], abs(N[i]) / R)
        c.eq("chord", u[2], abs(N0) / N0Rd)

    for free in (0, 1):
        @harness(name="design_brace%d_%s" % (free, tag))
        def _(c, free=free):
            design(c, free, False)

    @harness(name="design_chord_" + tag)
    def _(c):
        design(c, None, True)


k_joint(0)
k_joint(1)


@harness()
def gap_forces(c):
    """equilibrium of the joint: the brace in compression, the one in tension, and the chord between them"""
    j, ch, br, ang, N = Kinds.make(c, "K", 0, 2)
    first = c.choice("compressed brace", [0, 1])
    c.assume(N[first] < 0)
    c.assume(N[1 - first] > 0)
    a1, a2 = ang[first], ang[1 - first]
    c.eq("N1", j.N1, -N[first])
    c.eq("N2", j.N2, N[1 - first])
    c.eq("angle of N1", j.angle1, a1)
    c.eq("angle of N2", j.angle2, a2)
    c.eq("shear in the gap", j.V0gap, -N[first] * c.sin(rad(c, a1)))
    c.eq("axial force in the gap", j.N0gap, j.N0 + N[1 - first] * c.cos(rad(c, a2)) if j.N0 < 0 else j.N0 + N[first] * c.cos(rad(c, a1)))


@harness()
def eccentricity_and_gap(c):
    """the centre lines of the braces meet at distance e from the chord axis exactly when the gap is g"""
    m = c.mod(RH) and c.mod(J)
    h0, h1, h2, g = c.real("h0", 20, 500), c.real("h1", 20, 400), c.real("h2", 20, 400), c.real("g", 0, 300)
    t1, t2 = angle(c, "t1"), angle(c, "t2")
    s1, s2, s12 = c.sin(rad(c, t1)), c.sin(rad(c, t2)), c.sin(rad(c, t1) + rad(c, t2))
    c.assume(s12 > 0.01)
    e = m.eccentricity(h0, h1, h2, t1, t2, g)
    c.eq("eccentricity", e, (h1 / (2 * s1) + h2 / (2 * s2) + g) * s1 * s2 / s12 - h0 / 2, tol=1e-6)
    j, ch, br, ang, N = Kinds.make(c, "K", 0, 2)
    c.assume(c.sin(rad(c, ang[0]) + rad(c, ang[1])) > 0.01)
    c.assume(c.sin(rad(c, ang[0] + ang[1])) > 0.01)
    c.eq("of a joint", j.eccentricity(), m.eccentricity(ch.H, br[0].H, br[1].H, ang[0], ang[1], j.gap), tol=1e-6)


@harness()
def brace_angle(c):
    """the acute angle between the brace and the chord, of the drawn or of the actual geometry"""
    j, ch, br, ang, N = Kinds.make(c, "Y", 1, 1)
    m = c.mod(T)
    x0, x1, xp = (c.real(n, -0.999, 0.999) for n in ("chord x", "brace x", "actual brace x"))
    v = lambda x: c.array([x, c.sqrt(1 - x ** 2)])
    j.chords[0].dir_vector = v(x0)
    j.braces[0].dir_vector, j.braces[0].dir_vector_xp = v(x1), (lambda: v(xp))
    for geometry, x in (("init", x1), ("actual", xp)):
        dot = x0 * x + c.sqrt(1 - x0 ** 2) * c.sqrt(1 - x ** 2)
        c.assume(abs(dot) <= 0.9999)
        a = m.TubularJoint.brace_angle(j, geometry=geometry)
        c.le("acute (%s)" % geometry, a, 90)
        c.ge("positive (%s)" % geometry, a, 0)
        c.eq("angle (%s)" % geometry, c.cos(rad(c, a)), abs(dot))
