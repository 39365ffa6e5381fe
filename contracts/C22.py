"""C22: timber: modification factors, design strengths, charring, fire protection and rectangular sections of EN 1995."""
from types import SimpleNamespace as NS

A1 = "metku.eurocodes.en1995.en1995_1_1"
A2 = "metku.eurocodes.en1995.en1995_1_2"
FP = "metku.eurocodes.en1995.fire_protection"
TS = "metku.sections.timber.timber_section"
TD = "metku.materials.timber_data"
KMOD = {1: [0.6, 0.7, 0.8, 0.9, 1.1], 2: [0.6, 0.7, 0.8, 0.9, 1.1], 3: [0.5, 0.55, 0.65, 0.7, 0.9]}
LDC = ["perm", "lt", "mt", "st", "inst"]
KDEF = {1: 0.6, 2: 0.8, 3: 2.0}
GAMMA = {"solid_timber": 1.3, "glt": 1.25, "lvl": 1.2}
TYPES = list(GAMMA)


@harness()
def modification_factors(c):
    """Tables 3.1, 3.2 and 2.3"""
    m = c.mod(A1)
    t, s, d = c.choice("type", TYPES), c.choice("service class", [1, 2, 3]), c.choice("duration", [0, 1, 2, 3, 4])
    c.eq("kmod", m.kmod(t, s, LDC[d]), KMOD[s][d])
    c.eq("kdef", m.kdef(t, s), KDEF[s])
    c.eq("gammaM", m.get_gammaM(t), GAMMA[t])
    c.eq("gammaM of others", m.get_gammaM("plywood"), 1.3)
    f, k, g = c.real("fk", 0.1, 100), c.real("kmod", 0.1, 1.2), c.real("gamma", 1, 2)
    c.eq("design value", m.k_to_d(f, k, g), k * f / g)


def rates(c, rho, typ, hard):
    if typ == "lvl":
        return (0.65, 0.7) if bool(rho >= 480) else (0.7, 0.75)
    if typ in ("solid_timber", "glt"):
        if hard == "hardwood":
            return (0.5, 0.55) if bool(rho >= 450) else (0.65, 0.7)
        return (0.65, 0.8) if typ == "solid_timber" else (0.65, 0.7)
    return 1.0, 1.0


@harness()
def charring_rates(c):
    """Table 3.1 (and the Finnish guide for light LVL), 3.4 for thin panels"""
    typ, hard = c.choice("type", TYPES + ["panel"]), c.choice("wood", ["softwood", "hardwood"])
    rho = c.real("density", 410 if typ == "lvl" else 290, 1200)
    hp = c.real("thickness", 1, 1000)
    b0, bn = c.mod(A2).charring_speed(rho, typ, hard, hp)
    e0, en = rates(c, rho, typ, hard)
    if bool(hp < 20):
        e0 = e0 * c.sqrt(450 / rho) * c.sqrt(20 / hp)
    c.eq("one-dimensional", b0, e0)
    c.eq("notional", bn, en)


@harness()
def rates_of_the_library(c):
    m = c.mod(TD)
    t = c.choice("material", [x.name for x in m.T])
    s = c.mod(TS).TimberSection(c.real("B", 20, 500), c.real("H", 20, 2000), m.T[t])
    mat = s.material
    typ = "lvl" if t[0] == "K" else "glt" if t[0] == "G" else "solid_timber"
    c.same("type", mat.type, typ)
    e0, en = rates(c, mat.rhok, typ, mat.hardness)
    c.eq("one-dimensional", s.beta_0, e0)
    c.eq("notional", s.beta_n, en)
    c.le("characteristic density", mat.rhok, mat.rhomean)
    c.le("characteristic modulus", mat.E005, mat.E0mean)
    c.eq("modulus of the member", mat.young, mat.E0mean)
    if t[0] in "CDG":
        c.eq("bending strength of the class", mat.fmk, float("".join(x for x in t if x.isdigit())))


# ------------------------------------------------------------------ charring depth
def limit(c, x, lo, hi):
    return lo if bool(x <= lo) else hi if bool(x >= hi) else x


def depth(c, t, beta, prot=None):
    """effective charring depth; prot = (start, failure, end of the fast phase)"""
    start = prot[0] if prot else 0
    ramp = start if bool(start > 20) else 20
    d = 7 * limit(c, t / ramp, 0, 1)
    if prot is None:
        return d + beta * t
    a, f, e = prot
    d += beta * (0 if bool(t <= e) else t - e)
    d += 2 * beta * (limit(c, t, f, e) - f)
    return d + 0.73 * beta * (limit(c, t, a, f) - a)


def protection(c):
    """any protection: charring starts, the protection fails then or later, the fast phase ends later"""
    a = c.real("start", 1, 90)
    f = a if c.choice("fails when charring starts", [True, False]) else a + c.real("slow phase", 0.1, 60)
    e = f + c.real("fast phase", 0.1, 60)
    fp = c.mod(FP).FireProtection(a, 15, f, e)
    return fp, (a, f, e)


@harness()
def charring_depth(c):
    """3.4.2, 3.4.3 and 4.2.2, as one function of the time"""
    t, beta = c.real("time", 0, 300), c.real("rate", 0.3, 1.2)
    fp, p = (None, None) if c.choice("protected", [False, True]) is False else protection(c)
    c.eq("depth", c.mod(A2).d_char_n(fp, t, beta), depth(c, t, beta, p), scale=10)


@harness()
def charring_depth_never_decreases(c):
    t, beta = c.real("time", 0, 300), c.real("rate", 0.3, 1.2)
    u = t + c.real("later", 0, 100)
    fp, p = (None, None) if c.choice("protected", [False, True]) is False else protection(c)
    m = c.mod(A2)
    a, b = m.d_char_n(fp, t, beta), m.d_char_n(fp, u, beta)
    c.le("depth", a, b + 1e-9)
    c.le("not negative", 0, a)
    c.le("protection does not make it worse before it fails", 0 if fp is None or bool(t >= p[1]) else a, m.d_char_n(None, t, beta) + 1e-9)


GYPSUM = {"A": (13, 22, 13), "F": (15, 28, 19), "H": (9, 11, 2), "AA": (26, 40, 31), "FF": (30, 61, 52), "HH": (18, 23, 14), "AF": (28, 46, 37)}


@harness()
def times_of_gypsum(c):
    """start of charring behind boards (joints below 2 mm or not); boards of type F stay until 12.5 mm are charred; 3.8 and 3.9"""
    k = c.choice("board", list(GYPSUM))
    g = c.real("joint", 0, 10)
    ts, m, td = c.mod(TS), c.mod(FP), c.mod(TD)
    mat = td.Timber(td.T[c.choice("material", ["C24", "GL30c", "Kerto_T", "D50"])], c.choice("wood", ["softwood", "hardwood"]))
    fp = getattr(m, "GypsumPlasterboard" + k)(g)
    h, narrow, wide = GYPSUM[k]
    start = narrow if bool(g < 2) else wide
    s = ts.TimberSection(100, 200, mat.timber_type, fire_protection_generic=fp)
    fp = s.fire_protection_left
    c.eq("thickness", fp.h_p, h)
    c.eq("start", fp.t_ch, start)
    bn = s.beta_n
    fail = start + 12.5 / (0.73 * bn) if k in ("F", "FF", "AF") else start
    c.eq("failure", fp.t_f, fail)
    c.eq("end of the fast phase", fp.t_a, fail + 6.25 / bn if k in ("F", "FF", "AF") else c.min(2 * fail, fail + 12.5 / bn))
    if k in ("F", "FF", "AF"):
        c.eq("25 mm are charred then", c.mod(A2).d_char_n(fp, fp.t_a, bn), 32, scale=10)


@harness()
def times_of_wood(c):
    """the protection is gone when it is charred through"""
    c.mod(TS)
    td = c.mod(TD)
    t = td.T[c.choice("protection", ["C24", "GL30c", "Kerto_T", "C14"])]
    hp = c.real("thickness", 5, 60)
    fp = c.mod(FP).WoodenFireProtection(t if c.choice("given as", ["name", "material"]) == "name" else td.Timber(t), hp)
    mat = td.Timber(t)
    e0, _ = rates(c, mat.rhok, mat.type, "softwood")
    if bool(hp < 20):
        e0 = e0 * c.sqrt(450 / mat.rhok) * c.sqrt(20 / hp)
    c.eq("thickness", fp.h_p, hp)
    c.eq("start times rate", fp.t_ch * e0, hp)
    c.eq("failure", fp.t_f, fp.t_ch)


# ------------------------------------------------------------------ sections
def floor(c, x):
    return 1e-5 if bool(x <= 0) else x


def shape(c, name, s, x, b, h):
    """rectangle b x h at x"""
    for n, v in (("A", s.get_A(x)),) + ((("A of the section", s.A),) if x is None else ()):
        c.eq("%s: %s" % (name, n), v, b * h, scale=1e3)
    I, W = s.get_I(x), s.get_Wel(x)
    c.eq(name + ": Iy", I[0], b * h ** 3 / 12, scale=1e6)
    c.eq(name + ": Iz", I[1], h * b ** 3 / 12, scale=1e6)
    c.eq(name + ": Wy", W[0], b * h ** 2 / 6, scale=1e5)
    c.eq(name + ": Wz", W[1], h * b ** 2 / 6, scale=1e5)


@harness()
def cold_section(c):
    m, td = c.mod(TS), c.mod(TD)
    B, H = c.real("B", 10, 500), c.real("H", 10, 2000)
    s = m.TimberSection(B, H, td.T[c.choice("material", ["C24", "GL30c", "Kerto_S"])], sides_on_fire=c.choice("sides", [3, 4]))
    for r in range(2):
        c.eq("width %d" % r, s.B, B)
        c.eq("height %d" % r, s.H, H)
        c.eq("height at a place %d" % r, s.get_H(0.3), H)
        shape(c, "cold %d" % r, s, None, B, H)
        B, H = c.real("new B", 10, 500), c.real("new H", 10, 2000)
        s.B = B
        s.H = H


@harness()
def residual_section(c):
    """both sides and the bottom, and the top if it is exposed, lose the charring depth of their protection"""
    m, td = c.mod(TS), c.mod(TD)
    B, H, R = c.real("B", 100, 500), c.real("H", 100, 2000), c.real("time", 0, 240)
    sides, protected = c.choice("sides on fire", [3, 4]), c.choice("protected", ["none", "all given", "all set", "bottom", "left"])
    s0 = td.T[c.choice("material", ["C24", "Kerto_T"])]
    fp = c.mod(FP).GypsumPlasterboardF(1) if protected != "none" else None
    k = {"none": {}, "all given": {"fire_protection_generic": fp, "fire_protection_sides": 4}, "all set": {"fire_protection_sides": 4},
         "bottom": {"fire_protection_bottom": fp}, "left": {"fire_protection_left": fp}}[protected]
    s = m.TimberSection(B, H, s0, sides_on_fire=sides, **k)
    if protected == "all set":
        s.fire_protection_generic = fp
    s.R = R
    bn = {"C24": 0.8, "Kerto_T": 0.75}[s0.name]
    fail = 28 + 12.5 / (0.73 * bn)
    p = (28, fail, fail + 6.25 / bn)
    bare, cov = depth(c, R, bn), depth(c, R, bn, p) if fp else 0
    full = protected.startswith("all")
    left = cov if full or protected == "left" else bare
    right = cov if full else bare
    bottom = cov if full or protected == "bottom" else bare
    top = 0 if sides == 3 else cov if full else bare
    b, h = floor(c, B - left - right), floor(c, H - bottom - top)
    c.eq("width", s.B, b, scale=100)
    c.eq("height", s.H, h, scale=100)
    c.eq("area", s.A, b * h, scale=1e4)
    shape(c, "residual", s, None, s.B, s.H)
    c.eq("time", s.get_R(), R)


@harness()
def residual_section_never_grows(c):
    m, td = c.mod(TS), c.mod(TD)
    B, H, R = c.real("B", 100, 500), c.real("H", 100, 2000), c.real("time", 0, 240)
    board = c.choice("board", [None, "A", "F"])
    fp = getattr(c.mod(FP), "GypsumPlasterboard" + board)(1) if board else None
    s = m.TimberSection(B, H, td.T.GL30c, sides_on_fire=c.choice("sides", [3, 4]), fire_protection_generic=fp)
    s.R = R
    b, h = s.B, s.H
    s.R = R + c.real("later", 0, 60)
    c.le("width", s.B, c.max(b, 1e-5) + 1e-9)
    c.le("height", s.H, c.max(h, 1e-5) + 1e-9)
    c.lt("width stays positive", 0, s.B)
    c.lt("height stays positive", 0, s.H)


@harness()
def shared_protection(c):
    """a protection given to several sections fails in each of them when that section's material says so"""
    m, td = c.mod(TS), c.mod(TD)
    fp = c.mod(FP).GypsumPlasterboardF(1)
    names = [c.choice("material %d" % i, ["C24", "GL30c", "Kerto_T"]) for i in range(2)]
    ss = [m.TimberSection(200, 400, td.T[n], fire_protection_generic=fp) for n in names]
    R = c.real("time", 0, 200)
    for n, s in zip(names, ss):
        s.R = R
        bn = {"C24": 0.8, "GL30c": 0.7, "Kerto_T": 0.75}[n]
        fail = 28 + 12.5 / (0.73 * bn)
        c.eq("height of " + n, s.H, floor(c, 400 - depth(c, R, bn, (28, fail, fail + 6.25 / bn))), scale=100)


def tapered(c, kind):
    m, td = c.mod(TS), c.mod(TD)
    B, h0, h1 = c.real("B", 50, 500), c.real("h0", 200, 1000), c.real("h1", 1000, 3000)
    if kind == "PulpettiPalkki":
        return m.PulpettiPalkki(B, h0, h1, td.T.GL30c), B, lambda x: h0 + (h1 - h0) * x
    xa = c.real("apex", 0.1, 0.9)
    return m.HarjaPalkki(B, h0, h1, xa, td.T.GL30c), B, lambda x: h0 + (h1 - h0) * (x / xa if bool(x <= xa) else (1 - x) / (1 - xa))


def register(kind):
    @harness(name="tapered_" + kind)
    def h(c):
        """height linear between the ends and the apex, charred like any other"""
        s, B, f = tapered(c, kind)
        x = c.real("x", 0, 1)
        c.eq("cold height", s.get_unmodified_h(x), f(x), scale=100)
        c.eq("height", s.get_H(x), f(x), scale=100)
        s.R = c.real("time", 0, 120)
        d = depth(c, s.R, 0.7)
        c.eq("residual height", s.get_H(x), floor(c, f(x) - d), scale=100)
        c.eq("residual width", s.B, floor(c, B - 2 * d), scale=100)
        shape(c, "residual", s, x, s.B, s.get_H(x))

    @harness(name="elements_" + kind, bounded="up to four elements")
    def g(c):
        """elements have the section at their middle, also after a change"""
        s, B, f = tapered(c, kind)
        n = s.num_elements = c.choice("elements", [1, 2, 3, 4])
        s.create_elements()
        for r in range(2):
            c.same("elements %d" % r, len(s.small_elements), n)
            for i, e in enumerate(s.small_elements):
                h = f((i + 0.5) / n)
                c.eq("A %d" % r, e.A, B * h, scale=1e3)
                c.eq("Iy %d" % r, e.I[0], B * h ** 3 / 12, scale=1e6)
                c.eq("Iz %d" % r, e.I[1], h * B ** 3 / 12, scale=1e6)
            g0, k = c.real("new h0", 200, 1000), f
            s.H0 = g0
            if kind == "PulpettiPalkki":
                f = lambda x: g0 + (s.hap - g0) * x
            else:
                f = lambda x: g0 + (s.hap - g0) * (x / s.xap if bool(x <= s.xap) else (1 - x) / (1 - s.xap))


register("PulpettiPalkki")
register("HarjaPalkki")


# ------------------------------------------------------------------ design strengths
def member(c, t, length, s=None, d=None, **k):
    c.mod("metku.frame2d.frame2d")
    td = c.mod(TD)
    s = s or c.mod(TS).TimberSection(c.real("B", 20, 1000), c.real("H", 20, 2000), td.T[t], **k)
    m = c.mod("metku.structures.timber.timber_member").TimberMember(
        s, s.material, length, LDC[d if d is not None else c.choice("duration", [0, 1, 2, 3, 4])], c.choice("service class", [1, 2, 3]))
    s.timber_member = m
    return m, s


@harness()
def design_strengths(c):
    """kmod fk / gammaM; kh for bending and tension of shallow members, kl for the length of LVL in tension"""
    t = c.choice("material", ["C24", "D70", "GL30c", "Kerto_S", "Kerto_Q_27_69"])
    L = c.real("length", 500, 20000)
    d = c.choice("duration", [0, 1, 2, 3, 4])
    m, s = member(c, t, L, d=d)
    N, M = c.real("N", 1, 1e6), c.real("M", 1, 1e6)
    what = c.choice("forces", ["tension", "bending", "bending about the weak axis", "none"])
    m.add_section(ned=N if what == "tension" else 0, myed=-M if what == "bending" else 0, mzed=M if "weak" in what else 0, loc=0.0)
    mat = m.material
    sc = m.sc
    f = KMOD[sc][d] / GAMMA[mat.type]
    c.eq("kmod", m.kmod, KMOD[sc][d])
    c.eq("gammaM", m.gammaM, GAMMA[mat.type])
    c.eq("kdef", m.get_kdef(), KDEF[sc])
    kh = kl = 1.0
    if mat.type == "lvl":
        if what.startswith("bending"):
            kh = c.min(1.2, (300 / s.H) ** mat.s)
        if what == "tension":
            kl = c.min(1.1, (3000 / L) ** (mat.s / 2))
    elif mat.type == "glt" or mat.rhok <= 700:
        ref, e, top = (600, 0.1, 1.1) if mat.type == "glt" else (150, 0.2, 1.3)
        dim = s.B if what == "tension" else s.H
        if what != "none" and bool(dim < ref):
            kh = c.min(top, (ref / dim) ** e)
    c.eq("bending", m.fmd, kh * f * mat.fmk, scale=10)
    c.eq("tension", m.ft0d, (kl if mat.type == "lvl" else kh) * f * mat.ft0k, scale=10)
    c.eq("compression", m.fc0d, f * mat.fc0k, scale=10)
    c.eq("shear", m.fvd, f * mat.fvk, scale=10)
    c.eq("bending without size effect", m.unmodified_fmd, f * mat.fmk, scale=10)
    c.eq("tension without size effect", m.unmodified_ft0d, f * mat.ft0k, scale=10)
    if mat.type == "lvl":
        c.eq("compression across edgewise", m.fc90d, f * mat.fc90edgek, scale=10)
        c.eq("tension across edgewise", m.ft90d, f * mat.ft90edgek, scale=10)
        c.eq("tension across edgewise too", m.ft90edged, f * mat.ft90edgek, scale=10)
        c.eq("rolling shear", m.fr0d, f * mat.fr0k, scale=10)
    else:
        c.eq("compression across", m.fc90d, f * mat.fc90k, scale=10)
        c.eq("tension across", m.ft90d, f * mat.ft90k, scale=10)


@harness()
def flatwise_lvl(c):
    m, s = member(c, "Kerto_S", 3000, d=2, lvldir="flat")
    m.add_section(loc=0.0)
    f = KMOD[m.sc][2] / 1.2
    c.eq("bending", m.fmd, f * 50, scale=10)
    c.eq("compression across", m.fc90d, f * 1.8, scale=10)
