"""C26: resistance and stability checks of timber members (EN 1995-1-1, section 6)."""
from types import SimpleNamespace as NS

TM = "metku.structures.timber.timber_member"
TS = "metku.sections.timber.timber_section"
TD = "metku.materials.timber_data"
MATERIALS = ["C24", "D70", "GL30c", "Kerto_S"]
KM = 0.7
FORCES = ("ned", "myed", "mzed", "vyed", "vzed", "ted")


def member(c, t="C24", length=None, sections=None, wide=None, stub=True, profile=None, **k):
    c.mod("metku.frame2d.frame2d")
    td, m = c.mod(TD), c.mod(TM)
    if stub and c.symbolic:
        for i, f in enumerate(("fmd", "ft0d", "fc0d", "fvd", "fc90d", "ft90d")):
            v = c.real(f, 0.5, 100)
            c.stub(m.TimberMember, f, property(lambda self, v=v: v))
    if profile:
        s = profile(c.mod(TS), td.T[t])
    else:
        b, h = c.real("B", 20, 1000), c.real("H", 20, 2000)
        if wide is not None:
            c.assume(b > h if wide else b <= h)
        s = c.mod(TS).TimberSection(b, h, td.T[t])
    L = c.real("length", 500, 30000) if length is None else length
    x = m.TimberMember(s, s.material, L, "mt", 1, **k)
    s.timber_member = x
    for d in sections or [{}]:
        x.add_section(**d)
    return x


def size(c, name, sign=True, hi=1e6):
    """a force with its magnitude"""
    a = c.real(name, 0, hi)
    return (a, -a if c.choice("sign of " + name, [0, 1]) else a) if sign else (a, a)


# ------------------------------------------------------------------ stresses
@harness()
def stresses(c):
    f = {k: c.real(k, -1e6, 1e6) for k in FORCES}
    t, sc = c.choice("material", MATERIALS), c.choice("service class", [1, 2])
    x = member(c, t, sections=[{}, dict(f, loc=1.0)], varnished=c.choice("varnished", [False, True]))
    x.sc = sc
    b, h = x.section.B, x.section.H
    c.eq("tension", x.sigma_t0d(1), f["ned"] / (b * h), scale=1e3)
    c.eq("compression", x.sigma_c0d(1), f["ned"] / (b * h), scale=1e3)
    my, mz = x.sigma_md(1)
    c.eq("bending about y", my, 6 * f["myed"] / (b * h * h), scale=1e3)
    c.eq("bending about z", mz, 6 * f["mzed"] / (h * b * b), scale=1e3)
    kcr = 1.0 if x.varnished or (t == "Kerto_S" and sc == 2) else 0.67
    ty, tz = x.tau_d(1)
    c.eq("shear y", ty, 1.5 * f["vyed"] / (b * h * kcr), scale=1e3)
    c.eq("shear z", tz, 1.5 * f["vzed"] / (b * h * kcr), scale=1e3)
    c.eq("none", x.sigma_md(0)[0], 0)


RATIO = [1, 1.5, 2, 2.5, 3, 4, 5, 6, 8, 10]
IT = [0.141, 0.196, 0.229, 0.249, 0.263, 0.281, 0.291, 0.299, 0.307, 0.313]
WT = [0.208, 0.231, 0.246, 0.258, 0.267, 0.282, 0.291, 0.299, 0.307, 0.313]


def interpolated(r, ys):
    for i in range(1, len(RATIO)):
        if bool(r <= RATIO[i]):
            return ys[i - 1] + (ys[i] - ys[i - 1]) * (r - RATIO[i - 1]) / (RATIO[i] - RATIO[i - 1])
    return ys[-1]


def register_torsion(wide):
    tag = "wide" if wide else "high"

    @harness(name="torsion_constant_" + tag)
    def _(c):
        """St Venant: table of the plate ratio, on whichever side is the larger"""
        x = member(c, wide=wide)
        b, h = x.section.B, x.section.H
        lo, hi = (h, b) if wide else (b, h)
        c.eq("torsion constant", x.I_tor(0.0) / (hi * lo * lo * lo), interpolated(hi / lo, IT))

    @harness(name="torsion_constant_theory_" + tag)
    def _(c):
        """within three per cent (six, on the safe side, for plates beyond 10:1) of the theory of elasticity"""
        r = c.real("ratio", 1, 50)
        x = member(c, profile=lambda m, t: m.TimberSection(*((100 * r, 100) if wide else (100, 100 * r)), t))
        i = x.I_tor(0.0) / (100 * 100 * 100 * (100 * r))
        u = 1 / r
        want = 1 / 3 - 0.21 * u * (1 - u * u * u * u / 12)
        c.le("not too stiff", i, 1.03 * want)
        c.ge("not too soft", i, 0.93 * want)

    @harness(name="torsion_" + tag)
    def _(c):
        m, t = size(c, "T")
        x = member(c, sections=[dict(ted=t, loc=0.0)], wide=wide)
        b, h = x.section.B, x.section.H
        lo, hi = (h, b) if wide else (b, h)
        w = interpolated(hi / lo, WT) * hi * lo * lo
        c.eq("stress", x.tau_tord(0), t / w, scale=1e3)
        k = 1 + 0.05 * hi / lo
        k = 1.3 if bool(k > 1.3) else k
        c.eq("shape factor", x.k_shape(0), k)
        c.eq("utilization", x.check_torsion(0), m / w / (k * x.fvd), scale=1e4)


register_torsion(False)
register_torsion(True)


# ------------------------------------------------------------------ sections
@harness()
def axial_force(c):
    n, N = size(c, "N")
    x = member(c, sections=[dict(ned=N)])
    a = x.section.B * x.section.H
    c.eq("utilization", x.check_normal_force(0), n / (a * (x.ft0d if bool(N > 0) else x.fc0d)), scale=1e3)


@harness()
def shear(c):
    vy, Vy = size(c, "Vy")
    vz, Vz = size(c, "Vz")
    x = member(c, sections=[dict(vyed=Vy, vzed=Vz)])
    d = x.section.B * x.section.H * 0.67 * x.fvd / 1.5
    c.eq("utilization", x.check_shear_force(0, reduce=False), (vy if bool(vy > vz) else vz) / d, scale=1e3)


LOCS = [0.0, 0.06, 0.15, 0.4, 0.7, 0.88, 0.95, 1.0]


@harness()
def shear_near_supports(c):
    """a beam's section within its depth from a support's face takes the shear of the last section in that region"""
    v = [c.real("V%d" % i, -1e6, 1e6) for i in range(len(LOCS))]
    kind = c.choice("type", ["beam", "rigid-beam", "column"])
    x = member(c, length=c.real("L", 1000, 30000), sections=[dict(vzed=a, loc=p) for a, p in zip(v, LOCS)], mtype=kind)
    h = [c.real("h%d" % i, 10, 1000) if c.choice("other member %d" % i, [True, False]) else 0 for i in (1, 2)]
    me = NS(member=x, cross_section=x.section)
    at = [[me] + ([NS(member=None, cross_section=NS(H=k))] if not isinstance(k, int) else []) for k in h]
    x.parent = NS(n1=NS(parents=at[0]), n2=NS(parents=at[1]))
    a, b = [(k / 2 + x.section.H) / x.length for k in h]
    c.assume(a + b < 1)
    n = c.choice("section", range(len(LOCS)))
    k = n
    if kind != "column":
        if bool(LOCS[n] < a):
            while bool(LOCS[k + 1] <= a):
                k += 1
        elif bool(LOCS[n] > 1 - b):
            while bool(LOCS[k - 1] >= 1 - b):
                k -= 1
    c.eq("utilization", x.check_shear_force(n), x.check_shear_force(k, reduce=False), scale=1e3)


def bending(x, my, mz):
    b, h = x.section.B, x.section.H
    return 6 * my / (b * h * h) / x.fmd, 6 * mz / (h * b * b) / x.fmd


def larger(c, name, got, a, b, scale=1e4):
    """got is the larger of a and b"""
    c.eq(name, got, a if bool(a >= b) else b, scale=scale)


def register_combined(what):
    @harness(name="combined_" + what)
    def _(c):
        """(6.11), (6.17), (6.19) and their partners, whatever the directions of the moments"""
        my, My = size(c, "My")
        mz, Mz = size(c, "Mz")
        n = c.real("N", 0, 1e6)
        N = {"bending": 0, "tension": n, "compression": -n}[what]
        x = member(c, sections=[dict(ned=N, myed=My, mzed=Mz)])
        y, z = bending(x, my, mz)
        a = x.section.B * x.section.H
        if what == "bending":
            ax, got = 0, x.check_bending_moment(0)
        elif what == "tension":
            ax, got = n / (a * x.ft0d), x.check_bending_tension(0)
        else:
            ax, got = (n / (a * x.fc0d)) ** 2, x.check_bending_compression(0)
        larger(c, "utilization", got, ax + y + KM * z, ax + KM * y + z, scale=1e4 if what == "bending" else 1e6)


for w in ("bending", "tension", "compression"):
    register_combined(w)


@harness()
def all_sections(c):
    """every section is checked for everything, the worst of each is kept"""
    n = c.choice("sections", [1, 2, 3])
    x = member(c, sections=[dict(loc=i / 2) for i in range(n)])
    names = ["check_normal_force", "check_shear_force", "check_bending_moment", "check_torsion", "check_bending_tension", "check_bending_compression"]
    keys = ["un", "uv", "um", "ut", "ubt", "ubc"]
    k = c.choice("check", list(range(6)))
    u = [c.real("u%d" % i, 0, 5) for i in range(n)]
    reduced = []
    for j, f in enumerate(names):
        c.stub(type(x), f, lambda self, n, reduce=True, j=j: reduced.append(reduce) or (u[n] if j == k else 0.25 * j), concrete=True)
    r = x.check_sections(reduce_uv=False)
    for i in range(n):
        c.le("covers %d" % i, u[i], r[k])
        for j in range(6):
            c.eq("kept %d %s" % (i, keys[j]), x.utilization[i][keys[j]], u[i] if j == k else 0.25 * j)
    top = u[0]
    for v in u[1:]:
        top = top if bool(top >= v) else v
    for j in range(6):
        c.eq("worst " + keys[j], r[j], top if j == k else 0.25 * j)
    c.eq("largest of one section", x.section_resistance(0, return_list=False), u[0] if bool(u[0] >= 1.25) else 1.25 if k != 5 else (u[0] if bool(u[0] >= 1) else 1.0))


@harness()
def design(c):
    """the largest of everything; buckling of beams includes lateral-torsional buckling and bearing"""
    kind = c.choice("type", ["beam", "rigid-beam", "column"])
    x = member(c, mtype=kind)
    s, b0, b1, lt, cp = (c.real(n, 0, 5) for n in ("section", "buckling y", "buckling z", "lateral torsional", "bearing"))
    cls = type(x)
    c.stub(cls, "check_sections", lambda self, reduce_uv=True: [0, s, 0], concrete=True)
    c.stub(cls, "check_buckling", lambda self: [b0, b1], concrete=True)
    c.stub(cls, "check_LT_buckling", lambda self, get_full=False: lt, concrete=True)
    c.stub(cls, "check_perpendicular_compression", lambda self, location=False: cp, concrete=True)
    r = x.design()
    parts = [s, b0, b1] + ([lt, cp] if kind != "column" else [])
    for i, p in enumerate(parts):
        c.ge("covers %d" % i, r, p)
    c.ensures("is one of them", any(bool(r == p) for p in parts))
    x.check_cross_section()
    strong = all(bool(v <= 1) for v in (s, b0, b1, lt))
    c.same("strong enough", bool(x.is_strong_enough), strong)
    c.same("ratios", len(x.r), 6)


# ------------------------------------------------------------------ buckling
@harness()
def lengths_between_supports(c):
    """any two lateral supports, in any order"""
    x = member(c, lateral_support_y=[], lateral_support_z=[])
    n = c.choice("supports", [0, 1, 2])
    p = [c.real("p%d" % i, 0.01, 0.99) for i in range(n)]
    if n == 2:
        c.assume(p[0] != p[1])
    other = c.choice("other", [[], [0.25]])
    which = c.choice("direction", [0, 1])
    x.lateral_support_y, x.lateral_support_z = (list(p), list(other)) if which == 0 else (list(other), list(p))
    x.calc_l_c()
    q = p if n < 2 or bool(p[0] < p[1]) else [p[1], p[0]]
    ends = [0, *q, 1]
    c.same("segments", len(x.L_c[which]), n + 1)
    for i in range(n + 1):
        c.eq("length %d" % i, x.L_c[which][i], x.length * (ends[i + 1] - ends[i]), scale=1e4)
    for i in range(len(other) + 1):
        c.eq("other %d" % i, x.L_c[1 - which][i], x.length * ([1.0] if not other else [0.25, 0.75])[i], scale=1e4)


@harness()
def effective_lengths(c):
    x = member(c, length=6000, lateral_support_y=[], lateral_support_z=c.choice("z", [[], [0.5]]), mtype=c.choice("type", ["beam", "column", "other"]))
    x.calc_l_c()
    nz = len(x.lateral_support_z) + 1
    kind = c.choice("beta", ["number", "list", "rotational stiffness"])
    if kind == "rotational stiffness":
        if x.type == "column" or nz > 1:
            return
        x.parent = NS(frame2d=NS(supports={}))
        ends = [c.choice("Sj%d" % i, [1.0, 1e9, 1e16]) for i in (1, 2)]
        x.Sj1, x.Sj2 = ends
        if x.type == "beam":
            b = {(1.0, 1.0): 1, (1e16, 1e16): 0.8}.get(tuple(ends), 0.9 if set(ends) == {1.0, 1e16} else 0.85)
        else:
            b = {(1e16, 1e16): 0.7}.get(tuple(ends), 0.85 if set(ends) == {1.0, 1e16} else 1)
        want = (b, b)
    elif kind == "number":
        want = (c.choice("value", [0.7, 1, 2.2]),) * 2
        x.beta = want[0]
    else:
        want = (0.9, 2)
        x.beta = [0.9, 2]
    ln = x.Ln()
    c.eq("y", ln[0][0], want[0] * 6000)
    for i in range(nz):
        c.eq("z %d" % i, ln[1][i], want[1] * 6000 / nz)


COLUMN = {("F", "F"): 0.7, ("H", "H"): 1, ("F", "H"): 0.85, ("F", "Y"): 2.2, ("H", "Y"): 2, ("F", "X"): 0.85,
          ("H", "X"): 1, ("F", None): 2.2, ("H", None): 2}
SUPPORT = dict(F="FixedSupport", H="XYHingedSupport", X="XHingedSupport", Y="YHingedSupport")


def supported(c, x, a, b, order=0):
    """member x on supports a and b; other supports of the frame elsewhere"""
    fr = c.mod("metku.frame2d.frame2d")
    at = [([0, 0], a), ([0, 6000], b), ([5000, 0], "F"), ([5000, 6000], "Y")]
    made = [getattr(fr, SUPPORT[k])(p) for p, k in at if k]
    made = made[::-1] if order else made
    x.parent = NS(frame2d=NS(supports={"S%d" % i: s for i, s in enumerate(made)}), n1=NS(coord=(0, 0)), n2=NS(coord=(0, 6000)))


@harness()
def column_effective_lengths(c):
    """by the supports of its ends, whichever end is which: a column whose end can move sideways sways"""
    x = member(c, length=c.real("L", 500, 30000), lateral_support_y=[], lateral_support_z=[], mtype="column")
    x.calc_l_c()
    pair = c.choice("supports", list(COLUMN))
    a, b = pair if c.choice("upright", [True, False]) else pair[::-1]
    supported(c, x, a, b, c.choice("order of supports", [0, 1]))
    x.Sj1, x.Sj2 = c.choice("Sj1", [1.0, 1e16]), 1e9
    ln = x.Ln()
    c.eq("y", ln[0][0], COLUMN[pair] * x.length, scale=1e4)
    c.eq("z", ln[1][0], COLUMN[pair] * x.length, scale=1e4)


def register_segments(mtype):
    @harness(name="effective_lengths_of_segments_" + mtype, bounded="two and three segments")
    def _(c):
        """ends by support or rotational stiffness, middle segments 0.9 in the plane; out of the plane a beam's are full"""
        n = c.choice("segments", [2, 3])
        p = [c.real("p%d" % i, 0.01, 0.99) for i in range(n - 1)]
        if n == 3:
            c.assume(p[0] < p[1])
        which = c.choice("direction", [0, 1])
        L = c.real("L", 500, 30000)
        sup = [list(p), []] if which == 0 else [[], list(p)]
        x = member(c, length=L, lateral_support_y=sup[0], lateral_support_z=sup[1], mtype=mtype)
        x.calc_l_c()
        kinds = [c.choice("start", ["F", "H", "X", None]), c.choice("end", ["F", "H", "Y", None])]
        if mtype == "column" and not {"F", "H"} & set(kinds):
            return
        supported(c, x, *kinds)
        sj = [c.choice("Sj1", [1.0, 1e9, 1e16]), c.choice("Sj2", [1e3, 1e10, 1e15])]
        x.Sj1, x.Sj2 = sj
        ends = [0.8 if k == "F" or s >= 1e15 else 1 if k == "H" or s <= 1e3 else 0.85 for k, s in zip(kinds, sj)]
        want = [ends[0], *([0.9 if which == 0 else 1] * (n - 2)), ends[1]]
        if mtype == "beam" and which == 1:
            want = [1] * n
        ln = x.Ln()[which]
        q = [0, *p, 1]
        for i in range(n):
            c.eq("segment %d" % i, ln[i], want[i] * x.length * (q[i + 1] - q[i]), scale=1e4)


register_segments("beam")
register_segments("column")


def slender(c, t, N=-1000.0, **k):
    x = member(c, t, length=c.real("L", 200, 30000), sections=[dict(ned=N, myed=1.0, mzed=1.0, loc=0.0), dict(ned=N, loc=1.0)], lateral_support_y=[], lateral_support_z=[],
               beta=c.real("beta", 0.5, 2.5) if c.symbolic else 1.0, **k)
    if c.symbolic:
        x.beta = [x.beta, x.beta]
    x.calc_l_c()
    return x, (x.beta[0] if c.symbolic else x.beta)


@harness()
def slenderness(c):
    """(6.21), (6.22): effective length by radius of gyration"""
    t = c.choice("material", MATERIALS)
    x, beta = slender(c, t)
    L, dims = x.length, (x.section.H, x.section.B)
    la, rel, cr = x.lamda(), x.lamda_rel(), x.sigma()
    for i in (0, 1):
        want = beta * L / (dims[i] / c.sqrt(12))
        c.eq("slenderness %d" % i, la[i][0], want, scale=1e3)
        k = (x.material.fc0k / x.material.E005) ** 0.5 / c.pi
        c.eq("relative %d" % i, rel[i][0], want * k, scale=100)
        c.eq("critical stress %d" % i, cr[i][0] * (want * want), c.pi ** 2 * x.material.E0mean, scale=1e5)
    c.eq("straightness", x.beta_c(), 0.2 if x.material.type == "solid_timber" else 0.1)


@harness()
def buckling_curve(c):
    """(6.25)-(6.29): between 0 and 1, and the residual of the quadratic they solve; lower for slender members"""
    t = c.choice("material", ["C24", "GL30c"])
    x = member(c, t)
    l = c.real("relative slenderness", 0.01, 6)
    more = c.real("more slender", 0, 3)
    cls, np = type(x), c.mod(TM).np
    c.stub(cls, "lamda_rel", lambda self: [np.array([l]), np.array([l + more])], concrete=True)
    b = 0.2 if t == "C24" else 0.1
    k = 0.5 * (1 + b * (l - 0.3) + l * l)
    c.eq("k", x.k()[0][0], k, scale=10)
    kc = x.k_c()
    v = kc[0][0]
    c.ge("positive", v, 0)
    c.le("no more than the strength", v, 1)
    want = 1 / (k + c.sqrt(k * k - l * l))
    c.eq("buckling factor", v, 1 if bool(want > 1) else want)


def factor(c, b, l):
    k = 0.5 * (1 + b * (l - 0.3) + l * l)
    v = 1 / (k + c.sqrt(k * k - l * l))
    return 1 if bool(v > 1) else v


@harness()
def buckling(c):
    """(6.23), (6.24) with the largest stresses of the segment; not in tension"""
    my, My = size(c, "My")
    mz, Mz = size(c, "Mz")
    n = c.real("N", 1, 1e6)
    tension = c.choice("tension", [False, True])
    N = n if tension else -n
    part = c.choice("governing", [0, 1])
    f = c.real("other section", 0, 1)
    a, b = dict(ned=N, myed=My, mzed=Mz), dict(ned=N * f, myed=-My * f, mzed=Mz * f)
    if tension:
        b = dict(ned=N)
    secs = [dict(a, loc=0.0), dict(b, loc=1.0)] if part == 0 else [dict(b, loc=0.0), dict(a, loc=1.0)]
    x = member(c, sections=secs, lateral_support_y=[], lateral_support_z=[])
    x.calc_l_c()
    ky, kz = c.real("kcy", 0.01, 1), c.real("kcz", 0.01, 1)
    np = c.mod(TM).np
    c.stub(type(x), "k_c", lambda self: [np.array([ky]), np.array([kz])], concrete=True)
    r = x.check_buckling()
    y, z = bending(x, my, mz)
    ax = n / (x.section.B * x.section.H * x.fc0d)
    c.eq("about y", r[0], 0 if tension else ax / ky + y + KM * z, scale=1e5)
    c.eq("about z", r[1], 0 if tension else ax / kz + KM * y + z, scale=1e5)


@harness(bounded="one lateral support, sections at the supports and the ends")
def buckling_in_segments(c):
    """each segment with its own forces and its own factor"""
    n = [c.real("N%d" % i, 1, 1e6) for i in range(2)]
    m = [c.real("M%d" % i, 0, 1e6) for i in range(2)]
    x = member(c, sections=[dict(ned=-n[0], myed=m[0], loc=0.0), dict(ned=-1.0, loc=0.5), dict(ned=-n[1], mzed=m[1], loc=1.0)], lateral_support_y=[], lateral_support_z=[0.5])
    x.calc_l_c()
    c.assume(n[0] <= n[1])
    k = [c.real("k%d" % i, 0.01, 1) for i in range(3)]
    np = c.mod(TM).np
    c.stub(type(x), "k_c", lambda self: [np.array([k[0]]), np.array([k[1], k[2]])], concrete=True)
    r = x.check_buckling()
    y, z = bending(x, m[0], m[1])
    a = x.section.B * x.section.H * x.fc0d
    c.eq("about y", r[0], n[1] / (a * k[0]) + y + KM * z, scale=1e5)
    larger(c, "about z", r[1], n[0] / (a * k[1]) + KM * y, n[1] / (a * k[2]) + z, scale=1e5)


# ------------------------------------------------------------------ lateral-torsional buckling
@harness()
def critical_bending_stress(c):
    """(6.31), with the effective length of a distributed load on either edge"""
    t = c.choice("material", ["C24", "GL30c", "Kerto_S"])
    edge = c.choice("edge", ["compression", "tension", None])
    x = member(c, t, length=c.real("L", 3000, 30000), lateral_support_y=[], lateral_support_z=c.choice("supports", [[], [0.5]]), edge_load=edge)
    x.calc_l_c()
    b, h = x.section.B, x.section.H
    lef = 0.9 * x.length / (len(x.lateral_support_z) + 1) + {"compression": 2 * h, "tension": -0.5 * h, None: 0}[edge]
    c.assume(lef > 10)
    c.eq("effective length", x.l_ef(0, 1, 0.0), lef, scale=1e4)
    c.assume(h <= 8 * b)
    c.assume(b <= 8 * h)
    s = x.sigma_mcrit(0, 1, 0.0)
    it = x.I_tor(0.0)
    m = x.material
    c.eq("critical stress", s * (lef * (b * h * h / 6)), c.pi * c.sqrt(m.E005 * (h * b * b * b / 12) * m.G005 * it), scale=1e12)


@harness()
def lateral_buckling_factor(c):
    """(6.30), (6.34): no jumps beyond the rounding of the code, never above 1"""
    x = member(c)
    s = c.real("critical stress", 0.1, 1e4)
    c.stub(type(x), "sigma_mcrit", lambda self, i, yz, loc: s, concrete=True)
    l = x.lamda_relm(0, 1, 0.0)
    c.eq("relative slenderness", l * l, x.material.fmk / s, scale=100)
    k = x.k_crit(0, 1, 0.0)
    if bool(l <= 0.75):
        c.eq("stocky", k, 1)
    elif bool(l <= 1.4):
        c.eq("intermediate", k, 1.56 - 0.75 * l)
    else:
        c.eq("slender", k * (l * l), 1)
    c.le("at most", k, 1)
    c.ge("positive", k, 0)


@harness()
def lateral_torsional_buckling(c):
    """(6.33), or with an axial force (6.35)"""
    my, My = size(c, "My")
    axial = c.choice("axial", [0, 1])
    n = c.real("N", 1, 1e6) if axial else 0
    f = c.real("other section", 0, 1)
    part = c.choice("governing", [0, 1])
    a, b = dict(myed=My, ned=-n), dict(myed=-My * f, ned=-n)
    x = member(c, sections=[dict(a, loc=0.0), dict(b, loc=1.0)] if part == 0 else [dict(b, loc=0.0), dict(a, loc=1.0)], lateral_support_y=[], lateral_support_z=[])
    c.assume(my >= 1)
    x.calc_l_c()
    k, kz = c.real("kcrit", 0.01, 1), c.real("kcz", 0.01, 1)
    np = c.mod(TM).np
    c.stub(type(x), "k_c", lambda self: [np.array([9.0]), np.array([kz])], concrete=True)
    c.stub(type(x), "k_crit", lambda self, i, yz, loc: k, concrete=True)
    y, _ = bending(x, my, 0)
    want = y / k if not axial else (y / k) ** 2 + n / (x.section.B * x.section.H * kz * x.fc0d)
    c.eq("utilization", x.check_LT_buckling(), want, scale=1e6)
    full = x.check_LT_buckling(get_full=True)
    c.same("formula", full["kaava"], 35 if axial else 33)


@harness(bounded="one lateral support at any place")
def lateral_torsional_buckling_in_segments(c):
    """(6.33) or (6.35) of each section with the factors of its own segment, at a support the worse of both"""
    axial = c.choice("axial", [0, 1])
    my = [c.real("M%d" % i, 0, 1e6) for i in range(2)]
    n = [c.real("N%d" % i, 1, 1e6) if axial else 0 for i in range(2)]
    at = c.choice("support", [0.3, 0.6])
    c.assume(my[0] + my[1] >= 1)
    x = member(c, sections=[dict(myed=my[0], ned=-n[0], loc=0.1), dict(myed=my[1], ned=-n[1], loc=0.9)], lateral_support_y=[0.5], lateral_support_z=[at])
    k = [c.real("kcrit%d" % i, 0.01, 1) for i in range(2)]
    kz = [c.real("kcz%d" % i, 0.01, 1) for i in range(2)]
    np = c.mod(TM).np
    c.stub(type(x), "k_c", lambda self: [np.array([9.0, 9.0]), np.array(list(kz))], concrete=True)
    c.stub(type(x), "k_crit", lambda self, i, yz, loc: k[i], concrete=True)
    u = []
    for i in range(2):
        y, _ = bending(x, my[i], 0)
        u.append(y / k[i] if not axial else (y / k[i]) ** 2 + n[i] / (x.section.B * x.section.H * kz[i] * x.fc0d))
    larger(c, "utilization", x.check_LT_buckling(), u[0], u[1], scale=1e6)


@harness()
def bracing(c):
    """(9.34)-(9.37), the length of the beam in millimetres"""
    m, M = size(c, "M")
    t = c.choice("material", ["C24", "GL30c"])
    n = c.choice("supports", [[], [0.5], [0.25, 0.5, 0.75]])
    L = c.choice("span", [6000, 15000, 24000])
    x = member(c, t, length=L, sections=[dict(myed=M, loc=0.0)], lateral_support_y=[], lateral_support_z=list(n))
    for i in range(1, 2 * len(n) + 2):
        x.add_section(loc=i / (2 * len(n) + 1) if i < 2 * len(n) + 1 else 1.0)
    x.parent = NS(length=L)
    k = c.real("kcrit", 0, 1)
    c.stub(type(x), "k_crit", lambda self, i, yz, loc: k, concrete=True)
    h = x.section.H
    bays = len(n) + 1
    ks = {1: 0.0, 2: 2.0, 4: 2 + 2 * 0.5 ** 0.5}[bays]
    ks = 2 + 2 * {1: -1.0, 2: 0.0, 4: 0.5 ** 0.5}[bays]
    given = c.choice("ks", [None, 4])
    nd = (1 - k) * m / h
    C, F, q = x.bracing(5, given)
    c.eq("stiffness", C, (given or ks) * nd / (L / bays), scale=1e3)
    c.eq("force", F, nd / (50 if t == "C24" else 80), scale=1e3)
    c.eq("distributed", q, min(1, (15000 / L) ** 0.5) * 5 * nd / (50 * L), scale=1e2)


# ------------------------------------------------------------------ tapered and curved beams
def beam(c, kind, **k):
    """single-tapered, double-tapered, curved and pitched cambered beams by their own data"""
    h0, hap = c.real("h0", 100, 2000), c.real("hap", 100, 3000)
    c.assume(h0 <= hap)

    def make(ts, mat):
        if kind in ("PulpettiPalkki", "HarjaPalkki"):
            return getattr(ts, kind)(c.real("B", 40, 500), h0, hap, material=mat)
        s = object.__new__(getattr(ts, kind))
        s.__dict__.update(_B=100.0, h0=h0, hap=hap, r_in=c.real("r_in", 2000, 50000), t=c.choice("t", [33, 45]), alpha=c.real("alpha", 0, 0.5), beta=0.1, xap=0.5, _R=0)
        return s
    if kind in ("PulpettiPalkki", "HarjaPalkki"):
        return member(c, "GL30c", length=c.real("L", 2000, 40000), profile=make, **k)
    m = c.mod(TM)
    x = object.__new__(m.TimberMember)
    x.__dict__.update(section=make(c.mod(TS), None), length=20000)
    return x


KINDS = ["PulpettiPalkki", "HarjaPalkki", "KaarevaPalkki", "KaarevaHarjaPalkki"]


@harness()
def slope(c):
    k = c.choice("beam", KINDS)
    x = beam(c, k)
    if k in ("PulpettiPalkki", "HarjaPalkki"):
        run = x.length if k == "PulpettiPalkki" else x.length / 2
        c.eq("tangent", c.tan(x.alfa()), (x.section.hap - x.section.h0) / run, scale=1)
    else:
        c.eq("angle", x.alfa(), x.section.alpha)


def polynomial(c, x, t):
    s = x.section
    return s.hap / (s.r_in + 0.5 * s.hap)


@harness()
def apex_factors(c):
    """(6.43)-(6.48), (6.49), (6.52), (6.56)-(6.59)"""
    k = c.choice("beam", KINDS)
    x = beam(c, k)
    a = c.real("slope", 0, 0.5)
    c.stub(type(x), "alfa", lambda self: a, concrete=True)
    t = c.tan(a)
    c.eq("k_dis", x.k_dis(), 1.4 if k in KINDS[:2] else 1.7)
    s = x.section
    if k == "HarjaPalkki":
        c.eq("k_l", x.k_l(), 1 + 1.4 * t + 5.4 * t * t, scale=10)
        c.eq("k_p", x.k_p(), 0.2 * t)
    if k in KINDS[2:]:
        u = s.hap / (s.r_in + 0.5 * s.hap)
    if k == "KaarevaPalkki":
        c.eq("k_l", x.k_l(), 1 + 0.35 * u + 0.6 * u * u, scale=10)
        c.eq("k_p", x.k_p(), 0.25 * u)
    if k == "KaarevaHarjaPalkki":
        c.eq("k_l", x.k_l(), 1 + 1.4 * t + 5.4 * t * t + (0.35 - 8 * t) * u + (0.6 + 8.3 * t - 7.8 * t * t) * u * u + 6 * t * t * u * u * u, scale=10)
        c.eq("k_p", x.k_p(), 0.2 * t + (0.25 - 1.5 * t + 2.6 * t * t) * u + (2.1 * t - 4 * t * t) * u * u, scale=10)
    if k in KINDS[:2]:
        c.eq("k_r", x.k_r(), 1)
    else:
        q = s.r_in / s.t
        c.eq("k_r", x.k_r(), 1 if bool(q >= 240) else 0.76 + 0.001 * q)


@harness()
def volume_factor(c):
    """(6.51): volumes beyond two thirds of the beam do not count; none for solid timber"""
    t = c.choice("material", ["C24", "GL30c", "Kerto_S"])
    given = c.choice("given", [None, 0.5])
    x = member(c, t, k_vol=given)
    v, tot = c.real("apex volume", 1e5, 1e9), c.real("volume", 1e6, 1e10)
    c.stub(type(x), "V", lambda self: v, concrete=True)
    c.stub(type(x), "V_tot", lambda self: tot, concrete=True)
    got = x.k_vol()
    if given:
        c.eq("given", got, given)
    elif t == "C24":
        c.eq("solid timber", got, 1)
    else:
        e = 2 / 3 * tot
        e = e if bool(v > e) else v
        c.eq("factor", got, (1e7 / e) ** 0.2)


@harness()
def total_volume(c):
    k = c.choice("beam", KINDS[:2])
    x = beam(c, k)
    s = x.section
    c.eq("volume", x.V_tot(), s.B * x.length * (s.h0 + s.hap) / 2, scale=1e10, tol=1e-6)


@harness()
def tapered_edge(c):
    """(6.38)-(6.40): tension at the edge with 0.75 fv and ft90, compression with 1.5 fv and fc90"""
    my, My = size(c, "My")
    c.assume(my >= 1)
    x = beam(c, "PulpettiPalkki", sections=[dict(myed=My, loc=0.0), dict(loc=1.0)])
    x.section.flipped = c.choice("flipped", [False, True])
    a = c.real("slope", 0, 0.4)
    c.stub(type(x), "alfa", lambda self: a, concrete=True)
    t = c.tan(a)
    sigma = 6 * my / (x.section.B * x.section.h0 * x.section.h0)
    c.eq("edge stress", x.sigma_m_alpha_d(), sigma if bool(My > 0) else -sigma, scale=1e3)
    f = x.fmd
    if (bool(My > 0)) != x.section.flipped:
        u, v = f / (0.75 * x.fvd) * t, f / x.ft90d * t * t
    else:
        u, v = f / (1.5 * x.fvd) * t, f / x.fc90d * t * t
    k = 1 / c.sqrt(1 + u * u + v * v)
    c.eq("factor", x.k_m_alpha(), k)
    c.eq("utilization", x.check_single_tapered_beam_bending_tension() * k, sigma / f, scale=1e3)


@harness()
def apex_checks(c):
    """(6.41), (6.50), (6.53): stresses at the apex, from the section there or else from its neighbours"""
    x = beam(c, "HarjaPalkki")
    x.clear_sections()
    at = c.choice("section at the apex", [True, False])
    M = [c.real("M%d" % i, -1e8, 1e8) for i in range(4)]
    locs = [0.0, 0.25, 0.5, 1.0] if at else [0.0, 0.4, 0.6, 1.0]
    for m, l in zip(M, locs):
        x.add_section(myed=m, loc=l)
    cls = type(x)
    kl, kp, kr, kd, kv = (c.real(n, lo, hi) for n, lo, hi in (("kl", 1, 5), ("kp", 0, 1), ("kr", 0.5, 1), ("kdis", 1, 2), ("kvol", 0.1, 2)))
    for n, v in (("k_l", kl), ("k_p", kp), ("k_r", kr), ("k_dis", kd), ("k_vol", kv)):
        c.stub(cls, n, lambda self, v=v: v, concrete=True)
    m = M[2] if at else (M[1] + M[2]) / 2
    c.eq("apex moment", x.M_apd(), m, scale=1e8)
    s = x.section
    w = s.B * s.hap * s.hap / 6
    c.eq("apex modulus", x.W_ap()[0], w, scale=1e8)
    c.eq("bending", x.check_apex_bending_stress(), kl * m / w / (kr * x.fmd), scale=1e5)
    c.eq("tension across", x.check_apex_perpendicular_tension(), kp * m / w / (kd * kv * x.ft90d), scale=1e5)
    c.eq("tension across too", x.check_perpendicular_to_grain_tension(), kp * m / w / (kd * kv * x.ft90d), scale=1e5)
