"""C08: welded I sections have the properties of the three rectangles they are made of (z measured from the bottom face)."""
WI = "metku.sections.steel.wi"


def dims(c, case=None, resize=False):
    """case: where the equal-area axis lies; resize: assign the dimensions to an existing section (fewer paths than building one;
    "dimensions" builds it, C09 proves that both ways agree)"""
    bt, bb, tt, tb = c.real("bt", 20, 2000), c.real("bb", 20, 2000), c.real("tt", 1, 200), c.real("tb", 1, 200)
    hw, tw, a = c.real("hw", 10, 5000), c.real("tw", 1, 100), c.real("a", 1, 10)
    At, Aw, Ab = bt * tt, hw * tw, bb * tb
    if case == "web":
        c.assume(At < Aw + Ab)
        c.assume(Ab < Aw + At)
    elif case == "top":
        c.assume(At >= Aw + Ab)
    elif case == "bottom":
        c.assume(Ab >= Aw + At)
    if resize:
        s = c.mod(WI).WISection(500, 8, [250, 200], [12, 14], weld_throat=4)
        s.h, s.tw, s.bt, s.bb, s.tt, s.tb, s.weld_throat = tt + hw + tb, tw, bt, bb, tt, tb, a
    else:
        s = c.mod(WI).WISection(tt + hw + tb, tw, [bt, bb], [tt, tb], weld_throat=a)
    s.material.fy = c.real("fy", 200, 960)
    return s, bt, bb, tt, tb, hw, tw, a


@harness()
def dimensions(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c)
    q2 = c.sqrt(2)
    c.eq("h", s.h, tt + tb + hw)
    c.eq("hw", s.hw, hw)
    c.eq("b", list(s.b), [bt, bb])
    c.eq("tf", list(s.tf), [tt, tb])
    c.eq("clear web", s.cw, hw - 2 * q2 * a)
    c.eq("top outstand", s.cf_top, (bt - tw) / 2 - q2 * a)
    c.eq("bottom outstand", s.cf_bottom, (bb - tw) / 2 - q2 * a)
    c.eq("zb", s.zb, tb / 2)
    c.eq("zw", s.zw, tb + hw / 2)
    c.eq("zt", s.zt, tb + hw + tt / 2)


@harness()
def areas(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    c.eq("Aw", s.Aw, hw * tw)
    c.eq("At", s.At, bt * tt)
    c.eq("Ab", s.Ab, bb * tb)
    c.eq("A", s.A, hw * tw + bt * tt + bb * tb)
    # two faces and two tips of each flange less the two web thicknesses, two web faces
    c.eq("circumference", s.Au, 2 * bt + 2 * tt + 2 * bb + 2 * tb - 2 * tw + 2 * hw)
    c.eq("section factor", s.section_factor, s.Au / s.A * 1000)
    eta = 1.2 if s.fy <= 460 else 1.0
    c.eq("shear area (EN 1993-1-1 6.2.6(3)e)", s.Ashear[1], eta * hw * tw)
    c.eq("flange resistances", [s.NtopRd, s.NbottomRd], [bt * tt * s.fy, bb * tb * s.fy])
    c.eq("moment carried by the flanges", s.MfRd, c.min(bt * tt, bb * tb) * s.fy * (hw + (tt + tb) / 2))


@harness()
def parts(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    c.eq("web about y", s.Iyw, tw * hw ** 3 / 12)
    c.eq("web about z", s.Izw, hw * tw ** 3 / 12)
    c.eq("top flange about y", s.Iyt, bt * tt ** 3 / 12)
    c.eq("top flange about z", s.Izt, tt * bt ** 3 / 12)
    c.eq("bottom flange about y", s.Iyb, bb * tb ** 3 / 12)
    c.eq("bottom flange about z", s.Izb, tb * bb ** 3 / 12)


def axis(bt, bb, tt, tb, hw, tw):
    A = bt * tt + bb * tb + hw * tw
    S = bb * tb * tb / 2 + hw * tw * (tb + hw / 2) + bt * tt * (tb + hw + tt / 2)
    return S / A


def rect_I(b, z0, z1, z):
    """integral of b*(zeta - z)^2 over [z0, z1]"""
    return b * ((z1 - z) ** 3 - (z0 - z) ** 3) / 3


@harness(timeout=15)
def elastic(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c)
    h = tt + tb + hw
    z = axis(bt, bb, tt, tb, hw, tw)
    zel = s.elastic_neutral_axis()
    c.eq("elastic neutral axis", zel, z)
    I = s.I
    Iy = rect_I(bb, 0, tb, z) + rect_I(tw, tb, tb + hw, z) + rect_I(bt, tb + hw, h, z)
    Iz = (tb * bb ** 3 + tt * bt ** 3 + hw * tw ** 3) / 12
    c.eq("Iy", I[0], Iy)
    c.eq("Iz", I[1], Iz)
    c.eq("Iy attribute", s.Iy, Iy)
    c.eq("Iz attribute", s.Iz, Iz)


@harness(timeout=15)
def elastic_moduli(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    Iy, Iz = c.real("Iy", 1, 1e12), c.real("Iz", 1, 1e12)
    z = axis(bt, bb, tt, tb, hw, tw)
    s.second_moment = lambda: [Iy, Iz]
    c.eq("Wel,y", s.Wel[0], Iy / c.max(z, tt + tb + hw - z))
    c.eq("Wel,z", s.Wel[1], Iz / (c.max(bt, bb) / 2))
    c.eq("Wely attribute", s.Wely, Iy / c.max(z, tt + tb + hw - z))


def plastic(case):
    @harness(name="plastic_axis_in_" + case, timeout=15)
    def _(c):
        s, bt, bb, tt, tb, hw, tw, a = dims(c, case)
        h = tt + hw + tb
        d = s.plastic_neutral_axis()
        lo, hi = {"web": (tb, tb + hw), "top": (tb + hw, h), "bottom": (0, tb)}[case]
        c.ge("the axis lies in the " + case, d, lo)
        c.le("the axis lies in the " + case + " (upper end)", d, hi)
        # the parts below and above the axis, given where it lies
        if case == "web":
            below = [(bb, 0, tb), (tw, tb, d)]
            above = [(tw, d, tb + hw), (bt, tb + hw, h)]
        elif case == "top":
            below = [(bb, 0, tb), (tw, tb, tb + hw), (bt, tb + hw, d)]
            above = [(bt, d, h)]
        else:
            below = [(bb, 0, d)]
            above = [(bb, d, tb), (tw, tb, tb + hw), (bt, tb + hw, h)]
        Al = sum(b * (z1 - z0) for b, z0, z1 in below)
        Au = sum(b * (z1 - z0) for b, z0, z1 in above)
        c.eq("equal areas below and above", Al, Au)
        S = sum(b * ((d - z0) ** 2 - (d - z1) ** 2) / 2 for b, z0, z1 in below)
        S = S + sum(b * ((z1 - d) ** 2 - (z0 - d) ** 2) / 2 for b, z0, z1 in above)
        c.eq("Wpl,y is the first moment of the halves", s.Wpl[0], S)
        c.eq("Wpl,z", s.Wpl[1], (bb ** 2 * tb + bt ** 2 * tt + tw ** 2 * hw) / 4)
        c.eq("Wply attribute", s.Wply, S)


for _case in ("web", "top", "bottom"):
    plastic(_case)


@harness(timeout=15)
def torsion(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    c.eq("It", s.It, (bt * tt ** 3 + bb * tb ** 3 + hw * tw ** 3) / 3)
    It, Ib = tt * bt ** 3 / 12, tb * bb ** 3 / 12
    Iz = It + Ib + hw * tw ** 3 / 12
    d = hw + (tt + tb) / 2
    c.eq("Iw = Izt (1 - Izt/Iz) hs^2", s.Iw, It * (1 - It / Iz) * d ** 2)


@harness(timeout=15)
def asymmetry(c):
    """shear centre and Wagner factor, with coordinates from the centroid"""
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    z = axis(bt, bb, tt, tb, hw, tw)
    It, Ib, Iw = tt * bt ** 3 / 12, tb * bb ** 3 / 12, hw * tw ** 3 / 12
    zt, zb, zw = tb + hw + tt / 2 - z, tb / 2 - z, tb + hw / 2 - z
    zs = (It * zt + Ib * zb + Iw * zw) / (It + Ib + Iw)
    c.eq("shear centre", s.zs, zs)


@harness(timeout=15)
def wagner(c):
    s, bt, bb, tt, tb, hw, tw, a = dims(c, resize=True)
    z, Iy, zs = c.real("zel", 1, 5000), c.real("Iy", 1, 1e12), c.real("zs", -1000, 1000)
    s.elastic_neutral_axis = lambda: z
    s.second_moment = lambda: [Iy, Iy]
    s.shear_centre = lambda: zs
    h = tt + hw + tb

    def integral(b, z0, z1):   # of zeta (y^2 + zeta^2) dA over one plate, zeta from the centroid
        z0, z1 = z0 - z, z1 - z
        return b ** 3 / 12 * (z1 ** 2 - z0 ** 2) / 2 + b * (z1 ** 4 - z0 ** 4) / 4
    J = integral(bb, 0, tb) + integral(tw, tb, tb + hw) + integral(bt, tb + hw, h)
    c.eq("zj = zs - 1/(2 Iy) integral of z (y^2 + z^2) dA", s.zj, zs - J / (2 * Iy))


@harness(timeout=15)
def doubly_symmetric(c):
    b, t, hw, tw, a = c.real("b", 20, 2000), c.real("tf", 1, 200), c.real("hw", 10, 5000), c.real("tw", 1, 100), c.real("a", 1, 10)
    c.assume(tw <= b)
    s = c.mod(WI).WISection(hw + 2 * t, tw, [b, b], [t, t], weld_throat=a)
    h = hw + 2 * t
    c.eq("elastic neutral axis at mid-depth", s.elastic_neutral_axis(), h / 2)
    c.eq("plastic neutral axis at mid-depth", s.plastic_neutral_axis(), h / 2)
    c.eq("shear centre at the centroid", s.zs, 0)
    c.eq("no monosymmetry", s.zj, 0)
    c.eq("Iy", s.I[0], (b * h ** 3 - (b - tw) * hw ** 3) / 12)
    c.eq("Wel,y", s.Wel[0], (b * h ** 3 - (b - tw) * hw ** 3) / 6 / h)
    c.eq("Wpl,y", s.Wpl[0], b * t * (hw + t) + tw * hw ** 2 / 4)
    c.le("Wel,y <= Wpl,y", s.Wel[0], s.Wpl[0])
    c.le("Wel,z <= Wpl,z", s.Wel[1], s.Wpl[1])


@harness(timeout=15)
def built_from_scalars(c):
    """scalar flange dimensions mean equal flanges"""
    w = c.mod(WI)
    s = w.WISection(500, 8, 250, 12, weld_throat=4)
    t = w.WISection(500, 8, [250, 250], [12, 12], weld_throat=4)
    for n in ("h", "bt", "bb", "tt", "tb", "tw", "A", "Au", "It", "Iw"):
        c.eq(n, getattr(s, n), getattr(t, n))
    for n in ("I", "Wel", "Wpl"):
        c.eq(n, list(getattr(s, n)), list(getattr(t, n)))
