"""C12: bolts, welds and the components of bolted joints by EN 1993-1-8 (Table 3.4, 3.10.2, 4.5, 6.2.4 - 6.2.6, Tables 6.2 - 6.6, 6.3)."""
from types import SimpleNamespace as NS

M8 = "metku.eurocodes.en1993.en1993_1_8.en1993_1_8"
CM = "metku.eurocodes.en1993.en1993_1_8.component_method"
EP = "metku.structures.steel.end_plate_joint"
SD = "metku.materials.steel_data"
SIZES = {12: (84.3, 13), 16: (157, 18), 20: (245, 22), 24: (353, 26), 30: (561, 33), 36: (817, 39)}       # As, hole
GRADES = {4.6: (240, 400, 0.6), 4.8: (320, 400, 0.5), 5.6: (300, 500, 0.6), 5.8: (400, 500, 0.5), 6.8: (480, 600, 0.5), 8.8: (640, 800, 0.6), 10.9: (900, 1000, 0.5)}
BETA_W = {"S235": 0.8, "S275": 0.85, "S355": 0.9, "S420": 1.0, "S460": 1.0, "S460M": 1.0, "S460Q": 1.0}


def m8(c):
    c.mod("metku.sections.steel.RHS")
    return c.mod(M8)


def bolt(c, m):
    b = m.Bolt(c.choice("size", list(SIZES)), c.choice("grade", list(GRADES)))
    return b, SIZES[b.d], GRADES[b.bolt_class]


# ------------------------------------------------------------------ 3.6 bolts
@harness()
def bolt_data(c):
    b, (As, d0), (fyb, fub, av) = bolt(c, m8(c))
    c.eq("stress area", b.As, As)
    c.eq("hole", b.d0, d0)
    c.eq("gross area", b.A, c.pi * b.d ** 2 / 4)
    c.eq("fyb", b.fyb, fyb)
    c.eq("fub", b.fub, fub)


@harness()
def bolt_resized(c):
    """after a change of size every value is that of the new size"""
    m = m8(c)
    b, new = m.Bolt(c.choice("size", list(SIZES)), 8.8), c.choice("new size", list(SIZES))
    b.size = new
    ref = m.Bolt(new, 8.8)
    for a in ("d", "d0", "A", "As", "head_t", "head_d", "nut_t", "nut_e", "washer_t", "washer_d", "fub", "fyb"):
        c.eq(a, getattr(b, a), getattr(ref, a))


@harness()
def bolt_shear_and_tension(c):
    m = m8(c)
    b, (As, d0), (fyb, fub, av) = bolt(c, m)
    c.eq("shear, threads in the shear plane", b.shear_resistance(True), av * fub * As / 1.25)
    c.eq("shear, shank in the shear plane", b.shear_resistance(False), 0.6 * fub * c.pi * b.d ** 2 / 4 / 1.25)
    c.eq("threads are the default", b.shear_resistance(), b.shear_resistance(True))
    c.eq("tension", b.tension_resistance(), 0.9 * fub * As / 1.25)
    k2 = c.real("k2", 0.1, 1)
    c.eq("tension with k2", b.tension_resistance(k2), k2 * fub * As / 1.25)


@harness()
def shear_and_tension_functions(c):
    m = m8(c)
    fub, A, k2 = c.real("fub", 300, 1200), c.real("A", 10, 1200), c.real("k2", 0.1, 1)
    g = c.choice("grade", list(GRADES))
    c.eq("shear, threads in the shear plane", m.bolt_shear_resistance(fub, A, g, True), GRADES[g][2] * fub * A / 1.25)
    c.eq("shear, shank in the shear plane", m.bolt_shear_resistance(fub, A, g, False), 0.6 * fub * A / 1.25)
    c.eq("tension", m.bolt_tension_resistance(fub, A, k2), k2 * fub * A / 1.25)
    c.eq("tension, default k2", m.bolt_tension_resistance(fub, A), 0.9 * fub * A / 1.25)
    dm, tp, fu = c.real("dm", 10, 80), c.real("tp", 1, 60), c.real("fu", 300, 1000)
    c.eq("punching shear", m.bolt_punching_shear_resistance(dm, tp, fu), 0.6 * c.pi * dm * tp * fu / 1.25)
    F = [c.real(n, 0, 1e6) for n in ("FvEd", "FtEd")] + [c.real(n, 1, 1e6) for n in ("FvRd", "FtRd")]
    c.eq("shear and tension", m.shear_and_tension_resistance(F[0], F[2], F[1], F[3]), F[0] / F[2] + F[1] / (1.4 * F[3]))


def bearing(c, fub, fu, d, d0, t, e, p, perp, load):
    ad = e[0] / (3 * d0) if load == "edge" else p[0] / (3 * d0) - 0.25
    k1 = [1.4 * p[1] / d0 - 1.7, 2.5] + ([2.8 * e[1] / d0 - 1.7] if perp == "edge" else [])
    return c.min(*k1) * c.min(ad, fub / fu, 1) * fu * d * t / 1.25


def bearing_inputs(c):
    fu, t = c.real("fu", 300, 1000), c.real("t", 1, 60)
    e = [c.real("e1", 10, 300), c.real("e2", 10, 300)]
    p = [c.real("p1", 20, 500), c.real("p2", 20, 500)]
    return fu, t, e, p, c.choice("perpendicular", ["edge", "inner"]), c.choice("in load direction", ["edge", "inner"])


@harness()
def bolt_bearing(c):
    m = m8(c)
    b = m.Bolt(c.choice("size", [12, 20, 30]), 8.8)
    b.fub = c.real("fub", 300, 1200)
    fu, t, e, p, perp, load = bearing_inputs(c)
    c.eq("bearing resistance", b.bearing_resistance(fu, t, e, p, perp, load), bearing(c, b.fub, fu, b.d, SIZES[b.d][1], t, e, p, perp, load))


@harness()
def bearing_function(c):
    m = m8(c)
    fub, d, dd = c.real("fub", 300, 1200), c.real("d", 8, 40), c.real("clearance", 0, 4)
    fu, t, e, p, perp, load = bearing_inputs(c)
    c.eq("bearing resistance", m.bolt_bearing_resistance(fub, fu, d, t, e, p, d + dd, perp, load), bearing(c, fub, fu, d, d + dd, t, e, p, perp, load))


@harness()
def tearing_and_welds(c):
    m = m8(c)
    fy, fu, Ant, Anv = c.real("fy", 200, 700), c.real("fu", 300, 1000), c.real("Ant", 0, 1e5), c.real("Anv", 0, 1e5)
    c.eq("block tearing, concentric", m.block_tearing(fy, fu, Ant, Anv), fu * Ant / 1.25 + fy * Anv / c.sqrt(3))
    c.eq("block tearing, eccentric", m.block_tearing(fy, fu, Ant, Anv, False), 0.5 * fu * Ant / 1.25 + fy * Anv / c.sqrt(3))
    g = c.choice("grade", list(BETA_W))
    s = NS(name=g, fy=fy, fu=fu)
    a = m.full_strength_weld_throat(s)
    c.eq("full strength double fillet weld", a, BETA_W[g] / c.sqrt(2) * 1.25 * fy / fu)
    c.eq("full strength single fillet weld", m.full_strength_weld_tube(s), 2 * a)
    # directional method of 4.5.3.2: a plate at its yield strength just fits the strength of the two welds with this throat
    sigma = fy / 2 / a / c.sqrt(2)
    c.eq("von Mises stress in the weld", c.sqrt(sigma ** 2 + 3 * sigma ** 2), fu / (BETA_W[g] * 1.25))
    r = c.real("MjEd/MjRd", 0, 1)
    mu = m.stiffness_ratio(r)
    c.eq("stiffness ratio", mu, 1 if r <= 2.0 / 3 else (1.5 * r) ** 2.7)


# ------------------------------------------------------------------ components of 6.2.6 and 6.3.2
def cm(c):
    m8(c)
    return c.mod(CM)


def omega(c, beta, b, t, A):
    """Table 6.3"""
    w1, w2 = 1 / c.sqrt(1 + 1.3 * (b * t / A) ** 2), 1 / c.sqrt(1 + 5.2 * (b * t / A) ** 2)
    if beta <= 0.5:
        return 1
    if beta < 1:
        return w1 + 2 * (1 - beta) * (1 - w1)
    return w1 + (beta - 1) * (w2 - w1)


@harness()
def shear_interaction(c):
    m = cm(c)
    beta, b, t, A = c.real("beta", 0, 2), c.real("beff", 10, 1e3), c.real("tw", 3, 60), c.real("Avc", 100, 1e5)
    w = m.min_coeff_w(beta, b, t, A)
    c.eq("omega by Table 6.3", w, omega(c, beta, b, t, A))
    c.le("omega <= 1", w, 1)
    c.ensures("omega > 0", w > 0)


@harness(timeout=15)
def shear_interaction_decreases(c):
    m = cm(c)
    b1, b2, b, t, A = c.real("beta1", 0, 2), c.real("beta2", 0, 2), c.real("beff", 10, 1e3), c.real("tw", 3, 60), c.real("Avc", 100, 1e5)
    c.assume(b1 <= b2)
    c.le("omega never grows with beta", m.min_coeff_w(b2, b, t, A), m.min_coeff_w(b1, b, t, A))


def column(c):
    return NS(fy=c.real("fy", 235, 700), E=210000, Ashear=[0, c.real("Avc", 500, 5e4)], r=c.real("r", 0, 30), tf=c.real("tfc", 4, 60), tw=c.real("twc", 3, 40),
              hw=c.real("dwc", 60, 1000))


def with_omega(c, m):
    """the reduction factor, under contract above, as an arbitrary function"""
    c.stub(m, "min_coeff_w", lambda *a: c.uf("omega", *a, lo=0.01, hi=1))
    return m


@harness()
def column_web(c):
    m = with_omega(c, cm(c))
    s, beta, beff, z = column(c), c.real("beta", 0.01, 2), c.real("beff", 10, 1e3), c.real("z", 50, 2000)
    c.eq("web panel in shear (6.7)", m.col_web_shear(s), 0.9 * s.fy * s.Ashear[1] / c.sqrt(3))
    c.eq("k1", m.col_web_shear_k(s, beta, z), 0.38 * s.Ashear[1] / (beta * z))
    c.eq("web in tension (6.15)", m.column_web_tension(s, beff, beta), m.min_coeff_w(beta, beff, s.tw, s.Ashear[1]) * beff * s.tw * s.fy)
    c.eq("k3", m.column_web_tension_k(s, beff), 0.7 * beff * s.tw / s.hw)
    c.eq("k2", m.col_web_trv_comp_k(s, beff), 0.7 * beff * s.tw / s.hw)
    mm, As, Lb = c.real("m", 10, 200), c.real("As", 80, 900), c.real("Lb", 20, 200)
    c.eq("k4", m.column_flange_bending_k(s, beff, mm), 0.9 * beff * s.tf ** 3 / mm ** 3)
    c.eq("k5", m.end_plate_bending_k(s.tf, beff, mm), 0.9 * beff * s.tf ** 3 / mm ** 3)
    c.eq("k10", m.bolt_row_tension_k(As, Lb), 1.6 * As / Lb)


@harness()
def beam_components(c):
    m = cm(c)
    b = NS(MRd=c.real("McRd", 1e6, 1e10), h=c.real("h", 80, 1000), tf=c.real("tf", 4, 38), tw=c.real("tw", 3, 40), fy=c.real("fy", 235, 700))
    beff, leff, fjd = c.real("beff", 10, 1e3), c.real("leff", 10, 1e3), c.real("fjd", 5, 60)
    c.eq("beam flange and web in compression (6.21)", m.beam_web_compression(b), b.MRd / (b.h - b.tf))
    c.eq("beam web in tension (6.22)", m.beam_web_tension(b, beff), beff * b.tw * b.fy)
    c.eq("compressed T-stub (6.4)", m.Tstub_compression_flange(fjd, beff, leff), fjd * beff * leff)


@harness(timeout=15)
def web_in_compression(c):
    m = with_omega(c, cm(c))
    s, b = column(c), NS(tf=c.real("tfb", 4, 40))
    tp, eb, a, beta, sig = c.real("tp", 5, 60), c.real("ebottom", 0, 200), c.real("a_p", 3, 15), c.real("beta", 0.01, 2), c.real("sigma_com", 0, 700)
    c.assume(sig <= s.fy)
    F, beff = m.col_web_trv_comp(s, b, tp, eb, a, beta, sig)
    sp = c.min(2 * tp, tp + eb - c.sqrt(2) * a)
    width = b.tf + 2 * c.sqrt(2) * a + 5 * (s.tf + s.r) + sp
    c.eq("effective width (6.11)", beff, width)
    lp = 0.932 * c.sqrt(width * s.hw * s.fy / (s.E * s.tw ** 2))
    rho = 1 if lp <= 0.72 else c.min(1, (lp - 0.2) / lp ** 2)
    kwc = 1 if sig <= 0.7 * s.fy else 1.7 - sig / s.fy
    w = m.min_coeff_w(beta, width, s.tw, s.Ashear[1])
    c.eq("web in compression (6.9)", F, w * kwc * rho * width * s.tw * s.fy)


@harness()
def stiffened_web_in_compression(c):
    m = cm(c)
    c.stub(m, "buckling_reduction_factor", lambda l, a: c.uf("chi", l, a, lo=0.001, hi=1))
    ts, tw, bs, h, fy = c.real("ts", 3, 50), c.real("tw", 3, 40), c.real("bsg", 20, 300), c.real("h", 60, 1000), c.real("fy", 235, 700)
    eps = c.sqrt(235 / c.real("fyc", 235, 700))
    F = m.col_web_trv_comp_stiffened(NS(eps=eps, tw=tw), NS(b=bs, t=ts, h=h, material=NS(fy=fy)))
    A = (30 * eps * tw + ts) * tw + 2 * bs * ts
    i = c.sqrt((2 * bs + tw) ** 3 * ts / 12 / A)
    ls = h / i / (93.9 * eps)
    c.eq("cruciform strut of the web and the stiffeners", F, A * fy if ls <= 0.2 else m.buckling_reduction_factor(ls, 0.49) * A * fy)


@harness()
def alpha_closed_form(c):
    m = cm(c)
    e, mm, m2 = c.real("e", 10, 300), c.real("m", 10, 200), c.real("m2", 5, 300)
    a = m.new_alpha(e, mm, m2)
    c.eq("alpha of prEN 1993-1-8", a, c.min(c.max(4 + 1.67 * e / mm * (mm / m2) ** 0.67, 4 + 1.25 * e / mm), 8))


@harness()
def alpha_chart(c):
    """the chart of Figure 6.11 with the root finder assumed to return a root in its bracket"""
    m = cm(c)
    l1, l2 = c.real("lambda1", 0.3, 0.9), c.real("lambda2", 0.02, 0.9)
    if c.symbolic:
        al = c.real("root", 4.45, 8)

        def root_scalar(f, x0=None, bracket=None, **k):
            c.ensures("bracket of the chart", bracket[0] >= 4.45 and bracket[1] <= 8)
            c.assume(l2 < 0.5 * al * 1.25 / (al - 2.75))
            c.assume(f(al) == 0)
            return NS(root=al, converged=True)
        c.stub(m, "root_scalar", root_scalar)
        a = m.find_alpha(l1, l2)
    else:
        try:
            a = m.find_alpha(l1, l2)
        except ValueError:
            c.assume(False)
        c.assume(l2 < 0.5 * a * 1.25 / (a - 2.75))
    lim1 = 1.25 / (a - 2.75)
    lim2 = a * lim1 / 2
    c.eq("curve of Figure 6.11 through the point", lim1 + (1 - lim1) * ((lim2 - l2) / lim2) ** (0.185 * a ** 1.785), l1, tol=1e-6)


# ------------------------------------------------------------------ bolt rows and T-stubs
class Joint(NS):
    zc = property(lambda s: -0.5 * (s.beam.h - s.beam.tf))


def joint(c, stiffener=False):
    bp, b = c.real("bp", 80, 500), c.real("bc", 80, 400)
    col = NS(tf=c.real("tfc", 4, 60), tw=c.real("twc", 3, 40), b=b, r=c.real("rc", 0, 30), material=NS(fy=c.real("fyc", 235, 700)))
    beam = NS(h=c.real("hb", 80, 1000), tf=c.real("tfb", 4, 30), tw=c.real("twb", 3, 30))
    j = Joint(beam=beam, col=col, etop=c.real("etop", 0, 150), end_plate=NS(material=NS(fy=c.real("fyp", 235, 700))), bp=bp, tp=c.real("tp", 4, 60),
              ebolts=c.real("ebolts", 15, 150), weld_f=c.real("af", 2, 15), weld_w=c.real("aw", 2, 15), beta=c.real("beta", 0.01, 2),
              stiffeners={"col_top_flange": None})
    j.p = bp - 2 * j.ebolts
    c.assume(j.p > 40)
    if stiffener:
        j.stiffeners["col_top_flange"] = NS(t=c.real("ts", 4, 40), weld_size=c.real("as", 2, 15))
    return j


def row(c, m, j, z, flange, plate):
    return m.BoltRow(m.Bolt(20, 8.8), j.p, z, flange, plate, joint=j)


@harness()
def row_geometry(c):
    """Figures 6.8, 6.10 and 6.11 for a row of two bolts"""
    m = m8(c)
    j = joint(c, True)
    z = c.real("z", -400, 600)
    place = c.choice("place", [m.ROW_OUTSIDE_BEAM_TENSION_FLANGE, m.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE, m.OTHER_INNER_ROW, m.OTHER_END_ROW])
    r = row(c, m, j, z, m.INNER_ROW, place)
    a, top, s = 0.8 * c.sqrt(2), 0.5 * j.beam.h, j.stiffeners["col_top_flange"]
    c.eq("w", r.w, j.p)
    c.eq("m of the column flange", r.col_flange_m, (j.p - j.col.tw) / 2 - 0.8 * j.col.r)
    c.eq("e of the column flange", r.col_flange_e, (j.col.b - j.p) / 2)
    c.eq("emin of the column flange", r.emin_flange, c.min((j.col.b - j.p) / 2, j.ebolts))
    c.eq("e of the end plate", r.end_plate_e, j.ebolts)
    out = place == m.ROW_OUTSIDE_BEAM_TENSION_FLANGE
    c.eq("emin of the end plate", r.emin_plate, top + j.etop - z if out else c.min((j.col.b - j.p) / 2, j.ebolts))
    c.eq("m of the end plate", r.end_plate_m, z - top - a * j.weld_f if out else (j.p - j.beam.tw) / 2 - a * j.weld_w)
    c.eq("ex", r.ex, top + j.etop - z)
    c.eq("m2 of the end plate", r.end_plate_m2, top - j.beam.tf - a * j.weld_f - z)
    mid = top - j.beam.tf / 2
    c.eq("m2 at the column stiffener", r.top_flange_stiffener_m2,
         z - mid - s.t / 2 - a * s.weld_size if z > top else mid - s.t / 2 - a * s.weld_size - z)
    c.eq("lever arm from the compression flange", r.h, z + (j.beam.h - j.beam.tf) / 2)
    c.eq("bolt elongation length", r.Lb, j.tp + j.col.tf + 2 * 3 + (12.5 + 18) / 2)
    c.eq("k10", r.k10(), 1.6 * 245 / r.Lb)


def flange_alpha(c, m, e, mm, m2):
    try:
        return m.cm.find_alpha(mm / (mm + e), m2 / (mm + e))
    except Exception:
        return m.cm.new_alpha(e, mm, m2)


def with_alpha(c, m):
    """alpha, under contract above, as an arbitrary function"""
    c.stub(m.cm, "find_alpha", lambda *a: c.uf("alpha of the chart", *a, lo=4.45, hi=8))
    c.stub(m.cm, "new_alpha", lambda *a: c.uf("alpha", *a, lo=4, hi=8))
    return m


FLANGE = ["INNER_ROW", "END_ROW", "OTHER_INNER_ROW", "OTHER_END_ROW", "ADJACENT_TO_STIFFENER_ROW", "END_ROW_ADJACENT_TO_STIFFENER"]
PLATE = ["ROW_OUTSIDE_BEAM_TENSION_FLANGE", "FIRST_ROW_BELOW_BEAM_TENSION_FLANGE", "OTHER_INNER_ROW", "OTHER_END_ROW"]


def tee(c, m, cls, place):
    """a T-stub with arbitrary dimensions"""
    d = NS(m=c.real("m", 10, 200), e=c.real("e", 10, 300), emin=c.real("emin", 10, 300), m2=c.real("m2", 5, 300), w=c.real("w", 40, 400), bp=c.real("bp", 80, 500),
           tf=c.real("tf", 4, 60))
    r = NS(loc_col_flange=place, loc_end_plate=place, group_loc_flange=place, group_loc_plate=place, bolts=2, bolt=m.Bolt(20, 8.8),
           emin_flange=d.emin, col_flange_m=d.m, col_flange_e=d.e, top_flange_stiffener_m2=d.m2, ex=d.emin, end_plate_e=d.e, end_plate_m=d.m, end_plate_m2=d.m2, w=d.w,
           joint=NS(col=NS(tf=d.tf), tp=d.tf, bp=d.bp))
    mat = NS(fy=c.real("fy", 235, 700))
    if cls == "flange":
        t = m.TStubColumnFlange(r, mat, 10, 20, 20, 10, e1=c.real("e1", 10, 400), p=c.real("p", 40, 400))
    else:
        t = m.TStubEndPlate(r, mat, 10, 20, 10, 20, 20, 100, p=c.real("p", 40, 400))
    return t, d


def flange_lengths(place):
    @harness(name="column_flange_" + place)
    def _(c):
        m = with_alpha(c, m8(c))
        t, d = tee(c, m, "flange", getattr(m, place))
        al = flange_alpha(c, m, d.e, d.m, d.m2)
        base, circle = 4 * d.m + 1.25 * d.e, 2 * c.pi * d.m
        end = "END_ROW" in place
        cp = c.min(circle, c.pi * d.m + 2 * t.e1) if end else circle
        if place == "ADJACENT_TO_STIFFENER_ROW":
            nc = al * d.m
        elif place == "END_ROW_ADJACENT_TO_STIFFENER":
            nc = t.e1 + al * d.m - (2 * d.m + 0.625 * d.e)
        elif end:
            nc = c.min(base, 2 * d.m + 0.625 * d.e + t.e1)
        else:
            nc = base
        c.eq("circular pattern", t.leff_cp, cp)
        c.eq("non-circular pattern", t.leff_nc, nc)
        c.eq("leff,1", t.leff_1, c.min(nc, cp))
        c.eq("leff,2", t.leff_2, nc)
        if place == "END_ROW_ADJACENT_TO_STIFFENER":
            return                                             # no group reaches across the stiffener
        if place == "ADJACENT_TO_STIFFENER_ROW":
            gcp, gnc = c.pi * d.m + t.p, 0.5 * t.p + al * d.m - (2 * d.m + 0.625 * d.e)
        elif end:
            gcp, gnc = c.min(c.pi * d.m + t.p, 2 * t.e1 + t.p), c.min(2 * d.m + 0.625 * d.e + 0.5 * t.p, t.e1 + 0.5 * t.p)
        else:
            gcp, gnc = 2 * t.p, t.p
        c.eq("circular pattern in a group", t.leff_cp_as_group(), gcp)
        c.eq("non-circular pattern in a group", t.leff_nc_as_group(), gnc)


def plate_lengths(place):
    @harness(name="end_plate_" + place)
    def _(c):
        m = with_alpha(c, m8(c))
        t, d = tee(c, m, "plate", getattr(m, place))
        al = m.cm.new_alpha(d.e, d.m, d.m2)
        cp, nc = 2 * c.pi * d.m, 4 * d.m + 1.25 * d.e
        gcp, gnc = 2 * t.p, t.p
        if place.startswith("ROW_OUTSIDE"):
            ex, mx = d.emin, d.m
            cp = c.min(2 * c.pi * mx, c.pi * mx + d.w, c.pi * mx + 2 * d.e)
            nc = c.min(4 * mx + 1.25 * ex, d.e + 2 * mx + 0.625 * ex, 0.5 * d.bp, 0.5 * d.w + 2 * mx + 0.625 * ex)
        elif place.startswith("FIRST_ROW"):
            nc, gcp, gnc = al * d.m, c.pi * d.m + t.p, 0.5 * t.p + al * d.m - (2 * d.m + 0.625 * d.e)
        elif place == "OTHER_END_ROW":
            gcp, gnc = c.pi * d.m + t.p, 2 * d.m + 0.625 * d.e + 0.5 * t.p
        c.eq("circular pattern", t.leff_cp, cp)
        c.eq("non-circular pattern", t.leff_nc, nc)
        c.eq("leff,1", t.leff_1, c.min(nc, cp))
        c.eq("leff,2", t.leff_2, nc)
        if not place.startswith("ROW_OUTSIDE"):
            c.eq("circular pattern in a group", t.leff_cp_as_group(), gcp)
            c.eq("non-circular pattern in a group", t.leff_nc_as_group(), gnc)


for _p in FLANGE:
    flange_lengths(_p)
for _p in PLATE:
    plate_lengths(_p)


def modes(c, l1, l2, tf, fy, mm, n, Ft):
    M1, M2 = 0.25 * l1 * tf ** 2 * fy, 0.25 * l2 * tf ** 2 * fy
    return 4 * M1 / mm, (2 * M2 + n * Ft) / (mm + n), Ft


def tstub_modes(cls):
    @harness(name="tstub_modes_" + cls)
    def _(c):
        """Table 6.2"""
        m = m8(c)
        t, d = tee(c, m, cls, m.OTHER_INNER_ROW)
        l1, l2 = c.min(2 * c.pi * d.m, 4 * d.m + 1.25 * d.e), 4 * d.m + 1.25 * d.e
        emin = d.emin if cls == "flange" else d.e
        Ft = 2 * 0.9 * 800 * 245 / 1.25
        F = modes(c, l1, l2, d.tf, t.mat.fy, d.m, c.min(emin, 1.25 * d.m), Ft)
        c.eq("mode 1", t.F_T_1_Rd(), F[0])
        c.eq("mode 2", t.F_T_2_Rd(), F[1])
        c.eq("mode 3", t.F_T_3_Rd(), Ft)
        c.eq("without prying forces", t.F_T_12_Rd(), F[0] / 2)
        R = t.FT_Rd()
        c.eq("resistance", R, c.min(*F))
        l = t.leff()
        c.eq("effective length of the governing mode", l, l1 if F[0] <= F[1] and F[0] <= F[2] else l2)


for _p in ("flange", "plate"):
    tstub_modes(_p)


def tables(c, m):
    """effective lengths, under contract above, as arbitrary functions of the row, its place and the pitch"""
    for cls in (m.TStubColumnFlange, m.TStubEndPlate):
        for f in ("leff_cp_as_group", "leff_nc_as_group"):
            tag = cls.__name__ + f
            c.stub(cls, f, lambda self, position=None, tag=tag: c.uf(tag + position + "%d" % self.bolts.k, self.p, lo=10, hi=1000))


def group(c, m, flange, plate):
    """rows 1 ... n with arbitrary spacing"""
    n = len(flange)
    rows = []
    z = c.real("z1", -100, 600)
    mat = NS(fy=c.real("fy", 235, 700))
    d = NS(m=c.real("m", 10, 200), n=c.real("emin", 10, 300), tf=c.real("tf", 4, 60))
    for i in range(n):
        r = NS(k=i, z=z, bolts=2, bolt=m.Bolt(20, 8.8), groups=[], emin_flange=d.n, col_flange_m=d.m, col_flange_e=30, end_plate_e=d.n, end_plate_m=d.m, end_plate_m2=25,
               top_flange_stiffener_m2=30, loc_end_plate=plate[i], loc_col_flange=flange[i], joint=NS(col=NS(tf=d.tf), tp=d.tf, beta=1.0, bp=200))
        r.Tstub_col_flange = m.TStubColumnFlange(r, mat, 10, 20, 20, 10, e1=60)
        r.Tstub_end_plate = m.TStubEndPlate(r, mat, 10, 20, 10, 20, 20, 100)
        rows.append(r)
        z = z - c.real("p%d" % (i + 1), 40, 300)
    return rows, mat, d


class Row(NS):
    __hash__ = object.__hash__


def pitch(i, rows, inner):
    if inner:
        return (rows[i - 1].z - rows[i + 1].z) / 2
    return rows[0].z - rows[1].z if i == 0 else rows[i - 1].z - rows[i].z


def row_group(kind, n, first):
    """sums over the rows of a group of Tables 6.4 - 6.6, each with its own pitch, in whatever order they are asked for"""
    @harness(name="group_%s_%d_%s" % (kind, n, first))
    def _(c):
        global NS
        m = m8(c)
        if kind == "plate":
            places = [getattr(m, first)] + [m.OTHER_INNER_ROW] * (n - 2) + [m.OTHER_END_ROW]
            fl = [m.INNER_ROW] * n
            loc = places
        else:
            end, inner = (m.OTHER_END_ROW, m.OTHER_INNER_ROW) if first != "END_ROW" else (m.END_ROW, m.INNER_ROW)
            places = [getattr(m, first)] + [inner] * (n - 2) + [end]
            fl, loc = places, [m.FIRST_ROW_BELOW_BEAM_TENSION_FLANGE] + [m.OTHER_INNER_ROW] * (n - 2) + [m.OTHER_END_ROW]
        if c.symbolic:
            tables(c, m)
        save, NS = NS, Row
        try:
            rows, mat, d = group(c, m, fl, loc)
        finally:
            NS = save
        g = m.BoltRowGroup(rows, [{"flange": a, "plate": b} for a, b in zip(fl, loc)])
        t = g.Tstub_col_flange if kind == "flange" else g.Tstub_end_plate
        order = c.choice("asked first", ["cp", "nc", "row"])
        if order == "row":
            got_row = [(t.leff_cp_row(r), t.leff_nc_row(r)) for r in rows]
        cp, nc = (t.leff_cp, t.leff_nc) if order != "nc" else (t.leff_nc, t.leff_cp)[::-1]
        want = []
        for i, r in enumerate(rows):
            s = r.Tstub_col_flange if kind == "flange" else r.Tstub_end_plate
            s.p = pitch(i, rows, 0 < i < n - 1)
            want.append((s.leff_cp_as_group(places[i]), s.leff_nc_as_group(places[i])))
            if order == "row":
                c.eq("row %d, circular" % i, got_row[i][0], want[i][0])
                c.eq("row %d, non-circular" % i, got_row[i][1], want[i][1])
        wcp, wnc = sum(w[0] for w in want), sum(w[1] for w in want)
        c.eq("circular patterns", cp, wcp)
        c.eq("non-circular patterns", nc, wnc)
        Ft = n * 2 * 0.9 * 800 * 245 / 1.25
        F = modes(c, c.min(wcp, wnc), wnc, d.tf, mat.fy, d.m, c.min(d.n, 1.25 * d.m), Ft)
        c.eq("mode 1", t.F_T_1_Rd(), F[0])
        c.eq("mode 2", t.F_T_2_Rd(), F[1])
        c.eq("mode 3", t.F_T_3_Rd(), Ft)
        c.eq("resistance of the group", t.FT_Rd(), c.min(*F))


for _n in (2, 3, 4):
    for _p in ("END_ROW", "OTHER_END_ROW", "ADJACENT_TO_STIFFENER_ROW"):
        row_group("flange", _n, _p)
    for _p in ("FIRST_ROW_BELOW_BEAM_TENSION_FLANGE", "OTHER_END_ROW"):
        row_group("plate", _n, _p)


@harness()
def row_resistance(c):
    """a single row: the least of flange, plate, column web and beam web, the webs with the effective lengths of the governing mode"""
    m = m8(c)
    out = c.choice("outside the tension flange", [False, True])
    j = joint(c)
    r = row(c, m, j, 100.0, m.INNER_ROW, m.ROW_OUTSIDE_BEAM_TENSION_FLANGE if out else m.OTHER_INNER_ROW)
    F1, F2, l1, l2 = c.real("F flange", 0, 1e7), c.real("F plate", 0, 1e7), c.real("leff flange", 10, 1000), c.real("leff plate", 10, 1000)
    r.column_flange_in_bending = lambda verb=False: F1
    r.end_plate_in_bending = lambda verb=False: F2
    r.Tstub_col_flange.leff = lambda: l1
    r.Tstub_end_plate.leff = lambda: l2
    j.col.Ashear, j.col.fy, j.beam.fy = [0, c.real("Avc", 500, 5e4)], c.real("fywc", 235, 700), c.real("fyb", 235, 700)
    with_omega(c, m.cm)
    want = [F1, F2, m.cm.min_coeff_w(j.beta, l1, j.col.tw, j.col.Ashear[1]) * l1 * j.col.tw * j.col.fy]
    if not out:
        want.append(l2 * j.beam.tw * j.beam.fy)
    c.eq("tension resistance of the row", r.tension_resistance(), c.min(*want))
    c.eq("kept in the row", r.FtRd, c.min(*want))


@harness()
def row_stiffness(c):
    """(6.30)"""
    m = m8(c)
    r = row(c, m, joint(c), 100.0, m.INNER_ROW, m.OTHER_INNER_ROW)
    k = [c.real("k%d" % i, 0.01, 100) for i in (3, 4, 5)]
    r.k3, r.k4, r.k5 = (lambda v=False: k[0]), (lambda v=False: k[1]), (lambda v=False: k[2])
    c.eq("effective stiffness of the row", r.keff(), 1 / (1 / k[0] + 1 / k[1] + 1 / k[2] + 1 / r.k10()))


# ------------------------------------------------------------------ assembly of the end plate joint
def plate_joint(c, m, nrows, groups, shear_last):
    ns = m.EndPlateJoint.__new__(m.EndPlateJoint)
    ns.beam, ns.col = NS(h=c.real("hb", 80, 1000), tf=c.real("tfb", 4, 30), Med=[0, 0]), NS(material=NS(E=210e3))
    ns._beta = c.real("beta", 0.01, 2)
    ns.bolt_rows = []
    z = ns.beam.h / 2 + c.real("z1", -100, 100)
    for i in range(nrows):
        F = c.real("F%d" % (i + 1), 0, 1e6)
        k = c.real("k%d" % (i + 1), 0.01, 50)
        r = NS(type=m.SHEAR_ROW if shear_last and i == nrows - 1 else m.TENSION_ROW, FtRd=-1.0, h=z + (ns.beam.h - ns.beam.tf) / 2, z=z, F=F, k=k, keff=lambda k=k: k)
        c.assume(r.h > 10)

        def res(verb=False, r=r):
            r.FtRd = r.F
            return r.F
        r.tension_resistance = res
        ns.bolt_rows.append(r)
        z = z - c.real("p%d" % (i + 1), 40, 300)
    ns.row_groups = []
    for i, g in enumerate(groups):
        F = c.real("G%d" % (i + 1), 0, 2e6)
        ns.row_groups.append(NS(rows=[ns.bolt_rows[k] for k in g], F=F, tension_resistance=lambda verb=False, F=F: F))
    V, Fc, Fb = c.real("Vwp", 1e3, 3e6), c.real("Fc,wc", 1e3, 3e6), c.real("Fc,fb", 1e3, 3e6)
    ns.V_wp_Rd, ns.Fc_wc_Rd, ns.Fc_fb_Rd = (lambda: V), (lambda verb=False: Fc), (lambda: Fb)
    return ns, (V, Fc, Fb)


def moment(nrows, groups, shear_last=False):
    @harness(name="moment_resistance_%d_%s%s" % (nrows, "_".join("".join(map(str, g)) for g in groups), "_shear" if shear_last else ""))
    def _(c):
        """6.2.7.2: rows from the top, limited by their groups and by the compression side"""
        m = (m8(c), c.mod(EP))[1]
        j, (V, Fc, Fb) = plate_joint(c, m, nrows, groups, shear_last)
        M = j.bending_resistance()
        F = [r.F for r in j.bolt_rows[:nrows - shear_last]]
        for g, G in zip(groups, j.row_groups):
            left = G.F
            for i in g:
                F[i] = c.min(F[i], left)
                left = left - F[i]
        left = c.min(V / j.beta, Fc, Fb)
        for i in range(len(F)):
            F[i] = c.min(F[i], left)
            left = left - F[i]
        c.eq("moment resistance", M, sum(f * r.h for f, r in zip(F, j.bolt_rows)), scale=1e6)
        tot = sum(r.FtRd for r in j.bolt_rows[:len(F)])
        c.le("tension does not exceed the compression resistance", tot, c.min(V / j.beta, Fc, Fb), tol=1e-6)


moment(1, [])
moment(2, [[0, 1]])
moment(2, [], True)
moment(3, [[0, 1]])
moment(3, [[1, 2]], False)
moment(3, [[0, 1]], True)


@harness()
def assembled_stiffness(c):
    """(6.27), (6.29), (6.31)"""
    m = (m8(c), c.mod(EP))[1]
    n, sh = c.choice("rows", [1, 2, 3]), c.choice("a shear row", [False, True])
    j, _ = plate_joint(c, m, n + sh, [], sh)
    rows = j.bolt_rows[:n]
    z = sum(r.k * r.h ** 2 for r in rows) / sum(r.k * r.h for r in rows)
    keq = sum(r.k * r.h for r in rows) / z
    zz, kk = j.zeq_and_keq()
    c.eq("equivalent lever arm", zz, z)
    c.eq("equivalent stiffness", kk, keq)
    c.eq("zeq", j.zeq(), z)
    c.eq("largest lever arm", j.moment_arm(), rows[0].h)


@harness()
def initial_stiffness(c):
    m = (m8(c), c.mod(EP))[1]
    n, sh = c.choice("rows", [1, 2, 3]), c.choice("a shear row", [False, True])
    j, _ = plate_joint(c, m, n + sh, [], sh)
    k1, k2, z, keq = c.real("k shear", 0.1, 100), c.real("k compression", 0.1, 100), c.real("z", 50, 1000), c.real("keq", 0.1, 100)
    if n == 1:
        z = j.bolt_rows[0].h
    j.k1, j.k2, j.zeq_and_keq = (lambda z=None: k1), (lambda: k2), (lambda verb=False: (z, keq))
    c.eq("initial rotational stiffness", j.Sj_ini(), 210e3 * z ** 2 / (1 / k1 + 1 / k2 + 1 / keq))


@harness()
def web_panel(c):
    """6.2.6.1 with and without stiffeners in both zones"""
    m = (m8(c), c.mod(EP))[1]
    j = m.EndPlateJoint.__new__(m.EndPlateJoint)
    j.col = NS(b=c.real("b", 50, 400), tf=c.real("tfc", 4, 60), fy=c.real("fy", 235, 700), Ashear=[0, c.real("Avc", 500, 5e4)])
    j.beam = NS(h=c.real("h", 80, 1000), tf=c.real("tfb", 4, 30))
    which = c.choice("stiffeners", ["none", "top", "bottom", "both"])
    st = [NS(t=c.real("t" + s, 4, 60), fy=c.real("fy" + s, 235, 700)) for s in ("top", "bottom")]
    j.stiffeners = {"col_top_flange": st[0] if which in ("top", "both") else None, "col_bottom_flange": st[1] if which in ("bottom", "both") else None, "col_web_plate": None}
    V = 0.9 * j.col.fy * j.col.Ashear[1] / c.sqrt(3)
    Mf = 0.25 * j.col.b * j.col.tf ** 2 * j.col.fy
    Ms = [0.25 * j.col.b * s.t ** 2 * s.fy for s in st]
    ds = j.beam.h - j.beam.tf
    add = c.min(4 * Mf / ds, (2 * Mf + Ms[0] + Ms[1]) / ds) if which == "both" else 0
    c.eq("shear resistance of the web panel", j.V_wp_Rd(), V + add)
