"""C01: EN 1993-1-1 Table 5.2 classification of cross-section parts."""
M = "metku.eurocodes.en1993.en1993_1_1"


def cls(x, l1, l2, l3):
    if x <= l1:
        return 1
    if x <= l2:
        return 2
    if x <= l3:
        return 3
    return 4


def steel(c, name="fy"):
    fy = c.real(name, 235, 960)
    return fy, c.sqrt(235 / fy)


@harness()
def epsilon(c):
    m = c.mod(M)
    fy = c.real("fy", 100, 1200)
    c.eq("epsilon = sqrt(235/fy)", m.epsilon(fy), c.sqrt(235 / fy))


@harness()
def internal_bending(c):
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    c.same("class by 72/83/124 epsilon", m.internal_part_in_bending(r, e), cls(r, 72 * e, 83 * e, 124 * e))


@harness()
def internal_compression(c):
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    want = cls(r, 33 * e, 38 * e, 42 * e)
    c.same("class by 33/38/42 epsilon", m.internal_part_in_compression(r, e), want)
    c.same("same class when given the yield strength", m.internal_part_in_compression(r, fy), want)


@harness()
def outstand_compression(c):
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    want = cls(r, 9 * e, 10 * e, 14 * e)
    c.same("class by 9/10/14 epsilon", m.outstand_part_in_compression(r, e), want)
    c.same("same class when given the yield strength", m.outstand_part_in_compression(r, fy), want)


@harness()
def circular_tube(c):
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    c.same("class by 50/70/90 epsilon^2", m.CHS_class(r, e), cls(r, 50 * 235 / fy, 70 * 235 / fy, 90 * 235 / fy))


def comp_bend_spec(c, r, e, a, p):
    l3 = 42 * e / (0.67 + 0.33 * p) if p > -1 else 62 * e * (1 - p) * c.sqrt(-p)
    if a == 0:
        return 1
    if a > 0.5:
        return cls(r, 396 * e / (13 * a - 1), 456 * e / (13 * a - 1), l3)
    return cls(r, 36 * e / a, 41.5 * e / a, l3)


@harness()
def internal_comp_bend(c):
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    a = c.real("alpha", 0, 1)
    p = c.real("psi", -5, 1)
    want = comp_bend_spec(c, r, e, a, p)
    c.same("class by Table 5.2, bending and compression", m.internal_part_comp_bend(r, e, a, p), want)
    c.same("same class when given the yield strength", m.internal_part_comp_bend(r, fy, a, p), want)


@harness(samples=100)
def comp_bend_limits(c):
    """the combined case contains the pure cases: alpha=1, psi=1 is pure compression; alpha=1/2, psi=-1 pure bending"""
    m = c.mod(M)
    fy, e = steel(c)
    r = c.real("r", 0, 2000)
    c.same("alpha=1, psi=1 is uniform compression", m.internal_part_comp_bend(r, e, 1, 1), cls(r, 33 * e, 38 * e, 42 * e))
    c.same("alpha=1/2, psi=-1 is bending", m.internal_part_comp_bend(r, e, 0.5, -1), cls(r, 72 * e, 83 * e, 124 * e))


@harness()
def monotone(c):
    m = c.mod(M)
    f1, e1 = steel(c, "fy1")
    f2, e2 = steel(c, "fy2")
    r1 = c.real("r1", 0, 500)
    r2 = c.real("r2", 0, 500)
    c.assume(r1 <= r2)
    c.assume(f1 <= f2)
    f = c.choice("part", [m.internal_part_in_bending, m.internal_part_in_compression, m.outstand_part_in_compression,
                          m.CHS_class])
    c.ensures("class never improves with slenderness or strength", f(r1, e1) <= f(r2, e2))


def shape_classes(c, s, fy, e, cf, cw, outstand, bend=True):
    def cl(x, l):
        return 1 if x <= l[0] else 2 if x <= l[1] else 3 if x <= l[2] else 4
    lim = (9 * e, 10 * e, 14 * e) if outstand else (33 * e, 38 * e, 42 * e)
    c.same("flange class", s.flange_class(), cl(cf, lim))
    c.same("web class in compression", s.web_class_comp(), cl(cw, (33 * e, 38 * e, 42 * e)))
    if bend:
        c.same("web class in bending", s.web_class_bend(), cl(cw, (72 * e, 83 * e, 124 * e)))


@harness()
def classes_of_RHS_parts(c):
    m = c.mod("metku.sections.steel.RHS")
    fy = c.real("fy", 235, 960)
    H, B, T = c.real("H", 20, 1000), c.real("B", 20, 1000), c.real("T", 1, 30)
    c.assume(H >= 7 * T)
    c.assume(B >= 7 * T)
    s = m.RHS(H, B, T)
    s.material.fy = fy
    R = 2 * T if T <= 6 else 2.5 * T if T <= 10 else 3 * T
    # EN 10219-2 outer corner radius
    shape_classes(c, s, fy, c.sqrt(235 / fy), (B - 2 * R) / T, (H - 2 * R) / T, False)


@harness()
def classes_of_I_parts(c):
    m = c.mod("metku.sections.steel.ISection")
    s = m.CustomISection(300, 150, 10.7, 7.1, 15)
    fy = c.real("fy", 235, 960)
    h, b, tf, tw, r = c.real("h", 50, 1500), c.real("b", 20, 600), c.real("tf", 2, 60), c.real("tw", 2, 40), c.real("r", 0, 40)
    c.assume(h > 2 * tf + 2 * r)
    c.assume(b > tw + 2 * r)
    s.material.fy = fy
    s.h, s.b, s.tf, s.tw, s.r = h, b, tf, tw, r
    shape_classes(c, s, fy, c.sqrt(235 / fy), ((b - tw) / 2 - r) / tf, (h - 2 * tf - 2 * r) / tw, True)


@harness(timeout=12)
def class_of_I_web_in_compression_and_bending(c):
    m = c.mod("metku.sections.steel.ISection")
    s = m.CustomISection(300, 150, 10.7, 7.1, 15)
    fy = c.real("fy", 235, 960)
    h, b, tf, tw, r = 300, 150, 10.7, c.real("tw", 1, 40), 15
    s.material.fy = fy
    s.tw = tw
    N, M = -c.real("N", 1, 1e7), c.real("M", 1, 1e9)
    s.Ned, s.Med = N, [M, 0.0]
    e = c.sqrt(235 / fy)
    cw = h - 2 * tf - 2 * r
    x = cw / tw
    # EN 1993-1-1 Table 5.2: alpha from the plastic stress block carrying N, psi from the elastic stresses
    a = c.min(1, 0.5 * (1 - N / (cw * tw * fy)))
    sN, sM = N / s.A, M / s.Wel[0]
    psi = (sN + sM) / (sN - sM)
    l3 = 42 * e / (0.67 + 0.33 * psi) if psi > -1 else 62 * e * (1 - psi) * c.sqrt(-psi)
    want = 1 if x <= 396 * e / (13 * a - 1) else 2 if x <= 456 * e / (13 * a - 1) else 3 if x <= l3 else 4
    c.same("class of the web under N and M", s.web_class_comp_bend(N), want)


@harness()
def classes_of_CHS(c):
    m = c.mod("metku.sections.steel.CHS")
    D, T, fy = c.real("D", 20, 1000), c.real("T", 1, 40), c.real("fy", 235, 960)
    c.assume(D >= 3 * T)
    s = m.CHS(D, T)
    s.material.fy = fy
    want = cls(D / T, 50 * 235 / fy, 70 * 235 / fy, 90 * 235 / fy)
    c.same("class in bending", s.web_class_bend(), want)
    c.same("class in compression", s.web_class_comp(), want)
    s.Ned, s.Med = -1e3, [1e3, 0.0]
    c.same("class of the section in bending and compression", s.section_class(), want)


@harness(timeout=12)
def classes_of_WI_parts(c):
    """doubly symmetric welded section: c is measured between the weld toes"""
    m = c.mod("metku.sections.steel.wi")
    h, tw, b, tf, a = c.real("h", 100, 3000), c.real("tw", 3, 40), c.real("b", 60, 900), c.real("tf", 4, 60), c.real("a", 2, 10)
    c.assume(h >= 2 * tf + 3 * a)
    c.assume(b >= tw + 3 * a)
    fy = c.real("fy", 235, 960)
    s = m.WISection(h, tw, [b, b], [tf, tf], weld_throat=a)
    s.material.fy = fy
    w = a * c.sqrt(2)
    shape_classes(c, s, fy, c.sqrt(235 / fy), ((b - tw) / 2 - w) / tf, (h - 2 * tf - 2 * w) / tw, True, bend=False)


@harness(timeout=12)
def WI_symmetric_web_in_bending(c):
    m = c.mod("metku.sections.steel.wi")
    h, tw, a = c.real("h", 100, 3000), c.real("tw", 3, 40), c.real("a", 2, 10)
    fy = c.real("fy", 235, 960)
    s = m.WISection(h, tw, [300, 300], [16, 16], weld_throat=a)
    s.material.fy = fy
    e = c.sqrt(235 / fy)
    c.same("web class in bending", s.web_class_bend(),
           cls((h - 32 - 2 * a * c.sqrt(2)) / tw, 72 * e, 83 * e, 124 * e))


@harness(timeout=12)
def WI_web_in_bending(c):
    """mono-symmetric welded section in bending, top flange compressed"""
    m = c.mod("metku.sections.steel.wi")
    h, tw, a = 800, c.real("tw", 3, 20), 4
    bt, bb, tt, tb = c.real("bt", 100, 500), c.real("bb", 100, 500), 12, 16
    fy = c.real("fy", 235, 700)
    s = m.WISection(h, tw, [bt, bb], [tt, tb], weld_throat=a)
    s.material.fy = fy
    e, w = c.sqrt(235 / fy), a * c.sqrt(2)
    hw = h - tt - tb
    cw = hw - 2 * w
    zpl, zel = s.plastic_neutral_axis(), s.elastic_neutral_axis()
    al = c.min(1, c.max(0, (h - tt - w - zpl) / cw))
    psi = (tb - zel) / (h - tt - zel)
    c.same("class of the web by Table 5.2", s.web_class_bend(), comp_bend_spec(c, cw / tw, e, al, psi))


@harness()
def RHS_web_in_compression_and_bending(c):
    m = c.mod("metku.sections.steel.RHS")
    H, B, T = 400, 100, 4
    s = m.RHS(H, B, T)
    k = c.real("k", 0.1, 0.9)
    cw = H - 4 * T
    s.Ned, s.Med = -k * 2 * cw * T * 355, [1.0, 0.0]
    a = 0.5 * (1 + k)
    N, M = s.Ned / s.A, 1.0 / s.Wel[0]
    want = comp_bend_spec(c, cw / T, c.sqrt(235 / 355), a, (N + M) / (N - M))
    c.same("class of the web under N and M", s.web_class_comp_bend(s.Ned), want)


@harness()
def WI_web_in_compression_and_bending(c):
    m = c.mod("metku.sections.steel.wi")
    h, b, tf, a = 800, 300, 16, 4
    tw = c.real("tw", 4, 16)
    s = m.WISection(h, tw, [b, b], [tf, tf], weld_throat=a)
    k = c.real("k", 0.1, 0.9)
    cw = h - 2 * tf - 2 * a * c.sqrt(2)
    M = c.real("M", 1e6, 1e9)
    s.Ned, s.Med = -k * cw * tw * 355, [M, 0.0]
    sN, sM = s.Ned / s.A, M / s.Wel[0]
    want = comp_bend_spec(c, cw / tw, c.sqrt(235 / 355), 0.5 * (1 + k), (sN + sM) / (sN - sM))
    c.same("class of the web under N and M", s.web_class_comp_bend(s.Ned), want)
