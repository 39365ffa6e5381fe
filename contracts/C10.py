"""C10: plate buckling by EN 1993-1-5, and the class 4 functions of the welded I section built on it."""
P = "metku.eurocodes.en1993.en1993_1_5"
WI = "metku.sections.steel.wi"
E = 210e3


# ------------------------------------------------------------------ specification
def rho_internal(c, l, psi):
    return 1 if l <= 0.5 + c.sqrt(0.085 - 0.055 * psi) else (l - 0.055 * (3 + psi)) / l ** 2


def rho_outstand(c, l):
    return 1 if l <= 0.748 else c.min((l - 0.188) / l ** 2, 1)


def k_internal(psi):
    if psi > 0:
        return 8.2 / (1.05 + psi)
    if psi > -1:
        return 7.81 - 6.29 * psi + 9.78 * psi ** 2
    return 5.98 * (1 - psi) ** 2


def chi_w(l, eta, rigid):
    if l < 0.83 / eta:
        return eta
    if l < 1.08 or not rigid:
        return 0.83 / l
    return 1.37 / (0.7 + l)


# ------------------------------------------------------------------ 4.4 reduction factors
@harness()
def internal_reduction(c):
    l, psi = c.real("lp", 0.01, 20), c.real("psi", -3, 1)
    r = c.mod(P).reduction_factor_internal(l, psi)
    c.eq("rho by (4.2)", r, rho_internal(c, l, psi))
    c.ensures("rho > 0", r > 0)
    c.le("rho <= 1", r, 1)


@harness(timeout=15)
def internal_reduction_decreases(c):
    l1, l2, psi = c.real("lp1", 0.01, 20), c.real("lp2", 0.01, 20), c.real("psi", -3, 1)
    c.assume(l1 <= l2)
    m = c.mod(P)
    c.le("rho never grows with slenderness", m.reduction_factor_internal(l2, psi), m.reduction_factor_internal(l1, psi))


@harness()
def outstand_reduction(c):
    l = c.real("lp", 0.01, 20)
    r = c.mod(P).reduction_factor_outstand(l)
    c.eq("rho by (4.3)", r, rho_outstand(c, l))
    c.ensures("rho > 0", r > 0)
    c.le("rho <= 1", r, 1)


@harness()
def outstand_reduction_decreases(c):
    l1, l2 = c.real("lp1", 0.01, 20), c.real("lp2", 0.01, 20)
    c.assume(l1 <= l2)
    m = c.mod(P)
    c.le("rho never grows with slenderness", m.reduction_factor_outstand(l2), m.reduction_factor_outstand(l1))


@harness()
def plate_slenderness(c):
    b, t, eps, k = c.real("b", 1, 5000), c.real("t", 1, 100), c.real("eps", 0.4, 1), c.real("k", 0.1, 200)
    l = c.mod(P).lambda_p(b, t, eps, k)
    c.eq("slenderness^2", l ** 2, (b / t) ** 2 / (28.4 * eps) ** 2 / k)
    c.ensures("positive", l > 0)


# ------------------------------------------------------------------ Tables 4.1 and 4.2
@harness()
def table_4_1(c):
    psi = c.real("psi", -3, 1)
    k = c.mod(P).buckling_factor_internal(psi)
    c.eq("k_sigma between the tabulated points", k, k_internal(psi)) if not psi in (1, 0, -1) else None


@harness()
def table_4_1_points(c):
    m = c.mod(P)
    for psi, k in ((1, 4.0), (1.0, 4.0), (0, 7.81), (0.0, 7.81), (-1, 23.9), (-1.0, 23.9)):
        c.eq("k_sigma at psi = %g" % psi, m.buckling_factor_internal(psi), k)
    c.eq("default is uniform compression", m.buckling_factor_internal(), 4.0)
    c.eq("psi = -3", m.buckling_factor_internal(-3), 5.98 * 16)


@harness()
def table_4_2(c):
    psi = c.real("psi", -3, 1)
    m = c.mod(P)
    c.assume(-1 < psi)
    k = 0.57 - 0.21 * psi + 0.07 * psi ** 2
    c.eq("maximum at the tip", m.buckling_factor_outstand(psi, "tip"), k)
    if psi < 1:
        k = 0.578 / (psi + 0.34) if psi > 0 else 1.7 - 5 * psi + 17.1 * psi ** 2
        c.eq("maximum at the support", m.buckling_factor_outstand(psi, "support"), k)


@harness()
def table_4_2_beyond(c):
    """the table has one more formula for psi down to -3 with the maximum at the tip"""
    psi = c.real("psi", -3, -1, hi_open=True)
    c.eq("maximum at the tip", c.mod(P).buckling_factor_outstand(psi, "tip"), 0.57 - 0.21 * psi + 0.07 * psi ** 2)


@harness()
def table_4_2_points(c):
    m = c.mod(P)
    for psi, tip, sup in ((1, 0.43, 0.43), (0, 0.57, 1.7), (-1, 0.85, 23.8), (1.0, 0.43, 0.43), (0.0, 0.57, 1.7), (-1.0, 0.85, 23.8)):
        c.eq("tip, psi = %g" % psi, m.buckling_factor_outstand(psi, "tip"), tip)
        c.eq("support, psi = %g" % psi, m.buckling_factor_outstand(psi, "support"), sup)
    c.eq("default", m.buckling_factor_outstand(), 0.43)


@harness()
def effective_internal(c):
    b, psi, rho = c.real("b", 1, 5000), c.real("psi", -3, 1), c.real("rho", 0, 1)
    beff, be = c.mod(P).effective_width_internal(b, psi, rho)
    c.same("two strips", len(be), 2)
    c.eq("the strips make up the width", be[0] + be[1], beff)
    c.ge("no negative strip", be[0], 0)
    c.ge("no negative strip (2)", be[1], 0)
    bc = b if psi > 0 else b / (1 - psi)
    c.eq("beff = rho bc", beff, rho * bc)
    c.le("never wider than the compressed width", beff, bc)
    if psi > 0:
        c.eq("b_e1", be[0], 2 / (5 - psi) * beff, tol=1e-6) if psi < 1 - 1e-5 else None
    else:
        c.eq("b_e1", be[0], 0.4 * beff)


@harness()
def effective_internal_uniform(c):
    b, rho = c.real("b", 1, 5000), c.real("rho", 0, 1)
    beff, be = c.mod(P).effective_width_internal(b, 1.0, rho)
    c.eq("beff", beff, rho * b)
    c.eq("halves", list(be), [rho * b / 2, rho * b / 2])


@harness()
def effective_outstand(c):
    b, psi, rho = c.real("b", 1, 5000), c.real("psi", -3, 1), c.real("rho", 0, 1)
    beff = c.mod(P).effective_width_outstand(b, psi, rho)
    bc = b if psi >= 0 else b / (1 - psi)
    c.eq("beff = rho bc", beff, rho * bc)
    c.le("never wider than the compressed width", beff, bc)


# ------------------------------------------------------------------ 5 shear
@harness()
def shear_parts(c):
    m = c.mod(P)
    fy = c.real("fy", 200, 960)
    c.eq("eta", m.shear_eta(fy), 1.2 if fy <= 460 else 1)
    hw, a, t, b = c.real("hw", 50, 5000), c.real("a", 50, 1e6), c.real("t", 2, 50), c.real("b", 50, 5000)
    k = 5.34 + 4 * (hw / a) ** 2 if a >= hw else 4 + 5.34 * (hw / a) ** 2
    c.eq("k_tau", m.shear_buckling_coefficient(hw, a), k)
    c.eq("sigma_E", m.sigma_E(t, b), 190000 * (t / b) ** 2)
    c.eq("tau_cr", m.tau_crit(hw, a, t, b, False), k * 190000 * (t / b) ** 2)


@harness()
def shear_slenderness(c):
    m = c.mod(P)
    fy, tau = c.real("fy", 200, 960), c.real("tau_cr", 0.1, 1e5)
    l = m.shear_buckling_slenderness(fy, tau)
    c.eq("slenderness^2", l ** 2, 0.76 ** 2 * fy / tau)
    c.ge("non-negative", l, 0)


@harness()
def shear_reduction(c):
    m = c.mod(P)
    l, eta = c.real("lw", 0.01, 20), c.choice("eta", [1.0, 1.2])
    post = c.choice("post", ["rigid", "non-rigid"])
    x = m.shear_buckling_reduction_factor(l, eta, post)
    c.eq("chi_w by Table 5.1", x, chi_w(l, eta, post == "rigid"))
    c.ensures("chi_w > 0", x > 0)
    c.le("chi_w <= eta", x, eta)
    c.eq("non-rigid end posts unless stated", m.shear_buckling_reduction_factor(l, eta), chi_w(l, eta, False))


@harness()
def shear_reduction_decreases(c):
    """non-rigid post; for a rigid post the standard's own formula is 0.1 % above 0.83/slenderness where it starts (1.08)"""
    m = c.mod(P)
    l1, l2, eta = c.real("lw1", 0.01, 20), c.real("lw2", 0.01, 20), c.choice("eta", [1.0, 1.2])
    c.assume(l1 <= l2)
    c.le("non-rigid", m.shear_buckling_reduction_factor(l2, eta), m.shear_buckling_reduction_factor(l1, eta))
    if (l1 < 1.08) == (l2 < 1.08):
        c.le("rigid", m.shear_buckling_reduction_factor(l2, eta, "rigid"), m.shear_buckling_reduction_factor(l1, eta, "rigid"))


@harness()
def shear_contributions(c):
    m = c.mod(P)
    x, fyw, hw, t = c.real("chi", 0, 1.2), c.real("fyw", 200, 960), c.real("hw", 50, 5000), c.real("t", 2, 50)
    c.eq("web (5.2)", m.shear_buckling_web(x, fyw, hw, t), x * fyw * hw * t / c.sqrt(3))
    bf, tf, fyf, a, rM = c.real("bf", 50, 1000), c.real("tf", 3, 80), c.real("fyf", 200, 960), c.real("a", 50, 1e6), c.real("rM", 0, 1)
    cc = a * (0.25 + 1.6 * bf * tf ** 2 * fyf / (t * hw ** 2 * fyw))
    V = m.shear_buckling_flanges(bf, tf, fyf, a, hw, t, fyw, rM)
    c.eq("flanges (5.8)", V, bf * tf ** 2 * fyf / cc * (1 - rM ** 2))


# ------------------------------------------------------------------ 6 transverse force
def patch(c, kind, fyw, hw, tw, fyf, bf, tf, ss, a, end):
    """(Fcr, ly without m2, ly with m2)"""
    ss = c.min(ss, hw)
    r = 0 if a is None else (hw / a) ** 2
    m1 = fyf * bf / (fyw * tw)
    m2 = 0.02 * (hw / tf) ** 2
    if kind == "c":
        kF = c.min(2 + 6 * (ss + end) / hw, 6)
        le = c.min(kF * E * tw ** 2 / (2 * fyw * hw), ss + end)
        ly = [c.min(le + tf * c.sqrt(m1 / 2 + (le / tf) ** 2 + m), le + tf * c.sqrt(m1 + m)) for m in (0, m2)]
    else:
        kF = (6 if kind == "a" else 3.5) + 2 * r
        ly = [c.min(ss + 2 * tf * (1 + c.sqrt(m1 + m)), 1000 * hw if a is None else a) for m in (0, m2)]
    return 0.9 * kF * E * tw ** 3 / hw, ly[0], ly[1]


def patch_loading(kind, stiff):
    @harness(name="patch_%s_%s" % (kind, "stiffened" if stiff else "unstiffened"), timeout=15, branch_ms=100)
    def _(c):
        """any yield strength of the web is reached by choosing the slenderness before the correction by m2, any of the flange by m1"""
        hw, tw, tf, bf = c.real("hw", 50, 3000), c.real("tw", 3, 40), c.real("tf", 4, 80), c.real("bf", 50, 900)
        ss, l1, g = c.real("ss", 0, 2000), c.real("slenderness with m2 = 0", 0.05, 10), c.real("sqrt(m1)", 0.5, 25)
        a = c.real("a", 50, 20000) if stiff else 1000 * hw
        kF = (6 if kind == "a" else 3.5) + 2 * (hw / a) ** 2
        ly1, ly2 = [c.min(c.min(ss, hw) + 2 * tf * (1 + q), a) for q in (g, c.sqrt(g * g + 0.02 * (hw / tf) ** 2))]
        fyw = l1 ** 2 * 0.9 * kF * E * tw ** 2 / (hw * ly1)
        fyf = g ** 2 * fyw * tw / bf
        F = c.mod(P).transverse_force_resistance(fyw, hw, tw, fyf, bf, tf, ss, a=a if stiff else 0, ltype=kind)
        ly = ly1 if l1 <= 0.5 else ly2
        l = l1 * c.sqrt(ly / ly1)
        c.eq("FRd = fyw chi_F ly tw (6.1)", F, fyw * c.min(0.5 / l, 1) * ly * tw)


for _kind in "ab":
    for _stiff in (True, False):
        patch_loading(_kind, _stiff)


def patch_at_end(case):
    @harness(name="patch_c_" + case, timeout=15, branch_ms=100)
    def _(c):
        hw, tw, tf, bf = c.real("hw", 50, 3000), c.real("tw", 3, 40), c.real("tf", 4, 80), c.real("bf", 50, 900)
        g, ss = c.real("sqrt(m1)", 0.5, 25), c.real("ss", 0, 2000)
        end = c.real("c", 0, 2) * tf         # here (6.10) never governs, so every edition of 6.5(3) gives the same
        kF = c.min(2 + 6 * (c.min(ss, hw) + end) / hw, 6)
        r = c.real("bearing length over le", 0.01, 100)
        # yield strength from the ratio of its own loaded length to ss + c
        lim = c.min(ss, hw) + end
        c.assume(lim > 0.01)
        c.assume(r >= 1 if case == "bearing_governs" else r <= 1)
        fyw = kF * E * tw ** 2 / (2 * hw * lim * r)
        le = lim * c.min(r, 1)
        fyf = g ** 2 * fyw * tw / bf
        F = c.mod(P).transverse_force_resistance(fyw, hw, tw, fyf, bf, tf, ss, ltype="c", c=end)
        Fcr = 0.9 * kF * E * tw ** 3 / hw
        ly = [c.min(le + tf * c.sqrt(g ** 2 / 2 + (le / tf) ** 2 + m), le + tf * (g if k == 0 else c.sqrt(g ** 2 + m)))
              for k, m in enumerate((0, 0.02 * (hw / tf) ** 2))]
        y = ly[1] if c.sqrt(ly[0] * tw * fyw / Fcr) > 0.5 else ly[0]
        l = c.sqrt(y * tw * fyw / Fcr)
        c.eq("FRd = fyw chi_F ly tw (6.1)", F, fyw * c.min(0.5 / l, 1) * y * tw)


patch_at_end("bearing_governs")
patch_at_end("own_length_governs")


# ------------------------------------------------------------------ welded I section, class 4
def contracts(c, *names):
    """replace plate functions, which are under contract above, by uninterpreted functions of their arguments"""
    import inspect
    m = c.mod(P)
    for n in names:
        sig = inspect.signature(getattr(m, n))

        def f(*a, _n=n, _s=sig, **k):
            b = _s.bind(*a, **k)
            b.apply_defaults()
            v = [(k, x) for k, x in b.arguments.items() if k != "verb"]
            return c.uf("_".join([_n] + [x for k, x in v if isinstance(x, str)]), *[x for k, x in v if not isinstance(x, str)])
        c.stub(m, n, f)


def girder(c, fixed_fy=False):
    s = c.mod(WI).WISection(500, 8, [250, 200], [12, 14], weld_throat=4)
    d = dict(bt=c.real("bt", 60, 900), bb=c.real("bb", 60, 900), tt=c.real("tt", 4, 80), tb=c.real("tb", 4, 80),
             tw=c.real("tw", 3, 40), a=c.real("a", 2, 10))
    hw = c.real("hw", 100, 3000)
    c.assume(d["bt"] > d["tw"] + 30)
    c.assume(d["bb"] > d["tw"] + 30)
    s.h, s.tw, s.bt, s.bb, s.tt, s.tb, s.weld_throat = d["tt"] + hw + d["tb"], d["tw"], d["bt"], d["bb"], d["tt"], d["tb"], d["a"]
    d["hw"] = hw
    if not fixed_fy:
        d["fy"] = c.real("fy", 200, 960)
        s.material.fy = d["fy"]
    return s, d


@harness(timeout=12)
def girder_flange(c):
    s, d = girder(c, True)
    eps = s.eps
    side = c.choice("flange", ["top", "bottom"])
    b, t = (d["bt"], d["tt"]) if side == "top" else (d["bb"], d["tb"])
    cf = (b - d["tw"]) / 2 - c.sqrt(2) * d["a"]
    l = cf / t / (28.4 * eps * c.sqrt(0.43))
    rho = s.effective_flange(side)
    c.eq("rho", rho, rho_outstand(c, l))
    got = s.eff_top if side == "top" else s.eff_bottom
    c.eq("stored rho", got["rho"], rho_outstand(c, l))
    c.eq("stored ineffective width", got["bneg"], (1 - rho_outstand(c, l)) * cf)
    c.eq("eps^2", s.eps ** 2, 235 / s.fy)


@harness(timeout=12)
def girder_web(c):
    s, d = girder(c, True)
    psi = c.real("psi", -3, 1)
    c.assume(psi < 1 - 1e-5)
    cw = d["hw"] - 2 * c.sqrt(2) * d["a"]
    k = c.mod(P).buckling_factor_internal(psi)     # under contract above
    beff = s.effective_web(psi)
    rho = c.mod(P).reduction_factor_internal(cw / d["tw"] / 28.4 / s.eps / c.sqrt(k), psi)     # under contract above
    bc = cw / (1 - psi) if psi < 0 else cw
    c.eq("compressed width", s.eff_web["bc"], bc)
    c.eq("effective width", beff, rho * bc)
    c.eq("ineffective width", s.eff_web["bneg"], (1 - rho) * bc)
    c.eq("strip at the compressed edge", s.eff_web["be"][0], (0.4 if psi <= 0 else 2 / (5 - psi)) * rho * bc)
    c.eq("stored rho", s.eff_web["rho"], rho)


def ineffective(c, s):
    """abstract results of the plate functions under contract above"""
    top, bot, web, be = c.real("top neg", 0, 10), c.real("bottom neg", 0, 10), c.real("web neg", 0, 10), c.real("be1", 0, 40)
    asked = []

    def flange(side="top", axis="y"):
        asked.append(side)
        if side == "top":
            s.eff_top = {"rho": 0.9, "bneg": top}
        else:
            s.eff_bottom = {"rho": 0.9, "bneg": bot}
        return 0.9

    def plate(psi=None, verb=False):
        asked.append(psi)
        s.eff_web = {"rho": 0.9, "be": [be, 1.5 * be], "bneg": web, "bc": 1}
        return 2.5 * be
    s.effective_flange, s.effective_web = flange, plate
    return top, bot, web, be, asked


@harness(timeout=12)
def girder_effective_area(c):
    s, d = girder(c)
    top, bot, web, be, asked = ineffective(c, s)
    how = c.choice("how", ["Aeff", "effective_area"])
    A = s.Aeff if how == "Aeff" else s.effective_area()
    gross = d["bt"] * d["tt"] + d["bb"] * d["tb"] + d["hw"] * d["tw"]
    c.eq("gross area less the ineffective parts", A, gross - 2 * top * d["tt"] - 2 * bot * d["tb"] - web * d["tw"])
    c.same("stress ratio of the web", sorted(str(float(x)) for x in asked if not isinstance(x, str)), ["1.0" if how == "Aeff" else "-1.0"])
    c.same("both flanges", sorted(x for x in asked if isinstance(x, str)), ["bottom", "top"])


def effective_shape(d, c, top, bot, web, be):
    """rectangles (width, z0, z1, sign) of the effective cross-section"""
    h = d["tt"] + d["hw"] + d["tb"]
    z1 = h - d["tt"] - c.sqrt(2) * d["a"] - be
    return h, [(d["bb"] - 2 * bot, 0, d["tb"]), (d["bt"] - 2 * top, h - d["tt"], h), (d["tw"], d["tb"], z1 - web), (d["tw"], z1, h - d["tt"])]


@harness(timeout=15)
def girder_neutral_axis(c):
    s, d = girder(c, True)
    top, bot, web, be, asked = ineffective(c, s)
    s.effective_flange("top")
    s.effective_flange("bottom")
    s.effective_web(-1)
    h, parts = effective_shape(d, c, top, bot, web, be)
    A = sum(b * (z1 - z0) for b, z0, z1 in parts)
    S = sum(b * (z1 ** 2 - z0 ** 2) / 2 for b, z0, z1 in parts)
    c.eq("centroid of the effective parts", s.effective_neutral_axis() * A, S)


@harness(timeout=20)
def girder_second_moment(c):
    s, d = girder(c, True)
    top, bot, web, be, asked = ineffective(c, s)
    s.eff_bottom = {"rho": 0.5, "bneg": c.real("left from before", 0, 10)}
    z0 = c.real("zeff/h", 0, 0.9) * d["hw"]
    s.effective_neutral_axis = lambda: z0     # under contract above
    I = s.I_eff_y
    h, parts = effective_shape(d, c, top, 0, web, be)
    A = sum(b * (y1 - y0) for b, y0, y1 in parts)
    c.eq("Ieff = sum of b z^3/3 - A z0^2", I, sum(b * (y1 ** 3 - y0 ** 3) / 3 for b, y0, y1 in parts) - A * z0 ** 2)
    c.eq("tension flange is fully effective", s.eff_bottom["bneg"], 0)
    c.same("compression flange is reduced", [x for x in asked if isinstance(x, str)], ["top"])
    psi = [x for x in asked if not isinstance(x, str)]
    c.eq("first stress ratio", psi[0], -1)
    for p in psi[1:]:
        c.eq("stress ratio of the shifted axis", p, (d["tb"] - z0) / (h - d["tt"] - z0))
    c.ensures("iterated", len(psi) > 1)


@harness(timeout=12)
def girder_effective_modulus(c):
    s, d = girder(c)
    I, z = c.real("Ieff", 1e3, 1e12), c.real("z", 5, 3000)
    s.effective_second_moment_area_y = lambda psi_init=-1: I
    s.effective_neutral_axis = lambda: z
    h = d["tt"] + d["hw"] + d["tb"]
    c.assume(z < h)
    c.eq("Weff = Ieff over the farther edge", s.W_eff_y, I / c.max(z, h - z))
    c.eq("bending resistance in class 4", s.bending_resistance(C=4)[0], I / c.max(z, h - z) * d["fy"])


def shear_input(c):
    s, d = girder(c)
    s.eps = c.real("eps", 0.4, 1.1)
    return s, d


@harness(timeout=20)
def girder_stocky_web_in_shear(c):
    s, d = girder(c)
    eta = 1.2 if d["fy"] <= 460 else 1
    c.assume(d["hw"] / d["tw"] < 72 * s.eps / eta)
    c.eq("plastic shear resistance", s.shear_buckling_resistance(), s.VRd)
    c.eq("eta hw tw fy/sqrt(3)", s.VRd, eta * d["hw"] * d["tw"] * d["fy"] / c.sqrt(3))


@harness(timeout=20)
def girder_slender_web_in_shear(c):
    s, d = girder(c)
    eta = 1.2 if d["fy"] <= 460 else 1
    eps = s.eps
    c.assume(d["hw"] / d["tw"] >= 72 * eps / eta)
    a = c.real("stiffener spacing", 100, 1e6)
    rN, rM = c.real("rN", 0, 0.9), c.real("rM", 0, 0.99)
    At, Ab = d["bt"] * d["tt"], d["bb"] * d["tb"]
    s.Ned = c.choice("sign", [-1, 1]) * rN * (At + Ab) * d["fy"]
    c.assume(rN > 1e-6)
    MfRd = c.min(At, Ab) * d["fy"] * (d["hw"] + (d["tt"] + d["tb"]) / 2)
    s.Med = [rM * (1 - rN) * MfRd, 0]
    m = c.mod(P)
    contracts(c, "shear_buckling_slenderness", "shear_buckling_reduction_factor", "tau_crit")
    post = c.choice("post", ["rigid", "non-rigid"])
    V = s.shear_buckling_resistance(a, post)
    # functions under contract above
    l = m.shear_buckling_slenderness(d["fy"], m.tau_crit(d["hw"], a, d["tw"], d["hw"], False))
    x = m.shear_buckling_reduction_factor(l, eta, post)
    weak = At <= Ab
    bf, tf = (d["bt"], d["tt"]) if weak else (d["bb"], d["tb"])
    bf = c.min(bf, 30 * eps * tf + d["tw"])
    cc = a * (0.25 + 1.6 * bf * tf ** 2 / (d["tw"] * d["hw"] ** 2))
    web = x * d["fy"] * d["hw"] * d["tw"] / c.sqrt(3)
    flange = bf * tf ** 2 * d["fy"] / cc * (1 - rM ** 2)
    c.eq("Vb,Rd by (5.1)", V, c.min(web + flange, eta * d["fy"] * d["hw"] * d["tw"] / c.sqrt(3)))
    c.le("never above the plastic resistance", V, eta * d["fy"] * d["hw"] * d["tw"] / c.sqrt(3))


@harness(timeout=12)
def girder_transverse(c):
    s, d = girder(c)
    contracts(c, "transverse_force_resistance")
    ss, a, end = c.real("ss", 0, 1000), c.choice("spacing", [0, c.real("a", 100, 1e4)]), c.real("c", 0, 500)
    kind = c.choice("type", "abc")
    F = c.mod(P).transverse_force_resistance(d["fy"], d["hw"], d["tw"], d["fy"], d["bt"], d["tt"], ss, a=a, ltype=kind, c=end)
    c.eq("FRd", s.transverse_load_resistance(ss, kind, a, end), F)    # function under contract above
