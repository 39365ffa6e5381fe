"""C09: a resized section equals a freshly built one.

Inductive argument: every history of assignments ends with one assignment to an object whose properties are, by induction,
those of a fresh object with the same dimensions.  Each harness therefore takes an arbitrary fresh object, assigns ONE
arbitrary new value to one dimension and compares every derived property with a fresh object of the new dimensions; a
sequence of two assignments is checked as well, as a guard for hidden state."""
RHS = "metku.sections.steel.RHS"
CHS = "metku.sections.steel.CHS"
IS = "metku.sections.steel.ISection"
WI = "metku.sections.steel.wi"
B = "metku.eurocodes.en1993.en1993_1_8.en1993_1_8"
BASE = ["A", "Au", "It", "Iw", "Iy", "Iz", "Wely", "Welz", "Wply", "Wplz", "section_factor", "fy"]


def compare(c, s, f, names, vectors=("I", "Wel", "Wpl", "Ashear")):
    for n in names:
        c.eq(n, getattr(s, n), getattr(f, n))
    for n in vectors:
        for i in (0, 1):
            c.eq("%s[%d]" % (n, i), getattr(s, n)[i], getattr(f, n)[i])
    c.eq("iy^2", s.iy() ** 2, f.iy() ** 2)
    c.eq("iz^2", s.iz() ** 2, f.iz() ** 2)
    c.eq("NRd", s.NRd, f.NRd)
    c.eq("VRd", s.VRd, f.VRd)
    c.eq("VyRd", s.VyRd, f.VyRd)
    c.eq("plastic moment", [s.plastic_bending_resistance(), s.plastic_bending_resistance(axis="z")],
         [f.plastic_bending_resistance(), f.plastic_bending_resistance(axis="z")])
    c.eq("elastic moment", [s.elastic_bending_resistance(), s.elastic_bending_resistance(axis="z")],
         [f.elastic_bending_resistance(), f.elastic_bending_resistance(axis="z")])


RHS_NAMES = BASE + ["H", "B", "T", "R", "h", "b", "t", "r", "c_web", "c_flange"]


def rhs_dims(c, tag):
    T = c.real("T" + tag, 1, 20)
    return {"H": 130 + c.real("H" + tag, 1, 500), "B": 130 + c.real("B" + tag, 1, 500), "T": T}


@harness()
def rhs(c):
    m = c.mod(RHS)
    what = c.choice("dimension", ["H", "B", "T"])
    d = rhs_dims(c, "0")
    s = m.RHS(d["H"], d["B"], d["T"])
    d[what] = c.real("new", 1, 20) if what == "T" else 130 + c.real("new", 1, 500)
    setattr(s, what, d[what])
    compare(c, s, m.RHS(d["H"], d["B"], d["T"]), RHS_NAMES)


@harness()
def rhs_sequence(c):
    m = c.mod(RHS)
    d, e = rhs_dims(c, "0"), rhs_dims(c, "1")
    s = m.RHS(d["H"], d["B"], d["T"])
    for k in c.choice("order", ["HBT", "BTH", "THB"]):
        setattr(s, k, e[k])
    compare(c, s, m.RHS(e["H"], e["B"], e["T"]), RHS_NAMES)


@harness()
def shs(c):
    m = c.mod(RHS)
    d, e = rhs_dims(c, "0"), rhs_dims(c, "1")
    s = m.SHS(d["H"], d["T"])
    s.H = e["H"]
    s.B = e["H"]
    s.T = e["T"]
    compare(c, s, m.SHS(e["H"], e["T"]), RHS_NAMES)


@harness()
def chs(c):
    m = c.mod(CHS)
    D, k = c.real("D0", 10, 1000), c.real("t0/D0", 0.01, 0.3)
    s = m.CustomCHS(D, k * D)
    what = c.choice("dimension", ["D", "T"])
    v = c.real("new", 700, 1000) if what == "D" else D * c.real("new", 0.01, 0.3)
    c.assume(2.1 * k * D < v) if what == "D" else None
    setattr(s, what, v)
    f = m.CustomCHS(v, k * D) if what == "D" else m.CustomCHS(D, v)
    compare(c, s, f, BASE + ["D", "T"])


def i_dims(c, tag):
    tf, tw, r = c.real("tf" + tag, 1, 38), c.real("tw" + tag, 1, 30), c.real("r" + tag, 0.5, 30)
    return dict(H=140 + c.real("H" + tag, 1, 1000), B=100 + c.real("B" + tag, 1, 400), tf=tf, tw=tw, r=r)


def i_new(c, m, d):
    return m.CustomISection(d["H"], d["B"], d["tf"], d["tw"], d["r"])


@harness()
def custom_I(c):
    m = c.mod(IS)
    d, e = i_dims(c, "0"), i_dims(c, "1")
    what = c.choice("dimension", ["H", "B", "tf", "tw", "r", "all"])
    s = i_new(c, m, d)
    for k in (d if what == "all" else [what]):
        d[k] = e[k]
        setattr(s, k, e[k])
    s.cross_section_properties()
    f = i_new(c, m, d)
    compare(c, s, f, BASE + ["H", "B", "h", "b", "tf", "tw", "r", "hw", "cf", "box_section_factor"])
    c.eq("shadow effect", s.shadow_effect(), f.shadow_effect())
    c.eq("compressed flange", list(s.compressed_flange()), list(f.compressed_flange()))
    c.eq("N-M interaction", s.moment_axial_force_interact(0.3, 100), f.moment_axial_force_interact(0.3, 100))


WI_NAMES = BASE + ["h", "tw", "bt", "bb", "tt", "tb", "hw", "cw", "cf_top", "cf_bottom", "At", "Ab", "Aw", "zt", "zb", "zw", "Iyt",
                   "Izt", "Iyb", "Izb", "Iyw", "Izw", "zs", "zj", "MfRd", "NtopRd", "NbottomRd"]


def wi_dims(c, tag):
    return dict(h=200 + c.real("h" + tag, 1, 2000), tw=c.real("tw" + tag, 3, 40), bt=c.real("bt" + tag, 60, 900),
                bb=c.real("bb" + tag, 60, 900), tt=c.real("tt" + tag, 4, 80), tb=c.real("tb" + tag, 4, 80))


def wi_new(c, m, d):
    return m.WISection(d["h"], d["tw"], [d["bt"], d["bb"]], [d["tt"], d["tb"]], weld_throat=4)


def wi_same(c, s, f):
    names = [n for n in WI_NAMES]
    compare(c, s, f, names, ("I", "Wel", "Wpl", "Ashear", "b", "tf"))
    c.eq("plastic neutral axis", s.plastic_neutral_axis(), f.plastic_neutral_axis())
    c.eq("elastic neutral axis", s.elastic_neutral_axis(), f.elastic_neutral_axis())
    c.eq("N-M interaction", s.moment_axial_force_interact(0.3, 100), f.moment_axial_force_interact(0.3, 100))


def wi_one(what):
    @harness(name="wi_" + what, timeout=12)
    def _(c):
        m = c.mod(WI)
        d, e = wi_dims(c, "0"), wi_dims(c, "1")
        s = wi_new(c, m, d)
        if what == "hw":
            v = 250 + c.real("new", 1, 20)
            d["h"] = v + d["tt"] + d["tb"]
            s.hw = v
        elif what == "b":
            d["bt"] = d["bb"] = e["bt"]
            s.b = e["bt"]
        elif what == "tf":
            d["tt"] = d["tb"] = e["tt"]
            s.tf = e["tt"]
        else:
            d[what] = e[what]
            setattr(s, what, e[what])
        wi_same(c, s, wi_new(c, m, d))


for _w in ["h", "tw", "bt", "bb", "tt", "tb", "hw", "b", "tf"]:
    wi_one(_w)


@harness(timeout=12)
def wi_sequence(c):
    m = c.mod(WI)
    d, e = wi_dims(c, "0"), wi_dims(c, "1")
    s = wi_new(c, m, d)
    for k in c.choice("order", [["h", "tw", "bt", "bb", "tt", "tb"], ["tb", "tt", "bb", "bt", "tw", "h"]]):
        setattr(s, k, e[k])
    wi_same(c, s, wi_new(c, m, e))


@harness(timeout=12)
def material(c):
    """changing the material changes the strength and nothing of the geometry"""
    m, w = c.mod(RHS), c.mod(WI)
    g = c.choice("grade", ["S235", "S420", "S700"])
    for s, f in ((m.RHS(200, 100, 6), m.RHS(200, 100, 6, g)), (w.WISection(500, 8, [250, 250], [12, 12]),
                                                              w.WISection(500, 8, [250, 250], [12, 12], fy=g))):
        s.material = g
        compare(c, s, f, BASE)


@harness()
def curves_after_resizing_custom_I(c):
    m = c.mod(IS)
    d, e = i_dims(c, "0"), i_dims(c, "1")
    s = i_new(c, m, d)
    for k in e:
        setattr(s, k, e[k])
    s.cross_section_properties()
    f = i_new(c, m, e)
    c.eq("flexural buckling curves", list(s.imp_factor), list(f.imp_factor))
    c.eq("LT buckling curves", [s.imp_factor_LT_gen, s.imp_factor_LT], [f.imp_factor_LT_gen, f.imp_factor_LT])


@harness()
def curves_after_resizing_WI(c):
    m = c.mod(WI)
    what = c.choice("dimension", ["h", "tt", "tb", "bt", "bb"])
    d, e = dict(h=700, tw=8, bt=300, bb=340, tt=20, tb=24), wi_dims(c, "1")
    d[what] = wi_dims(c, "0")[what]
    s = wi_new(c, m, d)
    d[what] = e[what]
    setattr(s, what, e[what])
    f = wi_new(c, m, d)
    c.eq("flexural buckling curves", list(s.imp_factor), list(f.imp_factor))
    c.eq("LT buckling curves", [s.imp_factor_LT_gen, s.imp_factor_LT], [f.imp_factor_LT_gen, f.imp_factor_LT])


@harness()
def bolt(c):
    m = c.mod(B)
    a, b = c.choice("size", m.bolt_sizes), c.choice("new size", m.bolt_sizes)
    L = c.choice("length", [20, 50, 85, 130, 190, 250, 300])
    cl = c.choice("class", [8.8, 10.9])
    s = m.Bolt(a, cl, L)
    s.size = b
    f = m.Bolt(b, cl, L)
    for n in ("d", "d0", "A", "As", "head_t", "head_d", "nut_t", "nut_e", "washer_t", "washer_d", "dw", "length", "fyb", "fub", "size"):
        c.eq(n, getattr(s, n), getattr(f, n))
    c.same("class and type", [s.bolt_class, s.bolt_type], [f.bolt_class, f.bolt_type])
    c.eq("resistances", [s.shear_resistance(), s.tension_resistance(), s.bearing_resistance(490, 10, [40, 30], [60, 60])],
         [f.shear_resistance(), f.tension_resistance(), f.bearing_resistance(490, 10, [40, 30], [60, 60])])
