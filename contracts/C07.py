"""C07: rolled I sections have the properties of the doubly symmetric I shape with root fillets."""
import math
sh = use("shapes")
IS = "metku.sections.steel.ISection"
F = "metku.profiles.steel.isection_formulas"
P = "metku.profiles.steel.isections"


def dims(c):
    """any root radius that leaves a straight part in web and flanges"""
    tf, tw = c.real("tf", 1, 80), c.real("tw", 1, 60)
    r = c.real("r", 0.5, 50)
    h = 2 * tf + 2 * r + c.real("straight web", 0.1, 2000)
    b = tw + 2 * r + c.real("twice straight outstand", 0.1, 800)
    return h, b, tf, tw, r


def spec(c, h, b, tf, tw, r):
    """closed-form values; two flanges, web and four root fillets"""
    pi = c.pi
    o = {}
    o["A"] = 2 * b * tf + (h - 2 * tf) * tw + 4 * (r * r - pi * r * r / 4)
    o["Avz"] = o["A"] - 2 * b * tf + (tw + 2 * r) * tf
    o["Avy"] = 2 * b * tf
    # 2 outer flange faces, 4 flange tips, 4 inner flange faces, 2 web faces, 4 quarter circles
    o["P"] = 2 * b + 4 * tf + 4 * ((b - tw) / 2 - r) + 2 * (h - 2 * tf - 2 * r) + 4 * (pi * r / 2)
    # catalogue closed form: fillet area 0.2146 r^2, centroid 0.2234 r from the sides, own inertia 0.0075 r^4
    o["Iy"] = b * h ** 3 / 12 - (b - tw) * (h - 2 * tf) ** 3 / 12 + 4 * (0.0075 * r ** 4 + 0.2146 * r * r * (h / 2 - tf - 0.2234 * r) ** 2)
    o["Iz"] = 2 * tf * b ** 3 / 12 + (h - 2 * tf) * tw ** 3 / 12 + 4 * (0.0075 * r ** 4 + 0.2146 * r * r * (tw / 2 + 0.2234 * r) ** 2)
    o["Wely"] = o["Iy"] / (h / 2)
    o["Welz"] = o["Iz"] / (b / 2)
    a, d, own = sh.fillet(pi, r)
    o["Wply"] = 2 * (b * tf * (h - tf) / 2 + tw * (h / 2 - tf) ** 2 / 2 + 2 * a * (h / 2 - tf - d))
    o["Wplz"] = 2 * (2 * tf * b * b / 8 + (h - 2 * tf) * tw * tw / 8 + 2 * a * (tw / 2 + d))
    # SCI P385
    al = -0.042 + 0.2204 * tw / tf + 0.1355 * r / tf - 0.0865 * r * tw / tf ** 2 - 0.0725 * (tw / tf) ** 2
    D = ((tf + r) ** 2 + (r + tw / 4) * tw) / (2 * r + tf)
    o["It"] = 2 * b * tf ** 3 / 3 + (h - 2 * tf) * tw ** 3 / 3 + 2 * al * D ** 4 - 0.42 * tf ** 4
    o["Iw"] = tf * b ** 3 / 24 * (h - tf) ** 2
    return o


@harness()
def cross_section_properties(c):
    m = c.mod(IS)
    h, b, tf, tw, r = dims(c)
    A, Au, Av, I, It, Iw, Wpl, Wel = m.cross_section_properties(b, h, tf, tw, r)
    o = spec(c, h, b, tf, tw, r)
    for n, v in (("A", A), ("P", Au), ("Avz", Av), ("Iy", I[0]), ("Iz", I[1]), ("It", It), ("Iw", Iw), ("Wply", Wpl[0]),
                 ("Wplz", Wpl[1]), ("Wely", Wel[0]), ("Welz", Wel[1])):
        c.eq(n, v, o[n])


@harness()
def section_object(c):
    m = c.mod(IS)
    cls = c.choice("class", ["ISection", "CustomISection"])
    h, b, tf, tw, r = dims(c)
    s = getattr(m, cls)(h, b, tf, tw, r)
    o = spec(c, h, b, tf, tw, r)
    for n, v in (("A", s.A), ("P", s.Au), ("Avz", s.Ashear[1]), ("Iy", s.Iy), ("Iz", s.Iz), ("It", s.It), ("Iw", s.Iw), ("Wply", s.Wply),
                 ("Wplz", s.Wplz), ("Wely", s.Wely), ("Welz", s.Welz)):
        c.eq(n, v, o[n])
    c.eq("h", s.h, h)
    c.eq("b", s.b, b)
    c.eq("straight web", s.hw, h - 2 * tf - 2 * r)
    c.eq("straight outstand", s.cf, (b - tw) / 2 - r)
    c.eq("section factor", s.section_factor, o["P"] / o["A"] * 1000)
    c.eq("box section factor", s.box_section_factor, 2 * (b + h) / o["A"] * 1000)
    c.eq("shadow effect", s.shadow_effect(), 0.9 * 2 * (b + h) / o["P"])


@harness()
def formulas(c):
    m = c.mod(F)
    h, b, tf, tw, r = dims(c)
    o = spec(c, h, b, tf, tw, r)
    for n, f in (("A", "area"), ("P", "perimeter"), ("Avz", "shear_area_z"), ("Avy", "shear_area_y"), ("Iy", "second_moment_of_area_y"),
                 ("Iz", "second_moment_of_area_z"), ("It", "torsion_constant"), ("Iw", "warping_constant"),
                 ("Wply", "plastic_section_modulus_y"), ("Wplz", "plastic_section_modulus_z"), ("Wely", "elastic_section_modulus_y"),
                 ("Welz", "elastic_section_modulus_z")):
        c.eq(n, getattr(m, f)(h, b, tf, tw, r), o[n])


@harness()
def profile_object(c):
    m = c.mod(P)
    h, b, tf, tw, r = dims(c)
    o = spec(c, h, b, tf, tw, r)
    p = m.ISection("p", h, b, tw, tf, r)
    for n in ("A", "P", "Avz", "Avy", "Iy", "Iz", "It", "Iw", "Wply", "Wplz", "Wely", "Welz"):
        c.eq(n, getattr(p, n), o[n])
    c.eq("I[0]", p.I[0], o["Iy"])
    c.eq("I[1]", p.I[1], o["Iz"])
    c.eq("iy^2", p.iy ** 2, o["Iy"] / o["A"])
    c.eq("iz^2", p.iz ** 2, o["Iz"] / o["A"])
    q = p.__copy__()
    for n in ("h", "b", "tw", "tf", "r"):
        c.eq("copy " + n, getattr(q, n), getattr(p, n))


@harness()
def two_implementations(c):
    m, f = c.mod(IS), c.mod(P)
    h, b, tf, tw, r = dims(c)
    A, Au, Av, I, It, Iw, Wpl, Wel = m.cross_section_properties(b, h, tf, tw, r)
    p = f.ISection("p", h, b, tw, tf, r)
    for n, x, y in (("A", A, p.A), ("perimeter", Au, p.P), ("shear area", Av, p.Avz), ("Iy", I[0], p.Iy), ("Iz", I[1], p.Iz),
                    ("It", It, p.It), ("Iw", Iw, p.Iw), ("Wply", Wpl[0], p.Wply), ("Wplz", Wpl[1], p.Wplz), ("Wely", Wel[0], p.Wely),
                    ("Welz", Wel[1], p.Welz)):
        c.eq(n, x, y)


@harness()
def exact_second_moments(c):
    """the rounded fillet constants of the closed form are within 0.1 % of the exact fillet"""
    m = c.mod(IS)
    h, b, tf, tw, r = dims(c)
    I = m.cross_section_properties(b, h, tf, tw, r)[3]
    a, d, own = sh.fillet(c.pi, r)
    Iy0 = b * h ** 3 / 12 - (b - tw) * (h - 2 * tf) ** 3 / 12
    Iz0 = 2 * tf * b ** 3 / 12 + (h - 2 * tf) * tw ** 3 / 12
    Fy = 4 * (own + a * (h / 2 - tf - d) ** 2)
    Fz = 4 * (own + a * (tw / 2 + d) ** 2)
    c.le("Iy not more than 1.01 of the exact fillets", I[0] - Iy0, 1.01 * Fy)
    c.ge("Iy at least 0.99 of the exact fillets", I[0] - Iy0, 0.99 * Fy)
    c.le("Iz not more than 1.01 of the exact fillets", I[1] - Iz0, 1.01 * Fz)
    c.ge("Iz at least 0.99 of the exact fillets", I[1] - Iz0, 0.99 * Fz)


def key(n):
    return "IPE " + n[3:] if n.startswith("IPE") else "HE %s %s" % (n[3:], n[2])


@harness()
def catalogues_agree(c):
    """every profile of the library ISections has the dimensions of the section built from the catalogue"""
    m, f = c.mod(IS), c.mod(P)
    names = [n for n in dir(f.ISections) if n[:3] in ("IPE", "HEA", "HEB", "HEM") and n[3:].isdigit()]
    n = c.choice("profile", names)
    p = getattr(f.ISections, n)
    s = getattr(m, n[:3])(int(n[3:]))
    for a in ("h", "b", "tw", "tf", "r"):
        c.eq(a, getattr(p, a), getattr(s, a))
    c.eq("A", s.A, p.A)
    c.eq("Iy", s.I[0], p.Iy)
    c.eq("Wply", s.Wpl[0], p.Wply)
    c.same("name", p.name, n)


@harness()
def made_from_name(c):
    k = c.mod("metku.sections.steel.catalogue")
    tab = c.choice("table", ["ipe_profiles", "hea_profiles", "heb_profiles"])
    T = getattr(k, tab)
    n = c.choice("name", sorted(T))
    s = k.make_section(n, "S355")
    d = T[n]
    for a, b in (("h", "h"), ("b", "b"), ("tw", "t_w"), ("tf", "t_f"), ("r", "r")):
        c.eq(a, getattr(s, a), d[b])
    c.eq("area of the shape with fillets", s.A, spec(c, d["h"], d["b"], d["t_f"], d["t_w"], d["r"])["A"])
