"""C21: wind velocity and pressure, wall and roof zones of EN 1991-1-4 (with the Finnish national annex)."""

M = "metku.eurocodes.en1991.en1991_1_4"
CAT = {0: (0.003, 1.0), 1: (0.01, 1.0), 2: (0.05, 2.0), 3: (0.3, 5.0), 4: (1.0, 10.0)}


def roughness(c, z, cat):
    z0, zmin = CAT[cat]
    kr = 0.18 if cat == 0 else 0.19 * (z0 / 0.05) ** 0.07
    L = c.log(c.max(zmin, z) / z0)
    return kr, L


@harness()
def velocity(c):
    """cr(z) = kr ln(z/z0), constant below zmin; vm = cr vb; Iv = 1/ln(z/z0)"""
    m, cat = c.mod(M), c.choice("category", [0, 1, 2, 3, 4])
    z, vb = c.real("z", 0, 300), c.real("vb", 1, 60)
    kr, L = roughness(c, z, cat)
    c.eq("roughness factor", m.terrain_roughness(z, cat), kr * L)
    c.eq("mean velocity", m.mean_wind_velocity(vb, z, cat), vb * kr * L)
    c.eq("turbulence intensity", m.turbulence_intensity(z, cat) * L, 1)


@harness()
def category_two_unless_told_otherwise(c):
    m = c.mod(M)
    z, vb = c.real("z", 0, 300), c.real("vb", 1, 60)
    kr, L = roughness(c, z, 2)
    c.eq("roughness factor", m.terrain_roughness(z), kr * L)
    c.eq("mean velocity", m.mean_wind_velocity(vb, z), vb * kr * L)
    c.eq("turbulence intensity", m.turbulence_intensity(z) * L, 1)


@harness()
def peak_pressure(c):
    """qp = (1 + 7 Iv) rho vm^2 / 2"""
    m, cat = c.mod(M), c.choice("category", [0, 1, 2, 3, 4])
    z, vb = c.real("z", 0, 300), c.real("vb", 1, 60)
    kr, L = roughness(c, z, cat)
    c.eq("peak pressure", m.peak_velocity_pressure(z, cat, vb), 0.625 * vb ** 2 * kr ** 2 * (L ** 2 + 7 * L), scale=1000)
    c.eq("basic pressure", m.basic_velocity_pressure(vb), 0.625 * vb ** 2, scale=100)
    rho = c.real("rho", 1, 1.5)
    c.eq("basic pressure of another air", m.basic_velocity_pressure(vb, rho), 0.5 * rho * vb ** 2, scale=100)
    d, s = c.real("direction", 0.5, 1), c.real("season", 0.5, 1)
    c.eq("basic velocity", m.basic_wind_velocity(vb, d, s), vb * d * s)
    c.eq("basic velocity of the country", m.basic_wind_velocity(), 21)
    q, k = c.real("qp", 0, 3000), c.real("cp", -3, 3)
    c.eq("external pressure", m.wind_pressure_ext(q, k), q * k)
    c.eq("internal pressure", m.wind_pressure_int(q, k), q * k)


@harness()
def never_decreases_with_height(c):
    m, cat = c.mod(M), c.choice("category", [0, 1, 2, 3, 4])
    vb = c.real("vb", 1, 60)
    z = c.real("z", 0, 300)
    h = z + c.real("higher by", 0, 300)
    c.le("mean velocity", m.mean_wind_velocity(vb, z, cat), m.mean_wind_velocity(vb, h, cat))
    c.le("turbulence", m.turbulence_intensity(h, cat), m.turbulence_intensity(z, cat))
    c.le("peak pressure", m.peak_velocity_pressure(z, cat, vb), m.peak_velocity_pressure(h, cat, vb))


WALL = {"A": (-1.2, -1.4), "B": (-0.8, -1.1), "C": (-0.5, -0.5)}
DE = {"D": [(0.25, 0.7, 1.0), (1, 0.8, 1.0), (5, 0.8, 1.0)], "E": [(0.25, -0.3, -0.3), (1, -0.5, -0.5), (5, -0.7, -0.7)]}


def of_area(c, A, c10, c1):
    return c10 if bool(A >= 10) else c1 if bool(A <= 1) else c1 - (c1 - c10) * c.log(A) / c.log(10)


def table(x, rows, k):
    """rows (x, values..): linear between, constant outside"""
    if bool(x <= rows[0][0]):
        return rows[0][k]
    for a, b in zip(rows, rows[1:]):
        if bool(x <= b[0]):
            return a[k] + (b[k] - a[k]) * (x - a[0]) / (b[0] - a[0])
    return rows[-1][k]


def building(c, area=None):
    long, short, h, qp = c.real("length", 1, 200), c.real("width", 1, 200), c.real("height", 0.5, 60), c.real("qp", 10, 3000)
    d = c.choice("wind to the side", ["long", "short"])
    b = long if d == "long" else short
    if area is not None:
        lo, hi = area
        c.assume(b * h >= lo)
        c.assume(b * h <= hi)
    return c.mod(M).rect_building_wall_pressure(long, short, h, qp, d), b, short if d == "long" else long, h, qp


@harness()
def wall_zones_cover_the_wall(c):
    """zones of 7.2.2: e/5, 4e/5 and the rest of the side; front and rear walls are one zone"""
    Z, b, d, h, qp = building(c)
    e = c.min(b, 2 * h)
    a = c.min(e / 5, d)
    c.eq("A", Z["A"]["length"], a, scale=10)
    c.eq("B", Z["B"]["length"], c.min(e, d) - a, scale=10)
    c.eq("C", Z["C"]["length"], d - c.min(e, d), scale=10)
    c.eq("together the side", Z["A"]["length"] + Z["B"]["length"] + Z["C"]["length"], d, scale=10)
    for k in "DE":
        c.eq(k, Z[k]["length"], b)
    c.same("zones", sorted(Z), list("ABCDE"))


def walls(name, area):
    @harness(name="wall_pressures_" + name)
    def h(c):
        """Table 7.1, linear in h/d, with Figure 7.2 for the area; the pressure is that times qp"""
        Z, b, d, h, qp = building(c, area)
        A = b * h
        for k, (c10, c1) in WALL.items():
            c.eq("cpe " + k, Z[k]["cpe"], of_area(c, A, c10, c1))
        for k, rows in DE.items():
            if name != "large":
                rows = [(x, of_area(c, A, c10, c1)) for x, c10, c1 in rows]
            c.eq("cpe " + k, Z[k]["cpe"], table(h / d, rows, 1))
        for k in Z:
            c.eq("we " + k, Z[k]["we"], qp * Z[k]["cpe"])


walls("large", (10, 1e6))
walls("medium", (1, 10))
walls("small", (0, 1))


@harness()
def flat_roof(c):
    """Table 7.2, sharp eaves; the zones cover the roof"""
    m = c.mod(M)
    d, b, h, qp = c.real("d", 1, 200), c.real("b", 1, 200), c.real("h", 0.5, 60), c.real("qp", 10, 3000)
    e = c.min(b, 2 * h)
    c.assume(d >= e / 10)
    Z = m.flat_roof_pressure(d, b, h, qp)
    for k, cpe in {"F": -1.8, "G": -1.2, "H": -0.7, "I": [0.2, -0.2]}.items():
        c.eq("cpe " + k, Z[k]["cpe"], cpe)
        c.eq("we " + k, Z[k]["we"], [qp * x for x in cpe] if k == "I" else qp * cpe)
    c.eq("corners", Z["F"]["length"], e / 4, scale=10)
    c.eq("edge", 2 * Z["F"]["length"] + Z["G"]["length"], b, scale=10)
    for k in "FG":
        c.eq("width " + k, Z[k]["width"], e / 10, scale=10)
    for k in "HI":
        c.eq("length " + k, Z[k]["length"], b)
    c.eq("width H", Z["H"]["width"], c.min(e / 2, d) - e / 10, scale=10)
    c.eq("width I", Z["I"]["width"], d - c.min(e / 2, d), scale=10)


# Table 7.3a: angle: (F10, F1, G10, G1, H10, H1); suction, then pressure
SUCTION = {0: [(5, -1.7, -2.5, -1.2, -2.0, -0.6, -1.2), (15, -0.9, -2.0, -0.8, -1.5, -0.3, -0.3), (30, -0.5, -1.5, -0.5, -1.5, -0.2, -0.2),
               (45, 0, 0, 0, 0, 0, 0), (60, 0, 0, 0, 0, 0, 0)],
           180: [(5, -2.3, -2.5, -1.3, -2.0, -0.8, -1.2), (15, -2.5, -2.8, -1.3, -2.0, -0.9, -1.2), (30, -1.1, -2.3, -0.8, -1.5, -0.8, -0.8),
                 (45, -0.6, -1.3, -0.5, -0.5, -0.7, -0.7), (60, -0.5, -1.0, -0.5, -0.5, -0.5, -0.5), (75, -0.5, -1.0, -0.5, -0.5, -0.5, -0.5)]}
PRESSURE = [(5, 0, 0, 0, 0, 0, 0), (15, 0.2, 0.2, 0.2, 0.2, 0.2, 0.2), (30, 0.7, 0.7, 0.7, 0.7, 0.4, 0.4), (45, 0.7, 0.7, 0.7, 0.7, 0.6, 0.6),
            (60, 0.7, 0.7, 0.7, 0.7, 0.7, 0.7), (75, 0.8, 0.8, 0.8, 0.8, 0.8, 0.8)]


@harness()
def monopitch_coefficients(c):
    """Table 7.3a, linear in the angle: suction and pressure for wind up the slope, suction for wind down the slope"""
    w, al = c.choice("wind", [0, 180]), c.real("angle", 5, 89)
    R = c.mod(M).ExternalPressureMonoRoof(w, al)
    for i, z in enumerate("FGH"):
        for j, k in enumerate(("cpe10", "cpe1")):
            x, col = getattr(R, z)[k], 1 + 2 * i + j
            if w == 180:
                c.eq("%s %s" % (z, k), x, table(al, SUCTION[180], col))
                continue
            if isinstance(x, (list, tuple)):
                c.eq("suction %s %s" % (z, k), x[0], table(al, SUCTION[0], col))
            else:
                c.le("suction only on flatter roofs", 60, al)
            c.eq("pressure %s %s" % (z, k), x[-1] if isinstance(x, (list, tuple)) else x, table(al, PRESSURE, col))
