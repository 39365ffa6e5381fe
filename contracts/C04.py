"""C04: beam-column interaction factors, EN 1993-1-1 Annex B."""
M = "metku.eurocodes.en1993.en1993_1_1"
ec3 = use("ec3")


def common(c):
    return c.real("n", 0, 2), c.real("slend", 0, 5), c.choice("class", [1, 2, 3, 4])


@harness()
def kyy(c):
    m = c.mod(M)
    n, l, k = common(c)
    Cm = c.real("Cm", 0.4, 1)
    c.eq("kyy of Table B.1", m.kyy(n, l, Cm, section_class=k), ec3.kyy(c, n, l, Cm, k))


@harness()
def kzz(c):
    m = c.mod(M)
    n, l, k = common(c)
    Cm = c.real("Cm", 0.4, 1)
    pr = c.choice("profile", ["hollow", "I"])
    c.eq("kzz of Table B.1", m.kzz(n, l, Cm, section_class=k, profile=pr), ec3.kzz(c, n, l, Cm, k, pr))


@harness()
def kyz(c):
    m = c.mod(M)
    k = c.choice("class", [1, 2, 3, 4])
    kz = c.real("kzz", 0, 5)
    c.eq("kyz of Table B.1", m.kyz(kz, section_class=k), 0.6 * kz if k < 3 else kz)


@harness()
def kzy_not_susceptible(c):
    m = c.mod(M)
    n, l, k = common(c)
    ky = c.real("kyy", 0, 5)
    c.eq("kzy of Table B.1", m.kzy(ky, n, l, section_class=k), 0.6 * ky if k < 3 else 0.8 * ky)


@harness()
def kzy_susceptible(c):
    m = c.mod(M)
    n, l, k = common(c)
    ky = c.real("kyy", 0, 5)
    Cm = c.real("CmLT", 0.4, 1)
    got = m.kzy(ky, n, l, CmLT=Cm, section_class=k, susceptible_to_torsion=True)
    c.eq("kzy of Table B.2", got, ec3.kzy(c, ky, n, l, Cm, k, True))


@harness()
def verification_6_61(c):
    m = c.mod(M)
    UN, UMy, UMz = c.real("UN", 0, 3), c.real("UMy", 0, 3), c.real("UMz", 0, 3)
    ky, x = c.real("ky", 0, 3), c.real("chiLT", 0.01, 1)
    c.eq("sum of the three terms", m.beam_column_utility(UN, UMy, ky, chiLT=x, UMz=UMz), UN + ky * UMy / x + UMz)


def moment(c, name):
    """zero, or at least 1e-3 in size (the code takes |M| < 1e-6 for zero)"""
    k = c.choice(name + "_sign", ["0", "+", "-"])
    if k == "0":
        return 0
    x = c.real(name, 1e-3, 1e9)
    return x if k == "+" else -x


@harness(timeout=15)
def cm_linear(c):
    m = c.mod(M)
    M1, M2 = moment(c, "M1"), moment(c, "M2")
    load = c.choice("load", ["uniform", "point"])
    got = m.equivalent_moment_factor([M1, M2], load=load)
    c.eq("Cm of a linear diagram", got, ec3.cm(c, M1, M2, None, load))
    c.ge("Cm >= 0.4", got, 0.4)
    c.le("Cm <= 1", got, 1)


def spans(c):
    M1, M2, Ms = moment(c, "M1"), moment(c, "M2"), moment(c, "Ms")
    # either exactly linear or clearly not (the code's threshold is 1e-6)
    if c.choice("diagram", ["linear", "curved"]) == "linear":
        Ms = (M1 + M2) / 2
    else:
        c.assume(abs(Ms - 0.5 * (M1 + M2)) >= 1e-3)
    return M1, M2, Ms


@harness(timeout=15, max_paths=20000)
def cm_spanned(c):
    m = c.mod(M)
    M1, M2, Ms = spans(c)
    load = c.choice("load", ["uniform", "point"])
    got = m.equivalent_moment_factor([M1, M2], Ms, load)
    c.eq("Cm of Table B.3", got, ec3.cm(c, M1, M2, Ms, load))
    c.ge("Cm >= 0.4", got, 0.4)
    c.le("Cm <= 1", got, 1)


@harness(timeout=15, max_paths=20000)
def cm_symmetries(c):
    m = c.mod(M)
    M1, M2, Ms = spans(c)
    load = c.choice("load", ["uniform", "point"])
    a = m.equivalent_moment_factor([M1, M2], Ms, load)
    c.eq("independent of which end is first", m.equivalent_moment_factor([M2, M1], Ms, load), a)
    c.eq("independent of the sign convention", m.equivalent_moment_factor([-M1, -M2], -Ms, load), a)
