"""C03: flexural buckling reduction factor, EN 1993-1-1 6.3.1."""
M = "metku.eurocodes.en1993.en1993_1_1"
ec3 = use("ec3")


@harness()
def slenderness_and_strength(c):
    m = c.mod(M)
    A, fy, Ncr, x = c.real("A", 1, 1e6), c.real("fy", 100, 1200), c.real("Ncr", 1, 1e9), c.real("chi", 0, 1)
    s = m.slenderness(A, fy, Ncr)
    c.ge("slenderness is non-negative", s, 0)
    c.eq("slenderness^2 = A fy / Ncr", s ** 2, A * fy / Ncr)
    c.eq("NbRd = chi A fy / gammaM1", m.buckling_strength(A, fy, x), x * A * fy / 1.0)


@harness()
def curves(c):
    m = c.mod(M)
    for k, a in ec3.ALPHA.items():
        c.eq("imperfection factor of curve " + k, m.buckling_curve[k], a)
    c.same("no other curves", sorted(m.buckling_curve), sorted(ec3.ALPHA))


@harness(timeout=15)
def formula(c):
    m = c.mod(M)
    l = c.real("slend", 0, 10)
    a = c.real("alpha", 0.13, 0.76)
    x = m.buckling_reduction_factor(l, a)
    c.eq("chi by (6.49)", x, ec3.chi(c, l, a))


@harness()
def default_curve(c):
    m = c.mod(M)
    l = c.real("slend", 0, 10)
    c.eq("curve c unless stated", m.buckling_reduction_factor(l), ec3.chi(c, l, 0.49))


@harness(timeout=15)
def range_(c):
    m = c.mod(M)
    l = c.real("slend", 0, 10)
    a = c.real("alpha", 0.13, 0.76)
    x = m.buckling_reduction_factor(l, a)
    c.ensures("chi > 0", x > 0)
    c.le("chi <= 1", x, 1)
    if l <= 0.2:
        c.eq("no reduction up to slenderness 0.2", x, 1)


@harness(timeout=15)
def euler(c):
    """chi <= 1/slenderness^2: the buckling resistance never exceeds the Euler load"""
    m = c.mod(M)
    l = c.real("slend", 0.2, 10)
    a = c.real("alpha", 0.13, 0.76)
    x = m.buckling_reduction_factor(l, a)
    c.le("chi slenderness^2 <= 1", x * l * l, 1)


@harness(timeout=15)
def squash_and_euler_resistance(c):
    m = c.mod(M)
    A, fy = c.real("A", 10, 1e5), c.real("fy", 200, 700)
    Ncr = A * fy / c.real("sqrt(A fy/Ncr)", 0.01, 10) ** 2
    a = c.real("alpha", 0.13, 0.76)
    l = m.slenderness(A, fy, Ncr)
    N = m.buckling_strength(A, fy, m.buckling_reduction_factor(l, a))
    c.le("NbRd <= A fy", N, A * fy)
    c.le("NbRd <= Ncr", N, Ncr)


@harness(timeout=15)
def decreasing_in_imperfection(c):
    m = c.mod(M)
    l = c.real("slend", 0, 5)
    a1, a2 = c.real("alpha1", 0.13, 0.76), c.real("alpha2", 0.13, 0.76)
    c.assume(a1 <= a2)
    c.le("chi never grows with the imperfection", m.buckling_reduction_factor(l, a2), m.buckling_reduction_factor(l, a1))


def _monotone(curve):
    @harness(name="decreasing_in_slenderness_" + curve, timeout=20)
    def decreasing_in_slenderness(c):
        m = c.mod(M)
        l1, l2 = c.real("slend1", 0, 5), c.real("slend2", 0, 5)
        a = ec3.ALPHA[curve]
        c.assume(l1 <= l2)
        c.le("chi never grows with slenderness", m.buckling_reduction_factor(l2, a), m.buckling_reduction_factor(l1, a))


for _curve in ec3.ALPHA:
    _monotone(_curve)
