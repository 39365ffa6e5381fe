"""C14: stiffness of the finite elements: symmetry, rigid body motion, equilibrium, exact beam stiffness."""
from types import SimpleNamespace as NS

EB = "metku.framefem.elements.ebbeam"
SR = "metku.framefem.elements.eb_semi_rigid_beam"
RO = "metku.framefem.elements.rod"
SP = "metku.framefem.elements.springs"
FF = "metku.framefem.framefem"


def direction(c, tag="t"):
    """every direction but the negative x axis, which is given apart"""
    t = c.real(tag, -50, 50)
    d = 1 + t ** 2
    sg = c.choice("side", [1, -1])
    return sg * (1 - t ** 2) / d, sg * 2 * t / d


def nodes(c):
    ff = c.mod(FF)
    x, y, L = c.real("x1", -1e4, 1e4), c.real("y1", -1e4, 1e4), c.real("L", 10, 3e4)
    ux, uy = direction(c)
    return ff.FEMNode(1, x, y), ff.FEMNode(2, x + L * ux, y + L * uy), L, (ux, uy)


def material(c):
    return NS(young=c.real("E", 1e3, 3e5), shear_modulus=c.real("G", 1e3, 1e5))


def section(c):
    I = [c.real("Iy", 1e3, 1e9), c.real("Iz", 1e3, 1e9)]
    return NS(A=c.real("A", 10, 1e5), I=I, Iy=I[0], Iz=I[1], It=c.real("It", 1, 1e8), J=None)


def beam(c, cls="EBBeam", **k):
    m = c.mod(SR if cls == "EBSemiRigidBeam" else EB)
    n1, n2, L, u = nodes(c)
    e = getattr(m, cls)(n1, n2, section(c), material(c), **k)
    return e, L, u


def rows(k):
    return [[k[i][j] for j in range(len(k[i]))] for i in range(len(k))]


def symmetric(c, k, name="stiffness"):
    n = len(k)
    c.eq(name + " is symmetric", [k[i][j] for i in range(n) for j in range(i)], [k[j][i] for i in range(n) for j in range(i)])


def dot(k, u):
    return [sum(k[i][j] * u[j] for j in range(len(u))) for i in range(len(k))]


def exact_beam(E, A, I, L, a1=1, a2=1, b=1, D=1):
    """stiffness of a beam whose ends have rotational stiffness; a1 = 1 + 3 g2, a2 = 1 + 3 g1, b = 1 are the end factors over D"""
    k11, k22, k12 = 4 * E * I / L * a1 / D, 4 * E * I / L * a2 / D, 2 * E * I / L * b / D
    s1, s2 = (k11 + k12) / L, (k22 + k12) / L
    s = (s1 + s2) / L
    EA = E * A / L
    return [[EA, 0, 0, -EA, 0, 0],
            [0, s, s1, 0, -s, s2],
            [0, s1, k11, 0, -s1, k12],
            [-EA, 0, 0, EA, 0, 0],
            [0, -s, -s1, 0, s, -s2],
            [0, s2, k12, 0, -s2, k22]]


def rigid_motions(L, u):
    """translations and the rotation about the first node, in global axes"""
    return {"x": [1, 0, 0, 1, 0, 0], "y": [0, 1, 0, 0, 1, 0], "rotation": [0, 0, 1, -L * u[1], L * u[0], 1]}


@harness()
def geometry(c):
    e, L, u = beam(c)
    c.eq("length", e.length(), L)
    c.eq("direction cosines", list(e.direction_cosines()), list(u))
    T = e.transformation_matrix()
    c.eq("T T' = 1", [dot(rows(T), [T[j][k] for k in range(6)]) for j in range(6)], [[1 if i == j else 0 for i in range(6)] for j in range(6)])
    c.eq("axial direction", [T[0][i] for i in range(6)], [u[0], u[1], 0, 0, 0, 0])
    c.eq("transverse direction", [T[1][i] for i in range(6)], [-u[1], u[0], 0, 0, 0, 0])


@harness()
def moved_geometry(c):
    """with initial=False the geometry is that of the current coordinates"""
    e, L, u = beam(c)
    ux, uy = direction(c, "t now")
    L2 = c.real("L now", 10, 3e4)
    for n, x in zip(e.nodes, ((1.0, 2.0), (1.0 + L2 * ux, 2.0 + L2 * uy))):
        n.X[0], n.X[1] = x
    c.eq("initial length", e.length(), L)
    c.eq("current length", e.length(False), L2)
    T = e.transformation_matrix(False)
    c.eq("current direction", [T[0][0], T[0][1], T[1][0], T[1][1]], [ux, uy, -uy, ux])


@harness()
def beam_local(c):
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    k = rows(e.local_stiffness_matrix(E, A, I, L))
    c.eq("exact beam stiffness", k, exact_beam(E, A, I, L))
    c.eq("asked again", rows(e.local_stiffness_matrix(E, A, I, L)), exact_beam(E, A, I, L))


@harness()
def beam_global(c):
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    K = rows(e.stiffness_matrix())
    symmetric(c, K)
    for name, r in rigid_motions(L, u).items():
        c.eq("no force under rigid motion " + name, dot(K, r), [0] * 6, scale=1e12)
    k = exact_beam(E, A, I, L)
    ux, uy = u
    T = [[ux, uy, 0], [-uy, ux, 0], [0, 0, 1]]
    for a in (0, 3):
        for b in (0, 3):
            want = [[sum(T[m][i] * k[a + m][b + n] * T[n][j] for m in range(3) for n in range(3)) for j in range(3)] for i in range(3)]
            c.eq("block %d %d is T' k T" % (a // 3, b // 3), [K[a + i][b:b + 3] for i in range(3)], want)


@harness()
def beam_released(c):
    """the released force is zero and the rest is the beam with that condition condensed out"""
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    used = c.choice("stiffness was asked before the release", [False, True])
    if used:
        e.local_stiffness_matrix(E, A, I, L)
    rel = c.choice("released", [[2], [5]])
    e.releases = rel
    k = rows(e.local_stiffness_matrix(E, A, I, L))
    symmetric(c, k)
    c.eq("released force", k[rel[0]], [0] * 6)
    b, h = 3 * E * I / L ** 3, (5 if rel == [2] else 2)
    c.eq("stiffness of the other end", k[h][h], 3 * E * I / L)
    c.eq("shear from the rotation of the other end", k[1][h], 3 * E * I / L ** 2)
    c.eq("shear stiffness", k[1][1], b)
    c.eq("axial stiffness", k[0][0], E * A / L)
    ends(c, k, L)


@harness()
def beam_hinged_both_ends(c):
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    e.releases = [2, 5]
    k = rows(e.local_stiffness_matrix(E, A, I, L))
    a = E * A / L
    c.eq("only axial stiffness is left", k, [[(a if i == j else -a) if i % 3 == 0 and j % 3 == 0 else 0 for j in range(6)] for i in range(6)], scale=1e12)


def ends(c, k, L):
    """the end forces of every column are in equilibrium"""
    for j in range(6):
        c.eq("axial equilibrium %d" % j, k[0][j] + k[3][j], 0, scale=1e12)
        c.eq("transverse equilibrium %d" % j, k[1][j] + k[4][j], 0, scale=1e12)
        c.eq("moment equilibrium %d" % j, k[2][j] + k[5][j] + L * k[4][j], 0, scale=1e12)


@harness()
def beam_equilibrium(c):
    e, L, u = beam(c)
    k = rows(e.local_stiffness_matrix(e.material.young, e.section.A, e.section.I[0], L))
    ends(c, k, L)


@harness()
def beam_internal_forces(c):
    """section forces at the ends are the end forces of the displaced element, by the sign rule: tension, sagging"""
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    q = [c.real("q%d" % i, -100, 100) for i in range(6)]
    ux, uy = u
    for n, a in zip(e.nodes, (0, 3)):
        n.u[0] = c.array([ux * q[a] - uy * q[a + 1], uy * q[a] + ux * q[a + 1], q[a + 2]])
    e.add_loadcase(0)
    c.eq("local displacements", list(e.local_displacements(0)), q, scale=1e3)
    e.internal_forces(0)
    R = dot(exact_beam(E, A, I, L), q)
    f = e.fint[0]
    sc = 1e9
    c.eq("axial force", list(f["fx"]), [-R[0], R[3]], scale=sc)
    c.eq("bending moment", list(f["my"]), [-R[2], R[5]], scale=sc)
    c.eq("shear force", list(f["fz"]), [R[1], -R[4]], scale=sc)


@harness()
def semi_rigid_local(c):
    """rotational springs at the ends condensed out; a rigid end is the limit"""
    ends_ = c.choice("ends", ["springs", "rigid first", "rigid second", "rigid"])
    c1, c2 = c.real("c1", 1, 1e15), c.real("c2", 1, 1e15)
    inf = float("inf")
    rs = [inf if ends_ in ("rigid first", "rigid") else c1, inf if ends_ in ("rigid second", "rigid") else c2]
    e, L, u = beam(c, "EBSemiRigidBeam", rot_stiff=list(rs))
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    g = [0 if r is inf or r == inf else E * I / L / r for r in rs]
    D = (1 + 4 * g[0]) * (1 + 4 * g[1]) - 4 * g[0] * g[1]
    k = rows(e.local_stiffness_matrix(E, A, I, L))
    c.eq("condensed stiffness", k, exact_beam(E, A, I, L, 1 + 3 * g[1], 1 + 3 * g[0], 1, D))


@harness()
def semi_rigid_changed(c):
    """a stiffness of the springs changed after use is taken into account"""
    e, L, u = beam(c, "EBSemiRigidBeam", rot_stiff=[c.real("c1", 1, 1e15), 1e12])
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    e.local_stiffness_matrix(E, A, I, L)
    e.rot_stiff = [c.real("new c1", 1, 1e15), 1e10]
    g = [E * I / L / r for r in e.rot_stiff]
    D = (1 + 4 * g[0]) * (1 + 4 * g[1]) - 4 * g[0] * g[1]
    c.eq("condensed stiffness", rows(e.local_stiffness_matrix(E, A, I, L)), exact_beam(E, A, I, L, 1 + 3 * g[1], 1 + 3 * g[0], 1, D))


@harness()
def semi_rigid_global(c):
    e, L, u = beam(c, "EBSemiRigidBeam", rot_stiff=[c.real("c1", 1, 1e15), float("inf")])
    ux, uy = u
    k = exact_beam(*[c.real(n, 1, 1e6) for n in ("e", "a", "i", "l")])
    e.local_stiffness_matrix = lambda *a: c.array(k)
    K = rows(e.stiffness_matrix())
    T = [[ux, uy, 0], [-uy, ux, 0], [0, 0, 1]]
    for a in (0, 3):
        for b in (0, 3):
            want = [[sum(T[m][i] * k[a + m][b + n] * T[n][j] for m in range(3) for n in range(3)) for j in range(3)] for i in range(3)]
            c.eq("block %d %d is T' k T" % (a // 3, b // 3), [K[a + i][b:b + 3] for i in range(3)], want)


@harness()
def semi_rigid_internal_forces(c):
    e, L, u = beam(c, "EBSemiRigidBeam", rot_stiff=[c.real("c1", 1, 1e15), float("inf")])
    k = exact_beam(*[c.real(n, 1, 1e6) for n in ("e", "a", "i", "l")])
    e.local_stiffness_matrix = lambda *a: c.array(k)
    q = [c.real("q%d" % i, -100, 100) for i in range(6)]
    ux, uy = u
    for n, a in zip(e.nodes, (0, 3)):
        n.u[0] = c.array([ux * q[a] - uy * q[a + 1], uy * q[a] + ux * q[a + 1], q[a + 2]])
    e.add_loadcase(0)
    e.internal_forces(0)
    R = dot(k, q)
    f = e.fint[0]
    c.eq("axial force", list(f["fx"]), [-R[0], R[3]], scale=1e9)
    c.eq("bending moment", list(f["my"]), [-R[2], R[5]], scale=1e9)
    c.eq("shear force", list(f["fz"]), [R[1], -R[4]], scale=1e9)


# ------------------------------------------------------------------ geometric stiffness
@harness()
def geometric(c):
    """consistent geometric stiffness: symmetric, no force under translation, P/L times the transverse displacement under rotation"""
    e, L, u = beam(c)
    e.add_loadcase(0)
    P = c.real("P", -1e7, 1e7)
    e.fint[0]["fx"] = [c.real("P other end", -1e7, 1e7), P]
    k = rows(e.local_geometric_stiffness_matrix())
    symmetric(c, k)
    v = [1, 2, 4, 5]
    w = P / (30 * L)
    want = [[36, 3 * L, -36, 3 * L], [3 * L, 4 * L ** 2, -3 * L, -L ** 2], [-36, -3 * L, 36, -3 * L], [3 * L, -L ** 2, -3 * L, 4 * L ** 2]]
    for i in range(6):
        for j in range(6):
            c.eq("g %d %d" % (i, j), k[i][j], w * want[v.index(i)][v.index(j)] if i in v and j in v else 0)
    c.eq("rigid rotation: transverse force P per unit angle", dot(k, [0, 0, 1, 0, L, 1]), [0, -P, 0, 0, P, 0], scale=1e12)
    K = rows(e.geometric_stiffness_matrix())
    symmetric(c, K, "global geometric stiffness")


@harness()
def second_order(c):
    """the exact second-order stiffness of a compressed beam: for every solution a sin kx + b cos kx + c x + d of the
    beam-column equation the end forces are those of that deflection line"""
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    k = c.real("k", 1e-5, 0.6)
    lam = k * L
    c.assume(lam >= 0.3)
    c.assume(lam <= 6)
    e.add_loadcase(0)
    P = E * I * k ** 2
    e.fint[0]["fx"] = [c.real("P other end", -1e7, 1e7), -P]
    s, co = c.sin(lam), c.cos(lam)
    c.assume(2 - 2 * co - lam * s >= 1e-3)
    K = rows(e.local_second_order_stiffness_matrix())
    symmetric(c, K, "second-order stiffness")
    lines = {"sine": ([0, 0, k, 0, s, k * co], [0, 0, 0, 0, 0, -E * I * k ** 2 * s]),
             "cosine": ([0, 1, 0, 0, co, -k * s], [0, 0, E * I * k ** 2, 0, 0, -E * I * k ** 2 * co]),
             "slope": ([0, 0, 1, 0, L, 1], [0, P, 0, 0, -P, 0]),
             "constant": ([0, 1, 0, 0, 1, 0], [0] * 6)}
    for n, (q, f) in lines.items():
        c.eq(n, dot(K, q), f, scale=1e12)
    c.eq("axial stiffness", [K[0][0], K[0][3], K[3][3]], [E * A / L, -E * A / L, E * A / L])


@harness()
def second_order_tension(c):
    """tension members keep the first-order stiffness"""
    e, L, u = beam(c)
    E, A, I = e.material.young, e.section.A, e.section.I[0]
    e.add_loadcase(0)
    e.fint[0]["fx"] = [0, c.real("P", 0, 1e7)]
    c.eq("first-order stiffness", rows(e.local_second_order_stiffness_matrix()), exact_beam(E, A, I, L))


# ------------------------------------------------------------------ rods and springs
def axial(c, cls, dim):
    ff = c.mod(FF)
    x = [c.real("x%d" % i, -1e4, 1e4) for i in range(dim)]
    L = c.real("L", 10, 3e4)
    if dim == 2:
        u = direction(c)
    else:
        a, b = direction(c, "t"), direction(c, "s")
        u = (a[0] * b[0], a[0] * b[1], a[1])
    n1, n2 = ff.FEMNode(1, *x), ff.FEMNode(2, *[p + L * q for p, q in zip(x, u)])
    if cls == "Rod":
        s, m = section(c), material(c)
        return c.mod(RO).Rod(n1, n2, s, m), L, u, m.young * s.A / L
    k = c.real("k", 1e-3, 1e9)
    return c.mod(SP).LinearSpring(n1, n2, k), L, u, k


def axial_harness(cls, dim):
    @harness(name="%s_%dd" % (cls, dim))
    def _(c):
        e, L, u, k = axial(c, cls, dim)
        K = rows(e.stiffness_matrix())
        symmetric(c, K)
        n = dim
        c.eq("stiffness", K, [[k * u[i % n] * u[j % n] * (1 if (i < n) == (j < n) else -1) for j in range(2 * n)] for i in range(2 * n)])
        for i in range(n):
            c.eq("no force under translation %d" % i, dot(K, [1 if j % n == i else 0 for j in range(2 * n)]), [0] * (2 * n), scale=1e12)
        e.add_loadcase(0)
        q = [[c.real("u%d%d" % (a, i), -100, 100) for i in range(n)] for a in range(2)]
        for nd, v in zip(e.nodes, q):
            nd.u[0] = c.array(v + [0.0] * (len(nd.dofs) - n))
        e.internal_forces(lcase=0)
        N = k * sum(u[i] * (q[1][i] - q[0][i]) for i in range(n))
        c.eq("axial force", list(e.fint[0]["fx"]), [N, N], scale=1e12)


def axial_geometric(cls):
    @harness(name=cls + "_geometric")
    def _(c):
        """the force across the displaced rod: P / L times its transverse displacement"""
        e, L, u, k = axial(c, cls, 2)
        P = c.real("P", -1e7, 1e7)
        e.add_loadcase(0)
        e.fint[0]["fx"] = [P, P]
        K = rows(e.geometric_stiffness_matrix())
        n = (-u[1], u[0])
        c.eq("geometric stiffness", K, [[P / L * n[i % 2] * n[j % 2] * (1 if (i < 2) == (j < 2) else -1) for j in range(4)] for i in range(4)])


for _c in ("Rod", "LinearSpring"):
    axial_geometric(_c)
    for _d in (2, 3):
        axial_harness(_c, _d)


# ------------------------------------------------------------------ three-dimensional beam
def beam3d(c):
    ff, m = c.mod(FF), c.mod(EB)
    x, L = [c.real("x%d" % i, -1e4, 1e4) for i in range(3)], c.real("L", 10, 3e4)
    return ff, m, x, L


@harness()
def beam3d_local(c):
    ff, m, x, L = beam3d(c)
    e = m.EBBeam3D(ff.FEMNode(1, *x), ff.FEMNode(2, x[0] + L, x[1], x[2]), section(c), material(c))
    s, E, G = e.section, e.material.young, e.material.shear_modulus
    k = rows(e.local_stiffness_matrix())
    symmetric(c, k)
    want = [[0] * 12 for _ in range(12)]

    def put(ix, a):
        for i, p in enumerate(ix):
            for j, q in enumerate(ix):
                want[p][q] = want[p][q] + a[i][j]
    one = [[1, -1], [-1, 1]]
    put((0, 6), [[E * s.A / L * v for v in r] for r in one])
    put((3, 9), [[G * s.It / L * v for v in r] for r in one])
    for I, ix, sg in ((s.Iz, (1, 5, 7, 11), 1), (s.Iy, (2, 4, 8, 10), -1)):
        b = exact_beam(E, 1, I, L)
        p = (1, 2, 4, 5)
        sgn = (1, sg, 1, sg)
        put(ix, [[b[p[i]][p[j]] * sgn[i] * sgn[j] for j in range(4)] for i in range(4)])
    c.eq("exact stiffness of a spatial beam", k, want)


def orientation(name, end):
    @harness(name="beam3d_axes_" + name)
    def _(c):
        ff, m, x, L = beam3d(c)
        d = end(c, L)
        e = m.EBBeam3D(ff.FEMNode(1, *x), ff.FEMNode(2, *[a + b for a, b in zip(x, d)]), section(c), material(c))
        T = rows(e.transformation_matrix())
        c.eq("local x axis along the member", T[0][:3], [v / L for v in d])
        c.eq("orthogonal", [dot([r[:3] for r in T[:3]], T[j][:3]) for j in range(3)], [[1, 0, 0], [0, 1, 0], [0, 0, 1]], tol=1e-6)
        c.eq("the same for all four blocks", [[T[b + i][b + j] for i in range(3) for j in range(3)] for b in (3, 6, 9)], [[T[i][j] for i in range(3) for j in range(3)]] * 3)


orientation("x", lambda c, L: (L, 0, 0))
orientation("y", lambda c, L: (0, L, 0))
orientation("z", lambda c, L: (0, 0, L))


def _xz(c, L):
    u = direction(c)
    c.assume(u[0] ** 2 >= 0.01)
    return (L * u[0], 0, L * u[1])


orientation("xz_plane", _xz)


def _any(c, L):
    t, b = c.real("t", 0.05, 20), c.real("s", -50, 50)
    a = ((1 - t ** 2) / (1 + t ** 2), 2 * t / (1 + t ** 2))
    b = ((1 - b ** 2) / (1 + b ** 2), 2 * b / (1 + b ** 2))
    c.assume((a[1] * b[0]) ** 2 + a[0] ** 2 >= 0.01)
    return (L * a[1] * b[0], L * a[1] * b[1], L * a[0])


orientation("any", _any)


def rigid3d(name, end):
    @harness(name="beam3d_global_" + name)
    def _(c):
        ff, m, x, L = beam3d(c)
        d = end(c, L)
        e = m.EBBeam3D(ff.FEMNode(1, *x), ff.FEMNode(2, *[a + b for a, b in zip(x, d)]), section(c), material(c))
        K = rows(e.stiffness_matrix())
        symmetric(c, K)
        for i in range(3):
            c.eq("no force under translation %d" % i, dot(K, [1 if j % 6 == i else 0 for j in range(12)]), [0] * 12, scale=1e12)
            w = [1 if j == i else 0 for j in range(3)]
            v = [w[1] * d[2] - w[2] * d[1], w[2] * d[0] - w[0] * d[2], w[0] * d[1] - w[1] * d[0]]
            c.eq("no force under rotation %d" % i, dot(K, [0, 0, 0] + w + v + w), [0] * 12, scale=1e14)
        s, E = e.section, e.material.young
        c.eq("axial stiffness", sum(K[i][j] * d[i] * d[j] for i in range(3) for j in range(3)) / L ** 2, E * s.A / L)


rigid3d("x", lambda c, L: (L, 0, 0))
rigid3d("y", lambda c, L: (0, L, 0))
rigid3d("z", lambda c, L: (0, 0, L))
rigid3d("xz_plane", _xz)


@harness()
def beam3d_internal_forces(c):
    ff, m, x, L = beam3d(c)
    e = m.EBBeam3D(ff.FEMNode(1, *x), ff.FEMNode(2, x[0] + L, x[1], x[2]), section(c), material(c))
    T = rows(e.transformation_matrix())
    q = [c.real("u%d" % i, -100, 100) for i in range(12)]
    e.nodes[0].u[0], e.nodes[1].u[0] = c.array(q[:6]), c.array(q[6:])
    e.add_loadcase(0)
    e.internal_forces(lcase=0)
    R = dot(rows(e.local_stiffness_matrix()), dot(T, q))
    f = e.fint[0]
    c.eq("axial force", list(f["fx"]), [-R[0], R[6]], scale=1e9)
    c.eq("moment about y", list(f["my"]), [-R[4], R[10]], scale=1e9)
    c.eq("torsion", list(f["mx"]), [-R[3], R[9]], scale=1e9)
    c.eq("shear force z", list(f["fz"]), [R[2], -R[8]], scale=1e9)
    c.eq("shear force y", list(f["fy"]), [-R[1], R[7]], scale=1e9)
