"""C15: element load vectors are the exact fixed-end forces of the line loads, add up, and balance the internal forces."""
from types import SimpleNamespace as NS

EB = "metku.framefem.elements.ebbeam"
SR = "metku.framefem.elements.eb_semi_rigid_beam"
FF = "metku.framefem.framefem"


def direction(c, tag="t"):
    t = c.real(tag, -50, 50)
    d = 1 + t ** 2
    sg = c.choice("side", [1, -1])
    return sg * (1 - t ** 2) / d, sg * 2 * t / d


def beam(c, cls="EBBeam", **k):
    ff, m = c.mod(FF), c.mod(SR if cls == "EBSemiRigidBeam" else EB)
    x, y, L = c.real("x1", -1e4, 1e4), c.real("y1", -1e4, 1e4), c.real("L", 10, 3e4)
    u = direction(c)
    I = [c.real("Iy", 1e3, 1e9), c.real("Iz", 1e3, 1e9)]
    sec = NS(A=c.real("A", 10, 1e5), I=I, Iy=I[0], Iz=I[1], It=1e4, E=7.0)
    e = getattr(m, cls)(ff.FEMNode(1, x, y), ff.FEMNode(2, x + L * u[0], y + L * u[1]), sec, NS(young=c.real("E", 1e3, 3e5), shear_modulus=8e4), **k)
    e.add_loadcase(2)
    return ff, e, L, u


def load(c, ff, e, sid=2, tag="", f=None, coords=None, dir=None):
    l = ff.LineLoad(sid, e, [0, 1], [c.real("q1" + tag, -100, 100), c.real("q2" + tag, -100, 100)],
                    dir or c.choice("direction" + tag, ["x", "y"]), coords or c.choice("axes" + tag, ["local", "global"]))
    l.f = c.real("f" + tag, -3, 3) if f is None else f
    return l


def ends(q1, q2, L):
    """shear and moment of a beam with clamped ends, load from q1 to q2 along the transverse axis"""
    return (7 * q1 + 3 * q2) * L / 20, (3 * q1 + 2 * q2) * L ** 2 / 60, (3 * q1 + 7 * q2) * L / 20, -(2 * q1 + 3 * q2) * L ** 2 / 60


def components(l, u):
    """unit load in the axes of the element"""
    if l.coords == "local":
        return (1, 0) if l.dir == "x" else (0, 1)
    return (u[0], -u[1]) if l.dir == "x" else (u[1], u[0])


def fixed(l, u, L):
    ax, tr = components(l, u)
    q1, q2 = l.f * l.qval[0], l.f * l.qval[1]
    v1, m1, v2, m2 = ends(q1 * tr, q2 * tr, L)
    return [ax * L * (2 * q1 + q2) / 6, v1, m1, ax * L * (q1 + 2 * q2) / 6, v2, m2]


def to_global(f, u):
    r = []
    for a in (0, 3):
        r += [u[0] * f[a] - u[1] * f[a + 1], u[1] * f[a] + u[0] * f[a + 1], f[a + 2]]
    return r


SC = 1e9


def fixed_ends(cls, **k):
    @harness(name=cls + "_fixed_ends")
    def _(c):
        """equivalent nodal loads of a clamped element: exact, so also statically equivalent"""
        ff, e, L, u = beam(c, cls, **{a: list(b) for a, b in k.items()})
        l = load(c, ff, e)
        F = fixed(l, u, L)
        c.eq("nodal loads", list(e.equivalent_nodal_loads(l)), to_global(F, u), scale=SC)
        c.eq("kept for the internal forces", list(e.floc[2]), F, scale=SC)


fixed_ends("EBBeam")
fixed_ends("EBSemiRigidBeam", rot_stiff=[1e25, 1e25])


def resultant(cls, **k):
    @harness(name=cls + "_resultant")
    def _(c):
        """the same force and moment as the load, for any end conditions"""
        ff, e, L, u = beam(c, cls, **{a: list(b) for a, b in k.items()})
        if cls == "EBBeam":
            e.releases = c.choice("releases", [[], [2], [5], [2, 5]])
        else:
            e.rot_stiff = [c.real("c1", 1, 1e15), c.real("c2", 1, 1e15)]
        l = load(c, ff, e)
        F = list(e.equivalent_nodal_loads(l))
        q1, q2 = l.f * l.qval[0], l.f * l.qval[1]
        if l.coords == "global":
            d = (1, 0) if l.dir == "x" else (0, 1)
        else:
            d = u if l.dir == "x" else (-u[1], u[0])
        for i in (0, 1):
            c.eq("force %d" % i, F[i] + F[3 + i], (q1 + q2) / 2 * L * d[i], scale=SC)
        arm = (u[0] * d[1] - u[1] * d[0]) * L ** 2 * (q1 + 2 * q2) / 6
        c.eq("moment about the first node", F[2] + F[5] + L * (u[0] * F[4] - u[1] * F[3]), arm, scale=1e12)


resultant("EBBeam")
resultant("EBSemiRigidBeam", rot_stiff=[1e12, 1e12])


@harness()
def released(c):
    """a hinge at one end: the clamped end takes the moment of a propped cantilever, at any time the release is set"""
    ff, e, L, u = beam(c)
    if c.choice("stiffness asked before", [False, True]):
        e.stiffness_matrix()
    h = c.choice("hinge", [2, 5])
    if c.choice("stiffness asked with another release", [False, True]):
        e.releases = [7 - h]
        e.stiffness_matrix()
    e.releases = [h]
    l = load(c, ff, e)
    F = fixed(l, u, L)
    m = F[h]
    want = [F[0], F[1] - 1.5 * m / L, 0, F[3], F[4] + 1.5 * m / L, 0]
    want[7 - h] = F[7 - h] - m / 2
    e.equivalent_nodal_loads(l)
    c.eq("fixed end forces with a hinge", list(e.floc[2]), want, scale=SC)


@harness()
def semi_rigid(c):
    """ends with rotational springs: the rotations behind the springs under the load, then the forces"""
    ff, e, L, u = beam(c, "EBSemiRigidBeam", rot_stiff=[c.real("c1", 1, 1e15), c.real("c2", 1, 1e15)])
    c1, c2 = e.rot_stiff
    l = load(c, ff, e)
    F = fixed(l, u, L)
    k = e.material.young * e.section.I[0] / L
    a, b, d = 4 * k + c1, 2 * k, 4 * k + c2
    D = a * d - b * b
    r1, r2 = (d * F[2] - b * F[5]) / D, (a * F[5] - b * F[2]) / D
    s = 6 * k / L * (r1 + r2)
    e.equivalent_nodal_loads(l)
    c.eq("fixed end forces with springs", list(e.floc[2]), [F[0], F[1] - s, c1 * r1, F[3], F[4] + s, c2 * r2], scale=SC)


@harness()
def second_order(c):
    """uniform load on a compressed beam with clamped ends: fixed end moments of the beam-column q / k^2 (1 - kL/2 cot kL/2)"""
    ff, e, L, u = beam(c)
    k = c.real("k", 1e-5, 0.6)
    c.assume(k * L >= 0.3)
    c.assume(k * L <= 6)
    P = e.material.young * e.section.I[0] * k ** 2
    e.fint[2]["fx"] = [-P, -P]
    s, co = c.sin(k * L / 2), c.cos(k * L / 2)
    c.assume(s >= 1e-3)
    l = load(c, ff, e)
    l.qval[1] = l.qval[0]
    e.equivalent_nodal_loads(l, order=2)
    F = fixed(l, u, L)
    m = l.f * l.qval[0] * components(l, u)[1] / k ** 2 * (1 - k * L / 2 * co / s)
    c.eq("fixed end forces", list(e.floc[2]), [F[0], F[1], m, F[3], F[4], -m], scale=SC)


@harness()
def second_order_tension(c):
    ff, e, L, u = beam(c)
    e.fint[2]["fx"] = [c.real("P", 0, 1e7), c.real("P2", 0, 1e7)]
    l = load(c, ff, e)
    e.equivalent_nodal_loads(l, order=2)
    c.eq("first-order fixed end forces", list(e.floc[2]), fixed(l, u, L), scale=SC)


# ------------------------------------------------------------------ loads of a model
def model(c):
    """one beam in a model; node dofs numbered by the model"""
    ff, e, L, u = beam(c)
    fem = ff.FrameFEM()
    fem.nodes += e.nodes
    fem.add_element(e)
    fem.nodal_dofs()
    return ff, fem, e, L, u


@harness()
def loads_add_up(c):
    """the load vector of a load case is the sum over its loads, whatever was asked before"""
    ff, fem, e, L, u = model(c)
    ls = [load(c, ff, e, 2, " a", coords="global"), load(c, ff, e, 2, " b", coords="local"), load(c, ff, e, 3, " other case", coords="global", dir="y")]
    p = ff.PointLoad(2, e.nodes[c.choice("node", [0, 1])], [c.real("F%d" % i, -1e5, 1e5) for i in range(3)], c.real("fp", -3, 3))
    for l in ls + [p]:
        fem.add_load(l)
    for _ in range(c.choice("asked before", [0, 1])):
        fem.global_load_vector(2)
        fem.global_load_vector(3)
    got = list(fem.global_load_vector(2))
    F = [a + b for a, b in zip(fixed(ls[0], u, L), fixed(ls[1], u, L))]
    want = to_global(F, u)
    k = 3 * fem.nodes.index(p.node)
    for i in range(3):
        want[k + i] = want[k + i] + p.f * p.v[i]
    c.eq("load vector", got, want, scale=SC)
    c.eq("local loads of the element", list(e.floc[2]), F, scale=SC)
    c.eq("load vector of the other case", list(fem.global_load_vector(3)), to_global(fixed(ls[2], u, L), u), scale=SC)
    c.eq("local loads are kept by case", list(e.floc[2]), F, scale=SC)


@harness()
def removed_load(c):
    """a load taken away leaves no trace in the internal forces"""
    ff, fem, e, L, u = model(c)
    a, b = load(c, ff, e, 2, " a", coords="global", dir="y"), load(c, ff, e, 2, " b", coords="local", dir="y")
    fem.loads = [a, b]
    fem.global_load_vector(2)
    fem.loads = [a] if c.choice("left", ["one", "none"]) == "one" else []
    fem.global_load_vector(2)
    z = c.array([0.0, 0.0, 0.0])
    for n in e.nodes:
        n.u[2] = z
    e.internal_forces(2)
    F = fixed(a, u, L) if fem.loads else [0] * 6
    f = e.fint[2]
    c.eq("internal forces", [f["fx"], f["my"], f["fz"]], [[F[0], -F[3]], [F[2], -F[5]], [-F[1], F[4]]], scale=SC)


def internal(cls):
    @harness(name=cls + "_internal_forces")
    def _(c):
        """section forces at the ends balance the loads on the element, whatever the displacements"""
        ff, e, L, u = beam(c, cls, **({"rot_stiff": [1e10, 1e12]} if cls != "EBBeam" else {}))
        ls = [load(c, ff, e, 2, " a", coords="global"), load(c, ff, e, 2, " b", coords="local")]
        for l in ls:
            e.equivalent_nodal_loads(l)
        q = [c.real("u%d" % i, -100, 100) for i in range(6)]
        for n, a in zip(e.nodes, (0, 3)):
            n.u[2] = c.array(q[a:a + 3])
        e.internal_forces(2)
        f = e.fint[2]
        ax = tr = mo = 0
        for l in ls:
            x, y = components(l, u)
            q1, q2 = l.f * l.qval[0], l.f * l.qval[1]
            ax, tr, mo = ax + x * (q1 + q2) / 2 * L, tr + y * (q1 + q2) / 2 * L, mo + y * (q1 + 2 * q2) / 6 * L ** 2
        c.eq("axial equilibrium", f["fx"][1] - f["fx"][0], -ax, scale=1e13)
        c.eq("transverse equilibrium", f["fz"][0] - f["fz"][1], -tr, scale=1e13)
        # moments of the end forces and the load about the first node
        c.eq("moment equilibrium", -f["my"][0] + f["my"][1] - L * f["fz"][1], -mo, scale=1e16)


internal("EBBeam")
internal("EBSemiRigidBeam")


@harness()
def internal_exact(c):
    """clamped ends: the section forces are the fixed-end forces"""
    ff, e, L, u = beam(c)
    l = load(c, ff, e)
    e.equivalent_nodal_loads(l)
    for n in e.nodes:
        n.u[2] = c.array([0.0, 0.0, 0.0])
    e.internal_forces(2)
    F, f = fixed(l, u, L), e.fint[2]
    c.eq("internal forces", [f["fx"], f["my"], f["fz"]], [[F[0], -F[3]], [F[2], -F[5]], [-F[1], F[4]]], scale=SC)


@harness()
def line_load_dofs(c):
    """only degrees of freedom of the model take load; each takes its own component"""
    ff, e, L, u = beam(c)
    num = c.choice("dofs", [(0, 1, 2, 3, 4, 5), (-1, -1, 2, 0, 1, -1), (3, -1, 7, -1, 8, 1), (-1,) * 6])
    for n, a in zip(e.nodes, (0, 3)):
        n.dofs = c.mod(FF).np.array(list(num[a:a + 3]))
    l = load(c, ff, e)
    F, d = l.load_and_dofs()
    w = to_global(fixed(l, u, L), u)
    c.eq("degrees of freedom", list(d), [k for k in num if k >= 0])
    c.eq("loads", list(F), [x for x, k in zip(w, num) if k >= 0], scale=SC)
    p = ff.PointLoad(2, e.nodes[0], [c.real("F%d" % i, -1e5, 1e5) for i in range(3)], c.real("fp", -3, 3))
    F, d = p.load_and_dofs()
    c.eq("degrees of freedom of a point load", list(d), [k for k in num[:3] if k >= 0])
    c.eq("point load", list(F), [p.f * x for x, k in zip(p.v, num) if k >= 0])


# ------------------------------------------------------------------ three-dimensional beam
def spatial(name, axes, d):
    @harness(name="beam3d_" + name)
    def _(c):
        ff, m = c.mod(FF), c.mod(EB)
        x, L = [c.real("x%d" % i, -1e4, 1e4) for i in range(3)], c.real("L", 10, 3e4)
        u = direction(c) if name == "xz_plane" else None
        if u:
            c.assume(u[0] ** 2 >= 0.01)
        v = d if u is None else (u[0], 0, u[1])
        sec = NS(A=c.real("A", 10, 1e5), Iy=c.real("Iy", 1e3, 1e9), Iz=c.real("Iz", 1e3, 1e9), It=1e4)
        e = m.EBBeam3D(ff.FEMNode(1, *x), ff.FEMNode(2, *[a + L * b for a, b in zip(x, v)]), sec, NS(young=1e5, shear_modulus=8e4))
        e.add_loadcase(2)
        T = e.transformation_matrix()
        l = load(c, ff, e, dir=c.choice("direction", ["x", "y", "z"]), coords=axes)
        q1, q2 = l.f * l.qval[0], l.f * l.qval[1]
        k = "xyz".index(l.dir)
        unit = [1 if i == k else 0 for i in range(3)] if axes == "local" else [T[i][k] for i in range(3)]
        y, z = ends(q1 * unit[1], q2 * unit[1], L), ends(q1 * unit[2], q2 * unit[2], L)
        want = [unit[0] * L * (2 * q1 + q2) / 6, y[0], z[0], 0, -z[1], y[1], unit[0] * L * (q1 + 2 * q2) / 6, y[2], z[2], 0, -z[3], y[3]]
        G = list(e.equivalent_nodal_loads(l))
        c.eq("fixed end forces", list(e.floc[2]), want, scale=SC)
        c.eq("nodal loads in global axes", G, [sum(T[j][i] * want[j] for j in range(12)) for i in range(12)], scale=SC)
        # statically equivalent
        f = [T[0][i] * unit[0] + T[1][i] * unit[1] + T[2][i] * unit[2] for i in range(3)]
        c.eq("force", [G[i] + G[6 + i] for i in range(3)], [(q1 + q2) / 2 * L * f[i] for i in range(3)], scale=SC)
        cr = lambda a, b: [a[1] * b[2] - a[2] * b[1], a[2] * b[0] - a[0] * b[2], a[0] * b[1] - a[1] * b[0]]
        arm = [L * s for s in v]
        c.eq("moment about the first node", [G[3 + i] + G[9 + i] + w for i, w in enumerate(cr(arm, G[6:9]))],
             [(q1 + 2 * q2) / 6 * L * w for w in cr(arm, f)], scale=1e12)


for _a in ("local", "global"):
    spatial("x_" + _a, _a, (1, 0, 0))
    spatial("y_" + _a, _a, (0, 1, 0))
    spatial("z_" + _a, _a, (0, 0, 1))
spatial("xz_plane", "global", None)
