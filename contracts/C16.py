"""C16: numbering of degrees of freedom, assembly, supports, solution and its distribution to the nodes."""
from types import SimpleNamespace as NS

import numpy as np

EL = "metku.framefem.elements.%s"
FF = "metku.framefem.framefem"
BOUND = "model topologies listed in MODELS (up to 4 nodes and 4 elements), every element matrix, load and support pattern listed"

# nodes (x, y[, z]); elements (kind, node, node); the nodes that only have translations
MODELS = {
    "cantilever": ([(0, 0), (3, 0)], [("beam", 0, 1)], []),
    "portal": ([(0, 0), (0, 3), (4, 3)], [("beam", 0, 1), ("beam", 1, 2)], []),
    "triangle truss": ([(0, 0), (4, 0), (2, 3)], [("rod", 0, 1), ("rod", 1, 2), ("rod", 2, 0)], [0, 1, 2]),
    "beam with a tie": ([(0, 0), (4, 0), (0, 3)], [("beam", 0, 1), ("rod", 2, 1)], [2]),
    "spring at the tip": ([(0, 0), (4, 0), (4, -2)], [("spring", 2, 1), ("semi", 0, 1)], [2]),
    "element against the numbering": ([(4, 0), (0, 0)], [("beam", 1, 0), ("rod", 0, 1)], []),
    "unconnected node": ([(0, 0), (9, 9), (4, 0)], [("beam", 0, 2)], []),
    "spatial truss": ([(0, 0, 0), (4, 0, 1)], [("rod", 0, 1)], [0, 1]),
    "spatial beam": ([(0, 0, 0), (4, 0, 1)], [("beam3", 0, 1)], []),
}
SMALL = [k for k in MODELS if k not in ("spatial beam",)]
KIND = {"beam": ("ebbeam", "EBBeam"), "semi": ("eb_semi_rigid_beam", "EBSemiRigidBeam"), "rod": ("rod", "Rod"),
        "spring": ("springs", "LinearSpring"), "beam3": ("ebbeam", "EBBeam3D")}


def element(c, kind, a, b):
    m, n = KIND[kind]
    cls = getattr(c.mod(EL % m), n)
    if kind == "spring":
        return cls(a, b, 10.0)
    return cls(a, b, NS(A=10.0, I=[5.0, 2.0], Iy=5.0, Iz=2.0, It=1.0), NS(young=100.0, shear_modulus=40.0))


def symmetric(c, tag, n):
    """any symmetric matrix, strong on its diagonal"""
    v = {}
    for i in range(n):
        for j in range(i, n):
            v[i, j] = c.real("%s %d %d" % (tag, i, j), 20, 40) if i == j else c.real("%s %d %d" % (tag, i, j), -1, 1)
    return [[v[min(i, j), max(i, j)] for j in range(n)] for i in range(n)]


def nil(x):
    """is the number zero whatever the inputs are"""
    from pyvc import terms as T
    return T.nf_zero(x.n) if hasattr(x, "n") else x == 0


def own(kind, n):
    """the element's degrees of freedom at a node"""
    d = len(n.dofs)
    return d if kind in ("beam", "semi", "beam3") else len(n.coord)


class Model:
    def __init__(self, c, name, real=False):
        ff = self.ff = c.mod(FF)
        self.c = c
        pts, els, self.trusslike = MODELS[name]
        self.fem = ff.FrameFEM()
        for p in pts:
            self.fem.add_node(*[float(x) for x in p])
        self.kinds, self.k, self.F = [], [], {}
        for kind, a, b in els:
            self.add(kind, a, b, real)
        self.calls, self.zeros = [], []

    def zero(self, r):
        """r, less one of the equations that were solved if that leaves nothing"""
        if self.c.symbolic:
            from pyvc import terms as T
            for z in self.zeros:
                if hasattr(z, "n") and hasattr(r, "n") and T.nf_zero((r - z).n):
                    return r - z
        return r

    def add(self, kind, a, b, real=False):
        n = self.fem.nodes
        e = element(self.c, kind, n[a], n[b])
        self.kinds.append(kind)
        if not real:
            m = 2 * own(kind, n[a])
            k = symmetric(self.c, "k%d" % len(self.k), m)
            self.k.append(k)
            e.stiffness_matrix = lambda initial=True, k=k: self.c.array(k)
            e.internal_forces = lambda lcase=0, initial=True, e=e: self.calls.append((e, lcase, [list(x.u[lcase]) for x in e.nodes]))
        self.fem.add_element(e)

    # ---- what the model means, in unknowns (node, component)
    def unknowns(self):
        """connected components of the nodes, each once"""
        r = []
        for n in self.fem.nodes:
            most = max([own(k, n) for k, e in zip(self.kinds, self.fem.elements) if n in e.nodes], default=0)
            r += [(self.fem.nodes.index(n), i) for i in range(most)]
        return r

    def el_unknowns(self, i):
        e = self.fem.elements[i]
        return [(self.fem.nodes.index(n), j) for n in e.nodes for j in range(own(self.kinds[i], n))]

    def stiffness(self, mats=None):
        K = {}
        for i, k in enumerate(mats or self.k):
            u = self.el_unknowns(i)
            for a, p in enumerate(u):
                for b, q in enumerate(u):
                    K[p, q] = K.get((p, q), 0) + k[a][b]
        return K

    def dof(self, p):
        return self.fem.nodes[p[0]].dofs[p[1]]

    # ---- loads
    def point(self, sid, node, tag):
        n = self.fem.nodes[node]
        v = [self.c.real("%s %d" % (tag, i), -50, 50) for i in range(len(n.dofs))]
        l = self.ff.PointLoad(sid, n, v, self.c.real(tag + " factor", -2, 2))
        self.fem.add_load(l)
        for i, x in enumerate(v):
            self.F.setdefault(sid, []).append(((node, i), l.f * x))

    def line(self, sid, el, tag):
        e = self.fem.elements[el]
        n = len(self.el_unknowns(el))
        v = [self.c.real("%s %d" % (tag, i), -50, 50) for i in range(n)]
        e.equivalent_nodal_loads = lambda load, order=1, initial=True: self.c.array(v)
        self.fem.add_load(self.ff.LineLoad(sid, e, [0, 1], [1.0, 1.0], "y"))
        for p, x in zip(self.el_unknowns(el), v):
            self.F.setdefault(sid, []).append((p, x))

    def load(self, sid):
        p = {}
        for q, x in self.F.get(sid, []):
            p[q] = p.get(q, 0) + x
        return p

    def solver(self):
        """np.linalg.solve by its contract: some u with A u = b"""
        c = self.c

        def solve(A, b):
            n, cols = len(A), (len(b[0]) if getattr(b, "ndim", 1) == 2 else None)
            self.n = getattr(self, "n", 0) + 1
            rhs = lambda i: list(b[i]) if cols else [b[i]]
            # a row that reads u_i = 0 fixes u_i
            fixed = [all(nil(A[i][k]) for k in range(n) if k != i) and nil(A[i][i] - 1) and all(map(nil, rhs(i))) for i in range(n)]
            u = [[0 if fixed[i] else c.real("u%d %d %d" % (self.n, i, j), -1e9, 1e9) for j in range(cols or 1)] for i in range(n)]
            # A u = b: each of these is zero
            self.zeros += [sum(A[i][k] * u[k][j] for k in range(n)) - (b[i][j] if cols else b[i])
                           for i in range(n) for j in range(cols or 1)]
            return c.array(u if cols else [r[0] for r in u])
        self.zeros.clear()
        c.stub(c.mod(FF).np.linalg, "solve", solve)


def numbering(c, M, tag=""):
    u = M.unknowns()
    nums = sorted(int(M.dof(p)) for p in u)
    c.same("every unknown has its own number" + tag, nums, list(range(M.fem.dofs)))
    c.same("components without stiffness have none" + tag,
           [int(n.dofs[i]) for k, n in enumerate(M.fem.nodes) for i in range(len(n.dofs)) if (k, i) not in u],
           [-1 for k, n in enumerate(M.fem.nodes) for i in range(len(n.dofs)) if (k, i) not in u])


@harness(bounded=BOUND)
def degrees_of_freedom(c):
    M = Model(c, c.choice("model", list(MODELS)))
    for i in range(c.choice("numbered again", [1, 2])):
        M.fem.nodal_dofs()
    numbering(c, M)
    if len(M.fem.nodes[0].coord) == 2:
        M.fem.add_node(9.0, 9.0)
        M.add("beam", len(M.fem.nodes) - 1, 0)
        M.fem.nodal_dofs()
        numbering(c, M, " after an element was added")


class Any(list):
    """a sequence of any length: its loop is decided by one round from an arbitrary state"""
    def __init__(self, item, before, after):
        super().__init__([item])
        self.before, self.after = before, after

    def __vc_iter__(self):
        self.before()
        yield self[0]
        self.after()


def numbering_round(dim):
    @harness(name="numbering_of_any_node_%dd" % dim)
    def _(c):
        """whatever was numbered before, the components of the next node follow on, each with its own number: by
        induction over the nodes the numbers are a bijection onto 0 .. dofs - 1"""
        ff = c.mod(FF)
        fem = ff.FrameFEM()
        n = ff.FEMNode(0, *[0.0] * dim)
        k = 3 if dim == 2 else 6
        used = c.choice("components", [(0, 1), (0, 1, 2), (), (0, 1, 2, 3, 4, 5)][:k])
        for i in used:
            if i < k:
                n.dofs[i] = c.choice("numbered before", [0, 4]) + i
        n.dofs = np.array([int(x) for x in n.dofs], dtype=object)
        s = c.integer("numbered so far", 0, 10 ** 6)
        fem.dofs, first = 7, [0]

        def before():
            c.eq("numbering starts at zero", fem.dofs, 0)
            fem.dofs = first[0] = s

        fem.nodes = Any(n, before, lambda: None)
        fem.nodal_dofs()
        start = fem.dofs - len([i for i in used if i < k])
        want, m = [], start
        for i in range(k):
            want.append(m if i in used else -1)
            m = m + (1 if i in used else 0)
        c.eq("the next numbers in order", list(n.dofs), want)
        c.eq("first of them" if used else "none", start, first[0])


numbering_round(2)
numbering_round(3)


@harness(bounded=BOUND)
def assembly(c):
    M = Model(c, c.choice("model", list(MODELS)))
    M.fem.nodal_dofs()
    last = len(M.fem.nodes) - 1
    M.line(2, 0, "line")
    M.point(2, last, "point")
    M.point(2, last, "other point")
    M.point(3, 0, "point of another case")
    for i in range(c.choice("asked before", [0, 1])):
        M.fem.global_stiffness_matrix(), M.fem.global_load_vector(2)
    K, p, G, f = M.fem.global_stiffness_matrix(), M.fem.global_load_vector(2), M.stiffness(), M.load(2)
    u = M.unknowns()
    c.same("size", (len(K), len(p)), (len(u), len(u)))
    for a in u:
        c.eq("load vector %s" % (a,), p[M.dof(a)], f.get(a, 0))
        for b in u:
            c.eq("stiffness %s %s" % (a, b), K[M.dof(a)][M.dof(b)], G.get((a, b), 0))
    h = {p: x for p, x in M.load(3).items() if p in u}
    c.eq("load vector of another case", [M.fem.global_load_vector(3)[M.dof(a)] for a in u], [h.get(a, 0) for a in u])


@harness(bounded=BOUND)
def other_matrices(c):
    """geometric and second-order matrices are assembled the same way"""
    M = Model(c, c.choice("model", [k for k in MODELS if k != "spatial beam"]))
    M.fem.nodal_dofs()
    g = []
    for i, e in enumerate(M.fem.elements):
        g.append(symmetric(c, "g%d" % i, len(M.k[i])))
        e.geometric_stiffness_matrix = lambda lcase=0, initial=True, k=g[-1]: c.array(k)
        e.second_order_stiffness_matrix = lambda lcase=0, k=g[-1]: c.array(k)
    u, G = M.unknowns(), M.stiffness(g)
    for name, K in (("geometric", M.fem.global_geometric_stiffness_matrix(2)), ("second order", M.fem.global_second_order_stiffness_matrix(2))):
        for a in u:
            c.eq("%s %s" % (name, a), [K[M.dof(a)][M.dof(b)] for b in u], [G.get((a, b), 0) for b in u])


SUPPORTS = {
    "clamped first node": [(0, None)],
    "pinned first, roller last": [(0, [0, 1]), (-1, [1])],
    "the same twice": [(0, [0, 1]), (0, [1]), (-1, [0, 1])],
    "last node clamped": [(-1, None)],
}


def support(M, name, sid=1):
    s = set()
    for n, d in SUPPORTS[name]:
        n = n % len(M.fem.nodes)
        d = list(range(len(M.fem.nodes[n].dofs))) if d is None else d
        M.fem.add_support(sid, n, d)
        s |= {(n, i) for i in d}
    return s


def solution(c, M, cases, supp, tag=""):
    """equilibrium at every free unknown, exact zeros at the supports, forces of every element after that"""
    u, K = M.unknowns(), M.stiffness()
    for lc in cases:
        p = M.load(lc)
        disp = {a: M.fem.nodes[a[0]].u[lc][a[1]] for a in u}
        for a in u:
            if a in supp:
                c.eq("supported %s case %s%s" % (a, lc, tag), disp[a], 0, tol=0)
            else:
                c.eq("equilibrium %s case %s%s" % (a, lc, tag), M.zero(sum(K.get((a, b), 0) * disp[b] for b in u) - p.get(a, 0)), 0, scale=1e3)
        for k, n in enumerate(M.fem.nodes):
            c.eq("no displacement without stiffness %d case %s%s" % (k, lc, tag), [n.u[lc][i] for i in range(len(n.dofs)) if (k, i) not in u],
                 [0 for i in range(len(n.dofs)) if (k, i) not in u])
        for e in M.fem.elements:
            got = [x for el, l, x in M.calls if el is e and l == lc]
            c.same("forces of every element%s" % tag, len(got), 1)
            c.eq("forces from the final displacements%s" % tag, [v for x in got[0] for v in x], [v for n in e.nodes for v in n.u[lc]])


def static(name):
    @harness(name="statics_" + name.replace(" ", "_"), bounded=BOUND)
    def _(c):
        M = Model(c, name)
        M.solver()
        other = c.choice("other support case", ["first", "last"])
        if other == "first":
            M.fem.add_support(7, len(M.fem.nodes) - 1, [0])
        s = support(M, c.choice("supports", list(SUPPORTS)))
        if other == "last":
            M.fem.add_support(7, len(M.fem.nodes) - 1, [0])
        M.point(2, len(M.fem.nodes) - 1, "point")
        cases = c.choice("cases", [2, [2], [2, 3]])
        M.fem.add_loadcase(1, 2)
        M.fem.add_loadcase(1, 3)
        if cases == [2, 3]:
            M.point(3, 0, "other case")
        m = c.choice("method", ["ZERO", "REM", None])
        M.fem.linear_statics(cases, **({"support_method": m} if m else {}))
        numbering(c, M)
        solution(c, M, [2] if cases == 2 else cases, s)


for _m in SMALL:
    static(_m)


@harness(bounded=BOUND, samples=20)
def statics_spatial_beam(c):
    M = Model(c, "spatial beam")
    M.solver()
    s = support(M, "clamped first node")
    M.point(2, 1, "point")
    M.fem.add_loadcase(1, 2)
    M.fem.linear_statics(2, support_method=c.choice("method", ["ZERO", "REM"]))
    solution(c, M, [2], s)


@harness(bounded=BOUND)
def analysed_again(c):
    """supports, elements, loads and load cases changed after an analysis"""
    M = Model(c, c.choice("model", ["cantilever", "portal", "beam with a tie"]))
    M.solver()
    s = support(M, "clamped first node")
    M.point(2, 1, "point")
    M.fem.add_loadcase(1, 2)
    m = c.choice("first method", ["ZERO", "REM"])
    M.fem.linear_statics(2, support_method=m)
    what = c.choice("changed", ["support", "element", "load", "load removed", "node and element"])
    if what == "support":
        M.fem.add_support(1, 1, [0, 1])
        s |= {(1, 0), (1, 1)}
    elif what == "element":
        M.add("rod", 1, 0)
    elif what == "node and element":
        M.fem.add_node(7.0, 7.0)
        M.add("beam", len(M.fem.nodes) - 1, 1)
    elif what == "load":
        M.point(2, 0, "added load")
        M.fem.loads[0].f = c.real("new factor", -2, 2)
        M.F[2][:3] = [((1, i), M.fem.loads[0].f * x) for i, x in enumerate(M.fem.loads[0].v)]
    else:
        M.fem.loads.clear()
        M.F.clear()
    M.calls.clear()
    M.fem.linear_statics(2, support_method=c.choice("second method", ["ZERO", "REM"]))
    solution(c, M, [2], s)


@harness(bounded=BOUND)
def second_order(c):
    """second-order analysis solves its own system for the same supports and loads"""
    M = Model(c, c.choice("model", ["cantilever", "portal"]))
    M.solver()
    g = []
    for i, e in enumerate(M.fem.elements):
        g.append(symmetric(c, "g%d" % i, len(M.k[i])))
        e.second_order_stiffness_matrix = lambda lcase=0, k=g[-1]: c.array(k)
        e.second_order_internal_forces = lambda lcase=0, e=e: M.calls.append((e, "II", [list(n.u2[lcase]) for n in e.nodes]))
    s = support(M, c.choice("supports", list(SUPPORTS)))
    M.point(2, 1, "point")
    M.fem.add_loadcase(1, 2)
    n = c.choice("analyses", [1, 2])
    for i in range(n):
        if i:
            M.fem.add_support(1, 1, [1])
            s |= {(1, 1)}
        M.calls.clear()
        M.fem.second_order_analysis(2, support_method=c.choice("method %d" % i, ["ZERO", "REM"]))
    u, K, p = M.unknowns(), M.stiffness(g), M.load(2)
    disp = {a: M.fem.nodes[a[0]].u2[2][a[1]] for a in u}
    for a in u:
        if a in s:
            c.eq("supported %s" % (a,), disp[a], 0, tol=0)
        else:
            c.eq("equilibrium %s" % (a,), M.zero(sum(K.get((a, b), 0) * disp[b] for b in u) - p.get(a, 0)), 0, scale=1e3)
    for e in M.fem.elements:
        got = [x for el, l, x in M.calls if el is e and l == "II"]
        c.same("forces of every element", len(got), 1)
        c.eq("forces from the final displacements", [v for x in got[0] for v in x], [v for n in e.nodes for v in n.u2[2]])


@harness(bounded=BOUND)
def buckling(c):
    """the eigenvalue problem is that of the free unknowns, and a mode moves no support"""
    M = Model(c, c.choice("model", ["cantilever", "portal"]))
    M.solver()
    g = []
    for i, e in enumerate(M.fem.elements):
        g.append(symmetric(c, "g%d" % i, len(M.k[i])))
        e.geometric_stiffness_matrix = lambda lcase=0, initial=True, k=g[-1]: c.array(k)
    asked = []

    def eigsh(A, k=6, M=None, **kw):
        asked.append((A, M))
        n = len(A)
        w = c.array([c.real("w%d" % i, 0.1, 100) for i in range(k)])
        return w, c.array([[c.real("mode%d %d" % (j, i), -1, 1) for j in range(k)] for i in range(n)])
    m = c.mod(FF)
    m.eigsh = eigsh
    s = support(M, c.choice("supports", ["clamped first node", "pinned first, roller last", "the same twice"]))
    M.point(2, 1, "point")
    M.fem.add_loadcase(1, 2)
    for i in range(c.choice("analyses", [1, 2])):
        asked.clear()
        w, modes, _ = M.fem.linear_buckling(2, k=2)
    u, K, G = M.unknowns(), M.stiffness(), M.stiffness(g)
    free = sorted([a for a in u if a not in s], key=M.dof)
    A, B = asked[0]
    c.same("size", (len(A), len(B)), (len(free), len(free)))
    for i, a in enumerate(free):
        c.eq("stiffness %s" % (a,), list(A[i]), [K.get((a, b), 0) for b in free])
        c.eq("geometric stiffness %s" % (a,), list(B[i]), [-G.get((a, b), 0) for b in free])
    for k, n in enumerate(M.fem.nodes):
        for j in range(2):
            c.eq("mode %d at node %d" % (j, k), list(n.v[j]), [modes[free.index((k, i))][j] if (k, i) in free else 0 for i in range(len(n.dofs))])
    c.eq("load factors", list(M.fem.load_factors), list(w))


@harness(bounded="triangle truss")
def truss_statics_matrix(c):
    """the statics matrix takes bar forces to the nodal forces that balance the loads"""
    M = Model(c, "triangle truss", real=True)
    for n in M.fem.nodes[1:]:
        n.coord[0] = n.coord[0] + c.real("dx%d" % n.nid, -0.5, 0.5)
    M.fem.nodal_dofs()
    s = support(M, "pinned first, roller last")
    B = M.fem.statics_matrix()
    free = sorted([a for a in M.unknowns() if a not in s], key=M.dof)
    c.same("rows", len(B), len(free))
    for i, e in enumerate(M.fem.elements):
        d = e.direction_cosines()
        for r, a in enumerate(free):
            n = M.fem.nodes[a[0]]
            want = 0 if n not in e.nodes else d[a[1]] * (-1 if n is e.nodes[0] else 1)
            c.eq("bar %d at %s" % (i, a), B[r][i], want)


@harness(concrete_only=True, bounded="sampled numeric check of whole models with real elements: reactions balance the loads", samples=40)
def whole_frame(c):
    """real elements and solver: the end forces of the elements balance the loads at every free node"""
    M = Model(c, c.choice("model", ["portal", "beam with a tie", "cantilever"]), real=True)
    for n in M.fem.nodes:
        n.coord[0] = n.coord[0] * 1000 + c.real("dx%d" % n.nid, -300, 300)
        n.coord[1] = n.coord[1] * 1000 + c.real("dy%d" % n.nid, -300, 300)
    for e in M.fem.elements:
        e.section = NS(A=c.real("A%d" % id(e), 1e3, 1e4) if False else 4000.0, I=[c.real("I%d" % M.fem.elements.index(e), 1e6, 1e8)] * 2)
        e.material = NS(young=210e3)
    M.fem.add_support(1, 0, [0, 1, 2])
    if "tie" in str(MODELS) and len(M.trusslike):
        M.fem.add_support(1, 2, [0, 1])
    M.fem.add_loadcase(1, 2)
    v = [c.real("F%d" % i, -1e5, 1e5) for i in range(3)]
    M.fem.add_load(M.ff.PointLoad(2, M.fem.nodes[1], v, 1.0))
    q = [c.real("q%d" % i, -50, 50) for i in range(2)]
    M.fem.add_load(M.ff.LineLoad(2, M.fem.elements[0], [0, 1], q, "y"))
    M.fem.linear_statics(2, support_method=c.choice("method", ["ZERO", "REM"]))
    a, b = M.fem.nodes[0], M.fem.nodes[1]
    F = [0, 0, 0]
    for k, e in zip(M.kinds, M.fem.elements):
        if b not in e.nodes:
            continue
        d, f, i = e.direction_cosines(), e.fint[2], e.nodes.index(b)
        s = 1 if i == 1 else -1
        F[0] += s * f["fx"][i] * d[0] + (s * f["fz"][i] * d[1] if k == "beam" else 0)
        F[1] += s * f["fx"][i] * d[1] - (s * f["fz"][i] * d[0] if k == "beam" else 0)
        if k == "beam":
            F[2] += s * f["my"][i]
    c.eq("equilibrium of the loaded node", F, v, tol=1e-6, scale=1e8)
