"""C27: the frame model -- its finite element model, what members read from it, and how they are designed."""
import math
import os
import re
import shutil
import tempfile
from types import SimpleNamespace as NS

import numpy as np

FM = "metku.raami.frame_member"
FN = "metku.raami.frame_node"
FS = "metku.raami.frame_supports"
FL = "metku.raami.frame_loads"
RA = "metku.raami.raami"
FF = "metku.framefem.framefem"
EL = "metku.framefem.elements."
BT = "frames of the topologies listed in FRAMES, one to three elements per member, every position of the nodes"
BN = "up to three elements per member and three load cases"

# nodes, members (kind, node, node)
FRAMES = {
    "portal": ([(0, 0), (0, 3), (4, 3), (4, 0)], [("column", 0, 1), ("beam", 1, 2), ("column", 3, 2)]),
    "braced": ([(0, 0), (0, 3), (4, 3)], [("column", 0, 1), ("brace", 0, 2), ("beam", 2, 1)]),
    "truss": ([(0, 0), (4, 0), (2, 1)], [("bottom_chord", 0, 1), ("top_chord", 0, 2), ("bar", 2, 1), ("top_chord", 1, 2)]),
    "one": ([(1, 2), (5, 1)], [("beam", 0, 1)]),
}
ROD = ("bar", "brace")


class Sec(NS):
    def self_weight(self):
        return self.g

    def __hash__(self):
        return id(self)

    def __eq__(self, o):
        return self is o


def section(i=0):
    return Sec(A=10.0 + i, I=[5.0, 2.0], Iy=5.0 + i, Iz=2.0, g=3.0 + i, name="section %d" % i, density=7.0,
               material=NS(young=100.0 + i, name="material %d" % i))


def nodes_at(c, pts, exact=False):
    n = c.mod(FN).FrameNode
    return [n([x + (0 if exact else c.real("dx%d" % i, -0.4, 0.4)), y + (0 if exact else c.real("dy%d" % i, -0.4, 0.4))])
            for i, (x, y) in enumerate(pts)]


class Frame:
    def __init__(self, c, name, nel=None, hinges=None, exact=False):
        m = c.mod(FM)
        self.F = c.mod(RA).Raami()
        pts, mems = FRAMES[name]
        self.nodes = nodes_at(c, pts, exact)
        for n in self.nodes:
            self.F.add(n)
        self.members = []
        for i, (kind, a, b) in enumerate(mems):
            k = {"nel": nel[i % len(nel)]} if nel else {}
            if hinges and i in hinges:
                k["hinges"] = list(hinges[i])
            self.members.append(m.FrameMember([self.nodes[a], self.nodes[b]], section(i), mem_type=kind, **k))
            self.F.add(self.members[-1])
        self.kinds = [k for k, a, b in mems]
        self.hinges = [hinges.get(i, (False, False)) if hinges else (False, False) for i in range(len(mems))]
        self.nel = [m.num_elements for m in self.members]


def at(c, name, node, want):
    c.eq(name, list(node.coord), list(want))


def modelled(c, W, tag="", sections=None):
    """the finite element model of the frame"""
    fem, eb, rod = W.F.fem, c.mod(EL + "ebbeam").EBBeam, c.mod(EL + "rod").Rod
    c.same("number of nodes" + tag, len(fem.nodes), len(W.nodes) + sum(n - 1 for n in W.nel))
    c.same("number of elements" + tag, len(fem.elements), sum(W.nel))
    c.same("one finite element node for each node" + tag, len({id(n.fem_node) for n in W.nodes}), len(W.nodes))
    for i, n in enumerate(W.nodes):
        c.same("node of the model %d%s" % (i, tag), any(n.fem_node is f for f in fem.nodes), True)
        at(c, "place of node %d%s" % (i, tag), n.fem_node, [n.x, n.y])
    c.same("numbers of the nodes" + tag, [n.nid for n in fem.nodes], list(range(len(fem.nodes))))
    own, els = [], []
    for i, m in enumerate(W.members):
        ns = m.fem_nodes
        c.same("ends of member %d%s" % (i, tag), (ns[0] is m.nodes[0].fem_node, ns[-1] is m.nodes[1].fem_node), (True, True))
        c.same("nodes of member %d%s" % (i, tag), len(ns), W.nel[i] + 1)
        a, b = m.nodes
        for j, f in enumerate(ns):
            t = j / W.nel[i]
            at(c, "node %d of member %d%s" % (j, i, tag), f, [a.x + t * (b.x - a.x), a.y + t * (b.y - a.y)])
        own += ns[1:-1]
        c.same("elements of member %d%s" % (i, tag), [(e.nodes[0] is p, e.nodes[1] is q) for e, p, q in zip(m.fem_elements, ns, ns[1:])],
               [(True, True)] * W.nel[i])
        sec = sections[i] if sections else m.cross_section
        for e in m.fem_elements:
            c.same("element of member %d%s" % (i, tag), (type(e) is (rod if W.kinds[i] in ROD else eb), e.section is sec, e.material is sec.material), (True,) * 3)
        h = W.hinges[i]
        for j, e in enumerate(m.fem_elements):
            c.same("hinges of member %d element %d%s" % (i, j, tag), sorted(e.releases),
                   ([2] if h[0] and j == 0 else []) + ([5] if h[1] and j == W.nel[i] - 1 else []))
        els += m.fem_elements
    c.same("inner nodes belong to one member" + tag, len({id(x) for x in own + [n.fem_node for n in W.nodes]}), len(fem.nodes))
    c.same("every element once" + tag, sorted(map(id, els)), sorted(map(id, fem.elements)))


HINGES = {"none": None, "first": {0: (True, False)}, "last": {1: (False, True)}, "both": {1: (True, True), 0: (True, True)}}


def model_of(name):
    @harness(name="model_of_" + name, bounded=BT, budget=300)
    def _(c):
        nel = c.choice("elements", [[1], [2], [3, 1], [1, 2, 3], None])
        W = Frame(c, name, nel, HINGES[c.choice("hinges", list(HINGES) if name != "one" else ["none", "first"])])
        for r in range(c.choice("generated", [1, 2])):
            W.F.generate_fem()
        modelled(c, W)
        if c.choice("then a member", [False, True]):
            n = c.mod(FN).FrameNode(9, 9)
            W.F.add(n)
            W.nodes.append(n)
            m = c.mod(FM).FrameMember([W.nodes[0], n], section(9), mem_type="column", nel=2)
            W.F.add(m)
            W.members.append(m), W.kinds.append("column"), W.hinges.append((False, False)), W.nel.append(2)
            W.F.generate_fem()
            modelled(c, W, " with one member more")


for _n in FRAMES:
    model_of(_n)


@harness(bounded=BT)
def added_hinges(c):
    """a hinge added to one member is not one of another"""
    m, ns = c.mod(FM), nodes_at(c, FRAMES["portal"][0])
    cls = getattr(m, c.choice("kind", ["FrameMember", "MultiSpanMember"]))
    a, b = cls(ns[:2], section()), cls(ns[1:3], section(), lcr=[0.9, 0.9])
    loc = c.choice("end", [0, 1])
    if cls is m.FrameMember:
        a.add_hinge(loc)
    else:
        a.hinges[loc] = True
    a.lcr[0] = 0.5
    d = cls(ns[2:], section())
    c.same("hinges", (list(a.hinges), list(b.hinges), list(d.hinges)), ([loc == 0, loc == 1], [False] * 2, [False] * 2))
    c.eq("buckling lengths", list(a.lcr) + list(b.lcr) + list(d.lcr), [0.5, 1.0, 0.9, 0.9, 1.0, 1.0])


SUPP = {"FixedSupport": [0, 1, 2], "XYHingedSupport": [0, 1], "XHingedSupport": [0], "YHingedSupport": [1]}


@harness(bounded=BT)
def supports_and_loads(c):
    """supports hold their degrees of freedom at their node; every load is in its own load case"""
    s, l = c.mod(FS), c.mod(FL)
    W = Frame(c, c.choice("frame", ["portal", "truss"]), c.choice("elements", [[1], [3, 2]]))
    kinds = [c.choice("first support", list(SUPP)), c.choice("second support", list(SUPP))]
    where = c.choice("second at", [1, -1])
    for k, n in zip(kinds, [W.nodes[0], W.nodes[where]]):
        W.F.add(getattr(s, k)(n))
    v = [c.real("v%d" % i, -9, 9) for i in range(3)]
    q = [c.real("q%d" % i, -9, 9) for i in range(2)]
    f = [c.real("f%d" % i, -2, 2) for i in range(2)]
    W.F.add(l.PointLoad(W.nodes[1], v, load_id=3, f=f[0]))
    W.F.add(l.LineLoad(W.members[1], q, "y", load_id=c.choice("line load in case", [3, 5]), f=f[1], coord_sys="local"))
    for r in range(c.choice("generated", [1, 2])):
        W.F.generate_fem()
    fem = W.F.fem
    c.same("supports", [(x.sid, fem.nodes.index(x.node), sorted(x.dof)) for x in fem.supports],
           [(1, W.nodes.index(n), SUPP[k]) for k, n in zip(kinds, [W.nodes[0], W.nodes[where]])])
    c.eq("do not move", [x.val for x in fem.supports], [0, 0])
    ids = sorted({o.load_id for o in W.F.loads.values()})
    c.same("load cases", sorted((k, x.support, x.load) for k, x in fem.loadcases.items()), [(i, 1, i) for i in ids])
    p = [x for x in fem.loads if type(x).__name__ == "PointLoad"]
    c.same("point load", [(x.sid, x.node is W.nodes[1].fem_node) for x in p], [(3, True)])
    c.eq("its vector", [p[0].f * x for x in p[0].v], [f[0] * x for x in v])
    ln = [x for x in fem.loads if type(x).__name__ == "LineLoad"]
    es = W.members[1].fem_elements
    c.same("line load on every element", [(x.sid, x.elem is e, x.dir, x.coords) for x, e in zip(ln, es)],
           [(list(W.F.loads.values())[1].load_id, True, "y", "local")] * len(es))
    c.same("once", (len(ln), len(fem.loads)), (len(es), len(es) + 1))
    for i, x in enumerate(ln):
        c.eq("its values %d" % i, list(x.qval), [f[1] * (q[0] + (q[1] - q[0]) * k / len(es)) for k in (i, i + 1)])
        c.eq("over the element %d" % i, list(x.xloc), [0, 1])


@harness(bounded=BT)
def moved_nodes(c):
    """moving a node moves everything that hangs on it"""
    W = Frame(c, c.choice("frame", list(FRAMES)), c.choice("elements", [[1], [3, 2]]))
    designed = c.choice("designed", [True, False])
    if designed:
        for m in W.members:
            m.member = NS(length=m.length(), profile=m.cross_section, lcr=m.lcr)
    gen = c.choice("generated", [True, False])
    if gen:
        W.F.generate_fem()
    n = W.nodes[c.choice("which", [0, 1])]
    x, y = c.real("x", -9, -6), c.real("y", -9, -6)
    n.x = x
    if c.choice("again", [True, False]):
        n.x = x - 1
        x = x - 1
    n.y = y
    c.eq("the node", [n.x, n.y], [x, y])
    for i, m in enumerate(W.members):
        (x0, y0), (x1, y1) = ([p.x, p.y] for p in m.nodes)
        L = c.sqrt((x1 - x0) ** 2 + (y1 - y0) ** 2)
        c.eq("length %d" % i, m.length(), L)
        if designed:
            c.eq("length of the designed member %d" % i, m.member.length, L)
        for j, p in enumerate(m.global_node_coords):
            t = j / W.nel[i]
            c.eq("point %d of member %d" % (j, i), list(p), [x0 + t * (x1 - x0), y0 + t * (y1 - y0)])
        c.same("points of member %d" % i, len(m.global_node_coords), W.nel[i] + 1)
    if gen:
        modelled(c, W)
    else:
        W.F.generate_fem()
        modelled(c, W)


@harness()
def whole_numbers(c):
    """a node given in whole numbers is at any place it is moved to, the numbers it was given stay"""
    given = np.array([1, 2])
    n = c.mod(FN).FrameNode(given) if c.choice("given as", ["array", "numbers"]) == "array" else c.mod(FN).FrameNode(1, 2)
    x, y = c.real("x", -9, 9), c.real("y", -9, 9)
    f = c.mod(FF).FEMNode(0, 1, 2)
    for o in (n, f):
        o.x = x
        o.y = y
        c.eq("place", [o.x, o.y], [x, y])
    c.same("given", [int(v) for v in given], [1, 2])


@harness()
def geometry_of_a_member(c):
    """length, direction and local coordinates of any member"""
    ns = [c.mod(FN).FrameNode([c.real("x%d" % i, -1e3, 1e3), c.real("y%d" % i, -1e3, 1e3)]) for i in range(2)]
    (x0, y0), (x1, y1) = ([n.x, n.y] for n in ns)
    dx, dy = x1 - x0, y1 - y0
    L2 = dx ** 2 + dy ** 2
    c.assume(L2 > 1)
    S = section()
    S.A, S.density = c.real("A", 1, 1e3), c.real("density", 0, 10)
    m = c.mod(FM).FrameMember(ns, S, nel=2)
    L = m.length()
    c.eq("length", L ** 2, L2)
    c.ge("length", L, 0)
    c.eq("direction", [L * v for v in m.dir_vector], [dx, dy])
    p = list(m.perpendicular)
    c.eq("perpendicular", [L * p[0], L * p[1]], [dy, -dx])
    c.eq("weight", m.weight(), S.A * S.density * L)
    t = c.real("t", -1, 2)
    q = m.local_to_global(t)
    c.eq("local to global", list(q), [x0 + t * dx, y0 + t * dy])
    c.eq("and back", m.global_to_local(q), t, tol=1e-9)
    c.same("the other end", (m.opposite_node(ns[0]) is ns[1], m.opposite_node(ns[1]) is ns[0]), (True, True))
    c.eq("coordinates", [v for x in m.coords() for v in x], [x0, y0, x1, y1])


@harness()
def inclination(c):
    """the angle to the horizontal, in [0, pi)"""
    x, y = c.real("dx", -1e3, 1e3), c.real("dy", -1e3, 1e3)
    steep = c.choice("vertical", [True, False])
    c.assume(y ** 2 > 1)
    if steep:
        x = 0.0
    else:
        c.assume(x ** 2 > 1)
    n = c.mod(FN).FrameNode
    m = c.mod(FM).FrameMember([n([5.0, 7.0]), n([5.0 + x, 7.0 + y])], section(), nel=1)
    a = m.angle
    c.ge("not below zero", a, 0)
    c.lt("below pi", a, c.pi)
    if steep:
        c.eq("vertical", a, c.pi / 2)
    else:
        base = c.atan(y / x)
        c.eq("angle", a, base if y / x > 0 else base + c.pi)


# ------------------------------------------------------------------ sections
class Steel:
    """stands for the steel member that designs: SteelMember is under contract in C05 to C07"""
    def __init__(self, m, design=None):
        self.profile, self.lcr, self.length = m.cross_section, m.lcr, m.length()
        self.frame_member, self.sections, self.f = m, {}, design
        for t in m.local_node_coords:
            self.sections[t] = {"N": 0.0, "Vz": 0.0, "My": 0.0}

    def design(self, sway=None):
        return self.f(self, sway)

    def slenderness(self):
        return self.slender(self.profile)

    def cost(self):
        return 7.0


@harness(bounded=BT)
def changed_sections(c):
    """the elements and the designed member of every member concerned get the section, no others"""
    m = c.mod(FM)
    W = Frame(c, "portal", c.choice("elements", [[1], [3, 2]]), exact=True)
    designed = c.choice("designed", [(0, 1, 2), (), (0,), (2,)])
    for i in designed:
        W.members[i].member = Steel(W.members[i])
    gen = c.choice("generated", ["before", "after"])
    if gen == "before":
        W.F.generate_fem()
    old = [x.cross_section for x in W.members]
    new = section(7)
    how = c.choice("changed", ["member", "pair", "other of the pair", "group", "group of one", "grown group", "material"])
    if "pair" in how:
        W.members[0].symmetry_pair, W.members[2].symmetry_pair = W.members[2], W.members[0]
    if how == "member" or how == "pair":
        W.members[0].cross_section = new
    elif how == "other of the pair":
        W.members[2].cross_section = new
    elif how == "material":
        W.members[0].material = "M"
        c.same("material", (W.members[0].cross_section.material, W.members[0].material), ("M", "M"))
        c.same("others keep theirs", [x.material.name for x in W.members[1:]], ["material 1", "material 2"])
        return
    else:
        g = m.MemberGroup([W.members[0], W.members[2]] if how == "group" else [W.members[0]] if how == "group of one" else [])
        if how == "grown group":
            g.add_member(W.members[2])
            g.add_member(W.members[0])
        c.same("no members of another group", len(m.MemberGroup().members), 0)
        c.same("frame of the group", g.frame is W.F, True)
        g.cross_section = new
        c.same("section of the group", g.cross_section is new, True)
    concerned = {"member": [0], "group of one": [0]}.get(how, [0, 2])
    want = [new if i in concerned else o for i, o in enumerate(old)]
    if gen == "after":
        W.F.generate_fem()
    if how.startswith("gro") and how != "group of one":
        want[0] = want[2] = new
    c.same("sections", [x.cross_section.name for x in W.members], [s.name for s in want])
    c.same("sections of the elements", [[e.section.name for e in x.fem_elements] for x in W.members],
           [[s.name] * n for s, n in zip(want, W.nel)])
    for i in designed:
        c.same("section of the designed member %d" % i, W.members[i].member.profile.name, want[i].name)


def spans(c, n, nel=2, **k):
    """a multi-span member with its frame and model"""
    m, F = c.mod(FM), c.mod(RA).Raami()
    ns = [c.mod(FN).FrameNode([4.0 * i + c.real("x%d" % i, -0.5, 0.5), 1.0]) for i in range(n + 1)]
    for x in ns:
        F.add(x)
    M = m.MultiSpanMember(ns, section(), mem_id="B", nel=nel, **k)
    M.members = [m.FrameMember([a, b], M.cross_section, nel=e) for a, b, e in zip(ns, ns[1:], M.num_elements)]
    M.frame = F
    for x in M.members:
        x.frame = F
    return M, F, ns


@harness(bounded="two or three spans of one to three elements")
def members_of_several_spans(c):
    n = c.choice("spans", [2, 3])
    nel = c.choice("elements", [1, 2, [1, 3, 2]])
    h = c.choice("hinges", [(False, False), (True, False), (False, True), (True, True)])
    M, F, ns = spans(c, n, nel[:n] if isinstance(nel, list) else nel, hinges=list(h))
    for r in range(c.choice("generated", [1, 2])):
        F.clear_fem()
        M.clear_fem()
        for x in ns:
            x.fem_node = F.fem.add_node(x.x, x.y)
        M.generate_elements(F.fem)
    count = [nel] * n if isinstance(nel, int) else nel[:n]
    c.same("elements", [e.name if False else id(e) for e in M.fem_elements], [id(e) for x in M.members for e in x.fem_elements])
    c.same("of every span", [len(x.fem_elements) for x in M.members], count)
    c.same("of the model", [id(e) for e in F.fem.elements], [id(e) for e in M.fem_elements])
    chain = [M.fem_elements[0].nodes[0]] + [e.nodes[1] for e in M.fem_elements]
    c.same("one chain", [e.nodes[0] is p for e, p in zip(M.fem_elements, chain)], [True] * sum(count))
    c.same("hinges only at the ends", [sorted(e.releases) for e in M.fem_elements],
           [([2] if h[0] and i == 0 else []) + ([5] if h[1] and i == sum(count) - 1 else []) for i in range(sum(count))])
    new = section(5)
    M.cross_section = new
    c.same("section of all elements", [e.section is new for e in M.fem_elements], [True] * sum(count))
    c.same("and spans", [x.cross_section is new for x in M.members] + [M.cross_section is new], [True] * (n + 1))
    M.lcr = [0.7, 0.8]
    c.eq("buckling lengths", [v for x in M.members for v in x.lcr], [0.7, 0.8] * n)
    L = ns[-1].x - ns[0].x
    c.eq("length", M.length(), L)
    c.eq("weight", M.weight(), L * new.A * new.density)
    t = c.real("t", 0, 1)
    p = M.local_to_global(t)
    c.eq("place", list(p), [ns[0].x + t * L, 1.0])
    c.eq("and back", M.global_to_local(p), t, tol=1e-9)
    us = [c.real("u%d" % i, 0, 3) for i in range(n)]
    for x, u in zip(M.members, us):
        x.design = lambda lc, x=x, u=u: x.utilization.__setitem__(lc, u)
    cls = c.mod(FM).MultiSpanSteelMember
    cls.design(M, 4)
    c.eq("the worst span", M.utilization[4], c.max(*us))
    c.ensures("passes", M.resistance_check == all(u <= 1 for u in us))


# ------------------------------------------------------------------ what members read from the analysis
class Read:
    """one member with the given forces in its elements"""
    def __init__(self, c, nel, cases, free=None):
        m = c.mod(FM)
        self.nodes = [c.mod(FN).FrameNode([1.0, 2.0]), c.mod(FN).FrameNode([5.0, -1.0])]
        if c.choice("drawn from", ["left", "right"]) == "right":
            self.nodes.reverse()
        self.m = m.FrameMember(self.nodes, section(), nel=nel)
        self.F = c.mod(RA).Raami()
        for n in self.nodes:
            self.F.add(n)
        self.F.add(self.m)
        self.F.generate_fem()
        self.F.load_ids = list(cases)
        self.want = {}
        for lc in cases:
            w = self.want[lc] = {k: [] for k in ("N", "Vz", "My")}
            for j, e in enumerate(self.m.fem_elements):
                e.fint[lc] = {"fy": [1e9, 1e9], "mx": [1e9, 1e9], "mz": [1e9, 1e9]}
                for k, g in (("N", "fx"), ("Vz", "fz"), ("My", "my")):
                    v = [c.real("%s %s %d %d" % (lc, g, j, i), -50, 50) if free in (None, k) else 100.0 * lc + j + 0.5 * i for i in range(2)]
                    e.fint[lc][g] = v
                    w[k].append(v[0])
                    if j == nel - 1:
                        w[k].append(v[1])


def biggest(c, v):
    return c.max(*v) if len(v) > 1 else v[0]


def extreme(c, vals):
    return biggest(c, [abs(v) for v in vals])


@harness(bounded=BN)
def forces_along_a_member(c):
    """in the order of the axis, with the largest by absolute value as the design value"""
    nel = c.choice("elements", [1, 2, 3])
    free = c.choice("force", ["N", "Vz", "My"])
    X = Read(c, nel, [2, 4] if nel < 2 else [2], free)
    for lc in X.want:
        X.F.calc_nodal_forces(lc)
    for lc, w in X.want.items():
        got = X.m.nodal_forces[lc]
        for k in w:
            c.eq("%s case %d" % (k, lc), list(got[k]), w[k])
        for k, d in (("N", X.m.NEd), ("Vz", X.m.VzEd), ("My", X.m.MyEd)):
            if k == free:
                c.eq("size of %sEd case %d" % (k, lc), abs(d[lc]), extreme(c, w[k]))
                c.ensures("%sEd is one of the forces, case %d" % (k, lc), any_of([d[lc] == v for v in w[k]]))


def any_of(bs):
    r = bs[0]
    for b in bs[1:]:
        r = r | b
    return r


@harness(bounded="two elements per member")
def displacements_along_a_member(c):
    X = Read(c, c.choice("elements", [1, 2, 3]), [2])
    ns = list(X.m.fem_nodes)
    for i, n in enumerate(ns):
        n.u[2] = [c.real("u%d %d" % (i, j), -5, 5) for j in range(3)]
        n.u[4] = [0.0, 0.0, 0.0]
    if c.choice("nodes stored", ["in order", "the other way"]) == "the other way":
        X.m.fem_nodes.reverse()
    X.F.calc_nodal_displacements(2)
    c.same("number", len(X.m.nodal_displacements[2]), len(ns))
    for i, n in enumerate(ns):
        c.eq("displacement %d" % i, list(X.m.nodal_displacements[2][i]), list(n.u[2]))


@harness(bounded="three sections and up to two load cases")
def extreme_forces(c):
    """minimum and maximum of every force over the nodes and the load cases, with the forces of the same place"""
    m = c.mod(FM).FrameMember([c.mod(FN).FrameNode([0.0, 0.0]), c.mod(FN).FrameNode([1.0, 0.0])], section(), nel=1)
    cases = c.choice("cases", [[1], [1, 2], [2, 1]])
    given = c.choice("asked", ["of the frame", "given"])
    m.frame = NS(load_ids=cases if given == "of the frame" else [7])
    k = c.choice("force", ["N", "Vz", "My"])
    for lc in (1, 2, 9):
        m.nodal_forces[lc] = {q: [c.real("%s %d %d" % (q, lc, i), -9, 9) if q == k else (100.0 * lc + i) for i in range(2)]
                              for q in ("N", "Vz", "My")}
    if c.choice("a case without forces", [True, False]):
        cases = cases + [55]
        if given == "of the frame":
            m.frame.load_ids = cases
    r = m.get_max_forces(None if given == "of the frame" else cases)
    vals = [(lc, i, m.nodal_forces[lc][k][i]) for lc in cases if lc != 55 for i in range(2)]
    for f, pick, worse in (("min", c.min, lambda a, b: a <= b), ("max", c.max, lambda a, b: a >= b)):
        got = r["%s %s" % (f, k)]
        c.eq("%s %s" % (f, k), got[k], pick(*[v for _, _, v in vals]))
        hits = [(got[k] == v) & all_same(got, lc, i, m, k) for lc, i, v in vals]
        c.ensures("%s: the forces of that place and case" % f, any_of(hits))


def all_same(got, lc, i, m, k):
    return all(got[q] == m.nodal_forces[lc][q][i] for q in ("N", "Vz", "My") if q != k) and got["load_id"] == lc


# ------------------------------------------------------------------ design
class Designed:
    """steel members whose design is stubbed by arbitrary utilizations"""
    def __init__(self, c, n=1, nel=2):
        m = self.mod = c.mod(FM)
        self.calls = []

        class Stub(Steel):
            def __init__(s, profile, length, Lcr=None, mtype=None):
                s.profile, s.length, s.lcr, s.type, s.sections = profile, length, Lcr, mtype, {}

            def add_section(s, loc=0.0):
                s.sections[loc] = {"N": 0.0, "Vz": 0.0, "My": 0.0}
        c.stub(m, "SteelMember", Stub, concrete=True)
        self.F = c.mod(RA).Raami()
        self.members = []
        for i in range(n):
            ns = [c.mod(FN).FrameNode([0.0, 3.0 * i]), c.mod(FN).FrameNode([4.0, 3.0 * i + 1])]
            x = m.SteelFrameMember(ns, section(i), nel=nel, sway=i == 1, lcr=[0.9, 0.8])
            x.index = i
            x.member.design = lambda sway=None, x=x: self.design(x, sway)
            self.F.add(x)
            self.members.append(x)

    def design(self, x, sway):
        s = x.member.sections
        seen = [(t, s[t]["N"], s[t]["Vz"], s[t]["My"]) for t in sorted(s)]
        self.calls.append((x, sway, seen))
        return self.answer(x, seen)


def forces(c, D, cases, nel=2):
    for x in D.members:
        for lc in cases:
            x.nodal_forces[lc] = {k: [c.real("%s %d %d %d" % (k, x.index, lc, i), -9, 9) for i in range(nel + 1)] for k in ("N", "Vz", "My")}


@harness(bounded=BN)
def design_forces(c):
    """each section of the designed member has the forces of its own place"""
    nel = c.choice("elements", [1, 2, 3])
    D = Designed(c, 2, nel)
    D.answer = lambda x, seen: 0.5 + x.index
    forces(c, D, [3, 6], nel)
    for lc in c.choice("cases", [[3], [3, 6], [6, 3]]):
        D.calls.clear()
        D.F.design_members(lc)
        c.same("every member once", [k[0].index for k in D.calls], [0, 1])
        for x, sway, seen in D.calls:
            w = x.nodal_forces[lc]
            c.same("sway", sway, x.index == 1)
            c.same("sections", len(seen), nel + 1)
            for j, s in enumerate(seen):
                c.eq("section %d of member %d case %d" % (j, x.index, lc), list(s), [j / nel, w["N"][j], w["Vz"][j], w["My"][j]])
            c.eq("utilization", x.utilization[lc], 0.5 + x.index)
    c.eq("member", [x.member.lcr[i] for x in D.members for i in (0, 1)], [0.9, 0.8] * 2)
    c.eq("length of the member", [x.member.length for x in D.members], [math.sqrt(17)] * 2)


@harness(bounded="up to three load cases")
def utilization(c):
    """the utilization of every load case, and the check over all of them"""
    kind = c.choice("kind", ["member", "steel member", "group"])
    n = 2 if kind == "group" else 1
    D = Designed(c, n, 1)
    cases = c.choice("cases", [[1], [1, 2], [2, 1, 3]] if n == 1 else [[1], [2, 1]])
    U = {(x.index, lc): c.real("utilization %d %d" % (x.index, lc), 0, 3) for x in D.members for lc in cases}
    forces(c, D, cases, 1)
    now = [None]
    D.answer = lambda x, seen: U[x.index, now[0]]
    lim = 1.0
    if kind == "group":
        g = c.mod(FM).MemberGroup(D.members)
    else:
        g = D.members[0]
        if kind == "member":
            g = D.mod.FrameMember(g.nodes, section(), nel=1)
            g.member = NS(design=lambda: U[0, now[0]])
        lim = g.allowable_utilization = c.real("allowed", 0.5, 1.5)
    for lc in cases:
        now[0] = lc
        g.design(lc)
    want = {lc: biggest(c, [U[x.index, lc] for x in D.members]) for lc in cases}
    for lc in cases:
        c.eq("utilization of case %d" % lc, g.utilization[lc], want[lc])
    c.ensures("passes when all cases do", g.resistance_check == all(want[lc] <= lim for lc in cases))


PROFILES = ["P0", "P1", "P2"]


def profiles(c, D, cases, cls=True):
    """three profiles with their widths, classes and slendernesses; the utilization depends on the profile"""
    T = {}
    for i, p in enumerate(PROFILES):
        T[p] = NS(name=p, A=10.0 + i, Iy=5.0, b=c.real("width " + p, 0, 100), slender=[c.real("slenderness %s %d" % (p, k), 0, 9) for k in (0, 1)],
                  k=c.choice("class " + p, [1, 3, 4]) if i == 0 else 1)
    made = []

    def make(name, material=None):
        t = T[name]
        s = Sec(A=t.A, Iy=t.Iy, Iz=1.0, b=t.b, name=name, material=material, section_class=lambda: t.k, I=[1.0, 1.0], g=1.0, density=7.0)
        made.append(s)
        return s
    c.stub(D.mod, "make_section", make, concrete=True)
    c.stub(D.mod, "profile_list", lambda *a, **k: list(PROFILES), concrete=True)
    for x in D.members:
        x.cross_section = make("P1") if not made else made[0]
        x.member.slender = lambda prof: np.array(T[prof.name].slender, dtype=object) if c.symbolic else np.array(T[prof.name].slender)
    U = {(p, x.index, lc): c.real("utilization %s %d %d" % (p, x.index, lc), 0, 2) for p in PROFILES for x in D.members for lc in cases}
    at = [None]
    D.F.load_ids = list(cases)
    for x in D.members:
        def one(load_id, x=x):
            x.utilization[load_id] = U[x.cross_section.name, x.index, load_id]
        x.design = one
    return T, U


def suits(c, T, U, p, members, cases, lim, top, width=None, cls=3):
    t = T[p]
    ok = t.k <= cls
    if width:
        ok = ok and t.b >= width[0] and t.b <= width[1]
    if top is not None:
        ok = ok and all(s <= top for s in t.slender)
    return ok and all(U[p, x.index, lc] <= lim for x in members for lc in cases)


def chosen(c, got, T, ok, changed, x, name="P1"):
    first = next((p for p in PROFILES if ok(p)), PROFILES[-1])
    c.same("profile", got.name, first)
    c.same("changed", bool(changed), first != name)


def optimum(kind):
    @harness(name="optimum_design_of_a_" + kind.replace(" ", "_"), bounded="lists of three profiles, up to two load cases", budget=600, max_paths=20000)
    def _(c):
        """the first of the listed profiles that satisfies the limits in all load cases, the last one if none does"""
        n = 1 if kind == "member" else 2
        D = Designed(c, n, 1)
        cases = c.choice("cases", [[1], [1, 2]] if n == 1 else [[1]])
        T, U = profiles(c, D, cases)
        lim, top = c.real("utilization allowed", 0.5, 1.5), c.choice("slenderness allowed", [4.0, None])
        k = dict(material="S420", sec_class=3, max_utility=lim)
        if c.choice("width limited", [False, True]):
            k.update(bmin=20.0, bmax=60.0)
        if top is not None:
            k.update(max_slenderness=top)
        elif n == 2:
            for p in PROFILES[:2]:
                T[p].slender = [1.0, 1.0]
        D.F.add
        m0 = D.members[0]
        if kind == "symmetric pair":
            m0.symmetry_pair, D.members[1].symmetry_pair = D.members[1], m0
            changed = m0.optimum_design(**k)
        elif kind == "member":
            changed = m0.optimum_design(**k)
        else:
            g = D.mod.MemberGroup(D.members)
            changed = g.optimum_design(**k)
        ok = lambda p: suits(c, T, U, p, D.members, cases, lim, k.get("max_slenderness", 5.0), (k.get("bmin", 10), k.get("bmax", 1e5)))
        chosen(c, m0.cross_section, T, ok, changed, m0)
        c.same("all have the section", [x.cross_section is m0.cross_section for x in D.members], [True] * n)
        c.same("and its design", [x.member.profile is m0.cross_section for x in D.members], [True] * n)
        c.same("material", m0.cross_section.material, "S420")
    return _


for _k in ("member", "symmetric pair", "group"):
    optimum(_k)


@harness(bounded="lists of three profiles, two spans", budget=400, max_paths=20000)
def optimum_design_of_several_spans(c):
    D = Designed(c, 2, 1)
    T, U = profiles(c, D, [1])
    ns = [c.mod(FN).FrameNode([4.0 * i, 0.0]) for i in range(3)]
    M = D.mod.MultiSpanSteelMember.__new__(D.mod.MultiSpanSteelMember)
    D.mod.MultiSpanMember.__init__(M, ns, D.members[0].cross_section)
    M.members, M.frame = D.members, D.F
    lim = c.real("utilization allowed", 0.5, 1.0)
    changed = M.optimum_design(material="S420", max_utility=lim)
    chosen(c, M.cross_section, T, lambda p: suits(c, T, U, p, D.members, [1], lim, None), changed, M)
    c.same("all spans have the section", [x.cross_section is M.cross_section for x in D.members], [True, True])


@harness(bounded="up to three members, one pair or one group")
def optimization_of_a_frame(c):
    """analysed again until no member and no group changes its profile; every member once in a round"""
    D = Designed(c, 3, 1)
    F = D.F
    log, plan = [], {}
    how = c.choice("members", ["separate", "pair", "group"])
    units = {"separate": [[0], [1], [2]], "pair": [[0, 2], [1]], "group": [[0, 1], [2]]}[how]
    for i, u in enumerate(units):
        plan[i] = [c.choice("unit %d changes in round %d" % (i, r), [False, True]) if r < 2 else False for r in range(2)]
    rounds = [0]
    F.structural_analysis = lambda *a, **k: (log.append("analysis"), rounds.__setitem__(0, rounds[0] + 1))

    def opt(i):
        def f(*a, **k):
            log.append(i)
            r = rounds[0] - 1
            return plan[i][r] if r < 2 else False
        return f
    for i, u in enumerate(units):
        if how == "group" and i == 0:
            g = D.mod.MemberGroup([D.members[j] for j in u])
            g.optimum_design = opt(0)
            F.member_groups["group"] = g
            for j in u:
                D.members[j].optimum_design = opt(99)
        else:
            for j in u:
                D.members[j].optimum_design = opt(i)
    if how == "pair":
        D.members[0].symmetry_pair, D.members[2].symmetry_pair = D.members[2], D.members[0]
    F.optimize_members("CURRENT")
    want = 1
    while want < 3 and any(plan[i][want - 1] for i in plan):
        want += 1
    c.same("rounds", log.count("analysis"), want)
    c.same("every unit once in every round", [x for x in log], (["analysis"] + list(range(len(units)))) * want)


@harness(bounded="up to two members")
def self_weight(c):
    """one load of the member's weight for every member in its own case, and nothing of it after it is removed"""
    m, l = c.mod(FM), c.mod(FL)
    W = Frame(c, c.choice("frame", ["braced", "one"]), [2], exact=True)
    other = l.LineLoad(W.members[0], [1.0, 2.0], "y", load_id=4, name=c.choice("name", ["q", "self-weight"]))
    W.F.add(other)
    g = [c.real("weight %d" % i, 0, 9) for i in range(len(W.members))]
    for x, w in zip(W.members, g):
        x.cross_section.g = w
    case = c.mod(FL).LoadIDs["SELF-WEIGHT"]
    W.F.add_self_weight()
    if c.choice("twice", [True, False]):
        W.members[0].cross_section = section(8)
        g[0] = W.members[0].cross_section.g = c.real("new weight", 0, 9)
        W.F.add_self_weight()
    on = W.F.load_cases[case].loads
    c.same("one for each member", [x.member is o for x, o in zip(on, W.members)] + [len(on)], [True] * len(W.members) + [len(W.members)])
    for x, w in zip(on, g):
        c.eq("weight per length, downwards", list(x.values), [-w, -w])
        c.same("direction", (x.direction, x.coord_sys, x.ltype, x.load_id), ("y", "global", "DEAD", case))
        c.eq("factor", x.f, 1)
    c.same("loads of the frame", len(W.F.loads), 1 + len(W.members))
    c.same("loads of the members", [len(x.loads) for x in W.members], [2] + [1] * (len(W.members) - 1))
    W.F.remove_self_weight()
    c.same("removed", ([o is other for o in W.F.loads.values()], len(W.F.load_cases[case].loads)), ([True], 0))
    c.same("from the members", [[o is other for o in x.loads] for x in W.members], [[True]] + [[]] * (len(W.members) - 1))
    c.same("the other load", [o is other for o in W.F.load_cases[4].loads], [True])


SYM = {
    "portal": ([(0, 0), (0, 3), (4, 3), (4, 0)], [(0, 1), (1, 2), (3, 2)], {0: 3, 1: 2}, {0: 2}),
    "gable": ([(0, 0), (2, 1), (4, 0)], [(0, 1), (2, 1), (0, 2)], {0: 2}, {0: 1}),
    "king post": ([(0, 0), (4, 0), (2, 0), (2, 1)], [(0, 2), (1, 2), (0, 3), (3, 1), (2, 3)], {0: 1}, {0: 1, 2: 3}),
    "cross": ([(0, 0), (4, 0), (0, 3), (4, 3)], [(0, 3), (1, 2), (0, 1), (2, 3)], {0: 1, 2: 3}, {0: 1}),
    "shared node off the axis": ([(1, 0), (0, 3), (4, 3)], [(0, 1), (0, 2)], {1: 2}, {}),
    "unsymmetric": ([(0, 0), (3, 1), (4, 2)], [(0, 1), (1, 2)], {}, {}),
}


@harness(bounded="frames listed in SYM, anywhere and of any width and height")
def symmetry(c):
    """mirrored nodes and members are found, no others"""
    name = c.choice("frame", list(SYM))
    pts, mems, np_, mp = SYM[name]
    m, n = c.mod(FM), c.mod(FN)
    F = c.mod(RA).Raami()
    x0, w, h = c.real("x", -50, 50), c.real("width", 1, 10), c.real("height", 1, 10)
    ns = [n.FrameNode([x0 + w * x, h * y]) for x, y in pts]
    for x in ns:
        F.add(x)
    ms = [m.FrameMember([ns[a], ns[b]], section(i), nel=1) for i, (a, b) in enumerate(mems)]
    for x in ms:
        F.add(x)
    if c.choice("axis", ["middle", "given"]) == "given":
        F.symmetry(sym_value=x0 + 2 * w)
    else:
        c.assume(name != "x")
        F.symmetry()
    both = lambda d: {**d, **{b: a for a, b in d.items()}}
    c.same("nodes", [None if x.symmetry_node is None else ns.index(x.symmetry_node) for x in ns], [both(np_).get(i) for i in range(len(ns))])
    c.same("members", [None if x.symmetry_pair is None else ms.index(x.symmetry_pair) for x in ms], [both(mp).get(i) for i in range(len(ms))])
    new = section(40)
    ms[0].cross_section = new
    c.same("share their section", [x.cross_section is new for x in ms], [i == 0 or both(mp).get(0) == i for i in range(len(ms))])
    c.eq("extent", list(F.xrange()) + list(F.yrange()), [x0 + w * min(p[0] for p in pts), x0 + w * max(p[0] for p in pts),
                                                         h * min(p[1] for p in pts), h * max(p[1] for p in pts)])


@harness(bounded="up to three load cases")
def analysis_of_load_cases(c):
    """every case asked for is solved once and every member reads and designs each of them after that"""
    F, l = c.mod(RA).Raami(), c.mod(FL)
    log = []
    ns = [c.mod(FN).FrameNode([0.0, 0.0]), c.mod(FN).FrameNode([1.0, 0.0])]
    ms = [c.mod(FM).FrameMember(ns, section(i), nel=1) for i in range(2)]
    for i, x in enumerate(ms):
        F.add(x)
        for k in ("calc_nodal_forces", "calc_nodal_displacements", "design"):
            setattr(x, k, lambda lc, k=k, i=i: log.append((k, i, lc)))
    for i in (5, 2, 9)[:c.choice("cases", [1, 2, 3])]:
        F.add(l.LoadCase(i))
    meth = []

    def solve(lcase=0, support_method="ZERO"):
        meth.append(support_method)
        log.extend(("solve", lc) for lc in (lcase if isinstance(lcase, list) else [lcase]))
    F.fem.linear_statics = solve
    ids = list(F.load_cases)
    ask = c.choice("asked", ["ALL", "all", None, ids[-1]])
    design = c.choice("design", [True, False])
    sup = c.choice("method", ["ZERO", "REM"])
    if c.choice("through", ["structural_analysis", "calculate"]) == "calculate" and ask is not None:
        F.calculate(ask, sup, design)
    else:
        F.structural_analysis(ask, sup, design)
    run = ids if str(ask).upper() == "ALL" else [ids[0]] if ask is None else [ask]
    c.same("method", set(meth), {sup})
    c.same("solved", sorted(x[1] for x in log if x[0] == "solve"), sorted(run))
    for k in ("calc_nodal_forces", "calc_nodal_displacements") + (("design",) if design else ()):
        c.same(k, sorted((i, lc) for x, *r in log if x == k for i, lc in [r]), sorted((i, lc) for i in range(2) for lc in run))
    for lc in run:
        c.ensures("solved before it is read", log.index(("solve", lc)) < min(i for i, x in enumerate(log) if x[0] != "solve" and x[2] == lc))
        for i in range(2):
            if design:
                c.ensures("forces before design", log.index(("calc_nodal_forces", i, lc)) < log.index(("design", i, lc)))
    if not design:
        c.same("no design", [x for x in log if x[0] == "design"], [])


@harness(concrete_only=True, bounded="sampled numeric check of whole frames with real sections, elements and solver", samples=25)
def whole_frame(c):
    """end forces of the members balance the loads, a moved and a new model give the same, sections take their forces"""
    F, s, l, m = c.mod(RA).Raami(), c.mod(FS), c.mod(FL), c.mod(FM)
    make = c.mod("metku.sections.steel.catalogue").make_section
    H, L = c.real("height", 2000, 6000), c.real("span", 3000, 9000)
    nodes = [c.mod(FN).FrameNode(p) for p in ([0, 0], [0, 3000], [5000, 3000], [5000, 0])]
    for n in nodes:
        F.add(n)
    nel = c.choice("elements", [2, 4])
    hinge = c.choice("hinges", [[False, False], [True, True], [False, True]])
    col, beam = c.choice("column", ["HE 200 A", "HE 240 A"]), c.choice("beam", ["IPE 200", "IPE 300"])
    ms = [m.SteelFrameMember(nodes[:2], make(col), "column", nel=nel), m.SteelFrameMember(nodes[1:3], make(beam), "beam", nel=nel, hinges=hinge),
          m.SteelFrameMember([nodes[3], nodes[2]], make(col), "column", nel=nel)]
    for x in ms:
        F.add(x)
    F.add(s.FixedSupport(nodes[0]))
    F.add(s.FixedSupport(nodes[3]))
    q, w, P = c.real("q", -40, 40), c.real("w", -10, 10), [c.real("P%d" % i, -2e4, 2e4) for i in range(3)]
    F.add(l.LineLoad(ms[1], [q, q], "y", load_id=0))
    F.add(l.LineLoad(ms[0], [w, w], "x", load_id=1))
    F.add(l.PointLoad(nodes[1], P, load_id=1))
    F.generate_fem()
    nodes[1].y = H
    nodes[2].y = H
    nodes[2].x = L
    nodes[3].x = L
    F.structural_analysis("all", c.choice("method", ["ZERO", "REM"]))
    got = {lc: [[list(x.nodal_forces[lc][k]) for k in ("N", "Vz", "My")] for x in ms] for lc in (0, 1)}
    rx = lambda lc: sum(ms[i].nodal_forces[lc]["Vz"][0] for i in (0, 2))
    ry = lambda lc: sum(ms[i].nodal_forces[lc]["N"][0] for i in (0, 2))
    c.eq("vertical balance, case 0", ry(0), q * L, scale=1e5)
    c.eq("vertical balance, case 1", ry(1), P[1], scale=1e5)
    c.eq("horizontal balance, case 0", rx(0), 0, scale=1e5)
    c.eq("horizontal balance, case 1", abs(rx(1)), abs(P[0] + w * H), scale=1e5)
    for lc in (0, 1):
        N, V = ms[1].nodal_forces[lc]["N"], ms[1].nodal_forces[lc]["Vz"]
        My = ms[1].nodal_forces[lc]["My"]
        c.eq("shear change along the beam %d" % lc, abs(V[0] - V[-1]), abs(q * L if lc == 0 else 0), scale=1e5)
        for i in (0, 1):
            if hinge[i]:
                c.eq("no moment at the hinge %d %d" % (i, lc), My[-i], 0, scale=1e5)
        for x in ms:
            for t, n, v, mm in zip(x.local_node_coords, *[x.nodal_forces[1][k] for k in ("N", "Vz", "My")]):
                d = x.member.sections[t]
                c.eq("forces of a section", [d["N"], d["Vz"], d["My"]], [n, v, mm], scale=1)
    F.generate_fem()
    F.structural_analysis("all", "REM")
    for lc in (0, 1):
        for i, x in enumerate(ms):
            for j, k in enumerate(("N", "Vz", "My")):
                c.eq("new model %d %s %d" % (i, k, lc), list(x.nodal_forces[lc][k]), got[lc][i][j], scale=1e5)


@harness(concrete_only=True, bounded="sampled frames written to a file and read back", samples=25)
def written_for_robot(c):
    """nodes, members, sections, supports and releases of the file are those of the frame"""
    F, s, m = c.mod(RA).Raami(), c.mod(FS), c.mod(FM)
    make = c.mod("metku.sections.steel.catalogue").make_section
    pts = [[c.real("x%d" % i, -1e4, 1e4), c.real("y%d" % i, 0, 1e4)] for i in range(4)]
    for p in pts:
        F.add(c.mod(FN).FrameNode(p))
    con = c.choice("members", [[(0, 1), (1, 2), (3, 2)], [(2, 0), (3, 1)]])
    hs = [c.choice("hinges %d" % i, [[False, False], [True, False], [False, True], [True, True]]) for i in range(len(con))]
    for (a, b), h in zip(con, hs):
        F.add(m.SteelFrameMember([F.nodes[a], F.nodes[b]], make("IPE 200"), hinges=h))
    sup = [c.choice("support", ["FixedSupport", "XYHingedSupport"]), c.choice("roller", ["XHingedSupport", "YHingedSupport"])]
    F.add(getattr(s, sup[0])(F.nodes[0]))
    F.add(getattr(s, sup[1])(F.nodes[3]))
    d, name = tempfile.mkdtemp(), c.choice("file", ["frame", "frame.", "f.2"])
    try:
        F.to_robot(os.path.join(d, name))
        c.same("one file", os.listdir(d), [name.rstrip(".") + ".str"])
        text = open(os.path.join(d, name.rstrip(".") + ".str")).read()
    finally:
        shutil.rmtree(d)
    part = lambda a, b: text.split(a, 1)[1].split(b, 1)[0].strip()
    rows = [r.split() for r in part("NODes \n", "ELEments \n").splitlines()]
    c.same("nodes", [int(r[0]) for r in rows], [1, 2, 3, 4])
    for r, p in zip(rows, pts):
        c.eq("place", [float(r[1]), float(r[2])], p)
    rows = [r.split() for r in part("ELEments \n", "PROperties").splitlines() if not r.startswith(";")]
    c.same("members", [tuple(map(int, r)) for r in rows], [(i + 1, a + 1, b + 1) for i, (a, b) in enumerate(con)])
    c.same("sections", re.findall(r"^ (\d+) +(\S.*?) *$", part("PROperties", "SUPports") + "\n", re.M)[-1][0], str(len(con)))
    free = {"FixedSupport": [], "XYHingedSupport": ["RY"], "XHingedSupport": ["UZ", "RY"], "YHingedSupport": ["UX", "RY"]}
    rows = [r.replace(",", " ").split() for r in part("SUPports", "RELeases").splitlines()]
    c.same("supports", rows, [["1"] + free[sup[0]], ["4"] + free[sup[1]]])
    rows = [r.split() for r in part("RELeases", "END" if False else "\nEND").splitlines() if r.strip()]
    want = [["ELEments", str(i + 1)] + (["ORIgin", "RY"] if h[0] else []) + (["END", "RY"] if h[1] else []) for i, h in enumerate(hs) if any(h)]
    c.same("releases", rows, want)
