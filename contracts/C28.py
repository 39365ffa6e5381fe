"""C28: roof trusses -- topology, joints, loads and finite element models with eccentricities."""
import numpy as np

PT = "metku.raami.raami_plane_truss"
PP = "metku.raami.raami_portal_truss"
RH = "metku.sections.steel.RHS"
BT = "two to four divisions of a half, every topology, every size"

TOPO = [("K", 1, 0), ("K", 0, 1), ("K", 0, 0), ("N", 1, 0), ("N", 0, 1), ("N", 0, 0), ("KT", 1, 0), ("KT", 0, 1), ("KT", 0, 0)]


def truss(c, topo=None, ndiv=None, edge=None, moved=False, beams=False, **kw):
    """a truss of any size: topology, whether the bottom chord is shorter, whether the first diagonal goes up"""
    c.mod("metku.frame2d.frame2d")
    P = c.mod(PT)
    topo = topo or c.choice("topology", TOPO)
    name, short, up = topo
    W = type("W", (), {})()
    W.topo, W.ndiv = topo, ndiv or c.choice("divisions", [2, 3, 4])
    W.L, W.h, W.dy = c.real("L", 4000, 20000), c.real("h1", 500, 3000), c.real("rise", 100, 1500)
    W.dx = c.real("dx", 100, 1500) if short else 0
    W.edge = edge if edge is not None else bool(short) or c.choice("edge verticals", [True, False])
    W.t = P.SlopedTruss(L1=W.L, L2=W.L, dx1=W.dx, dx2=W.dx, h1=W.h, h2=W.h + W.dy)
    W.ox = W.oy = 0
    if moved:
        W.ox, W.oy = c.real("ox", -100, 100), c.real("oy", 1000, 9000)
        W.t.origin = (W.ox, W.oy)
    W.t.braces_as_beams = beams
    R = c.mod(RH)
    W.profiles = [R.RHS(160, 160, 5), R.RHS(140, 140, 5), R.RHS(90, 90, 5)]
    W.t.generate_topology(name, W.ndiv, *W.profiles, first_diagonal_up=bool(up), edge_verticals=W.edge, **kw)
    return W


def roof(W, x):
    """height of the top chord"""
    d = x - W.ox
    return d * W.dy / W.L if d <= W.L else (2 * W.L - d) * W.dy / W.L


def pairs(W):
    """numbers of the top and the bottom node of every brace"""
    t, out = W.t, []
    for b in t.braces.values():
        a, z = b.nodes
        if any(a is n for n in t.bottom_nodes):
            a, z = z, a
        out.append(([i for i, n in enumerate(t.top_nodes) if n is a] + [None], [i for i, n in enumerate(t.bottom_nodes) if n is z] + [None]))
    return [(a[0], z[0]) for a, z in out]


@harness()
def shape(c):
    """two of the heights and the slope give the third"""
    P = c.mod(PT)
    L, h, dy = c.real("L", 1000, 30000), c.real("h1", 500, 5000), c.real("rise", 0, 3000)
    given = c.choice("given", ["heights", "lower", "upper"])
    if given == "heights":
        t = P.SlopedTruss(L1=L, L2=L, h1=h, h2=h + dy)
        c.eq("slope", c.tan(t.slope * c.pi / 180) * L, dy, scale=1e3)
    else:
        s = c.real("slope", 1, 30)
        dy = L * c.tan(s * c.pi / 180)
        if given == "lower":
            t = P.SlopedTruss(L1=L, L2=L, h1=h, slope=s)
        else:
            t = P.SlopedTruss(L1=L, L2=L, h2=h + dy, slope=s)
    c.eq("height at the support", [t.Hleft, t.Hright], [h, h], scale=1e3)
    c.eq("height at the ridge", t.Hmid, h + dy, scale=1e3)
    c.eq("span", t.span, 2 * L)
    c.eq("rise", t.height_of_slope_left(), dy, scale=1e3)
    t.origin = (c.real("ox", -1e3, 1e3), c.real("oy", -1e3, 1e3))
    c.eq("ridge", list(t.xmid()), [t.origin[0] + L, t.origin[1] + dy], scale=1e3)
    c.eq("end", list(t.xend()), [t.origin[0] + 2 * L, t.origin[1]], scale=1e3)


@harness(bounded=BT, budget=400, timeout=10)
def topology(c):
    """nodes on the roof and the bottom line, chords from end to end, a web of triangles"""
    W = truss(c, moved=c.choice("moved", [False, True]))
    name, short, up = W.topo
    t = W.t
    T, Bn = t.top_nodes, t.bottom_nodes
    for k, n in enumerate(T):
        c.eq("top node %d on the roof" % k, n.y, W.oy + roof(W, n.x), scale=1e3)
    for k, n in enumerate(Bn):
        c.eq("bottom node %d on the bottom line" % k, n.y, W.oy - W.h, scale=1e3)
    c.eq("ends of the top chord", [T[0].x, T[-1].x], [W.ox, W.ox + 2 * W.L], scale=1e3)
    c.eq("ends of the bottom chord", [Bn[0].x, Bn[-1].x], [W.ox + W.dx, W.ox + 2 * W.L - W.dx], scale=1e3)
    for which, N in (("top", T), ("bottom", Bn)):
        for k in range(len(N) - 1):
            c.lt("order of %s nodes %d" % (which, k), N[k].x, N[k + 1].x)
        for k in range((len(N) + 1) // 2):
            c.eq("symmetry of %s nodes %d" % (which, k), N[k].x + N[-1 - k].x, 2 * (W.ox + W.L), scale=1e3)
    c.same("a node at the ridge", len(T) % 2, 1)
    c.same("nodes of the frame", [id(n) for n in t.nodes], [id(n) for n in T + Bn])
    c.same("numbers of the nodes", [n.node_id for n in t.nodes], list(range(len(t.nodes))))
    for which, M, N, prof in (("top", t.top_chord, T, 0), ("bottom", t.bottom_chord, Bn, 1)):
        c.same("members of the %s chord" % which, [tuple(map(id, m.nodes)) for m in M], [(id(a), id(b)) for a, b in zip(N, N[1:])])
        c.same("group of the %s chord" % which, list(map(id, t.member_groups[which + "_chord"].members)), list(map(id, M)))
        c.same("profile of the %s chord" % which, {repr(m.cross_section) for m in M}, {repr(W.profiles[prof])})
    p = sorted(pairs(W), key=lambda q: (q[0] if q[0] is not None else -1, q[1] if q[1] is not None else -1))
    c.same("braces from the top to the bottom chord", [q for q in p if None in q], [])
    c.same("web of triangles", [(b[0] - a[0], b[1] - a[1]) for a, b in zip(p, p[1:]) if (b[0] - a[0], b[1] - a[1]) not in ((0, 1), (1, 0))], [])
    if W.edge:
        c.same("web from end to end", (p[0], p[-1]), ((0, 0), (len(T) - 1, len(Bn) - 1)))
        c.same("statically determinate", len(t.members), 2 * len(t.nodes) - 3)
    else:
        c.same("only the edge verticals are missing", len(t.members), 2 * len(t.nodes) - 5)
    c.same("profile of the braces", {repr(b.cross_section) for b in t.braces.values()}, {repr(W.profiles[2])})
    ms = list(t.members.values())
    c.same("every member has its own section", len({id(m.cross_section) for m in ms}), len(ms))
    c.same("members of the frame", (len({m.mem_id for m in ms}), all(m.frame is t for m in ms)), (len(ms), True))
    c.same("every member once", sorted(map(id, ms)), sorted(map(id, t.top_chord + t.bottom_chord + list(t.braces.values()))))
    if name in ("N", "KT"):
        for k, n in enumerate(Bn):
            if 0 < k < len(Bn) - 1 or short or (W.edge and name == "N"):
                over = [T[q[0]] for q in p if q[1] == k]
                gaps = [abs(o.x - n.x) for o in over]
                c.le("a vertical at bottom node %d" % k, c.min(*gaps) if len(gaps) > 1 else gaps[0], 1e-6 * W.L)


@harness(bounded="two or three divisions of a half", budget=400, timeout=10)
def joints(c):
    """one joint for every node with braces, of the kind of their number, known by its members"""
    n = c.choice("divisions", [2, 3])
    W = truss(c, ndiv=n, moved=n == 2 and c.choice("moved", [False, True]))
    P, t = c.mod(PT), W.t
    c.stub(P.TubularJoint, "brace_angle", lambda self, brace=None, geometry="init": 45.0)
    c.stub(P.TubularKGapJoint, "calc_gap", lambda self: 20.0)
    t.generate_joints()
    at = lambda n, ms: [m for m in ms if any(x is n for x in m.nodes)]
    js = list(t.joints.values())
    c.same("numbers of the joints", [j.joint_id for j in js], list(range(len(js))))
    kinds = {1: P.TubularYJoint, 2: P.TubularKGapJoint, 3: P.TubularKTGapJoint}
    mid = t.top_nodes[len(t.top_nodes) // 2]
    for n in t.nodes:
        mine = [j for j in js if j.node is n]
        br, ch = at(n, t.braces.values()), at(n, t.top_chord + t.bottom_chord)
        c.same("joints of a node", len(mine), 1 if br else 0)
        if not br:
            continue
        j, top = mine[0], any(n is x for x in t.top_nodes)
        c.same("kind of joint", type(j), kinds[len(br)])
        c.same("chord of the joint", j.chord, "top" if top else "bottom")
        c.same("members of the joint", (list(map(id, j.chords)), list(map(id, j.braces))), (list(map(id, ch)), list(map(id, br))))
        for b in br:
            c.same("joint of a brace", (b.top_joint if top else b.bottom_joint) is j, True)
        for m in ch:
            c.same("joint of a chord", sum(x is j for x in m.joints), 1)
        if len(br) >= 2 and n is mid:
            c.same("joint at the ridge", t.ridge_joint is j, True)
        if len(br) == 2:
            c.same("bent chord", j.ridge, n is mid)
            o = {id(b): b.opposite_node(n).x for b in br}
            c.le("left brace", o[id(j.left_brace)], o[id(j.right_brace)])
            c.same("both braces", {id(j.left_brace), id(j.right_brace)}, set(o))
            x = [(m.opposite_node(n).x, m) for m in ch]
            for side, s in (("left_chord", -1), ("right_chord", 1)):
                m = getattr(j, side)
                want = [q for v, q in x if (v < n.x) == (s < 0)]
                c.same(side, m, want[0] if want else None)
    for m in t.top_chord + t.bottom_chord:
        c.same("joints of a chord member", sorted(id(j.node) for j in m.joints), sorted(id(n) for n in m.nodes if at(n, t.braces.values())))
    for b in t.braces.values():
        c.same("joints at the ends of a brace", {id(b.top_joint.node), id(b.bottom_joint.node)}, {id(n) for n in b.nodes})
        c.same("vertical", b.vertical, abs(b.nodes[0].x - b.nodes[1].x) < 1e-6)


@harness(bounded="two divisions of a half", timeout=10)
def supports(c):
    """a hinge at the first and a roller at the last node of the chord that reaches the supports"""
    W = truss(c, c.choice("topology", [("K", 1, 0), ("K", 0, 1), ("N", 1, 0), ("N", 0, 0), ("KT", 0, 0)]), 2, edge=True)
    W.t.generate_supports()
    s = list(W.t.supports.values())
    N = W.t.top_nodes if W.topo[1] else W.t.bottom_nodes
    c.same("number", len(s), 2)
    c.same("nodes", (s[0].node is N[0], s[1].node is N[-1]), (True, True))
    c.same("held", (sorted(s[0].dofs), sorted(s[1].dofs)), ([0, 1], [1]))


def load_at(c, l, x):
    """value of a load of a chord member at x"""
    a, b = l.member.nodes
    s = (x - a.x) / (b.x - a.x)
    if hasattr(l, "xdiv"):
        return l.f * (l.values[0] if s <= l.xdiv else l.values[1])
    return l.f * (l.values[0] + s * (l.values[1] - l.values[0]))


@harness(bounded="two divisions of a half, up to three zones", budget=400, timeout=10)
def loads(c):
    """every point of the chord gets the load of its zone, in the case asked for"""
    W = truss(c, c.choice("topology", [("K", 1, 0), ("N", 0, 0)]), 2, edge=True)
    t, q = W.t, [c.real("q%d" % i, -50, 50) for i in range(3)]
    what = c.choice("load", ["top", "bottom", "one border", "two borders"])
    if what in ("top", "bottom"):
        t.generate_uniform_load(q[0], what, load_id=3, ltype="snow")
        M = t.top_chord if what == "top" else t.bottom_chord
        z = []
    else:
        M = t.top_chord
        z = [c.real("z0", 0, 2 * W.L)]
        if what == "two borders":
            z.append(c.real("z1", 0, 2 * W.L))
            for m in M:
                # no member with both borders inside
                c.assume((z[0] <= m.nodes[0].x) | (z[1] >= m.nodes[1].x) if c.symbolic else (z[0] <= m.nodes[0].x or z[1] >= m.nodes[1].x))
            c.assume(z[1] > z[0])
        t.generate_piecewise_uniform_load(q[:len(z) + 1], z, load_id=3, ltype="wind")
    for m in t.members.values():
        c.same("loads of a member", len(m.loads), 1 if any(m is k for k in M) else 0)
    c.same("loads of the frame", (len(t.loads), len(t.load_cases[3].loads), list(t.load_cases)), (len(M), len(M), [3]))
    for l in t.loads.values():
        c.same("load", (l.load_id, l.direction, l.coord_sys, l.ltype), (3, "y", "global", "SNOW" if not z else "WIND"))
        a, b = l.member.nodes
        s = c.real("s", 0, 1)
        x = a.x + s * (b.x - a.x)
        for zz in z:
            c.assume(abs(x - zz) > 1e-3)
        c.eq("load at a point", load_at(c, l, x), q[sum(1 for zz in z if x > zz)])


class KJoint:
    """a K joint on a chord of any slope with its braces to the other chord, optionally at the ridge"""

    def __init__(self, c, side, ridge):
        c.mod("metku.frame2d.frame2d")
        P, N, R = c.mod(PT), c.mod("metku.raami.frame_node").FrameNode, c.mod(RH)
        self.s = s = -1 if side == "top" else 1                # the braces are below the top chord
        Ch = P.TopChord if side == "top" else P.BottomChord
        x0, y0 = c.real("x0", -5e3, 5e3), c.real("y0", -1e3, 5e3)
        f = c.real("slope", 0.02, 0.3) if ridge else c.real("slope", -0.3, 0.3) if side == "top" else c.real("slope", 0, 0)
        f = [f, -f if ridge else f]
        # unit vectors of the chord members from left to right, outward normals
        self.u = [(c.cos(k), c.sin(k)) for k in f]
        self.out = [(s * u[1], -s * u[0]) for u in self.u]
        n = N([x0, y0])
        ends = [N([x0 - 1000, y0]), N([x0 + 1000, y0])]
        # the far ends of the braces in the directions of the own chord member
        d = [c.real("depth %d" % i, 600, 3000) for i in (0, 1)]
        a = [c.real("foot left", -4000, 1500), c.real("foot right", -1500, 4000)]
        self.far = [N([n.x + a[i] * self.u[i][0] - d[i] * self.out[i][0], n.y + a[i] * self.u[i][1] - d[i] * self.out[i][1]]) for i in (0, 1)]
        c.assume(self.far[1].x - self.far[0].x > 300)
        sec, bs = R.RHS(160, 160, 5), R.RHS(90, 90, 5)
        # direction and angle of a member: C27
        self.chords = [c.instance(Ch, nodes=v, cross_section=sec, dir_vector=c.array(list(u)), angle=k)
                       for v, u, k in (([ends[0], n], self.u[0], f[0]), ([n, ends[1]], self.u[1], f[1]))]
        self.f = f
        self.braces = [P.TrussBrace([n, f] if side == "top" else [f, n], bs) for f in self.far]
        if c.choice("braces", ["left first", "right first"]) == "right first":
            self.braces.reverse()
        self.j = P.TubularKGapJoint(n, list(self.chords), list(self.braces))
        for b in self.braces:
            f = [x for x in b.nodes if x is not n][0]
            o = c.instance(P.TubularYJoint, node=f)
            b.top_joint, b.bottom_joint = (self.j, o) if side == "top" else (o, self.j)
        self.n, self.H, self.h = n, 160, 90
        self.left, self.right = (self.braces if self.braces[0].nodes[0] is self.far[0] or self.braces[0].nodes[1] is self.far[0] else self.braces[::-1])


def dot(a, b):
    return a[0] * b[0] + a[1] * b[1]


def cross(a, b):
    return a[0] * b[1] - a[1] * b[0]


def minus(a, b):
    return (a[0] - b[0], a[1] - b[1])


@harness(timeout=15, budget=600)
def geometry_of_a_K_joint(c):
    """eccentric point, face points on the lines of the braces, nearest points of the chord"""
    side = c.choice("joint", ["top", "bottom", "ridge"])
    K = KJoint(c, "bottom" if side == "bottom" else "top", side == "ridge")
    j, n = K.j, (K.n.x, K.n.y)
    c.same("bent chord", bool(j.ridge), side == "ridge")
    c.same("sides", (j.left_brace is K.left, j.right_brace is K.right, j.left_chord is K.chords[0], j.right_chord is K.chords[1]), (True,) * 4)
    e, x = 0.25 * K.H, 0
    if c.choice("moved", [False, True]):
        e, x = c.real("e", -80, 40), c.real("along", -50, 50) if side != "ridge" else 0
        j.yloc = e
        if side != "ridge":
            j.xloc = x
    c.eq("eccentricity", j.eccentricity(), e)
    xp = (n[0] + x * K.u[0][0] + e * K.out[0][0], n[1] + x * K.u[0][1] + e * K.out[0][1]) if side != "ridge" else (n[0], n[1] + e)
    c.eq("point of the braces", list(j.xp_coord), list(xp), scale=1e3)
    f = j.xc_face()
    for i in (0, 1):
        c.eq("face of the chord %d" % i, dot(minus(f, n), K.out[i]), -0.5 * K.H, scale=1e2)
    if side != "ridge":
        c.eq("face nearest to the node", dot(minus(f, n), K.u[0]), 0, scale=1e2)
    else:
        c.eq("face below the ridge", f[0], n[0], scale=1e3)
    xf, xc = j.brace_chord_face_x()
    c.same("points", ({id(b) for b in xf}, {id(m) for m in xc}), ({id(b) for b in K.braces}, {id(m) for m in K.chords}))
    for i, b in ((0, K.left), (1, K.right)):
        p = tuple(xf[b])
        far = (K.far[i].x, K.far[i].y)
        c.eq("on the face %d" % i, dot(minus(p, n), K.out[i]), -0.5 * K.H, scale=1e2)
        c.eq("on the brace %d" % i, cross(minus(p, xp), minus(far, xp)) / 1e3, 0, scale=1e3)
        q = tuple(xc[K.chords[i]])
        c.eq("on the chord %d" % i, cross(minus(q, n), K.u[i]), 0, scale=1e3)
        c.eq("nearest to the face point %d" % i, dot(minus(q, p), K.u[i]), 0, scale=1e3)
        attr = b.bottom_chord_face_point if side == "bottom" else b.top_chord_face_point
        c.eq("known by the brace %d" % i, list(attr), list(p), scale=1e3)
    if side != "ridge":
        q = j.xchord()
        c.eq("on the chord", cross(minus(q, n), K.u[0]), 0, scale=1e3)
        c.eq("nearest to the eccentric point", dot(minus(q, xp), K.u[0]), 0, scale=1e3)


@harness(timeout=10)
def gap_of_a_K_joint(c):
    """the free length of the chord face between the braces, straight or bent, whichever way they lean"""
    P, R = c.mod(PT), c.mod(RH)
    ridge, turn = c.choice("ridge", [False, True]), c.choice("direction", [1, -1])
    f = [c.real("slope", -0.3, 0.3)]
    f.append(c.real("other slope", -0.3, 0.3) if ridge else f[0])
    u = [(c.cos(k), c.sin(k)) for k in f]
    H, h = 160, [c.real("h%d" % i, 40, 200) for i in (0, 1)]
    chords = [c.instance(P.TopChord, dir_vector=c.array([turn * x for x in v])) for v in u]
    th = [c.real("angle %d" % i, 20, 90) for i in (0, 1)]
    for t in th:
        c.assume(c.sin(t * c.pi / 180) >= 0.3)
    xcf = [c.real("x", -1e3, 1e3), c.real("y", -1e3, 1e3)]
    at = [c.real("at %d" % i, -300, 300) for i in (0, 1)]
    S = type("S", (), {})
    braces = []
    for i in (0, 1):
        x = S()
        x.H = h[i]
        braces.append(c.instance(P.TrussBrace, cross_section=x))
    first = c.choice("first", [0, 1])
    # the points on the chord face: geometry_of_a_K_joint
    xf = {b: c.array([xcf[0] + k * v[0], xcf[1] + k * v[1]]) for b, k, v in zip(braces, at, u)}
    ang = {id(b): t for b, t in zip(braces, th)}
    j = c.instance(P.TubularKGapJoint, ridge=ridge, braces=[braces[first], braces[1 - first]], chords=list(chords), left_brace=braces[0],
                   right_brace=braces[1], left_chord=chords[0], right_chord=chords[1], _TubularKGapJoint__yloc=c.real("e", -60, 40), xc_face=lambda: c.array(xcf),
                   brace_chord_face_x=lambda: (dict(xf), {}), brace_angle=lambda b=None, geometry="init": ang[id(b)] if geometry == "actual" else 45.0)
    s = [c.sin(t * c.pi / 180) for t in th]
    want = at[1] - at[0] - 0.5 * (h[0] / s[0] + h[1] / s[1])
    c.eq("gap", j.gap, want, scale=1e3)
    c.eq("calculated", j.calc_gap(), want, scale=1e3)
    c.eq("angles", j.angles, [ang[id(b)] for b in j.braces])
    for b, m in zip(braces, chords):
        c.same("chord of a brace", j.brace_chord(b) if ridge else any(j.brace_chord(b) is x for x in chords), m if ridge else True)


@harness(concrete_only=True, bounded="sampled joints", samples=100)
def whole_K_joint(c):
    """gap and angles of joints with all their geometry"""
    side = c.choice("joint", ["top", "bottom", "ridge"])
    K = KJoint(c, "bottom" if side == "bottom" else "top", side == "ridge")
    j, n = K.j, (K.n.x, K.n.y)
    e = c.real("e", -60, 40)
    j.yloc = e
    xp = (n[0] + e * K.out[0][0], n[1] + e * K.out[0][1]) if side != "ridge" else (n[0], n[1] + e)
    apex = (n[0], n[1] - 0.5 * K.H / c.cos(K.f[0])) if side == "ridge" else (n[0] - 0.5 * K.H * K.out[0][0], n[1] - 0.5 * K.H * K.out[0][1])
    pos, s = [], []
    for i in (0, 1):
        v = minus((K.far[i].x, K.far[i].y), xp)
        k = (dot(minus(xp, n), K.out[i]) + 0.5 * K.H) / -dot(v, K.out[i])
        pos.append(dot(minus((xp[0] + k * v[0], xp[1] + k * v[1]), apex), K.u[i]))
        s.append(-dot(v, K.out[i]) / c.sqrt(dot(v, v)))
    c.eq("gap", j.gap, pos[1] - pos[0] - 0.5 * (K.h / s[0] + K.h / s[1]), scale=1e3)
    for i, b in ((0, K.left), (1, K.right)):
        a = j.brace_angle(b, geometry="actual")
        c.le("acute %d" % i, a, 90)
        c.eq("angle of the brace %d" % i, c.sin(a * c.pi / 180), s[i], tol=1e-5)


@harness(bounded="a pair of K joints", timeout=10)
def symmetric_joints(c):
    """moving the eccentric point of a joint mirrors that of its pair"""
    c.mod("metku.frame2d.frame2d")
    P = c.mod(PT)
    W = truss(c, ("K", 1, 0), 3, edge=True)
    c.stub(P.TubularJoint, "brace_angle", lambda self, brace=None, geometry="init": 45.0)
    c.stub(P.TubularKGapJoint, "calc_gap", lambda self: 0.0)
    t = W.t
    t.generate_joints()
    K = [j for j in t.joints.values()]
    for a, b in zip(t.top_nodes, t.top_nodes[::-1]):
        a.symmetry_node = None if a is b else b
    for a, b in zip(t.bottom_nodes, t.bottom_nodes[::-1]):
        a.symmetry_node = b
    t.determine_symmetry_joints()
    for j in K:
        want = [q for q in K if q.node is j.node.symmetry_node]
        c.same("pair", j.sym_joint, want[0] if want else None)
    j = c.choice("which", [1, 2, 8, 9])
    j = [k for k in K if isinstance(k, P.TubularKGapJoint) and not k.ridge and k.sym_joint][j % 6]
    e, x = c.real("e", -60, 40), c.real("along", -50, 50)
    j.yloc = e
    j.xloc = x
    q = j.sym_joint
    c.eq("mirrored x", j.xp_coord[0] + q.xp_coord[0], 2 * W.L, scale=1e3)
    c.eq("mirrored y", j.xp_coord[1], q.xp_coord[1], scale=1e3)
    c.eq("own place", [q.yloc, q.xloc], [e, -x])


@harness(timeout=10)
def profiles(c):
    """chord profiles, widths and heights of the bottom chord are set for all members"""
    W = truss(c, ("N", 0, 1), 2, edge=True)
    t, R = W.t, c.mod(RH)
    a, b = R.RHS(200, 200, 8), R.RHS(180, 180, 6)
    t.top_chord_profile, t.bottom_chord_profile = a, b
    c.same("top chord", [repr(m.cross_section) for m in t.top_chord], [repr(a)] * len(t.top_chord))
    c.same("bottom chord", [repr(m.cross_section) for m in t.bottom_chord], [repr(b)] * len(t.bottom_chord))
    c.same("read back", (repr(t.top_chord_profile), repr(t.bottom_chord_profile)), (repr(a), repr(b)))
    br = list(t.braces.values())
    br[1].cross_section = R.RHS(120, 100, 5)
    c.eq("widest brace", t.max_brace_width(), max(x.cross_section.b for x in br))
    dy = c.real("dy", -300, 300)
    t.bottom_chord_dy(dy)
    for k, n in enumerate(t.bottom_nodes):
        c.eq("bottom node %d" % k, n.y, -W.h + dy, scale=1e3)
    for k, n in enumerate(t.top_nodes):
        c.eq("top node %d" % k, n.y, roof(W, n.x), scale=1e3)
    ws = t.weight_detailed()
    for g, M in zip(ws, (t.top_chord, t.bottom_chord, br)):
        c.eq("weight", g, sum(m.weight() for m in M))


def near(X, n):
    d = [(x[0] - n.x) ** 2 + (x[1] - n.y) ** 2 for x in X]
    return 0 if bool(d[0] < d[-1]) else -1


def structure(c, P, t, model, beams):
    """every member a straight chain of elements between its joints; eccentricity elements from the braces to the chords"""
    for m in t.members.values():
        ns, es = m.fem_nodes, m.fem_elements
        c.same("chain of elements", [(a is e.nodes[0], b is e.nodes[1]) for a, b, e in zip(ns, ns[1:], es)], [(True, True)] * (len(ns) - 1))
        c.same("elements of a member", (len(es), all(e.section is m.cross_section for e in es)), (len(ns) - 1, True))
        if isinstance(m, P.TrussBrace):
            c.same("beams as braces are hinged", [bool(k) for k in m.hinges], [beams, beams])
        for k, e in enumerate(es):
            hinged = [2] * bool(m.hinges[0] and k == 0) + [5] * bool(m.hinges[1] and k == len(es) - 1)
            c.same("hinges of element %d" % k, sorted(e.releases), hinged)
            c.same("kind of element", type(e).__name__, "EBBeam" if not isinstance(m, P.TrussBrace) or beams else "Rod")
        X = [(x.x, x.y) for x in ns]
        for x in X[1:-1]:
            c.eq("straight", cross(minus(x, X[0]), minus(X[-1], X[0])) / 1e3, 0, scale=1e3)
        js = [m.top_joint, m.bottom_joint] if isinstance(m, P.TrussBrace) else m.joints
        for k, j in enumerate(js):
            if model == "no_eccentricity":
                c.eq("end at its joint", sum(k ** 2 for k in minus(X[near(X, j.node)], (j.node.x, j.node.y))), 0, scale=1e3)
    for j in t.joints.values():
        if isinstance(j, P.TubularKGapJoint) and model == "en1993":
            a, b = j.fem_nodes["xp"], j.fem_nodes["xc"]
            c.eq("eccentric node", [a.x, a.y], list(j.xp_coord), scale=1e3)
            c.eq("length of the eccentricity", (a.x - b.x) ** 2 + (a.y - b.y) ** 2, j.yloc ** 2, scale=1e3)
            c.same("eccentricity element", j.fem_elements["ecc"].nodes, [a, b])
        if isinstance(j, P.TubularKGapJoint) and model == "ecc_elements":
            for b, m, name in ((j.left_brace, j.left_chord, "left_ecc"), (j.right_brace, j.right_chord, "right_ecc")):
                e = j.fem_elements[name]
                c.same("eccentricity element", (e.nodes[0] is j.fem_nodes["xcf"][b], e.nodes[1] is j.fem_nodes["xch"][m]), (True, True))
                a, z = e.nodes
                c.eq("length of the eccentricity", (a.x - z.x) ** 2 + (a.y - z.y) ** 2, (0.5 * j.h0) ** 2, scale=1e4)
                c.same("end of the brace", any(e.nodes[0] is x for x in (b.fem_nodes[0], b.fem_nodes[-1])), True)
                if m is not None:
                    c.same("end of the chord", any(e.nodes[1] is x for x in (m.fem_nodes[0], m.fem_nodes[-1])), True)


@harness(concrete_only=True, bounded="sampled trusses with real sections, elements and solver", samples=120, sample_s=45)
def models(c):
    """every member a chain of elements between its joints, all loads carried, mirrored results, nothing left of an old model"""
    beams = c.choice("braces", ["rods", "beams"]) == "beams"
    W = truss(c, c.choice("topology", [("K", 1, 0), ("K", 0, 1), ("N", 1, 0), ("N", 0, 0), ("N", 0, 1), ("KT", 1, 0)]), c.choice("divisions", [2, 3]), edge=True,
              beams=beams, nel_chord=c.choice("elements", [1, 2, 4]), nel_brace=c.choice("elements of a brace", [1, 3]) if beams else 1)
    if c.choice("hinges", [False, True]):
        # a pair of hinges in the chords
        for M in (W.t.top_chord, W.t.bottom_chord):
            if len(M) > 3:
                M[1].hinges, M[-2].hinges = [True, False], [False, True]
    P, t = c.mod(PT), W.t
    short = bool(W.topo[1])
    t.symmetry()
    t.generate_joints()
    t.generate_supports()
    q, w = c.real("q", -40, -5), c.real("w", -20, 20)
    t.generate_uniform_load(q, load_id=0)
    if c.choice("second load", [False, True]):
        t.generate_uniform_load(w, load_id=0)
        q = q + w
    model = c.choice("model", ["no_eccentricity", "en1993", "ecc_elements"])
    end = [j for j in t.joints.values() if j.node in (t.bottom_nodes[0], t.bottom_nodes[-1])]
    if model == "ecc_elements" and not short and any(isinstance(j, P.TubularKGapJoint) for j in end):
        c.assume(False)             # supports of K joints are a limit of this model
    first = c.choice("first", ["no_eccentricity", "en1993", "ecc_elements", None])
    if first:
        t.generate_fem(model=first)
    t.generate_fem(model=model)
    fem = t.fem
    size = (len(fem.nodes), len(fem.elements), len(fem.supports), len(fem.loads))
    if model == "no_eccentricity":
        n = sum(m.num_elements - 1 for m in t.members.values())
        c.same("size of the model", size[:3], (len(t.nodes) + n, sum(len(m.fem_elements) for m in t.members.values()), 2))
    structure(c, P, t, model, beams)
    c.same("supports", size[2], 2)
    top = [e for m in t.top_chord for e in m.fem_elements]
    if model == "ecc_elements":
        for j in t.joints.values():
            if isinstance(j, P.TubularKGapJoint) and j.chord == "top" and len(j.chords) == 2:
                g = j.fem_elements["gap"]
                top += g if isinstance(g, list) else [g]
    c.same("every element of the chord is loaded", {id(l.elem) for l in fem.loads}, set(map(id, top)))
    t.structural_analysis(load_id=0, support_method="REM", design=False)
    total = 0.0
    for l in fem.loads:
        e = l.elem
        total += 0.5 * (l.qval[0] + l.qval[1]) * float(e.length())
    L = 2 * float(np.hypot(W.L, W.dy))
    if not (model == "ecc_elements" and not short):
        c.eq("all of the load", total, q * L, scale=1e4)
    uy = lambda n: n.u[0][1]
    for a, b in zip(t.top_nodes + t.bottom_nodes, t.top_nodes[::-1] + t.bottom_nodes[::-1]):
        if a.fem_node in fem.nodes and b.fem_node in fem.nodes:
            c.eq("mirrored deflection", uy(a.fem_node), uy(b.fem_node), scale=1e2)
    for a, b in zip(t.top_chord, t.top_chord[::-1]):
        c.eq("mirrored force", max(map(abs, a.nodal_forces[0]["N"])), max(map(abs, b.nodal_forces[0]["N"])), scale=1e4)
    got = [list(m.nodal_forces[0]["N"]) for m in t.members.values()]
    t.generate_fem(model=model)
    c.same("new model", (len(t.fem.nodes), len(t.fem.elements), len(t.fem.supports), len(t.fem.loads)), size)
    t.structural_analysis(load_id=0, support_method="REM", design=False)
    for x, m in zip(got, t.members.values()):
        c.eq("same forces", list(m.nodal_forces[0]["N"]), x, scale=1e5)
    if model == "ecc_elements":
        for j in t.joints.values():
            if isinstance(j, P.TubularKGapJoint):
                g = j.fem_elements["gap"]
                V = [abs(v) for e in (g if isinstance(g, list) else [g]) for v in e.fint[0]["fz"]]
                c.eq("shear in the gap", j.V0gap(0), max(V), scale=1e3)
                j.design(0, verb=False)
                c.same("utilization is a number", j.utilization[0] >= 0, True)
