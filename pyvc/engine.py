"""Path exploration, verification conditions and their discharge."""
import os
import subprocess
import tempfile
import time
import traceback
from fractions import Fraction

from . import terms as T
from .terms import B, R, Control, Unsupported

import z3


class Infeasible(Control):
    """the current path contradicts an assumption"""


class PathCut(Control):
    """path ends here by design (loop body of an arbitrary iteration)"""


class Budget(Control):
    """path or time budget exhausted"""


# ------------------------------------------------------------------ z3 bridge
class Z:
    """translation of terms to z3; keeps the side axioms of every atom used"""

    def __init__(self):
        self.cache = {}
        self.ax = {}          # node id -> list of z3 axioms introduced by that atom
        self.nodes = {}
        self.bcache = {}

    def term(self, n):
        c = self.cache
        if n.id in c:
            return c[n.id]
        stack = [n]
        while stack:
            x = stack[-1]
            if x.id in c:
                stack.pop()
                continue
            todo = [k for k in T.children(x) if k.id not in c]
            if todo:
                stack.extend(todo)
                continue
            c[x.id] = self._t(x)
            stack.pop()
        return c[n.id]

    def _t(self, n):
        op = n.op
        c = self.cache
        if op == "const":
            return z3.Q(n.args.numerator, n.args.denominator)
        if op == "var":
            name, integer = n.args
            if integer:
                iv = z3.Int(name)
                v = z3.ToReal(iv)
            else:
                v = z3.Real(name)
            ax = []
            lo, hi = T._bounds.get(n, (-T.INF, T.INF))
            if lo > -T.INF:
                ax.append(v >= _zq(lo))
            if hi < T.INF:
                ax.append(v <= _zq(hi))
            self.ax[n.id] = ax
            self.nodes[n.id] = n
            return v
        if op == "pi":
            v = z3.Real("pi!")
            self.ax[n.id] = [v > z3.Q(31415926535, 10000000000), v < z3.Q(31415926536, 10000000000)]
            return v
        if op == "add":
            return c[n.args[0].id] + c[n.args[1].id]
        if op == "mul":
            return c[n.args[0].id] * c[n.args[1].id]
        if op == "div":
            if n.args[1].op == "const":
                return c[n.args[0].id] / c[n.args[1].id]
            v = z3.Real("q!%d" % n.id)
            d = c[n.args[1].id]
            ax = [v * d == c[n.args[0].id], d != 0]
            lo, hi = T.interval(n)
            ax += _ivax(v, lo, hi)
            self.ax[n.id] = ax
            return v
        if op == "pow":
            b, k = c[n.args[0].id], n.args[1]
            r = b
            for _ in range(k - 1):
                r = r * b
            return r
        if op == "root":
            v = z3.Real("r!%d" % n.id)
            p = v
            for _ in range(n.args[1] - 1):
                p = p * v
            ax = [v >= 0, p == c[n.args[0].id]]
            lo, hi = T.interval(n)
            if lo > 0:
                ax += _ivax(v, lo, hi)
            self.ax[n.id] = ax
            return v
        if op == "fn":
            name = n.args[0]
            ch = n.args[1:]
            v = z3.Real("f!%s!%d" % (name, n.id))
            a = [c[x.id] for x in ch]
            ax = []
            if name in ("floor", "ceil", "round"):
                if name == "floor":
                    iv = z3.Int("i!%d" % n.id)
                    ax = [v == z3.ToReal(iv), v <= a[0], a[0] < v + 1]
                else:
                    k = int(ch[1].args)
                    h = Fraction(1, 2) / Fraction(10) ** k
                    hq = z3.Q(h.numerator, h.denominator)
                    ax = [v - a[0] <= hq, a[0] - v <= hq]
                    if k == 0:
                        ax.append(v == z3.ToReal(z3.Int("i!%d" % n.id)))
            elif name in ("sin", "cos"):
                other = T.fn("cos" if name == "sin" else "sin", ch[0])
                o = z3.Real("f!%s!%d" % (other.args[0], other.id))
                ax = [v * v + o * o == 1, v >= -1, v <= 1]
                # sin(2x), not needed
            elif name == "exp":
                ax = [v > 0, v >= 1 + a[0]]
            elif name == "log":
                ax = [v <= a[0] - 1, z3.Implies(a[0] >= 1, v >= 0), z3.Implies(a[0] > 1, v > 0)]
            elif name == "rpow":
                ax = [v > 0, z3.Implies(a[0] == 1, v == 1)]
                e = T.interval(ch[1])
                if e[0] > 0:
                    ax += [z3.Implies(a[0] > 1, v > 1), z3.Implies(a[0] < 1, v < 1)]
                elif e[1] < 0:
                    ax += [z3.Implies(a[0] > 1, v < 1), z3.Implies(a[0] < 1, v > 1)]
            elif name == "atan":
                pi = self.term(T.PI)
                ax = [v < pi / 2, v > -pi / 2, z3.Implies(a[0] > 0, v > 0), z3.Implies(a[0] < 0, v < 0)]
            elif name == "acos":
                pi = self.term(T.PI)
                ax = [v >= 0, v <= pi, z3.Implies(a[0] > 0, v < pi / 2), z3.Implies(a[0] < 0, v > pi / 2), z3.Implies(a[0] == 0, v == pi / 2)]
            elif name == "abs":
                ax = [v == z3.If(a[0] >= 0, a[0], -a[0])]
            lo, hi = T.interval(n)
            ax += _ivax(v, lo, hi)
            self.ax[n.id] = ax
            self.nodes[n.id] = n
            return v
        raise AssertionError(op)

    def form(self, b):
        k = b.key
        if k in self.bcache:
            return self.bcache[k]
        if b.op == "true":
            r = z3.BoolVal(True)
        elif b.op == "false":
            r = z3.BoolVal(False)
        elif b.op == "<":
            r = self.term(b.args[0]) < 0
        elif b.op == "<=":
            r = self.term(b.args[0]) <= 0
        elif b.op == "=":
            r = self.term(b.args[0]) == 0
        elif b.op == "not":
            r = z3.Not(self.form(b.args[0]))
        elif b.op == "and":
            r = z3.And(self.form(b.args[0]), self.form(b.args[1]))
        else:
            r = z3.Or(self.form(b.args[0]), self.form(b.args[1]))
        self.bcache[k] = r
        return r

    def axioms_of(self, bs):
        seen, out, pis = set(), [], False
        stack = []
        for b in bs:
            stack.extend(_bnodes(b))
        while stack:
            n = stack.pop()
            if n.id in seen:
                continue
            seen.add(n.id)
            self.term(n)
            out.extend(self.ax.get(n.id, ()))
            if n.op == "pi" or (n.op == "fn" and n.args[0] in ("atan", "acos")):
                pis = True
            stack.extend(T.children(n))
        if pis:
            self.term(T.PI)
            out.extend(self.ax[T.PI.id])
        # monotone functions: instantiate pairwise on equal function symbols
        fns = {}
        for i in seen:
            nd = self.nodes.get(i)
            if nd is not None and nd.op == "fn" and nd.args[0] in ("exp", "log", "atan"):
                fns.setdefault(nd.args[0], []).append(nd)
        for name, l in fns.items():
            if len(l) <= 6:
                for i in range(len(l)):
                    for j in range(i):
                        x, y = self.term(l[i].args[1]), self.term(l[j].args[1])
                        u, w = self.term(l[i]), self.term(l[j])
                        out.append(z3.Implies(x < y, u < w))
                        out.append(z3.Implies(y < x, w < u))
                        out.append(z3.Implies(x == y, u == w))
        return out


def _zq(f):
    q = Fraction(f)
    return z3.Q(q.numerator, q.denominator)


def _ivax(v, lo, hi):
    ax = []
    if lo > -T.INF:
        ax.append(v >= _zq(lo))
    if hi < T.INF:
        ax.append(v <= _zq(hi))
    return ax


def _bnodes(b):
    if b.op in ("<", "<=", "="):
        return [b.args[0]]
    out = []
    for a in b.args:
        out.extend(_bnodes(a))
    return out


def cone(pc, goals):
    """conditions of pc connected to goals through shared variables"""
    vs = set()
    for g in goals:
        vs |= T.b_atoms(g)
    rest = [(p, T.b_atoms(p)) for p in pc]
    out = []
    changed = True
    while changed:
        changed = False
        nxt = []
        for p, a in rest:
            if a & vs or not a:
                out.append(p)
                if not a <= vs:
                    vs |= a
                    changed = True
            else:
                nxt.append((p, a))
        rest = nxt
    return out


class Stats:
    def __init__(self):
        self.solver_s = 0.0
        self.calls = 0
        self.by = {}
        self.paths = 0
        self.cut = 0
        self.branches = 0


def check_sat(z, bs, timeout_ms, tactic=None, stats=None):
    """('sat', model) / ('unsat', None) / ('unknown', None)"""
    t0 = time.time()
    forms = [z.form(b) for b in bs] + z.axioms_of(bs)
    s = z3.SolverFor(tactic) if tactic else z3.Solver()
    s.set("timeout", int(timeout_ms))
    s.add(*forms)
    try:
        r = s.check()
    except z3.Z3Exception:
        r = z3.unknown
    if stats:
        stats.solver_s += time.time() - t0
        stats.calls += 1
    if r == z3.sat:
        return "sat", s.model()
    if r == z3.unsat:
        return "unsat", None
    return "unknown", None


def cvc5_unsat(z, bs, timeout_ms, stats=None):
    t0 = time.time()
    s = z3.Solver()
    s.add(*[z.form(b) for b in bs])
    s.add(*z.axioms_of(bs))
    txt = "(set-logic ALL)\n" + s.to_smt2().replace("(set-info :status unknown)", "")
    with tempfile.NamedTemporaryFile("w", suffix=".smt2", delete=False) as f:
        f.write(txt)
        name = f.name
    try:
        p = subprocess.run(["cvc5", "--nl-cov", "--tlimit=%d" % timeout_ms, name],
                           capture_output=True, text=True, timeout=timeout_ms / 1000 + 5)
        r = p.stdout.strip().split("\n")[0]
    except Exception:
        r = "unknown"
    finally:
        os.unlink(name)
    if stats:
        stats.solver_s += time.time() - t0
        stats.calls += 1
    return r == "unsat"


def _model_value(m, z, node):
    v = m.eval(z.term(node), model_completion=True)
    try:
        if z3.is_algebraic_value(v):
            v = v.approx(30)
        if z3.is_rational_value(v):
            return Fraction(v.numerator_as_long(), v.denominator_as_long())
        if z3.is_int_value(v):
            return Fraction(v.as_long())
    except Exception:
        pass
    return None


class VC:
    __slots__ = ("name", "status", "backend", "time", "model", "detail", "choices")

    def __init__(self, name, status, backend, t, model=None, detail="", choices=None):
        self.name = name
        self.status = status      # discharged / refuted / unknown
        self.backend = backend
        self.time = t
        self.model = model
        self.detail = detail
        self.choices = choices


def _full(b):
    if b.op in ("and", "or", "not"):
        return "%s(%s)" % (b.op, ", ".join(_full(x) for x in b.args))
    return "%s %s" % (b.op, " ".join(T.show(x, 40) if hasattr(x, "id") else str(x) for x in b.args))


class Engine:
    """explores every feasible path of a harness; collects VCs"""

    def __init__(self, goal_timeout_ms=8000, branch_timeout_ms=400, max_paths=4000, budget_s=600):
        self.stats = Stats()
        self.z = Z()
        self.goal_timeout = goal_timeout_ms
        self.branch_timeout = branch_timeout_ms
        self.max_paths = max_paths
        self.deadline = time.time() + budget_s
        self.allow_hash = True
        self.vcs = []
        self.problems = []        # engine limits met (path, text)
        self.path_models = []     # witness inputs, one per completed path
        self.feas_cache = {}
        self.sign_cache = {}
        self._simp_busy = set()
        self.goal_cache = {}
        self.frozen = False
        self.refuted_names = {}
        self.failed = {}          # obligation -> paths on which it could not be decided
        self.lost = 0.0           # time spent on them
        self.hurry = False
        self.want_models = True

    # ---- exploration
    def run(self, harness):
        from . import api
        stack = [[]]
        prev = T.ENGINE
        T.ENGINE = self
        try:
            while stack:
                if self.stats.paths >= self.max_paths or time.time() > self.deadline:
                    self.problems.append("path/time budget exhausted after %d paths" % self.stats.paths)
                    break
                self.prefix = stack.pop()
                self.taken = []
                self.pc = []
                self.pcset = set()
                self.known = {}
                self.inputs = {}
                self.choices = {}
                self.pending = []
                self.fresh = 0
                self.path_vcs = 0
                T._bounds_frozen = False
                ctx = api.ProveCtx(self)
                ended = "ok"
                try:
                    harness(ctx)
                except Infeasible:
                    ended = "infeasible"
                except PathCut:
                    ended = "cut"
                except Unsupported as e:
                    tb = traceback.extract_tb(e.__traceback__)
                    where = [f for f in tb if "/metku/" in f.filename]
                    loc = where[-1] if where else tb[-1]
                    msg = "unsupported: %s at %s:%s" % (e, loc.filename.split("/repo/")[-1], loc.lineno)
                    ended = "unsupported"
                    # is the path feasible at all?
                    if not self._path_infeasible():
                        self.problems.append(msg + " | choices %s" % (self.choices,))
                        self._vc_fail("path reaches only supported code", msg)
                except RecursionError as e:
                    ended = "unsupported"
                    self._vc_fail("path reaches only supported code", "recursion")
                except Exception as e:
                    ended = "exception"
                    if not self._path_infeasible():
                        tb = traceback.extract_tb(e.__traceback__)
                        where = [f for f in tb if "/metku/" in f.filename]
                        loc = where[-1] if where else tb[-1]
                        msg = "%s: %s at %s:%s" % (type(e).__name__, e, loc.filename.split("/repo/")[-1], loc.lineno)
                        self._vc_fail("no exception", msg, refuted=True)
                if ended != "infeasible":
                    self.stats.paths += 1
                    if ended == "ok" and self.want_models and len(self.path_models) < 400:
                        m = self.model_of(self.pc, 300)
                        if m is not None:
                            self.path_models.append((dict(self.choices), m))
                stack.extend(self.pending)
        finally:
            T.ENGINE = prev
        return self

    def _path_infeasible(self):
        r, _ = check_sat(self.z, self.pc, 4000, stats=self.stats)
        if r == "unknown":
            r, _ = check_sat(self.z, self.pc, 4000, "QF_NRA", stats=self.stats)
        return r == "unsat"

    def _vc_fail(self, name, detail, refuted=False):
        m = self.model_of(self.pc, 3000)
        self.vcs.append(VC(name, "refuted" if (refuted and m is not None) else "unknown", "engine", 0.0, m, detail,
                           dict(self.choices)))

    # ---- decisions
    def choose(self, n, label):
        """n-way nondeterministic choice (harness enumeration)"""
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
        else:
            for k in range(n - 1, 0, -1):
                self.pending.append(self.taken + [k])
            v = 0
        self.taken.append(v)
        return v

    def assume(self, b):
        b = T.to_b(b)
        if b is T.TRUE:
            return
        if b is T.FALSE:
            raise Infeasible()
        iv = T.b_interval(b)
        if iv is True:
            return
        if iv is False:
            raise Infeasible()
        self._push(b)

    def _push(self, b):
        if b.op == "and":
            self._push(b.args[0])
            self._push(b.args[1])
            return
        if b.key not in self.pcset:
            self.pcset.add(b.key)
            self.pc.append(b)

    def _syntactic(self, b):
        if b is T.TRUE:
            return True
        if b is T.FALSE:
            return False
        r = T.b_interval(b)
        if r is not None:
            return r
        if b.key in self.pcset:
            return True
        nb = T.b_not(b)
        if nb.key in self.pcset:
            return False
        if b.op in ("<", "<=", "="):
            n = b.args[0]
            # known strict/equal companions
            lt = T.b_cmp("<", n).key in self.pcset
            gt = T.b_cmp("<", T.neg(n)).key in self.pcset
            eq = T.b_cmp("=", n).key in self.pcset
            if b.op == "<=":
                if lt or eq:
                    return True
                if gt:
                    return False
            if b.op == "<":
                if eq or gt:
                    return False
            if b.op == "=":
                if lt or gt:
                    return False
                le = T.b_cmp("<=", n).key in self.pcset
                ge = T.b_cmp("<=", T.neg(n)).key in self.pcset
                if le and ge:
                    return True
        if b.op == "and":
            x, y = self._syntactic(b.args[0]), self._syntactic(b.args[1])
            if x is False or y is False:
                return False
            if x and y:
                return True
        if b.op == "or":
            x, y = self._syntactic(b.args[0]), self._syntactic(b.args[1])
            if x or y:
                return True
            if x is False and y is False:
                return False
        return None

    def decide(self, b):
        r = self._syntactic(b)
        if r is not None:
            return r
        if b.op in ("<", "<=", "="):
            q = self._nfq(b.args[0])
            if q is not None:
                return q < 0 if b.op == "<" else q <= 0 if b.op == "<=" else q == 0
        i = len(self.taken)
        if i < len(self.prefix):
            v = self.prefix[i]
            self.taken.append(v)
            self._push(b if v else T.b_not(b))
            return v
        if time.time() > self.deadline:
            raise Unsupported("time budget")
        nb = T.b_not(b)
        rel = cone(self.pc, [b])
        t = self._feasible(rel, b)
        f = self._feasible(rel, nb) if t else True
        self.stats.branches += 1
        if t and f:
            self.pending.append(self.taken + [False])
            v = True
        elif t:
            v = True
        else:
            v = False
        self.taken.append(v)
        self._push(b if v else nb)
        return v

    def _nfq(self, node):
        # cheap normal-form constant test for small terms
        if T.free_atoms(node) and node.id not in self.known:
            self.known[node.id] = True
            import sys
            lim = T.LIMIT
            T.LIMIT = 400
            try:
                return T.nf_const(node)
            finally:
                T.LIMIT = lim
        return None

    def _sign(self, node):
        """sign of a term on this path (intervals, path condition, solver): 1, -1 or None"""
        lo, hi = T.interval(node)
        if lo > 0:
            return 1
        if hi < 0:
            return -1
        pos, neg = T.b_cmp("<", T.neg(node)), T.b_cmp("<", node)
        if self._syntactic(pos) is True:
            return 1
        if self._syntactic(neg) is True:
            return -1
        key = (frozenset(p.key for p in self.pc), node.id)
        if key not in self.sign_cache:
            r = None
            for b, v in ((pos, 1), (neg, -1)):
                rel = cone(self.pc, [b])
                if check_sat(self.z, rel + [T.b_not(b)], self.branch_timeout, stats=self.stats)[0] == "unsat":
                    r = v
                    break
            if r is None:
                for b, v in ((pos, 1), (neg, -1)):
                    if T.bernstein_false(T.b_not(b)):
                        r = v
                        break
            self.sign_cache[key] = r
        return self.sign_cache[key]

    def simplify(self, b):
        """equivalent formula with divisions and positive common factors removed where the signs are known"""
        if b.op in ("<", "<=", "="):
            if b.key in self._simp_busy:
                return b
            self._simp_busy.add(b.key)
            try:
                r = T.simp_cmp(b.op, b.args[0], self._sign)
            finally:
                self._simp_busy.discard(b.key)
            return b if r is None else r
        if b.op == "not":
            return T.b_not(self.simplify(b.args[0]))
        if b.op == "and":
            return T.b_and(self.simplify(b.args[0]), self.simplify(b.args[1]))
        if b.op == "or":
            return T.b_or(self.simplify(b.args[0]), self.simplify(b.args[1]))
        return b

    def _feasible(self, rel, b):
        key = (frozenset(p.key for p in rel), b.key)
        if key in self.feas_cache:
            return self.feas_cache[key]
        r, _ = check_sat(self.z, rel + [b], self.branch_timeout, stats=self.stats)
        if r == "unknown":
            bs = [self.simplify(x) for x in rel + [b]]
            if any(x is T.FALSE for x in bs) or T.bernstein_false(bs[-1]):
                r = "unsat"
            else:
                r, _ = check_sat(self.z, bs, self.branch_timeout, "QF_NRA", stats=self.stats)
        res = r != "unsat"
        self.feas_cache[key] = res
        return res

    # ---- obligations
    def known_value(self, n):
        """the constant this term equals by an equation of the path condition, or None"""
        for p in self.pc:
            if p.op == "=":
                v = T.nf_const(T.add(p.args[0], T.neg(n)))
                if v is not None:
                    return -v
                v = T.nf_const(T.add(p.args[0], n))
                if v is not None:
                    return v
        return None

    def ensure(self, name, b, eq=None):
        """b must hold on this path; eq=(x,y): equality goal given as terms"""
        self.path_vcs += 1
        t0 = time.time()
        b = T.to_b(b)
        failed = self.failed.get(name, 0)
        if failed >= 2 or self.lost > 40:
            # this obligation is already lost: the other paths only add detail
            full = self.goal_timeout
            self.goal_timeout = min(full, 2000 if failed < 8 and self.lost < 80 else 300)
            self.hurry = True
            try:
                status, backend, model = self.prove(b, eq)
            finally:
                self.goal_timeout, self.hurry = full, False
        else:
            status, backend, model = self.prove(b, eq)
        dt = time.time() - t0
        if status == "unknown":
            self.failed[name] = failed + 1
            self.lost += dt
            if self.lost > 60 or sum(self.failed.values()) >= 6:
                self.deadline = min(self.deadline, time.time() + 60)
        detail = ""
        if status != "discharged":
            detail = repr(b)[:600]
            if os.environ.get("PYVC_DEBUG"):
                with open(os.environ["PYVC_DEBUG"], "a") as fh:
                    fh.write("FAIL %s %s\n   %s\n" % (name, status, _full(b)))
                    for p in self.pc:
                        fh.write("      pc %s\n" % _full(p))
        self.vcs.append(VC(name, status, backend, dt, model, detail, dict(self.choices)))
        self.stats.by[backend] = self.stats.by.get(backend, 0) + 1
        return status == "discharged"

    def prove(self, b, eq=None):
        r = self._syntactic(b)
        if r is True:
            return "discharged", "path/interval", None
        if b.op == "and":
            s1 = self.prove(b.args[0])
            if s1[0] != "discharged":
                return s1
            return self.prove(b.args[1])
        if b.op == "=":
            z = T.nf_zero(b.args[0])
            if z is True:
                return "discharged", "polynomial normal form", None
        key = (frozenset(p.key for p in self.pc), b.key)
        if key in self.goal_cache:
            return self.goal_cache[key]
        res = self._prove_smt(b)
        self.goal_cache[key] = res
        return res

    def _prove_smt(self, b):
        nb = T.b_not(b)
        rel = cone(self.pc, [b])
        goal_to = self.goal_timeout
        if b is T.FALSE:
            m = self.model_of(self.pc, goal_to)
            if m is not None:
                return "refuted", "z3", m
            if self._path_infeasible():
                return "discharged", "z3 (path infeasible)", None
            return "unknown", "z3", None
        r, m = check_sat(self.z, rel + [nb], min(2000, goal_to), stats=self.stats)
        be = "z3"
        if r == "unknown":
            bs = [self.simplify(x) for x in rel + [nb]]
            be = "polynomial normal form + z3 nlsat"
            if any(x is T.FALSE for x in bs):
                r = "unsat"
            elif T.bernstein_false(bs[-1]):
                r, be = "unsat", "polynomial normal form + Bernstein bounds"
            else:
                r, m = check_sat(self.z, bs, goal_to, "QF_NRA", stats=self.stats)
        if r == "unknown":
            r, m = check_sat(self.z, rel + [nb], goal_to, "QF_NRA", stats=self.stats)
            be = "z3 nlsat"
        if r == "unknown" and not self.hurry:
            if cvc5_unsat(self.z, rel + [nb], goal_to, stats=self.stats):
                return "discharged", "cvc5", None
        if r == "unsat":
            return "discharged", be, None
        # sat on the cone, or unknown: look at the whole path condition
        if r == "sat" and len(rel) == len(self.pc):
            return "refuted", be, self._values(m)
        r2, m2 = check_sat(self.z, self.pc + [nb], goal_to, "QF_NRA", stats=self.stats)
        if r2 == "unsat":
            return "discharged", "z3 nlsat", None
        if r2 == "sat":
            return "refuted", "z3 nlsat", self._values(m2)
        if r == "sat":
            return "refuted", be, self._values(m)
        return "unknown", "z3/cvc5", None

    def _values(self, m):
        out = {}
        for name, node in self.inputs.items():
            v = _model_value(m, self.z, node)
            if v is not None:
                out[name] = float(v) if not node.args[1] else int(v)
        return out

    def model_of(self, pc, to):
        r, m = check_sat(self.z, pc, to, stats=self.stats)
        if r == "unknown":
            r, m = check_sat(self.z, pc, to, "QF_NRA", stats=self.stats)
        if r == "sat":
            return self._values(m)
        return None
