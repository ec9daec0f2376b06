"""Checks over the bundled test equations: P07 (Jacobi matrices), P08 (closed forms, invariants)."""
import hashlib
import os
import random
from mpmath import mp, mpf
from front import PROBE, Broken, extract
from interp import *
import terms as T
from terms import add, cases
from lib import rel
from rk import taint
from rkchecks import show

DIGITS = 60
TOL = mpf(10) ** -35
_db = []


def database():
    if not _db:
        _db.append(DB(extract([os.path.join(PROBE, "equations.cpp")])))
    return _db[0]


# ------------------------------------------------- values and derivatives
class NoValue(Exception):
    pass


class Outside(Exception):
    """The point lies outside the domain of the term."""


def jet(roots, env, seeds):
    """(value, partial derivatives) of every root at the point env; seeds: atom ids, the directions of differentiation."""
    m = len(seeds)
    zero = [mpf(0)] * m
    memo = {}
    for r in roots:
        st = [r]
        while st:
            x = st[-1]
            if x.nid in memo:
                st.pop()
                continue
            if x.const is not None:
                memo[x.nid] = (mpf(x.const.numerator) / x.const.denominator, zero)
                st.pop()
                continue
            if x.op == "atom":
                if x.nid not in env:
                    raise NoValue("free quantity " + show(x))
                g = list(zero)
                if x.nid in seeds:
                    g[seeds.index(x.nid)] = mpf(1)
                memo[x.nid] = (env[x.nid], g)
                st.pop()
                continue
            kids = [a for a in x.args if isinstance(a, Node)]
            miss = [k for k in kids if k.nid not in memo]
            if miss:
                st.extend(miss)
                continue
            memo[x.nid] = rule(x, [memo[k.nid] for k in kids])
            st.pop()
    return [memo[r.nid] for r in roots]


def rule(x, a):
    op = x.op
    (u, du) = a[0]
    lin = lambda p, q=None: [p * s + (q * t if q is not None else 0) for s, t in zip(du, a[1][1] if q is not None else du)]
    if op == "add":
        return u + a[1][0], lin(mpf(1), mpf(1))
    if op == "sub":
        return u - a[1][0], lin(mpf(1), mpf(-1))
    if op == "mul":
        return u * a[1][0], lin(a[1][0], u)
    if op == "div":
        v = a[1][0]
        if v == 0:
            raise Outside()
        return u / v, lin(1 / v, -u / (v * v))
    if op == "uf":
        f = x.args[0]
        if f == "sqrt":
            if u <= 0:
                raise Outside()
            s = mp.sqrt(u)
            return s, lin(1 / (2 * s))
        if f == "exp":
            return mp.exp(u), lin(mp.exp(u))
        if f == "sin":
            return mp.sin(u), lin(mp.cos(u))
        if f == "cos":
            return mp.cos(u), lin(-mp.sin(u))
        if f == "tan":
            return mp.tan(u), lin(1 + mp.tan(u) ** 2)
        if f == "tanh":
            return mp.tanh(u), lin(1 - mp.tanh(u) ** 2)
        if f == "sinh":
            return mp.sinh(u), lin(mp.cosh(u))
        if f == "cosh":
            return mp.cosh(u), lin(mp.sinh(u))
        if f == "abs":
            return abs(u), lin(mpf(1 if u > 0 else -1))
        if f == "cbrt":
            if u <= 0:
                raise Outside()
            s = mp.cbrt(u)
            return s, lin(1 / (3 * s * s))
        if f == "log":
            if u <= 0:
                raise Outside()
            return mp.log(u), lin(1 / u)
        if f == "pow":
            v = a[1][0]
            if u <= 0:
                if v != int(v):
                    raise Outside()
                return u ** int(v), lin(v * u ** int(v - 1))
            return u ** v, lin(v * u ** (v - 1), u ** v * mp.log(u))
    if op in ("max", "min"):
        k = 0 if (u >= a[1][0]) == (op == "max") else 1
        return a[k]
    raise NoValue("no derivative rule for " + show(x))


def point(atoms, k, positive=()):
    """The k-th fixed test point."""
    r = random.Random("rehuel:%d" % k)
    env = {}
    for a in sorted(atoms, key=lambda a: str(a.args[0])):
        v = mpf(r.randint(100, 900)) / 331
        if k % 2 and a not in positive and r.random() < 0.5:
            v = -v
        env[a.nid] = v
    return env


# ------------------------------------------------------------- equations
class Eq:
    def __init__(self, db, rec, ctor):
        self.db, self.rec, self.ctor = db, rec, ctor
        self.name = rec["t"].split("::")[-1]
        self.label = self.name + ("" if ctor is None else "/%d" % len(ctor["params"]))
        self.params = []

    def method(self, name, nargs=None):
        for f in self.db.byq.get(self.rec["t"] + "::" + name, []):
            if f.get("body") and (nargs is None or len(f["params"]) == nargs):
                return f
        for b in self.rec["bases"]:
            for f in self.db.byq.get(b + "::" + name, []):
                if f.get("body") and (nargs is None or len(f["params"]) == nargs):
                    return f
        return None

    def fresh(self):
        it = Interp(self.db, {})
        st = it.new_state()
        tu = (self.ctor or self.method("fun"))["tu"]
        st.mem["OBJ"] = it.default_rec(self.rec, tu, "obj", False, st, None)
        self.params = []
        if self.ctor is not None:
            self.params = [atom("p%d" % k) for k in range(len(self.ctor["params"]))]
            it.callfn(self.ctor, LV("OBJ"), list(self.params), st, "C")
        return it, st

    def call(self, it, st, fn, args):
        a = []
        for k, (p, v) in enumerate(zip(fn["params"], args)):
            if isinstance(v, MatV):
                st.mem["ARG%d" % k] = v
                v = LV("ARG%d" % k)
            a.append(v)
        r = it.callfn(fn, LV("OBJ"), a, st, "M%d" % it.ncall if hasattr(it, "ncall") else "M")
        return it.rv(r, st)

    def at(self, n):
        """Right-hand side and Jacobi matrix for a state of n components, or None when n does not fit."""
        t = atom("t")
        y = [atom("y%d" % i) for i in range(n)]
        it, st = self.fresh()
        fails = []
        it.outside = lambda *a: fails.append(a)
        within = it.within

        def chk(i, m):
            if isinstance(i, int) and isinstance(m, int) and not 0 <= i < m:
                fails.append((i, m))
            return within(i, m)
        it.within = chk
        f = self.call(it, st, self.method("fun"), [t, MatV(n, 1, y)])
        it2, st2 = self.fresh()
        it2.outside = it.outside
        J = self.call(it2, st2, self.method("jac"), [t, MatV(n, 1, y)])
        self.its = (it, it2)
        if not isinstance(f, MatV) or not isinstance(J, MatV):
            raise Unsup("value of fun or jac not tracked")
        self.t, self.y, self.f, self.J, self.n = t, y, f, J, n
        return not fails and f.n == n, (f.n, J.r, J.c), fails


def equations(rep):
    """Every class derived from functor whose fun and jac have bodies, with each of its constructors."""
    db = database()
    out = []
    names = set()
    for d in db.tus:
        for t, r in d["recs"].items():
            if t in names or not any("functor" == b.split("::")[-1] for b in r["bases"]):
                continue
            names.add(t)
            ctors = [f for f in db.byq.get(t + "::" + t.split("::")[-1], []) if f.get("ctor") and f.get("body")
                     and not any(clean(p["t"]) == t for p in f["params"])]
            for c in (sorted(ctors, key=lambda f: len(f["params"])) or [None]):
                e = Eq(db, r, c)
                if e.method("fun") and e.method("jac"):
                    out.append(e)
    if len({e.name for e in out}) < 5:
        raise Broken("only %d bundled equations found" % len({e.name for e in out}))
    return out


def size(e):
    """The system size: the smallest one for which every access is inside the vectors and fun maps it to itself."""
    why = None
    for n in range(1, 25):
        try:
            ok, shape, fails = e.at(n)
        except (Unsup, Dead) as ex:      # an operation on vectors of different lengths has no value
            why = ex
            continue
        if ok:
            return n
    if why is not None:
        raise why
    return None


def where(f):
    return "%s:%d (%s)" % (rel(f["file"]), f["l"], f["q"])


def solved(e, rep):
    for it in e.its:
        rep.uses(it)


def at_points(fn, atoms, want=4):
    """Values of fn(env) at several points inside the domain."""
    out = []
    mp.dps = DIGITS
    for k in range(40):
        try:
            out.append(fn(point(atoms, k)))
        except Outside:
            continue
        if len(out) == want:
            break
    if not out:
        raise NoValue("no point inside the domain")
    return out


def digest(v):
    """Identity of a residual: its values at the fixed points, to 12 digits."""
    s = ";".join(mp.nstr(x, 12, min_fixed=0, max_fixed=0) for x in v)
    return hashlib.sha256(s.encode()).hexdigest()[:10]


def close(x, y, scale):
    return abs(x - y) <= TOL * (1 + abs(x) + abs(y) + scale)


def split(rep, rname, sub, terms):
    """Cases of the branch conditions in terms; equalities are left out (isolated points)."""
    for c, ts in cases(lambda c: [c.red(x) for x in terms], limit=500):
        if any(k.op == "eq0" and v is True for k, v in c.facts.items()):
            rep.undecided(rname, sub, "special case at isolated points: " + c.describe())
            continue
        yield c, ts


# --------------------------------------------------------------------- P07
def P07(rep):
    rep.rule("derivative", "every entry (i,j) of jac is the partial derivative of component i of fun with respect to component j of the state")
    rep.rule("shape", "jac is a square matrix of the size of the system")
    rep.rule("default", "functor::compute returns fun and, when asked for, stores jac")
    rep.rule("wrapper", "the wrapper for Newton iteration passes on fun and jac at its fixed time")
    for e in equations(rep):
        try:
            n = size(e)
        except (Unsup, Dead) as ex:
            rep.undecided("derivative", e.label, str(ex))
            continue
        fj = e.method("jac")
        if n is None:
            rep.bad("shape", "%s:size" % e.name, where(e.method("fun")), "no system size for which fun maps states to derivatives of the same size without reading past the state")
            continue
        solved(e, rep)
        ok = e.J.r == n and e.J.c == n
        rep.check(ok, "shape", "%s:shape" % e.name, where(fj), "jac is %d x %d for a system of %d equations" % (e.J.r, e.J.c, n), e.label)
        if ok:
            derivative(rep, e, n, fj)
    compute(rep)
    wrapper(rep)
    return ("Right-hand side and Jacobi matrix of every class derived from functor are turned into terms over symbolic state, time and parameters; the derivative of "
            "the first is taken by the rules of differentiation and compared with the second.",
            ["identities between terms are decided by evaluating both to %d digits at fixed generic points" % DIGITS, "real arithmetic"], 30)


def derivative(rep, e, n, fj):
    bad = {}
    mp.dps = DIGITS
    terms = list(e.f.e) + list(e.J.e)
    if any(taint(x) for x in terms):
        rep.undecided("derivative", e.label, "fun or jac not tracked")
        return
    atoms = [e.t] + e.y + e.params
    seeds = [a.nid for a in e.y]
    for c, ts in split(rep, "derivative", e.label, terms):
        F, J = ts[:n], ts[n:]
        try:
            vals = at_points(lambda env: jet(ts, env, seeds), atoms)
        except NoValue as ex:
            rep.undecided("derivative", e.label, str(ex))
            return
        for i in range(n):
            for j in range(n):
                r = [v[i][1][j] - v[n + j * n + i][0] for v in vals]
                sc = max(abs(v[i][0]) for v in vals)
                if all(abs(x) <= TOL * (1 + sc + abs(v[i][1][j])) for x, v in zip(r, vals)):
                    rep.ok("derivative", "%s d(f%d)/d(y%d)" % (e.label, i, j))
                else:
                    bad[(i, j)] = r
    if bad:
        key = "%s:jac:%s" % (e.label, digest([x for k in sorted(bad) for x in bad[k][:1]]))
        rep.bad("derivative", key, where(fj), "%d of %d entries of jac differ from the derivative of fun: %s" % (
            len(bad), n * n, ", ".join("(%d,%d)" % k for k in sorted(bad)[:8]) + (", ..." if len(bad) > 8 else "")))


def ode_hooks(n):
    def fun(it, st, fr, e, this, a):
        t, y = num(it.rv(a[0], st)), it.rv(a[1], st)
        return MatV(n, 1, [T.uf("f%d" % i, t, *y.e) for i in range(n)])

    def jac(it, st, fr, e, this, a):
        t, y = num(it.rv(a[0], st)), it.rv(a[1], st)
        return MatV(n, n, [T.uf("J%d_%d" % (i, j), t, *y.e) for j in range(n) for i in range(n)])
    return fun, jac


def symbolic(n):
    t, y = atom("t"), [atom("y%d" % i) for i in range(n)]
    return t, y, [T.uf("f%d" % i, t, *y) for i in range(n)], [T.uf("J%d_%d" % (i, j), t, *y) for j in range(n) for i in range(n)]


def compute(rep):
    db = database()
    fns = [f for f in db.byq.get("functor::compute", []) if f.get("body")]
    if not fns:
        return
    n = 2
    fun, jac = ode_hooks(n)
    t, y, F, J = symbolic(n)
    for want in (True, False):
        it = Interp(db, {"functor::fun": fun, "functor::jac": jac})
        st = it.new_state()
        st.mem["OBJ"] = StructV("functor", {})
        st.mem["Y"] = MatV(n, 1, y)
        old = [atom("old%d" % k) for k in range(n * n)]
        st.mem["J"] = MatV(n, n, old)
        try:
            r = it.rv(it.callfn(fns[0], LV("OBJ"), [t, LV("Y"), LV("J"), want], st, "C"), st)
        except (Unsup, Dead) as ex:
            rep.undecided("default", "calc_J=%s" % want, str(ex))
            continue
        rep.uses(it)
        got = st.mem["J"]
        if not isinstance(r, MatV) or not isinstance(got, MatV) or any(taint(x) for x in r.e) or any(taint(x) for x in got.e):
            rep.undecided("default", "calc_J=%s" % want, "result not tracked")
            continue
        rep.check(list(r.e) == F, "default", "compute:value:%s" % want, where(fns[0]), "compute does not return fun(t, y)", "calc_J=%s" % want)
        if want:
            rep.check((got.r, got.c) == (n, n) and list(got.e) == J, "default", "compute:jac:%s" % want, where(fns[0]), "compute does not store jac(t, y)", "calc_J=%s matrix" % want)


def wrapper(rep):
    db = database()
    n = 2
    fun, jac = ode_hooks(n)
    t, y, F, J = symbolic(n)
    for nm, exp in (("probe_wrap_fun", F), ("probe_wrap_jac", J)):
        fns = [f for f in db.byq.get(nm, []) if f.get("body")]
        if not fns:
            raise Broken(nm + " not found")
        it = Interp(db, {"probe_ode::fun": fun, "probe_ode::jac": jac})
        st = it.new_state()
        st.mem["OBJ"] = StructV("probe_ode", {})
        st.mem["Y"] = MatV(n, 1, y)
        try:
            r = it.rv(it.callfn(fns[0], None, [LV("OBJ"), t, LV("Y")], st, "C"), st)
        except (Unsup, Dead) as ex:
            rep.undecided("wrapper", nm, str(ex))
            continue
        rep.uses(it)
        w = [f for f in db.byq.get("newton::newton_functor_wrapper::" + nm[-3:], []) if f.get("body")]
        if not isinstance(r, MatV) or any(taint(x) for x in r.e):
            rep.undecided("wrapper", nm, "result not tracked")
            continue
        rep.check(list(r.e) == exp, "wrapper", "wrapper:" + nm[-3:], where((w or fns)[0]), "the wrapper's %s is not the wrapped equation's %s at its time" % (nm[-3:], nm[-3:]), nm[-3:])


# --------------------------------------------------------------------- P08
# Initial states of the closed forms, as documented with the equations.
START = {"exponential": [1], "harmonic": [0, 1], "stiff_eq": [1, 0]}
# Linear invariants of the reaction systems (total mass) and of the mechanical ones (momentum).
LINEAR = {"rober": [("mass", [1, 1, 1])], "dimer": [("mass", [1, 2])], "kinetic_4": [("mass", [1, 2, 3, 4])],
          "three_body": [("x-momentum", [0] * 6 + [1, 0] * 3), ("y-momentum", [0] * 6 + [0, 1] * 3)]}


def P08(rep):
    rep.rule("solution", "the derivative of the closed form is the right-hand side at the closed form, identically in time and parameters")
    rep.rule("start", "the closed form starts at the initial state it is given for, and is not the zero solution")
    rep.rule("energy", "the time derivative of the energy along the equation vanishes identically")
    rep.rule("linear", "the conserved linear quantity of the equation (total mass of a reaction system, total momentum of the three bodies) has derivative zero identically")
    for e in equations(rep):
        try:
            n = size(e)
        except (Unsup, Dead) as ex:
            rep.undecided("solution", e.label, str(ex))
            continue
        if n is None:
            rep.undecided("solution", e.label, "system size not found (see P07)")
            continue
        solved(e, rep)
        try:
            closed(rep, e, n)
            energy(rep, e, n)
            linear(rep, e, n)
        except (Unsup, Dead, NoValue) as ex:
            rep.undecided("solution", e.label, str(ex))
    return ("Closed forms, right-hand sides and energies of the bundled equations as terms over symbolic time, state and parameters; derivatives by the rules of differentiation.",
            ["identities between terms are decided by evaluating both to %d digits at fixed generic points" % DIGITS, "real arithmetic"], 8)


def closed(rep, e, n):
    fs = e.method("sol", 1)
    if not fs:
        return
    it, st = e.fresh()
    t = atom("t")
    S = e.call(it, st, fs, [t])
    rep.uses(it)
    it2, st2 = e.fresh()
    if not isinstance(S, MatV) or any(taint(x) for x in S.e):
        rep.undecided("solution", e.label, "closed form not tracked")
        return
    if S.n != n:
        rep.bad("solution", "%s:sol:size" % e.label, where(fs), "the closed form has %d components, the equation %d" % (S.n, n))
        return
    F = e.call(it2, st2, e.method("fun"), [t, MatV(n, 1, S.e)])
    if any(taint(x) for x in F.e):
        rep.undecided("solution", e.label, "right-hand side at the closed form not tracked")
        return
    ts = list(S.e) + list(F.e)
    for c, rs in split(rep, "solution", e.label, ts):
        vals = at_points(lambda env: jet(rs, env, [t.nid]), [t] + e.params)
        for i in range(n):
            r = [v[i][1][0] - v[n + i][0] for v in vals]
            sc = max(abs(w[0]) for v in vals for w in v)
            if all(abs(x) <= TOL * (1 + sc) for x in r):
                rep.ok("solution", "%s component %d" % (e.label, i))
            else:
                rep.bad("solution", "%s:sol:%d:%s" % (e.label, i, digest(r[:1])), where(fs), "component %d of the closed form does not satisfy the equation" % i)
        env0 = point(e.params, 0)
        env0[t.nid] = mpf(0)
        mp.dps = DIGITS
        v0 = [v[0] for v in jet(rs[:n], env0, [])]
        if e.name in START:
            want = START[e.name]
            rep.check(len(want) == n and all(abs(a - b) <= TOL for a, b in zip(v0, want)), "start", "%s:start" % e.label, where(fs),
                      "the closed form starts at (%s), expected (%s)" % (", ".join(mp.nstr(x, 6) for x in v0), ", ".join(map(str, want))), e.label)
        else:
            rep.check(any(abs(a) > TOL for a in v0), "start", "%s:start" % e.label, where(fs), "the closed form is the zero solution", e.label)


def energies(e):
    out = {}
    for q, fns in e.db.byq.items():
        if not q.startswith(e.rec["t"] + "::"):
            continue
        nm = q.split("::")[-1]
        for f in fns:
            if f.get("body") and len(f["params"]) == 1 and ("energy" in nm.lower() or "hamilton" in nm.lower()):
                out[nm] = f
    tot = {k: f for k, f in out.items() if "kin" not in k and "pot" not in k}
    parts = {k: f for k, f in out.items() if "kin" in k or "pot" in k}
    r = [(k, [f]) for k, f in sorted(tot.items())]
    if any("kin" in k for k in parts) and any("pot" in k for k in parts):
        r.append(("+".join(sorted(parts)), [parts[k] for k in sorted(parts)]))
    return r


def energy(rep, e, n):
    for nm, fns in energies(e):
        E = None
        for f in fns:
            it, st = e.fresh()
            v = num(e.call(it, st, f, [MatV(n, 1, e.y)]))
            rep.uses(it)
            E = v if E is None else add(E, v)
        conserved(rep, "energy", e, n, nm, E, fns[0])


def linear(rep, e, n):
    for nm, w in LINEAR.get(e.name, []):
        if len(w) != n:
            rep.bad("linear", "%s:%s:size" % (e.name, nm), where(e.method("fun")), "the equation has %d components, %d expected" % (n, len(w)))
            continue
        E = T.ZERO
        for a, y in zip(w, e.y):
            E = add(E, T.mul(T.const(a), y))
        conserved(rep, "linear", e, n, nm, E, e.method("fun"))


def conserved(rep, rname, e, n, nm, E, fn):
    ts = [E] + list(e.f.e)
    if any(taint(x) for x in ts):
        rep.undecided(rname, e.label, "%s not tracked" % nm)
        return
    seeds = [a.nid for a in e.y]
    for c, rs in split(rep, rname, e.label, ts):
        vals = at_points(lambda env: jet(rs, env, seeds), [e.t] + e.y + e.params)
        parts = [[v[0][1][i] * v[1 + i][0] for i in range(n)] for v in vals]
        r = [sum(p) for p in parts]
        if all(abs(x) <= TOL * (1 + sum(map(abs, p))) for x, p in zip(r, parts)):
            rep.ok(rname, "%s %s" % (e.label, nm))
        else:
            rep.bad(rname, "%s:%s:%s" % (e.label, nm, digest(r[:2])), where(fn), "%s is not conserved: its time derivative at a generic state is %s" % (nm, mp.nstr(r[0], 8)))
