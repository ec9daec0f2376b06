"""Checks over the Runge-Kutta integration loops: P09-P17, P27."""
from fractions import Fraction
from rk import *
from rk import sumn
import rk as R
import lin
import terms as T
import intrin
from lib import Broken, rel

ASSUME = ["real arithmetic: rounding is not modelled, so statements about times hold up to rounding",
          "the stage count and the system size are small fixed numbers per configuration; all other quantities (tableau, options, state, right-hand side) are symbolic",
          "two terms are equal when their fingerprints in GF(2^61-1) agree (error probability below 1e-15 per run)"]


def configs(fam, tier, **kw):
    """Configurations of the integrator that are analysed."""
    out = []
    base = [dict(Ns=2), dict(Ns=3)]
    if tier == "thorough":
        base += [dict(Ns=4), dict(Ns=2, Neq=1), dict(Ns=2, Neq=3), dict(Ns=1, Neq=2)]
        if fam == "irk":
            base = [b for b in base if b["Ns"] < 4 and b.get("Neq") != 3]
    elif fam == "irk":
        base = [dict(Ns=2), dict(Ns=2, Neq=1)]
    for b in base:
        for ad in (True, False):
            if fam == "irk" and tier != "thorough" and "Neq" in b and not ad:
                continue
            for fs in ((False, True) if fam == "erk" and b["Ns"] > 1 else (False,)):
                d = dict(b, adaptive=ad, fsal=fs)
                d.update(kw)
                out.append(d)
    return out


def models(rep, fams, **kw):
    n = 0
    for fam in fams:
        for d in configs(fam, rep.tier, **kw):
            m = R.model(rep, fam, **d)
            if m is None:
                continue
            n += 1
            yield m


def guard_cases(m, guard, want, facts=None):
    """Cases of a guard (a condition over the loop head): yields want(c)."""
    def f(c):
        if c.red(m.S(guard)) is FALSE:
            return None
        return (want(c),)
    for c, r in cases(f, facts if facts is not None else m.facts, limit=4000, splitmm=False):
        if not lin.System(c).infeasible():
            yield c, r[0]


def steps(rep, m, rule, want=None):
    try:
        return m.step_cases(want=want)
    except Unrecognised as e:
        rep.undecided(rule, m.name, str(e))
        return []


def same_or(rep, m, s, rule, key, what, got, want, subject):
    """Obligation got == want in the case."""
    if got is want:
        return rep.ok(rule, subject)
    if taint(got, want):
        return rep.undecided(rule, subject, "value not tracked")
    r = lin.equal(s.case, got, want)
    if r is True:
        return rep.ok(rule, subject)
    if r is None:
        return rep.undecided(rule, subject, "too many cases")
    rep.bad(rule, key, m.where, "%s: %s is %s instead of %s, when %s" % (m.name, what, show(got, 6), show(want, 6), s.case.describe()[:300]))


def label(s):
    return "accepted" if s.accepted else "rejected"


# --------------------------------------------------------------------- P09
def P09(rep):
    rep.rule("advance", "the new solution of every accepted step is y + dt * sum b_i k_i with k_i = f(t + c_i dt, y + dt * sum a_ij k_j), dt the advance of time")
    rep.rule("keep", "a rejected step changes neither the time nor the solution")
    rep.rule("reach", "the loop has accepting cases")
    for m in models(rep, ["erk"]):
        cs = steps(rep, m, "advance")
        acc = [s for s in cs if s.accepted]
        if cs:
            rep.check(bool(acc), "reach", "erk:noaccept", m.where, m.name + ": no case advances the solution", m.name)
        for s in cs:
            if s.Y is None or taint(s.T, *s.Y):
                rep.undecided("advance", m.name, "state not tracked")
                continue
            if not s.accepted:
                rep.ok("keep", "%s: t and y unchanged" % m.name)
                continue
            DT = sub(s.T, m.T)
            K = m.erk_stages(DT)
            if DT is ZERO:
                rep.bad("keep", "erk:keep", m.where, "%s: the solution changes while time does not, when %s" % (m.name, s.case.describe()[:300]))
                continue
            for k in range(m.Neq):
                want = add(m.Y[k], mul(DT, sumn(mul(m.b[i], K[i][k]) for i in range(m.Ns))))
                same_or(rep, m, s, "advance", "erk:advance", "component %d of the new solution" % k, s.Y[k], want, "%s y[%d]" % (m.name, k))
    return ("Each accepting path of the explicit integration loop, for a symbolic tableau, right-hand side, state and step size, is "
            "compared term by term with the Runge-Kutta formula; the reuse of the last stage is verified as a loop invariant.",
            ASSUME, 10)


# --------------------------------------------------------------------- P10
class Newton:
    """The inner loop of an implicit step, in one outer case."""

    def __init__(self, m, s, DT, Z):
        self.m, self.s, self.DT, self.Z = m, s, DT, Z
        self.err = None
        L2 = s.inner[-1] if s.inner else None
        if L2 is None or L2.back is None:
            self.err = "no Newton loop"
            return
        self.L2 = L2

    def outer_facts(self):
        """The facts of the outer case that do not speak about one iteration of the inner loop."""
        mine = {n for n, q in self.m.mus.items() if q[3] is self.L2}
        return {k: v for k, v in self.s.case.facts.items()
                if k in self.m.facts or not any(a.nid in mine for a in T.subnodes(k))}

    def red(self, x, env, c):
        m = self.m
        x = m.S(x)
        if env:
            x = T.subst(x, env)
        return c.red(x)

    def setup(self, c):
        """Names the unknowns of the inner loop in (sub)case c; raises Need."""
        m, L2, DT = self.m, self.L2, self.DT
        env = {}
        r = lambda x: self.red(x, env, c)
        ev = [x for g, x in L2.back.mem[EV].items if x[0] == "fun" and r(g) is not FALSE]
        if len(ev) < m.Ns or any(x[2] is None for x in ev):
            return "stage evaluations of the Newton loop not recognised"
        ev = ev[-m.Ns:]
        Zn = []
        for i, x in enumerate(ev):
            if r(x[1]) is not add(m.T, mul(m.c[i], DT)):
                return "stage times of the Newton loop not recognised"
            Zn.append([sub(r(a), y) for a, y in zip(x[2], m.Y)])
        flat = [z for v in Zn for z in v]
        Zo = None
        for k, bv in L2.back.mem.items():
            if k == EV or k not in L2.head.mem:
                continue
            for p in findval(bv, lambda v: isinstance(v, MatV) and v.n == len(flat)):
                b = getpath(bv, p)
                h = getpath(L2.head.mem[k], p)
                if isinstance(h, MatV) and h.n == len(flat) and all(r(x) is y for x, y in zip(b.e, flat)):
                    e = getpath(L2.entry.mem[k], p)
                    if not same(h, e):
                        Zo, Ze = list(h.e), list(e.e)
        if Zo is None:
            return "stage increments of the Newton loop not recognised"
        un = lambda v: [v[i * m.Neq:(i + 1) * m.Neq] for i in range(m.Ns)]
        self.Zo, self.Zn = un(Zo), Zn
        self.Ze = un([c.red(m.S(z)) for z in Ze])
        Ro, _ = residual(m, DT, self.Zo)
        Re, _ = residual(m, DT, self.Ze)
        Rn, _ = residual(m, DT, self.Zn)
        self.Ro, self.Rn = Ro, Rn
        fl = lambda q: [x for v in q for x in v]
        nrm = lambda q: sumn(mul(x, x) for x in fl(q))
        cand = [(x, y) for x, y in zip(fl(Re), fl(Ro))] + [(nrm(Re), nrm(Ro)), (sqrtn(nrm(Re)), sqrtn(nrm(Ro)))]
        hyp = []
        for h, e, b, l in m.mus.values():
            if l.line == L2.line and l.id == L2.id and h.nid not in env and not any(h is z for z in Zo):
                e2 = c.red(m.S(e)) if not h.isbool else None
                for x, y in cand:
                    if e2 is x and x.const is None:
                        hyp.append((h, y, b))
                        break
        for _ in range(4):
            env.clear()
            for h, y, b in hyp:
                env[h.nid] = y
            bad = []
            Zn = [[sub(r(a), y) for a, y in zip(x[2], m.Y)] for x in ev]
            Rn, _ = residual(m, DT, Zn)
            for q in hyp:
                h, y, b = q
                # the hypothesis at the back edge: the same function of the new increments
                wn = dict(zip(fl(Ro) + [nrm(Ro), sqrtn(nrm(Ro))], fl(Rn) + [nrm(Rn), sqrtn(nrm(Rn))]))[y]
                if r(b) is not wn:
                    bad.append(q)
            if not bad:
                break
            hyp = [q for q in hyp if q not in bad]
        self.env = env
        # the new increments again, now with the residual named
        self.Zn = [[sub(r(a), y) for a, y in zip(x[2], m.Y)] for x in ev]
        return None

    def direction(self, c):
        """(I - dt A x J) dZ + s R = 0 for one s: returns s or an error text."""
        m, DT = self.m, self.DT
        J_ = J(m.T, m.Y)
        n = m.Neq
        dZ = [[sub(a, b) for a, b in zip(x, y)] for x, y in zip(self.Zn, self.Zo)]
        M = []
        for i in range(m.Ns):
            for k in range(n):
                v = dZ[i][k]
                for j in range(m.Ns):
                    for q in range(n):
                        v = sub(v, mul(mul(mul(DT, m.A[i][j]), J_[k + q * n]), dZ[j][q]))
                M.append(v)
        Rf = [x for v in self.Ro for x in v]
        self.s_ = None
        if Rf[0].fp == 0:
            return "the residual vanishes identically"
        sc = neg(div(M[0], Rf[0]))
        for a, b in zip(M, Rf):
            if mul(sc, b).fp != neg(a).fp:
                return None if taint(*self.Zn[0]) else False
        self.s_ = sc
        return sc


def sqrtn(x):
    return T.sqrt(x)


def converged(m, s, DT, Z, nw=None):
    """Do the facts of the accepted case contain a convergence test?"""
    c = s.case
    env = nw.env if nw is not None and nw.err is None else {}
    if env:
        Z = [[T.subst(x, env) for x in v] for v in Z]
    Rz, _ = residual(m, DT, Z)
    RR = sumn(mul(x, x) for v in Rz for x in v)
    tests = [(m.ntol, RR)]
    if nw is not None and nw.err is None and getattr(nw, "s_", None) is not None:
        d = [div(sub(a, b), nw.s_) for x, y in zip(Z, nw.Zo) for a, b in zip(x, y)]
        DD = sumn(mul(x, x) for x in d)
        tests.append((m.ndx, DD))
        tests.append((m.ndx, sumn(mul(sub(a, b), sub(a, b)) for x, y in zip(Z, nw.Zo) for a, b in zip(x, y))))
    facts = {}
    memo = {}
    for k, v in c.facts.items():
        facts[T.subst(k, env, memo) if env else k] = v
    facts = {k: v for k, v in facts.items() if k not in (TRUE, FALSE)}
    c2 = T.Case(facts, False)
    for tol, val in tests:
        for g in (sub(mul(tol, tol), val), sub(tol, sqrtn(val))):
            if lin._entail(c2, g, False):
                return True
    return False


def P10(rep):
    rep.rule("update", "the new solution is y + sum d_i Z_i with d = A^-T b and Z the stage increments of the last evaluated stage system (stage i evaluated at t + c_i dt, y + Z_i)")
    rep.rule("time", "time advances by the step size of that stage system")
    rep.rule("solved", "an accepted step follows a convergence test on the residual Z - dt (A x I) F(t + c dt, y + Z) or on the Newton increment")
    rep.rule("direction", "every Newton update dZ satisfies (I - dt A x J(t, y)) dZ = -s R(Z) with s > 0")
    rep.rule("keep", "a rejected or unsolved step changes neither the time nor the solution")
    for m in models(rep, ["irk"]):
        cs = steps(rep, m, "update")
        acc = [s for s in cs if s.accepted]
        if cs:
            rep.check(bool(acc), "update", "irk:noaccept", m.where, m.name + ": no case advances the solution", m.name)
        Ai = R.matinv(m.A)
        d = [sumn(mul(Ai.at(j, i), m.b[j]) for j in range(0)) for i in range(m.Ns)]
        d = [sumn(mul(m.b[j], Ai.at(j, i)) for j in range(m.Ns)) for i in range(m.Ns)]
        done = {}
        for s in cs:
            if s.Y is None or taint(s.T, *s.Y):
                rep.undecided("update", m.name, "state not tracked")
                continue
            if not s.accepted:
                rep.ok("keep", m.name)
                continue
            DTt = sub(s.T, m.T)
            if DTt is ZERO:
                rep.bad("keep", "irk:keep", m.where, "%s: the solution changes while time does not, when %s" % (m.name, s.case.describe()[:300]))
                continue
            q = R.irk_stages(m, s)
            if q is None:
                rep.undecided("update", m.name, "stage evaluations not recognised")
                continue
            DT, Z = q
            if Z is None:
                rep.bad("update", "irk:abscissae", m.where, "%s: the stages of an accepted step are not evaluated at t + c_i dt" % m.name)
                continue
            same_or(rep, m, s, "time", "irk:time", "the advance of time", DTt, DT, m.name)
            for k in range(m.Neq):
                want = add(m.Y[k], sumn(mul(d[i], Z[i][k]) for i in range(m.Ns)))
                same_or(rep, m, s, "update", "irk:update", "component %d of the new solution" % k, s.Y[k], want, "%s y[%d]" % (m.name, k))
            newton_obligations(rep, m, s, DT, Z, done, True)
    return ("Each accepting path of the implicit integration loop, for a symbolic tableau, state, right-hand side and Jacobi matrix, is "
            "compared with the collocation update; the Newton loop is analysed as a transition relation with the invariant that the "
            "stored residual is the residual of the stored increments.", ASSUME, 10)


def newton_obligations(rep, m, s, DT, Z, done, direction):
    key = (DT.nid, tuple(x.nid for v in Z for x in v))
    if not s.inner:
        rep.undecided("solved", m.name, "no Newton loop found")
        return
    nw = Newton(m, s, DT, Z)
    ok, msgs = None, None
    if nw.err is None:
        best = None
        try:
            for c, r in cases(lambda c: inner(nw, c), nw.outer_facts(), limit=300, splitmm=False):
                if lin.System(c).infeasible():
                    continue
                if r[0] == "err":
                    best = best or r
                    continue
                best = r
                if direction and (key, c.describe()) not in done:
                    done[(key, c.describe())] = 1
                    sc = r[1]
                    if sc is None:
                        rep.undecided("direction", m.name, "Newton update not tracked")
                    elif sc is False:
                        rep.bad("direction", "irk:direction", loopwhere(nw.L2), "%s: the Newton update does not solve (I - dt A x J(t, y)) dZ = -R" % m.name)
                    elif isinstance(sc, str):
                        rep.undecided("direction", m.name, sc)
                    elif c.sign(sc) == "+":
                        rep.ok("direction", "%s: scale %s" % (m.name, show(sc, 3)))
                    elif c.sign(sc) in ("-", "<=", "0"):
                        rep.bad("direction", "irk:direction", loopwhere(nw.L2), "%s: the Newton update has the wrong sign" % m.name)
                    else:
                        rep.undecided("direction", m.name, "sign of the scale %s" % show(sc))
            if best is None or best[0] == "err":
                nw.err = best[1] if best else "no feasible Newton iteration"
        except T.TooMany as e:
            nw.err = str(e)
    if nw.err is not None and direction:
        rep.undecided("direction", m.name, nw.err)
    if converged(m, s, DT, Z, nw):
        rep.ok("solved", "%s: %s" % (m.name, label(s)))
    elif nw.err is not None:
        rep.undecided("solved", m.name, nw.err)
    else:
        r = peel(m, s, nw)
        if r is True:
            rep.ok("solved", "%s: by the preceding iteration" % m.name)
        elif r is None:
            rep.undecided("solved", m.name, "exit of the Newton loop not recognised")
        else:
            rep.bad("solved", "irk:solved", loopwhere(nw.L2), "%s: a step is accepted although no convergence test of its stage system holds: %s" % (m.name, s.case.describe()[:400]))


def inner(nw, c):
    if c.red(nw.m.S(nw.L2.back.guard)) is FALSE:
        return None
    e = nw.setup(c)
    if e:
        return ("err", e)
    return ("ok", nw.direction(c))


def peel(m, s, nw):
    """Convergence established by the iteration before the loop test that ended the loop."""
    L2 = nw.L2
    sub1 = {}
    sub0 = {}
    for h, e, b, l in m.mus.values():
        if l is L2:
            sub1[h.nid] = b
            sub0[h.nid] = e
    if not sub1:
        return None

    def redo(env, guard, withback):
        res = []
        memo = {}
        items = [(T.subst(k, env, memo), v) for k, v in s.case.facts.items()]
        ZZ = [[T.subst(x, env, memo) for x in v] for v in nw_Z(nw)]

        def f(c):
            if guard is not None and c.red(m.S(guard)) is FALSE:
                return None
            for k, v in items:
                if (c.red(m.S(k)) is TRUE) != v:
                    return None
            z = [[c.red(m.S(x)) for x in v] for v in ZZ]
            e = nw.setup(c) if withback else "no iteration"
            if e is None:
                nw.direction(c)
            return (z, e)
        base = {k: v for k, v in m.facts.items()}
        for c, (z, e) in cases(f, base, limit=3000, splitmm=False):
            if lin.System(c).infeasible():
                continue
            s2 = StepCase()
            s2.case = c
            n2 = nw if e is None else None
            res.append(converged(m, s2, nw.DT, z, n2))
        return res
    try:
        a = redo(sub1, L2.back.guard, True)
        z = redo(sub0, L2.entry.guard, False)
    except T.TooMany:
        return None
    return all(a) and all(z)


def nw_Z(nw):
    return nw.Z


def loopwhere(L):
    return "%s:%d (%s)" % (rel(L.file), L.line, L.fn)


# ------------------------------------------------------------ shared pieces
def constant(m, name):
    f = [f for f in R.database("erk").byq.get(name, []) if f.get("body")]
    if not f:
        raise Broken(name + " not found")
    it = Interp(R.database("erk"), {})
    st = it.new_state()
    v = it.callfn(f[0], None, [], st, "C")
    if not isinstance(v, int):
        raise Broken(name + " is not a constant")
    return v


def deltas(m, cs, h):
    """Constant change of a loop unknown in every case, or None."""
    b, d = m.mus[h.nid][2], []
    for s in cs:
        x = redq(s.case, m.S(b))
        x = None if x is None else sub(x, h).const
        if x is None:
            return None
        d.append(x)
    return d


def tally(m, cs, without=()):
    """[(coefficient, unknown)]: a combination of counters that grows by one per accepted step, from zero."""
    want = [Fraction(1 if s.accepted else 0) for s in cs]
    cols = []
    for h, e, b, l in m.mus.values():
        if l is not m.L or h.isbool or e is not ZERO or h.nid in m.env and m.S(h) is not h or any(h is w for w in without):
            continue
        d = deltas(m, cs, h)
        if d is not None:
            if d == want:
                return [(Fraction(1), h)]
            cols.append((h, d))
    rows = sorted(set(zip(*([d for _, d in cols] + [want]))))
    if not cols or not rows:
        return None
    a, piv, r = [list(map(Fraction, x)) for x in rows], [], 0
    for j in range(len(cols)):
        k = next((i for i in range(r, len(a)) if a[i][j]), None)
        if k is None:
            continue
        a[r], a[k] = a[k], a[r]
        a[r] = [x / a[r][j] for x in a[r]]
        for i in range(len(a)):
            if i != r and a[i][j]:
                a[i] = [x - a[i][j] * y for x, y in zip(a[i], a[r])]
        piv.append(j)
        r += 1
    if any(x[-1] and not any(x[:-1]) for x in a):
        return None
    return [(a[i][-1], cols[j][0]) for i, j in enumerate(piv) if a[i][-1]]


def counter(m, cs, direct=False, without=()):
    """Accepted steps so far: an unknown, or a combination of the loop's counters."""
    t = tally(m, cs, without)
    if not t:
        return None
    if len(t) == 1 and t[0][0] == 1:
        return t[0][1]
    if direct:
        return None
    x = sumn(mul(T.const(k), h) for k, h in t)
    x.isint = True
    m.sums = getattr(m, "sums", {})
    m.sums[x.nid] = t
    return x


def redq(c, x):
    """Reduce in a case; None when the case does not decide it."""
    try:
        return c.red(x)
    except T.Need:
        return None


def field(v, *path):
    for p in path:
        if not isinstance(v, StructV) or p not in v.f:
            raise Broken("result has no field " + ".".join(path))
        v = v.f[p]
    return v


def ends(m):
    """Ways out of the loop: (kind, guard, state, returned result or None)."""
    out = []
    for g, v, x in m.L.returns:
        res = v if is_result(v) else m.result(x.mem)
        out.append(("return", x.guard, x, res))
    for g, x, kind in m.L.exits:
        out.append((kind, x.guard, x, m.result(x.mem)))
    return out


# --------------------------------------------------------------------- P11
def P11(rep):
    rep.rule("start", "before the loop exactly the initial time and value are recorded")
    rep.rule("attempt", "a step is attempted only while t < t1")
    rep.rule("increase", "an accepted step increases the time")
    rep.rule("bounded", "an accepted step does not pass t1")
    rep.rule("end", "the loop is left with status SUCCESS only when t >= t1, and the status is not reset afterwards")
    for m in models(rep, ["erk", "irk"]):
        L = m.L
        re_ = m.result(L.entry.mem)
        tv, yv = re_.f["t_vals"], re_.f["y_vals"]
        if isinstance(tv, VecV) and isinstance(yv, VecV) and tv.concrete() and yv.concrete():
            ok = len(tv.items) == 1 and len(yv.items) == 1 and tv.items[0][1] is m.t0
            y = yv.items[0][1] if yv.items else None
            ok = ok and isinstance(y, MatV) and list(y.e) == m.y0 and all(a is b for a, b in zip(y.e, m.y0))
            rep.check(ok, "start", m.fam + ":start", m.where, "%s: recorded before the first step: t %r, y %r" % (m.name, tv.items, yv.items), m.name)
        else:
            rep.undecided("start", m.name, "recorded points not tracked")
        for s in steps(rep, m, "attempt"):
            c = s.case
            if taint(s.T):
                rep.undecided("increase", m.name, "time not tracked")
                continue
            rep.check(lin.pos(c, sub(m.t1, m.T)), "attempt", m.fam + ":attempt", m.where,
                      "%s: a step is attempted although t < t1 is not established, when %s" % (m.name, c.describe()[:300]), m.name)
            if s.accepted:
                d = sub(s.T, m.T)
                rep.check(lin.pos(c, d), "increase", m.fam + ":increase", m.where,
                          "%s: time advances by %s, not shown positive, when %s" % (m.name, show(d, 5), c.describe()[:300]), m.name)
                rep.check(lin.nonpos(c, sub(s.T, m.t1)), "bounded", m.fam + ":bounded", m.where,
                          "%s: the new time %s may exceed t1, when %s" % (m.name, show(s.T, 5), c.describe()[:300]), m.name)
        end_obligations(rep, m, "end")
    return ("Transition relation of both integration loops with symbolic times, step sizes and limits; positivity of the step size and "
            "of the controller's factors is an inductive invariant found by the analysis; bounds follow by linear arithmetic.", ASSUME, 30)


def end_obligations(rep, m, rule):
    for kind, g, x, res in ends(m):
        stv = res.f["status"]
        Tx = exit_time(m, x)
        if Tx is None:
            rep.undecided(rule, m.name, "time at the exit not tracked")
            continue
        try:
            for c, (st, t) in guard_cases(m, g, lambda c: (c.red(m.S(num(stv))), c.red(m.S(Tx)))):
                if taint(st, t):
                    rep.undecided(rule, m.name, "status not tracked")
                    continue
                done = lin.nonneg(c, sub(t, m.t1))
                ok = done if st is ZERO else st.const is not None or lin.pos(c, st) or lin.pos(c, neg(st)) or done
                rep.check(ok, rule, m.fam + ":end", m.where, "%s: the loop ends (%s) with status %s although t >= t1 is not established, when %s" % (
                    m.name, kind, show(st), c.describe()[:300]), "%s %s" % (m.name, kind))
        except T.TooMany as e:
            rep.undecided(rule, m.name, str(e))
    # afterwards: the returned status is that of the exits
    if isinstance(m.ret, StructV) and is_result(m.ret):
        rs = num(m.ret.f["status"])
        want = []
        for kind, g, x, res in ends(m):
            want.append(num(res.f["status"]))
        lv = _ite_leaves(rs)
        allw = set()
        for w in want:
            allw |= {n.nid for n in _ite_leaves(w)}
        ok = all(n.nid in allw for n in lv)
        if any(taint(n) for n in lv):
            rep.undecided(rule, m.name, "returned status not tracked")
        else:
            rep.check(ok, rule, m.fam + ":status", m.where, "%s: the status returned, %s, is not the one the loop ended with" % (m.name, show(rs)), m.name + " returned status")


def _ite_leaves(n):
    out, st, seen = [], [n], set()
    while st:
        x = st.pop()
        if x.nid in seen:
            continue
        seen.add(x.nid)
        if x.op == "ite":
            st += [x.args[1], x.args[2]]
        else:
            out.append(x)
    return out


def exit_time(m, x):
    """Value of the time variable in a state."""
    return value_at(m, x, m.T)


def value_at(m, x, mu):
    """Value, in another state, of the place whose loop-head value is the unknown mu."""
    if mu.nid in getattr(m, "sums", {}):
        v = [(k, value_at(m, x, h)) for k, h in m.sums[mu.nid]]
        return None if any(w is None for _, w in v) else sumn(mul(T.const(k), w) for k, w in v)
    for k, v in m.L.head.mem.items():
        for p in findval(v, lambda q: q is mu):
            w = getpath(x.mem.get(k), p) if k in x.mem else None
            if isinstance(w, (int, Node)):
                return num(w)
    return None


# --------------------------------------------------------------------- P12
def erk_est(m, DT):
    K = m.erk_stages(DT)
    y1 = [add(m.Y[k], mul(DT, sumn(mul(m.b[i], K[i][k]) for i in range(m.Ns)))) for k in range(m.Neq)]
    est = [mul(DT, sumn(mul(sub(m.b2[i], m.b[i]), K[i][k]) for i in range(m.Ns))) for k in range(m.Neq)]
    return [est], y1


def irk_est(m, DT, Z):
    """The two documented error estimates (plain and re-evaluated), and the new solution."""
    Ai = R.matinv(m.A)
    wsum = lambda b: [sumn(mul(sumn(mul(b[j], Ai.at(j, i)) for j in range(m.Ns)), Z[i][k]) for i in range(m.Ns)) for k in range(m.Neq)]
    dy, da = wsum(m.b), wsum(m.b2)
    g = mul(m.gamma, DT)
    Jm = MatV(m.Neq, m.Neq, [sub(ONE if i == j else ZERO, mul(g, J(m.T, m.Y)[i + j * m.Neq])) for j in range(m.Neq) for i in range(m.Neq)])
    f0 = F(m.T, m.Y)

    def filt(f):
        r = MatV(m.Neq, 1, [sub(add(mul(g, f[k]), da[k]), dy[k]) for k in range(m.Neq)])
        return list(intrin.gauss(Jm, r).e)
    e1 = filt(f0)
    e2 = filt(F(m.T, [add(y, e) for y, e in zip(m.Y, e1)]))
    return [e2, e1], [add(y, d) for y, d in zip(m.Y, dy)]


def estimates(m, s):
    """(DT, [candidate ERR], [candidate estimates]) of a step, or None."""
    if m.fam == "erk":
        DT = m.dt_of(s)
        if DT is None:
            return None
        es, y1 = erk_est(m, DT)
    else:
        q = R.irk_stages(m, s)
        if q is None or q[1] is None:
            return None
        DT, Z = q
        es, y1 = irk_est(m, DT, Z)
    c = s.case
    es = [[c.red(x) for x in e] for e in es]
    return c.red(DT), [c.red(m.norm(e, y1)) for e in es], es


def failed_newton(m, s):
    """A rejected implicit step whose error estimate was never evaluated."""
    if m.fam != "irk":
        return False
    k = [i for i, e in enumerate(s.ev) if e[0] in ("loop", "final")]
    return not s.accepted and k and not any(e[0] == "fun" for e in s.ev[k[-1] + 1:])


def P12(rep):
    rep.rule("accept", "every accepted adaptive step has scaled error norm <= 1 (norm: root mean square of est_i / (atol + rtol max(|y_i|, |ynew_i|)))")
    rep.rule("reject", "every adaptive step that is rejected for its error has scaled error norm >= 1")
    rep.rule("exponent", "the next step size depends on the error through err^(-1/(1+min(order, order2))) only, decreasingly")
    rep.rule("fixed", "with fixed steps nothing is rejected and the step is the initial one, the maximum step or the remaining time")
    for kw in (dict(order=7, order2=3), dict(order=3, order2=7)):
        for m in models(rep, ["erk", "irk"], **kw):
            if not m.adaptive:
                if kw["order"] == 7:
                    fixed(rep, m)
                continue
            cs = steps(rep, m, "accept", want=lambda c, s: nextstep(m, c, s))
            expo = Fraction(1, 1 + min(kw["order"], kw["order2"]))
            done = set()
            for s in cs:
                c = s.case
                if failed_newton(m, s):
                    rep.ok("reject", m.name + ": stage system unsolved")
                    continue
                if s.Y is None or taint(s.T, *s.Y):
                    rep.undecided("accept", m.name, "state not tracked")
                    continue
                q = estimates(m, s)
                if q is None:
                    rep.undecided("accept", m.name, "stages not recognised")
                    continue
                DT, errs, _ = q
                if s.accepted:
                    ok = any(bound(c, e, True) for e in errs)
                    rep.check(ok, "accept", m.fam + ":accept", m.where,
                              "%s: a step is accepted although its scaled error is not shown to be at most 1, when %s" % (m.name, c.describe()[-500:]), m.name)
                else:
                    ok = any(bound(c, e, False) for e in errs)
                    rep.check(ok, "reject", m.fam + ":reject", m.where,
                              "%s: a step is rejected although its scaled error is not shown to be at least 1, when %s" % (m.name, c.describe()[-500:]), m.name)
                exponent(rep, m, s, DT, errs, expo, done)
    return ("The facts known on every accepting and rejecting path are compared with the scaled error norm built from the tableau's two "
            "weight vectors; the next step size is read from the loop's transition relation.", ASSUME, 40)


def bound(c, ERR, upper):
    for g in (sub(ONE, ERR), sub(ONE, mul(ERR, ERR))):
        g = g if upper else neg(g)
        if lin.nonneg(c, g):
            return True
    return False


def stepvars(m, DT):
    """Unknowns of the loop (other than time and state) the step size depends on."""
    out = []
    for a in T.atoms_of(DT):
        if a.nid in m.mus and m.mus[a.nid][3] is m.L and a is not m.T and not any(a is y for y in m.Y):
            out.append(a)
    return out


def stepvar(m):
    """The one unknown of the loop the advance of time depends on, over all its cases; None when there are several."""
    if not hasattr(m, "_stepvar"):
        got = []
        for s in m.step_cases():
            if s.Y is not None and not taint(s.T):
                got += [a for a in stepvars(m, sub(s.T, m.T)) if not any(a is b for b in got)]
        m._stepvar = got
    return m._stepvar


def nextstep(m, c, s):
    """Next value of the step size variable."""
    if s.Y is None or taint(s.T, *s.Y):
        return None
    sv = stepvar(m)
    return c.red(m.S(m.mus[sv[0].nid][2])) if len(sv) == 1 else None


def exponent(rep, m, s, DT, errs, expo, done):
    c = s.case
    nxt = s.x
    if nxt is None:
        rep.undecided("exponent", m.name, "step size variable not recognised")
        return
    if nxt.nid in done:
        return
    done.add(nxt.nid)
    if taint(nxt):
        rep.undecided("exponent", m.name, "next step size not tracked")
        return
    isbase = lambda b: any(b is e or b.op == "max" and any(x is e for x in b.args) or b is mul(e, e) for e in errs)
    pw = [n for n in T.subnodes(nxt) if n.op == "uf" and n.args[0] == "pow"]
    main = [n for n in pw if isbase(n.args[1])]
    for n in pw:
        dep = any(e in T.subnodes(n.args[1]) for e in errs)
        if not dep and not any(x.nid in m.mus for x in T.atoms_of(n.args[1])):
            continue
        e = n.args[2].const
        want = expo / 2 if any(n.args[1] is mul(x, x) for x in errs) else expo
        if e is None:
            rep.undecided("exponent", m.name, "exponent %s" % show(n.args[2]))
        else:
            rep.check(abs(abs(e) - want) < Fraction(1, 10**12), "exponent", m.fam + ":exponent", m.where,
                      "%s: the step size controller uses the exponent %s instead of %s" % (m.name, e, want), m.name)
    if not main:
        rep.bad("exponent", m.fam + ":controller", m.where, "%s: the next step size %s does not depend on the scaled error, when %s" % (m.name, show(nxt, 5), c.describe()[:300]))
        return
    p = T.atom("err^p", True)
    nxt = T.subst(nxt, dict([(n.nid, T.atom("pow%d" % i, True)) for i, n in enumerate(pw)], **{}) | {n.nid: p for n in main})
    p1, p2 = {p.nid: ONE}, {p.nid: const(2)}
    try:
        for c2, v in lin.leaves(c, [nxt]):
            x = v[0]
            a, b = T.subst(x, p1), T.subst(x, p2)
            if a is b:
                rep.ok("exponent", m.name + ": limited")
            else:
                rep.check(a is mul(const(2), b), "exponent", m.fam + ":direction", m.where,
                          "%s: the next step size %s is not proportional to err^-p" % (m.name, show(x, 5)), m.name + ": proportional")
    except T.TooMany as e:
        rep.undecided("exponent", m.name, str(e))


def fixed(rep, m):
    for s in steps(rep, m, "fixed", want=lambda c, s: nextstep(m, c, s)):
        c = s.case
        if not s.accepted:
            rep.bad("fixed", m.fam + ":fixedreject", m.where, "%s: a step is rejected, when %s" % (m.name, c.describe()[:300]))
            continue
        if taint(s.T):
            rep.undecided("fixed", m.name, "time not tracked")
            continue
        DT = sub(s.T, m.T)
        sv = stepvar(m) or [m.dt0]
        if len(sv) != 1:
            rep.undecided("fixed", m.name, "step size variable not recognised")
            continue
        D = sv[0]
        left = sub(m.t1, m.T)
        try:
            for c2, v in lin.leaves(c, [DT]):
                x = v[0]
                allowed = [D, left] + ([m.max_dt] if lin.pos(c2, m.max_dt) else [])
                hit = any(x is a for a in allowed)
                low = all(lin.nonpos(c2, sub(x, a)) for a in allowed)
                rep.check(hit and low, "fixed", m.fam + ":fixeddt", m.where,
                          "%s: the step size is %s, not the smallest of the given one, the limit and the remaining time, when %s" % (m.name, show(x, 5), c2.describe()[-400:]), m.name)
        except T.TooMany as e:
            rep.undecided("fixed", m.name, str(e))
        if D.nid in m.mus:
            h, e, b, l = m.mus[D.nid]
            nb = s.x
            if nb is None:
                rep.undecided("fixed", m.name, "step size variable not recognised")
                continue
            ok = nb is D or nb is DT
            if not ok:
                r = lin.equal(c, nb, DT)
                ok = r is True or lin.equal(c, nb, D) is True
            rep.check(ok, "fixed", m.fam + ":fixedkeep", m.where, "%s: the fixed step size becomes %s" % (m.name, show(nb, 5)), m.name + " kept")
            ent = m.S(e)
            for c2, v in guard_cases(m, m.L.entry.guard, lambda c: c.red(ent)):
                try:
                    ls = lin.leaves(c2, [v])
                except T.TooMany:
                    continue
                for c3, x in ls:
                    x = x[0]
                    if taint(x):
                        rep.undecided("fixed", m.name, "initial step size not tracked")
                        continue
                    rep.check(x is m.dt0 or x is sub(m.t1, m.t0) or x is m.max_dt, "fixed", m.fam + ":fixedinit", m.where,
                              "%s: the loop starts with step size %s" % (m.name, show(x, 5)), m.name + " initial")


# --------------------------------------------------------------------- P13
def P13(rep):
    rep.rule("max_dt", "with max_dt > 0 every attempted step is at most max_dt long")
    rep.rule("max_steps", "with max_steps >= 0 a step is attempted only while fewer than max_steps steps have been accepted")
    rep.rule("status", "leaving the loop because of the step limit sets the documented status")
    code = constant(None, "probe_status_max_steps")
    for m in models(rep, ["erk", "irk"]):
        cs = steps(rep, m, "max_dt")
        S = counter(m, cs, direct=True)
        for s in cs:
            c = s.case
            DT = m.dt_of(s)
            if DT is None or taint(DT):
                rep.undecided("max_dt", m.name, "step size not recognised")
            else:
                ok = lin.nonpos(c, m.max_dt) or lin.nonpos(c, sub(DT, m.max_dt))
                rep.check(ok, "max_dt", m.fam + ":max_dt", m.where, "%s: a step of size %s may exceed max_dt, when %s" % (m.name, show(DT, 5), c.describe()[:400]), m.name)
            if S is None:
                rep.undecided("max_steps", m.name, "no counter of accepted steps")
                continue
            ok = lin.pos(c, neg(m.max_steps)) or lin.pos(c, sub(m.max_steps, S))
            rep.check(ok, "max_steps", m.fam + ":max_steps", m.where,
                      "%s: a step may be attempted after max_steps accepted steps, when %s" % (m.name, c.describe()[:400]), m.name)
        if S is None:
            continue
        for kind, g, x, res in ends(m):
            Tx = exit_time(m, x)
            try:
                for c, (st, t) in guard_cases(m, g, lambda c: (c.red(m.S(num(res.f["status"]))), c.red(m.S(Tx)) if Tx is not None else None)):
                    if t is not None and lin.nonneg(c, sub(t, m.t1)):
                        continue
                    lim = lin.nonneg(c, m.max_steps) and lin.nonneg(c, sub(S, m.max_steps))
                    if lim:
                        rep.check(st.const == code, "status", m.fam + ":limit", m.where,
                                  "%s: reaching the step limit ends with status %s instead of %d" % (m.name, show(st), code), m.name)
            except T.TooMany as e:
                rep.undecided("status", m.name, str(e))
    return ("Every attempted step of the loop's transition relation is bounded against max_dt and the step counter by linear arithmetic.",
            ASSUME, 30)


# --------------------------------------------------------------------- P14
def vec_eq(m, c, got, want):
    """Component-wise equality of a recorded vector: True/False/None."""
    if not isinstance(got, MatV):
        return None
    if got.n != len(want):
        return False
    for a, b in zip(got.e, want):
        if a is b:
            continue
        if taint(a, b):
            return None
        r = lin.equal(c, a, b)
        if r is not True:
            return None if r is None else False
    return True


def P14(rep):
    rep.rule("aligned", "every path records the same number of entries (none or one) in each of the result's arrays")
    rep.rule("time", "the recorded time and solution are those of the accepted step")
    rep.rule("stages", "the recorded stages are the step's stage derivatives")
    rep.rule("error", "the recorded error estimate and error value are those of the step")
    rep.rule("initial", "before the loop every array has exactly one entry")
    rep.rule("final", "nothing is recorded after the loop")
    for m in models(rep, ["erk", "irk"]):
        names = None
        re_ = m.result(m.L.entry.mem)
        vecs = [k for k, v in re_.f.items() if isinstance(v, VecV)]
        ok = all(re_.f[k].concrete() and len(re_.f[k].items) == 1 for k in vecs)
        rep.check(ok and len(vecs) >= 5, "initial", m.fam + ":initial", m.where, "%s: entries before the first step: %s" % (
            m.name, {k: len(re_.f[k].items) for k in vecs}), m.name)
        if isinstance(m.ret, StructV):
            for k in vecs:
                a = m.ret.f.get(k)
                for kind, g, x, res in ends(m):
                    b = res.f.get(k)
                    if isinstance(a, VecV) and isinstance(b, VecV) and a.pre == b.pre:
                        rep.check(len(a.items) <= len(b.items) or not m.L.exits, "final", m.fam + ":final", m.where,
                                  "%s: %s grows after the loop" % (m.name, k), m.name)
                        break
                else:
                    rep.undecided("final", m.name, "array %s not tracked" % k)
        for s in steps(rep, m, "aligned"):
            c = s.case
            if any(s.push[k] is None for k in vecs):
                rep.undecided("aligned", m.name, "arrays not tracked")
                continue
            n = {k: len(s.push[k]) for k in vecs}
            rep.check(len(set(n.values())) == 1 and set(n.values()) <= {0, 1}, "aligned", m.fam + ":aligned", m.where,
                      "%s: one step records %s, when %s" % (m.name, n, c.describe()[:300]), m.name)
            if not all(n.values()):
                continue
            t, y = s.push["t_vals"][0], s.push["y_vals"][0]
            if not s.accepted or s.Y is None:
                rep.bad("time", m.fam + ":rejected", m.where, "%s: a rejected step is recorded" % m.name)
                continue
            r = [vec_eq(m, c, MatV(1, 1, [num(t)]), [s.T]), vec_eq(m, c, y, s.Y)]
            if None in r:
                rep.undecided("time", m.name, "recorded point not tracked")
            else:
                rep.check(all(r), "time", m.fam + ":time", m.where, "%s: the recorded point (%s, %s) is not the new point (%s, %s)" % (
                    m.name, show(t), y, show(s.T), s.Y), m.name)
            q = estimates(m, s)
            if q is None:
                rep.undecided("stages", m.name, "stages not recognised")
                continue
            DT, errs, es = q
            K = s.push["stages"][0]
            if m.fam == "erk":
                cand = [[x for v in m.erk_stages(DT) for x in v]]
            else:
                Z = R.irk_stages(m, s)[1]
                Ai = R.matinv(m.A)
                cand = [[div(sumn(mul(Ai.at(i, j), Z[j][k]) for j in range(m.Ns)), DT) for i in range(m.Ns) for k in range(m.Neq)],
                        [x for i in range(m.Ns) for x in F(add(m.T, mul(m.c[i], DT)), [add(a, b) for a, b in zip(m.Y, Z[i])])]]
            r = [vec_eq(m, c, K, w) for w in cand]
            if True in r:
                rep.ok("stages", m.name)
            elif None in r:
                rep.undecided("stages", m.name, "recorded stages not tracked")
            else:
                rep.bad("stages", m.fam + ":stages", m.where, "%s: the recorded stages %s are not the stage derivatives" % (m.name, str(K)[:200]))
            if not m.adaptive:
                continue
            e, v = s.push["err_est"][0], s.push["err"][0]
            good = None
            for E, est in zip(errs, es):
                r1 = vec_eq(m, c, e, est)
                if r1 is False:
                    r1 = vec_eq(m, c, e, [neg(x) for x in est])
                r2 = num(v) is E or isinstance(v, Node) and v.op == "max" and any(x is E for x in v.args) or taint(num(v)) and None
                if r2 is False and isinstance(v, Node):
                    # floor applied on this path
                    r2 = v.const is not None and v.const < Fraction(1, 10**12) or False
                good = good or (r1 and r2)
            if good:
                rep.ok("error", m.name)
            elif not isinstance(e, MatV) or taint(num(v), *e.e):
                rep.undecided("error", m.name, "recorded error not tracked")
            else:
                rep.bad("error", m.fam + ":error", m.where, "%s: recorded error estimate %s or error value %s is not that of the step" % (m.name, str(e)[:200], show(v, 3)))
    import mschecks
    mschecks.P14part(rep)
    return ("Appends to the result's arrays are part of the loop's transition relation; each is compared with the step it belongs to.", ASSUME, 40)


# --------------------------------------------------------------------- P15
def P15(rep):
    rep.rule("vectors", "entries are appended exactly for accepted steps k with output_interval > 0, k mod output_interval = 0 and vector storage enabled")
    rep.rule("stream", "lines are written exactly for those steps when stream output is enabled")
    rep.rule("line", "a line is the new time, then the components of the new solution, then one newline")
    rep.rule("switch", "the switches of output_options turn on or off exactly their own kind of output, whatever was set before")
    rep.rule("quiet", "nothing else is written to the user's stream")
    iv = T.atom("output_interval", True, isint=True)
    for fam in ("erk", "irk"):
        for mode in (0, 1, 2, 3):
            for interval in (iv, 0, 1):
                if rep.tier != "thorough" and fam == "irk" and (interval == 1):
                    continue
                for ad in ((True, False) if rep.tier == "thorough" or fam == "erk" and interval is iv else (True,)):
                    # a stream may be set although stream output is off
                    for stream in ((True,) if mode & 2 else (False, True) if interval is iv and ad else (False,)):
                        m = R.model(rep, fam, Ns=2, mode=mode, interval=interval, stream=stream, adaptive=ad)
                        if m is not None:
                            output(rep, m, mode, interval)
    switches(rep)
    return ("The output switches by constant propagation from every combination of modes; the appends and stream insertions on every path of both loops, for all storage modes and a symbolic output interval.", ASSUME, 60)


def switches(rep):
    """The members of output_options turn exactly their own mode bit on or off."""
    db = R.database("erk")
    fns = {}
    for q in ("store_in_vectors", "write_to_file", "set_output_stream", "enable_store_in_vectors", "disable_store_in_vectors"):
        c = [f for f in db.byq.get("output_options::" + q, []) if f.get("body")]
        if c:
            fns[q] = c[0]
    for q, want in (("store_in_vectors", lambda m: bool(m & 1)), ("write_to_file", lambda m: bool(m & 2)),
                    ("set_output_stream", lambda m: m | 2), ("enable_store_in_vectors", lambda m: m | 1), ("disable_store_in_vectors", lambda m: m & ~1)):
        for mode in range(4):
            if q not in fns:
                rep.undecided("switch", q, "not analysed (not used by the probe or absent)")
                break
            it = Interp(db)
            st = it.new_state()
            fr = Frame("SETUP", None, 0)
            o = it.construct_default("output_options", st, fr, {"k": "setup", "args": []})
            if not isinstance(o, StructV) or "output_mode" not in o.f:
                rep.undecided("switch", q, "output_options cannot be built")
                break
            st.mem["OO"] = o.set("output_mode", mode)
            st.mem["OS"] = VecV(kind="stream")
            try:
                v = it.callfn(fns[q], LV("OO"), [LV("OS")] if fns[q]["params"] else [], st, "R")
                v = it.rv(v, st) if isinstance(v, LV) else v
            except (Dead, Unsup) as e:
                rep.undecided("switch", q, str(e))
                continue
            rep.uses(it)
            got = v if want(mode) is True or want(mode) is False else st.mem["OO"].f["output_mode"]
            if isinstance(want(mode), bool):
                got = {TRUE: True, FALSE: False, 0: False}.get(got, got) if isinstance(got, (Node, int)) else got
                if isinstance(got, int) and not isinstance(got, bool):
                    got = bool(got)
            if isinstance(got, Node):
                got = int(got.const) if got.const is not None else got
            if not isinstance(got, int):
                rep.undecided("switch", q, "not a constant")
                continue
            rep.check(got == want(mode), "switch", "options:%s" % q, "%s:%d (output_options::%s)" % (rel(fns[q]["file"]), fns[q].get("l", 0), q),
                      "with output mode %d, %s %s %s instead of %s" % (mode, q, "answers" if isinstance(want(mode), bool) else "leaves mode", got, want(mode)), "%s from mode %d" % (q, mode))


def output(rep, m, mode, interval):
    base = steps(rep, m, "vectors")
    S = counter(m, base)
    if S is None:
        rep.undecided("vectors", m.name, "no counter of accepted steps")
        return
    if interval == 0:
        cond = FALSE
    elif interval == 1:
        cond = TRUE
    else:
        u = uf("int%", m_int(add(S, ONE)), interval)
        u.isint = True
        cond = T.eq0(u)
    oe = m.L.entry.mem.get("OUT")
    if isinstance(oe, VecV) and oe.concrete():
        rep.check(not oe.items, "quiet", m.fam + ":before", m.where, "%s: %d items are written before the first step" % (m.name, len(oe.items)), m.name)
    of = m.st.mem.get("OUT")
    lx = m.L.exit.mem.get("OUT") if getattr(m.L, "exit", None) is not None else None
    if isinstance(of, VecV) and isinstance(lx, VecV) and of.pre == lx.pre:
        rep.check(len(of.items) <= len(lx.items), "quiet", m.fam + ":after", m.where, "%s: something is written after the last step" % m.name, m.name)
    sure = {}

    def related(c):
        """Some other loop variable the case depends on may follow the number of accepted steps."""
        for k in c.facts:
            ats = T.atoms_of(k)
            if isinstance(interval, Node) and interval not in ats:
                continue
            for a in ats:
                if a is not S and a.isint and a.nid in m.mus and m.mus[a.nid][3] is m.L:
                    if a.nid not in sure:
                        sure[a.nid] = deltas(m, base, a) is not None
                    if not sure[a.nid]:
                        return True
        return False
    for s in steps(rep, m, "vectors", want=lambda c, s: c.red(cond)):
        hit = s.accepted and s.x is TRUE
        if interval != 0 and (s.push.get("t_vals") is not None and bool(s.push["t_vals"]) != bool(hit and mode & 1)
                              or mode & 2 and s.out is not None and bool(s.out) != hit) and related(s.case):
            rep.undecided("vectors", m.name, "reporting depends on another counter")
            continue
        if s.push.get("t_vals") is None:
            rep.undecided("vectors", m.name, "array not tracked")
        else:
            n = max(len(v) for v in s.push.values() if v is not None)
            want = 1 if hit and mode & 1 else 0
            rep.check(n == want and len(s.push["t_vals"]) == want, "vectors", m.fam + ":vectors", m.where,
                      "%s: %d entries appended instead of %d, when %s step and %s" % (m.name, n, want, label(s), s.case.describe()[-300:]), m.name)
        if not mode & 2:
            if s.out:
                rep.bad("stream", m.fam + ":nostream", m.where, "%s: written without stream output" % m.name)
            elif s.out is not None:
                rep.ok("quiet", m.name)
            continue
        if s.out is None:
            rep.undecided("stream", m.name, "stream not tracked")
            continue
        if not hit:
            rep.check(not s.out, "stream", m.fam + ":stream", m.where, "%s: %s step that is not due is written, when %s" % (m.name, label(s), s.case.describe()[-300:]), m.name)
            continue
        if not s.out:
            rep.bad("stream", m.fam + ":missing", m.where, "%s: a due step is not written, when %s" % (m.name, s.case.describe()[-300:]))
            continue
        rep.ok("stream", m.name)
        toks = []
        seps = 0
        bad = None
        for x in s.out:
            if isinstance(x, str):
                toks.append(x)
            elif isinstance(x, (int, Node)):
                toks.append(num(x))
            elif isinstance(x, MatV) and x.n == 1:
                toks.append(x.e[0])
            else:
                bad = x
        if bad is not None:
            rep.undecided("line", m.name, "token %r" % (bad,))
            continue
        nums = [x for x in toks if isinstance(x, Node)]
        if any(taint(x) for x in nums):
            rep.undecided("line", m.name, "token not tracked")
            continue
        want = [s.T] + list(s.Y)
        ok = len(nums) == len(want) and all(a is b or lin.equal(s.case, a, b) is True for a, b in zip(nums, want))
        text = "".join(x if isinstance(x, str) else "#" for x in toks)
        ok2 = text.endswith("\n") and text.count("\n") == 1 and "##" not in text and text.strip().startswith("#")
        rep.check(ok and ok2, "line", m.fam + ":line", m.where, "%s: the line written is %s" % (m.name, [show(x, 3) if isinstance(x, Node) else x for x in toks]), m.name)


def m_int(n):
    n.isint = True
    return n


# --------------------------------------------------------------------- P16
def P16(rep):
    rep.rule("fun", "on every way out, the reported right-hand side evaluations equal the calls made")
    rep.rule("jac", "on every way out, the reported Jacobi evaluations equal the calls made")
    rep.rule("attempts", "every attempt is counted once, and is counted as rejected unless it advances the accepted steps by one")
    rep.rule("fraction", "on success the acceptance fraction is accepted steps over attempts")
    for m in models(rep, ["erk", "irk"]):
        allends = [(k, g, x, r) for k, g, x, r in ends(m) if k == "return"]
        if isinstance(m.ret, StructV):
            allends.append(("end", m.st.guard, m.st, m.ret))
        for kind, g, x, res in allends:
            cnt = field(res, "count")
            for rule, ghost, name in (("fun", "NF", "fun_evals"), ("jac", "NJ", "jac_evals")):
                if name not in cnt.f and m.fam == "erk" and rule == "jac":
                    continue
                if name not in cnt.f:
                    raise Broken("result has no counter " + name)
                a, b = m.S(num(cnt.f[name])), m.S(num(x.mem[ghost]))
                if a is b:
                    rep.ok(rule, "%s %s" % (m.name, kind))
                    continue
                if taint(a, b):
                    rep.undecided(rule, m.name, "counter not tracked")
                    continue
                bad = None
                try:
                    for c, (p, q) in guard_cases(m, g, lambda c: (c.red(a), c.red(b))):
                        if p is not q:
                            bad = (p, q, c)
                            break
                except T.TooMany:
                    rep.undecided(rule, m.name, "too many cases")
                    continue
                rep.check(bad is None, rule, m.fam + ":" + name, m.where, "%s: %s reports %s but %s calls were made (%s)" % (
                    (m.name, name, show(bad[0], 5), show(bad[1], 5), kind) if bad else ("", "", "", "", "")), "%s %s" % (m.name, kind))
        cs = steps(rep, m, "attempts")
        S = counter(m, cs)
        rh, rb = m.result(m.L.head.mem), m.result(m.L.back.mem)
        ch, cb = field(rh, "count"), field(rb, "count")
        if "attempt" not in ch.f:
            raise Broken("result has no counter attempt")
        rejs = [k for k in ch.f if k.startswith("reject")]
        d = lambda c, k: sub(c.red(m.S(num(cb.f[k]))), m.S(num(ch.f[k])))
        for s in steps(rep, m, "attempts", want=lambda c, s: (d(c, "attempt"), sumn(d(c, k) for k in rejs))):
            c = s.case
            da, dr = s.x
            if taint(da, dr):
                rep.undecided("attempts", m.name, "counter not tracked")
                continue
            rep.check(da is ONE, "attempts", m.fam + ":attempt", m.where, "%s: an attempt is counted %s times, when %s" % (m.name, show(da), c.describe()[:300]), m.name)
            rep.check(dr is (ZERO if s.accepted else ONE), "attempts", m.fam + ":reject", m.where,
                      "%s: %s step counted as %s rejections, when %s" % (m.name, "an accepted" if s.accepted else "a rejected", show(dr), c.describe()[:300]), m.name)
        # ways out do not count an attempt that was not made
        for kind, g, x, res in ends(m):
            stx = res.f["status"]
            try:
                for c, (st, a, r, n) in guard_cases(m, g, lambda c: (c.red(m.S(num(stx))), c.red(m.S(num(field(res, "count", "attempt")))),
                                                                     sumn(c.red(m.S(num(field(res, "count", k)))) for k in rejs), c.red(m.S(nfun(x))))):
                    made = sub(n, m.S(num(m.L.head.mem["NF"])))
                    da = sub(a, m.S(num(ch.f["attempt"])))
                    if made is ZERO:
                        rep.check(da is ZERO, "attempts", m.fam + ":nostep", m.where,
                                  "%s: leaving the loop (%s) without a step counts %s attempts" % (m.name, kind, show(da)), "%s %s" % (m.name, kind))
            except T.TooMany as e:
                rep.undecided("attempts", m.name, str(e))
        # entry counters are zero
        ce = field(m.result(m.L.entry.mem), "count")
        for k in ["attempt"] + rejs:
            rep.check(num(ce.f[k]) is ZERO, "attempts", m.fam + ":zero", m.where, "%s: %s starts at %s" % (m.name, k, ce.f[k]), m.name + " " + k)
        # acceptance fraction at successful return
        if isinstance(m.ret, StructV) and S is not None and getattr(m.L, "exit", None) is not None:
            af = m.S(num(m.ret.f["accept_frac"]))
            at = m.S(num(field(m.ret, "count", "attempt")))
            sx = value_at(m, m.L.exit, S)
            sx = None if sx is None else m.S(sx)
            # accepted steps may be expressed through the other counters
            alt = counter(m, cs, without=(S,)) if S.nid in m.mus else None
            rel = (lambda x: T.subst(x, {S.nid: alt})) if alt is not None else (lambda x: x)
            if taint(af) or sx is None:
                rep.undecided("fraction", m.name, "not tracked")
                continue
            try:
                for c, (st, a, b) in guard_cases(m, m.L.exit.guard, lambda c: (c.red(m.S(num(m.ret.f["status"]))), c.red(af), c.red(div(sx, at)))):
                    if st is not ZERO:
                        continue
                    rep.check(a is b or rel(a) is rel(b), "fraction", m.fam + ":fraction", m.where, "%s: acceptance fraction is %s instead of %s" % (m.name, show(a), show(b)), m.name)
            except T.TooMany as e:
                rep.undecided("fraction", m.name, str(e))
    return ("Ghost counters incremented at every call of the user's functions are proved equal to the reported counters by optimistic "
            "congruence of the loop unknowns; attempts and rejections are read from the transition relation.", ASSUME, 40)


def nfun(x):
    return num(x.mem["NF"])


# --------------------------------------------------------------------- P17
def P17(rep):
    rep.rule("status", "every way out of the integration before t1 has a non-success status")
    rep.rule("solved", "no step is accepted from a nonlinear solve that did not converge")
    rep.rule("orders", "an unsupported order is refused with a non-success status")
    for m in models(rep, ["erk", "irk"]):
        end_obligations(rep, m, "status")
        if m.fam != "irk":
            continue
        done = {}
        for s in steps(rep, m, "solved"):
            if not s.accepted or s.Y is None or taint(s.T, *s.Y):
                continue
            q = R.irk_stages(m, s)
            if q is None or q[1] is None:
                rep.undecided("solved", m.name, "stage evaluations not recognised")
                continue
            newton_obligations(rep, m, s, q[0], q[1], done, False)
    import mschecks
    mschecks.P17part(rep)
    return ("Exits of both integration loops with the status they carry; for the implicit family the facts on each accepting path must "
            "include the convergence test of the Newton iteration.", ASSUME, 20)
