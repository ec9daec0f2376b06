"""Checks over the multistep integrators: P05, P06 (and their part of P14, P17)."""
from fractions import Fraction as Q
from ms import *
from ms import MS
import ms as M
import rk as R
import lin
import terms as T
from rk import sumn, taint, F, Unrecognised, findval, getpath
from rkchecks import ASSUME as RKASSUME, guard_cases, ends, same_or, show
from lib import Broken, rel

AB = {1: [1], 2: [Q(3, 2), Q(-1, 2)], 3: [Q(23, 12), Q(-16, 12), Q(5, 12)], 4: [Q(55, 24), Q(-59, 24), Q(37, 24), Q(-9, 24)],
      5: [Q(1901, 720), Q(-2774, 720), Q(2616, 720), Q(-1274, 720), Q(251, 720)]}
ASSUME = RKASSUME + ["the nonlinear solver returns a root whenever it reports success, to within its tolerance (P18)",
                     "the history buffer keeps the latest points in order (P21)",
                     "the start-up Runge-Kutta integration ends at its final time with the flow of the equation (P09-P17), up to its tolerance"]


def bdf_coeffs(k):
    """Coefficients of the backward differentiation formula: sum_{j=1..k} (1/j) grad^j y_{n+1} = D f, scaled to y_{n+1}."""
    from math import comb
    a = [Q(0)] * (k + 1)
    for j in range(1, k + 1):
        for i in range(j + 1):
            a[i] += Q(1, j) * (-1) ** i * comb(j, i)
    return [x / a[0] for x in a[1:]], 1 / a[0]


def ab_check():
    """The oracle itself: AB weights integrate polynomials exactly."""
    for k, c in AB.items():
        for p in range(k):
            if sum(Q(x) * (-i) ** p for i, x in enumerate(c)) != Q(1, p + 1):
                raise Broken("AB oracle is wrong")


ORD = {"ab": range(1, 6), "bdf": range(1, 7)}


def models(rep):
    for kind in ("ab", "bdf"):
        for k in ORD[kind]:
            for n in ((2, 1, 3) if rep.tier == "thorough" else (2,)):
                m = M.model(rep, kind, k, n)
                if m is None:
                    continue
                if m.L is None:
                    rep.bad("model", "%s:none" % kind, m.where, "%s: order %d is not integrated" % (m.name, k))
                    continue
                if m.err:
                    rep.undecided("model", m.name, m.err)
                    continue
                yield m


def partial(rep):
    """Models whose loop could not be understood, as far as they go."""
    for kind in ("ab", "bdf"):
        for k in ORD[kind]:
            m = M.model(rep, kind, k, 2)
            if m is not None and m.L is not None and m.err:
                yield m


def tri(c, a, b):
    """Equality of two values in a case: True, False or None."""
    if a is b:
        return True
    if taint(a, b):
        return None
    r = lin.equal(c, a, b)
    return r if r is True or r is None else False


def proportional(c, g, want, X):
    """g = lambda * want for a nonzero lambda that does not depend on X."""
    if g is want:
        return True
    if taint(g):
        return None
    if g is ZERO:
        return False
    env = {x.nid: T.atom(T.show(x) + "'") for x in X}
    g2, w2 = T.subst(g, env), T.subst(want, env)
    return T.mul(g, w2) is T.mul(g2, want)


def explicit_next(pts, D, k):
    n = len(pts[0][1])
    f = [F(t, y) for t, y in pts]
    return [T.add(pts[0][1][j], T.mul(D, sumn(T.mul(T.const(AB[k][i]), f[i][j]) for i in range(k)))) for j in range(n)]


def implicit_system(pts, tn, D, k, X):
    a, beta = bdf_coeffs(k)
    f = F(tn, list(X))
    return [T.sub(T.add(X[j], sumn(T.mul(T.const(a[i]), pts[i][1][j]) for i in range(k))), T.mul(T.mul(T.const(beta), D), f[j])) for j in range(len(X))]


def judge(m, c, pts, tn, yn, solves):
    """Is (tn, yn) the next point after pts (latest first)?  (verdict, message)"""
    k = m.order
    D = T.sub(tn, pts[0][0])
    for i in range(k - 1):
        r = tri(c, T.sub(pts[i][0], pts[i + 1][0]), D)
        if r is False:
            return False, "the points are not equally spaced: %s and %s" % (show(T.sub(pts[i][0], pts[i + 1][0])), show(D))
        if r is None:
            return None, "spacing not tracked"
    if m.kind == "ab":
        want = explicit_next(pts[:k], D, k)
        rs = [tri(c, a, b) for a, b in zip(yn, want)]
        if False in rs:
            i = rs.index(False)
            return False, "component %d of the new point is %s instead of %s" % (i, show(yn[i], 7), show(want[i], 7))
        return (None if None in rs else True), "value not tracked"
    for sv in solves:
        if sv is None:
            return None, "system of the nonlinear solve not tracked"
        G, X, root = sv
        if not all(tri(c, a, b) is True for a, b in zip(yn, root)):
            continue
        want = implicit_system(pts[:k], tn, D, k, X)
        rs = [proportional(c, c.red(g), c.red(w), X) for g, w in zip(G, want)]
        if False in rs:
            i = rs.index(False)
            return False, "the equation solved is %s = 0 instead of %s = 0" % (show(G[i], 7), show(want[i], 7))
        return (None if None in rs else True), "equation not tracked"
    return (None if taint(*yn) else False), "the new point %s is not the root of the system solved in this step" % show(yn[0])


def P05(rep):
    ab_check()
    rep.rule("first", "the first k+3 recorded points after the start-up obey the formula of order k, applied to the recorded points before them")
    rep.rule("step", "whatever the history, a step applies the formula of order k to the k latest points and their times")
    rep.rule("history", "the loop's history vectors hold the latest points in order (inductive)")
    rep.rule("filled", "the formula only reads history elements that were put there")
    ms_ = list(models(rep))
    from sweep import Decider
    for name, it in M.built:
        D = Decider(it)
        for kind, g, s, data, around in it.safety:
            if kind == "access" and isinstance(data[0], str) and "history" in data[0]:
                v = D.decide(kind, g, data, around)
                if v == "undecided":
                    rep.undecided("filled", name, data[0])
                elif v != "ok":
                    rep.bad("filled", "%s:history" % s[2].split("<")[0], "%s:%s (%s)" % (rel(s[0]), s[1], s[2]), "%s: %s" % (name, v[:300]))
        rep.ok("filled", name)
    for m in ms_:
        try:
            steps = m.unroll(m.order + 3)
        except Unrecognised as e:
            rep.undecided("first", m.name, str(e))
            continue
        tv, yv = m.start_t, m.start_y
        pts = [(num(t), list(y.e)) for (_, t), (_, y) in zip(tv.items, yv.items) if isinstance(y, MatV)]
        if len(pts) != len(tv.items) or not (tv.concrete() and yv.concrete()):
            rep.undecided("first", m.name, "starting points not tracked")
            continue
        if len(pts) < m.order:
            rep.bad("first", m.kind + ":start", m.where, "%s: only %d points before the first step" % (m.name, len(pts)))
            continue
        rec = pts[::-1]
        for i, (g, ts, ys, sv) in enumerate(steps):
            if len(ts) != 1 or len(ys) != 1:
                rep.undecided("first", m.name, "%d points recorded by a step" % len(ts))
                break
            verdicts = []
            try:
                for c, r in T.cases(lambda c: None if c.red(g) is FALSE else (1,), m.basefacts, limit=600, splitmm=False):
                    if lin.System(c).infeasible():
                        continue
                    verdicts.append(judge(m, c, rec, ts[0][1], ys[0][1], sv))
                    if verdicts[-1][0] is False:
                        break
            except T.TooMany as e:
                verdicts.append((None, str(e)))
            bad = [v for v in verdicts if v[0] is False]
            und = [v for v in verdicts if v[0] is None]
            if bad:
                rep.bad("first", m.kind + ":first", m.where, "%s, step %d: %s" % (m.name, i + 1, bad[0][1]))
                break
            if und or not verdicts:
                rep.undecided("first", m.name, und[0][1] if und else "step not reachable")
            else:
                rep.ok("first", "%s step %d" % (m.name, i + 1))
            rec.insert(0, (ts[0][1], ys[0][1]))
        else:
            inductive(rep, m, pts)
    return ("The loops of both multistep integrators for every order: the first steps symbolically unrolled from the starting points, and one "
            "arbitrary step with the history vectors identified by induction; right-hand side, points and step size are symbolic.", ASSUME, 20)


def inductive(rep, m, pts):
    """One step from an arbitrary loop head."""
    L = m.L
    S = lambda v: [m.S(x) for x in v]
    vecs = [(S(h), S(e), S(b)) for h, e, b in m.vectors()]
    rb, rh = m.result(L.back.mem), m.result(L.head.mem)
    yn = S(rb.f["y_vals"].items[-1][1].e)
    tn = m.S(num(rb.f["t_vals"].items[-1][1]))
    eqv = lambda a, b: len(a) == len(b) and all(x is y for x, y in zip(a, b))
    g = T.andn(m.S(L.cond), m.S(L.back.guard))
    H = []
    for i in range(min(m.order, len(pts))):
        prev = yn if i == 0 else H[i - 1]
        c = [h for h, e, b in vecs if eqv(e, pts[-1 - i][1]) and eqv(b, prev)]
        if c:
            H.append(c[0])
            rep.ok("history", "%s point n-%d" % (m.name, i))
            continue
        # one that holds it after most steps
        c = [(h, b) for h, e, b in vecs if eqv(e, pts[-1 - i][1]) and any(q in T.subnodes(p) for p, q in zip(b, prev))]
        if not c:
            rep.undecided("history", m.name, "no vector holds the point %d steps back at every step" % i)
            return
        h, b = c[0]
        H.append(h)
        try:
            for c, (p, q) in T.cases(lambda c: None if c.red(g) is FALSE else ([c.red(x) for x in b], [c.red(x) for x in prev]), m.facts, limit=2000, splitmm=False):
                if lin.System(c).infeasible():
                    continue
                if c.red(tn) is m.T:
                    continue
                r = [tri(c, x, y) for x, y in zip(p, q)]
                if None in r:
                    rep.undecided("history", m.name, "history not tracked")
                elif all(r):
                    rep.ok("history", "%s point n-%d" % (m.name, i))
                else:
                    rep.bad("history", m.kind + ":history", m.where, "%s: after a step the point %d steps back is %s instead of %s, when %s" % (
                        m.name, i, show(p[0]), show(q[0]), c.describe()[:300]))
        except T.TooMany as e:
            rep.undecided("history", m.name, str(e))
    if not (m.mus[m.T.nid][1] is pts[-1][0] and m.S(m.mus[m.T.nid][2]) is tn):
        rep.undecided("step", m.name, "the recorded time is not the loop's time variable")
        return
    D0 = T.sub(pts[-1][0], pts[-2][0]) if len(pts) > 1 else None
    sv = []
    for q, x in L.back.mem[EV].items:
        if x[0] == "solve":
            sv.append(None if x[1] is None else (S(x[1]), x[4], S(x[6])))
    try:
        for c, r in T.cases(lambda c: None if c.red(g) is FALSE else (c.red(tn), [c.red(x) for x in yn]), m.facts, limit=2000, splitmm=False):
            if lin.System(c).infeasible():
                continue
            t1, y1 = r
            D = T.sub(t1, m.T)
            if m.order > 1 and tri(c, D, D0) is not True:
                rep.bad("step", m.kind + ":spacing", m.where, "%s: a step of %s after points spaced by %s, when %s" % (m.name, show(D), show(D0), c.describe()[:300]))
                continue
            back = [(T.sub(m.T, T.mul(T.const(i), D)), h) for i, h in enumerate(H)]
            ok, msg = judge(m, c, back, t1, y1, sv)
            if ok is True:
                rep.ok("step", m.name)
            elif ok is None:
                rep.undecided("step", m.name, msg)
            else:
                known = {x.nid for h in H for x in h} | {m.T.nid}
                other = [a for y in y1 for a in T.atoms_of(y) if a.nid in m.mus and a.nid not in known]
                if other:
                    rep.undecided("step", m.name, "the step depends on %s" % show(other[0]))
                else:
                    rep.bad("step", m.kind + ":step", m.where, "%s: %s, when %s" % (m.name, msg, c.describe()[:300]))
    except T.TooMany as e:
        rep.undecided("step", m.name, str(e))


def P06(rep):
    rep.rule("points", "the points recorded before the first step are at least the k the formula needs, the first being the initial value")
    rep.rule("flow", "each further starting point is the user's equation integrated from the previous point over one step size")
    rep.rule("spacing", "the starting points are one step of the later integration apart")
    rep.rule("equation", "the start-up integrates the user's equation")
    rep.rule("solved", "a start-up integration that can fail is checked before its result is used")
    for m in partial(rep):
        tv, yv = m.start_t, m.start_y
        if isinstance(tv, VecV) and isinstance(yv, VecV) and tv.concrete() and yv.concrete():
            rep.check(len(tv.items) == len(yv.items) and len(tv.items) >= m.order, "points", m.kind + ":points", m.where,
                      "%s: %d times and %d solutions recorded before the first step" % (m.name, len(tv.items), len(yv.items)), m.name)
    for m in models(rep):
        tv, yv = m.start_t, m.start_y
        if not (tv.concrete() and yv.concrete()) or not all(isinstance(y, MatV) for g, y in yv.items):
            rep.undecided("points", m.name, "starting points not tracked")
            continue
        ts = [num(t) for g, t in tv.items]
        ys = [list(y.e) for g, y in yv.items]
        if any(taint(t, *y) for t, y in zip(ts, ys)):
            rep.undecided("points", m.name, "starting points not tracked")
            continue
        rep.check(len(ts) == len(ys) and len(ts) >= m.order, "points", m.kind + ":points", m.where, "%s: %d times and %d solutions recorded before the first step" % (
            m.name, len(ts), len(ys)), m.name)
        if len(ts) != len(ys) or not ts:
            continue
        rep.check(ts[0] is m.t0 and all(a is b for a, b in zip(ys[0], m.y0)), "points", m.kind + ":initial", m.where,
                  "%s: the first recorded point is (%s, %s) instead of the initial value" % (m.name, show(ts[0]), show(ys[0][0])), m.name)
        L = m.L
        tb = m.S(m.mus[m.T.nid][2])
        ge = L.entry.guard
        for i in range(1, len(ts)):
            D = T.sub(ts[1], ts[0])
            try:
                for c, r in T.cases(lambda c: None if c.red(ge) is FALSE else (1,), m.basefacts, limit=500, splitmm=False):
                    if lin.System(c).infeasible():
                        continue
                    r = tri(c, T.sub(ts[i], ts[i - 1]), D)
                    if r is None:
                        rep.undecided("spacing", m.name, "not tracked")
                    else:
                        rep.check(r, "spacing", m.kind + ":spacing", m.where, "%s: starting times %s and %s are not one step %s apart" % (
                            m.name, show(ts[i - 1]), show(ts[i]), show(D)), m.name)
                    want = [uf("flow%d" % j, c.red(ts[i - 1]), c.red(ts[i]), *[c.red(x) for x in ys[i - 1]]) for j in range(m.Neq)]
                    got = [c.red(x) for x in ys[i]]
                    rep.check(all(flow_equal(c, a, b) for a, b in zip(got, want)), "flow", m.kind + ":flow", m.where,
                              "%s: starting point %d is %s instead of %s" % (m.name, i, show(got[0], 6), show(want[0], 6)), "%s point %d" % (m.name, i))
            except T.TooMany as e:
                rep.undecided("flow", m.name, str(e))
        if len(ts) > 1:
            D = T.sub(ts[1], ts[0])
            g = T.andn(m.S(L.cond), m.S(L.back.guard))
            try:
                for c, r in T.cases(lambda c: None if c.red(g) is FALSE else (c.red(tb),), m.facts, limit=2000, splitmm=False):
                    if lin.System(c).infeasible():
                        continue
                    q = tri(c, T.sub(r[0], m.T), D)
                    if q is None:
                        rep.undecided("spacing", m.name, "not tracked")
                    else:
                        rep.check(q, "spacing", m.kind + ":dt", m.where, "%s: starting points are %s apart but a step is %s" % (m.name, show(D), show(T.sub(r[0], m.T))), m.name)
            except T.TooMany as e:
                rep.undecided("spacing", m.name, str(e))
        # the loop starts at the last of them
        te = m.mus[m.T.nid][1]
        rep.check(te is ts[-1], "points", m.kind + ":handover", m.where, "%s: the first step starts at time %s, the last starting point is at %s" % (m.name, show(te), show(ts[-1])), m.name)
        for g, x in m.log.items:
            if x[0] != "start":
                continue
            if x[3] is None:
                rep.undecided("equation", m.name, "start-up arguments not tracked")
                continue
            fn = x[7]
            isF = isinstance(fn, LV) and fn.loc == "F" or isinstance(fn, StructV) and fn.cls == "probe_ode"
            rep.check(isF, "equation", m.kind + ":functor", m.where, "%s: the start-up integrates something else than the user's equation" % m.name, m.name)
        stat = m.status_nodes()
        for n in stat:
            bad = False
            try:
                for c, r in T.cases(lambda c: None if c.red(ge) is FALSE else (c.red(n),), m.basefacts, limit=500, splitmm=False):
                    if not lin.System(c).infeasible() and r[0] is not ZERO:
                        bad = True
            except T.TooMany:
                rep.undecided("solved", m.name, "too many cases")
                continue
            rep.check(not bad, "solved", m.kind + ":startfail", m.where, "%s: a start-up integration that may fail is used without looking at its status" % m.name, m.name)
        if not stat:
            rep.ok("solved", m.name + ": the start-up cannot fail")
    return ("The start-up of both multistep integrators for every order: calls of the one-step integrator, recorded points, and the state with "
            "which the loop is entered.", ASSUME, 40)


def flow_equal(c, a, b):
    if a is b:
        return True
    if a.op != b.op or len(a.args) != len(b.args):
        return False
    return all((x is y) if not isinstance(x, Node) else tri(c, x, y) is True or flow_equal(c, x, y) if isinstance(y, Node) and x.op == "uf" else (x is y or isinstance(x, Node) and isinstance(y, Node) and tri(c, x, y) is True)
               for x, y in zip(a.args, b.args))


def P14part(rep):
    """Alignment of times and solutions in multistep results."""
    for m in models(rep):
        tv, yv = m.start_t, m.start_y
        if tv.concrete() and yv.concrete():
            rep.check(len(tv.items) == len(yv.items), "initial", m.kind + ":initial", m.where, "%s: %d times and %d solutions recorded before the first step" % (
                m.name, len(tv.items), len(yv.items)), m.name)
        else:
            rep.undecided("initial", m.name, "recorded points not tracked")
        L = m.L
        rh, rb = m.result(L.head.mem), m.result(L.back.mem)
        v = [rh.f["t_vals"], rh.f["y_vals"], rb.f["t_vals"], rb.f["y_vals"]]
        if not all(isinstance(x, VecV) for x in v) or v[0].pre != v[2].pre or v[1].pre != v[3].pre:
            rep.undecided("aligned", m.name, "arrays not tracked")
            continue
        nt, ny = v[2].items[len(v[0].items):], v[3].items[len(v[1].items):]
        g = T.andn(m.S(L.cond), m.S(L.back.guard))
        tb = m.S(m.mus[m.T.nid][2])
        yb = [m.S(x) for x in getpath(L.back.mem[m.Yloc[0]], m.Yloc[1]).e]

        def want(c):
            if c.red(g) is FALSE:
                return None
            f = lambda items: [x for q, x in items if c.red(m.S(q)) is not FALSE]
            return f(nt), f(ny), c.red(tb), [c.red(y) for y in yb]
        try:
            for c, (a, b, t, y) in T.cases(want, m.facts, limit=2000, splitmm=False):
                if lin.System(c).infeasible():
                    continue
                rep.check(len(a) == len(b) and len(a) <= 1, "aligned", m.kind + ":aligned", m.where, "%s: a step records %d times and %d solutions, when %s" % (
                    m.name, len(a), len(b), c.describe()[:300]), m.name)
                if len(a) != 1 or len(b) != 1 or not isinstance(b[0], MatV):
                    continue
                r = [tri(c, c.red(m.S(num(a[0]))), t)] + [tri(c, c.red(m.S(p)), q) for p, q in zip(b[0].e, y)]
                if None in r:
                    rep.undecided("time", m.name, "recorded point not tracked")
                else:
                    rep.check(all(r), "time", m.kind + ":time", m.where, "%s: a step to (%s, %s) records (%s, %s)" % (
                        m.name, show(t), show(y[0]), show(num(a[0])), show(b[0].e[0])), m.name)
        except T.TooMany as e:
            rep.undecided("aligned", m.name, str(e))
        for kind, gg, x, res in ends(m):
            a, b = res.f["t_vals"], res.f["y_vals"]
            if isinstance(a, VecV) and isinstance(b, VecV) and a.pre == v[0].pre and b.pre == v[1].pre:
                rep.check(len(a.items) - len(v[0].items) == len(b.items) - len(v[1].items), "final", m.kind + ":final", m.where,
                          "%s: times and solutions differ in number on the way out (%s)" % (m.name, kind), "%s %s" % (m.name, kind))
            else:
                rep.undecided("final", m.name, "arrays not tracked on the way out")
        if isinstance(m.ret, StructV) and m.L.exits:
            x = ends(m)[-1][3]
            for k in ("t_vals", "y_vals"):
                a, b = m.ret.f.get(k), x.f.get(k)
                if isinstance(a, VecV) and isinstance(b, VecV) and a.pre == b.pre:
                    rep.check(len(a.items) == len(b.items), "final", m.kind + ":after", m.where, "%s: %s changes after the loop" % (m.name, k), m.name)
                else:
                    rep.undecided("final", m.name, "array %s not tracked" % k)


def P17part(rep):
    """Unsupported orders and failed solves of the multistep integrators."""
    for kind in ("ab", "bdf"):
        for k in list(range(-1, 9)):
            ok = k in ORD[kind]
            if ok:
                continue
            try:
                m = MS(kind, k)
            except Unrecognised as e:
                rep.undecided("orders", "%s order %d" % (kind, k), str(e))
                continue
            rep.uses(m.it)
            ret = m.ret
            st = num(ret.f["status"]) if isinstance(ret, StructV) and "status" in ret.f else None
            if m.L is None and (st is None or taint(st)):
                rep.undecided("orders", m.name, "status not tracked")
                continue
            rep.check(m.L is None and st.const is not None and st is not ZERO, "orders", kind + ":orders", m.where,
                      "%s: the unsupported order %d is %s" % (m.name, k, "integrated" if m.L is not None else "reported as status %s" % show(st)), m.name)
    for m in models(rep):
        L = m.L
        end_status(rep, m)
        if m.kind != "bdf":
            continue
        g = T.andn(m.S(L.cond), m.S(L.back.guard))
        tb, yb = m.S(m.mus[m.T.nid][2]), [m.S(x) for x in getpath(L.back.mem[m.Yloc[0]], m.Yloc[1]).e]
        sv = [x for q, x in L.back.mem[EV].items if x[0] == "solve"]
        if any(x[1] is None for x in sv) or not sv:
            rep.undecided("solved", m.name, "solve not tracked")
            continue
        try:
            for c, r in T.cases(lambda c: None if c.red(g) is FALSE else (c.red(tb), [c.red(y) for y in yb], [c.red(m.S(x[7])) for x in sv], [c.red(m.S(T.eq0(x[7]))) for x in sv]), m.facts, limit=2000, splitmm=False):
                if lin.System(c).infeasible():
                    continue
                t, y, ss, zs = r
                if t is m.T and all(a is b for a, b in zip(y, m.Y)):
                    rep.ok("solved", m.name + " keeps the solution")
                    continue
                rep.check(any(z is ZERO for z in ss) or any(z is TRUE for z in zs), "solved", m.kind + ":unsolved", m.where, "%s: a step is taken although the nonlinear solver did not report success, when %s" % (
                    m.name, c.describe()[:300]), m.name)
        except T.TooMany as e:
            rep.undecided("solved", m.name, str(e))


def end_status(rep, m):
    for kind, g, x, res in ends(m):
        stv = res.f["status"]
        Tx = None
        for k, v in m.L.head.mem.items():
            for p in findval(v, lambda q: q is m.T):
                w = getpath(x.mem.get(k), p) if k in x.mem else None
                if isinstance(w, (int, Node)):
                    Tx = num(w)
        if Tx is None:
            rep.undecided("status", m.name, "time at the exit not tracked")
            continue
        try:
            for c, (st, t) in guard_cases(m, g, lambda c: (c.red(m.S(num(stv))), c.red(m.S(Tx)))):
                if taint(st, t):
                    rep.undecided("status", m.name, "status not tracked")
                    continue
                done = lin.nonneg(c, T.sub(t, m.t1))
                ok = done if st is ZERO else st.const is not None or done
                rep.check(ok, "status", m.kind + ":end", m.where, "%s: the loop ends (%s) with status %s although t >= t1 is not established, when %s" % (
                    m.name, kind, show(st), c.describe()[:300]), "%s %s" % (m.name, kind))
        except T.TooMany as e:
            rep.undecided("status", m.name, str(e))
    if isinstance(m.ret, StructV) and "status" in m.ret.f:
        rs = num(m.ret.f["status"])
        from rkchecks import _ite_leaves
        ends_ = {n.nid for kind, g, x, res in ends(m) for n in _ite_leaves(num(res.f["status"]))}
        if any(taint(n) for n in _ite_leaves(rs)):
            rep.undecided("status", m.name, "returned status not tracked")
        else:
            rep.check(all(n.nid in ends_ for n in _ite_leaves(rs)), "status", m.kind + ":status", m.where,
                      "%s: the status returned, %s, is not the one the loop ended with" % (m.name, show(rs)), m.name + " returned status")
