"""Checks over the nonlinear solvers: P18, P19, P31."""
from nl import *
import nl as M
import lin
import terms as T
from terms import mul, sub, add, div, neg
from rk import sumn, taint, Unrecognised
from rkchecks import show, guard_cases
from lib import Broken, rel, Report

ASSUME = ["real arithmetic: rounding is not modelled; a non-finite value is one for which std::isfinite is false",
          "systems of 1 to 3 equations; the system, its Jacobi matrix, start and options are symbolic",
          "two terms are equal when their fingerprints in GF(2^61-1) agree (error probability below 1e-15 per run)"]


def configs(rep, kinds=("newton", "lu", "broyden")):
    th = rep.tier == "thorough"
    for kind in kinds:
        for n in ((2, 1, 3) if th or kind == "lu" else (2, 1)):
            if kind == "newton":
                for r in (1, 0, 10):
                    if r == 10 and n != 2:
                        continue
                    for pre in (False, True):
                        for lim in (False, True):
                            if n != 2 and not th and (pre or lim):
                                continue
                            for q in (True, False):
                                for tm in (False, True):
                                    if (not q or tm) and (n != 2 or r == 10):
                                        continue
                                    if n == 3 and (pre and lim):
                                        continue
                                    yield dict(kind=kind, N=n, refresh=r, precondition=pre, limit=lim, quiet=q, timing=tm)
            elif kind == "lu":
                for lim in (False, True):
                    yield dict(kind=kind, N=n, limit=lim)
            else:
                for q in (True, False):
                    yield dict(kind=kind, N=n, quiet=q)


def models(rep, **kw):
    for d in configs(rep, **kw):
        for ms in (True, False):
            if not ms and d["N"] != 2:
                continue
            m = M.model(rep, maxstep=ms, **d)
            if m is not None:
                yield m


def norm2(v):
    return sumn(mul(x, x) for x in v)


def noret(x):
    env = {a.nid: FALSE for a in T.subnodes(x) if a.op == "batom" and str(a.args[0]).startswith("ret:")}
    return T.subst(x, env) if env else x


def small(c, dx, d, bound):
    """Some fact of the case bounds the increment dx (a fraction of d) by bound, in a norm that bounds every component."""
    for v in ([dx] + ([d] if d else [])):
        mx = None
        for x in v:
            a = c.red(T.absn(x))
            mx = a if mx is None else c.red(T.maxn(mx, a))
        for q in (mx, T.sqrt(norm2(v))):
            if lin.pos(c, sub(bound, c.red(q))):
                return True
        n2 = c.red(norm2(v))
        if lin.pos(c, sub(mul(bound, bound), n2)):
            return True
        if all(lin.pos(c, sub(bound, c.red(T.absn(x)))) for x in v):
            return True
    return False


def P18(rep):
    rep.rule("converged", "the status is SUCCESS only if the last increment is below dx_delta or the residual of the returned point is below tol")
    rep.rule("finite", "the status is SUCCESS only if the residual was found to be finite")
    rep.rule("root", "a successful call returns the last iterate, the point whose residual was judged")
    rep.rule("residual", "the reported residual of a successful call is the norm of the system at the returned point")
    rep.rule("iterations", "the reported iteration count advances by one per iteration, from a start that is the same for every call")
    rep.rule("failure", "every other end sets a failure code")
    for m in models(rep):
        one(rep, m)
    return ("Every way newton_iterate (all option combinations), the LU variant and broyden_iterate can return, seen from the last iteration "
            "before it; the facts on the path must include the convergence test that justifies SUCCESS.", ASSUME, 60)


def one(rep, m):
    L = m.L
    itmu = None
    for k, v in L.head.mem.items():
        if k == "STAT" and isinstance(v, StructV) and isinstance(v.f.get("iters"), Node) and v.f["iters"].nid in m.mus:
            itmu = v.f["iters"]
    for kind, g, tr, g0, ret, stat, xs in m.finals():
        if not isinstance(stat, StructV) or not isinstance(ret, MatV):
            rep.undecided("converged", m.name, "status or result not tracked (%s)" % kind)
            continue
        fr = (lambda x: noret(x)) if kind != "return" else (lambda x: x)
        status = tr(fr(num(stat.f["conv_status"])))
        res = tr(fr(num(stat.f["res"])))
        rv = [tr(fr(x)) for x in ret.e]
        guard = tr(g) if g0 is None or kind != "none" else tr(g)
        pre = TRUE if g0 is None else (m.S(g0) if kind == "end" else g0)
        guard = T.andn(pre, guard)
        xb = [m.S(x) for x in m.Xb] if kind == "end" else [m.first(x) for x in m.X] if kind == "none" else None
        x0 = m.X if kind == "end" else None
        if kind not in ("end", "none"):
            q = m.iterate(xs)
            if q is not None:
                xb, x0 = [m.S(fr(x)) for x in q], m.X
        if taint(status):
            rep.undecided("converged", m.name, "status not tracked (%s)" % kind)
            continue
        fin_ = [a for a in T.subnodes(status, guard, res, *rv) if a.op == "batom" and str(a.args[0]) == "isfinite"]

        ds = [m.S(x) for x in direction(m, None)] if x0 is not None and direction(m, None) else None

        def want(c):
            if c.red(guard) is FALSE:
                return None
            s = c.red(status)
            if s.const is not None and s is not ZERO:
                return (s, None, None, None, None, None)
            return (s, c.red(res), [c.red(x) for x in rv], [c.red(x) for x in xb] if xb else None, [c.red(a) for a in fin_], [c.red(x) for x in ds] if ds else None)
        try:
            for c, (s, rs, r, xn, fin, d) in T.cases(want, m.facts, limit=6000, splitmm=False):
                if lin.System(c).infeasible():
                    continue
                sub_ = "%s (%s)" % (m.name, kind)
                if s.const is not None and s is not ZERO:
                    rep.ok("failure", sub_)
                    continue
                if s.const is None:
                    if lin.pos(c, s) or lin.pos(c, neg(s)):
                        rep.ok("failure", sub_)
                        continue
                    rep.undecided("converged", sub_, "status is not a constant")
                    continue
                # SUCCESS
                F = FX(r)
                res2 = norm2(F)
                by_res = lin.pos(c, sub(mul(m.tol, m.tol), c.red(res2))) or lin.pos(c, sub(m.tol, c.red(T.sqrt(res2))))
                by_inc = False
                if xn is not None and x0 is not None:
                    dx = [c.red(sub(a, b)) for a, b in zip(xn, x0)]
                    by_inc = small(c, dx, d, m.dx)
                if taint(*r):
                    rep.undecided("converged", sub_, "result not tracked")
                    continue
                rep.check(by_inc or by_res, "converged", m.kind + ":converged", m.where, "%s: SUCCESS is reported without a small increment or residual, when %s" % (
                    sub_, c.describe()[:500]), sub_)
                facts = [k for k, v in c.facts.items() if v and k.op == "batom" and str(k.args[0]) == "isfinite"]
                okf = any(mentions(k, r, c) for k in facts)
                rep.check(okf, "finite", m.kind + ":finite", m.where, "%s: SUCCESS is reported without testing that the residual is finite" % sub_, sub_)
                if xn is not None:
                    rep.check(all(a is b for a, b in zip(r, xn)), "root", m.kind + ":root", m.where, "%s: SUCCESS is reported but %s is returned instead of the last iterate" % (
                        sub_, show(r[0])), sub_)
                if taint(rs):
                    rep.undecided("residual", sub_, "residual not tracked")
                else:
                    rep.check(rs is T.sqrt(res2) or rs is res2, "residual", m.kind + ":residual", m.where, "%s: reported residual %s is not the norm of the system at the returned point" % (
                        sub_, show(rs, 5)), sub_)
        except T.TooMany as e:
            rep.undecided("converged", m.name, str(e))
    if itmu is None:
        rep.undecided("iterations", m.name, "no iteration counter")
        return
    h, e, b = m.mus[itmu.nid]
    rep.check(m.S(b) is add(h, ONE) or all_one(m, b, h), "iterations", m.kind + ":count", m.where, "%s: the iteration count goes from %s to %s" % (m.name, show(h), show(m.S(b))), m.name)
    rep.check(e in (ZERO, ONE), "iterations", m.kind + ":count0", m.where, "%s: the iteration count starts at %s" % (m.name, show(e)), m.name)
    for kind, g, tr, g0, ret, stat, xs in m.finals():
        if not isinstance(stat, StructV):
            continue
        f = tr(noret(num(stat.f["iters"])) if kind != "return" else num(stat.f["iters"]))
        if taint(f):
            rep.undecided("iterations", m.name, "not tracked")
            continue
        want = (m.S(b),) if kind == "end" else (e,) if kind == "none" else (itmu, add(itmu, ONE))
        g1 = T.andn(TRUE if g0 is None else (m.S(g0) if kind == "end" else g0), tr(g))
        try:
            ok = f in want or all(any(q is w for w in r[1:]) or lin.System(c).infeasible() for c, r in T.cases(
                lambda c: None if c.red(g1) is FALSE else [c.red(f)] + [c.red(w) for w in want], m.facts, limit=2000, splitmm=False)
                for q in r[:1])
        except T.TooMany as ex:
            rep.undecided("iterations", m.name, str(ex))
            continue
        rep.check(ok, "iterations", m.kind + ":reported", m.where, "%s: the reported iteration count of a run is %s (%s)" % (m.name, show(f), kind), m.name)


def all_one(m, b, h):
    g = m.S(m.L.back.guard)
    try:
        return all(r[0] is ONE or lin.System(c).infeasible() for c, r in T.cases(lambda c: None if c.red(g) is FALSE else (sub(c.red(m.S(b)), h),), m.facts, limit=500, splitmm=False))
    except T.TooMany:
        return False


def direction(m, c):
    """An undamped step vector of the body whose multiple the increment is: found among the vectors the body leaves behind."""
    if hasattr(m, "_dirs"):
        return m._dirs
    m._dirs = None
    L = m.L
    dx = [m.S(sub(a, b)) for a, b in zip(m.Xb, m.X)]
    best = None
    for k, v in L.back.mem.items():
        if k == EV or k in L.entry.mem and False:
            continue
        for p in findval(v, lambda q: isinstance(q, MatV) and q.n == m.n and q.c == 1):
            d = [m.S(x) for x in getpath(v, p).e]
            if all(x is y for x, y in zip(d, dx)) or any(taint(x) for x in d) or all(x is ZERO for x in d):
                continue
            # dx = lambda d with 0 < lambda <= 1
            lam = div(dx[0], d[0]) if d[0] is not ZERO else None
            if lam is None or lam.const is not None and lam.const > 1:
                continue
            if all(mul(lam, y) is x for x, y in zip(dx, d)) and fraction(lam):
                best = d
    m._dirs = best
    return best


def fraction(lam):
    """0 < lam <= 1 whatever the unknowns: lam is 1/(1+q), q >= 0, or its square root."""
    c = T.Case()
    try:
        inv = div(ONE, lam)
        if inv.op == "sqrt":
            inv = inv.args[0]
        return c.sign(sub(inv, ONE)) in ("+", ">=", "0")
    except Exception:
        return False


def mentions(k, r, c):
    """An isfinite fact about a quantity that is finite only if the system at r is."""
    F = FX(r)
    n2 = norm2(F)
    goals = {n2.nid, T.sqrt(n2).nid}
    for a in k.args[1:]:
        if isinstance(a, Node):
            q = c.red(a)
            if q.nid in goals:
                return True
    return set(x.nid for x in F) <= {c.red(a).nid for a in k.args[1:] if isinstance(a, Node)}


# --------------------------------------------------------------------- P19
def P19(rep):
    rep.rule("direction", "each Newton update is a positive multiple of the solution of (Jacobi matrix) d = -(residual at the current point)")
    rep.rule("matrix", "the Jacobi matrix is that of the current point when it is to be refreshed, that of the initial point otherwise")
    rep.rule("secant", "the matrix kept by Broyden's method maps the last change of the system to the last change of the point")
    rep.rule("limit", "with max_step > 0 no update is longer than max_step")
    rep.rule("options", "damping, scaling and printing happen exactly when the corresponding option is set")
    for m in models(rep):
        step(rep, m)
    return ("One arbitrary iteration of newton_iterate for all 32 option combinations, of the LU variant and of broyden_iterate; residual, Jacobi matrix "
            "and LU factors are proved to be those of the current iterate by induction.", ASSUME, 100)


def step(rep, m):
    L = m.L
    n = m.n
    X = m.X
    g = m.S(L.back.guard)
    xb = [m.S(x) for x in m.Xb]
    r = FX(X)
    mats = []
    if m.kind == "broyden":
        for k, hv in L.head.mem.items():
            if k == EV:
                continue
            for p in findval(hv, lambda v: isinstance(v, MatV) and v.r == v.c == n and v.n == n * n):
                h, b = getpath(hv, p), getpath(L.back.mem.get(k), p)
                if isinstance(b, MatV) and (n > 1 or any(x.nid in m.mus for x in h.e)) and not any(x is y for x, y in zip(h.e, X)):
                    mats.append(([m.S(x) for x in h.e], [m.S(x) for x in b.e]))
    if m.kind == "newton":
        Js = [JX(X)] if m.refresh else [JX(m.x0)]
    else:
        Js = [JX(X)]

    def mv(A, v):
        return [sumn(mul(A[i + j * n], v[j]) for j in range(n)) for i in range(n)]

    def want(c):
        if c.red(g) is FALSE:
            return None
        return ([c.red(x) for x in xb], [([c.red(x) for x in b]) for h, b in mats])
    damp = False
    try:
        cs = T.cases(want, m.facts, limit=6000, splitmm=False)
        for c, (xn, mb) in cs:
            if lin.System(c).infeasible():
                continue
            if taint(*xn):
                rep.undecided("direction", m.name, "update not tracked")
                continue
            dx = [sub(a, b) for a, b in zip(xn, X)]
            # limit
            if m.maxstep.const is None:
                n2 = c.red(norm2(dx))
                lim = mul(m.maxstep, m.maxstep)
                ok = c.red(sub(lim, n2)) is ZERO or n2 is lim or lin.nonneg(c, sub(lim, n2)) or frac_ok(c, lim, n2) or \
                    any(x.op in ("max", "min") for x in T.subnodes(n2)) and all(frac_ok(c2, lim, v[0]) for c2, v in lin.leaves(c, [n2]))
                rep.check(ok, "limit", m.kind + ":limit", m.where, "%s: an update of squared length %s is not limited by max_step, when %s" % (m.name, show(n2, 5), c.describe()[:300]), m.name)
            if m.kind == "broyden":
                okd = oks = False
                rn = FX(xn)
                df = [sub(a, b) for a, b in zip(rn, r)]
                for (h, b), bb in zip(mats, mb):
                    for inverse in (True, False):
                        if inverse:
                            s = all(x is y for x, y in zip(mv(bb, df), dx))
                            w, v = mv(h, r), dx
                        else:
                            s = all(x is y for x, y in zip(mv(bb, dx), df))
                            w, v = r, mv(h, dx)
                        d = parallel(c, v, w, dx)
                        if s:
                            oks = True
                            okd = okd or d if d is not None or okd else None
                if not oks:
                    # no rank-one update exists where its denominator is zero
                    oks = any(vanishes(c, sumn(mul(a, b) for a, b in zip(u, v)))
                              for h, b in mats for u, v in ((dx, mv(h, df)), (df, df), (df, mv(h, dx)), (dx, dx)))
                    if oks:
                        rep.check(True, "secant", m.kind + ":secant", m.where, "", m.name)
                        continue
                rep.check(oks, "secant", m.kind + ":secant", m.where, "%s: no matrix of the iteration satisfies the secant equation, when %s" % (m.name, c.describe()[:300]), m.name)
                if oks and okd is None:
                    rep.undecided("direction", m.name, "sign of the update not found")
                elif oks:
                    rep.check(okd, "direction", m.kind + ":direction", m.where, "%s: the update %s is not a positive multiple of minus the matrix times the residual" % (m.name, show(dx[0], 6)), m.name)
            else:
                ds = [parallel(c, mv(A, dx), r, dx) for A in Js]
                d = any(ds)
                if not d and None in ds:
                    rep.undecided("direction", m.name, "sign of the update not found")
                    continue
                if not d and m.kind == "newton" and m.refresh > 1:
                    rep.undecided("direction", m.name, "Jacobi matrix may be an older one")
                    continue
                rep.check(d, "direction", m.kind + ":direction", m.where, "%s: the update %s is not a positive multiple of the Newton direction, when %s" % (m.name, show(dx[0], 6), c.describe()[:300]), m.name)
                if d and m.maxstep.const is not None:
                    mu = div(neg(mv(Js[0], dx)[0]), r[0])
                    one_ = mu is ONE or c.red(mu) is ONE
                    rep.check(one_ != m.limit, "options", m.kind + ":limit_step", m.where, "%s: the Newton step is multiplied by %s" % (m.name, show(mu)), m.name + " damping")
    except T.TooMany as e:
        rep.undecided("direction", m.name, str(e))
    if m.kind == "newton":
        ev = [x for gg, x in L.back.mem[EV].items if x[0] == "jac"]
        if m.refresh == 1:
            rep.check(bool(ev), "matrix", m.kind + ":refresh", m.where, "%s: the Jacobi matrix is never evaluated again" % m.name, m.name)
        elif m.refresh == 0:
            rep.check(not ev, "matrix", m.kind + ":norefresh", m.where, "%s: the Jacobi matrix is evaluated again" % m.name, m.name)
        sv = [x for gg, x in L.back.mem[EV].items if x[0] == "solve" and isinstance(x[1], MatV)]
        A0 = Js[0]
        for x in sv:
            A = [m.S(y) for y in x[1].e]
            plain = all(a is b for a, b in zip(A, A0))
            if m.precondition:
                rep.check(not plain, "options", m.kind + ":precondition", m.where, "%s: the system is solved without preconditioning" % m.name, m.name + " precondition")
            else:
                rep.check(plain, "options", m.kind + ":precondition", m.where, "%s: the system solved is not the one of the Jacobi matrix" % m.name, m.name + " precondition")
        if not sv and n > 1:
            rep.undecided("options", m.name, "no linear solve seen")
    if m.kind != "lu":
        o = outputs(m)
        if o is None:
            rep.undecided("options", m.name, "streams not tracked")
        else:
            rep.check(o != m.quiet, "options", m.kind + ":quiet", m.where, "%s: %s is printed" % (m.name, "something" if o else "nothing"), m.name + " quiet")


def vanishes(c, x):
    """The case knows that x is zero."""
    y = c.red(x)
    if y is ZERO:
        return True
    return any(c.red(T.eq0(z)) is TRUE for z in (x, y))


def unroot(n):
    """Replaces square roots that enter the term only through their square."""
    for q in [x for x in T.subnodes(n) if x.op == "uf" and x.args[0] == "sqrt"]:
        a, b = atom("root.a", True), atom("root.b", True)
        na, nb = T.subst(n, {q.nid: a}), T.subst(n, {q.nid: b})
        if na is nb:
            n = na
        elif mul(na, mul(b, b)) is mul(nb, mul(a, a)):
            n = mul(T.subst(n, {q.nid: ONE}), q.args[1])
        elif mul(na, mul(a, a)) is mul(nb, mul(b, b)):
            n = div(T.subst(n, {q.nid: ONE}), q.args[1])
    return n


def frac_ok(c, lim, n2):
    """n2 <= lim because n2 = lim * q with q <= 1."""
    n0, n2 = n2, c.red(unroot(c.red(unroot(n2))))
    if n2 is lim or lin.nonneg(c, sub(lim, n2)):
        return True
    root = lim.args[0] if lim.op == "mul" and lim.args[0] is lim.args[1] else T.sqrt(lim)
    for x in (n2, n0):
        r = T.sqrt(x)
        if lin.nonneg(c, sub(root, r)) or any(c.red(T.pos(y)) is FALSE for y in (sub(r, root), sub(ONE, div(root, r)), sub(div(r, root), ONE))) \
                or any(c.red(T.pos(y)) is TRUE for y in (sub(root, r), sub(div(root, r), ONE), sub(ONE, div(r, root)))):
            return True
    # a known quotient root/b >= 1 with b*b the squared length
    for d in {d.nid: d for k in c.facts if k.op == "pos" for d in T.subnodes(k.args[0]) if d.op == "div" and d.args[0] is root}.values():
        if c.red(T.pos(sub(ONE, d))) is FALSE and any(unroot(mul(d.args[1], d.args[1])) is x for x in (n2, n0)):
            return True
    q = div(lim, n2)
    return c.sign(sub(c.red(q), ONE)) in ("+", ">=", "0")


def parallel(c, v, r, hints):
    """v = -mu r with mu > 0: True; False if that is not so; None if the sign of mu is not found."""
    n = len(v)
    for i in range(n):
        for j in range(i):
            if mul(v[i], r[j]) is not mul(v[j], r[i]) and c.red(mul(v[i], r[j])) is not c.red(mul(v[j], r[i])):
                return False
    mu = c.red(div(neg(v[0]), r[0]))
    if mu.const is not None:
        return mu.const > 0
    if c.sign(mu) == "+" or lin.pos(c, mu):
        return True
    q = positives(c, hints)
    for a in q:
        if a is mu:
            return True
        if a is neg(mu):
            return False
    for a in q:
        for b in q:
            for p in (mul(a, b), div(a, b)):
                if p is mu:
                    return True
                if p is neg(mu):
                    return False
    return None


def positives(c, hints):
    """Positive factors that occur in the given terms."""
    out = [ONE]
    for x in T.subnodes(*hints):
        if x.op in ("uf", "div", "atom", "mul", "add", "sub", "min", "max") and x not in out and (c.sign(x) == "+" or x.op == "uf" and x.args[0] == "sqrt" and rootpos(c, x)
                                                                            or x.op == "div" and quopos(c, x)):
            out.append(x)
    return out[:40]


def rootpos(c, x):
    return ispos(c, x.args[1])


def quopos(c, a):
    return all(ispos(c, y) for y in a.args)


def ispos(c, y):
    if c.sign(y) == "+" or lin.pos(c, y):
        return True
    if y.op in ("div", "mul"):
        return all(ispos(c, z) for z in y.args)
    # y is a factor of a product known to be positive, next to a positive one
    for k, v in c.facts.items():
        for p in T.subnodes(k) if k.op == "pos" else ():
            if p.op == "mul" and y in factors(p) and lin.pos(c, p):
                o = factors(p)
                o.remove(y)
                if all(c.sign(z) == "+" or z in o[:i] or o.count(z) == 2 for i, z in enumerate(o)):
                    return c.sign(y) in (">=", "+") or all(c.sign(z) == "+" for z in o)
    return False


def factors(p):
    if p.op == "mul":
        return factors(p.args[0]) + factors(p.args[1])
    return [p]


def outputs(m):
    """Does an iteration write to a standard stream?"""
    def has(log):
        for g, x in log.items:
            if x[0] == "print":
                return True
            if x[0] == "loop" and x[1].back and has(x[1].back.mem[EV]):
                return True
            if x[0] == "final" and any(y[0] == "print" for _, y in x[1].items):
                return True
        return False
    return has(m.L.back.mem[EV])


# --------------------------------------------------------------------- P31
def P31(rep):
    rep.rule("entry", "entry (i,j) of the finite-difference matrix is (f_i(y + h e_j) - f_i(y - h e_j)) / 2h")
    rep.rule("accept", "the verifier returns true only on paths that bound every entry's difference from the finite-difference matrix")
    rep.rule("point", "the verifier takes the Jacobi matrix at the given point and compares it with the finite-difference matrix there")
    for n in (1, 2, 3) if rep.tier == "quick" else (1, 2, 3, 4, 5):
        fd(rep, n)
    for n in (1, 2):
        ver(rep, n)
    return ("approx_jacobi_matrix is interpreted for an uninterpreted system and every entry compared with the central difference; verify_jacobi_matrix is "
            "interpreted with the same system and each accepting path searched for a bound on every entry.", ASSUME, 14)


def setup(name, n, h=None):
    db = M.database()
    it = Interp(db, {"probe_nl::fun": M.fun, "probe_nl::jac": M.jac})
    st = it.new_state()
    st.mem["NF"] = 0
    st.mem["F"] = StructV("probe_nl", {})
    y = [atom("x%d" % k) for k in range(n)]
    st.mem["Y"] = MatV(n, 1, y)
    f = [q for q in db.byq.get(name, []) if q.get("body")]
    if not f:
        raise Broken(name + " not found")
    a = [LV("Y"), LV("F")] + ([h] if h is not None else [])
    try:
        r = it.callfn(f[0], None, a, st, "R")
    except (Unsup, Dead) as e:
        return it, st, y, None, str(e)
    return it, st, y, it.rv(r, st) if isinstance(r, LV) else r, None


def central(y, h, i, j):
    up = [add(a, h) if k == j else a for k, a in enumerate(y)]
    dn = [sub(a, h) if k == j else a for k, a in enumerate(y)]
    return div(sub(FX(up)[i], FX(dn)[i]), mul(const(2), h))


def where_of(it, name):
    for q, f, l in sorted(it.used):
        if q.endswith(name):
            return "%s:%d (%s)" % (rel(f), l, q)
    return name


def fd(rep, n):
    h = atom("h", True)
    it, st, y, r, err = setup("probe_approx", n, h)
    rep.uses(it)
    w = where_of(it, "approx_jacobi_matrix")
    if not isinstance(r, MatV):
        rep.undecided("entry", "N=%d" % n, err or "result not tracked")
        return
    rep.check((r.r, r.c) == (n, n), "entry", "approx:shape", w, "the matrix for %d equations is %s by %s" % (n, r.r, r.c), "N=%d shape" % n)
    if (r.r, r.c) != (n, n):
        return
    for j in range(n):
        for i in range(n):
            x = r.e[i + j * n]
            if taint(x):
                rep.undecided("entry", "N=%d (%d,%d)" % (n, i, j), "not tracked")
                continue
            rep.check(x is central(y, h, i, j), "entry", "approx:entry", w, "entry (%d,%d) for %d equations is %s" % (i, j, n, show(x, 6)), "N=%d (%d,%d)" % (n, i, j))


def ver(rep, n):
    it, st, y, r, err = setup("probe_verify", n)
    rep.uses(it)
    w = where_of(it, "verify_jacobi_matrix")
    ev = [x for g, x in st.mem[EV].items]
    js = [x[1] for x in ev if x[0] == "jac"]
    rep.check(js and all(x is not None and all(a is b for a, b in zip(x, y)) for x in js), "point", "verify:point", w, "the Jacobi matrix is not taken at the given point", "N=%d" % n)
    # the step the verifier uses, from its evaluations of the system
    hs = set()
    for x in ev:
        if x[0] == "fun" and x[1] is not None:
            for a, b in zip(x[1], y):
                d = sub(a, b)
                if d.const:
                    hs.add(abs(d.const))
    if r is None or taint(T.boolean(r)):
        rep.undecided("accept", "N=%d" % n, err or "verdict not tracked")
        return
    g = T.boolean(r)
    if g is TRUE:
        rep.bad("accept", "verify:accepts-all", w, "the verdict for %d equations is true whatever the Jacobi matrix" % n)
        return
    if len(hs) != 1:
        rep.undecided("accept", "N=%d" % n, "finite-difference step not found: %s" % sorted(hs))
        return
    h = const(hs.pop())
    D = JX(y)
    de = [sub(central(y, h, i, j), D[i + j * n]) for j in range(n) for i in range(n)]

    def want(c):
        if c.red(g) is FALSE:
            return None
        return [c.red(d) for d in de]
    try:
        for c, ds in T.cases(want, {}, limit=4000, splitmm=True):
            if lin.System(c).infeasible():
                continue
            for k, d in enumerate(ds):
                ok = any(lin.pos(c, sub(const(bd), c.red(q))) for q, bd in ((T.absn(d), T.Fraction(1, 10)), (mul(d, d), T.Fraction(1, 100)))) or \
                    lin.pos(c, sub(const(T.Fraction(1, 10)), d)) and lin.pos(c, add(const(T.Fraction(1, 10)), d))
                if not ok:
                    ok = relative(c, d)
                rep.check(ok, "accept", "verify:accepts", w, "N=%d: the matrix is accepted without a bound on entry (%d,%d), when %s" % (n, k % n, k // n, c.describe()[:300]),
                          "N=%d (%d,%d)" % (n, k % n, k // n))
    except T.TooMany as e:
        rep.undecided("accept", "N=%d" % n, str(e))


def relative(c, d):
    """Some fact bounds |d| or d*d by a term that does not contain it."""
    goals = [c.red(T.absn(d)), c.red(mul(d, d))]
    for k, v in c.facts.items():
        if k.op == "pos":
            x = k.args[0] if v else T.neg(k.args[0])
            co, c0, base = lin.linear(c.red(x))
            for q in goals:
                if q.nid in co and co[q.nid] < 0:
                    return True
                for b in base.values():
                    if co[b.nid] < 0 and b.op == "max" and any(z is q for z in T.subnodes(b)):
                        return True
    return False
