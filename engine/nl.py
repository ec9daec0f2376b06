"""Model of the nonlinear solvers (Newton, Broyden), derived from the source.

One call with an uninterpreted system is interpreted; the iteration is the loop
whose body evaluates the system.  Loop unknowns are named by functions of the
current iterate (residual, Jacobi matrix, LU factors, ...) when those equalities
are inductive.
"""
import os
from front import REPO, PROBE, Broken, extract
from interp import *
from interp import _int
import terms as T
import lin
from lib import rel
from rk import findval, getpath, leaves, loops_of, hascall, Unrecognised, taint
from terms import cases

_db = []


def database():
    if not _db:
        _db.append(DB(extract([os.path.join(PROBE, "newton.cpp"), os.path.join(REPO, "newton.cpp")])))
    return _db[0]


def FX(x):
    return [uf("r%d" % k, *x) for k in range(len(x))]


def JX(x):
    n = len(x)
    return [uf("D%d_%d" % (i, j), *x) for j in range(n) for i in range(n)]


def fun(it, st, fr, e, this, a):
    x = it.rv(a[0], st)
    if not isinstance(x, MatV):
        it.event(st, "fun", None)
        return it.top("argument of the system", e)
    it.event(st, "fun", tuple(x.e))
    st.mem["NF"] = _int(add(num(st.mem["NF"]), ONE))
    return MatV(x.n, 1, FX(x.e))


def jac(it, st, fr, e, this, a):
    x = it.rv(a[0], st)
    if not isinstance(x, MatV):
        it.event(st, "jac", None)
        return it.top("argument of the Jacobi matrix", e)
    it.event(st, "jac", tuple(x.e))
    return MatV(x.n, x.n, JX(x.e))


class NL:
    def __init__(self, kind, N=2, refresh=1, precondition=False, limit=False, quiet=True, timing=False, maxstep=True):
        self.kind, self.n = kind, N
        self.refresh, self.precondition, self.limit, self.quiet = refresh, precondition, limit, quiet
        self.name = "%s N=%d%s%s%s%s%s" % (kind, N, "" if kind == "broyden" else " refresh=%s" % refresh, " precondition" if precondition else "",
                                         " limit" if limit else "", "" if quiet else " verbose", " max_step" if maxstep else "")
        db = self.db = database()
        it = self.it = Interp(db, {"probe_nl::fun": fun, "probe_nl::jac": jac})
        st = self.st = it.new_state()
        st.mem["NF"] = 0
        self.x0 = [atom("x%d" % k) for k in range(N)]
        fr = Frame("SETUP", None, 0)
        o = it.construct_default("newton::options", st, fr, {"k": "setup", "args": []})
        s = it.construct_default("newton::status", st, fr, {"k": "setup", "args": []})
        if not isinstance(o, StructV) or not isinstance(s, StructV):
            raise Broken("newton::options cannot be built")
        self.tol, self.dx, self.maxit = atom("tol", True), atom("dx_delta", True), atom("maxit", isint=True)
        self.maxstep = atom("max_step", True) if maxstep else const(-1)
        kw = dict(tol=self.tol, dx_delta=self.dx, maxit=self.maxit, max_step=self.maxstep, refresh_jac=refresh,
                  precondition=precondition, limit_step=limit, time_internals=timing)
        f = dict(o.f)
        for k, v in kw.items():
            if k not in f:
                raise Broken("newton::options has no member " + k)
            f[k] = v
        st.mem["O"] = StructV(o.cls, f)
        # what the status held before must not matter
        st.mem["STAT"] = StructV(s.cls, {k: (atom("old." + k, isint=isinstance(v, int)) if isinstance(v, (int, Node)) else v) for k, v in s.f.items()})
        st.mem["F"] = StructV("probe_nl", {})
        probe = {"newton": "probe_newton", "broyden": "probe_broyden", "lu": "probe_newton_lu_limit" if limit else "probe_newton_lu"}[kind]
        fns = [q for q in db.byq.get(probe, []) if q.get("body")]
        if not fns:
            raise Broken(probe + " not found")
        args = [LV("F"), MatV(N, 1, self.x0), LV("O"), LV("STAT")]
        if kind != "lu":
            args.append(quiet)
        try:
            r = it.callfn(fns[0], None, args, st, "R")
        except Unsup as ex:
            raise Unrecognised(str(ex))
        except Dead:
            raise Unrecognised("the solver never returns")
        self.ret = it.rv(r, st) if isinstance(r, LV) else r
        self.log = st.mem[EV]
        ls = loops_of(self.log, ("fun",))
        if len(ls) != 1 or ls[0].back is None:
            raise Unrecognised("%d loops evaluate the system" % len(ls))
        L = self.L = ls[0]
        self.where = "%s:%d (%s)" % (rel(L.file), L.line, L.fn)
        self.mus = {}
        for k, hv in L.head.mem.items():
            if k != EV and k in L.entry.mem and k in L.back.mem:
                for h, e, b in leaves(hv, L.entry.mem[k], L.back.mem[k]):
                    if h is not e:
                        self.mus[h.nid] = (h, e, b)
        self.facts = {}
        self.env, self.memo = {}, {}
        self.findX()
        self.invariants()

    def S(self, x):
        if not isinstance(x, Node):
            x = num(x)
        if not self.env:
            return x
        if x.nid not in self.memo:
            T.subst(x, self.env, self.memo)
        return T.subst(x, self.env, self.memo)

    def findX(self):
        """The iterate: starts at the initial guess and becomes the point where the system is evaluated."""
        L = self.L
        ev = [x for g, x in L.back.mem[EV].items if x[0] == "fun"]
        if not ev or ev[-1][1] is None:
            raise Unrecognised("evaluation of the system not tracked")
        xn = ev[-1][1]
        best = None
        for k, hv in L.head.mem.items():
            if k == EV:
                continue
            for p in findval(hv, lambda v: isinstance(v, MatV) and v.n == self.n and v.c == 1):
                h, e, b = getpath(hv, p), getpath(L.entry.mem.get(k), p), getpath(L.back.mem.get(k), p)
                if not isinstance(e, MatV) or not isinstance(b, MatV):
                    continue
                if all(x is y for x, y in zip(e.e, self.x0)) and all(x.nid in self.mus for x in h.e):
                    sc = all(x is y for x, y in zip(b.e, xn))
                    if best is None or sc > best[0]:
                        best = (sc, h, b, (k, p))
        if best is None:
            raise Unrecognised("no vector of the loop starts at the initial guess")
        self.Xat = best[3]
        self.X = list(best[1].e)
        self.Xb = list(best[2].e)

    def invariants(self):
        """Unknowns that are functions of the iterate: optimistic induction."""
        L = self.L
        toX = {a.nid: x for a, x in zip(self.x0, self.X)}
        hyp = {}
        xs = {x.nid for x in self.X}
        for n, (h, e, b) in self.mus.items():
            if n in xs:
                continue
            if not taint(e) and any(a in self.x0 for a in T.atoms_of(e)):
                hyp[n] = T.subst(e, toX)
        for rnd in range(30):
            self.env, self.memo = dict(hyp), {}
            step = {x.nid: self.S(b) for x, b in zip(self.X, self.Xb)}
            g = self.S(L.back.guard)
            bad = set()
            for n in hyp:
                want = T.subst(hyp[n], step)
                got = self.S(self.mus[n][2])
                if want is got:
                    continue
                try:
                    for c, (p, q) in cases(lambda c: None if c.red(g) is FALSE else (c.red(got), c.red(want)), self.facts, limit=600, splitmm=False):
                        if p is not q and not lin.System(c).infeasible():
                            bad.add(n)
                            break
                except T.TooMany:
                    bad.add(n)
            if not bad:
                break
            for n in bad:
                del hyp[n]
        self.env, self.memo = dict(hyp), {}
        self.named = len(hyp)
        # equal unknowns (same start, same step)
        groups = {}
        for n, (h, e, b) in self.mus.items():
            if n not in self.env:
                groups.setdefault((h.isbool, e.fp), []).append(h)
        self.base = dict(self.env)

    def last(self, x):
        """A term over the loop head, seen from the head one iteration earlier."""
        if not hasattr(self, "_step"):
            self._step = {n: self.S(b) for n, (h, e, b) in self.mus.items()}
            self._smemo = {}
        return T.subst(self.S(x), self._step, self._smemo)

    def first(self, x):
        """A term over the loop head, at loop entry."""
        if not hasattr(self, "_ent"):
            self._ent = {n: e for n, (h, e, b) in self.mus.items()}
            self._ement = {}
        return T.subst(x if isinstance(x, Node) else num(x), self._ent, self._ement)

    def iterate(self, x):
        """The iterate in a state that leaves the loop in the middle of an iteration."""
        k, p = self.Xat
        v = getpath(x.mem.get(k), p) if k in x.mem else None
        return list(v.e) if isinstance(v, MatV) and v.n == self.n else None

    def finals(self):
        """Ways the solver returns: (kind, guard, translation, iterate, returned vector, status, state)."""
        L = self.L
        out = []
        ident = self.S
        for g, v, x in L.returns:
            v = self.it.rv(v, x) if isinstance(v, LV) else v
            out.append(("return", x.guard, ident, None, v, x.mem.get("STAT"), x))
        fin = self.st.mem.get("STAT")
        for g, x, kind in L.exits:
            if kind == "cond" or not kind:
                out.append(("end", x.guard, self.last, L.back.guard, self.ret, fin, x))
                out.append(("none", x.guard, self.first, L.entry.guard, self.ret, fin, x))
            else:
                out.append((kind, x.guard, ident, None, self.ret, fin, x))
        return out


_models = {}


def model(rep, kind, **kw):
    key = (kind, tuple(sorted(kw.items())))
    if key not in _models:
        try:
            _models[key] = NL(kind, **kw)
        except Unrecognised as e:
            _models[key] = str(e)
    m = _models[key]
    if isinstance(m, str):
        rep.undecided("model", "%s %r" % (kind, kw), m)
        return None
    rep.uses(m.it)
    return m
