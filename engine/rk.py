"""Model of one step of the Runge-Kutta integrators, derived from the source.

odeint is interpreted abstractly with a symbolic tableau, symbolic options, an
uninterpreted right-hand side and a symbolic initial state.  The integration
loop is the top-level loop whose body calls the right-hand side; its summary
(head unknowns, back-edge values, exits, returns) is what the checks inspect.
"""
import os
from front import REPO, PROBE, Broken, extract
from interp import *
from interp import _int
import terms as T
import lin
from lib import rel

_dbs = {}


def database(fam):
    if fam not in _dbs:
        # both translation units: the probe instantiates the templates, the .cpp has the rest
        _dbs[fam] = DB(extract([os.path.join(PROBE, fam + ".cpp"), os.path.join(REPO, fam + ".cpp")]))
    return _dbs[fam]


def fun_hook(it, st, fr, e, this, a):
    t = N(it.load(st, a[0]) if isinstance(a[0], LV) else a[0])
    y = it.rv(a[1], st)
    st.mem["NF"] = _int(add(num(st.mem["NF"]), ONE))
    if not isinstance(y, MatV):
        it.event(st, "fun", t, None, e.get("l"))
        return it.top("argument of the right-hand side", e)
    it.event(st, "fun", t, y.e, e.get("l"))
    return MatV(y.n, 1, F(t, y.e))


def jac_hook(it, st, fr, e, this, a):
    t = N(it.load(st, a[0]) if isinstance(a[0], LV) else a[0])
    y = it.rv(a[1], st)
    st.mem["NJ"] = _int(add(num(st.mem["NJ"]), ONE))
    if not isinstance(y, MatV):
        it.event(st, "jac", t, None, e.get("l"))
        return it.top("argument of the Jacobi function", e)
    it.event(st, "jac", t, y.e, e.get("l"))
    n = y.n
    return MatV(n, n, J(t, y.e))


def F(t, y):
    return [uf("f%d" % k, t, *y) for k in range(len(y))]


def J(t, y):
    n = len(y)
    return [uf("J%d_%d" % (i, j), t, *y) for j in range(n) for i in range(n)]


def taint(*ns):
    return any("top" in n.taint for n in ns if isinstance(n, Node))


def findval(v, pred, path=()):
    """Paths (inside a value) of the sub-values that satisfy pred."""
    if pred(v):
        yield path
    if isinstance(v, StructV):
        for k, x in v.f.items():
            yield from findval(x, pred, path + (k,))
    elif isinstance(v, ArrV):
        for k, x in enumerate(v.e):
            yield from findval(x, pred, path + (k,))


def getpath(v, path):
    for p in path:
        if isinstance(v, StructV):
            v = v.f.get(p)
        elif isinstance(v, ArrV):
            v = v.e[p]
        else:
            return None
    return v


def is_result(v):
    return isinstance(v, StructV) and {"status", "t_vals", "y_vals"} <= set(v.f)


def leaves(h, e, b):
    """(head atom, entry term, back term) of every unknown of a loop head value."""
    if isinstance(h, Node):
        if h.op in ("atom", "batom") and isinstance(e, (int, Node)) and isinstance(b, (int, Node)):
            if h.isbool:
                yield h, B(e), B(b)
            else:
                yield h, num(e), num(b)
    elif isinstance(h, MatV) and isinstance(e, MatV) and isinstance(b, MatV) and len(h.e) == len(e.e) == len(b.e):
        for x, y, z in zip(h.e, e.e, b.e):
            yield from leaves(x, y, z)
    elif isinstance(h, StructV) and isinstance(e, StructV) and isinstance(b, StructV):
        for k in h.f:
            if k in e.f and k in b.f:
                yield from leaves(h.f[k], e.f[k], b.f[k])
    elif isinstance(h, ArrV) and isinstance(e, ArrV) and isinstance(b, ArrV):
        for x, y, z in zip(h.e, e.e, b.e):
            yield from leaves(x, y, z)


class Unrecognised(Exception):
    pass


def body_events(log):
    """Events of a log, with nested loops flattened away: (guard, what)."""
    return [(g, x) for g, x in log.items]


def loops_of(log, calls):
    """Loops recorded in a log whose bodies (recursively) satisfy calls."""
    out = []
    for g, x in log.items:
        if x[0] == "loop" and hascall(x[1], calls):
            out.append(x[1])
    return out


def hascall(L, what):
    logs = [L.back.mem[EV]] if L.back else []
    logs += [x.mem[EV] for _, x, _ in L.exits] + [x.mem[EV] for _, _, x in L.returns]
    for log in logs:
        for g, x in log.items:
            if x[0] in what:
                return True
            if x[0] == "loop" and hascall(x[1], what):
                return True
            if x[0] == "final" and any(y[0] in what for _, y in x[1].items):
                return True
    return False


class RK:
    """One configuration of one family, interpreted."""

    def __init__(self, fam, Ns=2, Neq=2, fsal=False, adaptive=True, pair=True, mode=1, interval=1, outlog=0,
                 timing=False, stream=True, order=5, order2=3, defopts=False):
        self.fam, self.Ns, self.Neq = fam, Ns, Neq
        self.name = "%s stages=%d eqs=%d%s%s%s mode=%d%s%s%s" % (
            fam, Ns, Neq, " fsal" if fsal else "", " adaptive" if adaptive else " fixed", "" if pair else " no-pair", mode,
            "" if interval == 1 else " interval=sym" if isinstance(interval, Node) else " interval=%s" % interval,
            " log" if outlog != 0 else "", " timing" if timing else "")
        db = self.db = database(fam)
        Aat = lambda i, j: atom("A%d%d" % (i, j))
        b = [atom("b%d" % i) for i in range(Ns)]
        c = [atom("c%d" % i) for i in range(Ns)]
        b2 = [atom("B%d" % i) for i in range(Ns)]
        if fam == "erk":
            A = [[Aat(i, j) if j < i else ZERO for j in range(Ns)] for i in range(Ns)]
        else:
            A = [[Aat(i, j) for j in range(Ns)] for i in range(Ns)]
        if fsal:
            b[Ns - 1] = c[0] = ZERO
            c[Ns - 1] = ONE
            A[Ns - 1] = list(b)
        self.A, self.b, self.c, self.b2 = A, b, c, b2
        self.gamma = atom("gamma") if fam == "irk" else ZERO
        self.order, self.order2 = order, order2

        def table(it, st, fr, e, this, a):
            it.event(st, "table", num(a[0]) if isinstance(a[0], (int, Node)) else None)
            return StructV(fam + "::solver_coeffs", dict(
                name="M", b=MatV(Ns, 1, b), c=MatV(Ns, 1, c), A=MatV(Ns, Ns, [A[i][j] for j in range(Ns) for i in range(Ns)]),
                b2=MatV(Ns, 1, b2) if pair else MatV(0, 1, ()), order=order, order2=order2 if pair else 0, FSAL=fsal,
                gamma=self.gamma, b_interp=MatV(0, 0, ())))
        hooks = {"probe_ode::fun": fun_hook, "probe_ode::jac": jac_hook, fam + "::get_coefficients": table,
                 fam + "::verify_solver_coeffs": lambda *a: True}
        it = self.it = Interp(db, hooks)
        st = it.new_state()
        st.mem["NF"] = st.mem["NJ"] = 0
        fr = Frame("SETUP", None, 0)
        e0 = {"k": "setup"}

        def make(t, **kw):
            v = it.construct_default(t, st, fr, {"k": "setup", "args": []})
            if not isinstance(v, StructV):
                raise Broken("type %s cannot be built" % t)
            f = dict(v.f)
            for k, x in kw.items():
                if k not in f:
                    raise Broken("%s has no member %s" % (t, k))
                f[k] = x
            return StructV(v.cls, f)
        self.t0, self.t1, self.dt0 = atom("t0"), atom("t1"), atom("dt0", True)
        self.y0 = [atom("y%d" % k) for k in range(Neq)]
        self.rtol, self.atol = atom("rtol", True), atom("atol", True)
        self.max_dt, self.max_steps = atom("max_dt"), atom("max_steps", isint=True)
        st.mem["OUT"] = VecV(kind="stream")
        st.mem["LOG"] = VecV(kind="stream")
        st.mem["F"] = StructV("probe_ode", {})
        st.mem["Y0"] = MatV(Neq, 1, self.y0)
        self.maxit = atom("maxit", True, isint=True)
        self.ntol, self.ndx = atom("ntol", True), atom("ndx", True)
        self.refresh = atom("refresh_jac", isint=True)
        kw = {}
        if fam == "irk":
            st.mem["NO"] = make("newton::options", tol=self.ntol, dx_delta=self.ndx, maxit=self.maxit, refresh_jac=self.refresh)
            kw["newton_opts"] = LV("NO")
        if not defopts:
            kw.update(rel_tol=self.rtol, abs_tol=self.atol, max_dt=self.max_dt, max_steps=self.max_steps)
        so = make(fam + "::solver_options", out_interval=outlog, time_internals=timing, adaptive_step_size=adaptive, **kw)
        oo = make("output_options", output_mode=mode, output_interval=interval, log_out=RefV(LV("LOG")),
                  output_stream=LV("OUT") if stream else NULL)
        st.mem["OO"] = oo
        self.adaptive = adaptive and pair
        self.mode, self.interval = mode, interval
        fns = [f for f in db.byq.get("probe_" + fam, []) if f.get("body")]
        if not fns:
            raise Broken("probe_%s not found" % fam)
        self.st = st
        try:
            self.ret = it.callfn(fns[0], None, [LV("F"), self.t0, self.t1, LV("Y0"), so, LV("OO"), 777, self.dt0], st, "R")
        except Unsup as ex:
            raise Unrecognised(str(ex))
        except Dead:
            raise Unrecognised("the integrator never returns")
        self.log = st.mem[EV]
        ls = loops_of(self.log, ("fun",))
        if len(ls) != 1:
            raise Unrecognised("%d top-level loops evaluate the right-hand side" % len(ls))
        self.L = ls[0]
        if self.L.back is None:
            raise Unrecognised("the integration loop has no back edge")
        self.where = "%s:%d (%s)" % (rel(self.L.file), self.L.line, self.L.fn)
        self.setup()

    # ------------------------------------------------------------- structure
    def setup(self):
        L = self.L
        self.mus = {}
        for l in self.it.loops.values():
            if l.back is None:
                continue
            for k, hv in l.head.mem.items():
                if k != EV and k in l.entry.mem and k in l.back.mem:
                    for h, e, b in leaves(hv, l.entry.mem[k], l.back.mem[k]):
                        if h is e:
                            continue
                        self.mus[h.nid] = (h, e, b, l)
        # the result object
        self.res = None
        for k, v in L.head.mem.items():
            for p in findval(v, is_result):
                self.res = (k, p)
        if self.res is None:
            raise Unrecognised("no result object in the integration loop")
        # time variable: unknown that starts as t0; else the loop never advances
        self.Tmus = [h for h, e, b, l in self.mus.values() if l is L and e is self.t0]
        # state vector
        self.Yvecs = []
        for k, v in L.head.mem.items():
            for p in findval(v, lambda x: isinstance(x, MatV) and x.n == self.Neq):
                m = getpath(v, p)
                e = getpath(L.entry.mem.get(k), p)
                if isinstance(e, MatV) and len(e.e) == self.Neq and all(a is b for a, b in zip(e.e, self.y0)) and not same(m, e):
                    self.Yvecs.append((k, p))
        self.env = {}
        self.memo = {}
        self.hyps = []
        if not self.Tmus:
            raise Unrecognised("no variable of the loop starts at the initial time")
        if not self.Yvecs:
            raise Unrecognised("no vector of the loop starts at the initial values")
        self.pick()
        self.partition()
        self.positives()
        self.fsal()

    def S(self, n):
        if not isinstance(n, Node) or not self.env:
            return n
        if n.nid in self.memo:
            return self.memo[n.nid]
        return T.subst(n, self.env, self.memo)

    def refresh_env(self):
        self.memo = {}

    def pick(self):
        """Choose the time and state variables: those recorded in the result."""
        L = self.L
        rb = self.result(L.back.mem)
        tp = [x for g, x in (rb.f["t_vals"].items if isinstance(rb.f["t_vals"], VecV) else ())]
        self.T = self.Tmus[0]
        best = None
        for h in self.Tmus:
            bk = self.mus[h.nid][2]
            ats = {a.nid for a in T.atoms_of(bk)}
            # the variable whose new value the pushed time is
            sc = 0
            if any(isinstance(x, Node) and x in T.subnodes(bk) for x in tp):
                sc += 2
            if h in T.atoms_of(L.cond):
                sc += 1
            if best is None or sc > best[0]:
                best = (sc, h)
        self.T = best[1]
        best = None
        yp = [x for g, x in (rb.f["y_vals"].items if isinstance(rb.f["y_vals"], VecV) else ())]
        for kp in self.Yvecs:
            bk = getpath(L.back.mem[kp[0]], kp[1])
            sc = 0
            if isinstance(bk, MatV) and any(isinstance(x, MatV) and x.n == bk.n and all(a in T.subnodes(c) for a, c in zip(x.e, bk.e)) for x in yp):
                sc += 2
            if best is None or sc > best[0]:
                best = (sc, kp)
        self.Yloc = best[1]
        self.Y = list(getpath(L.head.mem[self.Yloc[0]], self.Yloc[1]).e)

    def result(self, mem):
        return getpath(mem[self.res[0]], self.res[1])

    def partition(self):
        """Optimistic equality of loop unknowns: same entry, same back value."""
        groups = {}
        for h, e, b, l in self.mus.values():
            groups.setdefault((l.id, e.isbool), []).append(h)
        cls = [g for g in groups.values() if len(g) > 1]
        for rnd in range(80):
            env = {}
            for g in cls:
                # prefer the time and state unknowns as representatives
                r = next((x for x in g if x is self.T or x in self.Y), g[0])
                for x in g:
                    if x is not r:
                        env[x.nid] = r
            self.env = env
            self.refresh_env()
            new = []
            for g in cls:
                sp = {}
                for x in g:
                    h, e, b, l = self.mus[x.nid]
                    sp.setdefault((self.S(e).fp, self.S(b).fp), []).append(x)
                new += [x for x in sp.values() if len(x) > 1]
            if sorted(map(len, new)) == sorted(map(len, cls)) and len(new) == len(cls):
                break
            cls = new
        else:
            self.env = {}
        self.refresh_env()

    def positives(self):
        """Unknowns that are positive at every loop head (inductive)."""
        self.basefacts = {pos(sub(self.t1, self.t0)): True}
        cand = {n for n, (h, e, b, l) in self.mus.items() if not h.isbool and not e.isbool and n not in self.env}
        for rnd in range(12):
            facts = dict(self.basefacts)
            for n in cand:
                facts[pos(self.mus[n][0])] = True
            bad = set()
            for n in cand:
                h, e, b, l = self.mus[n]
                for what, x, g in (("entry", e, l.entry.guard), ("back", b, l.back.guard)):
                    try:
                        ok = all(r for c, r in cases(lambda c: self._posq(c, x, g), facts, limit=300, splitmm=False))
                    except T.TooMany:
                        ok = False
                    if not ok:
                        bad.add(n)
                        break
            if not bad:
                break
            cand -= bad
        self.positive = cand
        self.facts = dict(self.basefacts)
        for n in cand:
            self.facts[pos(self.mus[n][0])] = True

    def _posq(self, c, x, g):
        if c.red(self.S(g)) is FALSE:
            return None
        return c.ispos(c.red(self.S(x)))

    def fsal(self):
        """Unknowns that start as f(t0, y0): hypothesis that they stay f(T, Y)."""
        self.kept = []
        f0 = F(self.t0, self.y0)
        fT = F(self.T, self.Y)
        for n, (h, e, b, l) in self.mus.items():
            if l is self.L:
                for k, x in enumerate(f0):
                    if e is x:
                        self.kept.append((h, k, b))
        base = dict(self.env)
        while self.kept:
            self.env = dict(base)
            for h, k, b in self.kept:
                self.env[h.nid] = fT[k]
            self.refresh_env()
            bad = set()
            for s in self.step_cases(want=lambda c, s: [c.red(self.S(b)) for h, k, b in self.kept]):
                if s.Y is None:
                    continue
                w = F(s.T, s.Y)
                for (h, k, b), x in zip(self.kept, s.x):
                    if x is not w[k] and not lin.equal(s.case, x, w[k]) is True:
                        bad.add(h.nid)
            if not bad:
                return
            self.kept = [q for q in self.kept if q[0].nid not in bad]
        self.env = base
        self.refresh_env()

    # ----------------------------------------------------------------- cases
    def step_cases(self, limit=6000, want=None):
        """Every feasible way through the loop body: list of Step objects."""
        out = []
        try:
            for c, r in cases(lambda c: self._step(c, want), self.facts, limit=limit, splitmm=False):
                if not lin.System(c).infeasible():
                    out.append(r)
        except T.TooMany as e:
            raise Unrecognised(str(e))
        return out

    def _step(self, c, want=None):
        L = self.L
        if c.red(self.S(L.back.guard)) is FALSE:
            return None
        s = StepCase()
        s.case = c
        r = lambda x: c.red(self.S(x))
        s.T = r(self.mus[self.T.nid][2]) if self.T.nid in self.mus else self.T
        yb = getpath(L.back.mem[self.Yloc[0]], self.Yloc[1])
        s.Y = [r(x) for x in yb.e] if isinstance(yb, MatV) else None
        s.ev = []
        s.inner = []
        log = L.back.mem[EV]
        for g, x in log.items:
            if x[0] not in ("fun", "jac", "loop", "final") or x[0] == "loop" and not hascall(x[1], ("fun", "jac")) or r(g) is FALSE:
                continue
            if x[0] in ("fun", "jac"):
                s.ev.append((x[0], r(x[1]), None if x[2] is None else [r(y) for y in x[2]], x[3]))
            elif x[0] == "loop" and hascall(x[1], ("fun", "jac")):
                s.inner.append(x[1])
                s.ev.append(("loop", x[1]))
            elif x[0] == "final" and x[1].items:
                fin = []
                for g2, y in x[1].items:
                    if y[0] in ("fun", "jac") and r(g2) is not FALSE:
                        fin.append((y[0], r(y[1]), None if y[2] is None else [r(z) for z in y[2]], y[3]))
                s.ev.append(("final", fin))
        s.push = {}
        rh, rb = self.result(L.head.mem), self.result(L.back.mem)
        for k, v in rb.f.items():
            if isinstance(v, VecV):
                h = rh.f[k]
                if isinstance(h, VecV) and v.pre == h.pre and len(v.items) >= len(h.items):
                    s.push[k] = [self.redv(c, x) for g, x in v.items[len(h.items):] if r(g) is not FALSE]
                else:
                    s.push[k] = None
        s.status = r(num(rb.f["status"])) if isinstance(rb.f["status"], (int, Node)) else None
        ob, oh = L.back.mem.get("OUT"), L.head.mem.get("OUT")
        s.out = None
        if isinstance(ob, VecV) and isinstance(oh, VecV) and ob.pre == oh.pre:
            s.out = [self.redv(c, x) for g, x in ob.items[len(oh.items):] if r(g) is not FALSE]
        s.accepted = s.T is not self.T or any(a is not b for a, b in zip(s.Y or (), self.Y))
        s.x = want(c, s) if want else None
        return s

    def redv(self, c, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, (int, Node)):
            return c.red(self.S(num(v))) if not (isinstance(v, Node) and v.isbool) else c.red(self.S(v))
        if isinstance(v, MatV):
            return MatV(v.r, v.c, [c.red(self.S(x)) for x in v.e])
        if isinstance(v, IteV):
            return self.redv(c, v.a if c.red(self.S(v.c)) is TRUE else v.b)
        return v

    # ------------------------------------------------------------ the oracle
    def dt_of(self, s):
        """Step size of an attempt: from the stage abscissae, else from the accepted time."""
        if self.fam == "erk":
            evs = [e for e in s.ev if e[0] == "fun"]
        else:
            evs = [e for f in s.ev if f[0] == "final" for e in f[1] if e[0] == "fun"] or [e for e in s.ev if e[0] == "fun"]
        one = {x.nid: ONE for x in self.c if x.const is None}
        for e in evs:
            d = sub(e[1], self.T)
            a = [x for x in T.atoms_of(d) if x in self.c]
            if len(a) == 1:
                return T.subst(d, {a[0].nid: ONE})
            if not a and d is not ZERO and any(x is ONE for x in self.c):
                return d
        if s.accepted:
            return sub(s.T, self.T)
        return None

    def erk_stages(self, DT):
        K = []
        for i in range(self.Ns):
            y = list(self.Y)
            for j in range(i):
                y = [add(a, mul(mul(DT, self.A[i][j]), k)) for a, k in zip(y, K[j])]
            t = add(self.T, mul(self.c[i], DT))
            K.append(F(t, y))
        return K

    def erk_args(self, DT):
        K = self.erk_stages(DT)
        return [(add(self.T, mul(self.c[i], DT)),
                 [add(self.Y[k], mul(DT, sumn(mul(self.A[i][j], K[j][k]) for j in range(i)))) for k in range(self.Neq)])
                for i in range(self.Ns)], K

    def norm(self, est, y1):
        acc = ZERO
        for k in range(self.Neq):
            sc = add(self.atol, mul(self.rtol, maxn(absn(self.Y[k]), absn(y1[k]))))
            q = div(est[k], sc)
            acc = add(acc, mul(q, q))
        return T.sqrt(div(acc, const(self.Neq)))


class StepCase:
    pass


def sumn(xs):
    r = ZERO
    for x in xs:
        r = add(r, x)
    return r


_models = {}


def model(rep, fam, **kw):
    key = (fam, tuple(sorted((k, v.nid if isinstance(v, Node) else v) for k, v in kw.items())))
    m = _models.get(key)
    if m is None:
        try:
            m = RK(fam, **kw)
        except Unrecognised as e:
            m = str(e)
        _models[key] = m
    if isinstance(m, str):
        rep.undecided("model", "%s %r" % (fam, kw), m)
        return None
    rep.uses(m.it)
    return m


# --------------------------------------------------------------- irk oracle
def irk_stages(m, s):
    """(DT, Z): step size and stage increments of the last evaluated stage system."""
    fin = [e for f in s.ev if f[0] == "final" for e in f[1] if e[0] == "fun"]
    if not fin:
        fin = [e for e in s.ev if e[0] == "fun"][:m.Ns]
    fin = fin[-m.Ns:]
    if len(fin) != m.Ns or any(e[2] is None for e in fin):
        return None
    DT = None
    for i, e in enumerate(fin):
        d = sub(e[1], m.T)
        if m.c[i].const is not None:
            continue
        if m.c[i] not in T.atoms_of(d):
            continue
        DT = T.subst(d, {m.c[i].nid: ONE})
        if any(x in T.atoms_of(DT) for x in m.c):
            continue
        break
    if DT is None:
        return None
    order = sorted(fin, key=lambda e: 0)
    Z, used = [None] * m.Ns, set()
    for i in range(m.Ns):
        want = add(m.T, mul(m.c[i], DT))
        for q, e in enumerate(order):
            if q not in used and e[1] is want:
                used.add(q)
                Z[i] = [sub(a, b) for a, b in zip(e[2], m.Y)]
                break
        else:
            return DT, None
    return DT, Z


def matinv(A):
    import intrin
    n = len(A)
    return intrin.gauss(MatV(n, n, [A[i][j] for j in range(n) for i in range(n)]), intrin.eye(n, n))


def residual(m, DT, Z):
    """Z - DT (A x I) F(T + c DT, Y + Z), as a list of stage vectors."""
    K = [F(add(m.T, mul(m.c[i], DT)), [add(y, z) for y, z in zip(m.Y, Z[i])]) for i in range(m.Ns)]
    return [[sub(Z[i][k], mul(DT, sumn(mul(m.A[i][j], K[j][k]) for j in range(m.Ns)))) for k in range(m.Neq)]
            for i in range(m.Ns)], K
