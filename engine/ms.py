"""Model of the multistep integrators, derived from the source.

The start-up integrator (irk::odeint), the nonlinear solver (newton_iterate,
broyden_iterate) and the history buffer (cyclic_buffer, see P21) are replaced by
their contracts; everything else is interpreted.
"""
import os
from front import REPO, PROBE, Broken, extract
from interp import *
from interp import _int
import terms as T
import lin
from lib import rel
import rk as R
from rk import F, J, fun_hook, jac_hook, findval, getpath, leaves, loops_of, hascall, Unrecognised, is_result, taint

_db = []


def database():
    if not _db:
        _db.append(DB(extract([os.path.join(PROBE, "multistep.cpp"), os.path.join(REPO, "irk.cpp")])))
    return _db[0]


# ---------------------------------------------------------- history buffer
def buf_ctor(it, st, fr, e, this, a):
    a = [it.rv(x, st) for x in a]
    if len(a) == 1 and isinstance(a[0], StructV):
        return a[0]
    n = _int(a[0]) if a and isinstance(a[0], (int, Node)) else 0
    if not isinstance(n, int):
        return it.top("buffer of symbolic capacity", e)
    return StructV("cyclic_buffer", {"items": ArrV([MatV(0, 1, ())] * n), "n": 0})


def buf_index(it, st, fr, e, this, a):
    i = _int(it.rv(a[0], st))
    b = it.load(st, this)
    if isinstance(i, int) and isinstance(b, StructV) and isinstance(b.f.get("n"), int):
        if 0 <= i < b.f["n"]:
            it.within(i, b.f["n"])
        else:
            it.outside("element %d of a history of %d" % (i, b.f["n"]))
    return this.sub(("f", "items")).sub(("i", i))


def buf_push(it, st, fr, e, this, a):
    v = it.rv(a[0], st)
    b = it.load(st, this)
    if not isinstance(b, StructV) or "items" not in b.f:
        return it.top("history buffer", e)
    x = b.f["items"].e
    if not x:
        it.outside("element appended to a history buffer of no capacity")
        return None
    n = b.f["n"]
    n = min(n + 1, len(x)) if isinstance(n, int) else it.top("fill of the buffer", e)
    it.store(st, this, StructV(b.cls, {"items": ArrV((v,) + x[:-1]), "n": n}))
    return None


def buf_field(name, f):
    def h(it, st, fr, e, this, a):
        b = it.load(st, this)
        return f(b) if isinstance(b, StructV) and "items" in b.f else it.top(name, e)
    return h


BUF = {
    "ctor:cyclic_buffer::cyclic_buffer": buf_ctor,
    "cyclic_buffer::operator[]": buf_index,
    "cyclic_buffer::push_back": buf_push,
    "cyclic_buffer::size": buf_field("size", lambda b: b.f["n"]),
    "cyclic_buffer::period": buf_field("period", lambda b: len(b.f["items"].e)),
    "cyclic_buffer::empty": buf_field("empty", lambda b: b.f["n"] == 0),
}


def result_of(it, st, fr, e, items, y, status):
    """A result whose last entries are known and whose length is not."""
    v = it.construct_default("irk::rk_output", st, fr, {"k": "setup", "args": []})
    if not isinstance(v, StructV):
        return it.top("result of the start-up integrator", e)
    it.nres = getattr(it, "nres", 0) + 1
    n = atom("startlen%d" % it.nres, True, isint=True)
    f = dict(v.f)
    f["t_vals"] = VecV([(TRUE, items)], "start%d.t" % it.nres, n, ZERO)
    f["y_vals"] = VecV([(TRUE, MatV(len(y), 1, y))], "start%d.y" % it.nres, n, MatV(len(y), 1, [ZERO] * len(y)))
    for k in ("stages", "err_est"):
        if k in f:
            f[k] = VecV([], "start%d.%s" % (it.nres, k), add(n, ONE), MatV(len(y), 1, [ZERO] * len(y)))
    if "err" in f:
        f["err"] = VecV([], "start%d.err" % it.nres, add(n, ONE), ZERO)
    f["status"] = status
    return StructV(v.cls, f)


def start_hook(it, st, fr, e, this, a):
    a = [it.rv(x, st) if i else x for i, x in enumerate(a)]
    ta, tb = N(a[1]), N(a[2])
    y = a[3]
    if not isinstance(y, MatV):
        it.event(st, "start", ta, tb, None, None, None)
        return it.top("start-up initial value", e)
    opts = a[4] if len(a) > 4 and isinstance(a[4], StructV) else None
    method = _int(a[6]) if len(a) > 6 else None
    g = [uf("flow%d" % k, ta, tb, *y.e) for k in range(y.n)]
    it.event(st, "start", ta, tb, tuple(y.e), opts, method, e.get("l"), a[0])
    # an adaptive integration without a step limit ends at tb, others may fail (P17)
    status = 0
    ad = opts.f.get("adaptive_step_size") if opts is not None else None
    ms = opts.f.get("max_steps") if opts is not None else None
    ms = _int(ms) if ms is not None else None
    if opts is not None and not ((ad is TRUE or ad == 1) and isinstance(ms, int) and ms < 0):
        status = _isint(uf("startstatus", ta, tb, *y.e))
        it.start_statuses = getattr(it, "start_statuses", []) + [status]
    if not records_end(it, st, a[5] if len(a) > 5 else None):
        # the end of the interval need not be among the recorded points
        g = [uf("flow%d" % k, ta, uf("lastrecorded", ta, tb, *y.e), *y.e) for k in range(y.n)]
        tb = uf("lastrecorded", ta, tb, *y.e)
    return result_of(it, st, fr, e, tb, g, status)


def records_end(it, st, oo):
    """Every accepted step is stored under these output options (true when they are not known)."""
    if not isinstance(oo, StructV):
        return True
    n = oo.f.get("output_interval")
    n = _int(n) if n is not None else None
    if isinstance(n, int) and n != 1:
        return False
    f = member(it, st, oo, "store_in_vectors")
    if f is None:
        return True
    st2 = st.copy()
    st2.mem["OOV"] = oo
    r = it.rv(it.callfn(f, LV("OOV"), [], st2, "storeopt"), st2)
    r = _int(r) if isinstance(r, (int, Node)) and not isinstance(r, bool) else r
    return not (r is False or r is FALSE or isinstance(r, int) and r == 0)


def member(it, st, v, name):
    cls = v.cls
    for tu in range(len(it.db.tus)):
        r = it.db.rec(cls, tu)
        if r is None:
            continue
        for m in r["methods"]:
            if m["name"] == name:
                f = it.db.fn(m["fn"], tu)
                if f is not None:
                    return f
    return None


def solve_hook(it, st, fr, e, this, a):
    """Contract of the nonlinear solvers: the returned point is a root when the status says so."""
    lv = a[0]
    x0 = it.rv(a[1], st)
    fv = it.load(st, lv) if isinstance(lv, LV) else lv
    o = it.rv(a[2], st)
    it.nsol = getattr(it, "nsol", 0) + 1
    if not isinstance(x0, MatV) or not isinstance(fv, StructV):
        it.event(st, "solve", None)
        return it.top("nonlinear solve", e)
    n = x0.n
    X = [atom("X%d" % k) for k in range(n)]
    st.mem["XV"] = MatV(n, 1, X)
    st2 = st.copy()
    st2.mem[EV] = VecV(kind="log")
    fun, jac = member(it, st, fv, "fun"), member(it, st, fv, "jac")
    G = it.callfn(fun, lv, [LV("XV")], st2, "solvefun") if fun else None
    Jm = it.callfn(jac, lv, [LV("XV")], st2, "solvejac") if jac else None
    G = it.rv(G, st2) if G is not None else None
    Jm = it.rv(Jm, st2) if Jm is not None else None
    del st.mem["XV"]
    gx = list(G.e) if isinstance(G, MatV) else None
    if gx is None:
        it.event(st, "solve", None)
        return it.top("system of the nonlinear solve", e)
    root = MatV(n, 1, [uf("root%d" % k, *gx) for k in range(n)])
    stat = uf("solvestatus", *gx)
    stat.isint = True
    s = a[3]
    if isinstance(s, LV):
        sv = it.load(st, s)
        if isinstance(sv, StructV) and "conv_status" in sv.f:
            it.store(st, s, sv.set("conv_status", stat).set("res", uf("solveres", *gx)).set("iters", _isint(uf("solveiters", *gx))))
    it.event(st, "solve", tuple(gx), tuple(Jm.e) if isinstance(Jm, MatV) else None, tuple(x0.e), tuple(X), o if isinstance(o, StructV) else None, tuple(root.e), stat, e.get("l"))
    return root


def _isint(n):
    n.isint = True
    return n


class MS(R.RK):
    """One multistep integrator of one order."""

    def __init__(self, kind, order, Neq=2):
        self.kind, self.order, self.Neq, self.fam = kind, order, Neq, kind
        self.name = "%s order=%d eqs=%d" % (kind, order, Neq)
        self.adaptive = False
        self.err = None
        self.start_t = self.start_y = None
        self.mode, self.interval = 1, 1
        db = self.db = database()
        hooks = dict(BUF)
        hooks.update({"probe_ode::fun": fun_hook, "probe_ode::jac": jac_hook, "irk::odeint": start_hook, "erk::odeint": start_hook,
                      "newton::newton_iterate": solve_hook, "newton::broyden_iterate": solve_hook})
        it = self.it = Interp(db, hooks)
        built.append((self.name, it))
        st = it.new_state()
        st.mem["NF"] = st.mem["NJ"] = 0
        fr = Frame("SETUP", None, 0)
        self.t0, self.t1, self.dt0 = atom("t0"), atom("t1"), atom("dt0", True)
        self.y0 = [atom("y%d" % k) for k in range(Neq)]
        st.mem["F"] = StructV("probe_ode", {})
        st.mem["Y0"] = MatV(Neq, 1, self.y0)
        so = it.construct_default("multistep::solver_options", st, fr, {"k": "setup", "args": []})
        if not isinstance(so, StructV) or "order" not in so.f:
            raise Broken("multistep::solver_options cannot be built")
        st.mem["SO"] = so.set("order", order)
        fns = [f for f in db.byq.get("probe_" + kind, []) if f.get("body")]
        if not fns:
            raise Broken("probe_%s not found" % kind)
        self.st = st
        self.L = None
        self.fn = kind
        try:
            self.ret = it.callfn(fns[0], None, [LV("F"), self.t0, self.t1, LV("Y0"), LV("SO"), self.dt0], st, "R")
        except Unsup as ex:
            raise Unrecognised(str(ex))
        except Dead:
            raise Unrecognised("the integrator never returns")
        self.log = st.mem[EV]
        ls = loops_of(self.log, ("fun", "solve"))
        self.where = "multistep.hpp (%s)" % kind
        if len(ls) > 1:
            raise Unrecognised("%d top-level loops advance the solution" % len(ls))
        if ls:
            self.L = ls[0]
            self.where = "%s:%d (%s)" % (rel(self.L.file), self.L.line, self.L.fn)
            if self.L.back is None:
                raise Unrecognised("the integration loop has no back edge")
            try:
                self.setup()
            except Unrecognised as ex:
                self.err = str(ex)

    def setup(self):
        L = self.L
        self.mus = {}
        for l in self.it.loops.values():
            if l.back is None:
                continue
            for k, hv in l.head.mem.items():
                if k != EV and k in l.entry.mem and k in l.back.mem:
                    for h, e, b in leaves(hv, l.entry.mem[k], l.back.mem[k]):
                        if h is e:
                            continue
                        self.mus[h.nid] = (h, e, b, l)
        self.res = None
        for k, v in L.head.mem.items():
            for p in findval(v, is_result):
                if not same(getpath(v, p), getpath(L.back.mem.get(k), p)):
                    self.res = (k, p)
        if self.res is None:
            raise Unrecognised("no result object in the integration loop")
        self.env, self.memo, self.hyps, self.kept = {}, {}, [], []
        # recorded start-up points
        re_ = getpath(L.entry.mem[self.res[0]], self.res[1])
        tv, yv = re_.f["t_vals"], re_.f["y_vals"]
        if not (isinstance(tv, VecV) and isinstance(yv, VecV)):
            raise Unrecognised("recorded start-up points not tracked")
        self.start_t, self.start_y = tv, yv
        # time: the variable the loop's condition looks at, or the one recorded
        rb = self.result(L.back.mem)
        pt, py = rb.f["t_vals"], rb.f["y_vals"]
        cand = [h for h, e, b, l in self.mus.values() if l is L and not h.isbool]
        last = pt.items[-1][1] if isinstance(pt, VecV) and pt.items else None
        ca = T.atoms_of(L.cond)
        t0 = tv.items[-1][1] if tv.items else None
        sc = lambda h: (h in ca) + 2 * (self.mus[h.nid][1] is t0) + (self.mus[h.nid][2] is last)
        if not cand or max(map(sc, cand)) < 2:
            raise Unrecognised("no time variable in the integration loop")
        self.T = max(cand, key=sc)
        self.Yvecs = []
        for k, v in L.head.mem.items():
            if k == EV:
                continue
            for p in findval(v, lambda x: isinstance(x, MatV) and x.n == self.Neq):
                m = getpath(v, p)
                e = getpath(L.entry.mem.get(k), p)
                ly = yv.items[-1][1] if yv.items else None
                if isinstance(e, MatV) and isinstance(ly, MatV) and same(e, ly) and all(x.nid in self.mus for x in m.e):
                    self.Yvecs.append((k, p))
        if not self.Yvecs:
            raise Unrecognised("no vector of the loop starts at the last starting point")
        # prefer a plain variable
        self.Yloc = min(self.Yvecs, key=lambda q: len(q[1]))
        self.Y = list(getpath(L.head.mem[self.Yloc[0]], self.Yloc[1]).e)
        self.partition()
        self.positives()

    def vectors(self):
        """Vectors of unknowns of the integration loop: (head, entry, back)."""
        L = self.L
        for k, v in L.head.mem.items():
            if k == EV or k not in L.entry.mem or k not in L.back.mem:
                continue
            for p in findval(v, lambda x: isinstance(x, MatV) and x.n == self.Neq):
                h, e, b = getpath(v, p), getpath(L.entry.mem[k], p), getpath(L.back.mem[k], p)
                if isinstance(e, MatV) and isinstance(b, MatV) and e.n == b.n == self.Neq:
                    yield h.e, e.e, b.e

    def status_nodes(self):
        """Statuses of start-up integrations that can fail."""
        return getattr(self.it, "start_statuses", [])

    def unroll(self, n):
        """The first n steps: list of (guard, recorded times, recorded solutions, solves)."""
        L = self.L
        env = {h.nid: e for h, e, b, l in self.mus.values() if l is L}
        rh, rb = self.result(L.head.mem), self.result(L.back.mem)
        nt, ny = rh.f["t_vals"], rh.f["y_vals"]
        bt, by = rb.f["t_vals"], rb.f["y_vals"]
        if not all(isinstance(v, VecV) for v in (nt, ny, bt, by)) or bt.pre != nt.pre or by.pre != ny.pre:
            raise Unrecognised("recorded points of a step not tracked")
        out = []
        g = TRUE
        for i in range(n):
            memo = {}
            sb = lambda x: T.subst(x if isinstance(x, Node) else num(x), env, memo)
            g = T.andn(g, T.andn(sb(L.cond), sb(L.back.guard)))
            ts = [(sb(q), sb(x)) for q, x in bt.items[len(nt.items):]]
            ys = [(sb(q), [sb(z) for z in x.e]) for q, x in by.items[len(ny.items):] if isinstance(x, MatV)]
            if len(ys) != len(by.items) - len(ny.items):
                raise Unrecognised("recorded solution of a step not tracked")
            sv = [x for q, x in L.back.mem[EV].items if x[0] == "solve"]
            sv = [None if x[1] is None else (tuple(sb(z) for z in x[1]), x[4], tuple(sb(z) for z in x[6])) for x in sv]
            out.append((g, ts, ys, sv))
            env = {h.nid: sb(b) for h, e, b, l in self.mus.values() if l is L}
        return out


_models = {}
built = []     # (name, interpreter) of every model, recognised or not


def model(rep, kind, order, Neq=2):
    key = (kind, order, Neq)
    if key not in _models:
        try:
            _models[key] = MS(kind, order, Neq)
        except Unrecognised as e:
            _models[key] = str(e)
    m = _models[key]
    if isinstance(m, str):
        rep.undecided("model", "%s order=%d" % (kind, order), m)
        return None
    rep.uses(m.it)
    return m
