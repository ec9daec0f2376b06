"""P27: every quantity of the integrators' transition relations has one unit.

The unit of a term is a pair (power of the time unit, power of the state unit),
inferred bottom-up from the units of the user's quantities and of the right-hand
side.  A term without a unit - a sum, a maximum or a comparison of quantities of
different units, or an argument of the right-hand side of the wrong unit - is not
covariant under rescaling the units.
"""
from fractions import Fraction
import rk as R
import ms as M
import terms as T
import lin
import rkchecks
import mschecks
from rk import *
from lib import Broken, rel

ANY, WILD = "any", "wild"
NOUNIT, TIME, STATE = (Fraction(0), Fraction(0)), (Fraction(1), Fraction(0)), (Fraction(0), Fraction(1))
BIG = Fraction(10) ** 30


class Bad(Exception):
    def __init__(self, kind, node, text):
        self.kind, self.node, self.text = kind, node, text


def name(u):
    if u in (ANY, WILD):
        return u
    f = lambda s, k: [] if k == 0 else [s if k == 1 else "%s^%s" % (s, k)]
    return "*".join(f("time", u[0]) + f("state", u[1])) or "no unit"


def tm(a, b, s=1):
    return (a[0] + s * b[0], a[1] + s * b[1])


class Units:
    def __init__(self, known):
        self.known = known      # nid -> unit
        self.memo = {}

    def join(self, n, us, kind):
        r = None
        wild = False
        for u in us:
            if u == WILD:
                wild = True
            elif u != ANY:
                if r is None:
                    r = u
                elif r != u:
                    raise Bad(kind, n, "%s combines %s with %s" % (show(n, 4), name(r), name(u)))
        return r if r is not None else WILD if wild else ANY

    def unit(self, root):
        memo = self.memo
        stack = [root]
        while stack:
            n = stack[-1]
            if n.nid in memo:
                stack.pop()
                continue
            miss = [a for a in n.args if isinstance(a, Node) and a.nid not in memo]
            if n.op == "const" or n.nid in self.known:
                miss = []
            if miss:
                stack.extend(miss)
                continue
            stack.pop()
            try:
                memo[n.nid] = self.one(n)
            except Bad as e:
                memo[n.nid] = e
        r = memo[root.nid]
        if isinstance(r, Bad):
            raise r
        return r

    def one(self, n):
        if n.nid in self.known:
            return self.known[n.nid]
        a = []
        for x in n.args:
            if isinstance(x, Node):
                u = self.memo[x.nid]
                if isinstance(u, Bad):
                    raise u
                a.append(u)
        op = n.op
        if op == "const":
            return ANY if n.const == 0 else WILD if abs(n.const) >= BIG else NOUNIT
        if op == "atom":
            return NOUNIT if n.isint else WILD
        if op in ("true", "false"):
            return NOUNIT
        if op in ("add", "sub", "max", "min"):
            return self.join(n, a, "sum")
        if op == "mul":
            return ANY if ANY in a else WILD if WILD in a else tm(a[0], a[1])
        if op == "div":
            return ANY if a[0] == ANY else WILD if WILD in a or ANY in a else tm(a[0], a[1], -1)
        if op in ("pos", "eq0", "batom", "bdd"):
            return NOUNIT
        if op == "ite":
            return self.join(n, a[1:], "ite")
        if op == "uf":
            f = n.args[0]
            if f == "abs":
                return a[0]
            if f == "sqrt":
                return a[0] if a[0] in (ANY, WILD) else (a[0][0] / 2, a[0][1] / 2)
            if f == "pow":
                if a[0] in (ANY, WILD, NOUNIT):
                    return a[0]
                e = n.args[2].const
                if e is None:
                    raise Bad("sum", n, "%s raises %s to a variable power" % (show(n, 4), name(a[0])))
                return (a[0][0] * e, a[0][1] * e)
            if f in ("exp", "log", "sin", "cos", "tan", "sinh", "cosh", "tanh", "log10", "log2"):
                if a[0] not in (ANY, WILD, NOUNIT):
                    raise Bad("sum", n, "%s takes an argument of unit %s" % (show(n, 4), name(a[0])))
                return NOUNIT
            k = f.rstrip("0123456789_")
            if k in ("f", "J") and f != k:
                self.args(n, a, [TIME] + [STATE] * (len(a) - 1))
                return tm(STATE, TIME, -1) if k == "f" else tm(NOUNIT, TIME, -1)
            if k == "flow":
                self.args(n, a, [TIME, TIME] + [STATE] * (len(a) - 2))
                return STATE
            if k == "startstatus":
                self.args(n, a, [TIME, TIME] + [STATE] * (len(a) - 2))
                return NOUNIT
            if k == "root":
                return STATE
            if k in ("solvestatus", "solveiters"):
                return NOUNIT
        return WILD

    def args(self, n, got, want):
        for g, w in zip(got, want):
            if g not in (ANY, WILD) and g != w:
                raise Bad("sum", n, "%s has an argument of unit %s instead of %s" % (show(n, 4), name(g), name(w)))


def user_units(m):
    k = {}

    def put(x, u):
        if isinstance(x, Node) and x.const is None:
            k[x.nid] = u
    for a, u in (("t0", TIME), ("t1", TIME), ("dt0", TIME), ("max_dt", TIME), ("atol", STATE), ("rtol", NOUNIT), ("ntol", STATE),
                 ("ndx", STATE), ("max_steps", NOUNIT), ("maxit", NOUNIT), ("refresh", NOUNIT), ("gamma", NOUNIT)):
        put(getattr(m, a, None), u)
    for y in m.y0:
        put(y, STATE)
    for q in ("b", "c", "b2"):
        for x in getattr(m, q, ()):
            put(x, NOUNIT)
    for r in getattr(m, "A", ()):
        for x in r:
            put(x, NOUNIT)
    for i in range(m.Neq):
        k[atom("X%d" % i).nid] = STATE
    return k


def infer(m):
    """Units of the unknowns of the loops: of the entry value, else of the back value."""
    known = user_units(m)
    todo = [n for n in m.mus if n not in m.env and n not in known]
    for n in list(todo):
        if m.mus[n][0].isbool:
            known[n] = NOUNIT
    todo = [n for n in todo if n not in known]
    consts = []
    for rnd in range(12):
        u = Units(known)
        new = {}
        for n in todo:
            h, e, b, l = m.mus[n]
            if n in known:
                continue
            for x in (e, b):
                if isinstance(x, Node) and x.const is not None and x.const != 0 and x is e and not isinstance(b, bool):
                    continue
                try:
                    r = u.unit(m.S(x))
                except Bad:
                    continue
                if r not in (ANY, WILD):
                    new[n] = r
                    break
        if not new:
            # what is left starts from a constant or depends on itself
            for n in todo:
                h, e, b, l = m.mus[n]
                if n not in known and e.const is not None and e.const != 0 and abs(e.const) < BIG:
                    new[n] = NOUNIT
            if not new:
                break
        known.update(new)
    return known


def relevant(m, roots):
    """Unknowns the roots depend on, transitively."""
    seen, st = set(), list(roots)
    while st:
        x = st.pop()
        for a in T.subnodes(m.S(x)) if isinstance(x, Node) else ():
            if a.nid in m.mus and a.nid not in seen and a.nid not in m.env:
                seen.add(a.nid)
                h, e, b, l = m.mus[a.nid]
                st.append(b)
                if l is not m.L:
                    st.append(l.back.guard)
                    st.append(e)
    return seen


def nodes(v):
    if isinstance(v, Node):
        yield v
    elif isinstance(v, MatV):
        for x in v.e:
            yield from nodes(x)


def judge(rep, m, u, rule, key, where, x, want, what, when):
    try:
        r = u.unit(x)
    except Bad as e:
        if e.kind == "ite":
            return rep.undecided(rule, "%s: %s" % (m.name, what), e.text)
        rep.bad(rule, key, where, "%s: %s: %s%s" % (m.name, what, e.text, when()))
        return False
    if r == WILD:
        return rep.undecided(rule, "%s: %s" % (m.name, what), "unit of %s unknown" % show(x, 3))
    if want is not None and r != ANY and r != want:
        rep.bad(rule, key, where, "%s: %s is %s, of unit %s instead of %s%s" % (m.name, what, show(x, 4), name(r), name(want), when()))
        return False
    rep.ok(rule, "%s: %s" % (m.name, what))
    return True


def conditions(n):
    return [x for x in T.subnodes(n) if x.op in ("pos", "eq0")]


def run(rep, m):
    known = infer(m)
    u = Units(known)
    L = m.L
    roots = [L.back.guard, m.mus[m.T.nid][2] if m.T.nid in m.mus else m.T]
    yb = getpath(L.back.mem[m.Yloc[0]], m.Yloc[1])
    roots += list(nodes(yb))
    rel_ = sorted(relevant(m, roots))
    mine = [n for n in rel_ if m.mus[n][3] is L and not m.mus[n][0].isbool]
    pre = m.fam
    try:
        cs = m.step_cases(want=lambda c, s: [c.red(m.S(m.mus[n][2])) for n in mine])
    except Unrecognised as e:
        return rep.undecided("step", m.name, str(e))
    for s in cs:
        when = lambda: ", when %s" % s.case.describe()[:300]
        for n, x in zip(mine, s.x):
            judge(rep, m, u, "unknown", pre + ":carried", m.where, x, known.get(n), "value carried to the next step (%s)" % show(m.mus[n][0]), when)
        judge(rep, m, u, "step", pre + ":time", m.where, s.T, TIME, "the new time", when)
        for k, y in enumerate(s.Y or ()):
            judge(rep, m, u, "step", pre + ":state", m.where, y, STATE, "component %d of the new state" % k, when)
        evs = [e for e in s.ev if e[0] in ("fun", "jac")] + [e for f in s.ev if f[0] == "final" for e in f[1]]
        for e in evs:
            judge(rep, m, u, "call", pre + ":call-time", m.where, e[1], TIME, "time passed to the right-hand side", when)
            for y in e[2] or ():
                judge(rep, m, u, "call", pre + ":call-state", m.where, y, STATE, "state passed to the right-hand side", when)
        for k, want in (("t_vals", TIME), ("y_vals", STATE), ("err_est", STATE), ("err", NOUNIT), ("stages", tm(STATE, TIME, -1))):
            for v in s.push.get(k) or ():
                for x in nodes(v):
                    judge(rep, m, u, "record", pre + ":" + k, m.where, x, want, "entry of %s" % k, when)
        for k in s.case.facts:
            cond(rep, m, u, pre, m.where, k, when)
    # inner loops: what they carry and what ends them
    done = set()
    for n in rel_:
        h, e, b, l = m.mus[n]
        if l is L or h.isbool:
            continue
        w = "%s:%d (%s)" % (rel(l.file), l.line, l.fn)
        judge(rep, m, u, "unknown", pre + ":inner", w, m.S(b), known.get(n), "value carried by the inner loop (%s)" % show(h), lambda: "")
        if l.id in done:
            continue
        done.add(l.id)
        for g in [l.back.guard] + [x.guard for _, x, _ in l.exits]:
            for k in conditions(m.S(g)):
                cond(rep, m, u, pre, w, k, lambda: "")
    # before the loop: what the loop starts from
    for n in mine:
        h, e, b, l = m.mus[n]
        judge(rep, m, u, "start", pre + ":start", m.where, m.S(e), known.get(n), "initial value of %s" % show(h), lambda: "")
        for k in conditions(m.S(e)):
            cond(rep, m, u, pre, m.where, k, lambda: "")


def cond(rep, m, u, pre, where, k, when):
    if k.op not in ("pos", "eq0"):
        return
    try:
        r = u.unit(k.args[0])
    except Bad as e:
        if e.kind == "ite":
            rep.undecided("guard", m.name, e.text)
        else:
            rep.bad("guard", pre + ":guard", where, "%s: the condition %s: %s%s" % (m.name, show(k, 4), e.text, when()))
        return
    rep.ok("guard", "%s: %s" % (m.name, show(k, 3)))


def P27(rep):
    rep.rule("step", "the new time has the unit of time and the new state the unit of the state")
    rep.rule("call", "the right-hand side and the Jacobian are called with a time and a state")
    rep.rule("record", "recorded times, states, stages, error estimates and errors have their units")
    rep.rule("unknown", "whatever a loop carries from one step to the next keeps its unit")
    rep.rule("start", "whatever a loop carries starts with the unit it keeps")
    rep.rule("guard", "decisions compare quantities of the same unit")
    for m in rkchecks.models(rep, ["erk", "irk"]):
        run(rep, m)
    for m in mschecks.models(rep):
        run(rep, m)
    return ("Units (powers of the time unit and of the state unit) are inferred for every term of the integrators' transition relations; "
            "terms that combine different units are violations.",
            rkchecks.ASSUME + ["the multistep integrators' start-up integration and nonlinear solve are exact (their built-in tolerances are not in the user's units)"], 200)
