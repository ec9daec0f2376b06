"""Safety obligations met while the models of the other checks are built.

Every check builds abstract interpretations of the library (integrators,
nonlinear solvers, tables, buffer, results, name maps).  The interpreter notes
each access, integer division and read of a variable together with the path
condition under which it happens.  A sweep rebuilds those models and decides
the obligations.
"""
import multiprocessing
import os
import sys
import time
import interp as I
import lin
import terms as T
from front import Broken, REPO
from lib import Report, rel

JOBS = [("tabs", "P20"), ("tabs", "P22"), ("tabs", "P32"), ("mschecks", "P05"), ("bufcheck", "P21"), ("objchecks", "P23"), ("objchecks", "P30"),
        ("nlchecks", "P18"), ("nlchecks", "P31"), ("rkchecks", "P09"), ("rkchecks", "P11"), ("rkchecks", "P14"), ("rkchecks", "P15"),
        ("rkchecks", "P16"), ("rkchecks", "P17"), ("safety", "X")]


def mus_of(L):
    """Unknowns of a loop: [(unknown, at entry, after an iteration)]."""
    from rk import leaves
    out = []
    for k, hv in L.head.mem.items():
        if k != I.EV and k in L.entry.mem:
            b = L.back.mem.get(k) if L.back is not None else None
            for h, e, b in leaves(hv, L.entry.mem[k], L.entry.mem[k] if b is None else b):
                if h is not e:
                    out.append((h, e, b))
    return out


class Decider:
    def __init__(self, it):
        self.it = it
        self.cache = {}

    def steps(self, around, ka, kf):
        """Substitutions that give the terms their values on one path: ka iterations of the
        loops around came before this one, kf iterations of the loops that are over came
        before their last one.  [(environment, condition)], innermost loop first."""
        loops, order = getattr(around, "snap", (self.it.loops, self.it.loopseq))
        key = (tuple(id(L) for L in around), id(order), ka, kf)
        if key in self.cache:
            return self.cache[key]
        seq = {l: n for n, l in enumerate(order)}
        ls = [L for L in loops.values() if L.head is not None]
        ls += [L for L in around if L.head is not None and all(L is not x for x in ls)]
        ls.sort(key=lambda L: (-len(L.around), -seq.get(L.id, 10 ** 6)))
        rest = []
        for L in ls:
            rest.append((L, [list(x) for x in mus_of(L)], [L.back.guard if L.back is not None else T.FALSE], [[a, g] for a, (g, _, _) in zip(L.retatoms, L.returns)]))
        out = []
        while rest:
            L, mus, bg, rets = rest.pop(0)
            inside = any(L is x for x in around)
            k = ka if inside else kf
            env = {h.nid: e for h, e, b in mus}
            cond = T.TRUE
            for _ in range(k):
                cond = T.andn(cond, T.subst(bg[0], dict(env), {}))
                memo = {}
                env = {h.nid: T.subst(b, env, memo) for h, e, b in mus}
            for a, g in rets:
                env[a.nid] = T.subst(g, {h.nid: env[h.nid] for h, e, b in mus}, {})
            keys = set(env)
            out.append((env, cond, keys, inside))
            if env:
                memo = {}
                for L2, m2, b2, r2 in rest:
                    for x in m2:
                        x[1], x[2] = T.subst(x[1], env, memo), T.subst(x[2], env, memo)
                    b2[0] = T.subst(b2[0], env, memo)
                    for x in r2:
                        x[1] = T.subst(x[1], env, memo)
        self.cache[key] = out
        return out

    def unroll(self, loops, nodes, ka, kf):
        nodes = list(nodes)
        for env, cond, keys, inside in self.steps(loops, ka, kf):
            if not env and not inside:
                continue
            memo = {}
            new = [T.subst(x, env, memo) for x in nodes]
            if cond is not T.TRUE and (inside or any(x is not y for x, y in zip(new, nodes))):
                new[0] = T.andn(new[0], cond)
            nodes = new
        return nodes

    def free(self, *nodes):
        """Only symbols of the inputs: no loop unknown, no untracked value."""
        for x in nodes:
            if "top" in x.taint:
                return False
        for a in T.atoms_of(*nodes):
            if str(a.args[0]).startswith(("μ", "top:", "elem:", "ret:")):
                return False
        return True

    def versions(self, loops, nodes):
        """The obligation on paths that need no unknown of a loop."""
        if self.free(*nodes):
            yield nodes
            return
        if any("top" in x.taint for x in nodes):
            return
        seen = set()
        for ka, kf in ((0, 0), (1, 0), (0, 1), (1, 1), (2, 0)):
            x = self.unroll(loops, nodes, ka, kf)
            if x[0] is not T.FALSE and self.free(*x) and tuple(y.nid for y in x) not in seen:
                seen.add(tuple(y.nid for y in x))
                yield x

    def decide(self, kind, guard, data, loops):
        """'ok', 'undecided' or a message."""
        if kind == "access" and isinstance(data[0], str):
            return self.feasible(guard, loops, [], lambda c, v: data[0])
        if kind == "access":
            i, n = data
            return self.proved(guard, loops, [i, n], lambda c, v: lin.nonneg(c, v[0]) and lin.nonneg(c, T.sub(T.sub(v[1], v[0]), T.ONE)),
                               "index %s of %s" % (T.show(i, 3), T.show(n, 3)))
        if kind == "intdiv":
            d = data[0]
            return self.proved(guard, loops, [d], lambda c, v: nonzero(c, v[0]), "divisor %s" % T.show(d, 4), canbezero)
        if kind == "read":
            v = data[0]
            if not isinstance(v, T.Node):
                return self.feasible(guard, loops, [], lambda c, x: v.why)
            def und(c, x):
                u = [a for a in T.atoms_of(x[0]) if str(a.args[0]).startswith("undef:")]
                return "value of %s" % str(u[0].args[0])[6:] if u else None
            return self.feasible(guard, loops, [v], und)
        return "undecided"

    def feasible(self, guard, loops, nodes, what):
        und = "ok"
        try:
            for c, v in T.cases(lambda c: None if c.red(guard) is T.FALSE else [c.red(x) for x in nodes], limit=600, splitmm=False):
                if what(c, v) is not None and not lin.System(c).infeasible():
                    und = "undecided"
                    break
            if und == "ok" and not any("undef" in x.taint for x in nodes):
                return und
            for nn in self.versions(loops, [guard] + nodes):
                for c, v in T.cases(lambda c: None if c.red(nn[0]) is T.FALSE else [c.red(x) for x in nn[1:]], limit=600, splitmm=False):
                    m = what(c, v)
                    if m is not None and not lin.System(c).infeasible():
                        return m + (" when " + c.describe() if c.facts else "")
        except T.TooMany:
            return "undecided"
        return und

    def proved(self, guard, loops, nodes, ok, msg, can=None):
        good = True
        try:
            for c, v in T.cases(lambda c: None if c.red(guard) is T.FALSE else [c.red(x) for x in nodes], limit=600, splitmm=False):
                if not lin.System(c).infeasible() and not ok(c, v):
                    good = False
                    break
            if good:
                return "ok"
            for nn in self.versions(loops, [guard] + nodes):
                for c, v in T.cases(lambda c: None if c.red(nn[0]) is T.FALSE else [c.red(x) for x in nn[1:]], limit=600, splitmm=False):
                    if not lin.System(c).infeasible() and not ok(c, v) and (can(c, v[0]) if can else all(plain(x) for x in v)):
                        return msg + (" when " + c.describe() if c.facts else "")
        except T.TooMany:
            pass
        return "undecided"


def plain(x):
    """A linear expression of input symbols: what the facts do not exclude can happen."""
    return all(b.op == "atom" for b in lin.linear(x)[2].values())


def quotient(d):
    """(a, k) when d is the integer quotient of a and a positive constant k."""
    if d.op == "uf" and d.args[0] == "int/" and d.args[2].const is not None and d.args[2].const > 0:
        return d.args[1], d.args[2].const
    return None


def canbezero(c, d):
    """The facts of the case leave room for d = 0."""
    if plain(d):
        return True
    q = quotient(d)
    if q is None or not plain(q[0]):
        return False
    a, k = q
    return not lin.System(c).infeasible([(T.sub(T.const(k), a), True), (T.add(a, T.const(k)), True)])


def nonzero(c, d):
    if d.const is not None:
        return d.const != 0
    q = quotient(d)
    if q is not None and (lin.nonneg(c, T.sub(q[0], T.const(q[1]))) or lin.nonneg(c, T.sub(T.const(-q[1]), q[0]))):
        return True
    if c.sign(d) in ("+", "-"):
        return True
    k = T.eq0(d)
    for f, v in c.facts.items():
        if f is k and not v:
            return True
    return lin.pos(c, d) or lin.pos(c, T.neg(d))


def job(a):
    mod, pid, tier, kinds = a
    t0 = time.time()
    I.Interp.all = []
    err = None
    try:
        m = __import__(mod)
        rep = Report(pid, tier)
        rep.ephemeral = True
        getattr(m, pid)(rep)
    except Exception as e:     # the check of that property reports it
        err = "%s: %s" % (type(e).__name__, e)
    sites, out, seen = {}, [], set()
    for it in I.Interp.all:
        for (k, s), n in it.sites.items():
            if k in kinds and s[0].startswith(REPO):
                sites[k, s] = sites.get((k, s), 0) + n
        D = Decider(it)
        for kind, g, s, data, loops in it.safety:
            if kind not in kinds or not s[0].startswith(REPO):
                continue
            key = (kind, s, g.nid, tuple(x.nid if isinstance(x, T.Node) else str(x) if isinstance(x, str) else x.why if hasattr(x, "why") else "" for x in data),
                   tuple(getattr(L, "id", id(L)) if g.nid or True else 0 for L in loops))
            if key in seen:
                continue
            seen.add(key)
            if time.time() - t0 > 500:
                out.append((kind, s, "undecided"))
                continue
            out.append((kind, s, D.decide(kind, g, data, loops)))
    nm = len(I.Interp.all)
    I.Interp.all = None
    return mod, pid, err, nm, sites, out, time.time() - t0


def sweep(tier, kinds, jobs=None):
    ctx = multiprocessing.get_context("fork")
    with ctx.Pool(8) as p:
        return p.map(job, [(m, q, tier, kinds) for m, q in (jobs or JOBS)], chunksize=1)
