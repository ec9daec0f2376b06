"""Linear arithmetic over the terms of a case (Fourier-Motzkin, exact).

Terms that are not linear combinations are opaque unknowns; max, min, abs and
square roots contribute their defining inequalities.
"""
from fractions import Fraction
import terms as T
from terms import Node, P, num, sub, cases, TooMany


def linear(n):
    """n as ({base nid: coefficient}, constant, {nid: base})."""
    co, base = {}, {}
    c0 = Fraction(0)
    st = [(n, Fraction(1))]
    while st:
        x, k = st.pop()
        if x.const is not None:
            c0 += k * x.const
        elif x.op == "add":
            st += [(x.args[0], k), (x.args[1], k)]
        elif x.op == "sub":
            st += [(x.args[0], k), (x.args[1], -k)]
        elif x.op == "mul" and x.args[0].const is not None:
            st.append((x.args[1], k * x.args[0].const))
        elif x.op == "mul" and x.args[1].const is not None:
            st.append((x.args[0], k * x.args[1].const))
        else:
            co[x.nid] = co.get(x.nid, 0) + k
            base[x.nid] = x
    return {i: v for i, v in co.items() if v}, c0, base


class System:
    """Conjunction of linear inequalities: sum + const > 0 (strict) or >= 0."""

    def __init__(self, case):
        self.case = case
        self.rows = []
        self.seen = set()
        self.dis = []
        for k, v in case.facts.items():
            self.fact(k, v)

    def fact(self, k, v):
        if k.op == "bdd" and k.args[1] is T.FALSE and k.args[2] is T.TRUE:
            k, v = k.args[0], not v
        if k.op == "pos":
            x = k.args[0]
            if v:
                self.ge(x, True)
            else:
                self.ge(T.neg(x), False)
        elif k.op == "eq0" and v:
            self.ge(k.args[0], False)
            self.ge(T.neg(k.args[0]), False)
        elif k.op == "eq0":
            self.dis.append(k.args[0])

    def ge(self, x, strict):
        co, c, base = linear(x)
        self.root(co, c, base, strict)
        if strict and x.isint:
            c, strict = c - 1, False
        self.rows.append((co, c, strict))
        self.largest(co, c, base, strict)
        for b in base.values():
            self.axioms(b)

    def largest(self, co, c, base, strict):
        """A bound that one argument of a maximum (minimum) cannot reach is reached by the other."""
        if len(base) != 1:
            return
        (i, b), = base.items()
        k = co[i]
        if len(b.args) != 2 or not (b.op == "max" and k > 0 or b.op == "min" and k < 0):
            return
        for u, v in (b.args, b.args[::-1]):
            if v.op == "const":
                w = k * v.args[0] + c
                if w < 0 or (strict and w == 0):
                    self.ge(T.add(T.mul(T.const(k), u), T.const(c)), strict)

    def root(self, co, c, base, strict):
        """Comparisons of square roots are comparisons of their arguments."""
        if not base or len(base) > 2 or not all(b.op == "uf" and b.args[0] == "sqrt" for b in base.values()):
            return
        up = [(b, co[i]) for i, b in base.items() if co[i] > 0]
        dn = [(b, -co[i]) for i, b in base.items() if co[i] < 0]
        if len(up) == 1 and len(dn) == 1 and c == 0:
            self.ge(sub(T.mul(T.const(up[0][1] ** 2), up[0][0].args[1]), T.mul(T.const(dn[0][1] ** 2), dn[0][0].args[1])), strict)
        elif not dn and len(up) == 1 and c < 0:
            self.ge(sub(up[0][0].args[1], T.const((c / up[0][1]) ** 2)), strict)
        elif not up and len(dn) == 1 and c >= 0:
            self.ge(sub(T.const((c / dn[0][1]) ** 2), dn[0][0].args[1]), strict)

    def axioms(self, b):
        if b.nid in self.seen:
            return
        self.seen.add(b.nid)
        s = self.case.sign(b)
        if s in ("+", ">="):
            self.ge(b, s == "+")
        elif s in ("-", "<="):
            self.ge(T.neg(b), s == "-")
        elif s == "0":
            self.ge(b, False)
            self.ge(T.neg(b), False)
        if b.op == "max":
            for a in b.args:
                self.ge(sub(b, a), False)
        elif b.op == "min":
            for a in b.args:
                self.ge(sub(a, b), False)
        elif b.op == "uf" and b.args[0] == "abs":
            self.ge(b, False)
            self.ge(sub(b, b.args[1]), False)
            self.ge(T.add(b, b.args[1]), False)

    def infeasible(self, extra=()):
        if self._infeasible(extra):
            return True
        if not extra:
            # a quantity known not to be zero is positive or negative
            for x in self.dis:
                if self._infeasible([(x, True)]) and self._infeasible([(T.neg(x), True)]):
                    return True
        return False

    def _infeasible(self, extra=()):
        keep = list(self.rows)
        for x, strict in extra:
            self.ge(x, strict)
        rows = [(dict(c), k, s) for c, k, s in self.rows]
        self.rows = keep
        # rows connected with the extra ones
        if extra:
            vs = set(rows[-1][0])
            for r in rows[len(keep):]:
                vs |= set(r[0])
            ch = True
            while ch:
                ch = False
                for c, k, s in rows:
                    if set(c) & vs and not set(c) <= vs:
                        vs |= set(c)
                        ch = True
            rows = [r for r in rows if not r[0] or set(r[0]) <= vs]
        return fm(rows)


def fm(rows):
    rows = _norm(rows)
    if rows is None:
        return True
    while True:
        vs = {}
        for c, k, s in rows:
            for v, x in c.items():
                p, n = vs.get(v, (0, 0))
                vs[v] = (p + 1, n) if x > 0 else (p, n + 1)
        if not vs:
            return False
        v = min(vs, key=lambda q: vs[q][0] * vs[q][1])
        P_ = [r for r in rows if r[0].get(v, 0) > 0]
        N_ = [r for r in rows if r[0].get(v, 0) < 0]
        rows = [r for r in rows if v not in r[0]]
        if len(P_) * len(N_) > 3000:
            return False
        for a in P_:
            for b in N_:
                x, y = -b[0][v], a[0][v]
                c = {}
                for q, z in a[0].items():
                    c[q] = c.get(q, 0) + z * x
                for q, z in b[0].items():
                    c[q] = c.get(q, 0) + z * y
                rows.append(({q: z for q, z in c.items() if z}, a[1] * x + b[1] * y, a[2] or b[2]))
        rows = _norm(rows)
        if rows is None:
            return True
        if len(rows) > 4000:
            return False


def _norm(rows):
    out = {}
    for c, k, s in rows:
        if not c:
            if k < 0 or k == 0 and s:
                return None
            continue
        m = abs(c[min(c)])
        key = tuple(sorted((v, x / m) for v, x in c.items()))
        k = k / m
        o = out.get(key)
        if o is None or k < o[0] or k == o[0] and s:
            out[key] = (k, s)
    return [(dict(c), k, s) for c, (k, s) in out.items()]


def leaves(case, nodes, limit=400):
    """Feasible max/min-free cases of the given terms: [(case, values)]."""
    out = []
    bases = set()
    for n in nodes:
        for b in linear(n)[2].values():
            bases.add(b.nid)
            if b.op in ("max", "min"):
                bases |= {a.nid for a in b.args}
    rel = [(k, v) for k, v in case.facts.items() if k.op in ("pos", "eq0")
           and any(x.op in ("max", "min") and any(a.nid in bases for a in x.args) for x in linear(k.args[0])[2].values())]

    def f(c):
        for k, v in rel:
            if (c.red(k) is T.TRUE) != v:
                return None
        return [c.red(n) for n in nodes]
    facts = {k: v for k, v in case.facts.items() if not any(k is q for q, _ in rel)}
    for c, v in cases(f, facts, limit=limit, splitmm=True):
        for k, w in rel:
            c.facts.setdefault(k, w)
        if not System(c).infeasible():
            out.append((c, v))
    return out


def _entail(c, n, strict):
    """n > 0 (strict) or n >= 0 follows from the facts of the case."""
    s = c.sign(n)
    if s == "+" or not strict and s in (">=", "0"):
        return True
    if n.const is not None:
        return n.const > 0 or not strict and n.const == 0
    return System(c).infeasible([(T.neg(n), not strict)])


def pos(case, n, split=True):
    """n > 0 in every instance of the case."""
    if _entail(case, n, True):
        return True
    return split and _all(case, n, True)


def nonneg(case, n, split=True):
    if _entail(case, n, False):
        return True
    return split and _all(case, n, False)


def nonpos(case, n):
    return nonneg(case, T.neg(n))


def _rebuild(n, b, a):
    """n with its linear summand b (a max or min) replaced by a."""
    co, c0, base = linear(n)
    if b.nid not in co:
        return n
    r = T.const(c0)
    for i, k in co.items():
        r = T.add(r, T.mul(T.const(k), a if i == b.nid else base[i]))
    return r


def _shallow(case, n, strict, depth=6):
    """n > 0 or n >= 0 by splitting only the max and min terms its facts and itself are linear in."""
    co, c0, base = linear(n)
    ids = set(base)
    for b in base.values():
        if b.op in ("max", "min"):
            ids |= {a.nid for a in b.args}
    cand = [b for b in base.values() if b.op in ("max", "min")]
    for k in case.facts:
        if k.op in ("pos", "eq0"):
            for x in linear(k.args[0])[2].values():
                if x.op in ("max", "min") and any(a.nid in ids for a in x.args) and not any(x is y for y in cand):
                    cand.append(x)

    def go(facts, n, todo):
        c = T.Case(facts, False)
        if System(c).infeasible() or _entail(c, n, strict):
            return True
        if not todo:
            return False
        b, rest = todo[0], todo[1:]
        for a in b.args:
            f = {}
            for k, v in facts.items():
                if k.op in ("pos", "eq0"):
                    q = _rebuild(k.args[0], b, a)
                    if q is not k.args[0]:
                        k = (T.pos if k.op == "pos" else T.eq0)(q)
                        if k is T.TRUE or k is T.FALSE:
                            if (k is T.TRUE) != v:
                                f = None
                                break
                            continue
                        if k.op == "bdd":
                            if k.args[1] is T.FALSE and k.args[2] is T.TRUE:
                                k, v = k.args[0], not v
                            elif k.args[1] is T.TRUE and k.args[2] is T.FALSE:
                                k = k.args[0]
                f[k] = v
            if f is None:
                continue
            bad = False
            for o in b.args:
                if o is not a:
                    d = sub(a, o) if b.op == "max" else sub(o, a)
                    if d.const is not None:
                        bad |= d.const < 0
                        continue
                    k = T.pos(T.neg(d))
                    if k.op == "pos":
                        if f.setdefault(k, False):
                            bad = True
                    elif k is T.TRUE:
                        bad = True
                    elif k.op == "bdd" and k.args[0].op == "pos":
                        w = k.args[1] is not T.FALSE
                        if f.setdefault(k.args[0], w) != w:
                            bad = True
            if not bad and not go(f, _rebuild(n, b, a), rest):
                return False
        return True
    if not cand or len(cand) > depth:
        return False
    return go(dict(case.facts), n, cand)


def _all(case, n, strict):
    if _shallow(case, n, strict):
        return True
    try:
        ls = leaves(case, [n])
    except TooMany:
        return False
    return all(_entail(c, v[0], strict) for c, v in ls)


def equal(case, a, b):
    """a == b in every instance of the case: True, or the offending case."""
    if a is b:
        return True
    try:
        ls = leaves(case, [a, b])
    except TooMany:
        return None
    for c, (x, y) in ls:
        if x is y:
            continue
        d = sub(x, y)
        if d.const is not None and d.const == 0:
            continue
        if d.const is None and _entail(c, d, False) and _entail(c, T.neg(d), False):
            continue
        return c
    return True
