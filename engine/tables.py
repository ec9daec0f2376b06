"""Constant propagation of the coefficient tables and their algebra."""
import sys
import os
sys.path.append("/opt/veriftools/pyvenv/lib/python3.12/site-packages")
from mpmath import mp, mpf, mpc
import interp
from interp import *
from front import Broken

mp.dps = 40


class NotConst(Exception):
    pass


def numeval(n, memo=None):
    """Numeric value of a term without atoms (constant folding to 40 digits)."""
    if isinstance(n, (int, bool)):
        return mpf(int(n))
    memo = {} if memo is None else memo
    st = [n]
    while st:
        x = st[-1]
        if x.nid in memo:
            st.pop()
            continue
        if x.const is not None:
            memo[x.nid] = mpf(x.const.numerator) / x.const.denominator
            st.pop()
            continue
        kids = [a for a in x.args if isinstance(a, Node)]
        miss = [k for k in kids if k.nid not in memo]
        if miss:
            st.extend(miss)
            continue
        a = [memo[k.nid] for k in kids]
        op = x.op
        if op == "add":
            r = a[0] + a[1]
        elif op == "sub":
            r = a[0] - a[1]
        elif op == "mul":
            r = a[0] * a[1]
        elif op == "div":
            r = a[0] / a[1]
        elif op == "max":
            r = max(a)
        elif op == "min":
            r = min(a)
        elif op == "true":
            r = mpf(1)
        elif op == "false":
            r = mpf(0)
        elif op == "uf" and x.args[0] in ("sqrt", "exp", "cbrt", "cos", "sin", "tan", "log", "atan", "acos", "asin"):
            r = getattr(mp, x.args[0])(a[0])
        elif op == "uf" and x.args[0] == "abs":
            r = abs(a[0])
        elif op == "uf" and x.args[0] == "pow":
            r = a[0] ** a[1]
        else:
            raise NotConst(show(x))
        memo[x.nid] = r
        st.pop()
    return memo[n.nid]


class Table:
    pass


def enum_consts(e):
    return e["vals"]


def method_codes(db, ns):
    """The published method list, taken from the enumeration."""
    for d in db.tus:
        for e in d["enums"].values():
            if e["q"] == ns + "::rk_methods":
                return [(k, int(v)) for k, v in sorted(enum_consts(e).items(), key=lambda kv: (int(kv[1]), kv[0]))]
    raise Broken("enumeration %s::rk_methods not found" % ns)


def load_tables(db, ns, rep=None):
    """{name: Table} for every published method; tables by constant propagation."""
    fns = db.byq.get(ns + "::get_coefficients")
    if not fns:
        raise Broken("%s::get_coefficients not found" % ns)
    fn = fns[0]
    out = {}
    for name, code in method_codes(db, ns):
        it = Interp(db)
        st = it.new_state()
        T = Table()
        T.name, T.code, T.ns = name, code, ns
        T.where = "%s:%d" % (os.path.basename(fn["file"]), fn["l"])
        try:
            v = it.callfn(fn, None, [code], st, "R")
            if not isinstance(v, StructV):
                raise NotConst("result is %s" % type(v).__name__)
            T.v = v
            memo = {}
            f = v.f
            T.label = f.get("name") if isinstance(f.get("name"), str) else None
            def vec(k):
                m = f[k]
                if not isinstance(m, MatV):
                    raise NotConst("%s.%s is not constant" % (name, k))
                return [numeval(x, memo) for x in m.e]
            T.b, T.c, T.b2 = vec("b"), vec("c"), vec("b2")
            m = f["A"]
            if not isinstance(m, MatV):
                raise NotConst("%s.A is not constant" % name)
            T.Ar, T.Ac = m.r, m.c
            T.A = [[numeval(m.at(i, j), memo) for j in range(m.c)] for i in range(m.r)]
            m = f["b_interp"]
            T.bi = [[numeval(m.at(i, j), memo) for j in range(m.c)] for i in range(m.r)] if isinstance(m, MatV) else None
            for k in ("order", "order2"):
                x = f[k]
                if isinstance(x, Node) and "undef" in x.taint:
                    x = "undefined"
                elif not isinstance(x, int):
                    x = int(numeval(x, memo))
                setattr(T, k, x)
            x = f["FSAL"]
            T.FSAL = x if isinstance(x, bool) else "undefined" if isinstance(x, Node) and "undef" in x.taint else bool(numeval(x, memo))
            x = f["gamma"]
            T.gamma = "undefined" if isinstance(x, Node) and "undef" in x.taint else numeval(x, memo)
            T.error = None
        except (NotConst, Unsup) as e:
            T.error = str(e)
        T.it = it
        if rep is not None:
            rep.uses(it)
        out[name] = T
    return out


# ------------------------------------------------------------- rooted trees
_trees = {1: [()]}


def trees(n):
    """Rooted trees with n vertices as sorted tuples of children."""
    if n in _trees:
        return _trees[n]
    out = []

    def forests(m, maxt):
        """multisets of trees with m vertices in total, trees <= maxt (order, index)"""
        if m == 0:
            yield ()
            return
        for k in range(min(m, maxt[0]), 0, -1):
            ts = trees(k)
            hi = maxt[1] if k == maxt[0] else len(ts) - 1
            for i in range(min(hi, len(ts) - 1), -1, -1):
                for rest in forests(m - k, (k, i)):
                    yield ((k, i),) + rest
    for k in range(1, n):
        trees(k)
    for f in forests(n - 1, (n - 1, 1 << 30)):
        out.append(f)
    _trees[n] = out
    return out


class Weights:
    """Stage vectors and gamma of every rooted tree for a tableau."""

    def __init__(self, A):
        self.A = A
        self.s = len(A)
        self.v = {}
        self.u = {}

    def vec(self, k, i):
        r = self.v.get((k, i))
        if r is None:
            v = [mpf(1)] * self.s
            g = k
            for ck, ci in trees(k)[i]:
                cu, cg = self.uvec(ck, ci)
                v = [x * y for x, y in zip(v, cu)]
                g *= cg
            r = (v, g)
            self.v[(k, i)] = r
        return r

    def uvec(self, k, i):
        r = self.u.get((k, i))
        if r is None:
            v, g = self.vec(k, i)
            r = ([sum((a * x for a, x in zip(row, v)), mpf(0)) for row in self.A], g)
            self.u[(k, i)] = r
        return r


def order_residual(W, b, k, b0=mpf(0)):
    """max |sum b_i Phi_i(t) - 1/gamma(t)| over trees with k vertices; b0 weighs f(y_n)."""
    worst, wt = mpf(0), None
    for i in range(len(trees(k))):
        v, g = W.vec(k, i)
        s = sum((x * y for x, y in zip(b, v)), mpf(0))
        if k == 1:
            s += b0
        d = abs(s - mpf(1) / g)
        if d > worst:
            worst, wt = d, i
    return worst, wt


def actual_order(W, b, upto, b0=mpf(0), tol=mpf(10) ** -12):
    for k in range(1, upto + 1):
        if order_residual(W, b, k, b0)[0] > tol:
            return k - 1
    return upto


# ------------------------------------------------------ stability function
def polymul(p, q):
    r = [mpf(0)] * (len(p) + len(q) - 1)
    for i, a in enumerate(p):
        for j, b in enumerate(q):
            r[i + j] += a * b
    return r


def charpoly_det(M):
    """coefficients (ascending) of det(I - z M), by Faddeev-LeVerrier."""
    n = len(M)
    c = [mpf(1)]
    B = [[mpf(1) if i == j else mpf(0) for j in range(n)] for i in range(n)]
    for k in range(1, n + 1):
        MB = [[sum((M[i][l] * B[l][j] for l in range(n)), mpf(0)) for j in range(n)] for i in range(n)]
        ck = -sum((MB[i][i] for i in range(n)), mpf(0)) / k
        c.append(ck)
        B = [[MB[i][j] + (ck if i == j else 0) for j in range(n)] for i in range(n)]
    return c


def stability(T):
    """(P, Q) with R = P/Q, ascending coefficients."""
    n = len(T.b)
    Q = charpoly_det(T.A)
    Pm = charpoly_det([[T.A[i][j] - T.b[j] for j in range(n)] for i in range(n)])
    return Pm, Q
