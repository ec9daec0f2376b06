"""Value graph with random-interpretation fingerprints.

A Node is a term over atoms (symbolic inputs, loop-head unknowns), field
operations, uninterpreted functions and gated joins (ite).  Every node carries
a fingerprint in GF(P): ring operations are computed in the field, an
uninterpreted application is a keyed hash of its arguments, and ite(c,a,b) is
the affine join w_c*a + (1-w_c)*b with a random weight w_c per condition
(Gulwani & Necula, "Global value numbering using random interpretation").
Equal fingerprints mean equal terms (error probability about 2**-60 per
comparison); nodes are hash-consed on the fingerprint, so node identity is
semantic equality modulo the field axioms.
"""
from fractions import Fraction
import hashlib

P = (1 << 61) - 1
_SEED = b"rehuel-gvn-1"


def H(*parts):
    h = hashlib.blake2b(repr(parts).encode(), digest_size=8, key=_SEED)
    return int.from_bytes(h.digest(), "big") % P


def fr_fp(q):
    return q.numerator * pow(q.denominator, P - 2, P) % P


class Node:
    __slots__ = ("op", "args", "fp", "sign", "const", "isbool", "taint", "isint", "nid")
    count = 0

    def __repr__(self):
        return show(self)

    def __bool__(self):
        raise TypeError("symbolic node used as a Python bool")


_num = {}
_bool = {}
FP2CONST = {}
NOTAINT = frozenset()


def _mk(op, args, fp, isbool=False, sign="?", const=None, taint=NOTAINT, isint=False):
    tab = _bool if isbool else _num
    n = tab.get(fp)
    if n is not None:
        return n
    n = Node()
    n.op, n.args, n.fp, n.sign, n.const, n.isbool, n.taint, n.isint = op, args, fp, sign, const, isbool, taint, isint
    Node.count += 1
    n.nid = Node.count
    tab[fp] = n
    return n


def const(q):
    if isinstance(q, Node):
        return q
    if isinstance(q, bool):
        q = int(q)
    q = Fraction(q)
    fp = fr_fp(q)
    FP2CONST.setdefault(fp, q)
    return _mk("const", (q,), fp, sign="+" if q > 0 else "-" if q < 0 else "0", const=q)


ZERO = const(0)
ONE = const(1)
_tainted = {}


def _t(*ns):
    r = NOTAINT
    for n in ns:
        if n.taint:
            r = r | n.taint
    return r


def atom(name, positive=False, taint=NOTAINT, isint=False):
    return _mk("atom", (name,), H("atom", name), sign="+" if positive else "?", taint=taint, isint=isint)


def num(x):
    if isinstance(x, Node):
        if x.isbool:
            return ite(x, ONE, ZERO)
        return x
    if isinstance(x, float):
        return const(Fraction(repr(x)))
    return const(x)


def _sadd(a, b):
    if a == "0":
        return b
    if b == "0":
        return a
    if a == b and a in "+-":
        return a
    return "?"


def _smul(a, b):
    if a == "0" or b == "0":
        return "0"
    if a == "?" or b == "?":
        return "?"
    return "+" if a == b else "-"


NEG = {"+": "-", "-": "+", "0": "0", "?": "?"}


def _ii(a, b):
    return ((a.isint or b.isint) and (a.isint or a.const is not None and a.const.denominator == 1)
            and (b.isint or b.const is not None and b.const.denominator == 1))


def add(a, b):
    a, b = num(a), num(b)
    if a.const is not None and b.const is not None:
        return const(a.const + b.const)
    if a.const == 0:
        return b
    if b.const == 0:
        return a
    return _mk("add", (a, b), (a.fp + b.fp) % P, sign=_sadd(a.sign, b.sign), taint=_t(a, b), isint=_ii(a, b))


def neg(a):
    a = num(a)
    if a.const is not None:
        return const(-a.const)
    return _mk("mul", (const(-1), a), (P - a.fp) % P, sign=NEG[a.sign], taint=a.taint, isint=a.isint)


def sub(a, b):
    a, b = num(a), num(b)
    if a.const is not None and b.const is not None:
        return const(a.const - b.const)
    if b.const == 0:
        return a
    if a.fp == b.fp:
        return ZERO
    return _mk("sub", (a, b), (a.fp - b.fp) % P, sign=_sadd(a.sign, NEG[b.sign]), taint=_t(a, b), isint=_ii(a, b))


def mul(a, b):
    a, b = num(a), num(b)
    if a.const is not None and b.const is not None:
        return const(a.const * b.const)
    if a.const == 0 or b.const == 0:
        return ZERO
    if a.const == 1:
        return b
    if b.const == 1:
        return a
    if a is b and a.op == "uf" and a.args[0] == "sqrt":
        return a.args[1]
    if a is b and a.op == "uf" and a.args[0] == "abs":
        return mul(a.args[1], a.args[1])
    if a is b and a.op == "mul" and a.args[0] is not a.args[1] and hassqrt(a):
        return mul(mul(a.args[0], a.args[0]), mul(a.args[1], a.args[1]))
    if a is b and a.op in ("max", "min") and nonnegative(a.args[0]) and nonnegative(a.args[1]):
        f = maxn if a.op == "max" else minn
        return f(mul(a.args[0], a.args[0]), mul(a.args[1], a.args[1]))
    if a.op == "uf" and b.op == "uf" and a.args[0] == "sqrt" and b.args[0] == "sqrt" and (a.args[1].const is None) == (b.args[1].const is None):
        return sqrt(mul(a.args[1], b.args[1]))
    s = "+" if (a is b and a.sign in "+-") else _smul(a.sign, b.sign)
    return _mk("mul", (a, b), a.fp * b.fp % P, sign=s, taint=_t(a, b), isint=_ii(a, b))


def hassqrt(x):
    return x.op == "mul" and (hassqrt(x.args[0]) or hassqrt(x.args[1])) or x.op == "uf" and x.args[0] == "sqrt"


def nonnegative(x):
    """Known not to be negative from its form alone."""
    if x.const is not None:
        return x.const >= 0
    if x.sign == "+" or x.op == "uf" and x.args[0] in ("sqrt", "abs"):
        return True
    if x.op in ("max", "add", "mul", "div", "min"):
        if x.op == "mul" and x.args[0] is x.args[1]:
            return True
        f = any if x.op == "max" else all
        return f(nonnegative(y) for y in x.args)
    return False


def div(a, b):
    a, b = num(a), num(b)
    if b.const is not None:
        if b.const == 0:
            return uf("divzero", a)
        if a.const is not None:
            return const(a.const / b.const)
        return mul(a, const(1 / b.const))
    if b.op == "uf" and b.args[0] == "sqrt" and (b.args[1].const or 0) > 0:
        return mul(mul(a, const(1 / b.args[1].const)), b)
    if a.const == 0:
        return ZERO
    if b.fp == 0:
        return uf("divzero", a)
    if b.op == "uf" and b.args[0] == "sqrt":
        if b.args[1].const is not None:
            return mul(mul(a, b), const(1 / b.args[1].const))
        if a.op == "uf" and a.args[0] == "sqrt" and a.args[1].const is None:
            return sqrt(div(a.args[1], b.args[1]))
        if a is b.args[1]:
            return b
    if a.op == "uf" and a.args[0] == "sqrt" and a.args[1] is b:
        return div(ONE, a)
    return _mk("div", (a, b), a.fp * pow(b.fp, P - 2, P) % P, sign=_smul(a.sign, b.sign), taint=_t(a, b))


def isqrt_exact(q):
    from math import isqrt
    n, d = q.numerator, q.denominator
    if n < 0:
        return None
    a, b = isqrt(n), isqrt(d)
    return Fraction(a, b) if a * a == n and b * b == d else None


def sqrt(a):
    a = num(a)
    if a.const is not None:
        r = isqrt_exact(a.const)
        if r is not None:
            return const(r)
        if a.const > 0 and a.const.denominator != 1:
            return mul(const(Fraction(1, a.const.denominator)), sqrt(const(a.const.numerator * a.const.denominator)))
    elif a.op == "mul" and (a.args[0].const or 0) > 0:
        return mul(sqrt(a.args[0]), sqrt(a.args[1]))
    elif a.op == "mul" and (a.args[1].const or 0) > 0:
        return mul(sqrt(a.args[1]), sqrt(a.args[0]))
    s = "+" if a.sign == "+" else "?"
    return _mk("uf", ("sqrt", a), H("sqrt", a.fp), sign=s, taint=a.taint)


def absn(a):
    a = num(a)
    if a.const is not None:
        return const(abs(a.const))
    if a.sign == "+":
        return a
    if a.sign == "-":
        return neg(a)
    if a.fp > P // 2:
        a = neg(a)
    return _mk("uf", ("abs", a), H("abs", a.fp), sign="?", taint=a.taint)


def _common(f, a, b):
    """max / min of two terms with a common addend or positive factor."""
    if a.op != b.op or a.op not in ("add", "mul", "sub"):
        return None
    for p in (0, 1):
        for q in (0, 1):
            x, y = a.args[p], b.args[q]
            if x.fp != y.fp:
                continue
            u, v = a.args[1 - p], b.args[1 - q]
            if a.op == "add":
                return add(x, f(u, v))
            if a.op == "mul" and x.sign == "+":
                return mul(x, f(u, v))
            if a.op == "sub" and p == q == 1:
                return sub(f(u, v), x)
    return None


def maxn(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.const is not None and b.const is not None:
        return const(max(a.const, b.const))
    r = _common(maxn, a, b)
    if r is not None:
        return r
    if a.fp > b.fp:
        a, b = b, a
    s = "+" if "+" in (a.sign, b.sign) else "?"
    return _mk("max", (a, b), H("max", a.fp, b.fp), sign=s, taint=_t(a, b), isint=_ii(a, b))


def minn(a, b):
    a, b = num(a), num(b)
    if a is b:
        return a
    if a.const is not None and b.const is not None:
        return const(min(a.const, b.const))
    r = _common(minn, a, b)
    if r is not None:
        return r
    m = maxn(a, b)
    fp = (a.fp + b.fp - m.fp) % P
    if a.fp > b.fp:
        a, b = b, a
    s = "+" if a.sign == "+" and b.sign == "+" else "?"
    return _mk("min", (a, b), fp, sign=s, taint=_t(a, b), isint=_ii(a, b))


def powi(a, n):
    r = ONE
    for _ in range(abs(n)):
        r = mul(r, a)
    return r if n >= 0 else div(ONE, r)


def pown(a, e):
    a, e = num(a), num(e)
    if e.const is not None:
        if e.const.denominator == 1 and abs(e.const) <= 12:
            return powi(a, int(e.const))
        if e.const == Fraction(1, 2):
            return sqrt(a)
        if e.const < 0:
            return div(ONE, pown(a, neg(e)))
    elif e.fp > P // 2:
        return div(ONE, pown(a, neg(e)))
    if a.op == "div" and a.args[0].const == 1:
        return div(ONE, pown(a.args[1], e))
    return _mk("uf", ("pow", a, e), H("pow", a.fp, e.fp), sign="+" if a.sign == "+" else "?", taint=_t(a, e))


def uf(name, *args, positive=False):
    args = tuple(num(a) if not isinstance(a, str) else a for a in args)
    t = _t(*[a for a in args if isinstance(a, Node)])
    return _mk("uf", (name,) + args, H("uf", name, tuple(a.fp if isinstance(a, Node) else a for a in args)),
               sign="+" if positive else "?", taint=t)


# ---------------------------------------------------------------- conditions
TRUE = _mk("true", (), 1, isbool=True)
FALSE = _mk("false", (), 0, isbool=True)


def boolean(x):
    """Python bool/int or Node -> bool Node."""
    if isinstance(x, Node):
        if x.isbool:
            return x
        return ne0(x)
    return TRUE if x else FALSE


def _chosen(x, f, k=1, off=0, depth=0):
    """f(k x + off) as a condition when x is a choice among constants, else None."""
    if x.const is not None:
        return TRUE if f(k * x.const + off) else FALSE
    if depth > 6:
        return None
    if x.op == "ite":
        a = _chosen(x.args[1], f, k, off, depth + 1)
        b = _chosen(x.args[2], f, k, off, depth + 1) if a is not None else None
        return None if b is None else ite(x.args[0], a, b)
    if x.op in ("add", "sub") and len(x.args) == 2:
        a, b = x.args
        s = 1 if x.op == "add" else -1
        if b.const is not None:
            return _chosen(a, f, k, off + s * k * b.const, depth + 1)
        if a.const is not None:
            return _chosen(b, f, s * k, off + k * a.const, depth + 1)
    return None


def pos(x):
    x = num(x)
    if x.const is not None:
        return TRUE if x.const > 0 else FALSE
    if x.op in ("ite", "add", "sub"):
        c = _chosen(x, lambda v: v > 0)
        if c is not None:
            return c
    if x.sign in "+":
        return TRUE
    if x.sign in "-0":
        return FALSE
    if x.isint:
        alt = sub(ONE, x)
        if alt.fp < x.fp:
            return notn(_mk("pos", (alt,), H("pos", alt.fp), isbool=True, taint=x.taint))
    return _mk("pos", (x,), H("pos", x.fp), isbool=True, taint=x.taint)


def eq0(x):
    x = num(x)
    if x.const is not None:
        return TRUE if x.const == 0 else FALSE
    if x.sign in "+-":
        return FALSE
    if x.op in ("ite", "add", "sub"):
        c = _chosen(x, lambda v: v == 0)
        if c is not None:
            return c
    fp = min(x.fp, P - x.fp)
    return _mk("eq0", (x,), H("eq0", fp), isbool=True, taint=x.taint)


def ne0(x):
    return notn(eq0(x))


# Boolean combinations are kept as reduced ordered decision diagrams over the
# atomic conditions (pos / eq0 / batom), so equal combinations are one node.
def _bvar(n):
    return n.args[0] if n.op == "bdd" else n


def _bcof(n, v):
    if n.op == "bdd":
        if n.args[0] is v:
            return n.args[1], n.args[2]
        return n, n
    if n is v:
        return TRUE, FALSE
    return n, n


def _bmk(v, hi, lo):
    if hi is lo:
        return hi
    if hi is TRUE and lo is FALSE:
        return v
    return _mk("bdd", (v, hi, lo), (v.fp * hi.fp + (1 - v.fp) * lo.fp) % P, isbool=True, taint=_t(v, hi, lo))


_bmemo = {}


def notn(c):
    if c is TRUE:
        return FALSE
    if c is FALSE:
        return TRUE
    r = _bmemo.get((c.nid,))
    if r is None:
        v = _bvar(c)
        hi, lo = _bcof(c, v)
        r = _bmk(v, notn(hi), notn(lo))
        _bmemo[(c.nid,)] = r
        _bmemo[(r.nid,)] = c
    return r


def andn(a, b):
    if a is FALSE or b is FALSE:
        return FALSE
    if a is TRUE or a is b:
        return b
    if b is TRUE:
        return a
    if a.nid > b.nid:
        a, b = b, a
    k = (a.nid, b.nid)
    r = _bmemo.get(k)
    if r is None:
        va, vb = _bvar(a), _bvar(b)
        v = va if va.nid <= vb.nid else vb
        ah, al = _bcof(a, v)
        bh, bl = _bcof(b, v)
        r = _bmk(v, andn(ah, bh), andn(al, bl))
        _bmemo[k] = r
    return r


def orn(a, b):
    return notn(andn(notn(a), notn(b)))


def batom(name, *args, taint=NOTAINT):
    args = tuple(num(a) for a in args)
    return _mk("batom", (name,) + args, H("batom", name, tuple(a.fp for a in args)), isbool=True, taint=taint | _t(*args))


def lt(a, b):
    return pos(sub(b, a))


def le(a, b):
    a, b = num(a), num(b)
    d = sub(a, b)
    return notn(pos(d))


def eq(a, b):
    return eq0(sub(a, b))


def ite(c, a, b):
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if a is b:
        return a
    if isinstance(a, Node) and a.isbool or isinstance(b, Node) and b.isbool:
        a, b = boolean(a), boolean(b)
        if a is b:
            return a
        return orn(andn(c, a), andn(notn(c), b))
    if c.op == "bdd" and (c.args[1] is FALSE and (c.args[2] is TRUE)):
        return ite(c.args[0], b, a)
    a, b = num(a), num(b)
    if a.op == "ite" and a.args[0] is c:
        a = a.args[1]
    if b.op == "ite" and b.args[0] is c:
        b = b.args[2]
    if a is b:
        return a
    if c.op == "pos":
        d = c.args[0]
        if d.fp == (a.fp - b.fp) % P:
            return maxn(a, b)
        if d.fp == (b.fp - a.fp) % P:
            return minn(a, b)
    s = a.sign if a.sign == b.sign else "?"
    return _mk("ite", (c, a, b), (c.fp * a.fp + (1 - c.fp) * b.fp) % P, sign=s,
               taint=c.taint | a.taint | b.taint, isint=_ii(a, b))


# ---------------------------------------------------------------- utilities
def atoms_of(*roots):
    seen, out, st = set(), set(), [r for r in roots if isinstance(r, Node)]
    while st:
        n = st.pop()
        if n.nid in seen:
            continue
        seen.add(n.nid)
        if n.op == "atom":
            out.add(n)
        for a in n.args:
            if isinstance(a, Node):
                st.append(a)
    return out


def subnodes(*roots):
    seen, st = {}, [r for r in roots if isinstance(r, Node)]
    while st:
        n = st.pop()
        if n.nid in seen:
            continue
        seen[n.nid] = n
        for a in n.args:
            if isinstance(a, Node):
                st.append(a)
    return list(seen.values())


def rebuild(n, args):
    op = n.op
    if op == "add":
        return add(*args)
    if op == "sub":
        return sub(*args)
    if op == "mul":
        return mul(*args)
    if op == "div":
        return div(*args)
    if op == "max":
        return maxn(*args)
    if op == "min":
        return minn(*args)
    if op == "ite":
        return ite(*args)
    if op == "pos":
        return pos(*args)
    if op == "eq0":
        return eq0(*args)
    if op == "bdd":
        return ite(*args)
    if op == "uf":
        if args[0] == "sqrt":
            return sqrt(args[1])
        if args[0] == "abs":
            return absn(args[1])
        if args[0] == "pow":
            return pown(args[1], args[2])
        return uf(*args, positive=n.sign == "+")
    if op == "batom":
        return batom(args[0], *args[1:])
    return n


def subst(root, env, memo=None):
    """Replace nodes (by nid) according to env {nid: Node}; rebuilds bottom-up."""
    if memo is None:
        memo = {}
    memo.update(env)
    if not isinstance(root, Node):
        return root
    stack = [(root, False)]
    while stack:
        n, done = stack.pop()
        if n.nid in memo:
            continue
        kids = [a for a in n.args if isinstance(a, Node)]
        if not kids:
            memo[n.nid] = n
            continue
        if not done:
            stack.append((n, True))
            for k in kids:
                if k.nid not in memo:
                    stack.append((k, False))
        else:
            args = tuple(memo[a.nid] if isinstance(a, Node) else a for a in n.args)
            if all(x is y for x, y in zip(args, n.args)):
                memo[n.nid] = n
            else:
                memo[n.nid] = rebuild(n, args)
    return memo[root.nid]


def show(n, depth=4):
    if not isinstance(n, Node):
        return str(n)
    if n.op == "const":
        q = n.args[0]
        return str(q) if q.denominator < 10**6 and abs(q.numerator) < 10**9 else repr(float(q))
    if n.op == "atom":
        return str(n.args[0])
    if depth == 0:
        return "..."
    a = [show(x, depth - 1) if isinstance(x, Node) else str(x) for x in n.args]
    s = {"add": "(%s + %s)", "sub": "(%s - %s)", "mul": "%s*%s", "div": "%s/(%s)", "pos": "[%s > 0]", "eq0": "[%s == 0]",
         "bdd": "<%s ? %s : %s>", "ite": "(%s ? %s : %s)"}.get(n.op)
    if s:
        return s % tuple(a)
    if n.op in ("uf", "batom"):
        return "%s(%s)" % (a[0], ", ".join(a[1:]))
    return "%s(%s)" % (n.op, ", ".join(a))


# ------------------------------------------------- case-split simplification
class Need(Exception):
    def __init__(self, key):
        self.key = key


def solved(x):
    """(input, constant) when x == 0 fixes the value of a real input symbol."""
    c = ZERO
    if x.op in ("add", "sub"):
        a, b = x.args
        if b.const is not None:
            x, c = a, b if x.op == "sub" else neg(b)
        elif a.const is not None:
            x, c = b, a if x.op == "sub" else neg(a)
    if x.op == "atom" and not x.isint and not x.isbool and not str(x.args[0]).startswith(("μ", "top:", "elem:", "ret:", "undef:")):
        return x, c
    return None, None


class Case:
    """One assignment of truth values to condition keys; cofactors terms."""

    def __init__(self, facts=None, splitmm=True, order=None):
        self.facts = dict(facts or {})     # key -> bool, key = bool-node of op pos/eq0/batom
        self.memo = {}
        self.splitmm = splitmm
        self.possign = {}
        self.nodes = {}
        self.over = False
        self.subst = {}
        for k, v in list(self.facts.items()):
            self._learn(k, v)

    def _learn(self, k, v):
        if k.op == "bdd" and k.args[1] is FALSE and k.args[2] is TRUE:
            k, v = k.args[0], not v
            self.facts[k] = v
        if k.op == "pos":
            x = k.args[0]
            if x.isint:
                # x <= 0 is 1 - x > 0 and the other way round
                f = (1 - x.fp) % P
                self.possign[f] = "<=" if v else "+"
                self.possign[(P - f) % P] = ">=" if v else "-"
            self.nodes[x.fp] = x
            if v:
                self.possign[x.fp] = "+"
                self.possign[(P - x.fp) % P] = "-"
            else:
                self.possign.setdefault(x.fp, "<=")
                self.possign.setdefault((P - x.fp) % P, ">=")
        elif k.op == "eq0" and v:
            x = k.args[0]
            self.possign[x.fp] = "0"
            self.possign[(P - x.fp) % P] = "0"
            a, w = solved(x)
            if a is not None and a.nid not in self.subst:
                # an input known to have one value is that value everywhere
                self.subst[a.nid] = w
                self.memo = {}
                for k2, v2 in list(self.facts.items()):
                    if k2 is not k and a in atoms_of(k2):
                        try:
                            self.over, o = True, self.over
                            r = self.red(k2.args[0]) if k2.op in ("pos", "eq0") else None
                        finally:
                            self.over = o
                        if r is not None and r.const is None:
                            q = pos(r) if k2.op == "pos" else eq0(r)
                            if q.op == k2.op and q not in self.facts:
                                self.facts[q] = v2
                                self._learn(q, v2)
                self.memo = {}

    def child(self, key, val):
        c = Case(None, self.splitmm)
        c.subst = dict(self.subst)
        c.facts = dict(self.facts)
        c.facts[key] = val
        c.possign = dict(self.possign)
        c.memo = dict(self.memo)
        c.nodes = dict(self.nodes)
        c._learn(key, val)
        return c

    def decide(self, k):
        """k: bool node pos/eq0/batom already cofactored."""
        if k is TRUE:
            return True
        if k is FALSE:
            return False
        if k in self.facts:
            return self.facts[k]
        if k.op == "bdd":
            return self.decide(k.args[1] if self.decide(k.args[0]) else k.args[2])
        if k.op == "pos":
            s = self.sign(k.args[0])
            if s == "+":
                return True
            if s in ("-", "0", "<="):
                return False
        elif k.op == "eq0":
            s = self.sign(k.args[0])
            if s in "+-":
                return False
            if s == "0":
                return True
        raise Need(k)

    def sign(self, n, depth=12):
        if n.sign in "+-0":
            return n.sign
        s = self.possign.get(n.fp)
        if s:
            if s == "<=" and self.possign.get((P - n.fp) % P) == "<=":
                return "0"
            return s
        if depth == 0:
            return "?"
        if n.op == "mul":
            a, b = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if n.args[0] is n.args[1] and a in "+-":
                return "+"
            if n.args[0] is n.args[1]:
                return ">="
            if "0" in (a, b):
                return "0"
            if a in "+-" and b in "+-":
                return "+" if a == b else "-"
        elif n.op == "div":
            a, b = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if a in "+-" and b in "+-":
                return "+" if a == b else "-"
        elif n.op in ("add", "sub"):
            a, b = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if n.op == "sub":
                b = {"+": "-", "-": "+", "0": "0", "<=": ">=", ">=": "<="}.get(b, "?")
            if a == "0":
                return b
            if b == "0":
                return a
            if a in ("+", ">=") and b in ("+", ">="):
                return "+" if "+" in (a, b) else ">="
            if a in ("-", "<=") and b in ("-", "<="):
                return "-" if "-" in (a, b) else "<="
        elif n.op == "max":
            a, b = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if "+" in (a, b):
                return "+"
            if ">=" in (a, b) or "0" in (a, b):
                return ">="
        elif n.op == "min":
            a, b = self.sign(n.args[0], depth - 1), self.sign(n.args[1], depth - 1)
            if a == "+" and b == "+":
                return "+"
        elif n.op == "uf":
            if n.args[0] == "abs":
                return "+" if self.sign(n.args[1], depth - 1) in "+-" else ">="
            if n.args[0] == "sqrt":
                return "+" if self.sign(n.args[1], depth - 1) == "+" else ">="
            if n.args[0] == "pow":
                if self.sign(n.args[1], depth - 1) == "+":
                    return "+"
            if n.args[0] == "exp":
                return "+"
        return "?"

    def red(self, root):
        """Cofactor root by the facts; raises Need on an undecided gate."""
        if not isinstance(root, Node):
            return root
        memo = self.memo
        stack = [root]
        while stack:
            n = stack[-1]
            if n.nid in memo:
                stack.pop()
                continue
            if n.op in ("const", "atom", "true", "false"):
                memo[n.nid] = self.subst.get(n.nid, n)
                stack.pop()
                continue
            if n.op in ("ite", "bdd"):
                c = n.args[0]
                if c.nid not in memo:
                    stack.append(c)
                    continue
                if self.over and memo[c.nid] is not TRUE and memo[c.nid] is not FALSE:
                    miss = [b for b in n.args[1:] if b.nid not in memo]
                    if miss:
                        stack.extend(miss)
                        continue
                    memo[n.nid] = rebuild(n, tuple(memo[b.nid] for b in n.args))
                    stack.pop()
                    continue
                br = n.args[1] if memo[c.nid] is TRUE else n.args[2]
                if br.nid not in memo:
                    stack.append(br)
                    continue
                memo[n.nid] = memo[br.nid]
                stack.pop()
                continue
            kids = [a for a in n.args if isinstance(a, Node)]
            miss = [k for k in kids if k.nid not in memo]
            if miss:
                stack.extend(miss)
                continue
            args = tuple(memo[a.nid] if isinstance(a, Node) else a for a in n.args)
            if n.op in ("pos", "eq0", "batom"):
                k = rebuild(n, args)
                try:
                    r = TRUE if self.decide(k) else FALSE
                except Need:
                    if not self.over:
                        raise
                    r = k
            elif n.op in ("max", "min") and self.splitmm:
                a, b = args
                a, b = num(a), num(b)
                if a is b:
                    r = a
                else:
                    k = pos(sub(a, b))
                    try:
                        g = self.decide(k)
                        r = a if g == (n.op == "max") else b
                    except Need:
                        if not self.over:
                            raise
                        r = rebuild(n, args)
            else:
                r = n if all(x is y for x, y in zip(args, n.args)) else rebuild(n, args)
            memo[n.nid] = r
            stack.pop()
        return memo[root.nid]

    def nonpos(self, n):
        """Is n <= 0 known in this case?"""
        return n.const is not None and n.const <= 0 or self.sign(n) in ("-", "0", "<=")

    def ispos(self, n):
        return n.const is not None and n.const > 0 or self.sign(n) == "+"

    def describe(self):
        return ", ".join(("" if v else "not ") + show(k, 3) for k, v in self.facts.items())


class TooMany(Exception):
    pass


def cases(fn, facts=None, limit=4000, splitmm=True):
    """Run fn(case) for every consistent assignment fn asks about; yields (case, result)."""
    stack = [Case(facts, splitmm)]
    n = 0
    while stack:
        c = stack.pop()
        try:
            r = fn(c)
        except Need as e:
            n += 1
            if n > limit:
                raise TooMany("more than %d cases" % limit)
            stack.append(c.child(e.key, False))
            stack.append(c.child(e.key, True))
            continue
        c.over = True       # what is still undecided stays so
        if r is not None:
            yield c, r
