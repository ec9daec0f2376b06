"""Meaning of the library calls (Armadillo, std) the analysed code uses."""
from fractions import Fraction
from terms import *
import terms as T

I = None   # interp module, filled in below


def _imp():
    global I
    if I is None:
        import interp
        I = interp
    return I


# --------------------------------------------------------------- matrices
def arma_default(t):
    i = _imp()
    if "Col<" in t:
        return i.MatV(0, 1, ())
    if "Row<" in t:
        return i.MatV(1, 0, ())
    return i.MatV(0, 0, ())


def iscol(t):
    return "arma::Col<" in t.split("(")[0]


def mat(r, c, f):
    i = _imp()
    return i.MatV(r, c, [f(a, b) for b in range(c) for a in range(r)])


def tr(m):
    return mat(m.c, m.r, lambda i, j: m.at(j, i))


def matmul(a, b):
    if a.c != b.r:
        return None
    def f(i, j):
        s = ZERO
        for k in range(a.c):
            s = add(s, mul(a.at(i, k), b.at(k, j)))
        return s
    return mat(a.r, b.c, f)


def emap(f, m):
    return _imp().MatV(m.r, m.c, [f(x) for x in m.e])


def ezip(f, a, b):
    return _imp().MatV(a.r, a.c, [f(x, y) for x, y in zip(a.e, b.e)])


def eye(r, c):
    return mat(r, c, lambda i, j: ONE if i == j else ZERO)


def gauss(A, Bm):
    """Exact solution of A X = B by elimination over the term field."""
    n = A.r
    a = [[A.at(i, j) for j in range(n)] + [Bm.at(i, j) for j in range(Bm.c)] for i in range(n)]
    for k in range(n):
        p = next((r for r in range(k, n) if a[r][k].fp != 0 and a[r][k].const is None or a[r][k].const), None)
        if p is None:
            return None
        a[k], a[p] = a[p], a[k]
        piv = a[k][k]
        a[k] = [div(x, piv) for x in a[k]]
        for r in range(n):
            if r != k and a[r][k].const != 0:
                f = a[r][k]
                a[r] = [sub(x, mul(f, y)) for x, y in zip(a[r], a[k])]
                a[r][k] = ZERO
    return mat(n, Bm.c, lambda i, j: a[i][n + j])


def lu(A):
    """P*A = L*U with a fixed cyclic permutation P (any row order may occur)."""
    n = A.r
    perm = [(i + 1) % n for i in range(n)]
    Pm = mat(n, n, lambda i, j: ONE if perm[i] == j else ZERO)
    a = [[A.at(perm[i], j) for j in range(n)] for i in range(n)]
    Lm = [[ONE if i == j else ZERO for j in range(n)] for i in range(n)]
    for k in range(n):
        if a[k][k].const == 0 or a[k][k].fp == 0:
            # this row order meets a zero pivot: use another one
            for r in range(k + 1, n):
                if a[r][k].const is None and a[r][k].fp or a[r][k].const:
                    a[k], a[r] = a[r], a[k]
                    perm[k], perm[r] = perm[r], perm[k]
                    for q in range(k):
                        Lm[k][q], Lm[r][q] = Lm[r][q], Lm[k][q]
                    break
            else:
                return None
        for r in range(k + 1, n):
            f = div(a[r][k], a[k][k])
            Lm[r][k] = f
            a[r] = [sub(x, mul(f, y)) for x, y in zip(a[r], a[k])]
            a[r][k] = ZERO
    Pm = mat(n, n, lambda i, j: ONE if perm[i] == j else ZERO)
    return mat(n, n, lambda i, j: Lm[i][j]), mat(n, n, lambda i, j: a[i][j] if j >= i else ZERO), Pm


def arma_field(it, v, name):
    i = _imp()
    if isinstance(v, i.IteV):
        return i.merge(v.c, arma_field(it, v.a, name), arma_field(it, v.b, name))
    if isinstance(v, i.RefV):
        v = v.lv
    if not isinstance(v, i.MatV):
        return it.top("matrix field " + name)
    if name == "n_rows":
        return v.r
    if name == "n_cols":
        return v.c
    if name == "n_elem":
        return v.n
    return it.top("matrix field " + name)


def unset(it, r, c):
    """A matrix whose elements were never set."""
    f, l, q = it.site()
    return _imp().MatV(r, c, [atom("undef:element %d of the matrix sized in %s line %s" % (k, q, l), taint=frozenset(["undef"])) for k in range(r * c)])


def view_get(it, v, s):
    i = _imp()
    if isinstance(v, i.IteV):
        return i.merge(v.c, view_get(it, v.a, s), view_get(it, v.b, s))
    if not isinstance(v, i.MatV):
        return it.top("view of %s" % type(v).__name__)
    idx = view_index(v, s)
    if idx is None:
        it.outside("submatrix %s of a %dx%d matrix" % (s[1:], v.r, v.c))
        return it.top("submatrix out of bounds")
    it.obligation("access")
    rows, cols = idx
    if s[1] == "diag":
        return i.MatV(len(rows), 1, [v.at(r, c) for r, c in zip(rows, cols)])
    return i.MatV(len(rows), len(cols), [v.at(r, c) for c in cols for r in rows])


def view_index(v, s):
    k, a = s[1], s[2:]
    if not all(isinstance(x, int) for x in a):
        return None
    if k == "col":
        r = (range(v.r), range(a[0], a[0] + 1))
    elif k == "row":
        r = (range(a[0], a[0] + 1), range(v.c))
    elif k == "subvec":
        r = (range(a[0], a[1] + 1), range(1)) if v.c == 1 else (range(1), range(a[0], a[1] + 1))
    elif k == "submat":
        r = (range(a[0], a[2] + 1), range(a[1], a[3] + 1))
    elif k == "cols":
        r = (range(v.r), range(a[0], a[1] + 1))
    elif k == "rows":
        r = (range(a[0], a[1] + 1), range(v.c))
    elif k == "diag":
        return (list(range(min(v.r, v.c))), list(range(min(v.r, v.c))))
    else:
        return None
    for x, n in zip(r, (v.r, v.c)):
        if len(x) and (x[0] < 0 or x[-1] >= n):
            return None
    return r


def view_set(it, v, s, val):
    i = _imp()
    if isinstance(val, i.RefV):
        return it.top("view store")
    if isinstance(v, i.IteV):
        return i.merge(v.c, view_set(it, v.a, s, val), view_set(it, v.b, s, val))
    if not isinstance(v, i.MatV):
        return it.top("view store")
    idx = view_index(v, s)
    if idx is None:
        it.outside("write to submatrix %s of a %dx%d matrix" % (s[1:], v.r, v.c))
        return it.top("submatrix out of bounds")
    it.obligation("access")
    rows, cols = idx
    cells = list(zip(rows, cols)) if s[1] == "diag" else [(r, c) for c in cols for r in rows]
    if isinstance(val, i.IteV):
        return i.merge(val.c, view_set(it, v, s, val.a), view_set(it, v, s, val.b))
    if isinstance(val, (int, Node)):
        val = i.MatV(len(cells), 1, [num(val)] * len(cells))
    if not isinstance(val, i.MatV) or val.n != len(cells):
        if isinstance(val, i.MatV):
            it.outside("assignment of %d elements to a part of %d" % (val.n, len(cells)))
        return it.top("view store of wrong size")
    e = list(v.e)
    for (r, c), x in zip(cells, val.e):
        e[r + c * v.r] = x
    return i.MatV(v.r, v.c, e)


def mapkeys(m):
    return sorted(m.d, key=lambda k: (str(type(k)), k))


def mapstep(m, pos, d):
    """Position of a map iterator one element on (d = 1) or back."""
    i = _imp()
    ks = mapkeys(m) if isinstance(m, i.MapV) else []
    k = len(ks) if pos[0] == "end" else ks.index(pos[1]) if pos[1] in ks else None
    if k is None or not 0 <= k + d <= len(ks):
        return None
    return ("key", ks[k + d]) if k + d < len(ks) else ("end",)


def range_elems(it, v, lv):
    i = _imp()
    if isinstance(v, i.ArrV):
        return [lv.sub(("i", k)) for k in range(len(v.e))]
    if isinstance(v, i.MatV):
        return [lv.sub(("i", k)) for k in range(v.n)]
    if isinstance(v, i.VecV) and v.concrete():
        return [lv.sub(("i", k)) for k in range(len(v.items))]
    if isinstance(v, i.MapV):
        return [i.StructV("pair", {"first": k, "second": x}) for k, x in sorted(v.d.items(), key=lambda z: (str(type(z[0])), z[0]))]
    if isinstance(v, str):
        return [ord(c) for c in v]
    return None


def deref(it, p, st):
    i = _imp()
    if isinstance(p.pos, tuple) and p.pos[0] == "key":
        m = it.load(st, p.lv)
        k = p.pos[1]
        if isinstance(m, i.MapV) and k in m.d:
            loc = ("deref", repr(p.lv), k)
            st.mem[loc] = i.StructV("pair", {"first": k, "second": m.d[k]})
            return i.LV(loc)
    if isinstance(p.pos, int):
        return p.lv.sub(("i", p.pos))
    if isinstance(p.pos, tuple) and p.pos[0] == "end":
        it.outside("dereference of a past-the-end iterator")
    loc = ("deref", "bad")
    st.mem[loc] = it.top("dereference of an iterator")
    return i.LV(loc)


ARITH = {"arma::operator+": "+", "arma::operator-": "-", "arma::operator*": "*", "arma::operator/": "/", "arma::operator%": "%"}


def marith(it, op, a, b):
    i = _imp()
    if isinstance(a, i.IteV):
        return i.merge(a.c, marith(it, op, a.a, b), marith(it, op, a.b, b))
    if isinstance(b, i.IteV):
        return i.merge(b.c, marith(it, op, a, b.a), marith(it, op, a, b.b))
    am, bm = isinstance(a, i.MatV), isinstance(b, i.MatV)
    if am and bm:
        it.obligation("access")
    if isinstance(a, (i.Top, i.UnkV)) or isinstance(b, (i.Top, i.UnkV)) or not (am or bm):
        w = a if isinstance(a, i.Top) else b if isinstance(b, i.Top) else None
        return w or it.top("matrix arithmetic on %s, %s" % (type(a).__name__, type(b).__name__))
    if am and bm:
        if op == "*":
            if a.n == 1 and a.c != b.r:
                return emap(lambda x: mul(a.e[0], x), b)
            if b.n == 1 and a.c != b.r:
                return emap(lambda x: mul(x, b.e[0]), a)
            r = matmul(a, b)
            if r is None:
                it.outside("product of a %dx%d and a %dx%d matrix" % (a.r, a.c, b.r, b.c))
                return it.top("matrix product of incompatible sizes")
            return r
        if (a.r, a.c) != (b.r, b.c):
            it.outside("elementwise %s of a %dx%d and a %dx%d matrix" % (op, a.r, a.c, b.r, b.c))
            return it.top("matrix sizes differ")
        return ezip({"+": add, "-": sub, "%": mul, "/": div}[op], a, b)
    f = {"+": add, "-": sub, "*": mul, "/": div}.get(op)
    if f is None:
        return it.top("matrix op " + op)
    if am:
        y = i.N(b)
        return emap(lambda x: f(x, y), a)
    x = i.N(a)
    return emap(lambda y: f(x, y), b)


def vmax(es):
    r = es[0]
    for x in es[1:]:
        r = maxn(r, x)
    return r


def vmin(es):
    r = es[0]
    for x in es[1:]:
        r = minn(r, x)
    return r


def dot(a, b):
    s = ZERO
    for x, y in zip(a.e, b.e):
        s = add(s, mul(x, y))
    return s


def ilist(v):
    """nested ArrV -> MatV (rows) or flat list"""
    i = _imp()
    if isinstance(v, i.ArrV):
        if v.e and all(isinstance(x, i.ArrV) for x in v.e):
            r, c = len(v.e), max(len(x.e) for x in v.e)
            return mat(r, c, lambda a, b: num(i.N(v.e[a].e[b])) if b < len(v.e[a].e) else ZERO)
        return [i.N(x) for x in v.e]
    return None


def from_ilist(v, t):
    i = _imp()
    x = ilist(v)
    if isinstance(x, list):
        if iscol(t):
            return i.MatV(len(x), 1, x)
        return i.MatV(1, len(x), x)
    return x


# complex numbers are terms over this atom; products of it with itself are not reduced, so
# equal terms are equal numbers, and terms that differ only by IM*IM = -1 count as different
IM = atom("im")


def construct(it, e, t, st, fr):
    i = _imp()
    an = e["args"]
    if t.startswith("arma::"):
        pt = e["ref"]["pt"]
        vals = [it.rv(it.ev(a, st, fr), st) for a in an]
        if not vals:
            return arma_default(t)
        v = vals[0]
        if isinstance(v, i.ArrV):
            r = from_ilist(v, t)
            return r if r is not None else it.top("initializer list", e)
        if isinstance(v, (i.MatV, i.IteV, i.Top, i.UnkV)):
            if isinstance(v, i.MatV) and len(vals) == 1:
                if iscol(t) and v.c != 1 and v.n:
                    return it.top("matrix to column", e)
                return v
            if len(vals) == 1:
                return v
        fills = [x for x in vals if isinstance(x, str) and x.startswith("fill:")]
        dims = [i._int(x) for x in vals if isinstance(x, (int, Node)) and not isinstance(x, bool)]
        if "double *" in (pt[0] if pt else "") or "const double *" in (pt[0] if pt else ""):
            return it.top("matrix over raw memory", e)
        if dims and all(isinstance(d, int) for d in dims) and len(dims) + len(fills) >= len([x for x in vals]):
            if iscol(t):
                r, c = dims[0], 1
            elif "Row<" in t.split("(")[0]:
                r, c = 1, dims[0]
            elif len(dims) == 2:
                r, c = dims
            else:
                r, c = dims[0], 1
            if r < 0 or c < 0 or r * c > 4000:
                return it.top("matrix size", e)
            f = fills[0][5:] if fills else "zeros"
            if f == "eye":
                return eye(r, c)
            if f == "ones":
                return i.MatV(r, c, [ONE] * (r * c))
            if f == "zeros":
                return i.MatV(r, c, [ZERO] * (r * c))
            if f == "none":
                return unset(it, r, c)
            return it.top("fill " + f, e)
        return it.top("matrix constructor", e)
    if i.is_stdvec(t) or t.startswith("std::deque<") or t.startswith("std::list<"):
        vals = [it.ev(a, st, fr) for a in an if not a["t"].startswith("std::allocator") and not a["t"].startswith("const std::allocator")]
        vals = [it.rv(v, st) if isinstance(v, i.RefV) else v for v in vals]
        el = i.targs(t)[0]
        if not vals:
            return i.VecV()
        v = vals[0]
        if isinstance(v, i.ArrV):
            return i.VecV([(TRUE, it.coerce(x, el, st)) for x in v.e])
        if isinstance(v, i.VecV):
            return v
        if isinstance(v, (i.IterV, i.LV)) and len(vals) == 2:
            r = iter_slice(it, st, v, vals[1])
            if isinstance(r, tuple):
                return r[1]
            if r is not None:
                return i.VecV(r)
            return it.top("vector from iterators", e)
        n = i._int(v)
        if isinstance(n, int) and 0 <= n <= 4000:
            if len(vals) > 1:
                x = it.coerce(vals[1], el, st)
            else:
                rec = it.db.rec(el, fr.tu)
                x = it.construct_default(el, st, fr, e, True) if rec else it.default(el, fr.tu, "elem", zero=True)
            return i.VecV([(TRUE, x)] * n)
        return it.top("vector constructor", e)
    if t.startswith("std::complex<"):
        vals = [it.rv(it.ev(a, st, fr), st) for a in an]
        if not all(isinstance(v, (int, Node)) for v in vals):
            return it.top("complex number", e)
        vals = [i.N(v) for v in vals]
        return ZERO if not vals else vals[0] if len(vals) == 1 else add(vals[0], mul(vals[1], IM))
    if t.startswith("std::map<") or t.startswith("std::unordered_map<"):
        vals = [it.ev(a, st, fr) for a in an if not i.clean(a["t"]).startswith(("std::allocator<", "std::less<", "std::hash<", "std::equal_to<"))]
        d = {}
        if vals:
            if isinstance(vals[0], i.MapV):
                return vals[0]
            if not isinstance(vals[0], i.ArrV):
                return it.top("map constructor", e)
            for p in vals[0].e:
                if isinstance(p, i.StructV) and isinstance(p.f.get("first"), (int, str)):
                    d.setdefault(p.f["first"], p.f["second"])
                else:
                    return it.top("map entry", e)
        return i.MapV(d, t)
    if t.startswith("std::pair<"):
        vals = [it.ev(a, st, fr) for a in an]
        if len(vals) == 2:
            a = i.targs(t)
            return i.StructV(t, {"first": it.coerce(vals[0], a[0], st), "second": it.coerce(vals[1], a[1], st)})
        if len(vals) == 1 and isinstance(vals[0], i.StructV):
            return vals[0]
        return it.default(t, fr.tu, "pair")
    if i.is_string(t):
        vals = [it.ev(a, st, fr) for a in an if not i.clean(a["t"]).startswith("std::allocator<")]
        if not vals:
            return ""
        if isinstance(vals[0], str):
            return vals[0]
        if len(vals) == 1 and isinstance(vals[0], Node) and vals[0].op == "uf" and vals[0].args[0].startswith("elem:"):
            return vals[0]      # an opaque string
        if isinstance(vals[0], int) and len(vals) == 2 and isinstance(vals[1], int):
            return chr(vals[1]) * vals[0]
        return it.top("string constructor", e)
    if t.startswith("std::function<"):
        vals = [it.ev(a, st, fr) for a in an]
        return vals[0] if vals else i.NULL
    if t.startswith("std::initializer_list"):
        return it.ev(an[0], st, fr) if an else i.ArrV([])
    if t.startswith("std::array<"):
        return it.ev(an[0], st, fr) if an else it.default(t, fr.tu, "array")
    if i.is_stream(t):
        return i.VecV(kind="stream")
    vals = [it.ev(a, st, fr) for a in an]
    if t.startswith("std::allocator") or t.startswith("std::less"):
        return i.StructV(t, {})
    if (e.get("copy") or "iterator" in t.split("<")[0].lower()) and vals:
        return vals[0]
    if not vals:
        return it.default(t, fr.tu, "object of " + t)
    if len(vals) == 1 and isinstance(vals[0], i.StructV) and i.clean(vals[0].cls) == t:
        return vals[0]
    return it.top("constructor of " + t, e)


def iter_slice(it, st, a, b):
    i = _imp()
    def norm(x):
        if isinstance(x, i.IterV) and isinstance(x.pos, int):
            return x.lv, x.pos
        if isinstance(x, i.IterV):
            return x.lv, x.pos
        if isinstance(x, i.LV):
            if x.path and x.path[-1][0] == "i":
                return i.LV(x.loc, x.path[:-1]), x.path[-1][1]
            return x, 0
        return None, None
    la, pa = norm(a)
    lb, pb = norm(b)
    if la is None or la != lb:
        return None
    v = it.load(st, la)
    if isinstance(v, i.VecV):
        if isinstance(pa, int) and pa == 0 and same_len(pb, v):
            return "whole", v
        if v.concrete() and isinstance(pa, int) and isinstance(pb, int):
            return list(v.items[pa:pb])
        return None
    if isinstance(v, (i.ArrV, i.MatV)) and isinstance(pa, int) and isinstance(pb, int):
        return [(TRUE, x) for x in v.e[pa:pb]]
    return None


def same_len(p, v):
    i = _imp()
    n = v.length()
    if isinstance(n, int) and isinstance(p, int):
        return n == p
    try:
        return num(n) is num(p)
    except Exception:
        return False


def size_of(it, v):
    i = _imp()
    if isinstance(v, i.IteV):
        return i.merge(v.c, size_of(it, v.a), size_of(it, v.b))
    if isinstance(v, i.MatV):
        return v.n
    if isinstance(v, i.VecV):
        return v.length()
    if isinstance(v, i.ArrV):
        return len(v.e)
    if isinstance(v, str):
        return len(v)
    if isinstance(v, i.MapV):
        return len(v.d)
    return it.top("size of %s" % type(v).__name__)


def call(it, e, ref, this, an, st, fr):
    """Call of a function without analysed body."""
    i = _imp()
    q = ref["q"]
    name = q.rsplit("::", 1)[-1]
    pt = ref["pt"]
    if q.startswith("std::operator") or q.startswith("operator") or "operator" in name:
        r = operator(it, e, ref, this, an, st, fr, q, name)
        if r is not NotImplemented:
            return r
    if this is not None or ref.get("method") and not ref.get("static"):
        r = method(it, e, ref, this, an, st, fr, q, name)
        if r is not NotImplemented:
            return r
        return unknown(it, e, q, this, an, pt, st, fr)
    if ref.get("noreturn"):
        raise i.Dead()
    r = free(it, e, ref, an, st, fr, q, name)
    if r is not NotImplemented:
        return r
    return unknown(it, e, q, None, an, pt, st, fr)


def unknown(it, e, q, this, an, pt, st, fr):
    i = _imp()
    for k, a in enumerate(an):
        p = pt[k] if k < len(pt) else ""
        if p.rstrip().endswith("&") and not p.startswith("const") and a.get("lv"):
            lv = it.lval(a, st, fr)
            it.store(st, lv, it.top("modified by " + q, e))
        else:
            it.ev(a, st, fr)
    if isinstance(this, i.LV) and not (e.get("ref") or {}).get("const"):
        v = it.load(st, this)
        if not isinstance(v, i.VecV) or v.kind != "stream":
            it.store(st, this, it.top("modified by " + q, e))
    return it.top("call of " + q, e)


def operator(it, e, ref, this, an, st, fr, q, name):
    i = _imp()
    op = name[len("operator"):].strip()
    if q in ARITH and len(an) == 2:
        a = it.rv(it.ev(an[0], st, fr), st)
        b = it.rv(it.ev(an[1], st, fr), st)
        return marith(it, op, a, b)
    if q in ("arma::operator-", "arma::operator+") and len(an) == 1:
        a = it.rv(it.ev(an[0], st, fr), st)
        if isinstance(a, (i.MatV, i.IteV)):
            return i._neg(a) if op == "-" else a
        return it.top("unary on matrix", e)
    if op in ("<<", ">>"):
        # stream insertion
        if this is not None:
            s = this
            rest = an
        else:
            s = it.lval(an[0], st, fr)
            rest = an[1:]
        sv = it.load(st, s) if not (isinstance(s, i.LV) and isinstance(s.loc, str) and s.loc.startswith("G:")) else None
        while isinstance(sv, i.RefV) and isinstance(sv.lv, i.LV):
            s, sv = sv.lv, it.load(st, sv.lv)
        if isinstance(sv, i.MatV) or (i.is_arma(an[0]["t"]) and not i.is_stream(an[0]["t"])):
            return it.top("matrix <<", e)
        v = it.ev(rest[0], st, fr) if rest else None
        if isinstance(v, i.RefV):
            v = it.load(st, v.lv)
        if isinstance(s, i.LV) and isinstance(s.loc, str) and s.loc.startswith("G:"):
            it.event(st, "print", s.loc)
            return s
        if isinstance(sv, i.VecV):
            if isinstance(v, i.FnV):
                nm = v.ref["q"].rsplit("::", 1)[-1]
                v = "\n" if nm == "endl" else None if nm == "flush" else v
            if v is not None and not (isinstance(v, i.StructV) and v.cls == "manip"):
                if isinstance(v, int) and not isinstance(v, bool) and rest and i.clean(rest[0]["t"]) == "char":
                    v = chr(v)
                it.store(st, s, sv.push(v))
            return s
        return s
    if op in ("==", "!=", "<", ">", "<=", ">="):
        args = ([this] if this is not None else []) + list(an)
        vals = []
        for a in args:
            v = it.load(st, a) if isinstance(a, i.LV) else it.ev(a, st, fr)
            vals.append(it.load(st, v.lv) if isinstance(v, i.RefV) else v)
        if len(vals) == 2:
            a, b = vals
            if isinstance(a, (i.MatV, i.VecV)):
                return it.top("container comparison", e)
            if isinstance(a, str) and isinstance(b, str):
                return {"==": a == b, "!=": a != b, "<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
            return it.arith(op, a, b, "bool", e)
    if q.startswith("std::operator") and op in ("+", "-", "*", "/") and this is None and any(i.clean(a["t"]).startswith("std::complex<") for a in an):
        vals = [it.rv(it.ev(a, st, fr), st) for a in an]
        if not all(isinstance(v, (int, Node)) for v in vals):
            return it.top("complex arithmetic", e)
        vals = [i.N(v) for v in vals]
        if len(vals) == 1:
            return i._neg(vals[0]) if op == "-" else vals[0]
        return {"+": add, "-": sub, "*": mul, "/": div}[op](*vals)
    if op == "+" and len(an) == 2 and this is None:
        a, b = it.ev(an[0], st, fr), it.ev(an[1], st, fr)
        if isinstance(a, str) and isinstance(b, int):
            b = chr(b)
        if isinstance(b, str) and isinstance(a, int):
            a = chr(a)
        if isinstance(a, str) and isinstance(b, str):
            return a + b
        if isinstance(a, i.IterV):
            return it.arith("+", a, b, "", e)
        return it.top("operator+", e)
    if op in ("|", "&") and len(an) == 2 and this is None:
        return it.arith(op, it.ev(an[0], st, fr), it.ev(an[1], st, fr), "int", e)
    if op == "-" and len(an) == 2 and this is None:
        return it.arith("-", it.ev(an[0], st, fr), it.ev(an[1], st, fr), "long", e)
    return NotImplemented


def method(it, e, ref, this, an, st, fr, q, name):
    i = _imp()
    tv = None
    if isinstance(this, i.LV):
        if isinstance(this.loc, str) and this.loc.startswith("G:"):
            if name.startswith("operator<<"):
                for a in an:
                    it.ev(a, st, fr)
            if name.startswith("operator<<") or name in ("write", "put"):
                it.event(st, "print", this.loc)
            return this
        tv = it.load(st, this)
        while isinstance(tv, i.RefV):
            this = tv.lv
            tv = it.load(st, this)
    elif isinstance(this, i.IteV):
        tv = it.load(st, this)
        if name in ("size", "begin", "end") or ref.get("const"):
            pass
        else:
            return NotImplemented
    else:
        tv = this
        if isinstance(tv, i.RefV):
            this = tv.lv
            tv = it.load(st, this)
    vals = None

    def ev(k=None):
        nonlocal vals
        if vals is None:
            vals = [it.rv(it.ev(a, st, fr), st) for a in an]
            vals = [i._int(v) if isinstance(v, Node) and not v.isbool else v for v in vals]
        return vals if k is None else vals[k]
    cls = i.clean(ref.get("cls", ""))
    if isinstance(tv, (i.Top, i.UnkV)):
        ev()
        if (name in ("zeros", "ones", "eye", "set_size", "resize", "clear") or name == "operator=") and (cls.startswith("arma::") or cls.startswith("std::")):
            tv = arma_default(cls) if cls.startswith("arma::") else it.default(cls, fr.tu, "x")
            if isinstance(tv, i.MatV) and name == "resize":
                return NotImplemented
        else:
            if not ref.get("const"):
                it.store(st, this, it.top("modified by " + q, e))
            return Top_(it, tv)
    if name == "operator=":
        v = vals[0] if vals is not None else it.ev(an[0], st, fr)
        v = it.load(st, v.lv) if isinstance(v, i.RefV) else v
        it.moveout(an[0], ref, 0, st, fr)
        if isinstance(v, i.ArrV) and isinstance(tv, i.MatV):
            v = from_ilist(v, cls)
        elif isinstance(v, i.ArrV) and isinstance(tv, i.VecV):
            v = i.VecV([(TRUE, x) for x in v.e])
        it.store(st, this, v)
        return this
    if cls.startswith("std::reference_wrapper") and name == "get":
        return tv
    if isinstance(tv, i.IterV) or cls.startswith("__gnu_cxx::__normal_iterator") or "iterator" in cls.split("<")[0].lower():
        if name == "operator*":
            return deref(it, tv, st)
        if name == "operator->":
            return deref(it, tv, st)
        if name in ("operator++", "operator--"):
            it.incdec(this, name[-2:], st)
            return this if not an else tv
        if name in ("operator+", "operator-") and an:
            return it.arith(name[-1], tv, ev(0), "", e)
        if name == "operator[]" and isinstance(tv, i.IterV) and isinstance(tv.pos, int) and isinstance(ev(0), int):
            return tv.lv.sub(("i", tv.pos + ev(0)))
        if name in ("operator+=", "operator-="):
            it.store(st, this, it.arith(name[8], tv, ev(0), "", e))
            return this
        return NotImplemented
    if isinstance(tv, i.MatV) or cls.startswith("arma::"):
        return arma_method(it, e, ref, this, tv, an, ev, st, fr, name, cls)
    if isinstance(tv, i.IteV) and name == "size":
        return size_of(it, tv)
    if isinstance(tv, i.VecV) and tv.kind == "stream" or i.is_stream(cls) or cls.startswith("std::basic_ios") or cls.startswith("std::ios_base"):
        ev()
        if name in ("operator<<",):
            return operator(it, e, ref, this, an, st, fr, q, name)
        if name == "str":
            return it.top("stringstream contents")
        if name in ("flush", "precision", "width", "setf", "unsetf", "flags", "fill", "put", "write"):
            if name in ("put", "write") and isinstance(tv, i.VecV):
                v = vals[0]
                it.store(st, this, tv.push(chr(v) if isinstance(v, int) else v))
            return this
        return this
    if isinstance(tv, i.VecV):
        return vec_method(it, e, ref, this, tv, an, ev, st, fr, name)
    if isinstance(tv, i.ArrV):
        if name in ("operator[]", "at"):
            return this.sub(("i", ev(0)))
        if name == "size":
            return len(tv.e)
        if name in ("begin", "cbegin"):
            return this.sub(("i", 0))
        if name in ("end", "cend"):
            return this.sub(("i", len(tv.e)))
        if name == "data":
            return this.sub(("i", 0))
        if name == "fill":
            it.store(st, this, i.ArrV([ev(0)] * len(tv.e)))
            return None
        if name == "front":
            return this.sub(("i", 0))
        if name == "back":
            return this.sub(("i", len(tv.e) - 1))
    if isinstance(tv, i.MapV):
        if name in ("find",):
            k = ev(0)
            if isinstance(k, (int, str)):
                return i.IterV(this, ("key", k) if k in tv.d else ("end",))
            return it.top("map lookup with unknown key", e)
        if name in ("end", "cend"):
            return i.IterV(this, ("end",))
        if name in ("begin", "cbegin"):
            ks = mapkeys(tv)
            return i.IterV(this, ("key", ks[0]) if ks else ("end",))
        if name in ("count", "contains"):
            k = ev(0)
            return (1 if k in tv.d else 0) if isinstance(k, (int, str)) else it.top("map count", e)
        if name == "at":
            k = ev(0)
            if isinstance(k, (int, str)) and k in tv.d:
                return tv.d[k]
            raise i.Dead()
        if name == "operator[]":
            k = ev(0)
            if isinstance(k, (int, str)):
                if k not in tv.d:
                    d = dict(tv.d)
                    vt = i.targs(tv.t)
                    d[k] = it.default(vt[1], fr.tu, "map", zero=True) if len(vt) > 1 else it.top("map value")
                    it.store(st, this, i.MapV(d, tv.t))
                    it.event(st, "mapinsert", k)
                    return d[k]
                return tv.d[k]
            return it.top("map [] with unknown key", e)
        if name == "size":
            return len(tv.d)
        if name == "empty":
            return not tv.d
    if isinstance(tv, str):
        if name in ("c_str", "data"):
            return tv
        if name in ("size", "length"):
            return len(tv)
        if name == "empty":
            return tv == ""
        if name == "operator[]" and isinstance(ev(0), int):
            return ord(tv[ev(0)]) if ev(0) < len(tv) else 0
        if name in ("append", "operator+="):
            v = ev()
            if len(v) == 1 and isinstance(v[0], str):
                it.store(st, this, tv + v[0])
                return this
            if len(v) == 1 and isinstance(v[0], int):
                it.store(st, this, tv + chr(v[0]))
                return this
        if name == "compare" and isinstance(ev(0), str):
            return (tv > ev(0)) - (tv < ev(0))
        if name == "find" and isinstance(ev(0), str):
            return tv.find(ev(0)) % (1 << 64)
    if isinstance(tv, (i.ClosV, i.FnV)) and name == "operator()":
        return it.call_value(tv, an, st, fr, e)
    return NotImplemented


def Top_(it, v):
    i = _imp()
    return v if isinstance(v, i.Top) else i.Top("value of unknown shape")


def vec_method(it, e, ref, this, tv, an, ev, st, fr, name):
    i = _imp()
    if name in ("push_back", "emplace_back"):
        if name == "emplace_back" and len(an) != 1:
            return NotImplemented
        v = it.ev(an[0], st, fr)
        v = it.load(st, v.lv) if isinstance(v, i.RefV) else v
        cl = i.targs(ref.get("cls", ""))
        if cl:
            v = it.coerce(v, cl[0], st)
            if isinstance(v, int) and i.isflt_t(cl[0]):
                v = num(v)
        it.moveout(an[0], ref, 0, st, fr)
        it.store(st, this, tv.push(v))
        return None
    if name == "size":
        return tv.length()
    if name == "empty":
        n = tv.length()
        return n == 0 if isinstance(n, int) else i.unbool(eq0(n))
    if name in ("operator[]", "at"):
        it.obligation("access")
        return this.sub(("i", ev(0)))
    if name == "back":
        n = tv.length()
        return this.sub(("i", n - 1 if isinstance(n, int) else i._int(sub(n, 1))))
    if name == "front":
        return this.sub(("i", 0))
    if name == "data":
        return this.sub(("i", 0))
    if name in ("begin", "cbegin"):
        return i.IterV(this, 0)
    if name in ("end", "cend"):
        return i.IterV(this, tv.length())
    if name in ("reserve", "shrink_to_fit"):
        ev()
        return None
    if name == "clear":
        it.store(st, this, i.VecV((), None, 0, tv.proto, tv.kind))
        return None
    if name == "pop_back":
        if tv.items and tv.items[-1][0] is TRUE:
            it.store(st, this, i.VecV(tv.items[:-1], tv.pre, tv.plen, tv.proto, tv.kind))
            return None
        return NotImplemented
    if name in ("resize", "assign"):
        v = ev()
        n = v[0]
        if tv.concrete() and isinstance(n, int) and 0 <= n <= 4000:
            cl = i.targs(ref.get("cls", ""))
            el = cl[0] if cl else "double"
            x = v[1] if len(v) > 1 else it.default(el, fr.tu, "elem", zero=True)
            items = [] if name == "assign" else list(tv.items[:n])
            items += [(TRUE, x)] * (n - len(items))
            it.store(st, this, i.VecV(items, None, 0, tv.proto, tv.kind))
            return None
        return NotImplemented
    if name == "swap":
        o = it.lval(an[0], st, fr)
        ov = it.load(st, o)
        it.store(st, this, ov)
        it.store(st, o, tv)
        return None
    if name == "insert":
        v = [it.ev(a, st, fr) for a in an]
        if len(v) == 3 and isinstance(v[0], i.IterV):
            src = iter_slice(it, st, v[1], v[2])
            if src is None:
                return NotImplemented
            if same_len(v[0].pos, tv):
                if isinstance(src, tuple):
                    sv = src[1]
                    if sv.pre is None:
                        it.store(st, this, i.VecV(tv.items + sv.items, tv.pre, tv.plen, tv.proto, tv.kind))
                    else:
                        it.store(st, this, i.VecV(tv.items + ((TRUE, ("all", sv)),), tv.pre, tv.plen, tv.proto, tv.kind))
                else:
                    it.store(st, this, i.VecV(tv.items + tuple(src), tv.pre, tv.plen, tv.proto, tv.kind))
                return None
            if tv.concrete() and isinstance(v[0].pos, int):
                items = list(src[1].items) if isinstance(src, tuple) else list(src)
                p = v[0].pos
                it.store(st, this, i.VecV(tv.items[:p] + tuple(items) + tv.items[p:]))
                return None
        return NotImplemented
    return NotImplemented


def arma_method(it, e, ref, this, tv, an, ev, st, fr, name, cls):
    i = _imp()
    if isinstance(tv, i.IteV):
        if name in ("size", "n_elem"):
            return size_of(it, tv)
        if name in ("is_empty", "empty"):
            n = size_of(it, tv)
            return n == 0 if isinstance(n, int) else eq0(n) if isinstance(n, Node) else n
    if name in ("size",):
        return size_of(it, tv)
    if isinstance(tv, (int, Node)):
        tv = i.MatV(1, 1, [num(tv)])
    if not isinstance(tv, i.MatV):
        return NotImplemented
    lv = this if isinstance(this, i.LV) else None
    if lv is None:
        lv = it.temp(tv, e, st, fr)
    if name in ("operator()", "operator[]", "at"):
        it.obligation("access")
        v = ev()
        if len(v) == 1 and isinstance(v[0], (int, Node)):
            return lv.sub(("i", v[0]))
        if len(v) == 2 and all(isinstance(x, (int, Node)) for x in v):
            return lv.sub(("m", v[0], v[1]))
        return NotImplemented
    if name in ("col", "row", "subvec", "submat", "cols", "rows"):
        it.obligation("access")
        v = ev()
        if all(isinstance(x, int) for x in v):
            return i.ViewV(lv.sub(("view", name) + tuple(v)))
        return NotImplemented
    if name in ("unsafe_col",):
        return i.ViewV(lv.sub(("view", "col", ev(0))))
    if name == "head" and isinstance(ev(0), int):
        return i.ViewV(lv.sub(("view", "subvec", 0, ev(0) - 1)))
    if name == "tail" and isinstance(ev(0), int):
        return i.ViewV(lv.sub(("view", "subvec", tv.n - ev(0), tv.n - 1)))
    if name == "diag" and not an:
        return i.ViewV(lv.sub(("view", "diag")))
    if name in ("t", "st"):
        return tr(tv)
    if name == "i":
        r = gauss(tv, eye(tv.r, tv.r))
        return r if r is not None else it.top("singular matrix")
    if name in ("operator+=", "operator-=", "operator*=", "operator/=", "operator%="):
        b = it.rv(it.ev(an[0], st, fr), st)
        it.store(st, lv, marith(it, name[8], tv, b))
        return lv
    if name in ("zeros", "ones", "eye", "set_size", "resize", "reshape"):
        v = ev()
        if not all(isinstance(x, int) for x in v):
            return NotImplemented
        if not v:
            r, c = tv.r, tv.c
        elif len(v) == 1:
            r, c = (1, v[0]) if "Row<" in cls.split("(")[0] else (v[0], 1)
        else:
            r, c = v[0], v[1]
        if name == "eye":
            n = eye(r, c)
        elif name == "ones":
            n = i.MatV(r, c, [ONE] * (r * c))
        elif name == "reshape":
            n = i.MatV(r, c, (list(tv.e) + [ZERO] * (r * c))[:r * c])
        elif name == "resize":
            n = mat(r, c, lambda a, b: tv.at(a, b) if a < tv.r and b < tv.c else ZERO)
        elif name == "set_size" and (r, c) == (tv.r, tv.c):
            n = tv
        elif name == "set_size":
            n = unset(it, r, c)
        else:
            n = i.MatV(r, c, [ZERO] * (r * c))
        it.store(st, lv, n)
        return lv
    if name == "fill":
        it.store(st, lv, i.MatV(tv.r, tv.c, [i.N(ev(0))] * tv.n))
        return lv
    if name in ("max", "min") and not an and tv.n:
        return (vmax if name == "max" else vmin)(tv.e)
    if name in ("is_empty", "empty"):
        return tv.n == 0
    if name in ("is_finite", "has_nan", "has_inf"):
        b = batom("isfinite", *tv.e)
        return b if name == "is_finite" else notn(b)
    if name in ("begin", "cbegin"):
        return lv.sub(("i", 0))
    if name in ("end", "cend"):
        return lv.sub(("i", tv.n))
    if name == "memptr":
        return lv.sub(("i", 0))
    if name in ("reset", "clear"):
        it.store(st, lv, arma_default(cls))
        return None
    if name == "n_rows":
        return tv.r
    if name in ("eval", "as_col"):
        return tv if name == "eval" else i.MatV(tv.n, 1, tv.e)
    if name == "as_row":
        return i.MatV(1, tv.n, tv.e)
    if name == "is_square":
        return tv.r == tv.c
    if name == "swap":
        o = it.lval(an[0], st, fr)
        ov = it.load(st, o)
        it.store(st, lv, ov)
        it.store(st, o, tv)
        return None
    if name == "print" or name == "raw_print":
        return None
    return NotImplemented


MATH1 = {"fabs": absn, "sqrt": sqrt}


def free(it, e, ref, an, st, fr, q, name):
    i = _imp()
    ns = q.split("::")[0] if "::" in q else ""
    if ns == "arma":
        return arma_free(it, e, ref, an, st, fr, name)
    if name in ("move", "forward", "as_const") and len(an) == 1:
        return it.lval(an[0], st, fr) if an[0].get("lv") else it.ev(an[0], st, fr)
    if name in ("ref", "cref") and len(an) == 1:
        return it.lval(an[0], st, fr)
    if name == "addressof":
        return it.lval(an[0], st, fr)
    if name in ("min", "max", "fmin", "fmax") and len(an) >= 1:
        vals = [it.ev(a, st, fr) for a in an]
        if len(vals) == 1 and isinstance(vals[0], i.ArrV):
            vals = list(vals[0].e)
        if len(vals) >= 2 and all(isinstance(v, (int, Node, i.IteV)) for v in vals[:2]):
            vs = vals[:2] if len(an) >= 2 else vals
            if all(isinstance(v, int) for v in vs):
                return (min if "min" in name else max)(vs)
            vs = [i.N(v) for v in vs]
            r = (vmin if "min" in name else vmax)(vs)
            return i._int(r) if i.isint_t(ref["rt"]) else r
        return it.top("min/max", e)
    if name in ("abs", "fabs", "sqrt", "exp", "log", "sin", "cos", "tan", "log10", "cbrt", "fabsf", "labs", "llabs", "floor", "ceil", "round", "trunc", "exp2", "log2", "tanh", "sinh", "cosh", "atan", "asin", "acos", "expm1", "log1p", "lround", "nearbyint", "rint") and len(an) == 1:
        v = it.ev(an[0], st, fr)
        if isinstance(v, i.MatV):
            return it.top("math on matrix", e)
        if isinstance(v, int) and name in ("abs", "labs", "llabs"):
            return abs(v)
        n = i.N(v)
        if name in ("abs", "fabs", "fabsf", "labs", "llabs"):
            return absn(n)
        if name == "sqrt":
            return sqrt(n)
        if name == "exp":
            if n.const == 0:
                return ONE
            return uf("exp", n, positive=True)
        if n.const is not None and name in ("floor", "ceil", "trunc"):
            import math
            return const(getattr(math, name)(n.const))
        return uf(name, n)
    if name in ("pow", "powf", "powi", "__builtin_pow"):
        return pown(i.N(it.ev(an[0], st, fr)), i.N(it.ev(an[1], st, fr)))
    if name == "hypot":
        a, b = i.N(it.ev(an[0], st, fr)), i.N(it.ev(an[1], st, fr))
        return sqrt(add(mul(a, a), mul(b, b)))
    if name in ("fmod", "atan2"):
        return uf(name, i.N(it.ev(an[0], st, fr)), i.N(it.ev(an[1], st, fr)))
    if name == "fma":
        a, b, c = [i.N(it.ev(x, st, fr)) for x in an]
        return add(mul(a, b), c)
    if name in ("isfinite", "__builtin_isfinite"):
        return batom("isfinite", i.N(it.ev(an[0], st, fr)))
    if name in ("isnan", "__builtin_isnan", "isinf", "__builtin_isinf", "__builtin_isinf_sign"):
        return batom(name.replace("__builtin_", ""), i.N(it.ev(an[0], st, fr)))
    if name == "copysign":
        return it.top("copysign", e)
    if name in ("setw", "setprecision", "setfill", "scientific", "fixed", "setbase", "defaultfloat", "left", "right"):
        for a in an:
            it.ev(a, st, fr)
        return i.StructV("manip", {"n": name})
    if name == "swap" and len(an) == 2:
        a, b = it.lval(an[0], st, fr), it.lval(an[1], st, fr)
        va, vb = it.load(st, a), it.load(st, b)
        it.store(st, a, vb)
        it.store(st, b, va)
        return None
    if name == "accumulate":
        v = [it.ev(a, st, fr) for a in an[:3]]
        sl = iter_slice(it, st, v[0], v[1])
        if isinstance(sl, tuple):
            if not sl[1].concrete():
                return it.top("accumulate", e)
            sl = list(sl[1].items)
        if sl is None:
            return it.top("accumulate", e)
        r = v[2]
        f = it.ev(an[3], st, fr) if len(an) > 3 else None
        if f is not None:
            return it.top("accumulate with function", e)
        rt = i.clean(ref["rt"])
        for _, x in sl:
            # the sum is kept in the type of the initial value
            r = it.arith("+", r, x, "double" if i.isint_t(rt) and isinstance(x, Node) and not x.isint else rt, e)
            r = it.totype(r, rt)
        return r
    if name == "inner_product" and len(an) == 4:
        v = [it.ev(a, st, fr) for a in an]
        s1 = iter_slice(it, st, v[0], v[1])
        return it.top("inner_product", e)
    if name in ("begin", "end", "cbegin", "cend", "size") and len(an) == 1:
        lv = it.lval(an[0], st, fr)
        v = it.load(st, lv)
        n = size_of(it, v)
        if name == "size":
            return n
        if isinstance(v, i.VecV):
            return i.IterV(lv, 0 if "begin" in name else n)
        return lv.sub(("i", 0 if "begin" in name else n))
    if name in ("copy", "copy_n", "move", "fill", "fill_n", "reverse", "rotate", "transform", "for_each", "swap_ranges"):
        v = [it.ev(a, st, fr) for a in an]
        if name == "copy" and len(v) == 3:
            sl = iter_slice(it, st, v[0], v[1])
            if isinstance(sl, tuple) and sl[1].concrete():
                sl = list(sl[1].items)
            if isinstance(sl, list):
                d = v[2]
                for k, (_, x) in enumerate(sl):
                    if isinstance(d, i.IterV) and isinstance(d.pos, int):
                        it.store(st, d.lv.sub(("i", d.pos + k)), x)
                    elif isinstance(d, i.LV) and d.path and d.path[-1][0] == "i":
                        it.store(st, i.LV(d.loc, d.path[:-1] + (("i", d.path[-1][1] + k),)), x)
                    elif isinstance(d, i.LV):
                        it.store(st, d.sub(("i", k)), x)
                    else:
                        return it.top("copy", e)
                return None
        if name == "fill" and len(v) == 3:
            a, b = v[0], v[1]
            if isinstance(a, i.IterV) and isinstance(b, i.IterV) and isinstance(a.pos, int) and isinstance(b.pos, int):
                for k in range(a.pos, b.pos):
                    it.store(st, a.lv.sub(("i", k)), v[2])
                return None
            if isinstance(a, i.LV) and isinstance(b, i.LV):
                pa = a.path[-1][1] if a.path and a.path[-1][0] == "i" else 0
                pb = b.path[-1][1] if b.path and b.path[-1][0] == "i" else 0
                ba = a.path[:-1] if a.path and a.path[-1][0] == "i" else a.path
                if isinstance(pa, int) and isinstance(pb, int):
                    for k in range(pa, pb):
                        it.store(st, i.LV(a.loc, ba + (("i", k),)), v[2])
                    return None
        return NotImplemented
    if name in ("make_pair",):
        v = [it.ev(a, st, fr) for a in an]
        return i.StructV("std::pair<>", {"first": v[0], "second": v[1]})
    if name == "to_string":
        v = it.ev(an[0], st, fr)
        return str(v) if isinstance(v, int) else it.top("to_string")
    if name == "gettimeofday":
        lv = it.ev(an[0], st, fr)
        n = st.mem.get("CLOCK", 0)
        st.mem["CLOCK"] = n + 1 if isinstance(n, int) else i._int(add(n, 1))
        s, u = uf("clock.sec", num(n)), uf("clock.usec", num(n))
        it.event(st, "clock", num(n))
        s.isint = u.isint = True
        if isinstance(lv, i.LV):
            it.store(st, lv, i.StructV("timeval", {"tv_sec": s, "tv_usec": u}))
        return 0
    if q.startswith("std::numeric_limits"):
        nm = name
        if nm == "epsilon":
            return const(Fraction(1, 2 ** 52))
        if nm in ("max", "infinity"):
            return uf("huge", positive=True)
        if nm == "quiet_NaN":
            return uf("nan")
        return it.top("numeric_limits::" + nm)
    if name == "strcmp" and len(an) == 2:
        a, b = it.rv(it.ev(an[0], st, fr), st), it.rv(it.ev(an[1], st, fr), st)
        if isinstance(a, str) and isinstance(b, str):
            return (a > b) - (a < b)
        if isinstance(a, str) != isinstance(b, str):
            r = it.arith("!=", a, b, "int", e)
            return ite(r, ONE, ZERO) if isinstance(r, Node) else it.top("strcmp", e)
        return it.top("strcmp", e)
    if name in ("stof", "stod", "stoi", "stol", "atof", "atoi", "strtod") and an:
        v = it.rv(it.ev(an[0], st, fr), st)
        if isinstance(v, Node) and not v.taint:
            return uf(name, v)
        return it.top(name, e)
    if name in ("strlen",):
        v = it.ev(an[0], st, fr)
        return len(v) if isinstance(v, str) else it.top("strlen")
    if name == "__builtin_expect":
        v = it.ev(an[0], st, fr)
        return v
    return NotImplemented


def is_ptr_arg(a):
    return a.get("k") in ("DefaultArg", "NullPtr", "Nullptr") or a.get("t", "").rstrip().endswith("*")


def arma_free(it, e, ref, an, st, fr, name):
    i = _imp()
    if name == "lu":
        # overload resolution helpers: a trailing defaulted pointer
        while len(an) > 2 and is_ptr_arg(an[-1]):
            an = an[:-1]
        X = it.rv(it.ev(an[-1], st, fr), st)
        outs = [it.lval(a, st, fr) for a in an[:-1]]
        if not isinstance(X, i.MatV) or X.r != X.c:
            for o in outs:
                it.store(st, o, it.top("lu of unknown matrix", e))
            return it.top("lu", e)
        it.event(st, "lu", X)
        r = lu(X)
        ok = batom("lu_ok", *X.e)
        if r is None:
            for o in outs:
                it.store(st, o, it.top("lu of a structurally singular matrix", e))
            return ok
        Lm, U, Pm = r
        if len(outs) == 3:
            it.store(st, outs[0], Lm)
            it.store(st, outs[1], U)
            it.store(st, outs[2], Pm)
        elif len(outs) == 2:
            it.store(st, outs[0], matmul(tr(Pm), Lm))
            it.store(st, outs[1], U)
        return ok
    if name in ("solve", "inv", "pinv") and len(an) >= 2 and an[0].get("lv") and ref["rt"] == "bool":
        o = it.lval(an[0], st, fr)
        vals = [it.rv(it.ev(a, st, fr), st) for a in an[1:]]
        A = vals[0]
        Bm = vals[1] if name == "solve" and len(vals) > 1 else eye(A.r, A.r) if isinstance(A, i.MatV) else None
        if isinstance(A, i.MatV) and isinstance(Bm, i.MatV) and A.r == A.c == Bm.r:
            r = gauss(A, Bm)
            it.store(st, o, r if r is not None else it.top("singular", e))
            return batom("solve_ok", *A.e)
        it.store(st, o, it.top("solve", e))
        return it.top("solve", e)
    vals = []
    for a in an:
        v = it.ev(a, st, fr)
        v = it.rv(v, st)
        if isinstance(v, Node) and not v.isbool:
            v = i._int(v)
        vals.append(v)
    if any(isinstance(v, i.IteV) for v in vals):
        k = next(j for j, v in enumerate(vals) if isinstance(v, i.IteV))
        a = vals[:k] + [vals[k].a] + vals[k + 1:]
        b = vals[:k] + [vals[k].b] + vals[k + 1:]
        return i.merge(vals[k].c, mfun(it, e, ref, name, a, st), mfun(it, e, ref, name, b, st))
    return mfun(it, e, ref, name, vals, st)


def mfun(it, e, ref, name, v, st):
    i = _imp()
    M = i.MatV
    if name in ("zeros", "ones", "eye", "randu", "randn"):
        d = [x for x in v if isinstance(x, int) and not isinstance(x, bool)]
        if not d and v:
            return it.top("matrix of unknown size", e)
        rt = ref["rt"]
        r, c = (d[0], d[1]) if len(d) > 1 else (d[0], d[0]) if name == "eye" else (d[0], 1)
        if r < 0 or c < 0 or r * c > 4000:
            return it.top("matrix size", e)
        if name == "eye":
            return eye(r, c)
        return M(r, c, [ZERO if name == "zeros" else ONE] * (r * c))
    for x in v:
        if isinstance(x, i.Top):
            return x
        if isinstance(x, i.UnkV):
            return i.Top("value of unknown shape")
    if not v or not isinstance(v[0], (M, Node, int)):
        return it.top("arma::" + name, e)
    a = v[0]
    if isinstance(a, (Node, int)):
        if name in ("abs", "sqrt", "exp"):
            return {"abs": absn, "sqrt": sqrt, "exp": lambda x: uf("exp", x, positive=True)}[name](i.N(a))
        if name == "pow":
            return pown(i.N(a), i.N(v[1]))
        if name in ("max", "min") and len(v) > 1:
            return (maxn if name == "max" else minn)(i.N(a), i.N(v[1]))
        if name in ("is_finite",):
            return batom("isfinite", i.N(a))
        if name in ("accu", "sum", "as_scalar"):
            return a
        return it.top("arma::" + name, e)
    if name in ("dot", "cdot") and isinstance(v[1], M):
        if v[1].n != a.n:
            it.outside("dot product of vectors of %d and %d elements" % (a.n, v[1].n))
            return it.top("dot")
        return dot(a, v[1])
    if name == "norm_dot":
        return it.top("norm_dot", e)
    if name == "norm":
        p = v[1] if len(v) > 1 else 2
        if p in ("inf", "Inf", "INF"):
            return vmax([absn(x) for x in a.e]) if a.n else ZERO
        p = i._int(p) if isinstance(p, Node) else p
        if p == 2 or p == "fro":
            return sqrt(dot(a, a))
        if p == 1:
            s = ZERO
            for x in a.e:
                s = add(s, absn(x))
            return s
        return it.top("norm", e)
    if name == "abs":
        return emap(absn, a)
    if name in ("max", "min"):
        if len(v) == 1:
            return (vmax if name == "max" else vmin)(a.e) if 1 in (a.r, a.c) and a.n else it.top("columnwise max", e)
        if isinstance(v[1], M):
            return ezip(maxn if name == "max" else minn, a, v[1])
        return it.top("max", e)
    if name in ("accu", "sum"):
        if name == "sum" and 1 not in (a.r, a.c):
            d = v[1] if len(v) > 1 else 0
            if d == 0:
                return mat(1, a.c, lambda p, j: _sum([a.at(k, j) for k in range(a.r)]))
            return mat(a.r, 1, lambda p, j: _sum([a.at(p, k) for k in range(a.c)]))
        return _sum(a.e)
    if name == "mean":
        return div(_sum(a.e), a.n)
    if name == "prod":
        r = ONE
        for x in a.e:
            r = mul(r, x)
        return r
    if name in ("vectorise",):
        return M(a.n, 1, a.e)
    if name == "reshape":
        r, c = v[1], v[2]
        if isinstance(r, int) and isinstance(c, int):
            return M(r, c, (list(a.e) + [ZERO] * (r * c))[:r * c])
        return it.top("reshape", e)
    if name == "kron" and isinstance(v[1], M):
        b = v[1]
        return mat(a.r * b.r, a.c * b.c, lambda p, j: mul(a.at(p // b.r, j // b.c), b.at(p % b.r, j % b.c)))
    if name == "solve":
        b = v[1]
        if isinstance(b, M) and a.r == a.c == b.r:
            it.event(st, "solve", a, b)
            it.may_throw(st, "solve", *a.e)
            r = gauss(a, b)
            return r if r is not None else it.top("solve with a structurally singular matrix", e)
        if isinstance(b, M):
            it.outside("solve with a %dx%d matrix and %d rows" % (a.r, a.c, b.r))
        return it.top("solve", e)
    if name in ("inv", "inv_sympd", "pinv"):
        if a.r != a.c:
            return it.top("inv", e)
        it.may_throw(st, "inv", *a.e)
        it.event(st, "inv", a)
        r = gauss(a, eye(a.r, a.r))
        return r if r is not None else it.top("inverse of a structurally singular matrix", e)
    if name == "trimatl":
        return mat(a.r, a.c, lambda p, j: a.at(p, j) if p >= j else ZERO)
    if name == "trimatu":
        return mat(a.r, a.c, lambda p, j: a.at(p, j) if p <= j else ZERO)
    if name in ("trans", "strans"):
        return tr(a)
    if name == "diagmat":
        if 1 in (a.r, a.c):
            return mat(a.n, a.n, lambda p, j: a.e[p] if p == j else ZERO)
        return mat(a.r, a.c, lambda p, j: a.at(p, j) if p == j else ZERO)
    if name == "diagvec":
        return M(a.r, 1, [a.at(k, k) for k in range(a.r)])
    if name == "square":
        return emap(lambda x: mul(x, x), a)
    if name == "sqrt":
        return emap(sqrt, a)
    if name == "exp":
        return emap(lambda x: uf("exp", x, positive=True), a)
    if name == "pow":
        return emap(lambda x: pown(x, i.N(v[1])), a)
    if name == "as_scalar":
        return a.e[0] if a.n == 1 else it.top("as_scalar")
    if name in ("join_cols", "join_vert"):
        b = v[1]
        return mat(a.r + b.r, a.c, lambda p, j: a.at(p, j) if p < a.r else b.at(p - a.r, j))
    if name in ("join_rows", "join_horiz"):
        b = v[1]
        return mat(a.r, a.c + b.c, lambda p, j: a.at(p, j) if j < a.c else b.at(p, j - a.c))
    if name == "repmat":
        r, c = v[1], v[2]
        return mat(a.r * r, a.c * c, lambda p, j: a.at(p % a.r, j % a.c))
    if name in ("is_finite",):
        return batom("isfinite", *a.e)
    if name == "det" and a.r == a.c and a.r <= 4:
        return _det([[a.at(p, j) for j in range(a.r)] for p in range(a.r)])
    if name == "trace":
        return _sum([a.at(k, k) for k in range(a.r)])
    if name == "size":
        return it.top("size", e)
    return it.top("arma::" + name, e)


def _sum(es):
    s = ZERO
    for x in es:
        s = add(s, x)
    return s


def _det(m):
    if len(m) == 1:
        return m[0][0]
    s = ZERO
    for j in range(len(m)):
        t = mul(m[0][j], _det([r[:j] + r[j + 1:] for r in m[1:]]))
        s = add(s, t) if j % 2 == 0 else sub(s, t)
    return s
