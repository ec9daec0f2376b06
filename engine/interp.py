"""Abstract interpreter over the type-checked syntax tree (see extract/).

One joined abstract state per program point: branches are evaluated on both
sides and joined with gated terms (value graph, see terms.py); loops whose trip
count is not constant are summarised by a fixpoint that replaces every location
the body changes by an unknown (a "mu" atom).  Nothing of the analysed program
is executed and no path is enumerated or handed to a solver.
"""
import json
import struct
from fractions import Fraction
from terms import *
import terms as T


class Unsup(Exception):
    pass


class Dead(Exception):
    """The current program point is unreachable (after throw / noreturn)."""


# ------------------------------------------------------------------- values
class Top:
    __slots__ = ("why",)

    def __init__(self, why):
        self.why = why

    def __repr__(self):
        return "Top(%s)" % self.why


class LV:
    __slots__ = ("loc", "path")

    def __init__(self, loc, path=()):
        self.loc, self.path = loc, path

    def __eq__(self, o):
        return isinstance(o, LV) and self.loc == o.loc and self.path == o.path

    def __ne__(self, o):
        return not self == o

    def __hash__(self):
        return hash((self.loc, self.path))

    def sub(self, *st):
        return LV(self.loc, self.path + st)

    def __repr__(self):
        return "&%s%s" % (self.loc, self.path)


class RefV:
    """value of a reference-typed field / variable"""
    __slots__ = ("lv",)

    def __init__(self, lv):
        self.lv = lv


class ViewV(RefV):
    __slots__ = ()


class StructV:
    __slots__ = ("cls", "f")

    def __init__(self, cls, f):
        self.cls, self.f = cls, f

    def set(self, k, v):
        d = dict(self.f)
        d[k] = v
        return StructV(self.cls, d)

    def __repr__(self):
        return "%s%r" % (self.cls, self.f)


class ArrV:
    __slots__ = ("e",)

    def __init__(self, e):
        self.e = tuple(e)

    def __repr__(self):
        return "Arr%r" % (self.e,)


class MatV:
    __slots__ = ("r", "c", "e")

    def __init__(self, r, c, e):
        self.r, self.c, self.e = r, c, tuple(e)
        assert len(self.e) == r * c, (r, c, len(self.e))

    def at(self, i, j=0):
        return self.e[i + j * self.r]

    @property
    def n(self):
        return self.r * self.c

    def __repr__(self):
        return "Mat%dx%d%r" % (self.r, self.c, self.e)


class VecV:
    """std::vector / log: unknown prefix of length plen, then guarded items."""
    __slots__ = ("pre", "plen", "items", "proto", "kind")

    def __init__(self, items=(), pre=None, plen=0, proto=None, kind="vec"):
        self.items, self.pre, self.plen, self.proto, self.kind = tuple(items), pre, plen, proto, kind

    def push(self, v, g=TRUE):
        return VecV(self.items + ((g, v),), self.pre, self.plen, self.proto, self.kind)

    def concrete(self):
        return self.pre is None and all(g is TRUE for g, _ in self.items)

    def length(self):
        if self.concrete():
            return len(self.items)
        n = num(self.plen)
        for g, _ in self.items:
            n = add(n, ite(g, ONE, ZERO))
        n = _int(n)
        return n

    def __repr__(self):
        return "Vec(%s|%r)" % (self.pre, self.items)


class MapV:
    __slots__ = ("d", "t")

    def __init__(self, d, t):
        self.d, self.t = d, t


class IterV:
    __slots__ = ("lv", "pos", "cur")

    def __init__(self, lv, pos, cur=None):
        self.lv, self.pos, self.cur = lv, pos, cur

    def __repr__(self):
        return "Iter(%r,%r)" % (self.lv, self.pos)


class FnV:
    __slots__ = ("ref",)

    def __init__(self, ref):
        self.ref = ref

    def key(self):
        return self.ref["fn"]


class ClosV:
    __slots__ = ("ref", "caps", "this", "tu", "frame")

    def __init__(self, ref, caps, this, tu, frame=None):
        self.ref, self.caps, self.this, self.tu, self.frame = ref, caps, this, tu, frame


class IteV:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class UnkV:
    """A location whose shape changed around a loop; dead unless rewritten."""
    __slots__ = ("name",)

    def __init__(self, name):
        self.name = name


NULL = type("NullT", (), {"__repr__": lambda s: "nullptr"})()


def _int(n):
    if isinstance(n, Node) and n.const is not None and n.const.denominator == 1:
        return int(n.const)
    return n


def tofloat(v):
    """Value rounded to single precision."""
    if isinstance(v, bool):
        v = int(v)
    if isinstance(v, IteV):
        return merge(v.c, tofloat(v.a), tofloat(v.b))
    if not isinstance(v, (int, Node)) or isboolv(v):
        return v
    v = num(v)
    if v.const is not None:
        try:
            return num(Fraction(struct.unpack("f", struct.pack("f", float(v.const)))[0]))
        except OverflowError:
            return v
    if v.op == "uf" and v.args[0] == "float":
        return v
    return uf("float", v)


def emptied(v):
    """What is left of a value after it was moved from; numbers stay."""
    if isinstance(v, MatV) and v.n:
        return MatV(v.r, v.c, [atom("moved:%d" % i) for i in range(v.n)])
    if isinstance(v, VecV):
        return VecV((), None, 0, v.proto, v.kind)
    if isinstance(v, MapV):
        return MapV({}, v.t)
    if isinstance(v, str):
        return ""
    if isinstance(v, StructV):
        f = {k: emptied(w) for k, w in v.f.items()}
        return StructV(v.cls, f) if any(f[k] is not v.f[k] for k in f) else v
    if isinstance(v, IteV):
        return merge(v.c, emptied(v.a), emptied(v.b))
    return v


def isnum(v):
    return isinstance(v, (int, Node)) and not isinstance(v, bool) and not (isinstance(v, Node) and v.isbool)


def isboolv(v):
    return isinstance(v, bool) or isinstance(v, Node) and v.isbool


_topn = {}


def N(v, why="value"):
    """numeric Node of a value"""
    if isinstance(v, (int, Node)):
        return num(v)
    if isinstance(v, IteV):
        return ite(v.c, N(v.a), N(v.b))
    if isinstance(v, MatV) and v.n == 1:
        return v.e[0]
    w = v.why if isinstance(v, Top) else "%s:%s" % (why, type(v).__name__)
    return T.atom("top:" + w, taint=frozenset(["top"]))


def B(v):
    if isinstance(v, bool):
        return TRUE if v else FALSE
    if isinstance(v, (int, Node)):
        return boolean(v)
    if v is NULL:
        return FALSE
    if isinstance(v, (LV, FnV)):
        return TRUE
    if isinstance(v, IteV):
        return ite(v.c, B(v.a), B(v.b))
    return T.batom("top:" + (v.why if isinstance(v, Top) else type(v).__name__), taint=frozenset(["top"]))


def pybool(v):
    """True/False if concrete else None"""
    if isinstance(v, bool):
        return v
    if v is TRUE:
        return True
    if v is FALSE:
        return False
    if isinstance(v, int):
        return v != 0
    return None


def unbool(b):
    return True if b is TRUE else False if b is FALSE else b


_CMP = {}


def same(a, b):
    """Structural equality of values (fingerprint equality for terms)."""
    if a is b:
        return True
    if isinstance(a, bool) or isinstance(b, bool):
        if isboolv(a) and isboolv(b):
            return B(a) is B(b)
        return isinstance(a, bool) and isinstance(b, bool) and a == b
    if isinstance(a, (int, Node)) and isinstance(b, (int, Node)):
        if isinstance(a, Node) and a.isbool or isinstance(b, Node) and b.isbool:
            return B(a) is B(b)
        return num(a) is num(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, MatV):
        return a.r == b.r and a.c == b.c and all(x is y for x, y in zip(a.e, b.e))
    if isinstance(a, StructV):
        return a.f.keys() == b.f.keys() and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, ArrV):
        return len(a.e) == len(b.e) and all(same(x, y) for x, y in zip(a.e, b.e))
    if isinstance(a, VecV):
        return (a.pre == b.pre and same(a.plen, b.plen) and len(a.items) == len(b.items)
                and all(g is h and same(x, y) for (g, x), (h, y) in zip(a.items, b.items)))
    if isinstance(a, LV):
        return a == b
    if isinstance(a, RefV):
        return a.lv == b.lv
    if isinstance(a, str):
        return a == b
    if isinstance(a, FnV):
        return a.key() == b.key()
    if isinstance(a, ClosV):
        return a.ref["fn"] == b.ref["fn"] and a.caps.keys() == b.caps.keys() and all(same(a.caps[k], b.caps[k]) for k in a.caps)
    if isinstance(a, IteV):
        return a.c is b.c and same(a.a, b.a) and same(a.b, b.b)
    if isinstance(a, UnkV):
        return a.name == b.name
    if isinstance(a, Top):
        return a.why == b.why
    if isinstance(a, MapV):
        return a.d.keys() == b.d.keys() and all(same(a.d[k], b.d[k]) for k in a.d)
    if isinstance(a, IterV):
        return a.lv == b.lv and same(a.pos, b.pos)
    if isinstance(a, tuple):
        return len(a) == len(b) and all(same(x, y) for x, y in zip(a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return False


def merge(c, a, b):
    if a is b:
        return a
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    if isboolv(a) and isboolv(b):
        return unbool(ite(c, B(a), B(b)))
    if isinstance(a, (int, Node)) and isinstance(b, (int, Node)):
        if isinstance(a, int) and isinstance(b, int) and a == b:
            return a
        return ite(c, num(a), num(b))
    if isinstance(a, MatV) and isinstance(b, MatV) and a.r == b.r and a.c == b.c:
        return MatV(a.r, a.c, [ite(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, StructV) and isinstance(b, StructV) and a.f.keys() == b.f.keys():
        return StructV(a.cls, {k: merge(c, a.f[k], b.f[k]) for k in a.f})
    if isinstance(a, ArrV) and isinstance(b, ArrV) and len(a.e) == len(b.e):
        return ArrV([merge(c, x, y) for x, y in zip(a.e, b.e)])
    if isinstance(a, VecV) and isinstance(b, VecV) and a.pre == b.pre and a.kind == b.kind:
        k = 0
        while k < len(a.items) and k < len(b.items) and a.items[k][0] is b.items[k][0] and same(a.items[k][1], b.items[k][1]):
            k += 1
        items = list(a.items[:k])
        ra, rb = a.items[k:], b.items[k:]
        if len(ra) == len(rb) and all(x[0] is y[0] for x, y in zip(ra, rb)) and a.kind == "vec":
            items += [(g, merge(c, x, y)) for (g, x), (_, y) in zip(ra, rb)]
        else:
            items += [(andn(c, g), v) for g, v in ra]
            items += [(andn(notn(c), g), v) for g, v in rb]
        return VecV([i for i in items if i[0] is not FALSE], a.pre, a.plen, a.proto if a.proto is not None else b.proto, a.kind)
    if same(a, b):
        return a
    if isinstance(a, UnkV):
        return a
    if isinstance(b, UnkV):
        return b
    # choices that c already decides
    while isinstance(a, IteV):
        if andn(c, a.c) is FALSE:
            a = a.b
        elif andn(c, notn(a.c)) is FALSE:
            a = a.a
        else:
            break
        return merge(c, a, b)
    d = notn(c)
    while isinstance(b, IteV):
        if andn(d, b.c) is FALSE:
            b = b.b
        elif andn(d, notn(b.c)) is FALSE:
            b = b.a
        else:
            break
        return merge(c, a, b)
    return IteV(c, a, b)


class State:
    __slots__ = ("mem", "guard")

    def __init__(self, mem, guard=TRUE):
        self.mem, self.guard = mem, guard

    def copy(self):
        return State(dict(self.mem), self.guard)


EV = "EV"        # location of the event log


def merge_state(c, a, b):
    """State that is a when c holds, else b (both reachable)."""
    if c is TRUE:
        return a
    if c is FALSE:
        return b
    mem = {}
    am, bm = a.mem, b.mem
    for k, v in am.items():
        if k in bm:
            w = bm[k]
            mem[k] = v if v is w else merge(c, v, w)
        elif _keep(k):
            mem[k] = v
    for k, v in bm.items():
        if k not in am and _keep(k):
            mem[k] = v
    return State(mem, orn(a.guard, b.guard) if a.guard is not b.guard else a.guard)


def _keep(k):
    return True


class Frame:
    __slots__ = ("id", "fn", "tu", "this", "rets", "caps", "trylevel")

    def __init__(self, id, fn, tu, this=None, caps=None):
        self.id, self.fn, self.tu, self.this, self.rets, self.caps = id, fn, tu, this, [], caps


class Loop:
    """Summary of a loop with a non-constant trip count."""

    def __init__(self, id, frame, line, file):
        self.id, self.frame, self.line, self.file = id, frame, line, file
        self.entry = self.head = self.back = None
        self.cond = TRUE
        self.exits = []     # (guard, State, kind)
        self.returns = []   # (guard, value, State)
        self.mu = {}        # name -> Node/leaf
        self.do = False
        self.around = ()    # the loops this one is in
        self.retatoms = []  # stands for returns[n] after the loop

    def events(self):
        return self.back.mem[EV].items if self.back else ()


class Around(tuple):
    """Loops around something, and the loops known when it was met."""
    def __new__(cls, ls, snap):
        x = tuple.__new__(cls, ls)
        x.snap = snap
        return x


class DB:
    def __init__(self, paths):
        self.tus = []
        self.fns = {}
        self.ntag = 0
        for p in paths:
            with open(p) as f:
                d = json.load(f)
            i = len(self.tus)
            self.tus.append(d)
            for k, f in d["functions"].items():
                f["tu"] = i
                f["key"] = k
            d["recs"] = {}
            for k, r in d["records"].items():
                d["recs"].setdefault(r["t"], r)
        for d in self.tus:
            for k, f in d["functions"].items():
                self.fns.setdefault(k, f)
        self.byq = {}
        for d in self.tus:
            for k, f in d["functions"].items():
                self.byq.setdefault(f["q"], []).append(f)

    def fn(self, key, tu):
        f = self.tus[tu]["functions"].get(key)
        if f is not None:
            return f
        if "#" in key:
            return None
        return self.fns.get(key)

    def rec(self, t, tu):
        t = clean(t)
        r = self.tus[tu]["recs"].get(t)
        if r is not None:
            return r
        for d in self.tus:
            r = d["recs"].get(t)
            if r is not None:
                return r
        return None


def clean(t):
    t = t.strip()
    while True:
        if t.startswith("const "):
            t = t[6:]
        elif t.startswith("volatile "):
            t = t[9:]
        elif t.endswith("&"):
            t = t[:-1].rstrip()
        elif t.endswith(" const"):
            t = t[:-6]
        elif t.endswith("*const"):
            t = t[:-5]
        else:
            return t


def targs(t):
    i = t.find("<")
    if i < 0:
        return []
    out, d, cur = [], 0, ""
    for ch in t[i + 1:t.rfind(">")]:
        if ch == "<":
            d += 1
        elif ch == ">":
            d -= 1
        if ch == "," and d == 0:
            out.append(cur.strip())
            cur = ""
        else:
            cur += ch
    if cur.strip():
        out.append(cur.strip())
    return out


INTS = {"int", "unsigned int", "long", "unsigned long", "long long", "unsigned long long", "short", "unsigned short",
        "char", "signed char", "unsigned char"}
FLTS = {"double", "float", "long double"}


def isint_t(t):
    return clean(t) in INTS


def isflt_t(t):
    return clean(t) in FLTS


def is_arma(t):
    return clean(t).startswith("arma::")


def is_stdvec(t):
    return clean(t).startswith("std::vector<")


def is_stream(t):
    t = clean(t)
    return t.startswith("std::basic_ostream<") or t.startswith("std::basic_stringstream") or t.startswith("std::basic_ostringstream") or t.startswith("std::basic_iostream") or t.startswith("std::basic_ofstream") or t.startswith("std::ostream")


def is_string(t):
    return clean(t).startswith("std::basic_string<") or clean(t) == "std::string"


import intrin  # noqa: E402  (circular on purpose: intrinsics use the values above)


class Interp:
    all = None      # list of every interpreter built, when a sweep asks for it

    def __init__(self, db, hooks=None, maxunroll=20000):
        self.db = db
        self.hooks = hooks or {}
        self.closed = None      # a list: streams that went out of scope are kept there
        self.loops = {}
        self.loopseq = []
        self.tops = []
        self.trystack = []
        self.maxunroll = maxunroll
        self.used = set()
        self.notes = []
        self.steps = 0
        self.asserts = []
        self.depth = 0
        self.oob = []
        # safety obligations met on the way: (kind, guard, (file, line, fn), data, loops around)
        self.safety = []
        self.sites = {}
        self.loopstack = ()
        self.gstack = []
        self.gst = None
        self.here = None
        if Interp.all is not None:
            Interp.all.append(self)

    # ------------------------------------------------------------- plumbing
    def top(self, why, e=None):
        if e is not None and isinstance(e, dict):
            why = "%s@%s" % (why, e.get("l"))
        if why not in self.tops:
            self.tops.append(why)
        return Top(why)

    def site(self):
        if self.here is None:
            return ("", 0, "")
        fr, l = self.here
        fn = fr.fn
        return (fn["file"], l, fn["q"]) if fn else ("", l, fr.id)

    def obligation(self, kind, *data):
        s = self.site()
        k = (kind, s)
        self.sites[k] = self.sites.get(k, 0) + 1
        if not data:
            return
        g = self.gst.guard if self.gst is not None else TRUE
        for c in self.gstack:       # callers and loops around
            g = andn(g, c)
        if g is not FALSE:
            self.safety.append((kind, g, s, data, self.loopstack))

    def outside(self, msg):
        """An access outside its object, or an operation on mismatched shapes."""
        self.oob.append(msg)
        self.obligation("access", msg)

    def within(self, i, n):
        """Index i into n elements."""
        if isinstance(i, int) and isinstance(n, int):
            self.obligation("access")
        else:
            self.obligation("access", num(i), num(n))

    def new_state(self):
        return State({EV: VecV(kind="log")})

    def event(self, st, *what):
        st.mem[EV] = st.mem[EV].push(what)

    # --------------------------------------------------------- memory access
    def load(self, st, lv):
        if self.gst is not st:
            self.gst = st
        if not isinstance(lv, LV):
            if isinstance(lv, IteV):
                return merge(lv.c, self.load(st, lv.a), self.load(st, lv.b))
            return self.top("load through %s" % type(lv).__name__)
        if lv.loc not in st.mem:
            v = self.lazy(st, lv.loc)
        else:
            v = st.mem[lv.loc]
        for s in lv.path:
            v = self.step(st, v, s)
        return v

    def step(self, st, v, s):
        if isinstance(v, RefV):
            v = self.load(st, v.lv)
        if isinstance(v, IteV):
            return merge(v.c, self.step(st, v.a, s), self.step(st, v.b, s))
        if isinstance(v, (Top, UnkV)):
            return Top(v.why if isinstance(v, Top) else "value of unknown shape (%s)" % (v.name,))
        k = s[0]
        if k == "f":
            if isinstance(v, StructV):
                if s[1] in v.f:
                    return v.f[s[1]]
                return self.top("no field %s in %s" % (s[1], v.cls))
            return self.top("field %s of %s" % (s[1], type(v).__name__))
        if k == "i":
            return self.index(v, s[1])
        if k == "m":
            i, j = s[1], s[2]
            if isinstance(v, MatV) and isinstance(i, int) and isinstance(j, int):
                if 0 <= i < v.r and 0 <= j < v.c:
                    self.within(i, v.r)
                    return v.at(i, j)
                self.outside("element (%d,%d) of a %dx%d matrix" % (i, j, v.r, v.c))
                return self.top("matrix index out of bounds")
            if isinstance(v, MatV):
                self.within(i, v.r)
                self.within(j, v.c)
                return self.symelem(v, i, j)
            return self.top("element of %s" % type(v).__name__)
        if k == "view":
            return intrin.view_get(self, v, s)
        return self.top("path")

    def symelem(self, v, i, j):
        r = None
        for jj in range(v.c):
            for ii in range(v.r):
                x = v.at(ii, jj)
                c = andn(eq(num(i), num(ii)), eq(num(j), num(jj)))
                if c is FALSE:
                    continue
                r = x if r is None else ite(c, x, r)
        return r if r is not None else self.top("index")

    def index(self, v, i):
        n = len(v.e) if isinstance(v, (ArrV, MatV)) else v.length() if isinstance(v, VecV) else None
        if n is not None and not (isinstance(i, int) and isinstance(n, int) and not 0 <= i < n):
            self.within(i, n)
        if isinstance(v, str) and isinstance(i, int):
            return ord(v[i]) if i < len(v) else 0
        if isinstance(v, ArrV):
            if isinstance(i, int):
                if 0 <= i < len(v.e):
                    return v.e[i]
                self.outside("element %d of an array of %d" % (i, len(v.e)))
                return self.top("array index out of bounds")
            r = None
            for k, x in enumerate(v.e):
                r = x if r is None else merge(eq(num(i), num(k)), x, r)
            return r if r is not None else self.top("index")
        if isinstance(v, MatV):
            if isinstance(i, int):
                if 0 <= i < v.n:
                    return v.e[i]
                self.outside("element %d of a vector of %d" % (i, v.n))
                return self.top("vector index out of bounds")
            r = None
            for k, x in enumerate(v.e):
                r = x if r is None else ite(eq(num(i), num(k)), x, r)
            return r if r is not None else self.top("index")
        if isinstance(v, VecV):
            return self.vindex(v, i)
        return self.top("index into %s" % type(v).__name__)

    def vindex(self, v, i):
        if v.concrete():
            if isinstance(i, int):
                if 0 <= i < len(v.items):
                    return v.items[i][1]
                self.outside("element %d of a std::vector of %d" % (i, len(v.items)))
                return self.top("std::vector index out of bounds")
            r = None
            for k, (_, x) in enumerate(v.items):
                r = x if r is None else merge(eq(num(i), num(k)), x, r)
            return r if r is not None else self.top("index into empty vector")
        # symbolic: position p of each item
        i = num(i)
        r = None
        if v.pre is not None:
            r = self.prefix_elem(v, i)
        n = num(v.plen)
        for g, x in v.items:
            c = andn(g, eq(i, n))
            if c is TRUE:
                return x
            if c is not FALSE:
                r = x if r is None else merge(c, x, r)
            n = add(n, ite(g, ONE, ZERO))
        return r if r is not None else self.top("index")

    def prefix_elem(self, v, i):
        p = v.proto
        nm = "elem:%s" % (v.pre,)
        return mapleaves(p, lambda x, path: uf(nm + path, i)) if p is not None else self.top("element of unknown vector")

    def store(self, st, lv, val):
        self.gst = st
        if isinstance(val, UnkV):
            val = Top("value of unknown shape (%s)" % (val.name,))
        if isinstance(lv, IteV):
            s2 = st.copy()
            self.store(st, lv.a, val)
            self.store(s2, lv.b, val)
            m = merge_state(lv.c, st, s2)
            st.mem = m.mem
            return
        if not isinstance(lv, LV):
            self.top("store through %s" % type(lv).__name__)
            return
        if lv.loc == "VOID":
            return
        if not lv.path:
            old = st.mem.get(lv.loc)
            if isinstance(old, RefV) and not isinstance(val, RefV):
                return self.store(st, old.lv, val)
            st.mem[lv.loc] = val
            return
        if lv.loc not in st.mem:
            self.lazy(st, lv.loc)
        st.mem[lv.loc] = self.upd(st, st.mem.get(lv.loc), lv.path, val)

    def upd(self, st, v, path, val):
        if not path:
            return val
        if isinstance(v, RefV):
            # write through the reference; container value unchanged
            tgt = LV(v.lv.loc, v.lv.path + path)
            self.store(st, tgt, val)
            return v
        s, rest = path[0], path[1:]
        if s[0] == "i" and isinstance(v, (ArrV, MatV, VecV)):
            n = v.length() if isinstance(v, VecV) else len(v.e)
            if not (isinstance(s[1], int) and isinstance(n, int) and not 0 <= s[1] < n):
                self.within(s[1], n)
        elif s[0] == "m" and isinstance(v, MatV):
            for q, n in ((s[1], v.r), (s[2], v.c)):
                if not isinstance(q, int):
                    self.within(q, n)
        if isinstance(v, IteV):
            return merge(v.c, self.upd(st, v.a, path, val), self.upd(st, v.b, path, val))
        if isinstance(v, (Top, UnkV)):
            return v if isinstance(v, Top) else Top("partial write to " + str(v.name))
        k = s[0]
        if k == "f" and isinstance(v, StructV):
            return v.set(s[1], self.upd(st, v.f.get(s[1], Top("field")), rest, val))
        if k == "i":
            i = s[1]
            if isinstance(v, (ArrV, MatV)):
                e = list(v.e)
                if isinstance(i, int):
                    if not 0 <= i < len(e):
                        self.outside("write to element %d of %d" % (i, len(e)))
                        return self.top("write out of bounds")
                    e[i] = self.upd(st, e[i], rest, val)
                    if isinstance(v, MatV):
                        e[i] = N(e[i])
                else:
                    for q in range(len(e)):
                        e[q] = merge(eq(num(i), num(q)), self.upd(st, e[q], rest, val), e[q])
                return ArrV(e) if isinstance(v, ArrV) else MatV(v.r, v.c, [N(x) for x in e])
            if isinstance(v, VecV):
                it = list(v.items)
                if v.concrete() and isinstance(i, int):
                    if not 0 <= i < len(it):
                        self.outside("write to element %d of a std::vector of %d" % (i, len(it)))
                        return self.top("write out of bounds")
                    it[i] = (TRUE, self.upd(st, it[i][1], rest, val))
                    return VecV(it, None, 0, v.proto, v.kind)
                if v.concrete():
                    for q in range(len(it)):
                        it[q] = (TRUE, merge(eq(num(i), num(q)), self.upd(st, it[q][1], rest, val), it[q][1]))
                    return VecV(it, None, 0, v.proto, v.kind)
                n = num(v.plen)
                hit = False
                for q, (g, x) in enumerate(it):
                    c = andn(g, eq(num(i), n))
                    if c is not FALSE:
                        it[q] = (g, merge(c, self.upd(st, x, rest, val), x))
                        hit = hit or c is TRUE
                    n = add(n, ite(g, ONE, ZERO))
                if hit:
                    return VecV(it, v.pre, v.plen, v.proto, v.kind)
            return self.top("indexed write to %s" % type(v).__name__)
        if k == "m" and isinstance(v, MatV):
            i, j = s[1], s[2]
            if isinstance(i, int) and isinstance(j, int):
                if not (0 <= i < v.r and 0 <= j < v.c):
                    self.outside("write to element (%d,%d) of a %dx%d matrix" % (i, j, v.r, v.c))
                    return self.top("write out of bounds")
                self.within(i, v.r)
                e = list(v.e)
                e[i + j * v.r] = N(val)
                return MatV(v.r, v.c, e)
            e = list(v.e)
            for jj in range(v.c):
                for ii in range(v.r):
                    c = andn(eq(num(i), num(ii)), eq(num(j), num(jj)))
                    e[ii + jj * v.r] = ite(c, N(val), e[ii + jj * v.r])
            return MatV(v.r, v.c, e)
        if k == "view":
            if rest:
                sub = intrin.view_get(self, v, s)
                sub = self.upd(st, sub, rest, val)
                return intrin.view_set(self, v, s, sub)
            return intrin.view_set(self, v, s, val)
        return self.top("write %s into %s" % (k, type(v).__name__))

    def lazy(self, st, loc):
        """First access to a global or static local: evaluate its initialiser."""
        if isinstance(loc, tuple) and loc[0] == "G":
            tu, gid = loc[1], loc[2]
            g = self.db.tus[tu]["globals"].get(gid)
            if g is None:
                v = self.top("unknown global")
            else:
                q = g["q"]
                if is_stream(g["t"]):
                    v = VecV(kind="stream")
                elif q.startswith("arma::fill::"):
                    v = "fill:" + q.rsplit("::", 1)[1].replace("fill_", "")
                elif g.get("init") is not None:
                    fr = Frame("G:" + q, None, tu)
                    v = self.conv_init(st, fr, g["init"], g["t"])
                else:
                    v = self.default(g["t"], tu, "global " + q, zero=True)
            st.mem[loc] = v
            return v
        if isinstance(loc, tuple) and loc[0] == "tmpstr":
            return loc[1]
        v = self.top("unknown location %r" % (loc,))
        return v

    # ------------------------------------------------------------ defaults
    def default(self, t, tu, name, zero=False, st=None, fr=None):
        """Value of a default-initialised object of type t."""
        t = clean(t)
        if t.endswith("*"):
            return NULL if zero else Top("indeterminate pointer " + name)
        if t == "bool":
            return False if zero else batom("undef:" + name, taint=frozenset(["undef"]))
        if isint_t(t):
            return 0 if zero else atom("undef:" + name, taint=frozenset(["undef"]), isint=True)
        if isflt_t(t):
            return ZERO if zero else atom("undef:" + name, taint=frozenset(["undef"]))
        if t.endswith("]"):
            i = t.index("[")
            n = int(t[i + 1:t.index("]")])
            el = t[:i].strip() + t[t.index("]") + 1:]
            return ArrV([self.default(el, tu, "%s[%d]" % (name, k), zero, st, fr) for k in range(n)])
        if is_arma(t):
            return intrin.arma_default(t)
        if is_stdvec(t):
            return VecV()
        if t.startswith("std::array<"):
            a = targs(t)
            return ArrV([self.default(a[0], tu, name, zero) for _ in range(int(a[1].rstrip("UL")))])
        if t.startswith("std::map<") or t.startswith("std::unordered_map<"):
            return MapV({}, t)
        if is_string(t):
            return ""
        if is_stream(t):
            return VecV(kind="stream")
        if t.startswith("std::pair<"):
            a = targs(t)
            return StructV(t, {"first": self.default(a[0], tu, name, True), "second": self.default(a[1], tu, name, True)})
        if t == "timeval":
            f = {k: (0 if zero else atom("undef:%s.%s" % (name, k), taint=frozenset(["undef"]), isint=True)) for k in ("tv_sec", "tv_usec")}
            return StructV(t, f)
        r = self.db.rec(t, tu)
        if r is not None:
            return self.default_rec(r, tu, name, zero, st, fr)
        e = [x for d in self.db.tus for x in d["enums"].values() if x["q"] == t]
        if e:
            return 0 if zero else atom("undef:" + name, taint=frozenset(["undef"]), isint=True)
        if t.startswith("std::") or t.startswith("__"):
            return StructV(t, {})
        return self.top("default of " + t)

    def default_rec(self, r, tu, name, zero=False, st=None, fr=None):
        f = {}
        for b in r["bases"]:
            br = self.db.rec(b, tu)
            if br is not None:
                # a user-provided base constructor is run by the caller's init list
                v = self.default_rec(br, tu, name, zero, st, fr)
                f.update(v.f)
        for fl in r["fields"]:
            f[fl["name"]] = self.default(fl["t"], tu, name + "." + fl["name"], zero, st, fr)
        return StructV(r["t"], f)

    # -------------------------------------------------------------- calls
    def callfn(self, fn, this, args, st, tag, caps=None, fillthis=False):
        """Inline fn. args: list of values / LVs matching params. Returns value."""
        self.depth += 1
        if self.depth > 60:
            raise Unsup("recursion in " + fn["q"])
        pushed = False
        try:
            fid = tag
            fr = Frame(fid, fn, fn["tu"], this, caps)
            self.used.add((fn["q"], fn["file"], fn["l"]))
            for p, a in zip(fn["params"], args):
                loc = (fid, p["id"])
                st.mem[loc] = RefV(a) if isinstance(a, LV) and p["t"].rstrip().endswith("&") else a
            g0 = st.guard
            st.guard = TRUE
            self.gstack.append(g0)
            pushed = True
            if fn.get("ctor"):
                self.run_inits(fn, fr, st)
            out = self.stmt(fn["body"], st, fr)
            rets = fr.rets
            if out is not None:
                rets = rets + [(out.guard, None, out)]
            if not rets:
                raise Dead()
            g, v, s = rets[-1]
            for g2, v2, s2 in reversed(rets[:-1]):
                v = merge(g2, v2, v)
                s = merge_state(g2, s2, s)
            pre = fid
            if isinstance(v, LV) and v.loc and isinstance(v.loc, tuple) and v.loc[0] == fid:
                v = self.load(s, v)
            if self.closed is not None:
                self.closed += [x for k, x in s.mem.items() if isinstance(x, VecV) and x.kind == "stream" and isinstance(k, tuple) and isinstance(k[0], str) and (k[0] == pre or k[0].startswith(pre + "/"))]
            st.mem = {k: x for k, x in s.mem.items() if not (isinstance(k, tuple) and isinstance(k[0], str) and (k[0] == pre or k[0].startswith(pre + "/")))}
            st.guard = andn(g0, s.guard)
            return v
        finally:
            self.depth -= 1
            if pushed:
                self.gstack.pop()

    def run_inits(self, fn, fr, st):
        rec = self.db.rec(fn["cls"], fn["tu"])
        done = set()
        for i in fn.get("inits", []):
            if i.get("base"):
                ini = i["init"]
                if ini is None:
                    continue
                v = self.ev(ini, st, fr)
                cur = self.load(st, fr.this)
                if isinstance(v, StructV) and isinstance(cur, StructV):
                    f = dict(cur.f)
                    f.update(v.f)
                    self.store(st, fr.this, StructV(cur.cls, f))
            elif i.get("field"):
                ft = None
                for fl in (rec or {"fields": []})["fields"]:
                    if fl["name"] == i["field"]:
                        ft = fl["t"]
                if i["init"] is None:
                    continue
                if ft and ft.rstrip().endswith("&"):
                    v = RefV(self.lval(i["init"], st, fr))
                else:
                    v = self.conv_init(st, fr, i["init"], ft or "")
                self.store_field(st, fr.this, i["field"], v)
                done.add(i["field"])
            elif i.get("delegate"):
                v = self.ev(i["init"], st, fr)
                self.store(st, fr.this, v)

    def store_field(self, st, this, name, v):
        cur = self.load(st, this)
        if isinstance(cur, StructV):
            self.store(st, this, cur.set(name, v))
        else:
            self.store(st, this.sub(("f", name)), v)

    def conv_init(self, st, fr, init, t):
        """Value of initialiser expression for an object of (non-reference) type t."""
        v = self.ev(init, st, fr)
        return self.coerce(v, t, st)

    def coerce(self, v, t, st):
        t = clean(t)
        if isinstance(v, RefV) and not (is_arma(t) and "subview" in t):
            v = self.load(st, v.lv)
        if isflt_t(t) and isinstance(v, (int, Node)):
            return num(v)
        if (t.startswith("arma::Col") or t.startswith("arma::Mat") or t.startswith("arma::Row")) and isinstance(v, RefV):
            return self.load(st, v.lv)
        if isinstance(v, MatV):
            if t.startswith("arma::Col<") and v.n == 0:
                return MatV(0, 1, ())
        return v

    def args(self, params_t, argnodes, st, fr):
        out = []
        for i, a in enumerate(argnodes):
            pt = params_t[i] if i < len(params_t) else ""
            if pt.rstrip().endswith("&"):
                out.append(self.lval(a, st, fr))
            else:
                out.append(self.coerce(self.ev(a, st, fr), pt, st))
        return out

    def tag(self, fr, e, st):
        return "%s/%s" % (fr.id, self.eid(e))

    def eid(self, e):
        """Deterministic number of an expression (order of first use)."""
        t = e.get("_tag")
        if t is None:
            self.db.ntag += 1
            t = e["_tag"] = self.db.ntag
        return t

    def call(self, e, ref, this, argnodes, st, fr):
        """Resolved call. Returns a value, or an LV when the function returns a reference."""
        q = ref["q"]
        h = self.hooks.get(q)
        if h is not None:
            a = self.args(ref["pt"], argnodes, st, fr)
            r = h(self, st, fr, e, this, a)
            if r is not NotImplemented:
                return r
        fn = self.db.fn(ref["fn"], fr.tu)
        if fn is not None and ref.get("virtual") and not e.get("qualified") and this is not None:
            fn = self.devirt(fn, ref, this, st, fr)
        if fn is None and ref.get("virtual") and this is not None:
            fn = self.devirt(None, ref, this, st, fr)
        if fn is not None:
            a = self.args([p["t"] for p in fn["params"]], argnodes, st, fr)
            for p in fn["params"][len(a):]:
                if p.get("def") is not None:
                    a.append(self.ev(p["def"], st, fr))
            return self.callfn(fn, this, a, st, self.tag(fr, e, st))
        return intrin.call(self, e, ref, this, argnodes, st, fr)

    def devirt(self, fn, ref, this, st, fr):
        v = self.load(st, this)
        if isinstance(v, StructV):
            r = self.db.rec(v.cls, fr.tu)
            name = ref["q"].rsplit("::", 1)[1]
            while r is not None:
                for m in r["methods"]:
                    if m["name"] == name and not m["pure"]:
                        f = self.db.fn(m["fn"], fr.tu)
                        if f is not None and len(f["params"]) == len(ref["pt"]):
                            return f
                r = self.db.rec(r["bases"][0], fr.tu) if r["bases"] else None
        return fn

    def call_value(self, f, argnodes, st, fr, e):
        if isinstance(f, IteV):
            s2 = st.copy()
            s1 = st.copy()
            s1.guard = andn(st.guard, f.c)
            s2.guard = andn(st.guard, notn(f.c))
            v1 = self.call_value(f.a, argnodes, s1, fr, e)
            v2 = self.call_value(f.b, argnodes, s2, fr, e)
            m = merge_state(f.c, s1, s2)
            st.mem, st.guard = m.mem, st.guard
            return merge(f.c, v1, v2)
        if isinstance(f, LV):
            return self.call_value(self.load(st, f), argnodes, st, fr, e)
        if isinstance(f, RefV):
            return self.call_value(self.load(st, f.lv), argnodes, st, fr, e)
        if isinstance(f, FnV):
            return self.call(e, f.ref, None, argnodes, st, fr)
        if isinstance(f, ClosV):
            fn = self.db.fn(f.ref["fn"], f.tu)
            if fn is None:
                return self.top("lambda without body", e)
            a = self.args([p["t"] for p in fn["params"]], argnodes, st, fr)
            return self.callfn(fn, f.this, a, st, self.tag(fr, e, st), caps=f)
        return self.top("call through %s" % type(f).__name__, e)

    # ---------------------------------------------------------- expressions
    def rv(self, v, st):
        """Turn an LV result into the value it designates."""
        if isinstance(v, LV):
            return self.load(st, v)
        if isinstance(v, ViewV):
            return self.load(st, v.lv)
        return v

    def ev(self, e, st, fr):
        """Evaluate to an rvalue (class values by value; pointers are LVs)."""
        self.steps += 1
        old = self.here, self.gst
        self.here, self.gst = (fr, e.get("l", 0)), st
        k = e["k"]
        if "cv" in e and k != "Call" and k != "MCall":
            v = int(e["cv"])
            self.here, self.gst = old
            if clean(e["t"]) == "bool":
                return bool(v)
            return v
        m = getattr(self, "e_" + k, None)
        if m is None:
            return self.top("expression " + k, e)
        v = m(e, st, fr)
        if e.get("lv") and isinstance(v, LV) and k not in ("Cast",):
            v = self.load(st, v)
        if isinstance(v, RefV) and not isinstance(v, ViewV):
            v = self.load(st, v.lv)
        self.here, self.gst = old
        return v

    def lval(self, e, st, fr):
        """Evaluate to an LV (materialising a temporary when needed)."""
        k = e["k"]
        m = getattr(self, "l_" + k, None)
        if m is not None:
            old = self.here, self.gst
            self.here, self.gst = (fr, e.get("l", 0)), st
            v = m(e, st, fr)
            self.here, self.gst = old
            if isinstance(v, (LV, IteV)):
                return v
            if v is not None:
                return self.temp(v, e, st, fr)
        v = self.ev(e, st, fr)
        return self.temp(v, e, st, fr)

    def temp(self, v, e, st, fr):
        if isinstance(v, ViewV):
            return v.lv
        loc = (fr.id, "tmp%d" % self.eid(e))
        st.mem[loc] = v
        return LV(loc)

    # literals
    def e_Int(self, e, st, fr):
        return int(e["v"])

    def e_Float(self, e, st, fr):
        t = e["text"].rstrip("fFlL") if not e["text"].lower().startswith("0x") else ""
        try:
            return const(Fraction(t))
        except Exception:
            return const(Fraction(repr(e["d"])))

    def e_Bool(self, e, st, fr):
        return bool(e["v"])

    def e_Char(self, e, st, fr):
        return int(e["v"])

    def e_Str(self, e, st, fr):
        return e["v"]

    def l_Str(self, e, st, fr):
        return None

    def e_NullPtr(self, e, st, fr):
        return NULL

    def e_This(self, e, st, fr):
        if fr.caps is not None and fr.this is None:
            return fr.caps.this
        return fr.this

    def l_Ref(self, e, st, fr):
        kind = e["kind"]
        if kind == "fn":
            return None
        if kind == "enum":
            return None
        if kind in ("global", "slocal"):
            g = self.db.tus[fr.tu]["globals"].get(str(e["id"]))
            if g is not None and is_stream(g["t"]) and not g.get("inroot"):
                return LV("G:" + g["q"])
            loc = ("G", fr.tu, str(e["id"]))
            if loc not in st.mem:
                self.lazy(st, loc)
            v = st.mem.get(loc)
            if isinstance(v, RefV):
                return v.lv
            return LV(loc)
        if fr.caps is not None and e["id"] in fr.caps.caps:
            v = fr.caps.caps[e["id"]]
            if isinstance(v, LV):
                return self.through(v, st)
            if isinstance(v, RefV):
                return v.lv
            return self.temp(v, e, st, fr)
        loc = (fr.id, e["id"])
        if loc not in st.mem and fr.caps is not None and fr.caps.frame is not None:
            loc2 = (fr.caps.frame, e["id"])
            if loc2 in st.mem:
                loc = loc2
        return self.through(LV(loc), st)

    def through(self, lv, st):
        if not lv.path:
            v = st.mem.get(lv.loc)
            if isinstance(v, RefV):
                return v.lv
        return lv

    def e_Ref(self, e, st, fr):
        kind = e["kind"]
        if kind == "fn":
            return FnV(e["ref"])
        if kind == "enum":
            return int(e["v"])
        if kind == "other":
            return self.top("reference to " + e.get("q", "?"), e)
        lv = self.l_Ref(e, st, fr)
        return self.load(st, lv)

    def l_Member(self, e, st, fr):
        if e["kind"] == "svar":
            loc = ("G", fr.tu, str(e["id"]))
            return LV(loc)
        if e["kind"] != "field":
            return None
        if e["arrow"]:
            b = self.ev(e["base"], st, fr)
            if isinstance(b, IterV):
                b = intrin.deref(self, b, st)
            if b is NULL:
                return self.temp(self.top("null dereference", e), e, st, fr)
            if isinstance(b, IteV):
                pass
            elif not isinstance(b, LV):
                return self.temp(self.field_of(b, e["name"]), e, st, fr)
        else:
            b = self.lval(e["base"], st, fr)
        if is_arma(e["base"]["t"]) or is_arma(e["base"]["t"].rstrip("* ")):
            v = self.load(st, b)
            return self.temp(intrin.arma_field(self, v, e["name"]), e, st, fr)
        if isinstance(b, IteV):
            lv = IteV(b.c, b.a.sub(("f", e["name"])), b.b.sub(("f", e["name"]))) if isinstance(b.a, LV) and isinstance(b.b, LV) else self.temp(self.top("member through unknown pointer", e), e, st, fr)
            return lv
        lv = b.sub(("f", e["name"]))
        v = self.load(st, lv)
        if isinstance(v, RefV):
            return v.lv
        return lv

    def field_of(self, v, name):
        if isinstance(v, StructV) and name in v.f:
            return v.f[name]
        return self.top("field " + name)

    def e_Member(self, e, st, fr):
        if e["kind"] == "method":
            return FnV(e["ref"])
        if e["kind"] == "field" and not e.get("lv"):
            b = self.ev(e["base"], st, fr)
            if isinstance(b, RefV):
                b = self.load(st, b.lv)
            if isinstance(b, MatV):
                return intrin.arma_field(self, b, e["name"])
            if not isinstance(b, LV):
                return self.field_of(b, e["name"])
        lv = self.l_Member(e, st, fr)
        return self.load(st, lv)

    def l_Index(self, e, st, fr):
        a = self.ev(e["a"], st, fr)
        i = _int(self.ev(e["b"], st, fr))
        self.obligation("access")
        if isinstance(a, str):
            return self.temp(self.index(a, i), e, st, fr)
        if isinstance(a, LV):
            if a.path and a.path[-1][0] == "i" and a.path[-1] == ("i", 0, "decay"):
                a = LV(a.loc, a.path[:-1])
            return a.sub(("i", i))
        if isinstance(a, ArrV):
            return self.temp(self.index(a, i), e, st, fr)
        return self.temp(self.top("subscript of %s" % type(a).__name__, e), e, st, fr)

    def e_Index(self, e, st, fr):
        return self.load(st, self.l_Index(e, st, fr))

    def l_Cast(self, e, st, fr):
        if e["ck"] in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "LValueBitCast", "BaseToDerived") and e.get("lv") or e["ck"] in ("DerivedToBase", "UncheckedDerivedToBase", "NoOp") and not is_ptr(e["t"]):
            return self.lval(e["e"], st, fr)
        return None

    def e_Cast(self, e, st, fr):
        ck = e["ck"]
        s = e["e"]
        if ck == "LValueToRValue":
            if e["e"]["k"] in ("Construct",):
                return self.ev(s, st, fr)
            lv = self.lval(s, st, fr)
            v = self.load(st, lv)
            if isinstance(v, RefV) and not isinstance(v, ViewV):
                v = self.load(st, v.lv)
            if isinstance(v, Node) and "undef" in v.taint:
                self.obligation("read", v, s)
            elif isinstance(v, Top) and v.why.startswith("indeterminate"):
                self.obligation("read", v, s)
            elif isinstance(v, (int, Node)):
                self.obligation("read")
            if isinstance(v, Node) and v.const is not None and isint_t(e["t"]):
                return _int(v)
            return v
        if ck == "ArrayToPointerDecay":
            if s["k"] == "Str":
                return s["v"]
            lv = self.lval(s, st, fr)
            return lv
        if ck in ("FunctionToPointerDecay", "BuiltinFnToFnPtr"):
            return self.ev(s, st, fr)
        if ck == "NullToPointer":
            return NULL
        if ck == "ToVoid":
            self.ev(s, st, fr)
            return None
        v = self.ev(s, st, fr)
        if ck in ("IntegralToFloating",):
            return tofloat(N(v)) if clean(e["t"]) == "float" else N(v)
        if ck == "FloatingToIntegral":
            v = N(v)
            if v.const is not None:
                return int(v.const)
            if v.isint:
                return v
            r = uf("trunc", v)
            r.isint = True
            return r
        if ck in ("IntegralToBoolean", "FloatingToBoolean", "PointerToBoolean"):
            return unbool(B(v))
        if ck == "IntegralCast":
            if isboolv(v) and clean(e["t"]) != "bool":
                if isinstance(v, bool):
                    return int(v)
                return ite(v, ONE, ZERO)
            if isinstance(v, int) and clean(e["t"]).startswith("unsigned") and v < 0:
                bits = {"unsigned int": 32, "unsigned long": 64, "unsigned long long": 64, "unsigned short": 16, "unsigned char": 8}.get(clean(e["t"]), 64)
                return v % (1 << bits)
            if isinstance(v, int) and clean(e["t"]) in ("int", "long", "long long"):
                bits = 32 if clean(e["t"]) == "int" else 64
                v %= 1 << bits
                if v >= 1 << (bits - 1):
                    v -= 1 << bits
                return v
            return v
        if ck == "FloatingCast":
            return tofloat(v) if clean(e["t"]) == "float" else v
        if ck in ("NoOp", "DerivedToBase", "UncheckedDerivedToBase", "BitCast", "BaseToDerived", "ConstructorConversion", "UserDefinedConversion", "Dependent", "BooleanToSignedIntegral", "IntegralToPointer", "LValueBitCast"):
            return v
        return self.top("cast " + ck, e)

    def l_Un(self, e, st, fr):
        op = e["op"]
        if op == "*":
            p = self.ev(e["e"], st, fr)
            if isinstance(p, IterV):
                p = intrin.deref(self, p, st)
            if isinstance(p, (LV, IteV)):
                return p
            return self.temp(self.top("dereference of %s" % type(p).__name__, e), e, st, fr)
        if op in ("++", "--") and not e["post"]:
            lv = self.lval(e["e"], st, fr)
            self.incdec(lv, op, st)
            return lv
        return None

    def incdec(self, lv, op, st):
        old = self.load(st, lv)
        if isinstance(old, IterV) and isinstance(old.pos, tuple) and old.pos[0] in ("key", "end"):
            p = intrin.mapstep(self.load(st, old.lv), old.pos, 1 if op == "++" else -1)
            new = IterV(old.lv, p) if p else self.top("iterator")
        elif isinstance(old, IterV):
            new = IterV(old.lv, old.pos + (1 if op == "++" else -1) if isinstance(old.pos, int) else self.top("iterator"), None)
        elif isinstance(old, LV) and old.path and old.path[-1][0] == "i" and isinstance(old.path[-1][1], int):
            new = LV(old.loc, old.path[:-1] + (("i", old.path[-1][1] + (1 if op == "++" else -1)),))
        elif isinstance(old, int):
            new = old + (1 if op == "++" else -1)
        elif isinstance(old, Node):
            new = _int(add(old, 1 if op == "++" else -1))
        else:
            new = self.top("increment of %s" % type(old).__name__)
        self.store(st, lv, new)
        return old, new

    def e_Un(self, e, st, fr):
        op = e["op"]
        if op in ("++", "--"):
            lv = self.lval(e["e"], st, fr)
            old, new = self.incdec(lv, op, st)
            return old if e["post"] else new
        if op == "&":
            s = e["e"]
            if s["k"] == "Ref" and s["kind"] == "fn" or s["k"] == "Member" and s["kind"] == "method":
                return self.ev(s, st, fr)
            return self.lval(s, st, fr)
        if op == "*":
            lv = self.l_Un(e, st, fr)
            v = self.load(st, lv) if not isinstance(lv, FnV) else lv
            return v
        v = self.ev(e["e"], st, fr)
        if op == "-":
            return _neg(v)
        if op == "+":
            return v
        if op == "!":
            if v is NULL:
                return True
            return unbool(notn(B(v)))
        if op == "~":
            return ~v if isinstance(v, int) else uf("bnot", N(v))
        return self.top("unary " + op, e)

    def totype(self, v, t):
        """Floating value converted to the arithmetic type t."""
        t = clean(t)
        if t == "float":
            return tofloat(v)
        if isint_t(t) and isinstance(v, Node) and not v.isbool and not v.isint:
            if v.const is not None:
                return int(v.const)
            v = uf("trunc", v)
            v.isint = True
        return v

    def l_Bin(self, e, st, fr):
        op = e["op"]
        if op == "=":
            v = self.coerce(self.ev(e["b"], st, fr), e["t"], st)
            lv = self.lval(e["a"], st, fr)
            self.store(st, lv, v)
            return lv
        if op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            b = self.ev(e["b"], st, fr)
            lv = self.lval(e["a"], st, fr)
            a = self.load(st, lv)
            ct = e.get("ct") or e["t"]
            if isflt_t(ct):
                a, b = N(a), N(b)
            v = self.arith(op[:-1], a, b, ct, e)
            if isflt_t(ct):
                v = self.totype(v, e["t"])
            self.store(st, lv, v)
            return lv
        if op == ",":
            self.ev(e["a"], st, fr)
            return self.lval(e["b"], st, fr)
        return None

    def e_Bin(self, e, st, fr):
        op = e["op"]
        if op in ("=", ",") or op.endswith("=") and op not in ("==", "!=", "<=", ">="):
            if op == ",":
                self.ev(e["a"], st, fr)
                return self.ev(e["b"], st, fr)
            return self.load(st, self.l_Bin(e, st, fr))
        if op in ("&&", "||"):
            a = B(self.ev(e["a"], st, fr))
            if op == "&&" and a is FALSE:
                return False
            if op == "||" and a is TRUE:
                return True
            if a is TRUE or a is FALSE:
                return unbool(B(self.ev(e["b"], st, fr)))
            c = a if op == "&&" else notn(a)
            s2 = st.copy()
            s2.guard = andn(st.guard, c)
            b = B(self.ev(e["b"], s2, fr))
            g = st.guard
            m = merge_state(c, s2, st)
            st.mem, st.guard = m.mem, g
            return unbool(andn(a, b) if op == "&&" else orn(a, b))
        a = self.ev(e["a"], st, fr)
        b = self.ev(e["b"], st, fr)
        return self.arith(op, a, b, e["t"], e)

    def arith(self, op, a, b, t, e):
        if t and op in ("+", "-", "*", "/") and clean(t) == "float":
            return tofloat(self.arith(op, a, b, "double", e))
        if isinstance(a, IteV):
            return merge(a.c, self.arith(op, a.a, b, t, e), self.arith(op, a.b, b, t, e))
        if isinstance(b, IteV):
            return merge(b.c, self.arith(op, a, b.a, t, e), self.arith(op, a, b.b, t, e))
        if op in ("==", "!="):
            if a is NULL or b is NULL or isinstance(a, (LV, FnV)) and isinstance(b, (LV, FnV)):
                r = same(a, b)
                if isinstance(a, Top) or isinstance(b, Top):
                    return batom("top:pointer", taint=frozenset(["top"]))
                return r if op == "==" else not r
            if isinstance(a, str) or isinstance(b, str):
                if isinstance(a, str) and isinstance(b, str):
                    return (a == b) == (op == "==")
                x, y = (a, b) if isinstance(b, str) else (b, a)
                if isinstance(x, Node) and not x.taint:     # an opaque string
                    r = batom("is:" + y, x)
                    return r if op == "==" else notn(r)
                return batom("top:string", taint=frozenset(["top"]))
            if isinstance(a, IterV) and isinstance(b, IterV):
                r = same(a.pos, b.pos)
                return r if op == "==" else not r
            if isboolv(a) and isboolv(b):
                x, y = B(a), B(b)
                r = orn(andn(x, y), andn(notn(x), notn(y))) if x is not y else TRUE
                return unbool(r if op == "==" else notn(r))
            r = eq(N(a), N(b))
            return unbool(r if op == "==" else notn(r))
        if op in ("<", ">", "<=", ">="):
            if isinstance(a, IterV) and isinstance(b, IterV) and isinstance(a.pos, int) and isinstance(b.pos, int):
                a, b = a.pos, b.pos
            x, y = N(a), N(b)
            return unbool(lt(x, y) if op == "<" else lt(y, x) if op == ">" else le(x, y) if op == "<=" else le(y, x))
        if isinstance(a, bool):
            a = int(a)
        if isinstance(b, bool):
            b = int(b)
        if isinstance(a, IterV) and isinstance(b, int) and isinstance(a.pos, int):
            return IterV(a.lv, a.pos + b if op == "+" else a.pos - b)
        if isinstance(a, IterV) and isinstance(b, IterV) and op == "-":
            return a.pos - b.pos
        if isinstance(a, LV) and op in ("+", "-") and isinstance(b, int):
            if a.path and a.path[-1][0] == "i":
                return LV(a.loc, a.path[:-1] + (("i", a.path[-1][1] + (b if op == "+" else -b)),))
            return a.sub(("i", b if op == "+" else -b))
        if isint_t(t) or t == "bool" or not isflt_t(t):
            if isinstance(a, int) and isinstance(b, int):
                if op == "+":
                    return a + b
                if op == "-":
                    r = a - b
                    if clean(t).startswith("unsigned") and r < 0:
                        r %= 1 << (32 if clean(t) == "unsigned int" else 64)
                    return r
                if op == "*":
                    return a * b
                if op in ("/", "%"):
                    self.obligation("intdiv", *(() if b else (ZERO,)))
                    if b == 0:
                        self.notes.append(("divzero", e.get("l")))
                        return self.top("integer division by zero", e)
                    qn = abs(a) // abs(b)
                    if (a < 0) != (b < 0):
                        qn = -qn
                    return qn if op == "/" else a - qn * b
                if op == "&":
                    return a & b
                if op == "|":
                    return a | b
                if op == "^":
                    return a ^ b
                if op == "<<":
                    return a << b
                if op == ">>":
                    return a >> b
            if op in ("/", "%"):
                d = num(b)
                self.obligation("intdiv", *(() if d.const else (d,)))
            if op == "%" and isinstance(b, int) and abs(b) == 1:
                return 0
            if op == "/" and isinstance(b, int) and b == 1:
                return a
            if op in ("/", "%", "&", "|", "^", "<<", ">>"):
                r = uf("int" + op, N(a), N(b))
                r.isint = True
                return r
        x, y = N(a), N(b)
        if op == "+":
            return _fixint(add(x, y), t)
        if op == "-":
            return _fixint(sub(x, y), t)
        if op == "*":
            return _fixint(mul(x, y), t)
        if op == "/":
            return div(x, y)
        return self.top("operator " + op, e)

    def e_Cond(self, e, st, fr):
        return self.cond(e, st, fr, self.ev)

    def l_Cond(self, e, st, fr):
        if not e.get("lv"):
            return None
        return self.cond(e, st, fr, self.lval)

    def cond(self, e, st, fr, f):
        c = B(self.ev(e["cond"], st, fr))
        if c is TRUE:
            return f(e["a"], st, fr)
        if c is FALSE:
            return f(e["b"], st, fr)
        s2 = st.copy()
        g = st.guard
        st.guard = andn(g, c)
        s2.guard = andn(g, notn(c))
        a = f(e["a"], st, fr)
        b = f(e["b"], s2, fr)
        m = merge_state(c, st, s2)
        st.mem, st.guard = m.mem, g
        return merge(c, a, b)

    # calls
    def e_Call(self, e, st, fr):
        if "ref" in e:
            return self.rvcall(e, self.call(e, e["ref"], None, e["args"], st, fr), st)
        f = self.ev(e["callee"], st, fr)
        return self.rvcall(e, self.call_value(f, e["args"], st, fr, e), st)

    def l_Call(self, e, st, fr):
        if not e.get("lv"):
            return None
        if "ref" in e:
            return self.call(e, e["ref"], None, e["args"], st, fr)
        f = self.ev(e["callee"], st, fr)
        return self.call_value(f, e["args"], st, fr, e)

    def rvcall(self, e, v, st):
        if isinstance(v, LV) and (e.get("lv") or str((e.get("ref") or {}).get("rt", "")).rstrip().endswith("&&")):
            return self.load(st, v)
        return v

    def obj(self, e, st, fr):
        if e.get("obj") is None:
            return None
        o = e["obj"]
        if e.get("arrow"):
            b = self.ev(o, st, fr)
            if isinstance(b, IterV):
                b = intrin.deref(self, b, st)
            return b
        return self.lval(o, st, fr)

    def l_MCall(self, e, st, fr):
        if "ref" not in e:
            return None
        o = self.obj(e, st, fr)
        return self.call(e, e["ref"], o, e["args"], st, fr)

    def e_MCall(self, e, st, fr):
        if "ref" not in e:
            f = self.ev(e["callee"], st, fr) if "callee" in e else Top("callee")
            return self.call_value(f, e["args"], st, fr, e)
        o = self.obj(e, st, fr)
        v = self.call(e, e["ref"], o, e["args"], st, fr)
        return self.rvcall(e, v, st)

    def opcall(self, e, st, fr):
        ref = e.get("ref")
        if ref is None:
            return self.top("operator call", e)
        if ref.get("method"):
            if ref.get("lambda") and e["op"] == "()":
                f = self.load(st, self.lval(e["args"][0], st, fr))
                return self.call_value(f, e["args"][1:], st, fr, e)
            if ref.get("implicit") and e["op"] == "=":
                v = self.ev(e["args"][1], st, fr)
                if isinstance(v, RefV):
                    v = self.load(st, v.lv)
                lv = self.lval(e["args"][0], st, fr)
                self.store(st, lv, v)
                return lv
            o = self.lval(e["args"][0], st, fr)
            return self.call(e, ref, o, e["args"][1:], st, fr)
        return self.call(e, ref, None, e["args"], st, fr)

    def l_OpCall(self, e, st, fr):
        v = self.opcall(e, st, fr)
        return v if v is not None else Top("void")

    def e_OpCall(self, e, st, fr):
        return self.rvcall(e, self.opcall(e, st, fr), st)

    def e_Construct(self, e, st, fr):
        t = clean(e["t"])
        if e.get("copy") and (e.get("implicitctor") or not (e["ref"].get("inroot"))) and e["args"]:
            v = self.ev(e["args"][0], st, fr)
            if isinstance(v, ViewV) and "subview" not in t:
                v = self.load(st, v.lv)
            self.moveout(e["args"][0], e["ref"], 0, st, fr)
            return v
        fn = self.db.fn(e["ref"]["fn"], fr.tu)
        h = self.hooks.get("ctor:" + e["ref"].get("q", ""))
        if h is not None:
            return h(self, st, fr, e, None, self.args(e["ref"]["pt"], e["args"], st, fr))
        if fn is not None and fn.get("ctor") and not e.get("implicitctor"):
            loc = (fr.id, "ctor%d" % self.eid(e))
            rec = self.db.rec(t, fn["tu"])
            st.mem[loc] = self.default_rec(rec, fn["tu"], rec["q"], False, st, fr) if rec else StructV(t, {})
            a = self.args([p["t"] for p in fn["params"]], e["args"], st, fr)
            for p in fn["params"][len(a):]:
                if p.get("def") is not None:
                    a.append(self.ev(p["def"], st, fr))
            self.callfn(fn, LV(loc), a, st, self.tag(fr, e, st))
            return st.mem.pop(loc)
        rec = self.db.rec(t, fr.tu)
        if rec is not None:
            if not e["args"]:
                return self.implicit_ctor(rec, st, fr, e)
            return self.top("constructor of " + t, e)
        return intrin.construct(self, e, t, st, fr)

    def moveout(self, arg, ref, k, st, fr):
        """The object given as std::move(x) to a callee taking T&& is left without its value."""
        pt = ref.get("pt") or []
        while arg["k"] == "Cast" and arg["ck"] == "NoOp":
            arg = arg["e"]
        if len(pt) <= k or not pt[k].rstrip().endswith("&&") or arg["k"] != "Call" or arg["ref"].get("q") != "std::move" or len(arg["args"]) != 1:
            return
        lv = self.lval(arg["args"][0], st, fr)
        v = self.load(st, lv)
        if isinstance(v, (RefV,)):
            lv, v = v.lv, self.load(st, v.lv)
        w = emptied(v)
        if w is not v:
            self.store(st, lv, w)

    def implicit_ctor(self, rec, st, fr, e, zero=False):
        """Implicit default constructor: bases, in-class initialisers, member constructors."""
        zero = zero or bool(e.get("zeroinit"))
        f = {}
        tu = fr.tu
        for b in rec["bases"]:
            br = self.db.rec(b, tu)
            if br is not None:
                v = self.construct_default(b, st, fr, e, zero)
                if isinstance(v, StructV):
                    f.update(v.f)
        for fl in rec["fields"]:
            if fl.get("init") is not None:
                if fl["t"].rstrip().endswith("&"):
                    f[fl["name"]] = RefV(self.lval(fl["init"], st, fr))
                else:
                    f[fl["name"]] = self.conv_init(st, fr, fl["init"], fl["t"])
            else:
                f[fl["name"]] = self.construct_default(fl["t"], st, fr, e, zero, rec["q"] + "::" + fl["name"])
        return StructV(rec["t"], f)

    def construct_default(self, t, st, fr, e, zero=False, name=""):
        rec = self.db.rec(t, fr.tu)
        if rec is not None:
            for m in rec["methods"]:
                if m["ctor"] and not m["implicit"] and not m["defaulted"]:
                    fn = self.db.fn(m["fn"], fr.tu)
                    if fn is not None and all(p.get("def") is not None for p in fn["params"]):
                        loc = (fr.id, "dctor%d%s" % (self.eid(e), name))
                        st.mem[loc] = self.default_rec(rec, fn["tu"], rec["q"], False, st, fr)
                        a = [self.ev(p["def"], st, fr) for p in fn["params"]]
                        self.callfn(fn, LV(loc), a, st, "%s/dc%d%s" % (fr.id, self.eid(e), name))
                        return st.mem.pop(loc)
            return self.implicit_ctor(rec, st, fr, e, zero)
        return self.default(t, fr.tu, name or t, zero, st, fr)

    def e_InitList(self, e, st, fr):
        t = clean(e["t"])
        if t.endswith("]"):
            i = t.index("[")
            n = int(t[i + 1:t.index("]")])
            el = t[:i].strip() + t[t.index("]") + 1:]
            vals = [self.conv_init(st, fr, a, el) for a in e["args"]]
            while len(vals) < n:
                vals.append(self.default(el, fr.tu, "arr", zero=True))
            return ArrV(vals)
        if t == "timeval":
            vals = [self.ev(a, st, fr) for a in e["args"]] + [0, 0]
            return StructV(t, {"tv_sec": vals[0], "tv_usec": vals[1]})
        rec = self.db.rec(t, fr.tu)
        if rec is not None:
            f = {}
            args = list(e["args"])
            for b in rec["bases"]:
                if args:
                    v = self.ev(args.pop(0), st, fr)
                    if isinstance(v, StructV):
                        f.update(v.f)
            for fl in rec["fields"]:
                if args:
                    a = args.pop(0)
                    f[fl["name"]] = RefV(self.lval(a, st, fr)) if fl["t"].rstrip().endswith("&") else self.conv_init(st, fr, a, fl["t"])
                else:
                    f[fl["name"]] = self.default(fl["t"], fr.tu, fl["name"], zero=True)
            return StructV(rec["t"], f)
        if len(e["args"]) == 1 and not t.startswith("std::initializer_list") and "[" not in t:
            return self.ev(e["args"][0], st, fr)
        if t.startswith("std::array<"):
            v = self.ev(e["args"][0], st, fr) if e["args"] else ArrV([])
            return v
        return ArrV([self.ev(a, st, fr) for a in e["args"]])

    def e_ArrayInit(self, e, st, fr):
        return self.ev(e["e"], st, fr)

    def e_ZeroInit(self, e, st, fr):
        return self.default(e["t"], fr.tu, "zero", zero=True)

    def e_Lambda(self, e, st, fr):
        caps = {}
        this = None
        for c in e["captures"]:
            if c.get("this"):
                this = fr.this
                continue
            if c["byref"]:
                caps[c["id"]] = self.lval(c["init"], st, fr)
            else:
                v = self.ev(c["init"], st, fr)
                caps[c["id"]] = RefV(self.temp(v, c, st, fr)) if False else v
        return ClosV(e["ref"], caps, this, fr.tu, fr.id)

    def e_Throw(self, e, st, fr):
        if e.get("e") is not None:
            self.ev(e["e"], st, fr)
        raise Dead()

    # ------------------------------------------------------------ statements
    def stmt(self, s, st, fr):
        """Returns the fall-through state or None. Breaks/continues go to fr-level stacks."""
        if s is None or st is None:
            return st
        self.steps += 1
        k = s["k"]
        m = getattr(self, "s_" + k, None)
        if m is not None:
            return m(s, st, fr)
        # expression statement
        try:
            if s["k"] == "Cast" and s.get("ck") == "ToVoid":
                self.discard(s["e"], st, fr)
            else:
                self.discard(s, st, fr)
        except Dead:
            return None
        return st

    def discard(self, e, st, fr):
        if e["k"] == "Cond" and e.get("macro") == "assert":
            return self.assertion(e, st, fr)
        if e.get("lv") and e["k"] in ("Bin", "Un", "OpCall", "MCall", "Call"):
            self.lval(e, st, fr)
        else:
            self.ev(e, st, fr)

    def assertion(self, e, st, fr):
        c = B(self.ev(e["cond"], st, fr))
        # which arm aborts?
        def aborts(x):
            return x["k"] in ("Call",) and x.get("ref", {}).get("noreturn") or x["k"] == "Cast" and aborts(x["e"]) or x["k"] == "Bin" and x["op"] == "," and aborts(x["b"])
        if aborts(e["b"]):
            ok = c
        elif aborts(e["a"]):
            ok = notn(c)
        else:
            self.ev(e, st, fr)
            return
        self.asserts.append((fr.fn["q"] if fr.fn else "", e["l"], ok))
        if ok is FALSE:
            raise Dead()
        st.guard = andn(st.guard, ok)

    def s_Compound(self, s, st, fr):
        for c in s["c"]:
            st = self.stmt(c, st, fr)
            if st is None:
                return None
        return st

    def s_Null(self, s, st, fr):
        return st

    def s_Decl(self, s, st, fr):
        try:
            for d in s["d"]:
                self.declare(d, st, fr)
        except Dead:
            return None
        return st

    def declare(self, d, st, fr):
        loc = (fr.id, d["id"])
        if d.get("static"):
            gl = ("G", fr.tu, str(d["id"]))
            if gl not in st.mem and d.get("init") is not None:
                st.mem[gl] = self.conv_init(st, fr, d["init"], d["t"])
            return
        if d.get("ref"):
            st.mem[loc] = RefV(self.lval(d["init"], st, fr))
            return
        if d.get("init") is None:
            st.mem[loc] = self.default(d["t"], fr.tu, d["name"], False, st, fr)
            return
        i = d["init"]
        if i["k"] == "Construct" and not i["args"] and i.get("implicitctor") and not i.get("zeroinit"):
            rec = self.db.rec(d["t"], fr.tu)
            if rec is not None:
                st.mem[loc] = self.implicit_ctor(rec, st, fr, i)
                return
        v = self.ev(i, st, fr)
        if isinstance(v, ViewV) and "subview" in d["t"]:
            st.mem[loc] = v
            return
        st.mem[loc] = self.coerce(v, d["t"], st)

    def s_Return(self, s, st, fr):
        v = None
        try:
            if s.get("e") is not None:
                rt = fr.fn["rt"] if fr.fn else ""
                if rt.rstrip().endswith("&"):
                    v = self.lval(s["e"], st, fr)
                else:
                    v = self.coerce(self.ev(s["e"], st, fr), rt, st)
        except Dead:
            return None
        fr.rets.append((st.guard, v, st))
        return None

    def s_If(self, s, st, fr):
        try:
            if s.get("init") is not None:
                st = self.stmt(s["init"], st, fr)
            if s.get("cvar") is not None:
                self.declare(s["cvar"], st, fr)
            c = B(self.ev(s["cond"], st, fr))
        except Dead:
            return None
        if c is TRUE:
            return self.stmt(s["then"], st, fr)
        if c is FALSE:
            return self.stmt(s["else"], st, fr) if s.get("else") else st
        g = st.guard
        s2 = st.copy()
        st.guard = andn(g, c)
        s2.guard = andn(g, notn(c))
        a = self.stmt(s["then"], st, fr)
        b = self.stmt(s["else"], s2, fr) if s.get("else") else s2
        if a is None:
            return b
        if b is None:
            return a
        ag, bg = a.guard, b.guard
        m = merge_state(c, a, b)
        if ag is andn(g, c) and bg is andn(g, notn(c)):
            m.guard = g
        else:
            m.guard = orn(ag, bg)
        return m

    def s_Switch(self, s, st, fr):
        v = self.ev(s["cond"], st, fr)
        v = _int(v)
        body = s["body"]
        items = []      # flattened: ('case', value) / ('default',) / stmt

        def flat(x):
            while x["k"] in ("Case", "Default"):
                items.append(("case", x["v"]) if x["k"] == "Case" else ("default",))
                x = x["sub"]
            items.append(("s", x))
        if body["k"] != "Compound":
            raise Unsup("switch body")
        for x in body["c"]:
            if x["k"] in ("Case", "Default"):
                flat(x)
            else:
                items.append(("s", x))
        labels = []
        for i, it in enumerate(items):
            if it[0] == "case":
                labels.append((i, _int(self.ev(it[1], st, fr))))
        dflt = next((i for i, it in enumerate(items) if it[0] == "default"), None)
        starts = []
        rest = TRUE
        if isinstance(v, int):
            tgt = next((i for i, lv in labels if lv == v), dflt)
            starts = [(TRUE, tgt)]
        else:
            for i, lv in labels:
                c = eq(N(v), num(lv))
                starts.append((c, i))
                rest = andn(rest, notn(c))
            starts.append((rest, dflt))
        outs = []
        g0 = st.guard
        for c, i in starts:
            s2 = st.copy()
            s2.guard = andn(g0, c)
            if i is None:
                outs.append((c, s2))
                continue
            brk = []
            self.push(brk, None)
            cur = s2
            for it in items[i:]:
                if it[0] == "s":
                    cur = self.stmt(it[1], cur, fr)
                    if cur is None:
                        break
            self.pop()
            if cur is not None:
                brk.append((cur.guard, cur))
            if brk:
                g, m = brk[-1]
                for g2, m2 in reversed(brk[:-1]):
                    m = merge_state(g2, m2, m)
                outs.append((c, m))
        if not outs:
            return None
        c, m = outs[-1]
        for c2, m2 in reversed(outs[:-1]):
            m = merge_state(c2, m2, m)
        if len(starts) == len(outs):
            m.guard = g0 if all(x[1].guard is andn(g0, x[0]) for x in outs) else m.guard
        return m

    # break / continue targets
    brkstack = None

    def push(self, b, c):
        if self.brkstack is None:
            self.brkstack = []
        self.brkstack.append((b, c))

    def pop(self):
        self.brkstack.pop()

    def s_Break(self, s, st, fr):
        self.brkstack[-1][0].append((st.guard, st))
        return None

    def s_Continue(self, s, st, fr):
        for b, c in reversed(self.brkstack):
            if c is not None:
                c.append((st.guard, st))
                return None
        raise Unsup("continue outside loop")

    def s_While(self, s, st, fr):
        return self.loop(s, None, s["cond"], None, s["body"], st, fr)

    def s_Do(self, s, st, fr):
        return self.loop(s, None, s["cond"], None, s["body"], st, fr, do=True)

    def s_For(self, s, st, fr):
        if s.get("init") is not None:
            st = self.stmt(s["init"], st, fr)
        return self.loop(s, None, s.get("cond"), s.get("inc"), s["body"], st, fr)

    def s_ForRange(self, s, st, fr):
        byref = s["var"].get("ref")
        lv = self.lval(s["range"], st, fr)
        v = self.load(st, lv)
        loc = (fr.id, s["var"]["id"])
        elems = intrin.range_elems(self, v, lv)
        if elems is None:
            raise Unsup("range-for over unknown container at line %s: %r" % (s.get("l"), v))
        brks = []
        for el in elems:
            cont = []
            self.push(brks, cont)
            st.mem[loc] = (RefV(el) if isinstance(el, LV) else el) if byref else (self.load(st, el) if isinstance(el, LV) else el)
            st2 = self.stmt(s["body"], st, fr)
            self.pop()
            st = self.joincont(st2, cont)
            if st is None:
                break
        return self.joincont(st, brks)

    def joincont(self, st, lst):
        """Join states with disjoint guards."""
        if st is not None:
            lst = lst + [(st.guard, st)]
        if not lst:
            return None
        g, m = lst[-1]
        for g2, m2 in reversed(lst[:-1]):
            m = merge_state(g2, m2, m)
        return m

    def loop(self, s, _, cond, inc, body, st, fr, do=False):
        entry = st.copy()
        nrets = len(fr.rets)
        nsafe, noob = len(self.safety), len(self.oob)
        ntr = [len(t) for t in self.trystack]
        # 1. unroll while the condition is constant
        literal = cond is None or cond["k"] == "Bool" or cond.get("cv") is not None and cond["k"] != "Cast"
        if not literal or do:
            brks = []
            cur = st
            n = 0
            first = do
            ok = True
            while True:
                if not first:
                    try:
                        c = B(self.ev(cond, cur, fr))
                    except Dead:
                        cur = None
                        break
                    if c is FALSE:
                        break
                    if c is not TRUE:
                        ok = False
                        break
                first = False
                cont = []
                self.push(brks, cont)
                cur = self.stmt(body, cur, fr)
                self.pop()
                cur = self.joincont(cur, cont)
                if cur is None:
                    break
                if inc is not None:
                    self.discard(inc, cur, fr)
                n += 1
                if n > self.maxunroll or n > 40 and brks and brks[-1][0] is not TRUE and len(brks) > 40:
                    ok = False
                    break
            if ok:
                return self.joincont(cur, brks)
        # 2. unknown trip count: fixpoint from the entry state
        del fr.rets[nrets:]
        del self.safety[nsafe:]
        del self.oob[noob:]
        for t, k in zip(self.trystack, ntr):
            del t[k:]
        return self.fixloop(s, cond, inc, body, entry, fr, do)

    def fixloop(self, s, cond, inc, body, entry, fr, do):
        outer, depth = self.loopstack, len(self.gstack)
        try:
            return self._fixloop(s, cond, inc, body, entry, fr, do)
        finally:
            self.loopstack = outer
            del self.gstack[depth:]

    def _fixloop(self, s, cond, inc, body, entry, fr, do):
        lid = "%s@%s" % (fr.id, s["l"])
        L = Loop(lid, fr.id, s["l"], fr.fn["file"] if fr.fn else "")
        L.fn = fr.fn["q"] if fr.fn else ""
        L.do = do
        L.entry = entry
        head = entry.copy()
        head.guard = TRUE
        head.mem[EV] = VecV(kind="log", pre="EV" + lid)
        nrets = len(fr.rets)
        nsafe, noob = len(self.safety), len(self.oob)
        outer, depth = self.loopstack, len(self.gstack)
        self.loopstack = outer + (L,)
        L.around = outer
        self.gstack.append(entry.guard)
        first = []
        for rnd in range(12):
            del fr.rets[nrets:]
            if rnd == 1:
                # nothing was unknown in the first round: it is the first iteration
                snap = (dict(self.loops), list(self.loopseq))
                first = [o[:4] + (Around([l for l in o[4] if l is not L], getattr(o[4], "snap", snap)),)
                         for o in self.safety[nsafe:] if o[0] == "access" and isinstance(o[3][0], str)]
            del self.safety[nsafe:]
            del self.oob[noob:]
            cur = head.copy()
            exits, backs = [], []
            if not do:
                c = B(self.ev(cond, cur, fr)) if cond is not None else TRUE
                L.cond = c
                if c is not TRUE:
                    x = cur.copy()
                    x.guard = notn(c)
                    exits.append((notn(c), x, "cond"))
                cur.guard = c
            brks, cont = [], []
            self.push(brks, cont)
            cur = self.stmt(body, cur, fr) if (do or cur.guard is not FALSE) else None
            self.pop()
            cur = self.joincont(cur, cont)
            if cur is not None and inc is not None:
                self.discard(inc, cur, fr)
            exits += [(g, x, "break") for g, x in brks]
            if cur is not None and do:
                c = B(self.ev(cond, cur, fr))
                L.cond = c
                if c is not TRUE:
                    x = cur.copy()
                    x.guard = andn(cur.guard, notn(c))
                    exits.append((x.guard, x, "cond"))
                cur.guard = andn(cur.guard, c)
                if c is FALSE:
                    cur = None
            back = cur
            changed = False
            if back is not None:
                for k, hv in list(head.mem.items()):
                    if k == EV:
                        continue
                    if k not in back.mem:
                        continue
                    bv = back.mem[k]
                    if same(hv, bv):
                        continue
                    nv, ch = widen(hv, bv, "%s!%s" % (lid, kname(k)), "", L.mu)
                    if ch:
                        head.mem[k] = nv
                        changed = True
            if not changed:
                break
        else:
            raise Unsup("loop fixpoint did not converge at line %s" % s["l"])
        self.safety += first
        self.loopstack = outer
        del self.gstack[depth:]
        L.head, L.back, L.exits = head, back, exits
        L.returns = [(g, v, x) for g, v, x in fr.rets[nrets:]]
        # returns out of the loop body
        rg = []
        for n, (g, v, x) in enumerate(L.returns):
            x2 = x.copy()
            b = batom("ret:%s#%d" % (lid, n))
            L.retatoms.append(b)
            x2.guard = andn(entry.guard, b)
            x2.mem[EV] = entry.mem[EV].push(("loop", L)).push(("final", x.mem[EV]))
            rg.append(b)
            fr.rets[nrets + n] = (x2.guard, v, x2)
        if lid in self.loops:
            self.loopseq.remove(lid)
        self.loops[lid] = L
        self.loopseq.append(lid)
        if not exits:
            return None
        g, x, kd = exits[-1]
        x = x.copy()
        allg = g
        for g2, x2, _ in reversed(exits[:-1]):
            x = merge_state(g2, x2, x)
            allg = orn(allg, g2)
        keep = {k: v for k, v in x.mem.items()}
        ex = State(keep)
        ex.guard = andn(entry.guard, allg)
        for b in rg:
            ex.guard = andn(ex.guard, notn(b))
        ex.mem[EV] = entry.mem[EV].push(("loop", L)).push(("final", x.mem[EV]))
        L.exit = ex
        return ex

    def s_Try(self, s, st, fr):
        throws = []
        self.trystack.append(throws)
        pre = st.copy()
        out = self.stmt(s["body"], st, fr)
        self.trystack.pop()
        outs = []
        if throws and s["h"]:
            g, m = throws[-1]
            for g2, m2 in reversed(throws[:-1]):
                m = merge_state(g2, m2, m)
            h = self.stmt(s["h"][0]["body"], m, fr)
            if h is not None:
                outs.append((h.guard, h))
        return self.joincont(out, outs)

    def may_throw(self, st, what, *args):
        """An operation that throws when its argument is singular."""
        if self.trystack:
            b = batom("fails:" + what, *args)
            t = st.copy()
            t.guard = andn(st.guard, b)
            self.trystack[-1].append((t.guard, t))
            st.guard = andn(st.guard, notn(b))

    def s_Label(self, s, st, fr):
        return self.stmt(s["sub"], st, fr)

    def s_Case(self, s, st, fr):
        return self.stmt(s["sub"], st, fr)

    s_Default = s_Case


def _fixint(v, t):
    if isint_t(t):
        v = _int(v)
    return v


def _neg(v):
    if isinstance(v, bool):
        return -int(v)
    if isinstance(v, int):
        return -v
    if isinstance(v, IteV):
        return merge(v.c, _neg(v.a), _neg(v.b))
    if isinstance(v, MatV):
        return MatV(v.r, v.c, [neg(x) for x in v.e])
    return neg(N(v))


def is_ptr(t):
    return t.rstrip().endswith("*") or t.rstrip().endswith("*const")


def kname(k):
    return "%s:%s" % (k[0], k[1]) if isinstance(k, tuple) and len(k) == 2 else str(k)


def mapleaves(v, f, path=""):
    if isinstance(v, bool) or isinstance(v, Node) and v.isbool:
        return boolean(ne0(f(v, path)))
    if isinstance(v, (int, Node)):
        n = f(v, path)
        if isinstance(v, int) or v.isint:
            n.isint = True
        return n
    if isinstance(v, MatV):
        return MatV(v.r, v.c, [f(x, "%s(%d)" % (path, i)) for i, x in enumerate(v.e)])
    if isinstance(v, StructV):
        return StructV(v.cls, {k: mapleaves(x, f, path + "." + k) for k, x in v.f.items()})
    if isinstance(v, ArrV):
        return ArrV([mapleaves(x, f, "%s[%d]" % (path, i)) for i, x in enumerate(v.e)])
    return v


def integral(n):
    """An integer, also when chosen among integer constants."""
    if n.isint or n.const is not None and n.const.denominator == 1:
        return True
    return n.op == "ite" and integral(n.args[1]) and integral(n.args[2])


def widen(h, b, base, path, mu):
    """New head value covering h and b; returns (value, changed)."""
    name = "μ" + base + path
    if same(h, b):
        return h, False
    if isinstance(h, Node) and name in mu and h is mu[name]:
        return h, False
    if isboolv(h) and (isboolv(b)):
        n = batom(name, taint=B(h).taint & frozenset(["undef"]))
        mu[name] = n
        return n, True
    if isinstance(h, (int, Node)) and isinstance(b, (int, Node)):
        hn, bn = num(h), num(b)
        ii = (isinstance(h, int) or hn.isint) and (isinstance(b, int) or integral(bn))
        t = (hn.taint & frozenset(["undef"]))
        n = atom(name, taint=t, isint=ii)
        mu[name] = n
        return n, True
    if isinstance(h, MatV) and isinstance(b, MatV) and h.r == b.r and h.c == b.c:
        out, ch = [], False
        for i, (x, y) in enumerate(zip(h.e, b.e)):
            v, c = widen(x, y, base, "%s(%d)" % (path, i), mu)
            out.append(v)
            ch = ch or c
        return MatV(h.r, h.c, out), ch
    if isinstance(h, StructV) and isinstance(b, StructV) and h.f.keys() == b.f.keys():
        f, ch = {}, False
        for k in h.f:
            f[k], c = widen(h.f[k], b.f[k], base, path + "." + k, mu)
            ch = ch or c
        return StructV(h.cls, f), ch
    if isinstance(h, ArrV) and isinstance(b, ArrV) and len(h.e) == len(b.e):
        out, ch = [], False
        for i, (x, y) in enumerate(zip(h.e, b.e)):
            v, c = widen(x, y, base, "%s[%d]" % (path, i), mu)
            out.append(v)
            ch = ch or c
        return ArrV(out), ch
    if isinstance(h, VecV) and isinstance(b, VecV):
        if h.pre is not None and h.pre == b.pre and not h.items and str(h.pre) == name:
            return h, False
        if (h.pre == b.pre and len(h.items) == len(b.items) and same(h.plen, b.plen)
                and all(g is k for (g, _), (k, _) in zip(h.items, b.items))):
            out, ch = [], False
            for i, ((g, x), (_, y)) in enumerate(zip(h.items, b.items)):
                v, c = widen(x, y, base, "%s[%d]" % (path, i), mu)
                out.append((g, v))
                ch = ch or c
            return VecV(out, h.pre, h.plen, h.proto, h.kind), ch
        n = atom(name + ".size", isint=True)
        mu[name + ".size"] = n
        proto = (b.items or h.items)[-1][1] if (b.items or h.items) else (b.proto if b.proto is not None else h.proto)
        return VecV((), name, n, proto, h.kind), True
    if isinstance(h, UnkV):
        return h, False
    if isinstance(h, Top):
        return h, False
    first = name + "?entry"
    if isinstance(h, IteV) and h.c is mu.get(first):
        # one shape before, another after the first pass that sets it
        ch = False
        for v in shapes(b):
            if v is not None and (v.r, v.c) == (h.a.r, h.a.c):
                na, c = widen(h.a, v, base, path + "?", mu)
                h, ch = IteV(h.c, na, h.b), ch or c
            elif v is not None and (v.r, v.c) == (h.b.r, h.b.c):
                nb, c = widen(h.b, v, base, path, mu)
                h, ch = IteV(h.c, h.a, nb), ch or c
            else:
                return UnkV(name), True
        return h, ch
    if isinstance(h, MatV):
        ls = shapes(b)
        new = [v for v in ls if v is not None and (v.r, v.c) != (h.r, h.c)]
        if None not in ls and new and all((v.r, v.c) == (new[0].r, new[0].c) for v in new):
            mu[first] = batom(first)
            body = MatV(new[0].r, new[0].c, [mu.setdefault("%s(%d)" % (name, i), atom("%s(%d)" % (name, i))) for i in range(new[0].n)])
            return widen(IteV(mu[first], h, body), b, base, path, mu)[0], True
    return UnkV(name), True


def shapes(v):
    """Matrices a value may be; None for anything else."""
    if isinstance(v, IteV):
        return shapes(v.a) + shapes(v.b)
    return [v] if isinstance(v, MatV) else [None]
