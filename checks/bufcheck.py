"""P21: the history buffer, by exploring its abstract states.

The buffer is interpreted for every capacity n up to a bound.  Inserted values are
atoms; a state is abstracted to the whole object with each stored value replaced by
its age (number of later insertions), ages of n and more by "old".  Insertions are
explored until no new abstract state appears, so every sequence of insertions is
covered; every reachable state is then observed and copied, assigned and resized.
"""
import os
from front import REPO, PROBE, Broken, extract
from interp import *
import terms as T
from lib import rel
from rkchecks import show

ASSUME = ["capacities up to the stated bound; the code treats all capacities alike", "assertions hold (they are obligations of P36)"]
_db = []


def database():
    if not _db:
        _db.append(DB(extract([os.path.join(PROBE, "buffer.cpp")])))
    return _db[0]


class Bad(Exception):
    pass


class Buf:
    """One interpreted buffer."""
    def __init__(self, it, st, loc):
        self.it, self.st, self.loc = it, st, loc

    def call(self, name, *args):
        it, st = self.it, self.st
        f = [q for q in it.db.byq.get(name, []) if q.get("body")]
        if not f:
            raise Broken(name + " not found")
        n = len(it.oob)
        try:
            r = it.callfn(f[0], None, list(args), st, "R")
        except Dead:
            raise Bad("%s never returns (an assertion fails or an index is out of range)" % name)
        if len(it.oob) > n:
            raise Bad("%s: %s" % (name, it.oob[n]))
        return it.rv(r, st) if isinstance(r, LV) else r


def canon(v, ages, cap):
    """The value with atoms replaced by ages."""
    if isinstance(v, Node):
        if v.op == "atom" and v.nid in ages:
            a = ages[v.nid]
            return ("age", a) if a < cap else "old"
        if v.const is not None:
            return ("c", v.const)
        return ("n", v.nid)
    if isinstance(v, StructV):
        return (v.cls,) + tuple((k, canon(x, ages, cap)) for k, x in sorted(v.f.items()))
    if isinstance(v, VecV):
        return ("vec",) + tuple((canon(g, ages, cap), canon(x, ages, cap)) for g, x in v.items)
    if isinstance(v, (bool, int)):
        return ("c", int(v))
    return repr(v)


class World:
    def __init__(self, rep):
        self.it = Interp(database(), {})
        self.st = self.it.new_state()
        self.n = 0
        self.ages = {}
        self.rep = rep
        for p in self.st.mem:
            pass

    def fresh(self):
        self.n += 1
        return "B%d" % self.n

    def new(self, n):
        loc = self.fresh()
        b = Buf(self.it, self.st, loc)
        self.st.mem[loc] = b.call("probe_new", n)
        return b

    def push(self, b, hist):
        a = atom("v%d" % len(self.ages))
        self.ages[a.nid] = 0
        b.call("probe_push", LV(b.loc), a)
        hist.insert(0, a)
        return a

    def key(self, b, hist, cap):
        return canon(self.st.mem[b.loc], {h.nid: k for k, h in enumerate(hist)}, cap)

    def clone(self, v):
        """Another buffer in the same state (values are immutable)."""
        loc = self.fresh()
        self.st.mem[loc] = v
        return Buf(self.it, self.st, loc)


def val(x):
    if isinstance(x, Node) and x.const is not None:
        return int(x.const)
    if isinstance(x, Node) and x is TRUE:
        return 1
    if isinstance(x, Node) and x is FALSE:
        return 0
    if isinstance(x, (bool, int)):
        return int(x)
    return x


def P21(rep):
    rep.rule("size", "size is the smaller of the capacity and the number of insertions; empty and period agree with it")
    rep.rule("index", "index i is the i-th newest value")
    rep.rule("iterate", "iteration visits exactly the kept values, newest first")
    rep.rule("copy", "a copy, and an assigned buffer whatever it held before, behaves like the original, which is unchanged")
    rep.rule("resize", "a resized buffer is empty, has the new capacity and then works like a new one")
    rep.rule("closed", "insertions reach finitely many abstract states, all of them observed")
    top = 6 if rep.tier == "quick" else 12
    w = World(rep)
    where = "cyclic_buffer.hpp (cyclic_buffer)"
    kept = {}
    for n in range(1, top + 1):
        try:
            kept[n] = explore(rep, w, n, where)
        except Bad as e:
            rep.bad("index", "cyclic_buffer:bounds", where, "capacity %d: %s" % (n, e))
        except Unsup as e:
            rep.undecided("closed", "capacity %d" % n, str(e))
    rep.uses(w.it)
    # assignments between capacities
    for n, A in kept.items():
        for m, B in kept.items():
            if n == m or abs(n - m) > 2 and rep.tier == "quick":
                continue
            for sa, ha in (A[0], A[len(A) // 2], A[-1]):
                for sb, hb in (B[0], B[len(B) // 2], B[-1]):
                    try:
                        b = w.clone(sb)
                        a = w.clone(sa)
                        b.call("probe_assign", LV(b.loc), LV(a.loc))
                        follow(rep, w, b, ha, n, "copy", "cyclic_buffer:assign", where, "capacity %d assigned to capacity %d" % (n, m))
                        r = w.clone(sa)
                        r.call("probe_resize", LV(r.loc), m)
                        follow(rep, w, r, [], m, "resize", "cyclic_buffer:resize", where, "capacity %d resized to %d" % (n, m))
                    except Bad as e:
                        rep.bad("copy", "cyclic_buffer:assign", where, "capacity %d assigned or resized to %d: %s" % (n, m, e))
                    except Unsup as e:
                        rep.undecided("copy", "capacity %d and %d" % (n, m), str(e))
    rep.extra["states"] = {n: len(v) for n, v in kept.items()}
    return ("cyclic_buffer<double> interpreted for capacities 1 to %d: closure of the abstract states (object with values replaced by ages) under push_back, "
            "each state observed through size, empty, period, both index operators and iteration, and after copy, assignment and resize." % top, ASSUME, 200)


def explore(rep, w, n, where):
    b = w.new(n)
    hist = []
    seen = {}
    out = []
    count = 0
    while True:
        k = w.key(b, hist, n)
        if k in seen:
            break
        seen[k] = count
        if count > 6 * n + 6:
            rep.undecided("closed", "capacity %d" % n, "no repeating state after %d insertions" % count)
            return out
        sub_ = "capacity %d after %d insertions" % (n, count)
        observe(rep, w, b, hist, n, "size", "index", "iterate", "cyclic_buffer", where, sub_)
        out.append((w.st.mem[b.loc], list(hist)))
        # copy and self-assignment
        c = w.clone(None)
        w.st.mem[c.loc] = c.call("probe_copy", LV(b.loc))
        follow(rep, w, c, hist, n, "copy", "cyclic_buffer:copy", where, "copy of " + sub_)
        c = w.clone(w.st.mem[b.loc])
        c.call("probe_assign", LV(c.loc), LV(c.loc))
        follow(rep, w, c, hist, n, "copy", "cyclic_buffer:self", where, "self-assigned " + sub_)
        d = w.new(n)
        w.push(d, [])
        d.call("probe_assign", LV(d.loc), LV(b.loc))
        follow(rep, w, d, hist, n, "copy", "cyclic_buffer:assign", where, "assignment of " + sub_)
        # the original is unchanged by all that
        observe(rep, w, b, hist, n, "copy", "copy", "copy", "cyclic_buffer:original", where, sub_)
        w.push(b, hist)
        count += 1
    rep.ok("closed", "capacity %d: %d states" % (n, len(seen)))
    return out


def observe(rep, w, b, hist, n, rs, ri, rt, key, where, sub_):
    m = min(n, len(hist))
    s = val(b.call("probe_size", LV(b.loc)))
    good = rep.check(s == m, rs, key + ":size" if rs == "size" else key, where, "%s: size is %s instead of %d" % (sub_, s, m), sub_)
    e = val(b.call("probe_empty", LV(b.loc)))
    rep.check(e == int(m == 0), rs, key + ":empty" if rs == "size" else key, where, "%s: empty is %s" % (sub_, e), sub_)
    p = val(b.call("probe_period", LV(b.loc)))
    rep.check(p == n, rs, key + ":period" if rs == "size" else key, where, "%s: the capacity is %s instead of %d" % (sub_, p, n), sub_)
    for i in range(m):
        for f in ("probe_at", "probe_cat"):
            x = b.call(f, LV(b.loc), i)
            rep.check(x is hist[i], ri, key + ":index" if ri == "index" else key, where, "%s: index %d is not the %d-th newest value (%s)" % (sub_, i, i, name(x, hist)), sub_)
    if rt == "iterate" and good:
        c = val(b.call("probe_count", LV(b.loc)))
        rep.check(c == m, rt, key + ":iterate", where, "%s: iteration visits %s values instead of %d" % (sub_, c, m), sub_)
        for i in range(m):
            x = b.call("probe_nth", LV(b.loc), i)
            rep.check(x is hist[i], rt, key + ":iterate", where, "%s: iteration yields another value at position %d (%s)" % (sub_, i, name(x, hist)), sub_)


def follow(rep, w, b, hist, n, rule, key, where, sub_):
    """Observe now and after further insertions."""
    h = list(hist)
    observe(rep, w, b, h, n, rule, rule, rule, key, where, sub_)
    for k in range(2 * n + 1):
        w.push(b, h)
        if k in (0, n - 1, n, 2 * n):
            observe(rep, w, b, h, n, rule, rule, rule, key, where, sub_ + " and %d insertions" % (k + 1))


def name(x, hist):
    for k, h in enumerate(hist):
        if x is h:
            return "it is the %d-th newest" % k
    return show(x) if isinstance(x, Node) else str(x)
