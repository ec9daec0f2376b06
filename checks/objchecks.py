"""Checks over result objects and timers: P23, P30."""
import os
from front import REPO, PROBE, Broken, extract
from interp import *
import terms as T
from terms import add, sub, mul, div
from lib import rel
from rk import taint
from rkchecks import show
import lin

_db = {}


def database(*files):
    if files not in _db:
        _db[files] = DB(extract(list(files)))
    return _db[files]


def where_of(it, name):
    for q, f, l in sorted(it.used):
        if q == name or q.endswith("::" + name):
            return "%s:%d (%s)" % (rel(f), l, q)
    return name


# --------------------------------------------------------------------- P23
def P23(rep):
    rep.rule("array", "every array of the merged result is the first one's array followed by the second one's")
    rep.rule("sum", "every counter and the elapsed time of the merged result is the sum of the two")
    rep.rule("status", "the merged status is a success exactly when both statuses are")
    rep.rule("fraction", "the merged accepted fraction, which is accepted steps over attempts, is the mean of both weighted by their attempts")
    rep.rule("inputs", "the two results passed in are left as they were")
    db = database(os.path.join(REPO, "irk.cpp"))
    fns = [f for f in db.byq.get("irk::merge_rk_output", []) if f.get("body")]
    if not fns:
        raise Broken("irk::merge_rk_output not found")
    lens = [(a, b) for a in range(3) for b in range(3)] if rep.tier == "quick" else [(a, b) for a in range(6) for b in range(6)]
    for la, lb in lens:
        merge_one(rep, db, fns[0], la, lb, None)
    for s in range(8):
        for t in range(8):
            merge_one(rep, db, fns[0], 1, 1, (s, t))
    return ("irk::merge_rk_output interpreted for results with symbolic contents and arrays of up to %d entries; every member of rk_output is enumerated "
            "from its declaration, so a member added later is covered." % max(a for a, b in lens),
            ["array lengths up to the stated bound", "status codes 0 to 7"], 100)


def fill(it, v, tag, n, path=()):
    """The object with symbolic contents; arrays get n entries."""
    if isinstance(v, StructV):
        return StructV(v.cls, {k: fill(it, x, tag, n, path + (k,)) for k, x in v.f.items()})
    if isinstance(v, VecV):
        nm = "%s.%s" % (tag, ".".join(path))
        el = (lambda k: MatV(2, 1, [atom("%s[%d](%d)" % (nm, k, q)) for q in range(2)])) if elmat(v, path) else (lambda k: atom("%s[%d]" % (nm, k)))
        return VecV([(TRUE, el(k)) for k in range(n)], v.pre, v.plen, v.proto, v.kind)
    if isinstance(v, (int, Node)) and not isinstance(v, bool):
        return atom("%s.%s" % (tag, ".".join(path)), isint=isinstance(v, int) or v.isint)
    return v


_elem = {}


def elmat(v, path):
    return _elem.get(path[-1], False)


def merge_one(rep, db, fn, la, lb, status):
    it = Interp(db, {})
    st = it.new_state()
    fr = Frame("SETUP", None, fn["tu"])
    proto = it.construct_default("irk::rk_output", st, fr, {"k": "setup", "args": []})
    if not isinstance(proto, StructV):
        raise Broken("irk::rk_output cannot be built")
    if not _elem:
        for q in ("irk::rk_output", "basic_output"):
            rec = db.rec(q, fn["tu"])
            for f in (rec or {}).get("fields", []):
                _elem[f.get("name") or f.get("q")] = "vector" in f["t"] and ("vec_type" in f["t"] or "arma::" in f["t"])
    a, b = fill(it, proto, "a", la), fill(it, proto, "b", lb)
    if status:
        a = StructV(a.cls, dict(a.f, status=status[0]))
        b = StructV(b.cls, dict(b.f, status=status[1]))
    st.mem["A"], st.mem["B"] = a, b
    name = "%d and %d entries" % (la, lb) if not status else "statuses %d and %d" % status
    try:
        r = it.callfn(fn, None, [LV("A"), LV("B")], st, "R")
    except (Unsup, Dead) as e:
        rep.undecided("array", name, str(e))
        return
    r = it.rv(r, st) if isinstance(r, LV) else r
    rep.uses(it)
    w = where_of(it, "merge_rk_output")
    if not isinstance(r, StructV):
        rep.undecided("array", name, "result not tracked")
        return
    if status:
        s = r.f.get("status")
        s = s if not isinstance(s, Node) else s.const if s.const is not None else s
        if isinstance(s, Node):
            rep.undecided("status", name, "status not tracked")
        else:
            rep.check((s == 0) == (status == (0, 0)), "status", "merge:status", w, "%s merge to %s" % (name, s), name)
        return
    for nm, before in (("A", a), ("B", b)):
        rep.check(same(before, st.mem[nm]), "inputs", "merge:inputs", w, "%s: the %s result is changed" % (name, "first" if nm == "A" else "second"), name)
    members(rep, r, a, b, w, name, ())
    fraction(rep, r, a, b, w, name)


def fraction(rep, r, a, b, w, name):
    try:
        p, q, m, n, x = (num(v) for v in (a.f["accept_frac"], b.f["accept_frac"], a.f["count"].f["attempt"], b.f["count"].f["attempt"], r.f["accept_frac"]))
    except (KeyError, AttributeError, TypeError):
        rep.undecided("fraction", name, "accepted fraction not tracked")
        return
    if taint(x):
        rep.undecided("fraction", name, "accepted fraction not tracked")
        return
    tot = add(m, n)
    c = Case({pos(tot): True} if pos(tot).op == "pos" else {pos(tot).args[0]: pos(tot).args[1] is not FALSE}, False)
    try:
        cs = [(k, k2) for k, k2 in T.cases(lambda k: [k.red(x)], c.facts, limit=50)]
    except T.TooMany:
        rep.undecided("fraction", name, "too many cases")
        return
    for k, (v,) in cs:
        if lin.System(k).infeasible():
            continue
        rep.check(mul(v, tot) is add(mul(m, p), mul(n, q)), "fraction", "merge:fraction", w,
                  "%s: the accepted fraction is %s, not the mean weighted by attempts, when %s" % (name, show(v, 6), k.describe()[:200]), name)


def members(rep, r, a, b, w, name, path):
    for k in a.f:
        x, p, q = r.f.get(k), a.f[k], b.f[k]
        nm = ".".join(path + (k,))
        if isinstance(p, StructV):
            if not isinstance(x, StructV):
                rep.undecided("sum", "%s %s" % (nm, name), "not tracked")
                continue
            members(rep, x, p, q, w, name, path + (k,))
        elif isinstance(p, VecV):
            if not isinstance(x, VecV) or not x.concrete():
                rep.undecided("array", "%s %s" % (nm, name), "not tracked")
                continue
            want = [v for _, v in p.items + q.items]
            got = [v for _, v in x.items]
            rep.check(len(want) == len(got) and all(same(u, v) for u, v in zip(want, got)), "array", "merge:" + nm, w,
                      "%s: %s has %d entries%s" % (name, nm, len(got), "" if len(got) != len(want) else ", but not those of both results in order"), "%s %s" % (nm, name))
        elif nm == "status" or k in ("accept_frac",):
            continue
        elif isinstance(p, Node):
            if not isinstance(x, (int, Node)) or isinstance(x, Node) and taint(x):
                rep.undecided("sum", nm, "not tracked")
                continue
            x = num(x)
            rep.check(x is add(p, q), "sum", "merge:" + nm, w, "%s: %s is %s instead of the sum" % (name, nm, show(x)), nm)


def same(a, b):
    if a is b:
        return True
    if isinstance(a, MatV) and isinstance(b, MatV):
        return a.r == b.r and a.c == b.c and all(x is y for x, y in zip(a.e, b.e))
    if isinstance(a, StructV) and isinstance(b, StructV):
        return a.cls == b.cls and set(a.f) == set(b.f) and all(same(a.f[k], b.f[k]) for k in a.f)
    if isinstance(a, VecV) and isinstance(b, VecV):
        return len(a.items) == len(b.items) and all(g is h and same(x, y) for (g, x), (h, y) in zip(a.items, b.items)) and a.pre is b.pre
    if isinstance(a, (int, Node)) and isinstance(b, (int, Node)):
        return num(a) is num(b)
    return a == b


# --------------------------------------------------------------------- P30
READ = {"probe_t1": (1, 0), "probe_t2": (2, 1), "probe_t3": (2, 0), "probe_t4": (1, 0), "probe_t5": (2, 0), "probe_t6": (3, 2)}


def ms(b, a):
    """Milliseconds between two clock readings."""
    d = lambda n: sub(uf(n, num(b)), uf(n, num(a)))
    return add(mul(const(1000), d("clock.sec")), mul(const(Fraction(1, 1000)), d("clock.usec")))


def P30(rep):
    rep.rule("timer", "a timer query returns the milliseconds between the reading at tic() or construction (or the given one) and a new reading")
    rep.rule("printed", "the times printed by toc are the returned time with the printed unit")
    rep.rule("report", "every line of the timing report shows a table entry (or their total) in the stated unit and its percentage of the total")
    rep.rule("elapsed", "the elapsed time of a result is the time between the first clock reading of the call and a reading after the last step")
    db = database(os.path.join(PROBE, "timer.cpp"))
    timers(rep, db)
    report(rep, db)
    elapsed(rep)
    return ("my_timer interpreted with symbolic clock readings through six call sequences that use every query, print_timing_breakdown with a symbolic table, "
            "and the elapsed time of both Runge-Kutta integrators.", ["the clock is gettimeofday; the Windows timer, which is a stub by design, is not analysed"], 20)


def run(db, name, args):
    it = Interp(db, {})
    st = it.new_state()
    st.mem["CLOCK"] = 0
    st.mem["S"] = VecV((), kind="stream")
    f = [q for q in db.byq.get(name, []) if q.get("body")]
    if not f:
        raise Broken(name + " not found")
    try:
        r = it.callfn(f[0], None, args(st), st, "R")
    except (Unsup, Dead) as e:
        return it, st, None, str(e)
    return it, st, it.rv(r, st) if isinstance(r, LV) else r, None


def timers(rep, db):
    for name, (b, a) in READ.items():
        it, st, r, err = run(db, name, lambda st: [LV("S")] if name[-1] in "456" else [])
        rep.uses(it)
        w = where_of(it, "get_elapsed" if any(q.endswith("::get_elapsed") for q, f, l in it.used) else "toc")
        if not isinstance(r, (int, Node)) or isinstance(r, Node) and taint(r):
            rep.undecided("timer", name, err or "not tracked")
            continue
        rep.check(num(r) is ms(b, a), "timer", "my_timer:" + name, w, "the query in %s returns %s instead of the milliseconds between clock readings %d and %d" % (name, show(num(r), 6), a, b), name)
        s = st.mem.get("S")
        if name[-1] not in "456":
            continue
        if not isinstance(s, VecV) or not s.concrete():
            rep.undecided("printed", name, "output not tracked")
            continue
        items = [v for _, v in s.items]
        want = ms(1, 0) if name == "probe_t5" else ms(b, a)
        n = 0
        for k, v in enumerate(items[:-1]):
            if isinstance(v, (Node, int)) and not isinstance(v, bool):
                t = "".join(x for x in items[k + 1:k + 2] if isinstance(x, str)).strip().lower()
                unit = "ms" if t.startswith("ms") or t.startswith("milli") else "s" if t.startswith("s") else "us" if t.startswith("us") or t.startswith("micro") else None
                f = {"ms": const(1), "s": const(Fraction(1, 1000)), "us": const(1000)}.get(unit)
                if f is None:
                    continue
                n += 1
                rep.check(num(v) is mul(f, want), "printed", "my_timer:printed", where_of(it, "toc"), "%s: the time printed in %s is %s" % (name, unit, show(num(v), 6)), "%s %s" % (name, unit))
        if not n:
            rep.undecided("printed", name, "no printed time with a unit found")


def report(rep, db):
    n = 7
    ts = [atom("timing%d" % k, True) for k in range(n)]
    name = "probe_report"

    def args(st):
        st.mem["V"] = VecV([(TRUE, t) for t in ts])
        return [LV("V"), LV("S")]
    it, st, r, err = run(db, name, args)
    rep.uses(it)
    w = where_of(it, "print_timing_breakdown")
    s = st.mem.get("S")
    if not isinstance(s, VecV) or err:
        rep.undecided("report", name, err or "output not tracked")
        return
    total = ZERO
    for t in ts:
        total = add(total, t)

    def want(c):
        out = []
        for g, v in s.items:
            if c.red(g) is FALSE:
                continue
            v = pick(c, v)
            out.append(c.red(v) if isinstance(v, Node) else v)
        return out
    try:
        for c, items in T.cases(want, {}, limit=64):
            lines, cur = [], []
            txt = ""
            for v in items:
                if isinstance(v, str):
                    txt += v
                    if v.endswith("\n"):
                        lines.append((txt, cur))
                        txt, cur = "", []
                elif isinstance(v, (int, Node)):
                    cur.append(num(v))
                else:
                    txt += str(v)
            head = " ".join(t for t, v in lines if len(v) < 2)
            unit = 1 if "(ms" in head else Fraction(1, 1000) if "( s" in head or "(s" in head else None
            if unit is None:
                rep.undecided("report", "header", "no unit found in %r" % head[:80])
                continue
            seen = []
            tot = mul(const(unit), total)
            for t, v in lines:
                if len(v) != 2:
                    continue
                x, p = v
                nm = t.strip().split("|")[0].strip().rstrip(":")
                k = [i for i, q in enumerate(ts) if mul(const(unit), q) is x]
                lab = "%s (%s)" % (nm, "ms" if unit == 1 else "s")
                rep.check(bool(k) or x is tot, "report", "report:value", w, "%s shows %s, which is neither a table entry nor the total in that unit" % (lab, show(x, 5)), lab)
                rep.check(p is mul(const(100), div(x, tot)), "report", "report:percentage", w, "%s: the percentage is %s" % (lab, show(p, 6)), lab + " percentage")
                if "otal" in nm:
                    rep.check(x is tot, "report", "report:total", w, "%s shows %s" % (lab, show(x, 5)), lab)
                seen += k
            rep.check(len(seen) == len(set(seen)), "report", "report:twice", w, "a table entry is shown under two names", "distinct entries")
            if not seen:
                rep.undecided("report", "entries", "no line with a value and a percentage")
    except T.TooMany as e:
        rep.undecided("report", name, str(e))


def pick(c, v):
    while isinstance(v, IteV):
        v = v.a if c.red(v.c) is TRUE else v.b
    return v


def elapsed(rep):
    import rk
    for fam in ("erk", "irk"):
        for tm in (False, True):
            if fam == "erk" and tm:
                continue
            m = rk.model(rep, fam, timing=tm)
            if m is None:
                continue
            x = num(m.ret.f["elapsed_time"]) if isinstance(m.ret, StructV) and "elapsed_time" in m.ret.f else None
            if x is None or taint(x):
                rep.undecided("elapsed", m.name, "not tracked")
                continue
            from nlchecks import noret
            x = noret(x)
            # readings in the term that are made after the loop
            evs = [q for g, q in m.log.items]
            li = max((i for i, q in enumerate(evs) if q[0] == "loop" and q[1] is m.L), default=-1)
            late = {q[1].nid for q in evs[li + 1:] if q[0] == "clock"}
            ks = {q.args[1].nid: q.args[1] for q in T.subnodes(x) if q.op == "uf" and q.args[0] == "clock.sec"}
            ok = any(x is ms(b, ZERO) and b.nid in late for b in ks.values())
            rep.check(ok, "elapsed", fam + ":elapsed", m.where, "%s: the elapsed time is %s" % (m.name, show(x, 6)), m.name)
