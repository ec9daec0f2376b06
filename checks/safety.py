"""Checks over every model at once: P26 (reads), P29 (integer division), P36 (accesses)."""
import os
import re
from front import REPO, PROBE, Broken, extract
from interp import *
from interp import isint_t, clean
import sweep as S
from lib import rel

LIB = ("erk", "irk", "newton", "multistep")
ASSUME = ["the models' bounds: systems of 1 to 3 equations and 1 to 4 stages with symbolic tableaux, plus every published tableau; options symbolic or enumerated (see the evidence of the checks listed under models)",
          "Armadillo and the standard library behave as documented (matrices are zero-filled on construction, std::vector::back needs an element)"]


def databases():
    fs = [os.path.join(PROBE, n + ".cpp") for n in ("erk", "irk", "newton", "multistep", "buffer", "timer")] + [os.path.join(REPO, n + ".cpp") for n in ("erk", "irk", "newton")]
    return DB(extract(fs))


def library_file(f):
    return f.startswith(REPO + "/") and "/" not in f[len(REPO) + 1:] and not os.path.basename(f).startswith("test")


def walk(x):
    st = [x]
    while st:
        n = st.pop()
        if isinstance(n, dict):
            if "k" in n:
                yield n
            st.extend(n.values())
        elif isinstance(n, list):
            st.extend(n)


def functions(db):
    seen = set()
    for tu in db.tus:
        for f in tu["functions"].values() if isinstance(tu["functions"], dict) else tu["functions"]:
            if f.get("body") and library_file(f["file"]):
                k = (f["q"], f["file"], f["l"], str([p["t"] for p in f["params"]]))
                if k not in seen:
                    seen.add(k)
                    yield f


ACC = {"back", "front", "at", "col", "row", "subvec", "submat", "rows", "cols", "head", "tail", "unsafe_col", "operator[]", "operator()"}


def is_access(n):
    if n["k"] == "Index":
        return True
    if n["k"] == "OpCall" and n.get("op") in ("[]", "()"):
        r = n.get("ref") or {}
        return not r.get("lambda") and str(r.get("cls", "")).startswith(("arma::", "std::vector", "std::array", "std::deque"))
    if n["k"] == "MCall":
        r = n.get("ref") or {}
        return str(r.get("q", "")).rsplit("::", 1)[-1] in ACC and str(r.get("cls", "")).startswith(("arma::", "std::vector", "std::array", "std::deque"))
    return False


def is_intdiv(n):
    return n["k"] == "Bin" and n.get("op") in ("/", "%", "/=", "%=") and isint_t(clean(n["t"])) and "cv" not in n


def collect(rep, kind, rule):
    rs = S.sweep(rep.tier, (kind,))
    models, visited, bad = 0, {}, {}
    for mod, pid, err, nm, sites, out, t in rs:
        models += nm
        if err:
            rep.undecided(rule, pid, "its models cannot be built: %s" % err)
        for (k, s), n in sites.items():
            visited[s] = visited.get(s, 0) + n
        for k, s, v in out:
            if v == "undecided":
                rep.undecided(rule, "%s:%s" % (rel(s[0]), s[1]), "in %s, models of %s" % (s[2], pid))
            elif v != "ok":
                bad.setdefault((s, v), pid)
            else:
                rep.ok(rule, "%s:%s (%s)" % (rel(s[0]), s[1], s[2]))
    for s in visited:
        rep.analysed.add("%s (%s)" % (s[2], rel(s[0])))
    if not models:
        raise Broken("no model could be built")
    rep.extra["models"] = {pid: nm for mod, pid, err, nm, *_ in rs}
    return visited, bad


def report(rep, rule, visited, bad, what):
    badsites = set()
    for (s, v), pid in sorted(bad.items()):
        badsites.add(s)
        fn = s[2].split("<")[0]
        rep.bad(rule, "%s:%s" % (fn, v.split(" when ")[0][:60].replace(" ", "_")), "%s:%s (%s)" % (rel(s[0]), s[1], s[2]), "%s: %s" % (what, v[:400]))
    for s in visited:
        if s not in badsites:
            rep.ok(rule, "%s:%s (%s)" % (rel(s[0]), s[1], s[2]))


def coverage(rep, rule, db, visited, pred, what):
    """Sites of the source no model reaches are not decided."""
    lines = {(f, l) for f, l, q in visited}
    total, missed = set(), {}
    for f in functions(db):
        for n in walk(f["body"]):
            if pred(n) and n.get("l"):
                total.add((f["file"], n["l"]))
                if (f["file"], n["l"]) not in lines:
                    missed.setdefault(f["q"], set()).add(n["l"])
    rep.extra["sites"] = len(total)
    rep.extra["sites_reached"] = len(total) - sum(len(v) for v in missed.values())
    for q, ls in sorted(missed.items()):
        rep.undecided(rule, q, "%s at line %s not reached by a model" % (what, ", ".join(map(str, sorted(ls)))))


def X(rep):
    """Models no other check builds: progress output, printing, interpolation tables."""
    import rk
    k = atom("out_every", isint=True)
    for fam in ("erk", "irk"):
        for ad in (True, False):
            rk.model(rep, fam, outlog=k, adaptive=ad)
            rk.model(rep, fam, Ns=3, Neq=2, adaptive=ad)
        rk.model(rep, fam, adaptive=False, pair=False)
    import ms
    for kind in ("ab", "bdf"):
        for order in (-1, 0, 6, 7, 8):
            try:
                ms.MS(kind, order)
            except Exception:
                pass        # only the obligations met on the way matter
    db = DB(extract([os.path.join(REPO, "irk.cpp"), os.path.join(REPO, "erk.cpp")]))
    for n in (1, 2, 3):
        col = lambda t: MatV(n, 1, [atom("%s%d" % (t, i)) for i in range(n)])
        for q in ("irk::collocation_interpolate_coeffs",):
            run(db, q, [col("c")])
        for pair in (True, False):
            sc = dict(name="M", b=col("b"), c=col("c"), A=MatV(n, n, [atom("A%d" % i) for i in range(n * n)]), b2=col("B") if pair else MatV(0, 1, ()),
                      order=4, order2=3, FSAL=False, gamma=ZERO, b_interp=MatV(n, n, [atom("I%d" % i) for i in range(n * n)]))
            for q in ("operator<<", "irk::operator<<", "erk::operator<<"):
                for cls in ("irk::solver_coeffs", "erk::solver_coeffs"):
                    run(db, q, [LV("OUT"), StructV(cls, dict(sc))], cls)
    cl = VecV([(TRUE, VecV([(TRUE, 1), (TRUE, -1)])), (TRUE, VecV([]))])
    run(db, "irk::operator<<", [LV("OUT"), cl], "coeff_list")
    run(db, "operator<<", [LV("OUT"), cl], "coeff_list")


def run(db, q, args, ptype=None):
    for fn in db.byq.get(q, []):
        if fn.get("body") and len(fn["params"]) == len(args) and (ptype is None or any(ptype in p["t"] or ptype == "coeff_list" and "vector" in p["t"] for p in fn["params"])):
            it = Interp(db, {})
            st = it.new_state()
            st.mem["OUT"] = VecV(kind="stream")
            a = []
            for k, (x, p) in enumerate(zip(args, fn["params"])):
                if p["t"].rstrip().endswith("&") and not isinstance(x, LV):
                    st.mem["ARG%d" % k] = x
                    x = LV("ARG%d" % k)
                a.append(x)
            try:
                it.callfn(fn, None, a, st, "R")
            except (Unsup, Dead):
                pass


def P36(rep):
    rep.rule("access", "every element, row, column or sub-range access is inside its matrix, vector or table, and every matrix operation combines matching shapes")
    db = databases()
    visited, bad = collect(rep, "access", "access")
    report(rep, "access", visited, bad, "access outside the object or shapes that do not match")
    coverage(rep, "access", db, visited, is_access, "access")
    return ("Every access and matrix operation met while the models of the integrators, nonlinear solvers, tables, history buffer, result merging and "
            "name maps are built, each under the path condition it happens under; the access sites of the source that no model reaches are listed as undecided.", ASSUME, 200)


def P29(rep):
    rep.rule("intdiv", "the divisor of every integer division or remainder is not zero under the conditions the division is reached")
    db = databases()
    visited, bad = collect(rep, "intdiv", "intdiv")
    report(rep, "intdiv", visited, bad, "integer division by zero")
    coverage(rep, "intdiv", db, visited, is_intdiv, "integer division")
    return ("Every integer / and % of the library met while the models are built, with the divisor as a term over the options and sizes.", ASSUME, 3)


# --------------------------------------------------------------------- P26
def leaves(v, path=""):
    if isinstance(v, StructV):
        for k, x in v.f.items():
            yield from leaves(x, path + ("." if path else "") + k)
    elif isinstance(v, ArrV):
        for k, x in enumerate(v.e):
            yield from leaves(x, "%s[%d]" % (path, k))
    elif isinstance(v, MatV):
        for k, x in enumerate(v.e):
            yield "%s(%d)" % (path, k), x
    elif isinstance(v, VecV):
        for k, (_, x) in enumerate(v.items):
            yield from leaves(x, "%s[%d]" % (path, k))
    else:
        yield path, v


def unset(v):
    if isinstance(v, Node):
        return "undef" in v.taint
    return isinstance(v, Top) and v.why.startswith("indeterminate")


def arg(it, t, tu, name):
    """Something of parameter type t, with every part set."""
    t = clean(t)
    if t.endswith("*"):
        return LV("ARG:" + name)
    if t == "bool":
        return batom("arg:" + name)
    if isint_t(t):
        return atom("arg:" + name, isint=True)
    if is_string(t):
        return "text"
    if is_stdvec(t):
        return VecV()
    if is_arma(t):
        return MatV(2, 1, [atom("arg:%s%d" % (name, k)) for k in range(2)])
    if is_stream(t):
        return LV("OUT")
    if it.db.rec(t, tu) is not None:
        return StructV(t, {k: x for k, x in it.default(t, tu, name, zero=True).f.items()})
    if any(x["q"] == t for d in it.db.tus for x in d["enums"].values()):
        return 0
    return atom("arg:" + name)


PUBLIC = re.compile(r"option|output|status|counter|result", re.I)


def objects(rep, db, skip):
    """Every way to build an object of a class of the library leaves all its members set."""
    done = set()
    for tu, d in enumerate(db.tus):
        rs = d["records"].values() if isinstance(d["records"], dict) else d["records"]
        for r in rs:
            f = r["file"]
            if not f.startswith(REPO + "/") or r["lambda"] or skip(f) or not r["fields"] and not r["bases"]:
                continue
            if (r["t"], f) in done or not PUBLIC.search(r["q"]):
                continue
            done.add((r["t"], f))
            where = "%s:%s (%s)" % (rel(f), r["l"], r["q"])
            ways = []
            for m in r["methods"]:
                if not m["ctor"] or m.get("deleted") or m["implicit"] and r["user_ctor"]:
                    continue
                fn = db.fn(m["fn"], tu)
                if fn is None or not fn.get("body") or m["implicit"]:
                    continue
                if len(fn["params"]) == 1 and clean(fn["params"][0]["t"]).rstrip("& ") == clean(r["t"]):
                    continue        # copies are as set as their source
                ways.append(fn)
            if r["implicit_default_ctor"]:
                ways.append(None)
            for fn in ways:
                it = Interp(db, {})
                st = it.new_state()
                st.mem["OUT"] = VecV(kind="stream")
                fr = Frame("SETUP", None, tu)
                label = "%s(%s)" % (r["q"], ", ".join(p["t"] for p in fn["params"]) if fn else "")
                try:
                    if fn is None:
                        v = it.construct_default(r["t"], st, fr, {"k": "setup", "args": []})
                    else:
                        st.mem["OBJ"] = it.default_rec(r, tu, r["q"], False, st, fr)
                        a = []
                        for k, p in enumerate(fn["params"]):
                            x = arg(it, p["t"], tu, "p%d" % k)
                            if p["t"].rstrip().endswith("&") and not isinstance(x, LV):
                                st.mem["ARG%d" % k] = x
                                x = LV("ARG%d" % k)
                            a.append(x)
                        it.callfn(fn, LV("OBJ"), a, st, "R")
                        v = st.mem["OBJ"]
                except (Unsup, Dead) as e:
                    rep.undecided("object", label, "%s" % (e or "never returns"))
                    continue
                rep.uses(it)
                for p, x in leaves(v):
                    if unset(x):
                        rep.bad("object", "%s.%s" % (r["q"], p), where, "an object built by %s has an indeterminate member %s" % (label, p))
                    elif isinstance(x, Top):
                        rep.undecided("object", "%s.%s" % (label, p), x.why)
                    else:
                        rep.ok("object", "%s.%s" % (label, p))


def tables(rep, db, ns):
    """The coefficient set of every code, published or not, is completely set."""
    from tables import method_codes
    fns = [f for f in db.byq.get(ns + "::get_coefficients", []) if f.get("body")]
    if not fns:
        raise Broken(ns + "::get_coefficients not found")
    for name, code in method_codes(db, ns) + [("unknown", 99999), ("zero", 0), ("negative", -1)]:
        it = Interp(db, {})
        st = it.new_state()
        try:
            v = it.callfn(fns[0], None, [code], st, "R")
        except (Unsup, Dead) as e:
            rep.undecided("table", "%s code %s" % (ns, name), "%s" % e)
            continue
        for p, x in leaves(v):
            rep.check(not unset(x), "table", "%s:%s.%s" % (ns, name, p), "%s (%s)" % (rel(fns[0]["file"]), fns[0]["q"]),
                      "the coefficients of %s (code %s) have an indeterminate member %s" % (name, code, p))


def P26(rep):
    rep.rule("table", "the coefficient set returned for any method code has every member set")
    rep.rule("object", "every constructor (and the implicit one) of a result, option, output, counter or status class sets every member")
    rep.rule("read", "no variable, member or matrix element is read on a path on which it was never set")
    db = DB(extract([os.path.join(PROBE, n + ".cpp") for n in ("erk", "irk", "newton", "multistep", "buffer", "timer")]
                    + [os.path.join(REPO, n + ".cpp") for n in ("erk", "irk", "newton")]))
    objects(rep, db, lambda f: not library_file(f))
    for ns in ("erk", "irk"):
        tables(rep, db, ns)
    visited, bad = collect(rep, "read", "read")
    report(rep, "read", visited, bad, "read of something never set")
    ex = os.path.join(REPO, "examples", "example_equations.cpp")
    if os.path.exists(ex):
        objects(rep, DB(extract([ex])), lambda f: library_file(f))
    return ("Every class of the library and the example program, built in every way it declares, with symbolic arguments; and every read of a scalar met while the "
            "models of all checks are built.", ASSUME, 200)
