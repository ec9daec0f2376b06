"""Checks over the bundled programs: P33 (argument vectors), P34 (stability region)."""
import os
import re
from front import REPO, Broken, extract
from interp import *
from interp import _int
import terms as T
from terms import add, mul, sub, absn, cases
import intrin
import lin
import sweep as S
from langchecks import programs
from intrin import gauss, eye, matmul, emap, ezip
from lib import rel
from rkchecks import show

_db = {}


def database(path):
    if path not in _db:
        _db[path] = DB(extract([os.path.join(REPO, path)]))
    return _db[path]


# --------------------------------------------------------------------- P34
FAMS = ("irk", "erk")


def table(fam, Ns, pair):
    A = [[atom("%sA%d%d" % (fam, i, j)) if fam == "irk" or j < i else ZERO for j in range(Ns)] for i in range(Ns)]
    return StructV(fam + "::solver_coeffs", dict(
        name="METHOD", b=MatV(Ns, 1, [atom("%sb%d" % (fam, i)) for i in range(Ns)]), c=MatV(Ns, 1, [atom("%sc%d" % (fam, i)) for i in range(Ns)]),
        A=MatV(Ns, Ns, [A[i][j] for j in range(Ns) for i in range(Ns)]), b2=MatV(Ns, 1, [atom("%sB%d" % (fam, i)) for i in range(Ns)]) if pair else MatV(0, 1, ()),
        order=2, order2=1 if pair else 0, FSAL=False, gamma=atom(fam + "gamma") if fam == "irk" else ZERO, b_interp=MatV(0, 0, ())))


def spec(sc, z, w, gamma):
    """R(z) = 1 + z*(gamma + w^T (I - z A)^{-1} e)."""
    A = sc.f["A"]
    n = A.r
    M = ezip(sub, eye(n, n), emap(lambda x: mul(z, x), A))
    X = gauss(M, MatV(n, 1, [ONE] * n))
    s = gamma
    for a, b in zip(w.e, X.e):
        s = add(s, mul(a, b))
    return absn(add(ONE, mul(z, s)))


class Program:
    """main() of the program with one argument, its files captured."""

    def __init__(self, fam, Ns, pair):
        db = self.db = database("stability_region/main.cpp")
        self.fam = fam
        self.sc = {f: table(f, Ns, pair) for f in FAMS}
        code = {"irk": 777, "erk": 888}
        self.opened = 0
        self.lookups = []

        def lookup(f):
            def h(it, st, fr, e, this, a):
                v = it.rv(a[0], st)
                self.lookups.append((f, v))
                return code[f] if f == fam and v == "METHOD" else 0
            return h

        def coeffs(f):
            def h(it, st, fr, e, this, a):
                m = _int(it.rv(a[0], st))
                return self.sc[f] if m == code[f] else table(f, 0, False) if isinstance(m, int) else it.top("coefficients of an unknown method", e)
            return h

        def names(it, st, fr, e, this, a):
            return "METHOD"

        def ofs(it, st, fr, e, this, a):
            n = it.rv(a[0], st) if a else None
            if not isinstance(n, str):
                return it.top("file of unknown name", e)
            self.opened += 1
            return VecV([(TRUE, FileName(n))], kind="stream")

        def grid(it, st, fr, e, this, a):
            k = getattr(it, "ngrid", 0)
            it.ngrid = k + 1
            return MatV(2, 1, [atom("grid%d_%d" % (k, j)) for j in range(2)])
        hooks = {"arma::linspace": grid, "ctor:std::basic_ofstream::basic_ofstream": ofs}
        for f in FAMS:
            hooks[f + "::name_to_method"] = lookup(f)
            hooks[f + "::get_coefficients"] = coeffs(f)
            hooks[f + "::method_to_name"] = names
            hooks[f + "::verify_solver_coeffs"] = lambda it, st, fr, e, this, a: getattr(it.load(st, a[0]) if isinstance(a[0], LV) else a[0], "f", {"b": MatV(0, 1, ())})["b"].n > 0
        it = self.it = Interp(db, hooks)
        it.closed = []
        st = self.st = it.new_state()
        fns = [f for f in db.byq.get("main", []) if f.get("body")]
        if not fns:
            raise Broken("main of stability_region not found")
        st.mem["ARGV"] = ArrV(["prog", "METHOD"])
        self.where = "%s:%d (main)" % (rel(fns[0]["file"]), fns[0]["l"])
        self.dead = False
        try:
            r = it.callfn(fns[0], None, [2, LV("ARGV")], st, "R")
            self.ret = it.rv(r, st) if isinstance(r, LV) else r
        except Dead:
            self.dead = True
            self.ret = None
        # a stream seen under several names is the one with the longest contents
        self.files = {}
        for v in it.closed:
            if v.items and isinstance(v.items[0][1], FileName):
                n = v.items[0][1].name
                if n not in self.files or len(self.files[n].items) < len(v.items):
                    self.files[n] = v


class FileName:
    def __init__(self, name):
        self.name = name


def rows(v):
    """Rows of a text: lists of the values printed; None when it cannot be told."""
    if not isinstance(v, VecV) or v.pre is not None:
        return None
    out, cur = [], []
    for g, x in v.items[1:]:
        if g is not TRUE and not g.isbool:
            return None
        if isinstance(x, str):
            parts = x.split("\n")
            for k, p in enumerate(parts):
                if k:
                    out.append(cur)
                    cur = []
                if p.strip():
                    cur = cur + [(g, p.strip())]
        else:
            cur = cur + [(g, x)]
    out.append(cur)
    return [r for r in out if r and not any(isinstance(x, str) for g, x in r)]


def P34(rep):
    rep.rule("family", "the coefficients are those of the family the name belongs to")
    rep.rule("value", "every value printed is |R(z)| at the point printed before it: R(z) = 1 + z*(gamma + w^T (I - zA)^-1 e) with the method's weights w (main formula: gamma = 0)")
    rep.rule("which", "the region file holds the main formula, the embedded-region file the embedded formula, the limit file both in this order")
    rep.rule("points", "the region files hold every point of the grid once")
    rep.rule("unknown", "for an unknown name nothing is printed as a stability function and the program reports failure")
    rep.rule("ends", "the program ends normally for every known name")
    th = rep.tier == "thorough"
    for fam in FAMS + (None,):
        for Ns in ((1, 2, 3) if th else (2, 1)):
            for pair in (True, False):
                if fam is None and (Ns != 2 or pair):
                    continue
                one(rep, fam, Ns, pair)
    return ("The program is interpreted from main with symbolic coefficients of one or the other family, the file contents captured and every printed value compared "
            "with the stability function at the point printed in front of it.",
            ["a grid of 2 x 2 symbolic points stands for the program's grid (the loops run over the vectors they are given)",
             "the matrix I - zA is taken to be invertible (elsewhere the function has a pole)"], 20)


def one(rep, fam, Ns, pair):
    lab = "%s stages=%d%s" % (fam or "unknown name", Ns, "" if pair else " no-pair")
    try:
        p = Program(fam, Ns, pair)
    except Unsup as ex:
        rep.undecided("value", lab, str(ex))
        return
    rep.uses(p.it)
    st = p.st
    if fam is None:
        vals = sum(len(r) for v in p.files.values() for r in (rows(v) or []))
        ret = num(p.ret) if isinstance(p.ret, (int, Node)) else None
        rep.check(p.dead or vals == 0, "unknown", "unknown:prints", p.where, "an unknown method name still gets %d values" % vals, lab)
        if not p.dead:
            rep.check(ret is not None and ret.const is not None and ret is not ZERO, "unknown", "unknown:status", p.where, "an unknown method name ends with status %s" % (show(ret) if ret is not None else p.ret), lab + " status")
        return
    if p.dead:
        rep.bad("ends", "%s:ends" % fam, p.where, "the program never ends normally for a method of the %s family%s" % (fam, "" if pair else " without an embedded formula"))
        return
    sc = p.sc[fam]
    ret = num(p.ret) if isinstance(p.ret, (int, Node)) else None
    if ret is None or ret.const is None:
        rep.undecided("ends", lab, "exit status not tracked")
    else:
        rep.check(ret is ZERO, "ends", "%s:ends" % fam, p.where, "a method of the %s family%s ends with status %s" % (fam, "" if pair else " without an embedded formula", show(ret)), lab)
    seen = set()
    for n, v in sorted(p.files.items()):
        rs = rows(v)
        kind = "embed" if "embed" in n else "limit" if "limit" in n else "region"
        if rs is None:
            rep.undecided("value", "%s %s" % (lab, n), "contents of the file not tracked")
            seen.add(kind)
            continue
        for r in rs:
            if any(not isinstance(x, (int, Node)) for g, x in r):
                rep.undecided("value", "%s %s" % (lab, n), "a printed value is not tracked")
                seen.add(kind)
                continue
            xs = [N(x) for g, x in r]
            nz = 1 if kind == "limit" else 2
            if len(xs) <= nz:
                rep.bad("value", "%s:%s:row" % (fam, kind), p.where, "a row of %s has no value" % n)
                continue
            z = xs[0] if nz == 1 else add(xs[0], mul(xs[1], intrin.IM))
            main = spec(sc, z, sc.f["b"], ZERO)
            emb = spec(sc, z, sc.f["b2"], sc.f["gamma"]) if pair else None
            want = [emb] if kind == "embed" else [main] if kind == "region" else [main, emb] if pair else [main]
            names = {"embed": ["embedded"], "region": ["main"], "limit": ["main", "embedded"]}[kind]
            got = xs[nz:]
            if kind == "embed" and not pair:
                rep.bad("which", "%s:embed:none" % fam, p.where, "the embedded formula of a method without one is evaluated")
                continue
            if len(got) != len(want):
                rep.bad("which", "%s:%s:columns" % (fam, kind), p.where, "%s has %d values per point, %d expected" % (n, len(got), len(want)))
                continue
            for v, w, nm in zip(got, want, names):
                verdict(rep, p, fam, kind, nm, v, w, emb if nm == "main" else main, sc, z, lab)
            seen.add(kind)
        if kind != "limit":
            pts = {tuple(N(x) for g, x in r[:2]) for r in rs if len(r) > 2 and all(isinstance(x, (int, Node)) for g, x in r[:2])}
            if any(str(a.args[0]).startswith("grid") for q in pts for x in q for a in T.atoms_of(x) if a.op == "atom"):
                rep.check(len(pts) == 4 and len(rs) == 4, "points", "%s:%s:points" % (fam, kind), p.where, "%s has %d rows for %d different points of a 2 x 2 grid" % (n, len(rs), len(pts)), "%s %s" % (lab, kind))
    if p.opened == 0 or len(p.files) < p.opened:
        rep.undecided("which", lab, "files not tracked")
        return
    need = {"region", "limit"} | ({"embed"} if pair else set())
    for k in sorted(need):
        rep.check(k in seen, "which", "%s:%s:missing" % (fam, k), p.where, "no %s file is written for a method of the %s family" % ({"embed": "embedded-region"}.get(k, k), fam), "%s %s" % (lab, k))


def verdict(rep, p, fam, kind, nm, v, w, other, sc, z, lab):
    """Compare a printed value with |R(z)| wherever the matrix is invertible."""
    for c, (got, want) in cases(lambda c: (c.red(v), c.red(w))):
        if any(x.op == "batom" and str(x.args[0]) == "solve_ok" and val is False for x, val in c.facts.items()):
            continue
        s = "%s %s %s" % (lab, kind, nm)
        if got is want or got is c.red(T.subst(w, {intrin.IM.nid: T.neg(intrin.IM)})):     # |R(z)| = |R(conj z)|
            rep.ok("value", s)
            continue
        if "top" in got.taint:
            rep.undecided("value", s, "value not tracked")
            continue
        foreign = sorted({a.args[0] for a in T.atoms_of(got) if a.op == "atom" and re.match("irk|erk", str(a.args[0])) and not str(a.args[0]).startswith(fam)})
        if foreign:
            rep.bad("family", "%s:%s" % (fam, kind), p.where, "a method of the %s family is evaluated with coefficients of the other family (%s)" % (fam, ", ".join(foreign[:3])))
        elif other is not None and got is c.red(other):
            rep.bad("which", "%s:%s:%s" % (fam, kind, nm), p.where, "the %s output holds the %s formula" % (kind, "embedded" if nm == "main" else "main"))
        else:
            rep.bad("value", "%s:%s:%s" % (fam, kind, nm), p.where, "the value printed for z = %s is %s, not |R(z)| of the %s formula" % (show(z), show(got)[:200], nm))
    rep.ok("family", "%s %s %s" % (lab, kind, nm))


# --------------------------------------------------------------------- P33
def argv_functions(db):
    """Functions handed an argument count and vector, main first."""
    out = []
    for q, fns in db.byq.items():
        for f in fns:
            ts = [clean(p["t"]).replace(" ", "") for p in f["params"]]
            if f.get("body") and len(ts) >= 2 and ts[0] == "int" and ts[1] in ("char**", "constchar**", "char*const*", "constchar*const*") and f["file"].startswith(REPO):
                out.append(f)
    return sorted(out, key=lambda f: f["q"] != "main")


def opaque_hooks(db, keep):
    """Every function of the repository that gets no argument vector counts as unknown."""
    def h(it, st, fr, e, this, a):
        return it.top("result of another function", e)
    out = {}
    for q, fns in db.byq.items():
        if q not in keep and any(f["file"].startswith(REPO) for f in fns) and not any(f.get("ctor") for f in fns):
            out[q] = h
    return out


def run_main(db, fn, keep, argc, argv, extra=None):
    hooks = opaque_hooks(db, keep)
    hooks.update(extra or {})
    it = Interp(db, hooks)
    st = it.new_state()
    st.mem["ARGV"] = argv
    # an argument of another type than the vector (options to be filled in) is unknown
    args = [argc, LV("ARGV")]
    for k, p in enumerate(fn["params"][2:]):
        st.mem["P%d" % k] = it.default(p["t"].rstrip("& "), fn["tu"], "P%d" % k, st=st)
        args.append(LV("P%d" % k))
    try:
        r = it.callfn(fn, None, args, st, "R")
        r = it.rv(r, st)
    except Dead:
        r = None
    return it, st, r


def invariants(it):
    """Loop counters never fall below their value at entry: facts h >= entry."""
    facts = {}
    for L in it.loops.values():
        if L.head is None or L.back is None:
            continue
        for h, e, b in S.mus_of(L):
            e0 = num(e)
            if e0.const is None or not h.isint:
                continue
            try:
                good = all(lin.nonneg(c, d[0]) for c, d in cases(lambda c: ask(c, L.back.guard, sub(b, h)), limit=400) if not lin.System(c).infeasible())
            except T.TooMany:
                good = False
            if good:
                facts[T.pos(add(sub(h, e0), T.ONE))] = True
    return facts


def P33(rep):
    rep.rule("read", "every element of the argument vector that is read has an index the facts on the path show to be below the argument count")
    rep.rule("refused", "an option whose value is missing ends the parsing with a failure, and the program ends with a failure")
    rep.rule("none", "a program that needs arguments reports failure when it gets none")
    skipped, seen = [], 0
    for f in programs():
        name = rel(f)
        src = open(f, errors="replace").read()
        if "argv" not in src and not re.search(r"char\s*\*\s*\*|char\s*\*\s*\w*\s*\[", src):
            continue
        try:
            db = database(name)
        except Broken:
            skipped.append(name)
            continue
        fns = argv_functions(db)
        if not fns:
            continue
        seen += 1
        try:
            program(rep, db, name, fns)
        except Unsup as ex:
            rep.undecided("read", name, str(ex))
    rep.extra["not_compiling_here"] = skipped
    if not seen:
        raise Broken("no program with an argument vector found")
    return ("Programs with an argument vector are interpreted with a symbolic argument count and opaque arguments; each element read gives a bounds obligation under the "
            "conditions of its path (loop counters: invariant h >= value at entry).",
            ["main is called with at least the program name", "programs that do not compile with the tools here are left out (listed in the evidence)"], 5)


def program(rep, db, name, fns):
    keep = {f["q"] for f in fns}
    argc = atom("argc", positive=True, isint=True)
    main = [f for f in fns if f["q"] == "main"]
    reads = False
    for fn in main or fns:
        try:
            it, st, r = run_main(db, fn, keep, argc, VecV([], "argv", argc, T.ONE))
        except Unsup as ex:
            rep.undecided("read", "%s %s" % (name, fn["q"]), str(ex))
            continue
        rep.uses(it)
        facts = invariants(it)
        D = S.Decider(it)
        needs = {}
        for kind, g, s, data, loops in it.safety:
            if kind != "access" or isinstance(data[0], str) or data[1] is not num(argc):
                continue
            reads = True
            v = decide_read(D, g, data, loops, facts)
            sub_ = "%s:%d (%s) argv[%s]" % (rel(s[0]), s[1], s[2], re.sub("μ[^ ,)]*", "i", show(data[0])))
            if v == "ok":
                rep.ok("read", sub_)
            elif v == "undecided":
                rep.undecided("read", sub_, "bound not proved")
            else:
                opt = sorted(str(a.args[0])[3:] for a in T.subnodes(g) if a.op == "batom" and str(a.args[0]).startswith("is:") and T.andn(g, T.notn(a)) is FALSE)
                rep.bad("read", "%s:%s:%s" % (name, s[2].split("::")[-1], "+".join(opt) or re.sub("μ[^ ,)]*", "i", show(data[0])).replace(" ", "")), "%s:%d (%s)" % (rel(s[0]), s[1], s[2]),
                        "%s is read without having established that it exists%s" % ("argv[...]", " (option %s)" % ", ".join(opt) if opt else ""))
            for a in T.subnodes(g):
                if a.op == "batom" and str(a.args[0]).startswith("is:") and T.andn(g, T.notn(a)) is FALSE and isinstance(a.args[1], Node):
                    k = sub(data[0], a.args[1].args[1]) if a.args[1].op == "uf" else None
                    if k is not None and k.const is not None and k.const > 0:
                        needs.setdefault(a, set()).add(int(k.const))
        codes = refused(rep, db, name, it, argc, needs, facts)
        for v in sorted(codes):
            for p in fns:
                if p["q"] == "main" or not main:
                    continue
                it2, st2, r2 = run_main(db, main[0], keep, argc, VecV([], "argv", argc, T.ONE), {p["q"]: lambda it_, st_, fr, e, this, a, v=v: v})
                exits(rep, "refused", name, main[0], r2, "when %s refuses the command line (%d)" % (p["q"], v), facts={T.pos(sub(argc, T.ONE)): True})
        if reads and fn["q"] == "main":
            it3, st3, r3 = run_main(db, fn, keep, 1, ArrV(["program"]))
            exits(rep, "none", name, fn, r3, "without arguments")


def exits(rep, rname, name, fn, r, when, facts=None):
    s = "%s %s" % (name, when)
    if r is None:
        rep.ok(rname, s)
        return
    if not isinstance(r, (int, Node)):
        rep.undecided(rname, s, "exit status not tracked")
        return
    for c, v in cases(lambda c: c.red(num(r)), facts=facts):
        if v is ZERO:
            rep.bad(rname, "%s:%s" % (name, rname), "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"]), "the program reports success " + when)
        elif v.const is not None:
            rep.ok(rname, s)
        else:
            rep.undecided(rname, s, "exit status " + show(v))


def settle(c):
    """An integer that is not zero is positive or negative: split there."""
    for k, v in list(c.facts.items()):
        if k.op == "eq0" and not v and k.args[0].isint:
            x = k.args[0]
            c.red(T.pos(x))
            s = c.sign(x)
            if s in ("<=", ">="):
                f = T.pos(T.neg(x) if s == "<=" else x)
                r = c.red(f) if f is not TRUE and f is not FALSE else f
                if r is FALSE:
                    return False
                c.facts[f] = True
                c._learn(f, True)
            elif s == "0":
                return False
    return True


def ask(c, g, *xs):
    if c.red(g) is FALSE:
        return None
    eqs = {}
    for k, v in c.facts.items():        # one string equals one literal
        if v and k.op == "batom" and str(k.args[0]).startswith("is:"):
            eqs.setdefault(k.args[1], set()).add(k.args[0])
    if any(len(x) > 1 for x in eqs.values()):
        return None
    r = [c.red(x) if isinstance(x, Node) else x for x in xs]
    return r if settle(c) else None


def decide_read(D, g, data, loops, facts):
    i, n = data
    def holds(c, v):
        return lin.nonneg(c, v[0]) and lin.nonneg(c, sub(sub(v[1], v[0]), T.ONE))
    try:
        if all(holds(c, v) for c, v in cases(lambda c: ask(c, g, i, n), facts=facts, limit=600) if not lin.System(c).infeasible()):
            return "ok"
    except T.TooMany:
        return "undecided"
    return D.proved(g, loops, [i, n], holds, "read")


def refused(rep, db, name, it, argc, needs, facts):
    """Return values of the paths on which an option lacks its value."""
    codes = set()
    for a, ks in needs.items():
        i, k = a.args[1].args[1], max(ks)
        opt = str(a.args[0])[3:]
        for L in it.loops.values():
            if L.head is None or not any(m.nid in {h.nid for h, e, b in S.mus_of(L)} for m in T.atoms_of(i)):
                continue
            # the option is there (i < argc), its value is not (i + k >= argc)
            pre = T.andn(a, T.andn(T.lt(i, argc), T.notn(T.lt(add(i, num(k)), argc))))
            fn = "%s:%d (%s)" % (rel(L.file), L.line, L.fn) if hasattr(L, "line") else name
            sub_ = "%s %s" % (name, opt)

            def live(g, what):
                for c, v in cases(lambda c: ask(c, T.andn(pre, g), what), facts=facts, limit=600):
                    if not lin.System(c).infeasible():
                        yield c, v[0]
            try:
                if L.back is not None and any(True for _ in live(L.back.guard, T.ONE)):
                    rep.bad("refused", "%s:%s" % (name, opt), fn, "option %s without its value is not refused: the parsing goes on" % opt)
                    continue
                ok = True
                for g, v, x in L.returns:
                    if not isinstance(v, (int, Node)):
                        continue
                    for c, w in live(g, num(v)):
                        if w is ZERO:
                            ok = False
                            rep.bad("refused", "%s:%s" % (name, opt), fn, "option %s without its value is not refused: the parser returns 0" % opt)
                        elif w.const is not None:
                            codes.add(int(w.const))
                        else:
                            ok = None
                if ok:
                    rep.ok("refused", sub_)
                elif ok is None:
                    rep.undecided("refused", sub_, "returned value not tracked")
            except T.TooMany:
                rep.undecided("refused", sub_, "too many cases")
    return codes
