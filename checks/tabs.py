"""Checks over the coefficient tables: P01 P02 P03 P04 P20 P22 P32."""
import os
import re
from front import REPO, Broken, extract
from tables import *
from lib import rel
import tables as TB

TOL = mpf(10) ** -13
ASSUME = ["the tables are read by constant propagation through get_coefficients; arithmetic is carried out to 40 digits, not in double",
          "residuals up to 1e-13 count as zero (the tables are written with 15 to 20 digits)"]


def db():
    return DB(extract([os.path.join(REPO, "erk.cpp"), os.path.join(REPO, "irk.cpp")]))


def loc(ns, name):
    try:
        for i, l in enumerate(open(os.path.join(REPO, ns + ".cpp")), 1):
            if re.search(r"\b%s\b" % re.escape(name), l):
                return "%s.cpp:%d (get_coefficients, method %s)" % (ns, i, name)
    except OSError:
        pass
    return "%s.cpp (get_coefficients, method %s)" % (ns, name)


def mx(v):
    return max([abs(x) for x in v] or [mpf(0)])


def f(x):
    return mp.nstr(x, 3)


def usable(rep, T, rule):
    if T.error:
        rep.undecided(rule, T.ns + "::" + T.name, "table is not a constant: " + T.error)
        return False
    return True


def sizes(T):
    s = len(T.b)
    return len(T.c) == s and T.Ar == s and T.Ac == s


def orders(rep, T, b, order, rule, what, b0=mpf(0)):
    w = loc(T.ns, T.name)
    key = "%s:%s:order" % (T.name, what)
    W = Weights(T.A)
    if order == "undefined" or order < 1:
        rep.bad(rule, key, w, "declared order of the %s formula is %s" % (what, order))
        return
    for k in range(1, min(order, 14) + 1):
        r, i = order_residual(W, b, k, b0)
        rep.check(r <= TOL, rule, key, w,
                  "%s formula of %s violates an order-%d condition (tree %s of %d) by %s although order %d is declared" % (
                      what, T.name, k, i, len(trees(k)), f(r), order),
                  subject="%s %s k=%d: %d trees" % (T.name, what, k, len(trees(k))))
        rep.extra["order_conditions"] = rep.extra.get("order_conditions", 0) + len(trees(k))
        if r > TOL:
            break


def rowsum(rep, T):
    for i in range(len(T.c)):
        d = abs(sum(T.A[i], mpf(0)) - T.c[i])
        rep.check(d <= TOL, "row-sum", "%s:row%d" % (T.name, i), loc(T.ns, T.name),
                  "abscissa %d of %s differs from its row sum by %s" % (i + 1, T.name, f(d)), subject="%s row %d" % (T.name, i + 1))


def P01(rep):
    rep.rule("shape", "the weights, abscissae and matrix have the same size")
    rep.rule("explicit", "a stage uses earlier stages only")
    rep.rule("row-sum", "abscissa = sum of its row")
    rep.rule("order", "sum b_i Phi_i(t) = 1/gamma(t) for every rooted tree up to the declared order")
    rep.rule("fsal", "a method marked FSAL has its last row equal to the weights and last abscissa 1")
    ts = load_tables(db(), "erk", rep)
    for T in ts.values():
        if not usable(rep, T, "order"):
            continue
        w = loc("erk", T.name)
        if not rep.check(len(T.b) > 0 and sizes(T), "shape", T.name + ":shape", w, "table of %s is empty or has inconsistent sizes" % T.name):
            continue
        s = len(T.b)
        for i in range(s):
            for j in range(i, s):
                if T.A[i][j] != 0:
                    rep.bad("explicit", "%s:A%d%d" % (T.name, i, j), w, "A(%d,%d) = %s: not explicit" % (i, j, f(T.A[i][j])))
                else:
                    rep.ok("explicit", "%s A(%d,%d)" % (T.name, i, j))
        rowsum(rep, T)
        orders(rep, T, T.b, T.order, "order", "main")
        if T.FSAL == "undefined":
            rep.bad("fsal", T.name + ":fsal", w, "the FSAL mark of %s is never set" % T.name)
        elif T.FSAL:
            d = max(mx([x - y for x, y in zip(T.A[s - 1], T.b)]), abs(T.c[s - 1] - 1))
            rep.check(d <= TOL, "fsal", T.name + ":fsal", w, "%s is marked first-same-as-last but its last stage differs from the next first stage by %s" % (T.name, f(d)))
        else:
            rep.ok("fsal", T.name + " (not marked)")
    return ("Every published explicit method's table is constant-propagated out of erk::get_coefficients and every order condition (all rooted trees) up to the declared order, the row sums, the triangular shape and the FSAL claim are evaluated.", ASSUME, 20)


def P02(rep):
    rep.rule("shape", "the weights, abscissae and matrix have the same size")
    rep.rule("row-sum", "abscissa = sum of its row")
    rep.rule("order", "sum b_i Phi_i(t) = 1/gamma(t) for every rooted tree up to the declared order")
    for T in load_tables(db(), "irk", rep).values():
        if not usable(rep, T, "order"):
            continue
        w = loc("irk", T.name)
        if not T.b and not T.Ar and not T.c:
            rep.extra.setdefault("not_offered", []).append(T.name)
            continue
        if not rep.check(sizes(T), "shape", T.name + ":shape", w, "table of %s has inconsistent sizes" % T.name):
            continue
        rowsum(rep, T)
        orders(rep, T, T.b, T.order, "order", "main")
        if T.FSAL == "undefined":
            rep.bad("shape", T.name + ":fsal", w, "the FSAL mark of %s is never set" % T.name)
    return ("Every implicit method's table is constant-propagated out of irk::get_coefficients; all rooted-tree order conditions up to the declared order (up to order 14: about 50000 trees) and row sums are evaluated.", ASSUME, 20)


def P03(rep):
    rep.rule("size", "the embedded weights match the stage count")
    rep.rule("order", "the embedded formula satisfies every rooted-tree condition up to its declared order (gamma weighs the derivative at the step's start)")
    rep.rule("differs", "the embedded weights differ from the main weights")
    d = db()
    for ns in ("erk", "irk"):
        for T in load_tables(d, ns, rep).values():
            if not usable(rep, T, "order") or not T.b2:
                continue
            w = loc(ns, T.name)
            if not rep.check(len(T.b2) == len(T.b), "size", T.name + ":b2size", w, "%d embedded weights for %d stages" % (len(T.b2), len(T.b))) or not sizes(T):
                continue
            g = mpf(0)
            if ns == "irk":
                if T.gamma == "undefined":
                    rep.bad("order", T.name + ":gamma", w, "gamma of %s is never set" % T.name)
                    continue
                g = T.gamma
            orders(rep, T, T.b2, T.order2, "order", "embedded", g)
            # a first stage at the start of the step is f(y_n) itself: fold gamma into its weight
            b2, g2 = list(T.b2), g
            for i in range(len(b2)):
                if mx(T.A[i]) == 0 and T.c[i] == 0:
                    b2[i], g2 = b2[i] + g2, mpf(0)
                    break
            rep.check(max(mx([x - y for x, y in zip(T.b, b2)]), abs(g2)) > mpf(10) ** -6,
                      "differs", T.name + ":b2equal", w, "the embedded formula of %s is its main formula: the error estimate is identically zero" % T.name)
    return ("The embedded weights of every method with a pair are checked against all rooted-tree order conditions up to the declared embedded order and against the main weights.", ASSUME, 15)


LSTABLE = ("RADAU_IIA", "LOBATTO_IIIC", "IMPLICIT_EULER")


def P04(rep):
    rep.rule("poles", "det(I - zA) has no zero in the closed left half plane")
    rep.rule("axis", "E(y) = |Q(iy)|^2 - |P(iy)|^2 >= 0 for all real y (so |R| <= 1 on the axis, hence on the left half plane)")
    rep.rule("damping", "R(infinity) = 0 for the L-stable families")
    for T in load_tables(db(), "irk", rep).values():
        if not usable(rep, T, "axis") or not T.b or not sizes(T):
            continue
        w = loc("irk", T.name)
        Pm, Q = stability(T)
        tol = mpf(10) ** -12

        def trim(p):
            p = list(p)
            while len(p) > 1 and abs(p[-1]) < mpf(10) ** -14 * max(mpf(1), mx(p)):
                p.pop()
            return p
        # scale: the coefficients of Q shrink like 1/(2s)! ; compare relative to them
        Qt = list(Q)
        while len(Qt) > 1 and abs(Qt[-1]) < mpf(10) ** -16:
            Qt.pop()
        Pt = list(Pm)
        while len(Pt) > 1 and abs(Pt[-1]) < mpf(10) ** -13 * max(abs(Q[min(len(Pt), len(Qt)) - 1]), mpf(10) ** -16) + mpf(10) ** -16:
            Pt.pop()
        bad = [r for r in (mp.polyroots(Qt[::-1], maxsteps=400, extraprec=400) if len(Qt) > 1 else []) if r.real <= mpf(10) ** -9]
        rep.check(not bad, "poles", T.name + ":poles", w, "the stability function of %s has a pole at %s" % (T.name, mp.nstr(bad[0], 5) if bad else ""))

        def sq(p):      # |p(iy)|^2 in powers of y^2
            re_ = [(c * (-1) ** (k // 2) if k % 2 == 0 else mpf(0)) for k, c in enumerate(p)]
            im = [(c * (-1) ** ((k - 1) // 2) if k % 2 else mpf(0)) for k, c in enumerate(p)]
            a, b = polymul(re_, re_), polymul(im, im)
            s = [x + y for x, y in zip(a, b)]
            return s[0::2]
        n = max(len(Q), len(Pm))
        pad = lambda p: list(p) + [mpf(0)] * (n - len(p))
        q2, p2 = sq(pad(Q)), sq(pad(Pm))
        E, S = [a - b for a, b in zip(q2, p2)], [abs(a) + abs(b) + mpf(10) ** -30 for a, b in zip(q2, p2)]
        # noise: every coefficient is compared with the cancellation level of its own terms
        lvl = [mpf(0)] * n
        aq, ap = [abs(x) for x in pad(Q)], [abs(x) for x in pad(Pm)]
        cq, cp = polymul(aq, aq)[0::2], polymul(ap, ap)[0::2]
        lvl = [(a + b) * mpf(10) ** -11 for a, b in zip(cq, cp)]
        E = [mpf(0) if abs(e) <= l else e for e, l in zip(E, lvl)]
        ok = all(e >= 0 for e in E)
        worst = None
        if not ok:
            # not all coefficients non-negative: look for a sign change on y^2 > 0
            for k in range(-60, 241):
                x = mpf(10) ** (mpf(k) / 30)
                v = sum(e * x ** i for i, e in enumerate(E))
                sc = sum(abs(e) * x ** i for i, e in enumerate(E))
                if v < -tol * sc:
                    worst = mp.sqrt(x)
                    break
            ok = worst is None
        rep.check(ok, "axis", T.name + ":axis", w, "|R(iy)| > 1 for %s at y = %s" % (T.name, mp.nstr(worst, 5) if worst else ""))
        if T.name.startswith(LSTABLE):
            lead = abs(Pm[len(T.b)])
            rep.check(abs(Q[len(T.b)]) > mpf(10) ** -16 and lead <= mpf(10) ** -11 * mx(Q) * 0 + mpf(10) ** -9 * abs(Q[len(T.b)]),
                      "damping", T.name + ":damping", w, "R(infinity) of %s is %s, not 0" % (T.name, f(lead / (abs(Q[len(T.b)]) or mpf(1)))))
    return ("The stability function P(z)/Q(z) of every implicit table is formed as det(I-zA+z e b^T)/det(I-zA); A-stability is decided by the root locations of Q and the E-polynomial, damping by the degrees.", ASSUME, 12)


# ---------------------------------------------------------------- P20
def P20(rep):
    rep.rule("roundtrip", "name_to_method(method_to_name(code)) == code and the name is the published one")
    rep.rule("list", "all_method_names() returns every published name once")
    rep.rule("carries", "get_coefficients(code).name is the name of the code")
    rep.rule("unknown", "unknown names and codes give the failure value (0 / empty) and an invalid table")
    rep.rule("pure", "a lookup leaves the name tables as they were")
    d = db()
    for ns in ("erk", "irk"):
        m2n = need(d, ns + "::method_to_name")
        n2m = need(d, ns + "::name_to_method")
        allf = need(d, ns + "::all_method_names")
        gc = need(d, ns + "::get_coefficients")
        ver = need(d, ns + "::verify_solver_coeffs")
        codes = method_codes(d, ns)

        def run(fn, *a):
            it = Interp(d)
            st = it.new_state()
            args = []
            for k, x in enumerate(a):
                if fn["params"][k]["t"].rstrip().endswith("&"):
                    st.mem["ARG%d" % k] = x
                    x = LV("ARG%d" % k)
                args.append(x)
            # load the tables first, so a change shows
            try:
                it.callfn(allf, None, [], st, "W")
                it.callfn(m2n, None, [codes[0][1]], st, "W2")
                it.callfn(n2m, None, [mk("S", codes[0][0], st)], st, "W3")
                before = {k: v for k, v in st.mem.items() if isinstance(k, tuple) and k[0] == "G"}
                v = it.callfn(fn, None, args, st, "R")
            except (Dead, Unsup) as e:
                return None, "%s: %s" % (fn["q"], e or "does not return"), []
            rep.uses(it)
            chg = [k for k, x in before.items() if not same(st.mem.get(k), x)]
            lost = [k for k in chg if isinstance(st.mem.get(k), Top)]
            if lost and len(lost) == len(chg):
                return None, "%s: a global object is no longer tracked" % fn["q"], []
            if isinstance(v, (Top, Node, IteV)):
                return None, "%s is not a constant" % fn["q"], chg
            return v, None, chg

        def mk(k, v, st):
            st.mem[k] = v
            return LV(k)
        w = lambda fn: "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
        pure = {}

        def val(rule, subject, fn, *a):
            v, err, chg = run(fn, *a)
            if err:
                rep.undecided(rule, subject, err)
            if chg:
                pure.setdefault(fn["q"], []).append(subject)
            else:
                rep.ok("pure", subject)
            return v, err
        names = [n for n, _ in codes]
        for n, c in codes:
            v, err = val("roundtrip", "%s name of %d" % (ns, c), m2n, c)
            if not err:
                rep.check(v == n, "roundtrip", "%s:%s:name" % (ns, n), w(m2n), "%s(%d) is %r, not %r" % (m2n["q"], c, v, n))
            v2, err = val("roundtrip", "%s code of %s" % (ns, n), n2m, n)
            if not err:
                rep.check(v2 == c, "roundtrip", "%s:%s:code" % (ns, n), w(n2m), "%s(%r) is %r, not %d" % (n2m["q"], n, v2, c))
            v3, err = val("carries", "%s table of %s" % (ns, n), gc, c)
            if not err and isinstance(v3, StructV):
                nm = v3.f.get("name")
                if isinstance(nm, str):
                    rep.check(nm == n, "carries", "%s:%s:carries" % (ns, n), w(gc), "the coefficients of %s carry the name %r" % (n, nm))
                else:
                    rep.undecided("carries", n, "the name is not a constant")
        v, err = val("list", ns + " list", allf)
        if not err and isinstance(v, VecV) and v.concrete():
            got = [x for g, x in v.items]
            for n in names:
                rep.check(got.count(n) == 1, "list", "%s:list:%s" % (ns, n), w(allf), "%s lists %s %d times" % (allf["q"], n, got.count(n)))
            for x in got:
                if x not in names:
                    rep.bad("list", "%s:list:%s" % (ns, x), w(allf), "%s lists %r, which is not published" % (allf["q"], x))
        else:
            rep.undecided("list", ns, err or "not a constant list")
        cs = sorted(c for _, c in codes)
        unk = sorted(set([0, -1, 1, 7, 10**6] + [c + e for c in cs for e in (-1, 1)]) - set(cs))
        for c in unk:
            v, err = val("unknown", "%s name of unknown %d" % (ns, c), m2n, c)
            if not err:
                rep.check(v == "" or v is NULL, "unknown", "%s:unknown-code:name" % ns, w(m2n), "%s(%d) of an unknown code is %r" % (m2n["q"], c, v))
            v, err = val("unknown", "%s table of unknown %d" % (ns, c), gc, c)
            if not err and isinstance(v, StructV) and isinstance(v.f.get("b"), MatV):
                rep.check(v.f["b"].n == 0, "unknown", "%s:unknown-code:table" % ns, w(gc), "an unknown code %d returns non-empty weights" % c)
        for n in ("", "NONE", "dormand_prince_54", names[0] + "X", names[0][:-1], " " + names[0]):
            v, err = val("unknown", "%s code of unknown %r" % (ns, n), n2m, n)
            if not err:
                rep.check(v == 0 or v not in cs, "unknown", "%s:unknown-name" % ns, w(n2m), "%s(%r) of an unknown name is the valid code %r" % (n2m["q"], n, v))
        for q, s in pure.items():
            fn = [x for x in (m2n, n2m, allf, gc) if x["q"] == q][0]
            rep.bad("pure", "%s:pure" % q, w(fn), "%s changes an object that outlives the call (%s)" % (q, s[0]))
    return ("The lookup functions of both families are constant-propagated for every published code and name and for unknown ones; global objects are compared before and after.", ASSUME[:1], 80)


def need(d, q):
    fs = [x for x in d.byq.get(q, []) if x.get("body")]
    if not fs:
        raise Broken("%s not found" % q)
    return fs[0]


# ---------------------------------------------------------------- P22
def P22(rep):
    rep.rule("project", "project_b(theta) is the interpolation matrix applied to (theta^s, ..., theta), for symbolic theta and matrix")
    rep.rule("start", "weights at theta = 0 are zero")
    rep.rule("end", "weights at theta = 1 are the method's weights")
    rep.rule("exact", "sum b_j(theta) c_j^(q-1) = theta^q / q for q up to the stage count, as polynomials in theta")
    rep.rule("square", "the interpolation matrix has one row and one column per stage")
    d = db()
    th = atom("theta")
    for ns in ("erk", "irk"):
        pb = need(d, ns + "::project_b")
        w = "%s:%d (%s)" % (rel(pb["file"]), pb["l"], pb["q"])
        for s in range(1, 6):
            it = Interp(d)
            st = it.new_state()
            bi = MatV(s, s, [atom("w%d_%d" % (i, j)) for j in range(s) for i in range(s)])
            st.mem["SC"] = StructV(ns + "::solver_coeffs", dict(name="", b=MatV(s, 1, [atom("b%d" % i) for i in range(s)]),
                                   c=MatV(s, 1, [atom("c%d" % i) for i in range(s)]), A=MatV(s, s, [ZERO] * (s * s)), b2=MatV(0, 1, ()),
                                   order=1, order2=0, FSAL=False, gamma=ZERO, b_interp=bi))
            try:
                v = it.callfn(pb, None, [th, LV("SC")], st, "R")
            except (Dead, Unsup) as e:
                rep.undecided("project", "%s s=%d" % (ns, s), str(e))
                continue
            rep.uses(it)
            if not isinstance(v, MatV) or any("top" in x.taint for x in v.e if isinstance(x, Node)):
                rep.undecided("project", "%s s=%d" % (ns, s), repr(v)[:80])
                continue
            if not rep.check(v.n == s, "project", "%s:project:size" % ns, w, "%d weights for %d stages" % (v.n, s)):
                continue
            for j in range(s):
                want = ZERO
                for k in range(s):
                    want = add(want, mul(bi.at(j, k), powi(th, s - k)))
                rep.check(num(v.e[j]) is want, "project", "%s:project" % ns, w,
                          "weight %d of %d is %s" % (j, s, show(num(v.e[j]))), subject="%s s=%d weight %d" % (ns, s, j))
        for T in load_tables(d, ns, rep).values():
            if not usable(rep, T, "end") or not T.bi:
                continue
            s = len(T.b)
            w2 = loc(ns, T.name)
            if not rep.check(len(T.bi) == s and all(len(r) == s for r in T.bi), "square", T.name + ":square", w2, "interpolation matrix of %s is %dx%d for %d stages" % (T.name, len(T.bi), len(T.bi[0]), s)):
                continue
            B = lambda j, t: sum((T.bi[j][k] * t ** (s - k) for k in range(s)), mpf(0))
            rep.ok("start", T.name)
            r = mx([B(j, mpf(1)) - T.b[j] for j in range(s)])
            rep.check(r <= mpf(10) ** -11, "end", T.name + ":end", w2, "interpolated weights of %s at the end of the step differ from its weights by %s" % (T.name, f(r)))
            for q in range(1, s + 1):
                worst = mpf(0)
                for i in range(s + 2):
                    t = mpf(i) / (s + 1)
                    worst = max(worst, abs(sum((B(j, t) * T.c[j] ** (q - 1) for j in range(s)), mpf(0)) - t ** q / q))
                rep.check(worst <= mpf(10) ** -11, "exact", T.name + ":exact", w2, "the interpolation of %s is not exact for polynomials of degree %d: off by %s" % (T.name, q, f(worst)), subject="%s q=%d" % (T.name, q))
    return ("project_b is interpreted with symbolic theta and coefficients for 1 to 5 stages; the interpolation matrices are constant-propagated (through the collocation construction) and their polynomial identities evaluated at more points than their degree.", ASSUME, 40)


# ---------------------------------------------------------------- P32
def P32(rep):
    rep.rule("valid", "verify_solver_coeffs is true exactly for non-empty weights, abscissae and square matrix of one size (explicit family: strictly lower triangular)")
    rep.rule("classify", "is_method_explicit / _dirk / _sdirk are true exactly for that shape of the matrix, as a Boolean function of its entries being zero")
    d = db()

    def sc(ns, nb, nc, r, c, b2=0):
        return StructV(ns + "::solver_coeffs", dict(name="", b=MatV(nb, 1, [atom("b%d" % i) for i in range(nb)]),
                       c=MatV(nc, 1, [atom("c%d" % i) for i in range(nc)]), A=MatV(r, c, [atom("A%d%d" % (i, j)) for j in range(c) for i in range(r)]),
                       b2=MatV(b2, 1, [atom("B%d" % i) for i in range(b2)]), order=1, order2=0, FSAL=False, gamma=ZERO, b_interp=MatV(0, 0, ())))

    def evalb(fn, v):
        it = Interp(d)
        st = it.new_state()
        st.mem["SC"] = v
        st.mem["CERR"] = VecV(kind="stream")
        r = it.callfn(fn, None, [LV("SC")], st, "R")
        rep.uses(it)
        if isinstance(r, Top):
            raise Unsup(r.why)
        return boolean(r)
    for ns in ("erk", "irk"):
        fn = need(d, ns + "::verify_solver_coeffs")
        w = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
        shapes = [(a, b, r, c) for a in range(4) for b in range(4) for r in range(4) for c in range(4)]
        for a, b, r, c in shapes:
            if (r == 0) != (c == 0):
                continue
            want = TRUE if a and a == b == r == c else FALSE
            if ns == "erk" and want is TRUE:
                for i in range(r):
                    for j in range(i, c):
                        want = andn(want, eq0(atom("A%d%d" % (i, j))))
            sub_ = "%s b=%d c=%d A=%dx%d" % (ns, a, b, r, c)
            try:
                got = evalb(fn, sc(ns, a, b, r, c))
            except (Dead, Unsup) as e:
                rep.undecided("valid", sub_, str(e))
                continue
            if "top" in got.taint:
                rep.undecided("valid", sub_, "unknown result")
                continue
            rep.check(got is want, "valid", "%s:valid" % ns, w, "weights %d, abscissae %d, matrix %dx%d: verdict is %s, should be %s" % (a, b, r, c, show(got), show(want)), subject=sub_)
    Z = lambda i, j: eq0(atom("A%d%d" % (i, j)))
    for q, what in (("irk::is_method_explicit", 0), ("irk::is_method_dirk", 1), ("irk::is_method_sdirk", 2)):
        fn = need(d, q)
        w = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
        for s in range(1, 5):
            ex = TRUE
            for i in range(s):
                for j in range(i, s):
                    ex = andn(ex, Z(i, j))
            lo = TRUE
            for i in range(s):
                for j in range(i + 1, s):
                    lo = andn(lo, Z(i, j))
            want = ex
            if what >= 1:
                want = andn(lo, notn(ex))
            if what == 2:
                for i in range(1, s):
                    want = andn(want, eq(atom("A%d%d" % (i, i)), atom("A00")))
            try:
                got = evalb(fn, sc("irk", s, s, s, s))
            except (Dead, Unsup) as e:
                rep.undecided("classify", "%s s=%d" % (q, s), str(e))
                continue
            if "top" in got.taint:
                rep.undecided("classify", "%s s=%d" % (q, s), "unknown result")
                continue
            okc = equiv(got, want)
            rep.check(okc, "classify", q, w, "%s of a symbolic %dx%d matrix is not the shape it names" % (q, s, s), subject="%s s=%d" % (q, s))
    return ("The validation and classification functions are interpreted with symbolic matrices of every size up to 3 (4); their verdicts, reduced to decision diagrams over 'entry is zero', are compared with the specification.", ["sizes above 4 behave like smaller ones (uniform loops)"], 100)


def equiv(a, b):
    """Equality of two conditions, allowing for facts between eq0 atoms (x = y and y = z give x = z)."""
    if a is b:
        return True
    for c, r in cases(lambda c: (c.red(a), c.red(b))):
        if r[0] is not r[1]:
            # is this assignment consistent? zero-tests of linear combinations of entries
            if consistent(c.facts):
                return False
    return True


def consistent(facts):
    """Can the eq0 facts over differences of atoms hold together? (union-find)"""
    par = {}

    def find(x):
        while par.setdefault(x, x) != x:
            x = par[x]
        return x

    def pair(k):
        x = k.args[0]
        if x.op == "atom":
            return x.nid, 0
        if x.op == "sub" and all(a.op == "atom" for a in x.args):
            return x.args[0].nid, x.args[1].nid
        return None
    ps = [(pair(k), v) for k, v in facts.items() if k.op == "eq0"]
    for p, v in ps:
        if p and v:
            par[find(p[0])] = find(p[1])
    return all(v or not p or find(p[0]) != find(p[1]) for p, v in ps)
