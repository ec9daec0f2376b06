"""Checks over the whole source: P24 (headers), P25 (assertions), P28 (hidden state), P35 (defined outcomes)."""
import concurrent.futures as cf
import glob
import json
import os
import re
import shutil
import subprocess
from front import REPO, PROBE, Broken, extract, tmpdir
from interp import *
from interp import clean
from lib import rel
from safety import walk, library_file

PROBES = [os.path.join(PROBE, n + ".cpp") for n in ("erk", "irk", "newton", "multistep", "buffer", "timer", "all")]


def sources():
    return sorted(f for f in glob.glob(os.path.join(REPO, "*.cpp")))


def headers():
    return sorted(f for f in glob.glob(os.path.join(REPO, "*.hpp")) + glob.glob(os.path.join(REPO, "*.h")))


def programs():
    return sorted(f for f in glob.glob(os.path.join(REPO, "*", "*.cpp")) if os.sep + "_build" not in f and "int main" in open(f, errors="replace").read())


def clang(args):
    exe = "clang++-18" if shutil.which("clang++-18") else "clang++"
    r = subprocess.run([exe, "-std=c++11", "-I" + REPO, "-I" + PROBE] + args, capture_output=True, text=True)
    return r.returncode, r.stdout + r.stderr


# --------------------------------------------------------------------- P28
RO = {"find", "begin", "end", "cbegin", "cend", "rbegin", "rend", "at", "front", "back", "data", "lower_bound", "upper_bound", "equal_range", "memptr", "colptr",
      "col", "row", "subvec", "submat", "rows", "cols", "diag", "head", "tail", "begin_col", "end_col", "t", "st", "str", "c_str", "get", "first", "second", "operator->", "operator*"}
IMPURE = {"rand", "srand", "random", "srandom", "drand48", "srand48", "rand_r", "strtok", "setlocale", "getenv", "setenv", "putenv", "unsetenv", "std::rand", "std::srand", "std::strtok",
          "std::setlocale", "std::getenv", "time", "std::time", "arma::randu", "arma::randn", "arma::randi", "arma::randg", "arma::arma_rng::set_seed", "arma::arma_rng::set_seed_random",
          "std::locale::global", "fesetround", "std::fesetround", "feenableexcept", "feclearexcept", "std::feclearexcept", "signal", "atexit", "std::atexit"}
STREAMS = ("std::cout", "std::cerr", "std::clog", "std::cin")
ALIAS = re.compile(r"[&*]$|iterator|reference|_Rb_tree|__normal_iter|subview|pointer")


class Effects:
    """Which objects that outlive a call each function may change."""

    def __init__(self, db):
        self.db = db
        self.globals = {}
        for tu, d in enumerate(db.tus):
            for i, g in d["globals"].items():
                if g:
                    self.globals[tu, int(i)] = g
        self.sum = {}
        self.bad = []
        self.sites = 0

    def static(self, tu, n):
        """Static object an expression names, if it can be changed."""
        if n["k"] == "Ref" and n.get("kind") in ("global", "slocal") or n["k"] == "Member" and n.get("kind") == "svar":
            g = self.globals.get((tu, n["id"]))
            q = n.get("q", n.get("name"))
            if q in STREAMS:
                return None
            if g and (g["constexpr"] or g["const"]):
                return None
            return q
        return None

    def targets(self, F, n):
        """What an lvalue, pointer or iterator may refer to: static objects ("g", q), parameters ("p", id), "this"."""
        if not isinstance(n, dict):
            return set()
        k = n["k"]
        if k in ("Ref", "Member"):
            q = self.static(F["tu"], n)
            if q:
                return {("g", q)}
        if k == "Ref":
            if n.get("kind") == "param":
                t = F["ptypes"].get(n["id"], "")
                return {("p", n["id"])} if t.endswith(("&", "*")) else F["alias"].get(n["id"], set())
            return F["alias"].get(n.get("id"), set())
        if k == "This":
            return {"this"}
        if k == "Member":
            return self.targets(F, n.get("base"))
        if k in ("Cast", "Un"):
            return self.targets(F, n.get("e")) if k == "Cast" or n.get("op") in ("*", "&", "++", "--") else set()
        if k == "Index":
            return self.targets(F, n["a"])
        if k == "Cond":
            return self.targets(F, n["a"]) | self.targets(F, n["b"])
        if k == "Bin" and n["op"] in ("+", "-", "=", "+=", "-=", ","):
            return self.targets(F, n["b"] if n["op"] == "," else n["a"]) | (self.targets(F, n["b"]) if n["op"] == "+" else set())
        if k == "OpCall" and n.get("args"):
            return self.targets(F, n["args"][0])
        if k == "MCall":
            r = n.get("ref") or {}
            out = set()
            if ALIAS.search(clean(r.get("rt", ""))) or ALIAS.search(r.get("rt", "")):
                s = self.summary(F["tu"], r)
                if s is None:
                    out |= self.targets(F, n.get("obj"))
                else:
                    out |= self.bind(F, s["ret"], n, r)
            return out
        if k == "Call":
            r = n.get("ref") or {}
            s = self.summary(F["tu"], r)
            if s is not None:
                return self.bind(F, s["ret"], n, r)
            if ALIAS.search(r.get("rt", "")):
                return set().union(set(), *[self.targets(F, a) for a in n.get("args", [])])
            return set()
        if k == "Construct" and len(n.get("args", [])) == 1:
            return self.targets(F, n["args"][0]) if ALIAS.search(n.get("t", "")) else set()
        return set()

    def bind(self, F, tg, n, r):
        """Targets of a callee in terms of the caller's."""
        out = set()
        args = n.get("args", [])
        for t in tg:
            if t == "this":
                out |= self.targets(F, n.get("obj")) if n.get("obj") else set()
            elif t[0] == "p":
                i = t[1]
                if isinstance(i, int) and i < len(args):
                    out |= self.targets(F, args[i])
            else:
                out.add(t)
        return out

    def summary(self, tu, r):
        """Effects of a function of the repository; None when its body is not there."""
        if not r.get("fn"):
            return None
        fn = self.db.fn(r["fn"], tu)
        if fn is None or not fn.get("body"):
            return None
        key = (tu, r["fn"])
        if key in self.sum:
            return self.sum[key]
        self.sum[key] = {"writes": set(), "ret": set()}     # recursion starts from nothing
        for _ in range(4):
            s = self.analyse(tu, fn, record=False)
            if s == self.sum[key]:
                break
            self.sum[key] = s
        return self.sum[key]

    def analyse(self, tu, fn, record):
        F = {"tu": tu, "fn": fn, "alias": {}, "ptypes": {p["id"]: p["t"].rstrip() for p in fn["params"]}}
        body = [fn["body"]] + [i["init"] for i in fn.get("inits", []) if i.get("init")]
        nodes = [n for b in body for n in walk(b)]
        decls = [d for n in nodes if n["k"] == "Decl" for d in n["d"]] + [n["var"] for n in nodes if n["k"] == "ForRange"]
        for n in nodes:
            if n["k"] == "ForRange":
                n["var"] = dict(n["var"], rng=n.get("range"))
        for _ in range(4):
            for d in decls:
                e = d.get("init") if d.get("rng") is None else d["rng"]
                if d.get("id") is not None and e and (d.get("ref") or ALIAS.search(d["t"]) or ALIAS.search(clean(d["t"]))) and not d.get("static"):
                    if "const" in d["t"].split("&")[0].split("*")[0].split("<")[0] and "iterator" not in d["t"]:
                        continue
                    F["alias"][d["id"]] = F["alias"].get(d["id"], set()) | self.targets(F, e)
            for n in nodes:
                if n["k"] == "Bin" and n["op"] == "=" and n["a"]["k"] == "Ref" and n["a"].get("kind") in ("local", "param") and clean(n["a"]["t"]).endswith("*"):
                    F["alias"][n["a"]["id"]] = F["alias"].get(n["a"]["id"], set()) | self.targets(F, n["b"])
        writes, ret = set(), set()

        def write(n, tg, how):
            for t in tg:
                if t == "this" or t[0] == "p":
                    writes.add(t)
                else:
                    writes.add(t)
                    if record:
                        self.bad.append((fn, n.get("l", fn["l"]), t[1], how))
        for n in nodes:
            k = n["k"]
            if k == "Bin" and n["op"].endswith("=") and n["op"] not in ("==", "!=", "<=", ">="):
                a = n["a"]
                if a["k"] == "Ref" and a.get("kind") in ("local", "param") and not F["ptypes"].get(a["id"], "").endswith("&") and not self.isref(decls, a["id"]):
                    continue        # the variable itself, not what it points to
                self.sites += record
                write(n, self.targets(F, a), "assigned to")
            elif k == "Un" and n["op"] in ("++", "--"):
                a = n["e"]
                if a["k"] == "Ref" and a.get("kind") in ("local", "param") and not F["ptypes"].get(a["id"], "").endswith("&") and not self.isref(decls, a["id"]):
                    continue
                self.sites += record
                write(n, self.targets(F, a), "incremented")
            elif k in ("OpCall", "MCall", "Call", "Construct"):
                r = n.get("ref") or {}
                q = r.get("q", "")
                self.sites += record
                if q in IMPURE or q.split("<")[0] in IMPURE:
                    if record and not self.clock(fn, q):
                        self.bad.append((fn, n.get("l", fn["l"]), q, "called"))
                    continue
                s = self.summary(tu, r)
                args = list(n.get("args", []))
                if k == "OpCall" and r.get("method") and s is not None:
                    m = dict(n, obj=args[0] if args else None, args=args[1:])
                    write(n, self.bind(F, s["writes"], m, r), "changed through %s" % q)
                    continue
                if s is not None:
                    m = n
                    if k == "Construct":
                        m = dict(n, obj=None)
                    write(n, self.bind(F, s["writes"], m, r), "changed through %s" % q)
                    continue
                name = q.rsplit("::", 1)[-1]
                cls = r.get("cls", "")
                pt = r.get("pt", [])
                if k == "OpCall" and r.get("method"):
                    obj, args = args[0], args[1:]
                    op = n.get("op")
                    if not r.get("const") and (op == "[]" and re.match(r"std::(unordered_)?map", cls) or op not in ("[]", "()", "*", "->", "++", "--") or op in ("++", "--") and not ALIAS.search(clean(obj.get("t", "")))):
                        if op in ("=",) and obj["k"] == "Ref" and obj.get("kind") in ("local", "param") and not self.isref(decls, obj["id"]) and ALIAS.search(clean(obj.get("t", ""))):
                            continue
                        write(n, self.targets(F, obj), "changed by %s" % q)
                elif k == "MCall" and not r.get("const") and not r.get("static") and name not in RO:
                    write(n, self.targets(F, n.get("obj")), "changed by %s" % q)
                for a, t in zip(args, pt):
                    t = t.rstrip()
                    if t.endswith("&") and not t.endswith("&&") and "const " not in t[:6] or t.endswith("*") and "const " not in t[:6]:
                        write(n, self.targets(F, a), "passed to %s" % q)
            elif k == "Return" and n.get("e"):
                rt = fn["rt"].rstrip()
                if ALIAS.search(rt) and not rt.startswith("const "):
                    ret |= self.targets(F, n["e"])
            elif k == "Decl" and record:
                for d in n["d"]:
                    if d.get("static") and d.get("init"):
                        for x in walk(d["init"]):
                            if x["k"] == "Ref" and x.get("kind") in ("local", "param") and "cv" not in x or x["k"] == "This":
                                if not (x.get("kind") == "local" and self.isconst(decls, x["id"])):
                                    self.bad.append((fn, d["l"], d["name"], "set once from %s, which differs between calls," % x.get("name", "the object")))
                                    break
                        self.sites += 1
        idx = {p["id"]: i for i, p in enumerate(fn["params"])}
        fix = lambda ts: {t if t == "this" or t[0] != "p" else ("p", idx.get(t[1], -1)) for t in ts}
        return {"writes": fix(writes), "ret": fix(ret)}

    def clock(self, fn, q):
        return "timer" in os.path.basename(fn["file"]) and "time" in q

    @staticmethod
    def isref(decls, i):
        return any(d.get("id") == i and d.get("ref") for d in decls)

    @staticmethod
    def isconst(decls, i):
        return any(d.get("id") == i and d.get("const") and d.get("init") and "cv" in d["init"] for d in decls)


def libdb(flags=()):
    return DB(extract([p for p in PROBES if os.path.exists(p)] + sources(), flags))


def P28(rep):
    rep.rule("effect", "no function of the library changes an object with static storage (other than a standard stream), nor calls something that keeps hidden state")
    rep.rule("static", "no object of the library with static storage is changed by any function or set from the arguments of one call")
    db = libdb()
    E = Effects(db)
    seen = {}
    for tu, d in enumerate(db.tus):
        for key, fn in (d["functions"].items() if isinstance(d["functions"], dict) else []):
            if not fn.get("body") or not library_file(fn["file"]):
                continue
            where = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
            n0 = len(E.bad)
            E.analyse(tu, fn, True)
            rep.analysed.add(where)
            if len(E.bad) == n0 and where not in seen:
                rep.ok("effect", where)
            seen[where] = 1
    done = set()
    for fn, l, q, how in E.bad:
        k = (fn["q"].split("<")[0], q, how)
        if k in done:
            continue
        done.add(k)
        rep.bad("effect", "%s:%s" % (k[0], q), "%s:%d (%s)" % (rel(fn["file"]), l, fn["q"]), "%s is %s, so a call can depend on the calls before it" % (q, how))
    changed = {q for _, _, q, _ in E.bad}
    gl = set()
    for g in E.globals.values():
        if g["inroot"] and library_file(g["file"]) and (g["q"], g["file"], g["l"]) not in gl:
            gl.add((g["q"], g["file"], g["l"]))
            if g["q"] not in changed:
                rep.ok("static", "%s (%s:%d)" % (g["q"], rel(g["file"]), g["l"]))
    rep.extra["static_objects"] = len(gl)
    rep.extra["effect_sites"] = E.sites
    return ("Every function of the library (templates as instantiated by the probes) is searched for assignments, increments, mutating calls and reference or pointer "
            "escapes whose object resolves, through aliases and callee summaries, to an object with static storage.",
            ["functions of Armadillo and the standard library keep no hidden state except the listed generators, locale and environment functions",
             "diagnostic streams and their formatting flags are not results"], 80)


# --------------------------------------------------------------------- P25
PURE_STD = re.compile(r"^(std|arma)::|^__builtin|^(fabs|sqrt|abs|isfinite|isnan|isinf|pow|exp|log|sin|cos|strcmp|strlen|fmin|fmax)$")

def effects_in(db, E, tu, fn, cond):
    """Something the evaluation of an expression changes."""
    F = {"tu": tu, "fn": fn, "alias": {}, "ptypes": {p["id"]: p["t"] for p in fn["params"]}}
    for x in walk(cond):
        k = x["k"]
        if k == "Bin" and x["op"].endswith("=") and x["op"] not in ("==", "!=", "<=", ">="):
            return "an assignment", x
        if k == "Un" and x["op"] in ("++", "--"):
            return "an increment", x
        if k in ("New", "Delete", "Throw"):
            return k.lower(), x
        if k in ("Call", "MCall", "OpCall", "Construct"):
            r = x.get("ref") or {}
            q = r.get("q", "")
            if r.get("noreturn"):
                continue
            s = E.summary(tu, r)
            args = list(x.get("args", []))
            if s is not None:
                out = deep(db, E, tu, r, set())
                if out:
                    return "a call of %s, which %s" % (q, out), x
                if k != "Construct":
                    for t in s["writes"]:
                        return "a call of %s, which changes %s" % (q, "its object" if t == "this" else "its argument" if t[0] == "p" else t[1]), x
                continue
            if not r:
                return "a call the analysis cannot see", x
            if k in ("MCall", "OpCall") and r.get("method") and not r.get("const") and not r.get("static"):
                name = q.rsplit("::", 1)[-1]
                if name not in RO and x.get("op") not in ("[]", "()", "*", "->") or x.get("op") == "[]" and re.match(r"std::(unordered_)?map", r.get("cls", "")):
                    return "a call of %s, which may change its object" % q, x
            elif k == "OpCall" and x.get("op") in ("=", "+=", "-=", "*=", "/=", "++", "--", "%=", "|=", "&=", "<<=", ">>="):
                return "a call of %s" % q, x
            for a, t in zip(args, r.get("pt", [])):
                t = t.rstrip()
                if (t.endswith("&") and not t.endswith("&&") or t.endswith("*")) and not t.startswith("const ") and k != "OpCall":
                    return "a call of %s, which may change its argument" % q, x
            if not PURE_STD.match(q) and not r.get("const") and k == "Call" and not r.get("inroot"):
                return "a call of %s, which the analysis cannot see" % q, x
            if r.get("inroot") and not str(r.get("cls", "")).startswith("probe"):
                return "a call of %s, whose definition was not found" % q, x
    return None


def deep(db, E, tu, r, seen):
    """Output or other effect on the world of a function of the repository."""
    if r.get("fn") in seen:
        return None
    seen.add(r.get("fn"))
    fn = db.fn(r["fn"], tu)
    if fn is None or not fn.get("body"):
        return None
    for n in walk(fn["body"]):
        q = n.get("q") or ""
        if n["k"] in ("Ref",) and n.get("kind") == "global" and q in STREAMS:
            continue        # diagnostics of a failing verification are not results
        if n["k"] in ("Call", "MCall", "OpCall"):
            rr = n.get("ref") or {}
            if str(rr.get("cls", "")).startswith("probe"):
                return "evaluates the user's function"
            if rr.get("fn"):
                d = deep(db, E, tu, rr, seen)
                if d:
                    return d
    return None


def canon(n, ids):
    """Comparable form: variables numbered by first appearance, assertions dropped from statement lists."""
    if isinstance(n, dict):
        if n.get("macro") == "assert":
            return None
        out = {}
        for k in sorted(n):
            if k in ("l", "nl", "macro", "lv", "cv", "file", "endl"):
                continue
            v = n[k]
            if k == "id" and isinstance(v, int):
                out[k] = ids.setdefault(v, len(ids))
            elif k == "fn" and isinstance(v, str):
                out[k] = re.sub(r"[#@]\d+|:\d+", "", v)
            elif k == "ref" and isinstance(v, dict):
                out[k] = {x: v[x] for x in ("q", "pt", "rt", "ta", "const") if x in v}
            else:
                out[k] = canon(v, ids)
        return out
    if isinstance(n, list):
        return [c for c in (canon(x, ids) for x in n) if not (c is None)]
    return n


def difference(a, b, path=""):
    if type(a) is not type(b):
        return path
    if isinstance(a, dict):
        for k in sorted(set(a) | set(b)):
            if k not in a or k not in b:
                return path + "/" + k
            d = difference(a[k], b[k], path + "/" + k)
            if d:
                return d
        return None
    if isinstance(a, list):
        for i, (x, y) in enumerate(zip(a, b)):
            d = difference(x, y, "%s[%d]" % (path, i))
            if d:
                return d
        return path + "[%d]" % min(len(a), len(b)) if len(a) != len(b) else None
    return None if a == b else path


def fkey(f):
    return (f["q"], f["file"], f["l"], tuple(p["t"] for p in f["params"]), tuple(f.get("ta", ())), f.get("cls"))


def P25(rep):
    rep.rule("effect", "the condition of an assertion changes nothing: no assignment, increment, mutating call or evaluation of the user's function")
    rep.rule("same", "without its assertions, a function is the same program whether assertions are enabled or not")
    files = [p for p in PROBES if os.path.exists(p)] + sources() + [f for f in programs() if "C_interface" not in f]
    # tests need third-party macros; they are not part of the property
    dbs = []
    for flags in ((), ("-DNDEBUG",)):
        def one(f):
            try:
                return extract([f], flags)[0]
            except Broken:
                if f in sources() or f.startswith(PROBE):
                    raise
        with cf.ThreadPoolExecutor(8) as ex:
            ok = list(ex.map(one, files))
        for f, o in zip(files, ok):
            if o is None and not flags:
                rep.extra.setdefault("programs_that_do_not_compile", []).append(rel(f))
        dbs.append(DB([o for o in ok if o]))
    on, off = dbs
    E = Effects(on)
    offs = {}
    for tu, d in enumerate(off.tus):
        for f in d["functions"].values():
            offs.setdefault(fkey(f), []).append(f)
    seen = set()
    for tu, d in enumerate(on.tus):
        for f in d["functions"].values():
            if not f.get("body") or not f["file"].startswith(REPO + "/") or fkey(f) in seen:
                continue
            seen.add(fkey(f))
            where = "%s:%d (%s)" % (rel(f["file"]), f["l"], f["q"])
            rep.analysed.add(where)
            for n in walk(f["body"]):
                if n.get("macro") == "assert" and n["k"] in ("Cond", "If"):
                    w = "%s:%d (%s)" % (rel(f["file"]), n["l"], f["q"])
                    x = effects_in(on, E, tu, f, n["cond"])
                    if x:
                        rep.bad("effect", "%s:assert" % f["q"].split("<")[0], w, "the condition of the assertion contains %s" % x[0])
                    else:
                        rep.ok("effect", w)
            gs = offs.get(fkey(f))
            if not gs:
                rep.bad("same", f["q"].split("<")[0], where, "the function does not exist when assertions are disabled")
                continue
            p = None
            for g in gs:
                nodef = any(("def" in x) != ("def" in y) for x, y in zip(f["params"], g["params"]))
                form = lambda h: canon({"body": h["body"], "inits": h.get("inits"), "params": [{k: v for k, v in q.items() if k != "def" or not nodef} for q in h["params"]]}, {})
                p = difference(form(f), form(g))
                if not p:
                    break
            if p:
                rep.bad("same", f["q"].split("<")[0], where, "the function differs when assertions are disabled, near %s" % p[-80:])
            else:
                rep.ok("same", where)
    ons = set()
    for d in on.tus:
        ons |= {fkey(f) for f in d["functions"].values()}
    for k, (f, *_) in offs.items():
        if k not in ons and f.get("body") and f["file"].startswith(REPO + "/"):
            rep.bad("same", f["q"].split("<")[0], "%s:%d (%s)" % (rel(f["file"]), f["l"], f["q"]), "the function only exists when assertions are disabled")
    records = [{(r["q"], r["file"], r["l"]): [(x["name"], x["t"]) for x in r["fields"]] for d in db.tus for r in (d["records"].values())} for db in dbs]
    for k in sorted(set(records[0]) | set(records[1])):
        if k[1].startswith(REPO + "/"):
            rep.check(records[0].get(k) == records[1].get(k), "same", k[0], "%s:%d (%s)" % (rel(k[1]), k[2], k[0]), "the class has other members when assertions are disabled", k[0])
    return ("Every function of the library and the bundled programs is extracted twice, with and without NDEBUG; the syntax trees are compared with the assertions "
            "taken out, and each assertion's condition is searched for effects, through the bodies of the functions it calls.",
            ["standard library and Armadillo functions taking their arguments by value or const reference have no effect"], 150)


# --------------------------------------------------------------------- P24
def declarations(rep, db, files):
    """Every non-template function declared in a library header is defined exactly once; templates are defined in a header."""
    decls, defs = {}, {}
    for d in db.tus:
        for o in d["decls"]:
            if o["implicit"] or o["local"] or not library_file(o["file"]) or o["inst"]:
                continue
            t = (o["q"], tuple(o["pt"])) if o["templated"] else (o["q"], tuple(re.sub(r" const$", "", p) for p in o["pt"]))
            if o["deleted"] or o["pure"] or o["defaulted"]:
                continue
            decls.setdefault(t, []).append(o)
            if o["isdef"]:
                defs.setdefault(t, {})[o["file"], o["l"]] = o
    for t, os_ in sorted(decls.items()):
        o = next((x for x in os_ if not x["isdef"] and x["file"].endswith((".hpp", ".h"))), os_[0])
        where = "%s:%d (%s)" % (rel(o["file"]), o["l"], t[0])
        label = "%s(%s)" % (t[0], ", ".join(t[1]))
        if not any(x["file"].endswith((".hpp", ".h")) for x in os_):
            if o["linkage"] == "ext":
                ds = defs.get(t, {})
                if len({f for f, l in ds}) > 1:
                    rep.bad("defined", t[0], where, "%s is defined in %s" % (label, " and ".join(sorted(rel(f) for f, l in ds))))
            continue
        ds = defs.get(t, {})
        if o["templated"]:
            hd = [f for f, l in ds if f.endswith((".hpp", ".h"))]
            same = [k for k in defs if k[0] == t[0] and len(k[1]) == len(t[1]) and any(f.endswith((".hpp", ".h")) for f, l in defs[k])]
            rep.check(bool(hd or same), "defined", t[0], where, "the template %s is declared but its definition is in no header" % label, label)
            continue
        if o["linkage"] == "int":
            rep.check(bool(ds), "defined", t[0], where, "%s is declared but not defined" % label, label)
            continue
        rep.check(len(ds) == 1 or len({f for f, l in ds}) == 1 and ds, "defined", t[0], where,
                  "%s is declared but %s" % (label, "not defined" if not ds else "defined in %s" % " and ".join(sorted(rel(f) for f, l in ds))), label)
        for (f, l), x in ds.items():
            if f.endswith((".hpp", ".h")):
                rep.check(x["inline"] or x["linkage"] != "ext", "once", t[0], "%s:%d (%s)" % (rel(f), l, t[0]),
                          "%s is defined in a header without being inline, so two files that include it do not link" % label, label)
    vars_ = {}
    for d in db.tus:
        for g in d["globals"].values():
            if g and not g["slocal"] and library_file(g["file"]):
                vars_.setdefault(g["q"], []).append(g)
    for q, gs in sorted(vars_.items()):
        g = gs[0]
        where = "%s:%d (%s)" % (rel(g["file"]), g["l"], q)
        if g["linkage"] != "ext":
            rep.ok("once", where)
            continue
        df = {x["deffile"] for x in gs if x["def"]}
        rep.check(bool(df), "defined", q, where, "the object %s is declared but not defined" % q, where)
        rep.check(len(df) <= 1, "once", q, where, "the object %s is defined in %s" % (q, " and ".join(sorted(map(rel, df)))), where)
        rep.check(not any(f.endswith((".hpp", ".h")) for f in df) or g["inline"], "once", q, where,
                  "the object %s is defined in a header, so two files that include it do not link" % q, where)


def P24(rep):
    rep.rule("alone", "the header compiles when a file includes nothing but it, and when it is included twice")
    rep.rule("together", "all headers compile in one file, in either order")
    rep.rule("twice", "including the header gives the object file no strong symbol, so any number of files may include it")
    rep.rule("once", "a function or object with external linkage defined in a header is inline")
    rep.rule("defined", "a function or object declared in a header is defined exactly once by the library, or in the header")
    hs = headers()
    d = os.path.join(tmpdir(), "p24")
    os.makedirs(d, exist_ok=True)
    jobs = []
    for h in hs:
        f = os.path.join(d, os.path.basename(h) + ".cpp")
        b = os.path.basename(h)
        open(f, "w").write('#include "%s"\n#include "%s"\n' % (b, b))
        jobs.append(("alone", b, f, h))
    pub = [h for h in hs]
    for n, order in (("forward", pub), ("backward", pub[::-1])):
        f = os.path.join(d, n + ".cpp")
        open(f, "w").write("".join('#include "%s"\n' % os.path.basename(h) for h in order))
        jobs.append(("together", n, f, None))

    def one(j):
        o = j[2] + ".ll"
        rc, txt = clang(["-w", "-O0", "-Xclang", "-disable-llvm-passes", "-S", "-emit-llvm", j[2], "-o", o])
        return j, rc, txt, open(o).read() if rc == 0 else ""
    with cf.ThreadPoolExecutor(8) as ex:
        for (kind, n, f, h), rc, txt, ll in ex.map(one, jobs):
            where = n if h is None else rel(h)
            m = re.search(r"([^\s:]+:\d+):\d+: (?:fatal )?error: (.*)", txt)
            rep.check(rc == 0, kind, n, "%s (%s)" % (where, rel(m.group(1)) if m else "?"), "%s does not compile %s: %s" % (
                where if h else "a file with all headers, " + n + ",", "on its own" if h else "", m.group(2) if m else txt[:200]), where)
            if rc or h is None:
                continue
            strong = []
            for x in re.finditer(r'^define (?:dso_local )?([^\n]*?)@("?[\w.$]+"?)\(', ll, re.M):
                if not re.match(r"(internal|linkonce_odr|linkonce|weak_odr|weak|available_externally|private)\b", x.group(1)):
                    strong.append(x.group(2))
            for x in re.finditer(r'^@("?[\w.$]+"?) = (?:dso_local )?(\w+)', ll, re.M):
                if x.group(2) in ("global", "constant", "common", "thread_local", "unnamed_addr", "local_unnamed_addr"):
                    strong.append(x.group(1))
            strong = [s for s in strong if not s.startswith(("llvm.", '"llvm'))]
            own = demangle(strong)
            rep.check(not strong, "twice", n + ":" + (own[0].split("(")[0] if own else ""), rel(h), "files that include %s define %s, so two of them do not link" % (n, ", ".join(own[:4])), n)
    try:
        db = DB(extract([f for k, n, f, h in jobs if k == "alone" and os.path.exists(f + ".ll")] + sources()))
    except Broken as e:
        rep.undecided("defined", "sources", str(e)[:200])
        db = None
    if db:
        declarations(rep, db, sources())
        for f in sources():
            rep.analysed.add(rel(f))
    for h in hs:
        rep.analysed.add(rel(h))
    shutil.rmtree(d, True)
    return ("Each header is compiled alone to intermediate code and its strong definitions listed; every declaration in a header is matched with the definitions "
            "found in the headers and the library's sources.", ["the library is built from the .cpp files of the top-level directory, as its Makefile does"], 80)


def demangle(ns):
    ns = [n.strip('"') for n in ns]
    r = subprocess.run(["c++filt"] + ns, capture_output=True, text=True) if ns and shutil.which("c++filt") else None
    return r.stdout.split("\n")[:-1] if r and r.returncode == 0 else ns


# --------------------------------------------------------------------- P35
def return_paths(rep):
    """The compiler's control-flow analysis: a function with a result that can end without one."""
    files = [p for p in PROBES if os.path.exists(p)] + sources() + programs()
    jobs = [(f, fl) for f in files for fl in ([], ["-DNDEBUG"])]

    def one(j):
        return j, clang(["-fsyntax-only", "-Wno-everything", "-Wreturn-type", j[0]] + j[1])
    counts = {}
    with cf.ThreadPoolExecutor(8) as ex:
        for (f, fl), (rc, txt) in ex.map(one, jobs):
            if "error:" in txt:
                (rep.undecided("returns", rel(f), "does not compile") if f in sources() or f.startswith(PROBE) else
                 rep.extra.setdefault("programs_that_do_not_compile", []).append(rel(f)) if not fl else None)
                continue
            hit = False
            for m in re.finditer(r"^([^\s:]+):(\d+):\d+: (?:warning|error): (.*\[-W.*return-type.*\])$", txt, re.M):
                if os.path.abspath(m.group(1)).startswith(REPO + "/"):
                    hit = True
                    counts.setdefault((os.path.abspath(m.group(1)), int(m.group(2)), m.group(3)), fl)
            if not hit:
                rep.ok("returns", "%s%s" % (rel(f) if f.startswith(REPO) else "templates used by " + os.path.basename(f), " with NDEBUG" if fl else ""))
    for (f, l, msg), fl in sorted(counts.items()):
        rep.bad("returns", "%s:return" % os.path.basename(f), "%s:%d" % (rel(f), l), "%s%s" % (re.sub(r" \[-W.*", "", msg), ", with assertions disabled" if fl else ""))


def status_texts(rep):
    db = libdb()
    fns = [f for f in db.byq.get("newton::status_message", []) if f.get("body")]
    vals = {}
    for d in db.tus:
        for e in d["enums"].values():
            if rel(e.get("file", "")) == "newton.hpp" and "SUCCESS" in e["vals"]:
                vals = {k: int(v) for k, v in e["vals"].items()}
    if not fns or not vals:
        rep.undecided("status", "newton::status_message", "function or enumeration of status codes not found")
        return
    fn = fns[0]
    where = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])

    def text(code):
        it = Interp(db)
        st = it.new_state()
        try:
            r = it.callfn(fn, None, [code], st, "R")
        except Unsup as ex:
            return None, str(ex)
        except Dead:
            return None, "no return"
        r = it.rv(r, st) if isinstance(r, LV) else r
        rep.uses(it)
        return (r, None) if isinstance(r, str) else (None, "not a constant string")
    got = {}
    for name, v in sorted(vals.items(), key=lambda kv: kv[1]):
        t, err = text(v)
        if t is None:
            (rep.bad("status", "newton::status_message:" + name, where, "no text for status %s: %s" % (name, err)) if err == "no return" else
             rep.undecided("status", name, err))
            continue
        got[name] = t
    for name, t in got.items():
        others = [o for o in vals if o != name and re.search(r"\b%s\b" % o, t) and not re.search(r"\b%s\b" % name, t)]
        same_ = [o for o in got if o != name and got[o] == t]
        rep.check(not others and not same_ and t, "status", "newton::status_message:" + name, where,
                  "the text of status %s is '%s'%s" % (name, t, ", the same as that of %s" % same_[0] if same_ else ""), "%s -> '%s'" % (name, t))
    top = max(vals.values())
    for v in (min(vals.values()) - 1, top + 1, top + 2, 1000):
        if v in vals.values():
            continue
        t, err = text(v)
        if t is None and err != "no return":
            rep.undecided("status", "code %d" % v, err)
            continue
        rep.check(t is not None and t not in got.values(), "status", "newton::status_message:unknown", where,
                  "an unknown status code (%d) gets %s" % (v, "no text" if t is None else "the text of a known one, '%s'" % t), "code %d -> '%s'" % (v, t))


def tables_own(rep):
    import tables as TB
    from tables import mpf, load_tables, method_codes
    db = DB(extract([os.path.join(REPO, "erk.cpp"), os.path.join(REPO, "irk.cpp")]))
    for ns in ("erk", "irk"):
        ts = load_tables(db, ns, rep)
        fn = db.byq[ns + "::get_coefficients"][0]
        where = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
        sig = {}
        for name, T in ts.items():
            if T.error:
                rep.undecided("table", "%s::%s" % (ns, name), T.error)
                continue
            rep.check(len(T.b) > 0 and T.Ar > 0 and len(T.c) > 0, "table", "%s::%s:empty" % (ns, name), where, "method %s is published but has no coefficients" % name, "%s::%s" % (ns, name))
            key = tuple(str(TB.mp.nstr(x, 13)) for x in T.b + T.c + [y for r in T.A for y in r] + T.b2)
            if len(T.b):
                sig.setdefault(key, []).append(name)
        for names in sig.values():
            rep.check(len(names) == 1, "table", "%s:%s" % (ns, "+".join(names)), where, "methods %s have the same coefficients" % " and ".join(names), "%s::%s is unlike the others" % (ns, names[0]))
        codes = {c for _, c in method_codes(db, ns)}
        ver = [f for f in db.byq.get(ns + "::verify_solver_coeffs", []) if f.get("body")]
        for code in (min(codes) - 1, -1, max(codes) + 1, max(codes) + 1000, 2 ** 31 - 1):
            if code in codes:
                continue
            it = Interp(db)
            st = it.new_state()
            lab = "%s::get_coefficients(%d)" % (ns, code)
            try:
                v = it.callfn(fn, None, [code], st, "R")
                st.mem["SC"] = v
                st.mem["CERR"] = VecV(kind="stream")
                r = it.callfn(ver[0], None, [LV("SC")], st, "V") if ver else None
            except Dead:
                rep.ok("unknown", lab + " does not return")
                continue
            except Unsup as ex:
                rep.undecided("unknown", lab, str(ex))
                continue
            if isinstance(r, Top) or r is None:
                rep.undecided("unknown", lab, "verdict of verify_solver_coeffs not tracked")
                continue
            b = boolean(r)
            if "undef" in b.taint or b not in (TRUE, FALSE):
                rep.bad("unknown", "%s::get_coefficients:unknown" % ns, where, "an unknown method code (%d) gives coefficients whose validity is not determined" % code)
                continue
            rep.check(b is FALSE, "unknown", "%s::get_coefficients:unknown" % ns, where, "an unknown method code (%d) gives coefficients that pass verification" % code, lab + " is rejected")
        refuse(rep, ns, codes)


def refuse(rep, fam, codes):
    """The integrators do not start with an unknown method."""
    import rk as R
    db = R.database(fam)
    fns = [f for f in db.byq.get("probe_" + fam, []) if f.get("body")]
    code = max(codes) + 1
    lab = "%s::odeint(method %d)" % (fam, code)
    hit = []

    def fun(it, st, fr, e, this, a):
        hit.append(1)
        raise Unsup("right-hand side evaluated")
    it = Interp(db, {"probe_ode::fun": fun, "probe_ode::jac": fun})
    st = it.new_state()
    fr = Frame("SETUP", None, 0)
    e = {"k": "setup", "args": []}
    for k in ("OUT", "LOG"):
        st.mem[k] = VecV(kind="stream")
    st.mem["F"] = StructV("probe_ode", {})
    st.mem["Y0"] = MatV(2, 1, [atom("y0"), atom("y1")])
    try:
        st.mem["NO"] = it.construct_default("newton::options", st, fr, e) if fam == "irk" else 0
        so = it.construct_default(fam + "::solver_options", st, fr, e)
        if fam == "irk":
            so = so.set("newton_opts", LV("NO"))
        oo = it.construct_default("output_options", st, fr, e)
        st.mem["OO"] = oo.set("log_out", RefV(LV("LOG")))
        r = it.callfn(fns[0], None, [LV("F"), atom("t0"), atom("t1"), LV("Y0"), so, LV("OO"), code, atom("dt0", True)], st, "R")
        r = it.rv(r, st) if isinstance(r, LV) else r
    except Dead:
        rep.ok("unknown", lab + " does not start")
        return
    except (Unsup, AttributeError) as ex:
        rep.undecided("unknown", lab, str(ex)) if not hit else rep.bad("unknown", "%s::odeint:unknown" % fam, "%s.hpp (%s::odeint)" % (fam, fam), "an integration with an unknown method evaluates the right-hand side")
        return
    s = r.f.get("status") if isinstance(r, StructV) else None
    s = num(s) if isinstance(s, (int, Node)) else None
    if s is None or s.const is None:
        rep.undecided("unknown", lab, "status not tracked")
    else:
        rep.check(s is not ZERO, "unknown", "%s::odeint:unknown" % fam, "%s.hpp (%s::odeint)" % (fam, fam), "an integration with an unknown method reports success", lab + " fails")


def dispatch(rep):
    """Each combination of options of newton_iterate reaches its own instance, and each option its own template argument."""
    import nl as M
    import itertools
    db = M.database()
    fns = [f for f in db.byq.get("probe_newton", []) if f.get("body")]
    opts = ["refresh_jac", "precondition", "time_internals", "limit_step", "quiet"]
    inst = {}
    for combo in itertools.product((0, 1), repeat=5):
        seen = []

        def impl(it, st, fr, e, this, a):
            seen.append((tuple(e["ref"].get("ta") or ()), [x for x in a]))
            return MatV(2, 1, [atom("root0"), atom("root1")])
        it = Interp(db, {"newton::newton_iterate_impl": impl, "probe_nl::fun": M.fun, "probe_nl::jac": M.jac})
        st = it.new_state()
        st.mem["NF"] = 0
        fr = Frame("SETUP", None, 0)
        o = it.construct_default("newton::options", st, fr, {"k": "setup", "args": []})
        s = it.construct_default("newton::status", st, fr, {"k": "setup", "args": []})
        for k, v in zip(opts[:4], combo):
            if k not in o.f:
                rep.undecided("dispatch", k, "newton::options has no such member")
                return
            o = o.set(k, v if k == "refresh_jac" else bool(v))
        st.mem["O"], st.mem["STAT"], st.mem["F"] = o, s, StructV("probe_nl", {})
        try:
            it.callfn(fns[0], None, [LV("F"), MatV(2, 1, [atom("x0"), atom("x1")]), LV("O"), LV("STAT"), bool(combo[4])], st, "R")
        except (Unsup, Dead):
            seen.clear()
        lab = ", ".join("%s=%d" % z for z in zip(opts, combo))
        if len(seen) != 1 or not seen[0][0]:
            rep.undecided("dispatch", lab, "the call of the implementation for these options was not recognised")
            continue
        inst[combo] = seen[0][0]
    if not inst:
        return
    fn = db.byq["newton::newton_iterate"][0]
    where = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"])
    names = None
    for f in db.byq.get("newton::newton_iterate_impl", []):
        names = f.get("tp") or names
    for i, k in enumerate(opts):
        votes = {}
        flips = []
        for c in inst:
            if c[i] == 0:
                d = c[:i] + (1,) + c[i + 1:]
                if d in inst:
                    p = tuple(j for j, (x, y) in enumerate(zip(inst[c], inst[d])) if x != y)
                    flips.append((c, d, p))
                    votes[p] = votes.get(p, 0) + 1
        if not flips:
            continue
        main = max(votes, key=votes.get)
        for c, d, p in flips:
            lab = ", ".join("%s=%d" % z for z in zip(opts, c))
            rep.check(p == main and len(p) == 1, "dispatch", "newton::newton_iterate:%s" % k, where,
                      "switching %s on with %s changes %s template arguments of the implementation (%s -> %s)" % (k, lab, "no" if not p else "the wrong" if p != main else "several", list(inst[c][1:]), list(inst[d][1:])),
                      "%s from %s" % (k, lab))
        if names and len(main) == 1 and main[0] < len(names) and names[main[0]] in opts:
            rep.check(names[main[0]] == k, "dispatch", "newton::newton_iterate:%s:name" % k, where, "option %s selects template parameter %s" % (k, names[main[0]]), "%s is parameter %s" % (k, names[main[0]]))
    by = {}
    for c, t in inst.items():
        by.setdefault(t, []).append(c)
    for t, cs in by.items():
        rep.check(len(cs) == 1, "dispatch", "newton::newton_iterate:shared", where, "%d option combinations reach the same instance %s" % (len(cs), list(t[1:])), "instance %s has one combination" % (list(t[1:]),))


def orders(rep):
    import ms
    ok = {"adams_bashforth": range(1, 6), "bdf": range(1, 7)}
    db = ms.database()
    for f, probe in (("adams_bashforth", "ab"), ("bdf", "bdf")):
        fn = (db.byq.get("multistep::" + f) or [None])[0]
        where = "%s:%d (%s)" % (rel(fn["file"]), fn["l"], fn["q"]) if fn else "multistep.hpp"
        for n in (-2 ** 31, -7, -1, 0, 1, 2, 3, 4, 5, 6, 7, 8, 100, 2 ** 31 - 1):
            lab = "%s order %d" % (f, n)
            hit = []

            def run(it, st, fr, e, this, a):
                hit.append(1)
                raise Unsup("started")
            it = Interp(db, dict(ms.BUF, **{"probe_ode::fun": run, "probe_ode::jac": run, "irk::odeint": run, "erk::odeint": run, "newton::newton_iterate": run, "newton::broyden_iterate": run}))
            st = it.new_state()
            st.mem["F"] = StructV("probe_ode", {})
            st.mem["Y0"] = MatV(2, 1, [atom("y0"), atom("y1")])
            so = it.construct_default("multistep::solver_options", st, Frame("SETUP", None, 0), {"k": "setup", "args": []})
            st.mem["SO"] = so.set("order", n)
            fns = [g for g in db.byq.get("probe_" + probe, []) if g.get("body")]
            r = None
            try:
                r = it.callfn(fns[0], None, [LV("F"), atom("t0"), atom("t1"), LV("Y0"), LV("SO"), atom("dt0", True)], st, "R")
                r = it.rv(r, st) if isinstance(r, LV) else r
            except Dead:
                r = "dead"
            except Unsup as ex:
                if not hit:
                    rep.undecided("order", lab, str(ex))
                    continue
            rep.uses(it)
            s = num(r.f["status"]) if isinstance(r, StructV) and isinstance(r.f.get("status"), (int, Node)) else None
            if n in ok[f]:
                rep.check(bool(hit), "order", "%s:refused" % f, where, "order %d of %s is published but refused" % (n, f), lab + " starts")
            elif hit:
                rep.bad("order", "%s:unknown" % f, where, "order %d of %s, which does not exist, is integrated" % (n, f))
            elif r == "dead":
                rep.ok("order", lab + " does not start")
            elif s is None or s.const is None:
                rep.undecided("order", lab, "status not tracked")
            else:
                rep.check(s is not ZERO, "order", "%s:unknown" % f, where, "order %d of %s, which does not exist, reports success" % (n, f), lab + " fails")


def P35(rep):
    rep.rule("returns", "a function with a result cannot reach its end without returning one, with or without assertions")
    rep.rule("status", "every status code has its own text, and an unknown one a default text")
    rep.rule("table", "every published method code has coefficients, and no other code has the same")
    rep.rule("unknown", "an unknown method code gives coefficients that verification rejects, and the integrator does not start with them")
    rep.rule("dispatch", "every combination of solver options selects its own instance, and every option one template argument, the same in all combinations")
    rep.rule("order", "every published order of a multistep method starts; every other is refused with a failure status")
    return_paths(rep)
    status_texts(rep)
    tables_own(rep)
    dispatch(rep)
    orders(rep)
    return ("The compiler's control-flow analysis lists functions that can end without a result; every selector is evaluated by constant propagation at every published "
            "value and at values around the published range.", ["unknown codes behave like the sampled unknown codes (one default branch)"], 150)
