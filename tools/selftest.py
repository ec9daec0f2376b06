"""Runs checks against edited copies of the sources (development aid, not a registered check).

selftest.py FILE...   each file is a Python list of dicts:
  name, file, old, new (or edits=[(file, old, new)...]), props="P09 P10" (checks to run),
  hit="P09" (checks that must report; empty for an edit that keeps the behaviour)
"""
import concurrent.futures as cf
import os
import shutil
import subprocess
import sys
import tempfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))


def run(m):
    d = tempfile.mkdtemp(prefix="selftest-")
    try:
        src = os.path.join(d, "repo")
        shutil.copytree("/repo", src, ignore=shutil.ignore_patterns("_build", ".git", "obj", "*.so"))
        for f, o, n in m.get("edits") or [(m["file"], m["old"], m["new"])]:
            p = os.path.join(src, f)
            s = open(p).read()
            if s.count(o) < 1:
                return m, {"-": (9, "no match in %s: %s" % (f, o))}
            s = s.replace(o, n) if m.get("all") else s.replace(o, n, 1)
            open(p, "w").write(s)
        r = subprocess.run(["clang++-18", "-std=c++11", "-fsyntax-only", "-w", "-I", src, "-I", VERIF + "/probe"] +
                           [os.path.join(VERIF, "probe", x) for x in ("erk.cpp", "irk.cpp", "newton.cpp", "multistep.cpp", "buffer.cpp", "timer.cpp", "equations.cpp")] +
                           [os.path.join(src, x) for x in ("erk.cpp", "irk.cpp", "newton.cpp")], capture_output=True, text=True)
        if r.returncode:
            return m, {"-": (9, r.stderr[-600:])}
        out = {}
        v = os.path.join(d, "verif")
        os.makedirs(v)
        for x in ("engine", "checks", "probe", "extract", "build", "check.py", "known_findings.txt", "properties.jsonl"):
            os.symlink(os.path.join(VERIF, x), os.path.join(v, x))
        props = m.get("props") or m["hit"]
        if props == "ALL":
            props = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), "--list"], capture_output=True, text=True).stdout
        for p in props.split():
            env = dict(os.environ, VERIF_REPO=src, VERIF_OUT=d)
            r = subprocess.run([sys.executable, os.path.join(VERIF, "check.py"), p, m.get("tier", "quick")], capture_output=True, text=True, env=env)
            out[p] = (r.returncode, r.stdout + r.stderr)
        return m, out
    finally:
        shutil.rmtree(d, True)


def main():
    ms = []
    for f in sys.argv[1:]:
        if os.path.exists(f):
            ms += eval(open(f).read())
    only = [a for a in sys.argv[1:] if not os.path.exists(a)]
    if only:
        ms = [m for m in ms if any(o in m["name"] for o in only)]
    bad = 0
    with cf.ThreadPoolExecutor(7) as ex:
        for m, out in ex.map(run, ms):
            hit = set(m.get("hit", "").split())
            for p, (rc, txt) in out.items():
                want = 1 if p in hit else 0
                if rc != want:
                    bad += 1
                    print("### %s: %s gave %d, expected %d\n%s" % (m["name"], p, rc, want, txt[:1500]))
            for p, (rc, txt) in out.items():
                if m.get("props") == "ALL" and rc == 0:
                    und = [l for l in txt.splitlines() if "undecided:" in l]
                    if und:
                        print("    %s %s: %s (%d)" % (m["name"], p, und[0][:200], len(und)))
            print("%-40s %s" % (m["name"], {p: rc for p, (rc, _) in out.items()}), flush=True)
    print("%d unexpected" % bad)


main()
