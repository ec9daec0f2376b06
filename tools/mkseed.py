"""Plants bugs (development aid): mkseed.py FILE [name...]

FILE is a Python list of dicts: id, property, file, old, new (or edits), needs, breaks, demo (C++ source,
exit status 0 when the property holds).  Each one is written to seeded/<id>/ after it was confirmed in a scratch
copy of /repo: builds, passes the stable tests, the demonstration fails with it and passes without it.
"""
import json
import os
import shutil
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
W = "/tmp/seedwork"
DEMO = """#!/bin/bash
# Run in the repository after its build.
set -u
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
export OMP_NUM_THREADS=1
g++ -std=c++11 -O1 %s -I"$PWD" -I"$PWD/stability_region" "$here/demo.cpp" -o "$tmp/demo" -L"$PWD" -lrehuel -larmadillo -llapack -lblas -Wl,-rpath,"$PWD" || exit 2
cd "$tmp" || exit 2
timeout 200 "$tmp/demo" > "$tmp/out" 2> "$tmp/err"
rc=$?
tail -5 "$tmp/out"
exit $rc
"""


def sh(c, **k):
    return subprocess.run(c, shell=True, capture_output=True, text=True, **k)


def fresh():
    if not os.path.exists(W):
        shutil.copytree("/repo", W, symlinks=True, ignore=shutil.ignore_patterns("_build"))
        for n in ("build.sh", "test.sh"):
            s = open("/opt/vp/" + n).read().replace("R=/repo", "R=" + W).replace("/repo/_build", W + "/_build").replace(
                "LD_LIBRARY_PATH=/repo", "LD_LIBRARY_PATH=" + W).replace("bash /opt/vp/build.sh", "bash /tmp/seed_build.sh")
            open("/tmp/seed_" + n, "w").write(s)
    sh("git checkout -q -- . && git fetch -q /repo HEAD && git reset -q --hard FETCH_HEAD", cwd=W)


def demo(d):
    r = sh("bash %s/demo.sh" % d, cwd=W)
    return r.returncode, r.stdout[-300:] + r.stderr[-300:]


def stable():
    r = sh("bash /tmp/seed_test.sh /tmp/seed_out.json", cwd=W)
    o = json.load(open("/tmp/seed_out.json"))
    s = json.load(open("/opt/vp/BASELINE.json"))["stable"]
    return [x for x in s if x not in o["passed"]], r.stderr[-600:]


def main():
    ms = eval(open(sys.argv[1]).read())
    if sys.argv[2:]:
        ms = [m for m in ms if any(a in m["id"] for a in sys.argv[2:])]
    orig = set(sh("git -C /repo rev-list --max-parents=0 HEAD").stdout.split())
    ok = []
    for m in ms:
        fresh()
        d = os.path.join(VERIF, "seeded", m["id"])
        os.makedirs(d, exist_ok=True)
        open(d + "/demo.cpp", "w").write(m["demo"].lstrip("\n"))
        open(d + "/demo.sh", "w").write(DEMO % m.get("flags", "") if "sh" not in m else m["sh"])
        os.chmod(d + "/demo.sh", 0o755)
        if m["demo"] == "":
            os.unlink(d + "/demo.cpp")
        json.dump({"property": m["property"], "needs": m["needs"], "what_it_breaks": m["breaks"]}, open(d + "/meta.json", "w"), indent=1)
        b = sh("bash /tmp/seed_build.sh", cwd=W)
        if b.returncode:
            print(m["id"], "BASE BUILD", b.stderr[-500:])
            return
        a = demo(d)
        for f, o, n in m.get("edits") or [(m["file"], m["old"], m["new"])]:
            p = os.path.join(W, f)
            s = open(p).read()
            if s.count(o) != 1:
                print(m["id"], "MATCHES", s.count(o), f)
                shutil.rmtree(d)
                break
            open(p, "w").write(s.replace(o, n))
        else:
            open(d + "/patch.diff", "w").write(sh("git diff", cwd=W).stdout)
            # touched lines are original ones
            com = set()
            for l in open(d + "/patch.diff"):
                pass
            bl = []
            for f in sh("git diff --name-only", cwd=W).stdout.split():
                for h in [x for x in sh("git diff -U0 %s" % f, cwd=W).stdout.split("\n") if x.startswith("@@")]:
                    a_ = h.split()[1][1:].split(",")
                    st, ln = int(a_[0]), int(a_[1]) if len(a_) > 1 else 1
                    if ln:
                        for x in sh("git blame -s -l HEAD -L%d,+%d -- %s" % (st, ln, f), cwd="/repo").stdout.split("\n"):
                            if x:
                                bl.append(x.split()[0].lstrip("^"))
            own = [x for x in bl if not any(o.startswith(x) for o in orig)]
            b = sh("bash /tmp/seed_build.sh", cwd=W)
            if b.returncode:
                print(m["id"], "DOES NOT BUILD", (b.stdout + b.stderr)[-700:])
                continue
            c = demo(d)
            miss, err = stable()
            good = a[0] == 0 and c[0] not in (0, 2) and not miss and not own and bl
            print(m["id"], "OK" if good else "** BAD", "clean", a if a[0] else 0, "patched", c[0], c[1].strip()[-150:], "tests missing", miss, "own lines", own[:2], "original", len(bl), flush=True)
            if good:
                ok.append(m["id"])
    fresh()
    print(len(ok), "of", len(ms))


main()
