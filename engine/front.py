"""Front end driver: builds the extractor, extracts translation units of /repo."""
import hashlib
import os
import shutil
import subprocess
import sys
import tempfile
import atexit

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("VERIF_REPO", "/repo")
PROBE = os.path.join(VERIF, "probe")


class Broken(Exception):
    """The source cannot be analysed (does not parse, entry point missing)."""


def extractor():
    src = os.path.join(VERIF, "extract", "extract.cpp")
    with open(src, "rb") as f:
        h = hashlib.sha256(f.read()).hexdigest()[:16]
    out = os.path.join(VERIF, "build", "extract-" + h)
    if os.path.exists(out):
        return out
    os.makedirs(os.path.dirname(out), exist_ok=True)
    tmp = out + ".%d" % os.getpid()
    cmd = ["clang++-18" if shutil.which("clang++-18") else "clang++", "-std=c++17", "-fno-rtti", "-O1", "-w",
           "-I/usr/lib/llvm-18/include", src, "-o", tmp, "-L/usr/lib/llvm-18/lib",
           "/usr/lib/llvm-18/lib/libclang-cpp.so.18.1", "-lLLVM-18"]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode:
        sys.stderr.write(r.stdout)
        raise Broken("the extractor does not build")
    os.replace(tmp, out)
    return out


_tmp = None


def tmpdir():
    global _tmp
    if _tmp is None:
        _tmp = tempfile.mkdtemp(prefix="verif-")
        atexit.register(shutil.rmtree, _tmp, True)
    return _tmp


def extract(files, flags=()):
    """files: paths (absolute). Returns list of JSON paths, one per file."""
    ex = extractor()
    procs = []
    for f in files:
        out = os.path.join(tmpdir(), hashlib.sha256(("%s %r" % (f, flags)).encode()).hexdigest()[:12] + ".json")
        if os.path.exists(out):
            procs.append((f, out, None))
            continue
        cmd = [ex, out, "%s,%s" % (REPO, PROBE), f, "-std=c++11", "-I" + REPO, "-I" + PROBE, "-w"] + list(flags)
        procs.append((f, out, subprocess.Popen(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)))
    outs = []
    for f, out, p in procs:
        if p is not None:
            o, _ = p.communicate()
            if p.returncode:
                raise Broken("%s does not parse:\n%s" % (f, o[-3000:]))
        outs.append(out)
    return outs
