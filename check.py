#!/opt/veriftools/pyvenv/bin/python3
"""check.py <property> [quick|thorough]: decide one property by static analysis."""
import os
import signal
import sys
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [os.path.join(HERE, "engine"), os.path.join(HERE, "checks")]
sys.setrecursionlimit(20000)

from lib import Report, finish, Broken   # noqa: E402

WHERE = {
    "tabs": "P01 P02 P03 P04 P20 P22 P32",
    "mschecks": "P05 P06",
    "bufcheck": "P21",
    "objchecks": "P23 P30",
    "safety": "P26 P29 P36",
    "langchecks": "P24 P25 P28 P35",
    "progchecks": "P33 P34",
    "eqchecks": "P07 P08",
    "nlchecks": "P18 P19 P31",
    "unitchecks": "P27",
    "rkchecks": "P09 P10 P11 P12 P13 P14 P15 P16 P17",
}


class Late(BaseException):
    """The time limit of a check was reached."""


def late(*_):
    raise Late()


def main():
    if sys.argv[1] == "--list":
        print("\n".join(sorted(" ".join(WHERE.values()).split())))
        return 0
    if sys.argv[1] == "--build":
        from front import extractor
        extractor()
        return 0
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get("VERIF_TIER", "quick")
    mod = [m for m, ps in WHERE.items() if pid in ps.split()]
    if not mod:
        sys.stderr.write("no check for %s\n" % pid)
        return 2
    limit = int(os.environ.get("VERIF_LIMIT") or (690 if tier == "quick" else 3300))
    signal.signal(signal.SIGALRM, late)
    signal.alarm(limit)
    try:
        m = __import__(mod[0])
        rep = Report(pid, tier)
        try:
            expl, assume, minimum = getattr(m, pid)(rep)
        except Late:
            rep.undecided("time", pid, "not finished within %d s; what was decided until then is reported" % limit)
            expl, assume, minimum = "Stopped at its time limit; the rules list what was decided until then.", ["see DESIGN.md"], 0
        signal.alarm(0)
        return finish(rep, expl, assume, minimum)
    except Broken as e:
        print("%s: cannot analyse: %s" % (pid, e))
        return 2
    except Exception:
        traceback.print_exc()
        return 2


if __name__ == "__main__":
    sys.exit(main())
