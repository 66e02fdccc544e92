"""Setup: nothing to build; checks that the engine agrees with plain Python on every path of harness/selfcheck.py."""
import os
import sys
import time

sys.dont_write_bytecode = True
os.environ.setdefault("PYTHONHASHSEED", "0")
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))


def main():
    from harness import selfcheck
    from sx import explore

    r = explore.explore(selfcheck.CASES, time.time() + 120, sample=1)
    bad = r["mismatch"] + r["violations"] + r["spurious"]
    for x in bad[:5]:
        print("DIFFERS", str(x)[:1500])
    for e in r["errors"][:2]:
        print("ERROR", e)
    print("engine self-test: %d paths, %d replayed, %d differ" % (sum(r["paths"].values()), r["validated"], len(bad)))
    print(dict(r["paths"]), dict(r["why"]), "%.0f s" % r["wall"])
    return 1 if bad or r["errors"] else 0


if __name__ == "__main__":
    sys.exit(main())
