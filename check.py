#!/usr/bin/env python3
"""check.py ID [quick|thorough]   run the check of one property
   check.py --replay FILE         replay a recorded violation
   check.py --setup               build the tree under test and the harnesses"""
import importlib, json, os, sys
V = os.path.dirname(os.path.abspath(__file__))
sys.path[:0] = [V, os.path.join(V, "lib")]
if len(sys.argv) > 2 and sys.argv[2] in ("quick", "thorough"):
    os.environ["VERIF_TIER"] = sys.argv[2]
import pn, vp


def main():
    a = sys.argv[1]
    if a == "--setup":
        pn.pnrun()
        pn.pnrun(True)
        importlib.import_module("checks.c27").build()
        print("built", pn.build())
        return 0
    if a == "--replay":
        v = json.load(open(sys.argv[2]))
        if v.get("harness"):
            m = importlib.import_module("checks." + v["property"].lower())
            return m.replay(v)
        print(v["program"])
        gc = v["gc"] if v.get("gc") not in ("-", "c", None) else ""
        r, _ = pn.run([(v["program"], v["expected"])], modes=v["mode"] if v["expected"] is not None else "VJ",
                      seeds=(v.get("seed", 1),), gc=gc, want_all=True, cpu=20,
                      workdir=v.get("workdir", False), libs=v.get("libs", False), reuse=v.get("reuse"))
        bad = 0
        for m in r:
            ok = m.got == v["expected"]
            bad |= not ok
            print("%s gc=%s@%d  got %s%s" % (m.mode, m.gc, m.k, m.got, "" if ok else "   (expected %s)" % v["expected"]))
        return 1 if bad else 0
    m = importlib.import_module("checks." + a.lower())
    c = vp.Check(a)
    m.explore(c)
    return c.finish()


if __name__ == "__main__":
    sys.exit(main())
