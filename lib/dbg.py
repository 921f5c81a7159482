"""Exploration helper: dbg.py ID -> mismatches grouped."""
import sys, os, importlib
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [V, os.path.join(V, "lib")]
if len(sys.argv) > 2 and sys.argv[2] in ("quick","thorough"): os.environ["VERIF_TIER"] = sys.argv[2]
import vp
c = vp.Check(sys.argv[1])
m = importlib.import_module("checks." + sys.argv[1].lower())
m.explore(c)
step = max(1, len(c.viol) // 40)
N = int(sys.argv[3]) if len(sys.argv) > 3 else 15
step = max(1, len(c.viol) // N)
for v in c.viol[::step][:N]:
    e, g = str(v.get("expected")), str(v.get("got"))
    i = next((i for i in range(min(len(e), len(g))) if e[i] != g[i]), 0)
    if len(e) > 150: v["expected"] = ".." + e[max(0, i - 60):i + 60]
    if len(g) > 150: v["got"] = ".." + g[max(0, i - 60):i + 60]
    print(v.get("part"), v.get("mode"), repr(v.get("program"))[:250], "exp", str(v.get("expected"))[:200], "got", str(v.get("got"))[:200], v.get("gc"), v.get("k"))
print(len(c.viol)); print({k: v for k, v in c.parts.items()}, c.known and [(k["what"], k["hits"]) for k in c.known])
