"""C14: memory held is a function of what is reachable, not of how much was ever allocated."""
import itertools
import pn

PRE = """C = class: /a = 1, /b = 2.
D = class (x): /x = x.
f = (x): (x, x + 1.5).
adder = (n): (x): x + n..
t = ('q'='r')
l = (0, 0, 0)
q = ()
o = D(0)
cap = nil
set = (e): cap = e, 0.
drop = (e): 0.
hold = (e): loc = e, loc2 = (loc, 1), 0.
a = nil, b = nil, c = nil, v = nil, w = nil
"""
# every way to make a value the loop does not keep; S: makes new strings (the string table keeps
# room for as many as are made between two collections)
FIX = ["(i, i)", "1.5 + i", "D(i)", "C()", "(x): x + i.", "(a=i)", "adder(i)", "(1,2,3) reverse", "(1,2,3) clone",
       "(1,2,3) sort((a, b): a < b.)", "3 to(1, (x): x.)", "f(i)", "(a=1,b=2) keys", "(a=1,b=2) values",
       "(a=1) each((k,v): v.)", "(a=1) map((k,v): v.)", "(1,2) filter((x, i): true.)", "(1,2) insert(0,1)",
       "(1,2) delete(0)", "(1,2) nreverse", "(3,2) join('x')", "(1,2) cmp((1,2))", "|(3,1,2) sort.", "(1,2,3) bsearch(2)",
       "'ab' bytes", "'ab' bytes clone", "'ab' bytes each((c): c.)", "'abc' reverse", "'12' number", "'12.5' number",
       "'x' hash", "(i, 2.5, (i, (i,)), (a=(b=i)), D(C()))", "f clone", "5 times((x): x.)", "1 step(5,2,(x): x.)",
       "i chr", "true string", "D kind", "undef foo", "File('none','r')", "'aé' slice(0,1)", "'abc' (1)",
       "|g = (a, b:=3): a + b., g(1).", "|(a, b): a + b. (i, 2).", "[a (k=i) 'x']", "f string", "(1,2,3) slice(1,1)",
       "|z = (), z push(i), z push(i), z push(i), z push(i), z push(i), z.", "|z = (1=2), z put(i, i), z put(i + 1, i), z put(i + 2, 3), z.",
       "|z = 'a' bytes, z append('bcdefghijklmnopqrstuvwxyz'), z append('bcdefghijklmnopqrstuvwxyz'), z."]
STR = ["i string", "('k', i string) join", "'ab' bytes append(i string)", "(i, 2.5, 'x', nil, true, (1,2), (a=1), C, D(1)) string",
       "[a (k=i) 'x'] string", "('p' + i string)"]
HOLD = ["v = %s", "%s", "l(0) = %s", "t put('k', %s)", "o /x = %s", "set(%s)", "drop(%s)", "hold(%s)",
        "q push(%s), q shift", "q push(%s), q pop", "t put(i, %s), t remove(i)", "o = D(%s)",
        "c = b, b = a, a = %s", "a = (%s, a), if (i % 8 == 0): a = nil.", "q = (%s, q at(0))",
        "b = (k): k + %s.", "1 times((k): cap = %s.)", "v = (%s, 1) at(1)", "v = (%s == a)", "o = D(o), o /x = %s",
        "if (i % 2 == 0): a = %s. else: b = a.", "q unshift(%s), q pop", "l reverse, l(1) = %s",
        "w = (%s, 0), w(1) = w", "cap = D(%s), cap /x = (cap, cap /x)"]
HOLDERS = [h for h in HOLD]


def loop(h, e, n):
    e = h.replace("%s", "(" + e + ")" if False else e)
    return PRE + "i = 0\nwhile (i < %d): %s, i = i + 1.\n(v, a, b, c, l, t, o, q, cap, w)" % (n, e)


def figures(got):
    p = got.split("&")[0].rsplit("#", 4)
    try:
        return p[0], [int(p[k]) for k in range(1, 5)]
    except (ValueError, IndexError):
        return got, None


def measure(c, part, progs, modes, workdir=False, cpu=30, chunk=20):
    r, st = pn.run([(p, None) for p in progs], modes=modes, want_all=True, heap=True, cpu=cpu, workdir=workdir, chunk=chunk)
    c.part(part, programs=st["cases"], executions=st["execs"])
    c.cov["traces_validated_against_impl"] += st["execs"]
    g = {}
    for x in r:
        g[x.idx, x.mode] = x.got
    return g


def loops(c, part, pairs, n, string, factor=3):
    progs = []
    for h, e in pairs:
        progs += [loop(h, e, n), loop(h, e, 4 * n)]
    g = measure(c, part, progs, "VJ", workdir=any("File" in e for _, e in pairs), chunk=1 if n >= 100000 else 20)
    for k, (h, e) in enumerate(pairs):
        for m in "VJ":
            (ra, fa), (rb, fb) = figures(g[2 * k, m]), figures(g[2 * k + 1, m])
            c.state((h, e, m, tuple(fa or ())))
            c.trans(5 * n)
            if fa is None or fb is None :
                bad = "a normal result"
            else:
                la, lb = fa[0], fb[0]
                bad = None
                # live heap after a full collection
                if lb > la + (la + 65536 if string else 512):
                    bad = "live heap of %d iterations (%d bytes) also after %d" % (n, la, 4 * n)
                elif fb[1] > fa[1] + 16384:
                    bad = "malloc'ed bytes of %d iterations (%d) also after %d" % (n, fa[1], 4 * n)
                elif n >= 100000 and fb[2] > 3 * fa[2] + (1 << 20):
                    bad = "heap held at most during %d iterations (%d bytes) also during %d" % (n, fa[2], 4 * n)
                elif n >= 100000 and fb[3] > factor * fa[3] + (2 << 20):
                    bad = "address space after %d iterations (%d bytes) also after %d" % (n, fa[3], 4 * n)
            if bad:
                c.violation(part, {"program": progs[2 * k + 1], "mode": m, "seed": 1, "gc": "-", "k": 0, "heap": True,
                                   "harness": True, "other": progs[2 * k], "expected": bad, "got": g[2 * k + 1, m],
                                   "n": n, "string": string})


# ---- all histories of a small object graph ----
GPRE = """D = class (x): /x = x.
mk = (v): (k): v..
x = nil, y = nil
o = D(nil)
l = (nil, nil)
t = ('k'=nil)
q = (0, 0, 0, 0, 0, 0, 0, 0)
8 times: q pop.
step = (k):
"""
OPS = ["0", "x = D(x)", "y = x", "x = nil", "y = nil", "x = (x, y)", "x = 1.5 + k", "x = mk(x)", "o /x = x", "x = o /x",
       "l(0) = y", "x = l(0)", "t put('k', x)", "l(1) = l, 0", "t put('k', nil)", "y = (y, y)", "o = D(o)", "l(0) = nil", "t remove('k')",
       "q push(x)", "x = q pop"]
# sizes of what an operation allocates are measured, in this tree, on the one-step histories below
KINDS = {"D": 1, "pair": 5, "dbl": 6, "clo": 7}


class G:
    """The object graph as the program sees it: nodes are [kind, child...], compared by identity."""

    def __init__(self):
        self.x = self.y = None
        self.o = ["D", None]
        self.l = ["l", None, None]
        self.t = ["t", None]
        self.q = ["q"]

    def do(self, k):
        if k == 1: self.x = ["D", self.x]
        elif k == 2: self.y = self.x
        elif k == 3: self.x = None
        elif k == 4: self.y = None
        elif k == 5: self.x = ["pair", self.x, self.y]
        elif k == 6: self.x = ["dbl"]
        elif k == 7: self.x = ["clo", self.x]
        elif k == 8: self.o[1] = self.x
        elif k == 9: self.x = self.o[1]
        elif k == 10: self.l[1] = self.y
        elif k == 11: self.x = self.l[1]
        elif k == 12: self.t[1] = self.x
        elif k == 13: self.l[2] = self.l
        elif k == 14: self.t[1] = None
        elif k == 15: self.y = ["pair", self.y, self.y]
        elif k == 16: self.o = ["D", self.o]
        elif k == 17: self.l[1] = None
        elif k == 18: self.t[1] = None
        elif k == 19: self.q.append(self.x)
        elif k == 20: self.x = self.q.pop() if len(self.q) > 1 else None

    def reach(self):
        seen, out, todo = set(), [], [self.x, self.y, self.o, self.l, self.t, self.q]
        while todo:
            n = todo.pop()
            if n is None or id(n) in seen:
                continue
            seen.add(id(n))
            out.append(n)
            todo += n[1:]
        return out

    def counts(self):
        r = dict.fromkeys(KINDS, 0)
        for n in self.reach():
            if n[0] in r:
                r[n[0]] += 1
        r["D"] -= 1     # o is always there
        return r

    def canon(self):
        num, out = {}, []
        todo = [self.x, self.y, self.o, self.l, self.t, self.q]
        roots = list(todo)
        i = 0
        for n in todo:
            if n is not None and id(n) not in num:
                num[id(n)] = len(num)
        order = [n for k, n in enumerate(roots) if n is not None]
        done = set()
        while order:
            n = order.pop(0)
            if id(n) in done:
                continue
            done.add(id(n))
            for ch in n[1:]:
                if ch is not None and id(ch) not in num:
                    num[id(ch)] = len(num)
                if ch is not None:
                    order.append(ch)
            out.append((num[id(n)], n[0]) + tuple(-1 if ch is None else num[id(ch)] for ch in n[1:]))
        return (tuple(-1 if r is None else num[id(r)] for r in roots), tuple(sorted(out)))


def gprog(h):
    s = GPRE
    for i, op in enumerate(OPS):
        s += "  %s (k == %d): %s.\n" % ("if" if not i else "elsif", i, op if op == "0" else op + ", 0")
    return s + "  else: 0.\n.\n(%s) each((k): step(k).)\n(x, y, o, l, t, q)" % ", ".join(map(str, h))


def graph(c, part, depth, gc=None):
    c.bounds = depth
    pad = lambda h: tuple(h) + (0,) * (depth - len(h))
    base = measure(c, part + " sizes", [gprog(pad(()))] + [gprog(pad((k,))) for k in KINDS.values()], "VJ")
    size = {}
    for m in "VJ":
        b = figures(base[0, m])[1]
        size[m] = {"": b[0] if b else None}
        for i, kd in enumerate(KINDS):
            v = figures(base[i + 1, m])[1]
            size[m][kd] = v[0] - b[0] if v and b else None
    hs = list(itertools.product(range(1, len(OPS)), repeat=depth))
    exp = []
    for h in hs:
        g = G()
        for k in h:
            g.do(k)
        c.state(g.canon())
        exp.append(g.counts())
    c.trans(sum(len(OPS[1:]) ** d for d in range(1, depth + 1)))
    for lo in range(0, len(hs), 40000):
        part_h = hs[lo:lo + 40000]
        progs = [gprog(h) for h in part_h]
        g = measure(c, part, progs, "VJ")
        for i in range(len(part_h)):
            for m in "VJ":
                z = size[m]
                if None in z.values() or min(v for k, v in z.items() if k) <= 0:
                    want = "measurable sizes: %s" % z
                else:
                    want = z[""] + sum(n * z[kd] for kd, n in exp[lo + i].items())
                res, f = figures(g[i, m])
                if f is None or f[0] != want:
                    if len(c.viol) < 6:
                        # again, alone
                        g2 = measure(c, part + " confirm", [progs[i]], m)
                        if g2[0, m] == g[i, m]:
                            c.violation(part, {"program": progs[i], "mode": m, "seed": 1, "gc": "-", "k": 0, "heap": True,
                                               "harness": True, "expected": "%s live bytes for %s" % (want, exp[lo + i]),
                                               "want": want, "got": g[i, m]})


def replay(v):
    r, _ = pn.run([(v["program"], None)] + ([(v["other"], None)] if v.get("other") else []), modes=v["mode"],
                  want_all=True, heap=True, workdir=True, cpu=60)
    for x in r:
        print(x.prog)
        print("  %s: value#live#malloc#peak#address space = %s" % (x.mode, x.got))
    print("expected: " + v["expected"])
    f = figures(r[0].got)[1]
    if "want" in v:
        return 0 if f and f[0] == v["want"] else 1
    return 0 if r[0].got != v["got"] else 1


def explore(c):
    quick = c.quick
    core = ["(i, i)", "D(i)", "adder(i)", "(a=i)", "1.5 + i", "(i, 2.5, (i, (i,)), (a=(b=i)), D(C()))"]
    # every creator, dropped; every holder with the core creators
    loops(c, "every creator", [(HOLD[0], e) for e in FIX], 4000 if quick else 20000, False)
    loops(c, "every holder", [(h, e) for h in HOLD[1:] for e in (core if quick else FIX)], 4000 if quick else 10000, False)
    loops(c, "collections", [(h, e) for h in (HOLD[0], HOLD[2], HOLD[8]) for e in core[:3 if quick else 6]], 100000, False)
    # what is live rises and falls, so that old generations come and go
    for n, e in ((300000, "(i, 1)"), (300000, "D(i)"), (300000, "(a=i)"))[:2 if quick else 3]:
        loops(c, "collections", [("a = (%%s, a), if (i %% %d == 0): a = nil." % p, e) for p in (30000, 3000, 75000)], n, False)
    # lists of tens of megabytes, one after the other
    loops(c, "large generations", [("if (i % 2500000 == 0): z = ()., z push(%s)", "i")] + ([] if quick else [("if (i % 500000 == 0): z = (), z2 = nil., z push(%s), z2 = (i, z2)", "i + 1.5")]), 2500000, False, factor=1.5)
    loops(c, "strings", [(h, e) for h in (HOLD[0], HOLD[3], HOLD[10])[:2 if quick else 3] for e in STR[:3 if quick else 6]], 100000, True)
    loops(c, "keys", [("t put(%s, i), t remove(%s)", e) for e in ("i", "i string", "0 - i")], 100000, True)
    graph(c, "graphs", 3 if quick else 4)
