"""C10: tables behave as maps under every operation sequence, independent of hash order."""
import itertools
from vp import L, Ref, T, fmt, lit

KEYS = [0, 1, -1, "a", "b", True, None, 4611686018427387903]


class Tb:
    def __init__(self, items):
        self.d = dict(items)


def klit(k):
    return lit(k)


def key(k):     # python: True == 1, so wrap
    return ("b", k) if isinstance(k, bool) else k


class St:
    def __init__(self, items):
        self.t = self.mk(items)

    @staticmethod
    def mk(items):
        t = Ref("table", [])
        for k, v in items:
            tput(t, k, v)
        return t


def tfind(t, k):
    for i, e in enumerate(t.v):
        if type(e[0]) is type(k) and e[0] == k:
            return i
    return -1


def tput(t, k, v):
    i = tfind(t, k)
    if i < 0:
        t.v.append([k, v])
    else:
        t.v[i][1] = v


def tget(t, k):
    i = tfind(t, k)
    return None if i < 0 else t.v[i][1]


def copy(t):
    return Ref("table", [list(e) for e in t.v])


def o_put(k, v, form="put"):
    def f(s):
        tput(s.t, k, v)
        return s.t
    return ("t put(%s, %s)" % (klit(k), lit(v)) if form == "put" else "t(%s) = %s" % (klit(k), lit(v))), f


def o_remove(k):
    def f(s):
        i = tfind(s.t, k)
        if i >= 0:
            del s.t.v[i]
        return s.t
    return "t remove(%s)" % klit(k), f


def o_at(k, form="at"):
    return ("t at(%s)" if form == "at" else "t(%s)") % klit(k), lambda s: tget(s.t, k)


def o_slice(ks):
    def f(s):
        t = Ref("table", [])
        for k in ks:
            if tfind(s.t, k) >= 0:
                tput(t, k, tget(s.t, k))
        return t
    return "t slice((%s))" % ", ".join(klit(k) for k in ks), f


def o_rebind(s):
    s.t = copy(s.t)
    return s.t


def sig(c, s):
    c.state(fmt(s.t))


def prog(c, items, ops, alias=True):
    s = St(items)
    src = "(%s)" % ", ".join("%s=%s" % (klit(k), lit(v)) for k, v in items)
    lines = ["t = %s" % src, "m = t"]
    m = s.t
    res = []
    for n, (t, f) in enumerate(ops):
        c.trans()
        r = f(s)
        c.state(fmt(s.t))
        if t.startswith("t = ") or t.startswith("t("):
            if ") = " in t or t.startswith("t = "):
                lines.append(t)
                continue
        lines.append("r%d = %s" % (n, t))
        res.append((n, r))
    lines.append("(%s)" % ", ".join(["t length", "t", "m"] + ["r%d" % n for n, _ in res]))
    return "\n".join(lines), fmt(tuple([len(s.t.v), s.t, m] + [r for _, r in res]))


MUT = [o_put(0, 5), o_put(1, "v"), o_put("a", 6), o_put("b", 7, "set"), o_put(-1, 8), o_put(None, 9), o_put(True, 10),
       o_remove(0), o_remove("a"), o_remove(1), o_remove(None), o_at(0), o_at("a"), ("t clone", lambda s: copy(s.t)),
       ("t = t clone", o_rebind), o_slice(["a", 0])]
READ = [o_at(k, f) for k in KEYS for f in ("at", "call")] + [o_put(k, "w", f) for k in KEYS for f in ("put", "set")] \
    + [o_remove(k) for k in KEYS] + [o_slice(list(ks)) for n in range(0, 3) for ks in itertools.permutations([0, "a", "zz", 1], n)] \
    + [("t clone", lambda s: copy(s.t)), ("t slice", lambda s: copy(s.t)), ("t length", lambda s: len(s.t.v)),
       ("t keys length", lambda s: len(s.t.v)), ("t values length", lambda s: len(s.t.v))]
INITS = [[("a", 1)], [(0, 1)], [("a", 1), ("b", 2)], [(0, "x"), ("a", "y"), (1, "z")], [(True, 1), (None, 2), (-1, 3)]]


def gen(c, depth, inits, alpha):
    for i in inits:
        for ops in itertools.product(alpha, repeat=depth):
            yield prog(c, i, ops)


def table_lines(name, expr):
    return expr


def gen_iter(c, maxn, kinds):
    """Iteration, keys/values, map, filter, slice, clone visit every entry exactly once, over sizes
    spanning several growth steps, built by insertion and by insertion followed by deletions."""
    for kind in kinds:
        for n in range(0, maxn + 1):
            ks = [{"int": i * 3 - 5, "str": "k%d" % i}[kind] for i in range(n)]
            for dele in ("none", "odd", "first", "allbutlast", "all", "reinsert"):
                t = Ref("table", [])
                tput(t, "base", 0)
                lines = ["t = ('base'=0)"]
                for i, k in enumerate(ks):
                    tput(t, k, i)
                    c.trans()
                    lines.append("t put(%s, %d)" % (klit(k), i))
                rm = {"none": [], "odd": ks[1::2], "first": ks[:1], "allbutlast": ks[:-1], "all": ks, "reinsert": ks[::2]}[dele]
                for k in rm:
                    del t.v[tfind(t, k)]
                    c.trans()
                    lines.append("t remove(%s)" % klit(k))
                if dele == "reinsert":
                    for k in rm:
                        tput(t, k, "again")
                        lines.append("t put(%s, 'again')" % klit(k))
                c.state(fmt(t))
                chk = dict()
                lines += ["e = (0=0)", "n = 0", "t each (k, v): e put(k, v), n = n + 1.",
                          "f = t filter (k, v): v != 1.",
                          "cl = t clone", "cl put('new', 1)",
                          "ks = t keys", "vs = t values", "z = (0=0)", "i = 0",
                          "while (i < ks length): z put(ks(i), vs(i)), i++.",
                          "mp = t map (k, v): v.", "w = (0=0)", "i = 0",
                          "while (i < ks length): w put(ks(i), mp(i)), i++.",
                          "mk = t map (k): k.",
                          "(t, e, n, f, cl, z, w, t slice(ks), t length, ks length, vs length, mk == ks, t at('absent'), t)"]

                def with0(x):
                    y = copy(x)
                    if tfind(y, 0) < 0:
                        tput(y, 0, 0)
                    return y
                f = Ref("table", [e for e in t.v if not (type(e[1]) is int and e[1] == 1)])
                cl = copy(t)
                tput(cl, "new", 1)
                ln = len(t.v)
                yield "\n".join(lines), fmt((t, with0(t), ln, f, cl, with0(t), with0(t), t, ln, ln, ln, False, None, t))


def gen_grow(c, maxn):
    """every prefix of a long insertion / deletion history, all keys looked up at the end"""
    for n in list(range(0, maxn)):
        for kind in ("int", "str", "mixed"):
            def k(i):
                return i if kind == "int" or (kind == "mixed" and i % 2) else "s%d" % i
            for d in (0, 1, 3):     # after each put, delete every d-th
                t = Ref("table", [])
                tput(t, "q", 0)
                lines = ["t = (q=0)"]
                for i in range(n):
                    tput(t, k(i), i)
                    lines.append("t put(%s, %d)" % (klit(k(i)), i))
                    c.trans()
                    if d and i % d == 0:
                        del t.v[tfind(t, k(i))]
                        lines.append("t remove(%s)" % klit(k(i)))
                c.state(fmt(t))
                lines.append("(t, t length, %s)" % ", ".join("t at(%s)" % klit(k(i)) for i in range(n + 1)))
                yield "\n".join(lines), fmt((t, len(t.v)) + tuple(tget(t, k(i)) for i in range(n + 1)))


def gen_sizes(c, sizes):
    """every operation on tables of each size; the loops are in the program"""
    for n in sizes:
        for kind in ("int", "str", "neg"):
            kx = {"int": "i", "str": "'k' + i string", "neg": "0 - i * 1000003"}[kind]
            kf = {"int": lambda i: i, "str": lambda i: "k%d" % i, "neg": lambda i: -i * 1000003}[kind]
            c.trans(10 * n + 5)
            c.state((n, kind))
            src = "\n".join([
                "n = %d" % n, "t = ('z'=0)", "i = 0", "while (i < n): t put(%s, i * 2), i++." % kx, "m = t",
                "g = ()", "i = -1", "while (i <= n): g push(t at(%s)), i++." % kx,
                "sum = 0", "cnt = 0", "t each (k, v): sum = sum + v, cnt++.", "ks = t keys", "vs = t values",
                "bad = 0", "ks each (k, i): if (t at(k) != vs(i)): bad++..",
                "f = t filter (k, v): v % 4 == 0.", "mp = t map (k, v): v.", "cl = t clone",
                "i = 0", "while (i < n): if (i %% 3 != 0): cl remove(%s)., i++." % kx, "l1 = cl length",
                "i = 0", "while (i < n): if (i %% 3 == 1): cl put(%s, i)., i++." % kx,
                "(t, m length, g, sum, cnt, ks length, vs length, bad, f, mp length, cl, l1, cl length)"])
            d = {kf(i): 2 * i for i in range(n)}
            full = dict(d, z=0)
            cl = {kf(i): (2 * i if i % 3 == 0 else i) for i in range(n) if i % 3 != 2}
            l1 = 1 + len([i for i in range(n) if i % 3 == 0])
            yield src, fmt((full, n + 1, [d.get(kf(i)) for i in range(-1, n + 1)], sum(d.values()), n + 1, n + 1, n + 1, 0,
                            {k: v for k, v in full.items() if v % 4 == 0}, n + 1, dict(cl, z=0), l1, 1 + len(cl)))


def gen_slices(c, n):
    """every slice of every small table, nil and false values included; the result is a table of its own"""
    pool = [("a", None), (0, 1), (None, False), ("b", 7)]
    for items in itertools.chain.from_iterable(itertools.permutations(pool, k) for k in range(1, n + 1)):
        for ks in itertools.chain.from_iterable(itertools.permutations(["a", 0, None, "b", "zz"], k) for k in range(1, n + 1)):
            d = dict(items)
            e = {k: d[k] for k in ks if k in d}
            c.trans(len(ks))
            c.state((items, ks))
            yield "t = (%s)\ns = t slice((%s))\nn = s length\nw = t clone\ns put('q', 1)\nw put('z', 2)\n(n, s, t, w)" % (", ".join("%s=%s" % (klit(k), lit(v)) for k, v in items), ", ".join(map(klit, ks))), \
                fmt((len(e), dict(e, q=1), d, dict(d, z=2)))


def gen_refs(c, n, grows):
    """references taken at different times of the growth of one table are all the same object"""
    for name, init, step in grows:
        for m in range(0, n):
            for every in (1, 2, 5, 16):
                c.state((name, m, every))
                c.trans(m)
                src = "o = %s\nq = o\nrefs = (o)\n%d times (i): %s, if (i %% %d == 0): refs push(o)..\nrefs push(o)\n" % (init, m, step, every)
                k = 2 + len(range(0, m, every))
                yield src + "a = refs map((x): x == o.)\nb = refs map((x): o == x.)\nd = refs map((x): o != x.)\ne = refs map((x): x != q.)\n(a, b, d, e, refs map((x): x == refs(0).), o == q, q == o, refs map((x): x == o clone.))", \
                    fmt(([True] * k, [True] * k, [False] * k, [False] * k, [True] * k, True, True, [False] * k))


ITEM = ["k=%d", "j=%d", "'k'=%d", "0=%d", "1=%d", "2=%d", "nil=%d", "%d", "%d", "(%d, 5)", "id(%d)"]


def gen_literal(c, n, items):
    """all literals: entries with and without keys; those without get the number of such entries before them."""
    for seq in itertools.product(items, repeat=n):
        if not any("=" in s for s in seq):
            continue
        c.trans(n)
        t, pos = [], 0
        for i, s in enumerate(seq):
            v = 70 + i
            if "=" in s:
                k = s.split("=")[0].strip("'")
                k = None if k == "nil" else int(k) if k.isdigit() else k
            else:
                k, pos = pos, pos + 1
                v = [v, 5] if s.startswith("(") else v
            t = [(a, b) for a, b in t if a != k] + [(k, v)]
        c.state(tuple(sorted(str(k) for k, v in t)))
        e = dict(t)
        lit = "(%s)" % ", ".join(s % (70 + i) for i, s in enumerate(seq))
        yield "id = (x): x.\nx = %s\n(x, %s length, id(%s))" % (lit, lit, lit), fmt([e, len(e), e])


def explore(c):
    q = c.quick
    seeds = (1, 2, 3) if q else (1, 2, 3, 4, 5, 6, 7, 8)
    for n in range(1, 4 if q else 6):
        c.run("literals", gen_literal(c, n, sorted(set(ITEM)) if n < 4 else ["k=%d", "'k'=%d", "0=%d", "1=%d", "%d", "id(%d)"]), modes="VJCD" if n < 3 else "VJ")
    c.run("slices", gen_slices(c, 3 if q else 4), modes="VJ")
    c.run("references", gen_refs(c, 40 if q else 300, [("int", "(1=2)", "o put(i * 7, i)"), ("str", "('a'=1)", "o put(i string, i)")]), modes="VJ")
    c.run("mutators-depth3", gen(c, 3, INITS[:4] if q else INITS, MUT), seeds=seeds[:2])
    c.run("all-ops-depth2", gen(c, 2, INITS, READ + MUT), seeds=seeds[:2])
    if not q:
        c.run("mutators-depth4", gen(c, 4, INITS[:3], MUT), seeds=seeds[:1])
    c.run("iteration", gen_iter(c, 20 if q else 60, ("int", "str")), seeds=seeds)
    c.run("growth", gen_grow(c, 40 if q else 70), seeds=seeds)
    big = sorted({x for b in range(6, 10 if q else 13) for k in (2 ** b, int(0.77 * 2 ** b)) for x in (k - 1, k, k + 1)})
    c.run("sizes", gen_sizes(c, list(range(0, 40 if q else 400)) + big + [1500, 3000]), seeds=seeds[:1 if q else 3], cpu=20)
    c.run("sizes beyond 16 bits", gen_sizes(c, [66000] if q else [65535, 65536, 65537, 131073]), modes="VJ", seeds=seeds[:1], chunk=1, cpu=60)
