"""C24: map, filter, reduce, each and join visit every element exactly once, in order."""
import itertools
from vp import fmt, lit, T


def show(v):
    if v is None:
        return "nil"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, str):
        return v
    if isinstance(v, (list, tuple)):
        return "(" + ", ".join(show(x) for x in v) + ")"
    if isinstance(v, float):
        s = ("%.16f" % v).rstrip("0")
        return s + "0" if s.endswith(".") else s
    return str(v)


def truth(v):
    return v is not None and v is not False


def seqs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alpha, repeat=k)


def llit(l):
    return lit(list(l)) if l else "()"


# list -> list stages: (source, function); W: also observes the state of the block (captured variable w)
def stages(n):
    return [
        ("map((x): (x, 1).)", lambda l, s: [(x, 1) for x in l]),
        ("map((x): w = w + 1, w.)", lambda l, s: [s.tick() for x in l]),
        ("map((x): nil.)", lambda l, s: [None for x in l]),
        ("filter((x): x.)", lambda l, s: [x for x in l if truth(x)]),
        ("filter((x): w = w + 1, x == 1.)", lambda l, s: [x for x in l if (s.tick(), x == 1 and x is not True)[1]]),
        ("filter((x, i): w = w + i, i % 2 == 0.)", lambda l, s: [x for i, x in enumerate(l) if (s.tick(i), i % 2 == 0)[1]]),
        ("filter((x, i): i > 0.)", lambda l, s: [x for i, x in enumerate(l) if i > 0]),
        ("reverse", lambda l, s: l[::-1]),
        ("clone", lambda l, s: list(l)),
        ("map((x): m map((y): y + 1.).)", lambda l, s: [[5, 6] for x in l]),
        ("map((x): m filter((y): w = w + y, y > 4.).)", lambda l, s: [(s.tick(9), [5])[1] for x in l]),
        ("map((x): g(x).)", lambda l, s: [x == 1 and x is not True for x in l]),
    ]


def terms():
    return [
        ("reduce((a, b): (a, b).)", lambda l, s: red(l, lambda a, b: (a, b), None)),
        ("reduce((a, b): w = w + 1, (a, b)., 'i')", lambda l, s: red(l, lambda a, b: (s.tick(), (a, b))[1], "i")),
        ("reduce((a, b): a + 1., 0)", lambda l, s: len(l)),
        ("reduce((a, b): a push(b), a., ())", lambda l, s: list(l)),
        ("join(', ')", lambda l, s: ", ".join(show(x) for x in l)),
        ("join", lambda l, s: "".join(show(x) for x in l)),
        ("string", lambda l, s: show(list(l))),
        ("length", lambda l, s: len(l)),
    ]


def red(l, f, init):
    a = init
    for i, x in enumerate(l):
        a = x if i == 0 and a is None else f(a, x)
    return a


class S:
    def __init__(self):
        self.w = 0

    def tick(self, n=1):
        self.w += n
        return self.w


def gen_pipes(c, lists, depth, sts, tms, wrap=False):
    for l in lists:
        for d in range(0, depth + 1):
            for st in itertools.product(sts, repeat=d):
                e, x, src = S(), list(l), "l"
                exp, obs = [], []
                lines = ["l = %s" % llit(l), "m = (4, 5)", "w = 0", "g = (x): x == 1."]
                for k, (s, f) in enumerate(st):
                    x = f(x, e)
                    lines.append("r%d = %s %s" % (k, src, s))
                    src = "r%d" % k
                    obs.append(src)
                    exp.append(list(x))
                for k, (s, f) in enumerate(tms):
                    v = f(x, e)
                    lines.append("t%d = %s %s" % (k, src, s))
                    obs.append("t%d" % k)
                    exp.append(v)
                c.trans(len(st) + len(tms))
                c.state((tuple(map(repr, exp))))
                if wrap:        # the whole pipeline inside a function, with its variables captured
                    yield "f = ():\n " + "\n ".join(lines) + "\n (%s, l, w).\nf()" % ", ".join(obs), fmt(tuple(exp + [list(l), e.w]))
                else:
                    yield "\n".join(lines) + "\n(%s, l, w)" % ", ".join(obs), fmt(tuple(exp + [list(l), e.w]))


def gen_sizes(c, ns):
    for n in ns:
        l = list(range(n))
        c.state(("n", n))
        c.trans(9 * n)
        yield ("l = ()\n%d times (i): l push(i).\nr = ()\nl each (x): r push(x).\nq = ()\nl each (x, i): q push(x - i).\n"
               "(r == l, r, q, l map((x): x * 2.), l filter((x): x %% 3 == 1.), l filter((x, i): i %% 7 == 0.), l reduce((a, b): (a * 3 + b) %% 1000003.), l reduce((a, b): a + b., 5), l join('-'), l string, l)" % n,
               fmt((False, l, [0] * n, [x * 2 for x in l], [x for x in l if x % 3 == 1], l[::7], red(l, lambda a, b: (a * 3 + b) % 1000003, None), 5 + sum(l),
                    "-".join(map(str, l)), show(l), l)))
        yield ("t = ()\n%d times (i): t push((i, i * i)).\nr = t map((p): p(1).)\ns = t filter((p): p(0) %% 2 == 1.) map((p): p(0).)\nx = t reduce((a, p): a + p(1)., 0)\n(r, s, x)" % n,
               fmt(([i * i for i in l], l[1::2], sum(i * i for i in l))))
        # tables: every entry once
        yield ("t = (0=0)\n%d times (i): t put(i, i * 2).\nk = t map((k, v): k * 1000 + v.)\nf = t filter((k, v): v %% 4 == 0.)\nn = 0\nt each (k, v): n = n + k * v + 1.\nm = ()\nt each (k, v): m push(k).\n"
               "(k sort(true), f, n, m sort(true), t length, f length)" % n,
               fmt((sorted(i * 1000 + i * 2 for i in l or [0]), {i: i * 2 for i in l or [0] if i % 2 == 0}, sum(i * i * 2 + 1 for i in l or [0]), l or [0], n or 1, len([i for i in l or [0] if i % 2 == 0]))))
        if n <= 400:
            yield ("f = (n): r = ()\n n times (i): r push(i).\n r.\ns = 0\nf(%d) each (x): f(x %% 5) each (y): s = s + y * x..\nc = f(%d) map((x): f(x %% 4) reduce((a, b): a + b., x).)\n(s, c)" % (n, n),
                   fmt((sum(y * x for x in l for y in range(x % 5)), [x + sum(range(x % 4)) for x in l])))


def gen_tables(c, n):
    """every table over up to n keys"""
    vals = (1, None, "a")
    for keys in itertools.chain.from_iterable(itertools.combinations((1, "k", 7, "z"), k) for k in range(1, n + 1)):
        for vs in itertools.product(vals, repeat=len(keys)):
            t = dict(zip(keys, vs))
            c.state(tuple(t.items()))
            c.trans(5)
            src = "t = (%s)" % ", ".join("%s=%s" % (lit(k), lit(v)) for k, v in t.items())
            yield (src + "\nn = 0\nu = (0=0)\nt each (k, v): n = n + 1, u put(k, v).\nu remove(0)\nf = t filter((k, v): v == 1.)\ng = t filter((k): k == 7.)\nm = t map((k, v): n = n + 10, v == t(k).)\n(n, u, u == t, f, g, m, t)",
                   fmt((11 * len(t), t, False, {k: v for k, v in t.items() if v == 1}, {k: v for k, v in t.items() if k == 7}, [True] * len(t), t)))


def gen_own(c, lists):
    """the result of each method is a list of its own: written to, it leaves the list it came from alone, and the other way round"""
    for l in lists:
        for st in ["map((x): x.)", "filter((x): true.)", "filter((x, i): true.)", "filter((x): x == 99.)", "filter((x, i): i > 99.)", "clone", "reverse"] + (["slice(0, %d)" % len(l)] if l else []):
            n = 0 if "99" in st else len(l)
            b = list(l)[::-1] if "reverse" in st else list(l) if n else []
            c.state(("own", tuple(map(repr, l)), st))
            c.trans(6)
            yield ("l = %s\nr = l %s\na = (r == l, r length)\nr push('e')\nr unshift('f')\nl push('g')\nl unshift('h')\nq = l %s\n(a, r, l, q length, q == l)" % (llit(l), st, st),
                   fmt(([False, n], ["f"] + b + ["e"], ["h"] + list(l) + ["g"], 0 if "99" in st else 2 + len(l), False))) if "slice" not in st else \
                  ("l = %s\nr = l %s\na = (r == l, r length)\nr push('e')\nr unshift('f')\nl push('g')\nl unshift('h')\n(a, r, l)" % (llit(l), st), fmt(([False, n], ["f"] + b + ["e"], ["h"] + list(l) + ["g"])))


def gen_initial(c, lists):
    """reduce starts from what it is given, falsy values other than nil included"""
    for l in lists:
        c.state(("init", tuple(map(repr, l))))
        ini = (False, 0, "", True, 1.5, None)
        c.trans(len(ini) * len(l))
        yield ("l = %s\nn = 0\n(%s, n)" % (llit(l), ", ".join("l reduce((a, b): n = n + 1, (a, b)., %s)" % lit(i) for i in ini)),
               fmt(tuple([red(l, lambda a, b: (a, b), i) for i in ini] + [sum(len(l) if i is not None else max(len(l) - 1, 0) for i in ini)])))


def gen_tmap(c, n):
    """table map and filter: whatever the block returns, there is one result for each entry"""
    for k in range(1, n + 1):
        for vs in itertools.product((None, False, 0, "x"), repeat=k):
            t = dict(enumerate(vs, 5))
            c.state(("tmap", vs))
            c.trans(4 * k)
            yield ("t = (%s)\nm = t map((k, v): v.)\nz = t map((k): t at(k).)\nn = t map((k, v): nil.)\nf = t map((k): false.)\nu = t filter((k, v): v.)\nks = t keys\nb = 0\nks each (k, i): if (m(i) != t at(k)): b++.\n if (z(i) != t at(k)): b += 100..\n\n(m length, z == m, b, n, f, u, t, ks length)".replace("b++.., ", "b++..") %
                   ", ".join("%d=%s" % (a, lit(b)) for a, b in t.items()),
                   fmt((k, False, 0, [None] * k, [False] * k, {a: b for a, b in t.items() if truth(b)}, t, k)))


def gen_join(c, elems, seps, n):
    for l in seqs(elems, n):
        c.state(("join", tuple(map(repr, l))))
        c.trans(len(seps))
        yield ("l = %s\n(%s, l join, l string, l)" % (llit(l), ", ".join("l join(%s)" % lit(s) for s in seps)),
               fmt(tuple([s.join(show(x) for x in l) for s in seps] + ["".join(show(x) for x in l), show(list(l)), list(l)])))


def gen_return(c, lists):
    """what a block returns or assigns never leaks into the traversal; return leaves the block only"""
    for l in lists:
        c.state(("ret", tuple(map(repr, l))))
        c.trans(4)
        n = len(l)
        yield ("l = %s\nf = (x): if (x == 1): return 'one'.\n w = w + 1\n 'other'.\nw = 0\nl map((x): w = w + 1, x.)\n"
               "r = l map((x): if (x == 1): return 'one'.\n w = w + 1\n 'other'.)\nx = 5, i = 6\nl each (x, i): x = 9, i = 8.\ny = l reduce((x, i): i., 0)\n(r, w, x, i, y)" % llit(l),
               fmt((["one" if x == 1 and x is not True else "other" for x in l], n + sum(1 for x in l if not (x == 1 and x is not True)), 5, 6, l[-1] if l else 0)))


def explore(c):
    q = c.quick
    sts, tms = stages(0), terms()
    base = [(), (1,), (None, 1), (0, 1, None), ("a", 1, 1, False), (1, 2, 3, 4, 5)]
    c.run("pipelines", gen_pipes(c, base, 2, sts, tms), modes="VJ" if q else "VJCD")
    c.run("pipelines in functions", gen_pipes(c, base[2:] if q else base, 1 if q else 2, sts, tms, True), modes="VJCD")
    if not q:
        c.run("longer pipelines", gen_pipes(c, base[3:], 3, sts, tms), modes="VJ")
    c.run("all short lists", gen_pipes(c, seqs((0, 1, None, "a", (1,)) if q else (0, 1, None, "a", (1,), False), 3 if q else 4), 1, sts[:7], tms), modes="VJ")
    c.run("sizes", gen_sizes(c, list(range(0, 70)) + [127, 128, 129, 255, 256, 257, 1000] if q else list(range(0, 400)) + [1023, 1024, 1025, 3000]), modes="VJ", chunk=20, cpu=20)
    c.run("sizes beyond 16 bits", gen_sizes(c, [66000] if q else [65535, 65536, 65537, 131073]), modes="VJ", chunk=1, cpu=60)
    c.run("tables", gen_tables(c, 3 if q else 4), modes="VJ")
    c.run("results of their own", gen_own(c, seqs((0, "a", None), 3 if q else 5)), modes="VJ")
    c.run("initial values", gen_initial(c, seqs((0, False, "a", None), 3 if q else 4)), modes="VJ")
    c.run("table results", gen_tmap(c, 4 if q else 5), modes="VJ")
    c.run("join", gen_join(c, [0, -12, "", "ab", None, True, 1.5, (1, "x"), ()], ["", ",", " é ", "long separator, longer than the elements"], 3 if q else 4), modes="VJ")
    c.run("returns and names", gen_return(c, seqs((0, 1, None), 4 if q else 6)), modes="VJCD")
