"""C08: lists behave as ordered sequences under every operation sequence."""
import itertools
from vp import L, Ref, fmt, lit


def norm(i, n):
    return i + n if i < 0 else i


class St:
    def __init__(self, init):
        self.l = L(*init)
        self.keep = []          # older identities


def op_push(v, name="push"):
    def f(s):
        s.l.v.append(v)
        return s.l
    return "l %s(%s)" % (name, lit(v)), f


def op_unshift(v):
    def f(s):
        s.l.v.insert(0, v)
        return s.l
    return "l unshift(%s)" % lit(v), f


def op_pop(s):
    return s.l.v.pop() if s.l.v else None


def op_shift(s):
    return s.l.v.pop(0) if s.l.v else None


def op_put(i, v, form):
    def f(s):
        n = len(s.l.v)
        k = norm(i, n)
        if 0 <= k < n:
            s.l.v[k] = v
        elif k == n:
            s.l.v.append(v)
        else:
            return "table"
        return s.l if form == "put" else None
    return ("l put(%d, %s)" % (i, lit(v)) if form == "put" else "l(%d) = %s" % (i, lit(v))), f


def op_at(i, form):
    def f(s):
        n = len(s.l.v)
        k = norm(i, n)
        return s.l.v[k] if 0 <= k < n else None
    return ("l at(%d)" if form == "at" else "l(%d)") % i, f


def op_delete(i):
    def f(s):
        n = len(s.l.v)
        k = norm(i, n)
        if 0 <= k < n:
            del s.l.v[k]
        return s.l
    return "l delete(%d)" % i, f


def op_remove(i):
    def f(s):
        n = len(s.l.v)
        if not n:
            return s.l
        c = list(s.l.v)
        k = norm(i, n)
        if 0 <= k < n:
            del c[k]
        return Ref("list", c)
    return "l remove(%d)" % i, f


def sl(v, a, b):
    n = len(v)
    if a is None:
        return Ref("list", list(v))
    a = norm(a, n)
    if a < 0:
        return None
    if b is None:
        r = v[a:]
    else:
        b = norm(b, n)
        if b < 0:
            return None
        if b < a:
            a, b = b, a
        r = v[a:b + 1]
    return Ref("list", list(r)) if r else None


def op_slice(a, b):
    t = "l slice" if a is None else "l slice(%d)" % a if b is None else "l slice(%d, %d)" % (a, b)
    return t, lambda s: sl(s.l.v, a, b)


def op_nreverse(s):
    s.l.v.reverse()
    return s.l


def op_rebind(text, fn):
    """l = <copying expression>: the old list stays observable through the kept results."""
    def f(s):
        old = s.l
        new = fn(s)
        if new is None:
            return "stop"
        s.l = new
        s.keep.append(old)
        return new
    return "l = %s" % text, f


SIMPLE = [
    op_push(7), ("l pop", op_pop), ("l shift", op_shift), op_unshift("u"), op_put(0, 8, "put"),
    op_put(-1, 9, "put"), op_delete(0), op_delete(1), op_remove(0), ("l clone", lambda s: Ref("list", list(s.l.v))),
    ("l reverse", lambda s: Ref("list", s.l.v[::-1])), ("l nreverse", op_nreverse), op_slice(1, None),
    op_rebind("l clone", lambda s: Ref("list", list(s.l.v))), op_rebind("l slice(0, 1)", lambda s: sl(s.l.v, 0, 1)),
    op_rebind("l reverse", lambda s: Ref("list", s.l.v[::-1])), op_rebind("l remove(0)", op_remove(0)[1]),
]
FULL = SIMPLE + [
    op_push(None, "append"), op_push((1, 2)), op_push(1.5), ("l first", lambda s: s.l.v[0] if s.l.v else None),
    ("l last", lambda s: s.l.v[-1] if s.l.v else None), ("l length", lambda s: len(s.l.v)),
    ("l each (x): 1.", lambda s: s.l), ("l map (x): x.", lambda s: Ref("list", list(s.l.v))),
] + [op_at(i, f) for i in range(-4, 5) for f in ("at", "call")] \
  + [op_put(i, 5, f) for i in range(-3, 4) for f in ("put", "callset")] \
  + [op_delete(i) for i in range(-3, 5)] + [op_remove(i) for i in range(-3, 5)] \
  + [op_slice(None, None)] + [op_slice(a, None) for a in range(-4, 5)] \
  + [op_slice(a, b) for a in range(-4, 5) for b in range(-4, 5)]


def prog(c, init, ops):
    """Returns (program, expected) or None when the model stops before the end."""
    s = St(init)
    lines = ["l = %s" % lit(init), "m = l"]
    m = s.l
    res = []
    for n, (t, f) in enumerate(ops):
        r = f(s)
        c.trans()
        if r == "table" or r == "stop":
            return None
        c.state(fmt(s.l))
        if " = " in t:
            lines.append(t)
        else:
            lines.append("r%d = %s" % (n, t))
            res.append((n, r))
    rs = ["r%d" % n for n, _ in res]
    lines.append("(%s)" % ", ".join(["l length", "l", "m", "l == m", "m != l"] + rs))
    exp = fmt(tuple([len(s.l.v), s.l, m, s.l is m, s.l is not m] + [r for _, r in res]))
    return "\n".join(lines), exp


INITS = [(), (1,), (1, 2), ("a", "b", "c"), (1, 2.5, "x", None)]


def gen_full(c, depth, inits, alpha):
    for init in inits:
        for ops in itertools.product(alpha, repeat=depth):
            p = prog(c, list(init), ops)
            if p:
                yield p


def gen_growth(c, maxn, words):
    """Capacity thresholds: every block word over push/pop/shift/unshift counts."""
    for init in (0, 1, 3):
        for counts in words:
            s = [i for i in range(init)]
            lines = ["l = %s" % lit(s), "m = l"]
            nxt = 100
            res = []
            for kind, n in counts:
                for _ in range(n):
                    c.trans()
                    if kind == "push":
                        s.append(nxt)
                        lines.append("l push(%d)" % nxt)
                        nxt += 1
                    elif kind == "unshift":
                        s.insert(0, nxt)
                        lines.append("l unshift(%d)" % nxt)
                        nxt += 1
                    elif kind == "pop":
                        s.pop() if s else None
                        lines.append("l pop")
                    elif kind == "shift":
                        s.pop(0) if s else None
                        lines.append("l shift")
                    elif kind == "clone":
                        res.append(list(s))
                        lines.append("c%d = l\nl = l clone" % len(res))
            c.state(fmt(s))
            same = not any(k == "clone" for k, n in counts)
            lines.append("(l, %sl length, l last)" % ("m, " if same else ""))
            yield "\n".join(lines), fmt(tuple([s] + ([s] if same else []) + [len(s), s[-1] if s else None]))


def growth_words(maxn, step):
    for k1 in ("push", "unshift"):
        for n1 in range(0, maxn + 1):
            yield [(k1, n1)]
            for k2 in ("pop", "shift"):
                for n2 in sorted({0, 1, 2, n1 // 2, max(0, n1 - 1), n1, n1 + 1}):
                    for k3 in ("push", "unshift", "clone"):
                        for n3 in ([1] if k3 == "clone" else [1, 3, step]):
                            w = [(k1, n1), (k2, n2), (k3, n3)]
                            if k3 == "clone":
                                w.append(("push", 2))
                            yield w


def gen_misc(c):
    # list(n): n empty slots; put in each; conversion to a table beyond the end
    for n in range(0, 40):
        yield "list(%d)" % n, fmt([None] * n)
        yield "list(%d) length" % n, str(n)
        yield "l = list(%d)\n%s\nl" % (n, "\n".join("l put(%d, %d)" % (i, i * i) for i in range(n))), \
            fmt([i * i for i in range(n)])
    for n in range(0, 7):
        base = ["v%d" % i for i in range(n)]
        for k in range(n + 1, n + 4):
            d = {i: v for i, v in enumerate(base)}
            d[k] = "new"
            yield "l = %s\nm = l\nl put(%d, 'new')\n(l, m, l at(%d), l at(0), m at(%d))" % (lit(base), k, k, k + 1), \
                fmt((d, d, "new", base[0] if n else None, None))
        for key in ("k", 1.5):
            d = {i: v for i, v in enumerate(base)}
            d[key] = "new"
            if key == "k":
                yield "l = %s\nm = l\nl put('k', 'new')\n(l, m, l at('k'), l length)" % lit(base), fmt((d, d, "new", n + 1))
    for n in (7, 8, 31, 63, 64, 65, 128, 255, 256, 257, 300, 511, 512, 513, 1025, 3000):
        for k in (n + 1, n + 5, "k", None):
            d = {i: i * 3 for i in range(n)}
            d[k] = "new"
            yield "l = ()\n%d times (i): l push(i * 3).\nm = l\nl put(%s, 'new')\nl put(%d, 'w')\n(l, m length, l at(%s), l at(0), m at(%d), l keys length, l == m)" % (n, lit(k), n + 9, lit(k), n - 1), \
                fmt((dict(d, **{}) | {n + 9: "w"}, n + 2, "new", 0, 3 * n - 3, n + 2, True))
    # each/map visit every element once, in order, with its index
    for n in range(0, 12):
        base = list(range(10, 10 + n))
        yield "l = %s\no = ()\nl each (x, i): o push(i), o push(x).\no" % lit(base), \
            fmt([y for i, x in enumerate(base) for y in (i, x)])
        yield "l = %s\no = ()\nr = l each (x): o push(x).\n(o, r)" % lit(base), fmt((base, base))


def gen_sizes(c, sizes):
    """every operation on lists of each size, built in four ways; the loops are in the program"""
    for n in sizes:
        builds = [("push", "l = ()\ni = 0\nwhile (i < n): l push(i), i++."),
                  ("unshift", "l = ()\ni = n\nwhile (i > 0): i = i - 1, l unshift(i)."),
                  ("put", "l = ()\ni = 0\nwhile (i < n): l put(i, i), i++."),
                  ("list", "l = list(n)\ni = n\nwhile (i > 0): i = i - 1, l put(i, i).")]
        if n <= 300:
            builds.append(("literal", "l = %s" % lit(list(range(n)))))
        for name, b in builds:
            if n > 1500 and name != "push":
                continue
            c.state((n, name))
            h = n // 2
            base = list(range(n))
            rev = base[::-1]
            sl = base[1:h + 1]
            un = [-1] + base
            w = un + ["e"]
            rm = [x for x in base if x != h]
            src = ["n = %d" % n, b, "m = l", "sum = 0", "l each (x, i): sum = sum + x * (i + 1).",
                   "mp = l map (x): x + 1.", "c = l clone", "c unshift(-1)", "c push('e')", "rv = l reverse",
                   "sl = l slice(1, %d)" % h if h >= 1 else "sl = ()", "rm = l remove(%d)" % h,
                   "g = ()", "i = 0 - n - 1", "while (i < n + 1): g push(l(i)), i++.",
                   "cl = l clone", "q = 0", "while (cl length > 0): q = q * 3 %% 1000003 + cl pop.",
                   "cs = l clone", "r = 0", "while (cs length > 0): r = r * 3 %% 1000003 + cs shift."]
            src = [x.replace("%%", "%") for x in src]
            if n:
                src += ["nr = l clone", "nr nreverse", "de = l clone", "dv = de delete(%d)" % h]
            else:
                src += ["nr = ()", "de = ()", "dv = nil"]
            src += ["(l, m length, sum, mp, c, rv, sl, rm, g, cl, q, cs, r, nr, de, dv, l first, l last, l at(n), m(%d))" % h]
            q = 0
            for x in rev:
                q = q * 3 % 1000003 + x
            r = 0
            for x in base:
                r = r * 3 % 1000003 + x
            c.trans(20 + 8 * n)
            g = [None] + base + base + [None]
            yield "\n".join(src), fmt((base, n, sum(x * (i + 1) for i, x in enumerate(base)), [x + 1 for x in base], w, rev, sl,
                                       rm, g, [], q, [], r, rev, rm if n else [], rm if n else None,
                                       base[0] if n else None, base[-1] if n else None, None, h if n else None))


def gen_brackets(c, sizes, pads):
    """l[i] with every constant and variable index inside the list, the list and the index local, captured or a parameter, in any register"""
    for n in sizes:
        c.state(("br", n))
        c.trans(6 * n)
        base = ["%d" % (i * 7) for i in range(n)]
        mk = "l = ()\n%d times (i): u = i * 7, l push(u string).\n" % n
        ks = list(range(-n, n)) if n <= 70 else sorted({k for b in (0, 63, 64, 127, 128, 255, 256, 511, 512, 1000, 1023, 1024, 1025, 2047, 2048, 4095, 4096, n // 2, n - 1) for k in (b, -b - 1) if -n <= k < n})
        if not n:
            continue
        exp = [base[k] for k in ks]
        for part in range(0, len(ks), 60):
            yield mk + "(%s)" % ", ".join("l[%d]" % k for k in ks[part:part + 60]), fmt(exp[part:part + 60])
        yield mk + "f = (a, b): a[b].\ng = (b): l[b].\nh = (b): k = (): l[b]., k().\nm = (a): k = (b): a[b]., k.\ny = m(l)\nks = %s\n" % lit(ks) + \
            "(ks map((x): f(l, x).), ks map((x): g(x).), ks map((x): h(x).), ks map((x): y(x).), ks map((x): l[x].), ks map((x): l[x] == l(x).))", fmt(tuple([exp] * 5 + [[True] * len(ks)]))
        yield mk + "r = ()\ni = 0\nwhile (i < %d): r push(l[i]), j = i, i++, r push(l[j] length + l[0] length).\nr" % n, \
            fmt([z for k in range(n) for z in (base[k], len(base[k]) + 1)])
    for pad in pads:
        c.state(("pad", pad))
        c.trans(9)
        pre = "".join("p%d = %d\n" % (i, i) for i in range(pad))
        args = ", ".join("p%d" % i for i in range(min(pad, 9)))
        src = "l = (4, 5, 6)\nt = ('a'=1, 'bb'=l)\ni = 2\nj = -3\n"
        ex = (4, 6, 5, 6, 4, 1, [4, 5, 6], [6, 4, 5], True, 10, 46)
        body = "z = l[0] + l[2]\nq = f(l[0], l[i])\n(l[0], l[2], l[-2], l[i], l[j], t['a'], t['bb'], (l[i], l[j], l[1]), l[i] == 6, z, q)"
        yield pre + src + "f = (x, y): x * 10 + y.\n" + body, fmt(ex)
        yield "w = ():\n" + (pre + src + "f = (x, y): x * 10 + y.\n" + body).replace("\n", "\n ") + ".\nw()", fmt(ex)
        yield src + "f = (x, y): x * 10 + y.\nw = ():\n" + (pre + body).replace("\n", "\n ") + ".\nw()", fmt(ex)


def gen_refs(c, n, grows):
    """references taken at different times of the growth of one list are all the same object"""
    for name, init, step in grows:
        for m in range(0, n):
            for every in (1, 2, 5, 16):
                c.state((name, m, every))
                c.trans(m)
                src = "o = %s\nq = o\nrefs = (o)\n%d times (i): %s, if (i %% %d == 0): refs push(o)..\nrefs push(o)\n" % (init, m, step, every)
                k = 2 + len(range(0, m, every))
                yield src + "a = refs map((x): x == o.)\nb = refs map((x): o == x.)\nd = refs map((x): o != x.)\ne = refs map((x): x != q.)\n(a, b, d, e, refs map((x): x == refs(0).), o == q, q == o, refs map((x): x == o clone.))", \
                    fmt(([True] * k, [True] * k, [False] * k, [False] * k, [True] * k, True, True, [False] * k))


def explore(c):
    q = c.quick
    c.run("all-ops-depth2", gen_full(c, 2, INITS if not q else [(), (1,), ("a", "b", "c")], FULL))
    c.run("mutators-depth3", gen_full(c, 3, INITS[:4] if q else INITS, SIMPLE))
    if not q:
        c.run("mutators-depth4", gen_full(c, 4, INITS[:4], SIMPLE))
        c.run("all-ops-depth3", gen_full(c, 3, [(1, 2)], FULL[:20] + FULL[20::7]))
    c.run("growth", gen_growth(c, 33, growth_words(20 if q else 70, 9)))
    c.run("misc", gen_misc(c))
    c.run("references", gen_refs(c, 40 if q else 300, [("push", "()", "o push(i)"), ("unshift", "()", "o unshift(i)"), ("append", "(1, 2)", "o append(i)"), ("put", "(0)", "o put(i, i)")]), modes="VJ")
    c.run("bracket references", gen_brackets(c, list(range(0, 20)) + [70, 1030, 2050, 5000] if q else list(range(0, 71)) + [128, 300, 512, 1023, 1024, 1025, 2049, 5000, 20000], range(0, 40) if q else range(0, 300)), modes="VJ" if q else "VJCD", cpu=20)
    big = sorted({x for b in range(6, 11 if q else 13) for k in (2 ** b, 3 * 2 ** (b - 1)) for x in (k - 1, k, k + 1)})
    c.run("sizes", gen_sizes(c, list(range(0, 40 if q else 600)) + big + [2500, 5000]), cpu=20)
    c.run("sizes beyond 16 bits", itertools.chain(gen_sizes(c, [65536, 70000] if q else [65535, 65536, 65537, 70000, 131073]), gen_brackets(c, [66000] if q else [66000, 131100], [])), modes="VJ", chunk=1, cpu=60)
