"""C16: lick data keeps the names, attributes, texts and children it was written with."""
import itertools
from vp import fmt


class K:
    """a lick: name, inner (None | value | list of K), attr (None | dict | list)"""
    __slots__ = ("n", "i", "a")

    def __init__(self, n, i=None, a=None):
        self.n, self.i, self.a = n, i, a


def show(v):
    if v is None:
        return "nil"
    if v is True or v is False:
        return "true" if v else "false"
    if isinstance(v, K):
        s = v.n
        if v.i is not None:
            s += " " + show(v.i)
        if v.a is not None:
            s += " " + show(v.a)
        return s
    if isinstance(v, dict):
        return "(" + ", ".join("%s=%s" % (show(k), show(x)) for k, x in v.items()) + ")"
    if isinstance(v, list):
        if v and all(isinstance(x, K) for x in v):
            return "[" + ", ".join(map(show, v)) + "]"
        return "(" + ", ".join(map(show, v)) + ")"
    return str(v)


# inner forms: (source, value); attr forms likewise
INNER = [("", None), ("'x y'", "x y"), ("7", 7), ("loose text", "loose text"), ("Hello!", "Hello!"), ("1.5", 1.5), ("true", True), ("false", False), ("0", 0), ("''", ""), ("|v > 9.", False), ("|(3, v).", [3, 5]), ("|().", []), ("|v + 1.", 6), ("a{b}c", "a{b}c"), ("é-😀", "é-😀")]
ATTR = [("", None), ("(b=1)", {"b": 1}), ("(c='q')", {"c": "q"}), ("(1, 2)", [1, 2]), ("(d=v)", {"d": 5}), ("(e=(1, v))", {"e": [1, 5]}), ("(g=false)", {"g": False}), ("(h='')", {"h": ""})]
NAMES = ["p", "html", "h1", "λx", "a_b"]


def lick(c, n, inner, attr, attr_first):
    s = n
    parts = [attr[0], inner[0]] if attr_first else [inner[0], attr[0]]
    return s + "".join(" " + p for p in parts if p)


UNQ = ("loose text", "Hello!", "a{b}c", "é-😀")


def atoms():
    """(source, K) of every single lick"""
    for n in NAMES:
        for i in INNER:
            for a in ATTR:
                for first in (False, True):
                    if i[0] in UNQ and a[0] and not first:
                        continue           # unquoted text goes on to the end of the item
                    if not i[0] and first or not a[0] and first:
                        continue
                    yield lick(None, n, i, a, first), K(n, i[1], a[1])


def probe(v, path, out):
    """observe everything about the lick at path (source of an expression)"""
    licks = v.i if isinstance(v.i, list) else None
    text = v.i if isinstance(v.i, str) else None
    out.append(("%s name" % path, v.n))
    out.append(("%s text" % path, text))
    if licks is None:
        out.append(("%s licks" % path, None))
    else:
        out.append(("%s licks length" % path, len(licks)))
    if isinstance(v.a, dict):
        for k, x in v.a.items():
            out.append(("%s attr('%s')" % (path, k), x))
        out.append(("%s attr length" % path, len(v.a)))
    elif v.a is None:
        out.append(("%s attr" % path, None))
    else:
        out.append(("%s attr" % path, v.a))
    if licks:
        for j, x in enumerate(licks):
            if not isinstance(x, K):
                out.append(("%s licks(%d)" % (path, j), x))
                continue
            probe(x, "%s licks(%d)" % (path, j), out)


def case(c, src, ks, wrap=0):
    out = [("x length", len(ks)), ("x string", show(ks) if ks else "()")]
    lines = []
    for j, k in enumerate(ks):
        out.append(("n%d string" % j, show(k)))
        lines.append("n%d = x(%d)" % (j, j))
        probe(k, "n%d" % j, out)
    c.trans(len(out))
    e = fmt(tuple(v for _, v in out))
    c.state(e)
    obs = "(%s)" % ", ".join(s for s, _ in out)
    if wrap == 0:
        return "v = 5\nx = [%s]\n%s\n%s" % (src, "\n".join(lines), obs), e
    if wrap == 1:
        return "f = (v):\n x = [%s]\n %s\n %s.\nf(5)" % (src, "\n ".join(lines), obs), e
    return "v = 5\ng = (): [%s].\ny = g()\nx = g()\nx2 = g()\n%s\n(%s, x == x2)" % (src, "\n".join(lines), obs), fmt((tuple(v for _, v in out), False))


def trees(n):
    """all tree shapes with n nodes, as nested lists"""
    if n == 0:
        return [[]]
    out = []
    for k in range(1, n + 1):
        for first in trees(k - 1):
            for rest in trees(n - k):
                out.append([first] + rest)
    return out


def build(shape, deco, ctr):
    src, ks = [], []
    for ch in shape:
        d = deco[ctr[0] % len(deco)]
        ctr[0] += 1
        name = "n%d" % ctr[0]
        if ch:
            s, kk = build(ch, deco, ctr)
            at = d[1]
            if ctr[0] % 2 and at[0]:
                src.append("%s %s [%s]" % (name, at[0], s))
            else:
                src.append("%s [%s]%s" % (name, s, " " + at[0] if at[0] else ""))
            ks.append(K(name, kk, at[1]))
        else:
            i, at = d
            if i[0] in UNQ:
                src.append(lick(None, name, i, at, True))
            else:
                src.append(lick(None, name, i, at, bool(ctr[0] % 3 and i[0] and at[0])))
            ks.append(K(name, i[1], at[1]))
    return ", ".join(src), ks


def gen_single(c):
    for s, k in atoms():
        for w in (0, 1, 2):
            yield case(c, s, [k], w)


def gen_pairs(c, step):
    at = list(atoms())
    for a in at[::step]:
        for b in at[::step]:
            yield case(c, a[0] + ", " + b[0], [a[1], b[1]])
            yield case(c, "o [%s, %s]" % (a[0], b[0]), [K("o", [a[1], b[1]])])


def gen_trees(c, n, decos):
    for k in range(1, n + 1):
        for sh in trees(k):
            for deco in decos:
                src, ks = build(sh, deco, [0])
                yield case(c, src, ks)
                yield case(c, src, ks, 1)


def gen_layout(c, seps):
    for a in seps:
        for b in seps:
            src = "h (b=1)%s" % a + "p 'x'" + b + "q [r 5" + a + "s]" + b
            yield case(c, src, [K("h", None, {"b": 1}), K("p", "x"), K("q", [K("r", 5), K("s")])])


def gen_many(c, ns):
    for n in ns:
        c.state(("many", n))
        ks = [K("k%d" % i, i if i % 3 else None, {"b": i} if i % 2 else None) for i in range(n)]
        src = ", ".join("k%d%s%s" % (i, " %d" % i if i % 3 else "", " (b=%d)" % i if i % 2 else "") for i in range(n))
        c.trans(n)
        yield ("x = [%s]\n(x map((l): l name.), x map((l): l attr.), x length, x string, x filter((l): l attr.) length)" % src,
               fmt(([k.n for k in ks], [k.a for k in ks], n, show(ks) if ks else "()", n // 2)))
        # deep nesting and licks collected from a loop
        k = K("z", "t")
        s = "z 't'"
        for i in range(min(n, 9)):
            k = K("d%d" % i, [k], None if i % 2 else {"a": i})
            s = "d%d%s [%s]" % (i, "" if i % 2 else " (a=%d)" % i, s)
        m = min(n, 9)
        c.trans(m)
        yield ("x = [%s]\nn = x(0)\nc = 0\nwhile (n licks): n = n licks(0), c = c + 1.\n(c, n name, n text, x string)" % s, fmt((m, "z", "t", show([k]))))
        yield ("r = ()\n%d times (i): r push([q (a=i) |i * 2., w]).\n(r map((x): x(0) attr('a').), r map((x): x(0) string.), r map((x): x(1) name.), r length)" % n,
               fmt((list(range(n)), ["q %d (a=%d)" % (2 * i, i) for i in range(n)], ["w"] * n, n)))


SPECIAL = [("f = (l): l name + '/' + l text.\nx = [a 'b', c 'd']\n(f(x(0)), f(x first), f(x last))", ("a/b", "a/b", "c/d")),
           ("walk = (l):\n s = l name\n if (l licks):\n  i = 0, k = l licks\n  while (i < k length):\n   s = s + '<' + walk(k(i)) + '>'\n   i++.\n .\n s.\nx = [a [b, c [d 'x'], e]]\nwalk(x(0))", "a<b><c<d>><e>"),
           ("x = [a (b=1)]\nx(0) attr put('c', 2)\n(x(0) attr('c'), x(0) attr length)", (2, 2)),
           ("x = [a [b]]\nx(0) licks push(5)\n(x(0) licks length, x(0) licks(1), x length)", (2, 5, 1)),
           ("x = [a 'é', a 'é']\n(x(0) text == x(1) text, x(0) == x(1), x(0) == x(0), x(0) kind == Lick, x(0) name length)", (True, False, True, True, 1)),
           ("x = [a, b]\ny = x clone\ny push(1)\n(x length, y length, x(0) == y(0), y string)", (2, 3, True, "(a, b, 1)"))]


def gen_special(c):
    for s, e in SPECIAL:
        c.state(s)
        c.trans()
        yield s, fmt(e)


def explore(c):
    q = c.quick
    I, A = INNER, ATTR
    decos = [[(I[0], A[0])], [(I[1], A[1]), (I[2], A[0]), (I[0], A[3])], [(I[0], A[4]), (I[7], A[2]), (I[3], A[0]), (I[5], A[1])], [(I[4], A[1]), (I[9], A[0]), (I[6], A[5])]]
    c.run("special programs", gen_special(c), modes="VJCD")
    c.run("single licks", gen_single(c), modes="VJCD")
    c.run("pairs and children", gen_pairs(c, 9 if q else 3), modes="VJ" if q else "VJCD")
    c.run("trees", gen_trees(c, 5 if q else 7, decos), modes="VJ")
    c.run("layout", gen_layout(c, [",", ", ", "\n", ",\n ", "\r\n", "\n\n", " # c\n"]), modes="VJ")
    c.run("many", gen_many(c, list(range(0, 40)) + [64, 100, 129, 257, 300] if q else list(range(0, 300)) + [1000, 2000]), modes="VJ", chunk=30, cpu=20)
