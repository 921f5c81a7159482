"""C09: sorting yields the ordered permutation; cmp is a consistent order; bsearch finds exactly the members."""
import functools, itertools
from vp import fmt, lit, Raw


def strcmp(a, b):
    a, b = a.encode() + b"\0", b.encode() + b"\0"
    return (a > b) - (a < b)


def cmp(a, b):
    """the order of values; None is below everything"""
    if isinstance(a, str):
        return strcmp(a, b)
    if isinstance(a, (tuple, list)):
        if not isinstance(b, (tuple, list)):
            return 1 if b is None or b is False else -1
        for x, y in zip(a, b):
            r = cmp(x, y)
            if r:
                return r
        return (len(a) > len(b)) - (len(a) < len(b))
    return (a > b) - (a < b)


SIGN = "sg = (n): if (n < 0): -1. elsif (n > 0): 1. else: 0..\n"


def asc(l):
    return sorted(l, key=functools.cmp_to_key(cmp))


def gen_sort(c, lists, ins=True, ints=True):
    """all sorting forms of a list; ties are indistinguishable values"""
    for l in lists:
        l = list(l)
        up = asc(l)
        dn = up[::-1]
        c.state(tuple(l))
        c.trans(8)
        src = ["l = %s" % lit(l) if l else "l = ()", "u = (a, b): a cmp(b).", "d = (a, b): b cmp(a).", "r = l sort(u)", "s = l sort(d)"]
        obs, exp = ["r", "s", "r sort(u)", "s sort(u)"], [up, dn, up, up]
        if ints:
            obs += ["l sort(true)", "l sort(false)", "l sort(true) sort(false)"]
            exp += [up, dn, dn]
            src += ["k = l clone", "i = k ins_sort(true)", "m = l clone", "m ins_sort(false)"]
            obs += ["i == k", "k", "m"]
            exp += [True, up, dn]
        src += ["v = l clone", "w = v ins_sort(u)", "x = l clone", "x ins_sort(d)", "y = l sort", "y ins_sort(u)"]
        obs += ["w == v", "v", "x", "y", "l", "r == l"]
        exp += [True, up, dn, up, l, False]
        yield "\n".join(src) + "\n(%s)" % ", ".join(obs), fmt(tuple(exp))


def seqs(alpha, n, lo=0):
    for k in range(lo, n + 1):
        yield from itertools.product(alpha, repeat=k)


def shapes(ns):
    """many orders of every size: sorted, reversed, rotated, organ pipe, few values, interleaved"""
    for n in ns:
        r = list(range(n))
        yield r
        yield r[::-1]
        yield r[n // 2:] + r[:n // 2]
        yield r[::2] + r[1::2][::-1]
        yield r[::2][::-1] + r[1::2]
        yield [i % 2 for i in r]
        yield [i % 3 for i in r]
        yield [7] * n
        yield [(i * 7919 + 13) % 1009 - 500 for i in r]
        yield [(i * i * 31 + 7) % 97 for i in r]
        yield [(-1) ** i * i * (2 ** 40 // (n or 1)) for i in r]
        yield [0] + [5] * (n - 1) if n else []
        yield [5] * (n - 1) + [0] if n else []


def gen_pos(c, ns):
    """one element out of place, at every pair of positions"""
    for n in ns:
        for i in range(n):
            for j in range(n):
                l = list(range(0, 2 * n, 2))
                l.insert(j, l.pop(i))
                yield l


def gen_records(c, n):
    """sorting objects and lists by a part of them: the result is an ordered permutation of the same objects"""
    for keys in seqs((3, 1, 2), n, 1):
        c.state(("rec", keys))
        c.trans(4)
        src = ["K = class(k, i): /k = k, /i = i.", "l = ()"] + ["l push(K(%d, %d))" % (k, i) for i, k in enumerate(keys)]
        src += ["r = l sort((a, b): a /k cmp(b /k).)", "ks = r map((o): o /k.)", "o = r sort((a, b): a /i cmp(b /i).)", "same = ()", "o each (x, i): same push(x == l(i)).",
                "t = %s" % lit([(k, "x%d" % i) for i, k in enumerate(keys)]), "tr = t sort((a, b): a cmp(b).)",
                "(ks, o map((x): x /i.), same, l map((x): x /i.), tr)"]
        yield "\n".join(src), fmt((sorted(keys), list(range(len(keys))), [True] * len(keys), list(range(len(keys))), asc([(k, "x%d" % i) for i, k in enumerate(keys)])))


def gen_cmp(c, vals):
    """every pair"""
    for a in vals:
        c.state(repr(a))
        c.trans(len(vals))
        yield SIGN + "a = %s\n(%s)" % (lit(a), ", ".join("sg(a cmp(%s))" % lit(b) for b in vals)), fmt([cmp(a, b) for b in vals])


def number(v):
    if v is None or isinstance(v, bool):
        return int(bool(v))
    if isinstance(v, str):
        try:
            return float(v) if "." in v else int(v)
        except ValueError:
            return 0
    return v


def text(v):
    return "nil" if v is None else str(v).lower() if isinstance(v, bool) else v if isinstance(v, str) else str(v)


def kcmp(a, b):
    """the receiver decides: numbers compare with the number of the other, strings with its text; false is below, true above everything else; nil is the nothing of the other's kind"""
    if isinstance(a, bool):
        if isinstance(b, bool):
            return a - b
        if isinstance(b, (int, float)):
            return cmp(int(a), b)
        return 1 if a else -1
    if isinstance(a, (int, float)):
        return cmp(a, number(b))
    if isinstance(a, str):
        return strcmp(a, text(b))
    if isinstance(a, (tuple, list)):
        return cmp(a, b) if not isinstance(b, bool) else (-1 if b else 1)
    if b is None:
        return 0
    if isinstance(b, bool):
        return 0 - b
    if isinstance(b, (int, float)):
        return cmp(0, b)
    return strcmp("", b) if isinstance(b, str) else -1


def gen_kinds(c, vals):
    for a in vals:
        bs = [b for b in vals if not (isinstance(b, tuple) and isinstance(a, (int, float, str)) and not isinstance(a, bool)) and (not isinstance(a, tuple) or b is None or isinstance(b, (bool, tuple)))]
        c.state(("kinds", repr(a)))
        c.trans(len(bs))
        yield SIGN + "a = %s\nr = ()\n%s\nr" % (lit(a), "\n".join("r push(sg(a cmp(%s)))" % lit(b) for b in bs)), fmt([kcmp(a, b) for b in bs])
        yield SIGN + "f = (a, b): sg(a cmp(b)).\nl = ()\n%s\nr = ()\nl each (x): r push(f(l(0), x)).\nr" % "\n".join("l push(%s)" % lit(b) for b in [a] + bs), fmt([0] + [kcmp(a, b) for b in bs])


MAKE = [("objects", "K(%d)"), ("heirs", "H(%d)"), ("tables", "(%d='x', 'k'=2)"), ("empty tables", "t0()"), ("functions", "mkf(%d)"), ("classes", "mk(%d)")]


def gen_identity(c, ns):
    """things without an order of their own: each is equal to itself alone, and all of them are in one order, the same from every arrangement"""
    pre = SIGN + "K = class(n): /n = n.\nH = K class(n): /n = n, /m = 1.\nt0 = (): t = (1=1)\n t remove(1)\n t.\nmk = (n): class: /z = n..\nmkf = (n): (): n..\n"
    for kind, m in MAKE:
        for n in ns:
            c.state(("identity", kind, n))
            c.trans(n * n)
            mk = m.replace("(mk(%d))", "mk(%d)")
            src = pre + "l = ()\n" + "\n".join("v = %s\nl push(v)" % (mk % i if "%" in mk else mk) for i in range(n))
            src += "\nbad = ()\nl each (a, i): l each (b, j):\n  x = sg(a cmp(b)), y = sg(b cmp(a))\n  if (x + y != 0): bad push(1).\n  if ((x == 0) != (i == j)): bad push(2)...\n"
            src += "u = (a, b): a cmp(b).\np = l sort(u)\nm = l reverse\nq = m sort(u)\nsame = 0\np each (a, i): if (a == q(i)): same = same + 1..\n"
            src += "p each (a, i): if (sg(Lobby cmp(a)) != 1): bad push(4).\n if (sg(a cmp(Lobby)) != -1): bad push(5)..\n(bad, same, p length)"
            yield src, fmt([[], n, n])


def gen_cmplong(c, ns):
    """strings that agree in n characters: one ends there, or they differ there, by less or by more"""
    for n in ns:
        p = "".join(chr(97 + i * 7 % 26) for i in range(n))
        vals = [p, p + "a", p + "b", p + "ab", p + "\u00e9", p[:-1], p[:-1] + "A" if n else "A", p[:n // 2] + "~" + p[n // 2:]]
        yield from gen_cmp(c, vals)
        a = sorted(set(vals), key=lambda x: x.encode())
        c.state(("sorted", n))
        yield "l = (%s)\nl sort((a, b): a cmp(b).)" % ", ".join(lit(v) for v in sorted(set(vals), key=lambda x: x[::-1])), fmt(a)


def gen_bsearch(c, lists, kind):
    for l in lists:
        l = sorted(set(l))
        probe = l + ([x + 1 for x in l] + [x - 1 for x in l] + [10 ** 6] if kind == "int" else [x + "q" for x in l] + ["", "zz"])
        probe = probe[:40]
        c.state(("bs", tuple(l)))
        c.trans(len(probe))
        for how in ("s = l sort", "s = l clone\ns ins_sort"):
            yield ("l = %s\n%s\nf = (x): i = s bsearch(x), if (i == -1): 'no'. elsif (s at(i) == x): 'yes'. else: 'wrong'..\n(%s, s length, s sort((a, b): a cmp(b).))" %
                   (lit(l) if l else "()", how, ", ".join("f(%s)" % lit(x) for x in probe) or "0") if probe else "()",
                   fmt(tuple(["yes" if x in l else "no" for x in probe] + [len(l), asc(l)])))


def gen_bsizes(c, sizes):
    """every member and every gap of lists of each size, at several spacings"""
    for n in sizes:
        for d, o in ((1, 0), (2, -7), (3, 1 - n), (5, 1000)):
            c.state(("bz", n, d))
            c.trans(n * (d + 1))
            yield ("l = ()\n%d times (i): l push(%d + i * %d).\nl = l sort\nbad = 0\n%d times (i): k = l bsearch(%d + i * %d), if (k == -1): bad++. elsif (l(k) != %d + i * %d): bad++..\n"
                   "w = 0\nh = 0\n%d times (i): x = %d + i, if (l bsearch(x) == -1): w++. else: h++..\n(bad, w, h, l bsearch(%d), l bsearch(%d), l bsearch(nil))" %
                   (n, o, d, n, o, d, o, d, n * d, o, o - 1, o + n * d)), fmt((0, n * (d - 1), n, -1, -1, -1))


def gen_custom(c, n):
    """every comparison a block may compute: by remainder, by length, constant, by another list, with calls and captured state"""
    for l in seqs((0, 1, 2, 3, 4, 5), n, n):
        c.state(("cu", l))
        c.trans(3)
        mod = sorted(x % 3 for x in l)
        yield ("l = %s\nz = ()\nn = 0\nr = l sort((a, b): n = n + 1, z push(a), x = a %% 3, x cmp(b %% 3).)\nm = r map((x): x %% 3.)\n"
               "q = l sort((a, b): w = (9, 8, 7, 6, 5, 4), w(a) cmp(w(b)).)\nk = l sort((a, b): 0.)\nj = l sort((a, b): a string cmp(b string).)\n(m, r sort(true), q, k sort(true), j, n == z length)" %
               lit(l), fmt((mod, sorted(l), sorted(l, reverse=True), sorted(l), sorted(l), True)))


def explore(c):
    q = c.quick
    c.run("all short lists of integers", gen_sort(c, seqs((2, -1, 3, 0), 5 if q else 7)), modes="VJ" if q else "VJCD")
    c.run("all permutations", gen_sort(c, itertools.chain.from_iterable(itertools.permutations(range(1, n + 1)) for n in range(2, 7 if q else 9))), modes="V" if q else "VJ")
    c.run("boundary integers", gen_sort(c, seqs((-2 ** 62 + 1, -1, 0, 2 ** 31, 2 ** 32, 2 ** 62 - 1), 3 if q else 5)), modes="VJ")
    c.run("strings", gen_sort(c, seqs(("b", "", "ab", "a", "é"), 4 if q else 6), ints=False), modes="VJ")
    c.run("doubles", gen_sort(c, seqs((1.5, -0.5, 2.25, 1e300), 4 if q else 6), ints=False), modes="VJ")
    c.run("lists of lists", gen_sort(c, seqs(((1, 2), (), (1,), (0, 9), (2,)), 4 if q else 5), ints=False), modes="VJ")
    c.run("sizes and shapes", gen_sort(c, shapes(range(0, 40) if q else range(0, 300))), modes="VJ", chunk=40, cpu=20)
    c.run("one element displaced", gen_sort(c, gen_pos(c, range(10, 17) if q else range(5, 30))), modes="V", cpu=20)
    c.run("large lists", gen_sort(c, shapes([100, 257] if q else [512, 513, 1000])), modes="VJ", chunk=3, cpu=60)
    c.run("records", gen_records(c, 4 if q else 6), modes="VJ")
    c.run("order of numbers", gen_cmp(c, [-2 ** 62 + 1, -2 ** 32, -2, -1, 0, 1, 2, 255, 2 ** 31 - 1, 2 ** 31, 2 ** 32, 2 ** 53, 2 ** 62 - 1, -1.5, 0.5, 1.0, 1.5, 1e-300, 1e300, -1e300]), modes="VJ")
    c.run("order of strings", gen_cmp(c, ["".join(w) for w in seqs(("a", "b", "A", "é", " "), 2 if q else 3)]), modes="VJ")
    c.run("order of long strings", gen_cmplong(c, list(range(0, 40)) + [62, 63, 64, 65, 127, 128, 129, 255, 256, 257, 1000] if q else list(range(0, 300)) + [511, 512, 513, 1023, 1024, 1025, 4096, 5000]), modes="VJ")
    flat = list(seqs((1, 2), 3))
    c.run("order of lists", itertools.chain(gen_cmp(c, flat), gen_cmp(c, list(seqs(("a", "b", "ab"), 2))), gen_cmp(c, list(seqs(((), (1,), (1, 2), (2,)), 2)))), modes="VJ")
    kinds = [None, True, False, 0, 1, -1, 5, 2.5, -0.5, "", "a", "nil", "true", "5", "-1", "0", (), (1,)]
    c.run("order between kinds", gen_kinds(c, kinds), modes="VJC")
    c.run("order by identity", gen_identity(c, [1, 2, 3, 8] if q else [1, 2, 3, 4, 8, 13, 40]), modes="VJ", cpu=20)
    c.run("order by identity, collections", gen_identity(c, [3]), modes="VJ", gc="a", cpu=20)
    c.run("bsearch of integers", gen_bsearch(c, list(itertools.combinations((-5, -1, 0, 1, 2, 3, 7, 70000), 4)) + [range(n) for n in range(0, 30)] + [range(-n, 3 * n, 3) for n in range(40)], "int"), modes="VJ")
    c.run("bsearch of strings", gen_bsearch(c, list(itertools.combinations(("a", "b", "ab", "ba", "c", "x", "é"), 3)) + [["s%d" % i for i in range(n)] for n in range(0, 40)], "str"), modes="VJ")
    c.run("bsearch in long lists", gen_bsizes(c, list(range(30, 140, 7 if q else 1)) + [255, 256, 257, 1000, 65535, 65537, 70000]), modes="V" if q else "VJ", chunk=8, cpu=60)
    c.run("comparison blocks", gen_custom(c, 3 if q else 5), modes="VJ")
