"""C21: load finds the first candidate on the loader path, runs it once and gives its value."""
import itertools
import pn
from vp import fmt, Raw

PATH = ["lib/potion", "."]          # /usr/local/lib/potion, between them, is not there
EXT = [".pnb", ".pn", ".so"]


def files(d, prog):
    return "".join("\x01%s\x02%s" % kv for kv in d.items()) + "\x03" + prog


def body(tag, val=None):
    return "f = File('log', 'a')\nf write('%s;')\nf close\n%s\n" % (tag, val if val is not None else "'%s'" % tag)


def find(names, name, path=PATH):
    """names: the set of regular files. The path load takes, or None."""
    base = name.rsplit("/", 1)[-1]
    for d in path:
        p = d + "/" + name
        for q in [p] + [p + e for e in EXT] + [p + "/" + base] + [p + "/" + base + e for e in EXT]:
            if (q[2:] if q.startswith("./") else q) in names:
                return q
    return None


def loadable(q):
    return q is not None and any(q.endswith(e) for e in EXT)


def result(v, log):
    return fmt(v) + ("&log=" + fmt(log) if log else "")


def layouts(name, loc, exts, bare):
    """All sets of candidate files of one location."""
    base = name.rsplit("/", 1)[-1]
    p = (loc + "/" if loc != "." else "") + name
    outer = [p + e for e in exts]
    inner = [p + "/" + base + e for e in exts]
    for o in itertools.product((0, 1), repeat=len(outer)):
        of = {f for f, k in zip(outer, o) if k}
        yield frozenset(of)
        if bare:
            yield frozenset(of | {p})
        for i in itertools.product((0, 1), repeat=len(inner) + bare):
            if any(i):
                yield frozenset(of | {f for f, k in zip(inner + [p + "/" + base], i) if k})


def content(f, so):
    return so if f.endswith(".so") else body(f)


def lookups(c, quick):
    so = {n: pn.loadso(n) for n in ("m", "d")}
    text, lib = [], []
    for name in (["m", "d/m", "m.pn", "d", "a.b/m", "m.x", "m.pnb"] if not quick else ["m", "d/m", "m.pn", "a.b/m", "m.x"]):
        here = list(layouts(name, ".", EXT, 1))
        there = list(layouts(name, "lib/potion", EXT, 1))
        few = 1 if quick else 2
        # every layout of one place with none or few files in the other
        pairs = [(a, b) for a in here for b in there if len(a) <= few or len(b) <= few] if not quick else \
            [(a, b) for a in here for b in there if len(a) + len(b) <= 3 or len(b) == 0 or (len(a) == 1 and len(b) <= 3)]
        for a, b in pairs:
            fs = a | b
            if any(x != y and y.startswith(x + "/") for x in fs for y in fs):
                continue
            q = find(fs, name)
            soname = name.rsplit("/", 1)[-1].split(".")[0]
            val, log = None, ""
            c.state((name, fs))
            if loadable(q):
                k = q[2:] if q.startswith("./") else q
                if k.endswith(".so"):
                    if k.rsplit("/", 1)[-1].split(".")[0] not in so:
                        continue
                    log = "so"
                else:
                    val, log = k, k + ";"
            d = {f: (so.get(f.rsplit("/", 1)[-1].split(".")[0], so["m"]) if f.endswith(".so") else body(f)) for f in sorted(fs)}
            if log == "so":
                lib.append((files(d, "x = '%s'\nload(x)\n(x, so_name, 5)" % name), result((name, "so", 5), log)))
            else:
                text.append((files(d, "x = '%s'\n(load(x), x, 5)" % name), result((val, name, 5), log)))
    c.trans(len(text) + len(lib))
    c.run("lookups", text, modes="VJ", workdir=True, libs=True)
    if quick:
        lib = [l for i, l in enumerate(lib) if i % 7 == 0]
    c.run("libraries", lib, modes="V" if quick else "VJ", workdir=True, libs=True, alone=True)


# ---- directories where a file is looked for, and many loads ----
def odd(c, quick):
    cs = []
    cand = ["lib/potion/m", "lib/potion/m.pnb", "lib/potion/m.pn", "lib/potion/m/m", "lib/potion/m/m.pnb", "lib/potion/m/m.pn",
            "m", "m.pnb", "m.pn", "m/m.pn"]
    for st in itertools.product((0, 1, 2), repeat=len(cand)):
        if sum(x == 2 for x in st) > (2 if quick else 4) or sum(x == 1 for x in st) > (1 if quick else 2) or 2 not in st:
            continue
        fs = {f for f, x in zip(cand, st) if x == 1}
        ds = {f for f, x in zip(cand, st) if x == 2}
        if any(y.startswith(x + "/") for x in fs for y in fs | ds):
            continue
        q = find(fs, "m")
        v = (q[2:] if q.startswith("./") else q) if loadable(q) else None
        d = {f: body(f) for f in sorted(fs)}
        d.update({f + "/": "" for f in sorted(ds)})
        cs.append((files(d, "x = 'm'\n(load(x), x, 5)"), result((v, "m", 5), v + ";" if v else "")))
        c.state(("dirs", st))
    c.trans(len(cs))
    c.run("directories", cs, modes="V" if quick else "VJ", workdir=True, libs=True)
    cs = []
    for e in (".pn", ".pnb"):
        for n in (1, 50, 1500):
            cs.append((files({"m" + e: "Gg = Gg + 1\nGg\n"}, "Gg = 0\ni = 0\nwhile (i < %d): load('m'), i = i + 1.\nGg" % n), fmt(n)))
            cs.append((files({"m" + e: "5"}, "i = 0\nwhile (i < %d): load('none'), i = i + 1.\n(i, load('m'))" % n), fmt((n, 5))))
    c.run("many loads", cs, modes="VJ", workdir=True, libs=True, cpu=20)


# ---- histories: loads, files that come into being, a longer loader path ----
def histories(c, quick):
    ops = []

    def op(src, f):
        ops.append((src, f))

    class W:
        def __init__(self):
            self.f = {"m.pn": "m1", "d/m.pn": "d1", "e/n.pn": "n1", "lib/potion/k.pnb": "k1"}
            self.path = list(PATH)
            self.log = ""

    def load(n):
        def f(w):
            q = find(set(w.f), n, w.path)
            if not loadable(q):
                return None
            t = w.f[q[2:] if q.startswith("./") else q]
            w.log += t + ";"
            return t
        op("load('%s')" % n, f)
    for n in ("m", "d/m", "n", "k", "m.pn", "none"):
        load(n)

    def mk(p, tag):
        src = body(tag).replace("'", "\\'").replace("\n", "\\n")
        s = "mk('%s', \"%s\")" % (p, body(tag).replace("\n", "\\n"))

        def f(w):
            w.f[p] = tag
            return 0
        op(s, f)
    mk("m.pn", "m2")
    mk("lib/potion/m.pn", "m3")
    mk("n.pn", "n2")
    mk("e/m.pn", "m4")

    def push(p):
        def f(w):
            w.path.append(p)
            return 0
        op("|LOADER_PATH push('%s'), 0." % p, f)
    push("e")
    push("d")

    def unshift(w):
        w.path.insert(0, "e")
        return 0
    op("|LOADER_PATH unshift('e'), 0.", unshift)

    def shift(w):
        if w.path:
            w.path.pop(0)
        return 0
    pre = "mk = (p, s): h = File(p, 'w'), h write(s), h close, 0.\n"
    init = {"m.pn": body("m1"), "d/m.pn": body("d1"), "e/n.pn": body("n1"), "lib/potion/k.pnb": body("k1")}

    def cases(depth, wanted=None):
        for h in itertools.product(range(len(ops)), repeat=depth):
            w = W()
            out = tuple(ops[k][1](w) for k in h)
            c.state((tuple(sorted(w.f.items())), tuple(w.path), w.log))
            yield (files(init, pre + "".join("r%d = %s\n" % (i, ops[k][0]) for i, k in enumerate(h))
                         + "(" + ", ".join("r%d" % i for i in range(depth)) + ", 0)"),
                   result(out + (0,), w.log))
    for d in (1, 2, 3):
        c.trans(len(ops) ** d)
    c.run("histories", cases(2), modes="VJCD", workdir=True, libs=True)
    c.run("histories", cases(3), modes="VJ", workdir=True, libs=True)
    if not quick:
        c.trans(len(ops) ** 4)
        c.run("histories", cases(4), modes="J", workdir=True, libs=True)
    gc = list(cases(2))
    gc = gc[::11] if quick else gc
    c.run("histories under GC", gc, modes="V", gc="nMA", workdir=True, libs=True, maxk=400)


# ---- files that load files ----
def nests(c, quick):
    slots = [None, "b", "c", "n"]

    def val(name, fs, log):
        if name not in fs:
            return None
        got = []
        for s in fs[name]:
            got.append(val(s, fs, log) if s else 1)
        log.append(name)
        return tuple([name] + got)

    def src(name, ss):
        t = "l = 1\n" + "".join("s%d = %s\n" % (i, "load('%s')" % s if s else "1") for i, s in enumerate(ss))
        return t + body(name, "(%s)" % ", ".join(["'%s'" % name] + ["s%d" % i for i in range(len(ss))]))

    def cases():
        for a in itertools.product(slots, repeat=3 if not quick else 2):
            for b in itertools.product([None, "c", "n"], repeat=2):
                for ext in itertools.product((".pn", ".pnb"), repeat=3):
                    fs = {"a": a, "b": b, "c": (None,)}
                    log = []
                    v = val("a", fs, log)
                    log2 = list(log)
                    w = val("c", fs, log2)
                    yield (files({n + e: src(n, fs[n]) for (n, e) in zip("abc", ext)}, "l = 7\n(load('a'), l, load('c'))"),
                           result((v, 7, w), "".join(x + ";" for x in log2)))
    cs = list(cases())
    c.trans(len(cs))
    c.run("files that load", cs, modes="VJ", workdir=True, libs=True)


# ---- what a file can hold ----
VALUES = [("1", 1), ("'x'", "x"), ("2.5", 2.5), ("nil", None), ("true", True), ("false", False), ("1 == 2", False), ("0", 0), ("''", ""), ("()", ()), ("(1, 'a', (2,3))", (1, "a", (2, 3))),
          ("(a=1)", {"a": 1}), ("x = 3\nx * 2", 6), ("f = (x): x + 1.\nf(4)", 5), ("if (true): 1. else: 2.", 1),
          ("i = 0\nwhile (i < 9): i = i + 1.\ni", 9), ("(1,2,3) map((x): x * x.)", (1, 4, 9)),
          ("4611686018427387903", 2 ** 62 - 1), ("-7", -7), ("'é'", "é"), ('"a\\tb"', "a\tb"),
          ("return 4", 4), ("# only a comment\n5", 5), ("a = 1, b = 2, (b, a)", (2, 1))]
DEFS = [("Gg = 4", "Gg", 4), ("Gg = (x): x * 3.", "Gg(5)", 15), ("Kk = class (v): /v = v.\nKk get = (): /v.\nKk", "Kk(8) get", 8),
        ("Number twice = (): self + self.\n1", "21 twice", 42), ("Gg = (a, b:=2): a - b.", "Gg(9)", 7),
        ("n = 10\nGg = (x): n = n + x, n.\n0", "(Gg(1), Gg(1), Gg(5))", (11, 12, 17)), ("String hey = (x): (self, x).", "'q' hey(2)", ("q", 2)),
        ("Gg = (1, 2)\nGg push(3)", "|Gg push(4), Gg.", (1, 2, 3, 4))]


def contents(c, quick):
    def cases():
        for e in (".pn", ".pnb"):
            for s, v in VALUES:
                yield files({"m" + e: s}, "load('m')"), fmt(v)
                yield files({"m" + e: s + "\n"}, "a = 6\nb = load('m')\n(a, b, load('m') == nil, a)"), fmt((6, v, v is None, 6))
            for s, u, v in DEFS:
                yield files({"m" + e: s + "\n"}, "load('m')\n%s" % u), fmt(v)
                yield files({"m" + e: s + "\n"}, "f = (): load('m'), 0.\nf()\n%s" % u), fmt(v)
                yield files({"m" + e: s + "\n"}, "1 times: load('m').\n%s" % u), fmt(v)
            for n in list(range(0, 70 if quick else 300)) + [k + d for k in (255, 256, 1023, 1024, 4095, 4096, 8192, 65536)
                                                            for d in (-1, 0, 1)]:
                yield files({"m" + e: "'" + "x" * n + "' length\n"}, "load('m')"), fmt(n)
                yield files({"m" + e: "#" + "x" * n + "\n%d\n" % n}, "load('m')"), fmt(n)
        for n in (100, 500) if quick else (100, 500, 2000):
            for e in (".pn", ".pnb"):
                yield files({"m" + e: "x = 0\n" + "x = x + 1\n" * n + "x"}, "load('m')"), fmt(n)
    cs = list(cases())
    c.trans(len(cs))
    c.run("contents", cs, modes="VJCD", workdir=True, libs=True)
    g = [x for i, x in enumerate(cs) if len(x[0]) < 140]
    c.run("contents under GC", g[::9] if quick else g, modes="V", gc="nM", workdir=True, libs=True, maxk=300)


def explore(c):
    q = c.quick
    lookups(c, q)
    odd(c, q)
    histories(c, q)
    nests(c, q)
    contents(c, q)
