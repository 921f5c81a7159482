"""C25: what is defined on a kind is found from every value of it, and what a value says about itself is so."""
import vp
import itertools
from vp import fmt, Raw

# the chain of kinds of each receiver; A, B: classes, B derived from A; a, b, o: objects
UP = {"Number": "Object", "String": "Object", "Bytes": "Object", "NilKind": "Object", "Boolean": "Object",
      "Tuple": "Object", "Table": "Object", "Lick": "Object", "Closure": "Object", "Error": "Object", "File": "Object", "Object": "Lobby",
      "Mixin": "Lobby", "A": "Object", "B": "A", "O": "Object", "A meta": "Mixin", "B meta": "Mixin", "O meta": "Mixin",
      "Number meta": "Mixin", "String meta": "Mixin", "Lobby": None}
SETUP = ("A = class(x): /x = x.\nB = A class(y): /y = y.\nO = class(x): /x = x.\na = A(1)\nb = B(2)\no = O(3)\nk = [t 'u'](0)\n"
         "by = 'ab' bytes\nw = (1, 2)\nh = (1='x')\n")
RECV = [("1", "Number"), ("-3", "Number"), ("2.5", "Number"), ("'ab'", "String"), ("''", "String"), ("by", "Bytes"), ("nil", "NilKind"),
        ("true", "Boolean"), ("false", "Boolean"), ("w", "Tuple"), ("()", "Tuple"), ("h", "Table"), ("k", "Lick"), ("a", "A"), ("b", "B"),
        ("o", "O"), ("A", "A meta"), ("B", "B meta"), ("Number", "Number meta"), ("String", "String meta")]
HEAP = {"2.5", "'ab'", "''", "by", "w", "()", "h", "k", "a", "b", "o"}
KINDS = ["Number", "String", "Bytes", "NilKind", "Boolean", "Tuple", "Table", "Lick", "Object", "Lobby", "A", "B", "O", "Mixin", "Error", "File"]
TARGETS = ["Number", "String", "Bytes", "NilKind", "Boolean", "Tuple", "Table", "Lick", "Object", "Lobby", "Mixin", "A", "B", "O", "A meta", "B meta",
           "Number meta"]
# what is built in, of the names used here
BUILTIN = {"length": {"String", "Bytes", "Tuple", "Table"}, "abs": {"Number"}, "first": {"Tuple"}, "put": {"Tuple", "Table"},
           "chr": {"Number"}, "append": {"Bytes", "Tuple"}, "eval": {"String"}, "name": {"Lick"}, "size": {"Object"},
           "string": {"Number", "String", "Bytes", "Boolean", "Tuple", "Table", "Lick", "Object", "Lobby", "Closure", "Error", "File"},
           "kind": {"Lobby"}, "meta": {"Mixin"}}


def chain(k):
    while k:
        yield k
        k = UP[k]


def find(defs, k, m):
    for x in chain(k):
        if (x, m) in defs:
            return defs[x, m]
    return None


def builtin(k, m):
    return any(x in BUILTIN[m] for x in chain(k))


# a place to define on, spelled in every way
def spell(t):
    yield t
    for r, k in RECV:
        if k == t:
            if not k.endswith("meta"):
                yield r + " kind"
            break
    if t == "A":
        yield "B parent"
    if t == "Object":
        yield "O parent"
        yield "Number parent"


def op_src(t, form, name, tag):
    if form == "fn":
        return "%s %s = (): %s." % (t, name, fmt(tag)) if " " not in t or t.endswith(("meta", "kind", "parent")) else None
    if form == "fnx":
        return "%s %s = (q): (%s, q)." % (t, name, fmt(tag))
    if form == "const":
        return "%s %s = %s" % (t, name, fmt(tag))
    if form == "self":
        return "%s %s = (): (%s, self kind)." % (t, name, fmt(tag))
    if form == "def":
        return "%s def ('%s', (): %s.)" % (t, name, fmt(tag))
    if form == "defc":
        return "%s def ('%s', %s)" % (t, name, fmt(tag))


class Cls(str):
    pass


def value(d, recv, kind):
    if d is None:
        return None
    form, tag = d
    if form == "fnx":
        return [tag, None]
    if form == "self":
        return [tag, Raw('<class "%s">' % kind if not kind.endswith("meta") else '<class "Mixin">')]
    return tag


def observe(defs, names, recvs):
    src, exp = [], []
    for m in names:
        l, e = [], []
        for r, k in recvs:
            d = find(defs, k, m)
            if m in BUILTIN and d is None:
                continue
            if m in BUILTIN:
                # a built in nearer than what was defined here stays
                near = None
                for x in chain(k):
                    if (x, m) in defs or x in BUILTIN[m]:
                        near = x
                        break
                if (near, m) not in defs:
                    l.append("%s can ('%s')" % (r, m))
                    e.append(True)
                    continue
            v = value(d, r, k)
            l += ["%s %s" % (r, m), "%s can ('%s')" % (r, m), "%s ?%s" % (r, m)]
            e += [v, d is not None, d is not None]
            if d is None:
                l.append("%s ?%s ()" % (r, m))
                e.append(None)
            elif d[0] == "fnx":
                l.append("%s %s (7)" % (r, m))
                e.append([d[1], 7])
                l.append("%s ?%s (8)" % (r, m))
                e.append([d[1], 8])
            else:
                if d[0] != "self":      # () would index the list the method gives
                    l.append("%s ?%s ()" % (r, m))
                    e.append(v)
        src.append("(" + ", ".join(l) + ")")
        exp.append(e)
    return "(" + ", ".join(src) + ")", exp


def gen_open(c, depth, forms, names, targets, spellings, mid=True, recvs=RECV):
    ops = [(s, t, f, m) for t in targets for s in (spell(t) if spellings else (t,)) for f in forms for m in names]
    for n in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=n):
            defs, lines, exp = {}, [], []
            for i, (s, t, f, m) in enumerate(seq):
                c.trans()
                tag = 1000 * (i + 1) + targets.index(t)
                src = op_src(s, f, m, tag)
                defs[t, m] = (f, tag)
                lines.append(src)
                if mid or i == n - 1:
                    o, e = observe(defs, names, recvs)
                    lines.append("r%d = %s" % (i, o))
                    exp.append(e)
            c.state(tuple(sorted((k, v[0]) for k, v in defs.items())))
            keep = [i for i in range(n) if mid or i == n - 1]
            own = []
            for r, t in (("a", "A"), ("b", "B"), ("o", "O")):
                own.append(sorted(m for (x, m) in defs if x == t))
            lines.append("(%s, %s)" % (", ".join("r%d" % i for i in keep), ", ".join("%s methods keys, %s methods length" % (r, r) for r in "abo")))
            yield SETUP + "\n".join(lines), fmt(exp + [x for ks in own for x in (Raw("%KEYS" + fmt(ks)), len(ks))]), seq


def fix_keys(g):
    """keys come in hash order: at most one name per class is asked for."""
    for p, e, t in g:
        yield p, e.replace("%KEYS", ""), t


# ---- many names, all kinds of values, one function on several kinds ----
CONSTS = [("nil", None), ("true", True), ("false", False), ("0", 0), ("'s'", "s"), ("''", ""), ("(1, 'x')", [1, "x"]), ("()", []), ("2.5", 2.5)]


def gen_many(c, sizes, targets):
    for t in targets:
        rs = [r for r, k in RECV if t in chain(k)]
        for n in sizes:
            for kind in ("const", "fn"):
                c.trans(n)
                c.state((t, n, kind))
                src, exp = SETUP, []
                for i in range(n):
                    src += op_src(t, kind, "m%dx" % i, i + 1) + "\n"
                for r in rs[:1] + rs[-1:]:
                                    exp.append([i + 1 for i in range(n)] + [True] * n + [False, None])
                src += "(%s)" % ", ".join("(%s)" % ", ".join(["%s m%dx" % (r, i) for i in range(n)] + ["%s can ('m%dx')" % (r, i) for i in range(n)]
                                                             + ["%s can ('m%dx')" % (r, n), "%s m%dx" % (r, n)]) for r in rs[:1] + rs[-1:])
                yield src, fmt(exp), (t, n, kind)


def gen_consts(c):
    for t in TARGETS:
        rs = [r for r, k in RECV if t in chain(k)]
        ns = [r for r, k in RECV if t not in chain(k)]
        for a, (s, v) in enumerate(CONSTS):
            for b, (s2, v2) in enumerate(CONSTS):
                c.trans(2)
                c.state((t, a, b))
                src = SETUP + "%s m = %s\n%s n = %s\n" % (t, s, t, s2)
                src += "(%s)" % ", ".join(["%s m" % r for r in rs] + ["%s n" % r for r in rs] + ["%s m" % r for r in ns]
                                          + ["%s can ('m')" % r for r in rs] + ["%s can ('n')" % r for r in ns])
                yield src, fmt([v] * len(rs) + [v2] * len(rs) + [None] * len(ns) + [True] * len(rs) + [False] * len(ns)), (t, s, s2)


def gen_shared(c):
    """one function under names of several kinds: self is the value it is called on."""
    show = {k: Raw('<class "%s">' % ("Mixin" if k.endswith("meta") else k)) for r, k in RECV}
    for t, u in itertools.product(TARGETS, repeat=2):
        for m, n in (("m", "m"), ("m", "n")):
            c.trans(2)
            c.state((t, u, m, n))
            defs = {(t, m), (u, n)}
            l, e = [], []
            for r, k in RECV:
                for x in sorted({m, n}):
                    got = any((y, x) in defs for y in chain(k))
                    l.append("%s %s" % (r, x))
                    e.append([5, show[k]] if got else None)
            yield SETUP + "z = 5\nf = (): (z, self kind).\n%s %s = f\n%s %s = f\n(%s)" % (t, m, u, n, ", ".join(l)), fmt(e), (t, u, m, n)


# ---- kinds ----
def gen_kinds(c):
    for r, k in RECV:
        c.trans(4)
        c.state(r)
        shown = "Mixin" if k.endswith("meta") else k
        own = [x for x in chain(shown)]
        l = ["%s kind" % r] + ["%s kind == %s" % (r, x) for x in KINDS] + ["%s isa? (%s)" % (r, x) for x in KINDS]
        e = [Raw('<class "%s">' % shown)] + [x == shown for x in KINDS] + [x == shown for x in KINDS]
        if not k.endswith("meta"):
            l += ["%s subclass? (%s)" % (r, x) for x in KINDS]
            e += [x == shown or (r in HEAP and x in own) for x in KINDS]
            for x in ("2", "nil", "'A'", "w", "a", "2.5"):
                # no class: an error, not a crash
                l += ["%s isa? (%s) kind" % (r, x), "%s subclass? (%s) kind" % (r, x)]
                e += [Raw('<class "Error">')] * 2
            if r not in HEAP:
                l.append("%s size" % r)
                e.append(8)
        l += ["%s parent" % (r if not k.endswith("meta") else r)]
        e += [Raw('<class "%s">' % UP[k if not k.endswith("meta") else r])]
        for m in BUILTIN:
            l += ["%s can ('%s')" % (r, m), "%s ?%s" % (r, m)]
            e += [builtin(k, m)] * 2
        yield SETUP + "(" + ", ".join(l) + ")", fmt(e)
    for n in list(range(0, 40)) + [255, 256, 4095, 4096]:
        # a list or string of any length has the parent of its kind
        yield "('%s' parent, (%s) parent)" % ("x" * n, ", ".join(["0"] * n)), fmt([Raw('<class "Object">')] * 2)


def gen_parent_len(c, lens):
    for n in lens:
        c.trans()
        c.state(n)
        yield "s = 'x' bytes\nwhile (s length < %d): s append ('y').\nt = s string\n(t length, t parent, t kind, s parent)" % n, \
            fmt([n, Raw('<class "Object">'), Raw('<class "String">'), Raw('<class "Object">')])


# ---- signatures ----
PLAIN = [("", None), ("=N", None), ("=S", None), ("=o", None), ("=D", None)]
DEFS = [(":=%s" % s, v) for s, v in (("3", 3), ("-1", -1), ("'x'", "x"), ("nil", None), ("true", True), ("2.5", 2.5), ("46", 46), ("58", 58), ("124", 124), ("46.0", 46.0))]


def show(v):
    return "nil" if v is None else ("true" if v else "false") if isinstance(v, bool) else str(v)


def gen_sigs(c, maxn, plain, defs):
    for n in range(0, maxn + 1):
        for ks in itertools.product(plain + defs, repeat=n):
            isdef = [k[0].startswith(":=") for k in ks]
            bars = [None]
            bars += [b for b in range(1, n) if not any(isdef[:b])]
            for bar in bars:
                names = "pqrst"[:n]
                parts, text = "", ""
                for i, (k, nm) in enumerate(zip(ks, names)):
                    sep = "" if i == 0 else "|" if i == bar else ", "
                    parts += sep + nm + k[0]
                    text += sep.strip() + nm + (":=" + show(k[1]) if isdef[i] else k[0])
                req = bar if bar is not None else isdef.index(True) if any(isdef) else n
                c.trans()
                c.state(parts)
                for where, call in (("f = (%s): 1.\nf", "%s"), ("K = class: /z = 1.\nK m = (%s): 1.\nK() kind methods", None)):
                    if call is None:
                        continue
                    pre = where % parts
                    l, r = pre.rsplit("\n", 1)
                    yield l + "\n(%s arity, %s minargs, %s string)" % (r, r, r), fmt([n, req, "function(%s)" % text]), parts


# ---- what the system itself calls ----
VALS = {"Number": ["0", "1", "2", "3", "4", "5", "-1", "7", "9", "10"],
        "Boolean": ["true", "false"], "NilKind": ["nil"], "Tuple": ["()", "(1, 2)"], "Table": ["(1=2)"], "Lick": ["k"], "A": ["a", "b"], "B": ["b"], "O": ["o"],
        "Object": ["a", "b", "o"], "Function": ["nop"]}
OPS = ["+", "-", "*", "/", "%", "<<", ">>"]


def gen_called(c):
    """methods defined here that the system calls: string for every way to make text, cmp to sort, the operators. Each sees the value it is called on."""
    for kind, vals in VALS.items():
        pre = SETUP + "nop = (): 0.\nvs = ()\n%s\nseen = ()\n" % "\n".join("vs push (%s)" % v for v in vals)
        same = "".join("r = r + |if (seen (%d) == vs (%d)): 'y'. else: 'n'..\n" % (i, i) for i in range(len(vals)))
        txt = {"print": "vs (%d) print\n", "say": "vs (%d) say\n", "list": "r = r + (vs (%d), 0) string\n",
               "string": "r = r + vs (%d) string\n", "table": "r = r + ('k'=vs (%d)) string\n", "join": "r = r + (vs (%d), 'x') join ('-')\n"}
        for how, t in txt.items():
            for sig in ("", "x"):
                if how in ("print", "say") and kind == "Tuple":
                    continue  # a list prints its elements
                if how in ("list", "join", "table") and kind in ("Tuple", "Table", "Object", "Lobby"):
                    continue
                z = "0" if kind != "Number" else "S"
                one = {"print": "", "say": "", "list": "(S, %s)" % z, "string": "S", "table": "(k=S)", "join": "S-x"}[how]
                if kind == "NilKind":
                    one = {"list": "(nil, 0)", "table": "(k=nil)", "join": "nil-x"}.get(how, one)
                ncall = 0 if kind == "NilKind" and how in ("list", "table", "join") else 1
                two = 2 if how == "list" and z == "S" else 1
                src = pre + "%s string = (%s): seen push (self)\n 'S'.\nr = ''\n" % (kind, sig)
                src += "".join(t % i for i in range(len(vals)))
                out = one * len(vals)
                if ncall:
                    src += "".join("r = r + |if (seen (%d) == vs (%d)): 'y'. else: 'n'..\n" % (i * two, i) for i in range(len(vals)))
                    out += "y" * len(vals)
                c.trans(len(vals))
                c.state((kind, how, sig))
                yield src + "(r, seen length)", fmt([out, ncall * two * len(vals)]) + ("|" + "S" * len(vals) if how == "print" else "|" + "S\n" * len(vals) if how == "say" else ""), (kind, how, sig)
        if kind in ("Number", "Object"):
            continue
        for op in OPS:
            c.trans(len(vals))
            c.state((kind, op))
            src = pre + "%s def ('%s', (x): seen push (self)\n x.)\nr = ''\n" % (kind, op)
            src += "z = (%s)\n" % ", ".join("vs (%d) %s %d" % (i, op, i + 5) for i in range(len(vals))) + same
            yield src + "(z, r, seen length)", fmt([[i + 5 for i in range(len(vals))], "y" * len(vals), len(vals)]), (kind, op)


def gen_code(c, n):
    """the code of a function, its clone and the clone of it are called like the function"""
    fs = [("(): 7.", [], 7), ("(a): a + 7.", [3], 10), ("(a, b): a * 10 + b.", [3, 4], 34), ("(a, b, c): (c, b, a).", [1, 2, 3], (3, 2, 1)),
          ("(a):\n b = a + 1\n b * b.", [6], 49), ("(a):\n g = (x): x * 3.\n g(a) + g(1).", [5], 18),
          ("(a):\n if (a > 2): 'big'. else: 'small'.\n.", [2], "small"), ("(a):\n i = 0\n while (i < a): i = i + 1.\n i * 2.", [9], 18),
          ("(a=N, b='k'): a.", [8, 1], 8), ("(a=N|b=N): a - b.", [8, 1], 7), ("(): (1000000, 'words', 2.5, true, nil, 'w' length).", [], (1000000, "words", 2.5, True, None, 1)),
          ("(o): o /x + 1.", ["C()"], 42), ("(a): a map (x): x + 1..", ["(1, 2)"], (2, 3)),
          ("(a):\n g = ():\n  h = (): a * 2.\n  h() + 1.\n g() + 1.", [4], 10), ("(a, b): a + b.", ["'x'", "'y'"], "xy")]
    for k in range(1, n + 1):
        ps = ["p%d" % i for i in range(k)]
        fs.append(("(%s): (%s)." % (", ".join(ps), ", ".join(ps + ["0"])), list(range(k)), tuple(range(k)) + (0,)))
        fs.append(("():\n%s (%s, 0)." % ("".join(" v%d = 'c%d'\n" % (i, i) for i in range(k)), ", ".join("v%d" % i for i in range(k))), [], tuple("c%d" % i for i in range(k)) + (0,)))
        fs.append(("():\n%s (%s, 0)." % ("".join(" f%d = (x): x + %d.\n" % (i, i) for i in range(k)), ", ".join("f%d(100)" % i for i in range(k))), [], tuple(100 + i for i in range(k)) + (0,)))
    for src, args, v in fs:
        a = [str(x) for x in args]
        pre = "C = class: /x = 41.\nf = %s\nl = ()\n" % src + "".join("l push(%s)\n" % x for x in a)
        p = pre + "k = f code clone\n(f code call(l), k call(l), k clone call(l), k string == f code string, k kind == f code kind, f(%s))" % ", ".join(a)
        c.state(p)
        c.trans(6)
        yield p, vp.fmt((v, v, v, True, True, v))
        # the function goes on as it was, after its clone is used
        p = pre + "k = f code clone\nx = k call(l)\ny = f(%s)\n(x, y, k call(l), f code call(l))" % ", ".join(a)
        yield p, vp.fmt((v, v, v, v))


def gen_send(c):
    """send calls the method of that name, as the message does; there is none: nil"""
    cls = "A = class: /x = 'ax'.\nA m = (): 'am'.\nA n = (): (/x, 'an').\nB = A class: /y = 'by'.\nB m = (): 'bm'.\nB k = 12\nO = Object class: /x = 'ox'.\nObject om = (): 'om'.\n"
    res = {("A", "m"): "am", ("A", "n"): ("ax", "an"), ("B", "m"): "bm", ("B", "k"): 12, ("O", "om"): "om", ("A", "om"): "om", ("B", "om"): "om"}
    for k in "ABO":
        for m in ("m", "n", "k", "om", "zz"):
            v = res.get((k, m))
            if (k, m) == ("B", "n"):
                continue        # its x is not set by the constructor of B
            for pre, w in ((cls, "%s() send('%s')" % (k, m)), (cls + "o = %s()\nw = '%s'\n" % (k, m), "o send(w)"),
                           (cls + "o = %s()\n" % k, "o send('%s' + '%s')" % (m[:1], m[1:])), (cls + "o = %s()\nf = (a, b): a send(b).\n" % k, "f(o, '%s')" % m),
                           (cls + "o = %s()\n" % k, "('%s',) map (b): o send(b)." % m)):
                e = (v,) if "map" in w else v
                p = pre + "(%s, 5)" % w
                c.state(p)
                c.trans(1)
                yield p, vp.fmt((e, 5))


def explore(c):
    c.run("code and its clones", gen_code(c, 40 if c.quick else 200), modes="VJ")
    c.run("clones at every collection", list(gen_code(c, 2))[::2], modes="VJ", gc="aA", cpu=20)
    c.run("send", gen_send(c), modes="VJCD")
    c.run("methods the system calls", gen_called(c), modes="VJ")
    deep = not c.quick
    c.run("kinds", gen_kinds(c), modes="VJ")
    c.run("parent of long strings", gen_parent_len(c, [249999, 250000, 250001, 250002, 250003, 250005, 250008, 250009, 250018, 250030, 262144]), modes="VJ")
    c.run("one definition", fix_keys(gen_open(c, 1, ["fn", "fnx", "const", "self", "def", "defc"], ["m"], TARGETS, True)), modes="VJCD")
    c.run("one definition of a built-in name", fix_keys(gen_open(c, 1, ["fn", "const", "def"], ["length"], [t for t in TARGETS if t not in BUILTIN["length"]], False)), modes="VJ")
    c.run("built-in names redefined", fix_keys(gen_open(c, 1, ["fn", "const", "def"], ["abs"], TARGETS, False)), modes="VJ")
    c.run("two definitions", fix_keys(gen_open(c, 2, ["fn", "const"] + (["def", "self", "fnx", "defc"] if deep else []), ["m"], TARGETS, False, mid=True)), modes="VJ")
    t3 = TARGETS if deep else ["Number", "Object", "Lobby", "Mixin", "A", "B", "A meta"]
    c.run("three definitions", fix_keys(gen_open(c, 3, ["fn"], ["m"], t3, False)), modes="VJ")
    c.run("many names", gen_many(c, range(1, 41) if not deep else range(1, 200), ["Number", "Lobby", "Tuple", "A", "O"]), modes="VJ")
    c.run("constants of every kind", gen_consts(c), modes="VJ" if not deep else "VJCD")
    c.run("one function on several kinds", gen_shared(c), modes="VJ")
    c.run("signatures", gen_sigs(c, 3 if deep else 2, PLAIN, DEFS), modes="VJD")
    c.run("longer signatures", gen_sigs(c, 5 if deep else 4, PLAIN[:2], DEFS[:1]), modes="VJD")
