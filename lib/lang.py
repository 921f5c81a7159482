"""A statement language over a fixed environment, with its reference semantics, for enumerating whole programs.

Every template is (name, potion source, python function on the environment); a program is a sequence of templates in a
context (top level, function, arguments, captured variables, method, loop, iterator block) with some unused variables in front."""
from vp import Ref, fmt, quote
import sem


class Env:
    __slots__ = ("i", "d", "s", "l", "t", "b", "f", "o")

    def __init__(self):
        self.i, self.d, self.s, self.b = 2, 0.5, "ab", None
        self.l, self.t = Ref("list", [1, "z"]), Ref("table", [["k", 1]])
        self.f = lambda x: sem.binop("+", x, 1)
        self.o = [5]

    def canon(self):
        return fmt((self.i, self.d, self.s, self.l, self.t, self.b, self.f(1), self.o[0]))


def truth(v):
    return v is not None and v is not False


def tput(t, k, v):
    for e in t.v:
        if type(e[0]) is type(k) and e[0] == k:
            e[1] = v
            return
    t.v.append([k, v])


def tget(t, k):
    for e in t.v:
        if type(e[0]) is type(k) and e[0] == k:
            return e[1]
    return None


INIT = ["i = 2", "d = 0.5", "s = 'ab'", "l = (1, 'z')", "t = (k=1)", "b = nil", "f = (x): x + 1.", "o = C(5)"]
CLASS = "C = class(v): /v = v.\nC get = (): /v.\nC set = (x): /v = x.\nC inc = (): /v = /v + 1."
OUT = "(i, d, s, l, t, b, f(1), o get)"


def S(name, fn):
    def g(e):
        setattr(e, name, fn(e))
    return g


def add(a, b):
    return sem.binop("+", a, b)


def _t(src, fn):
    return (src, fn)


def ifelse(e):
    e.i = 7 if truth(e.b) else add(e.i, -7)


def ifchain(e):
    if e.i > 2:
        e.l.v.append(1)
    elif truth(e.b):
        e.l.v.append(2)
    else:
        e.l.v.append(3)


def ifif(e):
    if truth(e.b):
        if e.i > 2:
            e.s = e.s + "x"
        e.i = add(e.i, 1)


def wh(e):
    while e.i < 5:
        e.i = add(e.i, 1)
        e.l.v.append(e.i)


def lp(e):
    n = 0
    while True:
        n += 1
        if n > 3:
            break
        if n == 2:
            continue
        e.i = add(e.i, n)


def cap(e):
    k = e.i
    e.f = lambda x: add(x, k)


def wr(e):
    def f(x):
        e.i = add(e.i, x)
        return e.i
    e.f = f


def nest(e):
    e.f = lambda x: add(x, len(e.s))


def times(e):
    for j in range(2):
        e.l.v.append(add(j, e.i))


def to(e):
    for j in range(1, 4):
        e.i = add(e.i, j)


def each(e):
    n = 0
    for x in list(e.l.v):
        n += 1
    e.i = n


def keep(e):
    e.l = Ref("list", list(e.l.v))


def lpop(e):
    e.b = e.l.v.pop() if e.l.v else None


def oset(e):
    e.o[0] = e.i


def onew(e):
    e.o = [e.i]


def oinc(e):
    e.o[0] = add(e.o[0], 1)


def swap(e):
    k = e.i
    e.i = e.o[0]
    e.o[0] = k


def fib(e):
    def g(n):
        return n if n < 2 else g(n - 1) + g(n - 2)
    e.i = g(7)


TEMPLATES = [
    _t("i = i + 1", S("i", lambda e: add(e.i, 1))),
    _t("i += 2", S("i", lambda e: add(e.i, 2))),
    _t("i++", S("i", lambda e: add(e.i, 1))),
    _t("i = i * 3 - 1", S("i", lambda e: add(sem.binop("*", e.i, 3), -1))),
    _t("i = 0 - i", S("i", lambda e: sem.binop("-", 0, e.i))),
    _t("d = d * 2.5", S("d", lambda e: sem.binop("*", e.d, 2.5))),
    _t("d = i + d", S("d", lambda e: add(e.i, e.d))),
    _t("s = s + 'é'", S("s", lambda e: e.s + "é")),
    _t("s = s slice(1, 3)", S("s", lambda e: e.s[1:3])),
    _t("i = s length", S("i", lambda e: len(e.s))),
    _t("l push(i)", lambda e: e.l.v.append(e.i)),
    _t("l push(s)", lambda e: e.l.v.append(e.s)),
    _t("l put(0, i)", lambda e: e.l.v.__setitem__(slice(0, 1), [e.i]) if e.l.v else e.l.v.append(e.i)),
    _t("l = l clone", keep),
    _t("b = l pop", lpop),
    _t("b = l(0)", S("b", lambda e: e.l.v[0] if e.l.v else None)),
    _t("i = l length", S("i", lambda e: len(e.l.v))),
    _t("t put(s, d)", lambda e: tput(e.t, e.s, e.d)),
    _t("t('k') = i", lambda e: tput(e.t, "k", e.i)),
    _t("b = t at('k')", S("b", lambda e: tget(e.t, "k"))),
    _t("b = i > 2", S("b", lambda e: e.i > 2)),
    _t("b = s == 'ab'", S("b", lambda e: e.s == "ab")),
    _t("b = not b", S("b", lambda e: not truth(e.b))),
    _t("b = |b and i.", S("b", lambda e: e.i if truth(e.b) else e.b)),
    _t("b = |b or s.", S("b", lambda e: e.b if truth(e.b) else e.s)),
    _t("if (b): i = 7. else: i = i - 7.", ifelse),
    _t("if (i > 2): l push(1). elsif (b): l push(2). else: l push(3).", ifchain),
    _t("if (b):\n  if (i > 2): s = s + 'x'.\n  i = i + 1.", ifif),
    _t("while (i < 5): i++, l push(i).", wh),
    _t("n = 0\nloop: n++, if (n > 3): break.\n if (n == 2): continue.\n i = i + n.", lp),
    _t("k = i\nf = (x): x + k.", cap),
    _t("f = (x): i = i + x, i.", wr),
    _t("f = (x): g = (y): y + s length.\n g(x).", nest),
    _t("i = f(i)", S("i", lambda e: e.f(e.i))),
    _t("d = f(d)", S("d", lambda e: e.f(e.d))),
    _t("o set(i)", oset),
    _t("o = C(i)", onew),
    _t("o inc", oinc),
    _t("i = o get", S("i", lambda e: e.o[0])),
    _t("z = i, i = o get, o set(z)", swap),
    _t("2 times (j): l push(j + i).", times),
    _t("1 to(3, (j): i = i + j.)", to),
    _t("n = 0\nl each (x): n++.\ni = n", each),
    _t("h = (n): if (n < 2): n. else: h(n - 1) + h(n - 2)..\ni = h(7)", fib),
    _t("l = (i, (d, s), (a=i, 2=s))", S("l", lambda e: Ref("list", [e.i, Ref("list", [e.d, e.s]), Ref("table", [["a", e.i], [2, e.s]])]))),
    _t("h = (a, c:=4): a + c.\ni = h(i) + h(i, 1)", S("i", lambda e: add(add(e.i, 4), add(e.i, 1)))),
]


def ind(lines, n):
    return "\n".join(" " * n + x for l in lines for x in l.split("\n"))


def context(ctx, stmts, pad):
    """potion source of a program whose value is OUT"""
    p = ["p%d = %d" % (j, j * 11) for j in range(pad)]
    chk = OUT if not pad else OUT[:-1] + ", " + " + ".join("p%d" % j for j in range(pad)) + ")"
    if ctx == "top":
        b = p + INIT + stmts + [chk]
        return CLASS + "\n" + ind(b, 0)
    if ctx == "function":
        return CLASS + "\nmain = ():\n" + ind(p + INIT + stmts + [chk], 2) + ".\nmain()"
    if ctx == "arguments":
        return CLASS + "\nmain = (i, d, s, l, t, b, f, o):\n" + ind(p + stmts + [chk], 2) + \
            ".\nmain(2, 0.5, 'ab', (1, 'z'), (k=1), nil, (x): x + 1., C(5))"
    if ctx == "captured":
        return CLASS + "\nmain = ():\n" + ind(p + INIT, 2) + "\n  k = nil, n = nil, h = nil\n  body = ():\n" + ind(stmts, 4) + "\n    1.\n  body()\n  " + chk + ".\nmain()"
    if ctx == "method":
        return CLASS + "\nM = class: /z = 1.\nM run = (i, d):\n" + ind(p + [INIT[2]] + INIT[3:] + stmts + [chk], 2) + ".\nM() run(2, 0.5)"
    if ctx == "loop":
        return CLASS + "\n" + ind(p + INIT, 0) + "\nonce = 0\nwhile (once < 1):\n" + ind(stmts, 2) + "\n  once++.\n" + chk
    if ctx == "block":
        return CLASS + "\nmain = ():\n" + ind(p + INIT, 2) + "\n  k = nil, n = nil, h = nil\n  1 times (once):\n" + ind(stmts, 4) + "\n    1.\n  " + chk + ".\nmain()"
    raise ValueError(ctx)


CONTEXTS = ("top", "function", "arguments", "captured", "method", "loop", "block")


def program(ctx, seq, pad, c=None):
    e = Env()
    for src, fn in seq:
        fn(e)
        if c:
            c.trans()
            i = e.i
            c.state(e.canon())
            e.i = i     # f may have written it
    r = e.canon()
    if pad:
        r = r[:-1] + ",%d)" % sum(j * 11 for j in range(pad))
    return context(ctx, [s for s, _ in seq], pad), r


# ---- programs with n of everything: operand widths, register numbers, jump distances, frame sizes ----
def scale(n):
    """(name, source, expected value) for one size n >= 1"""
    V = range(n)
    j = ", ".join
    yield "locals", "\n".join("v%d = %d" % (i, i * 3) for i in V) + "\n(" + j("v%d" % i for i in V) + ", 0)", tuple(i * 3 for i in V) + (0,)
    yield "function locals", "f = (x):\n" + "\n".join(" v%d = x + %d" % (i, i) for i in V) + "\n (" + j("v%d" % i for i in V) + ", x).\nf(5)", \
        tuple(i + 5 for i in V) + (5,)
    yield "captured", "f = (x):\n" + "\n".join(" v%d = x + %d" % (i, i) for i in V) + "\n g = (y): " + j("v%d = v%d + y" % (i, i) for i in V) + \
        ".\n g(10)\n (" + j("v%d" % i for i in V) + ", x).\nf(5)", tuple(i + 15 for i in V) + (5,)
    yield "constants", "(" + j("'k%d'" % i for i in V) + ", 0)", tuple("k%d" % i for i in V) + (0,)
    yield "integers", "(" + j(str(i * 1000003) for i in V) + ", 0)", tuple(i * 1000003 for i in V) + (0,)
    yield "doubles", "(" + j("%d.5" % i for i in V) + ", 0)", tuple(i + .5 for i in V) + (0,)
    yield "functions", "\n".join("f%d = (x): x + %d." % (i, i) for i in V) + "\n(" + j("f%d(1)" % i for i in V) + ", 0)", tuple(i + 1 for i in V) + (0,)
    yield "methods", "C = class: /v = 2.\n" + "\n".join("C m%d = (x): /v + x + %d." % (i, i) for i in V) + "\nc = C()\n(" + \
        j("c m%d(1)" % i for i in V) + ", 0)", tuple(i + 3 for i in V) + (0,)
    yield "fields", "C = class: " + j("/v%d = %d" % (i, i) for i in V) + ".\nC sum = (): (" + j("/v%d" % i for i in V) + ", 0).\nC() sum", tuple(V) + (0,)
    yield "table", "(" + j("k%d=%d" % (i, i) for i in V) + ")", {"k%d" % i: i for i in V}
    yield "strings", " + ".join("'x%d'" % i for i in V) + " + 'z'", "".join("x%d" % i for i in V) + "z"
    yield "chain", "x = 1\n" + " + ".join("x" for i in V) + " + 0", n
    yield "if body", "x = 0\n2 times (k):\n if (k == 1):\n" + "\n".join("  x = x + %d" % (i + 1) for i in V) + \
        ".\n else:\n  x = x + 1000000.\n 1.\nx", 1000000 + sum(i + 1 for i in V)
    yield "loop body", "x = 0\nk = 0\nwhile (k < 2):\n k++\n if (k == 3): break.\n" + "\n".join("  x = x + %d" % (i + 1) for i in V) + ".\nx", \
        2 * sum(i + 1 for i in V)
    yield "elsif", "f = (x): if (x == 0): 'z'.\n" + "\n".join(" elsif (x == %d): 'e%d'." % (i + 1, i) for i in V) + " else: 'no'..\n(f(0), f(1), f(%d), f(%d))" % (n, n + 1), \
        ("z", "e0", "e%d" % (n - 1), "no")
    yield "and or", "f = (x): |" + " or ".join("x == %d" % i for i in V) + "..\n(f(0), f(%d), f(%d))" % (n - 1, n), (True, True, False)
    yield "statements", "l = ()\n" + "\n".join("l push(%d)" % i for i in V) + "\nl", tuple(V)
    yield "calls", "f = (x): x + 1.\nx = 0\n" + "\n".join("x = f(x)" for i in V) + "\nx", n
    yield "recursion", "f = (x): if (x == 0): 0. else: 1 + f(x - 1)..\nf(%d)" % n, n


def scale_small(n):
    """sizes that nest or that the language limits (n <= 60 or so)"""
    V = range(n)
    j = ", ".join
    yield "arguments", "f = (%s): (%s, 0).\nf(%s)" % (j("a%d" % i for i in V), j("a%d" % i for i in V), j(str(i * 2) for i in V)), tuple(i * 2 for i in V) + (0,)
    yield "arguments sum", "f = (%s): %s.\nf(%s)" % (j("a%d" % i for i in V), " + ".join("a%d" % i for i in V), j("f0(%d)" % i if 0 else str(i) for i in V)), sum(V)
    yield "method arguments", "C = class: /v = 1.\nC m = (%s): (%s, /v).\nC() m(%s)" % (
        j("a%d" % i for i in V), j("a%d" % i for i in V), j("'s%d'" % i for i in V)), tuple("s%d" % i for i in V) + (1,)
    yield "constructor arguments", "C = class(%s): %s.\nC get = (): (%s, 7).\nC(%s) get" % (
        j("a%d" % i for i in V), j("/v%d = a%d" % (i, i) for i in V), j("/v%d" % i for i in V), j(str(i + 3) for i in V)), tuple(i + 3 for i in V) + (7,)
    yield "captured arguments", "f = (%s): g = (): (%s, 0).\n g().\nf(%s)" % (j("a%d" % i for i in V), j("a%d" % i for i in V), j(str(i * 2) for i in V)), tuple(i * 2 for i in V) + (0,)
    yield "nested closures", "".join("f%d = (x%d): " % (i, i) for i in V) + " + ".join("x%d" % i for i in V) + "".join(
        ".\nf%d(%d)" % (i, i + 1) for i in reversed(V)), sum(i + 1 for i in V)
    yield "nested ifs", "x = 1\ny = 0\n" + "".join("if (x == 1): " for i in V) + "y = y + 1" + "".join("." for i in V) + "\ny", 1
    yield "nested parens", "x = 1\n" + "|1 + " * n + "x" + "." * n, n + 1
    yield "right nesting", "x = 1\n" + "".join("x + |" for i in V) + "x * 2" + "." * n, n + 2
    yield "nested calls", "f = (x): x + 1.\n" + "f(" * n + "0" + ")" * n, n
    if n < 14: yield "nested lists", "(" * n + "1, 2" + (")" * n), nestl(n)
    yield "nested loops", "c = 0\n" + "".join("1 times (i%d): " % i for i in V) + "c = c + 1" + "." * n + "\nc", 1
    if n <= 9:
        yield "nested loops 2", "c = 0\n" + "".join("2 times (i%d): " % i for i in V) + "c = c + 1" + "." * n + "\nc", 2 ** n


def nestl(n):
    v = (1, 2)
    for i in range(n - 1):
        v = (v,)
    return v


def gen_scale(ns, small):
    for n in ns:
        for nm, src, exp in scale(n):
            yield src, fmt(exp), (nm, n)
    for n in small:
        for nm, src, exp in scale_small(n):
            yield src, fmt(exp), (nm, n)
