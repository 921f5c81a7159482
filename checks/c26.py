"""C26: an expression has its value, once, in every place it can stand."""
import itertools, re
from vp import fmt, Raw, Ref

SETUP = """log = ()
n = (x): log push (x), x.
id = (x): x.
two = (x, y): (y, x).
nop = (): 11.
blk = (x, b): (b (x), b (2)).
K = class (x): /x = x.
K get = (): /x.
K with = (y): (/x, y).
K put = (y): /x = y, 8.
v = 3
l = (4, 5, 6)
s = 'abc'
t = (7=8)
ts = ('k'=8)
o = K(9)
ix = 2
"""


class Undef(Exception):
    pass


class Obj:
    def __init__(self, x):
        self.x = x


class Env:
    def __init__(self):
        self.log = []
        self.var = {"v": 3, "l": [4, 5, 6], "s": "abc", "t": {7: 8}, "o": Obj(9)}
        self.steps = 0


def need(x):
    if not x:
        raise Undef()


def isint(x):
    return isinstance(x, int) and not isinstance(x, bool)


def num(x):
    return isinstance(x, (int, float)) and not isinstance(x, bool)


def truth(x):
    return x is not None and x is not False


def plain(x):
    """values whose equality is decided by value."""
    return x is None or isinstance(x, (bool, int, str))


class Cls(Raw):
    pass


class Lick:
    def __init__(self, x):
        self.x = x


def kind(x):
    need(not isinstance(x, (Fn, Lick)))
    need(not isinstance(x, Cls))
    if x is None:
        return Cls('<class "NilKind">')
    if isinstance(x, bool):
        return Cls('<class "Boolean">')
    if num(x):
        return Cls('<class "Number">')
    if isinstance(x, Obj):
        return Cls('<class "K">')
    return Cls('<class "%s">' % {str: "String", list: "Tuple", dict: "Table"}[type(x)])


def strof(x):
    if x is None:
        return "nil"
    if isinstance(x, bool):
        return "true" if x else "false"
    if isint(x):
        return str(x)
    if isinstance(x, str) and not isinstance(x, Raw):
        return x
    if isinstance(x, list):
        return "(" + ", ".join(strof(e) for e in x) + ")"
    raise Undef()


def render(x):
    if isinstance(x, Obj):
        raise Undef()
    if isinstance(x, Fn):
        return Raw("<fn>")
    if isinstance(x, Lick):
        return Raw('["b" nil %s]' % fmt(render(x.x)))
    if isinstance(x, list):
        return [render(e) for e in x]
    if isinstance(x, dict):
        return {k: render(e) for k, e in x.items()}
    return x


# ---- expressions: (source, class, value function); classes: p postfix (takes messages, stands as operand), l list literal (the same, but alone it is a group as an operand),
# o operator, b and/or, a assignment, s statements
class E:
    __slots__ = ("s", "k", "f")

    def __init__(self, s, k, f):
        self.s, self.k, self.f = s, k, f


def const(v):
    return lambda e: v


def logged(v):
    def f(e):
        e.log.append(v)
        return v
    return f


def incr(e, d, r):
    a = e.var["v"]
    e.var["v"] = a + d
    return [a, a + d][r]


class Fn:
    pass


FN = Fn()


ATOMS = [E("7", "p", const(7)), E("2.5", "p", const(2.5)), E("'ab'", "p", const("ab")), E("''", "p", const("")), E("nil", "p", const(None)),
         E("true", "p", const(True)), E("false", "p", const(False)), E("(1, 2, 7)", "l", lambda e: [1, 2, 7]), E("()", "l", lambda e: []),
         E("(4=5, 'k'=6)", "l", lambda e: {4: 5, "k": 6}), E("v", "p", lambda e: e.var["v"]), E("l", "p", lambda e: e.var["l"]), E("s", "p", lambda e: e.var["s"]),
         E("t", "p", lambda e: e.var["t"]), E("o", "p", lambda e: e.var["o"]), E("n(5)", "p", logged(5)), E("n('q')", "p", logged("q")), E("n(nil)", "p", logged(None)),
         E("K(2)", "p", lambda e: Obj(2)), E("nop()", "p", const(11)), E("two(1, 2)", "p", lambda e: [2, 1]), E("|7.", "p", const(7)), E("((1, 2), 'z')", "l", lambda e: [[1, 2], "z"]),
         E("-7", "p", const(-7)), E("[b 'u'] length", "p", const(1)),
         E("v++", "o", lambda e: incr(e, 1, 0)), E("--v", "o", lambda e: incr(e, -1, 1)), E("if (nil): 1. elsif (0): 12. else: 3.", "i", const(12)), E("o ?get", "p", const(True)),
         E("o ?q", "p", const(False)), E("l[1]", "p", const(5)), E("l[ix]", "p", const(6)), E("ts['k']", "p", const(8)), E("o with 4", "p", lambda e: [e.var["o"].x, 4]), E("(x): x.", "c", lambda e: FN)]


def post(src, f, ok="p"):
    def g(x):
        if x.k not in "pl":
            return None
        return E("%s %s" % (x.s, src), "p", lambda e: f(x.f(e), e))
    return g


def m_length(x, e):
    need(isinstance(x, (list, dict)) or isinstance(x, str) and not isinstance(x, Raw))
    return len(x)


def m_string(x, e):
    return strof(x)


def m_index(x, e):
    need(isinstance(x, list) or type(x) is str)
    if isinstance(x, list):
        return x[0] if x else None
    need(x)
    return x[0]


def m_at(x, e):
    need(isinstance(x, list))
    return x[1] if len(x) > 1 else None


def m_first(x, e):
    need(isinstance(x, list))
    return x[0] if x else None


def m_last(x, e):
    need(isinstance(x, list))
    return x[-1] if x else None


def m_abs(x, e):
    need(num(x))
    return abs(x)


def m_get(x, e):
    need(isinstance(x, Obj))
    return x.x


def m_field(x, e):
    need(isinstance(x, Obj))
    return x.x


def m_join(x, e):
    need(isinstance(x, list))
    need(x)
    return "-".join(strof(i) for i in x)


def m_with(y):
    def f(x, e):
        need(isinstance(x, Obj))
        return [x.x, y]
    return f


def m_can(x, e):
    need(not isinstance(x, Lick))
    return isinstance(x, (str, list, dict)) and not isinstance(x, Cls)


def m_query(x, e):
    need(not isinstance(x, (Cls, Fn)))
    return m_can(x, e)


def m_put(x, e):
    need(isinstance(x, Obj))
    x.x = 5
    return 8


POST = [post("length", m_length), post("string", m_string), post("(0)", m_index), post("at (1)", m_at), post("first", m_first), post("last", m_last),
        post("abs", m_abs), post("kind", lambda x, e: kind(x)), post("get", m_get), post("join ('-')", m_join), post("with (4)", m_with(4)),
        post("can ('length')", m_can), post("?length", m_query), post("put (5)", m_put), post("/x", m_field)]


def operand(x):
    return x.s if x.k in "p" else "|%s." % x.s


ARGS = re.compile(r"[(,] ?%s|%s ?[,)]|[^ ]=%s")


def ctx(fmtstr, f, k="p", grp=False):
    def g(x):
        s = x.s
        if grp or x.k == "b" and "= %s" in fmtstr.replace("=%s", "= %s") or x.k == "a" and ARGS.search(fmtstr):
            s = operand(x)      # an assignment in a list or in arguments is a key or a name
        return E(fmtstr % s, k, lambda e: f(x.f, e))
    return g


def arith(op):
    def f(a, b):
        need(num(a) and num(b))
        if op == "+":
            return a + b
        if op == "-":
            return a - b
        return a * b
    return f


def cmpop(op):
    def f(a, b):
        need(num(a) and num(b))
        return {"<": a < b, ">": a > b, "<=": a <= b, ">=": a >= b}[op]
    return f


def equal(neg):
    def f(a, b):
        need(plain(a) and plain(b) and not isinstance(a, Raw) and not isinstance(b, Raw))
        r = type(a) is type(b) and a == b
        return r != neg
    return f


def binl(op, other, f):
    v = other
    return ctx("%%s %s %s" % (op, fmtsrc(v)), lambda x, e: f(x(e), v), "o", True)


def binr(op, other, f):
    v = other
    return ctx("%s %s %%s" % (fmtsrc(v), op), lambda x, e: f(v, x(e)), "o", True)


def binn(op, f):
    """both sides do something: left first."""
    def g(x, e):
        a = x(e)
        e.log.append(6)
        return f(a, 6)

    def h(x, e):
        e.log.append(6)
        return f(6, x(e))
    return [ctx("%%s %s n(6)" % op, g, "o", True), ctx("n(6) %s %%s" % op, h, "o", True)]


def fmtsrc(v):
    return "nil" if v is None else "'%s'" % v if isinstance(v, str) else "true" if v is True else "false" if v is False else str(v)


def c_and(l, e):
    x = l(e)
    if not truth(x):
        return x
    e.log.append(6)
    return 6


def c_or(l, e):
    x = l(e)
    if truth(x):
        return x
    e.log.append(6)
    return 6


def setvar(name):
    def f(x, e):
        e.var[name] = r = x(e)
        return r
    return f


def aug(op):
    def f(x, e):
        a = 40
        b = x(e)
        e.var["w"] = r = arith(op)(a, b)
        return r
    return f


def seq(x, e):
    return x(e)


def each2(x, e):
    r = []
    for i in (1, 2):
        r.append(x(e))
    return r


def listelem(pre, post_):
    def f(x, e):
        r = []
        for p in pre:
            r.append(p)
        r.append(x(e))
        return r + list(post_)
    return f


def logbefore(f):
    def g(x, e):
        e.log.append(6)
        return f(x, e)
    return g


def push(x, e):
    r = [6]
    r.append(x(e))
    return r


def index(x, e):
    i = x(e)
    need(isint(i) and 0 <= i <= 2)
    return [4, 5, 6][i]


def recv(f):
    return lambda x, e: f(x(e), e)


def cond(x, e):
    return 1 if truth(x(e)) else 2


def condelse(x, e):
    return None


def whl(x, e):
    r = 0
    while r < 3 and truth(x(e)):
        r += 1
    return r


def lognext(f):
    def g(x, e):
        v = x(e)
        e.log.append(6)
        return f(v)
    return g


def closure_(x, e):
    return [x(e), x(e)]


def blockarg(x, e):
    return [x(e), x(e)]


def objput(x, e):
    a = x(e)
    return [8, a]


def glob(x, e):
    y = x(e)
    need(not isinstance(y, (Cls, Fn)))
    return [y, 0]


def setix(i):
    need(isint(i) and 0 <= i < 2)
    r = [6, 6]
    r[i] = 4
    return r


def putv(x, e):
    y = x(e)
    e.var["o"].x = y
    return 8


def tkey(x, e):
    k = x(e)
    need(plain(k) and not isinstance(k, (bool, Raw)))
    return {k: 4, "z": 2} if k != "z" else {k: 2}


def withv(x, e):
    y = x(e)
    return [e.var["o"].x, y]


# (context, needs a parameter list free of name clashes)
CTX = [
    ctx("(%s, 5)", listelem((), (5,)), "l"), ctx("(5, %s)", listelem((5,), ()), "l"), ctx("(0, %s, 5)", listelem((0,), (5,)), "l"), ctx("(n(6), %s)", logbefore(listelem((6,), ())), "l"),
    ctx("(%s, n(6))", lognext(lambda v: [v, 6]), "l"), ctx("(3=%s, 1=2)", lambda x, e: {3: x(e), 1: 2}, "l"), ctx("|%s.", seq), ctx("|3, %s.", seq), ctx("|n(6), %s.", logbefore(seq)),
    ctx("id(%s)", seq), ctx("two(%s, 5)", lambda x, e: [5, x(e)]), ctx("two(5, %s)", lambda x, e: [x(e), 5]), ctx("two(n(6), %s)", logbefore(lambda x, e: [x(e), 6])),
    ctx("two(%s, n(6))", lognext(lambda v: [6, v])), ctx("l (%s)", index), ctx("l at (%s)", index), ctx("K(%s) get", seq), ctx("o with (%s)", lambda x, e: (lambda y: [e.var['o'].x, y])(x(e))),
    ctx("q = (6, 6)\nq (1) = %s\nq", lambda x, e: [6, x(e)], "s"), ctx("q = (6, 6)\nq (%s) = 4\nq", lambda x, e: setix(x(e)), "s"), ctx("q = (1=1)\nq ('a') = %s\nq", lambda x, e: {1: 1, "a": x(e)}, "s"),
    ctx("G = %s\n(G, 0)", glob, "s"), ctx("q = K(0)\nq /x = %s\n(q /x, q get)", lambda x, e: (lambda y: [y, y])(x(e)), "s"),
    ctx("q = nil\nq ||= %s\nq", seq, "s", True), ctx("q = 6\nq ||= %s\nq", lambda x, e: 6, "s", True), ctx("q = 6\nq &&= %s\nq", seq, "s", True), ctx("q = nil\nq &&= %s\nq", lambda x, e: None, "s", True),
    ctx("q = K(nil)\nq /x ||= %s\nq get", seq, "s", True), ctx("q = K(6)\nq /x ||= %s\nq get", lambda x, e: 6, "s", True), ctx("q = K(40)\nq /x += %s\nq get", lambda x, e: arith("+")(40, x(e)), "s"),
    ctx("q = 40\nq *= %s\nq", lambda x, e: arith("*")(40, x(e)), "s"),
    ctx("o with |%s.", withv), ctx("id |%s.", seq), ctx("l |%s.", index), ctx("o ?with (%s)", withv), ctx("o ?with |%s.", withv), ctx("o ?put (%s)", putv), ctx("o put |%s.", putv),
    ctx("7 ?with (%s)", lambda x, e: None), ctx("7 ?with |%s.", lambda x, e: None), ctx("[b |%s.]", lambda x, e: [Lick(x(e))], "l"), ctx("|%s.=4, 1=2" if 0 else "(|%s.=4, 'z'=2)", tkey, "l"),
    ctx("|if (%s): 1. else: 2. .", cond), ctx("|if (nil): 1. else: %s. .", seq), ctx("|q2 = %s, (q2, 3).", lambda x, e: [x(e), 3]), ctx("K(1) with (%s)", lambda x, e: [1, x(e)]), ctx(
"blk (3): %s.", blockarg), ctx("id((): %s.) ()", seq), ctx("(1, 2) map (i): %s.", each2),
    ctx("!%s", lambda x, e: not truth(x(e)), "o", True), ctx("not %s", lambda x, e: not truth(x(e)), "o", True),
    binl("+", 4, arith("+")), binr("+", 4, arith("+")), binl("-", 4, arith("-")), binr("-", 4, arith("-")), binl("*", 3, arith("*")), binr("*", 3, arith("*")),
    binl("<", 7, cmpop("<")), binr("<", 7, cmpop("<")), binl(">=", 7, cmpop(">=")), binr(">", 7, cmpop(">")),
    binl("==", 7, equal(False)), binr("==", 7, equal(False)), binl("!=", None, equal(True)), binr("==", "ab", equal(False)), binl("==", "abc", equal(False)),
] + binn("+", arith("+")) + binn("-", arith("-")) + binn("==", equal(False)) + binn("<", cmpop("<")) + [
    ctx("%s and n(6)", c_and, "b", True), ctx("%s or n(6)", c_or, "b", True), ctx("5 and %s", seq, "b", True), ctx("nil or %s", seq, "b", True),
    ctx("nil and %s", lambda x, e: None, "b", True), ctx("5 or %s", lambda x, e: 5, "b", True),
    ctx("w = %s", setvar("w"), "a"), ctx("w = y = %s", setvar("w"), "a"), ctx("q = 40\nq += %s\nq", aug("+"), "s"), ctx("q = 40\nq -= %s\nq", aug("-"), "s"),
    ctx("q = 1\n%s\nq", lambda x, e: (x(e), 1)[1], "s"), ctx("q = %s\nq", seq, "s"), ctx("q = %s\n(q, q)", lambda x, e: (lambda a: [a, a])(x(e)), "s"),
    ctx("if (%s): 1. else: 2.", cond, "s"), ctx("if (nil): 1. elsif (%s): 1. else: 2.", cond, "s"), ctx("if (true): %s. else: n(6).", seq, "s"),
    ctx("if (nil): n(6). else: %s.", seq, "s"), ctx("if (nil): n(6). elsif (1): %s.", seq, "s"),
    ctx("q = 0\nwhile (q < 3 and %s): q += 1.\nq", whl, "s", True),
    ctx("q = 0\nloop: q = %s, break.\nq", seq, "s"),
    ctx("f = (): %s.\n(f (), f ())", closure_, "s"), ctx("f = (): return (%s), n(6).\nid(f ())", seq, "s"), ctx("f = (): 3, %s.\nid(f ())", seq, "s"),
    ctx("f = (z): q = %s, (q, z).\nf (1)", lambda x, e: [x(e), 1], "s"),
    ctx("K ev = (): %s.\nid(o ev)", seq, "s"), ctx("q = (6,)\nq push (%s)\nq" if 0 else "q = (6, 6)\nq pop\nq push (%s)\nq", push, "s"),
    ctx("q = K(0)\n(q put (%s), q get)", objput, "s"), ctx("q = (1=1)\nq put (1, %s)\nq (1)", seq, "s"),
    ctx("q = ''\n(1, 2) each (i): q = %s.\nq", lambda x, e: each2(x, e)[1], "s"), ctx("2 times (): q = %s.\nq" if 0 else "q = 0\n1 to (2, (i): q = %s.)\nq", lambda x, e: each2(x, e)[1], "s"),
    ctx("J = class (): /a = %s, /b = 4.\nJ both = (): (/a, /b).\nJ() both", lambda x, e: [x(e), 4], "s"),
]


def shows(e, x):
    env = Env()
    v = x.f(env)
    return v, env


def prog(x):
    """the whole program and its expected outcome, or None if the value is not defined."""
    env = Env()
    try:
        v = x.f(env)
        r = render([v, env.log]) if not isinstance(v, Obj) else render([[v.x, 0], env.log])
    except Undef:
        return None
    lines = x.s.split("\n")
    tail = " get" if isinstance(v, Obj) else ""
    if x.k == "s" or "\n" in x.s:
        body = "\n".join(lines[:-1] + ["zz = %s" % lines[-1]])
    else:
        body = "zz = " + (operand(x) if x.k == "b" else x.s)
    return SETUP + body + "\n(%s, log)" % ("(zz get, 0)" if tail else "zz"), fmt(r)


def own(x, after):
    """the expression is what needs most registers in a function with two variables; nothing or little follows it."""
    env = Env()
    try:
        v = x.f(env)
        render(v)
    except Undef:
        return None
    lines = x.s.split("\n")
    if x.k in "b" or after == "b":
        lines[-1] = operand(E(lines[-1], x.k if len(lines) == 1 else "s", None))
    body = "\n ".join(lines[:-1] + [("zz = " if after != "v" else "") + lines[-1]])
    if after == "v":        # the value of the function
        return SETUP + "h = (p):\n w1 = 71\n %s.\n(h (70), log)" % body, fmt(render([v, env.log]))
    if after == "l":
        return SETUP + "h = (p):\n w1 = 71\n %s\n (zz, w1, p, w1).\n(h (70), log)" % body, fmt(render([[v, 71, 70, 71], env.log]))
    if after == "1":        # one variable at a time
        return SETUP + "h = (p):\n w1 = 71\n %s\n w1.\n(h (70), log)" % body, fmt(render([71, env.log]))
    return SETUP + "h = (p):\n w1 = 71\n %s\n p.\n(h (70), log)" % body, fmt(render([70, env.log]))


def build(level, atoms, posts, ctxs, chain):
    """all expressions: an atom, messages, then `level` rounds of a context and messages."""
    def msgs(x, n):
        yield x
        if n and x.k in "pl":
            for p in posts:
                y = p(x)
                if y is not None:
                    yield from msgs(y, n - 1)

    def rec(x, depth):
        yield x
        if depth == 0 or x.k == "s":
            return
        for g in ctxs:
            y = g(x)
            if y is None:
                continue
            yield y
            if y.k in "pl":
                for z in msgs(y, chain[1]):
                    if z is not y:
                        if defined(z):
                            yield from rec(z, depth - 1) if depth > 1 else (z,)
            if depth > 1 and defined(y):
                for z in rec(y, depth - 1):
                    if z is not y:
                        yield z
    for a in atoms:
        for x in msgs(a, chain[0]):
            if defined(x):
                yield from rec(x, level)


def defined(x):
    env = Env()
    try:
        x.f(env)
        return True
    except Undef:
        return False


def gen(c, level, atoms, posts, ctxs, chain):
    seen = set()
    for x in build(level, atoms, posts, ctxs, chain):
        if x.s in seen:
            continue
        seen.add(x.s)
        p = prog(x)
        c.trans()
        if p is None:
            continue
        c.state(p[1])
        yield p[0], p[1], x.s


def gen_own(c, atoms, posts, ctxs, chain):
    seen = set()
    for x in build(1, atoms, posts, ctxs, chain):
        if x.s in seen or "q2" in x.s and x.k == "s":
            continue
        seen.add(x.s)
        for after in "vl1p":
            p = own(x, after)
            c.trans()
            if p is None:
                continue
            c.state(p[1])
            yield p[0], p[1], x.s + " / " + after


def explore(c):
    deep = not c.quick
    c.run("messages on every expression in every place", gen(c, 1, ATOMS, POST, CTX, (2 if deep else 1, 1)), modes="VJCD" if deep else "VJ")
    c.run("in a function of its own", gen_own(c, ATOMS, POST, CTX, (1, 0) if deep else (0, 0)), modes="VJCD" if deep else "VJ")
    c.run("a place in a place", gen(c, 2, ATOMS if deep else ATOMS[::3] , POST if deep else POST[:4], CTX, (0, 0)), modes="VJ")
    if deep:
        c.run("three places", gen(c, 3, ATOMS[::6], POST[:2], [g for i, g in enumerate(CTX) if i % 2 == 0], (0, 0)), modes="VJ")
