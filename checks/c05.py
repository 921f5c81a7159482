"""C05: lexical scope, closures and captured variables."""
import itertools
from vp import fmt, Raw

FN = Raw("<fn>")


# ---- a small language with static scope: source text and meaning from one tree ----
class Func:
    def __init__(self, params, body):
        self.params, self.body = params, body


class Clo:
    __slots__ = ("fn", "env")

    def __init__(self, fn, env):
        self.fn, self.env = fn, env


def names(st):
    return st[1]


def src(body, ind):
    sp = " " * ind
    out = []
    for s in body:
        k = s[0]
        if k == "set":
            out.append("%s%s = %s" % (sp, s[1], ex(s[2])))
        elif k == "def":
            f = s[2]
            out.append("%s%s = (%s):\n%s." % (sp, s[1], ", ".join(f.params), src(f.body, ind + 1)))
        elif k == "times":
            out.append("%s%d times (%s):\n%s." % (sp, s[1], s[2], src(s[3], ind + 1)))
        elif k == "eachl":
            out.append("%s(%s) each (%s):\n%s." % (sp, ", ".join(map(str, s[1])), s[2], src(s[3], ind + 1)))
        elif k == "while":
            out.append("%s%s = 0\n%swhile (%s < %d):\n%s\n%s %s = %s + 1." % (sp, s[1], sp, s[1], s[2], src(s[3], ind + 1), sp, s[1], s[1]))
        elif k == "push":
            out.append("%s%s push(%s)" % (sp, s[1], ex(s[2])))
        elif k == "val":
            out.append(sp + ex(s[1]))
    return "\n".join(out)


def ex(e):
    if isinstance(e, int):
        return str(e)
    if isinstance(e, str):
        return e
    if e[0] == "+":
        return ex(e[1]) + " + " + ex(e[2])
    if e[0] == "call":
        return "%s(%s)" % (e[1], ", ".join(ex(x) for x in e[2]))
    if e[0] == "at":
        return "%s(%d)" % (e[1], e[2])
    if e[0] == "tup":
        return "(" + ", ".join(ex(x) for x in e[1]) + ")"
    raise ValueError(e)


class Scope:
    """the names of one function, as far as the text above the current place declares them"""

    def __init__(self, up, params):
        self.up, self.names = up, set(params)

    def find(self, n):
        d, s = 0, self
        while s is not None:
            if n in s.names:
                return d
            s, d = s.up, d + 1
        return None


def resolve(body, scope):
    """annotates each use of a name with its static depth: ('v', depth, name), or None for an undeclared name"""
    out = []
    for s in body:
        k = s[0]
        if k == "set":
            d = scope.find(s[1])
            if d is None:
                scope.names.add(s[1])
                d = 0
            out.append(("set", d, s[1], rex(s[2], scope)))
        elif k == "def":
            d = scope.find(s[1])
            if d is None:
                scope.names.add(s[1])
                d = 0
            sub = Scope(scope, s[2].params)
            out.append(("def", d, s[1], s[2].params, resolve(s[2].body, sub)))
        elif k in ("times", "eachl"):
            sub = Scope(scope, [s[2]])
            out.append((k, s[1], s[2], resolve(s[3], sub)))
        elif k == "while":
            d = scope.find(s[1])
            if d is None:
                scope.names.add(s[1])
                d = 0
            out.append((k, d, s[1], s[2], resolve(s[3], scope)))
        elif k == "push":
            out.append(("push", rex(s[1], scope), rex(s[2], scope)))
        elif k == "val":
            out.append(("val", rex(s[1], scope)))
    return out


def rex(e, scope):
    if isinstance(e, int):
        return e
    if isinstance(e, str):
        return ("v", scope.find(e), e)
    if e[0] == "+":
        return ("+", rex(e[1], scope), rex(e[2], scope))
    if e[0] == "call":
        return ("call", rex(e[1], scope), [rex(x, scope) for x in e[2]])
    if e[0] == "at":
        return ("at", rex(e[1], scope), e[2])
    return ("tup", [rex(x, scope) for x in e[1]])


class Env:
    __slots__ = ("v", "up")

    def __init__(self, v, up):
        self.v, self.up = v, up


def up(env, d):
    while d:
        env, d = env.up, d - 1
    return env


def ev(e, env, c):
    if isinstance(e, int):
        return e
    k = e[0]
    if k == "v":
        if e[1] is None:
            return None
        return up(env, e[1]).v.get(e[2])
    if k == "+":
        return ev(e[1], env, c) + ev(e[2], env, c)
    if k == "at":
        return ev(e[1], env, c)[e[2]]
    if k == "tup":
        return tuple(ev(x, env, c) for x in e[1])
    f = ev(e[1], env, c)
    return call(f, [ev(x, env, c) for x in e[2]], c)


def call(f, args, c):
    c.trans()
    return run(f.fn[1], Env(dict(zip(f.fn[0], args)), f.env), c)


def run(body, env, c):
    r = None
    for s in body:
        k = s[0]
        if k == "set":
            r = ev(s[3], env, c)
            up(env, s[1]).v[s[2]] = r
        elif k == "def":
            r = Clo((s[3], s[4]), env)
            up(env, s[1]).v[s[2]] = r
        elif k == "times":
            for i in range(s[1]):
                run(s[3], Env({s[2]: i}, env), c)
        elif k == "eachl":
            for x in s[1]:
                run(s[3], Env({s[2]: x}, env), c)
        elif k == "while":
            e = up(env, s[1])
            e.v[s[2]] = 0
            while e.v[s[2]] < s[3]:
                run(s[4], env, c)
                e.v[s[2]] += 1
        elif k == "push":
            ev(s[1], env, c).append(ev(s[2], env, c))
        elif k == "val":
            r = ev(s[1], env, c)
    return r


def show(v):
    if isinstance(v, Clo):
        return FN
    if isinstance(v, (tuple, list)):
        return tuple(show(x) for x in v)
    return v


def program(body, c):
    v = run(resolve(body, Scope(None, [])), Env({}, None), c)
    r = fmt(show(v))
    c.state(r)
    return src(body, 0), r


# ---- nesting: every combination of declarations, statements and uses per level ----
DECLS = [((), []), (("a",), []), (("b",), []), ((), [("set", "a", 30)]), ((), [("set", "c", 40)]), (("c",), []), (("a", "c"), [])]
OPS = [[], [("set", "a", ("+", "a", 1))], [("set", "b", ("+", "a", "b"))], [("set", "c", ("+", "b", 3))], [("set", "d", "c")],
       [("times", 2, "i", [("set", "a", ("+", "a", "i"))])], [("eachl", (5, 7), "a", [("set", "b", ("+", "b", "a"))])]]
RET = ["a", "b", "c", "d"]
USES = ["once", "twice", "escape", "pass", "kept"]


def nest(levels, uses):
    """body of the main program. levels: [(decl, pre op, post op)] for f1..fn, uses: how fi's inner function is used by it"""
    n = len(levels)

    def call_of(i, name, x):
        args = [x + 100 * j for j in range(len(levels[i][0][0]))]
        return ("call", name, args)

    def used(i, mode, ret, tag):
        """statements using function number i (named f<i>) in the body of its parent, and what to return"""
        f = "f%d" % i
        if mode == "once":
            return [("set", "r" + tag, call_of(i, f, 7))], ["r" + tag]
        if mode == "twice":
            return [("set", "r" + tag, call_of(i, f, 7)), ("set", "s" + tag, call_of(i, f, 8))], ["r" + tag, "s" + tag]
        if mode == "escape":
            return [], [f]
        if mode == "pass":
            return [("def", "ap" + tag, Func(["k"], [("set", "k1", call_of(i, "k", 6)), ("val", ("tup", ["k1", call_of(i, "k", 7)]))]))], \
                [("call", "ap" + tag, [f])]
        if mode == "kept":
            return [("def", "kp" + tag, Func([], [("val", call_of(i, f, 3))]))], ["kp" + tag]

    def define(i):
        (params, decl), pre, post = levels[i]
        body = list(decl) + list(pre)
        ret = list(RET)
        if i + 1 < n:
            body += define(i + 1)
            st, rs = used(i + 1, uses[i], None, str(i))
            body += st
            ret += rs
        body += list(post)
        body.append(("val", ("tup", ret)))
        return [("def", "f%d" % i, Func(list(params), body))]

    main = define(0)
    # call f0 twice; follow escaped and kept functions
    res = []

    def follow(i, var, tag):
        """var holds the result of a call of f<i>"""
        if i + 1 >= n:
            return
        m = uses[i]
        if m in ("escape", "kept"):
            g = "g" + tag
            main.append(("set", g, ("at", var, 4)))
            for k in (1, 2):
                r = "q%s%d" % (tag, k)
                main.append(("set", r, call_of(i + 1, g, 20 * k) if m == "escape" else ("call", g, [])))
                res.append(r)
                if i + 1 < n:
                    follow(i + 1, r, tag + str(k))
    for k in (1, 2):
        r = "m%d" % k
        main.append(("set", r, call_of(0, "f0", 50 * k)))
        res.append(r)
        follow(0, r, "m%d" % k)
    main.append(("val", ("tup", ["a", "b"] + res)))
    return [("set", "a", 1), ("set", "b", 2)] + main


def gen_nest(c, depth, decls, ops, uses, posts):
    lv = [(d, o, p) for d in decls for o in ops for p in posts]
    for levels in itertools.product(lv, repeat=depth):
        for us in itertools.product(uses, repeat=depth - 1):
            yield program(nest(levels, us), c)


# ---- histories on shared and separate captured variables ----
def gen_history(c, depth):
    """two instances of a factory of three closures sharing two variables; every sequence of calls"""
    ops = [(i, o) for i in (0, 1) for o in ("inc", "set", "both", "mix")]
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            st = [[1, 5], [10, 50]]
            lines = ["mk = (n, m):", "  inc = (): n = n + 1, n.", "  set = (x): m = x, n + m.", "  both = (): n = n + m, m = m + 1, (n, m).",
                     "  mix = (x): g = (): n = n + x, n.\n   x = g() + 1, x.", "  (inc, set, both, mix).", "p = mk(1, 5)", "q = mk(10, 50)"]
            for i, nm in enumerate(("inc", "set", "both", "mix")):
                lines.append("%s0 = p(%d), %s1 = q(%d)" % (nm, i, nm, i))
            exp = []
            for j, (i, o) in enumerate(seq):
                s = st[i]
                if o == "inc":
                    s[0] += 1
                    exp.append(s[0])
                    a = "inc%d()" % i
                elif o == "set":
                    s[1] = j + 3
                    exp.append(s[0] + s[1])
                    a = "set%d(%d)" % (i, j + 3)
                elif o == "both":
                    s[0] += s[1]
                    s[1] += 1
                    exp.append((s[0], s[1]))
                    a = "both%d()" % i
                else:
                    s[0] += j
                    exp.append(s[0] + 1)
                    a = "mix%d(%d)" % (i, j)
                lines.append("r%d = %s" % (j, a))
                c.trans()
                c.state((i, tuple(s), o))
            lines.append("(%s, both0(), both1())" % ", ".join("r%d" % j for j in range(len(seq))))
            for s in st:
                s[0] += s[1]
                s[1] += 1
                exp.append((s[0], s[1]))
            yield "\n".join(lines), fmt(tuple(exp))


def gen_instances(c, ns):
    """n closures made in a loop, in an iterator block and by recursion: shared loop variables, separate block arguments"""
    for n in ns:
        c.state(("instances", n))
        c.trans(n)
        yield ("fs = ()\n%d times (i): fs push((): i = i + 10, i.).\no = ()\nfs each (f): o push(f()).\nfs each (f): o push(f()).\no" % n,
               fmt(tuple(i + 10 for i in range(n)) + tuple(i + 20 for i in range(n))))
        if n:
          yield ("fs = ()\ni = 0\nwhile (i < %d):\n k = i\n fs push((): k = k + 1, k + i.)\n i = i + 1.\no = ()\nfs each (f): o push(f()).\n(o, k)" % n,
                 fmt((tuple((n - 1) + j + 1 + n for j in range(n)), n - 1 + n)))
        yield ("f = (n): if (n == 0): (). else:\n  l = f(n - 1)\n  l push((): n = n * 10, n.)\n  l..\nr = f(%d)\no = ()\nr each (g): g(), o push(g()).\no" % n,
               fmt(tuple(i * 100 for i in range(1, n + 1))))
        yield ("f = (n, g): if (n == 0): g(0). else: f(n - 1, (x): g(x + n).)..\nf(%d, (x): x.)" % n, fmt(n * (n + 1) // 2))
        yield ("mk = (n):\n up = (): n = n + 1.\n get = (): n.\n (up, get).\nl = ()\n%d times (i): l push(mk(i)).\n"
               "l each (p, j): u = p(0)\n j times (k): u()..\no = ()\nl each (p): g = p(1)\n o push(g()).\no" % n,
               fmt(tuple(2 * i for i in range(n))))


def gen_static(c):
    """names are bound by the text, not by the order of calls"""
    def case(s, e):
        c.state(s)
        c.trans()
        return s, fmt(e)
    yield case("x = 10\nf = (): x.\nx = 20\nf()", 20)
    yield case("f = (): z = 5, z.\nf()\nz = 1\n(f(), z)", (5, 1))
    yield case("z = 1\nf = (): z = 5, z.\n(f(), z)", (5, 5))
    yield case("x = 1\nf = (): x.\ng = (): x = 2\n f().\n(g(), x)", (2, 2))
    yield case("x = 1\nf = (): x.\ng = (x): f().\n(g(2), x)", (1, 1))
    yield case("x = 1\nf = (g): x = 3\n g().\nh = (x): f((): x.).\n(h(7), x)", (7, 3))
    yield case("f = (a):\n g = (b):\n  h = (c): a = a + b, b = b + c, c = c + 1, (a, b, c).\n  (h(1), h(1), a, b).\n (g(10), a).\nf(100)",
               (((110, 11, 2), (121, 12, 2), 121, 12), 121))
    yield case("Foo = class(a): /a = a.\nn = 5\nFoo get = (x): n = n + x, (n, /a).\nf = Foo(3)\n(f get(1), f get(2), n)", ((6, 3), (8, 3), 8))
    yield case("x = 1\nl = (1, 2, 3) map (y): x = x + y, x.\n(l, x)", ((2, 4, 7), 7))
    yield case("f = (x): if (x > 0): y = x. else: y = 0 - x.\n g = (): y = y + 1, y.\n (g(), y).\n(f(3), f(-3))", ((4, 4), (4, 4)))
    for n in range(0, 12):
        # a variable captured through n functions that do not use it, read and written
        s = "x = 1\n" + "".join(" " * i + "f%d = ():\n" % i for i in range(n)) + " " * n + "g = (): x = x + 1, x.\n" + " " * n + "g()" + \
            "".join(".\n" + " " * i + "f%d()" % i for i in reversed(range(n))) + "\n(x, f0())" if n else "x = 1\ng = (): x = x + 1, x.\ng()\n(x, g())"
        yield case(s, (2, 3))


def explore(c):
    q = c.quick
    c.run("static scope", gen_static(c), modes="VJCD")
    c.run("nesting 1", gen_nest(c, 1, DECLS, OPS, USES, OPS[:4]), modes="VJ")
    if q:
        c.run("nesting 2", gen_nest(c, 2, DECLS, OPS[:6], USES, [[]]))
        c.run("nesting 3", gen_nest(c, 3, [DECLS[0], DECLS[1], DECLS[4]], [OPS[1], OPS[3]], ["once", "escape", "kept"], [[]]))
    else:
        c.run("nesting 2", gen_nest(c, 2, DECLS, OPS, USES, OPS[:4]), modes="VJ")
        c.run("nesting 3", gen_nest(c, 3, DECLS, [OPS[1], OPS[2], OPS[3], OPS[4]], USES[1:], [[]]))
        c.run("nesting 4", gen_nest(c, 4, [DECLS[0], DECLS[1], DECLS[4]], [OPS[1], OPS[3]], ["once", "escape", "kept"], [[]]))
    c.run("histories", gen_history(c, 4 if q else 5))
    c.run("instances", gen_instances(c, range(0, 60) if q else list(range(0, 300)) + [500, 1000]), modes="VJCD")
