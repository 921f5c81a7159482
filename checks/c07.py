"""C07: classes, objects, fields, inheritance and method dispatch."""
import itertools
from vp import fmt

NAMES = "ABCD"
# constructors: (params, body source, fields it names, effect)
CTORS = [
    None,
    ((), "/b = 2", ("b",), lambda f, v: f.update(b=2)),
    (("x",), "/a = x", ("a",), lambda f, v: f.update(a=v[0])),
    (("x", "y"), "/c = y, /a = x + 1", ("c", "a"), lambda f, v: f.update(c=v[1], a=v[0] + 1)),
    (("x",), "if (x > 5): /d = x, /a = 0. else: /b = x.", ("d", "a", "b"), lambda f, v: f.update(d=v[0], a=0) if v[0] > 5 else f.update(b=v[0])),
]
METHODS = ["id", "virt", "set", "sum"]
PATTERNS = [(), ("id",), ("virt",), ("set",), ("id", "virt"), ("id", "virt", "set"), ("id", "set")]


class Cls:
    def __init__(self, name, parent, ctor):
        self.name, self.parent = name, parent
        self.ctor = ctor if ctor else (parent.ctor if parent else None)
        self.own = ctor
        self.fields = set(ctor[2] if ctor else ()) | (parent.fields if parent else set())
        self.methods = {}

    def find(self, m):
        k = self
        while k:
            if m in k.methods:
                return k.methods[m]
            k = k.parent
        return None

    def up(self):
        k = self
        while k:
            yield k
            k = k.parent


class Obj:
    def __init__(self, cls, args):
        self.cls = cls
        self.f = {}
        if cls.ctor:
            cls.ctor[3](self.f, args)

    def get(self, n):
        return self.f.get(n) if n in self.cls.fields else None

    def set(self, n, v):
        if n in self.cls.fields:
            self.f[n] = v


def src_method(m, tag):
    if m == "id":
        return "(): '%s'" % tag
    if m == "virt":
        return "(): ('v%s', self id, /a)" % tag
    if m == "set":
        return "(v): /a = v, /d = v + 1, /b = '%s', self" % tag
    return "(n): l = (/a, /b), h = (x): (x, n)., h(l)"


def call(o, m, arg=None):
    t = o.cls.find(m)
    if t is None:
        return None
    if m == "id":
        return t
    if m == "virt":
        return ("v" + t, call(o, "id"), o.get("a"))
    if m == "set":
        o.set("a", arg)
        o.set("d", arg + 1)
        o.set("b", t)
        return o
    return ((o.get("a"), o.get("b")), arg)


def hierarchy(spec, c):
    """spec: per class (parent index or None, ctor, pattern)"""
    lines, cls = [], []
    for i, (p, ct, pat) in enumerate(spec):
        k = Cls(NAMES[i], cls[p] if p is not None else None, ct)
        cls.append(k)
        head = "%s = %sclass" % (k.name, "" if p is None else cls[p].name + " ")
        lines.append(head if ct is None else head + ("(%s)" % ", ".join(ct[0]) if ct[0] else "") + ": %s." % ct[1])
    for i, (p, ct, pat) in enumerate(spec):
        for m in pat:
            cls[i].methods[m] = NAMES[i]
            lines.append("%s %s = %s." % (NAMES[i], m, src_method(m, NAMES[i])))
    exp = []
    obs = []
    for i, k in enumerate(cls):
        args = [4 + 3 * i, 8][:len(k.ctor[0])] if k.ctor else []
        n = "o%d" % i
        lines.append("%s = %s(%s)" % (n, k.name, ", ".join(map(str, args))))
        o = Obj(k, args)
        lines.append("p%d = (%s id, %s virt, %s /a, %s /b, %s /c, %s /d)" % ((i,) + (n,) * 6))
        exp.append((call(o, "id"), call(o, "virt"), o.get("a"), o.get("b"), o.get("c"), o.get("d")))
        obs.append("p%d" % i)
        lines.append("r%d = %s set(%d)" % (i, n, 40 + i))
        r = call(o, "set", 40 + i)
        lines.append("q%d = (r%d == %s, %s virt, %s /a, %s /b, %s /c, %s /d)" % ((i, i) + (n,) * 6))
        exp.append((r is o, call(o, "virt"), o.get("a"), o.get("b"), o.get("c"), o.get("d")))
        obs.append("q%d" % i)
        lines.append("%s /b = 'z', %s /c = 6" % (n, n))
        o.set("b", "z")
        o.set("c", 6)
        lines.append("s%d = (%s, %s /b, %s /c, %s can('virt'))" % (
            i, ", ".join("%s kind == %s, %s isa?(%s), %s subclass?(%s)" % (n, j.name, n, j.name, n, j.name) for j in cls), n, n, n))
        exp.append(tuple(x for j in cls for x in (j is k, j is k, j in list(k.up()))) + (o.get("b"), o.get("c"), k.find("virt") is not None))
        obs.append("s%d" % i)
        c.trans(8)
        c.state((exp[-1], exp[-2], exp[-3]))
    lines.append("(" + ", ".join(obs) + ")")
    return "\n".join(lines), fmt(tuple(exp))


def gen_hierarchies(c, n, ctors, patterns):
    per = [(ct, p) for ct in ctors for p in patterns]
    for parents in itertools.product(*[[None] + list(range(i)) for i in range(n)]):
        for cs in itertools.product(per, repeat=n):
            yield hierarchy([(parents[i],) + cs[i] for i in range(n)], c)


# ---- histories on objects of two classes ----
OPS = [("path", 0), ("path", 1), ("set", 0), ("set", 1), ("inc", 0), ("inc", 1), ("new", 0), ("new", 1), ("alias", 0), ("link", 0), ("deep", 0),
       ("redef", 0), ("redef", 1), ("call", 0), ("call", 1)]


class H:
    __slots__ = ("o",)


def history(seq, c):
    lines = ["A = class(x): /a = x, /n = nil.", "A set = (v): /a = v, self.", "A m = (): ('A', /a).", "B = A class(x): /a = x * 10, /b = x.",
             "B inc = (): /a = /a + 1, self.", "A inc = (): /a = /a + 100, self.", "o = A(1)", "p = B(2)"]
    A, B = {"m": "A"}, {}
    new = [lambda x: {"k": "A", "a": x, "n": None}, lambda x: {"k": "B", "a": x * 10, "b": x, "n": None}]
    v = [new[0](1), new[1](2)]
    nm = "op"
    exp = []

    def m(ob):
        d = B.get("m") if ob["k"] == "B" and "m" in B else A["m"]
        return (d, ob["a"])
    for j, (op, i) in enumerate(seq):
        n, ob = nm[i], v[i]
        if op == "path":
            lines.append("%s /a = %d" % (n, j + 5))
            ob["a"] = j + 5
        elif op == "set":
            lines.append("%s set(%d)" % (n, j + 50))
            ob["a"] = j + 50
        elif op == "inc":
            lines.append("%s inc" % n)
            ob["a"] += 100 if ob["k"] == "A" else 1
        elif op == "new":
            lines.append("%s = %s(%d)" % (n, "AB"[i], j))
            v[i] = new[i](j)
        elif op == "alias":
            lines.append("o = p")
            v[0] = v[1]
        elif op == "link":
            lines.append("o /n = p")
            v[0]["n"] = v[1]
        elif op == "deep":
            if v[0]["n"] is None:
                continue
            lines.append("o /n /a = %d" % (j + 7))
            v[0]["n"]["a"] = j + 7
        elif op == "redef":
            lines.append("%s m = (): ('%s%d', /a)." % ("AB"[i], "ab"[i], j))
            (A, B)[i]["m"] = "%s%d" % ("ab"[i], j)
        elif op == "call":
            lines.append("r%d = %s m" % (j, n))
            exp.append((j, m(ob)))
        c.trans()
    lines.append("(%so m, p m, o /a, p /a, p /b, o == p, o /n == p)" % "".join("r%d, " % j for j, _ in exp))
    r = tuple(e for _, e in exp) + (m(v[0]), m(v[1]), v[0]["a"], v[1]["a"], v[1].get("b"), v[0] is v[1], v[0]["n"] is v[1])
    c.state(r)
    return "\n".join(lines), fmt(r)


def gen_histories(c, depth, ops=OPS):
    for d in range(1, depth + 1):
        for seq in itertools.product(ops, repeat=d):
            yield history(seq, c)


# ---- dispatch on the built-in types ----
CHAINS = [("4", ["Number", "Object", "Lobby"]), ("2.5", ["Number", "Object", "Lobby"]), ("'s'", ["String", "Object", "Lobby"]), ("nil", ["NilKind", "Object", "Lobby"]),
          ("true", ["Boolean", "Object", "Lobby"]), ("l", ["Tuple", "Object", "Lobby"]), ("t", ["Table", "Object", "Lobby"]), ("f", ["Function", "Object", "Lobby"]),
          ("o", ["K", "Object", "Lobby"]), ("p", ["J", "K", "Object", "Lobby"])]


def gen_builtin(c, types, probe):
    for mask in range(1 << len(types)):
        on = [t for i, t in enumerate(types) if mask >> i & 1]
        lines = ["K = class(x): /x = x.", "J = K class", "l = (7, 8)", "t = (1=2)", "f = (x): x.", "o = K(1)", "p = J(2)"]
        for t in on:
            lines.append("%s zz = (n): ('%s', n)." % (t, t))
        e = []
        for v, ch in CHAINS:
            k = next((t for t in ch if t in on), None)
            e.append((k, 3) if k else None)
        c.trans(len(CHAINS))
        c.state(tuple(on))
        lines.append("(" + ", ".join("%s zz(3)" % v for v, _ in CHAINS) + ")")
        yield "\n".join(lines), fmt(tuple(e))


def gen_fixed(c):
    def case(s, e):
        c.state(s)
        c.trans()
        return s, fmt(e)
    yield case("Foo = class(a): /a = a.\nFoo mk = (b): K = class(c): /c = c.\n K get = (): (/c, self kind == K, self isa?(K)).\n (K(b) get, K(b) kind == Foo, K(b) /a, K(/a) /c).\n(Foo(1) mk(2), Foo(3) mk(4))",
               (((2, True, True), False, None, 1), ((4, True, True), False, None, 3)))
    yield case("Foo = class(a): /a = a, D = class(b): /b = b.\n /d = D(a + 1).\nFoo get = (): (/a, /d /b, /d kind == Foo).\n(Foo(1) get, Foo(5) get)", ((1, 2, False), (5, 6, False)))
    yield case("Foo = class(a): /a = a.\nFoo mk = (): K = class(c): /c = c.\n K mk = (n): L = class(c): /c = c + n, /d = n.\n L both = (): (/c, /d, self kind == L).\n L(/c) both.\n K(/a) mk(7).\nFoo(3) mk", (10, 7, True))
    yield case("Foo = class(a): /a = a.\nFoo meta make = (n): Foo(n).\n(Foo make(3) /a, Foo(1) make(3))", (3, None))
    yield case("Foo = class(a): /a = a.\nFoo chain = (n): /a = /a * 10 + n, self.\nFoo(0) chain(1) chain(2) chain(3) /a", 123)
    yield case("Foo = class(a): /a = a.\nFoo k = 5\nf = Foo(1)\nr = f k\nFoo k = 'x'\n(r, f k, Foo(2) k)", (5, "x", "x"))
    yield case("Foo = class(a): /a = a.\nFoo get = (): s = self\n h = (): s /a.\n h.\nf = Foo(1)\nh = f get\nf /a = 9\nh()", 9)
    yield case("Foo = class(a): /a = a.\nFoo up = (): s = self\n 3 times (i): s /a = s /a + i.\n /a.\nFoo(10) up", 13)
    yield case("Foo = class(a): /a = a, /r = self get.\nFoo get = (): /a * 2.\nFoo(4) /r", 8)
    yield case("Foo = class(a): /a = a, self init.\nFoo init = (): /b = /a + 1.\nBar = Foo class(a): /a = a, /b = 0, self init.\n(Foo(1) /b, Bar(1) /b)", (None, 2))
    yield case("Foo = class(a): /a = a.\nf = Foo(nil)\nf /a = f\n(f /a == f, f /a /a /a == f)", (True, True))
    yield case("Foo = class(a): /a = a.\nf = Foo((1, 2))\nf /a push(3)\n(f /a, f /a length)", ((1, 2, 3), 3))
    yield case("Foo = class(a): /a = a.\nFoo plus = (o): Foo(/a + o /a).\nFoo(1) plus(Foo(2)) plus(Foo(4)) /a", 7)
    yield case("Foo = class(a): /a = a.\nFoo down = (n): /a = /a + n\n if (n > 0): self down(n - 1). else: /a..\nFoo(0) down(20)", 210)
    yield case("Node = class(v, n): /v = v, /n = n.\nl = nil\n50 times (i): l = Node(i, l).\ns = 0\nwhile (l): s = s * 3 % 1000007 + l /v, l = l /n.\ns", node())
    yield case("Foo = class(a): /a = a.\nf = Foo(1)\nr = (f ?get, f can('get'), f get)\nFoo get = (): /a.\n(r, f ?get, f can('get'), f get)", ((False, False, None), True, True, 1))
    for op, e in (("+= 3", 10), ("-= 3", 4), ("*= 3", 21), ("||= 3", 7)):
        yield case("Foo = class(a): /a = a, /z = nil.\nf = Foo(7)\nf /a %s\nf /a" % op, e)
    yield case("Foo = class(a): /a = a, /z = nil.\nf = Foo(7)\nf /z ||= 3\nf /z", 3)
    yield case("t = (1=1)\nFoo = class(a): /a = a.\no = ()\n20 times (i): o push(Foo(i)).\no each (x): t put(x, x /a).\nr = ()\no each (x): r push(t(x)).\n(r, t length)",
               (tuple(range(20)), 21))


def node():
    s = 0
    for i in reversed(range(50)):
        s = s * 3 % 1000007 + i
    return s


# how a constructor can name a field, and whether that makes it a field
NAMING = [("", 0), ("/%s = 0", 1), ("/%s", 1), ("?/%s", 1), ("v = /%s", 1), ("l = (1, /%s)", 1), ("if (false): /%s = 1.", 1), ("g(2, /%s)", 1), ("h = (): /%s.", 0), ("while (/%s): break.", 1),
          ("/%s = (1, 2)", 1), ("r = not /%s", 1)]


def gen_declared(c, forms, nf):
    """the fields of an object are those its constructor names in any place; the others are not stored."""
    for fs in itertools.product(forms, repeat=nf):
        names = "xyz"[:nf]
        body = ", ".join(f[0] % n for f, n in zip(fs, names) if f[0]) or "0"
        c.trans(2 * nf)
        c.state(tuple(f[0] for f in fs))
        exp = [[i + 3 if f[1] else None for i, f in enumerate(fs)], [i + 13 if f[1] else None for i, f in enumerate(fs)], [bool(f[1]) for f in fs]]
        for sub in (0, 1):
            src = "g = (a, b): a.\nA = class: %s.\n%sA set = (n): %s.\n" % (body, "B = A class: /w = 9.\n" if sub == 1 else "", ", ".join("/%s = n + %d" % (n, i) for i, n in enumerate(names)))
            if sub:
                src = src.replace("/w = 9", "/w = 9, " + body)
            src += "A get = (): r = ()\n%s\n r.\n" % "\n".join(" r push (/%s)" % n for n in names)
            src += "a = %s()\na set(3)\nb = %s()\nb set(13)\n" % (("A", "A"), ("B", "B"))[sub]
            yield src + "(a get, b get, (%s))" % ", ".join("a ?/%s" % n for n in names), fmt(exp)


def gen_wide(c, ns, ms):
    """a parent with m fields, a child with n of its own and a grandchild with k: each kept in every one, whichever class's method or outside access writes it"""
    for m in ns:
        for n in ms:
            for k in (0, 1, 9):
                c.state(("wide", m, n, k))
                c.trans(4 * (m + n + k))
                F = ["f%d" % i for i in range(m)], ["g%d" % i for i in range(n)], ["h%d" % i for i in range(k)]
                src = "".join("%s = %sclass(b): %s.\n" % (K, P, ", ".join("/%s = b + %d" % (f, i) for i, f in enumerate(fs)) or "0")
                              for K, P, fs in zip("ABC", ("", "A ", "B "), F))
                # fields given by methods of the class that has them, all of them read from outside
                src += "".join("%s set%s = (b):\n%s\n 0.\n" % (K, K, "\n".join(" /%s = b + %d" % (f, i) for i, f in enumerate(fs))) for K, fs in zip("ABC", F))
                src += "o = C(100)\np = C(500)\nq = B(700)\no setA(1000)\no setB(2000)\no setC(3000)\np setA(4000)\np setB(5000)\n"
                if k:
                    src += "p /h0 = 'x'\n"
                if m:
                    src += "q setA(9000)\nq /f%d = 'y'\n" % (m - 1)
                every = lambda v, fs: "r = ()\n" + "\n".join("r push(%s /%s)" % (v, f) for f in fs) + "\nall push(r)\n"
                src += "all = ()\n" + every("o", F[0] + F[1] + F[2]) + every("p", F[0] + F[1] + F[2]) + every("q", F[0] + F[1] + ["h0"]) + "all"
                fl = [9000 + i for i in range(m)]
                if m:
                    fl[-1] = "y"
                yield src, fmt([[1000 + i for i in range(m)] + [2000 + i for i in range(n)] + [3000 + i for i in range(k)],
                                [4000 + i for i in range(m)] + [5000 + i for i in range(n)] + ["x" if i == 0 else 500 + i for i in range(k)],
                                fl + [700 + i for i in range(n)] + [None]])


def gen_constants(c):
    """a value given as a method: every kind of value, sent to instances, heirs and the class redefined"""
    for a, v in VALS:
        for b, w in VALS:
            c.state(("const", a, b))
            c.trans(5)
            yield ("A = class: /z = 1.\nB = A class: /y = 2.\nA m = %s\no = A()\np = B()\nx = (o m, p m)\nB m = %s\ny = (o m, p m)\nA m = %s\n(x, y, (o m, p m))" % (a, b, b),
                   fmt([[v, v], [v, w], [w, w]]))
            yield "Lobby m = %s\nx = m\nLobby m = %s\n(x, m)" % (a, b), fmt([v, w])


VALS = [("1", 1), ("0", 0), ("-7", -7), ("2.5", 2.5), ("'s'", "s"), ("''", ""), ("true", True), ("false", False), ("(1, 2)", (1, 2)), ("()", ()), ("4611686018427387000", 4611686018427387000)]


def gen_many(c, ns):
    for n in ns:
        V = range(n)
        c.state(("many", n))
        c.trans(n)
        # a chain of n classes, each with a field, every second one overriding the method
        if n <= 300:
            yield ("C0 = class(x): /f0 = x.\nC0 m = (): 0.\nC0 base = (): /f0.\n" +
                   "\n".join("C%d = C%d class(x): /f0 = x, /f%d = x + %d.%s" % (i, i - 1, i, i, "\nC%d m = (): %d." % (i, i) if i % 2 else "")
                             for i in range(1, n + 1)) + "\no = C%d(5)\np = C0(1)\n(o m, o base, o /f%d, o /f0, p m, p /f0, p /f1, o subclass?(C0), p subclass?(C%d))" % (n, n, n),
                   fmt(((n if n % 2 else n - 1), 5, 5 + n if n else 5, 5, 0, 1, None, True, n == 0)))
        # n classes made in a loop from one text: each has its own identity and methods
        yield ("l = ()\nmk = (i): K = class(x): /a = x, /i = i.\n K id = (): /i * 2 + /a.\n K.\n%d times (i): l push(mk(i)).\nr = ()\n"
               "l each (k, i): o = k(i)\n r push(o /a)\n if (o kind == k): r push(1)..\nr" % n,
               fmt(tuple(x for i in V for x in (i, 1))))
        # one method redefined n times, n methods, n class constants
        yield ("A = class(x): /x = x.\na = A(1)\ns = 0\n" + "\n".join("A m = (): %d.\ns = s + a m" % i for i in V) + "\ns", fmt(sum(V)))
        yield ("A = class(x): /x = x.\nB = A class\nb = B(4)\n" + "\n".join("%s k%d = %d" % ("AB"[i % 2], i, i) for i in V) +
               "\n(%s)" % ", ".join(["b k%d" % i for i in V] + ["b k%d" % n, "0"]), fmt(tuple(V) + (None, 0)))
        # an object with n fields set in reverse order from outside
        yield ("A = class: %s.\na = A()\n" % ", ".join("/g%d = nil" % i for i in range(n + 1)) + "\n".join("a /g%d = %d" % (i, i * 3) for i in reversed(V)) +
               "\nb = A()\nb /g%d = 'last'\n(%s)" % (n, ", ".join(["a /g%d" % i for i in V] + ["a /g%d" % n, "b /g%d" % n, "b /g0"])),
               fmt(tuple(i * 3 for i in V) + (None, "last", None)))


def gen_types(c, ns):
    """so many classes that the table of types grows"""
    for n in ns:
        c.state(("types", n))
        c.trans(n)
        yield ("A = class(x): /a = x.\nA m = (): 'm'.\na = A(1)\nl = ()\nmk = (i): K = A class(x): /b = x, /c = i.\n K.\n%d times (i): k = mk(i)\n"
               " if (i %% 100 == 0): l push(k(i))..\ns = 0\nl each (o): if (o m == 'm'): s = s + o /b..\n(s, a m, a /a, mk(1)(5) /b, l length)" % n,
               fmt((sum(range(0, n, 100)), "m", 1, 5, (n + 99) // 100)))


def gen_wrap(c, n, lo):
    """classes whose number has the low 16 bits of a built-in kind: messages, fields, calls and variables shared with closures"""
    c.state(("wrap", n, lo))
    c.trans(n + 8 * (n - lo))
    mk = "A = class(x): /a = x.\nA m = (): 'm'.\nmk = (i): K = A class(x): /b = x.\n K.\nl = ()\n%d times (i): k = mk(i)\n if (i >= %d): l push(k(i))..\n" % (n, lo)
    k = n - lo
    tot = sum(range(lo, n))
    for use, exp in (("s = 0\nl each (o): g = (): o.\n if (g() m == 'm'): s = s + g() /b..\ns", tot),
                     ("n = 0\nl each (o): r = o(1), if (o /b != nil): n++..\nn", k),
                     ("q = 0\nl each (o): w = o, h = (): w m., w = o, if (h() == 'm'): q++., if (w m == 'm'): q++..\nq", 2 * k),
                     ("q = 0\nl each (o): if (o == o): q++., if (o kind name == 'K'): 0., t = ('z'=0), t put(o, 1), q = q + t at(o), u = (1, o), if (u at(1) == o): q++..\nq", 3 * k),
                     ("l map (o): o /b.", list(range(lo, n))),
                     ("q = 0\nl each (o): c = o kind, p = c(7), q = q + p /b.\nq", 7 * k)):
        yield mk + use, fmt(exp)


def explore(c):
    q = c.quick
    c.run("fixed programs", gen_fixed(c), modes="VJCD")
    c.run("fields a constructor names", itertools.chain(gen_declared(c, NAMING, 2), gen_declared(c, NAMING[:4] if q else NAMING, 3)), modes="VJ")
    c.run("many fields", itertools.chain(gen_wide(c, [0, 1, 6, 7, 8, 16] if q else list(range(18)) + [31, 32, 33, 64, 127, 128, 129], [0, 1, 5, 6, 7, 8, 9, 33] if q else list(range(18)) + [32, 64, 128])), modes="VJ")
    c.run("many fields, collections", gen_wide(c, [0, 7, 16], [0, 8]), modes="VJ", gc="a")
    c.run("values as methods", gen_constants(c), modes="VJC")
    c.run("hierarchies of 1 and 2 classes", itertools.chain(gen_hierarchies(c, 1, CTORS, PATTERNS), gen_hierarchies(c, 2, CTORS, PATTERNS)), modes="VJ" if q else "VJCD")
    c.run("hierarchies of 3 classes", gen_hierarchies(c, 3, CTORS[0:4:1] if q else CTORS, (PATTERNS[4], PATTERNS[2], PATTERNS[3]) if q else PATTERNS[:4]), modes="VJ")
    c.run("histories", gen_histories(c, 3 if q else 4), modes="VJ")
    c.run("dispatch on built-in types", gen_builtin(c, ["Lobby", "Object", "Number", "K", "J", "Integer", "String"] if q else
          ["Lobby", "Object", "Number", "Integer", "Double", "String", "NilKind", "Boolean", "Tuple", "Table", "Function", "K", "J"], None), modes="VJ")
    c.run("many classes", gen_many(c, list(range(1, 36)) + [64, 100, 129, 260] if q else list(range(1, 200)) + [255, 256, 257, 300, 500, 513, 1000]), modes="VJ", chunk=40, cpu=20)
    c.run("classes beyond 16 bits", gen_wrap(c, 65600, 65500), modes="VJ", chunk=1, cpu=60)
    c.run("very many classes", gen_types(c, [10, 4000, 4100] if q else [10, 4000, 4060, 4080, 4095, 4096, 4100, 5000, 9000, 20000]), modes="VJ", chunk=1, cpu=60)
