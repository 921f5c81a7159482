"""C13: garbage collections are invisible: wherever one happens, the program computes the same."""
import itertools, subprocess
import pn
from vp import fmt
from checks import c26

# small programs that together use every kind of heap object and every allocating primitive; the last value shows
# everything that was built. None of them needs a collection by itself.
PROGS = [
    "l = (1, 2)\nl push('a' + 'b')\nl push((3, 4))\nl unshift(2.5)\nl map (x): x string.",
    "l = ()\n1 to 12 (i): l push(i * 0.5).\nl reverse",
    "l = ('a' + 'b', 'c' + 'd', 'e' + 'f')\n(l clone, l slice(1, 2), l remove(0), l delete(1), l pop, l shift, l)",
    "l = (1, 2)\nm = l\nl put(5, 'x' + 'y')\nl put('k' + 'l', 2.25)\n(l at('kl'), m, l length)",
    "l = (3.5, 1.5, 2.5)\n(l sort((a, b): b - a.), l sort((a, b): a cmp(b).), ('c' + 'c', 'a' + 'b', 'b' + 'c') sort((a, b): a cmp(b).))",
    "(1, 2, 3) reduce((a, b): a * 1.5 + b., 0)",
    "((1, 2, 3) filter((x): x * 1.5 > 2.), ('a', 'b') join('-' + '-'), (1, 2) append((3, 'x' + 'z')), (1, 2, 3) nreverse)",
    "t = (a=1, b='x' + 'y')\nt put('c' + 'd', (1, 2))\n(t at('cd'), t keys length, t)",
    "t = (1=2)\n1 to 20 (i): t put(i, i * 1.5).\nt",
    "t = (1=2)\n1 to 12 (i): t put('k' + i string, i * 1.5), t remove('k' + |i - 1. string).\n(t, t length)",
    "t = ('a'='b', 'c'='d')\n(t keys, t values, t map (k, v): k + v., t filter (k): k == 'a'., t clone, t slice(('a', 'b'))) map (x): x length.",
    "t = (a=(1, 2), b=(3, 4))\no = ()\nt each (k, v): v push(k + k), o push(v length).\n(t, o)",
    "f = (n): if (n < 2): n. else: f(n - 1) + f(n - 2)..\nf(6)",
    "f = (a, b:='xy', c:='zz'): (a, b, c).\n(f(1), f(1, 2), f('q' + 'r', 2, 3.5))",
    "f = (a, b): a + b.\n(f(b='z' + '1', a='q'), f('a' + 'b', 'c' + 'd'))",
    "mk = (n): (x): n = n + x.. \na = mk(1)\nb = mk(2.5)\n(a(1), a(2), b(1), b(2), a(0.5))",
    "mk = (n): g = (): n push(n length * 1.5), n.. \nk = (1, 'a' + 'b')\ng = mk(k)\ng()\ng()\n(k, g())",
    "a = 'x' + 'y'\nf = (): a = a + 'z', (): a = a + a, a..\n(f()(), a)",
    "Foo = class(a): /a = a.\nFoo bar = (x): /a push(x).\nf = Foo((1, 2))\nf bar('q' + 'r')\nf bar(1.5 + 2)\nf",
    "A = class(x): /x = x * 1.5.\nA get = (): /x.\nB = class(x): /x = x + 0.25, /y = 'y' + 'y'.\nB get = (): (/x, /y).\n(A(1) get, B(2) get, A(3), B(4))",
    "P = class: /l = ().\nP add = (x): /l push(P()), /l push(x), self.\np = P()\np add(1) add('a' + 'b') add(2.5)\np",
    "Foo = class(a, b): /a = a, /b = b.\nFoo string = (): 'F' + /a string + /b.\nf = Foo(1.5, 'x' + 'y')\n(f string, f kind name, f /a, f)",
    "d = [html (a=1) [b 'x', c (k='l' + 'm') 'text', e]]\n(d, d(0) attr, d(0) licks, d(0) name + 'q')",
    "d = [page [p [r (z=2.5) 'deep']], q (w=1.5) 'c' ]\n(d, d(0) name, d(0) licks, d(0) string, d(1) attr, d(1) text, d(0) licks (0) licks (0) attr)",
    "s = ''\n1 to 10 (i): s = s + i string.\ns",
    "a = here\na",
    "'1.5 + 2' eval",
    "|'l = (1, 2), l push(' + '\"a\" + \"b\"), l'. eval",
    "'f = (x): x + 1.5., (f(1), f(2))' eval",
    "x = 0\nl = ()\nwhile (x < 12): l push(x * 0.5), x = x + 1.\nl reverse",
    "b = 'ab' bytes\nb append('cd' + 'ef')\nc = b clone\nb append(c)\n(b, c, b string, b string == 'abcdefabcdef', b length, b(1))",
    "b = 'x' bytes\n1 to 12 (i): b append('abcdefgh' + i string).\nb string",
    "('abc' slice(0, 2), 'a' + 'é€', 'aé€'(1), 'héé' bytes string, 'abc' clone, 'ab' ord(1), 'ab' cmp('a' + 'c'), '1.5' number, '12' number)",
    "(1.5 + 2.25, 2 ** 0.5, 1 / 0, 4611686018427387903 + 1, -1.5, 3.5 % 2, 7.0 string, 65 chr, 1.5 abs, 1.5 integer, 2 double, 9 sqrt)",
    "a = 1.5\nb = a\na += 1.25\nc = a * b\n(a, b, c, a == 2.75, a < b)",
    "l = ((1, ('a' + 'b', 2.5)), (2, ('c' + 'd', 3.5)))\nl each (x): x push(x(1)(0) + 'z').\nl",
    "a = (1, 2)\nb = (a, a)\na push(b length * 1.5)\nb push(a)\n(b, b(0) == b(1))",
    "f = (x): x push(1.5).\na = (1, 'b' + 'c')\n1 to 5 (i): f(a).\n(a, a length)",
    "g = (k): r = ()\n k times (i): r push((i, i string + 'q'))\n .\n r.\n(g(3), g(4) map (p): p(1).)",
    "o = ()\n3 times (i): o push(i * 1.5).\n1 to 3 (i): o push(i string + 's').\n1 step(7, 3, (i): o push((i, i + 0.5)).)\no",
    "x = 'a' + 'b'\nif (x == 'ab'): y = x + 'c'. else: y = 1.5.\n(x, y, x length, y == 'abc')",
    "t = ()\ni = 0\nloop: i++, if (i > 6): break., if (i == 3): continue.\n t push('k' + i string).\nt",
    "a = 'q' + 'w'\nt = (1=1)\nt put(a, 'first' + 'v')\nb = 'q' + 'w'\n(t at(b), a == b, t at('qw'), t length)",
    "(1, 2.5, 'x' + 'y', nil, true, (1=2.5), (1, 2)) string",
    "c = class(a): /a = a.\nx = c(1.5)\ny = c(x)\nz = c(y)\n(z, z /a /a /a)",
    "g = (a, b): (a, b, a + b).\n(g(1.5, 2), g('a', 'b' + 'c'), g((1, 2), 3) length)",
    "a1 = 1.5, a2 = 'b' + 'c', a3 = (1, 2), a4 = 2.5, a5 = 'd' + 'e', a6 = (3=4.5), a7 = 3.5, a8 = a2 + a5, a9 = a1 + a4\n(a1, a2, a3, a4, a5, a6, a7, a8, a9, a1 + a9, a8 + a2)",
    "f = (a, b, c, d, e, g, h): (h, g + e, d, c, b, a).\nf(1.5, 'x' + 'y', (1, 2), 2.5, 'p', 'q' + 'r', (7, 8.5))",
    "r = (a, n): if (n == 0): a. else: b = 'v' + n string\n a push(b)\n r(a, n - 1)..\nr((), 6)",
    "ev = (n): if (n == 0): 'e'. else: od(n - 1) + 'x'..\nod = (n): if (n == 0): 'o'. else: ev(n - 1) + 'y'..\n(1.5, 'a' + 'b')",
    "w = (): (1.5, 'k' + 'l').\nx = w()\ny = w()\nx push(y)\ny push('m' + 'n')\n(x, y, w())",
    "s = 'é' + '€'\nt = (s=1)\nt put(s, s + s)\n(t, t at('é' + '€'), s(1), s slice(1, 2))",
    "p = (x): x print.\np('a' + 'b')\n'c' + 'd' print\n(1.5, 'z' + 'z') print\n2.5 print\n1",
    "|'a' + 'b'. kind string + 'x'",
    "o = (1, 2, 3)\nq = ()\no each (x, i): q push((i, x * 1.5)), if (i == 0): q push('first' + 'x')..\nq",
    "f = (n): n * 1.5.\ng = (h, x): h(x) + h(x).\n(g(f, 2), g((y): y string + 'k'., 3))",
    "a = 1.5\nf = (): b = 'in' + 'ner'\n g = (): a = a + 1.25\n b = b + '!'\n (a, b).\n (g(), g(), a, b).\n(f(), a)",
    "x = 5.5\ny = |x > 5 and 'yes' + '!'.\nz = |x > 6 or 'no' + '!'.\n(x, y, z, not x)",
    "l = list(6)\n6 times (i): l put(i, i string + 'e').\n(l, l first, l last, l join('+' + '-'))",
    "t = (1, 2.5)\nt at(0)\nu = t map (x): (x, x + 0.5).\nv = u map (p): p reduce((a, b): a + b., 0.25).\n(t, u, v)",
    "rw = (s): s bytes append('z' + s) string.\n(rw('a'), rw('b' + 'c'))",
    "c = class(n): /n = n, /k = ().\nc add = (x): /k push(x), x.\nroot = c('r' + '1')\n4 times (i): root add(c('n' + i string)) add(i * 1.5).\nroot",
]


def gen_heavy(c, sizes):
    """programs that fill the heap by themselves: n live objects of each kind, or n writes of young into old objects,
    with garbage in between, so that minor and major collections, growth of the regions and of the remembered set happen"""
    for n in sizes:
        def case(src, exp):
            c.trans(n)
            c.states.add(hash((src, n)))
            return "n = %d\n%s" % (n, src), fmt(exp)
        M = 1000003
        # n interned strings, found again by content
        yield case("t = (z=0)\ni = 0\nwhile (i < n): t put('key' + i string, i * 0.5), i++.\n"
                   "bad = 0\ni = 0\nwhile (i < n): if (t at('key' + i string) != i * 0.5): bad++.\n i++.\n(t length, bad)", (n + 1, 0))
        # a list of lists
        yield case("l = ()\ni = 0\nwhile (i < n): l push((i, i * 1.5, 'v' + i string)), i++.\n"
                   "h = 0\nl each (x): h = h * 7 % 1000003 + x(0) + x(2) length.\nh",
                   hsh(n))
        # a chain of objects, built at its end; every object is only reachable through the one before
        yield case("N = class(v): /v = v, /n = nil.\nN link = (x): /n = x.\nN next = (): /n.\nN val = (): /v.\n"
                   "first = N(0.5)\nlast = first\ni = 1\nwhile (i < n): x = N(i + 0.5), last link(x), last = x, i++.\n"
                   "c = 0\ns = 0\nx = first\nwhile (x): c++, s = s + x val, x = x next.\n(c, s)", (n, n * n / 2.0))
        # an old list and an old table whose slots get young values all the time
        yield case("l = ()\nt = (0=0)\ni = 0\nwhile (i < 100): l push(nil), t put(i, nil), i++.\n"
                   "i = 0\nwhile (i < n): l put(i % 100, 'x' + i string), t put(i % 100, (i, i + 0.5)), i++.\n"
                   "bad = 0\ni = n - 100\nwhile (i < n): if (l(i % 100) != 'x' + i string): bad++.\n"
                   " if (t at(i % 100)(1) != i + 0.5): bad++.\n i++.\n(bad, l length, t length)", (0, 100, 100))
        # old closures and objects with young values
        yield case("C = class(): /v = 0.\nC set = (x): /v = x, self.\nC get = (): /v.\no = C()\nk = 0.5\nf = (): k = k + 1.0.\n"
                   "keep = ()\ni = 0\nwhile (i < n): o set((i, 'g' + i string)), f(), if (i % 97 == 0): keep push(o get).\n i++.\n"
                   "bad = 0\nkeep each (x, i): if (x(1) != 'g' + |i * 97. string): bad++..\n(o get, k, keep length, bad)",
                   ((n - 1, "g%d" % (n - 1)), n + 0.5, (n + 96) // 97, 0))
        # closures
        yield case("mk = (a): (b): a = a + b..\nl = ()\ni = 0\nwhile (i < n): l push(mk(i * 1.0)), i++.\n"
                   "l each (f): f(1.5).\ns = 0\nl each (f): s = s + f(0.5).\ns", float(sum(range(n)) + 2 * n) if n else 0)
    # trees: build, drop, rebuild
    d = max(4, sizes[-1].bit_length() - 3)
    yield ("T = class(l, r): /l = l, /r = r.\nT n = (): a = 1\n if (/l): a = a + /l n.\n if (/r): a = a + /r n.\n a.\n"
           "mk = (d): if (d == 0): T(nil, nil). else: T(mk(d - 1), mk(d - 1))..\n"
           "long = mk(%d)\ns = 0\n1 to 12 (i): s = s + mk(%d) n.\n(long n, s)" % (d, d)), fmt((2 ** (d + 1) - 1, 12 * (2 ** (d + 1) - 1)))


def gen_old(c, sizes):
    """every way to write a young value into a container of every size that is old already"""
    junk = "g = 0\n5 times (i): g = ('j' + i string, i + 0.5)."
    young = [("'y' + %s string", lambda i: "y%d" % i), ("%s + 0.25", lambda i: i + 0.25), ("(%s, 'in' + 'z')", lambda i: [i, "inz"])]
    for n in sizes:
        l0 = list(range(n))
        for y, f in young:
            v, w = f(7), f(8)
            Y = lambda i: y % i
            ws = [("l push (%s)\nl push (%s)" % (Y("7"), Y("8")), l0 + [v, w]), ("l unshift (%s)\nl unshift (%s)" % (Y("7"), Y("8")), [w, v] + l0),
                  ("l put (l length, %s)" % Y("7"), l0 + [v]), ("l append (%s)" % Y("7"), l0 + [v])]
            if n:
                ws += [("l put (0, %s)" % Y("7"), [v] + l0[1:]), ("l put (-1, %s)" % Y("7"), l0[:-1] + [v]), ("l(%d) = %s" % (n - 1, Y("7")), l0[:-1] + [v]),
                       ("l pop\nl push (%s)" % Y("7"), l0[:-1] + [v]), ("l shift\nl unshift (%s)" % Y("7"), [v] + l0[1:]), ("l delete (0)\nl push (%s)" % Y("7"), l0[1:] + [v])]
            for t, e in ws:
                c.state((n, t))
                c.trans(2)
                yield "l = ()\n%d times (i): l push (i).\n%s\n%s\n%s\nm = l clone\nl push (m length)\nm" % (n, junk, t, junk), fmt(e)
            # a list that becomes a table; tables
            yield "l = ()\n%d times (i): l push (i).\n%s\nl put ('k' + 'ey', %s)\n%s\n(l length, l at ('key'), l at (%d), l at (0))" % (n, junk, Y("7"), junk, n - 1), fmt((n + 1, v, n - 1 if n else None, 0 if n else None))
            yield ("t = ('a'=0)\n%d times (i): t put (i, i).\n%s\nt put ('k' + 7 string, %s)\nt put (%d, %s)\nt('b' + '') = %s\n%s\n(t length, t at ('k7'), t at (%d), t at ('a'), t at ('b'), t at (%d), t keys length)" % (n, junk, Y("7"), n // 2, Y("8"), Y("9"), junk, n // 2, n - 1),
                   fmt((n + 3 + (n == 0), v, w, 0, f(9), w if n <= 1 and n // 2 == n - 1 else None if n == 0 else n - 1 if n // 2 != n - 1 else w, n + 3 + (n == 0))))
            c.trans(3)
        if n <= 130:
            k = max(n, 1)
            # an object of k fields, a closure of k variables, k globals, k methods of a class
            yield ("K = class (): %s.\nK set = (v): /f%d = v.\nK get = (): /f%d.\no = K ()\n%s\no set ('y' + 7 string)\n%s\n(o get, o /f0)" % (", ".join("/f%d = %d" % (i, i) for i in range(k)), k - 1, k - 1, junk, junk), fmt(("y7", "y7" if k == 1 else 0)))
            yield ("mk = (): %s, (x): %s, if (x): v%d = x.\n (v0, v%d)..\nf = mk ()\n%s\nf ('y' + 7 string)\n%s\nf ()" % (", ".join("v%d = %d" % (i, i) for i in range(k)), ", ".join("v%d = v%d" % (i, i) for i in range(k)), k - 1, k - 1, junk, junk), fmt(("y7" if k == 1 else 0, "y7")))
            # variables a closure shares, assigned where they are declared; fields written from outside
            vs = "\n".join("v%d = %d" % (i, i) for i in range(k))
            for wr, val in (("v%d = 'y' + 7 string" % (k - 1), "y7"), ("v%d = v%d + 0.25" % (k - 1, k - 1), k - 0.75), ("v%d += 0.5" % (k - 1), k - 0.5), ("v%d = ('in' + 'z', 3)" % (k - 1), ["inz", 3])):
                e = fmt((val if k == 1 else 0, val))
                yield ("%s\nf = (): (v0, v%d).\n%s\n%s\n%s\nf ()" % (vs, k - 1, junk, wr, junk), e)
                yield ("h = ():\n%s\nf = (): (v0, v%d).\n%s\n%s\n%s\nf ().\nh ()" % (vs, k - 1, junk, wr, junk), e)
                c.trans(2)
            yield ("K = class (): %s.\nK get = (): /f%d.\no = K ()\n%s\no /f%d = 'y' + 7 string\n%s\n(o get, o /f0)" % (", ".join("/f%d = %d" % (i, i) for i in range(k)), k - 1, junk, k - 1, junk), fmt(("y7", "y7" if k == 1 else 0)))
            yield ("%s\n%s\nLobby g%d = 'y' + 7 string\n%s\n(g%d, g0)" % ("\n".join("Lobby g%d = %d" % (i, i) for i in range(k)), junk, k - 1, junk, k - 1), fmt(("y7", "y7" if k == 1 else 0)))
            yield ("K = class: /a = 'a'.\n%s\no = K ()\nz = 'y' + 7 string\n%s\nK m%d = (): 'r' + z.\n%s\n(o m%d, o m0)" % ("\n".join("K m%d = (): %d." % (i, i) for i in range(k)), junk, k - 1, junk, k - 1), fmt(("ry7", "ry7" if k == 1 else 0)))
            c.trans(4)


def gen_capture(c, depths, ks):
    """variables captured through every depth of functions, a collection at every allocation of the compiler too"""
    for d in depths:
        for k in ks:
            use = "(%s)" % ", ".join("v%d" % i for i in range(k))
            for after in (0, 1):
                body = use
                for i in range(d):
                    body = "f%d = (): %s.\n%s f%d ()" % (i, body, "z = (v%d, w%d)\n" % (k - 1, i) if after and i == 1 else "", i) if i else "f0 = (): %s.\n f0 ()" % body
                c.state((d, k, after))
                c.trans(d)
                yield "w1 = 'w'\ng = (%s): %s.\ng (%s)" % (", ".join("v%d" % i for i in range(k)), body, ", ".join("%d" % i if i % 2 else "'s%d'" % i for i in range(k))), \
                    fmt([i if i % 2 else "s%d" % i for i in range(k)])


def hsh(n):
    h = 0
    for i in range(n):
        h = h * 7 % 1000003 + i + len("v%d" % i)
    return h


def gen_exprs(c, step):
    """C26's expressions, every one parsed, compiled and run with a collection at every allocation."""
    seen = set()
    for x in itertools.chain(c26.build(0, c26.ATOMS, c26.POST, [], (1, 0)), c26.build(1, c26.ATOMS[::step], [], c26.CTX, (0, 0))):
        p = c26.prog(x)
        if p and x.s not in seen:
            seen.add(x.s)
            c.state(p[1])
            c.trans(2)
            yield p[0], p[1], x.s


def explore(c):
    q = c.quick
    progs = [(p, None) for p in PROGS]
    c.states.update(hash(p) for p in PROGS)
    c.run("parse, compile, dump, load and run", progs, modes="VJCD", gc="nMaA", gcparse=True, cpu=10, chunk=4)
    c.run("run, pairs of collections", progs, modes="VJ" if q else "VJCD", gc="p", maxk=1500 if q else 10 ** 6, cpu=10, chunk=1)
    c.cov["transitions"] += sum(p.get("gc_schedules", 0) for p in c.parts.values())
    c.run("every expression", gen_exprs(c, 6 if q else 1), modes="VJ" if q else "VJCD", gc="aA", gcparse=True, cpu=20)
    c.run("captured at depth", gen_capture(c, range(1, 5) if q else range(1, 10), [1, 2, 3, 4, 5, 8, 9, 16, 17] if q else range(1, 40)), modes="VJ", gc="aA", gcparse=True, cpu=20)
    c.run("writes into old containers", gen_old(c, [0, 1, 2, 3, 4, 5, 6, 7, 8, 12, 15, 16, 17, 31, 33, 63, 64, 65, 100, 130] if q else list(range(0, 70)) + [99, 100, 101, 127, 128, 129, 130, 255, 256, 257, 511, 513, 1000, 1025]), modes="VJ", gc="aA", cpu=30)
    c.run("heavy", gen_heavy(c, [100, 1000, 5000, 20000, 100000] if q else
                             [100, 500, 1000, 3000, 10000, 30000, 100000, 200000, 500000]), cpu=60, chunk=2)
    interior(c)


def interior(c, replay=None):
    """a C frame points into the middle of a string during collections: whatever stands there, the string is kept"""
    r = subprocess.run([pn.harness("interior.c")], stdout=subprocess.PIPE, timeout=300)
    n = bad = 0
    for line in r.stdout.decode().splitlines():
        word, off, kind, res = line.split()
        n += 1
        if replay and replay["program"] == "word %s at %s of a string, %s" % (word, off, kind):
            return res
        if c:
            c.trans(2)
            c.states.add(hash(line))
            if res != "kept":
                bad += 1
                c.violation("interior pointers", {"program": "word %s at %s of a string, %s" % (word, off, kind), "harness": 1,
                                                  "expected": "kept", "got": res})
    if c:
        c.cov["traces_validated_against_impl"] += n
        c.part("interior pointers", executions=n, mismatches=bad)
        if not n:
            c.violation("interior pointers", {"program": "", "harness": 1, "expected": "results", "got": "none"})


def replay(v):
    got = interior(None, v)
    print(v["program"], "expected", v["expected"], "got", got)
    return int(got != v["expected"])
