"""C06: calls bind every argument to its parameter: positional, named, default, optional, typed."""
import itertools
from vp import fmt, L

# parameter kinds: (source suffix, value when missing)
PLAIN = ("", None)
KINDS = [PLAIN, ("=N", 0), ("=S", ""), (":=9", 9), (":='b'", "b"), (":=2.5", 2.5), (":=58", 58), (":=nil", None), (":=true", True), (":=-3", -3), (":=''", "")]
VALUES = [(7, "7"), ("v", "'v'"), (2.25, "2.25"), (L(1, "y"), "(1, 'y')"), (None, "nil"), (10 ** 12, "1000000000000"), (False, "false")]
NAMES = "abcdefghijklmnopqrstuvwxyz"


def typed(kind, v):
    """may v be passed to a parameter of this kind"""
    if kind[0] == "=N":
        return isinstance(v, (int, float)) and not isinstance(v, bool)
    if kind[0] == "=S":
        return isinstance(v, str)
    return True


def sigs(n, kinds, pipes=True):
    """(source, kinds, minimal number of arguments)"""
    for ks in itertools.product(kinds, repeat=n):
        d = next((i for i, k in enumerate(ks) if k[0].startswith(":")), n)
        yield ", ".join(NAMES[i] + k[0] for i, k in enumerate(ks)), ks, d
        if pipes:
            for p in range(1, n):
                if any(k[0].startswith(":") for k in ks[:p]):
                    continue            # no '|' after a default
                src = NAMES[0] + ks[0][0]
                for i in range(1, n):
                    src += ("|" if i == p else ", ") + NAMES[i] + ks[i][0]
                yield src, ks, min(p, d)


def arg_lists(ks, minargs, named, rot):
    """(source, bound values): every number of arguments; every split into positional and named, every order of the named"""
    n = len(ks)
    for cnt in [0] + list(range(max(1, minargs), n + 1)):
        vals = []
        for i in range(cnt):
            opts = [v for v in VALUES if typed(ks[i], v[0])]
            vals.append(opts[(i * 3 + rot) % len(opts)])
        bound = tuple(v[0] for v in vals) + tuple(k[1] for k in ks[cnt:])
        yield ", ".join(v[1] for v in vals), bound
        if named and cnt:
            for pos in range(cnt):
                for perm in itertools.permutations(range(pos, cnt)):
                    yield ", ".join([v[1] for v in vals[:pos]] + ["%s=%s" % (NAMES[i], vals[i][1]) for i in perm]), bound


# call sites: (text before, text of the call of a function with parameters SIG and body BODY, value wrapper)
def sites(sig, body, args, n):
    yield "direct", "f = (%s): %s.\nf(%s)" % (sig, body, args)
    yield "alias", "f = (%s): %s.\ng = f\n(1, g(%s), 2)" % (sig, body, args)
    yield "method", "C = class: /z = 1.\nC m = (%s): %s.\nC() m(%s)" % (sig, body, args)
    yield "captured", "f = (%s): %s.\nh = (): 1, f(%s).\nh()" % (sig, body, args)
    yield "argument", "f = (%s): %s.\nh = (k): k(%s).\nh(f)" % (sig, body, args)
    yield "inner", "h = (u): f = (%s): %s.\n r = f(%s)\n (u, r).\nh(5)" % (sig, body, args)
    pads = "\n".join(" p%d = %d" % (i, i) for i in range(20))
    yield "pressure", "f = (%s): %s.\nh = (u):\n%s\n r = (1, 2, 3, u, f(%s), p19).\nh(5)" % (sig, body, pads, args)
    yield "constructor", "C = class(%s): /r = %s.\nC get = (): /r.\nC(%s) get" % (sig, body, args)


def wrap(site, v):
    return {"alias": (1, v, 2), "inner": (5, v), "pressure": (1, 2, 3, 5, v, 19)}.get(site, v)


def gen_binding(c, ns, kinds, which=None, named=True, rots=(0,)):
    for n in ns:
        for sig, ks, minargs in sigs(n, kinds):
            body = "(" + ", ".join(NAMES[:n]) + ", 'e')"
            for rot in rots:
                for args, bound in arg_lists(ks, minargs, named, rot):
                    c.state((sig, args))
                    for site, src in sites(sig, body, args, n):
                        if which and site not in which:
                            continue
                        if site == "constructor" and not args and minargs:
                            continue
                        c.trans()
                        yield src, fmt(wrap(site, bound + ("e",)))


def gen_fixed(c):
    def case(s, e):
        c.state(s)
        c.trans()
        return s, fmt(e)
    # library functions with named arguments
    yield case("(1, 2, 3, 4) slice(start=1, end=2)", (2, 3))
    yield case("(1, 2, 3, 4) slice(end=2, start=1)", (2, 3))
    yield case("'potion' slice(end=-2, start=1)", "oti")
    yield case("l = (1, 2, 3)\nl put(value='x', index=1)\nl", (1, "x", 3))
    yield case("t = (a=1)\nt put(value='x', key='k')\nt", {"a": 1, "k": "x"})
    # arguments are evaluated once, in the order of the text, also inside each other
    for n in range(1, 5):
        for perm in itertools.permutations(range(n)):
            for pos in range(n + 1):
                if perm[:pos] != tuple(range(pos)):
                    continue
                args = ", ".join(("%s=" % NAMES[i] if j >= pos else "") + "t(%d)" % i for j, i in enumerate(perm))
                yield case("l = ()\nt = (x): l push(x)\n x * 10.\nf = (%s): (%s, 0).\nr = f(%s)\n(r, l)" % (
                    ", ".join(NAMES[:n]), ", ".join(NAMES[:n]), args), (tuple(i * 10 for i in range(n)) + (0,), tuple(perm)))
    # calls nested in every argument position, with missing arguments inside
    f = "f = (a, b:=2, c:=3): (a, b, c, 0)."

    def nest(d):
        """(source, value) of all call trees of depth d"""
        yield "7", 7
        if d == 0:
            return
        subs = list(nest(d - 1))
        for k in (1, 2, 3):
            for xs in itertools.product(subs, repeat=k):
                yield "f(%s)" % ", ".join(x[0] for x in xs), tuple(x[1] for x in xs) + (2, 3)[k - 1:] + (0,)
        for x, y in itertools.product(subs, subs):
            yield "f(b=%s, a=%s)" % (x[0], y[0]), (y[1], x[1], 3, 0)
    for s, v in nest(2):
        if s != "7":
            yield case("%s\n%s" % (f, s), v)
    # a default is made anew or never changed by the callee
    yield case("f = (a, b:=2): b = b + a\n b.\n(f(1), f(1), f(1, 5), f(1))", (3, 3, 6, 3))
    yield case("f = (a, b:='x'): b = b + a\n b.\n(f('1'), f('2'), f('3', 'q'), f('4'))", ("x1", "x2", "q3", "x4"))
    yield case("f = (a, b:=2): g = (): b = b + a, b.\n g()\n g.\n(f(1)(), 0)" if 0 else
               "f = (a, b:=2): g = (): b = b + a, b.\n g()\n g.\np = f(1)\nq = f(10)\n(p(), q(), p())", (4, 22, 5))
    # recursion with defaults; the callee's parameters are its own
    for n in range(0, 40):
        yield case("f = (n, acc:=0): if (n == 0): acc. else: f(n - 1, acc + n)..\n(f(%d), f(%d))" % (n, n), (n * (n + 1) // 2,) * 2)
        yield case("f = (n, acc:=0): if (n == 0): acc. else: f(acc=acc + n, n=n - 1)..\nf(%d)" % n, n * (n + 1) // 2)
    yield case("f = (a, b:=1): a = a + 1\n if (a < 4): (f(a), a, b). else: (f(a, 9), a, b) if (0). a.\nf(1)" if 0 else
               "f = (a, b:=1): a = a + 1\n if (a < 4): (f(a, a), a, b). else: (a, b)..\nf(1)", (((4, 3), 3, 2), 2, 1))
    # arity and minargs
    for sig, a, m in [("", 0, 0), ("a", 1, 1), ("a, b", 2, 2), ("a, b:=1", 2, 1), ("a:=1, b:=2", 2, 0), ("a=N, b=S", 2, 2), ("a=N|b=N", 2, 1),
                      ("a|b", 2, 1), ("a:='b', b:='a', c:=58, d:=124", 4, 0), ("a, b, c:=58, d", 4, 2)]:
        yield case("f = (%s): 1.\n(f arity, f minargs)" % sig, (a, m))


def gen_many(c, ns):
    """n parameters: all passed, the last k missing, all named in reverse order"""
    for n in ns:
        P = ["a%d" % i for i in range(n)]
        c.state(("many", n))
        for k in {0, 1, 2, n // 2, n - 1}:
            if 0 <= k < n:
                c.trans()
                yield ("f = (%s): (%s, 0).\nf(%s)" % (", ".join("%s:=%d" % (p, i + 500) for i, p in enumerate(P)), ", ".join(P),
                                                     ", ".join(str(i * 3) for i in range(n - k))),
                       fmt(tuple(i * 3 if i < n - k else i + 500 for i in range(n)) + (0,)))
        c.trans(3)
        yield ("f = (%s): (%s, 0).\nf(%s)" % (", ".join(P), ", ".join(P), ", ".join("a%d=%d" % (i, i * 3) for i in reversed(range(n)))),
               fmt(tuple(i * 3 for i in range(n)) + (0,)))
        yield ("f = (%s): (%s, 0).\nh = (k): k(%s).\n(1, 2, h(f))" % (", ".join(P), ", ".join(P), ", ".join("'s%d'" % i for i in range(n))),
               fmt((1, 2, tuple("s%d" % i for i in range(n)) + (0,))))
        yield ("C = class: /z = 5.\nC m = (%s): (%s, /z).\nc = C()\nc m(%s)" % (
            ", ".join("%s:='%s'" % (p, p) for p in P), ", ".join(P), ", ".join("%d" % i for i in range(n // 2 + 1))),
            fmt(tuple(i if i < n // 2 + 1 else "a%d" % i for i in range(n)) + (5,)))


def gen_pressure(c, pads, n=3):
    """named arguments with the call at every register number"""
    for p in pads:
        c.state(("pressure", p))
        for args, b in (("7, 8", (7, 8, 9)), ("b=8, a=7", (7, 8, 9)), ("c=1, b=2, a=3", (3, 2, 1)), ("7, c=1, b=2", (7, 2, 1))):
            c.trans()
            pre = "".join("%d, " % i for i in range(p))
            k = ", ".join("a%d" % i for i in range(p + 1))
            yield ("f = (a, b, c:=9): (a, b, c, 0).\nk = (%s): (%s).\nk(%sf(%s))" % (k, k, pre, args), fmt(tuple(range(p)) + (b + (0,),))) if p else \
                ("f = (a, b, c:=9): (a, b, c, 0).\nf(%s)" % args, fmt(b + (0,)))
            loc = "".join(" p%d = %d\n" % (i, i) for i in range(p))
            yield ("f = (a, b, c:=9): (a, b, c, 0).\nh = (u):\n%s r = f(%s)\n (r, %su).\nh(3)" % (loc, args, "".join("p%d, " % i for i in range(p))),
                   fmt((b + (0,),) + tuple(range(p)) + (3,)))


def gen_deep(c, depths):
    """recursion of every depth, so that each call in turn is the one that does not fit the VM's stack"""
    for d in depths:
        c.state(("deep", d))
        c.trans(6 * d)
        S = d * (d + 1) // 2
        yield ("f = (n, d:=5, e:=7): if (n == 0): 0. else: f(n - 1) + d + e..\nf(%d)" % d, fmt(12 * d))
        yield ("f = (n, d:=5, e:='x'): if (n == 0): (d, e). else: f(n - 1, n)..\n(f(%d), f(%d))" % (d, max(d - 1, 0)),
               fmt(((1, "x") if d else (5, "x"), (1, "x") if d > 1 else (5, "x"))))
        yield ("f = (n, a, b): if (n == 0): (a, b). else: f(b=a + n, n=n - 1, a=b)..\nf(%d, 0, 0)" % d, fmt(named(d)))
        yield ("C = class(x): /x = x.\nC m = (n, k:=2): if (n == 0): /x. else: /x = /x + k\n self m(n - 1)..\nC(3) m(%d)" % d, fmt(3 + 2 * d))
        yield ("f = (n): x = n + 1\n y = x + 1\n r = 0\n g = (k:=3): x = x + k, x.\n if (n > 0): r = f(n - 1).\n r + y + g() - x - 1.\nf(%d)" % d, fmt(S + (d + 1)))
        yield ("f = (n, a=N|b=N): if (n == 0): a. else: a + b + f(n - 1, n)..\nf(%d, 0)" % d, fmt(S))


def gen_wide(c, ws):
    """recursion of every depth around the end of the VM's stack with wide frames: many variables, many arguments at the
    deepest call, many arguments at every call"""
    for w in ws:
        top = 4096 // w + 6
        ps = ", ".join("p%d" % i for i in range(w))
        k = "k = (%s): (p0, p%d, p%d).\n" % (ps, w // 2, w - 1)
        for d in range(1, top):
            c.state(("wide", w, d))
            c.trans(3 * d)
            loc = "\n".join(" v%d = n + %d" % (i, i) for i in range(w))
            yield "f = (n): r = 0\n%s\n if (n > 0): r = f (n - 1).\n r + v0 + v%d + v%d - n.\nf (%d)" % (loc, w // 2, w - 1, d), fmt(sum(2 * n + w // 2 + w - 1 for n in range(d + 1)))
            yield k + "f = (n): if (n == 0): k (%s). else: r = f (n - 1)\n r push (n)\n r..\nf (%d)" % (", ".join(map(str, range(w))), d), fmt([0, w // 2, w - 1] + list(range(1, d + 1)))
            yield k + "f = (n): if (n == 0): (). else: r = k (%s, f (n - 1))\n r push (n)\n r..\nx = f (%d)\nz = 0\nwhile (x length == 4): z = z + x (3) + x (0) + x (1), x = x (2).\n(z, x)" % (
                ", ".join(map(str, range(w - 1))), d), fmt([d * (d + 1) // 2 + d * (w // 2), []])


def named(d):
    n, a, b = d, 0, 0
    while n:
        n, a, b = n - 1, b, a + n
    return (a, b)


def explore(c):
    q = c.quick
    c.run("fixed programs", gen_fixed(c), modes="VJCD")
    c.run("signatures of 1 and 2 parameters", gen_binding(c, (1, 2), KINDS), modes="VJ" if q else "VJCD")
    if q:
        c.run("signatures of 3 parameters", gen_binding(c, (3,), KINDS[:2] + KINDS[3:5] + KINDS[6:7], ("direct", "method", "constructor")))
    else:
        c.run("signatures of 3 parameters", gen_binding(c, (3,), KINDS))
        c.run("signatures of 4 parameters", gen_binding(c, (4,), KINDS[:2] + KINDS[3:5] + KINDS[6:7], ("direct", "method", "pressure")))
        c.run("other values", gen_binding(c, (1, 2), KINDS, rots=range(1, 7)))
    c.run("many parameters", gen_many(c, list(range(1, 31)) if q else range(1, 60)), modes="VJCD", chunk=60)
    c.run("registers", gen_pressure(c, range(0, 40) if q else list(range(0, 140)) + [254, 255, 256, 257]), modes="VJ")
    c.run("deep recursion", gen_deep(c, [d * 10 for d in range(1, 40)] + list(range(100, 200)) + [600, 1000, 2500] if q else list(range(0, 1500)) + [2000, 3000, 5000, 8000]), modes="VJ", chunk=60, cpu=20)
    c.run("deep recursion of wide frames", gen_wide(c, [30, 60, 100, 300, 700] if q else [20, 25, 30, 40, 50, 60, 80, 100, 127, 128, 129, 200, 256, 300, 400, 500, 700, 1000, 1300, 1500, 1900]), modes="VJ", chunk=20, cpu=20)
