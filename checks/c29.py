"""C29: functions, methods, classes and callbacks of C extensions (lib/natives.c) work as those written in Potion."""
import itertools

from vp import fmt, Raw
from checks import c06
NAMES = c06.NAMES


def q(sig):
    return '"%s"' % sig if "'" in sig else "'%s'" % sig


def mark(call, rest=""):
    return "%s\nx = %s\nx put (1, x (1) == o)\nx" % (rest, call)


def sites(sig, args, n):
    f = "f = cfun('T', %s, %d)\n" % (q(sig), n)
    d = "cdef('f', 'T', %s, %d)\n" % (q(sig), n)
    C = "C = class: /z = 1.\n"
    pads = "\n".join(" p%d = %d" % (i, i) for i in range(20))
    yield "value", f + "f (%s)" % args, 0
    yield "function", d + "f(%s)" % args, 0
    yield "alias", f + "g = f\n(1, g (%s), 2)" % args, 0
    yield "captured", f + "h = (): 1, f (%s).\nh ()" % args, 0
    yield "argument", f + "h = (k): k (%s).\nh (f)" % args, 0
    yield "inner", "h = (u): %s r = f (%s)\n (u, r).\nh (5)" % (f, args), 0
    yield "pressure", f + "h = (u):\n%s\n r = (1, 2, 3, u, f (%s), p19).\nh (5)" % (pads, args), 0
    yield "method", mark("o m (%s)" % args, C + "cmeth(C, 'm', 'T', %s, %d)\no = C()" % (q(sig), n)), 1
    yield "inherited", mark("o m (%s)" % args, C + "D = C class: /y = 1.\ncmeth(C, 'm', 'T', %s, %d)\no = D()" % (q(sig), n)), 1
    yield "class method", mark("C m (%s)" % args, C + "cmeta(C, 'm', 'T', %s, %d)\no = C" % (q(sig), n)), 1
    yield "of numbers", mark("o m (%s)" % args, "cmeth(Number, 'm', 'T', %s, %d)\no = 5" % (q(sig), n)), 1
    yield "of strings", mark("'abc' m (%s)" % args, "cmeth(String, 'm', 'T', %s, %d)\no = 'abc'" % (q(sig), n)), 1
    yield "called from C", "ccall ((): f = cfun('T', %s, %d)\n f (%s)., nil, ())" % (q(sig), n, args), 0


def wrap(site, v):
    return {"alias": (1, v, 2), "inner": (5, v), "pressure": (1, 2, 3, 5, v, 19)}.get(site, v)


def gen_binding(c, ns, kinds, which=None):
    for n in ns:
        for sig, ks, minargs in c06.sigs(n, kinds):
            for args, bound in c06.arg_lists(ks, minargs, True, 0):
                if not args and minargs:
                    continue
                c.state((sig, args))
                for site, src, m in sites(sig, args, n):
                    if which and site not in which:
                        continue
                    c.trans()
                    yield src, fmt(wrap(site, ("T",) + ((True,) if m else ()) + bound)), (sig, args, site)


def gen_spelling(c):
    """the type letters, and space around the parts of a signature"""
    for ty in "NBIDS&oTaubnsFPlkftxrcdm":
        for sig, n in (("a=%s" % ty, 1), ("a=%s,b" % ty, 2), ("a,b=%s" % ty, 2), ("a=%s|b=%s" % (ty, ty), 2), ("a =%s , b:=5" % ty, 2)):
            for k in range(1, n + 1):
                if k < n and "|" not in sig and ":" not in sig:
                    continue
                vals = [7, "y"][:k]
                got = tuple(vals) + ((5,) if k < n and ":" in sig else (None,) if k < n else ())
                if k < n and "|" in sig:
                    continue                    # the value of a parameter left out depends on its type: C06
                c.trans()
                c.state((sig, k))
                for site, src, m in sites(sig, ", ".join("'y'" if v == "y" else str(v) for v in vals), n):
                    yield src, fmt(wrap(site, ("T",) + ((True,) if m else ()) + got)), (sig, k, site)
    sp = ("", " ", "\t", " \t ")
    for parts in (("a", "@", ",", "@", "b", "@"), ("a", "@", "|", "@", "b"), ("a", "@", "=", "@", "N", "@", ",", "@", "b", "@", "=", "@", "S", "@"), ("a", "@", ":=", "@", "1", "@", ",", "@", "b", "@", ":=", "@", "2", "@"),
                  ("a=N", "@", "|", "@", "b:=", "@", "'x'", "@"), ("a_ľ0", "@", ",", "@", "b", "@")):
        gaps = [i for i, x in enumerate(parts) if x == "@"]
        for n in (0, 1, 2, len(gaps)):
            for where in itertools.combinations(gaps, n):
                for ch in itertools.product(sp[1:], repeat=min(n, 2)):
                    d = {w: ch[i % len(ch)] for i, w in enumerate(where)}
                    sig = "".join(d.get(i, "") if x == "@" else x for i, x in enumerate(parts))
                    c.trans()
                    c.state(sig)
                    for site, src, m in sites(sig, "7, 'y'", 2):
                        if site in ("value", "function", "method"):
                            yield src, fmt(wrap(site, ("T",) + ((True,) if m else ()) + (7, "y"))), (sig, site)


def gen_many(c, ns):
    """n parameters without and with a signature, in every register"""
    for n in ns:
        vals = [i * 3 + 1 for i in range(n)]
        av = ", ".join(map(str, vals))
        for pad in (0, 1, 5, 14, 30, 60, 125):
            c.state(("many", n, pad))
            c.trans(3)
            ps = "".join("%d, " % i for i in range(pad))
            sig = ", ".join(NAMES[:n])
            for s in ["nil"] + (["'%s'" % sig] if n else ["''"]):
                l = "f = cfun('T', %s, %d)\n" % (s, n)
                yield l + "(%sf (%s), 9)" % (ps, av), fmt(list(range(pad)) + [["T"] + vals, 9]), (n, pad)
                if pad:
                    yield l + "h = (): k = %s\n r = (%sf (%s), 9)\n r.\nh ()" % ("0", ps, av), fmt(list(range(pad)) + [["T"] + vals, 9]), (n, pad)
            if n:
                opt = "|".join([NAMES[0], "|".join(NAMES[1:n])]) if n > 1 else NAMES[0]
                sig = NAMES[0] + "".join((", " if i else "") and ", %s:=%d" % (NAMES[i], 50 + i) for i in range(1, n))
                for k in range(1, n + 1):
                    yield "f = cfun('T', '%s', %d)\n(%sf (%s), 9)" % (sig, n, ps, ", ".join(map(str, vals[:k]))), \
                        fmt(list(range(pad)) + [["T"] + vals[:k] + [50 + i for i in range(k, n)], 9]), (n, pad, k)


def gen_callback(c, ns):
    """closures called from C with any number of arguments, as functions, methods and blocks"""
    for n in ns:
        names = ["p%d" % i for i in range(n)]
        vals = [i * 7 + 2 for i in range(n)]
        lst = "lst = ()\n" + "".join("lst push (%d)\n" % v for v in vals)
        c.state(("cb", n))
        c.trans(6)
        tup = "r = ()\n" + "".join(" r push (%s)\n" % x for x in names) + " r"
        yield lst + "f = (%s): %s.\nccall (f, nil, lst)" % (", ".join(names), tup), fmt(vals), n
        yield lst + "u = 100\nf = (%s): u = u + 1\n %s push (u)\n r.\n(ccall (f, nil, lst), ccall (f, nil, lst), u)" % (", ".join(names), tup), fmt([vals + [101], vals + [102], 102]), n
        yield lst + "A = class(x): /x = x.\nA m = (%s): %s push (/x)\n r.\na = A (5)\nb = A (6)\nk = a m\n0" % (", ".join(names), tup) if 0 else \
            lst + "f = (%s): %s push (self)\n r.\n(ccall (f, 'me', lst), ccall (f, 12, lst), ccall (f, 3, lst))" % (", ".join(names), tup), fmt([vals + ["me"], vals + [12], vals + [3]]), n
        yield lst + "d = cfun ('T', nil, %d)\nccall (d, nil, lst)" % n, fmt(["T"] + vals), n
        if n <= 6:
            yield lst + "A = class(x): /x = x.\nA m = (%s): %s push (/x)\n r.\n(csend (A (5), 'm', lst), csend (A (6), 'm', lst))" % (", ".join(names), tup), fmt([vals + [5], vals + [6]]), n
            yield lst + "A = class(x): /x = x.\nB = A class(y): /y = y.\ncmeth (A, 'm', 'T', nil, %d)\nb = B (1)\nx = csend (b, 'm', lst)\n(x (1) == b, x length, x last)" % n, \
                fmt([True, n + 2, vals[-1] if n else Raw("<\"B\" \"y\"=1 \"x\"=nil>")]) if n else fmt([True, 2, True]).replace("true)", "<\"B\" \"y\"=1 \"x\"=nil>)"), n
        if n:
            yield lst + "A = class(%s): /s = p0 + p%d.\nA get = (): /s.\no = cobj (A, lst)\n(o get, o kind == A)" % (", ".join(names), n - 1), fmt([vals[0] + vals[-1], True]), n


SENDS = [("7", "+", "(3)", 10), ("7", "-", "(10)", -3), ("'abc'", "length", "()", 3), ("'abc'", "+", "('d')", "abcd"), ("(3, 1, 2)", "sort", "(nil)", [1, 2, 3]), ("(3, 1, 2)", "at", "(1)", 1),
         ("(3, 1, 2)", "slice", "(1, 2)", [1, 2]), ("(1='a')", "at", "(1)", "a"), ("(1='a')", "put", "(2, 'b')", {1: "a", 2: "b"}), ("'abc'", "slice", "(0, 2)", "ab"), ("nil", "string", "()", "nil"),
         ("true", "string", "()", "true"), ("7", "string", "()", "7"), ("2.5", "integer", "()", 2), ("'12'", "number", "()", 12), ("(1, 2)", "join", "('-')", "1-2"), ("(1, 2)", "length", "()", 2),
         ("'a b'", "ord", "(1)", 32), ("65", "chr", "()", "A"), ("9", "sqrt", "()", 3.0), ("(5, 6)", "last", "()", 6), ("(5, 6)", "nope", "()", None), ("'x'", "%", "()", None)]


def gen_send(c):
    """messages sent from C to values of every kind"""
    for o, m, args, v in SENDS:
        if m == "%":
            continue
        c.state((o, m))
        c.trans()
        yield "l = ()\n%scsend (%s, '%s', l)" % ("".join("l push (%s)\n" % x for x in args[1:-1].split(", ") if x), o, m), fmt(v), (o, m)
        yield "f = (x): l = ()\n%s csend (x, '%s', l).\n(f (%s), f (%s))" % ("".join(" l push (%s)\n" % x for x in args[1:-1].split(", ") if x), m, o, o), fmt([v, v]), (o, m)


def gen_objects(c, depth):
    """objects and classes made in C and in Potion, fields set and read from both sides, in every order"""
    ops = [("cset (k, 'v', 1)", ("v", 1)), ("k /v = 2", ("v", 2)), ("cset (k, 'w', 3)", ("w", 3)), ("k /w = 4", ("w", 4)), ("cset (k, 'none', 5)", None), ("k sw (6)", ("w", 6)), ("csend (k, 'sw', (7, 0))", ("w", 7))]
    heads = [("K = cclass (Object, ('v', 'w'))\nk = K (9)\n", 9, None), ("K = class(v): /v = v, /w = nil.\nk = cobj (K, (9, 0))\n", 9, None),
             ("J = cclass (Object, ('v', 'w'))\nK = J class(q): /q = q.\nk = K (9)\n", None, 9), ("J = class(v): /v = v, /w = nil.\nK = cclass (J, ('q', 'r'))\nk = cobj (K, (9, 0))\n", None, 9)]
    for h, v0, q0 in heads:
        for n in range(1, depth + 1):
            for w in itertools.product(ops, repeat=n):
                st = {"v": v0, "w": None, "q": q0}
                for _, e in w:
                    if e:
                        st[e[0]] = e[1]
                    c.trans()
                c.state((h, tuple(o for o, _ in w)))
                yield h + "K sw = (x): /w = x.\n" + "\n".join(o for o, _ in w) + "\n(k /v, k /w, k /q, cget (k, 'v'), cget (k, 'w'), cget (k, 'q'), cget (k, 'none'))", \
                    fmt([st["v"], st["w"], st["q"]] * 2 + [None]), w


def gen_globals(c, depth):
    """globals defined from C and in Potion, read by functions compiled before"""
    ops = [("cglobal ('Zed', %d)", True), ("Zed = %d", True), ("r push (Zed)", False), ("r push (f ())", False), ("cdef ('zz', %d, '', 0)", None)]
    for n in range(1, depth + 1):
        for w in itertools.product(ops, repeat=n):
            v, z, out, src = "none", None, [], ""
            for i, (o, t) in enumerate(w):
                src += (o % i if "%" in o else o) + "\n"
                if t:
                    v = i
                elif t is None:
                    z = i
                else:
                    out.append(v)
            c.state(tuple(o for o, _ in w))
            c.trans(n)
            yield "Zed = 'none'\nr = ()\nf = (): Zed.\n" + src + "(r, Zed, f ())", fmt([out, v, v]), w
            if z is not None:
                yield "Zed = 'none'\nr = ()\nf = (): Zed.\n" + src + "(r, zz, Zed)", fmt([out, [z], v]), w


def gen_build(c, ns):
    """lists, tables, strings and bytes made in C, and callbacks whose results C holds"""
    for n in ns:
        c.state(("build", n))
        c.trans(9 * n)
        vs = ["v%d" % i for i in range(n)]
        csv = "".join("%d," % i for i in range(n))
        for how, e in (("l", vs), ("s", vs), ("a", csv), ("b", csv), ("f", csv), ("d", [i + 0.5 for i in range(n)])):
            yield "x = cbuild (%d, '%s')\nx" % (n, how), fmt(e), (n, how)
        yield "x = cbuild (%d, 't')\nr = ()\n%d times (i): r push (x (('k', i string) join (''))).\n(r, x length)" % (n, n), fmt([vs, n]), n
        nest = None
        for x in vs:
            nest = [nest, x]
        if n < 60:
            yield "cbuild (%d, 'n')" % n, fmt(nest), n
        yield "ceach (cbuild (%d, 'l'), (v, i): (v, i string) join ('/').)" % n, fmt([vs[0] + "/0" if n else None, vs[-1] + "/%d" % (n - 1) if n else None, ["%s/%d" % (x, i) for i, x in enumerate(vs)]]), n
        yield "ceach (cbuild (%d, 'l'), (v, i): x = cbuild (3, 'l')\n x push (v)\n x.) (2)" % n, fmt([["v0", "v1", "v2", x] for x in vs]), n


def gen_depth(c, ds):
    """C calls Potion calls C, d deep"""
    for d in ds:
        c.state(("depth", d))
        c.trans(4 * d)
        yield "f = (n): if (n == 0): 0. else: 1 + ccall (f, nil, (n - 1, 0)).. \nf (%d)" % d if 0 else "f = (n, z): if (n == 0): 0. else: 1 + ccall (f, nil, (n - 1, 0))..\nf (%d, 0)" % d, fmt(d), d
        yield "l = (1, 2)\nf = (n): s = n\n if (n > 0): x = ceach (l, (v, i): if (i == 1): f (n - 1). else: 0..)\n s = s + x (1).\n s.\nf (%d)" % d, fmt(d * (d + 1) // 2), d
        yield "A = class(x): /x = x.\nA m = (n, z): if (n == 0): /x. else: csend (A (/x + n), 'm', (n - 1, 0))..\ncsend (A (5), 'm', (%d, 0))" % d, fmt(5 + d * (d + 1) // 2), d


def explore(c):
    qk = c.quick
    K = c06.KINDS
    kw = {"libs": True}
    c.run("signatures of 1 parameter", gen_binding(c, (1,), K), modes="VJCD", **kw)
    c.run("signatures of 2 parameters", gen_binding(c, (2,), K[:5] + K[6:8] if qk else K), modes="VJ", **kw)
    c.run("signatures of 3 parameters", gen_binding(c, (3,), K[:2] + K[3:5], ("value", "function", "method", "pressure") if qk else None), modes="VJ", **kw)
    if not qk:
        c.run("signatures of 4 parameters", gen_binding(c, (4,), K[:2] + K[3:5], ("value", "method")), modes="VJ", **kw)
    c.run("many parameters", gen_many(c, range(0, 14)), modes="VJ", **kw)
    c.run("callbacks", gen_callback(c, range(0, 15)), modes="VJCD", **kw)
    c.run("messages", gen_send(c), modes="VJCD", **kw)
    c.run("objects", gen_objects(c, 2 if qk else 4), modes="VJ", **kw)
    c.run("globals", gen_globals(c, 4 if qk else 6), modes="VJ", **kw)
    c.run("values made in C", gen_build(c, list(range(0, 40)) + [100, 500] if qk else list(range(0, 200)) + [500, 1000, 3000]), modes="VJ", **kw)
    c.run("depth", gen_depth(c, range(0, 60)), modes="VJ", **kw)
    c.run("values made in C, every collection", gen_build(c, [0, 1, 3, 6] if qk else [0, 1, 3, 6, 12]), modes="VJ", gc="aA", **kw)
    c.run("spelling of signatures", gen_spelling(c), modes="VJ", **kw)
    c.run("signatures, every collection", gen_binding(c, (1, 2), K[:5], ("value", "method", "called from C") if qk else None), modes="VJ", gc="a" if qk else "aA", **kw)
    c.run("callbacks, every collection", itertools.chain(gen_callback(c, (0, 2, 5)), gen_depth(c, (2,)), gen_globals(c, 1), gen_objects(c, 1)), modes="VJ", gc="aA", **kw)
