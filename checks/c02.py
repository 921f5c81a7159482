"""C02: the JIT computes what the bytecode VM computes (and both what the program means)."""
import itertools
import lang, sem
from vp import fmt
from checks import c26


def sequences(c, depth, contexts, pads, templates=lang.TEMPLATES):
    for seq in itertools.product(templates, repeat=depth):
        for ctx in contexts:
            for pad in pads:
                try:
                    yield lang.program(ctx, seq, pad, c)
                except (sem.Unsupported, TypeError):
                    pass


def scale(c, sizes, small):
    for src, exp, tag in lang.gen_scale(sizes, small):
        c.trans(tag[1])
        c.state(tag)
        yield src, exp


def gen_registers(c, exprs, ns, where="tfw"):
    """every expression as the argument after n others, so that it is computed from register n up, with a value after it:
    at the top level, in a function, and in a function with variables instead of arguments in front of it."""
    for x in exprs:
        env = c26.Env()
        try:
            v = c26.render(x.f(env))
        except c26.Undef:
            continue
        src = "|%s." % x.s if "\n" in x.s else c26.operand(x)
        for n in ns:
            c.state((x.s, n))
            c.trans()
            sig = ", ".join("a%d" % i for i in range(n + 2))
            args = "".join("%d, " % i for i in range(n)) + src + ", 99"
            first = "a0, " if n else "0, "
            k = "k = (%s): (%s%sa%d, a%d).\n" % (sig, first, "a%d, " % (n - 1) if n else "0, ", n, n + 1)
            out = [0, n - 1 if n else 0, v, 99]
            if "t" in where:
                yield c26.SETUP + k + "zz = k(%s)\n(zz, log)" % args, fmt([out, env.log]), x.s
            if "f" in where:
                yield c26.SETUP + k + "h = (): k(%s).\nzz = h ()\n(zz, log)" % args, fmt([out, env.log]), x.s
            if "w" in where:
                body = "".join(" w%d = %d\n" % (i, i) for i in range(n))
                last = "w%d" % (n - 1) if n else "0"
                yield c26.SETUP + "h = (p):\n%s zz = %s\n (p, %s, zz, 99).\nzz = h (0)\n(zz, log)" % (body, src, last), fmt([out, env.log]), x.s


def exprs(step):
    """every atom, every message, every place with `step`-th atoms in it, among those that have a value."""
    seen = set()
    for x in itertools.chain(c26.build(0, c26.ATOMS, c26.POST, [], (1, 0)), c26.build(1, c26.ATOMS[::step], [], c26.CTX, (0, 0))):
        if x.s not in seen and "q2" not in x.s:
            seen.add(x.s)
            yield x


def gen_long(c, ns):
    """programs and functions so long that positions in them need 17 bits and more: calls, branches, loops and breaks over all of it"""
    for n in ns:
        for name, src, v in (
                ("calls", "f = (a): a + 1.\nx = 0\n" + "x = f (x)\n" * n + "x", n),
                ("branches in a loop", "x = 0\ni = 0\nwhile (i < 3):\n" + "if (i == 1): x = x + 1.\n" * n + " i = i + 1.\n(x, i)", [n, 3]),
                ("branch over all", "f = (a): a + 1.\ng = (i): x = 0\n y = 0\nif (i == 1):\n" + "x = f (x)\n" * n + " 0. else: y = f (5).\n (x, y).\n(g (0), g (1))", [[0, 6], [n, 0]]),
                ("break and continue", "x = 0\ni = 0\nwhile (i < 9):\n i = i + 1\nif (i == 3): continue.\nif (i == 5): break.\n" + "x = x + i\n" * n + " 0.\n(x, i)", [n * 7, 5]),
                ("short cut", "f = (a): a + 1.\ng = (c): x = 0\n z = (c && |" + ("x = f (x)\n" * n) + "7.)\n (x, z).\n(g (true), g (false), g (true) (0))", [[n, [7]], [0, [False]], n])):
            c.state((n, name))
            c.trans(n)
            yield src, fmt(v), name


def gen_tight(c, exprs):
    """every expression as all there is in a function, so that it alone decides the size of the frame: its value, and the
    parameter or variable beside it, are what they were."""
    for x in exprs:
        env = c26.Env()
        try:
            v = c26.render(x.f(env))
        except c26.Undef:
            continue
        src = "|%s." % x.s if "\n" in x.s else c26.operand(x)
        c.state((x.s, "tight"))
        for h, call, e in (("h = (pp): %s\n pp." % src, "h (55)", 55), ("h = (pp, qq): %s\n qq." % src, "h (55, 66)", 66), ("h = (): ww = 77\n %s\n ww." % src, "h ()", 77),
                           ("h = (): ww = %s\n ww." % src, "h ()", v), ("h = (): %s." % src, "h ()", v), ("h = (pp): kk = (): %s\n pp.\n kk ().\nh2 = (pp): h (pp)\n pp." % src, "(h (55), h2 (66))", [55, 66])):
            c.trans()
            n = 2 if "h2" in h else 1
            yield c26.SETUP + h + "\nzz = " + call + "\n(zz, log)", fmt([e, env.log * n]), x.s


SIZES = list(range(1, 36)) + [63, 64, 65, 127, 128, 129, 200, 254, 255, 256, 257, 300, 511, 512, 513]
BIG = [600, 800, 1000, 1023, 1024, 1025, 1300, 2047, 2048, 2049, 2500, 3000]


def explore(c, modes="VJ"):
    q = c.quick
    c.run("sequences of 1 and 2 statements", itertools.chain(sequences(c, 1, lang.CONTEXTS, range(0, 40)),
                                                             sequences(c, 2, lang.CONTEXTS, (0, 12, 30))), modes=modes)
    c.run("n of everything", scale(c, SIZES if q else sorted(set(range(1, 301)) | set(SIZES)), range(1, 41) if q else range(1, 130)),
          modes=modes, chunk=60)
    c.run("large programs", scale(c, [1025, 2049] if q else BIG, [100, 127, 128, 129] if q else [150, 200, 230]), modes=modes, chunk=4, cpu=30)
    c.run("long programs", gen_long(c, [1000, 11000] if q else [1000, 4096, 11000, 16384, 23000, 40000]), modes="VJ" if q else "VJCD", chunk=1, cpu=60)
    c.run("every expression alone in a function", gen_tight(c, exprs(4 if q else 1)), modes="VJ")
    c.run("every expression in every register", gen_registers(c, exprs(12 if q else 4), list(range(0, 33)) + [125, 126, 127, 128] if q else list(range(0, 140)) + [250, 251, 252, 253, 254, 255, 256]), modes="VJ")
    if not q:
        c.run("sequences of 3 statements", sequences(c, 3, ("function", "block", "arguments"), (0,)), modes=modes)
        c.run("sequences of 3 statements, many variables", sequences(c, 3, ("top", "captured"), (14,)), modes=modes)
