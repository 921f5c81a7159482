"""C03: bytecode files: what is dumped, loaded and run is the program."""
import itertools, math, os, shutil, subprocess, tempfile
import lang, pn, sem
from vp import fmt, lit
from checks.c02 import sequences, scale, SIZES, BIG


def doubles(q):
    m = [1.0, 1.5, 0.1, 1 / 3.0, 2 / 3.0, 1.1, 123456.789, math.pi, math.e, 1.0000000000000002, 0.9999999999999999, 4503599627370497.5,
         9007199254740993.0, 0.30000000000000004, 5e-5, 7.0, 1.7976931348623157, 4.9406564584124654, 2.2250738585072014]
    for x in m:
        for e in (range(-307, 308, 51) if q else range(-307, 308, 7)):
            v = x * 10.0 ** e
            if v != math.inf and v:
                yield v
    for e in range(-1022, 1024, 8 if q else 1):
        yield 2.0 ** e
        yield 2.0 ** e * (1 + 2.0 ** -52)


def dlit(v):
    """a literal the language can write: digits, '.' and a signed exponent"""
    s = "%.17e" % v
    return s


def gen_consts(c):
    q = c.quick

    def case(src, exp):
        c.state(src)
        c.trans()
        return src, fmt(exp)
    # every literal kind, at every position of a function, of a default argument, of a table and of a lick
    ints = sorted(v for v in {s * (2 ** k) + d for k in range(0, 63) for d in (-1, 0, 1) for s in (1, -1)} if -2 ** 62 < v < 2 ** 62)
    for v in ints:
        yield case("x = %d\n(x, x + 0)" % v, (v, v))
        yield case("f = (a, b:=%d): (a, b).\nf(1)" % v if v >= 0 else "f = (a, b): (a, b).\nf(1, %d)" % v, (1, v))
    for v in doubles(q):
        s = dlit(v)
        yield case("x = %s\nx" % s, float(s))
        if v < 1e300:
            yield case("f = (a, b:=%s): (a, b).\nf(1)" % s, (1, float(s)))
    chars = [chr(b) for b in [9, 10, 13] + list(range(32, 127)) if chr(b) not in "'\\"] + ["é", "ÿ", "€", "𝄞", "\u07ff", "\u0800", "\uffff", "\U00010000", "\U0010ffff"]
    for ch in chars:
        yield case("'%s'" % ch, ch)
        yield case("('a%sb', 'c')" % ch, ("a%sb" % ch, "c"))
    for n in list(range(0, 300)) + [2 ** k + d for k in range(9, 17) for d in (-1, 0, 1)] + ([] if q else list(range(300, 3000, 7))):
        s = ("abcdefghijklmnopqrstuvwxyz0123456789" * (n // 36 + 1))[:n]
        yield case("x = '%s'\n(x, x length)" % s, (s, n))
    # a constant after a double: every low byte of the next one
    for k in range(128):
        for d in ("2.5", "1.0e-7", "0.1", "123456.0"):
            v = 2 ** 27 + k
            yield case("(%s, %d)" % (d, v), (float(d), v))
            yield case("f = (a, b:=%s, c:=%d): (a, b, c).\nf('q')" % (d, v), ("q", float(d), v))
    for n in range(0, 260):
        yield case("(2.5, '%s', 1.5)" % ("7" * n), (2.5, "7" * n, 1.5))
    simple = [("1", 1), ("-3", -3), ("2.5", 2.5), ("'s'", "s"), ("''", ""), ("nil", None), ("true", True), ("false", False), ("(1, 'x')", (1, "x")),
              ("(1='y')", {1: "y"}), ("4611686018427387903", 2 ** 62 - 1), ("134217727", 2 ** 27 - 1), ("134217728", 2 ** 27), ("'é€'", "é€"), ("0", 0)]
    for r in (1, 2, 3) if q else (1, 2, 3, 4):
        for vs in itertools.product(simple, repeat=r):
            yield case("f = (): (%s, 0).\n(f(), %s)" % (", ".join(s for s, _ in vs), vs[0][0]), (tuple(v for _, v in vs) + (0,), vs[0][1]))
    sd = [x for x in simple if x[0][0] not in "(-"]
    for a, b in itertools.product(sd, sd):
        if a[0] in ("nil",) or b[0] in ("nil",):
            continue
        yield case("f = (a, b:=%s, c:=%s): (a, b, c).\n(f(7), f(7, 8), f(7, 8, 9))" % (a[0], b[0]),
                   ((7, a[1], b[1]), (7, 8, b[1]), (7, 8, 9)))
        yield case("f = (a, b:=%s):\n g = (c:=%s): (a, b, c).\n g().\nf(1)" % (a[0], b[0]), (1, a[1], b[1]))
    # nesting and siblings of functions: every ordered tree of up to n functions, each with a name, constants and captured variables
    for t in trees(5 if q else 7):
        yield case(*ftree(t))


def trees(n):
    def forests(k):
        if k == 0:
            yield ()
            return
        for a in range(1, k + 1):
            for first in forests(a - 1):
                for rest in forests(k - a):
                    yield (first,) + rest
    for k in range(1, n + 1):
        for f in forests(k):
            yield f


def ftree(forest):
    """a program with one function per tree node; each returns (its constant, its captured variable, results of its children)"""
    ctr = [0]

    def node(children, ind):
        n = ctr[0]
        ctr[0] += 1
        subs = [node(ch, ind + 1) for ch in children]
        sp = " " * ind
        src = "%sf%d = (x):\n%s v%d = x + %d\n" % (sp, n, sp, n, n)
        for s, _, _ in subs:
            src += s
        src += "%s (%s, 'n%d').\n" % (sp, ", ".join(["v%d" % n] + ["f%d(v%d)" % (m, n) for _, m, _ in subs]), n)

        def val(x):
            return tuple([x + n] + [v(x + n) for _, _, v in subs] + ["n%d" % n])
        return src, n, val
    subs = [node(ch, 0) for ch in forest]
    return "".join(s for s, _, _ in subs) + "(%s, 0)" % ", ".join("f%d(1.5)" % n for _, n, _ in subs), tuple(v(1.5) for _, _, v in subs) + (0,)


LICKS = ["[a]", "[a 'x']", "[a (b=1) 'x']", "[a (b=1, c='d') [e 'f', g]]", "[a [b [c 'd']]]", "[a, b 'x', c (d=2.5)]"]

CLI = [
    "'hello' say\n12 say",
    "f = (x): x + 1.\nf(2) string say\n(1, 2) string say",
    "Foo = class(a): /a = a.\nFoo show = (): /a string say.\nFoo(1.5) show",
    "3 times (i): i string say.\n",
    "x = 0\nwhile (x < 3): x = x + 1, x string say.\n",
    "fib = (n): if (n < 2): n. else: fib(n - 1) + fib(n - 2)..\nfib(15) string say",
    "t = (a=1, b='z')\nt at('b') say\n(t at('a') + 1) string say",
    "'aé€𝄞' say\n'' say\n'x' print\n'y' print",
    "a = 'x'\n12 times (i): a = a + a.\na length string say\na slice(0, 60) say",
    "\n".join("v%d = %d.25" % (i, i) for i in range(300)) + "\n(v0 + v299) string say",
    "\n".join("f%d = (x): 's%d' say." % (i, i) for i in range(260)) + "\nf0(1)\nf259(1)",
    "1 / 0\n'after' say\n4611686018427387903 string say",
]


def run_cli(c):
    """potion -c FILE, then potion FILEb, in the VM and the JIT: the output of potion FILE"""
    b = pn.build()
    exe = [os.path.join(b, "bin", x) for x in ("potion-s", "potion")]
    exe = next((x for x in exe if os.path.exists(x)), None)
    if exe is None:
        raise pn.CheckError("no potion executable in the build")
    d = tempfile.mkdtemp(prefix="vpcli")
    n = 0

    def go(*a):
        r = subprocess.run([exe] + list(a), cwd=d, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=60)
        return r.returncode, r.stdout
    try:
        for i, src in enumerate(CLI):
            for name in ["p%d.pn" % i] + (["sub dir/q%d.pn" % i, "x" * 200 + "%d.pn" % i] if i < 2 else []):
                path = os.path.join(d, name)
                os.makedirs(os.path.dirname(path), exist_ok=True)
                open(path, "w").write(src)
                want = go("-B", name)
                comp = go("-c", name)
                n += 2
                for mode in ("-B", "-X"):
                    got = go(mode, name + "b") if os.path.exists(path + "b") else ("no file", comp)
                    direct = go(mode, name)
                    n += 2
                    c.trans(2)
                    if got != want or direct != want:
                        c.violation("command line", {"program": src, "mode": mode, "expected": repr(want),
                                                     "got": repr(got if got != want else direct), "file": name})
                c.state(("cli", name))
    finally:
        shutil.rmtree(d)
    c.part("command line", runs=n)
    c.cov["traces_validated_against_impl"] += n


def explore(c):
    q = c.quick
    c.run("constants, signatures, function trees", gen_consts(c), modes="CD")
    c.run("licks", [(s, None) for l in LICKS for s in (l, "d = " + l + "\n(d, 1)", "f = (): " + l + ".\n(f(), f())")], modes="VJCD")
    c.run("sequences of 1 and 2 statements", itertools.chain(sequences(c, 1, lang.CONTEXTS, (0, 12, 30)),
                                                             sequences(c, 2, lang.CONTEXTS, (0,) if q else (0, 12, 30))), modes="CD")
    c.run("n of everything", scale(c, SIZES if q else sorted(set(range(1, 301)) | set(SIZES)), range(1, 41) if q else range(1, 130)),
          modes="CD", chunk=60)
    c.run("large programs", scale(c, [1025, 2049] if q else BIG, [100, 127, 128, 129] if q else [150, 200, 230]), modes="CD", chunk=4, cpu=30)
    run_cli(c)
    if not q:
        c.run("sequences of 3 statements", sequences(c, 3, ("function", "block"), (0,)), modes="CD")
