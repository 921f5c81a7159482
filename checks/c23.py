"""C23: number conversions and counting iterators."""
import itertools, math, re
from vp import fmt, lit

MAXI = 2 ** 62 - 1


def dstr(v):
    s = ("%.16f" % v).rstrip("0")
    return s + "0" if s.endswith(".") else s


def nstr(v):
    return dstr(v) if isinstance(v, float) else str(v)


FLOAT = re.compile(r"[ \t]*[+-]?(\d+\.?\d*|\.\d+)(e[+-]?\d+)?")


def number(s):
    """the number a string spells"""
    t = s[1:] if s[:1] in ("-", "+") else s
    if all(ch in "0123456789" for ch in t):
        v = int(t or "0") * (-1 if s[:1] == "-" else 1)
        return v if len(t) < 10 else float(t) * (-1.0 if s[:1] == "-" else 1.0)
    m = FLOAT.match(s)
    return float(m.group(0)) if m else 0.0


def chunks(l, n):
    l = list(l)
    for i in range(0, len(l), n):
        yield l[i:i + n]


INTS = sorted({v for k in range(0, 62) for d in (-1, 0, 1) for s in (1, -1) for v in [s * (2 ** k + d)]} | {v for k in range(19) for d in (-1, 0, 1) for s in (1, -1) for v in [s * (10 ** k + d)]} |
              {v for k in range(1, 19) for j in range(1, 10) for s in (1, -1) for v in [s * int(str(j) * k)]} | {MAXI, -MAXI})
INTS = [v for v in INTS if -MAXI <= v <= MAXI]
DBLS = [s * m * 10.0 ** e for s in (1, -1) for m in (1.0, 1.5, 2.25, 7.0, 9.999, 1 / 3, 0.1, 123456.789) for e in range(-14, 16)] + [2.0 ** k for k in range(-20, 62)] + [2.0 ** k + 0.5 for k in range(0, 50)] + [0.0]


def gen_string(c, ints, dbls):
    for ch in chunks(ints, 100):
        c.state(("i", ch[0]))
        c.trans(3 * len(ch))
        yield "(%s)" % ", ".join("%d string" % v for v in ch), fmt([str(v) for v in ch])
        small = [v for v in ch if abs(v) < 10 ** 9]
        yield "(%s) map((x): x string number == x.)" % ", ".join(map(str, small)), fmt([True] * len(small))
        yield "l = (%s)\nr = l map((x): x string number + 0.0 == x double.)\n(r, l map((x): x string length.), l map((x): x number == x.), l map((x): x integer == x.))" % ", ".join(map(str, ch)), \
            fmt(([True] * len(ch), [len(str(v)) for v in ch], [True] * len(ch), [True] * len(ch)))
        yield "l = (%s)\n(l map((x): x abs.), l map((x): x double.), l map((x): x integer?.), l map((x): x double?.), l map((x): x number?.))" % ", ".join(map(str, ch)), \
            fmt(([abs(v) for v in ch], [float(v) for v in ch], [True] * len(ch), [False] * len(ch), [True] * len(ch)))
        pos = [abs(v) for v in ch]
        yield "(%s)" % ", ".join("%d sqrt" % v for v in pos), fmt([math.sqrt(float(v)) for v in pos])
    for ch in chunks(dbls, 60):
        c.state(("d", ch[0]))
        c.trans(5 * len(ch))
        src = "l = (%s)\n" % ", ".join(lit(v) for v in ch)
        yield src + "l map((x): x string.)", fmt([dstr(v) for v in ch])
        yield src + "l map((x): x string number.)", fmt([float(dstr(v)) for v in ch])
        sm = [v for v in ch if abs(v) < 2.0 ** 61]
        yield "(%s) map((x): x integer.)" % ", ".join(lit(v) for v in sm), fmt([math.floor(v) for v in sm])
        yield src + "(l map((x): x abs.), l map((x): x double == x.), l map((x): x integer?.), l map((x): x double?.), l map((x): x number?.), l map((x): x abs sqrt.))", \
            fmt(([abs(v) for v in ch], [True] * len(ch), [False] * len(ch), [True] * len(ch), [True] * len(ch), [math.sqrt(abs(v)) for v in ch]))


def gen_parse(c, alpha, n):
    ws = ["".join(w) for k in range(0, n + 1) for w in itertools.product(alpha, repeat=k)]
    for ch in chunks(ws, 150):
        c.state(ch[0])
        c.trans(len(ch))
        yield "(%s)" % ", ".join("'%s' number" % w for w in ch), fmt([number(w) for w in ch])


def gen_digits(c, ns):
    for n in ns:
        c.state(("dig", n))
        ws = [p + (d * (n // len(d) + 1))[:n] + q for d in ("1", "9", "46", "1234567890", "0", "01") for p in ("", "-", "+") for q in ("", ".0", ".25", "e+1", "z")]
        c.trans(len(ws))
        yield "(%s)" % ", ".join("'%s' number" % w for w in ws), fmt([number(w) for w in ws])


def gen_literals(c, ns):
    """integer literals of every length: the integer when it fits 63 bits, the nearest double otherwise."""
    vals = [int((d * n)[:n]) for n in ns for d in ("1", "9", "46", "4611686018427387904", "90", "2305843009213693951", "9223372036854775807", "18446744073709551616")]
    vals += [2 ** k + d for k in range(29, 72) for d in (-2, -1, 0, 1, 2)]
    vals = sorted(set(vals))
    for ch in chunks([v for v in vals if v < 10 ** 300], 40):
        c.state(("lit", ch[0]))
        c.trans(4 * len(ch))
        f = [v if v < 2 ** 62 else float(v) for v in ch]
        m = [-v if v <= 2 ** 62 else -float(v) for v in ch]
        yield "(%s)" % ", ".join(map(str, ch)), fmt(f)
        yield "(%s)" % ", ".join("-%d" % v for v in ch if v != 2 ** 62), fmt([x for x, v in zip(m, ch) if v != 2 ** 62])
        yield "(%s)" % ", ".join("%d integer?" % v for v in ch), fmt([v < 2 ** 62 for v in ch])
        yield "(%s)" % ", ".join("%d + 0.0" % v for v in ch), fmt([float(v) for v in ch])
        yield "(%s)" % ", ".join("'%d' eval" % v for v in ch), fmt(f)


def gen_chr(c):
    for ch in chunks(range(1, 128), 64):
        c.state(("chr", ch[0]))
        c.trans(len(ch))
        yield "(%s) map((x): x chr.)" % ", ".join(map(str, ch)), fmt([chr(v) for v in ch])
        yield "(%s) map((x): x chr ord == x.)" % ", ".join(map(str, ch)), fmt([True] * len(ch))


def gen_other(c):
    c.state("other")
    c.trans(20)
    yield "(nil number, true number, false number, 'a' number?, nil number?, (1, 2) number?, 'x' integer?)", fmt((0, 1, 0, None, None, None, None))
    yield "(true string, false string, nil string, 'a' string, (1, nil) string, () string)", fmt(("true", "false", "nil", "a", "(1, nil)", "()"))
    for n in range(0, 40):
        c.state(("rnd", n))
        yield "x = %d\ny = x double\nz = y integer\n(x == z, y == x + 0.0, z integer?, y double?)" % (n * 1237 - 9000), fmt((True, True, True, True))


# ---- counting ----
def frange(a, b):
    return list(range(a, b + 1)) if b >= a else list(range(a, b - 1, -1))


def gen_count(c, lo, hi, offs=(0,)):
    for o in offs:
        for a in range(lo, hi):
            c.state(("cnt", a, o))
            bs = range(lo, hi)
            c.trans(len(bs) * 3)
            yield ("r = ()\n" + "\n".join("x = ()\n%d to(%d, (i): x push(i).)\nr push(x)" % (a + o, b + o) for b in bs) + "\nr", fmt([frange(a + o, b + o) for b in bs]))
            yield ("r = ()\n" + "\n".join("v = %d to(%d, (i): i.)\nr push(v)" % (a + o, b + o) for b in bs) + "\nr", fmt([len(frange(a, b)) for b in bs]))
            for k in (1, 2, 3, 5, 100):
                yield ("r = ()\n" + "\n".join("x = ()\n%d step(%d, %d, (i): x push(i).)\nr push(x)" % (a + o, b + o, k) for b in bs) + "\nr", fmt([list(range(a + o, b + o + 1, k)) for b in bs]))


def gen_longcount(c, ns, offs):
    """long counts in both directions and in steps: the number of calls, their sum, the last ones."""
    for n in ns:
        for o in offs:
            c.state(("long", n, o))
            c.trans(3 * n)
            for a, b in ((o, o + n), (o + n, o)):
                f = frange(a, b)
                yield "k = 0\ns = 0\nl = nil\nv = %d to(%d, (i): k = k + 1, s = s + i - %d, l = i.)\n(v, k, s, l)" % (a, b, o), fmt((len(f), len(f), sum(i - o for i in f), f[-1]))
            for st in (1, 2, 7, 128, 1000):
                f = list(range(o, o + n + 1, st))
                yield "k = 0\ns = 0\nl = nil\n%d step(%d, %d, (i): k = k + 1, s = s + i - %d, l = i.)\n(k, s, l)" % (o, o + n, st, o), fmt((len(f), sum(i - o for i in f), f[-1]))


def gen_times(c, ns):
    for n in ns:
        m = max(n, 0)
        c.state(("times", n))
        c.trans(m)
        yield "r = ()\nx = %d times (i): r push(i).\n(x, r)" % n, fmt((m, list(range(m))))
        yield "r = ()\n%d times (i): r push(i), i = 100.\nn = 0\n%d times: n = n + 1.\n(r, n)" % (n, n), fmt((list(range(m)), m))
        yield "f = (n): s = 0\n n times (i): if (i == 3): return 'x'.\n s = s + i.\n s.\nf(%d)" % n, fmt(sum(range(m)) - (3 if m > 3 else 0))
        if m <= 60:
            yield "r = ()\n%d times (i): i times (j): r push(i * 100 + j)..\nr" % n, fmt([i * 100 + j for i in range(m) for j in range(i)])
            yield "r = ()\n%d times (i): i to(%d, (j): r push(j - i).).\nr" % (n, m), fmt([j - i for i in range(m) for j in frange(i, m)])
            yield "r = ()\n%d times (i): 0 step(i, 2, (j): r push(j).).\nr" % n, fmt([j for i in range(m) for j in range(0, i + 1, 2)])
            yield "c = ()\n%d times (i): c push((x): x + i.).\nr = ()\nc each (f): r push(f(10)).\nr" % n, fmt([10 + i for i in range(m)])


def explore(c):
    q = c.quick
    big = [2 ** 31, -2 ** 31, 2 ** 32, MAXI - 20, -MAXI + 20]
    c.run("number to string and back", gen_string(c, INTS if q else sorted(set(INTS + list(range(-30000, 30000)))), DBLS if q else DBLS + [k / 8 for k in range(-8000, 8000)]), modes="VJ" if q else "VJCD")
    c.run("strings to numbers", gen_parse(c, "-+.015e ", 4 if q else 6), modes="VJ")
    c.run("many digits", gen_digits(c, range(1, 40) if q else range(1, 300)), modes="VJ")
    c.run("integer literals", gen_literals(c, range(1, 40) if q else range(1, 300)), modes="VJCD")
    c.run("characters", gen_chr(c), modes="VJCD")
    c.run("other values", gen_other(c), modes="VJCD")
    c.run("to and step", gen_count(c, -4, 6, [0] + big) if q else gen_count(c, -9, 14, [0] + big), modes="VJ")
    c.run("times", gen_times(c, list(range(-3, 70)) + [127, 128, 129, 255, 256, 257, 1000] if q else list(range(-3, 400)) + [1023, 1024, 1025, 5000, 20000]), modes="VJ", cpu=20)
    c.run("long counts", gen_longcount(c, [62, 63, 64, 127, 255, 256, 999, 1000, 1001, 4096, 40000] if q else sorted({2 ** k + d for k in range(5, 18) for d in (-1, 0, 1)} | {1000, 3000, 100000}),
                                        [0, -50, 2 ** 31 - 40, -2 ** 31 - 40]), modes="VJ", cpu=20)
