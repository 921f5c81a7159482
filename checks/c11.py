"""C11: strings are immutable sequences of characters; equal contents are the same string."""
import itertools
from vp import fmt

CH = ["a", "b", "é", "€", "😀"]


def words(alpha, maxn, minn=0):
    for n in range(minn, maxn + 1):
        for w in itertools.product(alpha, repeat=n):
            yield "".join(w)


def q(s):
    return "'" + s.replace("'", "''") + "'"


def clamp(i, n):
    return max(0, i + n) if i < 0 else min(i, n)


def at(s, i):
    n = len(s)
    i = max(0, i + n) if i < 0 else i
    return s[i:i + 1]


def slc(s, a=None, b=None):
    n = len(s)
    if a is None:
        return s
    a2 = clamp(a, n)
    if b is None:
        return s[a2:]
    b2 = clamp(b, n)
    if b2 < a2:
        b2 = a2 if b < 0 else clamp(a2 + b, n)
    return s[a2:b2]


def orda(s, i):
    n = len(s)
    i = max(0, i + n) if i < 0 else i
    return ord(s[i]) if i < n else 0


def gen_index(c, maxn, alpha=CH):
    """every string over the alphabet up to maxn characters, every index"""
    for s in words(alpha, maxn):
        n = len(s)
        c.state(s)
        idx = list(range(-n - 2, n + 3))
        c.trans(len(idx) * 3)
        src = ["s = %s" % q(s)]
        src.append("(s length, s, s bytes length, s clone == s, s string == s, (%s), (%s), (%s), s)" % (
            ", ".join("s(%d)" % i for i in idx), ", ".join("s ord(%d)" % i for i in idx),
            ", ".join("s slice(%d, %d)" % (i, n) for i in idx)))
        yield "\n".join(src), fmt((n, s, len(s.encode()), True, True, [at(s, i) for i in idx],
                                   [orda(s, i) for i in idx], [slc(s, i, n) for i in idx], s))


def gen_slice(c, maxn, alpha):
    for s in words(alpha, maxn):
        n = len(s)
        c.state(s)
        for a in range(-n - 2, n + 3):
            bs = list(range(-n - 2, n + 3))
            c.trans(len(bs))
            yield "s = %s\n(s slice, s ord, (%s), s)" % (q(s), ", ".join("s slice(%d, %d)" % (a, b) for b in bs)), \
                fmt((s, orda(s, 0), [slc(s, a, b) for b in bs], s))


def gen_pairs(c, maxn, alpha):
    """concatenation, equality, order and identity of every pair"""
    ws = list(words(alpha, maxn))
    for a in ws:
        for b in ws:
            c.trans(8)
            k = a.encode()
            l = b.encode()
            sg = (k > l) - (k < l)
            src = ("a = %s\nb = %s\nc = a + b\nd = a + 'z' slice(0, 0)\nt = (1=1)\nt put(c, 'v')\n"
                   "x = a cmp(b)\ny = b cmp(a)\nu = a bytes\nu append(b)\nu = u string\n"
                   "(c, a, b, c length, a == b, a != b, c == %s, d == a, t at(%s), x < 0, x == 0, x > 0, y < 0, "
                   "c slice(0, a length) == a, c slice(a length, c length) == b, u == c)"
                   % (q(a), q(b), q(a + b), q(a + b)))
            yield src, fmt((a + b, a, b, len(a + b), a == b, a != b, True, True, "v", sg < 0, sg == 0, sg > 0, sg > 0,
                            True, True, True))


def gen_long(c, sizes):
    """lengths around every internal size limit, built by concatenation, doubling and slicing"""
    for n in sizes:
        for ch in ("x", "é", "€"):
            c.trans(10)
            c.state((n, ch))
            src = "\n".join([
                "n = %d" % n, "ch = %s" % q(ch), "s = ''", "p = ch", "k = n",
                "while (k > 0):", "  if (k % 2 == 1): s = s + p.", "  p = p + p", "  k = k / 2.",
                "a = s + 'A'", "m = s + 'é' + s",
                "(s length, s bytes length, a length, a ord(n), a ord(-1), a(n), a(-1), a slice(n, n + 1), a slice(0, n) == s, "
                "m length, m ord(n), m(n), m slice(n, n + 1), m slice(n + 1, 2 * n + 1) == s, m slice(0, n) == s, s == a, "
                "a slice(0, n) == a, s cmp(a) < 0, a bytes length, a bytes string == a, s ord(n), s(n))"])
            L = len(ch.encode())
            yield src, fmt((n, n * L, n + 1, 65, 65, "A", "A", "A", True, 2 * n + 1, 0xe9, "é", "é", True, True, False,
                            False, True, n * L + 1, True, 0, ""))


def gen_lit(c, sizes):
    """literals of every length are the string that concatenation builds"""
    for n in sizes:
        s = "".join(chr(97 + i % 26) for i in range(n))
        u = "".join("aé€"[i % 3] for i in range(n))
        c.trans(4)
        yield "s = %s\nt = %s\n(s, s length, t, t length, s == (%s + %s), t(-1), t ord(-1), s(-1))" % (
            q(s), q(u), q(s[:n // 2]), q(s[n // 2:])), \
            fmt((s, n, u, n, True, at(u, -1), orda(u, -1), at(s, -1)))


def gen_keys(c, n):
    """many distinct strings stay distinct and equal ones are one key"""
    for k in n:
        for form in ("'k' + i string", "|'k' + i string + 'q'. slice(0, -1)", "i string + 'é'"):
            c.trans(3 * k)
            src = ("t = ('base'=0)\ni = 0\nwhile (i < %d): t put(%s, i), i++.\n"
                   "i = 0\nbad = 0\nwhile (i < %d): (if (t at(%s) != i): bad = bad + 1.), i++.\n(t length, bad)" % (k, form, k, form))
            yield src, fmt((k + 1, 0))


def gen_ops(c, depth):
    """operation sequences on a string variable with every intermediate value kept"""
    ops = [("s + 'a'", lambda s: s + "a"), ("'é' + s", lambda s: "é" + s), ("s + s", lambda s: s + s),
           ("s slice(1, s length)", lambda s: slc(s, 1, len(s))), ("s slice(0, -1)", lambda s: slc(s, 0, -1)), ("s(-1)", lambda s: at(s, -1)),
           ("s(1)", lambda s: at(s, 1)), ("s slice(2, 1)", lambda s: slc(s, 2, 1)), ("s clone", lambda s: s),
           ("s bytes string", lambda s: s), ("s + s length string", lambda s: s + str(len(s))),
           ("s slice(-2, 2)", lambda s: slc(s, -2, 2))]
    for init in ("", "ab", "a€"):
        for w in itertools.product(ops, repeat=depth):
            s = init
            vals = [s]
            lines = ["s = %s" % q(init), "v0 = s"]
            for i, (t, f) in enumerate(w):
                s = f(s)
                c.trans()
                c.state(s)
                vals.append(s)
                lines += ["s = " + t, "v%d = s" % (i + 1)]
            lines.append("(%s)" % ", ".join(["v%d" % i for i in range(depth + 1)] + ["s length"]))
            yield "\n".join(lines), fmt(tuple(vals + [len(s)]))


def gen_cp(c, step):
    """every code point of the boundary blocks (all with step 1): ord, length, index"""
    cps = [x for b in (0x20, 0x7f, 0x80, 0xff, 0x100, 0x7ff, 0x800, 0xfff, 0x1000, 0xcfff, 0xd7ff, 0xe000, 0xfffd,
                       0x10000, 0x3ffff, 0x40000, 0xfffff, 0x100000, 0x10ffff) for x in range(b - 40, b + 41)]
    cps += list(range(0x20, 0x110000, step))
    cps = sorted({x for x in cps if 0x20 <= x < 0x110000 and not 0xd800 <= x < 0xe000 and x not in (39, 0x7f)})
    B = 16
    for i in range(0, len(cps), B):
        p = cps[i:i + B]
        c.trans(len(p))
        s = "".join(map(chr, p))
        yield "s = %s\n(s length, %s)" % (q(s), ", ".join("s ord(%d), s(%d) length, s(%d) cmp(s(%d))" % (j, j, j, j)
                                                       for j in range(len(p)))), \
            fmt(tuple([len(p)] + [y for x in p for y in (x, 1, 0)]))


WAYS = ["5 string", "(0 - 5) string", "4611686018427387903 string", "1.5 string", "0.1 string", "true string", "nil string", "65 chr", "('a', 'b') string", "('a', 'b') join('-')", "() string", "() join",
        "(1=2) string", "'ab' bytes string", "(x): x. string", "(x, y=3): x. string", "e string", "(e string) string", "K string", "o name", "String string", "Lobby string", "nil kind string", "5 kind string",
        "'a' kind string", "() kind string", "(1=2) kind string", "e kind string", "o kind string", "l name", "l text", "l attr('c')", "l string", "fn string", "fn kind string", "f ('a')", "g ()", "h (2)", "'\"q\"' eval", "'5 string' eval",
        "(1, 2) map (x): x string. (0)", "('a', 'b') reduce (x, y): x + y.", "('b', 'a') sort (true) (0)", "('x'=1) keys (0)", "(1='x') values (0)", "(1='x') at (1)", "'x' clone", "'xyz' slice(1, 2)", "'xyz'(1)", "(f ('a') + 'b')", "u", "('a' bytes) append ('b') string",
        "('a' bytes) append ('bc' bytes) string", "'5' number string", "(1.5 / 0.5) string", "(1, 2.5, 'x', nil) string", "r (50)", "f (u)", "\"a\\u20ac\"", "12345678 string + 'a'", "('', 'a') join (', ')", "K ('a') nm", "o nosuch string", "fn (1)", "e message"]


def gen_ways(c):
    """a string is the same as one built from its parts, in whatever way it was computed, and as itself computed again"""
    pre = "e = 'a' + 1\nK = class (a): /a = a.\nK nm = (): /a + 'k'.\no = K (1)\nl = [ab (c='d') 'tx']\nl = l (0)\nfn = (x): 'n' + x string.\nf = (x): x + 'z'.\ng = (): 'in'.\nh = (n): if (n == 0): 'end'. else: h (n - 1)..\nr = (n): s = '', n times (i): s = s + 'ab'., s.\nu = 'a' + 'u'\n"
    rb = "sp = (s): a = '', i = 0, while (i < s length): a = a + s(i), i = i + 1., a.\nsb = (s): a = '' bytes, i = 0, while (i < s length): a append (s(i)), i = i + 1., a string.\n"
    for w in WAYS:
        c.state(w)
        c.trans(6)
        yield pre + rb + "s = %s\nif (s kind != String): s = s string.\nw = %s\nif (w kind != String): w = w string.\nt = ('zz'=0)\nt put (s, 1)\nt put (sp (s), 2)\nt put (sb (s), 3)\n(s == w, s == sp (s), s == sb (s), s bytes string == s, s slice(0, 1) + s slice(1, s length) == s, t length, t at (w), t at (s + ''), s cmp (sp (s)))" % (w, w), fmt((True,) * 5 + (2, 3, 3, 0))


def gen_texts(c, ns):
    """the text of a list, a table or a lick of every length, and that the texts of the elements, made on the way, are unharmed"""
    for n in ns:
        for w in (1, 2, 3, 5):
            c.state((n, w))
            c.trans(6 * n + 6)
            b = 10 ** (w - 1) * 3
            es = [str(b + i) for i in range(n)]
            t = "(" + ", ".join(es) + ")"
            yield ("l = ()\n%d times (i): l push (i + %d).\ns = l string\nm = l map (x): x string.\nu = l string\n(s, m, s == u, s length, m string == s, u)" % (n, b), fmt([t, es, True, len(t), True, t]))
            es = ["é%0*d" % (w, i) for i in range(n)]
            t = "(" + ", ".join(es) + ")"
            yield ("l = (%s)\ns = l string\nu = l join (', ')\n(s, l, u, '(' + u + ')' == s, s length)" % ", ".join("'%s'" % e for e in es), fmt([t, es, t[1:-1], True, len(t)]) if n else fmt(["()", [], "", True, 2]))
        if n:
            k, v = "k" * n, "v" * (n // 2)
            c.state((n, "t"))
            c.trans(4)
            yield ("s = ('%s'=%d) string\nu = [%s (%s='%s') '%s'] string\nz = (%d string, '%s' + 'q')\n(s, u, z, s length)" % (k, n, k, "a", v, v, n, v),
                   fmt(["(%s=%d)" % (k, n), "[%s %s (a=%s)]" % (k, v, v), [str(n), v + "q"], len(k) + 3 + len(str(n))]))


def explore(c):
    qk = c.quick
    c.run("index", gen_index(c, 4 if qk else 5))
    c.run("slice", gen_slice(c, 3 if qk else 4, CH if not qk else ["a", "é", "€", "😀"]))
    c.run("pairs", gen_pairs(c, 2 if qk else 3, CH if qk else ["a", "b", "é", "€"]))
    c.run("ops", gen_ops(c, 3 if qk else 4))
    b = sorted({x for p in range(0, 18 if not qk else 17) for x in range(2 ** p - 2, 2 ** p + 3) if x >= 0} | set(range(0, 300, 1 if not qk else 7)))
    c.run("long", gen_long(c, b), cpu=20)
    c.run("literals", gen_lit(c, range(0, 300 if qk else 1100)), modes="VJCD")
    c.run("keys", gen_keys(c, [1, 10, 100, 700] if qk else [1, 10, 100, 1000, 5000]), cpu=20)
    c.run("computed", gen_ways(c), modes="VJCD", gc="aA" if qk else "nM", cpu=10)
    c.run("texts of lists", gen_texts(c, range(0, 70) if qk else range(0, 400)), modes="VJ")
    c.run("codepoints", gen_cp(c, 97 if qk else 1))
