"""C12: byte buffers are growable sequences of bytes shared by every reference."""
import itertools
from vp import fmt, Bytes

SEP = "q"


def B(b):
    return Bytes(b.decode("utf-8", "surrogateescape"))


def at(b, i):
    return B(b[i:i + 1]) if 0 <= i < len(b) else None


def mk(n, k=0):
    return "".join(chr(97 + (i * 7 + k) % 26) for i in range(n))


class Buf:
    __slots__ = ("v",)

    def __init__(self, v):
        self.v = bytes(v)


OPS = ([("app", v, a) for v in "bc" for a in ("''", "'x'", "'yz'", "'é'", "'0123456789abcdef'", "b", "c", "'w' bytes", "b string")] +
       [("clone", "b", None), ("alias", "b", None), ("swap", "b", None), ("fresh", "b", None), ("each", "b", None), ("str", "b", None), ("ret", "b", None)])
SMALL = [o for o in OPS if o[0] != "app" or o[2] in ("'x'", "b", "c", "'0123456789abcdef'")]


def history(init, seq, c):
    env = {"b": Buf(init.encode()), "c": Buf(b"C")}
    src = ["b = '%s' bytes" % init, "c = 'C' bytes"]
    obs, exp = [], []
    for j, (op, v, a) in enumerate(seq):
        c.trans()
        if op == "app":
            x = env[a].v if a in env else env["b"].v if a == "b string" else b"w" if a == "'w' bytes" else a[1:-1].encode()
            src.append("%s append(%s)" % (v, a))
            env[v].v += x
        elif op == "clone":
            src.append("c = b clone")
            env["c"] = Buf(env["b"].v)
        elif op == "alias":
            src.append("c = b")
            env["c"] = env["b"]
        elif op == "swap":
            src.append("d = b, b = c, c = d")
            env["b"], env["c"] = env["c"], env["b"]
        elif op == "fresh":
            src.append("b = b string bytes")
            env["b"] = Buf(env["b"].v)
        elif op == "each":
            src.append("r%d = ()\nb each (x): r%d push(x)." % (j, j))
            obs.append("r%d" % j)
            exp.append([at(env["b"].v, i) for i in range(len(env["b"].v))])
        elif op == "str":
            src.append("s%d = b string" % j)
            obs.append("s%d" % j)
            exp.append(env["b"].v)
        elif op == "ret":
            src.append("e%d = b append('!') == b" % j)
            obs.append("e%d" % j)
            env["b"].v += b"!"
            exp.append(True)
    b, d = env["b"].v, env["c"].v
    idx = sorted({-1, 0, 1, len(b) - 1, len(b), len(b) + 1, 3})
    obs += ["b", "c", "b == c", "b length", "c length", "b string == c string"] + ["b(%d)" % i for i in idx]
    exp += [B(b), B(d), env["b"] is env["c"], len(b), len(d), b == d] + [at(b, i) for i in idx]
    c.state((b, d, env["b"] is env["c"]))
    return "\n".join(src) + "\n(%s)" % ", ".join(obs), fmt(tuple(exp))


def gen_histories(c, inits, ops, depth):
    for init in inits:
        for n in range(1, depth + 1):
            for seq in itertools.product(ops, repeat=n):
                yield history(init, seq, c)


def gen_sizes(c, ns, ms):
    """a buffer of every size extended by a string, and by a buffer, of every size"""
    for n in ns:
        for m in ms:
            x, y = mk(n), mk(m, 3)
            c.state(("size", n, m))
            c.trans(4)
            yield ("b = '%s' bytes\nk = b clone\ny = '%s'\nb append(y)\nr = b string\nk append(y bytes)\nk append('!')\n(b, b length, r, b(%d), b(%d), k, k length)" %
                   (x, y, n, n + m), fmt((Bytes(x + y), n + m, x + y, Bytes(y[:1]) if m else None, None, Bytes(x + y + "!"), n + m + 1)))


def gen_grow(c, ns, step):
    """a buffer grown piece by piece to every length, all earlier contents kept"""
    for n in ns:
        for w in step:
            s = "".join(mk(w, i % 11) for i in range(n))
            c.state(("grow", n, w))
            c.trans(n)
            p = ", ".join("'%s'" % mk(w, i) for i in range(11))
            yield ("p = (%s)\nb = '' bytes\n%d times (i): b append(p(i %% 11)).\n(b, b length, b string == '%s')" % (p, n, s), fmt((Bytes(s), len(s), True)))


def gen_double(c, ks):
    for init in ("a", "ab", "abc", "é", mk(15), mk(16), mk(17), mk(31)):
        for k in ks:
            b = init * 2 ** k
            c.state(("double", init, k))
            c.trans(k)
            n = len(b.encode())
            yield "b = '%s' bytes\n%d times (i): b append(b).\n(b length, b, b(%d), b(%d))" % (init, k, n - 1, n), fmt((n, Bytes(b), at(b.encode(), n - 1), None))


def gen_bytes(c, alpha, maxn):
    """every string of one- to four-byte characters: its bytes one by one, and back"""
    for n in range(0, maxn + 1):
        for w in itertools.product(alpha, repeat=n):
            s = "".join(w)
            b = s.encode()
            c.state(s)
            c.trans(len(b) + 4)
            yield ("s = '%s'\nb = s bytes\nr = ()\no = ()\nd = '' bytes\nb each (x): r push(x), o push(x ord), d append(x).\n"
                   "t = ()\nb length times (i): t push(b(i)).\n(b, r, o, t, d, d == b, d string == s, b string == s, s)" % s.replace("'", "''"),
                   fmt((Bytes(s), [at(b, i) for i in range(len(b))], list(b), [at(b, i) for i in range(len(b))], Bytes(s), False, True, True, s)))


def gen_each(c, ns):
    """appending to the buffer that is being traversed"""
    for n in ns:
        for m in range(n, 3 * n + 40, 7):
            s = mk(n)
            e = s
            i = 0
            seen = []
            while i < len(e):
                seen.append(e[i])
                if len(e) < m:
                    e += e[i]
                i += 1
            c.state(("each", n, m))
            c.trans(len(seen))
            yield "b = '%s' bytes\nr = '' bytes\nb each (x):\n r append(x)\n if (b length < %d): b append(x)..\n(b, r)" % (s, m), fmt((Bytes(e), Bytes("".join(seen))))


def gen_long(c, ns):
    """buffers of thousands of bytes: traversed, converted, copied, compared"""
    for n in ns:
        s = mk(n)
        c.state(("long", n))
        c.trans(2 * n + 10)
        k = 1
        src = "b = '' bytes\np = '%s'\n%d times (i): b append(p).\nb append('%s')\n" % (mk(676), n // 676, mk(676)[:n % 676]) if n > 900 else "b = '%s' bytes\n" % s
        if n > 900:
            s = mk(676) * (n // 676) + mk(676)[:n % 676]
        yield (src + "k = 0\nlast = nil\nsum = 0\nb each (x): k++, last = x, sum += x ord.\nt = b string\nd = b clone\nd append('!')\nw = t bytes\nw append('?')\n"
               "(k, last, sum, b length, t length, t == b string, d length, d(%d), w(%d), b(%d), t slice(%d, 3), t ord(%d))" % (n, n, n - 1, n - 3, n - 1),
               fmt((n, Bytes(s[-1]), sum(map(ord, s)), n, n, True, n + 1, Bytes("!"), Bytes("?"), Bytes(s[-1]), s[-3:], ord(s[-1]))))


def gen_fixed(c):
    def case(s, e):
        c.state(s)
        c.trans()
        return s, fmt(e)
    yield case("f = (b): b append('x'), 1.\nb = 'a' bytes\nf(b)\nf(b)\nb", Bytes("axx"))
    yield case("b = 'a' bytes\ng = (): b append('y').\ng()\ng()\n(b, b string == 'ayy')", (Bytes("ayy"), True))
    yield case("b = 'a' bytes\nl = (b, b, b clone)\nl(0) append('z')\n(l(1), l(2), b)", (Bytes("az"), Bytes("a"), Bytes("az")))
    yield case("K = class(b): /b = b.\nb = 'a' bytes\nk = K(b)\nk /b append('q')\n(b, k /b == b)", (Bytes("aq"), True))
    yield case("b = 'key' bytes\nt = (key=5)\nt(b string)", 5)
    yield case("t = (1='a' bytes)\nt(1) append('b')\nt(1) append('c')\n(t(1), t(1) string)", (Bytes("abc"), "abc"))
    yield case("b = 'a' bytes\nt = (b=1)\nu = ()\n20 times (i): u push(i string bytes).\nu each (x): x append('.').\nr = '' bytes\nu each (x): r append(x).\nr",
               Bytes("".join("%d." % i for i in range(20))))
    yield case("b = 'one' bytes\ns = b string\nb append('two')\nu = b string\n(s, u, s == 'one', u == 'onetwo', s length, 'x' + b)", ("one", "onetwo", True, True, 3, "xonetwo"))
    yield case("b = 'x' bytes\nc = b append('1') append('2') append('3')\n(c == b, b)", (True, Bytes("x123")))
    yield case("b = 'x' bytes\n(b kind == Bytes, b string kind == String, b clone kind == Bytes, b == b clone)", (True, True, True, False))


def gen_refs(c, n, grows):
    """references taken at different times of the growth of one buffer are all the same object"""
    for name, init, step in grows:
        for m in range(0, n):
            for every in (1, 2, 5, 16):
                c.state((name, m, every))
                c.trans(m)
                src = "o = %s\nq = o\nrefs = (o)\n%d times (i): %s, if (i %% %d == 0): refs push(o)..\nrefs push(o)\n" % (init, m, step, every)
                k = 2 + len(range(0, m, every))
                yield src + "a = refs map((x): x == o.)\nb = refs map((x): o == x.)\nd = refs map((x): o != x.)\ne = refs map((x): x != q.)\n(a, b, d, e, refs map((x): x == refs(0).), o == q, q == o, refs map((x): x == o clone.))", \
                    fmt(([True] * k, [True] * k, [False] * k, [False] * k, [True] * k, True, True, [False] * k))


def explore(c):
    q = c.quick
    edge = [14, 15, 16, 17, 18]
    c.run("fixed programs", gen_fixed(c), modes="VJCD")
    c.run("histories", gen_histories(c, ("", "ab"), OPS, 2 if q else 3), modes="VJ")
    c.run("deeper histories", gen_histories(c, ("a",), SMALL, 3 if q else 4), modes="VJ")
    c.run("sizes", gen_sizes(c, range(0, 40) if q else range(0, 140), range(0, 40) if q else range(0, 140)), modes="VJ")
    c.run("references", gen_refs(c, 40 if q else 300, [("append", "'' bytes", "o append('%s')" % ("x" * w)) for w in (1, 9, 40)]), modes="VJ")
    c.run("large sizes", gen_sizes(c, [0, 1, 100, 255, 256, 257, 4000], [0, 1, 127, 128, 129, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 20000, 65535, 65536, 65537] +
                                   ([] if q else list(range(2000, 2100)) + [131071, 131072])), modes="VJ", chunk=30)
    c.run("growth", gen_grow(c, list(range(0, 80)) + [127, 128, 129, 255, 256, 257, 1000] + ([] if q else list(range(80, 700)) + [4096, 9000]),
                             (1, 2, 7, 16, 33) if q else (1, 2, 3, 5, 7, 15, 16, 17, 33, 64)), modes="VJ", chunk=60, cpu=20)
    c.run("doubling", gen_double(c, range(0, 11) if q else range(0, 15)), modes="VJ", chunk=20)
    c.run("characters and bytes", gen_bytes(c, ["a", "'", "~", "é", "ÿ", "€", "😀"], 3 if q else 5), modes="VJ" if q else "VJCD")
    c.run("long buffers", gen_long(c, [3, 255, 256, 257, 1023, 1024, 1025, 4095, 4096, 4097, 32767, 32768, 32769, 65535, 65536, 65537, 70000] + ([] if q else [131071, 131072, 131073, 200000])), modes="VJ", cpu=20)
    c.run("growth under traversal", gen_each(c, range(1, 20) if q else range(1, 120)), modes="VJ")
