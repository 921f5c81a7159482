"""C18: File is unbuffered access to the bytes of the file system."""
import itertools, struct
from vp import Bytes, Raw, fmt, lit, quote

MODES = ("r", "r+", "w", "w+", "a", "a+")
ERR = Raw("<error>")
ATTR = {"r": (1, 0), "r+": (1, 1), "w": (0, 1), "w+": (1, 1), "a": (0, 1), "a+": (1, 1)}


def bts(b):
    return Bytes(b.decode("utf-8", "surrogateescape"))


class FS:
    """the reference: names to bytes; open file descriptions with an offset"""

    def __init__(self):
        self.files = {}

    def open(self, name, mode):
        if mode not in ATTR:
            return None
        if "/" in name:
            return ERR
        if mode[0] == "r":
            if name not in self.files:
                return ERR
        elif mode[0] == "w":
            if name in self.files:
                del self.files[name][:]
            else:
                self.files[name] = bytearray()
        else:
            self.files.setdefault(name, bytearray())
        return H(self.files[name], mode, name)

    def listing(self):
        return "".join("&%s=%s" % (n, quote(bytes(self.files[n]))) for n in sorted(self.files))

    def key(self):
        return tuple(sorted((n, bytes(b)) for n, b in self.files.items()))


class H:
    def __init__(self, data, mode, name):
        self.d, self.mode, self.pos, self.open, self.name = data, mode, 0, True, name

    def write(self, b):
        if b is None:
            return None
        if b is ERR or not self.open or not ATTR[self.mode][1]:
            return ERR
        if self.mode[0] == "a":
            self.pos = len(self.d)
        if not b:
            return 0
        if self.pos > len(self.d):
            self.d.extend(b"\0" * (self.pos - len(self.d)))
        self.d[self.pos:self.pos + len(b)] = b
        self.pos += len(b)
        return len(b)

    def print(self, b):
        r = self.write(b)
        return ERR if r is ERR else ""

    def read(self, n):
        if not self.open or not ATTR[self.mode][0]:
            return ERR
        b = bytes(self.d[self.pos:self.pos + n])
        self.pos += len(b)
        return bts(b) if b else None

    def close(self):
        self.open = False
        return None

    def key(self):
        return (self.mode, self.pos, self.open, self.name)


# source, bytes `write` stores (None: writes nothing, ERR: no), text `print` stores
def i8(v):
    return struct.pack("<q", v)


VALUES = [("'xy'", b"xy", b"xy"), ("''", b"", b""), ("'é€'", "é€".encode(), "é€".encode()), ("nil", None, b"nil"), ("true", b"\1", b"true"), ("false", b"\0", b"false"), ("'pq' bytes", b"pq", b"pq"), ("'x' bytes", b"x", b"x"), ("'' bytes", b"", b""), ("'é' bytes", "é".encode(), "é".encode()),
          ("('a' bytes append('bcdefghijklmnopqrstuvwxyz0123456789'))", b"abcdefghijklmnopqrstuvwxyz0123456789", None), ("1.5", struct.pack("<d", 1.5), b"1.5"), ("0.25", struct.pack("<d", .25), b"0.25"), ("-2.0", struct.pack("<d", -2.0), b"-2.0"), ("(1, 'b')", ERR, b"(1, b)"), ("('k'='v')", ERR, b"(k=v)"), ("()", ERR, b"()"), ("Number", ERR, None),
          ("'0123456789' slice(2, 5)", None, None), ("|'ab' + 'cd'.", None, None), ("'a\tb'", b"a\tb", b"a\tb"), ("'" + "z" * 300 + "'", b"z" * 300, b"z" * 300)]
INTS = sorted({s * v for s in (1, -1) for v in [0, 1, 2, 127, 128, 255, 256, 257, 65535, 65536, 2 ** 31 - 1, 2 ** 31, 2 ** 32 - 1, 2 ** 32, 2 ** 53 + 1, 2 ** 61, 2 ** 62 - 1]})


class Prog:
    def __init__(self, c):
        self.c, self.fs, self.h, self.src, self.exp, self.n = c, FS(), {}, [], [], 0

    def obs(self, e, v):
        self.n += 1
        self.src.append("r append(|%s.)" % e)
        self.exp.append(v)

    def op(self, o):
        """False: this history is not one (an operation on a handle that does not exist)"""
        self.c.trans()
        h = o[1]
        if o[0] == "open":
            r = self.fs.open(o[2], o[3])
            self.src.append("%s = File('%s', '%s')" % (h, o[2], o[3]))
            self.h[h] = r if isinstance(r, H) else None
            self.obs("%s kind" % h, Raw('<class "File">') if isinstance(r, H) else Raw('<class "Error">') if r is ERR else Raw('<class "NilKind">'))
            return True
        f = self.h.get(h)
        if f is None:
            return False
        if o[0] == "write":
            self.obs("%s write(%s)" % (h, o[2]), f.write(o[3]))
        elif o[0] == "print":
            self.obs("%s print(%s)" % (h, o[2]), f.print(o[3]))
        elif o[0] == "read":
            self.obs("%s read(%d)" % (h, o[2]), f.read(o[2]))
        elif o[0] == "copy":   # what is read from one is written to another
            g = self.h.get(o[2])
            if g is None:
                return False
            v = f.read(o[3])
            self.src.append("v = %s read(%d)" % (h, o[3]))
            if v is ERR or v is None:
                self.obs("v", v)
            else:
                self.obs("%s write(v)" % o[2], g.write(v.encode("utf-8", "surrogateescape")))
        elif o[0] == "alias":
            self.src.append("%s = %s" % (o[2], h))
            self.h[o[2]] = f
        elif o[0] == "close":
            self.obs("%s close" % h, f.close())
            if o[2:]:
                self.obs("%s string" % h, "<closed file>")
        self.c.state((self.fs.key(), tuple((k, v.key() if v else None) for k, v in sorted(self.h.items()))))
        return True

    def case(self):
        return "r = ()\n" + "\n".join(self.src) + "\nr", fmt(self.exp) + self.fs.listing()


def pre(p, names):
    for n, b in names:
        p.src.append("z = File('%s', 'w'), z write('%s'), z close" % (n, b))
        p.fs.files[n] = bytearray(b.encode())


def one(c, depth, ops):
    """one handle at a time: opened in every mode, every sequence of operations, reopened"""
    for has in (0, 1, 2):
        for m in MODES:
            for seq in itertools.product(ops, repeat=depth):
                p = Prog(c)
                if has:
                    pre(p, [("a", "" if has == 1 else "0123456789")])
                if p.op(("open", "f", "a", m)) and all(p.op(o) for o in seq):
                    yield p.case()


def two(c, depth, ops, modes=MODES):
    """two handles, on one file or on two"""
    for same in (1, 0):
        for m, n in itertools.product(modes, modes):
            for seq in itertools.product(ops, repeat=depth):
                p = Prog(c)
                pre(p, [("a", "0123456789"), ("b", "QRS")])
                if p.op(("open", "f", "a", m)) and p.op(("open", "g", "a" if same else "b", n)) and all(p.op(o) for o in seq):
                    yield p.case()


def values(c):
    vals = list(VALUES) + [(lit(v), i8(v), str(v).encode()) for v in INTS]
    vals[18] = (vals[18][0], b"234", b"234")
    vals[19] = (vals[19][0], b"abcd", b"abcd")
    for (s, w, t), m in itertools.product(vals, ("w", "w+", "a", "r+", "r")):
        for n in (1, 3, 8, 1000):
            p = Prog(c)
            pre(p, [("a", "0123456789")])
            p.op(("open", "f", "a", m))
            p.src.append("v = %s" % (s[1:-1] if s.startswith("('a' bytes") else s))
            p.op(("write", "f", "v", w))
            if t is not None:
                p.op(("print", "f", "v", t))
            p.op(("write", "f", "'!'", b"!"))
            p.op(("open", "g", "a", "r"))
            for _ in range(4):
                p.op(("read", "g", n))
            yield p.case()
    # every byte
    for x in range(0, 256, 5):
        row = range(x, min(x + 5, 256))
        p = Prog(c)
        p.op(("open", "f", "a", "w+"))
        v = sum(b << (8 * i) for i, b in enumerate(row))
        p.op(("write", "f", str(v), i8(v)))
        p.op(("close", "f"))
        p.op(("open", "f", "a", "r"))
        p.op(("open", "g", "b", "w"))
        p.op(("copy", "f", "g", 3))
        p.op(("copy", "f", "g", 30))
        yield p.case()


def names(c, lens, depth):
    """handles say which file they are: names computed at run time, of every length, over histories of handles"""
    for n in lens:
        a, b = ("n" + "abcdefghij" * 26)[:n], ("m" + "klmnopqrst" * 26)[:n]
        for seq in itertools.product(("f", "g", "close f", "write f", "swap"), repeat=depth):
            c.state(("names", n, seq))
            c.trans(depth)
            src = "mk = (k, m): File(k + '%s', m).\nis = (h, k): s = h string, w = '<file ' + k + ' fd: '\n (s slice(0, w length) == w, s(s length - 1)).\nr = ()\n" % a[1:]
            src += "f = mk('%s', 'w')\ng = mk('x', 'w')\n" % a[0]
            cur, exp, text = {"f": [a, 1], "g": ["x" + a[1:], 1]}, [], {a: "", "x" + a[1:]: ""}
            for i, o in enumerate(seq):
                if o in "fg":
                    nm = chr(65 + i) + a[1:]
                    src += "%s = mk('%s', 'w')\n" % (o, nm[0])
                    cur[o] = [nm, 1]
                    text[nm] = ""
                elif o == "close f":
                    src += "f close\n"
                    cur["f"][1] = 0
                elif o == "write f":
                    src += "f write('%d')\n" % i
                    if cur["f"][1]:
                        text[cur["f"][0]] += str(i)
                else:
                    src += "h = f, f = g, g = h\n"
                    cur["f"], cur["g"] = cur["g"], cur["f"]
                for h in "fg":
                    src += "r push(%s)\n" % ("is(%s, '%s' + '%s')" % (h, cur[h][0][0], cur[h][0][1:]) if cur[h][1] else "%s string" % h)
                    exp.append([True, ">"] if cur[h][1] else "<closed file>")
            yield src + "r", fmt(exp) + "".join("&%s=%s" % (k, quote(v.encode())) for k, v in sorted(text.items()))


FDOPS = [("write", "xy", b"xy"), ("print", "7", b"7"), ("read", 3, 0), ("read", 20, 0), ("string", 0, 0)]


def descriptors(c, depth):
    """a second handle made of the descriptor of the first shares its position; it has no name"""
    for m in MODES:
        for seq in itertools.product([(h, o) for h in "fg" for o in FDOPS], repeat=depth):
            if seq[0][0] == "f" and seq[-1][0] == "f":
                continue
            p = Prog(c)
            pre(p, [("a", "0123456789")])
            p.op(("open", "f", "a", m))
            p.src.append("s = f string, k = s slice(12, s length - 1) number, g = File fd(k)")
            f = p.h["f"]
            for h, (o, x, b) in seq:
                p.c.trans()
                if o == "write":
                    p.obs("%s write('%s')" % (h, x), f.write(b))
                elif o == "print":
                    p.obs("%s print(%s)" % (h, x), f.print(b))
                elif o == "read":
                    p.obs("%s read(%d)" % (h, x), f.read(x))
                else:
                    p.obs("%s string == '<file %sfd: ' + k string + '>'" % (h, "a " if h == "f" else ""), True)
            p.c.state((m, seq))
            yield p.case()


def sizes(c, sz, reads):
    for n in sz:
        for k in reads:
            p = Prog(c)
            text = "".join(chr(33 + (i * 7) % 60) for i in range(97)).replace("'", "x")
            whole = (text * (n // 97 + 1))[:n].encode()
            p.src.append("t = '%s'" % text)
            p.src.append("b = '' bytes")
            p.src.append("%d times: b append(t)." % (n // 97))
            if n % 97:
                p.src.append("b append(t slice(0, %d))" % (n % 97))
            p.op(("open", "f", "a", "w"))
            p.op(("write", "f", "b", whole))
            p.op(("close", "f"))
            p.op(("open", "f", "a", "a+"))
            p.op(("write", "f", "b string", whole))
            p.op(("open", "g", "a", "r"))
            p.op(("open", "h", "b", "w"))
            for _ in range(3):
                p.op(("copy", "g", "h", k))
            p.op(("read", "g", 5))
            yield p.case()


def gen_ops(full):
    o = [("write", "f", "'xy'", b"xy"), ("write", "f", "7", i8(7)), ("print", "f", "12", b"12"), ("read", "f", 2), ("read", "f", 99), ("read", "f", 0), ("close", "f", 1)]
    o += [("open", "f", "a", m) for m in MODES] + [("open", "f", "b", "r"), ("open", "f", "b", "a+"), ("open", "f", "a", "x"), ("open", "f", "none/a", "w")]
    if full:
        o += [("write", "f", "nil", None), ("write", "f", "'é' bytes", "é".encode()), ("print", "f", "('a' , 1)", b"(a, 1)"), ("write", "f", "(1, 2)", ERR), ("read", "f", 1)]
    return o


TWO = [x for h in "fg" for x in [("write", h, "'xyz'", b"xyz"), ("print", h, "4.5", b"4.5"), ("read", h, 4), ("read", h, 99), ("close", h)]]
TWO2 = TWO + [("copy", "f", "g", 3), ("copy", "g", "f", 20), ("alias", "f", "g"), ("open", "g", "a", "w"), ("open", "g", "a", "r"), ("open", "f", "b", "a")]


def explore(c):
    q = c.quick
    w = dict(workdir=True)
    c.run("one handle", one(c, 3, gen_ops(0) if q else gen_ops(1)), modes="VJ", **w)
    if not q:
        c.run("one handle, deeper", one(c, 4, gen_ops(0)[:9]), modes="V", **w)
    c.run("two handles", two(c, 2 if q else 3, TWO2), modes="VJ" if q else "V", **w)
    c.run("two handles, more operations", two(c, 3 if q else 4, TWO if q else TWO2[:-3], ("r", "r+", "a+", "w") if q else ("r+", "a+", "w")), modes="V", **w)
    c.run("names", names(c, [1, 2, 9, 30, 100, 240] if q else list(range(1, 60)) + [100, 200, 240, 250], 2 if q else 3), modes="VJ", **w)
    c.run("names, collections", names(c, [1, 30], 2 if q else 3), modes="V" if q else "VJ", gc="aAnM", **w)
    c.run("descriptors", descriptors(c, 2 if q else 3), modes="VJ", **w)
    c.run("values", values(c), modes="VJCD", **w)
    c.run("sizes", sizes(c, list(range(0, 40)) + [95, 96, 97, 98, 255, 256, 4095, 4096, 4097, 30000, 66000] if q else list(range(0, 700)) + [4094 + i for i in range(4)] + [8191, 8192, 65535, 65536, 65537, 100000], (1, 16, 4096, 200000)), modes="VJ", cpu=20, **w)
    c.run("collections", itertools.chain(one(c, 2, [o for o in gen_ops(1) if o[0] != "open"][:8] + [("open", "f", "b", "a+")]),
                                         two(c, 1 if q else 2, TWO2, ("r+", "a+", "w+"))), modes="V" if q else "VJ", gc="aA" if q else "aAnM", **w)
