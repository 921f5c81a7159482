"""C19: a buffered file is a C stream over the bytes of the file."""
import itertools
from vp import Bytes, Raw, fmt, quote

ERR = Raw("<error>")
MODES = ("r", "r+", "w", "w+", "a", "a+")
ATTR = {"r": (1, 0), "r+": (1, 1), "w": (0, 1), "w+": (1, 1), "a": (0, 1), "a+": (1, 1)}


def bts(b):
    return Bytes(b.decode("utf-8", "surrogateescape"))


class Stream:
    """the reference stream. last: the kind of the last transfer, since a stream must not go
    from writing to reading (or back, short of the end) without a flush or a seek"""

    def __init__(self, d, mode, path):
        self.d, self.mode, self.path = d, mode, path
        self.pos, self.eof, self.open, self.last, self.dirty, self.err = 0, False, True, None, False, False

    def key(self):
        return (self.mode, self.path, self.pos, self.eof, self.open, self.last, self.dirty)

    def may_read(self):
        return not self.open or not ATTR[self.mode][0] or self.last != "w"

    def may_write(self):
        return not self.open or not ATTR[self.mode][1] or self.last != "r" or self.eof

    def get(self, n):
        """n bytes, or fewer and the end flag"""
        self.last = "r"
        if self.eof:
            return b""
        b = bytes(self.d[self.pos:self.pos + n])
        self.pos += len(b)
        if len(b) < n:
            self.eof = True
        return b

    def line(self):
        self.last = "r"
        if self.eof:
            return b""
        rest = bytes(self.d[self.pos:])
        i = rest.find(b"\n")
        n = min(1023, len(rest) + 1 if i < 0 else i + 1)
        return self.get(n)

    def put(self, b):
        self.last = "w"
        self.dirty = True
        if b:
            if self.mode[0] == "a":
                self.pos = len(self.d)
            if self.pos > len(self.d):
                self.d.extend(b"\0" * (self.pos - len(self.d)))
            self.d[self.pos:self.pos + len(b)] = b
            self.pos += len(b)


class Prog:
    def __init__(self, c):
        self.c, self.files, self.s, self.src, self.exp = c, {}, {}, ["r = ()", "b = '........' bytes"], []
        self.buf = b"........"

    def obs(self, e, v):
        self.src.append("r append(|%s.)" % e)
        self.exp.append(v)

    def pre(self, name, b):
        self.src.append("z = File('%s', 'w'), z write('%s'), z close" % (name, b))
        self.files[name] = bytearray(b.encode())

    def op(self, o):
        self.c.trans()
        k, h, a = o[0], o[1], o[2:]
        if k == "fopen":
            if h in self.s and self.s[h].open and self.s[h].dirty:
                return False
            for x in self.s.values():
                if x.open and x.dirty and x.path == a[0]:
                    return False
            self.src.append("%s = %s" % (h, "fopen('%s', '%s')" % a if a[0] else "tmpfile"))
            if a[0] and a[1][0] == "r" and a[0] not in self.files:
                self.obs("%s kind" % h, Raw('<class "Error">'))
                self.s.pop(h, None)
                return True
            d = bytearray() if not a[0] else self.files.setdefault(a[0], bytearray())
            if a[1][0] == "w":
                del d[:]
            self.s[h] = Stream(d, a[1], a[0])
            return True
        s = self.s.get(h)
        if s is None:
            return False
        rd, wr = ATTR[s.mode]
        op = s.open
        if k in ("fgetc", "fgets", "fread"):
            if not s.may_read():
                return False
            bad = not op or not rd
            if k == "fgetc":
                b = b"" if bad else s.get(1)
                self.obs("%s fgetc" % h, ERR if not op else b[0] if b else -1)
            elif k == "fgets":
                b = b"" if bad else s.line()
                self.obs("%s fgets" % h, ERR if not op else bts(b) if b else None)
            else:
                size, n = a[:2]
                b = b"" if bad else s.get(size * n)
                self.obs("%s fread(b, %d, %d)" % (h, size, n) if len(a) == 2 else "%s fread(b, %d)" % (h, size), ERR if not op or (bad and size * n) or len(b) < size * n else n)
                self.buf = b + self.buf[len(b):]
                self.obs("b string", self.buf)
        elif k in ("fputs", "fputc", "write", "write2"):
            if not s.may_write():
                return False
            bad = not op or not wr
            if k == "fputs":
                self.obs("%s fputs(%s)" % (h, a[0]), ERR if not op else -1 if bad and a[1] else 1)
                if bad and not a[1]:
                    return False
                if not bad:
                    s.put(a[1])
            elif k == "fputc":
                self.obs("%s fputc(%d)" % (h, a[0]), ERR if not op else -1 if bad else a[0])
                if not bad:
                    s.put(bytes([a[0]]))
            elif k == "write":
                self.obs("%s write(%s, nil, 1)" % (h, a[0]), ERR if bad or not a[1] else 1)
                if not bad:
                    if not a[1]:
                        return False
                    s.put(a[1])
            else:
                self.obs("%s write(%s, %d, %d)" % (h, a[0], a[2], a[3]) if a[3] != "d" else "%s write(%s, %d)" % (h, a[0], a[2]), ERR if bad else 1 if a[3] == "d" else a[3])
                if a[3] == "d":
                    a = a[:3] + (1,)
                if not bad:
                    s.put(a[1][:a[2] * a[3]])
        elif k == "fseek":
            off, wh = a
            base = 0 if wh == 0 else s.pos if wh == 1 else len(s.d)
            if op and wh == 1 and s.mode[0] == "a":
                return False
            ok = op and base + off >= 0
            self.obs("%s fseek(%d, %d)" % (h, off, wh), True if ok else ERR)
            if ok:
                s.pos, s.eof, s.last, s.dirty = base + off, False, None, False
            elif op:
                return False    # whether a failed seek flushed is not said
        elif k == "ftell":
            if op and s.mode[0] == "a":
                return False
            self.obs("%s ftell" % h, s.pos if op else ERR)
        elif k == "feof":
            self.obs("%s feof" % h, s.eof if op else ERR)
        elif k == "fflush":
            if s.last == "r" and op:
                return False
            self.obs("%s fflush" % h, True if op else ERR)
            s.last, s.dirty = None, False
        elif k == "close":
            self.obs("%s close" % h, 0 if op else ERR)
            s.open = s.dirty = False
        elif k == "unlink":
            if any(x is not s and x.open and x.path == s.path for x in self.s.values()):
                return False
            ok = s.path and self.files.get(s.path) is not None
            self.obs("%s unlink" % h, True if ok else ERR)
            s.open = s.dirty = False
            if ok:
                del self.files[s.path]
        elif k == "name":
            if op and s.path:
                self.obs("%s string slice(0, %d)" % (h, len(s.path) + 10), "<buffile %s " % s.path)
            elif op:
                self.obs("%s string slice(0, 9)" % h, "<buffile ")
            else:
                self.obs("%s string slice(0, 15)" % h, "<closed buffile")
        elif k == "peek":   # what another reader of the file sees
            if s.dirty or s.path not in self.files:
                return False
            self.src.append("p = File('%s', 'r')" % s.path)
            self.obs("p read(99)", bts(bytes(self.files[s.path])) if self.files[s.path] else None)
        self.c.state((tuple(sorted((n, bytes(b)) for n, b in self.files.items())), tuple((n, v.key()) for n, v in sorted(self.s.items())), self.buf))
        return True

    def case(self):
        for x in self.s.values():
            if x.open and x.dirty and sum(y is not x and y.open and y.path == x.path for y in self.s.values()):
                return None
        return "\n".join(self.src) + "\nr", fmt(self.exp) + "".join("&%s=%s" % (n, quote(bytes(self.files[n]))) for n in sorted(self.files))


TEXT = "ab\ncde\n\nfg"
OPS = [("fputs", "f", "'XY'", b"XY"), ("fputc", "f", 200), ("write", "f", "'é'", "é".encode()), ("write2", "f", "'pqrstu'", b"pqrstu", 2, 2), ("fgetc", "f"), ("fgets", "f"), ("fread", "f", 1, 3), ("fread", "f", 2, 3), ("fseek", "f", 0, 0), ("fseek", "f", -1, 2), ("ftell", "f"), ("feof", "f"), ("fflush", "f"), ("close", "f"), ("unlink", "f"), ("peek", "f")]
MORE = OPS + [("fread", "f", 4, 1, "d"), ("write2", "f", "'klmnop'", b"klmnop", 3, 1), ("write2", "f", "'rst' bytes", b"rst", 1, 2), ("write2", "f", "'uvwx'", b"uvwx", 2, "d"), ("fputs", "f", "''", b""), ("fputs", "f", "'l\n'", b"l\n"), ("fputc", "f", 10), ("write", "f", "'ab' bytes", b"ab"), ("fread", "f", 1, 0), ("fread", "f", 4, 2), ("fseek", "f", 3, 0), ("fseek", "f", 15, 0), ("fseek", "f", 2, 1), ("fseek", "f", -2, 1), ("fseek", "f", -99, 0), ("name", "f"),
              ("fopen", "f", "a", "r"), ("fopen", "f", "a", "a+"), ("fopen", "f", "c", "w+"), ("fopen", "f", "", "w+")]


def seqs(c, depth, ops, modes=MODES, texts=(TEXT,), first=None):
    for t in texts:
        for m in modes:
            for seq in itertools.product(ops, repeat=depth):
                p = Prog(c)
                if t is not None:
                    p.pre("a", t)
                if p.op(first or ("fopen", "f", "a", m)) and (p.s or depth < 3) and all(p.op(o) for o in seq):
                    k = p.case()
                    if k:
                        yield k


TWO = [("fputs", "g", "'XY'", b"XY"), ("fgets", "g"), ("fgetc", "g"), ("fseek", "g", 0, 0), ("close", "g"), ("unlink", "g"), ("fflush", "g"), ("peek", "g"), ("fputs", "f", "'12345'", b"12345"), ("fgets", "f"), ("fseek", "f", 1, 0), ("close", "f"), ("fflush", "f"), ("name", "f"), ("name", "g")]


def two(c, depth, modes):
    for m, n in itertools.product(modes, modes):
        for seq in itertools.product(TWO, repeat=depth):
            p = Prog(c)
            p.pre("a", TEXT)
            if p.op(("fopen", "f", "a", m)) and p.op(("fopen", "g", "bb", n)) and all(p.op(o) for o in seq):
                k = p.case()
                if k:
                    yield k


def lines(c, lens):
    """line lengths about the 1023 bytes one fgets takes, and buffers about the stream's own"""
    for a, b in itertools.product(lens, repeat=2):
        p = Prog(c)
        body = b"x" * a + b"\n" + b"y" * b
        p.src += ["l = 'x' bytes", "%d times: l append('x')." % max(a - 1, 0), "m = 'y' bytes", "%d times: m append('y')." % max(b - 1, 0)]
        p.op(("fopen", "f", "a", "w"))
        if a:
            p.op(("write", "f", "l", b"x" * a))
        p.op(("fputc", "f", 10))
        if b:
            p.op(("write", "f", "m", b"y" * b))
        p.op(("close", "f"))
        p.op(("fopen", "f", "a", "r+"))
        for _ in range((a + b) // 1023 + 3):
            p.op(("fgets", "f"))
        p.op(("feof", "f"))
        p.op(("fseek", "f", max(a - 1, 0), 0))
        p.op(("fgetc", "f"))
        p.op(("ftell", "f"))
        for off, wh in ((-min(a + b + 1, 1500), 2), (-min(a + b - 1, 1300), 1), (1100, 0), (-1050, 1)) if a + b > 1 else ():
            s = p.s["f"]
            if (0 if wh == 0 else s.pos if wh == 1 else len(s.d)) + off < 0:
                continue
            p.op(("fseek", "f", off, wh))
            p.op(("ftell", "f"))
            p.op(("fgetc", "f"))
        yield p.case()


def bytes_(c):
    for x in range(0, 256, 8):
        p = Prog(c)
        p.op(("fopen", "f", "a", "w+"))
        for b in range(x, x + 8):
            p.op(("fputc", "f", b))
        p.op(("fseek", "f", 0, 0))
        for b in range(x, x + 9):
            p.op(("fgetc", "f"))
        p.op(("fseek", "f", 3, 0))
        p.op(("fread", "f", 1, 5))
        yield p.case()


def explore(c):
    q = c.quick
    w = dict(workdir=True, libs=True)
    c.run("one stream", seqs(c, 3, OPS if q else MORE), modes="VJ", **w)
    c.run("absent and empty files", seqs(c, 2 if q else 3, MORE, texts=(None, "")), modes="VJ", **w)
    c.run("temporary file", seqs(c, 3 if q else 4, [o for o in OPS if o[0] != "peek"] + [("name", "f")], modes=("w+",), first=("fopen", "f", "", "w+")), modes="V", **w)
    if not q:
        c.run("one stream, deeper", seqs(c, 4, OPS, modes=("r+", "w+", "a+")), modes="V", **w)
    c.run("two streams", two(c, 2 if q else 3, ("r+", "w+", "a", "w") if q else ("r+", "w", "w+", "a+")), modes="VJ" if q else "V", **w)
    c.run("bytes", bytes_(c), modes="VJCD", **w)
    c.run("lines", lines(c, (0, 1, 2, 1021, 1022, 1023, 1024, 2047, 4096) if q else (0, 1, 2, 63, 64, 1020, 1021, 1022, 1023, 1024, 1025, 2045, 2046, 2047, 2048, 4094, 4095, 4096, 4097, 9000)), modes="VJ", cpu=20, **w)
    c.run("collections", seqs(c, 2, MORE, modes=("r+", "w+") if q else MODES), modes="V" if q else "VJ", gc="aA" if q else "aAnM", **w)
