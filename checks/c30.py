"""C30: a program's input, output, environment and end are those of its process."""
import itertools
from checks import c27
from vp import lit
MODES = (("V", ["-B"]), ("J", []))


def cases(text, stdin, out, forms=("f",), env=None, extra=None, modes=MODES, rc=0):
    ex = dict(extra or {}, **{"t.pn": text})
    for m, o in modes:
        exp = {"out": out, "quiet": True, "rc": rc, "mode": m, "extra": ex}
        if env is not None:
            exp["env"] = env
        for f in forms:
            if f == "f":
                yield o + ["t.pn"], stdin, exp
            elif f == "e":
                yield o + ["-e", text], stdin, {k: v for k, v in exp.items() if k != "extra" or extra}
            else:
                first = {"rc": 0, "extra": ex, "files": ["t.pnb"], "mode": "", "then": [(o + ["t.pnb"], stdin, exp)]}
                if env is not None:
                    first["env"] = env
                yield ["-c", "t.pn"], b"", first


# ---------- input ----------

SIZE = 1023   # a read gives a line, at most so many bytes of it


def chunks(data):
    r = []
    while data:
        i = data.find(b"\n")
        n = min(SIZE, len(data) if i < 0 else i + 1)
        r.append(data[:n])
        data = data[n:]
    return r


LINES = ["", "a", "two words", "é€", "\r", "tab\t", "'q' \"", "x" * 1021, "y" * 1022, "z" * 1023, "u" * 1024, "v" * 2046, "w" * 5000, "é" * 512]
SHOWX = "show = (x): if (x nil?): '~' print. else: ('<', x, '>') join print..\n"
ALL = "n = 0\nloop:\n x = read\n if (x nil?): break.\n show(x), n = n + 1.\n"


def read_patterns(ch):
    """programs that read, with what they print"""
    t = lambda c: "~" if c is None else "<%s>" % c.decode(errors="replace")
    at = lambda i: ch[i] if i < len(ch) else None
    yield "every line", SHOWX + ALL + "n print\n", "".join(t(c) for c in ch) + str(len(ch))
    yield "three, then the rest", SHOWX + "a = read\nb = read\nc = read\nshow(c), show(b), show(a)\n" + ALL + "show(read)\nshow(read)\n", t(at(2)) + t(at(1)) + t(at(0)) + "".join(t(c) for c in ch[3:]) + "~~"
    yield "in functions", SHOWX + "g = (): read.\nh = (k): l = (), k times: l push(g ()).\n l.\nh(3) each (x): show(x).\nC = class: /x = read.\nshow((C()) /x)\n".replace("(C()) /x", "C() /x"), "".join(t(at(i)) for i in range(4))
    yield "kept", SHOWX + "l = ()\n4 times: x = read, l push(x).\ng = (n): r = (), n times (i): r push(i string).\n r length.\ng(3000), g(3000), g(3000)\nl each (x): show(x).\n", "".join(t(at(i)) for i in range(4))


def gen_input(n, lines):
    for k in range(n + 1):
        for ls in itertools.product(lines, repeat=k):
            for end in (b"\n", b"") if k else (b"",):
                data = b"\n".join(l.encode() for l in ls) + end
                for name, text, out in read_patterns(chunks(data)):
                    yield from cases(text, data, out, modes=MODES if len(data) < 100 else MODES[1:])


def gen_long_input(ns):
    for n in ns:
        data = b"".join(b"line %d\n" % i for i in range(n))
        yield from cases("n = 0\ns = 0\nloop:\n x = read\n if (x nil?): break.\n n = n + 1, s = s + (x slice(5, x length - 1)) number.\n(n, s) string print\n".replace("(x slice(5, x length - 1)) number", "x slice(5, x length - 1) number"),
                         data, "(%d, %d)" % (n, n * (n - 1) // 2))


# ---------- output ----------

OUT = [("'a' print", "a"), ("5 say", "5\n"), ("'é' bytes print", "é"), ("nil print", "nil"), ("true say", "true\n"), ("(1, 'x') say", "(1, x)\n"), ("2.5 print", "2.5"), ("'' print", ""), ("'' say", "\n"),
       ("3 times (i): i print.", "012"), ("load 'm'", "[m]"), ("4000 times: 's' print.", "s" * 4000), ("('k' = 1) print", "(k=1)"), ("File fd(1) kind", "")]
ENDS = [("", 1), ("exit", 0), ("f = (): '{' print, exit, '}' print.\nf ()", "{"), ("3 times (i): i print, if (i == 1): exit..", "01"), ("(7, 8) each (x): x print, exit.", "7"), ("g = (n): if (n == 0): exit. else: g(n - 1)..\ng(50)", 0),
        ("C = class: 'c' print, exit.\nC()", "c"), ("(3, 2, 1) sort((a, b): exit.)", 0), ("z = 'q' + 'r'\nz print, if (z length == 2): exit.", "qr"), ("k = here\nexit", 0), ("load 'x'", "x"), ("loop: exit.", 0), ("(exit, 1)", 0)]


def gen_output(n, outs):
    extra = {"x.pn": "'x' print\nexit\n'y' print\n", "m.pn": "'[m]' print\n"}
    for k in range(n + 1):
        for seq in itertools.product(outs, repeat=k):
            text, out = "".join(s + "\n" for s, _ in seq), "".join(o for _, o in seq)
            for e, v in ENDS if k < 2 else ENDS[:3]:
                yield from cases(text + e + "\n'after' print\n", b"", out + ("after" if v == 1 else v or ""), forms=("f", "e", "c") if k < 2 else ("f",), extra=extra)


def gen_amount(ns):
    """output of n bytes in pieces, up to the end of the program"""
    for n in ns:
        for piece in (1, 7, 100, 4096):
            q, r = divmod(n, piece)
            if q < 70000:
                s = ("0123456789abcdef" * 257)[:piece]
                yield from cases("s = '%s'\n%d times: s print.\n'%s' print\n%s" % (s, q, s[:r], "exit\n" if n % 2 else ""), b"", s * q + s[:r])


# ---------- environment ----------

VARS = [("A", "1"), ("B", ""), ("LONG_NAME_9", "x=y=z"), ("é", "ü€"), ("D", "two\nlines"), ("a", "lower"), ("PATH", "/usr/bin:/bin"), ("E", "v" * 300)]


def gen_env():
    for k in range(len(VARS) + 1):
        for vs in itertools.combinations(VARS, k):
            env = dict(vs)
            # the variables of the check itself are there too
            ask = "(%s) each (k): v = Env(k), if (v nil?): '~' print. else: ('<', v, '>') join print..\n" % ", ".join(lit(n) for n, _ in VARS)
            ask += "n = Env length\nEnv put('A', 'new')\nEnv put('new', 'A')\n(Env('A'), Env('new'), Env at('A')) join(',') print\nm = Env length - n\nm print\n"
            new = (0 if "A" in env else 1) + 1
            out = "".join("<%s>" % env[n] if n in env else "~" for n, _ in VARS) + "new,A,new" + "%d" % new
            yield from cases(ask, b"", out, env=env, forms=("f", "e") if k < 3 else ("f",))


def gen_env_size(shapes):
    """n variables of k bytes each: there, and still there after much other work"""
    for n, k in shapes:
        env = {"V%d" % i: ("%d-" % i * k)[:k] for i in range(n)}
        tot = sum(len(v) for v in env.values())
        text = ("sum = (): s = 0\n Env each (k, v): if (k slice(0, 1) == 'V'): s = s + v length + k length..\n s.\n"
                "a = sum ()\nl = ()\n20000 times (i): l push(i string).\nb = sum ()\nw = 0\n%d times (i): v = Env('V' + i string), if (v slice(0, 1) != i string slice(0, 1)): w = w + 1..\n"
                "(a, b, w, Env('V%d') nil?, l length) string print\n" % (n, n))
        t = tot + sum(len(x) for x in env)
        yield from cases(text, b"", "(%d, %d, 0, true, 20000)" % (t, t), env=env)
        yield ["--check", "a.pn"], b"", {"out": "", "quiet": True, "rc": 0, "env": env}
        yield ["-Mm", "d/b.pn", "x"], b"", {"out": "[m][m0]<d/b.pn|x>[b]", "quiet": True, "rc": 0, "env": env}


def explore(c):
    q = c.quick
    c27.run(c, "input", gen_input(1 if q else 2, LINES))
    c27.run(c, "input, short lines", gen_input(2 if q else 4, LINES[:5]))
    c27.run(c, "long input", gen_long_input([100, 1000, 5000] if q else [10, 100, 1000, 4095, 4096, 20000, 100000]))
    c27.run(c, "output", gen_output(2 if q else 3, OUT if q else OUT[:10]))
    c27.run(c, "amount of output", gen_amount([0, 1, 100, 1023, 1024, 4095, 4096, 4097, 8191, 8192, 65535, 65536, 300000] if q else list(range(0, 200, 3)) + [2 ** i + d for i in range(7, 21) for d in (-1, 0, 1)]))
    c27.run(c, "environment", gen_env())
    c27.run(c, "size of the environment", gen_env_size([(n, 8) for n in (0, 1, 2, 7, 50, 200, 1000, 3000)] + [(10, 10000), (100, 1000), (300, 330), (12, 100000), (1000, 1500)] if q else
                                                       [(n, k) for n in list(range(0, 40)) + [64, 100, 128, 256, 400, 512, 800, 1000] for k in (1, 10, 100, 300, 1000) if n * k < 1500000] + [(5000, 200), (20000, 20), (15, 120000)]))


def replay(v):
    return c27.replay(v)
