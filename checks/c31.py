"""C31: the prompt's line editor gives the line that the keys make, shows it, and keeps its history."""
import itertools, os, shutil, subprocess, tempfile
from concurrent.futures import ProcessPoolExecutor
import pn

MAX, LINE = 100, 4095
BS, DEL, LEFT, RIGHT, UP, DOWN = b"\x7f", b"\x1b[3~", b"\x1b[D", b"\x1b[C", b"\x1b[A", b"\x1b[B"
ENTER, HOME, END, CUT, KILL, WORD, SWAP, CLEAR, D, C = b"\r", b"\x01", b"\x05", b"\x0b", b"\x15", b"\x17", b"\x14", b"\x0c", b"\x04", b"\x03"
SAME = {b"\x08": BS, b"\x02": LEFT, b"\x06": RIGHT, b"\x10": UP, b"\x0e": DOWN}
NOTHING = [b"\x1b[H", b"\x1bOH", b"\x1b[5~", b"\x1b[1~", b"\x1b[Z"]
KEYS = [b"x", b" ", BS, D, DEL, LEFT, RIGHT, HOME, END, CUT, KILL, WORD, SWAP, UP, DOWN]
ALL = KEYS + [CLEAR] + sorted(SAME) + NOTHING


class Editor:
    """the reference: what each key does to the line, the cursor and the history"""
    def __init__(self, mode, cols, prompt, hist):
        self.mode, self.cols, self.prompt = mode, cols if cols > 0 else 80, prompt
        self.hist, self.file = [], hist
        if hist is not None:
            ls = hist.split(b"\n")
            for ln in ls[:-1] if not ls[-1] else ls:
                self.add(ln.split(b"\r")[0])

    def add(self, ln):
        if len(self.hist) == MAX:
            del self.hist[0]
        self.hist.append(ln)

    def saved(self, ln):
        self.add(ln)
        self.file = b"".join(x + b"\n" for x in self.hist)
        return ln

    def begin(self):
        self.buf, self.pos, self.idx, self.home = b"", 0, 0, ""
        self.add(b"")

    def show(self):
        s = max(0, len(self.prompt) + self.pos - (self.cols - 1))
        t = (self.prompt + self.buf[s:])[:self.cols].rstrip(b" ")
        r = "[%s]%d%s" % ("".join(chr(x) if 33 <= x <= 126 and x not in b"%]" else "%%%02x" % x for x in t), len(self.prompt) + self.pos - s, self.home)
        self.home = ""
        return r

    def key(self, k):
        """None, or (line or nil,) when the key ends the line"""
        b, p = self.buf, self.pos
        k = SAME.get(k, k)
        if k == ENTER or k == C or k == D and not b:
            self.hist.pop()
            return (b if k == ENTER else None,)
        if k == BS:
            if p:
                self.buf, self.pos = b[:p - 1] + b[p:], p - 1
        elif k in (D, DEL):
            self.buf = b[:p] + b[p + 1:]
        elif k == SWAP:
            if 0 < p < len(b):
                self.buf = b[:p - 1] + b[p:p + 1] + b[p - 1:p] + b[p + 1:]
                self.pos = min(p + 1, len(b) - 1)
        elif k == LEFT:
            self.pos = max(0, p - 1)
        elif k == RIGHT:
            self.pos = min(len(b), p + 1)
        elif k == HOME:
            self.pos = 0
        elif k == END:
            self.pos = len(b)
        elif k == CUT:
            self.buf = b[:p]
        elif k == KILL:
            self.buf, self.pos = b"", 0
        elif k == WORD:
            q = p
            while q and b[q - 1] == 32:
                q -= 1
            while q and b[q - 1] != 32:
                q -= 1
            self.buf, self.pos = b[:q] + b[p:], q
        elif k == CLEAR:
            self.home = "h"
        elif k in (UP, DOWN):
            n = len(self.hist)
            if n > 1:
                self.hist[n - 1 - self.idx] = b         # what is left keeps its edits
                i = self.idx + (1 if k == UP else -1)
                if 0 <= i < n:
                    self.idx = i
                    self.buf = self.hist[n - 1 - i][:LINE]
                    self.pos = len(self.buf)
        elif k[0] != 27 and len(b) < LINE:
            self.buf, self.pos = b[:p] + k + b[p:], p + 1


def hexs(b):
    return "".join("x%d:%02x" % (len(g), g[0]) if len(g) > 8 else g.hex() for g in (bytes(g) for _, g in itertools.groupby(b)))


def model(case, states=None):
    mode, cols, chunk, reads, prompt, hist, keys = case
    e, out, i, ended = Editor(mode, cols, prompt, hist), "", 0, False
    if mode != "t":
        lines = b"".join(keys).split(b"\n")
        if not lines[-1]:
            lines.pop()
    for n in range(reads):
        if mode != "t":
            if i < len(lines):
                out += "=" + hexs(e.saved(lines[i].rstrip(b"\r") if mode == "d" else lines[i])) + ","
                i += 1
            else:
                out += "=nil,"
            continue
        e.begin()
        while True:
            if states is not None:
                states.add(hash((e.buf, e.pos, e.idx, tuple(e.hist))))
            if chunk != 2 and not ended:
                out += e.show()
            if i == len(keys):
                ended = True
                e.hist.pop()
                r = (e.buf or None,)
                break
            r = e.key(keys[i])
            i += 1
            if r:
                break
        out += "=nil," if r[0] is None else "=" + hexs(e.saved(r[0])) + ","
    return out + "#" + ("!" if e.file is None else hexs(e.file))


def enc(case):
    mode, cols, chunk, reads, prompt, hist, keys = case
    k = []
    for x, g in itertools.groupby(keys):
        n = len(list(g))
        k.append("x%d:%02x" % (n, x[0]) if n > 3 and len(x) == 1 and (mode != "t" or chunk == 3) else ".".join([x.hex()] * n))
    return "%s %d %d %d %s %s %s\n" % (mode, cols, chunk, reads, prompt.hex() or "-", "!" if hist is None else hexs(hist) or "-", ".".join(k) or "-")


def harness():
    b = pn.build()
    return pn.harness("lined.c", extra=tuple("-Wl,--wrap=" + x for x in "read write isatty tcgetattr tcsetattr ioctl".split()) +
                      (b + "/lib/readline/readline.c", b + "/lib/readline/linenoise.c"))


def job(args):
    exe, cases, alone = args
    d = tempfile.mkdtemp(prefix="vp")
    bad, outs, states = [], set(), set()
    try:
        open(d + "/cases", "w").write("".join(map(enc, cases)))
        try:
            r = subprocess.run([exe, "cases"], cwd=d, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=600, env=dict(os.environ, MALLOC_PERTURB_="165"))
            got = r.stdout.decode("latin1").split("\n")
        except subprocess.TimeoutExpired:
            got = []
        for i, case in enumerate(cases):
            e = model(case, states)
            outs.add(hash(e))
            g = got[i] if i < len(got) - 1 else "no answer"
            if g != e:
                bad.append((case, e, g))
                if len(bad) > 20:
                    break
    finally:
        shutil.rmtree(d, True)
    return len(cases), bad, outs, states


# ---------- what is explored: (mode, columns, chunk, lines read, prompt, history file, keys) ----------
def typed(s):
    return [s[i:i + 1] for i in range(len(s))]


TWO = b"one\ntwo words\n"


def gen_keys(keys, n, text, hist=TWO, cols=80, chunk=0, back=None):
    for l in range(len(text) + 1) if back is None else back:
        for s in itertools.product(keys, repeat=n):
            yield ("t", cols, chunk, 2, b"> ", hist, typed(text) + [LEFT] * l + list(s) + [ENTER])


def gen_arrival(n):
    ks = [b"x", LEFT, DEL, b"\x1b[5~", b"\x1bOH", BS]
    for chunk in (0, 1, 2):
        for s in itertools.product(ks, repeat=n):
            for tail in ([ENTER], [ENTER, b"z", ENTER]):
                yield ("t", 80, chunk, 2, b"> ", TWO, [b"a", b"b", b"c"] + list(s) + tail)


def gen_end(n):
    """the input ends, or the line is given up, at every point of every sequence"""
    ks = [b"a", LEFT, BS, UP, D, C, ENTER, DEL]
    for m in range(n + 1):
        for s in itertools.product(ks, repeat=m):
            for cut in [b""] + [DEL[:i] for i in (1, 2, 3)] if m < n else [b""]:
                for hist in (None, b"", TWO):
                    yield ("t", 80, 0, n + 2, b"> ", hist, list(s) + ([cut] if cut else []))


def gen_width(widths, plens, keys, n):
    for cols in widths:
        for plen in plens:
            if plen >= (cols if cols > 0 else 80):
                continue
            w = (cols if cols > 0 else 80) - plen
            for ln in sorted({0, w - 2, w - 1, w, w + 1, 2 * w + 3}):
                if ln < 0:
                    continue
                text = bytes(97 + i % 26 for i in range(ln))
                for s in itertools.product(keys, repeat=n):
                    yield ("t", cols, 0, 1, b"?" * plen, b"0123456789" * 9 + b"\nw\n", typed(text) + list(s) + [ENTER])
                # the cursor walks over the whole line
                yield ("t", cols, 0, 1, b"?" * plen, None, typed(text) + [LEFT] * (ln + 1) + [DEL, RIGHT, b"Z"] + [RIGHT] * (ln + 1) + [BS] * (ln + 2) + [b"q", ENTER])


def gen_history(sizes, moves, n):
    for size in sizes:
        for end in (b"\n", b""):
            hist = b"\n".join(b"line %d" % i for i in range(size)) + (end if size else b"")
            for s in itertools.product(moves, repeat=n):
                yield ("t", 80, 0, n + 2, b"> ", hist, [k for m in s for k in m] + [UP, b"!", ENTER, UP, UP, DOWN, ENTER])
            for k in (size - 2, size - 1, size, size + 1, size + 2, 99, 100, 101):
                if k > 0:
                    yield ("t", 80, 0, 3, b"> ", hist, [UP] * k + [ENTER, b"n", UP] + [DOWN] * 2 + [ENTER])
                    yield ("t", 80, 0, 3, b"> ", hist, [UP] * k + [DOWN] * (k - 1) + [b"e", UP, DOWN, ENTER, UP, ENTER])


def gen_sessions(ns):
    for n in ns:
        for hist in (None, TWO, b"".join(b"h%d\n" % i for i in range(99))):
            yield ("t", 80, 2, n + 3, b"> ", hist, [k for i in range(n) for k in typed(b"%d" % i) + [ENTER]] + [UP] * 3 + [ENTER] + [UP] * n + [ENTER])


FILES = [b"", b"\n", b"\n\n", b"a", b"a\n", b"a\r\nb\r\n", b"a\rb\nc\n", b"\na\n\n", b"a\n\nb", b" a \n", b"t\tu\n", "gr\u00fc\u00df\n".encode()]


def gen_files(lens):
    for f in FILES:
        for n in range(4):
            yield ("t", 80, 2, 2, b"> ", f, [UP] * n + [ENTER, UP, ENTER])
    for n in lens:
        for f in (b"k" * n, b"k" * n + b"\n", b"a\n" + b"k" * n + b"\nb\n", b"k" * n + b"\n" + b"m" * n + b"\n"):
            for u in range(1, 4):
                yield ("t", 80, 0, 2, b"> ", f, [UP] * u + [ENTER, UP, ENTER])
                yield ("t", 80, 2, 2, b"> ", f, [UP] * u + [HOME, b"y", END, BS, b"z", b"z", ENTER, b"q", ENTER])


def gen_typed(lens):
    for n in lens:
        for tail in ([], [b"y"], [BS, b"y", b"z"], [HOME, b"y"], [HOME, DEL, b"y", b"z"], [LEFT, SWAP, b"y"], [LEFT, WORD, b"y", b"z"], [UP, DOWN, b"y", BS, b"z"]):
            yield ("t", 80, 2, 2, b"> ", TWO, [b"k"] * n + tail + [ENTER, UP, ENTER])


LINES = [b"", b"a", b"b c", b" ", "\u00e9\u4e16".encode(), b"\xff\xfe", b"~}|{", b"k" * 90]


def gen_lines(n):
    for m in range(1, n + 1):
        for s in itertools.product(LINES, repeat=m):
            yield ("t", 200, 2, m + 1, b"> ", None, [k for x in s for k in typed(x) + [ENTER]] + [UP] * m + [ENTER])


def gen_piped(n, lens):
    for mode in "pd":
        for m in range(n + 1):
            for s in itertools.product([x for x in LINES if mode == "p" or x != b"zz"], repeat=m):
                for end in (b"\n", b"") if m else (b"",):
                    yield (mode, 80, 0, m + 2, b"> ", None if m % 2 else TWO, typed(b"\n".join(s) + end))
    for k in lens:
        for j in (0, 1, 5):
            yield ("p", 80, 0, 4, b"> ", TWO, typed(b"k" * k + b"\n" + b"m" * j + b"\n" + b"n" * k))
    for k in range(95, 106):
        yield ("p", 80, 0, k, b"> ", None, typed(b"".join(b"%d\n" % i for i in range(k))))
        yield ("p", 80, 0, k, b"> ", b"".join(b"h%d\n" % i for i in range(k)), typed(b"".join(b"%d\n" % i for i in range(20))))


def run(c, part, gen):
    exe = harness()
    p = {"sessions": 0, "keys": 0, "mismatches": 0}
    with ProcessPoolExecutor(8) as ex:
        fs, batch = [], []

        def flush():
            if batch:
                fs.append(ex.submit(job, (exe, list(batch), False)))
                batch.clear()
        for case in gen:
            p["sessions"] += 1
            p["keys"] += len(case[6])
            c.trans(len(case[6]))
            if p["sessions"] in (3, 777):
                c.sample({"part": part, "program": repr(case)[:300], "expected": model(case)[:300]}, 14)
            batch.append(case)
            if len(batch) == 400:
                flush()
        flush()
        for f in fs:
            n, bad, outs, states = f.result()
            c.outcomes |= outs
            c.states |= states
            for case, e, g in bad:
                if len(c.viol) < 6:         # again, alone
                    b = job((exe, [case], True))[1]
                    if not b:
                        p["unconfirmed"] = p.get("unconfirmed", 0) + 1
                        continue
                    g = b[0][2]
                p["mismatches"] += 1
                c.violation(part, {"program": repr(case)[:20000], "expected": e[-3000:], "got": g[-3000:], "harness": 1})
    c.parts[part] = p
    c.cov["traces_validated_against_impl"] += p["sessions"]


def explore(c):
    q = c.quick
    run(c, "every key", gen_keys(ALL, 2, b"ab c"))
    run(c, "every key without a history", gen_keys(ALL, 2, b"a b", None))
    run(c, "keys", gen_keys(KEYS, 3 if q else 4, b"ab  c", back=(0, 1, 3, 5) if q else None))
    run(c, "keys on an empty line", gen_keys(KEYS, 4 if q else 5, b""))
    run(c, "arrival", gen_arrival(3 if q else 4))
    run(c, "the end", gen_end(3 if q else 4))
    run(c, "widths", gen_width((3, 4, 8, 20, 80, 0, -1, 200) if q else range(2, 40), (0, 1, 2, 5), [b"x", BS, LEFT, HOME, END, UP, CUT, SWAP, CLEAR], 2 if q else 3))
    run(c, "history", gen_history((0, 1, 2, 3, 98, 99, 100, 101, 102, 150), [[UP], [DOWN], [b"e"], [ENTER], [UP, BS], [C]], 3 if q else 5))
    run(c, "sessions", gen_sessions((1, 2, 97, 98, 99, 100, 101, 102, 120) if q else range(1, 260)))
    run(c, "history files", gen_files((4093, 4094, 4095, 4096, 4097, 8190, 8191, 8192, 10000)))
    run(c, "long lines", gen_typed(range(4092, 4098) if q else range(4000, 4200)))
    run(c, "lines", gen_lines(3 if q else 4))
    run(c, "piped", gen_piped(3 if q else 4, (4094, 4095, 4096, 8190, 8191, 8192, 100000)))


def replay(v):
    import ast
    r = job((harness(), [ast.literal_eval(v["program"])], True))[1]
    for case, e, g in r:
        print("%r\nexpected %s\ngot      %s" % (case, e, g))
    return int(bool(r))
