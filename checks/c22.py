"""C22: the parsers greg generates match what the grammar says, as a parsing expression grammar, and run the right actions."""
import itertools, os, sys, subprocess, tempfile, shutil, hashlib
from concurrent.futures import ProcessPoolExecutor
import pn

# ---- expressions: ('c', text) literal, ('k', class), ('.',), ('{', n) action, ('<',), ('>',), ('p', n) predicate,
# ('r', rule), ('v', var, rule), ('q'|'*'|'+'|'&'|'!', e), ('s', e, e...), ('/', e, e...), ('~', e, n)

PRED = {0: ("G->pos % 2", lambda m: m.pos % 2), 1: ("yytext[0] == 'a'", lambda m: m.text()[:1] == b"a"),
        2: ("0", lambda m: 0), 3: ("(G->begin= G->pos, 1)", None)}


def src(e, top=False):
    k = e[0]
    if k == "c":
        return (e[2] + e[1] + e[2]) if len(e) > 2 else "'" + e[1] + "'"
    if k == "k":
        return "[" + e[1] + "]"
    if k in ".<>":
        return k
    if k == "{":
        return "{ A(%d, %s) }" % (e[1], e[2] if len(e) > 2 else "0")
    if k == "p":
        return "&{ %s }" % PRED[e[1]][0]
    if k == "r":
        return e[1]
    if k == "v":
        return e[1] + ":" + e[2]
    if k == "s":
        t = " ".join(src(x) for x in e[1:])
    elif k == "/":
        t = " | ".join(src(x) for x in e[1:])
    elif k == "~":
        t = src(e[1]) + " ~{ E(%d) }" % e[2]
    elif k in "&!":
        return k + ("(" + src(e[1]) + ")" if e[1][0] in "{p&!" else src(e[1]))
    else:
        t = ("(" + src(e[1]) + ")" if e[1][0] in "p&!" else src(e[1])) + {"q": "?"}.get(k, k)
        return t if top else "(" + t + ")"
    return t if top else "(" + t + ")"


class M:
    """the reference: a PEG matcher with the actions of a rule run after the match, in order"""
    def __init__(self, rules):
        self.rules = {n: self.comp(e) for n, e in rules.items()}
        self.vars = {n: sorted(set(vs(e))) for n, e in rules.items()}
        self.budget = 0

    def text(self, b=None, e=None):
        b, e = (self.begin, self.end) if b is None else (b, e)
        return self.inp[b:e] if e > b else b""

    def call(self, n):
        self.budget -= 1
        if self.budget < 0:
            raise RecursionError
        p, t = self.pos, len(self.th)
        if self.vars[n]:
            self.th.append(("push", len(self.vars[n])))
        if self.rules[n]():
            if self.vars[n]:
                self.th.append(("pop", len(self.vars[n])))
            return True
        self.pos = p
        del self.th[t:]
        return False

    def comp(self, e):
        k = e[0]
        if k == "c":
            w = cbytes(e[1])

            def f():
                if self.inp.startswith(w, self.pos):
                    self.pos += len(w)
                    return True
                return False
        elif k == "k" or k == ".":
            s = range(256) if k == "." else cclass(e[1])

            def f():
                if self.pos < len(self.inp) and self.inp[self.pos] in s:
                    self.pos += 1
                    return True
                return False
        elif k == "{":
            n, v = e[1], e[2] if len(e) > 2 else None

            def f():
                self.th.append(("act", n, self.begin, self.end, v))
                return True
        elif k == "<":
            def f():
                self.begin = self.pos
                return True
        elif k == ">":
            def f():
                self.end = self.pos
                return True
        elif k == "p":
            g = PRED[e[1]][1]

            def f():
                return bool(g(self))
        elif k == "r":
            r = e[1]

            def f():
                return self.call(r)
        elif k == "v":
            r, v = e[2], e[1]

            def f():
                if self.call(r):
                    self.th.append(("set", v))
                    return True
                return False
        elif k == "s":
            fs = [self.comp(x) for x in e[1:]]

            def f():
                for g in fs:
                    if not g():
                        return False
                return True
        elif k == "/":
            fs = [self.comp(x) for x in e[1:]]

            def f():
                p, t = self.pos, len(self.th)
                for g in fs:
                    if g():
                        return True
                    self.pos = p
                    del self.th[t:]
                return False
        elif k == "~":
            g1, n = self.comp(e[1]), e[2]

            def f():
                if g1():
                    return True
                self.err.append("E%d" % n)
                return False
        elif k in "&!":
            g1 = self.comp(e[1])
            want = k == "&"

            def f():
                p, t = self.pos, len(self.th)
                r = g1()
                self.pos = p
                del self.th[t:]
                return r == want
        else:
            g1 = self.comp(e[1])

            def f():
                n = 0
                while True:
                    p, t = self.pos, len(self.th)
                    if not g1():
                        self.pos = p
                        del self.th[t:]
                        break
                    n += 1
                    if k == "q":
                        break
                return k != "+" or n > 0
        return f

    def parse(self, rule, inp):
        """one call of the parser: (matched, consumed, trace)"""
        self.inp, self.pos, self.begin, self.end, self.th, self.err, self.budget = inp, 0, 0, 0, [], [], 10 ** 6
        ok = self.call(rule)
        out = list(self.err)
        if ok:
            stack, yy, names = [], self.yy, []
            for t in self.th:
                if t[0] == "push":
                    stack.append({})
                elif t[0] == "pop":
                    stack.pop()
                elif t[0] == "set":
                    stack[-1][t[1]] = yy
                else:
                    if t[1] >= 100:
                        yy = t[1] - 100
                    v = stack[-1].get(t[4], 0) if t[4] else 0
                    tx = self.text(t[2], t[3])
                    out.append("%d[%s]%d:%d" % (t[1], tx.hex(), len(tx), v))
            self.yy = yy
        return ok, self.pos, "".join(out)


def vs(e):
    if e[0] == "v":
        return [e[1]]
    return [v for x in e[1:] if isinstance(x, tuple) for v in vs(x)]


ESC = {"a": 7, "b": 8, "e": 27, "f": 12, "n": 10, "r": 13, "t": 9, "v": 11}


def chars(t):
    """the characters of the text of a literal or class: (code, escaped)"""
    i, out = 0, []
    t = t.encode("latin1")
    while i < len(t):
        c = t[i]
        if c != 92:
            out.append((c, False))
            i += 1
            continue
        c = chr(t[i + 1])
        i += 2
        if c in ESC:
            out.append((ESC[c], True))
        elif c == "x":
            j = i
            while j < len(t) and j < i + 2 and chr(t[j]) in "0123456789abcdefABCDEF":
                j += 1
            out.append((int(t[i:j], 16), True))
            i = j
        elif c in "01234567":
            j = i
            while j < len(t) and j < i + 2 and chr(t[j]) in "01234567":
                j += 1
            out.append((int(t[i - 1:j], 8) & 255, True))
            i = j
        else:
            out.append((ord(c), True))
    return out


def cbytes(t):
    return bytes(c for c, _ in chars(t))


def cclass(t):
    neg = t[:1] == "^"
    cs = chars(t[1:] if neg else t)
    s, i = set(), 0
    while i < len(cs):
        if i + 2 < len(cs) and cs[i + 1] == (45, False):
            s |= set(range(cs[i][0], cs[i + 2][0] + 1))
            i += 3
        else:
            s.add(cs[i][0])
            i += 1
    return frozenset(range(256)) - s if neg else frozenset(s)


# ---- which expressions are well formed: no repetition of what can match nothing, no left recursion
def nullable(e, rn):
    k = e[0]
    if k in ".kc":
        return k == "c" and not e[1]
    if k == "r":
        return rn.get(e[1], True)
    if k == "v":
        return rn.get(e[2], True)
    if k in "s":
        return all(nullable(x, rn) for x in e[1:])
    if k == "/":
        return any(nullable(x, rn) for x in e[1:])
    if k in "+~":
        return nullable(e[1], rn)
    return True


def wf(e, rn):
    if e[0] in "*+" and nullable(e[1], rn):
        return False
    return all(wf(x, rn) for x in e[1:] if isinstance(x, tuple))


def leftrefs(e, rn):
    k = e[0]
    if k == "r":
        return {e[1]}
    if k == "v":
        return {e[2]}
    if k == "s":
        r = set()
        for x in e[1:]:
            r |= leftrefs(x, rn)
            if not nullable(x, rn):
                break
        return r
    return set().union(*[leftrefs(x, rn) for x in e[1:] if isinstance(x, tuple)], set())


def enum(n, atoms, un="q*+&!", _memo={}):
    """all expressions of n nodes"""
    key = (n, tuple(atoms), un)
    if key in _memo:
        return _memo[key]
    if n == 1:
        r = list(atoms)
    else:
        r = [(u, e) for u in un for e in enum(n - 1, atoms, un)]
        for i in range(1, n - 1):
            for a in enum(i, atoms, un):
                for b in enum(n - 1 - i, atoms, un):
                    if a[0] != "s":
                        r.append(("s", a, b))
                    if a[0] != "/":
                        r.append(("/", a, b))
    _memo[key] = r
    return r


HELP = {"R": ("/", ("s", ("c", "a"), ("{", 101)), ("s", ("c", "b"), ("{", 102))),
        "N": ("q", ("c", "a")),
        "Q": ("s", ("v", "v", "R"), ("{", 3, "v"))}
RN = {"R": False, "N": True, "Q": False}

HEAD = r"""%%{
static const unsigned char *In; static int InLen, InPos, Chunk;
static char Out[1 << 22]; static int On;
#define YY_INPUT(buf, result, max_size) { int n_ = Chunk; if (n_ > InLen - InPos) n_ = InLen - InPos; \
  if (n_ > max_size) n_ = max_size; memcpy(buf, In + InPos, n_); InPos += n_; result = n_; }
#define A(n, v) { int i_; if (n >= 100) yy = n - 100; On += sprintf(Out + On, "%%d[", n); \
  for (i_ = 0; yytext[i_]; i_++) On += sprintf(Out + On, "%%02x", (unsigned char)yytext[i_]); On += sprintf(Out + On, "]%%d:%%d", yyleng, v); }
#define E(n) On += sprintf(Out + On, "E%%d", n)
%s
%%}
"""
# run: for each line of stdin RULE CHUNK REPEAT HEX: parse up to REPEAT times, print each result
TAIL = r"""
%%%%
static int (*Fn[])(GREG *) = { %s };
int main(int argc, char **argv) {
  static unsigned char in[1 << 20]; int rule, chunk, rep, i, c; static char dirt[100000];
  memset(dirt, 'D', sizeof dirt);
  while (scanf("%%d %%d %%d ", &rule, &chunk, &rep) == 3) {
    InLen = 0;
    while ((c = getchar()) != '\n' && c != EOF) {
      int d = getchar();
      if (c == 'x') { int n = 0; if (d != ':') { ungetc(d, stdin); scanf("%%d:", &n); }
        /* xN:HH repeats a byte */
        int h; scanf("%%2x", &h); while (n--) in[InLen++] = h; continue; }
      if (c == '-') continue;
      c = (c <= '9' ? c - '0' : c - 'a' + 10) << 4 | (d <= '9' ? d - '0' : d - 'a' + 10);
      in[InLen++] = c;
    }
    In = in; InPos = 0; Chunk = chunk;
    GREG g; yyinit(&g);
    int ok = 1, off = 0;
    for (i = 0; i < rep && ok; i++) {
      On = 0; Out[0] = 0;
      ok = yyparse_from(&g, Fn[rule]);
      printf("%%d %%d %%s|", ok, g.offset - off, Out);
      off = g.offset;
    }
    printf("\n");
    yydeinit(&g);
  }
  return 0;
}
"""


def greg(b):
    """the generator of the tree under test, with its memory accesses checked"""
    exe = b + "/greg-asan"
    if not os.path.exists(exe):
        tmp = "%s.%d" % (exe, os.getpid())
        r = subprocess.run(["clang", "-w", "-g", "-fsanitize=address", "-I" + b + "/tools", "-o", tmp] + [b + "/tools/%s.c" % x for x in ("greg", "compile", "tree")],
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise pn.CheckError("greg does not build: " + r.stdout.decode()[-1000:])
        os.rename(tmp, exe)
    return exe


def job(args):
    """one grammar: rules [(name, expr)], tests [(rule index, chunk, repeat, input, expected or None)]; returns (n, mismatches)"""
    sys.setrecursionlimit(10 ** 6)
    bdir, rules, tests, cdef, tag, text = args
    d = tempfile.mkdtemp(prefix="vp")
    try:
        allr = dict(HELP)
        allr.update(rules)
        used = HELP if not text else {}
        g = HEAD % cdef
        if text:
            g = text.replace("%%HEAD%%", g) + TAIL % ", ".join("yy_" + n for n, _ in rules)
        else:
            g += "".join("%s = %s\n" % (n, src(e, True)) for n, e in rules)
            g += "".join("%s = %s\n" % (n, src(e, True)) for n, e in used.items())
            g += TAIL % ", ".join("yy_" + n for n, _ in rules)
        open(d + "/g.g", "wb").write(g.encode("latin1"))
        r = subprocess.run([greg(bdir), d + "/g.g"], stdout=open(d + "/g.c", "wb"), stderr=subprocess.PIPE, timeout=120)
        if r.returncode:
            return 0, [(tag, rules[0], b"", "a parser", "greg: exit %d %s" % (r.returncode, r.stderr.decode("latin1")[:600].strip()))]
        r = subprocess.run(["clang", "-w", "-O0"] + (["-fsanitize=address"] if tag == "buffers" else []) + ["-o", d + "/g", d + "/g.c"], stderr=subprocess.PIPE)
        if r.returncode:
            return 0, [(tag, rules[0], b"", "C code", "clang: " + r.stderr.decode("latin1")[:300])]
        inp = "".join("%d %d %d %s\n" % (ri, ch, rep, hexin(s)) for ri, ch, rep, s in tests)
        r = subprocess.run([d + "/g"], input=inp.encode(), stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, timeout=300)
        lines = r.stdout.decode("latin1").split("\n")
        m = M(allr)
        bad = []
        outcomes = set()
        for i, (ri, ch, rep, s) in enumerate(tests):
            got = lines[i] if i < len(lines) - 1 else "no answer (exit %d)" % r.returncode
            m.yy = 0
            exp, rest = "", s
            for _ in range(rep):
                ok, n, out = m.parse(rules[ri][0], rest)
                exp += "%d %d %s|" % (ok, n, out)
                rest = rest[n:]
                if not ok:
                    break
            outcomes.add(hash(exp))
            if got != exp:
                bad.append((tag, rules[ri], s, exp, got))
                if len(bad) > 20:
                    break
        return len(tests), bad, outcomes
    finally:
        shutil.rmtree(d, True)


def hexin(s):
    out, i = "", 0
    while i < len(s):
        j = i
        while j < len(s) and s[j] == s[i]:
            j += 1
        out += "x:" if False else ("x%d:%02x" % (j - i, s[i]) if j - i > 8 else "%02x" % s[i] * (j - i))
        i = j
    return out or "--"


def words(alpha, n):
    for k in range(n + 1):
        for w in itertools.product(alpha, repeat=k):
            yield bytes(w)


def gen_expr(c, sizes, atoms, inputs, rep=1, chunks=(1,)):
    """every well formed expression of the sizes as the body of a rule, every input"""
    rules = []
    for n in sizes:
        for e in enum(n, atoms):
            if wf(e, RN) and leftrefs(e, dict(RN)) <= {"R", "N", "Q"}:
                rules.append(("X%d" % len(rules), e))
    per = 400
    for i in range(0, len(rules), per):
        rs = rules[i:i + per]
        yield rs, [(j, ch, rep, w) for j in range(len(rs)) for w in inputs for ch in chunks], ""


def gen_rec(c, sizes, atoms, inputs):
    """every expression that refers to its own rule, or to one that refers back, without left recursion"""
    rules = []
    at = list(atoms) + [("r", "S"), ("v", "w", "S")]
    for n in sizes:
        for e in enum(n, at):
            if "'S'" not in repr(e):
                continue
            nm = "X%d" % len(rules)
            e = subst(e, nm)
            rn = dict(RN)
            rn[nm] = True       # then look whether it is
            rn[nm] = nullable(e, rn)
            if wf(e, rn) and nm not in leftrefs(e, rn):
                rules.append((nm, ("s", e, ("{", 4, "w")) if "'w'" in repr(e) else e))
    per = 400
    for i in range(0, len(rules), per):
        rs = rules[i:i + per]
        yield rs, [(j, 1, 1, w) for j in range(len(rs)) for w in inputs], ""


def subst(e, nm):
    return tuple(subst(x, nm) if isinstance(x, tuple) else nm if x == "S" else x for x in e)


def gen_bytes(c):
    """every byte in every spelling, as a literal and as a class, alone and among others, against every byte"""
    rules, tests = [], []
    sp = []
    for b in range(1, 256):
        ch = chr(b)
        for t in {"\\x%02x" % b, "\\x%02X" % b, "\\%o" % b if b < 64 else "\\%03o" % b, "\\%03o" % b} | ({"\\x%x" % b} if b < 16 else set()):
            sp.append((b, t))
        if 32 <= b < 127 and ch not in "\\":
            sp.append((b, ch))
        if ch in "-'\"[]\\":
            sp.append((b, "\\" + ch))
    sp += [(v, "\\" + k) for k, v in ESC.items()]
    for b, t in sp:
        if t not in ("'", "\n"):
            for e in (("c", t), ("s", ("c", "a" + t), ("c", "b")), ("s", ("c", t + "z"), (".",))):
                rules.append(e)
        if t not in ('"', "\n"):
            rules += [("c", t, '"'), ("s", ("c", "a" + t, '"'), (".",))]
        if t not in ("]", "\n", "-", "^"):
            rules += [("k", t), ("k", "^" + t), ("k", t + "-" + t), ("k", "pq" + t), ("k", t + "pq")]
        elif t != "]":
            rules += [("k", t + "pq"), ("k", "^" + t + "pq")]
    rules = [("X%d" % i, e) for i, e in enumerate(rules)]
    per = 300
    for i in range(0, len(rules), per):
        rs = rules[i:i + per]
        ts = []
        for j, (n, e) in enumerate(rs):
            if e[0] == "k":
                ins = [bytes([x]) for x in range(256)]
            elif e[0] == "c":
                ins = [bytes([x]) for x in range(256)] + [b""]
            else:
                w = b"".join(cbytes(x[1]) for x in e[1:] if x[0] == "c")
                ins = [w, w[:1], w[:-1], w + b"b", w[:1] + b"x" + w[1:], b"x" + w]
            ts += [(j, 1, 1, w) for w in ins]
        yield rs, ts, ""


def gen_ranges(c, alpha, n):
    """every class of up to n of the characters, against every byte"""
    rules = []
    for k in range(1, n + 1):
        for w in itertools.product(alpha, repeat=k):
            for neg in ("", "^"):
                if neg == "" and w[0] == "^":
                    continue
                t = neg + "".join(w)
                if not descending(t) and not (neg and descending(t[1:])):
                    rules.append(("k", t))
    rules = [("X%d" % i, e) for i, e in enumerate(rules)]
    ins = [bytes([x]) for x in sorted({0, 1, 255} | set(range(40, 130)))]
    for i in range(0, len(rules), 600):
        rs = rules[i:i + 600]
        yield rs, [(j, 1, 1, w) for j in range(len(rs)) for w in ins], ""


def descending(t):
    cs = chars(t)
    i = 0
    while i < len(cs):
        if i + 1 < len(cs) and cs[i + 1] == (45, False):
            if i + 2 == len(cs) or cs[i][0] > cs[i + 2][0]:     # a- at the end is a range up to ]
                return True
            i += 3
        else:
            i += 1
    return False


def gen_growth(c, lens, sizes):
    """inputs, texts and actions around the sizes of the parser's buffers, read in pieces of several sizes"""
    deep = ("/", ("s", ("v", "v", "R"), ("c", "("), ("r", "X5"), ("c", ")"), ("{", 6, "v")), ("s", ("c", "."), ("{", 5)))
    rules = [("X0", ("s", ("<",), ("*", ("c", "a")), (">",), ("{", 1))),
             ("X1", ("*", ("s", ("<",), ("c", "a"), (">",), ("{", 2)))),
             ("X2", ("s", ("*", ("s", ("v", "v", "R"), ("{", 3, "v"))), ("c", "."))),
             ("X3", ("s", ("<",), ("*", ("s", ("!", ("c", "bb")), (".",))), (">",), ("{", 4))),
             ("X4", ("s", ("<",), ("c", "a"), ("*", ("c", "aaaaaaaa")), (">",), ("{", 4))),
             ("X5", deep),
             ("X6", ("s", ("v", "a", "R"), ("v", "b", "R"), ("v", "c", "R"), ("q", ("r", "X6")), ("{", 7, "a"), ("{", 8, "b"), ("{", 9, "c")))]
    ts = []
    for n in lens:
        for ch in sizes:
            ts += [(0, ch, 2, b"a" * n), (0, ch, 2, b"a" * n + b"b"), (1, ch, 1, b"a" * n), (3, ch, 1, b"ab" * (n // 2) + b"bb"),
                   (2, ch, 1, b"a" * (n // 2) + b"b" * (n - n // 2) + b"."), (2, ch, 1, b"ab" * (n // 2)), (4, ch, 1, b"a" * n)]
            if n <= 3000:
                ts += [(5, ch, 1, b"a(" * (n // 2) + b"." + b")" * (n // 2)), (5, ch, 1, b"b(" * (n // 2) + b"." + b")" * (n // 2 - 1)),
                       (6, ch, 1, b"aba" * (n // 3))]
    for i in range(0, len(ts), max(1, len(ts) // 16)):
        yield rules, ts[i:i + max(1, len(ts) // 16)], ""


def gen_stream(c, atoms, inputs):
    """a parser called again and again on one input: every call goes on where the one before stopped"""
    rules = []
    for n in (1, 2, 3):
        for e in enum(n, atoms):
            if wf(e, RN) and not nullable(e, RN):
                rules.append(("X%d" % len(rules), ("s", ("<",), e, (">",), ("{", 1))))
    for i in range(0, len(rules), 200):
        rs = rules[i:i + 200]
        yield rs, [(j, ch, 8, w) for j in range(len(rs)) for w in inputs for ch in (1, 2, 100)], ""


def gen_syntax(c):
    """other spellings of a grammar: comments, line ends, names, semicolons, literals in either quote, headers, braces in actions"""
    base = [("X0", ("/", ("s", ("c", "a"), ("c", "b"), ("{", 1)), ("s", ("c", "c"), ("r", "X1")), ("s", ("<",), ("c", "d"), (">",), ("{", 2)))),
            ("X1", ("+", ("k", "xy")))]
    seps = [" ", "\n", "\t", "\r\n", " # c 'x' { | = \n", "\n\n", "#\n# \r#\r\n"]
    toks = [["X0", "=", "'a'", "'b'", "{ A(1, 0) }", "|", "'c'", "X1", "|", "<", "'d'", ">", "{ A(2, 0) }", "\n", "X1", "=", "[xy]", "+"],
            ["X0", "=", "(", "'a'", "'b'", "{ A(1, 0) }", ")", "|", "(", "'c'", "(", "X1", ")", ")", "|", "<", "'d'", ">", "{ A(2, 0) }", ";", "X1", "=", "(", "[xy]", ")", "+", ";"],
            ["X0", "=", '"a"', '"b"', "{ if (1) { A(1, 0) } else { E(9); } }", "|", '"c"', "X1", "|", "<", '"d"', ">", "{ {{ A(2, 0) }} }", "\n", "X1", "=", "[xy]", "[yx]", "*"]]
    ins = list(words(b"abcdxy", 3))
    ts = [(j, 1, 1, w) for j in (0, 1) for w in ins]
    for t in toks:
        for s in seps:
            yield base, ts, "%%HEAD%%" + s + s.join(t) + s
        for i in range(1, len(t)):
            for s in seps[1:]:
                yield base, ts, "%%HEAD%%\n" + " ".join(t[:i]) + s + " ".join(t[i:]) + "\n"
        yield base, ts, "%{ static int other; %}\n%%HEAD%%\n%{\nstatic int more= 1 % 2;\n%}\n" + " ".join(t) + "\n"
    # names with - and _, used before and after the definition, and one that is called start
    for a in ("-", "_", "a-b", "a_b", "-9", "B1", "start1", "X-"):
        t = "%%HEAD%%\nX0 = 'a' 'b' { A(1, 0) } | 'c' " + a + " | <'d'> { A(2, 0) }\n" + a + " = X1\nX1 = [xy]+\n"
        yield base, ts, t
        t = "%%HEAD%%\n" + a + " = X1\nX0 = 'a' 'b' { A(1, 0) } | 'c' " + a + " | <'d'> { A(2, 0) }\nX1 = [xy]+\n"
        yield base, ts, t


def run(c, part, gen, cdef=""):
    b = pn.build()
    greg(b)
    p = {"grammars": 0, "executions": 0, "mismatches": 0, "rules": 0}
    with ProcessPoolExecutor(8) as ex:
        fs = []
        for rules, tests, text in gen:
            p["grammars"] += 1
            p["rules"] += len(rules)
            c.states.update(hash((part, src(e), text)) for _, e in rules)
            c.trans(len(tests))
            fs.append(ex.submit(job, (b, rules, tests, cdef, part, text)))
        for f in fs:
            r = f.result()
            p["executions"] += r[0]
            if len(r) > 2:
                c.outcomes |= r[2]
            for tag, rule, s, exp, got in r[1]:
                p["mismatches"] += 1
                c.violation(part, {"program": "%s = %s" % (rule[0], src(rule[1], True)), "input": s[:200].hex(), "expected": exp[:2000], "got": got[:2000],
                                   "harness": 1, "rule": repr(rule), "text": text[0:0]})
    c.parts[part] = p
    c.cov["traces_validated_against_impl"] += p["executions"]


A, B = ("c", "a"), ("c", "b")
ATOMS = (A, B, ("c", "ab"), (".",), ("k", "^a"), ("{", 1), ("<",), (">",), ("r", "R"), ("r", "N"), ("r", "Q"), ("p", 0), ("p", 1))
CORE = (A, B, ("{", 1), ("<",), (">",), ("r", "R"))
REC = (A, B, ("{", 1), ("r", "N"))


def explore(c):
    os.environ["ASAN_OPTIONS"] = "detect_leaks=0:exitcode=99:strict_memcmp=0"
    q = c.quick
    w4, w5 = list(words(b"ab", 4)), list(words(b"ab", 5))
    run(c, "expressions", gen_expr(c, (1, 2, 3), ATOMS, w4))
    run(c, "larger expressions", gen_expr(c, (4,) if q else (4, 5), CORE, list(words(b"ab", 3)) if q else w4))
    run(c, "recursive rules", gen_rec(c, (2, 3, 4) if q else (2, 3, 4, 5), REC, w4 if q else w5))
    run(c, "errors", gen_expr(c, (1, 2, 3), (A, B, ("c", "ab"), ("{", 1), ("r", "N")) + tuple(("~", x, 1) for x in (A, ("c", "ab"), ("r", "R"))), w4))
    run(c, "every byte", gen_bytes(c))
    run(c, "longer classes", gen_ranges(c, ["a", "d", "-"] if q else ["a", "b", "d", "-"], 5 if q else 6))
    run(c, "classes", gen_ranges(c, ["a", "b", "d", "-", "\\-", "^"] if q else ["a", "b", "d", "-", "\\-", "^", "\\x63", "~"], 4 if q else 5))
    run(c, "buffers", gen_growth(c, [0, 1, 7, 8, 9, 100, 510, 511, 512, 513, 1023, 1024, 1025, 2048, 15871, 15872, 15873, 16383, 16384, 16385, 40000] if q else
                                 list(range(0, 40)) + list(range(500, 530)) + list(range(1010, 1040)) + list(range(15860, 15880)) + list(range(16370, 16400)) + [100000], (1, 7, 512, 100000)))
    run(c, "calls in a row", gen_stream(c, (A, B, ("c", "ab"), (".",), ("r", "R"), ("r", "Q")), w4 if q else list(words(b"ab", 6))))
    run(c, "spellings", gen_syntax(c))


def replay(v):
    import ast
    rule = ast.literal_eval(v["rule"])
    s = bytes.fromhex(v["input"])
    r = job((pn.build(), [rule], [(0, 1, 1, s)], "", "replay", ""))
    for x in r[1]:
        print("%s = %s on %r: expected %s got %s" % (rule[0], src(rule[1], True), s, x[3], x[4]))
    return int(bool(r[1]))
