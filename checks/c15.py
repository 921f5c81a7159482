"""C15: source text means what it spells: literals, escapes, comments, layout, length."""
import itertools
from vp import fmt

MAXI = 2 ** 62 - 1


def words(alpha, maxn, minn=0):
    for n in range(minn, maxn + 1):
        yield from itertools.product(alpha, repeat=n)


# ---- numbers ----
def intval(n):
    return n if -MAXI <= n <= MAXI else float(n)


def chunks(l, n):
    l = list(l)
    for i in range(0, len(l), n):
        yield l[i:i + n]


def gen_ints(c, lo, hi, wide):
    vals = list(range(lo, hi))
    for k in range(1, 75):
        for d in (-2, -1, 0, 1, 2):
            vals += [2 ** k + d, -(2 ** k + d)]
    for k in range(1, 26):
        for d in (-1, 0, 1):
            vals += [10 ** k + d, -(10 ** k + d)]
        vals += [int(str(j) * k) for j in range(1, 10)] + [int("1234567890" * 3) // 10 ** k]
    for ch in chunks(sorted(set(vals)), 200):
        c.trans(len(ch))
        c.state(("int", ch[0]))
        yield "(%s)" % ", ".join(map(str, ch)), fmt([intval(v) for v in ch])
    hexs = list(range(0, wide)) + [v for k in range(1, 63) for v in (2 ** k - 1, 2 ** k, 2 ** k + 1) if v <= MAXI]
    for ch in chunks(sorted(set(hexs)), 300):
        c.trans(len(ch) * 2)
        c.state(("hex", ch[0]))
        for f in ("0x%x", "0x%X", "0x000%X"):
            yield "(%s)" % ", ".join(f % v for v in ch), fmt(ch)


def gen_doubles(c, ip, fr, ex):
    for a in ip:
        l = []
        for f in fr:
            for e in ex:
                if f or e:
                    l.append(a + f + e)
        for ch in chunks(l, 100):
            c.trans(len(ch))
            c.state(("dbl", ch[0]))
            yield "(%s)" % ", ".join(ch), fmt([float(x) for x in ch])


# ---- strings ----
ALPHA = ["a", "'", '"', "\\", "\n", "\t", "é", "😀", "#", ",", ".", " ", "\r"]
ESC = [("\\n", "\n"), ("\\b", "\b"), ("\\f", "\f"), ("\\r", "\r"), ("\\t", "\t"), ('\\"', '"'), ("\\\\", "\\"), ("\\'", "'"), ("\\q", "q"), ("\\é", "é"),
       ("\\u0041", "A"), ("\\u20ac", "€"), ("\\U{1f600}", "😀"), ("\\U{7A}", "z"), ("a", "a"), ("'", "'"), ("é", "é"), ("n", "n"), ("0041", "0041"), ("\n", "\n"), ("#", "#")]


def utf(s):
    return s.encode("utf-8")


def gen_str1(c, alpha, n):
    for ch in chunks(words(alpha, n), 60):
        ws = ["".join(w) for w in ch]
        c.trans(len(ws))
        c.state(ws[0])
        yield "(%s)" % ", ".join("'" + w.replace("'", "''") + "'" for w in ws), fmt(ws)


def gen_str2(c, esc, n):
    for ch in chunks(words(esc, n), 60):
        c.trans(len(ch))
        c.state(("esc", ch[0]))
        yield "(%s)" % ", ".join('"' + "".join(e[0] for e in w) + '"' for w in ch), fmt(["".join(e[1] for e in w) for w in ch])


def gen_unicode(c, rng):
    cps = [p for p in rng if p and not 0xD800 <= p < 0xE000]
    for ch in chunks(cps, 400):
        c.trans(len(ch) * 2)
        c.state(ch[0])
        e = fmt([chr(p) for p in ch])
        yield "(%s)" % ", ".join('"\\U{%x}"' % p for p in ch), e
        if ch[-1] < 0x10000:
            yield "(%s)" % ", ".join('"\\u%04X"' % p for p in ch), e
        raw = [p for p in ch if p >= 32 and p != 127 and p != 39 and not 0x80 <= p < 0xa0]
        yield "(%s)" % ", ".join("'%s'" % chr(p) for p in raw), fmt([chr(p) for p in raw])


# ---- layout ----
SPACE = ["", " ", "\t", " \t  ", "\f", "\v"]
WIDE = SPACE + ["\n", "\r\n", "\r", "\n\n", "# c\n", " # ), 'x\n\t", "#\n#\n", "\n  \n"]
SEPS = ["\n", ",", ", ", "\r\n", "\r", "\n\n", ",\n", "\n,\n", " # c\n", "#'\r\n", ",,", " ,\t,\n #\"\n , "]
# parts: text, or one of the gap kinds: s (space), S (at least one), w (space and lines), e (separator), E (optional separator)
LAYOUTS = [
    (["w0", "x", "s", "=", "w", "1", "s", "+", "w", "2", "s", "*", "w", "3", "e", "x", "s", "-", "w1", "4", "E"], 3),
    (["f", "s", "=", "w", "(", "w", "a", "s", ",", "w", "b", "s", ")", "s", ":", "w", "a", "s", "*", "w", "b", "s", ".", "e", "f", "s", "(", "w", "6", "s", ",", "w", "7", "s", ")"], 42),
    (["x", "s", "=", "w", "0", "e", "while", "s", "(", "w", "x", "s", "<", "w", "9", "s", ")", "s", ":", "w", "x", "s", "=", "w", "x", "s", "+", "w", "2", "s", ".", "e", "x"], 10),
    (["x", "=", "5", "e", "if", "s", "(", "x", "s", ">", "w", "3", ")", "s", ":", "w", "y", "=", "1", "E", ".", "s", "else", "s", ":", "w", "y", "=", "2", "E", ".", "e", "y"], 1),
    (["t", "s", "=", "w", "(", "w", "'k'", "s", "=", "w", "1", "e", "'l'", "s", "=", "w", "(", "w", "2", "e", "3", "E", ")", "E", ")", "e", "t", "s", "(", "'l'", "s", ")"], (2, 3)),
    (["l", "=", "(", "w", "1", "e", "2", "e", "3", "E", ")", "e", "(", "w", "l", "S", "length", "e", "l", "s", "(", "1", ")", "E", ")"], (3, 2)),
    (["K", "s", "=", "w", "class", "s", "(", "a", ")", "s", ":", "w", "/a", "s", "=", "w", "a", "s", ".", "e", "K", "S", "dbl", "s", "=", "w", "(", ")", "s", ":", "w", "/a", "s", "*", "w", "2", "s", ".", "e",
      "o", "=", "K", "s", "(", "4", ")", "e", "o", "S", "dbl", "s"], 8),
    (["x", "=", "1", "e", "|", "w", "x", "s", "==", "w", "1", "s", "and", "S2", "x", "s", "<", "w", "2", "s", "&&", "w", "not", "S2", "nil", "s", ".", "E"], True),
    (["r", "=", "(", ")", "e", "(", "1", "e", "2", ")", "S", "each", "s", "(", "x", ")", "s", ":", "w", "r", "S", "push", "s", "(", "x", "s", ")", "E", ".", "e", "r", "E"], (1, 2)),
]
GAPS = {"s": SPACE, "S": SPACE[1:], "w": WIDE, "w0": [""], "w1": [" "] + WIDE[2:], "e": SEPS, "E": [""] + SEPS, "S2": WIDE[1:]}
BASE = {"s": 0, "S": 0, "w": 0, "w0": 0, "w1": 0, "e": 0, "E": 0, "S2": 0}


def gen_layout(c, depth, one_pass):
    for parts, exp in LAYOUTS:
        gaps = [i for i, p in enumerate(parts) if p in GAPS]
        for n in range(0, depth + 1):
            for where in itertools.combinations(gaps, n):
                opts = [GAPS[parts[i]][1:] for i in where]
                if n > 1 and one_pass:
                    opts = [o[:2] + o[-3:] for o in opts]
                for choice in itertools.product(*opts):
                    pick = dict(zip(where, choice))
                    src = "".join(pick.get(i, GAPS[p][BASE[p]]) if p in GAPS else p for i, p in enumerate(parts))
                    c.trans()
                    yield src, fmt(exp)
        c.state(tuple(parts))
        for s in SPACE + SEPS:                        # every gap of one kind alike
            for w in WIDE:
                src = "".join(((s if s in SEPS else "\n") if p == "e" else (s if s in SPACE else "") if p == "s" else (s if s in SEPS else "") if p == "E" else
                               " " if p in ("S", "S2", "w1") else w if p == "w" else "") if p in GAPS else p for p in parts)
                c.trans()
                yield src, fmt(exp)


def gen_comments(c, alpha, n):
    for w in words(alpha, n):
        s = "".join(w)
        c.state(("cmt", s))
        c.trans()
        yield "x = 1 #%s\nx = x + 1 #%s\n#%s\nx #%s" % (s, s, s, s), "2"


def gen_length(c, ns, pads):
    """every token moved across every position, so that it straddles every internal limit"""
    for n in ns:
        c.state(("pad", n))
        for p in pads:
            c.trans()
            body = p[0] + p[1] * n + p[2]
            yield body + "x = 'é#''😀'\ny = 1234567 # é\nz = 0x1F\nname_λ1 = \"\\u20ac\\n\"\n(x, y, z, 1.25, name_λ1)", fmt(("é#'😀", 1234567, 31, 1.25, "€\n"))


def gen_long(c, ns):
    for n in ns:
        c.state(("long", n))
        c.trans(n)
        a = "abcdefghij" * (n // 10 + 1)
        yield "%s = 1\n%s = %s + 1\n%s" % (a[:n], a[:n], a[:n], a[:n]), "2"
        yield "%s = 1\n%sx = 2\n(%s, %sx)" % ((a[:n],) * 4), "(1,2)"
        yield "'%s'" % a[:n], fmt(a[:n])
        yield '"%s"' % a[:n], fmt(a[:n])
        yield '"%s"' % ("\\n" * n), fmt("\n" * n)
        yield '"%s"' % ("\\u00e9x" * n), fmt("éx" * n)
        yield "'%s'" % ("''" * n), fmt("'" * n)
        yield "'%s'" % ("\n" * n), fmt("\n" * n)
        yield "x = 0\n" + "x = x + 1\n" * n + "x", str(n)
        yield "x = 0," + "x = x + 1, " * n + "x", str(n)
        yield "x = 5" + "\n" * n + "x", "5"
        yield "x = 5 #" + "#" * n + "\n" * (n % 3 + 1) + "x", "5"
        yield "(%s) length" % ", ".join(["7"] * n), str(n) if n else "0"
        yield "(%s, 3)(%d)" % (", ".join("0"*0 + str(i) for i in range(n + 1)), n), str(n)
        yield "x = %s3\nx" % (" " * n), "3"
        yield "1.%s" % ("5" * (n + 1)), fmt(float("1." + "5" * (n + 1)))
        yield "0x%s7" % ("0" * n), "7"


def gen_huge(c, ns):
    """tokens, gaps and programs longer than any buffer or counter"""
    for n in ns:
        c.state(("huge", n))
        c.trans(n)
        yield "x = '%s'\n(x length, x slice(0, 1), x slice(%d, 1), x slice(%d, 1))" % ("a" + "b" * (n - 2) + "c", n - 2, n - 1), fmt((n, "a", "b", "c"))
        yield 'x = "%s"\n(x length, x slice(0, 1), x slice(%d, 1), x slice(%d, 1))' % ("a" + "b" * (n - 2) + "c", n - 2, n - 1), fmt((n, "a", "b", "c"))
        yield 'x = "%s"\n(x length, x slice(%d, 2))' % ("\\n" * (n - 1) + "c", n - 2), fmt((n, "\nc"))
        yield "x = '%s'\n(x length, x slice(%d, 2))" % ("''" * (n - 1) + "c", n - 2), fmt((n, "'c"))
        yield "x = 5 #" + "#" * n + "\nx + 1", "6"
        yield "x = 5" + "\n" * n + "x + 1", "6"
        yield "x =" + " " * n + "5\nx + 1", "6"
        yield "x" * n + " = 5\n" + "x" * n + " + 1", "6"
        yield "x" * n + " = 5\n" + "x" * (n - 1) + " = 2\n" + "x" * n + " + " + "x" * (n - 1), "7"
        yield "l = [a '%s']\nl(0) text length" % ("b" * n), str(n)
        yield "l = [a %s]\nl(0) text length" % ("b" * n), str(n)
        yield "'x = 3\n%sx' eval" % ("#" * n + "\n"), "3"


def gen_nest(c, ns):
    for n in ns:
        c.state(("nest", n))
        c.trans(n)
        if n <= 9:
            yield "%s1 + 1%s + 3" % ("(" * 0 + "| " * n, "." * n), str(5) if n == 0 else "5"
            yield "x = %s4%s\nx" % ("(" * n, ")" * n), fmt(nest(4, n))
        if n <= 200:
            yield "x = 0\n" + "if (x == x): " * n + "x = 7" + "." * n + "\nx", "7"
            yield "f = " + "(): " * n + "9" + "." * n + "\nf" + "()" * n, "9" if n else "9"
        yield "x = 3\n%s x" % ("not " * n) if n else "3", fmt(3 if n == 0 else n % 2 == 0)
        yield "x = 3\n%sx" % ("!" * n) if n else "3", fmt(3 if n == 0 else n % 2 == 0)
        yield "x = 3\n%sx" % ("~" * n) if n else "3", fmt(3 if n % 2 == 0 else ~3)
        yield "x = 3\nx" + " + 1" * n, str(3 + n)
        yield "x = 2\nx" + " * 1 + 1" * n, str(2 + n)
        yield "l = 5\nl" + " abs" * n, "5"


def nest(v, n):
    for i in range(n):
        v = (v,)
    return v


def gen_names(c, alpha, n):
    """distinct names are distinct variables, however they are spelt"""
    names = []
    for w in words(alpha, n, 1):
        s = "".join(w)
        if s[0] in "0;`{}" or (s.endswith("0") and False):
            continue
        names.append(s)
    for i in range(0, len(names), 40):
        part = names[i:i + 40]
        c.state(part[0])
        c.trans(len(part))
        yield "\n".join("%s = %d" % (s, j) for j, s in enumerate(part)) + "\n(%s)" % ", ".join(part), fmt(list(range(len(part))))


RESERVED = ["nil", "true", "false", "and", "or", "not", "if", "else", "elsif", "loop", "while", "class", "self", "here", "break", "continue", "return", "exit", "extern", "times", "x"]


def gen_words(c, sufs):
    """a name that begins like a word of the language is a name, wherever a name can stand"""
    for w in RESERVED:
        for s in sufs:
            n = w + s
            if s == "" and w != "x" or s.startswith("?") and w in ("and", "or", "not"):
                continue
            path = "?" not in s and "." not in s and ":" not in s
            c.state(n)
            c.trans(8)
            yield "%s = 3\n%s + %s" % (n, n, n), "6"
            yield "f = (): %s = 3, g = (): %s = %s + 1.\n g (), %s.\nf ()" % (n, n, n, n), "4"
            yield "C = class: /v = 5.\nC %s = (a): /v + a.\nb = C ()\nl = (b %s(2), b  ?%s, b ?q)\nl" % (n, n, n), fmt((7, True, False))
            yield "C = class: /v = 5.\nC %s = (): /v.\nb = C ()\nif (b %s == 5): 'y' print.\nb %s" % (n, n, n), "5|y"
            yield "Lobby %s = (a): a * 2.\n%s(4) string" % (n, n), fmt("8")
            yield "Number %s = (): self + 1.\n5 %s %s" % (n, n, n), "7"
            yield "l = [%s 'v']\nt = l(0)\n(t name, t text)" % n, fmt((n, "v"))
            yield "t = [a [%s, %s (b=1)]]\nl = t(0) licks\n(l(0) name, l(1) name, l length)" % (n, n), fmt((n, n, 2))
            yield "%s = (0, 10, 20)\ni = 1\n(%s(i), %s length, !%s, %s(2) - %s(1))" % ((n,) * 6), fmt((10, 3, False, 10))
            yield "'%s = 3\n%s * 2' eval" % (n, n), "6"
            if path:
                yield "C = class(%s): /%s = %s.\nb = C(4)\n(b /%s, b ?/%s)" % ((n,) * 5), fmt((4, True))
                yield "f = (%s): %s * 2.\n(f(4), f(%s=5))" % (n, n, n), fmt((8, 10))


def gen_eval(c):
    """a program given as a string to eval has the value it has as a program"""
    progs = [("1 + 2", 3), ("x = 5\nx * x", 25), ("(1, 2, 3)", (1, 2, 3)), ("\"a\\n\"", "a\n"), ("f = (x): x + 1.\nf(4)", 5), ("x = 0\nwhile (x < 7): x = x + 2.\nx", 8),
             ("if (1 == 2): 3. else: 4.", 4), ("0x10", 16), ("'it''s'", "it's"), ("t = (1=2)\nt(1)", 2), ("K = class(a): /a = a.\nK(3) /a", 3), ("1.5", 1.5)]
    for s, e in progs:
        q = "'" + s.replace("'", "''") + "'"
        c.state(s)
        c.trans(5)
        yield s, fmt(e)
        yield "%s eval" % q, fmt(e)
        yield "f = (s): s eval.\n(f(%s), f(%s), 'x' eval == nil)" % (q, q), fmt((e, e, True))
        yield "'%s eval' eval" % q.replace("'", "''"), fmt(e)
        yield "r = ()\n5 times (i): r push(%s eval).\nr" % q, fmt([e] * 5)
        for s2, e2 in progs:
            c.trans()
            yield "a = %s eval\nb = '%s' eval\n(a, b)" % (q, s2.replace("'", "''")), fmt((e, e2))


def gen_letters(c):
    """every letter of more than one byte that starts a class of letters, and the last of each, anywhere in a name"""
    ch = []
    for lead in range(0xC4, 0xF5):
        n = 1 if lead < 0xE0 else 2 if lead < 0xF0 else 3
        for lo in (True, False):
            b = [lead] + [(0x80 if lo else 0xBF)] * n
            if lead == 0xC4 and lo:
                b[1] = 0xA8
            if lead == 0xE0 and lo:
                b[1] = 0xA0
            if lead == 0xF0 and lo:
                b[1] = 0x90
            if lead == 0xF4 and not lo:
                b[1] = 0x8F
            if lead == 0xED and not lo:
                b[1] = 0x9F
            ch.append(bytes(b).decode("utf-8"))
    for form in ("%s", "a%s", "%sa", "%sb0", "_%s_", "%s;"):
        ns = [form % x for x in ch]
        for part in chunks(ns, 12):
            c.state((form, part[0]))
            c.trans(len(part) * 3)
            yield "\n".join("%s = %d" % (s, j) for j, s in enumerate(part)) + "\n(%s)" % ", ".join(part), fmt(list(range(len(part))))
            yield "C = class(%s): %s.\nb = C(%s)\n(%s)" % (", ".join(part), ", ".join("/%s = %s" % (s, s) for s in part), ", ".join(map(str, range(len(part)))),
                                                        ", ".join("b /%s" % s for s in part)), fmt(list(range(len(part))))
            yield "\n".join("Number %s = (): self + %d." % (s, j) for j, s in enumerate(part)) + "\n(%s)" % ", ".join("5 %s" % s for s in part), fmt([5 + j for j in range(len(part))])
            yield "l = [%s]\nl map (k): k name." % ", ".join(part), fmt(part)
    for x in ch:
        yield "%s = 1\n%s%s = 2\n(%s, %s%s)" % ((x,) * 6), "(1,2)"


AFTER = [("a = 7\nb = 3\n(a %s@b, 1)" % o, (v, 1)) for o, v in
         [("+", 10), ("-", 4), ("*", 21), ("%", 1), ("**", 343), ("<<", 56), (">>", 0), ("<", False), ("<=", False), (">", True), (">=", True), ("==", False), ("!=", True), ("&&", 3), ("and ", 3), ("||", 7), ("or ", 7)]] + [
    ("a = 14\na %s@3\na" % o, v) for o, v in [("=", 3), (":=", 3), ("+=", 17), ("-=", 11), ("*=", 42), ("%=", 2), ("<<=", 112), (">>=", 1), ("**=", 2744), ("||=", 14), ("&&=", 3)]] + [
    ("a = 14\na %s@3\na" % o, v) for o, v in [("+ =", 17), ("-\n=", 11), ("&& # x\n=", 3), ("or =", 14), ("<< =", 112)]] + [
    ("a = 6\n!@a", False), ("a = 6\nnot @a", False), ("a = 6\n~@a", -7), ("a = 6\nb = -@a\nb", -6), ("a = 6\nb = +@a\nb", 6), ("a = 6\nb = (1,-@a, 2)\nb", (1, -6, 2)),
    ("C = class: /v = 5.\nC m = (): /v + 1.\nb = C()\n(b ?@m, b ?@/v, b ?@q)", (True, True, False)),
    ("(@1, 2)", (1, 2)), ("l = (1,@2)\nl", (1, 2)), ("l = [@a, b]\nl length", 2), ("x = |@1 + 2.\nx", 3), ("f = (@a, @b): a - b.\nf(@5, 3)", 2), ("f = (a):@a + 1.\nf(2)", 3),
    ("t = (1=@2)\nt(1)", 2), ("f = (a, b:=5): a - b.\nf(9, b=@2)", 7), ("if (@1 == 2):@3. else:@4.", 4), ("x = 0\nloop:@x += 1, if (x > 3): break..\nx", 4)]


def gen_after(c):
    """after an operator, and after what opens a bracket or a block, lines and comments are as good as nothing"""
    for src, v in AFTER:
        c.state(src)
        for w in WIDE:
            c.trans()
            yield src.replace("@", w), fmt(v)


BROKEN = ["x = (1, 2)\nx", "f = (a, b): a + b.\nf(1, (2, 3) length)", "l = [a (b=1) 'c', d [e, f]]\nl length", "t = ('k'=1, 'l'=(2, 3))\nt('k')", "if ((1 + 2) * 3 == 9): 'y' print. else: 'n' print.\n5",
          "C = class(a): /a = a.\nC m = (x): /a + x.\nC(4) m(5)", "(1, 2) each (x): x print.\n'it''s' length", "x = 3 # (c]\n'(a' print\nx"]


def outside(s):
    """the places of s that are not in a string or a comment, and those where a string could begin"""
    r, i = [], 0
    while i < len(s):
        r.append(i)
        if s[i] == "'":
            i = s.index("'", i + 1)
        elif s[i] == "#":
            i = s.index("\n", i)
        i += 1
    return r + [len(s)]


def gen_refused(c):
    """brackets and quotes that do not pair up, and escapes that are no characters: nothing of the text runs"""
    no = "!EXIT1"
    for s in BROKEN:
        c.state(s)
        o = outside(s)
        for b in "()[]'":
            for i in o:
                if b == "'" and ("[" in s or s[i:i + 1] == "'" or s[i - 1:i] == "'"):
                    continue
                c.trans()
                yield "'run' print\n" + s[:i] + b + s[i:], no
        for i in o:
            if s[i:i + 1] and s[i] in ("()[]" if "[" in s else "()'"):   # unquoted text of a lick may have quotes in it
                c.trans()
                yield "'run' print\n" + s[:i] + s[i + 1:], no
    for p in [0xD800, 0xD801, 0xD8FF, 0xDABC, 0xDBFF, 0xDC00, 0xDFFE, 0xDFFF]:
        for f in ("\\u%04x", "\\u%04X", "\\U{%x}", "\\U{00%X}", "ab\\u%04xc", "\\n\\U{%x}\\n"):
            c.trans()
            yield "'run' print\nx = \"" + f % p + "\"\nx", no
    for p in [0x110000, 0x110001, 0x11FFFF, 0x120000, 0x1FFFFF, 0x200000, 0xFFFFFF, 0x1000000]:
        for f in ("\\U{%x}", "\\U{0%X}", "a\\U{%x}b"):
            c.trans()
            yield "'run' print\nx = \"" + f % p + "\"\nx", no
    for w in ("break", "continue"):                # outside of any loop
        for f in ("%s", "if (true): %s.", "f = (): %s.\n1", "loop: break.\n%s", "loop: f = (): %s., break.", "x = 3\nwhile (x > 3): x = x - 1.\n%s\n4", "C = class: %s.", "(1, 2) each (x): %s."):
            c.trans()
            yield "'run' print\n" + f % w, "!EXIT2"
    for s in ["x = 'a", 'x = "a', 'x = "a\\"', "x = 'a''", "(", ")", "[", "]", "'", '"', ": 1", "x = : 1", "f = (a): a", "if (1): 2", "|1", "x = )1(", "1 +", "x =", "* 3", "x = 1 = = 2", "f = (a, a b): 1", "not", "x = (1,, 2", "'\x01'"]:
        c.state(s)
        c.trans()
        yield "'run' print\n" + s, no
        yield "'run' print\n" + s + "\n", no


PADS = [("#", "a", "\n"), ("", "\n", ""), ("", " ", ""), ("w = '", "é", "'\n"), ("w = 1", " ", "\n")]


def explore(c):
    q = c.quick
    c.run("integer literals", gen_ints(c, -300 if q else -70000, 2000 if q else 70000, 1200 if q else 70000), modes="VJCD")
    c.run("double literals", gen_doubles(c, ["0", "1", "7", "12", "100", "4611686018427387904", "123456789012345678901234567890", "-3"], ["", ".0", ".5", ".25", ".1", ".000001", ".123456789012345678", ".999999999999999999"],
                                         ["", "e+0", "e-1", "e+1", "e+10", "e-10", "e+200", "e-200", "e+05"]), modes="VJCD")
    c.run("single-quoted strings", gen_str1(c, ALPHA, 3 if q else 4), modes="VJ" if q else "VJCD")
    c.run("double-quoted strings", gen_str2(c, ESC, 2 if q else 3), modes="VJ" if q else "VJCD")
    c.run("characters", gen_unicode(c, list(range(1, 0x900)) + list(range(0xD700, 0xE100)) + list(range(0xFF00, 0x10100)) + [p + d for p in list(range(0x1000, 0x10000, 0x1000)) + list(range(0x10000, 0x110000, 0x8000)) + [0x11040, 0x15555, 0x2AAAA, 0x3F03F, 0xFFFC0] for d in (-1, 0, 1, 0x40, 0x3FF)] + list(range(0x10FF00, 0x110000)) if q else range(1, 0x110000)), modes="VJ" if q else "VJCD")
    c.run("layout", gen_layout(c, 2 if q else 3, True), modes="VJ" if q else "V")
    c.run("comments", gen_comments(c, ["a", "'", '"', "#", "(", ".", ",", "é", "\t", "|", "\\"], 2 if q else 4), modes="V")
    c.run("tokens at every offset", gen_length(c, list(range(0, 140)) + list(range(960, 1060)) + list(range(2000, 2060)) if q else list(range(0, 4200)) + list(range(8100, 8200)) + list(range(16300, 16400)), PADS), modes="V")
    c.run("long tokens and programs", gen_long(c, list(range(1, 40)) + [63, 64, 65, 127, 128, 129, 254, 255, 256, 257, 511, 512, 513, 1000, 1023, 1024, 1025, 2000] if q else
                                               list(range(1, 600)) + [1023, 1024, 1025, 2047, 2048, 2049, 4000, 4095, 4096, 4097, 8192, 16384, 30000]), modes="VJ", chunk=100, cpu=30)
    c.run("huge tokens", gen_huge(c, (16383, 16384, 16385, 32767, 32768, 65535, 65536, 65537, 70000) if q else
                                  [2 ** k + d for k in range(10, 20) for d in (-2, -1, 0, 1, 2)] + [10 ** 6]), modes="V", cpu=30)
    c.run("nesting", gen_nest(c, range(0, 40) if q else range(0, 260)), modes="VJ", cpu=20)
    c.run("names", gen_names(c, ["a", "b", "_", "$", "@", "0", "ľ", "λ", "日", "𝑥", ";", "{"], 2 if q else 3), modes="VJ")
    c.run("names like words of the language", gen_words(c, ["", "?", "a", "_", "0", "1a", "nil", "true", "or", "ľ", "日", "$", "@", "`", "{}", ";", "a?"] + ([] if q else ["0?", "_?", "if", "}x", "日?", "A", "ľa9"])), modes="VJ" if q else "VJCD")
    c.run("letters", gen_letters(c), modes="VJ")
    c.run("after operators and openings", gen_after(c), modes="VJ")
    c.run("texts that are no programs", gen_refused(c), modes="V", cpu=20)
    c.run("eval", gen_eval(c), modes="VJ")
