"""C04: control flow takes exactly the path its conditions select."""
import functools, itertools
from vp import fmt, lit
import sem


class Stop(Exception):
    pass


class Ret(Exception):
    pass


class Brk(Exception):
    pass


class Cnt(Exception):
    pass


LEAF = [("A",), ("B",), ("C",), ("R",)]        # action, break, continue, return


@functools.lru_cache(None)
def stmts(n, inloop):
    """All statements of exactly n nodes."""
    r = []
    if n == 1:
        return [("A",), ("R",)] + ([("B",), ("C",)] if inloop else [])
    m = n - 1
    for b in bodies(m, inloop):
        r.append(("if", (b,), None))
    for b in bodies(m, True):
        r.append(("while", b))
        r.append(("loop", b))
    for i in range(1, m):
        for b1 in bodies(i, inloop):
            for b2 in bodies(m - i, inloop):
                r.append(("if", (b1,), b2))
                r.append(("if", (b1, b2), None))
    for i in range(1, m - 1):
        for j in range(1, m - i):
            for b1 in bodies(i, inloop):
                for b2 in bodies(j, inloop):
                    for b3 in bodies(m - i - j, inloop):
                        r.append(("if", (b1, b2), b3))
    return r


@functools.lru_cache(None)
def bodies(n, inloop):
    """All sequences of statements with n nodes in total."""
    r = [(s,) for s in stmts(n, inloop)]
    for i in range(1, n):
        for s in stmts(i, inloop):
            if s[0] in "BCR":
                continue        # nothing behind an unconditional jump
            for rest in bodies(n - i, inloop):
                r.append((s,) + rest)
    return r


def emit(body, st, ind, cond):
    o = []
    p = " " * ind
    for s in body:
        k = s[0]
        if k == "A":
            st[0] += 1
            o.append("%st push(%d)" % (p, st[0]))
        elif k == "B":
            o.append(p + "break")
        elif k == "C":
            o.append(p + "continue")
        elif k == "R":
            st[0] += 1
            o.append("%sreturn ((%d, t))" % (p, st[0]))
        elif k == "if":
            x = ""
            for i, b in enumerate(s[1]):
                x += "%s (%s):\n%s\n%s." % (p + "if" if i == 0 else " elsif", cond, emit(b, st, ind + 1, cond), p)
            if s[2] is not None:
                x += " else:\n%s\n%s." % (emit(s[2], st, ind + 1, cond), p)
            o.append(x)
        elif k == "while":
            o.append("%swhile (%s):\n%s\n%s." % (p, cond, emit(s[1], st, ind + 1, cond), p))
        elif k == "loop":
            o.append("%sloop:\n%s\n%s." % (p, emit(s[1], st, ind + 1, cond), p))
    return "\n".join(o)


def number(body, st):
    """Same numbering as emit()."""
    r = []
    for s in body:
        k = s[0]
        if k in "AR":
            st[0] += 1
            r.append((k, st[0]))
        elif k in "BC":
            r.append(s)
        elif k == "if":
            bs = tuple(number(b, st) for b in s[1])
            r.append(("if", bs, number(s[2], st) if s[2] is not None else None))
        else:
            r.append((k, number(s[1], st)))
    return tuple(r)


class Run:
    def __init__(self, bits, limit=90):
        self.b = list(bits)
        self.t = []
        self.left = limit
        self.n = 0

    def cond(self):
        self.n += 1
        return bool(self.b) and self.b.pop(0)

    def body(self, body):
        for s in body:
            self.left -= 1
            if self.left < 0:
                raise Stop
            k = s[0]
            if k == "A":
                self.t.append(s[1])
            elif k == "B":
                raise Brk
            elif k == "C":
                raise Cnt
            elif k == "R":
                raise Ret(s[1])
            elif k == "if":
                for b in s[1]:
                    if self.cond():
                        self.body(b)
                        break
                else:
                    if s[2] is not None:
                        self.body(s[2])
            else:
                while k == "loop" or self.cond():
                    self.left -= 1
                    if self.left < 0:
                        raise Stop
                    try:
                        self.body(s[1])
                    except Brk:
                        break
                    except Cnt:
                        pass


def run(c, body, bits):
    r = Run(bits)
    ret = None
    try:
        r.body(body)
    except Ret as e:
        ret = e.args[0]
    c.trans(r.n)
    c.state((body, bits))
    return (ret, r.t) if ret is not None else ("end", r.t)


def gen_struct(c, n, nbits, form):
    vecs = [v for k in range(nbits + 1) for v in itertools.product((True, False), repeat=k)
            if not v or v[-1]]          # trailing false bits are implied
    for body in bodies(n, False):
        nb = number(body, [0])
        calls, exp = [], []
        for v in vecs:
            try:
                exp.append(run(c, nb, v))
                calls.append(v)
            except Stop:
                pass
        if not calls:
            continue
        if form == "fn":
            src = emit(body, [0], 1, "b shift")
            p = "f = (b):\n t = ()\n%s\n ('end', t)\n.\n(%s)" % (
                src, ", ".join("f(%s)" % lit(list(v)) for v in calls))
            yield p, fmt(exp)
        elif form == "upval":
            src = emit(body, [0], 2, "b shift")
            p = "g = (b):\n t = ()\n x = 5\n f = (y):\n%s\n  ('end', t)\n .\n r = f(6)\n (r, x)\n.\n(%s)" % (
                src, ", ".join("g(%s)" % lit(list(v)) for v in calls))
            yield p, fmt([(e, 5) for e in exp])
        else:
            src = emit(body, [0], 0, "b shift")
            for v, e in zip(calls, exp):
                yield "b = %s\nt = ()\nx = 7\n%s\n('end', t)" % (lit(list(v)), src), fmt(e)


CONDS = [("nil", 0), ("false", 0), ("true", 1), ("0", 1), ("''", 1), ("()", 1), ("1", 1), ("0.0", 1)]
CONDS += [("not %s" % a, 1 - v) for a, v in CONDS if a != "()"] \
    + [("%s %s %s" % (a, o, b), (x or y) if o in ("or", "||") else (x and y))
       for a, x in CONDS[:4] for b, y in CONDS[:4] for o in ("and", "or", "&&", "||")] \
    + [("x %s %d" % (o, k), int(sem.binop(o, 3, k))) for o in ("<", "<=", ">", ">=", "==", "!=") for k in (2, 3, 4)] \
    + [("x %s %d %s y %s %d" % (o, k, j, o2, k2),
        int((sem.binop(o, 3, k) and sem.binop(o2, 5, k2)) if j == "&&" else (sem.binop(o, 3, k) or sem.binop(o2, 5, k2))))
       for o in ("<", ">=", "==") for k in (3, 4) for j in ("&&", "||") for o2 in (">", "!=") for k2 in (4, 5)]


def gen_conds(c):
    for t, v in CONDS:
        pre = "x = 3\ny = 5\n"
        yield pre + "if (%s): 'a'. else: 'b'." % t, fmt("a" if v else "b")
        yield pre + "r = 0\nif (%s): r = 1.\n(r, x, y)" % t, fmt((v, 3, 5))
        yield pre + "r = 0\nif (nil): r = 9. elsif (%s): r = 1. else: r = 2.\n(r, x, y)" % t, fmt((1 if v else 2, 3, 5))
        yield pre + "r = 0\nwhile (%s): r = r + 1, break.\n(r, x, y)" % t, fmt((v, 3, 5))
        yield pre + "f = (x, y): if (%s): return 'a'.\n 'b'.\nf(3, 5)" % t, fmt("a" if v else "b")
        yield pre + "r = if (%s): x. else: y.\n(r, x, y)" % t, fmt((3 if v else 5, 3, 5))
        for t2, v2 in CONDS[::5]:
            yield pre + "r = 0\nif (%s): if (%s): r = 1. else: r = 2.. else: if (%s): r = 3. else: r = 4..\nr" % (t, t2, t2), \
                fmt((1 if v2 else 2) if v else (3 if v2 else 4))


SC_VALS = [None, False, True, 0, "", 1]


# bodies of branches (source, value): what they leave behind must not choose a later branch
BODIES = [("nil", None), ("false", False), ("7", 7), ("2 == false", False), ("g(nil)", None), ("g2(1, false)", False), ("l length == 9", False), ("g(nil || false)", False),
          ("g(7 && nil)", None), ("(nil, false)", [None, False]), ("k = false", False), ("k = nil\n  8", 8), ("if (x == 99): 1. else: nil.", None), ("not true", False),
          ("l(0)", None), ("g(g2(false, nil))", None), ("(x + 1) * 2 == nil", False)]


def gen_branches(c, n, bodies):
    """chains of n branches and an else, every combination of bodies, every branch taken; as the value of a function and as a statement."""
    pre = "g = (a): a.\ng2 = (a, b): b.\n"
    for bs in itertools.product(bodies, repeat=n + 1):
        br = " ".join("%s (x == %d): %s." % ("elsif" if i else "if", i, b[0]) for i, b in enumerate(bs[:-1])) + " else: %s." % bs[-1][0]
        c.trans(n + 1)
        c.state(tuple(b[0] for b in bs))
        calls = ", ".join("f(%d)" % i for i in range(n + 1))
        yield pre + "f = (x):\n l = (nil, nil)\n k = 1\n %s\n.\n(%s)" % (br, calls), fmt([b[1] for b in bs])
        yield pre + "f = (x):\n l = (nil, nil)\n k = 1\n t = ()\n %s\n t push (k)\n t\n.\n(%s)" % (br.replace("k = ", "t push (5)\n  k = "), calls), \
            fmt([[5, False] if b[0].startswith("k = f") else [5, None] if b[0].startswith("k = n") else [1] for b in bs])


def gen_shortcircuit(c, n):
    """Operands with side effects: exactly those needed are evaluated, in order."""
    for ops in itertools.product(("&&", "||", "and", "or"), repeat=n):
        for vals in itertools.product([None, False, 0, 1], repeat=n + 1):
            t = []
            v = vals[0]
            t.append(0)
            for i, o in enumerate(ops):
                if o in ("&&", "and"):
                    if sem.truthy(v):
                        t.append(i + 1)
                        v = vals[i + 1]
                elif not sem.truthy(v):
                    t.append(i + 1)
                    v = vals[i + 1]
            c.trans()
            e = "f(0, %s)" % lit(vals[0]) + "".join(" %s f(%d, %s)" % (o, i + 1, lit(vals[i + 1])) for i, o in enumerate(ops))
            pre = "t = ()\nf = (i, v): t push(i), v.\n"
            yield pre + "r = (%s)\n(r at(0), t)" % e, fmt((v, t))
            yield pre + "r = 0\nif (%s): r = 1.\n(r, t)" % e, fmt((1 if sem.truthy(v) else 0, t))
            if n == 1:
                o = ops[0]
                if o in ("||", "&&"):
                    yield "a = %s\na %s= %s\na" % (lit(vals[0]), o, lit(vals[1])), fmt(v)


def gen_sckinds(c, n, kinds, places):
    """operands of every kind."""
    for ops in itertools.product(("and", "or"), repeat=n):
        for truth in itertools.product((False, True), repeat=n + 1):
            for ks in itertools.product(kinds, repeat=n + 1):
                t, env, v, e = [], {}, None, ""
                for i, (k, b) in enumerate(zip(ks, truth)):
                    x = 10 + i if b else (None, False)[i % 2]
                    need = i == 0 or sem.truthy(v) == (ops[i - 1] == "and")
                    s = {"lit": lit(x), "var": "v%d" % i, "call": "f(%d, %s)" % (i, lit(x)), "not": "not w%d" % i, "set": "|s%d = %s." % (i, lit(x)), "get": "o x%d" % i, "at": "l(%d)" % i}[k]
                    if k == "not":
                        x = b
                    if k == "set":
                        env[i] = 0
                    if need:
                        v = x
                        if k == "call":
                            t.append(i)
                        if k == "set":
                            env[i] = x
                    e += (" %s " % ops[i - 1] if i else "") + s
                c.trans(n)
                c.state((e, repr(v)))
                xs = [10 + i if b else (None, False)[i % 2] for i, b in enumerate(truth)]
                pre = "t = ()\nf = (i, v): t push(i), v.\nK = class: /z = 1.\no = K()\nl = (%s, 0)\n" % ", ".join(lit(x) for x in xs)
                pre += "".join("v%d = %s\n" % (i, lit(x)) for i, x in enumerate(xs) if ks[i] == "var")
                pre += "".join("w%d = %s\n" % (i, lit(not b)) for i, b in enumerate(truth) if ks[i] == "not")
                pre += "".join("s%d = 0\n" % i for i in env)
                pre += "".join("K x%d = (): %s.\n" % (i, lit(x)) for i, x in enumerate(xs) if ks[i] == "get")
                rest = "(%s)" % ", ".join(["r", "t"] + ["s%d" % i for i in env])
                ex = [t] + list(env.values())
                if "v" in places:
                    yield pre + "r = |%s.\n%s" % (e, rest), fmt([v] + ex)
                if "i" in places:
                    yield pre + "r = 5\nif (%s): r = 6.\n%s" % (e, rest), fmt([6 if sem.truthy(v) else 5] + ex)
                if "a" in places:
                    yield pre + "g = (a, b): (b, a).\nr = g(%s, 7)\n%s" % (e, rest), fmt([[7, v]] + ex)
                if "s" in places:
                    yield pre + "q = (): %s.\nr = q()\n%s" % (e, rest), fmt([v] + ex)


def gen_counts(c, top):
    for n in list(range(0, 12)) + [50, 127, 128, 255, 256, 257, 1000, top]:
        yield "i = 0\ns = 0\nwhile (i < %d): i = i + 1, s = s + i.\n(i, s)" % n, fmt((n, n * (n + 1) // 2))
        yield "i = 0\nloop: if (i == %d): break.\n i++.\ni" % n, str(n)
        yield "i = 0\ns = 0\nwhile (i < %d):\n i++\n if (i %% 2 == 0): continue.\n s = s + 1\n.\n(i, s)" % n, fmt((n, (n + 1) // 2))
        for m in (0, 1, 3):
            yield "i = 0\nk = 0\nwhile (i < %d):\n j = 0\n while (true):\n  if (j == %d): break.\n  j++\n  k++\n .\n i++\n.\n(i, k)" \
                % (n, m), fmt((n, n * m))
    # bodies long enough for far jumps
    for n in (1, 5, 20, 40, 60, 100):
        body = "\n".join("  s = s + %d" % (k % 7) for k in range(n))
        tot = sum(k % 7 for k in range(n))
        yield "s = 0\nx = 1\nif (x):\n%s\n. else:\n%s\n s = 0 - s\n.\n(s, x)" % (body, body), fmt((tot, 1))
        yield "s = 0\nx = nil\nif (x):\n%s\n. else:\n%s\n s = 0 - s\n.\n(s, x)" % (body, body), fmt((-tot, None))
        yield "s = 0\ni = 0\nwhile (i < 3):\n%s\n  i++\n.\n(s, i)" % body, fmt((3 * tot, 3))
        yield "s = 0\ni = 0\nloop:\n  i++\n  if (i == 2): continue.\n  if (i == 5): break.\n%s\n.\n(s, i)" % body, fmt((3 * tot, 5))
        yield "f = (c):\n s = 0\n if (c == 1):\n%s\n  return (s)\n .\n%s\n 0 - s\n.\n(f(1), f(2))" % (body, body), fmt((tot, -tot))
    # elsif chains
    for n in range(1, 24 if c.quick else 80):
        chain = "if (x == 0): r = 100." + "".join(" elsif (x == %d): r = %d." % (k, 100 + k) for k in range(1, n)) + " else: r = 99."
        yield "f = (x):\n r = 5\n %s\n r\n.\n(%s)" % (chain, ", ".join("f(%d)" % k for k in range(n + 2))), \
            fmt([100 + k if k < n else 99 for k in range(n + 2)])


def gen_wide(c, top):
    """Loops with many exits, each taken; deep nests with an exit at every level."""
    for n in range(1, top):
        for kind in ("break", "continue", "return (i * 1000 + r)"):
            for loop in ("while (i < 3)", "loop"):
                body = "".join("   if (k == %d): r = %d, %s.\n" % (j, j, kind) for j in range(n))
                stop = "" if loop != "loop" else "   if (i > 2): break.\n"
                p = "f = (k):\n  i = 0\n  r = 99\n  s = 0\n  %s:\n%s   i++\n%s   s = s + 1\n  .\n  (i, r, s)\n.\n" % (loop, stop, body)
                exp = []
                for k in range(n + 1):
                    c.trans()
                    i, r, s_, ret = 0, 99, 0, None
                    while True:
                        if i > 2:
                            break
                        i += 1
                        if k < n:
                            r = k
                            if kind == "break":
                                break
                            if kind == "continue":
                                continue
                            ret = i * 1000 + r
                            break
                        s_ += 1
                    exp.append(ret if ret is not None else (i, r, s_))
                yield p + "(%s)" % ", ".join("f(%d)" % k for k in range(n + 1)), fmt(exp)
    # nests of depth d: exit from level x, every enclosing loop goes on
    for d in range(1, 8):
        for x in range(0, d + 1):
            for kind in ("break", "continue"):
                lines, cnt = [], 0
                for lv in range(d):
                    ind = " " * lv
                    lines += [ind + "i%d = 0" % lv, ind + "while (i%d < 2):" % lv, ind + " i%d = i%d + 1" % (lv, lv), ind + " n = n + 1"]
                    if lv == x:
                        lines.append(ind + " if (i%d == 1): %s." % (lv, kind))
                for lv in reversed(range(d)):
                    lines += [" " * lv + " m = m + 1", " " * lv + "."]

                def go(lv):
                    nn = mm = 0
                    if lv == d:
                        return 0, 0
                    i = 0
                    while i < 2:
                        i += 1
                        nn += 1
                        if lv == x and i == 1:
                            if kind == "break":
                                break
                            continue
                        a, b = go(lv + 1)
                        nn, mm = nn + a, mm + b + 1
                    return nn, mm
                yield "n = 0\nm = 0\n" + "\n".join(lines) + "\n(n, m)", fmt(go(0))
    for d in range(1, 16):
        for x in range(0, d + 1):
            t = "r = 'in'"
            for lv in reversed(range(d)):
                t = "if (x != %d): %s. else: r = %d." % (lv, t, lv)
            yield "x = %d\nr = 'none'\n%s\nr" % (x, t), fmt(x if x < d else "in")


def gen_iter(c):
    for n in list(range(-3, 9)) + [40, 300]:
        m = max(0, n)
        yield "t = ()\nn = %d\nr = n times (i): t push(i).\nt" % n, fmt(list(range(m)))
    for a in range(-3, 6):
        for b in range(-3, 6):
            seq = list(range(a, b + 1)) if a <= b else list(range(a, b - 1, -1))
            yield "t = ()\na = %d\nb = %d\na to(b, (i): t push(i).)\nt" % (a, b), fmt(seq)
    for a in range(-2, 3):
        for b in range(-2, 9):
            for s in (1, 2, 3):
                seq = list(range(a, b + 1, s))
                yield "t = ()\nf = (i): t push(i).\na = %d\na step(%d, %d, f)\nt" % (a, b, s), fmt(seq)


def explore(c):
    q = c.quick
    c.run("conditions", gen_conds(c), modes="VJC")
    kinds = ("lit", "var", "call", "not", "set", "get", "at")
    c.run("operands of every kind", itertools.chain(gen_sckinds(c, 1, kinds, "vias"), gen_sckinds(c, 2, kinds, "vias" if not c.quick else "vi"),
                                                   gen_sckinds(c, 3, kinds[:3] if c.quick else kinds[:5], "v")), modes="VJ")
    c.run("shortcircuit", itertools.chain(*(gen_shortcircuit(c, n) for n in (1, 2) + (() if q else (3,)))))
    c.run("bodies of branches", itertools.chain(gen_branches(c, 1, BODIES), gen_branches(c, 2, BODIES[:11] if q else BODIES), gen_branches(c, 3, BODIES[3:8])), modes="VJ")
    c.run("counts", gen_counts(c, 3000), modes="VJC")
    c.run("many-exits", gen_wide(c, 20 if q else 60), modes="VJC")
    c.run("iterators", gen_iter(c), modes="VJ")
    for n in range(1, 5 if q else 6):
        c.run("structures-fn", gen_struct(c, n, 5, "fn"), modes="VJC" if n < 4 else "VJ")
        c.run("structures-upval", gen_struct(c, n, 4, "upval"))
    for n in range(1, 4 if q else 5):
        c.run("structures-top", gen_struct(c, n, 4, "top"), modes="VJCD")
