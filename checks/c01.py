"""C01: operators compute the documented arithmetic, for every operand and expression shape."""
import itertools
from vp import fmt, lit
import sem
from sem import binop, unop, Unsupported, MX, MN

B0 = [0, 1, -1, 2, -2, 3, -7, 10, 2 ** 31 - 1, 2 ** 31, -2 ** 31, -2 ** 31 - 1, 2 ** 32, 2 ** 32 + 1,
      2 ** 53 + 1, 2 ** 61, -2 ** 61, MX, MN]
B1 = sorted(set(B0) | {s * (2 ** k + d) for k in (4, 7, 8, 15, 16, 30, 31, 32, 33, 47, 52, 53, 60, 61)
                       for d in (-1, 0, 1) for s in (1, -1)} | {5, 40, 99, 1000003, -1000003})
D = [0.5, -2.5, 3.0, -3.0, 1e10, 0.001, 4611686018427387904.0, 1e+300]
ARITH = "+ - * / % **".split()
CMP = "< <= > >= == !=".split()
SH = "<< >>".split()


def ilit(v):
    # the smallest integer is written as a literal too
    return lit(v)


FORMS = {
    "vars": lambda a, b, o: "a = %s\nb = %s\na %s b" % (lit(a), lit(b), o),
    "lits": lambda a, b, o: "%s %s %s" % (lit(a), o, lit(b)),
    "varlit": lambda a, b, o: "a = %s\na %s %s" % (lit(a), o, lit(b)),
    "litvar": lambda a, b, o: "b = %s\n%s %s b" % (lit(b), lit(a), o),
    "args": lambda a, b, o: "f = (a, b): a %s b.\nf(%s, %s)" % (o, lit(a), lit(b)),
    "upval": lambda a, b, o: "a = %s\nb = %s\nf = (): a %s b.\nf()" % (lit(a), lit(b), o),
    "path": lambda a, b, o: "Foo = class (a, b): /a = a, /b = b.\nFoo m = (): /a %s /b.\nf = Foo(%s, %s)\nf m"
    % (o, lit(a), lit(b)),
    "aug": lambda a, b, o: "a = %s\nb = %s\na %s= b\na" % (lit(a), lit(b), o),
    "augval": lambda a, b, o: "a = %s\na %s= %s" % (lit(a), o, lit(b)),
    "cond": lambda a, b, o: "a = %s\nb = %s\nif (a %s b): 'y'. else: 'n'." % (lit(a), lit(b), o),
    "while": lambda a, b, o: "a = %s\nb = %s\nr = 'n'\nwhile (a %s b): r = 'y', break.\nr" % (lit(a), lit(b), o),
    "not": lambda a, b, o: "a = %s\nb = %s\nr = a %s b\nnot r" % (lit(a), lit(b), o),
}


def gen_matrix(c, vals, forms, ops, vals2=None):
    for o in ops:
        for a in vals:
            for b in (vals2 or vals):
                try:
                    r = binop(o, a, b)
                except Unsupported:
                    continue
                c.trans()
                c.state((o, repr(a), repr(b)))
                for f in forms:
                    if f.startswith("aug") and o in CMP:
                        continue
                    if MN in (a, b) and f in ("lits", "varlit", "litvar", "augval"):
                        continue    # it has no literal of its own
                    v = r
                    if f in ("cond", "while"):
                        if o not in CMP:
                            continue
                        v = "y" if r else "n"
                    if f == "not":
                        v = not sem.truthy(r)
                    yield FORMS[f](a, b, o), fmt(v)


def gen_unary(c, vals):
    for a in vals:
        for o in ("~", "-", "not ", "!"):
            try:
                r = unop(o.strip(), a)
            except Unsupported:
                continue
            c.trans()
            yield "a = %s\n%sa" % (lit(a), o), fmt(r)
            yield "f = (a): %sa.\nf(%s)" % (o, lit(a)), fmt(r)
            yield "a = %s\nr = %sa\n(a, r)" % (lit(a), o), fmt((a, r))
        if sem.isnum(a):
            for o, d in (("++", 1), ("--", -1)):
                n = binop("+", a, d)
                yield "a = %s\na%s\na" % (lit(a), o), fmt(n)
                yield "a = %s\nb = a%s\n(a, b)" % (lit(a), o), fmt((n, a))
                yield "a = %s\nf = (): a%s.\nr = f()\n(a, r)" % (lit(a), o), fmt((n, a))
    for a in (None, True, False, 0, 1, "", "x", 0.0):
        for o in ("not ", "!", "not not ", "!!"):
            r = sem.truthy(a) == (o.strip() in ("not not", "!!"))
            yield "a = %s\n%sa" % (lit(a), o), fmt(r)
            yield "a = %s\nif (%sa): 1. else: 2." % (lit(a), o), "1" if r else "2"


# ---- expression shapes: every sequence of operators, against a reference parser ----
LEVELS = [("||", "&&"), ("==", "!="), ("<", "<=", ">", ">="), ("<<", ">>"), ("+", "-"), ("*", "/", "%"), ("**",)]
LV = {o: i for i, l in enumerate(LEVELS) for o in l}


def ev(vals, ops):
    """Left associative within a level; && and || share the lowest one."""
    if not ops:
        return vals[0]
    m = min(LV[o] for o in ops)
    i = max(k for k, o in enumerate(ops) if LV[o] == m)
    o = ops[i]
    a = ev(vals[:i + 1], ops[:i])
    if o == "&&":
        return ev(vals[i + 1:], ops[i + 1:]) if sem.truthy(a) else a
    if o == "||":
        return a if sem.truthy(a) else ev(vals[i + 1:], ops[i + 1:])
    return binop(o, a, ev(vals[i + 1:], ops[i + 1:]))


ALLOPS = [o for l in LEVELS for o in l]


def gen_chains(c, n, valsets, ops=ALLOPS, forms=("v", "l")):
    for seq in itertools.product(ops, repeat=n):
        for vals in valsets:
            try:
                r = ev(list(vals[:n + 1]), list(seq))
            except (Unsupported, OverflowError):
                continue
            c.trans()
            names = "abcdefgh"
            if "v" in forms:
                e = names[0]
                for i, o in enumerate(seq):
                    e += " %s %s" % (o, names[i + 1])
                yield "".join("%s = %s\n" % (names[i], lit(vals[i])) for i in range(n + 1)) + "r = (%s)\nr at(0)" % e, fmt(r)
            if "l" in forms:
                e = lit(vals[0])
                for i, o in enumerate(seq):
                    e += " %s %s" % (o, lit(vals[i + 1]))
                yield e, fmt(r)


# ---- every full binary tree of groups, so that registers are held across subexpressions ----
def trees(n):
    if n == 0:
        yield None
        return
    for i in range(n):
        for l in trees(i):
            for r in trees(n - 1 - i):
                yield (l, r)


def gen_trees(c, n, ops, leaves):
    for t in trees(n):
        for seq in itertools.product(ops, repeat=n):
            pos = [0, 0]

            def go(t):
                if t is None:
                    v = leaves[pos[0] % len(leaves)]
                    pos[0] += 1
                    return lit(v), v
                o = seq[pos[1]]
                pos[1] += 1
                a, x = go(t[0])
                b, y = go(t[1])
                return "|%s %s %s." % (a, o, b), binop(o, x, y)
            try:
                s, v = go(t)
            except Unsupported:
                continue
            c.trans()
            yield s, fmt(v)


# ---- every kind of operand in every place of every tree ----
def upd(n, f, new):
    def g(e):
        old = e[n]
        e[n] = r = f(old)
        return r if new else old
    return g


def put(n, v):
    def g(e):
        e[n] = v
        return v
    return g


LEAF = [("4", lambda e: 4), ("-3", lambda e: -3), ("2.5", lambda e: 2.5), ("w", lambda e: e["w"]), ("u", lambda e: e["u"]), ("p", lambda e: e["p"]), ("/z", lambda e: e["z"]),
        ("G", lambda e: 6), ("id(11)", lambda e: 11), ("o get", lambda e: 12), ("-u", lambda e: -e["u"]), ("~w", lambda e: ~e["w"]), ("|w = 13.", put("w", 13)), ("|u += 2.", upd("u", lambda x: x + 2, True))]
for _n in "wup":
    LEAF += [(_n + "++", upd(_n, lambda x: x + 1, False)), (_n + "--", upd(_n, lambda x: x - 1, False)), ("++" + _n, upd(_n, lambda x: x + 1, True)), ("--" + _n, upd(_n, lambda x: x - 1, True))]


def gen_leaves(c, n, ops, leaves):
    for t in trees(n):
        for seq in itertools.product(ops, repeat=n):
            for ls in itertools.product(leaves, repeat=n + 1):
                env = {"w": 3, "u": 5, "p": 8, "z": 9}
                pos = [0, 0]

                def go(t):
                    if t is None:
                        s, f = ls[pos[0]]
                        pos[0] += 1
                        return s, f(env)
                    o = seq[pos[1]]
                    pos[1] += 1
                    a, x = go(t[0])
                    b, y = go(t[1])
                    return "|%s %s %s." % (a, o, b), binop(o, x, y)
                try:
                    s, v = go(t)
                except Unsupported:
                    continue
                c.trans(n)
                c.state((repr(v), tuple(env.values())))
                yield ("id = (x): x.\nFoo = class: /z = 9.\nFoo get = (): 12.\nG = 6\no = Foo()\nu = 5\nFoo m = (p):\n  w = 3\n  r = %s\n  (r, w, u, p, /z).\no m (8)" % s,
                       fmt([v, env["w"], env["u"], env["p"], env["z"]]))


def gen_pressure(c, top):
    for n in range(1, top):
        vals = [(i * 7) % 11 + 1 for i in range(n)]
        # right nested: every left operand stays live
        s, v = str(vals[-1]), vals[-1]
        for x in reversed(vals[:-1]):
            s, v = "|%d - %s." % (x, s), x - v
        yield s, fmt(v)
        yield "a = 3\nr = %s\n(a, r)" % s, fmt((3, v))
        s, v = str(vals[0]), vals[0]
        for x in vals[1:]:
            s, v = "%s - %d" % (s, x), v - x
        yield s, fmt(v)
        # many locals, each still readable afterwards
        decl = "".join("v%d = %d\n" % (i, x) for i, x in enumerate(vals))
        allv = ", ".join("v%d" % i for i in range(n))
        yield decl + "(%s)" % allv, fmt(vals)
        yield "f = ():\n%s(%s).\nf()" % (decl, allv), fmt(vals)
        yield decl + " + ".join("v%d" % i for i in range(n)), fmt(sum(vals))
        yield decl + "v0 + v%d * 2 < v%d" % (n - 1, n // 2), fmt(vals[0] + vals[-1] * 2 < vals[n // 2])
        yield decl + "v%d++\nv%d += 5\n(%s)" % (n - 1, n // 2, allv), \
            fmt([x + (i == n - 1) + 5 * (i == n // 2) for i, x in enumerate(vals)])
        yield "(%s)" % ", ".join("%d * 2.5" % x for x in vals), fmt([x * 2.5 for x in vals])


def explore(c):
    q = c.quick
    ops = ARITH + CMP
    c.run("int-matrix", gen_matrix(c, B0 if q else B1, ("vars", "lits", "aug"), ops), modes="VJ")
    small = [0, 1, -1, 3, -7, 2 ** 31, 2 ** 32 + 1, 2 ** 61, MX, MN] if q else B0
    c.run("int-forms", gen_matrix(c, small, tuple(FORMS), ops))
    sv = [0, 1, 2, 3, 5, 8, 15, 16, 29, 30, 31, 32, 33, 40, 60, 61, 62]
    c.run("shifts", gen_matrix(c, B0 if q else B1, ("vars", "lits", "args", "aug"), SH, sv))
    c.run("pow", gen_matrix(c, B1[::2] if q else B1, ("vars", "lits", "aug"), ["**"], [-3, -2, -1, 0, 1, 2, 3, 5, 10, 31, 62]))
    md = [0, 1, -3, 7, 2 ** 53 + 1, MX, MN]
    dforms = ("vars", "lits", "args", "aug", "cond")
    c.run("doubles", itertools.chain(gen_matrix(c, D, dforms, ops), gen_matrix(c, D, dforms, ops, md),
                                     gen_matrix(c, md, dforms, ops, D)))
    c.run("unary", gen_unary(c, B0 + D[:4]))
    vs = [(7, 2, 3, 1, 2), (-5, 3, 2, 4, 1), (2.5, 4, 1, 3, 2), (1, None, 5, False, 2), (True, False, 3, 3, None)]
    c.run("chains2", gen_chains(c, 2, vs))
    c.run("chains3", gen_chains(c, 3, vs[:2] if q else vs, forms=("v",)))
    if not q:
        c.run("chains4", gen_chains(c, 4, vs[:1], forms=("v",)), modes="VJ")
    c.run("trees", itertools.chain.from_iterable(
        gen_trees(c, n, ["-", "*", "<<", "**"] if n < 4 else ["-", "*"], [9, 2, 5, 3, 7, 4]) for n in range(1, 6 if q else 7)))
    c.run("operands of every kind", itertools.chain(gen_leaves(c, 1, ["-", "*", "<", "<<"], LEAF), gen_leaves(c, 2, ["-"] if q else ["-", "*", "<<"], LEAF)), modes="VJ")
    c.run("registers", gen_pressure(c, 48 if q else 110))
