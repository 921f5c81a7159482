"""C17: continuations: `here` captures the rest of the program, calling it any number of times resumes it there."""
import copy, itertools
from vp import fmt

# A program is a sequence of nodes (kind, body). Three heap objects are shared by everything: r (the log), d (the
# decisions still to come) and ks (the continuations captured). Every function has a local i of its own.
#   L<j>   ks put(j, here)        capture
#   J      take a decision: 0 go on, j + 1: call the continuation j
#   V      i = i + 1, r push(i)
#   U      u = u + 1, r push(u)   u is captured by a closure from the start: it lives on the heap
#   X      r push(i + g(i + 1)) with g capturing inside an expression
#   W(b)   while, twice
#   F(b)   a function called once, its result logged
#   T(b)   2 times
#   E(b)   each over a list
#   S(b)   a method of an object
#   C(b)   if with a local condition
#   R(b)   a function that calls itself once


def render(nodes, depth, ind, off=""):
    """source of the statements, in a function at nesting level depth"""
    out = []
    i = "i%d" % depth
    sp = " " * ind
    for node in nodes:
        k, body = node[0], node[1] if len(node) > 1 else ()
        if k[0] == "L":
            out.append(sp + "ks put(%s, here)" % k[1:])
        elif k == "J":
            x = "x%d" % depth
            out.append(sp + "%s = d shift" % x)
            for j in range(3):
                out.append(sp + "if (%s == %d): k%d = ks at(%d), k%d ()." % (x, j + 1, depth, j, depth))
        elif k == "V":
            out.append(sp + "%s = %s + 1" % (i, i))
            out.append(sp + "r push(%s)" % i)
        elif k == "U":
            out.append(sp + "u = u + 1")
            out.append(sp + "r push(u)")
        elif k[0] == "X":
            out.append(sp + "r push(%s + 1000 * (2 + g(%s, %s)))" % (i, k[1:], i))
        elif k == "W":
            w = "w%d_%d" % (depth, ind)
            out.append(sp + "%s = 0" % w)
            out.append(sp + "while (%s < 2): %s = %s + 1" % (w, w, w))
            out += render(body, depth, ind + 1, off)
            out.append(sp + ".")
        elif k == "C":
            out.append(sp + "if (%s < 3):" % i)
            out += render(body, depth, ind + 1, off)
            out.append(sp + " nil.")
        elif k == "F":
            f = "f%d" % (depth + 1)
            out.append(sp + "%s = (a): i%d = a" % (f, depth + 1))
            out += render(body, depth + 1, ind + 1, off)
            out.append(sp + " i%d + 50." % (depth + 1))
            out.append(sp + "r push(%s(%s + 10))" % (f, i))
        elif k == "R":
            f = "f%d" % (depth + 1)
            n = depth + 1
            out.append(sp + "%s = nil" % f)
            out.append(sp + "%s = (a, m): i%d = a" % (f, n))
            out += render(body, n, ind + 1, off)
            out.append(sp + " if (m > 0): i%d = i%d + %s(i%d + 100, m - 1). else: nil." % (n, n, f, n))
            out.append(sp + " i%d." % n)
            out.append(sp + "r push(%s(%s + 10, 1))" % (f, i))
        elif k == "T":
            n = depth + 1
            out.append(sp + "2 times (t): i%d = t * 10 + 0%s" % (n, off))
            out += render(body, n, ind + 1, off)
            out.append(sp + " nil.")
        elif k == "E":
            n = depth + 1
            out.append(sp + "(7, 8) each (e): i%d = e * 10 + 0%s" % (n, off))
            out += render(body, n, ind + 1, off)
            out.append(sp + " nil.")
        elif k == "S":
            n = depth + 1
            out.append(sp + "Foo%d = class(a): /a = a." % n)
            out.append(sp + "Foo%d run = (b): i%d = b + /a + 0%s" % (n, n, off))
            out += render(body, n, ind + 1, off)
            out.append(sp + " i%d + /a." % n)
            out.append(sp + "o%d = Foo%d(5)" % (n, n))
            out.append(sp + "r push(o%d run(20))" % n)
    return out


def source(nodes, decisions, off=""):
    top = ["r = ()", "d = (%s)" % ", ".join(map(str, decisions)) if decisions else "d = ()", "ks = (0, 0, 0)", "i0 = 0" + off]
    if uses(nodes, "U"):
        top += ["u = 500", "h = (): u."]
    if uses(nodes, "X"):
        top += ["g = (j, v): ks put(j, here), v + 3."]
    return "\n".join(top + render(nodes, 0, 0, off) + ["r push('end')", "r"])


def uses(nodes, k):
    return any(n[0][0] == k or (len(n) > 1 and uses(n[1], k)) for n in nodes)


# ---- the model: a machine whose control state can be copied ----
class Act:
    """an activation: i, and what calls it"""

    def __init__(self, i, ret):
        self.i, self.ret, self.w = i, ret, {}


class Over(Exception):
    pass


def machine(nodes, decisions, off=0, maxlog=60):
    """(log, decisions used, options at the first decision beyond the given ones or None)"""
    log, ks, dec, U = [], {}, list(decisions), [500]
    # control: list of [seq, pos, activation index]; frames: list of Act; an item pushed for loops and calls
    st = {"acts": [Act(off, None)], "ctl": [["seq", nodes, 0]]}

    def snap(s):
        return {"acts": [copy.copy(a) for a in s["acts"]], "ctl": [list(x) for x in s["ctl"]]}
    while True:
        ctl, acts = st["ctl"], st["acts"]
        if not ctl:
            break
        top = ctl[-1]
        a = acts[-1]
        op = top[0]
        if len(log) > maxlog:
            raise Over()
        if op == "seq":
            if top[2] == len(top[1]):
                ctl.pop()
                continue
            node = top[1][top[2]]
            top[2] += 1
            k, body = node[0], node[1] if len(node) > 1 else ()
            if k[0] == "L":
                ks[int(k[1:])] = snap(st)
            elif k == "J":
                x = dec.pop(0) if dec else None
                if x is None:
                    return None, [j + 1 for j in sorted(ks)]
                if x:
                    st = snap(ks[x - 1])
            elif k == "V":
                a.i += 1
                log.append(a.i)
            elif k == "U":
                U[0] += 1
                log.append(U[0])
            elif k[0] == "X":
                ctl.append(["x", a.i])
                ks[int(k[1:])] = snap(st)
            elif k == "W":
                ctl.append(["w", body, 0])
            elif k == "C":
                if a.i < 3:
                    ctl.append(["seq", body, 0])
            elif k == "F":
                ctl += [["ret", 50], ["seq", body, 0]]
                acts.append(Act(a.i + 10, None))
            elif k == "S":
                ctl += [["ret", 5], ["seq", body, 0]]
                acts.append(Act(25 + off, None))
            elif k == "R":
                ctl += [["ret", 0], ["rec", body, 1], ["seq", body, 0]]
                acts.append(Act(a.i + 10, None))
            elif k in "TE":
                ctl.append(["it", body, [0, 10] if k == "T" else [70, 80], 0])
        elif op == "x":
            log.append(top[1] + 1000 * (2 + top[1] + 3))
            ctl.pop()
        elif op == "w":
            if top[2] == 2:
                ctl.pop()
            else:
                top[2] += 1
                ctl.append(["seq", top[1], 0])
        elif op == "it":
            if top[3] == len(top[2]):
                ctl.pop()
            else:
                acts.append(Act(top[2][top[3]] + off, None))
                top[3] += 1
                ctl += [["leave"], ["seq", top[1], 0]]
        elif op == "leave":
            ctl.pop()
            acts.pop()
        elif op == "ret":
            log.append(a.i + top[1])
            ctl.pop()
            acts.pop()
        elif op == "rec":
            # the inner call; its value is added to the outer i as it was before the call
            ctl.pop()
            ctl += [["add", a.i], ["seq", top[1], 0]]
            acts.append(Act(a.i + 100, None))
        elif op == "add":
            v = acts.pop().i
            acts[-1].i = top[1] + v
            ctl.pop()
    return log + ["end"], None


def histories(nodes, jumps, off=0):
    """every decision vector with at most `jumps` jumps, with the log the program then leaves"""
    def go(dec, left):
        try:
            log, opts = machine(nodes, dec, off)
        except Over:
            return
        if log is not None:
            yield dec, log
            return
        yield from go(dec + [0], left)
        if left:
            for o in opts:
                yield from go(dec + [o], left - 1)
    yield from go([], jumps)


def trees(size, leaves, blocks, depth):
    """sequences of nodes with `size` nodes in all"""
    if size == 0:
        yield ()
        return
    for first in range(1, size + 1):
        heads = []
        if first == 1:
            heads = [(l,) for l in leaves]
        elif depth:
            heads = [(b, body) for b in blocks for body in trees(first - 1, leaves, blocks, depth - 1)]
        for rest in trees(size - first, leaves, blocks, depth):
            for h in heads:
                yield (h,) + rest


def labelled(nodes, cnt):
    """number the captures in order"""
    out = []
    for n in nodes:
        if n[0] in "LX":
            out.append((n[0] + str(cnt[0]),))
            cnt[0] += 1
        elif len(n) > 1:
            out.append((n[0], labelled(n[1], cnt)))
        else:
            out.append(n)
    return tuple(out)


def count(nodes, k):
    return sum((n[0][0] == k) + (count(n[1], k) if len(n) > 1 else 0) for n in nodes)


def gen(c, size, leaves, blocks, depth, jumps, off="", maxj=2):
    for t in trees(size, leaves, blocks, depth):
        nl, nj = count(t, "L") + count(t, "X"), count(t, "J")
        if not 1 <= nl <= 3 or not 1 <= nj <= maxj or (jumps > 1 and nl + nj > 4):
            continue
        t = labelled(t, [0])
        for dec, log in histories(t, jumps, float(off) if off else 0):
            c.state((t, tuple(dec), off))
            c.trans(len(dec) + 1)
            yield source(t, dec, off), fmt(log)


# ---- captures and jumps at every depth of the stack, from inside every kind of callback ----
def gen_depth(c, ns, ms):
    for n in ns:
        for m in ms:
            c.state(("depth", n, m))
            c.trans(3)
            src = ("r = ()\nd = (1, 1, 0)\nks = (0)\nf = (n, a, b): x = a + n\n if (n > 0): y = f(n - 1, x, b + 0.5). else: ks put(0, here), r push((x, b)), y = 1.\n"
                   " x + y + b.\ng = (m): z = m\n if (m > 0): z = z + g(m - 1). else: v = d shift\n  if (v == 1): k = ks at(0), k ()..\n z.\n"
                   "r push(f(%d, 3, 0.25))\nr push(g(%d))\nr" % (n, m))

            def f(n, a, b):
                x = a + n
                if n > 0:
                    return x + f(n - 1, x, b + 0.5) + b
                leaf.append((x, b))
                return x + 1 + b
            leaf = []
            v = f(n, 3, 0.25)
            yield src, fmt([leaf[0], v] * 3 + [m * (m + 1) // 2])


# (program with CAPTURE and JUMP, the logs before the capture, each time through, after)
CALLBACKS = [
    ("(5, 6, 7) each (x): if (x == 6): CAPTURE.\n r push(x).\nJUMP", [5], [6, 7], []),
    ("(5, 6, 7) each (x): CAPTURE\n r push(x).\nJUMP", [5, 6], [7], []),
    ("jm = (): JUMP\n 0.\n(5, 6, 7) each (x): r push(x)\n if (x == 5): CAPTURE.\n if (x == 6): jm()..", [5], [6], [7]),
    ("(1='p') each (k, v): CAPTURE\n r push((k, v)).\nJUMP", [], [(1, "p")], []),
    ("3 times (x): if (x == 1): CAPTURE.\n r push(x).\nJUMP", [0], [1, 2], []),
    ("3 to(6, (x): if (x == 4): CAPTURE.\n r push(x).)\nJUMP", [3], [4, 5, 6], []),
    ("6 to(3, (x): if (x == 4): CAPTURE.\n r push(x).)\nJUMP", [6, 5], [4, 3], []),
    ("1 step(9, 3, (x): if (x == 4): CAPTURE.\n r push(x).)\nJUMP", [1], [4, 7], []),
    ("(4, 2, 9) filter((x): if (x == 2): CAPTURE.\n r push(x)\n true.)\nJUMP", [4], [2, 9], []),
    ("r push((4, 2, 9) reduce((a, x): if (x == 2): CAPTURE.\n r push((a, x))\n a + x., 0))\nJUMP", [(0, 4)], [(4, 2), (6, 9), 15], []),
    ("K = class(a): CAPTURE\n /a = a.\nk0 = K(5)\nr push(k0 /a)\nJUMP", [], [5], []),
    ("K = class(a): /a = a.\nK m = (b): CAPTURE\n /a + b.\nk0 = K(5)\nr push(k0 m(3) * 2)\nJUMP", [], [16], []),
    ("K = class(a): /a = a.\nB = K class(a): /a = a.\nK m = (b): CAPTURE\n r push(/a)\n b.\nk0 = B(5)\nk1 = K(6)\nk0 m(1)\nk1 m(2)\nJUMP", [5], [6], []),
    ("KS = ks\nr push('KS put(0, here), 7' eval)\nJUMP", [], [7], []),
    ("s = 'ab'\ns2 = s + 'c'\nCAPTURE\nr push(s2 + s)\ns = 'z'\nJUMP", [], ["abcab"], []),
    ("a = 1\nb = 2.5\nc = 'x'\nCAPTURE\na = a + 1, b = b + 1, c = c + 'y'\nr push((a, b, c))\nJUMP", [], [(2, 3.5, "xy")], []),
    ("a = 1\nh = (): a.\nCAPTURE\na = a + 1\nr push(h() - a)\nJUMP", [], [0], []),
    ("f = (a, b:=4): c = a\n CAPTURE\n c = c + b\n r push(c)\n c.\nr push(f(1))\nr push(f(2, 5))\nJUMP", [5, 5], [7, 7], []),
    ("r push(1 + |CAPTURE\n 5. * 2)\nJUMP", [], [11], []),
    ("x = 0\nwhile (x < 4): x++\n if (x == 2): CAPTURE.\n if (x == 3): continue.\n r push(x).\nJUMP", [1], [2, 4], []),
    ("x = 0\nloop: x++\n if (x == 2): CAPTURE.\n if (x == 5): break.\n r push(x).\nJUMP", [1], [2, 3, 4], []),
    ("f = (n): while (n > 0): n = n - 1\n if (n == 2): CAPTURE.\n if (n == 1): return (n + 70).\n .\n 9.\nr push(f(5))\nJUMP", [], [71], []),
    ("mk = (n): (x): n = n + x.. \na = mk(1)\na(1)\nCAPTURE\nr push(a(0) - |a(1).)\nJUMP", [], [-1], []),
]


def gen_callbacks(c, times):
    for src, before, each, after in CALLBACKS:
        for n in times:
            for frm in range(3):
                c.state((src, n, frm))
                c.trans(n + 1)
                # frm: the call comes from the place itself, from a function, from inside an iterator
                jump = ["v = d shift\nif (v == 1): k = ks at(0), k ().", "jmp(d)", "1 times: jmp(d)."][frm]
                pre = "r = ()\nks = (0)\nd = (%s0)\n" % ("1, " * n)
                if frm:
                    pre += "jmp = (d): v = d shift\n if (v == 1): k = ks at(0), k ()..\n"
                yield pre + src.replace("CAPTURE", "ks put(0, here)").replace("JUMP", jump) + "\nr", fmt(before + each * (n + 1) + after)


def gen_many(c, ns):
    for n in ns:
        c.state(("many", n))
        c.trans(n)
        yield ("c = (0)\nr = ()\nl = 'a' + 'b'\nk = here\nc put(0, c at(0) + 1)\nr push('v' + c at(0) string)\nl = l + r last\nif (c at(0) < %d): k ().\n(c, r length, r last, l)" % n), \
            fmt(((n,), n, "v%d" % n, "abv%d" % n))
        # one new continuation each time, all of them kept and resumed in turn
        yield ("ks = ()\nr = ()\ni = 0\nwhile (i < %d): i = i + 1, s = 'n' + i string\n ks push(here)\n r push((i, s))\n if (i < %d): continue.\n"
               " if (r length < %d): k = ks at(r length - %d), k ()..\nh = 0\nr each (x): h = h * 7 %% 1000003 + x(0) + x(1) length.\n(r length, h)" % (min(n, 40), min(n, 40), min(n, 40) * 2, min(n, 40))), many(min(n, 40))


def many(n):
    """the loop runs to n; then continuation number (length - n) resumes at that i and runs on to n again"""
    r = list(range(1, n + 1))
    while len(r) < 2 * n:
        r += range(len(r) - n + 1, n + 1)
    h = 0
    for i in r:
        h = h * 7 % 1000003 + i + len("n%d" % i)
    return fmt((len(r), h))


# a stale word on the captured stack points into a later object: see known-findings.txt
def explore(c):
    q = c.quick
    B = "WFTESCR"
    c.run("captures and jumps", (p for n in (2, 3, 4) for p in gen(c, n, "LJVUX", B, 2, 2)), modes="VJ" if q else "VJCD")
    if not q:
        c.run("5 nodes, one jump", gen(c, 5, "LJVUX", B, 2, 1), modes="VJ")
        c.run("6 nodes, one jump", gen(c, 6, "LJV", "FTR", 2, 1), modes="VJ")
    c.run("doubles as variables", (p for n in (2, 3, 4) for p in gen(c, n, "LJVX", B, 2, 1 if q else 2, ".25")), modes="VJ" if q else "VJCD")
    c.run("depths", gen_depth(c, range(0, 12) if q else range(0, 60), range(0, 12) if q else range(0, 60)), modes="VJ")
    c.run("callbacks", gen_callbacks(c, (0, 1, 2) if q else range(0, 8)), modes="VJCD")
    c.run("many", gen_many(c, list(range(1, 12)) + [100, 1000, 3000] if q else list(range(1, 200)) + [1000, 10000, 50000]), modes="VJCD", cpu=30)
    small = [p for n in (2, 3) for p in gen(c, n, "LJVUX", B, 2, 2, ".25") if "ks at" in p[0]]
    c.run("under GC", small[::4] if q else small, modes="VJ", gc="nMaA")
    c.run("callbacks under GC", gen_callbacks(c, (1,) if q else (0, 1, 2)), modes="VJ" if q else "VJCD", gc="nM" if q else "nMaA", chunk=4)
