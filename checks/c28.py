"""C28: random numbers are the Mersenne twister's, from the seed that was set."""
import itertools
from vp import fmt


class MT:
    def __init__(self, seed):
        s = [seed & 0xffffffff]
        for j in range(1, 624):
            s.append((1812433253 * (s[j - 1] ^ (s[j - 1] >> 30)) + j) & 0xffffffff)
        self.s, self.i = s, 624

    def int(self):
        s = self.s
        if self.i == 624:
            for k in range(624):
                y = (s[k] & 0x80000000) | (s[(k + 1) % 624] & 0x7fffffff)
                s[k] = s[(k + 397) % 624] ^ (y >> 1) ^ (0x9908b0df if y & 1 else 0)
            self.i = 0
        y = s[self.i]
        self.i += 1
        y ^= y >> 11
        y ^= (y << 7) & 0x9d2c5680
        y ^= (y << 15) & 0xefc60000
        return y ^ (y >> 18)

    def dbl(self):
        a, b = self.int() >> 5, self.int() >> 6
        return (a * 67108864.0 + b) * (1.0 / 9007199254740992.0)


SEEDS = [0, 1, 2, 3, 7, 42, 255, 256, 5489, 19650218, 2 ** 30, 2 ** 31 - 1, 2 ** 31, 2 ** 31 + 1, 2 ** 32 - 1, 2 ** 32, 2 ** 32 + 5, 2 ** 61, -1, -2, -2 ** 31, -2 ** 61]


def gen_seq(c, depth):
    """Every order of setting the seed and drawing. (Objects made in between draw from the same sequence: none are.)"""
    ops = [("srand(5)", "s5"), ("srand(6)", "s6"), ("srand(0)", "s0"), ("rand", "r"), ("Lobby rand", "r")]
    last = [("1 rand", "d"), ("0 rand", "d"), ("x rand", "d"), ("2.5 rand", "d"), ("y rand", "d"), ("rand", "r")]
    for n in range(0, depth):
        for w in itertools.product(*[ops] * n + [last]):
            m, exp, prog = MT(9), [], "x = 0 - 7\ny = 1.5\nsrand(9)\n"
            for i, (t, o) in enumerate(w):
                if o[0] == "s":
                    m = MT(int(o[1]))
                    prog += t + "\n"
                else:
                    exp.append(m.int() if o == "r" else m.dbl())
                    prog += "x%d = %s\n" % (i, t)
                c.trans()
            c.state((tuple(o for _, o in w)))
            yield prog + "l = ()\n" + "".join("l push (x%d)\n" % i for i, (_, o) in enumerate(w) if o[0] != "s") + "l", fmt(exp)


def seed(s):
    return str(s) if s >= 0 else "0 - %d" % -s


def gen_long(c, counts):
    """Long sequences: the state is renewed every 624 numbers."""
    for s in SEEDS:
        for n in counts:
            m = MT(s)
            for _ in range(n):
                m.int()
            yield "s = %s\nsrand(s)\ni = 0\nwhile (i < %d): rand, i = i + 1.\nx = rand\ny = 1 rand\n(x, y)" % (seed(s), n), fmt([m.int(), m.dbl()])
            c.trans(n)
            c.state((s, n))


def gen_range(c, n):
    """Every number of the sequence."""
    for s in SEEDS:
        m = MT(s)
        v = [m.int() for _ in range(n)]
        sums = [sum(v[i::7]) for i in range(7)]
        yield "s = %s\nsrand(s)\ni = 0\n%swhile (i < %d): %s, i = i + 1.\n(%s)" % (
            seed(s), "".join("a%d = 0\n" % i for i in range(7)), n // 7, ", ".join("a%d = a%d + rand" % (i, i) for i in range(7)), ", ".join("a%d" % i for i in range(7))), fmt(sums)
        c.trans(2 * n)


def gen_where(c):
    """Drawn in any place of a program, also when collections come between."""
    m = MT(3)
    v = [m.int() for _ in range(40)]
    for body, exp in (("x = rand, y = rand, (x, y)", v[:2]), ("rand + rand", v[0] + v[1]), ("rand - rand", v[0] - v[1]), ("if (rand == %d): rand. else: 0." % v[0], v[1]), ("x = rand, y = rand, (y, x)", [v[1], v[0]]),
                      ("f (rand, rand)", [v[0], v[1]]), ("g () + g ()", v[0] + v[1]), ("if (rand > 5 and rand > 6): rand.", v[2]), ("x = nil or rand, rand", v[1]), ("o put (rand)\no get", v[0]), ("x = rand\nx string print\nrand", None)):
        if exp is None:
            yield "srand(3)\nx = rand\nx string", fmt(str(v[0]))
            continue
        yield "f = (a, b): (a, b).\ng = (): rand.\nC = class: /x = 0.\nC put = (a): /x = a.\nC get = (): /x.\no = C ()\nsrand(3)\n" + body, fmt(exp)
        c.state(body)
        c.trans(2)


def explore(c):
    q = c.quick
    c.run("draws and seeds", gen_seq(c, 4 if q else 5), modes="VJCD")
    c.run("long sequences", gen_long(c, [0, 1, 226, 227, 396, 397, 622, 623, 624, 625, 1247, 1248, 5000] if q else list(range(0, 640, 3)) + [1246, 1247, 1248, 1249, 50000]), modes="VJ")
    c.run("ranges", gen_range(c, 714 if q else 70000), modes="VJ")
    c.run("in programs", gen_where(c), modes="VJCD", gc="nM")
