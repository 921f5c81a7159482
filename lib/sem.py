"""Reference semantics of numbers, truth and operators."""
import math

MX, MN = 2 ** 62 - 1, -2 ** 62
IMAX = 2 ** 31 - 1


class Unsupported(Exception):
    pass


def isint(v):
    return isinstance(v, int) and not isinstance(v, bool)


def isnum(v):
    return isint(v) or isinstance(v, float)


def integer(x, a=None, op=None, b=None):
    """An integer result, or its double when it does not fit 63 bits."""
    if MN <= x <= MX:
        return x
    fa, fb = float(a), float(b)
    return fa + fb if op == "+" else fa - fb if op == "-" else fa * fb


def wrap63(x):
    x &= (1 << 63) - 1
    return x - (1 << 63) if x >> 62 else x


def cpow(a, b):
    a, b = float(a), float(b)
    try:
        return math.pow(a, b)
    except OverflowError:
        return math.copysign(math.inf, a) if a < 0 and b == int(b) and int(b) % 2 else math.inf
    except ValueError:
        if a == 0.0:
            return math.inf
        return math.nan


def fdiv(a, b):
    a, b = float(a), float(b)
    try:
        return a / b
    except ZeroDivisionError:
        if a == 0 or a != a:
            return math.nan
        return math.copysign(math.inf, a) * math.copysign(1, b)


def fmod(a, b):
    try:
        return math.fmod(a, b)
    except ValueError:
        return math.nan


def truthy(v):
    return v is not None and v is not False


def same(a, b):
    """== is strict: an integer never equals a double."""
    if isnum(a) and isnum(b):
        return isint(a) == isint(b) and a == b
    return type(a) is type(b) and a == b


def binop(o, a, b):
    if o == "==":
        return same(a, b)
    if o == "!=":
        return not same(a, b)
    if o == "+" and isinstance(a, str) and isinstance(b, str):
        return a + b
    if not (isnum(a) and isnum(b)):
        raise Unsupported
    ints = isint(a) and isint(b)
    if o in "< <= > >=".split():
        if not ints:
            a, b = float(a), float(b)
        return {"<": a < b, "<=": a <= b, ">": a > b, ">=": a >= b}[o]
    if o in "+-*" and o != "**":
        if ints:
            return integer({"+": a + b, "-": a - b, "*": a * b}[o], a, o, b)
        fa, fb = float(a), float(b)
        return {"+": fa + fb, "-": fa - fb, "*": fa * fb}[o]
    if o == "/":
        if not ints:
            return fdiv(a, b)
        if b == 0:
            return fdiv(a, 0.0)
        q = abs(a) // abs(b)
        return integer(q if (a < 0) == (b < 0) else -q, a, "*", -1)
    if o == "%":
        if not ints:
            return fmod(a, b)
        if b == 0:
            return math.nan
        r = abs(a) % abs(b)
        return -r if a < 0 else r
    if o == "**":
        z = cpow(a, b)
        return int(z) if ints and abs(z) < IMAX else z
    if o in ("<<", ">>"):
        if not ints or not 0 <= b <= 62:
            raise Unsupported
        return wrap63(a << b) if o == "<<" else a >> b
    raise Unsupported


def unop(o, a):
    if o in ("not", "!"):
        return not truthy(a)
    if o == "~" and isint(a):
        return ~a
    if o == "-" and isnum(a):
        return binop("-", 0, a)
    raise Unsupported
