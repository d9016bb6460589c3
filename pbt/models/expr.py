"""Reference evaluator for macro expressions.

An expression is a tree: ["n", text] | ["v", id] | ["i", expr] (indirect #[..]) | ["neg"|"pos", e] | ["f", name, e] |
["b", op, l, r] | ["p", e] (redundant brackets).  It is printed to text and evaluated on the tree, so the printer's
precedence knowledge is the oracle for the parser's.  Values carry an error bound: functions that round a result which
is not exact make the case undecidable (Undecided) when the bound straddles a step.
"""
import math

LOW = ("+", "-", "OR", "XOR")
HIGH = ("*", "/", "AND", "MOD")
EPS = 2.3e-16
INT_MIN, INT_MAX = -2 ** 31, 2 ** 31 - 1


class Invalid(Exception):
    """The expression has no value: it must be reported."""


class Undecided(Exception):
    pass


def level(e):
    if e[0] == "b":
        return 1 if e[1] in LOW else 2
    return 3


def show(e, sp=""):
    k = e[0]
    if k == "n":
        return e[1]
    if k == "v":
        return "#" + sp + str(e[1])
    if k == "i":
        return "#" + "[" + sp + show(e[1], sp) + sp + "]"
    if k in ("neg", "pos"):
        s = "-" if k == "neg" else "+"
        inner = show(e[1], sp)
        if level(e[1]) < 3 or e[1][0] in ("neg", "pos"):
            inner = "[" + inner + "]"
        return s + sp + inner
    if k == "f":
        return e[1] + sp + "[" + sp + show(e[2], sp) + "]"
    if k == "p":
        return "[" + show(e[1], sp) + sp + "]"
    lv = level(e)
    l, r = show(e[2], sp), show(e[3], sp)
    if level(e[2]) < lv:
        l = "[" + l + "]"
    if level(e[3]) <= lv:
        r = "[" + r + "]"
    return l + sp + e[1] + sp + r


def toint(v, err):
    for x in (v - err, v, v + err):
        if not INT_MIN - 1 < x < INT_MAX + 1:
            if not INT_MIN - 1 < v < INT_MAX + 1 and err == 0:
                raise Invalid
            raise Undecided
    if int(v - err) != int(v + err):
        raise Undecided
    return int(v)


def num(text):
    return float(text)


TRIG = {"SIN": math.sin, "COS": math.cos, "TAN": math.tan, "SINH": math.sinh, "COSH": math.cosh, "TANH": math.tanh}
INV = {"ASIN": math.asin, "ACOS": math.acos, "ATAN": math.atan}
OTHER = {"EXP": math.exp, "LOG": math.log, "LOG10": math.log10, "SQRT": math.sqrt}


def _smooth(f, v, err):
    try:
        c = f(v)
        d = max(abs(f(v - err) - c), abs(f(v + err) - c)) if err else 0.0
    except (ValueError, OverflowError):
        raise Undecided
    return c, d + 4 * EPS * abs(c)


def fun(name, v, err):
    if not (math.isfinite(v) and math.isfinite(err)):
        raise Undecided
    if name == "ABS":
        return abs(v), err
    if name in ("FIX", "FUP", "ROUND"):
        if abs(v) > 1e15:
            raise Undecided
        f = {"FIX": math.floor, "FUP": math.ceil,
             "ROUND": lambda x: math.copysign(math.floor(abs(x) + 0.5), x) if abs(x) < 2 ** 52 else x}[name]
        if name == "ROUND" and abs(abs(v) % 1 - 0.5) < 1e-9 and abs(v) % 1 != 0.5:
            raise Undecided
        if v - err < 0 and name != "ROUND" and v != int(v):
            raise Undecided  # direction for negative fractions is not claimed
        if f(v - err) != f(v + err):
            raise Undecided
        return float(f(v)), 0.0
    if name in TRIG:
        return _smooth(TRIG[name], v * math.pi / 180, err * math.pi / 180 + abs(v) * EPS)
    if name in INV:
        c, e = _smooth(INV[name], v, err)
        return c * 180 / math.pi, (e + abs(c) * 2 * EPS) * 180 / math.pi
    if name in OTHER:
        if name == "SQRT" and v < 0 or name.startswith("LOG") and v <= 0:
            raise Undecided
        return _smooth(OTHER[name], v, err)
    raise AssertionError(name)


def evaluate(e, env):
    """-> (value, error bound); env: {id: value}"""
    k = e[0]
    if k == "n":
        return num(e[1]), 0.0
    if k == "v":
        if e[1] not in env:
            raise Invalid
        if env[e[1]] != env[e[1]]:
            raise Undecided
        return env[e[1]], 0.0
    if k == "i":
        v, err = evaluate(e[1], env)
        if err or v < 0 or v > 2 ** 31:
            raise Undecided
        if int(v) not in env:
            raise Invalid
        return env[int(v)], 0.0
    if k == "p" or k == "pos":
        return evaluate(e[1], env)
    if k == "neg":
        v, err = evaluate(e[1], env)
        return -v, err
    if k == "f":
        v, err = evaluate(e[2], env)
        return fun(e[1], v, err)
    op = e[1]
    (a, ea), (b, eb) = evaluate(e[2], env), evaluate(e[3], env)
    tainted = ea or eb
    try:
        if op == "+":
            v, err = a + b, ea + eb
        elif op == "-":
            v, err = a - b, ea + eb
        elif op == "*":
            v, err = a * b, abs(a) * eb + abs(b) * ea + ea * eb
        elif op == "/":
            if b == 0 or abs(b) <= eb:
                raise Undecided
            v = a / b
            err = (ea + abs(v) * eb) / (abs(b) - eb)
        else:
            x, y = toint(a, ea), toint(b, eb)
            if op == "AND":
                v = x & y
            elif op == "OR":
                v = x | y
            elif op == "XOR":
                v = x ^ y
            elif op == "MOD":
                if y == 0:
                    raise Invalid
                v = int(math.fmod(x, y)) if abs(x) < 2 ** 52 else 0
            v, err = float(v), 0.0
            tainted = False
    except OverflowError:
        raise Undecided
    if not math.isfinite(v):
        raise Undecided
    return v, err + (abs(v) * EPS if tainted else 0.0)
