"""Macro expressions: value and rejection against a reference evaluator working on the generated tree."""
from hypothesis import strategies as st

import fan
import gen
import grammars
from checks.p11 import recogniser
from core import Check, Discard, Sub, Violation
from models import expr

REF_FN = ["SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "LOG", "LOG10", "EXP",
          "SINH", "COSH", "TANH"]
SHIPPED_FN = ["SIN", "COS", "TAN", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP"]
SET = [True, False, False, False, False]

lit = st.one_of(st.integers(0, 40).map(str), st.sampled_from(
    ["0", "1", "2", "30", "45", "60", "90", "0.5", "1.5", "2.5", ".5", "3.", "0.25", "10.125", "100", "360", "0.001",
     "255", "4095", "99999"]), st.builds(lambda a, b: "%d.%d" % (a, b), st.integers(0, 400), st.integers(0, 9999)))


@st.composite
def tree(draw, fns, ops, depth=4):
    k = draw(st.integers(0, 11)) if depth else 0
    if k < 3:
        r = draw(st.integers(0, 7))
        if r < 4:
            return ["n", draw(lit)]
        if r == 7 and depth:
            return ["i", ["n", str(draw(st.integers(1, 6)))]] if draw(st.booleans()) else \
                ["i", draw(tree(fns, ops, depth - 1))]
        return ["v", draw(st.integers(1, 6))]
    if k < 5:
        return ["f", draw(st.sampled_from(fns)), draw(tree(fns, ops, depth - 1))]
    if k < 10:
        return ["b", draw(st.sampled_from(ops)), draw(tree(fns, ops, depth - 1)), draw(tree(fns, ops, depth - 1))]
    if k == 10:
        return [draw(st.sampled_from(["neg", "neg", "pos"])), draw(tree(fns, ops, depth - 1))]
    return ["p", draw(tree(fns, ops, depth - 1))]


@st.composite
def expr_case(draw):
    g = draw(st.sampled_from(["ref", "ref", "ref", "fanuc_mill"] + grammars.PARSER_TYPES))
    fns = REF_FN if g == "ref" else SHIPPED_FN
    ops = ["+", "-", "*", "/", "+", "-", "*", "/", "AND", "OR", "XOR"] + (["MOD", "MOD"] if g == "ref" else [])
    vals = {}
    for i in range(1, 7):
        if draw(st.integers(0, 7)):
            vals[str(i)] = draw(st.sampled_from(["", "-"])) + draw(lit)
    return {"g": g, "vars": vals, "target": draw(st.sampled_from([1, 6, 7, 100, 500])),
            "trees": draw(st.lists(tree(fns, ops), min_size=1, max_size=3)),
            "sp": draw(st.sampled_from(["", "", " ", "  "])), "n": draw(st.sampled_from(["", "N10", "/ ", "N10 "]))}


def key(mac):
    return {(i, l): v for i, l, v in mac}


def check_expr(ctx, c):
    g, sp = c["g"], c["sp"]
    env = {}
    ops = []
    line = 0
    rec = recogniser(g)
    for i, v in sorted(c["vars"].items()):
        t = "#%s=%s" % (i, v)
        if rec.parse(t) is None:
            raise Discard
        line += 1
        ops.append(["parse", line, t])
        env[int(i)] = float(v)
    setup = len(ops)
    texts = []
    for t in c["trees"]:
        line += 1
        s = "%s#%d%s=%s%s" % (c["n"], c["target"], sp, sp, expr.show(t, sp))
        if rec.parse(s) is None:
            raise Discard  # the word table does not admit it (P11)
        texts.append(s)
        ops.append(["parse", line, s])
    r = fan.run(ctx, ops, g=g, set_=SET, want=["mac"])
    for op, x in zip(ops[:setup], r):
        if not x["ok"]:
            raise Violation("%r was rejected: %s" % (op[2], x["msg"]), sig="assignment rejected")
    prev = key(r[setup - 1]["mac"]) if setup else {}
    if {i: v for (i, l), v in prev.items() if i < 1000} != env:
        raise Violation("after %s the macros are %s" % (ops[:setup], prev), sig="literal assignment")
    nt = False
    for k, (t, s) in enumerate(zip(c["trees"], texts)):
        x = r[setup + k]
        ln = setup + k + 1
        now = key(x["mac"])
        rest = {a: v for a, v in now.items() if a != (c["target"], ln) and a[0] < 4000}
        before = {a: v for a, v in prev.items() if a[0] < 4000}
        if rest != before:
            raise Violation("%r changed other variables: %s -> %s" % (s, before, rest), sig="other variable changed")
        got = now.get((c["target"], ln))
        prev = now
        try:
            v, err = expr.evaluate(t, env)
        except expr.Undecided:
            ctx.label("undecided")
            if got is not None:
                env[c["target"]] = got
            continue
        except expr.Invalid:
            ctx.label("invalid")
            if x["ok"] or got is not None or not x["msg"]:
                raise Violation("%r with %s has no value but gave %s (%s, %r)" % (s, env, got, x["ok"], x["msg"]),
                                sig="invalid expression accepted")
            nt = True
            continue
        if not x["ok"] or got is None:
            raise Violation("%r with %s must be %r but was rejected: %r" % (s, env, v, x["msg"]), sig="rejected")
        tol = err * 8 + 1e-15 * abs(v)
        if tol > 1e-6 * max(1, abs(v)) or v != v:
            ctx.label("undecided")
        elif not abs(got - v) <= tol and got != v:
            raise Violation("%r with %s must be %r but is %r" % (s, env, v, got), sig="value")
        else:
            ctx.label("exact" if err == 0 else "approx")
            nt = nt or expr.level(t) < 3 or t[0] in ("f", "i")
        env[c["target"]] = got
    return nt


def check_bcd(ctx, c):
    """BIN and BCD are each other's inverse on 0..99999999."""
    v = c["v"]
    r = fan.run(ctx, [["parse", 1, "#1=%d" % v if v < 100000 else "#1=%d*1000+%d" % (v // 1000, v % 1000)],
                      ["parse", 2, "#2=BCD[BIN[#1]]"], ["parse", 3, "#3=BIN[#1]"], ["parse", 4, "#4=BCD[#3]"]],
                g=c["g"], set_=SET, want=["mac"])
    m = {i: x for i, l, x in r[-1]["mac"]}
    if not all(x["ok"] for x in r) or m[1] != v or m[2] != v or m[4] != v:
        raise Violation("BCD[BIN[%d]] is %s" % (v, m), sig="bcd round trip")
    digits = "".join("%X" % ((int(m[3]) >> (4 * k)) & 15) for k in range(8))[::-1] if m[3] != v or v < 10 else None
    if v >= 10 and digits is not None and int(digits) != v:
        raise Violation("BIN[%d] = %d is not a digit-wise code" % (v, m[3]), sig="bcd digits")
    return v > 9


META = dict(
    title="A macro expression evaluates to the control's value, or is reported",
    statement="An accepted assignment #i=<expression> stores exactly the value of the expression - * / AND MOD before "
              "+ - OR XOR, left to right, nested brackets, unary signs, functions of one argument (trigonometry in "
              "degrees both ways, ROUND/FIX/FUP, SQRT, ABS, EXP, LOG), direct and indirect variables with their latest "
              "value, AND/OR/XOR/MOD on the truncated integers - independent of blanks, and changes no other "
              "variable; an undefined variable, MOD by zero or an integer operation on a value outside 32 bits is "
              "reported with a message and stores nothing.",
    over=["inputs"], over_text="all expression trees up to depth 4, all literals, all variable environments",
    why="Precedence, associativity and unit mistakes appear only in particular operator combinations; unit tests fix "
        "a few dozen expressions.",
    files=["parser/fanuc/ValueCalculator.cpp", "parser/fanuc/MacroEvaluator.cpp", "parser/fanuc/MacroDefines.h"],
    mechanism=[("expression grammar and evaluator", "ValueCalculator.cpp"),
               ("assignment extraction from the token list", "MacroEvaluator.cpp MacroVisitor")],
    observe="AllAttributesParser::parse + get_macro_values",
    technique="differential testing against a tree-walking reference evaluator with error bounds",
    design="random trees printed to text with minimal or redundant brackets and blanks; oracle evaluates the tree with "
           "a rounding-error bound, so steps (ROUND, FIX, integer operations) are judged only where decidable; "
           "BIN/BCD inverse law over 0..99999999.",
    note="Division by zero, SQRT/LOG/ASIN outside their domain, FIX/FUP of negative fractions and the direction of "
         "BIN/BCD are not claimed.")


class P15(Check):
    id = "P15"
    rule = "at least one accepted-by-the-word-table expression with an operator, a function or an indirect variable " \
           "whose value (or absence of value) the reference decides"

    def subs(self):
        return [Sub("expr", expr_case(), check_expr, 9000, 900000),
                Sub("bcd", st.fixed_dictionaries({"g": gen.grammar_id, "v": st.integers(0, 99999999)}), check_bcd, 400,
                    20000)]


CHECK = P15()
