"""Conversion between metric and imperial programs."""
from fractions import Fraction

from hypothesis import strategies as st

import fan
import gen
import grammars
from checks.p11 import expected
from core import Check, Discard, Sub, Violation

IN = Fraction(254, 10)


def number(t):
    return Fraction((t[6] or "0") + ("." + t[8] if t[8] else ""))


def check_token(t, u, table, kind, state, here):
    """One token before and after; state follows the words of the block that end or limit the conversion."""
    if t[0] != "D":
        if t != u:
            raise Violation("%s: %s became %s" % (here, t, u), sig="other token")
        return False
    word, value, dot, frac = t[1], t[6], t[7], t[8]
    if state["first"]:
        state["first"] = False
        if word == "/":
            state["off"] = True
    plain = not (t[4] or t[5] or t[9])
    if word == "G" and value and plain and int(value) == 4:
        state["off"] = True
    same = state["off"] or not plain
    if not same and word == "G" and value:
        v = int(value)
        if (v, kind) in ((20, 1), (21, 0)):
            want = list(t)
            want[6] = "21" if v == 20 else "20"
            if u != want:
                raise Violation("%s: unit code %s became %s" % (here, t, u), sig="unit code")
            return True
        if v == 68 and (frac is None or int(frac) in (2, 3, 4)):
            state["g68"] = True
        same = True
    typ = table[word][6] if word in table else None
    if state["g68"] and word in "IJKR":
        same = True
    if typ not in (grammars.WT["length"], grammars.WT["feed"]) or value is None and frac is None:
        same = True
    if same:
        if t != u:
            raise Violation("%s: %s must stay but became %s" % (here, t, u), sig="kept word")
        return False
    exact = number(t) * IN if kind else number(t) / IN
    digits = len(str(table[word][4])) if table[word][4] else 0
    if u[:6] != t[:6] or u[9] != t[9]:
        raise Violation("%s: %s became %s" % (here, t, u), sig="fields")
    if u[6] is None or (u[7] is None) != (u[8] is None):
        raise Violation("%s: %s became %s, not a number" % (here, t, u), sig="form")
    if u[8] is not None and (len(u[8]) > digits or u[8].endswith("0")):
        raise Violation("%s: %s became %s: more than %d decimals or a trailing zero" % (here, t, u, digits),
                        sig="decimals")
    if abs(number(u) - exact) > Fraction(1, 2 * 10 ** digits) + exact / 10 ** 12:
        raise Violation("%s: %s became %s, exactly %.9f" % (here, t, u, float(exact)), sig="value")
    return True


def check_blocks(ctx, c):
    unit = ["metric", "imperial"][c["kind"]]
    target = grammars.ALL()[c["g"]][["imperial", "metric"][c["kind"]]]
    toks = [expected(c["g"], t, unit) for t in c["lines"]]
    rs = fan.run(ctx, [["convert", i + 1, t, c["kind"]] for i, t in enumerate(c["lines"])], g=c["g"], want=["tok"],
                 nc_=fan.nc(def_={"units": c["kind"]}))
    n = 0
    for line, t, r in zip(c["lines"], toks, rs):
        here = "grammar %s, %s: %r" % (c["g"], ["mm to inch", "inch to mm"][c["kind"]], line)
        if t is None:
            continue
        if not r["ok"]:
            raise Violation("%s: not converted: %s" % (here, r["msg"]), sig="rejected")
        got = [list(x) for x in r["tok"]]
        if len(got) != len(t):
            raise Violation("%s: %d tokens became %d" % (here, len(t), len(got)), sig="count")
        state = {"first": True, "off": False, "g68": False}
        for a, b in zip(t, got):
            n += check_token(a, b, target, c["kind"], state, here)
        if state["off"]:
            ctx.label("dwell or optional block")
        if state["g68"]:
            ctx.label("coordinate rotation")
    return n > 0


def check_roundtrip(ctx, c):
    """There and back: every value returns within the rounding of the two tables."""
    back = 1 - c["kind"]
    d = grammars.ALL()[c["g"]]
    nc = [fan.nc(def_={"units": u}) for u in (0, 1)]
    one = fan.run(ctx, [["convert", 1, t, c["kind"]] for t in c["lines"]], g=c["g"], want=["tok"], nc_=nc[c["kind"]])
    texts = [" ".join(fan.tokens_text([x]) for x in r["tok"]) for r in one]
    two = fan.run(ctx, [["convert", 1, t, back] for t in texts], g=c["g"], want=["tok"], nc_=nc[back])
    n = 0
    for line, t, a, b in zip(c["lines"], texts, one, two):
        if not a["ok"]:
            continue
        if not b["ok"]:
            if expected(c["g"], t, ["metric", "imperial"][back]) is None:
                continue  # a value too large for the other system's table
            raise Violation("%r converted to %r, which is rejected: %s" % (line, t, b["msg"]), sig="unreadable")
        o = expected(c["g"], line, ["metric", "imperial"][c["kind"]])
        if o is None:
            continue
        if len(o) != len(b["tok"]):
            raise Violation("%r -> %r -> %s" % (line, t, b["tok"]), sig="shape")
        for x, y in zip(o, b["tok"]):
            if x[0] != "D" or x[6] is None or x[1] == "G" and int(x[6]) in (20, 21):
                continue
            if x[1] != y[1] or x[2:6] != list(y[2:6]):
                raise Violation("%r -> %r -> %s: %s became %s" % (line, t, fan.tokens_text(b["tok"]), x, y), sig="word")
            tol = Fraction(0)
            for k, f in ((["imperial", "metric"][c["kind"]], IN if c["kind"] == 0 else 1 / IN),
                         (["imperial", "metric"][back], Fraction(1))):
                w = d[k].get(x[1])
                if w is not None and w[6] in (4, 5):
                    tol += f / (2 * 10 ** (len(str(w[4])) if w[4] else 0))
            if abs(number(x) - number(y)) > tol + number(x) / 10 ** 11:
                raise Violation("%r -> %r -> %s: %s came back as %s" % (line, t, fan.tokens_text(b["tok"]), x, y),
                                sig="drift")
            n += tol > 0
    return n > 0


val = st.one_of(st.integers(0, 400).map(str), st.integers(0, 99999).map(lambda v: "%.2f" % (v / 100)),
                st.integers(0, 9999999).map(lambda v: "%.4f" % (v / 10000)),
                st.sampled_from(["25.4", "1", "0", "0.0001", "1.", ".5", "00.5", "12.7", "0.05", "127", "254.000",
                                 "99.99999", "0.00001", "3.93701", "1.0", "100", "20", "1000"]))


@st.composite
def conv_word(draw):
    k = draw(st.integers(0, 15))
    if k < 10:
        w = draw(st.sampled_from("XXYYZZIJKRFQUVWPSHCA"))
        return w + draw(st.sampled_from(["", "", "-", "+"])) + draw(val)
    if k < 13:
        return "G" + draw(st.sampled_from(["0", "1", "20", "21", "4", "04", "68", "68.2", "68.3", "68.4", "68.1", "68.5", "90", "2", "020", "54.1",
                                           "021", "#4"]))
    return draw(st.sampled_from(["M3", "N10", "(X25.4)", "X#1", "X[#1+25.4]", "/2", "Y-#3", "T1", "M30", "F#5", "X", "#1=25.4", "/",
                                 "(inch)", ",C1.5", ",R2"]))


@st.composite
def conv_case(draw):
    lines = []
    for _ in range(draw(st.integers(1, 6))):
        ws = draw(st.lists(conv_word(), min_size=1, max_size=6))
        seen, out = set(), []
        for w in ws:
            if w[0] in "XYZIJKRFQUVWPSHCA" and w[0] in seen and draw(st.integers(0, 9)):
                continue
            seen.add(w[0])
            out.append(w)
        lines.append(draw(st.sampled_from(["/", "", "", "", "N5 ", "(a)"])) + draw(st.sampled_from([" ", ""])).join(out))
    return {"g": draw(gen.grammar_id), "kind": draw(st.integers(0, 1)), "lines": lines}


META = dict(
    title="Unit conversion converts exactly the lengths and feeds, to the last decimal",
    statement="Converting a valid block between metric and imperial multiplies every numeric word that the target "
              "table types as length or feed by the exact factor, rounded to the table's decimals without trailing "
              "zeros, sign kept, swaps G20/G21, and changes nothing else: no other words, comments, variables or "
              "expressions, no dwell block (from G4 on), no I J K R of a G68 rotation, no optional block; converting "
              "there and back returns every value within the rounding of the two tables.",
    over=["inputs"],
    over_text="every valid block of every shipped word table and a reference one, both directions",
    why="The tests convert a dozen blocks; rounding carries, values without digits around the point, word tables with "
        "different decimals and words that merely look like lengths are not sampled.",
    files=["parser/fanuc/UnitConverter.cpp", "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("conversion", "UnitConverterVisitor"), ("words of a table", "UnitConverter::cache_grammar")],
    observe="tokens returned by convert_length",
    technique="differential testing against exact rational arithmetic, and round trips",
    design="tokens of the block come from the reference recogniser; each is compared with its converted counterpart "
           "in exact fractions (`blocks`); `roundtrip` converts there and back as text.",
    note="An optional block (leading /) is left in its old units by the tool: taken as intended, as it is explicit in "
         "the source. A converted value too large for the target table is written out all the same.")


class P25(Check):
    id = "P25"
    rule = "at least one word or unit code is converted"

    def subs(self):
        return [Sub("blocks", conv_case(), check_blocks, 5000, 500000),
                Sub("roundtrip", conv_case(), check_roundtrip, 2500, 250000)]


CHECK = P25()
