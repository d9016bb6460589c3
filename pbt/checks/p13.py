"""A block's verdict, message and tokens depend on the block alone; reported positions point at the offending text."""
import re

from hypothesis import strategies as st

import fan
import gen
from core import Check, Sub, Violation

nomacro = gen.line_text().filter(lambda s: "#" not in s and "20" not in s and "21" not in s)


def history_op(lines):
    return st.one_of(
        st.tuples(st.just("parse"), st.integers(0, 50), lines),
        st.tuples(st.just("parse"), st.integers(0, 50), lines),
        st.tuples(st.just("parse0"), st.integers(0, 50), lines),
        st.tuples(st.sampled_from(["rmnum", "rmcom", "rmopt"]), st.integers(0, 50), lines),
        st.tuples(st.just("convert"), st.integers(0, 50), lines, st.integers(0, 1)),
        st.tuples(st.just("rotate"), st.integers(0, 50), lines, st.integers(0, 8)),
        st.just(("resetmac", True))).map(list)


@st.composite
def hist_case(draw):
    lines = gen.line_text() if draw(st.booleans()) else nomacro
    mac = lines is nomacro
    return {"g": draw(gen.grammar_id), "set": [mac, draw(st.booleans()) and mac, False, False, False],
            "lang": draw(st.integers(0, 1)), "sl": draw(st.booleans()),
            "hist": draw(st.lists(history_op(lines), min_size=1, max_size=6)), "line": draw(lines),
            "n1": draw(st.integers(0, 1000)), "n2": draw(st.integers(0, 1000))}


state_line = st.one_of(
    st.sampled_from(["#1=2", "#1=[1+2]", "#1=2+3", "#2=[[1]*2", "#3=", "X[1+", "X[[1+2]", "X[1]]", "IF[1GT2]", "G1 X[",
                     "WHILE[1LT2", "N5", "/2 X1", "/", "X1 F", "(open", "%", "O12", "G1 X1 X2", "#1", "#[1", "SIN[1]",
                     "X-[1]", "X1 Y", "G1.1.1", "N1 N2"]),
    gen.line_text())
probe_line = st.one_of(
    st.builds(lambda a, w, b, o, z: a + w + b + o + z, st.sampled_from(["", "G1 ", "N5 ", "/", "/2 ", "#1="]),
              st.sampled_from(["X1", "X[1]", "#1", "Y-2.5", "X", "", "SIN[1]"]), st.sampled_from(["", " "]),
              st.sampled_from(["+5", "-2", "*2", "/2", "]", "[1]", "[", "=", "=1", "GT1", "+", "/", ".5", ""]),
              st.sampled_from(["", "", " Y1", "]", " X1", "+1"])),
    gen.line_text())


@st.composite
def state_case(draw):
    """Blocks whose parsing counts brackets, divisions and definitions, then one in which those counts matter."""
    return {"g": draw(gen.grammar_id), "set": [False, False, False, False, False], "lang": 0, "sl": False,
            "hist": [["parse", n, l] for n, l in enumerate(draw(st.lists(state_line, min_size=1, max_size=4)), 1)],
            "line": draw(probe_line.filter(lambda s: "20" not in s and "21" not in s)), "n1": 1, "n2": 9}


def check_history(ctx, c):
    kw = dict(g=c["g"], set_=c["set"], lang=c["lang"], sl=c["sl"], want=["tok"])
    probe1, probe2 = ["parse", c["n1"], c["line"]], ["parse", c["n2"], c["line"]]
    a = fan.run(ctx, [probe1], **kw)[0]
    r = fan.run(ctx, c["hist"] + [probe2, probe2], **kw)
    for b, what in ((r[-2], "after a history"), (r[-1], "when repeated")):
        if (a["ok"], a["msg"], a["tok"]) != (b["ok"], b["msg"], b["tok"]):
            raise Violation("block %r gives %s on a fresh parser but %s %s of %s" % (c["line"], a, b, what, c["hist"]),
                            sig="history")
    ctx.label("valid" if a["ok"] else "invalid")
    return any(x["ok"] != a["ok"] or not x["ok"] for x in r[:-2])


POS = re.compile(r"^(\d+):(\d+): (.*?)( <- .*)?$", re.S)


def column(text, index):
    """1-based column of text[index], tabs advancing to multiples of four."""
    col = 1
    for ch in text[:index]:
        col += 4 - (col - 1) % 4 if ch == "\t" else 1
    return col


def check_position(ctx, c):
    r = fan.run(ctx, [["parse", 7, l] for l in c["lines"]], g=c["g"])
    hit = False
    for l, x in zip(c["lines"], r):
        if x["ok"] or not x["msg"] or not re.match(r"^\d+:\d+: ", x["msg"]):
            continue
        rest = x["msg"].split(": ", 1)[1]
        line, col = x["msg"].split(":")[:2]
        if line != "1":
            raise Violation("block %r: a one-line text reported on line %s" % (l, line), sig="line")
        ok = [i for i in range(len(l) + 1) if column(l, i) == int(col) and
              (rest == l[i:] or rest.startswith(l[i:] + " <- "))]
        if not ok:
            raise Violation("block %r: reported column %s does not start the quoted rest %r" % (l, col, rest),
                            sig="column")
        # the prefix up to the reported place must itself be acceptable or open, never the place past a bad character
        hit = hit or int(col) > 1
        ctx.label("positions")
    return hit


pos_case = st.fixed_dictionaries({"g": gen.grammar_id, "lines": st.lists(
    st.one_of(gen.line_text(), st.builds(lambda a, b, d: a + b + d, gen.line_text(),
                                         st.sampled_from([";", "x", "G1.1.", "(", "Q]", "X", "//"]), gen.line_text()))
    .filter(lambda s: "\n" not in s and "\r" not in s), min_size=1, max_size=5)})

META = dict(
    title="A block's verdict depends on the block alone, and errors point into it",
    statement="Outside of macro variables and of the unit system, accepting a block, its message and its words do not "
              "depend on what was parsed before (rejected blocks included), on its line number or on repeating it; "
              "when a message names a position, the text from that column on is exactly the text it quotes.",
    over=["histories", "inputs"],
    over_text="every history of up to 6 operations on one parser followed by any block, compared with a fresh parser",
    why="Each test case uses a fresh parser and one block, so state left behind by a rejected or macro block is never "
        "observed.",
    files=["parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/AllAttributesParserGrammar.h"],
    mechanism=[("status and message cleared per block", "all_attributes_grammar::clear_message"),
               ("position in the message", "expectation_failure handlers of parse and simple_parse")],
    observe="return value, message and tokens of parse",
    technique="metamorphic testing (fresh parser versus parser with a history) over generated histories",
    design="metamorphic relation: the same block, same settings, on a fresh parser and after a generated history of "
           "accepted and rejected blocks and other operations, with another line number and twice in a row, must give "
           "identical verdict, message and tokens; a second generator aims at the state a block can leave (open brackets, divisions, definitions) with a probe in which it matters; a position oracle maps the reported column back to the text.",
    note="Macro blocks are covered only with macro evaluation off (their meaning legitimately depends on history); unit "
         "switches are P11's. Column counting expands tabs to four, as the reported columns do.")


class P13(Check):
    id = "P13"
    rule = "history: at least one earlier operation was rejected or differs in verdict; position: a column above 1"

    def subs(self):
        return [Sub("history", hist_case(), check_history, 5000, 500000),
                Sub("state", state_case(), check_history, 5000, 500000),
                Sub("position", pos_case, check_position, 3000, 300000)]


CHECK = P13()
