"""Heidenhain blocks."""
from hypothesis import strategies as st

import fan
from core import Check, Sub, Violation
from models import heidenhain as hh


def got_tokens(r):
    out = []
    for t in r["tok"]:
        t = [t[0]] + list(t[2:])
        out.append(t)
    return out


def write(e):
    """The text of an element."""
    if e[0] == "N":
        return str(e[1])
    if e[0] == ";":
        return ";" + e[2] + e[3]
    if e[0] == "P":
        return "%s PGM %s %s" % (["BEGIN", "END"][e[1]], e[2], ["MM", "INCH"][e[3]])
    if e[0] == "C":
        return "CYCL %s %s" % (e[2], "".join(x or "" for x in e[3:]))
    if e[0] == "Q":
        return "Q%d = %s" % (e[2], "".join(x or "" for x in e[4:]))
    return e[1] + " " + "".join(x or "" for x in e[2:])


def judge(ctx, lines):
    rs = ctx.driver.request({"t": "case", "api": "hh", "set": [False] * 5, "lang": 0, "sl": True,
                             "ops": [["parse", i + 1, t] for i, t in enumerate(lines)]})["r"]
    n = 0
    for t, r in zip(lines, rs):
        if "exc" in r:
            raise Violation("exception escaped the parser on %r: %s" % (t, r["exc"]), sig="exc " + r["exc"])
        try:
            want, at = hh.parse(t), None
        except hh.Reject as e:
            want, at = None, e.args[0]
        if (want is not None) != r["ok"]:
            raise Violation("%r is %s but was %s (%s)" % (t, "no valid block" if want is None else "a valid block",
                                                          "accepted" if r["ok"] else "rejected", r["msg"]),
                            sig="verdict")
        if want is None:
            if not r["msg"]:
                raise Violation("%r is rejected without a message" % t, sig="silent")
            if "\t" not in t and r["msg"] != "1:%d: %s" % (at + 1, t[at:]):
                raise Violation("%r: error %r, expected one at column %d" % (t, r["msg"], at + 1), sig="place")
            continue
        if r["msg"]:
            raise Violation("%r is accepted with the message %r" % (t, r["msg"]), sig="message")
        if got_tokens(r) != want:
            raise Violation("%r was read as %s, expected %s" % (t, got_tokens(r), want), sig="elements")
        n += 1
    return n > 0


def check_lines(ctx, c):
    return judge(ctx, [t for t in c["lines"] if not any(x in t for x in "\n\r")])


def check_write(ctx, c):
    """What was read, written down again, reads the same; blanks between elements do not matter."""
    texts, first = [], []
    for t in c["lines"]:
        try:
            e = hh.parse(t)
        except hh.Reject:
            continue
        if any(x in t for x in "\n\r"):
            continue
        first.append(t)
        texts.append(c["sep"].join(write(x) for x in e))
    if not texts:
        return False
    rq = {"t": "case", "api": "hh", "set": [False] * 5, "lang": 0, "sl": True}
    a = ctx.driver.request(dict(rq, ops=[["parse", 1, t] for t in first]))["r"]
    z = ctx.driver.request(dict(rq, ops=[["parse", 1, t] for t in texts]))["r"]
    for t, u, x, y in zip(first, texts, a, z):
        if not y["ok"] or got_tokens(x) != got_tokens(y):
            raise Violation("%r was read as %s; written as %r it is read as %s (%s)" % (
                t, got_tokens(x), u, got_tokens(y), y["msg"]), sig="write")
    return True


num = st.one_of(st.integers(0, 999).map(str), st.sampled_from(["0", "12.5", ".5", "3.", "0.001", "-4.2", "+10", "-0", "",
                                                               "+Q5", "-Q12", "Q1", "99999999999", "+", "00.100"]))
word = st.sampled_from(["L", "X", "Y", "Z", "C", "CC", "CP", "CR", "CT", "FMAX", "F", "M", "R0", "RL", "RR", "DR", "IX",
                        "TOOL", "CALL", "DEF", "LBL", "REP", "BLK", "FORM", "S", "HSC-MODE:", "P01", "K1X", "P1Y",
                        "PROF.", "FN", "#", "=", "\"AB1\"", "P0", "K1", "SEL", "PGM", "IF", "GOTO", "Z/", "LN", "NX",
                        "P08", "\"A B\"", "\"\"", "\"A"])


@st.composite
def element(draw):
    k = draw(st.integers(0, 13))
    if k < 7:
        return draw(word) + draw(st.sampled_from(["", "", " "])) + draw(num) + draw(st.sampled_from(["", "", "", "~", " ~"]))
    if k == 7:
        return "CYCL%s%s%s%s" % (draw(st.sampled_from([" ", "  ", "", "E "])), draw(st.sampled_from(["DEF", "CALL", "DE", ""])),
                                 draw(st.sampled_from([" ", "", "  "])), draw(num))
    if k in (8, 9):
        return "Q%s%s=%s%s" % (draw(st.sampled_from(["1", "200", "", "1206", "99999999999", "5"])),
                               draw(st.sampled_from(["", " "])), draw(st.sampled_from(["", " ", "  "])), draw(num))
    if k == 10:
        return ";" + draw(st.sampled_from(["", "text", " a comment ", "x~", "~", "a~b", "; ;", "\xff\x80", "(X)"]))
    if k == 11:
        return "%s%sPGM%s%s%s%s" % (draw(st.sampled_from(["BEGIN", "END", "BEGI"])), draw(st.sampled_from([" ", "  ", ""])),
                                    draw(st.sampled_from([" ", "\t", ""])), draw(st.sampled_from(["a_1", "P", "", "1", "MM", "x-y"])),
                                    draw(st.sampled_from([" ", "  ", ""])), draw(st.sampled_from(["MM", "INCH", "M", "MMX"])))
    if k == 12:
        return draw(st.sampled_from(["L X+10 Y-5.5 FMAX M3", "CC X+0 Y+0", "TOOL CALL 5 Z S2000", "BLK FORM 0.1 Z X-50 Y-50 Z-20",
                                     "CYCL DEF 200 ~", "Q200=+2 ;SET-UP", "CR X+5 R+3 DR-", "LBL 0", "FN 0: Q1 = +5"]))
    return draw(st.text(alphabet="ABCDEFQXYZ0123456789 .+-=~;:/#\"_\t\xc3", max_size=8))


@st.composite
def line(draw):
    n = draw(st.sampled_from(["", "", "5 ", "12 ", "0  ", "7", "4294967295 ", "4294967296 ", " 3\t", "12.5 ", "-1 "]))
    sep = draw(st.sampled_from([" ", " ", "", "  ", "\t"]))
    s = n + sep.join(draw(st.lists(element(), min_size=0 if not n else 1, max_size=5)))
    if draw(st.integers(0, 3)) == 0 and s:
        i = draw(st.integers(0, len(s)))
        ch = draw(st.sampled_from("QXMD0159 .+-=~;:/#\"_"))
        s = draw(st.sampled_from([s[:i] + ch + s[i:], s[:i] + s[i + 1:], s[:i] + ch + s[i + 1:]]))
    return s


case = st.fixed_dictionaries({"lines": st.lists(line(), min_size=1, max_size=8)})
wcase = st.fixed_dictionaries({"lines": st.lists(line(), min_size=1, max_size=8),
                               "sep": st.sampled_from([" ", "  ", "\t", " \t "])})

META = dict(
    title="A Heidenhain block is read by its grammar, element by element",
    statement="The Heidenhain parser accepts exactly the blocks of its language (block number, program begin and end, "
              "cycle definitions and calls, Q parameters, comments, general words) and returns their elements in order "
              "with every sign, point and digit; a rejected block is reported with the column and text where reading "
              "stopped; parses do not influence each other; elements written down again read the same.",
    over=["inputs"],
    over_text="lines of generated elements, mutated lines and arbitrary text, several per parser",
    why="The tests give a hundred blocks; order of alternatives, partial matches (END in a word, CYCL without blank) and "
        "backtracking show on unusual lines only.",
    files=["parser/heidenhain/AllAttributesParserGrammar.h", "parser/heidenhain/AllAttributesParser.cpp"],
    mechanism=[("grammar", "all_attributes_grammar and its parts"), ("messages", "AllAttributesParser::parse")],
    observe="verdict, elements, message of parse",
    technique="differential testing against a hand-written recogniser; write and read again",
    design="`lines` compares verdict, elements, column of the error; `write` prints the elements and parses again.",
    note="Signed numbers of Q parameters are taken as the grammar takes them.")


class P31(Check):
    id = "P31"
    rule = "at least one line is a valid block"

    def subs(self):
        return [Sub("lines", case, check_lines, 5000, 500000), Sub("write", wcase, check_write, 2500, 250000)]


CHECK = P31()
