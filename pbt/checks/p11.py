"""The block language: verdict and tokens against a reference recogniser driven by the word table."""
from hypothesis import strategies as st

import fan
import gen
import grammars
from core import Check, Sub, Violation
from models.grammar import Recogniser

_rec = {}


def recogniser(g, unit="metric"):
    if (g, unit) not in _rec:
        d = grammars.ALL()[g]
        _rec[(g, unit)] = Recogniser(d[unit], d["ops"])
    return _rec[(g, unit)]


def expected(g, line, unit="metric"):
    r = recogniser(g, unit)
    t = r.parse(line)
    if t is not None and r.duplicate(t):
        return None
    return t


def compare(ctx, g, line, got, unit="metric", tok=True):
    want = expected(g, line, unit)
    if (want is not None) != got["ok"]:
        raise Violation("grammar %s (%s): block %r is %s by its word table but was %s (%s)" % (
            g, unit, line, "valid" if want is not None else "invalid", "accepted" if got["ok"] else "rejected",
            got.get("msg")), sig="verdict")
    if want is not None and tok and want != [list(t) for t in got["tok"]]:
        raise Violation("grammar %s: block %r was read as %s, expected %s" % (g, line, got["tok"], want), sig="tokens")
    ctx.label("valid" if want is not None else "invalid")
    return want is not None


def check_lines(ctx, c):
    ls = [str(x) for x in c["lines"]]
    r = fan.run(ctx, [["parse", 1, l] for l in ls], g=c["g"], want=["tok"])
    for l, x in zip(ls, r):
        compare(ctx, c["g"], l, x)
    return any(l.strip() for l in ls)


lines = st.fixed_dictionaries({"g": gen.grammar_id, "lines": st.lists(gen.line_text(), min_size=1, max_size=6)})


def around(v):
    return [v - 1, v, v + 1, v * 10]


@st.composite
def limit_word(draw, g):
    d = grammars.ALL()[g]["metric"]
    w = draw(st.sampled_from(sorted(d)))
    _, lo, hi, dlo, dhi, _, typ = d[w]
    v = draw(st.one_of(st.sampled_from(around(abs(lo)) + around(hi) + [0, 1]), st.integers(0, max(1, hi))))
    s = draw(st.sampled_from(["", "", "-", "+"]))
    if lo < 0 and draw(st.booleans()):
        s = "-"
    t = str(max(v, 0))
    if draw(st.integers(0, 7)) == 0:
        t = "0" * draw(st.integers(1, 3)) + t
    k = draw(st.integers(0, 5))
    if k == 0:
        t += "."
    elif k in (1, 2, 3):
        f = draw(st.one_of(st.sampled_from([str(max(x, 0)) for x in around(dhi) + [0, 1]]),
                           st.integers(0, 99999).map(str)))
        t += "." + draw(st.sampled_from(["", "", "0", "00"])) + f
    elif k == 4 and draw(st.booleans()):
        t = "." + t[:4]
    if draw(st.integers(0, 9)) == 0:
        t = ""
    if draw(st.integers(0, 9)) == 0:
        t = "#" + t
    return w + ("=" if typ == 8 and draw(st.integers(0, 5)) else "") + s + t


@st.composite
def limit_case(draw):
    g = draw(gen.grammar_id)
    out = []
    for _ in range(draw(st.integers(1, 6))):
        ws = draw(st.lists(limit_word(g), min_size=1, max_size=4))
        out.append(draw(st.sampled_from(["", " "])).join(ws))
    return {"g": g, "lines": out}


@st.composite
def mutant_case(draw):
    """A plausible block with a few characters inserted, removed, replaced or doubled."""
    g = draw(gen.grammar_id)
    s = draw(gen.line_text())
    out = [s]
    for _ in range(draw(st.integers(1, 5))):
        i = draw(st.integers(0, max(0, len(s))))
        ch = draw(st.sampled_from("GXYZ#[]=+-*/.,%:()0123456789 \tO;x"))
        k = draw(st.integers(0, 3))
        s = (s[:i] + ch + s[i:], s[:i] + s[i + 1:], s[:i] + ch + s[i + 1:], s[:i] + s[i:i + 3] + s[i:])[k]
        out.append(s)
    return {"g": g, "lines": out}


@st.composite
def bracket_case(draw):
    """Macro statements and bracketed words: the counters that make an operator or ']' legal."""
    g = draw(gen.grammar_id)
    out = []
    for _ in range(draw(st.integers(1, 5))):
        n = draw(st.integers(0, 10))
        s = draw(st.sampled_from(["", "#1=", "#1 = ", "X", "X[", "#[", "IF[", "#1", "N1/", "/2"]))
        for _ in range(n):
            s += draw(st.sampled_from(["[", "]", "#1", "#2", "1", "2.5", "+", "-", "*", "/", "[1", "1]", "+1", "-#2",
                                       "*[2", "]/", "/2", "/[1+", "SIN[", "]]", " ", "X", "=", ".5"]))
        out.append(s)
    return {"g": g, "lines": out}


@st.composite
def nested(draw, depth=0):
    """A well-formed bracket expression; nested brackets often close together."""
    a = draw(st.sampled_from(["1", "2.5", "#1", "3"]))
    if depth >= 3:
        return "[" + a + "]"
    inner = draw(st.one_of(st.just(a), nested(depth + 1)))
    pre = draw(st.sampled_from(["", "", "1+", "2*", "SIN"])) if inner[0] == "[" else ""
    post = draw(st.sampled_from(["", "", "", "+2", "/2", "-1", "*3"]))
    return "[" + pre + inner + post + "]"


@st.composite
def nested_case(draw):
    """Brackets that open and close properly, followed by what is legal only inside them or in a definition."""
    out = []
    for _ in range(draw(st.integers(1, 4))):
        s = draw(st.sampled_from(["", "", "#1=", "G1", "IF", "N5 ", "/2 "]))
        for _ in range(draw(st.integers(1, 3))):
            s += draw(st.sampled_from(["X", "Z", "#", "Y-", "F", ""])) + draw(nested())
            s += draw(st.sampled_from(["", "", "+3", "/2", "*2", "-1", "]", "+[1]", "[", " ", "GT", "X1", "+#2"]))
        if draw(st.integers(0, 7)) == 0:
            i = draw(st.integers(0, len(s) - 1))
            s = s[:i] + s[i + 1:]
        out.append(s)
    return {"g": draw(gen.grammar_id), "lines": out}


def check_unit(ctx, c):
    """After a block with G20/G21 the limits of the chosen system apply, whatever happened before."""
    ops, want = [], []
    unit = ["metric", "imperial"][c["start"]]
    for k in c["steps"]:
        if k in ("G20", "G21"):
            ops.append(["parse", len(ops) + 1, k])
            want.append(None)
            unit = "imperial" if k == "G20" else "metric"
        else:
            ops.append(["parse", len(ops) + 1, k])
            want.append(unit)
    r = fan.run(ctx, ops, g=c["g"], set_=[True, False, False, False, False], want=["tok"],
                nc_=fan.nc(def_={"units": c["start"]}))
    n = 0
    for o, x, u in zip(ops, r, want):
        if u is None:
            if not x["ok"]:
                raise Violation("block %s rejected: %s" % (o[2], x["msg"]), sig="unit switch rejected")
            continue
        compare(ctx, c["g"], o[2], x, u, tok=False)
        d = grammars.ALL()[c["g"]]
        w = o[2][:1]
        n += d["metric"].get(w) != d["imperial"].get(w)
    return n > 0


@st.composite
def unit_word(draw, g):
    d = grammars.ALL()[g]
    ws = sorted(w for w in d["metric"] if d["metric"][w][6] in (4, 5) and w in d["imperial"])
    w = draw(st.sampled_from(ws))
    m, i = d["metric"][w], d["imperial"][w]
    v = draw(st.sampled_from([m[2], i[2], m[2] + 1, i[2] + 1, 1]))
    f = draw(st.sampled_from(["", ".%d" % m[4], ".%d" % i[4], ".%d" % (m[4] + 1), ".%d" % (i[4] + 1), ".5"]))
    return w + str(v) + f


@st.composite
def unit_case(draw):
    g = draw(gen.grammar_id)
    return {"g": g, "start": draw(st.integers(0, 1)),
            "steps": draw(st.lists(st.one_of(st.sampled_from(["G20", "G21"]), unit_word(g), unit_word(g)), min_size=1,
                                   max_size=8))}


META = dict(
    title="A block is accepted exactly when its words obey the configured word table",
    statement="A block is accepted if and only if it is a sequence of known words, comments, program name, optional-"
              "block marks and macro operators whose numbers lie within the limits (integer part, decimals, uniqueness) "
              "the active unit system's word table gives for that word; an accepted block yields exactly its words, in "
              "order, with every character of their values.",
    over=["inputs", "configurations"],
    over_text="all block texts (structured, mutated, boundary and arbitrary) under every shipped word table and a "
              "reference table, in both unit systems",
    why="Tests sample a few accepted and rejected blocks with one hand-written table; limits, bracket counters and word "
        "boundaries interact over unboundedly many texts and 11 shipped tables.",
    files=["parser/fanuc/AllAttributesParserGrammar.h", "parser/fanuc/AllAttributesParser.cpp",
           "parser/fanuc/UniqueCode.cpp", "parser/fanuc/GrammarSelector.cpp", "conf/*/grammar.json"],
    mechanism=[("word/number grammar", "all_attributes_grammar"), ("limits per word", "verify_range"),
               ("symbols from the table", "AllAttributesParser::build_symbols"),
               ("repeated words", "UniqueCode"), ("unit system of the table", "AllAttributesParser::select_grammar")],
    observe="verdict and token list of AllAttributesParser::parse",
    technique="differential testing of verdict and tokens against an independent reference recogniser",
    design="differential search against `models/grammar.py`, a hand-written recogniser driven by the same word table "
           "(no parser generator involved). Six generators: mixed text, numbers at and one past every limit of every "
           "word of every table, one-character mutants, bracket/operator soup, well-formed nested brackets followed by operators, and unit-switch histories that must be "
           "judged by the imperial or metric limits in force.",
    note="The recogniser defines the language (brackets may stay open, as the control continues); agreement is sampled. "
         "Error texts are not compared here.")


class P11(Check):
    id = "P11"
    rule = "a case with at least one non-blank block (for unit histories: a word whose limits differ by unit system)"

    def subs(self):
        return [Sub("mixed", lines, check_lines, 3000, 300000),
                Sub("limits", limit_case(), check_lines, 4000, 400000),
                Sub("mutants", mutant_case(), check_lines, 3000, 300000),
                Sub("brackets", bracket_case(), check_lines, 2500, 250000),
                Sub("nested", nested_case(), check_lines, 4000, 400000),
                Sub("units", unit_case(), check_unit, 2000, 150000)]


CHECK = P11()
