"""Shared generators.  All randomness comes from Hypothesis."""
from hypothesis import strategies as st

import fan
import grammars

G_CODES = ["0", "1", "2", "3", "4", "17", "18", "19", "20", "21", "28", "40", "41", "43", "53", "54", "54.1", "65",
           "68", "73", "74", "76", "80", "81", "82", "83", "84", "85", "86", "87", "88", "89", "90", "91", "92", "94",
           "95", "96", "97", "98", "99", "00", "01", "02", "03", "5.1", "12.1", "7.1", "107"]
M_CODES = ["0", "1", "2", "3", "4", "5", "6", "7", "8", "9", "19", "30", "60", "98", "99", "03", "06", "29"]
AXES = ["X", "Y", "Z", "I", "J", "K", "R", "U", "V", "W", "A", "B", "C"]
OTHER = ["F", "S", "T", "H", "D", "P", "Q", "L", "E"]
FUNCS = ["SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "LOG", "LN", "EXP", "BIN",
         "BCD", "SINH"]
BINOPS = ["+", "-", "*", "/", "OR", "XOR", "AND", "MOD", "EQ", "NE", "GT", "GE", "LT", "LE"]
ALPHABET = "GMXYZNFSTIJKRQLPUO#[]=+-*/.,%:()0123456789 \tABCDEH"

small_int = st.integers(0, 400)
int_text = st.one_of(st.integers(0, 12).map(str), small_int.map(str), st.integers(0, 120000).map(str),
                     st.sampled_from(["0", "00", "007", "999", "1000", "9999", "10000", "99999", "100000",
                                      "2147483647", "2147483648", "99999999999999999999"]))
frac_text = st.one_of(st.sampled_from(["", "", ".", ".0", ".5", ".25", ".125", ".001", ".0001", ".9999", ".10000",
                                       ".99999", ".12345678"]),
                      st.integers(0, 9999).map(lambda v: ".%d" % v))
sign_text = st.sampled_from(["", "", "", "-", "+"])


@st.composite
def number(draw):
    return draw(sign_text) + draw(int_text) + draw(frac_text)


sane_number = st.builds(lambda s, i, f: s + i + f, sign_text, small_int.map(str),
                        st.sampled_from(["", ".", ".5", ".25", ".125", ".0", ".001"]))


@st.composite
def expr_text(draw, depth=3):
    """Macro expression text, mostly well formed."""
    k = draw(st.integers(0, 9))
    if depth == 0 or k < 3:
        return draw(st.one_of(sane_number, st.integers(1, 40).map(lambda i: "#%d" % i), number()))
    if k < 5:
        return draw(st.sampled_from(FUNCS)) + "[" + draw(expr_text(depth - 1)) + "]"
    if k < 8:
        return draw(expr_text(depth - 1)) + draw(st.sampled_from(BINOPS)) + draw(expr_text(depth - 1))
    return "[" + draw(expr_text(depth - 1)) + "]"


@st.composite
def word_text(draw):
    k = draw(st.integers(0, 19))
    if k < 4:
        return "G" + draw(st.sampled_from(G_CODES))
    if k < 6:
        return "M" + draw(st.sampled_from(M_CODES))
    if k < 13:
        return draw(st.sampled_from(AXES)) + draw(st.one_of(sane_number, sane_number, number()))
    if k < 16:
        return draw(st.sampled_from(OTHER)) + draw(st.one_of(sane_number, sane_number, number()))
    if k == 16:
        return draw(st.sampled_from(AXES + OTHER + ["G", "M", "N", "#"])) + draw(
            st.sampled_from(["#1", "#2", "#100", "[#1+1]", "-#3", "[#2*2]", "+[1]", "", "-", "[", "]", "#", "#0"]))
    if k == 17:
        return "N" + draw(int_text)
    if k == 18:
        return draw(st.sampled_from(["(comment)", "( a b )", "()", "(x", ",C1.", ",R2", "C2=5", "S2=100", "A2=#1",
                                     "GOTO10", "%", "O1234", "OABC DEF", "/", "/2", ":10", " ", "\t", "DO1", "END1",
                                     "WHILE[#1LT5]DO1", "IF[#1EQ1]GOTO5", "IF[#1EQ1]THEN#2=3", ","]))
    return draw(st.sampled_from(["=", "+", "*", "[", "]", ";", "g1", "x", "\x00", "\xff", "."]))


@st.composite
def line_text(draw):
    k = draw(st.integers(0, 9))
    if k < 6:
        ws = draw(st.lists(word_text(), min_size=0, max_size=6))
        sep = draw(st.sampled_from(["", " ", "  "]))
        return sep.join(ws)
    if k < 8:
        return "#%s=%s" % (draw(st.integers(1, 40)), draw(expr_text()))
    if k == 8:
        return draw(st.text(alphabet=ALPHABET, max_size=30))
    return draw(st.text(alphabet=st.characters(min_codepoint=0, max_codepoint=255), max_size=20))


bools5 = st.lists(st.booleans(), min_size=5, max_size=5)
num = st.one_of(st.integers(0, 1000).map(float), st.sampled_from([0.0, 0.5, 1e-3, 12345.678]))


@st.composite
def nc_any(draw):
    """Any machine settings, including the unusual ones."""
    r = st.integers(-600, 600).map(float)
    ax = draw(st.sampled_from([["X", "Y", "Z"], ["X", "Y", "Z", "A"], ["X", "Z"], ["X", "Y", "Z", "B", "C"]]))
    axes = {}
    for a in ax:
        lo, hi = sorted([draw(r), draw(r)])
        axes[a] = [lo, hi]
    pt = {k: draw(r) for k in draw(st.sampled_from([["X", "Y", "Z"], ["X", "Y", "Z", "I", "J", "K"], ["X", "Z"]]))}
    tl = {k: draw(r) for k in pt}
    b = st.booleans()
    d = {"motion": draw(st.integers(0, 1)), "plane": draw(st.integers(17, 19)), "units": draw(st.integers(0, 1)),
         "prog": draw(st.sampled_from([90, 91])), "feed": draw(st.sampled_from([94, 95])),
         "rotdir": draw(st.sampled_from([3, 4, 5])), "depth": draw(st.integers(0, 1)),
         "ret": draw(st.sampled_from([98, 99])), "rot": draw(st.sampled_from([0, 1, 500])), "c0": draw(b),
         "c1": draw(b), "c2": draw(b), "c3": draw(b), "c80rapid": draw(b), "oprot": draw(b), "texch": draw(b),
         "autorapid": draw(b)}
    n = fan.nc(mt=draw(st.integers(0, 22)), mtt=draw(st.integers(0, 2)), axes=axes, base=pt, tool=tl,
               mwf=draw(num), mff=draw(num), mss=draw(st.integers(0, 20000)), items=draw(st.integers(0, 40)),
               tet=draw(st.integers(0, 20)), pet=draw(st.integers(0, 20)), tmt=draw(st.integers(0, 20)),
               dia=draw(b), ameas=draw(b),
               pec=draw(st.sampled_from([["M", "60"], ["M", "06"], ["", ""], ["G", "37"]])),
               tmc=draw(st.sampled_from([["G", "37"], ["M", "50"], ["", ""]])),
               zp=draw(st.lists(r, min_size=3, max_size=3)), def_=d)
    return n


grammar_id = st.sampled_from(["ref", "ref", "fanuc_mill"] + grammars.PARSER_TYPES)

coord = st.one_of(st.integers(-60, 60).map(str), st.integers(-600, 600).map(lambda v: "%.1f" % (v / 10)),
                  st.sampled_from(["0", "10", "-10", "5", "7.0711", "-5", "20", "0.", "1000"]))



@st.composite
def nc_good(draw):
    """A plausible machine: wide travels, usual limits, every modal default."""
    b = st.booleans()
    d = {"motion": draw(st.integers(0, 1)), "plane": draw(st.sampled_from([17, 17, 18, 19])), "units": 0,
         "prog": draw(st.sampled_from([90, 90, 91])), "feed": draw(st.sampled_from([94, 94, 95])),
         "rotdir": draw(st.sampled_from([3, 4, 5])), "depth": draw(st.integers(0, 1)),
         "ret": draw(st.sampled_from([98, 99])), "rot": draw(st.sampled_from([0, 500])), "c0": draw(b),
         "c1": draw(b), "c2": draw(b), "c3": draw(b), "c80rapid": draw(b), "oprot": False,
         "texch": draw(b), "autorapid": draw(b)}
    w = draw(st.sampled_from([100000.0, 500.0]))
    ax = draw(st.sampled_from(["XYZ", "XYZ", "XYZ", "XYZABC", "XZC"]))
    return fan.nc(mt=draw(st.integers(0, 22)), mtt=draw(st.sampled_from([0, 0, 1, 2])),
                  axes={a: [-w, w] for a in ax}, base={"X": 0.0, "Y": 0.0, "Z": 100.0, "I": 0.0, "J": 0.0, "K": 0.0},
                  tool={"X": 10.0, "Y": 10.0, "Z": 100.0}, dia=draw(b), ameas=draw(b), def_=d,
                  tmc=draw(st.sampled_from([["G", "37"], ["M", "50"]])))


nc_mix = st.one_of(nc_good(), nc_good(), nc_good(), nc_any())
pos = st.one_of(st.integers(1, 40).map(str), st.sampled_from(["0.5", "2.5", "12.25", "1", "0", "3."]))


@st.composite
def path_line(draw):
    """A motion-oriented block: arcs, cycles, dwell, tool changes."""
    out = []
    g = draw(st.sampled_from(
        ["0", "1", "1", "2", "2", "3", "3", "4", "28", "73", "74", "76", "80", "81", "82", "83", "84", "85", "86",
         "87", "88", "89", "", "", "", ""]))
    if g:
        out.append("G" + g)
    if draw(st.integers(0, 3)) == 0:
        out.append("G" + draw(st.sampled_from(["17", "18", "19", "90", "91", "94", "95", "96", "97", "98", "99", "20",
                                               "21", "54", "53", "92", "68"])))
    for a in draw(st.lists(st.sampled_from("XYZXYZIJKUC"), unique=True, max_size=6)):
        out.append(a + draw(coord))
    for a, v, p in (("R", pos, 2), ("Q", pos, 2), ("L", st.sampled_from(["1", "2", "5"]), 8),
                    ("P", st.sampled_from(["1000", "0.5", "1.", "2"]), 6),
                    ("F", st.sampled_from(["100", "0.2", "0", "500"]), 2),
                    ("S", st.sampled_from(["1000", "50", "200"]), 3), ("T", st.sampled_from(["1", "2", "0101", "31"]), 6),
                    ("M", st.sampled_from(["3", "6", "30", "5", "60"]), 6)):
        if g in ("73", "76", "83", "87", "74", "81", "82", "84") and a in "RQ":
            p = 1
        if draw(st.integers(0, p)) == 0:
            out.append(a + draw(v))
    if draw(st.integers(0, 9)) == 0:
        out = draw(st.permutations(out))
    return " ".join(out)
