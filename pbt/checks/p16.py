"""A block with macro variables acts exactly as the block with their values written out."""
from hypothesis import strategies as st

import fan
import gen
import grammars
from checks.p11 import recogniser
from core import Check, Discard, Sub, Violation

COORD = [1, 2, 3]
INT = [4, 5]
FEED = [6, 7]
UNSET = [8]
KIND = {**{w: COORD for w in "XYZIJKRUVWQAC"}, **{w: INT for w in "GMTHDPL"}, **{w: FEED for w in "FS"}}

coord_v = st.one_of(st.integers(-40, 40).map(str), st.sampled_from(["0.5", "-2.5", "12.25", "-0.125", "0", "100.001",
                                                                    "-0.0005", "7.0711", "499.9", "99998", "3."]))
int_v = st.sampled_from(["0", "1", "2", "3", "17", "80", "81", "90", "91", "98", "6", "5", "98.0", "1.5", "1000", "-1"])
feed_v = st.sampled_from(["100", "250.5", "500", "1000", "0", "50", "-3", "0.2"])


def value_for(i):
    return coord_v if i in COORD else int_v if i in INT else feed_v


@st.composite
def word(draw):
    w = draw(st.sampled_from("XXYYZZIJKRUQFSGGMTHDPL"))
    ids = KIND[w]
    if draw(st.integers(0, 30)) == 0:
        ids = UNSET
    if draw(st.integers(0, 2)) == 0:
        v = draw(coord_v if KIND[w] is COORD else st.sampled_from(["1", "2", "3", "0", "40", "90", "100"]))
        return [w, "", None, v]
    return [w, draw(st.sampled_from(["", "", "", "-", "+"])), draw(st.sampled_from(ids)), None]


@st.composite
def step(draw):
    k = draw(st.integers(0, 12))
    if k < 4:
        i = draw(st.sampled_from(COORD + COORD + INT + FEED))
        return ["set", i, draw(value_for(i))]
    if k == 4:
        return ["copy", draw(st.sampled_from(COORD)), draw(st.sampled_from(COORD)), draw(st.sampled_from(["", "-"]))]
    if k == 5 and draw(st.integers(0, 4)) == 0:
        return ["resetmac"]
    pre = draw(st.sampled_from(["", "", "", "N10 ", "/", "(c)", "G1 ", "G0 ", "G2 ", "G91 "]))
    return ["blk", pre, draw(st.lists(word(), min_size=1, max_size=4, unique_by=lambda w: w[0])), draw(st.sampled_from(["", " "])),
            draw(st.integers(-2, 2)) if draw(st.integers(0, 5)) == 0 else 0]


@st.composite
def sub_case(draw):
    g = draw(st.sampled_from(["ref", "ref"] + grammars.PARSER_TYPES))
    skip = draw(st.sets(st.sampled_from(COORD + INT + FEED), max_size=2))
    steps = [["set", i, draw(value_for(i))] for i in COORD + INT + FEED if i not in skip]
    return {"g": g, "set": [True] + draw(st.lists(st.booleans(), min_size=4, max_size=4)),
            "nc": draw(gen.nc_good()), "steps": steps + draw(st.lists(step(), min_size=1, max_size=10)),
            "back": draw(st.booleans())}


def literal(v):
    s = "%.6f" % v
    return s.rstrip("0").rstrip(".") if "." in s else s


def build(c):
    """-> [(kind, line, macro text, literal text | None, missing id)] following the line-based store."""
    vals = {}
    out = []
    line = 0
    top = 0
    for s in c["steps"]:
        line += 1
        if s[0] == "resetmac":
            vals = {}
            out.append(("reset", line, None, None, None))
            continue
        if s[0] in ("set", "copy"):
            if s[0] == "set":
                t, v = "#%d=%s" % (s[1], s[2]), float(s[2])
            else:
                src = vals.get(s[2])
                if src and max(src) > line:
                    raise Discard  # which of the two values an expression sees is not claimed
                t = "#%d=%s#%d" % (s[1], s[3], s[2])
                v = None if not src else src[max(src)] * (-1 if s[3] else 1)
            if v is not None:
                vals.setdefault(s[1], {})[line] = v
            out.append(("set", line, t, t, None if v is not None else s[2]))
            continue
        if c["back"] and s[4]:
            line = max(1, line + 3 * s[4])
        top = max(top, line)
        mac, lit, missing = [], [], None
        for w, sign, i, text in s[2]:
            if i is None:
                mac.append(w + text)
                lit.append(w + text)
                continue
            mac.append("%s%s#%d" % (w, sign, i))
            at = [ln for ln in vals.get(i, {}) if ln <= line]
            if not at:
                missing = missing or i
                continue
            v = vals[i][max(at)]
            lit.append(w + literal(-v if sign == "-" else v))
        out.append(("blk", line, s[1] + s[3].join(mac), None if missing else s[1] + s[3].join(lit), missing))
    return out


def check_sub(ctx, c):
    prog = build(c)
    rec = recogniser(c["g"])
    a, b = [], []
    for kind, line, mt, lt, missing in prog:
        if kind == "reset":
            a.append(["resetmac"])
            b.append(["resetmac"])
            continue
        if rec.parse(mt) is None or rec.duplicate(rec.parse(mt)):
            raise Discard
        a.append(["parse", line, mt])
        b.append(["parse", line, lt] if lt is not None else ["state"])
    kw = dict(g=c["g"], set_=c["set"], nc_=c["nc"], want=["pr", "mac", "wr"])
    ra, rb = fan.run(ctx, a, **kw), fan.run(ctx, b, **kw)
    nt = False
    for (kind, line, mt, lt, missing), x, y in zip(prog, ra, rb):
        if kind == "reset":
            continue
        if missing is not None:
            ctx.label("undefined")
            if x["ok"] or "#%d" % missing not in x["msg"] and kind == "blk" or not x["msg"]:
                raise Violation("line %d %r uses undefined #%d but gave ok=%s %r" % (line, mt, missing, x["ok"],
                                                                                     x["msg"]), sig="undefined")
            for k in ("mac", "wr"):
                if x.get(k) != y.get(k) and kind == "blk":
                    raise Violation("rejected %r changed %s: %s / %s" % (mt, k, x[k], y[k]), sig="rejected changed")
            continue
        keys = ["ok", "pr", "tr", "mac", "wr"] + (["msg"] if kind == "set" else [])
        d = [k for k in keys if x.get(k) != y.get(k)]
        if d:
            raise Violation("line %d: %r must act as %r but %s: %s\n%s" % (
                line, mt, lt, d, {k: x.get(k) for k in d + ["msg"]}, {k: y.get(k) for k in d + ["msg"]}),
                sig="substitution")
        if not x["ok"] and not x["msg"] and y["msg"]:
            raise Violation("%r rejected without the reason %r" % (mt, y["msg"]), sig="no reason")
        if kind == "blk" and mt != lt:
            nt = True
            ctx.label("accepted" if x["ok"] else "rejected")
    return nt


def check_off(ctx, c):
    """With macro evaluation off nothing is evaluated, stored or substituted."""
    ops = [["parse", i + 1, "#%d=%s" % (i + 1, t)] for i, t in enumerate(c["e"])] + [["parse", 90, "X#1Y-#%d" % c["k"]]]
    rec = recogniser(c["g"])
    r = fan.run(ctx, ops, g=c["g"], set_=[False] * 5, want=["mac", "tok"])
    for o, x in zip(ops, r):
        if x["mac"]:
            raise Violation("macro evaluation is off but %r stored %s" % (o[2], x["mac"]), sig="off")
        t = rec.parse(o[2])
        if (t is not None) != x["ok"]:
            raise Violation("macro evaluation is off, %r: ok=%s %s" % (o[2], x["ok"], x["msg"]), sig="off verdict")
    return True


META = dict(
    title="A block with macro variables acts as the block with their values written out",
    statement="With macro evaluation on, a block whose words take their value from #n acts on verdict, machine limits, "
              "code groups, path, time and system variables exactly as the same block with the values (last "
              "assignment at or before the block's line, sign applied, up to six decimals) written out; a variable "
              "without such a value is reported by name and leaves all results untouched; a reset forgets all "
              "variables; with the option off nothing is stored or substituted.",
    over=["inputs", "histories"],
    over_text="all interleavings of assignments, copies, resets and blocks, with lines visited in and out of order, all "
              "machines and settings",
    why="The value in force depends on the whole history of lines; tests exercise one variable and one line order.",
    files=["parser/fanuc/MacroEvaluatedCodeVerifier.cpp", "parser/fanuc/AllAttributesParser.cpp",
           "parser/fanuc/MacroDefines.h", "parser/fanuc/MacroEvaluator.cpp"],
    mechanism=[("substitution", "MacroEvaluatedCodeVisitor"), ("line ordered store", "macro_map_key_cmp"),
               ("second parse of the evaluated block", "AllAttributesParser::parse")],
    observe="parse verdict/message, get_path_result, get_time_result, get_macro_values, get_word_range",
    technique="stateful model-based generation with a differential (macro program vs literal program) oracle",
    design="histories of assignments and blocks; a line-keyed model computes the literal program; the two programs run "
           "in two parsers and every observable must agree after every step.",
    note="Bracketed expressions inside words, GOTO#n and N#n are not claimed (the tool leaves them unevaluated).")


class P16(Check):
    id = "P16"
    rule = "a history with at least one block whose macro words have a value"

    def subs(self):
        return [Sub("history", sub_case(), check_sub, 5000, 400000),
                Sub("off", st.fixed_dictionaries({"g": gen.grammar_id, "e": st.lists(gen.expr_text(2), max_size=4),
                                                  "k": st.integers(1, 9)}), check_off, 800, 20000)]


CHECK = P16()
