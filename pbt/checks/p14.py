"""Conflicting codes in one block."""
from hypothesis import strategies as st

import fan
import gen
import grammars
from checks.p11 import recogniser
from core import Check, Discard, Sub, Violation

HAAS = ("haas_lathe", "haas_mill")


def conflict(g, toks, groups=True):
    """First rule of the code tables broken by the block, or None."""
    d = grammars.ALL()[g]
    for word, key in (("G", "gg"), ("M", "mg")):
        seen = {}
        if not groups:
            continue
        for t in toks:
            if t[0] != "D" or t[1] != word or t[5] is not None or t[6] is None:
                continue
            code = [int(t[6]), int(t[8]) if t[8] else 0]
            for grp, members in d[key].items():
                if code in members:
                    if grp in seen:
                        return "%s%s: group %s already used by %s" % (word, code, grp, seen[grp])
                    seen[grp] = code
    if g in HAAS and sum(1 for t in toks if t[0] == "D" and t[1] == "M") > 1:
        return "more than one M on a Haas"
    return None


def unit_after(toks, unit):
    """G20 / G21 of an accepted block select the word limits of the following blocks."""
    for t in toks:
        if t[0] == "D" and t[1] == "G" and t[5] is None and t[6] is not None and not int(t[8] or 0):
            unit = {20: "imperial", 21: "metric"}.get(int(t[6]), unit)
    return unit


def check_codes(ctx, c):
    setv = [True, c["groups"], False, False, False]
    r = fan.run(ctx, [["parse", i + 1, l] for i, l in enumerate(c["lines"])], g=c["g"], set_=setv, want=["tok"],
                lang=c["lang"])
    nt = False
    unit = "metric"
    for l, x in zip(c["lines"], r):
        rec = recogniser(c["g"], unit)
        toks = rec.parse(l)
        if toks is None:
            continue
        dup = rec.duplicate(toks)
        why = ("word %s twice" % dup) if dup else conflict(c["g"], toks, c["groups"])
        if (why is None) != x["ok"]:
            raise Violation("grammar %s groups=%s: block %r should be %s (%s) but was %s (%s)" % (
                c["g"], c["groups"], l, "rejected" if why else "accepted", why, "accepted" if x["ok"] else "rejected",
                x["msg"]), sig="conflict verdict")
        if why and not x["msg"]:
            raise Violation("block %r rejected without a reason" % l, sig="no reason")
        n = sum(1 for t in toks if t[0] == "D" and t[1] in "GM")
        ctx.label("conflict" if why else "compatible")
        if x["ok"]:
            unit = unit_after(toks, unit)
        nt = nt or (n > 1 or bool(dup))
    return nt


@st.composite
def code_text(draw, g):
    d = grammars.ALL()[g]
    w = draw(st.sampled_from("GGGM"))
    tab = d["gg" if w == "G" else "mg"]
    if tab and draw(st.integers(0, 9)) < 8:
        grp = tab[draw(st.sampled_from(sorted(tab)))]
        code, rest = draw(st.sampled_from(grp))
    else:
        code, rest = draw(st.integers(0, 199)), draw(st.sampled_from([0, 0, 1, 2]))
    s = draw(st.sampled_from(["", "", "", "0"])) + str(code)
    if rest or draw(st.integers(0, 15)) == 0:
        s += "." + str(rest)
    return w + s


@st.composite
def pair_text(draw, g):
    """Two codes out of one group, possibly the same one."""
    d = grammars.ALL()[g]
    w = draw(st.sampled_from("GM"))
    tab = {k: v for k, v in d["gg" if w == "G" else "mg"].items() if v}
    if not tab:
        return draw(code_text(g))
    grp = tab[draw(st.sampled_from(sorted(tab)))]
    a, b = draw(st.sampled_from(grp)), draw(st.sampled_from(grp))
    mid = draw(st.sampled_from(["", " X1 ", "(c)", " F10"]))
    f = lambda e: w + str(e[0]) + (".%d" % e[1] if e[1] else "")
    return f(a) + mid + f(b)


@st.composite
def codes_case(draw):
    g = draw(gen.grammar_id)
    lines = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 5))
        if k == 0:
            lines.append(draw(pair_text(g)))
        elif k == 1:
            ax = draw(st.lists(st.sampled_from("XYZIJKUVWR"), min_size=2, max_size=4))
            lines.append(" ".join(a + "1" for a in ax))
        else:
            ws = draw(st.lists(st.one_of(code_text(g), code_text(g), code_text(g), gen.word_text()), min_size=2,
                               max_size=5))
            ws = [w for w in ws if "#" not in w]
            lines.append(draw(st.sampled_from(["", " "])).join(ws))
    return {"g": g, "lines": [l for l in lines if "#" not in l and l] or ["G0G1"],
            "groups": draw(st.integers(0, 4)) > 0, "lang": draw(st.integers(0, 1))}


def check_order(ctx, c):
    """A conflict does not depend on the order of the words or on words that are not codes."""
    set_ = [True, True, False, False, False]
    words = c["words"]
    perm = [words[i] for i in c["perm"]]
    if any(recogniser(c["g"]).parse(w) is None for w in words):
        raise Discard
    a, b, d = fan.run(ctx, [["parse", 1, "".join(words)], ["parse", 2, " ".join(perm)],
                            ["parse", 3, " (x) ".join(words)]], g=c["g"], set_=set_)
    if a["ok"] != b["ok"] or a["ok"] != d["ok"]:
        raise Violation("%r: verdict %s, reordered %r: %s, with comments: %s" % (words, a, perm, b, d), sig="order")
    return len(words) > 1


@st.composite
def order_case(draw):
    g = draw(gen.grammar_id)
    ws = draw(st.lists(st.one_of(code_text(g), st.sampled_from(["X1", "Y2.5", "F100"])), min_size=2, max_size=5))
    return {"g": g, "words": ws, "perm": draw(st.permutations(range(len(ws))))}


META = dict(
    title="Mutually exclusive codes and repeated words in a block are always reported",
    statement="With the code-group check on, a block is reported if and only if two of its G (or M) codes, in any "
              "order and spelling, share a group of the machine's code tables, a word marked unique is repeated, or a "
              "Haas block carries more than one M code; with the check off the groups are not applied.",
    over=["inputs", "configurations"],
    over_text="all blocks over the code tables of the 11 shipped machines and a reference one, both settings",
    why="The tables hold hundreds of codes in dozens of groups per machine; tests try a handful of pairs.",
    files=["parser/fanuc/CodeGroupsVerifier.cpp", "parser/fanuc/UniqueCode.cpp",
           "parser/fanuc/SameWordInBlockVerifier.cpp", "conf/*/gcode_groups.json", "conf/*/mcode_groups.json"],
    mechanism=[("groups lookup and first occurrence per group", "CodeGroupsVerifier"),
               ("unique words", "UniqueCode"), ("single M per Haas block", "SameWordInBlockVerifier")],
    observe="return value and message of AllAttributesParser::parse",
    technique="model-based verdicts over generated code combinations plus permutation metamorphic relation",
    design="generated blocks biased to codes of one group (with leading zeros and decimal codes such as G54.1); verdict "
           "oracle computed from the JSON tables; permutation/comment-insertion metamorphic relation.",
    note="Blocks the word table itself rejects are P11's and skipped here; macro-valued codes are P16's.")


class P14(Check):
    id = "P14"
    rule = "a block with at least two G/M codes or a repeated unique word that the word table accepts"

    def subs(self):
        return [Sub("codes", codes_case(), check_codes, 5000, 400000),
                Sub("order", order_case(), check_order, 3000, 300000)]


CHECK = P14()
