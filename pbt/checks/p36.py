"""Every kind of check is switched on and off by itself: all of them together reject what any of them rejects."""
from hypothesis import strategies as st

import fan
import gen
from core import Check, Sub, Violation

FULL = [True, True, True, True, True]
KINDS = {"none": [True, False, False, False, False], "groups": [True, True, False, False, False],
         "path": [True, False, True, False, False], "travel": [True, False, True, False, True],
         "limits": [True, False, False, True, False]}


@st.composite
def line(draw):
    k = draw(st.integers(0, 9))
    if k < 6:
        s = draw(gen.path_line())
        if k == 0:
            s += draw(st.sampled_from([" G", " M"])) + draw(st.sampled_from(["0", "3", "17", "90", "54", "98", "41", "8"]))
    elif k < 8:
        s = draw(gen.line_text())
    else:
        v = draw(st.sampled_from(["X", "Y", "Z", "F", "S", "T", "G", "M"]))
        return draw(st.sampled_from(["#1=%d", "#2=%d", "#1=%d*2", "#2=#1+%d"])) % draw(st.integers(-9, 100)) \
            if draw(st.booleans()) else "%s %s#%d" % (draw(gen.path_line()), v, draw(st.integers(1, 3)))
    return s


case = st.fixed_dictionaries({"g": gen.grammar_id, "nc": gen.nc_mix, "lines": st.lists(line(), min_size=1, max_size=9)})


def check(ctx, c):
    ops = [["parse", i + 1, s] for i, s in enumerate(c["lines"])]
    hit = False
    for _ in range(4):
        if not ops:
            break
        kw = dict(g=c["g"], nc_=c["nc"])
        full = fan.run(ctx, ops, set_=FULL, want=["tok", "pr", "mac"], **kw)
        one = {k: fan.run(ctx, ops, set_=s, want=["tok", "pr", "mac"], **kw) for k, s in KINDS.items()}
        bad = next((i for i, x in enumerate(full) if not x["ok"]), len(ops))
        for i in range(min(bad + 1, len(ops))):
            f = full[i]
            here = "block %r after %s" % (ops[i][2], [o[2] for o in ops[:i]])
            no = {k: r[i]["msg"] for k, r in one.items() if not r[i]["ok"]}
            if f["ok"]:
                if no:
                    raise Violation("%s is accepted with every check but not with one of them alone: %s" % (here, no),
                                    sig="single rejects")
                for k, r in one.items():
                    # the path calculation knows the tool in the spindle (#4120)
                    if r[i]["tok"] != f["tok"] or k in ("path", "travel") and r[i]["mac"] != f["mac"]:
                        raise Violation("%s: words or variables differ with every check and with %s" % (here, k),
                                        sig="words")
                for k in ("path", "travel"):
                    if one[k][i]["pr"] != f["pr"] or one[k][i]["tr"] != f["tr"]:
                        raise Violation("%s: path and time %s %s with every check, %s %s with %s" % (
                            here, f["pr"], f["tr"], one[k][i]["pr"], one[k][i]["tr"], k), sig="path")
            else:
                if f["msg"] not in no.values():
                    raise Violation("%s is rejected with every check (%s) but each alone says %s" % (
                        here, f["msg"], no), sig="union")
                if "none" in no and len(no) != len(KINDS) or "path" in no and "travel" not in no:
                    raise Violation("%s is rejected by %s only" % (here, no), sig="monotone")
                if "none" not in no:
                    hit = True
                    for k in no:
                        ctx.label(k)
        if bad < len(ops):
            del ops[bad]
        else:
            break
    return hit


META = dict(
    title="Each check is switched by itself: together they reject what any one rejects",
    statement="For every program, control and machine the checks that can be switched on (code groups, path, travel, "
              "machine limits) are independent: a block is rejected with all of them on exactly when one of them alone "
              "(or the grammar) rejects it in the same place, with the message of one of those, and the words, "
              "variables, paths and times of accepted blocks do not depend on which of the checks are on.",
    over=["inputs", "histories", "configurations"],
    over_text="programs of up to 9 blocks (motions, cycles, macros, arbitrary words) for each grammar and any machine, "
              "each played with all checks and with each check alone; rejected blocks are taken out and the rest is "
              "played again",
    why="The unit tests switch checks on for the test of that check; how one check's state or order affects the others "
        "needs programs that several checks look at.",
    files=["parser/fanuc/AllAttributesParser.cpp", "parser/GeneralParserDefines.h"],
    mechanism=[("stages run one after another, each under its own setting", "AllAttributesParser::parse")],
    observe="verdicts, messages, words, variables, paths and times of parser_api::AllAttributesParser",
    technique="metamorphic: the same program under different settings of the checks",
    design="six parsers play each program; the verdict with everything on must be the union of the verdicts of the "
           "single checks, and results must be equal.",
    note="Macro evaluation is on. Only the state after accepted blocks is compared: a rejected block is removed and the "
         "program is played again, because what a rejected block leaves behind is the subject of other properties.")


class P36(Check):
    id = "P36"
    rule = "a block is rejected by a check other than the grammar"

    def subs(self):
        return [Sub("union", case, check, 3000, 200000)]


CHECK = P36()
