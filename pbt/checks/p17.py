"""Variables by line: a block sees the value in force at its line; words leave their system variables."""
from hypothesis import strategies as st

import fan
import grammars
from core import Check, Discard, Sub, Violation

SYS = {"B": 4102, "D": 4107, "E": 4108, "F": 4109, "H": 4111, "M": 4113, "N": 4114, "S": 4119, "T": 4120}
IDS = [1, 2, 3, 33, 100, 150, 500, 999]
val = st.one_of(st.integers(0, 60).map(str), st.sampled_from(["0.5", "-2.5", "12.25", "-7", "0", "3.", "100.125"]))
WORD = {"B": st.sampled_from(["0", "90", "45", "-30", "12.5", "-12.5", "-0.5"]), "D": st.integers(-20, 40).map(str),
        "E": st.integers(0, 40).map(str),
        "F": st.sampled_from(["100", "0.5", "250.25", "900", "12."]), "H": st.integers(0, 40).map(str),
        "M": st.sampled_from(["3", "4", "5", "8", "9", "03", "19"]), "N": st.integers(1, 900).map(str),
        "S": st.sampled_from(["100", "990", "50", "0700"])}


@st.composite
def step(draw, line, back, known):
    top = line
    if back and draw(st.integers(0, 4)) == 0:
        line = draw(st.integers(1, line + 3))
    k = draw(st.integers(0, 11))
    if k < 3:
        i = draw(st.sampled_from(IDS + [4109, 4319]))
        return ["set", line, i, draw(val)]
    if k < 6:
        ws = draw(st.lists(st.sampled_from("BDEFHMNS"), unique=True, min_size=1, max_size=4))
        return ["words", line, [[w, draw(WORD[w])] for w in ws]]
    if k == 6:
        return ["tool", line, draw(st.sampled_from(["1", "2", "05", "12"]))]
    if k == 7 and draw(st.integers(0, 3)) == 0:
        return ["reset", line]
    i = draw(st.one_of(st.sampled_from(IDS), st.builds(lambda w, o: SYS[w] + o, st.sampled_from("BDEFHMNST"),
                                                       st.sampled_from([0, 200, 400])), st.sampled_from([3101, 3102])))
    if known and draw(st.integers(0, 3)):
        i = draw(st.sampled_from(sorted(known)))
    if draw(st.integers(0, 2)) and i < 3101 or 4000 < i:
        return ["move", line, i]
    return ["copy", top, i]


@st.composite
def history(draw, back=True):
    line = 1
    out = []
    known = set()
    for _ in range(draw(st.integers(2, 14))):
        s = draw(step(line, back, known))
        out.append(s)
        if s[0] == "set":
            known.add(s[2])
        elif s[0] == "words":
            known.update(SYS[w] + 200 * (i % 3) for i, (w, _v) in enumerate(s[2]) if w not in "E")
        elif s[0] == "tool":
            known.add(4120)
        line = max(line, s[1]) + draw(st.integers(1, 3))
    return {"steps": out, "g": draw(st.sampled_from(["fanuc_mill", "ref"])), "texch": draw(st.booleans()),
            "init": draw(st.booleans())}


def lookup(mem, i, line):
    best = None
    for (k, l), v in mem.items():
        if k == i and l <= line and (best is None or l > best[0]):
            best = (l, v)
    return None if best is None else best[1]


PRE = {(3101, -1): 3.141592653589793, (3102, -1): 2.718281828459045}


def check_history(ctx, c):
    table = grammars.ALL()[c["g"]]["metric"]
    mem = dict(PRE) if c["init"] else {}
    ops, exp = [], []
    reads = 0
    for s in c["steps"]:
        kind, line = s[0], s[1]
        e = {"ok": True, "mem": None, "x": None}
        if kind == "set":
            ops.append(["parse", line, "#%d=%s" % (s[2], s[3])])
            mem[(s[2], line)] = float(s[3])
        elif kind == "words":
            ws = [w for w in s[2] if w[0] in table]
            if not ws:
                continue
            ops.append(["parse", line, "".join(w + v for w, v in sorted(ws, key=lambda x: x[0] != "N"))])
            for w, v in ws:
                for o in (0, 200, 400):
                    mem[(SYS[w] + o, line)] = float(v)
        elif kind == "tool":
            ops.append(["parse", line, "T%s" % s[2] + ("" if c["texch"] else "M6")])
            for o in (0, 200, 400):
                mem[(4120 + o, line)] = float(s[2])
                if not c["texch"]:
                    mem[(4113 + o, line)] = 6.0
        elif kind == "reset":
            ops.append(["resetmac"])
            mem = dict(PRE)
        else:
            v = lookup(mem, s[2], line)
            reads += v is not None
            if v is None:
                ctx.label("read of an unset variable")
                e["ok"] = False
            if kind == "copy":
                ops.append(["parse", line, "#888=#%d" % s[2]])
                if v is not None:
                    mem[(888, line)] = v
            else:
                ops.append(["parse", line, "G0X#%d" % s[2]])
                e["x"] = v
        e["mem"] = dict(mem)
        exp.append(e)
    if not ops:
        raise Discard
    if c["init"]:
        ops.insert(0, ["resetmac"])
        exp.insert(0, {"ok": True, "mem": PRE, "x": None})
    nc = fan.nc(axes={a: [-1e5, 1e5] for a in "XYZ"}, mwf=1e6, mss=100000, items=1000,
                def_={"texch": c["texch"], "prog": 90})
    rs = fan.run(ctx, ops, g=c["g"], set_=[True, False, True, False, False], nc_=nc, want=["mac", "wr"])
    for i, (o, e, r) in enumerate(zip(ops, exp, rs)):
        here = "step %d of %s" % (i + 1, [x[1:] for x in ops[:i + 1]][-8:])
        if o[0] == "parse" and bool(r["ok"]) != e["ok"]:
            raise Violation("%s: %s" % (here, "accepted although the variable is not set at its line" if r["ok"] else
                                        "rejected: " + r["msg"]), sig="verdict")
        got = {(m[0], m[1]): m[2] for m in r["mac"]}
        if set(got) != set(e["mem"]) or any(abs(got[k] - v) > 1e-5 + 1e-9 * abs(v) for k, v in e["mem"].items()):
            diff = {k: (got.get(k), e["mem"].get(k)) for k in set(got) | set(e["mem"])
                    if k not in got or k not in e["mem"] or abs(got[k] - e["mem"][k]) > 1e-5}
            raise Violation("%s: variables (number, line): (stored, expected) %s" % (here, diff), sig="value")
        if e["x"] is not None and abs(r["wr"]["X"][1] - e["x"]) > 1e-4:
            raise Violation("%s: X moves to %r, the variable holds %r" % (here, r["wr"]["X"][1], e["x"]), sig="use")
    return reads >= 1


META = dict(
    title="Variables and system variables have the value in force at the block's line",
    statement="At every block, a variable has the value of its latest assignment at or before the block's line (lines "
              "may be revisited in any order), an unassigned one is rejected, and #3101/#3102 are pi and e after a reset; the words "
              "B D E F H M N S and an executed tool exchange leave their value in the modal system variables 4102.. "
              "4120 and their +200/+400 copies at the block's line, a block changes no other variable, and a reset "
              "leaves exactly the initial ones.",
    over=["histories"],
    over_text="every history of assignments, blocks with such words, tool exchanges, reads and resets, at lines in any "
              "order",
    why="The tests assign and read in line order with a handful of variables; stale values after revisiting a line, "
        "copies between ids, or a word that leaves a neighbour's variable changed need histories.",
    files=["parser/fanuc/SystemMacroAssigner.cpp", "parser/fanuc/MacroEvaluator.cpp", "parser/fanuc/MacroDefines.h",
           "parser/fanuc/AttributesPathCalculator.cpp"],
    mechanism=[("variables by line", "macro_map_key_cmp, MacroEvaluator::evaluate"),
               ("words to variables", "SystemMacroAssigner"), ("tool", "AttributesPathCalculator::evaluate")],
    observe="get_macro_values after each block; verdict and position of blocks that use a variable",
    technique="model-based testing of generated histories against a keyed store",
    design="the model is a dictionary (variable, line) -> value; after every step the parser's whole variable table must "
           "equal it, and a read must give the entry with the greatest line not after the reading block.",
    note="Not claimed: variables left by a block that is rejected for a later reason, several words of one kind in a "
         "block, O (program numbers are text), reading a word's variable in the block that sets it; an "
         "assignment's right side at a line before the latest assignment (expressions use the latest one).")


class P17(Check):
    id = "P17"
    rule = "at least one block reads a variable that has a value"

    def subs(self):
        return [Sub("history", history(), check_history, 4000, 400000)]


CHECK = P17()
