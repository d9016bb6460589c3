"""Totals, totals per tool, reset, and independence of the spelling."""
from hypothesis import strategies as st

import fan
import gen
import pathgen
from core import Check, Discard, Sub, Violation
from models import path
from pathgen import play, where

KINDS = ("linear", "linear", "linear", "tool", "tool", "modal", "dwell", "home", "data", "idle", "arc", "drill",
         "helix", "spiral")


def close(a, b):
    return abs(a - b) <= 1e-6 + 1e-9 * abs(b)


def check_totals(ctx, c):
    steps = play(ctx, c)
    total = ttotal = 0.0
    tool, first = "", True
    per, tper = {}, {}
    back = set()
    selected = False
    for i, (b, t, e, r) in enumerate(steps):
        if not r["ok"]:
            break
        pr, tr = r["pr"], r["tr"]
        if e["tool"] != tool:
            tool, first = e["tool"], False
            ctx.label("tool change")
            if tool in per:
                back.add(tool)
        here = where(steps, i)
        if pr[4] != tool or tr[4] != tool:
            raise Violation("%s: results are for tool %r / %r, the spindle holds %r" % (here, pr[4], tr[4], tool),
                            sig="tool")
        total += pr[1] + pr[2]
        ttotal += tr[1] + tr[2] + e["extra"]
        per[tool] = per.get(tool, 0.0) + pr[1] + pr[2]
        tper[tool] = tper.get(tool, 0.0) + tr[1] + tr[2]
        for name, got, exp in (("total path", pr[0], total), ("total time", tr[0], ttotal)):
            if not close(got, exp):
                raise Violation("%s: %s is %.9g, the blocks add up to %.9g" % (here, name, got, exp), sig=name)
        # selecting a tool that is not yet in the spindle forgets what was done without any
        selected = selected or "T" in t
        if not first or not selected:
            for name, got, exp in (("path of the tool", pr[3], per[tool]), ("time of the tool", tr[3], tper[tool])):
                if not close(got, exp):
                    raise Violation("%s: %s %r is %.9g, its blocks add up to %.9g" % (here, name, tool, got, exp),
                                    sig=name)
    if back:
        ctx.label("tool used again")
    return len(per) >= 2


@st.composite
def reset_case(draw):
    dirty = draw(st.lists(st.one_of(gen.path_line(), gen.path_line(), gen.line_text(), st.sampled_from(
        ["G20", "G21", "#1=5", "T3 M6", "G91 G19", "G83 X1 Z-5 R-1 Q1 F100", "M3 S100", "G96", "G98 G95", "G2 X5 I2.5",
         "G65 P9000", "G68 X0 Y0 R30"])), min_size=1, max_size=8))
    probe = draw(st.lists(st.one_of(gen.path_line(), gen.path_line(), st.sampled_from(
        ["X#1", "T4 M6", "G1 X10 Y10", "X5 Y5", "G91 X1", "X1.5 R5", "Z-10", "G81 X1 Y1 Z-1 R0"])), min_size=1,
        max_size=6))
    return {"nc": draw(gen.nc_mix), "g": draw(gen.grammar_id), "set": [True] + draw(st.lists(st.booleans(), min_size=4,
                                                                                             max_size=4)),
            "dirty": dirty, "probe": probe, "renc": draw(st.booleans())}


def check_reset(ctx, c):
    kw = dict(g=c["g"], set_=c["set"], nc_=c["nc"], want=["tok", "pr", "mac", "wr"])
    head = [["parse", i + 1, t] for i, t in enumerate(c["dirty"])]
    tail = [["parse", i + 1, t] for i, t in enumerate(c["probe"])]
    mid = [["nc", c["nc"]]] if c["renc"] else []
    used = fan.run(ctx, head + [["resetmac"]] + mid + [["resetpath"]] + tail, **kw)
    fresh = fan.run(ctx, [["resetmac"], ["resetpath"]] + tail, **kw)
    n = len(tail)
    for i, (a, b) in enumerate(zip(used[-n:], fresh[-n:])):
        if a != b:
            d = [k for k in a if a[k] != b.get(k)]
            raise Violation("after %s and a reset, block %d of %s differs from a fresh run in %s: %s / %s" % (
                c["dirty"], i + 1, c["probe"], d, [a[k] for k in d][:3], [b.get(k) for k in d][:3]), sig="reset")
    return any(x["ok"] for x in used[:len(head)]) and any(x["ok"] for x in used[-n:])


@st.composite
def spelled(draw):
    c = draw(pathgen.program(KINDS, 10))
    c["other"] = draw(st.lists(st.integers(0, 1000), min_size=8, max_size=8))
    c["lines"] = draw(st.lists(st.integers(1, 5), min_size=1, max_size=4))
    c["wide"] = draw(st.booleans())
    return c


def check_spelling(ctx, c):
    """The claimed part of a program gives the same figures however its blocks are spelled and numbered."""
    m = path.Machine(c["nc"])
    n = 0
    for b in c["blocks"]:
        r, m = pathgen.simulate(m, b)
        if isinstance(r, path.Unclaimed):
            break
        n += 1
        if isinstance(r, path.Stop):
            break
    if not n:
        raise Discard
    out, line = [], 0
    a = [["parse", i + 1, pathgen.text(b, c["style"], i)] for i, b in enumerate(c["blocks"][:n])]
    z = []
    for i, b in enumerate(c["blocks"][:n]):
        line += c["lines"][i % len(c["lines"])]
        z.append(["parse", line, pathgen.wide(b, c["other"], i, c["nc"]["mtt"] == 1) if c["wide"] else
                  pathgen.text(b, c["other"], i)])
    kw = dict(g="ref", set_=[True, False, True, False, False], nc_=c["nc"], want=["pr", "wr"])
    ra, rz = fan.run(ctx, a, **kw), fan.run(ctx, z, **kw)
    for i, (x, y) in enumerate(zip(ra, rz)):
        flat = [[v for v in r["pr"] + r["tr"] + sum((r["wr"][k] for k in sorted(r["wr"])), [])] for r in (x, y)]
        flat = [[v.lstrip("0") if isinstance(v, str) else v for v in f] for f in flat]
        if x["ok"] != y["ok"] or any(p != q if isinstance(p, str) else not close(p, q) for p, q in zip(*flat)):
            raise Violation("%s and %s give different results at block %d: %s %s / %s %s" % (
                [o[2] for o in a[:i + 1]][-6:], [o[2] for o in z[:i + 1]][-6:], i + 1, x["ok"], flat[0], y["ok"],
                flat[1]), sig="spelling")
    return any(o[2] != q[2] for o, q in zip(a, z)) and rz[-1]["pr"][0] > 0


META = dict(
    title="Totals are the sum of the blocks, per tool too, and a reset forgets everything",
    statement="After every block the total path and time are the sums of what the blocks so far reported (time plus "
              "dwell and exchange times), and the tool's path and time are the sums over the blocks made with that "
              "tool, also when it is taken again later; after a reset any program gives exactly the results of a fresh "
              "parser, whatever ran before; and the results do not depend on word order, leading zeros, blanks, "
              "comments, N numbers or line numbers.",
    over=["histories", "inputs"],
    over_text="every program of up to 16 blocks of all kinds of motion with tool changes, every dirty history before a "
              "reset, every two spellings of one program",
    why="The tests check results after single blocks; accumulation across tools that alternate, state that survives a "
        "reset after errors, and order dependence show only on whole programs.",
    files=["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("totals per tool", "AttributesPathCalculator::evaluate (t_path, t_time)"),
               ("reset", "AttributesPathCalculator::reset, AllAttributesParser::reset_attributes_path_calculator")],
    observe="get_path_result, get_time_result, get_word_range, get_macro_values after each block",
    technique="invariants and metamorphic relations over generated programs",
    design="`totals` adds up reported block results per tool; `reset` compares a dirty parser after "
           "reset_macro_values and reset_attributes_path_calculator with a fresh one, exactly; `spelling` runs one "
           "program in two spellings.",
    note="Moves before the first exchange belong to no tool and only count in the total. In `spelling`, T and M words "
         "stay last in the block.")


class P24(Check):
    id = "P24"
    rule = "totals: two tools were used; reset: an accepted block before and after; spelling: texts differ and it moves"

    def subs(self):
        return [Sub("totals", pathgen.program(KINDS + ("exchange",) * 6 + ("linear",) * 4, 16), check_totals, 2500, 250000),
                Sub("reset", reset_case(), check_reset, 2500, 250000),
                Sub("spelling", spelled(), check_spelling, 1500, 150000)]


CHECK = P24()
