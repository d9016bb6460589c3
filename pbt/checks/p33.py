"""Path and time totals of any program are finite, never shrink and are the sum of their parts."""
import math

from hypothesis import strategies as st

import gen
import lsp
from core import Check, Sub, Violation

EPS = 1e-6


def check_totals(ctx, c):
    n = dict(c["nc"], **{"def": dict(c["nc"]["def"], depth=0)})
    lib = lsp.library(ctx, "\n".join(c["lines"]), c["driver"], n, ["pr", "wr"])
    ppath = ptime = 0.0
    where = None
    moved = 0
    for k, (i, ln, r) in enumerate(lib):
        (ptot, pwork, pfast, ptool, _), (ttot, twork, tfast, ttool) = r["pr"][:5], r["tr"][:4]
        vs = [ptot, pwork, pfast, ptool, ttot, twork, tfast, ttool]
        here = "%s, block %d of %s" % (c["driver"], i, c["lines"])
        if not all(map(math.isfinite, vs)):
            raise Violation("%s: results %s %s" % (here, r["pr"], r["tr"]), sig="not finite")
        if any(v < -EPS for v in vs):
            raise Violation("%s: results %s %s" % (here, r["pr"], r["tr"]), sig="negative")
        if ptot < ppath - EPS or ttot < ptime - EPS:
            raise Violation("%s: totals fall from %s, %s to %s, %s" % (here, ppath, ptime, ptot, ttot), sig="falls")
        scale = 1 + abs(ptot) + abs(ttot)
        if abs(ptot - ppath) > EPS * scale and abs(ptot - ppath - pwork - pfast) > EPS * scale:
            raise Violation("%s: total path grows by %s, the block's motions are %s and %s" % (
                here, ptot - ppath, pwork, pfast), sig="sum")
        if ttot - ptime + EPS * scale < twork + tfast and ttot > ptime:
            raise Violation("%s: total time grows by %s, the block's motions take %s and %s" % (
                here, ttot - ptime, twork, tfast), sig="time sum")
        if ptool > ptot + EPS * scale or ttool > ttot + EPS * scale:
            raise Violation("%s: the tool's totals %s, %s exceed the totals %s, %s" % (here, ptool, ttool, ptot, ttot),
                            sig="tool")
        pos = {a: v[1] for a, v in r["wr"].items()}
        if not r["ok"] and " out of range " not in r["msg"]:
            if ptot != ppath:
                raise Violation("%s: the block is rejected (%s) but the total path grows by %s" % (
                    here, r["msg"], ptot - ppath), sig="rejected counted")
            if where is not None and pos != where:
                raise Violation("%s: the block is rejected (%s) but the position goes from %s to %s" % (
                    here, r["msg"], where, pos), sig="rejected moved")
            ctx.label("rejected")
        where = pos
        moved += ptot > ppath
        ppath, ptime = ptot, ttot
    return moved > 1


line = st.one_of(gen.path_line(), gen.path_line(), gen.path_line(), gen.line_text().filter(lambda t: "\n" not in t),
                 st.sampled_from(["G95", "G96 S50", "G97 S0", "S0", "G94", "F0", "G95 F0.2", "G18", "G19", "G17", "G20",
                                  "G21", "T1 M6", "T2 M6", "T0 M6", "G91 G28 Z0", "G92 X0", "G80", "G98", "G99", "M5",
                                  "G2 I5", "G3 X0 Y0 Z0 I0 J0", "G2 I5 Q0", "G2 L0 I5 J0", "G3 R0 X5", "G83 Q0 Z-5 R1",
                                  "G73 Q0.001 Z-0.5 R0", "G4", "G4 P0", "G76 Z-3 R2 Q5 K2", "G90", "G91"]))
# a dwell of a negative time is nothing a control accepts
case = st.fixed_dictionaries({
    "nc": gen.nc_mix, "driver": st.sampled_from(lsp.TYPES + ["fanuc_mill"] * 4),
    "lines": st.lists(line.filter(lambda t: not ("G4" in t.replace("0", "") and "-" in t)), min_size=1, max_size=10).map(
        lambda l: ["T1 M6 S100 M3 F100"] + l)})


META = dict(
    title="Path and time totals are finite, never shrink and are the sum of the blocks",
    statement="For any program on any machine and control the library's path and time results are finite and not "
              "negative; the totals never decrease from block to block, grow by exactly the block's cut and rapid "
              "parts, and are never less than the current tool's; a block that is rejected for anything but its "
              "travel neither counts in the path nor moves the position.",
    over=["histories", "inputs", "configurations"],
    over_text="every program of every motion, cycle, feed mode and degenerate data (zero feed, zero radius, zero turns, "
              "zero peck) on every machine",
    why="The tests use ordinary numbers; infinities, NaN and bookkeeping mistakes need degenerate data in longer "
        "programs.",
    files=["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/MathUtils.h",
           "parser/fanuc/PathCalculator.cpp"],
    mechanism=[("totals", "AttributesPathCalculator::evaluate"), ("times", "AttributesPathCalculator::evaluate")],
    observe="get_path_result, get_time_result after each block",
    technique="invariant checking over generated programs",
    design="after each block the invariants relate its results to those of the block before.",
    note="Dwells of a negative time are left out. Cycle depths are absolute (incremental depths of the G81 family are "
         "pinned by unit tests to negative lengths).")


class P33(Check):
    id = "P33"
    targets = ("driver",)
    rule = ("a program of up to 11 blocks on any machine and control, with every motion, cycle, feed mode and "
            "degenerate data; after each block the totals are finite, not negative, not smaller than before, grow by "
            "the block's motions and are not less than the tool's; non-trivial when the path grows at least twice")

    def subs(self):
        return [Sub("totals", case, check_totals, 24000)]


CHECK = P33()
