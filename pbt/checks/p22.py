"""Drilling cycles: working and rapid path of each hole."""
import pathgen
from core import Check, Sub, Violation
from pathgen import near, play, verdicts, where


def check_drill(ctx, c):
    steps = play(ctx, c)
    verdicts(steps)
    hit = 0
    for i, (b, t, e, r) in enumerate(steps):
        if not r["ok"]:
            break
        work, fast = r["pr"][1:3]
        if not near(work, e["work"], e["tol"]) or (e["fast"] is not None and not near(fast, e["fast"], e["tol"])):
            raise Violation("%s: path is %.9g working, %.9g rapid, expected %.9g and %s (drilled from %s)" % (
                where(steps, i), work, fast, e["work"], e["fast"], e["from"]), sig="path")
        if r["pr"][7] != e["holes"]:
            raise Violation("%s: %d drilling blocks counted, not %d" % (where(steps, i), r["pr"][7], e["holes"]),
                            sig="holes")
        for a in "XYZ":
            if not near(r["wr"][a][1], e["pos"][a], 1e-6):
                raise Violation("%s: position of %s is %.9g, not %.9g" % (where(steps, i), a, r["wr"][a][1],
                                                                          e["pos"][a]), sig="position")
        hit += e["holes"] > 0
        if e["holes"] > 1:
            ctx.label("modal hole")
    return hit >= 2


META = dict(
    title="A drilling cycle counts each hole's moves, stays modal and ends when cancelled",
    statement="Each block of a canned cycle (G73, G74, G76, G81-G89) reports the rapid move to the hole plus the feed "
              "and rapid moves of that cycle for the depth, R, Q and return level in force (G98/G99), K holes for "
              "incremental K and none for K0; depth, R and Q are modal and follow changes; the hole's depth is not a "
              "position; G80, and each motion code configured so, ends the cycle; a missing depth, R or Q, or a "
              "peck of zero, is rejected by name.",
    over=["histories", "inputs"],
    over_text="every program of up to 12 blocks of the twelve cycles, straight and arc moves, modal and dwell blocks in "
              "the three planes, absolute and incremental, for every cancelling configuration",
    why="The tests call the cycle formulas with one set of numbers; modal data over several holes, planes, repeats and "
        "cancelling combine in ways they do not run.",
    files=["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/PathCalculator.cpp"],
    mechanism=[("cycle state", "AttributesPathCalculator::evaluate"), ("distances", "PathCalculator::DrillCyclePath_G17"),
               ("hole position", "PathCalculator::DrillCyclePathHole_G17")],
    observe="get_path_result (work, fast, hole count), get_word_range",
    technique="model-based testing of generated programs against a reference machine",
    design="the reference machine keeps the modal cycle data and adds up the individual moves of a hole (approach, "
           "pecks, retracts, return); each block must report its sums, hole count and position.",
    note="Not claimed because the unit tests pin them or the sources disagree with any control: rapid part of G87, of "
         "G76 and G74/G84 with G99 when incremental, G81 family with depth type incremental, start level below R; "
         "cycles on lathes without Y or with halved X; changing G90/G91 or the plane inside one cycle's data.")

KINDS = ("drill", "drill", "drill", "drill", "linear", "modal", "dwell", "idle", "arc")


class P22(Check):
    id = "P22"
    rule = "at least two drilling blocks are executed"

    def subs(self):
        return [Sub("drill", pathgen.program(KINDS, 12), check_drill, 5000, 500000)]


CHECK = P22()
