"""Machining time: path over feed, rapid over rapid feed, dwell and exchange times."""
import pathgen
from core import Check, Sub, Violation
from pathgen import play, verdicts, where

KINDS = ("linear", "linear", "linear", "modal", "dwell", "tool", "home", "idle", "arc", "drill")


def close(a, b):
    return abs(a - b) <= 1e-6 + 1e-7 * abs(b)


def check_time(ctx, c):
    steps = play(ctx, c)
    verdicts(steps)
    last = 0.0
    hit = False
    for i, (b, t, e, r) in enumerate(steps):
        if not r["ok"]:
            break
        total, work, fast = r["tr"][:3]
        # from the reported path, so that an inexact path does not count twice
        pw, pf = r["pr"][1:3]
        ew = e["wt"] * (pw / e["work"]) if e["work"] else 0.0
        ef = pf / c["nc"]["mff"] * 60
        if not close(work, ew):
            raise Violation("%s: working time %.9g s, expected %.9g s (path %.9g)" % (where(steps, i), work, ew, pw),
                            sig="work")
        if not close(fast, ef):
            raise Violation("%s: rapid time %.9g s, expected %.9g s (path %.9g, rapid feed %s)" % (
                where(steps, i), fast, ef, pf, c["nc"]["mff"]), sig="rapid")
        exp = last + ew + ef + e["extra"]
        if abs(total - exp) > 1e-6 + 1e-9 * abs(exp):
            raise Violation("%s: total time grows from %.9g to %.9g s; motion %.9g s, dwell and exchange %.9g s" % (
                where(steps, i), last, total, ew + ef, e["extra"]), sig="total")
        last = total
        if e["work"]:
            hit = True
            ctx.label("per revolution" if e["lathe"] else "per minute")
        if e["extra"]:
            ctx.label("dwell or exchange")
    return hit


META = dict(
    title="Machining time is path over feed, plus dwell and exchange times",
    statement="For every block, working time is working path / F minutes (with G95 and constant spindle speed path / "
              "(F S)) with the F, S and feed mode last programmed wherever they stood, rapid time is rapid "
              "path / configured rapid feed, and the program total grows by both plus G4's P (ms without a point), X or "
              "U seconds, tool exchange, automatic or coded measurement and pallet exchange times; missing F or S is "
              "rejected.",
    over=["histories", "inputs"],
    over_text="every program of up to 12 mixed blocks over machine types, feed modes, exchange and measuring settings",
    why="The tests check a few blocks with F in the same block; modal F, S and modes set in arbitrary earlier blocks, and "
        "their loss, are not observed.",
    files=["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/MathUtils.h"],
    mechanism=[("time of a block", "AttributesPathCalculator::evaluate"), ("formulas", "MathUtils::CalcTime")],
    observe="get_time_result after each block",
    technique="model-based testing of generated programs against a reference machine",
    design="the reference machine keeps F, S, feed mode and exchange settings; working and rapid time must equal the "
           "reported path over the model's feed, the total must grow by exactly these plus the model's extra seconds.",
    note="Not claimed: G96 (constant surface speed; the code takes the path for the diameter, pinned by its tests), F0.")


class P23(Check):
    id = "P23"
    rule = "at least one working block"

    def subs(self):
        return [Sub("time", pathgen.program(KINDS, 12), check_time, 4000, 400000)]


CHECK = P23()
