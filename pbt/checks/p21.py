"""Arcs, helices and spirals: the path is the length of the curve."""
import pathgen
from core import Check, Sub, Violation
from pathgen import near, play, verdicts, where


def check_curve(ctx, c):
    steps = play(ctx, c)
    verdicts(steps)
    hit = 0
    finding = None
    for i, (b, t, e, r) in enumerate(steps):
        if not r["ok"]:
            break
        work, fast = r["pr"][1:3]
        if e["pinned"] is not None and not near(work, e["work"], e["tol"]) and near(work, e["pinned"], e["tol"]):
            finding = finding or "%s: helix path %.9g instead of %.9g: its pitch is multiplied by 2 pi" % (
                where(steps, i), work, e["work"])
            work = e["work"]
        if not near(work, e["work"], e["tol"]) or not near(fast, e["fast"], e["tol"]):
            raise Violation("%s: path is %.9g working, %.9g rapid; the curve from %s to %s is %.9g (%.9g rapid)" % (
                where(steps, i), work, fast, e["from"], e["pos"], e["work"], e["fast"]), sig="length")
        for a in "XYZ":
            if not near(r["wr"][a][1], e["pos"][a], 1e-6):
                raise Violation("%s: position of %s is %.9g, not %.9g" % (where(steps, i), a, r["wr"][a][1],
                                                                          e["pos"][a]), sig="position")
        if any(k in b["w"] for k in "IJKR") and e["work"] > 0:
            hit += 1
            ctx.label("radius" if "R" in b["w"] else "centre")
            if "Q" in b["w"] or "L" in b["w"]:
                ctx.label("spiral")
    if finding:
        raise Violation(finding, sig="helix-pitch")
    return hit >= 1


META = dict(
    title="The path of arcs, helices and spirals is the length of the curve",
    statement="A G2 or G3 block reports as working path the length of the arc it describes in the active plane (G17 XY, "
              "G18 ZX, G19 YZ), clockwise for G2 and counter-clockwise for G3: given by its centre the angle swept "
              "(a full turn when it ends where it starts), given by R the short arc for R>0 and the long one for R<0; "
              "a full-turn or quarter-turn helix adds the third axis by Pythagoras; Q or L gives an Archimedes spiral. "
              "Nothing of a curve carries over to later straight moves or separate curves.",
    over=["histories", "inputs"],
    over_text="every program of up to 10 curves and straight moves in the three planes, absolute and incremental, radii "
              "0.1 to 40, sweeps 0.05 rad to a full turn including the multiples of 45 degrees",
    why="The tests compute four arcs with fixed coordinates in one plane; direction, quadrant, axis and radius cases "
        "form a continuum they cannot enumerate.",
    files=["parser/fanuc/PathCalculator.cpp", "parser/fanuc/AttributesPathCalculator.cpp"],
    mechanism=[("arc length", "PathCalculator::G17"), ("helix", "PathCalculator::HelixG17"),
               ("spiral", "PathCalculator::G2G3_Helix_Archimedes"), ("plane selection", "AttributesPathCalculator::evaluate")],
    observe="get_path_result and get_word_range after each block",
    technique="model-based testing of generated programs against a geometric reference",
    design="arcs are drawn from centre, radius, start and sweep angle around the current position and written with four "
           "decimals; the expected length is radius times the swept angle by atan2, helices by Pythagoras, spirals by "
           "numerical integration; the tolerance follows from the rounding of the written end point.",
    note="Not claimed: arcs that miss their end point by more than 0.9 % of the radius, omitted centre words, partial "
         "helices other than a quarter turn (the code counts any as a quarter, pinned by its tests), lathe helices.")

KINDS = ("arc", "arc", "arc", "helix", "linear", "spiral", "modal", "idle", "dwell")


class P21(Check):
    id = "P21"
    rule = "at least one curve of non-zero length"

    def subs(self):
        return [Sub("curve", pathgen.program(KINDS, 10), check_curve, 3500, 350000),
                Sub("arc", pathgen.program(("arc",), 4), check_curve, 2500, 250000)]


CHECK = P21()
