"""Linear motions: path of G0/G1, reference points, tool exchange, and the position they leave."""
import pathgen
from core import Check, Sub, Violation
from pathgen import near, play, verdicts, where

KINDS = ("linear", "linear", "linear", "modal", "dwell", "tool", "home", "data", "idle")


def check_linear(ctx, c):
    steps = play(ctx, c)
    verdicts(steps)
    hit = 0
    for i, (b, t, e, r) in enumerate(steps):
        if not r["ok"]:
            break
        tot, work, fast = r["pr"][:3]
        for name, got, exp in (("working", work, e["work"]), ("rapid", fast, e["fast"])):
            if not near(got, exp, e["tol"]):
                raise Violation("%s: %s path is %.9g, the motion from %s to %s is %.9g" % (
                    where(steps, i), name, got, e["from"], e["pos"], exp), sig="path")
        wr = {k: v for k, v in r["wr"].items()}
        for a in "XYZ":
            if not near(wr[a][1], e["pos"][a], 1e-6):
                raise Violation("%s: position of %s is %.9g, not %.9g" % (where(steps, i), a, wr[a][1], e["pos"][a]),
                                sig="position")
            if not (wr[a][0] <= wr[a][1] + 1e-9 and wr[a][1] <= wr[a][2] + 1e-9):
                raise Violation("%s: range %s of %s does not contain its position" % (where(steps, i), wr[a], a),
                                sig="range")
        hit += e["work"] + e["fast"] > 0
        if e["work"]:
            ctx.label("working")
        if e["lathe"]:
            ctx.label("lathe")
    return hit >= 2


META = dict(
    title="The path of straight moves is the distance travelled, from the true position",
    statement="For every sequence of G0 and G1 blocks, absolute and incremental and mixed with blocks that do not move "
              "the tool (dwell G4, data setting G10/G52/G68/G92/G50.1/G51.1, comments, modal codes, tool selection), "
              "each block's working (G1) or rapid (G0) path is the distance from the position the previous blocks left "
              "to the programmed one (on a lathe X counts half unless diameter programming is on), other paths are 0; "
              "G28 and a tool exchange go rapidly to their reference point; a working path without a feed is rejected.",
    over=["histories", "inputs"],
    over_text="every program of up to 12 such blocks from any machine settings (reference points, modal defaults, "
              "machine type, diameter programming, exchange code), in any spelling",
    why="The tests evaluate a few blocks from fixed positions; a position or modal value corrupted by an earlier "
        "non-moving block only shows in longer mixed programs.",
    files=["parser/fanuc/AttributesPathCalculator.cpp", "parser/fanuc/PathCalculator.cpp"],
    mechanism=[("motion of a block", "AttributesPathCalculator::evaluate"), ("position kept", "copy_on_return"),
               ("distance", "MathUtils::CalcLineLength3d")],
    observe="get_path_result and get_word_range after each block",
    technique="model-based testing of generated programs against a reference machine",
    design="programs are drawn block by block next to models/path.py, a machine that keeps its position in plain "
           "coordinates and measures moves by geometry; each accepted block must report the model's working and rapid "
           "path and leave the model's position; missing feed must be rejected by name.",
    note="Not claimed: the modal motion code after an exchange or G28, coordinates in a tool selection block, motion "
         "codes combined with an exchange or G28 in one block.")


class P20(Check):
    id = "P20"
    rule = "at least two blocks of the program move"

    def subs(self):
        return [Sub("linear", pathgen.program(KINDS, 12), check_linear, 3500, 350000)]


CHECK = P20()
