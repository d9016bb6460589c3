"""Travel limits with the work zero point."""
import copy
import re

from hypothesis import strategies as st

import fan
import pathgen
from core import Check, Discard, Sub, Violation
from models import path

cv = st.one_of(st.integers(-30, 30).map(str), st.integers(-60, 60).map(lambda v: "%.1f" % (v / 2)),
               st.sampled_from(["20", "-20", "20.0001", "-20.0001", "0", "10", "-10"]))


@st.composite
def block(draw):
    b = pathgen.block()
    k = draw(st.integers(0, 13))
    if k == 0:
        b["g"] = ["28"]
        for a in draw(st.lists(st.sampled_from("XYZ"), unique=True, max_size=3)):
            b["w"][a] = "0"
    elif k == 1:
        b["t"], b["m"] = draw(st.sampled_from("123")), ["6"]
    elif k == 2:
        b["m"] = [draw(st.sampled_from(["8", "9", "30"]))]
    elif k == 3:
        b["g"] = [draw(st.sampled_from(["10", "52", "92", "4"]))]
        b["w"] = {"X": draw(cv)}
    else:
        if draw(st.integers(0, 4)) == 0:
            b["g"].append(draw(st.sampled_from(["90", "91"])))
        if draw(st.booleans()):
            b["g"].append(draw(st.sampled_from(["0", "1"])))
        for a in draw(st.lists(st.sampled_from("XYZ"), unique=True, max_size=3)):
            b["w"][a] = draw(cv)
        if draw(st.integers(0, 9)) == 0:
            b["w"]["A"] = draw(cv)
        if not any(b.values()):
            b["w"]["X"] = "1"
    return b


@st.composite
def sub_case(draw):
    zp = draw(st.one_of(st.just([0.0, 0.0, 0.0]), st.lists(st.sampled_from([0.0, 5.0, -7.5, 10.0, 100.0, -20.0]),
                                                          min_size=3, max_size=3)))
    axes = {a: sorted(draw(st.lists(st.integers(-40, 40).map(float), min_size=2, max_size=2))) for a in
            draw(st.sampled_from(["XYZ", "XYZ", "XYZA", "XZ", "Y", "ZA"]))}
    pt = {a: draw(st.sampled_from([0.0, 5.0, -10.0, 20.0])) for a in "XYZ"}
    tl = {a: draw(st.sampled_from([0.0, 5.0, -10.0, 20.0, 41.0])) for a in "XYZ"}
    if draw(st.integers(0, 3)):
        for i, a in enumerate("XYZ"):  # around the work: moves inside are likely
            pt[a] += zp[i]
            tl[a] += zp[i]
            if a in axes:
                axes[a] = [zp[i] - draw(st.sampled_from([20.0, 30.0, 45.0])),
                           zp[i] + draw(st.sampled_from([20.0, 30.0, 45.0]))]
    return {"zp": zp, "axes": axes, "base": pt, "tool": tl, "mtt": draw(st.sampled_from([0, 0, 1, 2])),
            "prog": draw(st.sampled_from([90, 90, 91])), "on": draw(st.integers(0, 9)) != 0,
            "style": draw(st.lists(st.integers(0, 1000), min_size=8, max_size=8)),
            "blocks": draw(st.lists(block(), min_size=3, max_size=12))}


def check_travel(ctx, c):
    zp = c["zp"]
    nc = fan.nc(axes=c["axes"], base=dict(c["base"], I=0.0, J=0.0, K=0.0), tool=c["tool"], zp=zp, mtt=c["mtt"],
                def_={"prog": c["prog"]})
    lim = {a: [v[0] - (zp["XYZ".index(a)] if a in "XYZ" else 0.0), v[1] - (zp["XYZ".index(a)] if a in "XYZ" else 0.0)]
           for a, v in c["axes"].items()}
    m = path.Machine(nc)
    ops, exp = [["parse", 1, "F100 S100"]], [None]
    _r, m = pathgen.simulate(m, pathgen.block(f="100", s="100"))
    extra = None
    cut = 0
    for i, b in enumerate(c["blocks"]):
        if "A" in b["w"] and (m.prog == 91 or "91" in b["g"]):
            continue
        r, n = pathgen.simulate(m, {**b, "w": {k: v for k, v in b["w"].items() if k != "A"}})
        if isinstance(r, path.Unclaimed) or isinstance(r, path.Stop):
            continue
        m = n
        if "A" in b["w"]:
            extra = float(b["w"]["A"])
        at = dict(m.pos)
        if extra is not None:
            at["A"] = extra
        out = [a for a in sorted(lim) if a in at and not lim[a][0] <= at[a] <= lim[a][1]]
        moved = any(a in b["w"] for a in "XYZA")
        ops.append(["parse", i + 2, pathgen.text(b, c["style"], i)])
        exp.append((out, at, moved))
        cut += bool(out)
    if len(ops) < 2:
        raise Discard
    rs = fan.run(ctx, ops, g="fanuc_mill", set_=[True, False, True, False, c["on"]], nc_=nc, want=["wr"])
    for i, (o, e, r) in enumerate(zip(ops, exp, rs)):
        if e is None:
            continue
        out, at, moved = e
        here = "block %d of %s (travel %s, zero point %s, work limits %s)" % (
            i + 1, [x[-1] for x in ops[:i + 1]][-8:], c["axes"], zp, lim)
        for a in at:
            if a in r["wr"] and abs(r["wr"][a][1] - at[a]) > 1e-6:
                raise Violation("%s: position of %s is %r, not %r" % (here, a, r["wr"][a][1], at[a]), sig="position")
        if not c["on"]:
            out = []
        if bool(r["ok"]) != (not out):
            raise Violation("%s: %s at %s" % (here, "accepted although %s is out of travel" % out if r["ok"] else
                                              "rejected (%s) although every axis is in its travel" % r["msg"], at),
                            sig="accepted" if r["ok"] else "rejected")
        if out:
            ctx.label("out of travel")
            if not any(re.search(r"\b%s\b" % a, r["msg"]) for a in out):
                raise Violation("%s: message %r names none of %s" % (here, r["msg"], out), sig="message")
    return cut >= 1 and cut < len(ops) - 1


META = dict(
    title="A block that leaves the machine's travel is reported, given the zero point",
    statement="With zero point analysis on, after every block each axis with a travel in the machine settings is "
              "compared with its travel moved by the work zero point (X, Y, Z), limits included: the block is "
              "rejected naming an axis exactly when one is outside, and later blocks are rejected until it is back; "
              "reference and exchange points are machine positions, so in work coordinates they move with the zero "
              "point; with the analysis off nothing is rejected.",
    over=["histories", "inputs"],
    over_text="every program of up to 12 straight, reference point, tool exchange and non-moving blocks, absolute and "
              "incremental, for every travel, zero point and reference point",
    why="The tests use one zero point and a few blocks; signs and boundaries per axis, incremental positions and "
        "reference points combined with a zero point need many configurations.",
    files=["parser/fanuc/RangeVerifier.cpp", "parser/fanuc/AttributesPathCalculator.cpp",
           "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("travel check", "RangeVerifier::operator()"), ("points in work coordinates",
                                                              "AttributesPathCalculator constructor and reset")],
    observe="verdict, message and get_word_range of every block",
    technique="model-based testing of generated programs against a reference machine",
    design="models/path.py follows the position in work coordinates; the verdict is recomputed per axis from it.",
    note="Depth of drilling cycles, intermediate points of G28 and the sweep of arcs are not compared with the travel "
         "by the parser and not claimed; other axes than X, Y, Z only with absolute programming.")


class P19(Check):
    id = "P19"
    rule = "some but not all blocks of the program leave the machine out of travel"

    def subs(self):
        return [Sub("travel", sub_case(), check_travel, 5000, 500000)]


CHECK = P19()
