"""Rotation of the axes by right angles."""
from hypothesis import strategies as st

import fan
import gen
import pathgen
from checks.p11 import expected
from core import Check, Discard, Sub, Violation
from models import path
from pathgen import near

NAMES = ["X 90", "X 180", "X 270", "Y 90", "Y 180", "Y 270", "Z 90", "Z 180", "Z 270"]
COS = {90: 0, 180: -1, 270: 0}
SIN = {90: 1, 180: 0, 270: -1}


def matrix(opt):
    """The axes turn by +angle about the axis, so the figure turns by -angle: columns are images of x, y, z."""
    axis, a = opt // 3, 90 * (opt % 3 + 1)
    c, s = COS[a], -SIN[a]
    u, v = (axis + 1) % 3, (axis + 2) % 3
    m = [[0, 0, 0], [0, 0, 0], [0, 0, 0]]
    m[axis][axis] = 1
    m[u][u], m[v][u] = c, s
    m[u][v], m[v][v] = -s, c
    return m


def image(opt, k):
    m = matrix(opt)
    for r in range(3):
        if m[r][k]:
            return r, m[r][k]


PAIR = {17: (0, 1), 18: (2, 0), 19: (1, 2)}
PLANE = {frozenset(v): k for k, v in PAIR.items()}


def plane_image(opt, plane):
    """-> (plane, whether the sense of arcs in it turns round)."""
    a, b = PAIR[plane]
    (ia, sa), (ib, sb) = image(opt, a), image(opt, b)
    new = PLANE[frozenset((ia, ib))]
    same = PAIR[new] == (ia, ib)
    return new, (sa * sb < 0) == same


def flip(sign):
    return None if sign == "-" else "-"


def check_words(ctx, c):
    opt = c["opt"]
    rs = fan.run(ctx, [["rotate", i + 1, t, opt] for i, t in enumerate(c["lines"])], g=c["g"], want=["tok"])
    n = 0
    for line, r in zip(c["lines"], rs):
        toks = expected(c["g"], line)
        if toks is None:
            continue
        here = "%s degrees: %r" % (NAMES[opt], line)
        if not r["ok"]:
            raise Violation("%s: rejected: %s" % (here, r["msg"]), sig="rejected")
        got = [list(x) for x in r["tok"]]
        if len(got) != len(toks):
            raise Violation("%s became %s" % (here, got), sig="count")
        dwell = False
        for t, u in zip(toks, got):
            w = list(t)
            if t[0] == "D":
                plain = t[4] is None and t[5] is None and t[9] is None and t[8] is None
                if t[1] == "G" and t[6] and plain and int(t[6]) == 4:
                    dwell = True
                if not dwell and t[1] in "XYZIJK" and len(t[1]) == 1:
                    base = "XYZ" if t[1] in "XYZ" else "IJK"
                    k, s = image(opt, base.index(t[1]))
                    w[1] = base[k]
                    if s < 0:
                        w[3] = flip(t[3])
                    n += 1
                elif not dwell and t[1] == "G" and plain and t[6] and int(t[6]) in (17, 18, 19):
                    w[6] = str(plane_image(opt, int(t[6]))[0])
                    n += 1
                elif not dwell and t[1] == "G" and plain and t[6] and int(t[6]) in (2, 3):
                    # the sense in the XY plane, the one without a plane in the block
                    w[6] = str(5 - int(t[6])) if plane_image(opt, 17)[1] else str(int(t[6]))
                if u[1] == "G" and u[6] and plain and int(u[6]) in (2, 3, 17, 18, 19):
                    u[6] = str(int(u[6]))
                    w[6] = str(int(w[6]))
            if u != w:
                raise Violation("%s: %s became %s, expected %s" % (here, t, u, w), sig="token")
    return n > 0


@st.composite
def word_case(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        k = draw(st.integers(0, 3))
        if k == 0:
            out.append(draw(gen.line_text()))
        else:
            ws = draw(st.lists(st.one_of(
                st.builds(lambda a, v: a + v, st.sampled_from("XYZIJKRFUQ"), gen.sane_number),
                st.sampled_from(["G17", "G18", "G19", "G2", "G3", "G02", "G03", "G017", "G1", "G4", "G04", "G90", "X#1",
                                 "Y-#2", "Z[#1+2]", "Z-[#1]", "G#2", "K+#3", "(Y1)", "N3", "G54.1", "G2.1", "G17.1",
                                 "M3", "P2"])), min_size=1, max_size=6, unique_by=lambda w: w[:1] if w[0] != "G" else w))
            out.append(draw(st.sampled_from([" ", ""])).join(ws))
    return {"g": draw(gen.grammar_id), "opt": draw(st.integers(0, 8)), "lines": out}


@st.composite
def figure_case(draw):
    nc = fan.nc(axes={a: [-1e5, 1e5] for a in "XYZ"},
                base={"X": 0.0, "Y": 0.0, "Z": 0.0, "I": 0.0, "J": 0.0, "K": 0.0})
    m = path.Machine(nc)
    blocks = [pathgen.block(g=[draw(st.sampled_from(["17", "17", "18", "19"]))], f="100", s="500")]
    _r, m = pathgen.simulate(m, blocks[0])
    for _ in range(draw(st.integers(1, 8))):
        b = pathgen.MAKE[draw(st.sampled_from(["linear", "arc", "arc", "arc", "dwell", "idle"]))](draw, m)
        if b is None or not any(b.values()) or any(len(x.split(".")[-1]) > 4 for x in b["w"].values() if "." in x):
            continue
        r, after = pathgen.simulate(m, b)
        if isinstance(r, Exception):
            continue
        blocks.append(b)
        m = after
    return {"nc": nc, "opt": draw(st.integers(0, 8)), "blocks": blocks,
            "style": draw(st.lists(st.integers(0, 1000), min_size=8, max_size=8))}


def check_figure(ctx, c):
    opt = c["opt"]
    lines = [pathgen.text(b, [0], 0) if any(int(x.split(".")[0]) == 4 for x in b["g"]) else pathgen.text(b, c["style"], i)
             for i, b in enumerate(c["blocks"])]
    m = path.Machine(c["nc"])
    tols, planes = [], []
    for b in c["blocks"]:
        r, m = pathgen.simulate(m, b)
        if isinstance(r, Exception):
            raise Discard
        tols.append(r["tol"])
        planes.append(m.plane)
    rot = fan.run(ctx, [["rotate", i + 1, t, opt] for i, t in enumerate(lines)], g="ref", want=["tok"])
    turned = [" ".join(fan.tokens_text([x]) for x in r["tok"]) for r in rot]
    kw = dict(g="ref", set_=[True, False, True, False, False], nc_=c["nc"], want=["pr", "wr"])
    a = fan.run(ctx, [["parse", i + 1, t] for i, t in enumerate(lines)], **kw)
    z = fan.run(ctx, [["parse", i + 1, t] for i, t in enumerate(turned)], **kw)
    moved = False
    for i, (x, y, tol) in enumerate(zip(a, z, tols)):
        here = "%s degrees: block %d of %s turned into %s" % (NAMES[opt], i + 1, lines[:i + 1][-5:], turned[:i + 1][-5:])
        if not x["ok"]:
            break
        if not y["ok"]:
            raise Violation("%s is rejected: %s" % (here, y["msg"]), sig="rejected")
        for k in range(3):
            r, s = image(opt, k)
            if not near(y["wr"]["XYZ"[r]][1], s * x["wr"]["XYZ"[k]][1], 1e-6):
                raise Violation("%s: position %s instead of the turned %s" % (
                    here, {q: y["wr"][q][1] for q in "XYZ"}, {q: x["wr"][q][1] for q in "XYZ"}), sig="position")
        for k in (1, 2):
            if not near(y["pr"][k], x["pr"][k], 2 * tol):
                sig = "path"
                b = c["blocks"][i]
                if plane_image(opt, planes[i])[1] != plane_image(opt, 17)[1] and k == 1 and (
                        "I" in b["w"] or "J" in b["w"] or "K" in b["w"]):
                    sig = "arc sense G%d by %s" % (planes[i], NAMES[opt])
                raise Violation("%s: path %s instead of %s" % (here, y["pr"][1:3], x["pr"][1:3]), sig=sig)
        moved |= x["pr"][1] > 0
    return moved


META = dict(
    title="Rotating the axes turns the whole programmed figure by that right angle",
    statement="Rotating a valid block by 90, 180 or 270 degrees about an axis renames and negates X Y Z and I J K words "
              "as that rotation maps the axes, maps G17/G18/G19 to the rotated plane, turns G2/G3 round where the "
              "rotation reverses the sense in the plane, in any spelling, and changes nothing else (dwell times, "
              "variables, comments, order); running the rotated program gives the rotated position after every block "
              "and the same path lengths.",
    over=["inputs", "histories"],
    over_text="every valid block of every word table, and every program of straight and circular moves in the three "
              "planes, absolute and incremental, for the nine rotations",
    why="The tests compare two of nine tables with themselves; that the tables are rotations at all, for arcs, signs "
        "and planes together, is a geometric statement about whole programs.",
    files=["parser/fanuc/AxesRotator.cpp", "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("rotation", "AttributesAxesRotatorVisitor, wtom")],
    observe="tokens returned by rotate_axes; positions and paths of the program parsed again",
    technique="metamorphic testing: geometry of the rotated program against the rotated geometry",
    design="`words` recomputes every token from the 3x3 rotation matrix; `figure` runs original and rotated program "
           "and compares rotated positions and unchanged lengths.",
    note="Known findings: arcs outside the XY plane where the sense differs from that of XY (the tool does not know the "
         "plane in force). R planes of drilling cycles (an unsigned R) and rotary axes are not claimed.")


class P26(Check):
    id = "P26"
    rule = "words: a word or plane is mapped; figure: a working move is made"

    def subs(self):
        return [Sub("words", word_case(), check_words, 3500, 350000),
                Sub("figure", figure_case(), check_figure, 2500, 250000)]


CHECK = P26()
