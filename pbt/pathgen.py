"""Generation of motion programs against the reference machine, and their comparison with the parser."""
import copy
import math
import random

from hypothesis import strategies as st

import fan
from core import Discard, Violation
from models import path

coordv = st.one_of(st.integers(-60, 60).map(str), st.integers(-60, 60).map(lambda v: "%d." % v),
                   st.integers(-6000, 6000).map(lambda v: "%.2f" % (v / 100)),
                   st.sampled_from(["0", "0.5", "-0.5", "0.0001", "-0.25", "100", "-100", "12.3456"]))
ALL = ("linear", "arc", "drill", "helix", "spiral", "modal", "dwell", "tool", "home", "data", "idle")


def fmt(v):
    s = "%.4f" % v
    s = s.rstrip("0").rstrip(".") if "." in s else s
    return "0" if s in ("-0", "") else s


def block(**kw):
    b = {"g": [], "w": {}, "m": [], "t": None, "f": None, "s": None}
    b.update(kw)
    return b


def feedwords(draw, b, p):
    if draw(st.integers(0, p)) == 0:
        b["f"] = draw(st.sampled_from(["100", "250", "0.2", "12.5", "1000"]))
    if draw(st.integers(0, p + 2)) == 0:
        b["s"] = draw(st.sampled_from(["100", "1000", "4000"]))


def modalwords(draw, b, plane=True):
    if draw(st.integers(0, 5)) == 0:
        b["g"].append(draw(st.sampled_from(["90", "91", "90", "90"])))
    if plane and draw(st.integers(0, 7)) == 0:
        b["g"].append(draw(st.sampled_from(["17", "18", "19"])))
    if draw(st.integers(0, 9)) == 0:
        b["g"].append(draw(st.sampled_from(["94", "95"])))
    if draw(st.integers(0, 9)) == 0:
        b["g"].append(draw(st.sampled_from(["98", "99"])))


def after(m, b):
    """Plane and programming mode in force inside the block."""
    plane, prog = m.plane, m.prog
    for g in b["g"]:
        if g in ("17", "18", "19"):
            plane = int(g)
        if g in ("90", "91"):
            prog = int(g)
    return plane, prog


def linear(draw, m):
    b = block()
    modalwords(draw, b)
    if draw(st.integers(0, 2)) or m.g not in (0, 1):
        b["g"].append(draw(st.sampled_from(["0", "1", "1"])))
    for a in draw(st.lists(st.sampled_from("XYZ"), unique=True, max_size=3)):
        b["w"][a] = draw(coordv)
    feedwords(draw, b, 3)
    return b


def arc(draw, m, helix=False):
    b = block()
    modalwords(draw, b)
    plane, prog = after(m, b)
    g = draw(st.sampled_from(["2", "3"]))
    if str(m.g) != g or draw(st.booleans()):
        b["g"].append(g)
    a1, a2, a3 = path.PLANE[plane]
    x, y = m.pos[a1], m.pos[a2]
    use_r = draw(st.integers(0, 3)) == 0
    r = draw(st.one_of(st.integers(1, 400).map(lambda v: v / 10), st.sampled_from([0.5, 1.0, 5.0, 25.0])))
    t0 = draw(st.one_of(st.integers(0, 7).map(lambda k: k * math.pi / 4), st.floats(0, 2 * math.pi)))
    kind = draw(st.integers(0, 5))
    if helix:
        ang = 2 * math.pi if kind < 3 else math.pi / 2
        if ang < 6:
            t0 = draw(st.sampled_from([0.3, 0.0, math.pi / 2, 1.1, math.pi, 4.0, 2.0, 3 * math.pi / 2]))
    elif kind == 0:
        ang = 2 * math.pi
    elif kind < 3:
        ang = draw(st.integers(1, 7)) * math.pi / 4
    else:
        ang = draw(st.floats(0.05, 2 * math.pi - 0.05))
    s = -1 if g == "2" else 1
    cx, cy = x - r * math.cos(t0), y - r * math.sin(t0)
    full = ang > 6.28
    ex, ey = (x, y) if full else (cx + r * math.cos(t0 + s * ang), cy + r * math.sin(t0 + s * ang))
    if prog == 91:
        ex, ey = ex - x, ey - y
    if not full or helix or draw(st.booleans()):
        b["w"][a1] = fmt(ex)
        b["w"][a2] = fmt(ey)
        if not helix and draw(st.integers(0, 2)) == 0:  # a word that does not change may be left out
            for a, v, here in ((a1, ex, x), (a2, ey, y)):
                if abs(v - (0 if prog == 91 else here)) < 1e-9 and len(b["w"]) > 1:
                    b["w"].pop(a)
    if use_r and not full:
        chord = math.hypot(2 * r * math.sin(ang / 2), 0)
        rr = math.ceil(r * 1000 + 1) / 1000
        b["w"]["R"] = fmt(-rr if ang > math.pi else rr)
        if chord > 2 * rr:
            return None
    else:
        b["w"][path.CENTRE[a1]] = fmt(cx - x)
        b["w"][path.CENTRE[a2]] = fmt(cy - y)
    if helix:
        dz = draw(st.sampled_from([1.0, -1.0, 0.5, 5.0, -2.25, 10.0]))
        b["w"][a3] = fmt(dz if prog == 91 else m.pos[a3] + dz)
        if "R" not in b["w"]:
            b["w"][path.CENTRE[a3]] = draw(st.sampled_from(["0", "1", "2"]))
    feedwords(draw, b, 4)
    return b


def spiral(draw, m):
    b = block(g=[draw(st.sampled_from(["2", "3"]))])
    modalwords(draw, b)
    plane, prog = after(m, b)
    a1, a2, _ = path.PLANE[plane]
    b["w"][path.CENTRE[a1]] = draw(st.sampled_from(["3", "0", "-4", "10", "0.5"]))
    b["w"][path.CENTRE[a2]] = draw(st.sampled_from(["4", "5", "-3", "1.5"]))
    if draw(st.booleans()):
        b["w"]["Q"] = draw(st.sampled_from(["1", "2.5", "0.5"]))
    else:
        b["w"]["L"] = draw(st.sampled_from(["1", "2", "5"]))
    if draw(st.booleans()):
        b["w"][a1] = draw(coordv)
        b["w"][a2] = draw(coordv)
    return b


def drill(draw, m):
    b = block()
    running = m.cycle is not None and m.g > 80 or m.g in (73, 74, 76)
    if not running:
        modalwords(draw, b)
    elif draw(st.integers(0, 6)) == 0:
        b["g"].append(draw(st.sampled_from(["98", "99"])))
    elif draw(st.integers(0, 6)) == 0:
        b["g"].append(draw(st.sampled_from(["90", "91"])))
    plane, prog = after(m, b)
    a1, a2, a3 = path.PLANE[plane]
    new = not running or draw(st.integers(0, 5)) == 0
    code = m.g
    if new:
        code = draw(st.sampled_from([73, 74, 76, 81, 81, 82, 83, 83, 84, 85, 86, 87, 88, 89]))
        b["g"].append(str(code))
    for a in (a1, a2):
        if draw(st.integers(0, 2)):
            b["w"][a] = draw(coordv)
    p = 0 if not running else 5
    start = m.pos[a3]
    rel = draw(st.sampled_from([0.0, 0.5, 1.0, 2.0, 5.0, 10.0]))
    dep = draw(st.sampled_from([0.5, 1.0, 3.0, 10.0, 12.5, 20.0, 0.3]))
    inc = prog == 91
    if not running or draw(st.integers(0, p)) == 0:
        b["w"]["R"] = fmt(-rel if inc else start - rel)
        b["w"][a3] = fmt(-dep if inc else dep if m.nc["def"]["depth"] and draw(st.booleans()) else
                         -dep if m.nc["def"]["depth"] else start - rel - dep)
    elif running and not inc and m.cycle and draw(st.integers(0, 4)) == 0:
        b["w"][a3] = fmt((m.cycle["R"] or 0.0) - dep)
    if code in (73, 76, 83, 87) and (new or draw(st.integers(0, 5)) == 0):
        if draw(st.integers(0, 15)):
            b["w"]["Q"] = draw(st.sampled_from(["1", "2", "0.1", "0.5", "3", "2.5", "25", "5"]))
    if draw(st.integers(0, 3 if inc else 8)) == 0:
        b["w"]["K"] = draw(st.sampled_from(["0", "1", "2", "3", "7"]))
    if new and draw(st.integers(0, 30)) == 0:
        b["w"].pop(draw(st.sampled_from([a3, "R"])), None)
    feedwords(draw, b, 5)
    return b


def modal(draw, m):
    b = block()
    k = draw(st.integers(0, 4))
    if k == 0:
        b["g"].append("80")
    modalwords(draw, b, plane=k != 1)
    feedwords(draw, b, 1)
    if draw(st.integers(0, 4)) == 0:
        b["m"].append(draw(st.sampled_from(["3", "5", "8", "30", "60", "50"])))
    return b


def dwell(draw, m):
    b = block(g=[draw(st.sampled_from(["4", "4", "04"]))])
    w, v = draw(st.sampled_from([("P", "500"), ("P", "2."), ("P", "1500"), ("X", "2.5"), ("X", "1"), ("U", "3")]))
    b["w"][w] = v
    return b


def tool(draw, m):
    b = block()
    k = draw(st.integers(0, 3))
    if k < 3:
        b["t"] = draw(st.sampled_from(["1", "2", "3", "2", "12"]))
    if k != 2:
        b["m"].append(draw(st.sampled_from(["6", "06"])))
    if draw(st.integers(0, 4)) == 0:
        feedwords(draw, b, 0)
    return b


def exchange(draw, m):
    return block(t=draw(st.sampled_from(["1", "2", "2", "12"])), m=["6"])


def home(draw, m):
    b = block(g=["28"])
    for a in draw(st.lists(st.sampled_from("XYZ"), unique=True, max_size=3)):
        b["w"][a] = "0"
    if draw(st.integers(0, 2)) == 0:
        b["g"].insert(0, draw(st.sampled_from(["90", "91"])))
    return b


def data(draw, m):
    g = draw(st.sampled_from(["10", "52", "92", "68", "50.1", "51.1"]))
    b = block(g=[g])
    for a in draw(st.lists(st.sampled_from("XYZ"), unique=True, min_size=1, max_size=3)):
        b["w"][a] = draw(coordv)
    if g == "68":
        b["w"]["R"] = draw(st.sampled_from(["30", "45"]))
    return b


def idle(draw, m):
    b = block()
    k = draw(st.integers(0, 3))
    if k == 0:
        b["m"].append("98")
        b["w"]["P"] = draw(st.sampled_from(["100", "1000"]))
    elif k == 1:
        b["m"].append(draw(st.sampled_from(["3", "8", "9"])))
    elif k == 2:
        b["g"].append(draw(st.sampled_from(["54", "55", "40", "49", "64", "21", "91.1", "80.5", "81.8", "91.1"])))
    return b


MAKE = {"linear": linear, "arc": arc, "helix": lambda d, m: arc(d, m, True), "drill": drill, "spiral": spiral,
        "exchange": exchange, "modal": modal, "dwell": dwell, "tool": tool, "home": home, "data": data, "idle": idle}


@st.composite
def machine(draw, lathe=True):
    b = st.booleans()
    d = {"motion": draw(st.integers(0, 1)), "plane": draw(st.sampled_from([17, 17, 18, 19])), "units": 0,
         "prog": draw(st.sampled_from([90, 90, 91])), "feed": draw(st.sampled_from([94, 94, 95])),
         "depth": draw(st.sampled_from([0, 0, 1])), "ret": draw(st.sampled_from([98, 99])), "c0": draw(b),
         "c1": draw(b), "c2": draw(b), "c3": draw(b), "c80rapid": draw(b), "oprot": False, "texch": draw(b),
         "autorapid": draw(b)}
    z = draw(st.sampled_from([0.0, 10.0, 100.0, -5.0]))
    return fan.nc(mt=draw(st.integers(0, 22)), mtt=draw(st.sampled_from([0, 0, 0, 1, 2] if lathe else [0])),
                  axes={a: [-100000.0, 100000.0] for a in "XYZ"},
                  base={"X": draw(st.sampled_from([0.0, 10.0])), "Y": 0.0, "Z": z, "I": 0.0, "J": 0.0, "K": 0.0},
                  tool={"X": 10.0, "Y": -10.0, "Z": 50.0}, dia=draw(b), ameas=draw(b), def_=d,
                  tmc=draw(st.sampled_from([["M", "50"], ["", ""]])), tet=draw(st.integers(0, 9)),
                  pet=draw(st.integers(0, 9)), tmt=draw(st.integers(0, 9)), pec=["M", "60"],
                  zp=draw(st.sampled_from([[0.0, 0.0, 0.0]] * 3 + [[12.5, -20.0, 100.0], [0.0, 0.0, -7.0], [1.0, 2.0, 4.0]])),
                  mff=draw(st.sampled_from([20000.0, 1000.0, 123.0])))


def simulate(m, b):
    """-> (result | Stop | Unclaimed, machine after)."""
    n = copy.deepcopy(m)
    try:
        return n.step(b), n
    except (path.Stop, path.Unclaimed) as e:
        return e, n


@st.composite
def program(draw, kinds, n=12, lathe=True):
    """A program drawn block by block next to the reference machine; ends at a block it must reject."""
    nc = draw(machine(lathe))
    m = path.Machine(nc)
    blocks = []
    if draw(st.integers(0, 4)):
        b = block(f=draw(st.sampled_from(["100", "250.5"])), s="500")
        _, m = simulate(m, b)
        blocks.append(b)
    for _ in range(draw(st.integers(1, n))):
        b = MAKE[draw(st.sampled_from(kinds))](draw, m)
        if b is None or not any(b.values()):
            continue
        if any(len(x.split(".")[-1]) > 4 for x in b["w"].values() if "." in x):
            continue
        r, after_ = simulate(m, b)
        if isinstance(r, path.Unclaimed):
            continue
        blocks.append(b)
        if isinstance(r, path.Stop):
            break
        m = after_
    return {"nc": nc, "blocks": blocks, "style": draw(st.lists(st.integers(0, 1000), min_size=8, max_size=8))}


def text(b, style, i):
    """One spelling of the block: the order of words other than T and M, leading zeros and blanks vary."""
    k = style[i % len(style)] + i
    gs = ["G" + (g if k % 3 or len(g) > 1 or "." in g else "0" + g) for g in b["g"]]
    ws = [a + v for a, v in b["w"].items()]
    if k % 5 == 1:
        ws.reverse()
    out = gs + ws
    if k % 7 == 2:
        out = ws + gs
    if b["s"] is not None:
        out.append("S" + b["s"])
    if b["f"] is not None:
        out.insert(len(out) if k % 2 else 0, "F" + b["f"])
    if b["t"] is not None:
        out.append("T" + b["t"])
    out += ["M" + x for x in b["m"]]
    s = ("" if k % 11 == 3 else " ").join(out)
    if k % 13 == 4:
        s = "N%d " % (i + 1) + s
    if k % 17 == 5:
        s += " (X99 G1)"
    return s


def wide(b, style, i, lathe=False):
    """Another spelling of the block: leading zeros and plus signs everywhere, decimal points, blanks, comments."""
    rnd = random.Random(style[i % len(style)] * 1009 + i)

    def zeros(v, most):
        return "0" * rnd.choice([0, 0, 1, most]) + v

    def number(a, v):
        sign = v[0] if v[:1] in ("-", "+") else rnd.choice(["", "", "+"])
        v = v.lstrip("+-")
        if "." not in v:
            v = zeros(v, 2) + ("" if a in "PL" else rnd.choice(["", "", ".", ".0", ".000"]))
        elif len(v.split(".")[1]) < 4:
            v = zeros(v, 2) + rnd.choice(["", "0"])
        return a + sign + v

    gs = ["G" + zeros(g, 2) for g in b["g"]]
    ws = [number(a, v) for a, v in b["w"].items()]
    if b["s"] is not None:
        ws.append("S" + zeros(b["s"], 2))
    if b["f"] is not None:
        ws.append("F" + zeros(b["f"], 2))
    rnd.shuffle(ws)
    out = rnd.choice([gs + ws, ws + gs])
    if b["t"] is not None:
        out.append("T" + (b["t"] if lathe else zeros(b["t"], 1)))  # a lathe splits the digits
    out += ["M" + zeros(m, 2) for m in b["m"]]
    if rnd.randrange(4) == 0:
        out.insert(rnd.randrange(len(out) + 1), "(G0 X1 T9)")
    if rnd.randrange(4) == 0:
        out.insert(0, "N" + zeros(str(i + 1), 2))
    return rnd.choice(["", " ", "  ", "\t"]).join(out)


WANT = ["pr", "wr"]


def play(ctx, c, g="ref", settings=(True, False, True, False, False)):
    """-> [(block, text, expected, result)] for the claimed prefix of the program."""
    m = path.Machine(c["nc"])
    steps = []
    for i, b in enumerate(c["blocks"]):
        r, m = simulate(m, b)
        if isinstance(r, path.Unclaimed):
            break
        steps.append([b, text(b, c["style"], i), r])
        if isinstance(r, path.Stop):
            break
    if not steps:
        raise Discard
    rs = fan.run(ctx, [["parse", i + 1, s[1]] for i, s in enumerate(steps)], g=g, set_=list(settings), nc_=c["nc"],
                 want=WANT + ["mac"])
    return [s + [r] for s, r in zip(steps, rs)]


def near(a, b, tol):
    return abs(a - b) <= tol + 1e-8 * abs(b)


def where(steps, i):
    return "block %d of %s" % (i + 1, [s[1] for s in steps[:i + 1]][-8:])


def verdicts(steps):
    for i, (b, t, e, r) in enumerate(steps):
        if isinstance(e, path.Stop):
            if r["ok"]:
                raise Violation("%s is accepted although %s is missing" % (where(steps, i), e.what), sig="accepted")
            if e.what not in r["msg"]:
                raise Violation("%s: message %r does not name %s" % (where(steps, i), r["msg"], e.what), sig="message")
        elif not r["ok"]:
            raise Violation("%s is rejected: %s" % (where(steps, i), r["msg"]), sig="rejected")
