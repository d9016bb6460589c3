"""Machine limits (spindle, tool, feed) and the spindle-rotation rule."""
from hypothesis import strategies as st

import fan
from core import Check, Discard, Sub, Violation

NUM = {"S": st.sampled_from(["0", "100", "1000", "1001", "999", "5000", "5001", "19999", "0999"]),
       "T": st.sampled_from(["1", "2", "12", "13", "5", "06", "0101", "1301", "1213", "101", "999", "113", "0613"]),
       "F": st.sampled_from(["0", "100", "500", "500.5", "499.999", "500.", "1000", "1000.001", "0.5", "2500"])}
M = ["3", "4", "5", "03", "04", "6", "8", "9", "13", "30", "19"]
G = ["0", "1", "01", "2", "80", "81", "83", "089", "89", "90", "73", "10", "54", "79", "81.1", "83.5"]


@st.composite
def block(draw):
    k = draw(st.integers(0, 19))
    if k == 0:
        return {"bad": draw(st.sampled_from(["X99999", "G1 S1 M3 Y", "M3 S100 G1 X1000", "QQ", "S100 M3 (", "G1G"]))}
    if k == 1:
        return {"set": draw(st.sampled_from(["S", "F", "T"]))}
    ws = []
    for w in draw(st.lists(st.sampled_from("GGMMSTFFX"), min_size=1, max_size=4)):
        if w in "STF" and w in [x[0] for x in ws]:
            continue
        ws.append([w, draw(st.sampled_from(G)) if w == "G" else draw(st.sampled_from(M)) if w == "M" else
                   draw(st.sampled_from(["0", "5"])) if w == "X" else draw(NUM[w]),
                   w in "STF" and draw(st.integers(0, 6)) == 0])
    if "X" in [x[0] for x in ws] and [x[0] for x in ws].count("X") > 1:
        ws = [x for i, x in enumerate(ws) if x[0] != "X" or i == [y[0] for y in ws].index("X")]
    return {"w": ws}


@st.composite
def sub_case(draw):
    lim = {"mss": draw(st.sampled_from([0, 1000, 5000, 100])), "items": draw(st.sampled_from([1, 5, 12, 100])),
           "mwf": draw(st.sampled_from([100.0, 500.0, 500.5, 1000.0]))}
    return {"lim": lim, "mtt": draw(st.integers(0, 2)), "oprot": draw(st.integers(0, 4)) == 0,
            "on": draw(st.integers(0, 7)) != 0, "steps": draw(st.lists(block(), min_size=1, max_size=9)),
            "reset": draw(st.integers(0, 9))}


class Model:
    def __init__(self, c):
        self.c = c
        self.reset()

    def reset(self):
        self.G = self.M = self.S = self.told = False

    def block(self, ws):
        """-> None or the text the message must contain."""
        c = self.c
        if not c["on"]:
            return None
        for w, v, _ in ws:
            if w == "S" and int(v) > c["lim"]["mss"]:
                return "[S]"
            if w == "T":
                t = v[:len(v) // 2] if c["mtt"] == 1 and len(v) > 2 else v
                if int(t) > c["lim"]["items"]:
                    return "[T]"
            if w == "F" and float(v) > c["lim"]["mwf"]:
                return "[F]"
        for w, v, _ in ws:
            if w == "S":
                self.S = True
                if c["oprot"]:
                    return "[S]"
            elif w == "M" and int(v) in (3, 4):
                self.M = True
                if c["oprot"]:
                    return "M3"
            elif w == "G" and (v.split(".")[0].lstrip("0") == "1" or 81 <= int(v.split(".")[0]) <= 89 and
                               v != "81.1") and not c["oprot"]:
                self.G = True
        if c["oprot"] or self.told or not self.G:
            return None
        if not self.S:
            self.told = True
            return "[S]"
        if not self.M:
            self.told = True
            return "M3"
        return None


def check_limits(ctx, c):
    m = Model(c)
    ops, exp = [], []
    cut = 0
    for i, s in enumerate(c["steps"]):
        if i and c["reset"] == i:
            ops.append(["resetpath"])
            exp.append(None)
            m.reset()
        if "bad" in s:
            ops.append(["parse", i + 1, s["bad"]])
            exp.append("any")
            continue
        if "set" in s:
            continue
        pre, parts = [], []
        for w, v, mac in s["w"]:
            if mac and float(v) and not v.startswith("0"):
                ident = {"S": 21, "T": 22, "F": 23}[w]
                pre.append(["parse", i + 1, "#%d=%s" % (ident, v)])
                parts.append("%s#%d" % (w, ident))
            else:
                parts.append(w + v)
        for p in pre:
            ops.append(p)
            exp.append(None)
        ops.append(["parse", i + 1, " ".join(parts)])
        e = m.block(s["w"])
        exp.append(e)
        cut += e is not None
    if not ops:
        raise Discard
    nc = fan.nc(mtt=c["mtt"], mss=c["lim"]["mss"], items=c["lim"]["items"], mwf=c["lim"]["mwf"],
                def_={"oprot": c["oprot"]})
    rs = fan.run(ctx, ops, g="ref", set_=[True, False, False, c["on"], False], nc_=nc)
    for i, (o, e, r) in enumerate(zip(ops, exp, rs)):
        here = "block %d of %s (limits S%d T%d F%g, machine type %d, operator rotation %s)" % (
            i + 1, [x[-1] for x in ops[:i + 1]][-8:], c["lim"]["mss"], c["lim"]["items"], c["lim"]["mwf"], c["mtt"],
            c["oprot"])
        if e == "any":
            if r["ok"]:
                raise Violation("%s is accepted" % here, sig="bad")
        elif e is None:
            if not r["ok"]:
                raise Violation("%s is rejected: %s" % (here, r["msg"]), sig="rejected")
        else:
            ctx.label("rejected " + e)
            if r["ok"]:
                raise Violation("%s is accepted although it must be rejected (%s)" % (here, e), sig="accepted")
            if e.strip("[]") not in r["msg"].split(":", 2)[-1]:
                raise Violation("%s: message %r does not name %s" % (here, r["msg"], e), sig="message")
    return cut >= 1


META = dict(
    title="Spindle, tool and feed limits and the spindle-start rule are always enforced",
    statement="With machine settings verified, a block is rejected, naming the word, exactly when its spindle speed, "
              "tool number (on a lathe the tool part of a turret-and-offset number) or feed (with decimals) exceeds "
              "the machine's limit, written directly or through a variable; and the first cutting block (G1, G81-G89) "
              "before S and M3/M4 have both been commanded is rejected once, naming what is missing; if the operator "
              "starts the spindle, S, M3 and M4 are rejected instead. A reset forgets all this, rejected blocks do "
              "not count as commanded, and with verification off none of it applies.",
    over=["histories", "inputs"],
    over_text="every program of up to 9 blocks of G, M, S, T, F, X words for every limit, machine type and operator "
              "setting, with a reset anywhere",
    why="The tests try one value above each limit; boundaries, decimals, lathe digits, variables and the order of S, "
        "M3 and cutting over a whole program are not sampled.",
    files=["parser/fanuc/RangeVerifier.cpp", "parser/fanuc/RotationVerifier.cpp",
           "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("limits", "RangeVerifierVisitor"), ("spindle start", "RotationVerifier::operator()"),
               ("reset", "AllAttributesParser::reset_attributes_path_calculator")],
    observe="verdict and message of every block",
    technique="model-based testing of generated histories against a reference state machine",
    design="a few-line state machine (S seen, M3/M4 seen, cutting seen, already told) plus the three limits predicts "
           "each verdict and the named word.",
    note="An S, M3 or cutting code in a block that another limit rejects does not count as commanded. Exact texts are "
         "not compared.")


class P18(Check):
    id = "P18"
    rule = "at least one block must be rejected for a limit or a missing spindle start"

    def subs(self):
        return [Sub("limits", sub_case(), check_limits, 6000, 600000)]


CHECK = P18()
