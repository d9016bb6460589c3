"""Reference machine: the motions a program makes, worked out from geometry (not from the formulas of the tree).

Each block is a dict {"g": [codes], "w": {word: text}, "m": [codes], "t": text|None, "f": text|None, "s": text|None}.
step() returns the motions and times of the block, or raises Stop with the expected reason of rejection, or Unclaimed.
"""
import math

DRILL = {"73", "74", "76", "81", "82", "83", "84", "85", "86", "87", "88", "89"}
PLANE = {17: ("X", "Y", "Z"), 18: ("Z", "X", "Y"), 19: ("Y", "Z", "X")}
CENTRE = {"X": "I", "Y": "J", "Z": "K"}
# words that are data, not coordinates, next to these codes
DATA = {"10": "XYZR", "50.1": "XYZ", "51.1": "XYZ", "52": "XYZ", "68": "XYZR", "92": "XYZ"}


class Stop(Exception):
    """The block must be rejected; .what is a text the message has to contain."""

    def __init__(self, what):
        super().__init__(what)
        self.what = what


class Unclaimed(Exception):
    pass


def sweep(p, q, c, clockwise):
    """Angle travelled from p to q around c; a closed arc is a full turn."""
    if abs(p[0] - q[0]) < 1e-8 and abs(p[1] - q[1]) < 1e-8:
        return 2 * math.pi
    a = math.atan2(p[1] - c[1], p[0] - c[0])
    b = math.atan2(q[1] - c[1], q[0] - c[0])
    return (a - b) % (2 * math.pi) if clockwise else (b - a) % (2 * math.pi)


def spiral(radius, turns):
    """Length of an Archimedes spiral from the centre to radius in the given number of turns, by integration."""
    top = 2 * math.pi * turns
    a = radius / top
    n = 20000
    h = top / n
    s = 0.0
    for i in range(n + 1):
        k = 1 if i in (0, n) else 4 if i % 2 else 2
        s += k * math.hypot(a, a * i * h)
    return s * h / 3


class Machine:
    def __init__(self, nc):
        self.nc = nc
        d = nc["def"]
        # reference points are positions of the machine, programmed coordinates count from the zero point
        zp = dict(zip("XYZ", nc["zp"]))
        self.points = {k: {a: float(v) - zp.get(a, 0.0) for a, v in nc[k].items()} for k in ("base", "tool")}
        self.pos = {a: self.points["base"][a] for a in "XYZ"}
        self.modal = {}  # I J K R
        self.g = d["motion"]
        self.plane = d["plane"]
        self.ret = d["ret"]
        self.prog = d["prog"]
        self.feed = d["feed"]
        self.f = None
        self.s = None
        self.css = None
        self.cycle = None
        self.holes = 0
        self.tool = ""
        self.selected = ""
        self.helix = None
        self.path_total = 0.0
        self.time_total = 0.0
        self.tools = {}
        self.tools_time = {}
        self.seen = {a: [self.pos[a], self.pos[a]] for a in "XYZ"}

    # -- pieces ---------------------------------------------------------------------------------------------------
    def lathe(self):
        t = self.nc["mtt"]
        return t == 1 or (t == 2 and self.plane == 18)

    def half(self):
        return 0.5 if self.lathe() and not self.nc["dia"] else 1.0

    def dist(self, p, q):
        h = self.half()
        return math.sqrt(((p["X"] - q["X"]) * h) ** 2 + (p["Y"] - q["Y"]) ** 2 + (p["Z"] - q["Z"]) ** 2)

    def target(self, w):
        t = dict(self.pos)
        for a in "XYZ":
            if a in w:
                t[a] = w[a] + (self.pos[a] if self.prog == 91 else 0.0)
        return t

    def arc(self, w, tol):
        a1, a2, a3 = PLANE[self.plane]
        t = self.target(w)
        h = self.half()
        sc = {"X": h, "Y": 1.0, "Z": 1.0}
        p = (self.pos[a1] * sc[a1], self.pos[a2] * sc[a2])
        q = (t[a1] * sc[a1], t[a2] * sc[a2])
        c1, c2 = w.get(CENTRE[a1]), w.get(CENTRE[a2])
        dz = abs(t[a3] - self.pos[a3])
        has = all(a in w for a in "XYZ")
        if "Q" in w or "L" in w:
            if c1 is None or c2 is None:
                raise Unclaimed
            radius = math.hypot(c1, c2)
            if self.helix or h != 1.0:
                raise Unclaimed
            return t, spiral(radius, radius / w["Q"] if "Q" in w else w["L"])
        if "R" in w:
            if c1 is not None or c2 is not None:
                raise Unclaimed
            r = abs(w["R"])
            chord = math.hypot(p[0] - q[0], p[1] - q[1])
            if chord == 0 or chord > 2 * r:
                raise Unclaimed
            ang = 2 * math.asin(min(1.0, chord / (2 * r)))
            if w["R"] < 0:
                ang = 2 * math.pi - ang
            helical = has and dz > 0
        else:
            if c1 is None or c2 is None:
                raise Unclaimed
            c = (p[0] + c1 * sc[a1], p[1] + c2 * sc[a2])
            r = math.hypot(c1 * sc[a1], c2 * sc[a2])
            if abs(math.hypot(q[0] - c[0], q[1] - c[1]) - r) > 0.009 * r:
                raise Unclaimed
            ang = sweep(p, q, c, self.g == 2)
            chord = math.hypot(p[0] - q[0], p[1] - q[1])
            half = math.sqrt(abs(r * r - chord * chord / 4))
            slack = abs(math.hypot(q[0] - c[0], q[1] - c[1]) - r)
            # rounded end points
            slack = max(slack, 1e-12)
            tol[0] += 6 * min(math.sqrt(r * slack), r * slack / max(half, 1e-12))
            helical = has and dz > 0 and CENTRE[a3] in w
        if dz > 0 or self.helix:
            # only whole turns and quarter turns with every word given are helices here
            if not (helical or self.helix == "full") or h != 1.0:
                raise Unclaimed
            full = abs(ang - 2 * math.pi) < 1e-9
            if "R" in w and not full and w["R"] < 0:
                raise Unclaimed
            if self.helix and self.helix != ("full" if full else "quarter"):
                raise Unclaimed
            if not full and (abs(r * ang - r * math.pi / 2) > 2e-3 or p[0] == q[0] or p[1] == q[1]):
                raise Unclaimed
            if not full:
                tol[0] += 4e-3
            self.helix = "full" if full else "quarter"
            n = 1 if full else 4
            self.pinned = 2 * math.pi * math.hypot(r, n * dz) / n  # the listed finding about the pitch
            return t, math.hypot(r * ang, dz)
        if has and (("R" in w) or CENTRE[a3] in w):
            if abs(ang - 2 * math.pi) < 1e-9:
                self.helix = "full"  # a flat helix
        return t, r * ang

    def cycle_path(self):
        """-> (feed, rapid) of one hole without the move to it."""
        c = self.cycle
        g, q = self.g, c["Q"]
        ret98 = self.ret == 98
        inc = c["mode"] == 91
        start = self.pos[c["axis"]]
        depth_type = self.nc["def"]["depth"]
        if inc:
            approach, d = abs(c["R"]), abs(c["Z"])
        elif depth_type == 1 and g != 87:
            approach, d = abs(start - c["R"]), abs(c["Z"])
        else:
            approach, d = abs(start - c["R"]), abs(c["R"] - c["Z"])
            if g != 87 and not start >= c["R"] >= c["Z"]:
                raise Unclaimed
        back = approach if ret98 else 0.0
        if g in (81, 82, 85, 86, 88, 89):
            if depth_type == 1 and not inc:
                raise Unclaimed
            return d, approach + d + back
        if g in (74, 84):
            if inc and not ret98:
                return 2 * d, None
            return 2 * d, approach + back
        if g == 76:
            if inc:
                return d, None
            return d, approach + d + back + 2 * q
        if g in (73, 83):
            n = int(math.floor(d / q + 1e-7))
            rest = d - n * q
            if rest < 1e-7:
                rest = 0.0
            e = q / 5
            if g == 73:
                # down with n short retracts; the retracts themselves are counted only for incremental programming
                return d + n * e, approach + d + back + (n * e if inc else 0.0)
            # full retract to R after each pass: 2*(1+..+n) Q, and to the bottom and back for the rest
            total = sum(2 * i * q for i in range(1, n + 1)) + approach + back + (2 * d if rest else 0.0)
            feed = n * q + n * e + rest
            return feed, total - feed
        if g == 87:
            if inc:
                return d, None
            return d, None
        raise Unclaimed

    # -- one block ------------------------------------------------------------------------------------------------
    def step(self, b):
        nc = self.nc
        d = nc["def"]
        w = {k: float(v) for k, v in b["w"].items()}
        if "P" in w and "." not in b["w"]["P"]:
            w["P"] /= 1000
        extra = 0.0
        tol = [0.0]
        gs = [str(float(g)).rstrip("0").rstrip(".") if "." in g else str(int(g)) for g in b["g"]]
        motion = [g for g in gs if g in DRILL or g in ("0", "1", "2", "3", "80")]
        exch = False
        m6 = any(int(m) == 6 for m in b["m"])
        new_tool = None
        if d["texch"]:
            if b["t"]:
                exch, new_tool = True, b["t"]
        elif m6:
            exch = True
            new_tool = b["t"] or self.selected or None
        if b["t"]:
            self.selected = b["t"]
        if b["t"] and not exch and (motion or any(g in gs for g in ("17", "18", "19", "90", "91", "98", "99"))):
            raise Stop("T")
        if exch:
            extra += nc["tet"] + (nc["tmt"] if nc["ameas"] else 0)
        if not nc["ameas"] and self.coded(nc["tmc"], gs, b["m"]):
            extra += nc["tmt"]
        if self.coded(nc["pec"], gs, b["m"]):
            extra += nc["pet"]
        if new_tool is not None:
            self.tool = new_tool
        if exch and new_tool is None and d["texch"] is False and not self.tool:
            pass
        # modal words
        if b["f"] is not None:
            self.f = float(b["f"])
        if b["s"] is not None:
            self.s = float(b["s"])
        for g in gs:
            if g in ("17", "18", "19"):
                if self.plane != int(g) and self.cycle:
                    raise Unclaimed
                self.plane = int(g)
            elif g in ("90", "91"):
                self.prog = int(g)
            elif g in ("94", "95"):
                self.feed = int(g)
            elif g in ("98", "99"):
                self.ret = int(g)
            elif g in ("96", "97"):
                self.css = int(g)
        dwell = "4" in gs
        if dwell:
            extra += sum(w.get(x, 0.0) for x in "XUP")
            for x in "XUP":
                w.pop(x, None)
        for g in gs:
            for x in DATA.get(g, ""):
                w.pop(x, None)
        self.pinned = None
        work = fast = 0.0
        known_fast = True
        old = dict(self.pos)
        moved = None
        if exch or "28" in gs:
            if motion:
                raise Unclaimed
            self.g = 0
            pt = self.points["tool" if exch else "base"]
            moved = dict(self.pos)
            for a in "XYZ":
                if a in pt:
                    moved[a] = float(pt[a])
            fast = self.dist(old, moved)
            if d["c0"]:
                self.cancel()
            self.helix = None
        elif b["t"]:
            # a selection alone: coordinates are taken over without a motion
            if any(a in w for a in "XYZ"):
                raise Unclaimed
            moved = old
        else:
            if motion:
                self.g = int(motion[0])
            if self.g not in (2, 3):
                self.helix = None
            idle = all(k in "P" for k in w)
            if self.g in (0, 1):
                if d["c%d" % self.g]:
                    self.cancel()
                moved = self.target(w)
                if self.g == 0:
                    fast = self.dist(old, moved)
                else:
                    work = self.dist(old, moved)
            elif self.g in (2, 3):
                if d["c%d" % self.g]:
                    self.cancel()
                if not idle:
                    moved, work = self.arc(w, tol)
            elif self.g == 80:
                self.cancel()
                if d["c80rapid"]:
                    self.g = 0
                if any(a in w for a in "XYZ"):
                    raise Unclaimed
            elif self.g in (73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89):
                if motion or not idle:
                    moved, work, fast, known_fast = self.drill(w, bool(motion), gs)
        if moved is not None:
            self.pos = moved
            for a in "XYZ":
                self.seen[a] = [min(self.seen[a][0], moved[a]), max(self.seen[a][1], moved[a])]
        # time
        wt = ft = 0.0
        if not known_fast:
            fast = None
        if work:
            if self.f is None:
                raise Stop("F")
            if self.f == 0:
                raise Unclaimed
            if self.feed == 95:
                if self.css == 96 and self.lathe():
                    raise Unclaimed
                if self.s is None:
                    raise Stop("S")
                if self.s == 0:
                    raise Unclaimed
                wt = work / (self.f * self.s) * 60
            else:
                wt = work / self.f * 60
        if fast:
            ft = fast / nc["mff"] * 60
        elif fast is None:
            ft = None
        r = {"work": work, "fast": fast, "wt": wt, "ft": ft, "extra": extra, "tool": self.tool, "pos": dict(self.pos),
             "tol": 1e-6 + tol[0], "holes": self.holes, "pinned": self.pinned, "from": old, "lathe": self.lathe()}
        if fast is not None:
            self.path_total += work + fast
            self.time_total += wt + ft + extra
            self.tools[self.tool] = self.tools.get(self.tool, 0.0) + work + fast
            self.tools_time[self.tool] = self.tools_time.get(self.tool, 0.0) + wt + ft
        return r

    @staticmethod
    def coded(code, gs, ms):
        w, v = code
        return (w == "M" and v in ms) or (w == "G" and v in gs)

    def cancel(self):
        self.cycle = None
        self.holes = 0

    def drill(self, w, given, gs):
        nc = self.nc
        a1, a2, a3 = PLANE[self.plane]
        if self.half() != 1.0 or nc["mt"] in (12, 13):
            raise Unclaimed
        fresh = self.cycle is None
        if fresh:
            self.cycle = {"Z": None, "R": None, "Q": None, "mode": self.prog, "axis": a3}
        c = self.cycle
        if c["axis"] != a3:
            raise Unclaimed
        changed = False
        for k, x in (("Z", a3), ("R", "R"), ("Q", "Q")):
            if x in w:
                c[k] = w[x]
                changed = True
        if changed or fresh:
            if not fresh and c["mode"] != self.prog:
                raise Unclaimed  # words of two programming modes in one cycle
            c["mode"] = self.prog
        if changed or fresh or given or "98" in gs or "99" in gs:
            if c["Z"] is None:
                raise Stop(a3 + "gleb")
            if c["R"] is None:
                raise Stop("R")
            if self.g in (73, 76, 83, 87) and c["Q"] is None:
                raise Stop("Q")
            if self.g in (73, 83) and c["Q"] <= 0:
                raise Stop("Q")
            c["path"] = self.cycle_path()
        feed, rapid = c["path"]
        step = dict(w)
        step.pop(a3, None)
        t = dict(self.pos)
        n = 1
        k = w.get("K")
        if self.prog == 91:
            if k is not None:
                if k != int(k) or k < 0:
                    raise Unclaimed
                n = int(k)
            reps = max(n, 1)
            one = math.hypot(step.get(a1, 0.0), step.get(a2, 0.0))
            for a in (a1, a2):
                t[a] += reps * step.get(a, 0.0)
            fast = reps * one
            if n == 0:
                feed, rapid = 0.0, 0.0
        else:
            for a in (a1, a2):
                if a in step:
                    t[a] = step[a]
            fast = math.hypot(t[a1] - self.pos[a1], t[a2] - self.pos[a2])
            if k == 0:
                feed, rapid = 0.0, 0.0
        self.holes += 1
        reps = max(n, 1)
        return t, feed * reps, (fast + rapid * reps) if rapid is not None else 0.0, rapid is not None
