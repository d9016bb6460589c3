"""Splitting of a file into parts."""
from hypothesis import strategies as st

import fan
import gen
import grammars
import pathgen
from checks.p11 import expected
from checks.p27 import Model, plain
from core import Check, Discard, Sub, Violation

CYCLES = {73, 74, 76, 81, 82, 83, 84, 85, 86, 87, 88, 89}
BLOCKS, TOOL, TIME, PATH, TEXT = range(5)


class Motion:
    """What the splitter has to know about motion: the code in force, whether a cycle is running."""

    def __init__(self, d):
        self.d, self.active, self.cycle = d, None, False

    def block(self, toks):
        """-> whether the block belongs to a running cycle, number of tool changes."""
        tools = 0
        if self.active is not None and self.active > 3:
            self.active = None
        for t in toks:
            if t[0] != "D":
                continue
            if t[1] == "/":
                break
            if t[6] is None or t[5] is not None:
                continue
            v = int(t[6])
            if t[1] == "G":
                if v in (80, 81) and int(t[8] or 0):
                    continue  # codes of their own
                if v <= 3:
                    self.active = v
                    if v == 0 and self.d["c0"] or v == 1 and self.d["c1"]:
                        self.cycle = False
                elif v in CYCLES:
                    self.active, self.cycle = v, True
                elif v == 80:
                    self.active, self.cycle = v, False
            elif t[1] == ("T" if self.d["texch"] else "M") and t[7] is None and t[8] is None:
                tools += self.d["texch"] or v == 6
        return self.active is None and self.cycle or self.active == 80, tools


def split(lines, toks, s, d, weight):
    """-> list of parts, each a list of line indices, None stands for the retraction block."""
    m = Motion(d)
    parts, acc, tools = [[]], 0, 0
    for i, (line, t) in enumerate(zip(lines, toks)):
        inside, n = m.block(t)
        tools += n
        if s["type"] == TEXT:
            new = s["text"] in line
        elif s["type"] == TOOL:
            new = n > 0 and tools > 1
            if n > 1:
                raise Discard
        else:
            limit = {BLOCKS: s["step"], TIME: s["time"], PATH: s["path"]}[s["type"]]
            if s["type"] != BLOCKS and abs(acc - limit) < 1e-6 and acc != int(acc):
                raise Discard  # the sum of the lengths is too close to the limit
            new = acc >= limit and not inside and not (s["rapid"] and m.active != 0)
        if new:
            acc = 0
            if s["retr"]:
                parts[-1].append(None)
            parts.append([None] if s["retr"] else [])
        parts[-1].append(i)
        acc += weight[i]
    return parts


def limit_ok(s):
    return {BLOCKS: s["step"], TIME: s["time"], PATH: s["path"]}.get(s["type"], 1) > 0


def judge(ctx, c, lines, toks, weight, bad, set_):
    """bad: whether some line is invalid (then nothing may be split)."""
    s, g = c["split"], c["g"]
    r = fan.run(ctx, [["split", lines, s]], g=g, nc_=c["nc"], set_=set_)[0]
    here = "grammar %s: %s split by %s" % (g, lines, s)
    if bad or not limit_ok(s):
        if r["ok"]:
            raise Violation("%s: accepted although %s" % (here, "a block is invalid" if bad else "the limit is zero"),
                            sig="accepted")
        if not bad and not r["msg"]:
            raise Violation("%s: no message" % here, sig="silent")
        ctx.label("refused")
        return False
    if not r["ok"]:
        raise Violation("%s: refused: %s" % (here, r["msg"]), sig="refused")
    retr = expected(g, s["retr"]) if s["retr"] else []
    parts = split(lines, toks, s, c["nc"]["def"], weight)
    numbers = Model(grammars.ALL()[g]["metric"])
    rs = {"word": "N", "step": 1, "freq": 1, "max": 99999, "existing": False, "zeros": False}
    want = [[numbers.run(retr if i is None else toks[i], rs)[0] for i in p] for p in parts]
    got = [[[list(t) for t in l] for l in p] for p in r["split"]]
    if [len(p) for p in got] != [len(p) for p in want]:
        raise Violation("%s: parts of %s lines, expected %s" % (here, [len(p) for p in got], [len(p) for p in want]),
                        sig="parts")
    for k, (a, b) in enumerate(zip(got, want)):
        for x, y in zip(a, b):
            if x != y:
                raise Violation("%s: part %d has %s, expected %s" % (here, k + 1, x, y), sig="block")
    if len(parts) > 2:
        ctx.label("three parts or more")
    return len(parts) > 1


def check_words(ctx, c):
    g = c["g"]
    table = {w for w, r in grammars.ALL()[g]["metric"].items() if r[6] == grammars.WT["numbering"]}
    lines, toks, bad = [], [], False
    for t in c["lines"]:
        e = expected(g, t) if t.strip() else []
        if e and e[0][0] == "D" and e[0][1] in table and not plain(e[0]):
            continue
        if e is None and not c["keep"]:
            continue
        if "\0" in t or any(x.isspace() and x not in " \t" for x in t) or t.strip() != t.strip(" \t"):
            continue
        lines.append(t)
        toks.append(e)
        bad |= e is None
    if c["split"]["retr"] and expected(g, c["split"]["retr"]) is None:
        raise Discard
    if not lines:
        return False
    if bad and fan.run(ctx, [["rmcom", 1, t] for t, e in zip(lines, toks) if e is None], g=g, nc_=c["nc"])[0]["ok"]:
        raise Discard  # a word given twice is found by other operations only
    return judge(ctx, c, lines, [t or [] for t in toks], [1] * len(lines), bad, [False] * 5)


def check_motion(ctx, c):
    set_ = [True, False, True, False, False]
    lines, raw = [], [pathgen.text(b, c["style"], i) for i, b in enumerate(c["blocks"])]
    for i, t in enumerate(raw):
        k = c["style"][(i * 5 + 2) % 8]
        if k % 6 == 1:
            lines.append(["", "  ", "(note)", "%"][k % 4])
        lines.append("N%d %s" % (i * 10 + 10, t) if k % 6 == 2 else t)
    g = c["g"]
    toks = [expected(g, t) if t.strip() else [] for t in lines]
    if None in toks:
        raise Discard
    full = [i for i, t in enumerate(lines) if t.strip()]
    rs = fan.run(ctx, [["parse", i, lines[i]] for i in full], g=g, nc_=c["nc"], set_=set_, want=["pr", "tr"])
    bad = any(not r["ok"] for r in rs)
    weight = [0] * len(lines)
    if not bad:
        for i, r in zip(full, rs):
            weight[i] = r["pr" if c["split"]["type"] == PATH else "tr"][1]
    return judge(ctx, c, lines, toks, weight, bad, set_)


def nc_of(draw):
    b = st.booleans()
    return fan.nc(def_={"c0": draw(b), "c1": draw(b), "texch": draw(b)})


def spec(draw, types):
    small = st.sampled_from([1, 1, 2, 3, 5, 10, 0])
    return {"type": draw(st.sampled_from(types)), "step": draw(small), "time": draw(small),
            "path": draw(st.sampled_from([1, 5, 10, 20, 50, 0])),
            "text": draw(st.sampled_from(["(txt)", "M6", "G0", "X1", "N", "zzz", ""])), "rapid": draw(st.booleans()),
            "retr": draw(st.sampled_from(["", "G0 Z400", "G0Z1", "N5 G0 Z4", "(up)", "M5"]))}


LINES = ["G0 X1", "G1 X2", "X3", "Y4", "G81 X1 Z-5 R2 F100", "G83 X1 Z-5 R2 Q1", "X5 Y5", "G80", "G80 G0 X1", "M6",
         "T1 M6", "T2", "T3 M6", "M5", "G90", "G0 G90 X0", "G54", "G1 G91 X1", "G2 X1 I1", "G3 X1 J1", "", " ", "%",
         "O1", "(txt)", "G0 X1 (txt)", "/ G0 X1", "/2 M6", "N5 G0", "N10 G1 X1", "G#1", "M#6", "T#1", "G0 M06 T1",
         "#1=5", "G00 X2", "G01 Y1", "G04 P1", "M106", "M3 M6", "G0",
         "G80.5", "G81.1 Z1", "G91.1 X5", "G83.5 Z-3 R1 Q1"]


@st.composite
def words_case(draw):
    line = st.one_of(st.sampled_from(LINES), st.sampled_from(LINES), st.sampled_from(LINES), gen.line_text())
    return {"g": draw(gen.grammar_id), "nc": nc_of(draw), "split": spec(draw, [BLOCKS, TOOL, TEXT]),
            "keep": draw(st.integers(0, 9)) == 0, "lines": draw(st.lists(line, min_size=1, max_size=25))}


@st.composite
def motion_case(draw):
    p = draw(pathgen.program(["linear", "linear", "arc", "drill", "idle", "dwell", "modal", "home"], n=14, lathe=False))
    return {"g": "ref", "nc": p["nc"], "split": spec(draw, [PATH, PATH, TIME]), "blocks": p["blocks"],
            "style": p["style"]}


META = dict(
    title="Splitting a file loses nothing, cuts in the right places, numbers in order",
    statement="Splitting by number of blocks, tool change, text, working path or working time returns parts which, "
              "apart from the given retraction block at each cut and the block numbers, hold every line once, in "
              "order, word for word; a new part begins exactly at the block where the limit is reached (tool change, "
              "text found), but never within a drilling cycle or, when asked for, anywhere but at a rapid motion; "
              "block numbers run on through all parts; a file with an error and a zero limit are refused.",
    over=["inputs", "histories"],
    over_text="programs of any valid lines (empty, marks, comments, cycles, tool changes) for all five ways; running "
              "programs for path and time",
    why="The C++ suite has no test of splitting, and the C# one splits one short file; losing or moving a line shows "
        "on some programs only.",
    files=["parser/fanuc/FileSplitter.cpp", "parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/Renumberer.cpp"],
    mechanism=[("cutting", "FileSplitter::evaluate*, FileSplitterAttributesVisitor"),
               ("driving and numbering", "AllAttributesParser::split_file")],
    observe="parts returned by split_file",
    technique="differential testing against a reference splitter over reference tokens and the parser's own lengths",
    design="`words`: blocks, tools and text on any lines; `motion`: path and time on programs that run, with the "
           "lengths and times of the blocks taken from parsing them one by one (decided by P19 to P24).",
    note="Lines, including empty ones, count as blocks. The cycle keeps running for the splitter if the settings say "
         "that G0 or G1 does not cancel it.")


class P29(Check):
    id = "P29"
    rule = "the file is cut at least once"

    def subs(self):
        return [Sub("words", words_case(), check_words, 4000, 400000),
                Sub("motion", motion_case(), check_motion, 2500, 250000)]


CHECK = P29()
