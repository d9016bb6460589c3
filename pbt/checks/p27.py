"""Renumbering of blocks."""
from hypothesis import strategies as st

import fan
import gen
import grammars
from checks.p11 import expected
from core import Check, Sub, Violation

NUMBERING = grammars.WT["numbering"]


def plain(t):
    """A numbering word that is a mere number (or nothing), not a variable or an expression."""
    return t[2] is None and t[4] is None and t[5] is None and t[9] is None


class Model:
    """Reference renumbering: the counter and the place within the cycle of the frequency."""

    def __init__(self, table):
        self.table = {w: r for w, r in table.items() if r[6] == NUMBERING}
        self.reset()

    def reset(self):
        self.counter, self.cycle = 1, 0

    def run(self, toks, s):
        """-> tokens after renumbering, whether a number was given."""
        if not toks:
            return toks, False
        a = toks[0]
        numbered = a[0] == "D" and a[1] in self.table
        if not numbered:
            if s["existing"] or a[0] == "D" and a[1] == "/" or a[0] == "C" and a[1] == "%" or (
                    a[0] == "S" and a[1] in "O("):
                return toks, False
        turn = self.cycle == 0
        if s["freq"] > 1:
            self.cycle = (self.cycle + 1) % s["freq"]
        rest = toks[1:] if numbered else toks
        if not turn:
            return rest, False
        n = str(self.counter)
        if s["zeros"] and s["word"] in self.table:
            n = n.zfill(len(str(self.table[s["word"]][2])))
        self.counter += s["step"]
        if self.counter > s["max"]:
            self.counter = self.table[s["word"]][1] if s["word"] in self.table else 1
        if numbered:
            w = list(a)
            w[1], w[6] = s["word"], n
        else:
            w = ["D", s["word"], None, None, None, None, n, None, None, None]
        return [w] + rest, True


def check_numbers(ctx, c):
    g = c["g"]
    table = grammars.ALL()[g]["metric"]
    m = Model(table)
    ops, want, given = [], [], 0
    s = c["settings"][0]
    for k, op in enumerate(c["ops"]):
        if op[0] == "reset":
            m.reset()
            s = c["settings"][op[1] % len(c["settings"])]
            ops.append(["rreset"])
            want.append(None)
            continue
        if op[0] == "start":
            m.counter = op[1]
            ops.append(["rstart", op[1]])
            want.append(None)
            continue
        toks = expected(g, op[1])
        if toks is None or toks and toks[0][0] == "D" and toks[0][1] in m.table and not plain(toks[0]):
            continue
        if op[0] != "renumber":
            ops.append([op[0], k + 1, op[1]])
            want.append(None)
            continue
        out, hit = m.run(toks, s)
        given += hit
        ops.append(["renumber", k + 1, op[1], s])
        want.append(out)
    if not ops:
        return False
    rs = fan.run(ctx, ops, g=g, want=["tok"])
    for i, (op, w, r) in enumerate(zip(ops, want, rs)):
        if w is None:
            continue
        here = "grammar %s, step %d of %s" % (g, i + 1, [o[:3:2] if o[0] == "renumber" else o for o in ops[:i + 1]][-6:])
        if not r["ok"]:
            raise Violation("%s: rejected: %s" % (here, r["msg"]), sig="rejected")
        got = [list(t) for t in r["tok"]]
        if got != w:
            n = [t for t in got[:1] if t[0] == "D" and t[1] in m.table]
            e = [t for t in w[:1] if t[0] == "D" and t[1] in m.table]
            raise Violation("%s with %s: %s, expected %s" % (here, op[3], got, w), sig="number" if n != e else "rest")
    return given > 1


def check_strip(ctx, c):
    """Numbers given by renumbering are taken away again by removing them, nothing else is lost."""
    g, s = c["g"], c["settings"][0]
    table = grammars.ALL()[g]["metric"]
    numbering = [w for w, r in table.items() if r[6] == NUMBERING]
    lines = []
    for op in c["ops"]:
        if op[0] == "renumber":
            toks = expected(g, op[1])
            if toks is not None and not (toks and toks[0][0] == "D" and toks[0][1] in numbering) and (
                    expected(g, " ".join(fan.tokens_text([x]) for x in toks)) == toks):
                lines.append((op[1], toks))
    if not lines:
        return False
    s = dict(s, word="N", existing=False)
    s["max"] = min(s["max"], table["N"][2]) if "N" in table else s["max"]
    rs = fan.run(ctx, [["rstart", 1]] + [["renumber", 1, t, s] for t, _ in lines], g=g, want=["tok"])[1:]
    texts = [" ".join(fan.tokens_text([x]) for x in r["tok"]) for r in rs]
    back = fan.run(ctx, [["rmnum", 1, t] for t in texts], g=g, want=["tok"])
    n = 0
    for (line, toks), r, t, b in zip(lines, rs, texts, back):
        if not toks:
            continue
        if not b["ok"]:
            raise Violation("%r renumbered into %r, which is rejected: %s" % (line, t, b["msg"]), sig="unreadable")
        if [list(x) for x in b["tok"]] != toks:
            raise Violation("%r renumbered into %r and stripped of it: %s" % (line, t, b["tok"]), sig="strip")
        n += len(r["tok"]) != len(toks)
    return n > 0


LINES = ["G1 X1", "N5 G1 X2", "N10", ":7 G0", "%", "O1234", "OABC", "(only a comment)", "/ G1 X1", "/2 N5 G0", "#1=5",
         "N20 #2=[1+2]", "M30", "N99999 X1", "N1 N2 G1", "(a) N5 G0", "N007 Y1", "GOTO10", "N5 (c)", "T1 M6", "X1 N5",
         "", "  ", "N#1 X1", ":0 X1", "IF[#1EQ1]GOTO5", "N5 / G1", "N12X1Y2", "N3%"]
text = st.one_of(st.sampled_from(LINES), st.sampled_from(LINES), gen.line_text())


@st.composite
def settings(draw):
    return {"word": draw(st.sampled_from(["N", "N", "N", "N", ":", "Q"])),
            "step": draw(st.one_of(st.integers(1, 10), st.sampled_from([0, 1, 10, 100, 4999, 9999, 100000]))),
            "freq": draw(st.sampled_from([0, 1, 1, 1, 2, 3, 5])),
            "max": draw(st.sampled_from([10, 3, 99, 9999, 99999, 9998, 1, 0, 4294967295, 20])),
            "existing": draw(st.sampled_from([False, False, False, True])), "zeros": draw(st.booleans())}


@st.composite
def case(draw):
    ops = []
    for _ in range(draw(st.integers(1, 25))):
        k = draw(st.integers(0, 19))
        if k < 15:
            ops.append(["renumber", draw(text)])
        elif k == 15:
            ops.append(["reset", draw(st.integers(0, 2))])
        elif k == 16:
            ops.append(["start", draw(st.sampled_from([1, 0, 5, 10, 100, 9990, 99999]))])
        else:
            ops.append([draw(st.sampled_from(["parse", "rmnum", "rmcom"])), draw(text)])
    return {"g": draw(gen.grammar_id), "settings": draw(st.lists(settings(), min_size=1, max_size=3)), "ops": ops}


META = dict(
    title="Renumbering numbers every block in order and changes nothing else",
    statement="Over any sequence of valid blocks, renumbering gives each block that may carry a number the next number "
              "(start value, step, wrap past the maximum to the first number of the word, every n-th block only, "
              "existing numbers only, leading zeros to the width of the word), in place of a leading number of any "
              "numbering word; program marks, names, comment and optional blocks stay untouched, as does every other "
              "word; other operations in between do not disturb the count; removing the numbers gives the original.",
    over=["inputs", "histories"],
    over_text="every valid block of every word table, every history of renumber, reset and start-value calls with "
              "other operations in between",
    why="No test renumbers more than a few blocks: wrap-around, frequencies, zero padding and their interplay over a "
        "long file are histories.",
    files=["parser/fanuc/Renumberer.cpp", "parser/fanuc/AllAttributesParser.cpp", "parser/util.h"],
    mechanism=[("numbering", "Renumberer::renumber, Renumberer::remove"), ("padding", "to_string_leading_zeroes")],
    observe="tokens returned by renumber and remove_numbering",
    technique="stateful property-based testing against a reference model of the numbering",
    design="`numbers` runs whole histories against a model of counter and cycle; `strip` renumbers, writes the text, "
           "removes the numbers and compares with the original.",
    note="A block number given by a variable (N#1) and blocks that are rejected are left out; changing the frequency "
         "without a reset is left out.")


class P27(Check):
    id = "P27"
    rule = "numbers: at least two blocks got a number; strip: a number was inserted"

    def subs(self):
        return [Sub("numbers", case(), check_numbers, 5000, 500000), Sub("strip", case(), check_strip, 2500, 250000)]


CHECK = P27()
