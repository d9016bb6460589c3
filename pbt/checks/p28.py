"""Removal of block numbers, comments and optional block marks."""
from hypothesis import strategies as st

import fan
import gen
import grammars
import pathgen
from checks.p11 import expected
from core import Check, Discard, Sub, Violation
from models import path

NUMBERING = grammars.WT["numbering"]


def removed(op, toks, table):
    if op == "rmnum":
        if toks and toks[0][0] == "D" and toks[0][1] in table and table[toks[0][1]][6] == NUMBERING:
            return toks[1:]
        return toks
    if op == "rmcom":
        return [t for t in toks if not (t[0] == "S" and t[1] == "(")]
    i = 0
    while i < len(toks) and toks[i][0] == "D" and toks[i][1] == "/" and toks[i][6] is not None:
        i += 1
    return toks[i:]


def check_blocks(ctx, c):
    table = grammars.ALL()[c["g"]]["metric"]
    ops = [["rmnum", "rmcom", "rmopt"][c["op"]], ["rmcom", "rmopt", "rmnum"][c["op"]]]
    n = 0
    rs = fan.run(ctx, [[ops[0], i + 1, t] for i, t in enumerate(c["lines"])], g=c["g"], want=["tok"])
    again = []
    for line, r in zip(c["lines"], rs):
        toks = expected(c["g"], line)
        if toks is None:
            continue
        want = removed(ops[0], toks, table)
        here = "grammar %s: %s of %r" % (c["g"], ops[0], line)
        if not r["ok"]:
            raise Violation("%s: rejected: %s" % (here, r["msg"]), sig="rejected")
        got = [list(t) for t in r["tok"]]
        if got != want:
            raise Violation("%s: %s, expected %s" % (here, got, want), sig=ops[0])
        n += got != toks
        text = " ".join(fan.tokens_text([x]) for x in got)
        back = expected(c["g"], text)
        if back is not None:
            again.append((line, text, back))
    # the text written back is taken by the other operations just as well
    rs = fan.run(ctx, [[ops[1], 1, t] for _, t, _ in again], g=c["g"], want=["tok"])
    for (line, text, back), r in zip(again, rs):
        want = removed(ops[1], back, table)
        if not r["ok"] or [list(t) for t in r["tok"]] != want:
            raise Violation("grammar %s: %r after %s is %r; %s of it: %s, expected %s" % (
                c["g"], line, ops[0], text, ops[1], r, want), sig="second")
    return n > 0


def check_meaning(ctx, c):
    """Numbers and comments mean nothing: a program stripped of them runs the same."""
    blocks = c["blocks"]
    lines, m = [], path.Machine(c["nc"])
    for i, b in enumerate(blocks):
        r, m = pathgen.simulate(m, b)
        if isinstance(r, Exception):
            raise Discard
        t = pathgen.text(b, c["style"], i)
        k = c["style"][(i * 3 + 1) % 8]
        if k % 3 == 0:
            t = "N%d %s" % (k % 9000 + 1, t)
        if k % 4 == 0:
            t += " (X5 G1)"
        elif k % 4 == 1:
            t = "(N5 ) " + t
        elif k % 4 == 2 and " " in t:
            a, z = t.split(" ", 1)
            t = a + " (M30) " + z
        lines.append(t)
    one = fan.run(ctx, [["rmcom", i + 1, t] for i, t in enumerate(lines)], g="ref", want=["tok"])
    mid = [" ".join(fan.tokens_text([x]) for x in r["tok"]) for r in one]
    two = fan.run(ctx, [["rmnum", i + 1, t] for i, t in enumerate(mid)], g="ref", want=["tok"])
    bare = [" ".join(fan.tokens_text([x]) for x in r["tok"]) for r in two]
    kw = dict(g="ref", set_=[True, False, True, False, False], nc_=c["nc"], want=["pr", "tr", "mac", "wr"])
    a = fan.run(ctx, [["parse", i + 1, t] for i, t in enumerate(lines)], **kw)
    z = fan.run(ctx, [["parse", i + 1, t] for i, t in enumerate(bare)], **kw)
    for i, (x, y) in enumerate(zip(a, z)):
        # the number of the block is itself a variable
        x, y = [dict(v, mac=[w for w in v["mac"] if w[0] not in (4114, 4314, 4514)]) for v in (x, y)]
        if not x["ok"] and not y["ok"]:
            break
        for k in ("ok", "pr", "tr", "mac", "wr"):
            if x[k] != y[k]:
                raise Violation("%s and %s differ in %s: %s, %s" % (lines[:i + 1][-4:], bare[:i + 1][-4:], k, x[k],
                                                                    y[k]), sig="meaning " + k)
    return lines != bare


@st.composite
def text(draw):
    ws = draw(st.lists(st.one_of(
        st.sampled_from(["N1", "N20", ":5", "(comment)", "()", "(N5 G1)", "(a)", "/", "/1", "/3", "/2", "/9", "G1", "X1", "Y-2.5",
                         "X[#1+2]", "#1=5", "N#1", "%", "O12", "M3", "N99999", "GOTO5", "(/2)", ",C1", "N[1]"]),
        gen.word_text()), min_size=0, max_size=6))
    if draw(st.booleans()):
        ws.insert(0, draw(st.sampled_from(["N7", "/1", "/2 /3", "(c)", "N1 N2", "/4 N5"])))
    return draw(st.sampled_from([" ", "", "  "])).join(ws)


@st.composite
def case(draw):
    return {"g": draw(gen.grammar_id), "op": draw(st.integers(0, 2)),
            "lines": draw(st.lists(st.one_of(text(), text(), gen.line_text()), min_size=1, max_size=6))}


@st.composite
def meaning_case(draw):
    nc = fan.nc(axes={a: [-1e5, 1e5] for a in "XYZ"},
                base={"X": 0.0, "Y": 0.0, "Z": 0.0, "I": 0.0, "J": 0.0, "K": 0.0})
    m = path.Machine(nc)
    blocks = [pathgen.block(g=["17"], f="100", s="500")]
    _r, m = pathgen.simulate(m, blocks[0])
    for _ in range(draw(st.integers(1, 6))):
        b = pathgen.MAKE[draw(st.sampled_from(["linear", "arc", "dwell", "idle", "linear"]))](draw, m)
        if b is None or not any(b.values()):
            continue
        r, after = pathgen.simulate(m, b)
        if isinstance(r, Exception):
            continue
        blocks.append(b)
        m = after
    return {"nc": nc, "blocks": blocks, "style": draw(st.lists(st.integers(0, 1000), min_size=8, max_size=8))}


META = dict(
    title="Removing numbers, comments or optional marks removes those tokens only",
    statement="From any valid block, removing the numbering takes away exactly one leading word of a numbering type, "
              "removing comments exactly the comments, removing optional blocks exactly the leading numbered optional "
              "marks; every other token keeps its text and place, the result can be processed further, and a program "
              "stripped of numbers and comments runs with the same paths, times and variables.",
    over=["inputs"],
    over_text="every valid block of every word table; programs with numbers and comments anywhere in the blocks",
    why="Tests remove one comment and one mark; which neighbours go too is a statement over all orders of tokens.",
    files=["parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/Renumberer.cpp"],
    mechanism=[("removal", "remove_numbering, remove_comment, remove_optional_block")],
    observe="tokens returned; path, time and variables of both programs",
    technique="differential testing against the reference recogniser, metamorphic testing of program meaning",
    design="`blocks` compares with the list operation on reference tokens, twice in a row; `meaning` parses the "
           "original and the stripped program.",
    note="The variable of the last block number is left out of the comparison.")


class P28(Check):
    id = "P28"
    rule = "blocks: a token was removed; meaning: the program had a number or a comment"

    def subs(self):
        return [Sub("blocks", case(), check_blocks, 5000, 500000),
                Sub("meaning", meaning_case(), check_meaning, 1500, 150000)]


CHECK = P28()
