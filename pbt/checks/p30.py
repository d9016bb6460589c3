"""The C interface against the C++ classes, and its memory."""
from hypothesis import strategies as st

import fan
import gen
from checks import p10
from core import Check, Sub, Violation


def text(t):
    w, s = t[1], fan.tokens_text([t])
    return [w, s[len(w):]]


def as_c(toks):
    return [text(t) for t in toks]


def clean(x):
    """C strings end at a NUL."""
    if isinstance(x, str):
        return x.replace("\0", "")
    if isinstance(x, list):
        return [clean(y) for y in x]
    return x


def check_same(ctx, c):
    ops = clean(c["ops"])
    kw = dict(g=c["g"], set_=c["set"], nc_=c["nc"], lang=c["lang"], sl=c["sl"], want=["tok", "pr", "mac", "wr"],
              allow_exc=True)
    plain = [["split"] + o[1:] if o[0] == "splitstr" else ["state"] if o[0] == "linemac" else o for o in ops]
    a = fan.run(ctx, plain + [["unit"]], api="cpp", **kw)
    z = fan.run(ctx, ops + [["state"]], api="c", **kw)
    n = 0
    for i, (op, x, y) in enumerate(zip(ops + [["unit"]], a, z)):
        here = "grammar %s: operation %d, %s" % (c["g"], i + 1, op)
        if "exc" in x or "exc" in y:
            if ("exc" in x) != ("exc" in y):
                raise Violation("%s: C++ %s, C %s" % (here, x, y), sig="exception")
            continue
        want = {"ok": x["ok"], "msg": x["msg"].split("\0")[0]}
        got = {"ok": y["ok"], "msg": y["msg"]}
        if op[0] == "parse0":
            pass
        elif op[0] in ("parse", "convert", "rotate", "renumber", "rmnum", "rmcom", "rmopt"):
            want["tok"], got["tok"] = as_c(x["tok"]), [list(t) for t in y["tok"]]
            n += len(got["tok"]) > 0
        elif op[0] == "split":
            want["split"] = [[as_c(l) for l in p] for p in x["split"]]
            got["split"] = [[[list(t) for t in l] for l in p] for p in y["split"]]
        elif op[0] == "splitstr":
            want["split"] = ["".join(" ".join(fan.tokens_text([t]) for t in l) + "\r\n" for l in p) or None
                             for p in x["split"]]
            got["split"] = y["splitstr"]
        elif op[0] == "linemac":
            want["linemac"] = sorted([m[0], m[2]] for m in x["mac"] if m[1] == op[1])
            got["linemac"] = sorted([m[0] & 0xffffffff, m[1]] for m in y["linemac"])
        elif op[0] == "unit":
            want["unit"], got["unit"] = x["unit"], y["unit"]
        for k in ("pr", "tr"):
            want[k], got[k] = list(x[k][:5]), list(y[k][:5])
        want["mac"], got["mac"] = sorted(x["mac"]), sorted([list(m) for m in y["mac"]])
        want["wr"], got["wr"] = x["wr"], y["wr"]
        for k in want:
            if repr(want[k]) != repr(got[k]):
                raise Violation("%s: %s is %s from C, %s from C++" % (here, k, got[k], want[k]), sig=k)
    return n > 0


def check_heap(ctx, c):
    ops = clean(c["ops"])
    rq = fan.case([["nc", c["nc"]]] + ops, api="c", g=c["g"], set_=c["set"], lang=c["lang"], sl=c["sl"],
                  want=["tok", "pr", "mac", "wr"])
    rq["t"] = "heap"
    left = ctx.driver.request(rq)
    if left:
        raise Violation("grammar %s: %d bytes stay allocated after %s and disposal of everything" % (
            c["g"], left, ops), sig="leak")
    return len(ops) > 1


@st.composite
def op(draw):
    k = draw(st.integers(0, 9))
    if k == 0:
        return ["linemac", draw(st.integers(0, 8))]
    if k == 1:
        lines = st.one_of(st.sampled_from(["G0 X1", "G1 X5 F100", "M6", "T1 M6", "(txt)", "", "%", "N5 G1", "#1=5", "G81Z-1R1"]),
                          gen.line_text())
        s = dict(draw(p10.split))
        if draw(st.booleans()):
            s.update(step=2, time=1, path=3, text="(txt)", retr=draw(st.sampled_from(["", "G0 Z1"])))
        return [draw(st.sampled_from(["split", "splitstr"])), draw(st.lists(lines, max_size=6)), s]
    if k == 2:
        return ["parse", draw(st.integers(1, 8)), draw(st.sampled_from(["#1=5", "#2=#1*2", "#500=SIN[30]", "#3=", "X[#1]", "G20",
                                                                 "T5", "M6", "#[#1]=3"]))]
    if k == 3:
        return ["parse", draw(st.integers(1, 8)), draw(gen.path_line())]
    o = draw(p10.op())
    return ["resetmac", True] if o[0] == "resetmac" else o


case = st.fixed_dictionaries({"g": gen.grammar_id, "set": gen.bools5, "nc": gen.nc_mix, "lang": st.integers(0, 1),
                              "sl": st.booleans(), "ops": st.lists(op(), min_size=1, max_size=10)})

META = dict(
    title="The C interface returns what the C++ classes return and leaks nothing",
    statement="For every history of calls (parse, convert, rotate, renumber, remove, split to words and to text, "
              "variables, paths, settings, resets) the exported C functions give the verdicts, messages, words, "
              "results and variables of the C++ parser for the same history, and after the documented disposal of "
              "every result no memory stays allocated and none is touched after release.",
    over=["inputs", "histories"],
    over_text="histories of up to ten operations over all word tables, settings, machines and both languages",
    why="The editor only sees the C functions, which the C++ suite never calls; copying of arrays and strings fails for "
        "particular shapes (empty parts, empty words, failed operations) only.",
    files=["parser/fanuc/AllAttributesParserWrapper.cpp", "parser/AllAttributesParserWrapperBase.cpp"],
    mechanism=[("marshalling", "AllAttributesParserWrapper, Attributes2WordValueWrapperVisitor"),
               ("entry points", "AllAttributesParserWrapperBase.cpp")],
    observe="everything the C functions write to their output parameters; bytes allocated before and after",
    technique="differential testing of two interfaces under histories, with AddressSanitizer and heap accounting",
    design="`same` plays a history through both interfaces on fresh parsers and compares every output; `heap` plays it "
           "twice through C and compares the allocated bytes.",
    note="Texts with an embedded NUL cannot be passed to C and are cut there. The diagnostics of cycles and holes are "
         "not part of the C results.")


class P30(Check):
    id = "P30"
    rule = "same: words are returned; heap: more than one operation"

    def subs(self):
        return [Sub("same", case, check_same, 2500, 250000), Sub("heap", case, check_heap, 1500, 150000)]


CHECK = P30()
