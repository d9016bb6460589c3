"""The Heidenhain parser behind the C interface."""
from hypothesis import strategies as st

import fan
import gen
from checks import p10
from checks.p31 import line as hh_line
from core import Check, Sub, Violation

TEXT = ("parse", "parse0")
NONE = ("convert", "rotate", "renumber", "rmnum", "rmcom", "rmopt", "split", "splitstr")


def request(c, api, ops):
    return {"t": "case", "api": api, "g": "ref", "set": c["set"], "lang": c["lang"], "sl": c["sl"], "nonc": True, "pt": 0,
            "want": ["tok", "pr", "mac", "wr"], "ops": ops}


def play(ctx, c, api, ops):
    return ctx.driver.request(request(c, api, ops))["r"]


def check_same(ctx, c):
    ops = c["ops"]
    got = play(ctx, c, "chh", ops)
    plain = [o for o in ops if o[0] in TEXT or o[0] in ("nc", "set")]
    want = iter(play(ctx, c, "hh", plain))
    n = 0
    for i, (op, y) in enumerate(zip(ops, got)):
        here = "operation %d, %s, of %s" % (i + 1, op, [o[0] for o in ops])
        if "exc" in y:
            raise Violation("%s: exception escaped the C interface: %s" % (here, y["exc"]), sig="exc " + op[0])
        x = next(want) if op[0] in TEXT or op[0] in ("nc", "set") else {"ok": op[0] not in NONE, "msg": ""}
        if (y["ok"], y["msg"]) != (x["ok"], x["msg"].split("\0")[0]):
            raise Violation("%s: %s from C, must be %s" % (here, (y["ok"], y["msg"]), (x["ok"], x["msg"])), sig="answer")
        if op[0] in TEXT:
            n += 1
        for k in ("split", "splitstr", "linemac", "mac"):
            if y.get(k):
                raise Violation("%s: gives %s %s" % (here, k, y[k]), sig=k)
        for k in ("pr", "tr"):
            if list(y[k]) != [0, 0, 0, 0, ""]:
                raise Violation("%s: no path is calculated but %s is %s" % (here, k, y[k]), sig=k)
        if y["wr"]:
            raise Violation("%s: positions %s" % (here, y["wr"]), sig="positions")
    return n > 0 and n < len(ops)


def check_heap(ctx, c):
    rq = request(c, "chh", c["ops"])
    rq["t"] = "heap"
    left = ctx.driver.request(rq)
    if left:
        raise Violation("%d bytes stay allocated after %s and disposal of everything" % (left, c["ops"]), sig="leak")
    return len(c["ops"]) > 1


text = st.one_of(hh_line(), hh_line(), gen.line_text()).map(lambda t: t.replace("\0", "").replace("\n", " ").replace("\r", " "))
lno = st.integers(1, 9)


@st.composite
def op(draw):
    k = draw(st.sampled_from(["parse", "parse", "parse", "parse0", "parse0", "set", "nc", "resetmac", "resetpath", "convert",
                              "rotate", "renumber", "rstart", "rreset", "rmnum", "rmcom", "rmopt", "split", "splitstr",
                              "linemac", "state"]))
    if k in ("parse", "parse0", "rmnum", "rmcom", "rmopt"):
        return [k, draw(lno), draw(text)]
    if k == "set":
        return [k, draw(gen.bools5)]
    if k == "nc":
        return [k, draw(gen.nc_mix)]
    if k == "convert":
        return [k, draw(lno), draw(text), draw(st.integers(0, 1))]
    if k == "rotate":
        return [k, draw(lno), draw(text), draw(st.integers(0, 8))]
    if k == "renumber":
        return [k, draw(lno), draw(text), draw(p10.renum)]
    if k in ("rstart", "linemac"):
        return [k, draw(st.integers(0, 50))]
    if k in ("split", "splitstr"):
        return [k, draw(st.lists(text, max_size=4)), draw(p10.split)]
    return [k]


def clean(x):
    if isinstance(x, str):
        return x.replace("\0", "")
    if isinstance(x, list):
        return [clean(y) for y in x]
    return x


case = st.fixed_dictionaries({"set": gen.bools5, "lang": st.integers(0, 1), "sl": st.booleans(),
                              "ops": st.lists(op().map(clean), min_size=1, max_size=10)})

META = dict(
    title="The C interface of the Heidenhain parser answers like it and stands every call",
    statement="For every history of calls on a Heidenhain parser through the exported C functions, parsing gives the "
              "verdict and message of the C++ parser; operations this parser does not offer (conversion, rotation, "
              "numbering, removal, splitting) answer no and give nothing; variables, positions, paths and times are "
              "empty; no call throws through the C boundary, influences another or leaves memory behind.",
    over=["inputs", "histories"],
    over_text="histories of up to ten of all exported operations with Heidenhain blocks and other text, both languages, "
              "any settings and machine",
    why="The unit tests know neither the C functions nor the wrapper of this parser; an operation that is only a stub "
        "fails when the editor calls it in some order.",
    files=["parser/heidenhain/AllAttributesParserWrapper.cpp", "parser/heidenhain/AllAttributesParser.h",
           "parser/AllAttributesParserWrapperBase.cpp"],
    mechanism=[("marshalling", "heidenhain::AllAttributesParserWrapper"), ("creation", "CreateHeidenhainAllAttributesParser")],
    observe="verdicts, messages and everything written to the output parameters; bytes allocated before and after",
    technique="differential testing of the C functions against the C++ class under generated histories, heap accounting",
    design="`same` plays a history through the C functions and its parsing part through the C++ class; `heap` plays it twice "
           "and compares the allocated bytes (with AddressSanitizer).",
    note="The words of a block are not handed out by this wrapper (the code for it is commented out in the sources), "
         "so ParseValue's words are not compared.")


class P39(Check):
    id = "P39"
    rule = "same: the history parses something and does something else; heap: more than one operation"

    def subs(self):
        return [Sub("same", case, check_same, 4000, 200000), Sub("heap", case, check_heap, 1500, 100000)]


CHECK = P39()
