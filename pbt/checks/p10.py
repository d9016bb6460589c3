"""Totality of the Fanuc-family engine."""
from hypothesis import strategies as st

import fan
import gen
from core import Check, Discard, Sub, Violation

renum = st.fixed_dictionaries({"word": st.sampled_from(["N", ":", "O", "G"]), "step": st.integers(0, 100),
                               "freq": st.integers(0, 4), "max": st.sampled_from([0, 5, 99, 9999, 99999]),
                               "existing": st.booleans(), "zeros": st.booleans()})
split = st.fixed_dictionaries({"type": st.integers(0, 4), "step": st.integers(-1, 5), "time": st.integers(-1, 5),
                               "path": st.integers(-1, 50), "text": st.sampled_from(["", "G1", "M30", "(", "X"]),
                               "rapid": st.booleans(), "retr": st.sampled_from(["", "G0Z100", "bad line", "Z#1"])})


@st.composite
def op(draw):
    k = draw(st.integers(0, 19))
    ln = draw(st.integers(0, 50))
    if k < 9:
        return ["parse", ln, draw(gen.line_text())]
    if k == 9:
        return ["parse0", ln, draw(gen.line_text())]
    if k == 10:
        return ["convert", ln, draw(gen.line_text()), draw(st.integers(0, 1))]
    if k == 11:
        return ["rotate", ln, draw(gen.line_text()), draw(st.integers(0, 8))]
    if k in (12, 13):
        return ["renumber", ln, draw(gen.line_text()), draw(renum)]
    if k == 14:
        return draw(st.sampled_from([["rreset"], ["resetmac", True], ["resetmac", False], ["resetpath"],
                                     ["rstart", 0], ["rstart", 100], ["rstart", 4294967295], ["state"]]))
    if k == 15:
        return [draw(st.sampled_from(["rmnum", "rmcom", "rmopt"])), ln, draw(gen.line_text())]
    if k == 16:
        return ["split", draw(st.lists(gen.line_text(), max_size=6)), draw(split)]
    if k == 17:
        return ["set", draw(gen.bools5)]
    if k == 18:
        return ["nc", draw(gen.nc_any())]
    return ["parse", ln, draw(gen.line_text())]


case = st.fixed_dictionaries({"g": gen.grammar_id, "set": gen.bools5, "nc": gen.nc_mix, "lang": st.integers(0, 1),
                              "sl": st.booleans(), "ops": st.lists(op(), min_size=1, max_size=8)})


def check_ops(ctx, c):
    r = fan.run(ctx, c["ops"], g=c["g"], set_=c["set"], nc_=c["nc"], lang=c["lang"], sl=c["sl"], want=["tok", "pr"])
    ctx.label("ops", len(c["ops"]))
    ok = sum(1 for x in r if x["ok"])
    ctx.label("accepted", ok)
    ctx.label("rejected", len(r) - ok)
    return any(len(o) > 2 for o in c["ops"])


prog = st.fixed_dictionaries({"g": gen.grammar_id, "nc": gen.nc_mix, "lang": st.integers(0, 1),
                              "set": st.just([True, True, True, True, True]), "sl": st.booleans(),
                              "ops": st.lists(st.builds(lambda n, l: ["parse", n, l], st.integers(0, 30),
                                                        st.one_of(gen.path_line(), gen.path_line(), gen.path_line(),
                                                                  gen.line_text())), min_size=1, max_size=10)})


META = dict(
    title="Totality: any block, any history, any settings is answered, never a crash",
    statement="For every block text (including malformed, binary and extreme ones), every machine configuration and "
              "every order of the parser's operations, each operation returns a verdict: it never crashes, throws out "
              "of the API, reads or writes memory it does not own, or fails to come back.",
    over=["inputs", "histories", "configurations"],
    over_text="every byte string up to the generator's length as a block; every sequence of up to 10 public operations "
              "(parse, simple parse, convert, rotate, renumber, remove, split, reset, change of settings) on one "
              "parser; all 9 shipped grammars plus a reference grammar; arbitrary machine settings",
    why="The unit tests feed a fixed list of short valid blocks and a few invalid ones; a crash needs a particular "
        "combination of words, modal state left by earlier blocks and machine settings.",
    files=["parser/fanuc/AllAttributesParser.cpp", "parser/fanuc/AttributesPathCalculator.cpp",
           "parser/fanuc/AllAttributesParserGrammar.h", "parser/fanuc/ValueCalculator.cpp",
           "parser/FileSplitter.cpp"],
    mechanism=[("exceptions of every stage turned into a verdict and a message",
                "AllAttributesParser::parse/simple_parse/rotate_axes/split_file catch clauses"),
               ("optional words checked before use", "AttributesPathCalculator::evaluate"),
               ("numbers bounded before conversion", "all_attributes_grammar verify_range, ValueCalculator")],
    observe="return value and message of each parser_api::AllAttributesParser call; sanitizer reports",
    technique="stateful random histories over the public parser API under AddressSanitizer and UBSan",
    design="stateful generation: histories of 1-10 public operations on one parser (structured blocks, motion programs, "
           "raw text, arbitrary bytes; sane and arbitrary machine settings; every grammar), the library compiled with "
           "ASan + UBSan (float-cast-overflow, bounds, null, integer-divide included) and a per-process CPU limit. "
           "Oracle: every call returns; no exception escapes; a rejected operation changes nothing else about "
           "answering. A fixed suite cannot reach the combinations of modal state and words that dereference a missing "
           "optional.",
    note="Sampling, not proof. Blocks up to a few hundred characters (unbounded bracket nesting is outside the "
         "bound), histories up to 10 operations; precondition: results are only read after machine settings exist.")


class P10(Check):
    id = "P10"
    rule = ("a history with at least one operation that carries block text; distinct by the whole case (settings, "
            "grammar and operations)")
    assumptions = ("clang -O0 with ASan/UBSan build of /repo's parser sources behaves like the shipped build",)

    def subs(self):
        return [Sub("programs", prog, check_ops, 6000, 400000),
                Sub("ops", case, check_ops, 6000, 400000)]


CHECK = P10()
