"""Language server: path and time shown above the blocks."""
from hypothesis import strategies as st

import gen
import lsp
from core import Check, Discard, Sub, Violation

URI = "file:///p.nc"


def check_lens(ctx, c):
    text = c["eol"].join(c["lines"])
    lib = lsp.library(ctx, text)
    if not lsp.finite(lib):
        raise Discard
    want = lsp.expected_lenses(lib)
    msgs = [lsp.did_open(URI, text), lsp.lens(1, URI), lsp.lens(2, "file:///other.nc"), lsp.lens(3, URI)]
    rng = [{"start": {"line": k, "character": 0}, "end": {"line": k, "character": 0}}
           for k in range(len(c["lines"]) + 1)]
    msgs += [lsp.request(10 + k, "codeLens/resolve", {"range": r}) for k, r in enumerate(rng)]
    got = lsp.talk(ctx, msgs, ["--calculate-path", "true"])
    if len(got) != len(msgs):
        raise Violation("%d answers to %d messages" % (len(got), len(msgs)), sig="count")
    for g in (got[1], got[3]):
        res = lsp.lenses(g)
        if res != (want or None):
            bad = [x for x in res or [] if x not in want][:2], [x for x in want if x not in (res or [])][:2]
            raise Violation("document %r: lenses %s not expected, %s missing" % (text, *bad),
                            sig="lines" if [x[0] for x in res or []] != [x[0] for x in want] else "title")
    if got[2]["result"] is not None:
        raise Violation("lenses %s of a document that was not opened" % got[2]["result"], sig="other")
    titles = dict(want)
    for k, g in enumerate(got[4:]):
        r = g["result"]
        if k not in titles:
            if r is not None:
                raise Violation("line %d without a lens resolved to %s" % (k, r), sig="resolve")
        elif r is None or r["command"]["title"] != titles[k] or r["range"] != rng[k]:
            raise Violation("lens of line %d resolved to %s, expected %s" % (k, r, titles[k]), sig="resolve")
    ctx.label("lenses", len(want))
    return len(want) > 1


def check_off(ctx, c):
    """Without path calculation there is nothing to show; the diagnostics are the same."""
    text = c["eol"].join(c["lines"])
    for args in ([], ["--calculate-path", "false"]):
        got = lsp.talk(ctx, [lsp.did_open(URI, text), lsp.lens(1, URI)], args)
        if got[1]["result"] is not None:
            raise Violation("lenses %s although nothing is to be calculated" % str(got[1])[:300], sig="off")
    return True


line = st.one_of(gen.path_line(), gen.path_line(), gen.path_line(), st.sampled_from(
    ["", " ", "T1 M6", "T2 M6", "T0003 M06", "G1 X10 F100 S100 M3", "G0 X0", "G0 X200 Y200", "G28 X0", "G4 P1000",
     "G4 X3600", "#500=3", "G#500 X5 R50", "S1000 M3", "G1 X@", "M6", "G91", "G90", "F5", "G1 Z0 F1",
     "G2 X10 Y10 R20 F50", "T0000000000000000000000000000000000000001 M6", "G4 X0.005", "X0.004", "X0.02"]))
prog = st.fixed_dictionaries({
    "lines": st.builds(lambda a, b: a + b, st.sampled_from([[], ["T1 M6", "G0 X1 Y1 Z1 F200 S500 M3"],
                                                            ["S500 M3 F200"]]),
                       st.lists(line, min_size=1, max_size=14)),
    "eol": st.sampled_from(["\n", "\r\n"])})


META = dict(
    title="Path and time above each block are the accumulated results of the program",
    statement="With path calculation on, a codeLens request lists one lens for each line after which the total "
              "machining time is another one, at that line, whose text states the accumulated total, tool, rapid and "
              "cut paths and times up to that line (two decimals; h:mm:ss.mmm), leaving out those below 0.01; "
              "codeLens/resolve answers the same for the same line and null elsewhere; other documents and servers "
              "without path calculation have none.",
    over=["inputs", "histories"],
    over_text="every program of motions, cycles, dwells and tool changes",
    why="The tests check single results of the library; the accumulation, selection and formatting per line are run "
        "by none.",
    files=["nclangsrv/NCParser.cpp", "nclangsrv/JsonMessageHandler.cpp"],
    mechanism=[("accumulation", "NCParser::parse"), ("text", "JsonMessageHandler::textDocument_codeLens"),
               ("times", "formatTime")],
    observe="textDocument/codeLens and codeLens/resolve",
    technique="differential testing of generated programs (server against the library) with a reference of the text",
    design="the reference runs the program through the library block by block, accumulates and formats; every lens, "
           "its line and its text and every resolve must be equal.",
    note="The values themselves are decided by P18-P26. codeLens/resolve has no document and refers to the last "
         "document asked for lenses. Programs with totals above 1e11 are left out.")


class P07(Check):
    id = "P07"
    targets = ("server", "driver")
    rule = ("lens: a program of up to 16 blocks with motions, cycles, dwells and tool changes, opened in a server that "
            "calculates paths; every lens and every resolved lens against the library's results for each block and a "
            "reference of their text; non-trivial with at least two lenses. off: the same without calculation")

    def subs(self):
        return [Sub("lens", prog, check_lens, 900), Sub("off", prog, check_off, 60)]


CHECK = P07()
