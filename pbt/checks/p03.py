"""Language server: diagnostics of a document."""
from hypothesis import strategies as st

import gen
import lsp
from core import Check, Sub, Violation

URI = "file:///p.nc"


def document(c):
    out = []
    for ln in c["lines"]:
        out.append(ln["t"] + ln["pad"])
        out += [b for b in ln["blank"]]
    return c["eol"].join(out) + (c["eol"] if c["last"] else "")


def check_diag(ctx, c):
    text = document(c)
    lib = lsp.library(ctx, text)
    want = lsp.expected_diagnostics(lib)
    msgs = [lsp.did_open(URI, text), lsp.did_change(URI, text)]
    for args in ([], ["--calculate-path", "true"]):
        got = lsp.talk(ctx, msgs[:1] if args else msgs, args)
        if len(got) != len(msgs[:1] if args else msgs):
            raise Violation("%d answers for %r" % (len(got), text), sig="count")
        for g in got:
            uri, ds = lsp.published(g)
            if uri != URI or ds != want:
                bad = [x for x in ds if x not in want][:2], [x for x in want if x not in ds][:2]
                raise Violation("document %r (%s): diagnostics %s not expected, %s missing" % (text, args, *bad),
                                sig="lines" if [d[0] for d in ds] != [w[0] for w in want] else "text")
    ctx.label("failing lines", len(want))
    return len(want) > 0 and len(lib) > len(want)


def check_blank(ctx, c):
    """Blank lines move the diagnostics of the lines after them, nothing else."""
    lines = [ln["t"].replace("\n", " ") for ln in c["lines"]]
    k = c["at"] % (len(lines) + 1)
    n = 1 + c["n"]
    got = lsp.talk(ctx, [lsp.did_open("a", "\n".join(lines)),
                         lsp.did_open("b", "\n".join(lines[:k] + [" "] * n + lines[k:]))])
    _, a = lsp.published(got[0])
    _, b = lsp.published(got[1])
    want = [(x + n if x >= k else x, y, z) for x, y, z in a]
    if b != want:
        raise Violation("%r with %d blank lines before line %d: %s, expected %s" % (lines, n, k + 1, b, want),
                        sig="shift")
    return len(a) > 0


SPECIAL = ["(line 1) @", "@ line 1", "G1 X@:1:2", "X5 (a:b:c", "@", "  @", "#500=", "1", "1:2:3", "12:34: x",
           "(zażółć gęślą)", "G1 (ż) @ż", "ż", "@:ż\t:", "#1=[1+(x:y)]", "G0 G1", "S99999", "T99", "X501", "X-500.5", "F1",
           "M98 P", "GOTO", "IF[#1EQ", "%", "O1234", "G1 X1 F100 S100 M3", "\u0000G1 X@", "X1 \u0000 @", "'@'", "@\"\\",
           "N1 G1 X5 X6", "\ufeffG1", "@\u2028x", "#500=5 (x", "G#500 X@", "10", "1 @", "X1.2.3", "G4 P1 @"]
line = st.one_of(gen.line_text(), gen.path_line(), st.sampled_from(SPECIAL),
                 st.sampled_from(["G0 X1", "G1 X2 F100 S500 M3", "#500=#501+1", "(c)", "N5"])).map(
    lambda t: t.replace("\n", " "))
lines = st.lists(st.builds(lambda t, pad, blank: {"t": t, "pad": pad, "blank": blank}, line,
                           st.sampled_from(["", "", "", " ", "\t ", " \r", "\f\v"]),
                           st.lists(st.sampled_from(["", " ", "\t", "\r"]), max_size=2)), min_size=1, max_size=14)
docs = st.fixed_dictionaries({"lines": lines, "eol": st.sampled_from(["\n", "\r\n"]), "last": st.booleans()})
short = st.fixed_dictionaries({"lines": lines, "at": st.integers(0, 20), "n": st.integers(0, 12)})


META = dict(
    title="Diagnostics name exactly the failing lines, with position and reason",
    statement="After a document is opened or changed the server publishes one error per line the parser rejects and "
              "none for the others, in document order, at the zero-based line of the document (blank lines counted) "
              "and the zero-based character the parser reports, with the parser's message; line endings, trailing "
              "blanks, blank lines and the path calculation option change nothing else.",
    over=["inputs"],
    over_text="every document: any lines, blank lines, line endings, UTF-8 text, with or without path calculation",
    why="The tests call the parser on single lines; the mapping of its messages to lines and columns of a document is "
        "run by none.",
    files=["nclangsrv/NCParser.cpp", "nclangsrv/JsonMessageHandler.cpp"],
    mechanism=[("splitting and parsing", "NCParser::parse"), ("diagnostics", "JsonMessageHandler::textDocument_didOpen")],
    observe="textDocument/publishDiagnostics",
    technique="differential testing of generated documents (server against the library called line by line) and a "
              "metamorphic relation for blank lines",
    design="a document is cut into lines by the reference, each goes to the library as one block, and the server's "
           "diagnostics must be exactly the library's failures at the right lines and columns.",
    note="Columns are bytes of the UTF-8 text, as the parser counts them. What the library accepts is decided by "
         "P10-P31.")


class P03(Check):
    id = "P03"
    targets = ("server", "driver")
    rule = ("diag: a document of up to 14 blocks and blank lines, with either line ending, opened and changed in a "
            "server with and without path calculation; oracle: the library called line by line; non-trivial when some "
            "lines fail and some do not. blank: a document with and without extra blank lines; non-trivial when it has "
            "a diagnostic")

    def subs(self):
        return [Sub("diag", docs, check_diag, 700), Sub("blank", short, check_blank, 300)]


CHECK = P03()
