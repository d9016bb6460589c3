"""Language server: what is shown for the word under the cursor."""
import json
import os

from hypothesis import strategies as st

import gen
import lsp
from core import Check, Sub, Violation
from models import hover as model

URI = "file:///h.nc"
SYS = [1000, 1015, 1031, 1032, 1035, 1036, 1100, 1131, 2001, 2150, 2200, 2201, 2401, 2600, 10001, 10500, 10999, 11000,
       11001, 11999, 12999, 13000, 4001, 4130, 4230, 4231, 5001, 5021, 5022, 5040, 5043, 5060, 5201, 5221, 5300, 7001,
       7481, 7500, 3000, 3001, 3003, 4113, 4120, 999, 100, 5041, 5042, 20000, 2147483647, 4294967295, 4294967296]


def snapshots(lib, count):
    """Values of the variables after each line of the document (by line number from 0)."""
    out, cur, k = [], {}, 0
    for n in range(count):
        while k < len(lib) and lib[k][0] <= n + 1:
            last = {}
            for i, line, v in lib[k][2]["mac"]:
                if i not in last or line >= last[i][0]:
                    last[i] = (line, v)
            cur = {i: v for i, (_, v) in last.items()}
            k += 1
        out.append(cur)
    return out


def compare(got, want, where):
    if want is None:
        if got is not None:
            raise Violation("%s: %s, expected nothing" % (where, got), sig="something")
        return
    if got is None:
        raise Violation("%s: nothing, expected %s" % (where, want), sig="nothing")
    r = got["range"]
    if got["contents"] not in [latin(w) for w in want[0]]:
        raise Violation("%s: %r, expected %r" % (where, got["contents"], want[0]), sig="contents")
    a, b, ln = want[1], want[2], where[0]
    if r != {"start": {"line": ln, "character": a}, "end": {"line": ln, "character": b}}:
        raise Violation("%s: range %s, expected line %d, %d to %d" % (where, r, ln, a, b), sig="range")


def latin(s):
    return s


def user_file(ctx, c, name="user.json"):
    if c["user"] is None:
        return None, []
    p = os.path.join(ctx.scratch, name)
    with open(p, "w") as f:
        json.dump({"version": "1", "descriptions": {k: {t: d for t, d in v[:1]} for k, v in c["user"]}}, f)
    return {k: dict(v[:1]) for k, v in c["user"]}, ["--macro-desc-path", p]


def settings(ctx, driver):
    if driver == "fanuc_mill":
        return []
    p = os.path.join(ctx.scratch, "h.ncsetting")
    with open(p, "w") as f:
        json.dump(lsp.settings_file(lsp.defaults(), driver), f)
    return ["--ncsetting-path", p]


def check_hover(ctx, c):
    text = c["eol"].join(c["lines"])
    raw = [ln.encode("utf-8").decode("latin-1") for ln in text.split("\n")]
    lib = lsp.library(ctx, text, c["driver"])
    vals = snapshots(lib, len(raw) + 1)
    user, args = user_file(ctx, c)
    descs = model.Descriptions(c["driver"], user)
    spots = [(n, ch) for n in range(len(raw)) for ch in range(min(len(raw[n]), 60) + 1)] + [(len(raw), 0),
                                                                                         (len(raw) + 9, 3)]
    msgs = [lsp.did_open(URI, text)] + [lsp.hover(k, URI, n, ch) for k, (n, ch) in enumerate(spots)]
    msgs.append(lsp.hover(-1, "file:///other.nc", 0, 0))
    got = lsp.talk(ctx, msgs, args + settings(ctx, c["driver"]) + ["--calculate-path", c["path"]])
    if len(got) != len(msgs):
        raise Violation("%d answers to %d messages" % (len(got), len(msgs)), sig="count")
    shown = set()
    for (n, ch), g in zip(spots, got[1:]):
        want = model.hover(raw[n], ch, vals[n], descs) if n < len(raw) else None
        compare(g["result"], want, (n, ch, "document %r" % c["lines"], "driver " + c["driver"], "user %r" % user))
        if want:
            shown.add((n, want[1]))
            w = want[0][0]
            ctx.label("described" if w.startswith("**") else "variable" if "#" in w else "code")
    if got[-1]["result"] is not None:
        raise Violation("hover %s in a document that was not opened" % got[-1]["result"], sig="other")
    return len(shown) > 1


def check_user(ctx, c):
    """A broken file is reported until it has been corrected and hides nothing of the built-in descriptions."""
    text = "\n".join(c["lines"])
    p = os.path.join(ctx.scratch, "broken.json")
    good = json.dumps({"descriptions": {"500": {"mine": "Range: #500-#505"}, "3000": {"my alarm": "text"}}}, indent=1)
    if os.path.exists(p):
        os.unlink(p)
    if c["how"] == "cut":
        bad = good[:int(c["at"] * len(good))].rstrip()
        bad = bad[:-1] if bad.endswith("}") and bad.count("{") == bad.count("}") else bad
        with open(p, "w") as f:
            f.write(bad)
    elif c["how"] == "other":
        with open(p, "w") as f:
            f.write('{"version": "1.0", "description": {}}')
    probes = [lsp.hover(k, URI, 0, k) for k in range(14)] + [lsp.request(99, "completionItem/resolve",
                                                                       {"label": "#" + v}) for v in ("3000", "5021")]
    doc = "#500 #3000 #5021 G1\n" + text
    plain = lsp.talk(ctx, [lsp.did_open(URI, doc)] + probes)
    s = lsp.Live(ctx, ["-m", p])
    try:
        for again in range(c["times"]):
            d = s.ask(lsp.did_open(URI, doc))
            _, ds = lsp.published(d)
            if not ds or "user macro descriptions" not in ds[0][2] or ds[0][:2] != (0, 0):
                raise Violation("file %s, opened %d times: diagnostics %s" % (c["how"], again + 1, ds),
                                sig="unreported")
            if ds[1:] != lsp.published(plain[0])[1]:
                raise Violation("file %s: diagnostics %s" % (c["how"], ds), sig="diagnostics")
            rel = d["params"]["diagnostics"][0]["relatedInformation"][0]["location"]["uri"]
            if "broken.json" not in rel:
                raise Violation("file %s: related information %r" % (c["how"], rel), sig="related")
            got = [s.ask(m) for m in probes]
            if got != plain[1:]:
                bad = [(a["result"], b["result"]) for a, b in zip(got, plain[1:]) if a != b][0]
                raise Violation("file %s: %s instead of %s" % (c["how"], *bad), sig="hides")
        with open(p, "w") as f:
            f.write(good)
        fixed = [s.ask(m) for m in [lsp.did_change(URI, doc)] + probes]
    finally:
        s.close()
    want = lsp.talk(ctx, [lsp.did_open(URI, doc)] + probes, ["-m", p])
    if fixed != want:
        bad = [(a, b) for a, b in zip(fixed, want) if a != b][0]
        raise Violation("file (%s) corrected: %s instead of %s" % (c["how"], str(bad[0])[:300], str(bad[1])[:300]),
                        sig="corrected")
    if "mine" not in want[1]["result"]["contents"]:
        raise Violation("description of the user not shown: %s" % want[1], sig="user")
    return True


num = st.one_of(st.sampled_from(["1", "2", "3", "500", "501", "502", "0500", "100"]), st.sampled_from(SYS).map(str),
                st.integers(0, 99999).map(str))
code = st.one_of(st.integers(0, 120).map(str), st.sampled_from(["00", "01", "02", "5.1", "05.1", "54.1", "7.1", "07.1", "10.6", "5.",
                                                                "001", "68.2", "12.1", "1.5", "98", "99", "30", "06"]))
few = st.sampled_from(["1", "2", "500", "501"])
value = st.one_of(st.sampled_from(["0", "1", "2", "3", "8", "54.1", "5.1", "-1", "0.5", "1000000", "0.0000004", "123456.789",
                                   "[1/3]", "#1", "#500", "#501", "#500+1", "[#501*2]", "-0.0000001", "SIN[30]", "1/0", "#0"]),
                  st.integers(0, 100).map(str), st.floats(-1e6, 1e6).map(lambda x: "%.4f" % x))
assign = st.builds(lambda n, v: "#%s=%s" % (n, v), few, value)
word = st.one_of(st.builds(lambda c, n: c + n, st.sampled_from("GGMMgm"), code),
                 st.builds(lambda c, n: c + "#" + n, st.sampled_from("GGMMgm"), few),
                 st.builds(lambda c, n: c + "#" + n, st.sampled_from("GMXYZF"), num),
                 st.builds(lambda n: "#" + n, num), st.builds(lambda n: "X10.5#" + n, few), st.just("N10"), assign, assign,
                 st.sampled_from(["(G1 #500 zażółć M3)", "X[#500+G1]", "ż", "##1", "G", "#", "G#", "X1", "F100", "@", "G 1"]))
both = st.builds(lambda n, v, c, m: "#%s=%s %s#%s" % (n, v, c, m), few, st.integers(0, 5).map(str),
                 st.sampled_from(["G", "M", "X", ""]), few)
line = st.one_of(both, both, st.lists(word, max_size=4).map(" ".join), assign, assign, gen.line_text(), st.sampled_from(
    ["", " ", "\t", "G54G1X#500Y#501", "G#500G#501M#1", "#500=#500+1", "#5021", "X#5001", "G1G2G3", "#3000=1(ALARM)",
     "/#500=5", "#500=#1 #1=#500", "G54.1P1", "G54.12", "#500=4(x"])).map(lambda t: t.replace("\n", " "))
entry = st.tuples(st.sampled_from(["500", "501", "1", "3000", "5021", "5022", "1031", "4001"]),
                  st.lists(st.tuples(st.sampled_from(["mine", "title ż", ""]),
                                     st.sampled_from(["text", "a\nb\n\nc", "Range: #500-#505", "Range: #1-#2 - #100-#999",
                                                      "", "Range: #505-#500", "x Range: #7-#7 y", "Range: #1-#99999999999"
                                                      ])), max_size=1))
user = st.one_of(st.none(), st.none(), st.lists(entry, max_size=4, unique_by=lambda e: e[0]))
case = st.fixed_dictionaries({"lines": st.lists(line, min_size=1, max_size=8), "eol": st.sampled_from(["\n", "\n", "\r\n"]),
                              "driver": st.sampled_from(["fanuc_mill"] * 4 + lsp.TYPES), "user": user,
                              "path": st.sampled_from(["0", "1"])})
broken = st.fixed_dictionaries({"lines": st.lists(line, max_size=3), "how": st.sampled_from(["cut", "cut", "none", "other"]),
                                "at": st.floats(0, 0.99), "times": st.integers(1, 3)})

META = dict(
    title="Hovering a word shows its description and the variable's value at that line",
    statement="For every character of an opened document the hover request answers: for a G or M code its text, with "
              "title and description of the configured control when it has them (leading zeros ignored); for a code "
              "given by a variable and for a variable its value after the last assignment at or above that line, with "
              "the description of the code or variable (its own or the range it belongs to, the user's before the "
              "built-in), 'undefined' for a variable without either; with the word's range; and null elsewhere. A "
              "broken file of user descriptions is reported with every document until corrected, hides no built-in "
              "description and works from the next change on.",
    over=["inputs", "histories", "configurations"],
    over_text="every document, position, control and user description file",
    why="The tests never start the server; values depend on the history of assignments and positions on arbitrary text.",
    files=["nclangsrv/JsonMessageHandler.cpp", "nclangsrv/MacrosDescReader.cpp", "nclangsrv/CodesReader.cpp"],
    mechanism=[("word and value", "JsonMessageHandler::textDocument_hover, searchPattern"),
               ("descriptions", "MacrosDescReader::getDesc, readRanges; CodesReader::read"),
               ("order of assignments", "macro_map_key_cmp")],
    observe="textDocument/hover, textDocument/publishDiagnostics",
    technique="model-based testing: a reference of words, values and descriptions asked at every position of generated "
              "documents; live sessions with a broken and corrected description file",
    design="the model finds the word with its own regular expressions, takes values from the library's variables after "
           "each line and descriptions from the JSON files; every position of every line is asked.",
    note="Positions are bytes of the UTF-8 text. A code with a trailing point ('G5.') has no description. Where ranges "
         "overlap any of their descriptions is right. Values are decided by P16.")


class P05(Check):
    id = "P05"
    targets = ("server", "driver")
    rule = ("hover: a document of up to 8 lines of codes, variables and assignments in a server for any control, with or "
            "without descriptions of the user, asked at every position; non-trivial when at least two words are shown. "
            "user: a truncated, missing or other file of descriptions, later corrected, in a running server")

    def subs(self):
        return [Sub("hover", case, check_hover, 700), Sub("user", broken, check_user, 120)]


CHECK = P05()
