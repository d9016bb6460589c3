"""Language server: answers depend on the present text of a document, not on what happened before."""
import json
import os

from hypothesis import strategies as st

import gen
import lsp
from checks.p05 import line as hover_line
from checks.p07 import line as path_line
from core import Check, Sub, Violation

URIS = ["file:///a.nc", "file:///b.nc", "file:///c.nc"]


def probes(text, base, uri):
    n = min(text.count("\n") + 1, 12)
    return [lsp.hover(base + 10 * k + j, uri, k, ch) for k in range(n) for j, ch in enumerate((0, 1, 5, 9))] + [
        lsp.lens(base + 900, uri)]


def check_history(ctx, c):
    args = ["--calculate-path", "1" if c["path"] else "0"]
    if c["log"]:
        args += ["--log-path", os.path.join(ctx.scratch, "srv.log")]
    texts, now, msgs, asked = [], {}, [], []
    for s in c["steps"] + [{"k": "ask", "doc": d} for d in range(3)]:
        uri = URIS[s["doc"]]
        if s["k"] == "edit":
            old = now.get(uri)
            lines = list(old or [])
            versions = []
            for at, dele, ins in s["edits"]:
                at = at % (len(lines) + 1)
                lines[at:at + dele] = ins
                versions.append("\n".join(lines))
            now[uri] = lines
            text = "\n".join(lines)
            asked.append(("diag", text, None, len(msgs)))
            msgs.append(lsp.did_open(uri, text) if old is None else
                        lsp.did_changes(uri, versions if s["together"] else [text]))
        elif s["k"] == "close":
            now.pop(uri, None)
            msgs.append(lsp.did_close(uri))
            asked.append(("none", None, None, None))
        elif s["k"] == "ask":
            text = "\n".join(now[uri]) if uri in now else None
            for m in probes(text or "", 1, uri):
                asked.append(("answer" if text is not None else "null", text, m, None))
                msgs.append(m)
        else:
            msgs.append(lsp.request(7, "completionItem/resolve", {"label": s["label"]}) if s["k"] == "resolve" else
                        lsp.request(7, "textDocument/completion", {"textDocument": {"uri": uri}}) if s["k"] == "complete"
                        else lsp.request(7, "nonsense", {}))
            asked.append(("skip", None, None, None))
    got = lsp.talk(ctx, msgs, args)
    got = iter(got)
    want = {}

    def fresh(text):
        if text not in want:
            ps = probes(text, 1, "u")
            a = lsp.talk(ctx, [lsp.did_open("u", text)] + ps, args[:2])
            d = {"diag": lsp.published(a[0])[1]}
            d.update({json.dumps(p["id"]): x["result"] for p, x in zip(ps, a[1:])})
            want[text] = d
        return want[text]

    n = 0
    for kind, text, m, _ in asked:
        if kind == "none":
            continue
        g = next(got)
        if kind == "diag":
            d = lsp.published(g)[1]
            if d != fresh(text)["diag"]:
                raise Violation("after %s: diagnostics of %r are %s, alone they are %s" % (
                    [s["k"] for s in c["steps"]], text, d, fresh(text)["diag"]), sig="diagnostics")
        elif kind == "answer":
            w = fresh(text)[json.dumps(m["id"])]
            if g["result"] != w:
                raise Violation("after %s: %s about %r answered with %s, alone with %s" % (
                    [(s["k"], s["doc"]) for s in c["steps"]], m["method"], text, str(g["result"])[:300], str(w)[:300]),
                    sig=m["method"])
            n += w is not None
        elif kind == "null" and g["result"] is not None:
            raise Violation("%s about a closed document answered with %s" % (m["method"], g["result"]), sig="closed")
    ctx.label("texts", len(want))
    return n > 3 and len(want) > 1


line = st.one_of(hover_line, path_line, path_line, gen.line_text().map(lambda t: t.replace("\n", " ")), st.sampled_from(
    ["T1 M6", "T2 M6 S100 M3 F100", "G91", "G90", "G20", "G18", "#501=#501+1", "G1 X#501", "#500", "X#500", "G81 Z-5 R1 X3",
     "X7", "G80", "G68 R30 X0 Y0", "G54", "G99", "G95", "F0.3", "O5", "M30", "%", "@", "G0 X5 Y5", "G1 X9 F100 S10 M3", ""]))
edit = st.tuples(st.integers(0, 30), st.integers(0, 3), st.lists(line, min_size=1, max_size=5))
step = st.one_of(
    st.fixed_dictionaries({"k": st.just("edit"), "doc": st.integers(0, 1), "edits": st.lists(edit, min_size=1, max_size=3),
                           "together": st.booleans()}),
    st.fixed_dictionaries({"k": st.just("edit"), "doc": st.integers(0, 2), "edits": st.lists(edit, min_size=1, max_size=3),
                           "together": st.booleans()}),
    st.fixed_dictionaries({"k": st.sampled_from(["ask", "ask", "ask", "ask", "close", "complete", "nonsense"]),
                           "doc": st.integers(0, 2)}),
    st.fixed_dictionaries({"k": st.just("resolve"), "doc": st.just(0), "label": st.sampled_from(["G1", "#5021", "", "Q"])}))
case = st.fixed_dictionaries({"steps": st.lists(step, min_size=5, max_size=12), "path": st.booleans(),
                              "log": st.booleans()})

META = dict(
    title="Answers depend on a document's present text, not on the session's history",
    statement="Whatever documents were opened, edited, closed and asked about before, in any order, and whether or not a "
              "log is written, the server's diagnostics, hovers and lenses for a document are those a freshly started "
              "server gives for its present text (of several in one notification the last); modal state, variables, tools, paths and errors of one document or "
              "of an earlier version never show in another; a closed document has none.",
    over=["histories"],
    over_text="every history of edits and requests over several documents",
    why="State left behind in the parser or the handler only shows after particular sequences of documents.",
    files=["nclangsrv/NCParser.cpp", "nclangsrv/JsonMessageHandler.cpp", "parser/fanuc/AllAttributesParser.cpp"],
    mechanism=[("new parser per document", "NCParser::parse"), ("documents", "JsonMessageHandler mFileContexts")],
    observe="diagnostics, hover, codeLens",
    technique="stateful testing: random histories in one server, each answer compared with a fresh server's for the "
              "present text",
    design="a model keeps the text of each document; after a history every answer must equal that of a server started for "
           "that text alone.",
    note="codeLens/resolve, which names no document, and the order of completion items are left out.")


class P04(Check):
    id = "P04"
    targets = ("server",)
    rule = ("a history of up to 12 steps (edits of up to three documents, closing, questions about all their lines, other "
            "requests); non-trivial with at least two different texts and more than three answers that are not null")

    def subs(self):
        return [Sub("history", case, check_history, 400)]


CHECK = P04()
