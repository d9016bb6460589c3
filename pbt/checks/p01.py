"""Language server: framing, one answer per request."""
import json

from hypothesis import strategies as st

import gen
import lsp
from core import Check, Sub, Violation

URIS = ["file:///a.nc", "file:///b.nc", "file:///zażółć%20gęślą.nc", ""]


def build(m):
    """(message, kind of the answer) of a generated message."""
    k, i, uri, text, line, ch = m["k"], m["id"], m["uri"], m["text"], m["line"], m["ch"]
    if k == "open":
        return lsp.did_open(uri, text), ("diag", uri)
    if k == "change":
        return lsp.did_change(uri, text), ("diag", uri)
    if k == "close":
        return lsp.did_close(uri), None
    if k == "hover":
        return lsp.hover(i, uri, line, ch), ("result", i)
    if k == "lens":
        return lsp.lens(i, uri), ("result", i)
    if k == "lensresolve":
        r = {"start": {"line": line, "character": 0}, "end": {"line": line, "character": 0}}
        return lsp.request(i, "codeLens/resolve", {"range": r}), ("result", i)
    if k == "completion":
        return lsp.request(i, "textDocument/completion",
                           {"textDocument": {"uri": uri}, "position": {"line": line, "character": ch}}), ("result", i)
    if k == "resolve":
        return lsp.request(i, "completionItem/resolve", {"label": m["label"], "kind": 15, "data": 3}), ("result", i)
    if k == "initialize":
        return lsp.request(i, "initialize", {"processId": 1, "rootUri": None, "capabilities": {}}), ("result", i)
    if k == "unknown":
        return lsp.request(i, "textDocument/definition", {"textDocument": {"uri": uri}}), ("error", i)
    if k == "shutdown":
        return lsp.request(i, "shutdown"), ("last", i)
    if k == "exit":
        return lsp.note("exit"), ("exit", None)
    if k == "response":
        return {"jsonrpc": "2.0", "id": i, "result": None}, None
    return lsp.note({"initialized": "initialized", "cancel": "$/cancelRequest",
                     "config": "workspace/didChangeConfiguration", "trace": "$/setTrace",
                     "save": "textDocument/didSave"}[k], {"id": i, "value": text, "settings": {"x": text}}), None


HEADERS = ["Content-Type: application/vscode-jsonrpc; charset=utf-8", "X-Custom: C", "Content: 5", "C", "X: y"]


def body(msg, style):
    if style == 0:
        return json.dumps(msg).encode()
    if style == 1:
        return json.dumps(msg, ensure_ascii=False, separators=(",", ":")).encode("utf-8")
    if style == 2:
        return json.dumps(msg, indent=3).encode()
    return b"\r\n " + json.dumps(msg, sort_keys=True).encode() + b" \n"


def check_session(ctx, c):
    plain, styled, want, last = [], [], [], False
    for m in c["msgs"]:
        msg, ans = build(m)
        plain.append(lsp.frame(body(msg, 0)))
        styled.append(lsp.frame(body(msg, m["style"]), before=[HEADERS[h] for h in m["before"]],
                                after=[HEADERS[h] for h in m["after"]]))
        if last:
            continue
        if ans:
            if ans[0] in ("last", "exit"):
                last = True
            if ans[0] != "exit":
                want.append(ans)
    args = ["--calculate-path", "true"] if c["path"] else []
    outs = lsp.run(ctx, b"".join(styled), args, chunks=c["chunks"])
    got = []
    for b in outs:
        try:
            got.append(json.loads(b.decode("utf-8")))
        except ValueError:
            raise Violation("answer is no JSON: %r" % b[:300], sig="no json")
    kinds = [m["k"] for m in c["msgs"]]
    if len(got) != len(want):
        raise Violation("%s: %d answers, expected %d: %s" % (kinds, len(got), len(want),
                                                             [g.get("id", g.get("method")) for g in got]), sig="count")
    for w, g in zip(want, got):
        if g.get("jsonrpc") != "2.0":
            raise Violation("answer without version: %s" % str(g)[:300], sig="version")
        if w[0] == "diag":
            uri, _ = lsp.published(g)
            if uri != w[1]:
                raise Violation("diagnostics of %r for %r" % (uri, w[1]), sig="uri")
            continue
        if g.get("id") != w[1] or type(g.get("id")) is not type(w[1]):
            raise Violation("request %r answered with id %r" % (w[1], g.get("id")), sig="id")
        if "method" in g or ("result" in g) == ("error" in g) or ("error" in g) != (w[0] == "error"):
            raise Violation("answer to %r: %s" % (w, str(g)[:300]), sig="form")
    again = lsp.run(ctx, b"".join(plain), args)
    if again != outs:
        raise Violation("%s: answers differ with the framing or the pieces the input comes in" % kinds, sig="pieces")
    return len(want) > 2


ids = st.one_of(st.integers(0, 100), st.sampled_from([-1, 2147483647, 4294967296, 9007199254740991, "a", "", "12",
                                                      "0b1e-\u017c\"\\", "x" * 50]))
program = st.lists(st.one_of(gen.line_text(), st.sampled_from(["G0 X1", "#500=5", "(zażółć: \"a\")", "", "G1 X@:1"])),
                   max_size=6).map("\n".join)
KINDS = ["open"] * 4 + ["change"] * 3 + ["close", "hover", "hover", "lens", "lens", "lensresolve", "completion",
                                         "resolve", "initialize", "unknown", "response", "initialized", "cancel",
                                         "config", "trace", "save"]


@st.composite
def message(draw, kinds=KINDS):
    return {"k": draw(st.sampled_from(kinds)), "id": draw(ids), "uri": draw(st.sampled_from(URIS)),
            "text": draw(program), "line": draw(st.integers(0, 8)), "ch": draw(st.integers(0, 30)),
            "label": draw(st.sampled_from(["G1", "M3", "#500", "", "X", "G9999", "#x", "#", "g02", "ż"])),
            "style": draw(st.integers(0, 3)), "before": draw(st.lists(st.integers(0, 4), max_size=2)),
            "after": draw(st.lists(st.integers(0, 4), max_size=2))}


@st.composite
def session(draw):
    msgs = draw(st.lists(message(), min_size=1, max_size=8))
    if draw(st.integers(0, 3)) == 0:
        msgs.insert(draw(st.integers(0, len(msgs))), draw(message(kinds=["shutdown", "exit"])))
    return {"msgs": msgs, "path": draw(st.booleans()),
            "chunks": draw(st.one_of(st.none(), st.lists(st.integers(1, 40), min_size=1, max_size=80),
                                     st.lists(st.integers(1, 700), min_size=1, max_size=20)))}


META = dict(
    title="Every message is answered exactly once, with its id, however the input arrives",
    statement="For any session of well-formed messages the language server writes exactly one diagnostics notification "
              "for the named document per open or change and exactly one response per request, in order, echoing the "
              "request's id (number or text) unchanged, with either a result or an error (for methods it does not "
              "know), and nothing for other notifications and responses; shutdown and exit end it cleanly. Every "
              "answer is a valid JSON-RPC 2.0 frame whose Content-Length is its byte length. The answers depend on "
              "neither other header fields, the layout of the JSON text nor the pieces the input arrives in.",
    over=["histories", "inputs"],
    over_text="every sequence of protocol messages, ids, header fields, JSON layouts and divisions of the byte stream",
    why="The tests never start the server; framing, dispatch and ids are not run by any of them.",
    files=["nclangsrv/nclangsrv.cpp", "nclangsrv/JsonMessageHandler.cpp", "nclangsrv/JsonMessageHandler.h"],
    mechanism=[("header and body reading", "nclangsrv.cpp main loop"),
               ("dispatch", "JsonMessageHandler::parse"), ("answers", "JsonMessageHandler::get_*_response")],
    observe="standard output of the server process",
    technique="stateful random sessions against a real server process (sanitized), compared with a reference of the "
              "expected answers and, metamorphically, with the same session framed differently",
    design="a session generator writes whole conversations to a fresh server built with ASAN and UBSAN; the reference "
           "lists the expected answers (kind, id, uri) and the second relation requires byte-identical output for the "
           "same messages framed plainly.",
    note="What the answers contain is decided by P03-P07. Message bodies are valid JSON below 100 kB; header field "
         "names are spelled as the protocol spells them.")


class P01(Check):
    id = "P01"
    targets = ("server",)
    rule = ("a case is a whole session of up to 9 messages written to a real server process: opening, changing and "
            "closing documents, every request the server announces, unknown requests and notifications, answers of the "
            "client, with ids that are numbers or texts, other header fields before and after Content-Length, other "
            "layouts of the JSON and the input cut into pieces; non-trivial when it has at least three answers")

    def subs(self):
        return [Sub("session", session(), check_session, 800)]


CHECK = P01()
