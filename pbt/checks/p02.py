"""Language server: malformed input, end of input."""
import copy
import json

from hypothesis import strategies as st

import lsp
from checks.p01 import body, build, message
from core import Check, Sub, Violation

KEEP = ("keep://doc", "#501=7\nG1 X@\nG#501 X#501\nG0 X100 Y50\n(a:b) @ :c")
PROBE = ("probe://doc", "#502=2\nG0 X10\nG#502 X#502 @\nX5 @")


def probes():
    u, k = PROBE[0], KEEP[0]
    return [lsp.hover("p1", k, 2, 1), lsp.hover("p2", k, 2, 7), lsp.lens("p3", k), lsp.did_open(*PROBE),
            lsp.hover("p4", u, 2, 1), lsp.hover("p5", u, 2, 7), lsp.lens("p6", u),
            lsp.request("p7", "completionItem/resolve", {"label": "G4"}),
            lsp.request("p8", "completionItem/resolve", {"label": "#5020"}),
            lsp.did_change(k, KEEP[1] + "\n@"), lsp.hover("p9", k, 0, 1)]


def paths(v, at=()):
    out = [at] if at else []
    if isinstance(v, dict):
        for k in sorted(v):
            out += paths(v[k], at + (k,))
    elif isinstance(v, list):
        for k in range(len(v)):
            out += paths(v[k], at + (k,))
    return out


def mutate(msg, muts):
    msg = copy.deepcopy(msg)
    for pick, what, val in muts:
        ps = paths(msg)
        if not ps:
            break
        p = ps[pick % len(ps)]
        v = msg
        for k in p[:-1]:
            v = v[k]
        if p[0] == "id" and what == "set" and not isinstance(val, (int, str)) or isinstance(val, bool) and p[0] == "id":
            continue
        if what == "del":
            del v[p[-1]]
        elif what == "dup" and isinstance(v, list):
            v.insert(p[-1], copy.deepcopy(v[p[-1]]))
        elif what == "rename" and isinstance(v, dict):
            v[p[-1] + "x"] = v.pop(p[-1])
        else:
            v[p[-1]] = val
    return msg


HEADS = [b"Content-Length: 0\r\n\r\n", b"Content-Length: -5\r\n\r\n", b"Content-Length: abc\r\n\r\n",
         b"Content-Length: \r\n\r\n", b"\r\n\r\n", b"garbage\r\n", b"Content-Type: x\r\n\r\n", b"CCC\n\n",
         b"Content-Length\r\n"]


JUNK = ["}", "]", "x", "{}", ",", " 0", "\n{}", "//", "/* */", '"', "null", "{"]


def item(i):
    """(bytes, id to be answered or None) of a generated malformed item."""
    if i["t"] == "head":
        return HEADS[i["n"] % len(HEADS)], None
    if i["t"] == "raw":
        b = bytes(i["b"])
        return (lsp.frame(b), None) if b else (b"", None)
    msg = build(i["m"])[0] if "m" in i else None
    if i["t"] == "cut":
        b = body(msg, i["m"]["style"]).rstrip(b" \n")
        return lsp.frame(b[:max(1, min(len(b) - 1, i["n"]))]), None
    if i["t"] == "tail":
        # would change the document, close it or be answered, were it JSON
        m = [lsp.did_change(KEEP[0], "G2 X7@"), lsp.did_open(KEEP[0], "M30"), lsp.did_close(KEEP[0]),
             lsp.hover(77, KEEP[0], 2, 1), lsp.request(78, "initialize", {}), {"jsonrpc": "2.0", "method": "exit"}][i["n"] % 6]
        a, z = [("", *JUNK)[k].encode() for k in i["at"][:2]]
        b = json.dumps(m).encode()
        if not a.strip() and not z.strip():
            z = b"}"
        if i["at"][2] == 0:
            b, a, z = b[:-1] + b",}", b"", b""
        elif i["at"][2] == 1:
            b, a, z = b.replace(b'"', b"'"), b"", b""
        elif i["at"][2] == 2:
            b, a, z = b.replace(b", ", b" /* */ , ", 1), b"", b""
        elif i["at"][2] == 3:
            b, a, z = b.replace(b'"method"', b"method"), b"", b""
        return lsp.frame(a + b + z), None
    if i["t"] == "value":
        return lsp.frame(json.dumps(i["v"]).encode()), None
    if i["t"] == "utf8":
        b = body(lsp.did_open("file:///QQ.nc", "(QQ)\nG1 X@QQ"), 0).replace(b"QQ", bytes(i["b"][:3]) or b"\xff")
        return lsp.frame(b), None
    m = mutate(msg, i["muts"])
    ident = None
    if isinstance(m, dict) and isinstance(m.get("method"), str) and "id" in m:
        ident = m["id"]
    return lsp.frame(body(m, i["m"]["style"])), ident


def answers(ctx, data):
    out = []
    for b in lsp.run(ctx, data):
        try:
            out.append(json.loads(b.decode("utf-8", errors="replace")))
        except ValueError:
            raise Violation("answer is no JSON: %r" % b[:300], sig="no json")
    return out


def check_malformed(ctx, c):
    items = [item(i) for i in c["items"]]
    if ctx.state.get("fresh") is None:
        ctx.state["fresh"] = answers(ctx, b"".join(lsp.frame(m) for m in [lsp.did_open(*KEEP)] + probes()))
    fresh = ctx.state["fresh"]
    got = answers(ctx, b"".join([lsp.frame(lsp.did_open(*KEEP))] + [b for b, _ in items] +
                                [lsp.frame(m) for m in probes()]))
    n = len(fresh) - 1
    shown = [b[:150] for b, _ in items]
    if len(got) < len(fresh) or got[0] != fresh[0] or got[-n:] != fresh[1:]:
        bad = [k for k in range(n) if k >= len(got) or got[-n:][k] != fresh[1:][k]]
        raise Violation("after %s the server answers differently (%d answers): %s instead of %s" % (
            shown, len(got), str(got[-n:][bad[0]] if bad and len(got) >= n else got)[:300],
            str(fresh[1:][bad[0]] if bad else fresh)[:300]), sig="state")
    ids = [g["id"] for g in got[1:-n] if g.get("id") is not None]
    want = [i for _, i in items if i is not None]
    if ids != want:
        raise Violation("%s: answers to %s, expected to %s" % (shown, ids, want), sig="ids")
    return len(items) > 0


def check_end(ctx, c):
    msgs = [lsp.did_open(*KEEP)] + [build(m)[0] for m in c["msgs"]]
    parts = [lsp.frame(body(m, s["style"])) for m, s in zip(msgs, [{"style": 0}] + c["msgs"])]
    data = b"".join(parts)
    cut = int(c["at"] * len(data))
    done = 0
    pos = 0
    for p in parts:
        pos += len(p)
        if pos <= cut:
            done += 1
    full = answers(ctx, b"".join(parts[:done]))
    got = answers(ctx, data[:cut])
    if got != full:
        raise Violation("input ends after byte %d (%d complete messages): %d answers, expected %d" % (
            cut, done, len(got), len(full)), sig="end")
    return cut > 0


junk = st.one_of(st.none(), st.booleans(), st.integers(-5, 5), st.sampled_from(
    [2**31 - 1, 2**31, -2**31, 2**63, 1e300, 0.5, "", "x", [], {}, [None], {"line": "0"}, {"start": {}}, [[]],
     "textDocument/hover", "file:///a.nc", "textDocument/didOpen"]))
mutation = st.tuples(st.integers(0, 30), st.sampled_from(["del", "set", "set", "dup", "rename"]), junk)


@st.composite
def bad(draw):
    t = draw(st.sampled_from(["mut"] * 8 + ["head", "raw", "cut", "value", "utf8", "tail", "tail"]))
    i = {"t": t}
    if t in ("mut", "cut"):
        i["m"] = draw(message())
    if t == "mut":
        i["muts"] = draw(st.lists(mutation, min_size=1, max_size=3))
    if t in ("cut", "head"):
        i["n"] = draw(st.integers(0, 200))
    if t == "tail":
        i["n"] = draw(st.integers(0, 5))
        i["at"] = draw(st.lists(st.integers(0, len(JUNK)), min_size=2, max_size=2)) + [draw(st.integers(0, 9))]
    if t in ("raw", "utf8"):
        i["b"] = draw(st.lists(st.one_of(st.integers(128, 255), st.sampled_from(b'{}[]":,CG1x\r\n')), min_size=1,
                               max_size=20))
    if t == "utf8":
        i["b"] = [x for x in i["b"] if x >= 128] or [255]
    if t == "value":
        i["v"] = draw(junk)
    return i


META = dict(
    title="Malformed messages neither stop the server nor change what it knows",
    statement="After any malformed input that leaves the framing intact (missing, mistyped, renamed or repeated "
              "fields, truncated or arbitrary JSON, a message with other text around it, invalid UTF-8, a header block without a usable length) the "
              "server goes on, answers a malformed request that has an id with that id, and afterwards answers "
              "about documents it was given exactly as if the malformed messages had not been sent. When the input "
              "ends at any byte, the complete messages have been answered and the process ends with success, without "
              "an answer for the incomplete one.",
    over=["inputs", "histories", "crash points"],
    over_text="every sequence of damaged messages between valid ones and every byte at which the input can end",
    why="No test feeds the server anything; robustness to a misbehaving client needs arbitrary damaged bytes.",
    files=["nclangsrv/nclangsrv.cpp", "nclangsrv/JsonMessageHandler.cpp"],
    mechanism=[("error handling", "JsonMessageHandler::parse"), ("main loop", "nclangsrv.cpp")],
    observe="standard output and exit status of the server process; sanitizer reports",
    technique="structure-aware mutation fuzzing of sessions with a metamorphic oracle (probes answered as by a server "
              "that never saw the damage)",
    design="valid messages are mutated structurally (deletion, replacement, repetition, renaming, truncation) and "
           "sent between the opening of a document and eleven probes; answers to the probes must equal those of a "
           "clean session. The end-of-input search cuts a session at a random byte.",
    note="Huge lengths (more memory than there is), JSON nested thousands of levels deep and case variations of the "
         "header name are not claimed. A damaged message that is still valid for a document other than the probes' "
         "is allowed to have its effect.")


class P02(Check):
    id = "P02"
    targets = ("server",)
    rule = ("malformed: up to 6 items between the opening of a document and eleven probing messages: messages with "
            "parameters deleted, replaced, renamed or repeated, truncated or arbitrary content, invalid UTF-8, header "
            "blocks without a usable length; the probes must be answered as if the items had not been sent. end: the "
            "input ends after an arbitrary byte of a session; non-trivial unless it ends at once")

    def subs(self):
        return [Sub("malformed", st.builds(lambda i: {"items": i}, st.lists(bad(), min_size=1, max_size=6)),
                    check_malformed, 800),
                Sub("end", st.fixed_dictionaries({"msgs": st.lists(message(), max_size=4), "at": st.floats(0, 1)}),
                    check_end, 200)]


CHECK = P02()
