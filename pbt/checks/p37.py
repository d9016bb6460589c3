"""The server's command line: every spelling of an option means the same, and the log only observes."""
import json
import os

from hypothesis import strategies as st

import gen
import lsp
from checks.p01 import body, build, session
from checks.p32 import write
from core import Check, Sub, Violation

USER = {"descriptions": {"500": {"mine": "Range: #500-#505"}, "100": {"other": "text"}}}


def spoil(obj, k):
    """The text of a file that the server cannot use, for the greater k."""
    t = json.dumps(obj)
    if k < 4:
        return t
    if k == 4:
        return t[:len(t) // 2]
    if k == 5:
        return t.replace(":", ": x", 1)
    if k == 6:
        return json.dumps(dict(list(obj.items())[:-1]))
    if k == 7:
        return json.dumps({n: v if isinstance(v, str) else {"x": "y"} for n, v in obj.items()})
    return ["", "[]", "{}", "null", "\0"][k - 8]


def args_of(ctx, c, style):
    """The command line: the values of the case, written in a style of their own."""
    out = []

    def opt(name, short, value, k):
        if k == 0:
            return ["--" + name, value]
        if k == 1:
            return ["--%s=%s" % (name, value)]
        return ["-" + short, value] if k == 2 and short else ["-%s%s" % (short, value)] if short else ["--" + name, value]

    if c["path"] is not None:
        words = (["true", "1", "yes", "on"] if c["path"] else ["false", "0", "no", "off"])
        out.append(opt("calculate-path", "", words[style[0] % 4], style[1]))
    if c["driver"]:
        p = write(ctx, spoil(lsp.settings_file(lsp.defaults(), c["driver"]), c["spoilt"][0]), "opt.ncsetting")
        out.append(opt("ncsetting-path", "n", p, style[2]))
    if c["user"]:
        out.append(opt("macro-desc-path", "m", write(ctx, spoil(USER, c["spoilt"][1]), "opt.json"), style[3]))
    if style[4] % 5 == 0:
        out.reverse()
    if style[4] % 3 == 0:
        # accepted, without a meaning for a language server
        out.append(opt("single-line-output", "s", "1", style[5]))
    return out


def check(ctx, c):
    data = b"".join(lsp.frame(body(build(m)[0], 0)) for m in c["s"]["msgs"])
    plain = [x for a in args_of(ctx, c, [0, 0, 0, 0, 1, 0]) for x in a]
    outs = lsp.run(ctx, data, plain)
    other = [x for a in args_of(ctx, c, c["style"]) for x in a]
    log = os.path.join(ctx.scratch, "server.log")
    keep = "kept before\n"
    if c["log"] in ("new", "kept"):
        with open(log, "w") as f:
            f.write(keep if c["log"] == "kept" else "")
    if c["log"] != "none":
        p = log if c["log"] != "nowhere" else os.path.join(ctx.scratch, "no/such/dir/x.log")
        at = [["--log-path", p], ["-l", p], ["--log-path=" + p]][c["style"][6] % 3]
        other = at + other if c["style"][5] % 2 else other + at
    try:
        got = lsp.run(ctx, data, other, chunks=c["s"]["chunks"])
        if got != outs:
            i = next((i for i, (a, b) in enumerate(zip(outs, got)) if a != b), min(len(outs), len(got)))
            raise Violation("%s and %s answer differently: %r, %r" % (plain, other, outs[i:i + 1], got[i:i + 1]),
                            sig="differ")
        if c["log"] == "kept":
            with open(log, errors="replace") as f:
                if not f.read().startswith(keep):
                    raise Violation("the log that was there is lost", sig="lost")
    finally:
        if os.path.exists(log):
            os.unlink(log)
    # the values matter: the settings' control, the path, the user's descriptions
    off = lsp.run(ctx, data, [x for a in args_of(ctx, dict(c, path=None), [0, 0, 0, 0, 1, 0]) for x in a])
    if not c["path"] and off != outs:
        raise Violation("calculating no path by default and by option differ", sig="default")
    ctx.label(c["log"])
    return len(outs) > 1 and bool(other)


def check_on(ctx, c):
    """What is calculated depends on the option only where a path or time is asked for."""
    text = "\n".join(c["lines"])
    uri = "file:///p.nc"
    msgs = [lsp.did_open(uri, text), lsp.lens(1, uri)] + [
        lsp.hover(i + 2, uri, i, 1) for i in range(min(len(c["lines"]), 6))]
    on = lsp.talk(ctx, msgs, ["--calculate-path", "true"])
    off = lsp.talk(ctx, msgs, [])
    if on[0] != off[0] or on[2:] != off[2:]:
        raise Violation("document %r: diagnostics or hovers depend on whether path and time are shown" % text,
                        sig="shown")
    if off[1].get("result"):
        raise Violation("document %r: lenses %s although not asked for" % (text, off[1]), sig="off")
    return bool(on[1].get("result"))


opts = st.fixed_dictionaries({
    "s": session(), "path": st.sampled_from([None, True, True, False]),
    "driver": st.sampled_from([None, None, "haas_mill", "makino_mill", "fanuc_lathe_system_a", "generic_mill"]),
    "user": st.booleans(), "spoilt": st.lists(st.integers(0, 12), min_size=2, max_size=2), "style": st.lists(st.integers(0, 29), min_size=7, max_size=7).map(
        lambda v: [v[0]] + [x % 4 if i != 3 else x for i, x in enumerate(v[1:])]),
    "log": st.sampled_from(["none", "new", "kept", "nowhere"])})


@st.composite
def shown(draw):
    return {"lines": draw(st.lists(st.one_of(gen.path_line(), gen.path_line(), gen.line_text()), min_size=1,
                                   max_size=8))}


META = dict(
    title="The server's options mean the same however written, and the log only observes",
    statement="The options of the language server (path calculation, settings, macro descriptions, log) take effect in "
              "every spelling and order the command line allows; writing a log, to any place, changes no answer and "
              "keeps what the log had; switching path and time off changes nothing but that path and time are not "
              "shown, which is also what happens without the option.",
    over=["inputs", "configurations", "histories"],
    over_text="sessions of up to 9 messages; spellings and orders of the options; logs that are new, not empty or "
              "cannot be written; programs with and without motion",
    why="The tests never start the server; the extension passes the options in one spelling only.",
    files=["nclangsrv/nclangsrv.cpp", "nclangsrv/Logger.cpp", "nclangsrv/NCParser.cpp"],
    mechanism=[("options", "nclangsrv.cpp main"), ("log", "Logger, LOGGER lines of each class"),
               ("what is calculated", "NCParser::parse")],
    observe="standard output of the server process, the log file",
    technique="metamorphic: the same session under differently written command lines",
    design="`spelling` plays a session (that of P01, settings and description files sound or broken) with a plain command line and with another that means the same; "
           "the bytes of all answers must be equal. `shown` compares a program with the path on and off.",
    note="Invalid options end the server (it cannot tell the client), this is not claimed. The contents of the log are "
         "not claimed.")


class P37(Check):
    id = "P37"
    targets = ("driver", "server")
    rule = "spelling: at least two answers and an option; shown: lenses when the path is on"

    def subs(self):
        return [Sub("spelling", opts, check, 400), Sub("shown", shown(), check_on, 300)]


CHECK = P37()
