"""Language server: completion items and their descriptions."""
from hypothesis import strategies as st

import lsp
from checks.p05 import SYS, settings, user, user_file
from core import Check, Sub, Violation
from models import hover as model

URI = "file:///c.nc"


def offered(descs, user, driver, opened):
    out = ["G" + k for k in descs.g] + ["M" + k for k in descs.m]
    if opened:
        own = model.described(driver, "macros_desc")
        out += ["#" + k for k in own] + ["#" + k for k in user or {} if k not in own]
    return sorted(out)


def check_completion(ctx, c):
    us, args = user_file(ctx, c)
    descs = model.Descriptions(c["driver"], us)
    every = offered(descs, us, c["driver"], True)
    msgs, kinds, opened = [], [], False
    for k, s in enumerate(c["steps"]):
        if s[0] == "open":
            msgs.append(lsp.did_open(URI, "#500=1\nG1"))
        elif s[0] == "complete":
            msgs.append(lsp.request(k, "textDocument/completion", {"textDocument": {"uri": URI},
                                                                   "position": {"line": 0, "character": 0}}))
        elif s[0] == "hover":
            msgs.append(lsp.hover(k, URI, 1, 0))
        else:
            label = every[s[1] % len(every)] if s[0] == "offered" else s[1]
            p = {"label": label}
            for f, v in zip(("kind", "data", "insertTextFormat"), s[2]):
                if v is not None:
                    p[f] = v
            msgs.append(lsp.request(k, "completionItem/resolve", p))
            s = [s[0], label, p]
        kinds.append(s)
    got = lsp.talk(ctx, msgs, args + settings(ctx, c["driver"]))
    if len(got) != len(msgs):
        raise Violation("%d answers to %d messages" % (len(got), len(msgs)), sig="count")
    seen = None
    for s, g in zip(kinds, got):
        here = "driver %s, %s" % (c["driver"], [x[:2] for x in kinds])
        if s[0] == "open":
            opened = True
        if s[0] == "complete":
            items = g["result"]
            labels = sorted(i["label"] for i in items)
            want = offered(descs, us, c["driver"], opened)
            if not opened and labels != want:
                want = every  # the variables' descriptions may be known before a document is
            if labels != want:
                raise Violation("%s: items %s not expected, %s missing" % (
                    here, [x for x in labels if x not in want or labels.count(x) > 1][:5],
                    [x for x in want if x not in labels][:5]), sig="items")
            if len({i["data"] for i in items}) != len(items):
                raise Violation("%s: items without data of their own" % here, sig="data")
            if any(i["kind"] != 15 or i["insertTextFormat"] != 2 for i in items):
                raise Violation("%s: kinds %s" % (here, {(i["kind"], i["insertTextFormat"]) for i in items}), sig="kind")
            if seen and labels == seen[0] and items != seen[1]:
                raise Violation("%s: items in another order" % here, sig="order")
            seen = labels, items
        if s[0] in ("offered", "other"):
            label, r = s[1], dict(g["result"])
            detail, doc = r.pop("detail", 0), r.pop("documentation", 0)
            if r != s[2]:
                raise Violation("%s: %s resolved to %s" % (here, s[2], r), sig="echo")
            if label[:1] in ("G", "g"):
                want = [descs.g.get(label[1:], ("", ""))]
            elif label[:1] in ("M", "m"):
                want = [descs.m.get(label[1:], ("", ""))]
            elif label[:1] == "#" and label[1:].isdigit() and label.isascii() and int(label[1:]) < 2**31:
                want = descs.variable(label[1:])
            else:
                want = [("", "")]
            if (detail, doc) not in [(a or None, b or None) for a, b in want]:
                raise Violation("%s: %r resolved to %r, %r, expected %r" % (here, label, detail, doc, want),
                                sig="resolve")
            ctx.label("described" if detail else "not described")
    return any(s[0] == "offered" for s in kinds)


extra = st.tuples(st.one_of(st.none(), st.integers(0, 30)), st.one_of(st.none(), st.integers(-5, 2**31), st.just("a")),
                  st.sampled_from([None, 1, 2]))
other = st.one_of(st.sampled_from(["", "X", "G", "M", "#", "G9999", "g1", "m3", "g05.1", "Gx", "#x", "G1 ", "ż", "G#500", "G1.5"]),
                  st.sampled_from(SYS).map(lambda n: "#%d" % n), st.integers(0, 20000).map(lambda n: "#%d" % n),
                  st.integers(0, 150).map(lambda n: "G%d" % n), st.integers(0, 150).map(lambda n: "M%02d" % n))
step = st.one_of(st.just(["open"]), st.just(["complete"]), st.just(["hover"]),
                 st.tuples(st.just("offered"), st.integers(0, 10000), extra),
                 st.tuples(st.just("offered"), st.integers(0, 10000), extra),
                 st.tuples(st.just("other"), other, extra))
case = st.fixed_dictionaries({"driver": st.sampled_from(lsp.TYPES), "user": user, "steps": st.lists(step, min_size=2,
                                                                                               max_size=25)})
META = dict(
    title="Completion offers each code of the control once, with its description",
    statement="In any order of requests the completion list holds exactly the G and M codes described for the "
              "configured control, one-digit codes also with a leading zero, and, once a document is open, the "
              "described variables, the user's included, each once with data of its own; resolving an item returns "
              "the item with title and description of its code or variable (or range of variables), the user's before "
              "the built-in ones, and neither for unknown labels.",
    over=["histories", "configurations"],
    over_text="every order of requests for every control and description file of the user",
    why="The tests never start the server; repetitions and missing items depend on the order of requests.",
    files=["nclangsrv/JsonMessageHandler.cpp", "nclangsrv/CodesReader.cpp", "nclangsrv/MacrosDescReader.cpp"],
    mechanism=[("list", "JsonMessageHandler::textDocument_completion, fetch_*Desc"),
               ("item", "JsonMessageHandler::completionItem_resolve"), ("synonyms", "CodesReader::read")],
    observe="textDocument/completion, completionItem/resolve",
    technique="model-based testing of random request sequences against a reference built from the description files",
    design="the reference reads the control's description files itself; the items of each list and every resolved item "
           "are compared with it.",
    note="The order of the list is only required to stay the same while its members do. Before a document is opened the "
         "variables may be present or absent.")


class P06(Check):
    id = "P06"
    targets = ("server",)
    rule = ("a server for one of the eleven controls, with or without descriptions of the user, and up to 25 requests; "
            "non-trivial when an offered item is resolved")

    def subs(self):
        return [Sub("completion", case, check_completion, 900)]


CHECK = P06()
