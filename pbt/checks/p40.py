"""The editor's comments: what is highlighted as a comment and what the comment command makes, against the parser."""
import json
import os
import re

from hypothesis import strategies as st

import build
import fan
import gen
from checks.p11 import mutant_case
from core import Check, Sub, Violation


class Highlighter:
    """The part of the TextMate engine that the language's grammar needs: match, begin/end, include; line by line."""

    def __init__(self, grammar):
        self.g = grammar

    def rules(self, patterns, seen=()):
        out = []
        for p in patterns:
            inc = p.get("include")
            if inc is None:
                out.append(p)
            elif inc in ("$self", "$base"):
                if inc not in seen:
                    out += self.rules(self.g["patterns"], seen + (inc,))
            elif inc not in seen:
                r = self.g["repository"][inc[1:]]
                out += [r] if "match" in r or "begin" in r else self.rules(r["patterns"], seen + (inc,))
        return out

    def line(self, text):
        """The scopes of every character of a line (without those of the end of the line)."""
        s = text + "\n"
        out = [()] * len(s)
        stack, pos, scopes = [(None, self.g["patterns"])], 0, ()
        for _ in range(10 * len(s) + 10):
            if pos >= len(s):
                break
            rule, patterns = stack[-1]
            best = None
            if rule is not None:
                m = re.compile(rule["end"]).search(s, pos)
                if m:
                    best = (m.start(), -1, m, rule)
            for i, r in enumerate(self.rules(patterns)):
                m = re.compile(r.get("match") or r["begin"]).search(s, pos)
                if m and (best is None or m.start() < best[0]):
                    best = (m.start(), i, m, r)
            here = tuple(r["name"] for r, _ in stack if r is not None and "name" in r)
            if best is None:
                out[pos:] = [here] * (len(s) - pos)
                break
            at, i, m, r = best
            out[pos:at] = [here] * (at - pos)
            if i < 0:
                out[at:m.end()] = [here] * (m.end() - at)
                stack.pop()
            else:
                mine = here + ((r["name"],) if "name" in r else ())
                out[at:m.end()] = [mine] * (m.end() - at)
                if "begin" in r:
                    stack.append((r, r.get("patterns", [])))
            pos = m.end() if m.end() > pos or i != len(stack) else pos + 1
        return out[:-1]


def load():
    root = build.REPO
    pkg = json.load(open(os.path.join(root, "package.json"), encoding="utf-8-sig"))["contributes"]
    lang = pkg["languages"][0]
    g = next(x for x in pkg["grammars"] if x["language"] == lang["id"])
    with open(os.path.join(root, g["path"]), encoding="utf-8-sig") as f:
        grammar = json.load(f)
    with open(os.path.join(root, lang["configuration"]), encoding="utf-8-sig") as f:
        conf = json.loads("\n".join(x for x in f.read().split("\n") if not x.lstrip().startswith("//")))
    return Highlighter(grammar), conf


def setup(ctx):
    if "editor" not in ctx.state:
        ctx.state["editor"] = load()
    return ctx.state["editor"]


def utf8(s):
    """As the driver takes bytes."""
    return s.encode("utf-8").decode("latin-1")


def comments(value):
    return [t[2].encode("latin-1").decode("utf-8", "replace") for t in value if t[0] == "S" and t[1] == "("]


def check_shown(ctx, c):
    hl, _ = setup(ctx)
    hit = False
    for l, x in zip(c["lines"], fan.run(ctx, [["parse", 1, utf8(l)] for l in c["lines"]], g=c["g"], want=["tok"])):
        if not x["ok"]:
            continue
        scopes = hl.line(l)
        marked = [any(s.startswith("comment.") for s in v) for v in scopes]
        got, i = [], 0
        while i < len(l):
            if not marked[i]:
                i += 1
                continue
            j = i
            while j < len(l) and marked[j]:
                j += 1
                if l[j - 1] == ")":
                    break
            got.append(l[i:j])
            i = j
        want = ["(%s)" % t for t in comments(x["tok"])]
        if got != want:
            raise Violation("block %r: highlighted as comments %r, its comments are %r" % (l, got, want), sig="shown")
        bad = [l[i] for i in range(len(l)) if marked[i] and any(s.startswith(("keyword.", "string.", "support."))
                                                                  for s in scopes[i])]
        if bad:
            raise Violation("block %r: %r of a comment is highlighted as a word" % (l, bad), sig="words")
        hit = hit or bool(want)
    return hit


def toggle(conf, text):
    """The editor's comment command for a line that is no comment."""
    k = conf["comments"]
    n = len(text) - len(text.lstrip())
    line = k.get("lineComment")
    if line is not None:
        return text[:n] + (line if isinstance(line, str) else line["comment"]) + " " + text[n:]
    a, b = k["blockComment"]
    return text[:n] + a + " " + text[n:].rstrip() + " " + b


def check_toggle(ctx, c):
    _, conf = setup(ctx)
    kept = [l for l, x in zip(c["lines"], fan.run(ctx, [["parse", 1, utf8(l)] for l in c["lines"]], g=c["g"], want=["tok"]))
            if x["ok"] and l.strip() and not comments(x["tok"]) and "(" not in l]
    if not kept:
        return False
    made = [toggle(conf, l) for l in kept]
    for l, t, x in zip(kept, made, fan.run(ctx, [["parse", 1, utf8(t)] for t in made], g=c["g"], want=["tok"])):
        if not x["ok"] or len(x["tok"]) != 1 or not comments(x["tok"]):
            raise Violation("block %r, made a comment by the editor: %r, read as %s" % (l, t, x["tok"] or x["msg"]),
                            sig="toggle")
    return True


def check_added(ctx, c):
    hl, _ = setup(ctx)
    kept = [(l, x["tok"]) for l, x in zip(c["lines"], fan.run(ctx, [["parse", 1, utf8(l)] for l in c["lines"]],
                                                              g=c["g"], want=["tok"]))
            if x["ok"] and l.strip() and not comments(x["tok"]) and "(" not in l and ";" not in l and "%" not in l]
    if not kept:
        return False
    new = []
    for i, (l, _) in enumerate(kept):
        t = c["inside"][i % len(c["inside"])].replace(")", "]")
        new.append(l + " (" + t + ")" if c["behind"] else "(" + t + ") " + l)
    for t, (l, tok), x in zip(new, kept, fan.run(ctx, [["parse", 1, utf8(t)] for t in new], g=c["g"], want=["tok"])):
        shown = "".join(t[i] for i, v in enumerate(hl.line(t)) if any(s.startswith("comment.") for s in v))
        rest = [v for v in x["tok"] if not (v[0] == "S" and v[1] == "(")] if x["ok"] else None
        if rest != tok or ["(%s)" % v for v in comments(x["tok"])] != [shown]:
            raise Violation("block %r, shown with the comment %r, is read as %s" % (t, shown, x["tok"] or x["msg"]),
                            sig="added")
    return True


word = st.one_of(gen.line_text(), gen.path_line())
inside = st.text(alphabet="GMX1#;\\ \"'[]%/:(,.+abIF\t" + "\u0105", max_size=8)


@st.composite
def commented(draw):
    out = []
    for _ in range(draw(st.integers(1, 5))):
        s = ""
        for _ in range(draw(st.integers(1, 3))):
            s += draw(st.sampled_from(["", "G1", " X1 ", "N5 ", "#1=2 ", "O12", "%", "/ ", "Y[1+2]", "(", ")"])) if draw(
                st.booleans()) else draw(word)
            if draw(st.booleans()):
                s += "(" + draw(inside) + ")" + draw(st.sampled_from(["", " ", ";"]))
        out.append(s.replace("\n", " ").replace("\r", " "))
    return {"g": draw(gen.grammar_id), "lines": out}


@st.composite
def added(draw):
    c = draw(mutant_case())
    return dict(c, inside=draw(st.lists(inside, min_size=1, max_size=4)), behind=draw(st.booleans()))


META = dict(
    title="The editor shows and makes comments exactly where the parser has them",
    statement="In every block the parser accepts, the text that the syntax highlighting marks as comment is exactly the "
              "block's comments with their parentheses, and nothing in a comment is marked as a word; a comment put in front of "
              "or behind an accepted block leaves it accepted, with the same words, whatever its text; a block that the "
              "editor's comment command (language configuration) turns into a comment is read by the parser as one "
              "comment and nothing else.",
    over=["inputs"],
    over_text="every accepted block text with any comments, any block made a comment, each shipped word table",
    why="The highlighting and the language configuration are data of another program (the editor) and no test reads "
        "them; whether they agree with the parser shows only on texts with unusual characters.",
    files=["syntaxes/ncproj.tmLanguage.json", "language-configuration.json",
           "parser/fanuc/AllAttributesParserGrammar.h"],
    mechanism=[("comments highlighted", "repository strings of the TextMate grammar"),
               ("comment command", "comments of the language configuration"),
               ("comments read", "comment_attribute_grammar")],
    observe="scopes of each character by the TextMate rules; tokens of parse",
    technique="differential testing of the editor's rules (interpreted) against the real parser",
    design="`shown` interprets the TextMate grammar of the language on generated lines and compares the text with a "
           "comment scope with the comment tokens of the parser; `added` puts a comment of any characters at either end of an "
           "accepted block and compares the words; `toggle` applies the comment command as the editor "
           "defines it and lets the parser read the result.",
    note="The interpreter of TextMate rules covers match, begin/end and include, with Python's regular expressions in "
         "place of Oniguruma. Which letters are coloured as which word is not claimed.")


class P40(Check):
    id = "P40"
    rule = "shown: an accepted block with a comment; added, toggle: an accepted block without one"

    def subs(self):
        return [Sub("shown", commented(), check_shown, 4000, 400000),
                Sub("added", added(), check_added, 3000, 300000),
                Sub("toggle", mutant_case(), check_toggle, 3000, 300000)]


CHECK = P40()
