"""Reference of what is shown for a word under the cursor."""
import json
import os
import re

import build as B

CODE = re.compile(r"[GgMm][0-9]+\.?[0-9]?")
CODE_VAR = re.compile(r"[GgMm]#[0-9]+")
VAR = re.compile(r"#[0-9]+")
RANGE = re.compile(r"Range: #(\d+)-#(\d+)(?: - #(\d+)-#(\d+))?")


def first(v):
    """(title, description) of an entry of a description file."""
    for t, d in v.items():
        return t, d
    return "", ""


def described(driver, kind):
    """{code: (title, description)} of the description file of a control, in file order."""
    with open(os.path.join(B.REPO, "conf", driver, "desc", kind + "_en.json"), encoding="utf-8-sig") as f:
        return {k: first(v) for k, v in json.load(f)["descriptions"].items()}


def codes(driver, letter):
    out = {}
    for k, v in described(driver, letter.lower() + "code_desc").items():
        out.setdefault(k, v)
        if len(k) == 1 or (len(k) == 3 and k[1] == "."):
            out.setdefault("0" + k, v)
    return out


class Descriptions:
    def __init__(self, driver, user=None):
        self.g, self.m = codes(driver, "G"), codes(driver, "M")
        self.user = {k: first(v) for k, v in (user or {}).items() if v}
        self.own = {k: v for k, v in described(driver, "macros_desc").items() if k not in self.user}

    def variable(self, num):
        """All descriptions that may be shown for a variable: its own one, else those whose range holds it."""
        for d in (self.user, self.own):
            if num in d:
                return [d[num]]
        out = []
        for d in (self.user, self.own):
            for t in d.values():
                m = RANGE.search(t[1])
                if m:
                    r = [int(x) for x in m.groups() if x is not None]
                    if max(r) < 2**31 and any(a <= int(num) <= b for a, b in zip(r[::2], r[1::2])):
                        out.append(t)
        return out or [("", "")]


def bare(num):
    return num.lstrip("0") or "0" if num.isdigit() else re.sub(r"^0+(?=.)", "", num)


def trunc(x):
    s = "%f" % x
    s = s.rstrip("0")
    return s[:-1] if s.endswith(".") else s


def shown(word, desc):
    title, text = desc
    return "**%s: %s** \n\n---\n\n%s" % (word, title, text.replace("\n", "\n\n"))


def at(rx, ln, ch):
    for m in rx.finditer(ln):
        if m.start() <= ch < m.end():
            return m
    return None


def hover(ln, ch, values, descs):
    """None or ([contents that are right], from, to) for a character of a line (latin-1 mapped bytes)."""
    m = at(CODE, ln, ch)
    if m:
        w = m.group()
        d = descs.g if w[0] in "Gg" else descs.m
        num = bare(w[1:])
        return [shown(w, d[num]) if num in d else w], m.start(), m.end()
    m = at(CODE_VAR, ln, ch)
    if m:
        w = m.group()
        num = int(w[2:])
        if num not in values:
            return None
        d = descs.g if w[0] in "Gg" else descs.m
        code = trunc(values[num])
        w = "%s (%s%s)" % (w, "G" if w[0] in "Gg" else "M", code)
        return [shown(w, d[code]) if code in d else w], m.start(), m.end()
    m = at(VAR, ln, ch)
    if m:
        w, num = m.group(), int(m.group()[1:])
        if num in values:
            w += " = " + trunc(values[num])
        ds = descs.variable(str(num)) if num < 2**31 else [("", "")]
        out = []
        for d in ds:
            if d[0] or d[1]:
                out.append(shown(w, d))
            else:
                out.append(w if num in values else w + " = undefined")
        return out, m.start(), m.end()
    return None
