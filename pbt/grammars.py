"""Word grammars handed to the parser: the shipped ones (read from the tree under test) and a small reference one."""
import glob
import json
import os

import build as B

WT = {"misc": 0, "angle": 1, "calc": 2, "code": 3, "feed": 4, "length": 5, "macro": 6, "numbering": 7,
      "assignable": 8}
PARSER_TYPES = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill",
                "fanuc_millturn_system_a", "fanuc_millturn_system_b", "generic_lathe", "generic_mill", "haas_lathe",
                "haas_mill", "makino_mill"]
PT = {n: i for i, n in enumerate(PARSER_TYPES)}

_ALL = None


def _words(d):
    return {k: [v["word"], v["range_from"], v["range_to"], v["decimal_from"], v["decimal_to"], v["unique"],
                WT[v["type"]]] for k, v in d.items()}


def _load(p):
    with open(p, encoding="utf-8-sig") as f:
        return json.load(f)


def shipped(name):
    d = os.path.join(B.REPO, "conf", name)
    g = _load(d + "/grammar.json")
    gg = {}
    for kind, key in (("gcode_groups.json", "gg"), ("mcode_groups.json", "mg")):
        j = _load(os.path.join(d, kind))
        gg[key] = {k: [[e["code"], e["rest"]] for e in v] for k, v in j["groups"].items()}
    return {"metric": _words(g["metric"]), "imperial": _words(g["imperial"]), "ops": g["operations"],
            "gg": gg["gg"], "mg": gg["mg"]}


FUNCS = ["SIN", "COS", "TAN", "ASIN", "ACOS", "ATAN", "SQRT", "ABS", "ROUND", "FIX", "FUP", "LOG", "LOG10", "SINH",
         "COSH", "TANH", "EXP", "OR", "XOR",
         "AND", "MOD", "BIN", "BCD", "IF", "WHILE", "DO", "END", "THEN", "EQ", "NE", "GT", "GE", "LT", "LE"]


def reference():
    """A compact mill grammar with ranges that differ word by word, so that a mixed-up bound is visible."""
    m = {}

    def add(w, rf, rt, df, dt, u, t):
        m[w] = [w, rf, rt, df, dt, u, WT[t]]

    add("N", 1, 9999, 0, 0, False, "numbering")
    add(":", 1, 9999, 0, 0, False, "numbering")
    add("O", 1, 9999, 0, 0, False, "misc")
    add("#", 1, 9999, 0, 0, False, "macro")
    add("G", 0, 199, 0, 9, False, "code")
    add("M", 0, 999, 0, 0, False, "code")
    add("D", -99, 99, 0, 0, False, "misc")
    add("H", 0, 99, 0, 0, False, "misc")
    add("F", 0, 9999, 0, 999, False, "feed")
    add("S", 0, 19999, 0, 0, False, "misc")
    add("T", 0, 9999, 0, 0, False, "misc")
    add("P", 0, 99999, 0, 999, False, "misc")
    add("Q", -999, 999, 0, 999, False, "misc")
    add("L", 0, 999, 0, 0, False, "misc")
    add("K", -999, 9999, 0, 9999, True, "length")
    add("I", -999, 999, 0, 9999, True, "length")
    add("J", -998, 998, 0, 9999, True, "length")
    add("R", -997, 997, 0, 9999, True, "length")
    add("X", -999, 999, 0, 9999, True, "length")
    add("Y", -888, 888, 0, 9999, True, "length")
    add("Z", -777, 777, 0, 9999, True, "length")
    add("U", -666, 666, 0, 999, True, "length")
    add("C", -359, 359, 0, 9999, True, "angle")
    add("C2", -555, 555, 0, 99, True, "assignable")
    add("S2", 0, 5000, 0, 0, False, "assignable")
    add(",C", -99, 99, 0, 999, False, "misc")
    add(",R", -98, 98, 0, 999, False, "misc")
    add("GOTO", 1, 9999, 0, 0, False, "misc")
    for w in "=+-*/":
        add(w, -99999, 99999, 0, 9999, False, "calc")
    imp = {k: list(v) for k, v in m.items()}
    for w in "XYZIJK":
        imp[w] = [w, -99, 99, 0, 99999, True, WT["length"]]
    gg = {"1": [[0, 0], [1, 0], [2, 0], [3, 0]], "2": [[17, 0], [18, 0], [19, 0]], "3": [[90, 0], [91, 0]],
          "5": [[54, 0], [55, 0], [54, 1]], "6": [[20, 0], [21, 0]]}
    mg = {"1": [[3, 0], [4, 0], [5, 0]], "2": [[7, 0], [8, 0], [9, 0]], "3": [[8, 0], [10, 0]]}
    return {"metric": m, "imperial": imp, "ops": FUNCS, "gg": gg, "mg": mg}


def ALL():
    global _ALL
    if _ALL is None:
        _ALL = {n: shipped(n) for n in PARSER_TYPES if os.path.isdir(os.path.join(B.REPO, "conf", n))}
        _ALL["ref"] = reference()
    return _ALL
