"""Helpers to drive the Fanuc-family parser through the harness driver."""
import copy

import grammars
from core import Violation

NC_MILL = {
    "mt": 0, "mtt": 0,
    "base": {"X": 0.0, "Y": 0.0, "Z": 500.0, "I": 0.0, "J": 0.0, "K": 0.0},
    "tool": {"X": 0.0, "Y": 0.0, "Z": 500.0},
    "axes": {"X": [-500.0, 500.0], "Y": [-500.0, 500.0], "Z": [0.0, 1000.0]},
    "mwf": 20000.0, "mff": 20000.0, "mss": 10000, "items": 30, "tet": 6, "pet": 1, "tmt": 3,
    "dia": False, "ameas": False, "pec": ["M", "60"], "tmc": ["G", "37"],
    "def": {"motion": 0, "plane": 17, "units": 0, "prog": 90, "feed": 94, "rotdir": 3, "depth": 0, "ret": 98,
            "rot": 0, "c0": True, "c1": True, "c2": True, "c3": True, "c80rapid": True, "oprot": False,
            "texch": False, "autorapid": False},
    "zp": [0.0, 0.0, 0.0],
}


def nc(**kw):
    n = copy.deepcopy(NC_MILL)
    d = kw.pop("def_", {})
    n.update(kw)
    n["def"].update(d)
    return n


def case(ops, g="ref", set_=(False, False, False, False, False), nc_=None, api="cpp", want=(), pt=None, lang=0,
         sl=True):
    ops = list(ops)
    if nc_ is not None:
        ops.insert(0, ["nc", nc_])
    if pt is None:
        pt = grammars.PT.get(g, grammars.PT["fanuc_mill"])
    return {"t": "case", "api": api, "g": g, "set": [bool(x) for x in set_], "pt": pt, "nonc": True, "lang": lang,
            "sl": sl, "want": list(want), "ops": ops}


def run(ctx, ops, **kw):
    """Runs the ops on a fresh parser; an exception escaping the parser is a violation of every property."""
    allow = kw.pop("allow_exc", False)
    rq = case(ops, **kw)
    r = ctx.driver.request(rq)["r"]
    if not allow:
        for op, x in zip(rq["ops"], r):
            if "exc" in x:
                raise Violation("exception escaped the parser on %r: %s" % (op[:3], x["exc"]), sig="exc " + x["exc"])
    if kw.get("nc_") is not None:
        r = r[1:]
    return r


def tokens_text(toks):
    """The characters of a token list, in order (what is written back to the user's file, without blanks)."""
    out = []
    for t in toks:
        if t[0] == "D":
            out.append(t[1] + "".join(x for x in t[2:10] if x is not None))
        elif t[0] == "S":
            out.append(t[1] + t[2] + (")" if t[1] == "(" else ""))
        else:
            out.append(t[1] + t[2].replace("\0", ""))
    return "".join(out)
