"""Generates properties.jsonl, MANIFEST.json and the per-property part of DESIGN.md from the META of each check module."""
import importlib
import json
import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
sys.path.insert(0, HERE)

TECH = "property-based testing: "


def modules():
    out = []
    for f in sorted(os.listdir(os.path.join(HERE, "checks"))):
        if f.startswith("p") and f.endswith(".py"):
            m = importlib.import_module("checks." + f[:-3])
            if hasattr(m, "META"):
                out.append(m)
    return out


def main():
    mods = modules()
    props, checks, design = [], [], []
    for m in mods:
        t = m.META
        pid = m.CHECK.id
        props.append({"id": pid, "title": t["title"], "statement": t["statement"],
                      "quantifier": {"over": t["over"], "text": t["over_text"]},
                      "why_tests_cant": t["why"],
                      "anchors": {"files": t["files"],
                                  "mechanism": [{"name": a, "where": b} for a, b in t["mechanism"]],
                                  "observe_at": t["observe"]}})
        assert len(t["title"]) <= 80, pid
        checks.append({"property": pid,
                       "quick_cmd": "python3-vt pbt/run.py %s --tier quick" % pid,
                       "thorough_cmd": "python3-vt pbt/run.py %s --tier thorough" % pid,
                       "evidence_file": "evidence/%s.json" % pid,
                       "technique": TECH + t["technique"],
                       "level": "exploration",
                       "level_note": t["note"]})
        subs = ", ".join("`%s` (%d / %d)" % (s.name, s.quick, s.thorough) for s in m.CHECK.subs())
        design.append("### %s — %s\n\n*Claim.* %s\n\n*Decided by* %s%s\n\n*Searches (quick / thorough cases):* %s\n\n"
                      "*Non-trivial:* %s\n\n*Bounds and trust.* %s\n" % (
                          pid, t["title"], t["statement"], TECH, t["design"], subs, m.CHECK.rule, t["note"]))
    with open(os.path.join(VERIF, "properties.jsonl"), "w") as f:
        for p in props:
            f.write(json.dumps(p, ensure_ascii=False) + "\n")
    na = json.load(open(os.path.join(HERE, "not_applicable.json")))
    for p in na:
        if "definition" in p:
            with open(os.path.join(VERIF, "properties.jsonl"), "a") as f:
                f.write(json.dumps(p["definition"], ensure_ascii=False) + "\n")
    man = {"version": 1, "setup_cmd": "python3 pbt/build.py",
           "hooks": {"guard": "none", "enable": "no hooks: the checks build /repo's sources unmodified",
                     "source_commits": []},
           "checks": checks,
           "not_applicable": [{"property": p["property"], "reason": p["reason"]} for p in na],
           "notes": "Every check is one command; VERIF_SEED selects the case stream; --replay FILE re-runs a saved "
                    "failing case."}
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1, ensure_ascii=False)
        f.write("\n")
    path = os.path.join(VERIF, "DESIGN.md")
    mark = "<!-- generated by pbt/meta.py -->"
    end = "<!-- end generated -->"
    s = open(path).read() if os.path.exists(path) else mark + end
    a, b = s.index(mark) + len(mark), s.index(end)
    s = s[:a] + "\n\n" + "\n".join(design) + "\n" + s[b:]
    with open(path, "w") as f:
        f.write(s)
    print(len(props), "properties,", len(checks), "checks")


if __name__ == "__main__":
    main()
