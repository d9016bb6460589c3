"""Settings file of the machine: every field is read into the place it names."""
import json
import os

from hypothesis import strategies as st

import gen
import lsp
from checks.p03 import line as any_line
from checks.p07 import line as path_line
from core import Check, Discard, Sub, Violation

URI = "file:///p.nc"


def write(ctx, obj, name="m.ncsetting"):
    p = os.path.join(ctx.scratch, name)
    with open(p, "w") as f:
        f.write(obj if isinstance(obj, str) else json.dumps(obj))
    return p


def machine(c):
    n = c["nc"]
    f = lsp.settings_file(n, c["driver"], lsp.MACHINES[n["mt"]], lsp.MACHINE_TYPES[n["mtt"]])
    return n, f


def check_settings(ctx, c):
    n, f = machine(c)
    text = "\n".join(c["lines"])
    lib = lsp.library(ctx, text, c["driver"], n)
    if not lsp.finite(lib):
        raise Discard
    want, lens = lsp.expected_diagnostics(lib), lsp.expected_lenses(lib)
    p = write(ctx, f)
    got = lsp.talk(ctx, [lsp.did_open(URI, text), lsp.lens(1, URI)], ["--ncsetting-path", p, "--calculate-path",
                                                                     "true"])
    uri, ds = lsp.published(got[0])
    if ds != want:
        bad = [x for x in ds if x not in want][:2], [x for x in want if x not in ds][:2]
        raise Violation("driver %s, settings %s, document %r: diagnostics %s not expected, %s missing" % (
            c["driver"], json.dumps(n), text, *bad), sig="diagnostics")
    res = lsp.lenses(got[1])
    if res != (lens or None):
        bad = [x for x in res or [] if x not in lens][:2], [x for x in lens if x not in (res or [])][:2]
        raise Violation("driver %s, settings %s, document %r: lenses %s not expected, %s missing" % (
            c["driver"], json.dumps(n), text, *bad), sig="lenses")
    base = lsp.library(ctx, text)
    if lsp.expected_diagnostics(base) != want:
        ctx.label("other diagnostics than by default")
    if lsp.finite(base) and lsp.expected_lenses(base) != lens:
        ctx.label("other lenses than by default")
        return True
    return lsp.expected_diagnostics(base) != want


def leaves(v, at=()):
    if isinstance(v, dict) and v:
        out = []
        for k in sorted(v):
            out += leaves(v[k], at + (k,))
        return out
    return [at]


OPEN = ("machine_points_data", "cartesian_system_axis")


def check_broken(ctx, c):
    """A file that cannot be used is reported on every change and works as soon as it has been corrected."""
    n, f = machine(c)
    text = "\n".join(c["lines"])
    bad = json.loads(json.dumps(f))
    if c["how"] == "cut":
        s = json.dumps(f)
        bad = s[:int(c["at"] * (len(s) - 1))]
    elif c["how"] == "none":
        bad = None
    else:
        ps = [p for p in leaves(bad) if p[0] not in ("version", "machine_tool_id") and p[0] != OPEN[0] and
              OPEN[1] not in p and (c["how"] == "del" or not p[-1].endswith(("_code", "_code_value")))]
        p = ps[c["pick"] % len(ps)]
        v = bad
        for k in p[:-1]:
            v = v[k]
        if c["how"] == "del":
            del v[p[-1]]
        else:
            v[p[-1]] = "nonsense"
    path = os.path.join(ctx.scratch, "b.ncsetting")
    if os.path.exists(path):
        os.unlink(path)
    if bad is not None:
        write(ctx, bad, "b.ncsetting")
    got = lsp.talk(ctx, [lsp.did_open(URI, text), lsp.did_change(URI, text), lsp.lens(1, URI)],
                   ["--ncsetting-path", path, "--calculate-path", "true"])
    for g in got[:2]:
        _, ds = lsp.published(g)
        if len(ds) != 1 or "ncsetting" not in ds[0][2] or ds[0][:2] != (0, 0):
            raise Violation("settings %s (%s): diagnostics %s" % (c["how"], str(bad)[:200], ds), sig="unreported")
    if got[2]["result"] is not None:
        raise Violation("lenses without settings: %s" % got[2]["result"], sig="lenses without settings")
    good = write(ctx, f)
    args = ["--calculate-path", "true"]
    asks = [lsp.lens(1, URI), lsp.request(2, "textDocument/completion", {"textDocument": {"uri": URI}}),
            lsp.hover(3, URI, 0, 0), lsp.request(4, "completionItem/resolve", {"label": "G96"}),
            lsp.request(5, "completionItem/resolve", {"label": "M13"})]
    want = lsp.talk(ctx, [lsp.did_open(URI, text)] + asks, ["--ncsetting-path", good] + args)
    want[2]["result"].sort(key=lambda i: i["label"])
    s = lsp.Live(ctx, ["--ncsetting-path", path] + args)
    try:
        s.ask(lsp.did_open(URI, text))
        for m in asks[c["pick"] % 5:]:
            s.ask(m)
        write(ctx, f, "b.ncsetting")
        again = [s.ask(lsp.did_change(URI, text))] + [s.ask(m) for m in asks]
    finally:
        s.close()
    again[2]["result"].sort(key=lambda i: i["label"])
    for k in (again, want):
        for i in k[2]["result"]:
            del i["data"]
    if again != want:
        raise Violation("settings (%s) corrected while the server runs: %s, expected %s" % (
            c["how"], *[str(v)[:300] for a in zip(again, want) if a[0] != a[1] for v in a][:2]), sig="corrected")
    return True


def check_order(ctx, c):
    """The order of the fields and fields the server does not know do not matter."""
    n, f = machine(c)
    text = "\n".join(c["lines"])
    outs = []
    for k in range(2):
        p = write(ctx, f if k == 0 else shuffle(f, c["order"]), "o%d.ncsetting" % k)
        outs.append(lsp.talk(ctx, [lsp.did_open(URI, text), lsp.lens(1, URI)], ["-n", p, "--calculate-path", "1"]))
    if outs[0] != outs[1]:
        raise Violation("settings in another order: %s instead of %s" % (outs[1], outs[0]), sig="order")
    return outs[0][1]["result"] is not None


def shuffle(v, order):
    if not isinstance(v, dict):
        return v
    ks = sorted(v, key=lambda k: (order[sum(map(ord, k)) % len(order)], k))
    out = {"unknown%d" % len(ks): {"a": [1, 2]}} if "X" not in v and "range_min" not in v else {}
    for k in ks:
        out[k] = shuffle(v[k], order)
    return out


def usable(n):
    n = dict(n)
    n["def"] = dict(n["def"], rotdir={5: 3}.get(n["def"]["rotdir"], n["def"]["rotdir"]))
    return n


KNOW = ["M60", "G37", "M50", "T1", "T31", "T30 M6", "M6", "T2 M6", "S20001", "S501", "G1 X1 F20001", "X501", "Z-1", "Y1001",
        "G1 X5", "X5 Y5", "G28 X0", "G0 X0", "A5", "B5", "C5 G0", "U5", "G1 X10 F100 S100 M3", "F0.2", "G80", "G0", "G81 Z-5 R2 X5",
        "X10", "G2 X5 R10", "G18", "G54", "G53 X0", "G99 G81 X5 Z-3 R2 F50 S100 M3", "M60 P1", "O60", "G20", "G95 F0.1"]
line = st.one_of(any_line, path_line, path_line, st.sampled_from(KNOW), st.sampled_from(KNOW))
# what cancels a cycle: the depth of the cycle is needed again afterwards
CYCLE = st.builds(lambda m, a: ["S100 M3 F100", "G90 G81 X0 Y0 Z-5 R2", m, "G81 X40 Y0", a], st.sampled_from(
    ["G0 X5", "G1 X5", "G2 X10 R5", "G3 X10 R5", "G80"]), st.sampled_from(["X50", "G0", "G80"]))
case = {"nc": gen.nc_mix.map(usable), "driver": st.sampled_from(lsp.TYPES + ["fanuc_mill"] * 4),
        "lines": st.builds(lambda a, b, d: a + b + d, st.sampled_from([[], ["S100 M3 F100"], ["T1 M6 S100 M3 F100"]]),
                           st.lists(line, min_size=1, max_size=12), st.one_of(st.just([]), CYCLE))}
broken = st.fixed_dictionaries(dict(case, how=st.sampled_from(["del", "del", "bad", "bad", "cut", "none"]),
                                    at=st.floats(0, 1), pick=st.integers(0, 60)))
order = st.fixed_dictionaries(dict(case, order=st.permutations(list(range(11)))))


META = dict(
    title="Each field of the machine's settings file takes effect as named, or is reported",
    statement="A settings file gives the control, machine, travels, feeds, times, codes, default modes, zero point and "
              "points of a machine; the server's diagnostics, paths and times for any program are those of the "
              "library given the same values, whatever the order of fields and with unknown fields present. A file "
              "that is missing, truncated, lacks a field or has a nonsensical value is reported as a diagnostic of "
              "each document, and once corrected is used from the next change on as if it had been right from the "
              "start.",
    over=["configurations", "inputs", "histories"],
    over_text="every machine description crossed with every program",
    why="The tests never read a settings file; exchanged or ignored fields only show in combination with a program "
        "that depends on them.",
    files=["nclangsrv/NCSettingsReader.cpp", "nclangsrv/NCParser.cpp", "conf/nc_settings.json"],
    mechanism=[("reading", "NCSettingsReader::read"), ("use", "NCParser constructor, NCParser::parse")],
    observe="diagnostics and lenses of the server",
    technique="differential testing over generated machine descriptions and programs (server given the file against "
              "the library given the values)",
    design="a machine is generated, written as the file the configuration tool writes, and given directly to the "
           "library; programs built to depend on its fields must give the same results.",
    note="The \"heidenhain\" control is not accepted by the server in a settings file. Changing the control in the file "
         "of a running server needs a restart (the extension restarts it). The points of the machine may be absent.")


class P32(Check):
    id = "P32"
    targets = ("server", "driver")
    rule = ("settings: any machine (travels, feeds, times, codes, defaults, zero point, points) written as a settings "
            "file for one of the eleven controls and a program; diagnostics and lenses of the server against the "
            "library given the same values directly; non-trivial when they differ from those without settings. broken: "
            "a file with a field missing or nonsensical, a truncated or missing file. order: another order of fields, "
            "unknown fields")

    def subs(self):
        return [Sub("settings", st.fixed_dictionaries(case), check_settings, 900),
                Sub("broken", broken, check_broken, 150), Sub("order", order, check_order, 100)]


CHECK = P32()
