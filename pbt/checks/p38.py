"""The VS Code extension: how it starts the server, what it asks, what it changes, over sequences of events."""
import json
import os
import posixpath
import shlex
import subprocess

from hypothesis import strategies as st

import build as B
from core import Check, Sub, Violation

TYPESCRIPT = "/opt/veriftools/node/node_modules/typescript"
KEYS = ["ncsetting.file.path", "debug.log.path", "calculate.pathtime.enable", "macro.descriptions.path"]
RELOAD = "workbench.action.reloadWindow"


class Host:
    def __init__(self, ctx):
        src = os.path.join(B.REPO, "vscode-client/src/extension.ts")
        self.err = open(os.path.join(ctx.scratch, "node.err"), "w+")
        self.p = subprocess.Popen(["node", os.path.join(B.HERE, "js/host.js"), src, TYPESCRIPT], stdin=subprocess.PIPE,
                                  stdout=subprocess.PIPE, stderr=self.err, text=True)
        ctx.closers.append(self.p.kill)

    def play(self, c):
        self.p.stdin.write(json.dumps(c) + "\n")
        self.p.stdin.flush()
        ln = self.p.stdout.readline()
        if not ln:
            self.err.seek(0)
            raise RuntimeError("node ended: " + self.err.read()[-2000:])
        r = json.loads(ln)
        if "broken" in r:
            raise RuntimeError("extension.ts does not compile: %s" % r["broken"])
        return r


def host(ctx):
    if "host" not in ctx.state:
        ctx.state["host"] = Host(ctx)
    return ctx.state["host"]


def stem(p):
    return posixpath.splitext(posixpath.basename(posixpath.normpath(p)))[0]


def status_of(files, p):
    """The machine named in the settings file, otherwise the name of the file."""
    try:
        o = json.loads(files[p])
        i = o.get("machine_tool_id") if isinstance(o, dict) else None
        if isinstance(i, str) and i.strip():
            return i.strip()
    except (KeyError, ValueError):
        pass
    return stem(p)


class Model:
    def __init__(self, c):
        self.c = c
        self.cfg = {"global": dict(c["global"]), "workspace": dict(c["workspace"])}
        self.files = dict(c["files"])
        self.running = False
        sep = "\\" if c["platform"] == "win32" else "/"
        self.cwd = c["ext"] + sep + "vscode-client" + sep + "out" + sep
        exe = ".exe" if c["platform"] == "win32" else ""
        self.server = self.cwd + "nclangsrv" + exe
        self.tool = self.cwd + "cmtconfig" + exe
        self.settings = self.get("ncsetting.file.path")
        self.status = status_of(self.files, self.settings) if self.settings else "default"

    def get(self, k):
        default = True if k == "calculate.pathtime.enable" else ""
        return self.cfg["workspace"].get(k, self.cfg["global"].get(k, default))


def of(step, kind):
    return [v for k, v in step["seen"] if k == kind]


def options(args):
    """Options of the server by name."""
    names = {"-n": "--ncsetting-path", "-m": "--macro-desc-path", "-l": "--log-path"}
    out, i = {}, 0
    while i < len(args):
        a = args[i]
        if a.startswith("--") and "=" in a:
            a, v = a.split("=", 1)
            i += 1
        else:
            v = args[i + 1] if i + 1 < len(args) else None
            i += 2
        a = names.get(a, a)
        if a in out:
            raise Violation("option %s is given twice: %s" % (a, args), sig="twice")
        out[a] = v
    return out


class Expect:
    """What a step has to show."""

    def __init__(self, step, here):
        self.step, self.here = step, here

    def equal(self, what, got, want):
        if got != want:
            raise Violation("%s: %s is %r instead of %r" % (self.here, what, got, want), sig=what)

    def reload(self, count, answers, about=None):
        """Exactly that many questions for a reload of the window; the reload when it is wanted."""
        asked = [w for w in of(self.step, "warn") if any("reload" in i.lower() for i in w[1])]
        self.equal("questions to reload", len(asked), count)
        if about and asked and about not in asked[0][0]:
            raise Violation("%s: the question %r does not name %s" % (self.here, asked[0][0], about), sig="names")
        wanted = sum(1 for w in asked if w[2])
        self.equal("reloads", of(self.step, "execute").count(RELOAD), wanted)


def check_start(m, step, here):
    c, e = m.c, Expect(step, here)
    clients = of(step, "client")
    e.equal("language clients", len(clients), 1)
    e.equal("starts", len(of(step, "start")), 1)
    so = clients[0]["server"]
    e.equal("server", so["command"], m.server)
    e.equal("working directory", so["options"]["cwd"], m.cwd)
    sel = clients[0]["client"]["documentSelector"]
    e.equal("documents", [d if isinstance(d, str) else d.get("language") for d in sel], ["ncproj"])
    want = {}
    for k, o in (("ncsetting.file.path", "--ncsetting-path"), ("debug.log.path", "--log-path"),
                 ("macro.descriptions.path", "--macro-desc-path")):
        if m.get(k):
            want[o] = m.get(k)
    got = options(so.get("args") or [])
    # off is also the server's default
    calc = got.pop("--calculate-path", "false") in ("true", "1", "yes", "on")
    e.equal("path and time", calc, bool(m.get("calculate.pathtime.enable")))
    e.equal("options", got, want)
    asked = [w for w in of(step, "warn") if any("Create" in i for i in w[1])]
    e.equal("questions for a configuration", len(asked), 0 if m.settings else 1)
    e.equal("commands", [k for k in ("ncsettingCreate", "ncsettingSelect", "togglePathTimeCalculation",
                                     "macroDescriptionsSelect", "macroDescriptionsPlaceholder")
                         if "ncproj." + k not in step["commands"]], [])
    out = of(step, "output")
    e.equal("start failure told", any("Language Server" in s for s in out), bool(c["startFails"]))
    if c["startFails"]:
        e.equal("channel shown", bool(of(step, "channel")), True)
        if not any("nclangsrv" in s for s in out):
            raise Violation("%s: the file to execute is not named in %s" % (here, out), sig="names")
    if asked and asked[0][2]:
        if "Select" in asked[0][2]:
            check_select(m, "ncsetting.file.path", step, here, c["answers"][1:], c["dialog"])
        elif "Create" in asked[0][2]:
            check_create(m, step, here)


def check_select(m, key, step, here, answers, dialog, fails=False):
    e = Expect(step, here)
    save = [w for w in of(step, "warn") if any("save in" in i for i in w[1])]
    e.equal("questions to save", len(save), 1)
    chosen = save[0][2]
    if chosen is None or "save in" not in chosen:
        e.equal("dialogs", len(of(step, "dialog")), 0)
        e.equal("updates", of(step, "update"), [])
        e.reload(0, answers)
        return
    e.equal("dialogs", len(of(step, "dialog")), 1)
    e.equal("many files", bool(of(step, "dialog")[0].get("canSelectMany")), False)
    if not dialog:
        e.equal("updates", of(step, "update"), [])
        e.reload(0, answers)
        return
    target = "global" if "user" in chosen else "workspace"
    e.equal("updates", of(step, "update"), [[key, dialog[0], target]])
    if fails:
        # whether a reload is offered then is left open; the next change has to be noticed
        return
    m.cfg[target][key] = dialog[0]
    e.reload(1, answers, dialog[0])


def check_create(m, step, here):
    e = Expect(step, here)
    runs = of(step, "exec")
    if m.c["platform"] != "win32":
        e.equal("runs", runs, [])
        e.equal("informations", len(of(step, "info")), 1)
        return
    if m.running:
        e.equal("runs", runs, [])
        e.equal("informations", len(of(step, "info")), 1)
        return
    e.equal("runs", len(runs), 1)
    e.equal("directory of the run", runs[0]["options"]["cwd"], m.cwd)
    cmd = runs[0]["cmd"]
    if runs[0]["args"] is None:
        # a line for the command interpreter: blanks end the name of the program unless it is quoted
        try:
            words = shlex.split(cmd.replace("\\", "\\\\")) if '"' not in cmd else [cmd.strip('"')]
        except ValueError:
            words = [cmd]
    else:
        words = [cmd] + runs[0]["args"]
    e.equal("program run", words, [m.tool])
    m.running = True


def check(ctx, c):
    r = host(ctx).play(c)
    if "failed" in r:
        raise Violation("extension fails on %s: %s" % (json.dumps(c), r["failed"][:600]), sig="failed")
    m = Model(c)
    steps = r["steps"]
    check_start(m, steps[0], "start with %s" % json.dumps(m.cfg))
    hit = 0
    for i, (ev, step) in enumerate(zip(c["events"], steps[1:])):
        here = "%s after %s, configured %s" % (json.dumps(ev), json.dumps(c["events"][:i]),
                                               json.dumps([c["global"], c["workspace"]]))
        e = Expect(step, here)
        if step["threw"] and ev["k"] != "deactivate":
            raise Violation("%s: %s" % (here, step["threw"]), sig="threw")
        k = ev["k"]
        restarts = 0
        if k == "set":
            old = json.dumps(m.cfg[ev["target"]].get(ev["key"]))
            if ev["value"] is None:
                m.cfg[ev["target"]].pop(ev["key"], None)
            else:
                m.cfg[ev["target"]][ev["key"]] = ev["value"]
            changed = old != json.dumps(m.cfg[ev["target"]].get(ev["key"]))
            e.reload(1 if changed else 0, ev["answers"], ev["key"])
            hit += changed
        elif k == "other":
            e.reload(0, ev["answers"])
        elif k == "command" and ev["name"].endswith("togglePathTimeCalculation"):
            v = not m.get("calculate.pathtime.enable")
            e.equal("updates", of(step, "update"), [["calculate.pathtime.enable", v, "global"]])
            if not ev["updateFails"]:
                m.cfg["global"]["calculate.pathtime.enable"] = v
                e.reload(1, ev["answers"])
            hit += 1
        elif k == "command" and ev["name"].endswith("Select"):
            key = "ncsetting.file.path" if "ncsetting" in ev["name"] else "macro.descriptions.path"
            check_select(m, key, step, here, ev["answers"], ev["dialog"], ev["updateFails"])
            hit += bool(ev["dialog"])
        elif k == "command" and ev["name"].endswith("ncsettingCreate"):
            check_create(m, step, here)
        elif k == "command":
            docs = of(step, "document")
            e.equal("documents opened", len(docs), 1)
            e.equal("documents shown", len(of(step, "show")), 1)
            d = json.loads(docs[0]["content"]).get("descriptions")
            if not d or not all(n.isdigit() and len(t) == 1 for n, t in d.items()):
                raise Violation("%s: the template %s describes no variables" % (here, docs[0]), sig="template")
        elif k == "exec":
            out = of(step, "output")
            if m.running:
                e.equal("failure told", any("configuration tool" in s for s in out), bool(ev["err"]))
                m.running = False
            else:
                e.equal("output", out, [])
        elif k == "file":
            if "content" in ev:
                m.files[ev["path"]] = ev["content"]
            mine = m.settings and posixpath.normpath(m.settings) == ev["path"] and ev["what"] == "change"
            restarts = 1 if mine else 0
            if mine:
                m.status = status_of(m.files, ev["path"])
                hit += 1
            e.equal("informations", len(of(step, "info")), 1 if mine else 0)
        elif k == "deactivate":
            e.equal("stops", len(of(step, "stop")), 1)
        e.equal("restarts", len(of(step, "restart")), restarts)
        e.equal("more clients", of(step, "client"), [])
        e.equal("configuration", step["cfg"], m.cfg)
        e.equal("status", step["status"], m.status)
        e.equal("status shown", step["shown"], True)
    if r["rejections"]:
        raise Violation("unhandled errors %s in %s" % (r["rejections"], json.dumps(c)), sig="unhandled")
    ctx.label("events", len(c["events"]))
    return hit > 1


PATHS = ["/w/m.ncsetting", "/w/other.ncsetting", "/w/./m.ncsetting", "/w/sub/../m.ncsetting", "/w/a.b.ncsetting",
         "/w/x.ncsetting.ncsetting", "/w/plain", "/w/my machine.ncsetting", "/v/m.ncsetting", "/w/a.json.json.bak", "/w/m.json",
         "/w/M.NCSETTING", "/w/.ncsetting"]
NORMAL = sorted({posixpath.normpath(p) for p in PATHS})
machine = st.one_of(st.none(), st.sampled_from(["DMU 50", "  x ", "", "   ", 5, None, ["a"]]).map(
    lambda v: json.dumps({"machine_tool_id": v, "version": "1.0"})),
    st.sampled_from(["", "{", "[]", "null", "{}", "\"text\"", "5", '{"machine_tool_id"'])) 
paths = st.one_of(st.sampled_from(PATHS), st.sampled_from(PATHS[:4]))
value = {"ncsetting.file.path": st.one_of(st.just(""), paths), "debug.log.path": st.sampled_from(["", "/tmp/l.log", "a b"]),
         "calculate.pathtime.enable": st.booleans(), "macro.descriptions.path": st.sampled_from(["", "/w/d.json", "/w/m m"])}
config = st.fixed_dictionaries({}, optional=value)
answers = st.lists(st.sampled_from([None, "Reload", "Yes (save in user", "Yes (save in work", "No", "Create", "Select"]),
                   max_size=3)
reply = st.one_of(answers, st.sampled_from([["Yes (save in user", "Reload"], ["Yes (save in work", None], ["Reload"],
                                            ["Select", "Yes (save in user", "Reload"]]))
dialog = st.one_of(st.none(), st.just([]), paths.map(lambda p: [posixpath.normpath(p)]),
                   paths.map(lambda p: [posixpath.normpath(p)]))


@st.composite
def event(draw):
    k = draw(st.sampled_from(["set", "set", "set", "other", "command", "command", "command", "command", "exec", "file",
                              "file", "file"]))
    if k == "set":
        key = draw(st.sampled_from(KEYS))
        return {"k": k, "key": key, "target": draw(st.sampled_from(["global", "workspace"])),
                "value": draw(st.one_of(st.none(), value[key], value[key])), "answers": draw(reply)}
    if k == "other":
        return {"k": k, "key": draw(st.sampled_from(["editor.fontSize", "ncproj.other", "ncproject.debug.log.path"])),
                "answers": draw(reply)}
    if k == "command":
        return {"k": k, "name": "ncproj." + draw(st.sampled_from(
            ["ncsettingCreate", "ncsettingSelect", "ncsettingSelect", "togglePathTimeCalculation",
             "macroDescriptionsSelect", "macroDescriptionsPlaceholder"])), "answers": draw(reply),
            "dialog": draw(dialog), "updateFails": draw(st.integers(0, 7)) == 0}
    if k == "exec":
        return {"k": k, "err": draw(st.booleans())}
    ev = {"k": k, "path": draw(st.one_of(st.sampled_from(NORMAL), st.just("/w/m.ncsetting"), st.none(), st.none(), st.none())),
          "what": draw(st.sampled_from(["change", "change", "change", "create", "delete"]))}
    t = draw(machine)
    if t is not None and ev["what"] != "delete":
        ev["content"] = t
    return ev


@st.composite
def life(draw):
    files = {}
    for p in draw(st.lists(st.sampled_from(PATHS), max_size=5, unique=True)):
        t = draw(machine)
        if t is not None:
            files[p] = files[posixpath.normpath(p)] = t
    evs = draw(st.lists(event(), max_size=8))
    if draw(st.integers(0, 3)) == 0:
        evs.append({"k": "deactivate"})
    glob, work = draw(config), draw(st.one_of(st.just({}), config))
    used = work.get("ncsetting.file.path", glob.get("ncsetting.file.path", ""))
    for e in evs:
        if e.get("path", "") is None:  # the settings file in use
            e["path"] = posixpath.normpath(used or "/w/m.ncsetting")
    return {"platform": draw(st.sampled_from(["linux", "win32", "win32", "darwin"])),
            "ext": draw(st.sampled_from(["/ext", "/home/me/.vscode/ext-1.0", "/Users/John Doe/ext"])),
            "global": glob, "workspace": work, "files": files,
            "startFails": draw(st.integers(0, 4)) == 0, "answers": draw(reply), "dialog": draw(dialog), "events": evs}


META = dict(
    title="The extension starts the server as configured and asks once for every change",
    statement="For every configuration (user and workspace), platform, settings file and sequence of the user's actions "
              "the VS Code extension starts one server with exactly the configured options, shows the configured "
              "machine in the status bar, changes exactly the setting that is asked for in the chosen place, asks once "
              "for a reload for every change of its settings and for no other change, restarts the server exactly when "
              "the settings file in use changes, runs the configuration tool at most once at a time and tells when "
              "something cannot be started.",
    over=["histories", "configurations"],
    over_text="lives of the extension of up to 9 events (changed settings, commands with every answer and dialog, "
              "changed files, ends of the configuration tool) on three platforms",
    why="The repository has no tests of the extension; which question appears when depends on the order of the events.",
    files=["vscode-client/src/extension.ts", "package.json"],
    mechanism=[("options of the server", "startLangServerNCProj"), ("own changes are not asked about twice",
                                                                    "ignoreNextConfigurationChange"),
               ("watching the settings file", "startListeningConfigurationChanges"), ("commands", "registerCmd...")],
    observe="calls of the extension into VS Code, the language client, child processes and files",
    technique="model-based: random lives of the extension in a stand-in for VS Code against a model",
    design="`life` transpiles the extension and runs it in Node with stand-ins for VS Code, the language client, files "
           "and processes that record the calls; the model predicts for each event the questions, changes, restarts, "
           "runs and the status.",
    note="The stand-in's events follow VS Code's documentation: a change event comes before the promise of an update is "
         "resolved and only when a value changes. Texts of messages are not compared beyond the names in them. The "
         "macro description setting is not declared in package.json (not changeable here), the stand-in allows it.")


class P38(Check):
    id = "P38"
    targets = ()
    rule = "at least two events change something"

    def subs(self):
        return [Sub("life", life(), check, 12000, 120000)]


CHECK = P38()
