"""A client of the language server: one process per session, everything written, everything read, frames parsed."""
import json
import math
import os
import re
import signal
import subprocess
import threading
import time

import build as B
from core import SAN_ENV, Crash, Violation, crash_site

SPACE = " \t\n\v\f\r"
TYPES = ["fanuc_lathe_system_a", "fanuc_lathe_system_b", "fanuc_lathe_system_c", "fanuc_mill",
         "fanuc_millturn_system_a", "fanuc_millturn_system_b", "generic_lathe", "generic_mill", "haas_lathe",
         "haas_mill", "makino_mill"]


def frame(body, eol=b"\r\n", before=(), after=()):
    if not isinstance(body, bytes):
        body = json.dumps(body).encode()
    head = [h.encode("latin-1") for h in before] + [b"Content-Length: %d" % len(body)]
    head += [h.encode("latin-1") for h in after]
    return eol.join(head) + eol + eol + body


def request(i, method, params=None):
    m = {"jsonrpc": "2.0", "id": i, "method": method}
    if params is not None:
        m["params"] = params
    return m


def note(method, params=None):
    m = {"jsonrpc": "2.0", "method": method}
    if params is not None:
        m["params"] = params
    return m


def did_open(uri, text):
    return note("textDocument/didOpen", {"textDocument": {"uri": uri, "languageId": "ncproj", "version": 1,
                                                          "text": text}})


def did_change(uri, text, version=2):
    return note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                           "contentChanges": [{"text": text}]})


def did_changes(uri, texts, version=2):
    """One notification with several whole texts: the last one is the text."""
    return note("textDocument/didChange", {"textDocument": {"uri": uri, "version": version},
                                           "contentChanges": [{"text": t} for t in texts]})


def did_close(uri):
    return note("textDocument/didClose", {"textDocument": {"uri": uri}})


def hover(i, uri, line, ch):
    return request(i, "textDocument/hover", {"textDocument": {"uri": uri},
                                             "position": {"line": line, "character": ch}})


def lens(i, uri):
    return request(i, "textDocument/codeLens", {"textDocument": {"uri": uri}})


HEAD = re.compile(rb"Content-Length: (\d+)\r\n\r\n")


def frames(out):
    """The frames of the output; anything that is not a frame is a violation."""
    res, pos = [], 0
    while pos < len(out):
        m = HEAD.match(out, pos)
        if not m:
            raise Violation("output is not framed at byte %d: %r" % (pos, out[pos:pos + 80]), sig="framing")
        n = int(m.group(1))
        body = out[m.end():m.end() + n]
        if len(body) != n:
            raise Violation("last frame announces %d bytes and has %d" % (n, len(body)), sig="short frame")
        res.append(body)
        pos = m.end() + n
    return res


def launch(ctx, args, cpu):
    env = dict(os.environ)
    env.update(SAN_ENV)
    errp = os.path.join(ctx.scratch, "server.err")

    def limits():
        import resource
        resource.setrlimit(resource.RLIMIT_CPU, (cpu, cpu + 2))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))

    with open(errp, "wb") as err:
        p = subprocess.Popen([os.path.join(B.REPO, "nclangsrv")] + list(args), executable=ctx.bins["server"],
                             stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=err, env=env, cwd=ctx.scratch,
                             preexec_fn=limits, bufsize=0)
    return p, errp


def died(p, rc, errp):
    with open(errp, "rb") as f:
        err = f.read()[-20000:].decode(errors="replace")
    if rc in (-signal.SIGXCPU, -signal.SIGKILL):
        raise Crash("server does not end after its input did", err)
    kind, site = crash_site(err)
    raise Crash("server died (%s) %s at %s" % (rc, kind, site), err)


def run(ctx, data, args=(), chunks=None, timeout=120, cpu=20):
    """Feeds the bytes, closes the input, returns the frames' bodies (bytes).  The server must end by itself."""
    p, errp = launch(ctx, args, cpu)

    def feed():
        try:
            if chunks is None:
                p.stdin.write(data)
            else:
                pos = 0
                for n in chunks:
                    p.stdin.write(data[pos:pos + n])
                    pos += n
                    if pos >= len(data):
                        break
                    if n % 5 == 0:
                        time.sleep(0.0005)
                if pos < len(data):
                    p.stdin.write(data[pos:])
        except (BrokenPipeError, ConnectionResetError):
            pass
        try:
            p.stdin.close()
        except OSError:
            pass

    t = threading.Thread(target=feed, daemon=True)
    t.start()
    timer = threading.Timer(timeout, p.kill)
    timer.start()
    try:
        out = p.stdout.read()
        rc = p.wait()
    finally:
        timer.cancel()
        t.join()
        p.stdout.close()
    if rc != 0:
        died(p, rc, errp)
    return frames(out)


class Live:
    """A server that is talked to message by message."""

    def __init__(self, ctx, args=(), cpu=20):
        self.p, self.errp = launch(ctx, args, cpu)
        self.timer = threading.Timer(120, self.p.kill)
        self.timer.start()
        self.buf = b""

    def ask(self, msg):
        """Sends a message that is answered, returns the answer."""
        try:
            self.p.stdin.write(frame(msg))
            while True:
                m = HEAD.match(self.buf)
                if m and len(self.buf) >= m.end() + int(m.group(1)):
                    body = self.buf[m.end():m.end() + int(m.group(1))]
                    self.buf = self.buf[m.end() + int(m.group(1)):]
                    return json.loads(body.decode("utf-8", errors="replace"))
                d = os.read(self.p.stdout.fileno(), 1 << 16)
                if not d:
                    raise BrokenPipeError
                self.buf += d
        except (BrokenPipeError, ConnectionResetError):
            died(self.p, self.p.wait(), self.errp)

    def close(self):
        self.timer.cancel()
        self.p.stdin.close()
        try:
            self.p.wait(30)
        except subprocess.TimeoutExpired:
            self.p.kill()
            self.p.wait()
        self.p.stdout.close()


def talk(ctx, msgs, args=(), **kw):
    """Sends messages in order, returns the answers as JSON values."""
    res = []
    for b in run(ctx, b"".join(frame(m) for m in msgs), args, **kw):
        try:
            res.append(json.loads(b.decode("utf-8")))
        except ValueError:
            raise Violation("answer is no JSON: %r" % b[:200], sig="no json")
    return res


# --- reference of a document and its diagnostics ----------------------------------------------------------------------

def doc_lines(text):
    """[(line number from 1, bytes as latin-1)] of the lines that are not blank."""
    raw = text.encode("utf-8").decode("latin-1")
    out = []
    for i, ln in enumerate(raw.split("\n")):
        ln = ln.rstrip(SPACE)
        if ln:
            out.append((i + 1, ln))
    return out


def diagnostic(line, msg, data):
    """(line from 0, character from 0, text) of the library's message for a failing line."""
    if msg == "":
        return line - 1, 0, ("'%s'" % data).strip(SPACE)
    m = re.match(r"1:(?:(\d+):)?", msg)
    if m:
        return line - 1, max(int(m.group(1) or 0) - 1, 0), msg[m.end():].strip(SPACE)
    return line - 1, 0, msg.strip(SPACE)


def published(msg):
    """(uri, [(line, character, text)]) of a publishDiagnostics notification."""
    if msg.get("method") != "textDocument/publishDiagnostics" or "id" in msg:
        raise Violation("expected diagnostics, got %s" % json.dumps(msg)[:300], sig="no diagnostics")
    out = []
    for d in msg["params"]["diagnostics"]:
        s, e = d["range"]["start"], d["range"]["end"]
        if d["severity"] != 1 or s != e:
            raise Violation("diagnostic %s" % json.dumps(d)[:300], sig="diagnostic form")
        out.append((s["line"], s["character"], d["message"]))
    return msg["params"]["uri"], out


# --- settings file ----------------------------------------------------------------------------------------------------

MACHINE_TYPES = ["mill", "lathe", "millturn"]


def settings_file(n, driver, machine="mill_3axis", machine_type="mill"):
    """The settings (see fan.NC_MILL) as the JSON document the configuration tool writes."""
    d = n["def"]
    num = repr
    return {
        "version": "1.0", "driver": driver, "machine_tool": machine, "machine_tool_id": "some machine",
        "machine_tool_type": machine_type,
        "machine_points_data": {"tool_exchange_point": n["tool"], "machine_base_point": n["base"]},
        "kinematics": {
            "cartesian_system_axis": {a: {"range_min": v[0], "range_max": v[1]} for a, v in n["axes"].items()},
            "max_working_feed": n["mwf"], "max_fast_feed": n["mff"], "maximum_spindle_speed": n["mss"],
            "numer_of_items_in_the_warehouse": n["items"], "tool_exchange_time": n["tet"],
            "pallet_exchange_time": n["pet"], "tool_measurement_time": n["tmt"],
            "diameter_programming_2x": n["dia"], "auto_measure_after_tool_selection": n["ameas"],
            "pallet_exchange_code": n["pec"][0], "pallet_exchange_code_value": n["pec"][1],
            "tool_measurement_code": n["tmc"][0], "tool_measurement_code_value": n["tmc"][1]},
        "cnc_default_values": {
            "default_motion": ["rapid_traverse", "linear_interpolation"][d["motion"]],
            "default_work_plane": {17: "XY", 18: "XZ", 19: "YZ"}[d["plane"]],
            "default_driver_units": ["millimeter", "inch"][d["units"]],
            "default_programming": {90: "absolute", 91: "incremental"}[d["prog"]],
            "default_feed_mode": {94: "feed_per_minute", 95: "feed_per_revolution"}[d["feed"]],
            "rapid_traverse_cancel_cycle": d["c0"], "linear_interpolation_cancel_cycle": d["c1"],
            "circular_interpolation_cw_cancel_cycle": d["c2"], "circular_interpolation_ccw_cancel_cycle": d["c3"],
            "cycle_cancel_starts_rapid_traverse": d["c80rapid"], "operator_turns_on_rotation": d["oprot"],
            "default_rotation": d["rot"], "default_rotation_direction": {3: "right", 4: "left"}[d["rotdir"]],
            "tool_number_executes_exchange": d["texch"], "auto_rapid_traverse_after_tool_exchange": d["autorapid"],
            "drill_cycle_z_value": ["absolute", "incremental"][d["depth"]],
            "drill_cycle_return_value": {98: "beginning", 99: "point_r"}[d["ret"]]},
        "zero_point": {"X": n["zp"][0], "Y": n["zp"][1], "Z": n["zp"][2]},
    }


MACHINES = ["mill_3axis", "mill_4axis", "mill_4axis_horizontal", "mill_4axis_horizontal_pinola",
            "mill_4axis_head_gantry", "mill_5axis_head_head_gantry", "mill_5axis_head_table_gantry",
            "mill_5axis_table_table", "mill_5axis_table_tilt", "mill_5axis_head_table",
            "mill_5axis_horizontal_table_table", "mill_5axis_horizontal_table_table_pinola", "lathe_zx", "lathe_zxc",
            "lathe_zxcy", "lathe_zxcy_steady", "mill-turn_XYZBC", "mill-turn_XYZBC_steady", "mill-turn_XYZBC_C2",
            "mill-turn_XYZBC_C2_steady", "mill-turn_XYZBC_C2_Lower_Left_Turret",
            "mill-turn_XYZBC_C2_Lower_Right_Turret", "mill-turn_XYZBC_C2_Lower_LeftRight_Turret"]


def defaults():
    """The machine the server works with when it is given no settings file."""
    import fan
    return fan.nc(pec=["", ""], tmc=["", ""],
                  def_={"c0": False, "c1": False, "c2": False, "c3": False, "c80rapid": False})


def library(ctx, text, driver="fanuc_mill", n=None, want=("pr", "mac")):
    """[(line from 1, bytes, result of the library)] of the document's lines in order."""
    import fan
    lines = doc_lines(text)
    rs = fan.run(ctx, [["parse", i, ln] for i, ln in lines], g=driver, set_=[True] * 5, nc_=n or defaults(),
                 want=list(want), pt=TYPES.index(driver), allow_exc=True)
    for (i, ln), r in zip(lines, rs):
        if "exc" in r:
            raise Violation("exception escaped the parser on %r: %s" % (ln, r["exc"]), sig="exc " + r["exc"])
    return [(i, ln, r) for (i, ln), r in zip(lines, rs)]


def expected_diagnostics(lib):
    out = []
    for i, ln, r in lib:
        if not r["ok"]:
            a, b, m = diagnostic(i, r["msg"], ln)
            out.append((a, b, m.encode("latin-1").decode("utf-8", errors="replace")))
    return out


TOL = 0.01


def clock(sec):
    x = abs(sec) * 1000.0
    ms = math.floor(x)
    ms += 1 if x - ms >= 0.5 else 0
    sign = "-" if sec < 0 and ms else ""
    h, m, s, ms = ms // 3600000, ms // 60000 % 60, ms // 1000 % 60, ms % 1000
    if h:
        return "%s%d:%02d:%02d.%03d" % (sign, h, m, s, ms)
    return "%s%d:%02d.%03d" % (sign, m, s, ms)


def expected_lenses(lib):
    """[(line from 0, title)]: one for each line after which the total time is another one."""
    out, before = [], 0.0
    wp = wt = fp = ft = 0.0
    for i, _, r in lib:
        (ptot, pwork, pfast, ptool, pid), (ttot, twork, tfast) = r["pr"][:5], r["tr"][:3]
        if ttot == before:
            continue
        before = ttot
        wp, wt, fp, ft = wp + pwork, wt + twork, fp + pfast, ft + tfast
        t = ""
        if ptot >= TOL:
            t += " | Total path = %.2f" % ptot
        if ttot >= TOL:
            t += " | Total time = " + clock(ttot)
        if ptool >= TOL and ptot - ptool >= TOL:
            t += " | T%s total path = %.2f" % (pid, ptool)
        if pfast >= TOL:
            t += " | Total rapid path = %.2f" % fp
        if tfast >= TOL:
            t += " | Total rapid time = " + clock(ft)
        if pwork >= TOL:
            t += " | Total cut path = %.2f" % wp
        if twork >= TOL:
            t += " | Total cut time = " + clock(wt)
        out.append((i - 1, t))
    return out


def finite(lib):
    return all(math.isfinite(v) and abs(v) < 1e11 for _, _, r in lib for v in r["pr"][:4] + r["tr"][:4])


def lenses(msg):
    """[(line, title)] of an answer to a codeLens request, None when it has none."""
    res = msg.get("result", 0)
    if res is None:
        return None
    out = []
    for e in res:
        s, t = e["range"]["start"], e["range"]["end"]
        if s != t or s["character"] != 0:
            raise Violation("lens at %s" % e["range"], sig="lens range")
        out.append((s["line"], e["command"]["title"]))
    return out
