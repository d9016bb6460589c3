"""Campaign engine: Hypothesis-driven search over JSON-serialisable cases, in parallel worker processes.

A check is a list of Sub objects (strategy -> case, fn(ctx, case) -> raises Violation or returns labels).  Every random
choice lives in Hypothesis strategies seeded from VERIF_SEED, so a run is a function of (tree, VERIF_SEED, tier).
"""
import collections
import hashlib
import json
import multiprocessing as mp
import os
import select
import signal
import subprocess
import sys
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, given, settings

import build as B

VERIF = B.VERIF
REPO = B.REPO
REPLAYS = os.path.join(VERIF, "replays")
SHRINK_WALL = 45.0

SAN_ENV = {
    "ASAN_OPTIONS": "detect_leaks=0:abort_on_error=1:handle_abort=0:allocator_may_return_null=0:"
                    "max_allocation_size_mb=4096:detect_stack_use_after_return=0:symbolize=1:"
                    "hard_rss_limit_mb=6000",
    "UBSAN_OPTIONS": "print_stacktrace=1:halt_on_error=1:abort_on_error=1",
    "ASAN_SYMBOLIZER_PATH": "/usr/bin/llvm-symbolizer-18",
}


class Violation(Exception):
    """The property is broken by this case.  sig identifies the failure for the known-findings file."""

    def __init__(self, msg, sig=None):
        super().__init__(msg)
        self.sig = sig or msg


class Crash(Exception):
    def __init__(self, what, stderr):
        super().__init__(what)
        self.what = what
        self.stderr = stderr


class HarnessError(Exception):
    pass


class _Stop(BaseException):
    pass


class Discard(Exception):
    """Case outside the property's domain (counted, never a pass or a failure)."""


def crash_site(stderr):
    """First frame of the report inside /repo: names the failure independently of addresses and line numbers."""
    kind = "crash"
    for ln in stderr.splitlines():
        if "runtime error:" in ln:
            kind = "ubsan: " + ln.split("runtime error:")[1].strip()
            break
        if "ERROR: AddressSanitizer" in ln:
            kind = ln.split("AddressSanitizer:")[1].split(" on ")[0].split("(")[0].strip()
            break
        if "terminate called" in ln or "what():" in ln:
            kind = ln.strip()
            break
    site = ""
    for ln in stderr.splitlines():
        ln = ln.strip()
        if ln.startswith("#") and ("/parser/" in ln or "/nclangsrv/" in ln):
            site = ln.split(" in ", 1)[-1]
            site = site.replace(REPO, "").split(" /")[0][:140] + " @ " + ln.rsplit(" ", 1)[-1].replace(REPO, "")
            break
    return kind, site


class Driver:
    """One harness process (see cpp/driver.cpp)."""

    def __init__(self, path, stderr_path):
        self.path = path
        self.stderr_path = stderr_path
        self.p = None
        self.known = {}
        self.sent = set()
        self.restarts = 0

    def _start(self):
        env = dict(os.environ)
        env.update(SAN_ENV)
        self.err = open(self.stderr_path, "wb")
        self.p = subprocess.Popen([self.path], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
                                  env=env, bufsize=0)
        self.buf = b""
        self.sent = set()
        self.restarts += 1

    def close(self):
        if self.p:
            try:
                self.p.kill()
                self.p.wait()
                self.p.stdin.close()
                self.p.stdout.close()
                self.err.close()
            except OSError:
                pass
            self.p = None

    def grammar(self, gid, g):
        self.known[gid] = json.dumps(dict(g, t="grammar", id=gid))

    def _raw(self, line):
        if self.p is None:
            self._start()
        data = line.encode() + b"\n"
        try:
            # large requests: write while reading is not needed, the driver answers only after the whole line
            self.p.stdin.write(data)
            out = self.buf
            while b"\n" not in out:
                r, _, _ = select.select([self.p.stdout], [], [], 600)
                if not r:
                    raise Crash("no answer within 600 s of wall time", "")
                d = os.read(self.p.stdout.fileno(), 1 << 20)
                if not d:
                    raise BrokenPipeError
                out += d
            ans, self.buf = out.split(b"\n", 1)
            return json.loads(ans)
        except (BrokenPipeError, ConnectionResetError):
            rc = self.p.wait()
            self.close()
            with open(self.stderr_path, "rb") as f:
                err = f.read()[-20000:].decode(errors="replace")
            if rc == 97:
                raise HarnessError("driver rejected the request: " + err[-500:])
            if rc == -signal.SIGPROF:
                raise Crash("hang: one case used more than its CPU limit", err)
            kind, site = crash_site(err)
            raise Crash("process died (%s) %s at %s" % (rc, kind, site), err)

    def request(self, rq):
        g = rq.get("g")
        if g is not None and (self.p is None or g not in self.sent):
            self._raw(self.known[g])
            self.sent.add(g)
        return self._raw(json.dumps(rq))


class Ctx:
    """Per-worker context handed to every Sub."""

    def __init__(self, bins, scratch, wid):
        self.bins = bins
        self.scratch = scratch
        self.wid = wid
        self.labels = collections.Counter()
        self.driver = Driver(bins["driver"], os.path.join(scratch, "driver.err")) if "driver" in bins else None
        self.closers = []
        self.state = {}
        import grammars
        if self.driver:
            for gid, g in grammars.ALL().items():
                self.driver.grammar(gid, g)

    def label(self, name, n=1):
        self.labels[name] += n

    def close(self):
        if self.driver:
            self.driver.close()
        for c in self.closers:
            try:
                c()
            except Exception:
                pass


class Sub:
    def __init__(self, name, strategy, fn, quick, thorough=None, nontrivial=None):
        self.name = name
        self.strategy = strategy
        self.fn = fn
        self.quick = quick
        self.thorough = thorough if thorough is not None else quick * 12


def _size(case):
    return len(json.dumps(case, sort_keys=True))


def _worker(check, subname, bins, seed, n, wid, stop, q, scratch, wall, known):
    try:
        os.makedirs(scratch, exist_ok=True)
        sub = [s for s in check.subs() if s.name == subname][0]
        ctx = Ctx(bins, scratch, wid)
        st = {"evals": 0, "discard": 0, "best": None, "first": None, "known": collections.Counter()}
        seen = set()
        samples = []
        t0 = time.time()

        def body(case):
            now = time.time()
            if stop.is_set() or now - t0 > wall:
                raise _Stop
            if st["first"] and now - st["first"] > SHRINK_WALL:
                raise _Stop
            if not st["first"]:
                st["evals"] += 1
            try:
                nt = run_one(sub, ctx, case)
            except Discard:
                st["discard"] += 1
                return
            except Violation as v:
                if v.sig in known:
                    st["known"][v.sig] += 1
                    return
                if st["first"] is None:
                    st["first"] = now
                if st["best"] is None or _size(case) <= _size(st["best"][0]):
                    st["best"] = (case, str(v), v.sig)
                raise
            if nt:
                h = hashlib.sha1(json.dumps(case, sort_keys=True).encode()).digest()[:10]
                if h not in seen:
                    seen.add(h)
                    if len(samples) < 4 and len(seen) % 7 == 1:
                        samples.append(case)

        test = given(sub.strategy)(body)
        test = settings(max_examples=n, database=None, deadline=None, report_multiple_bugs=False,
                        print_blob=False, suppress_health_check=list(HealthCheck),
                        phases=(Phase.generate, Phase.shrink))(test)
        test = hypothesis.seed(seed)(test)
        err = None
        try:
            test()
        except _Stop:
            pass
        except Violation:
            pass
        except HarnessError:
            raise
        except hypothesis.errors.Flaky as e:
            err = "flaky: " + str(e)[:500]
        if st["best"]:
            stop.set()
        ctx.close()
        q.put(("ok", sub.name, dict(evals=st["evals"], discard=st["discard"], best=st["best"], seen=list(seen),
                                    samples=samples, labels=dict(ctx.labels), known=dict(st["known"]), err=err)))
    except BaseException:
        q.put(("err", subname, traceback.format_exc()))


def run_one(sub, ctx, case):
    """Runs one case.  A crash of the code under test is a violation for every property (nothing was answered)."""
    try:
        return sub.fn(ctx, case)
    except Crash as c:
        raise Violation("code under test died: %s\n%s" % (c.what, c.stderr[-3000:]), sig=c.what)


class Check:
    id = None
    targets = ("driver",)
    rule = ""
    assumptions = ()
    level = "exploration"

    def subs(self):
        raise NotImplementedError

    def findings(self, ctx):
        """[(description, bool reproduces)] for the listed known findings."""
        return []


def load_known(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f).get("findings", []) if k["property"] == pid]


def replay(check, path):
    with open(path) as f:
        rec = json.load(f)
    bins = B.build(*check.targets)
    scratch = os.path.join("/tmp", "pbt-%s-%d-replay" % (check.id, os.getpid()))
    os.makedirs(scratch, exist_ok=True)
    ctx = Ctx(bins, scratch, 0)
    sub = [s for s in check.subs() if s.name == rec["sub"]][0]
    try:
        run_one(sub, ctx, rec["case"])
        print("replay: property %s holds on this case" % check.id)
        return 0
    except Violation as v:
        print("replay: %s" % v)
        print("VIOLATION property=%s replay=%s" % (check.id, path))
        return 1
    finally:
        ctx.close()
        _rmtree(scratch)


def _rmtree(path):
    assert path.startswith("/tmp/pbt-")
    for root, dirs, files in os.walk(path, topdown=False):
        for f in files:
            os.unlink(os.path.join(root, f))
        for d in dirs:
            p = os.path.join(root, d)
            if os.path.islink(p):
                os.unlink(p)
            else:
                os.rmdir(p)
    if os.path.isdir(path):
        os.rmdir(path)


def main(check, argv):
    t0 = time.time()
    if "--replay" in argv:
        return replay(check, argv[argv.index("--replay") + 1])
    tier = os.environ.get("VERIF_TIER") or "quick"
    if "--tier" in argv:
        tier = argv[argv.index("--tier") + 1]
    if tier not in ("quick", "thorough"):
        tier = "quick"
    seed = int(os.environ.get("VERIF_SEED") or "1")
    scale = float(os.environ.get("PBT_SCALE") or "1")
    only = os.environ.get("PBT_SUB")
    bins = B.build(*check.targets)
    tb = time.time()
    workers = int(os.environ.get("PBT_WORKERS") or "8")
    wall = 420.0 if tier == "quick" else 3 * 3600.0
    listed = load_known(check.id)
    known = {k["sig"] for k in listed}
    base = "/tmp/pbt-%s-%d" % (check.id, os.getpid())
    os.makedirs(base, exist_ok=True)
    agg = {}
    viol = []
    errors = []
    flaky = []
    try:
        subs = [s for s in check.subs() if not only or s.name in only.split(",")]
        stop = mp.Event()
        for si, sub in enumerate(subs):
            total = max(1, int((sub.quick if tier == "quick" else sub.thorough) * scale))
            nw = min(workers, max(1, total // 4))
            q = mp.Queue()
            procs = []
            for w in range(nw):
                wseed = int(hashlib.sha256(("%s/%s/%d/%d" % (check.id, sub.name, seed, w)).encode())
                            .hexdigest()[:12], 16)
                n = total // nw + (1 if w < total % nw else 0)
                p = mp.Process(target=_worker, args=(check, sub.name, bins, wseed, n, w, stop, q,
                                                     os.path.join(base, "%d-%d" % (si, w)), wall, known))
                p.start()
                procs.append(p)
            res = []
            for _ in procs:
                while True:
                    try:
                        res.append(q.get(timeout=5))
                        break
                    except Exception:
                        if all(not p.is_alive() for p in procs) and q.empty():
                            res.append(("err", sub.name, "worker died without a result"))
                            break
            for p in procs:
                p.join()
            a = {"evals": 0, "discard": 0, "seen": set(), "samples": [], "labels": collections.Counter(),
                 "known": collections.Counter()}
            for kind, _, r in res:
                if kind == "err":
                    errors.append(r)
                    continue
                a["evals"] += r["evals"]
                a["discard"] += r["discard"]
                a["seen"].update(r["seen"])
                a["samples"] += r["samples"]
                a["labels"].update(r["labels"])
                a["known"].update(r["known"])
                if r["best"]:
                    viol.append((sub, r["best"]))
                if r["err"]:
                    flaky.append(r["err"])
            agg[sub.name] = a
            if viol or errors:
                break
        confirmed = None
        if viol:
            viol.sort(key=lambda v: _size(v[1][0]))
            for sub, (case, msg, sig) in viol:
                ok = 0
                for k in range(3):
                    sc = os.path.join(base, "confirm%d" % k)
                    os.makedirs(sc, exist_ok=True)
                    ctx = Ctx(bins, sc, 0)
                    try:
                        run_one(sub, ctx, case)
                    except Violation as v:
                        ok += 1
                        msg = str(v)
                    except Discard:
                        pass
                    finally:
                        ctx.close()
                if ok == 3:
                    confirmed = (sub, case, msg, sig)
                    break
                flaky.append("not reproducible (%d/3): %s" % (ok, msg[:300]))
        # known findings still there?
        if listed:
            sc = os.path.join(base, "known")
            os.makedirs(sc, exist_ok=True)
            ctx = Ctx(bins, sc, 0)
            for k in listed:
                sub = [s for s in check.subs() if s.name == k["sub"]]
                if not sub:
                    continue
                try:
                    run_one(sub[0], ctx, k["case"])
                except Violation as v:
                    if v.sig == k["sig"]:
                        print("KNOWN-FINDING: property=%s %s" % (check.id, k["what"]))
                    else:
                        confirmed = confirmed or (sub[0], k["case"], str(v), v.sig)
                except Discard:
                    pass
            ctx.close()
        evals = sum(a["evals"] for a in agg.values())
        nontriv = sum(len(a["seen"]) for a in agg.values())
        samples = []
        for name, a in agg.items():
            for s in a["samples"][:2]:
                js = json.dumps(s)
                samples.append({"sub": name, "case": s if len(js) < 1500 else js[:1500] + "..."})
        ev = {
            "property": check.id, "tier": tier, "seed": seed, "level": check.level,
            "coverage": {
                "evaluations": evals,
                "distinct_nontrivial": nontriv,
                "rule": check.rule,
                "samples": samples[:12],
                "per_sub": {n: {"evaluations": a["evals"], "distinct_nontrivial": len(a["seen"]),
                                "discarded": a["discard"], "known_findings_hit": sum(a["known"].values()),
                                "classes": dict(sorted(a["labels"].items()))} for n, a in agg.items()},
            },
            "assumptions": list(check.assumptions),
            "wall_s": round(time.time() - t0, 2),
            "build_s": round(tb - t0, 2),
            "violations": 1 if confirmed else 0,
        }
        if flaky:
            ev["coverage"]["unreproducible"] = flaky[:5]
        os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
        with open(os.path.join(VERIF, "evidence", check.id + ".json"), "w") as f:
            json.dump(ev, f, indent=1, sort_keys=True)
        if confirmed:
            sub, case, msg, sig = confirmed
            os.makedirs(REPLAYS, exist_ok=True)
            rp = os.path.join(REPLAYS, "%s-%s.json" % (check.id, hashlib.sha1(
                json.dumps(case, sort_keys=True).encode()).hexdigest()[:10]))
            with open(rp, "w") as f:
                json.dump({"property": check.id, "sub": sub.name, "case": case, "message": msg, "sig": sig}, f,
                          indent=1)
            print("%s [%s]\n%s\ncase: %s" % (check.id, sub.name, msg[:3000], json.dumps(case)[:3000]))
            print("VIOLATION property=%s replay=%s" % (check.id, os.path.relpath(rp, VERIF)))
            return 1
        if errors:
            print("%d worker(s) failed:\n%s" % (len(errors), errors[0][-3000:]), file=sys.stderr)
            return 2
        print("%s %s seed=%d: held on %d cases (%d distinct non-trivial) in %.1f s (build %.1f s)%s"
              % (check.id, tier, seed, evals, nontriv, time.time() - t0, tb - t0,
                 (" unreproducible: %s" % flaky[:3]) if flaky else ""))
        for n, a in agg.items():
            print("  %-16s evals=%d nontrivial=%d discard=%d %s" % (n, a["evals"], len(a["seen"]), a["discard"],
                                                                     dict(sorted(a["labels"].items()))))
        return 0
    finally:
        _rmtree(base)
