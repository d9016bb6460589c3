"""Incremental build of the harness from /repo's current working tree.

Objects are cached in /verif/build under a hash of (flags, translation unit, every header it may include), so an
unchanged tree costs nothing and a changed .cpp costs one compile.  All *.cpp files of the two components are globbed:
a refactoring that adds or removes files still builds.
"""
import concurrent.futures
import fcntl
import glob
import hashlib
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get("PBT_REPO", "/repo")
BUILD = os.environ.get("PBT_BUILD") or os.path.join(VERIF, "build")

CXX = "clang++"
SAN = ["-fsanitize=address,undefined", "-fno-sanitize=vptr,function,pointer-overflow", "-fno-sanitize-recover=undefined"]
FLAGS = ["-std=c++20", "-O0", "-g1", "-DNDEBUG", "-w", "-mavx2", "-fPIC", "-fno-omit-frame-pointer"] + SAN


class BuildError(Exception):
    pass


def _read(p):
    with open(p, "rb") as f:
        return f.read()


def _headers_digest(dirs):
    h = hashlib.sha256()
    for d in dirs:
        for p in sorted(glob.glob(d + "/**/*.h", recursive=True) + glob.glob(d + "/**/*.hpp", recursive=True)):
            h.update(os.path.relpath(p, REPO).encode())
            h.update(_read(p))
    return h.digest()


def _compile(src, flags, hdr):
    h = hashlib.sha256()
    h.update(" ".join([CXX] + flags).encode())
    h.update(hdr)
    h.update(os.path.basename(src).encode())
    h.update(_read(src))
    obj = os.path.join(BUILD, "obj", h.hexdigest()[:32] + ".o")
    if not os.path.exists(obj):
        tmp = obj + ".%d.tmp" % os.getpid()
        r = subprocess.run([CXX] + flags + ["-c", src, "-o", tmp], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
        if r.returncode:
            raise BuildError("compile %s failed:\n%s" % (src, r.stdout.decode(errors="replace")[-4000:]))
        os.replace(tmp, obj)
    else:
        os.utime(obj)
    return obj


def _prune():
    objs = sorted(glob.glob(BUILD + "/obj/*.o"), key=os.path.getmtime)
    for p in objs[:-300]:
        os.unlink(p)


def _link(objs, out, libs):
    h = hashlib.sha256("\n".join([CXX] + FLAGS + objs + libs).encode()).hexdigest()
    stamp = out + ".stamp"
    if os.path.exists(out) and os.path.exists(stamp) and _read(stamp).decode() == h:
        return out
    r = subprocess.run([CXX] + SAN + objs + ["-o", out + ".tmp"] + libs, stdout=subprocess.PIPE,
                       stderr=subprocess.STDOUT)
    if r.returncode:
        raise BuildError("link failed:\n" + r.stdout.decode(errors="replace")[-4000:])
    os.replace(out + ".tmp", out)
    with open(stamp, "w") as f:
        f.write(h)
    return out


def build(*targets):
    """targets: 'driver', 'server'.  Returns {target: path}."""
    os.makedirs(BUILD + "/obj", exist_ok=True)
    with open(BUILD + "/lock", "w") as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        P, N = REPO + "/parser", REPO + "/nclangsrv"
        lib = [p for p in sorted(glob.glob(P + "/**/*.cpp", recursive=True)) if os.path.basename(p) != "dllmain.cpp"]
        hp = _headers_digest([P])
        hn = _headers_digest([P, N])
        jobs = []
        for p in lib:
            jobs.append(("lib", p, FLAGS + ["-I" + P], hp))
        if "driver" in targets:
            jobs.append(("driver", HERE + "/cpp/driver.cpp", FLAGS + ["-I" + P], hp))
        if "server" in targets:
            jobs.append(("server", HERE + "/cpp/nosleep.cpp", FLAGS, b""))
            for p in sorted(glob.glob(N + "/**/*.cpp", recursive=True)):
                jobs.append(("server", p, FLAGS + ["-I" + P, "-I" + N], hn))
        # big translation units first
        jobs.sort(key=lambda j: -os.path.getsize(j[1]) - (10**7 if "AllAttributesParser" in j[1] else 0))
        with concurrent.futures.ThreadPoolExecutor(os.cpu_count() or 8) as ex:
            futs = [(k, s, ex.submit(_compile, s, f, h)) for k, s, f, h in jobs]
            res = [(k, s, f.result()) for k, s, f in futs]
        res.sort(key=lambda r: r[1])
        libo = [o for k, _, o in res if k == "lib"]
        out = {}
        if "driver" in targets:
            out["driver"] = _link([o for k, _, o in res if k == "driver"] + libo, BUILD + "/driver", [])
        if "server" in targets:
            out["server"] = _link([o for k, _, o in res if k == "server"] + libo, BUILD + "/nclangsrv",
                                  ["-lboost_program_options", "-lpthread", "-lstdc++fs"])
        _prune()
        return out


if __name__ == "__main__":
    print(build(*(sys.argv[1:] or ["driver", "server"])))
