"""Content-addressed build of the shim, the repository sources and the harnesses.

Objects are reused only when the contents of every non-system file they were
compiled from are unchanged, so time stamps never matter.
"""
import concurrent.futures as cf
import fcntl
import glob
import hashlib
import json
import os
import subprocess
import sys

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
SHIM = os.path.join(VERIF, "shim")
HARNESS = os.path.join(VERIF, "harness")
BUILD = os.path.join(VERIF, "build")
OBJ = os.path.join(BUILD, "obj")
BIN = os.path.join(BUILD, "bin")

CXX = "g++"
FLAGS = ["-std=c++17", "-O2", "-g0", "-w", "-fopenmp", "-D_GLIBCXX_ASSERTIONS", "-DNDEBUG", "-DSHOW_TIMER_INFORMATION"]
INCLUDES = ["-I" + SHIM, "-I" + os.path.join(REPO, "src"), "-I" + REPO, "-I" + HARNESS, "-isystem", "/usr/include/eigen3"]
JOBS = os.cpu_count() or 4


class BuildError(Exception):
    pass


def _sha(path):
    h = hashlib.sha256()
    with open(path, "rb") as f:
        h.update(f.read())
    return h.hexdigest()


_hash_memo = {}


def file_hash(path):
    if path not in _hash_memo:
        try:
            _hash_memo[path] = _sha(path)
        except OSError:
            _hash_memo[path] = None
    return _hash_memo[path]


def _parse_dep(text):
    text = text.replace("\\\n", " ")
    _, _, deps = text.partition(":")
    return [os.path.normpath(d) for d in deps.split() if d]


def compile_one(src, extra=()):
    """Returns (object path, error text or None)."""
    cmd = FLAGS + list(extra) + INCLUDES
    key = hashlib.sha256(json.dumps([CXX, cmd, src]).encode()).hexdigest()[:24]
    obj = os.path.join(OBJ, key + ".o")
    meta = os.path.join(OBJ, key + ".json")
    try:
        with open(meta) as f:
            m = json.load(f)
        if os.path.exists(obj) and all(file_hash(p) == h for p, h in m["deps"].items()):
            return obj, None
    except (OSError, ValueError, KeyError):
        pass
    dep = os.path.join(OBJ, key + ".d")
    tmp = os.path.join(OBJ, key + ".tmp.o")
    r = subprocess.run([CXX] + cmd + ["-MMD", "-MF", dep, "-c", src, "-o", tmp], capture_output=True, text=True)
    if r.returncode != 0:
        if os.path.exists(meta):
            os.unlink(meta)
        return obj, r.stderr[-4000:]
    with open(dep) as f:
        deps = _parse_dep(f.read())
    with open(meta, "w") as f:
        json.dump({"src": src, "deps": {d: file_hash(d) for d in deps}}, f)
    os.replace(tmp, obj)
    os.unlink(dep)
    return obj, None


def repo_sources():
    out = []
    for p in sorted(glob.glob(os.path.join(REPO, "src", "**", "*.cpp"), recursive=True)):
        rel = os.path.relpath(p, os.path.join(REPO, "src"))
        if rel.startswith("launcher" + os.sep):
            continue
        out.append(p)
    return out


def shim_sources():
    return sorted(glob.glob(os.path.join(SHIM, "*.cpp")))


def relevant(src, extra):
    """The flags that can matter to one source: definitions only where the name occurs."""
    out = []
    for f in extra:
        if f.startswith("-D"):
            name = f[2:].split("=")[0]
            files = [src]
            if src.startswith(REPO):
                files += glob.glob(os.path.join(REPO, "src", "**", "*.h"), recursive=True) + glob.glob(os.path.join(REPO, "src", "**", "*.hpp"), recursive=True)
            if not any(name in open(p, errors="replace").read() for p in files):
                continue
        out.append(f)
    return tuple(out)


def build(harness, extra=()):
    """Builds harness/<harness>.cpp against the shim and all repository sources.

    Repository files that do not compile are left out; whether that matters is
    decided by the link step.
    """
    os.makedirs(OBJ, exist_ok=True)
    os.makedirs(BIN, exist_ok=True)
    with open(os.path.join(BUILD, ".lock"), "w") as lock:
        fcntl.flock(lock, fcntl.LOCK_EX)
        hsrc = os.path.join(HARNESS, harness + ".cpp")
        rs, ss = repo_sources(), shim_sources()
        with cf.ThreadPoolExecutor(JOBS) as ex:
            futs = {s: ex.submit(compile_one, s, relevant(s, extra)) for s in [hsrc] + rs + ss}
        res = {s: f.result() for s, f in futs.items()}
        for s in ss + [hsrc]:
            if res[s][1]:
                raise BuildError("cannot compile %s:\n%s" % (s, res[s][1]))
        bad = {s: res[s][1] for s in rs if res[s][1]}
        objs = [res[s][0] for s in rs if s not in bad]
        sig = hashlib.sha256()
        for o in [res[hsrc][0]] + objs + [res[s][0] for s in ss]:
            sig.update(_sha(o).encode())
        sig.update(json.dumps(list(extra)).encode())
        exe = os.path.join(BIN, harness + "-" + sig.hexdigest()[:16])
        if not os.path.exists(exe):
            for old in glob.glob(os.path.join(BIN, harness + "-????????????????")):
                os.unlink(old)
            tag = hashlib.sha256(json.dumps(list(extra)).encode()).hexdigest()[:8]
            lib = os.path.join(OBJ, "librepo-%s.a" % tag)
            slib = os.path.join(OBJ, "libshim-%s.a" % tag)
            for l, os_ in ((lib, objs), (slib, [res[s][0] for s in ss])):
                if os.path.exists(l):
                    os.unlink(l)
                subprocess.run(["ar", "rcs", l] + os_, check=True)
            link = [f for f in extra if f.startswith("-fsanitize")]
            r = subprocess.run([CXX, "-O2", "-fopenmp"] + link + [res[hsrc][0], "-Wl,--start-group", lib, slib, "-Wl,--end-group", "-lpthread", "-lstdc++fs", "-o", exe + ".tmp"], capture_output=True, text=True)
            if r.returncode != 0:
                msg = "cannot link %s:\n%s" % (harness, r.stderr[-3000:])
                for s, e in bad.items():
                    msg += "\n%s did not compile:\n%s" % (s, e)
                raise BuildError(msg)
            os.replace(exe + ".tmp", exe)
        return exe


if __name__ == "__main__":
    for h in sys.argv[1:]:
        print(build(h))
