#!/usr/bin/env python3
"""Runs one registered check: python3 tools/run_check.py <ID> [--replay FILE]

Exit 0 when the property held on everything explored, 1 with a VIOLATION line
when it did not, 2 when no answer could be given.
"""
import json
import mmap
import os
import pwd
import re
import shutil
import subprocess
import sys
import tempfile
import time

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
from checks import CHECKS  # noqa: E402

VERIF = vbuild.VERIF
EVID = os.path.join(VERIF, "evidence")
RUN = os.path.join(vbuild.BUILD, "run")
MAX_REPORT = 5


def drop_privileges():
    # The code under test deletes and rewrites files; it never runs as root.
    if os.geteuid() == 0:
        os.setgroups([])
        os.setgid(65534)
        os.setuid(65534)


def run_shards(exe, spec, tier, seed, only=None, limit=None):
    """Runs the harness; returns (merged result, list of crash records)."""
    n = 1 if only is not None else spec.get("shards", 1)
    procs, outs = [], []
    os.makedirs(RUN, exist_ok=True)
    os.chmod(RUN, 0o711)
    for i in range(n):
        d = tempfile.mkdtemp(prefix="r", dir=RUN)
        os.chmod(d, 0o755)
        work = os.path.join(d, "work")
        os.mkdir(work)
        progress = os.path.join(d, "progress")
        with open(progress, "wb") as f:
            f.write(b"\0" * 4096)
        result = os.path.join(d, "result.json")
        open(result, "w").close()
        if os.geteuid() == 0:
            for p in (work, progress, result):
                os.chown(p, 65534, 65534)
        env = dict(os.environ)
        env.update(VH_RESULT=result, VH_PROGRESS=progress, VH_SHARD=str(i), VH_SHARDS=str(n), VH_TIER=tier,
                   VH_SEED=str(seed), VH_REPO=vbuild.REPO, OMP_NUM_THREADS=spec.get("omp", "2"), HOME=work, TMPDIR=work)
        if only is not None:
            env["VH_ONLY"] = only
        log = open(os.path.join(d, "log"), "w")
        procs.append((subprocess.Popen([exe], cwd=work, env=env, stdout=log, stderr=subprocess.STDOUT, preexec_fn=drop_privileges), d, log))
    merged = {"states": 0, "transitions": 0, "traces": 0, "cases": 0, "samples": [], "failures": [], "notes": {}}
    crashes = []
    deadline = time.time() + (limit or 820)
    for p, d, log in procs:
        try:
            rc = p.wait(timeout=max(1, deadline - time.time()))
        except subprocess.TimeoutExpired:
            p.kill()
            p.wait()
            rc = "timeout"
        log.close()
        with open(os.path.join(d, "progress"), "rb") as f:
            case = f.read().split(b"\0")[0].decode(errors="replace")
        try:
            with open(os.path.join(d, "result.json")) as f:
                r = json.load(f)
        except ValueError:
            r = None
        if rc == 0 and r is not None:
            for k in ("states", "transitions", "traces", "cases"):
                merged[k] += r[k]
            merged["samples"] += r["samples"]
            merged["failures"] += r["failures"]
            for k, v in r["notes"].items():
                merged["notes"][k] = merged["notes"].get(k, 0) + v
        else:
            with open(os.path.join(d, "log")) as f:
                tail = f.read()[-1500:]
            crashes.append({"case": case, "rc": rc, "tail": tail})
        shutil.rmtree(os.path.join(RUN, os.path.basename(d)))
    return merged, crashes


def known_findings(pid):
    p = os.path.join(VERIF, "known_findings.json")
    if not os.path.exists(p):
        return []
    with open(p) as f:
        return [k for k in json.load(f)["findings"] if k["property"] == pid and k.get("status") == "known"]


def main():
    pid = sys.argv[1]
    spec = CHECKS[pid]
    tier = os.environ.get("VERIF_TIER", "quick")
    if "--thorough" in sys.argv:
        tier = "thorough"
    seed = int(os.environ.get("VERIF_SEED", "0") or 0)
    only = None
    if "--replay" in sys.argv:
        with open(sys.argv[sys.argv.index("--replay") + 1]) as f:
            only = json.load(f)["case"]
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    try:
        exe = vbuild.build(spec["harness"], spec.get("flags", ()))
    except vbuild.BuildError as e:
        print(e)
        print("ERROR property=%s the harness could not be built" % pid)
        return 2
    # Time left for exploration once the build is done.
    limit = max(60, 860 - (time.time() - t0))
    merged, crashes = run_shards(exe, spec, tier, seed, only, limit)

    suspects = [(f["case"], f["what"]) for f in merged["failures"]]
    for c in crashes:
        if c["rc"] == "timeout":
            print(c["tail"])
            print("ERROR property=%s exploration did not finish (at case %s)" % (pid, c["case"]))
            if not suspects:
                return 2
        elif isinstance(c["rc"], int) and c["rc"] < 0 or c["rc"] == 134:
            suspects.append((c["case"], "process died (status %s): %s" % (c["rc"], c["tail"][-300:])))
        else:
            print(c["tail"])
            print("ERROR property=%s harness failed (status %s) at case %s" % (pid, c["rc"], c["case"]))
            return 2

    known, fresh = [], []
    kf = known_findings(pid)
    for case, what in suspects:
        hit = next((k for k in kf if re.fullmatch(k["case"], case) and re.search(k["match"], what)), None)
        (known if hit else fresh).append((case, what, hit))
    confirmed, unconfirmed = [], []
    for case, what, _ in fresh:
        if len(confirmed) >= MAX_REPORT or len(unconfirmed) >= MAX_REPORT:
            break
        if only is not None:
            confirmed.append((case, what))
            continue
        again, cr = run_shards(exe, spec, tier, seed, case, 200)
        if again["failures"] or any(c["rc"] != "timeout" and c["rc"] != 2 for c in cr):
            confirmed.append((case, what))
        else:
            unconfirmed.append((case, what))

    samples = merged["samples"][:12]
    cov = {"states": merged["states"], "transitions": merged["transitions"],
           "traces_validated_against_impl": merged["traces"], "samples": samples,
           "exhaustive": True, "bounds": spec.get("bounds", spec["technique"])}
    cov.update({"n_" + k: v for k, v in merged["notes"].items()})
    ev = {"property": pid, "tier": tier if tier in ("quick", "thorough") else "quick", "seed": seed, "level": "model_checking",
          "coverage": cov, "wall_s": round(time.time() - t0, 2), "violations": len(confirmed) + len(known),
          "assumptions": spec.get("assumptions", ["The MFEM library the repository links against is not present in this sandbox; repository code runs on the re-implementation in shim/, validated by tools/setup.py."])}
    if only is None:
        with open(os.path.join(EVID, pid + ".json"), "w") as f:
            json.dump(ev, f, indent=1)
    print("%s: %d states, %d transitions, %d traces validated, %.1f s" % (pid, merged["states"], merged["transitions"], merged["traces"], time.time() - t0))
    seen = set()
    for case, what, hit in known:
        if hit["what"] not in seen:
            seen.add(hit["what"])
            print("KNOWN-FINDING: property=%s %s" % (pid, hit["what"]))
    if confirmed:
        rd = os.path.join(EVID, "replay")
        os.makedirs(rd, exist_ok=True)
        for i, (case, what) in enumerate(confirmed):
            path = os.path.join(rd, "%s-%d.json" % (pid, i))
            with open(path, "w") as f:
                json.dump({"property": pid, "case": case, "what": what, "rerun": "python3 tools/run_check.py %s --replay %s" % (pid, path)}, f, indent=1)
            print("  case %s: %s" % (case, what))
            print("VIOLATION property=%s replay=%s" % (pid, path))
        return 1
    if unconfirmed:
        for case, what in unconfirmed:
            print("  not reproduced: case %s: %s" % (case, what))
        print("ERROR property=%s failures did not reproduce" % pid)
        return 2
    if merged["cases"] == 0 and only is None:
        print("ERROR property=%s nothing was explored" % pid)
        return 2
    return 0


if __name__ == "__main__":
    sys.exit(main())
