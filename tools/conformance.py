#!/usr/bin/env python3
"""Runs the repository's own MFEM-dependent tests on the finite element stand-in.

  conformance.py [GROUP...]     groups: maxwell hesthavenComparison cases

Every test is run alone, in a scratch copy of the test data, with a time limit.
A test that fails although it is not listed in EXPECTED makes the exit code 1.
Not part of any check: it shows how far the stand-in can be trusted.
"""
import concurrent.futures as cf
import glob
import os
import shutil
import subprocess
import sys
import tempfile

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402

LIMIT = int(os.environ.get("CONFORMANCE_LIMIT", "150"))
EXPECTED = {
    "MFEMHesthaven3D.DerivativeOperators_onetetra": "first among equally long edges: passes with the vertices listed as 1 0 3 2",
    "MFEMHesthaven3D.faceChecker": "writes past a one-entry array, which the stand-in reports",
}
TEST = os.path.join(vbuild.REPO, "test")


def sources(group):
    out = [os.path.join(TEST, "TestLauncher.cpp"), os.path.join(TEST, "FieldUtils.cpp")]
    for p in sorted(glob.glob(os.path.join(TEST, group, "**", "*.cpp"), recursive=True)):
        if "Extensive" not in p and "AnalyticalStudy" not in p:
            out.append(p)
    return out


def compile_all(srcs, extra=()):
    with cf.ThreadPoolExecutor(vbuild.JOBS) as ex:
        return list(ex.map(lambda s: (s,) + vbuild.compile_one(s, extra), srcs))


def main():
    groups = sys.argv[1:] or ["maxwell", "hesthavenComparison", "cases"]
    os.makedirs(vbuild.OBJ, exist_ok=True)
    lib = compile_all(vbuild.repo_sources() + vbuild.shim_sources())
    for s, _, err in lib:
        if err:
            print(s, err)
            return 2
    work = tempfile.mkdtemp(prefix="conformance-", dir=vbuild.BUILD)
    unexpected = 0
    try:
        archive = os.path.join(work, "all.a")
        subprocess.run(["ar", "rcs", archive] + [o for _, o, _ in lib], check=True)
        for g in groups:
            inc = ("-I" + TEST, "-I" + os.path.join(TEST, "maxwell"))
            objs = []
            for s, o, err in compile_all(sources(g), inc):
                if err:
                    print("%s: left out, does not compile against the stand-in: %s" % (os.path.relpath(s, TEST), [l for l in err.splitlines() if "error" in l][:1]))
                else:
                    objs.append(o)
            exe = os.path.join(work, g)
            r = subprocess.run([vbuild.CXX, "-fopenmp", "-o", exe] + objs + ["-Wl,--start-group", archive, "-Wl,--end-group", "-lgtest", "-lpthread"], capture_output=True, text=True)
            if r.returncode != 0:
                print(g, "does not link", r.stderr[-600:])
                unexpected += 1
                continue
            names, suite = [], ""
            for line in subprocess.run([exe, "--gtest_list_tests"], capture_output=True, text=True).stdout.splitlines():
                line = line.split("#")[0].rstrip()
                if line and not line.startswith(" ") and line.endswith("."):
                    suite = line
                elif line.startswith("  "):
                    if "DISABLED_" not in line:
                        names.append(suite + line.strip())

            def one(i):
                d = os.path.join(work, "run-%s-%d" % (g, i))
                os.makedirs(d)
                shutil.copytree(os.path.join(vbuild.REPO, "testData"), os.path.join(d, "testData"))
                try:
                    p = subprocess.run([exe, "--gtest_filter=" + names[i]], cwd=d, capture_output=True, text=True, errors="replace", timeout=LIMIT, env=dict(os.environ, OMP_NUM_THREADS="1"))
                    if "[  SKIPPED ]" in p.stdout:
                        return "skipped"
                    return "passed" if p.returncode == 0 and "[  PASSED  ] 1 test" in p.stdout else "failed"
                except subprocess.TimeoutExpired:
                    return "not finished in %d s" % LIMIT
                finally:
                    shutil.rmtree(d, ignore_errors=True)

            with cf.ThreadPoolExecutor(int(os.environ.get("CONFORMANCE_JOBS", vbuild.JOBS))) as ex:
                res = list(ex.map(one, range(len(names))))
            print("%s: %d tests, %s" % (g, len(names), ", ".join("%d %s" % (res.count(k), k) for k in sorted(set(res)))))
            for n, k in zip(names, res):
                if k != "passed":
                    print("  %s %s%s" % (n, k, " (%s)" % EXPECTED[n] if n in EXPECTED else ""))
                unexpected += k == "failed" and n not in EXPECTED
    finally:
        shutil.rmtree(work, ignore_errors=True)
    return 1 if unexpected else 0


if __name__ == "__main__":
    sys.exit(main())
