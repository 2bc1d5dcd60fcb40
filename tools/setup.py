#!/usr/bin/env python3
"""Builds everything the checks need so that they start warm.

A file of /repo that does not compile is not an error here: the check that
needs it reports that itself.
"""
import os
import subprocess
import sys

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import vbuild  # noqa: E402
from checks import CHECKS  # noqa: E402


def main():
    bad = 0
    for h, flags in sorted({(c["harness"], tuple(c.get("flags", ()))) for c in CHECKS.values()}):
        try:
            vbuild.build(h, flags)
            print("built", h)
        except vbuild.BuildError as e:
            print(str(e)[-1500:])
            bad += 1
    if os.path.exists(os.path.join(vbuild.HARNESS, "shim_selfcheck.cpp")):
        exe = vbuild.build("shim_selfcheck")
        r = subprocess.run([exe], capture_output=True, text=True)
        print((r.stdout + r.stderr)[-600:])
        if r.returncode != 0:
            print("the finite element stand-in failed its own conformance run")
            return 1
    print("%d harness(es) could not be built" % bad if bad else "ready")
    return 0


if __name__ == "__main__":
    sys.exit(main())
