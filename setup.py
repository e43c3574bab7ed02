#!/usr/bin/env python3
"""Lay out every harness crate and build it once, so that the checks only rebuild what changed."""
import concurrent.futures as cf
import os
import subprocess
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "lib"))
sys.path.insert(0, HERE)
sys.dont_write_bytecode = True
import check  # noqa: E402
import gen  # noqa: E402
import props  # noqa: E402
import units  # noqa: E402,F401


def one(u):
    paths = gen.generate(u)
    d = gen.UNITS[u].dir
    some = next(iter(paths.values()))
    rc, log = check.sh(["cargo", "kani"] + check.FLAGS + ["--only-codegen", "--exact", "--harness", some], d, 1500)
    rc2, log2 = check.sh(["cargo", f"+{check.NATIVE}", "build", "--offline", "--bin", "replay"], d, 1500)
    lock = os.path.join(d, "Cargo.lock")
    if "--locks" in sys.argv and rc == 0:
        gen.put(os.path.join(HERE, "locks", f"{u}.lock"), gen.read(lock))
    return u, rc, log, rc2, log2


def main():
    used = sorted({u for p in props.PROPS.values() for u, _ in p.harnesses(True)})
    bad = 0
    with cf.ThreadPoolExecutor(4) as ex:
        for u, rc, log, rc2, log2 in ex.map(one, used):
            print(u, "ok" if rc == 0 and rc2 == 0 else f"kani {rc} native {rc2}")
            if rc or rc2:
                bad += 1
                print((log if rc else log2)[-1500:])
    # A unit that cannot be built makes its own checks give no answer; the others still run.
    return 0 if bad < len(used) else 1


if __name__ == "__main__":
    sys.exit(main())
