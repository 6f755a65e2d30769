#!/usr/bin/env python3
"""check.py <id> [--tier quick|thorough] [--runs N] [--seed S] | check.py replay FILE"""

import os
import sys

HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)
from vsim import boot  # noqa: E402

boot.reexec([os.path.abspath(__file__)] + sys.argv[1:])
from vsim import runner  # noqa: E402


def main(a):
    if a[0] == "replay":
        runner.replay(a[1])
        return
    if a[0] == "selftest":
        runner.selftest()
        return
    if a[0] == "determinism":
        runner.determinism(a[1:])
        return
    kw = {}
    it = iter(a[1:])
    for x in it:
        if x == "--tier":
            kw["tier"] = next(it)
        elif x == "--runs":
            kw["runs"] = int(next(it))
        elif x == "--seed":
            kw["seed"] = int(next(it))
        elif x == "--procs":
            kw["nproc"] = int(next(it))
    runner.main(a[0], **kw)


if __name__ == "__main__":
    main(sys.argv[1:])
