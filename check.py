#!/usr/bin/env python3
"""Decide one property of /repo from its source:  check.py <ID> [--tier quick]"""

import argparse
import importlib
import os
import sys
import traceback
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent))
sys.dont_write_bytecode = True

from vfbsa.limits import bounded  # noqa: E402
from vfbsa.project import AnchorLost, Project  # noqa: E402
from vfbsa.report import Report  # noqa: E402
from vfbsa.rules import PROPERTIES  # noqa: E402


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("property")
    ap.add_argument("--tier", default=os.environ.get("VERIF_TIER", "quick"))
    ap.add_argument("--root", default="/repo/src")
    a = ap.parse_args()
    mod, fn, floor = PROPERTIES[a.property]
    rep = Report(a.property, a.tier, int(os.environ.get("VERIF_SEED", "1") or 1))
    try:
        project = Project(a.root)
        run = getattr(importlib.import_module(f"vfbsa.rules.{mod}"), fn)
        with bounded(rep):
            run(project, rep)
        return rep.finish(project, floor if rep.complete else 0)
    except (AnchorLost, SyntaxError) as ex:
        print(f"ERROR property={a.property}: {ex}", file=sys.stderr)
        return 2
    except Exception:
        traceback.print_exc()
        return 3


if __name__ == "__main__":
    sys.setrecursionlimit(20000)
    sys.exit(main())
