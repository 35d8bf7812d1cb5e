#!/usr/bin/env python3
"""Writes vfbsa/rules/entry_types.json: the reference table of C08 (run by hand,
reviewed, committed; no check runs this)."""
import json
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
from vfbsa import codec, terms as t  # noqa: E402
from vfbsa.project import Project  # noqa: E402
from vfbsa.rules.registry import scalar_kind  # noqa: E402

p = Project()
ip = codec.make_interp(p)
out = {}
for k, n, pc, cc in codec.registry(p, ip):
    out[str(t.kv(k))] = [t.kv(n), scalar_kind(p, pc)]
f = Path(__file__).resolve().parent.parent / "vfbsa" / "rules" / "entry_types.json"
f.write_text("{\n" + ",\n".join(f' "{k}": {json.dumps(v)}' for k, v in sorted(
    out.items(), key=lambda x: int(x[0]))) + "\n}\n")
