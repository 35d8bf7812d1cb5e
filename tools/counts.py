"""Compare what the checks decide with the numbers recorded: tools/counts.py [--write]."""

import json
import re
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor
from pathlib import Path

ROOT = Path(__file__).resolve().parents[1]
FILE = ROOT / "tools" / "counts.json"
LINE = re.compile(r"(C\d+): (\d+) discharged, (\d+) undecided, (\d+) known, (\d+) viol")


def one(pid):
    out = subprocess.run(
        ["timeout", "850", sys.executable, str(ROOT / "check.py"), pid],
        capture_output=True,
        text=True,
    )
    m = LINE.search(out.stdout)
    return pid, ([int(x) for x in m.groups()[1:]] if m else [out.returncode])


ids = [f"C{i:02d}" for i in range(1, 30)]
ids = [i for i in sys.argv[1:] if i.startswith("C")] or ids
with ThreadPoolExecutor(7) as ex:
    got = dict(ex.map(one, ids))
was = json.loads(FILE.read_text()) if FILE.exists() else {}
for pid in ids:
    mark = "" if got[pid] == was.get(pid) else f"   was {was.get(pid)}"
    print(pid, got[pid], mark)
if "--write" in sys.argv:
    FILE.write_text(json.dumps({**was, **got}, indent=0) + "\n")
