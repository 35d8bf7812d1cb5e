"""Collects the outcome of one check and writes its evidence."""

import ast
import json
import time
from collections import Counter
from pathlib import Path

from .project import AnchorLost, loc

VERIF = Path(__file__).resolve().parent.parent
EVIDENCE = VERIF / "evidence"
KNOWN = VERIF / "known_findings.txt"


class Report:
    def __init__(self, pid, tier, seed):
        self.pid, self.tier, self.seed = pid, tier, seed
        self.discharged = []
        self.undecided = []
        self.violations = []
        self.assumptions = []
        self.rules = {}
        self.notes = []
        self.t0 = time.time()

    # every obligation ends in exactly one of the three lists
    def rule(self, name, text):
        self.rules[name] = text

    def ok(self, rule, where):
        self.discharged.append((rule, self.where(where)))

    def und(self, rule, where, why):
        self.undecided.append((rule, self.where(where), why))

    def viol(self, rule, key, where, msg, path=()):
        k = f"{rule}|{key}"
        if any(v["key"] == k for v in self.violations):
            return
        self.violations.append(
            {
                "rule": rule,
                "key": k,
                "where": self.where(where),
                "message": msg,
                "path": [str(p) for p in path],
            }
        )

    def assume(self, text):
        if text not in self.assumptions:
            self.assumptions.append(text)

    def where(self, w):
        if isinstance(w, ast.AST):
            return loc(w)
        return str(w) if w is not None else "?"

    def decided(self):
        return len(self.discharged) + len(self.violations)

    # ------------------------------------------------------------------
    def known(self):
        out = {}
        if KNOWN.exists():
            for line in KNOWN.read_text(encoding="utf-8").splitlines():
                line = line.strip()
                if not line.startswith("known: "):
                    continue
                head, _, text = line[len("known: ") :].partition(" :: ")
                parts = dict(x.split("=", 1) for x in head.split(" ", 1) if "=" in x)
                if parts.get("property") == self.pid:
                    out[parts["key"]] = text
        return out

    def finish(self, project, floor):
        known = self.known()
        fresh = [v for v in self.violations if v["key"] not in known]
        listed = [v for v in self.violations if v["key"] in known]
        per_rule = Counter(r for r, _ in self.discharged)
        und_rule = Counter(r for r, _, _ in self.undecided)
        vio_rule = Counter(v["rule"] for v in self.violations)
        ev = {
            "property": self.pid,
            "tier": self.tier,
            "seed": self.seed,
            "level": "other",
            "coverage": {
                "explanation": "Static analysis of /repo's current source; each "
                "obligation is one construct (call site, path, entry field or "
                "function) to which a rule applied.",
                "rules": self.rules,
                "source_digest": project.digest(),
                "modules_loaded": len(project.modules),
                "obligations": len(self.discharged)
                + len(self.undecided)
                + len(self.violations),
                "discharged": len(self.discharged),
                "undecided": len(self.undecided),
                "discharged_by_rule": dict(per_rule),
                "undecided_by_rule": dict(und_rule),
                "violated_by_rule": dict(vio_rule),
                "samples": [f"{r}: {w}" for r, w in _spread(self.discharged, 12)],
                "undecided_items": [
                    f"{r}: {w}: {why}" for r, w, why in self.undecided[:40]
                ],
                "known_findings": [v["key"] for v in listed],
                "notes": self.notes,
            },
            "assumptions": self.assumptions,
            "wall_s": round(time.time() - self.t0, 3),
            "violations": len(fresh),
        }
        EVIDENCE.mkdir(exist_ok=True)
        (EVIDENCE / f"{self.pid}.json").write_text(
            json.dumps(ev, indent=1, ensure_ascii=False) + "\n", encoding="utf-8"
        )
        for v in listed:
            print(
                f"KNOWN-FINDING: property={self.pid} {v['where']} {v['rule']}: "
                f"{known[v['key']]}"
            )
        print(
            f"{self.pid}: {len(self.discharged)} discharged, "
            f"{len(self.undecided)} undecided, {len(listed)} known, "
            f"{len(fresh)} violations"
        )
        if fresh:
            rp = EVIDENCE / f"{self.pid}.replay.json"
            rp.write_text(
                json.dumps(
                    {
                        "property": self.pid,
                        "source_digest": project.digest(),
                        "rerun": f"python3 check.py {self.pid} --tier {self.tier}",
                        "violations": fresh,
                    },
                    indent=1,
                    ensure_ascii=False,
                )
                + "\n",
                encoding="utf-8",
            )
            for v in fresh:
                print(f"  {v['where']}: [{v['rule']}] {v['message']}")
                for s in v["path"][:12]:
                    print(f"      {s}")
            print(f"VIOLATION property={self.pid} replay={rp}")
            return 1
        if self.decided() < floor:
            raise AnchorLost(
                f"only {self.decided()} obligations decided, at least {floor} expected"
            )
        return 0


def _spread(xs, n):
    if len(xs) <= n:
        return xs
    step = len(xs) / n
    return [xs[int(i * step)] for i in range(n)]
