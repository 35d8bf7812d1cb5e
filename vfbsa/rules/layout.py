"""C29: the bytes written for an entry are those of FontLab's format.

Reading and writing could change together and still agree (C01-C04) - a width, an order, a
command number in a table both use - and files of FontLab would no longer be understood.
The tapes of the entry cases (symbolic terms in the values of the structure) are compared
with reference tapes.  Terms are compared as functions: each side is evaluated with two
sets of values, so that it does not matter how they are written or in how many pieces.

The reference (layouts.json) was recorded from the tree whose reading of FontLab's own
files is confirmed by the tests of the repository.
"""

import json
import struct
from pathlib import Path
from zlib import crc32

from .. import interp as I
from .. import interp_expr as X
from .. import scene as sc
from .. import terms
from ..terms import isk, kv
from . import entrycases as ec

FILE = Path(__file__).with_name("layouts.json")
POINTS = 2
RULE = "layout"


def check(project, rep):
    rep.rule(RULE, "the bytes written for a structure are those of the file format")
    known = json.loads(FILE.read_text())
    for key, where, got in tapes(project):
        want = known.get(key)
        if want is None:
            continue  # a case that was never decided
        if isinstance(got, str):
            rep.und(RULE, key, got)
            continue
        bad = next((i for i, (a, b) in enumerate(zip(got, want)) if a.hex() != b), None)
        if bad is None:
            rep.ok(RULE, key)
            continue
        a, b = got[bad], bytes.fromhex(want[bad])
        at = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        rep.viol(
            RULE,
            key,
            where,
            f"{key}: byte {at} of {len(b)} differs: {a[at : at + 8].hex() or 'nothing'} is "
            f"written, {b[at : at + 8].hex() or 'nothing'} is the format",
        )


def tapes(project):
    """(name, place of the compiler, bytes for each set of values or reason)."""
    for pid, cases in ec.CASES.items():
        for label, parser, compiler, make, *more in cases:
            vfb = more[1] if len(more) > 1 else None
            if isinstance(vfb, list):
                continue  # the same entry, of a file
            compiler = f"vfbLib.compilers.{compiler}"
            where = sc.where(project, f"{compiler}._compile")
            key = f"{compiler.rsplit(':')[-1].removesuffix('Compiler')}: {label}"
            yield key, where, tape(project, compiler, make, vfb)


def tape(project, compiler, make, vfb):
    c = ec.Case(project)
    s = c.s
    if vfb:
        c.set(**vfb)
    try:
        out = s.call(s.new(compiler), "compile", s.lit(make(c)), c.vfb)
        if not isinstance(out, I.TraceB) and not (isinstance(out, terms.T) and isk(out)):
            return "the compiled bytes are not known"
        chunks = ec.Tape(X._as_items(s.ip, out, s.st)).chunks
        return [b"".join(written(x, p) for x, _ in chunks) for p in range(POINTS)]
    except (I.Raised, ec.Unfit, ec.Unknown) as ex:
        return f"{type(ex).__name__}: {getattr(ex, 'what', ex)}"  # reported by C01-C04
    except I.CaseSplit as ex:
        return f"depends on {terms.show(ex.term)}"
    except (terms.CannotEval, terms.EvalUndef, struct.error, OverflowError) as ex:
        return f"{type(ex).__name__}: {ex}"


def value(atom, point):
    """A value of the named symbol within its range."""
    info = terms.SLOT.get(atom.args[0], {}) if atom.op == "slot" else {}
    n = crc32(f"{atom.args[0]} {point}".encode())
    if not info.get("range"):
        return (n % 4001 - 2000) / 8
    lo, hi = info["range"]
    if point:  # also the short forms of numbers
        lo, hi = max(lo, min(-1200, hi)), min(hi, max(1200, lo))
    return lo + n % (hi - lo + 1)


def written(x, point):
    if isk(x):
        return kv(x)

    def ev(v):
        return terms.evaluate(v, {a: value(a, point) for a in terms.atoms(v)})

    if x.op == "encoded":
        kind, v, _ = x.args
        return number(int(ev(v)) if not isk(v) else kv(v), kind == "enc5")
    if x.op == "packf":
        v, n, order = x.args
        return struct.pack((">" if order == "big" else "<") + {4: "f", 8: "d"}[n], ev(v))
    if x.op == "tobytes1":
        return bytes([ev(x.args[0])])
    if x.op == "tobytes":
        v, n, order, signed = x.args
        return int(ev(v)).to_bytes(n, order or "little", signed=bool(signed))
    raise terms.CannotEval(x)


def number(v, long):
    """FontLab's encoding of integers."""
    if not long:
        if -107 <= v <= 107:
            return bytes([v + 0x8B])
        if 107 < v <= 1131:
            return struct.pack(">H", v - 108 + 0xF700)
        if -1131 <= v < -107:
            return struct.pack(">H", -v - 108 + 0xFB00)
    return b"\xff" + (v & 0xFFFFFFFF).to_bytes(4, "big")


def record(project):
    """Write the reference: python3 -c '...record(Project("/repo/src"))'."""
    out = {}
    for key, _, got in tapes(project):
        if isinstance(got, str):
            print(key, got)
            continue
        assert key not in out or out[key] == [b.hex() for b in got], key
        out[key] = [b.hex() for b in got]
    FILE.write_text(json.dumps(out, indent=0) + "\n")
    print(len(out), "layouts")
