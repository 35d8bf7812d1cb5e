"""C01-C04: the reader and the writer of every registered entry type are inverse.

Reader and writer classes are looked up through the registry the program itself
uses, interpreted abstractly (vfbsa.interp) into wire programs, and aligned
(vfbsa.wire).
"""

from .. import codec, wire
from .. import interp as I
from .. import terms as t
from ..project import AnchorLost
from . import entrycases

RULES = {
    "value": "a written item's value, expressed in the reader's slots, normalises to "
    "the slot that was read at the same position",
    "shape": "reader and writer put the same kind of item at the same position",
    "count": "a repeated group is written exactly as often as it was read",
    "length": "a counted string or blob is written with the length that was read",
    "sign": "both sides use the same signedness for a stored integer",
    "end-tag": "a tagged record ends with the tag that stops the reader",
    "unknown-tag": "the writer emits no tag the reader does not know",
    "unknown-sections": "sections the reader keeps generically are written back",
    "section-order": "sections are written in the order the reader needs",
    "section-dropped": "every tag whose data the reader keeps is written back",
    "needs-key": "the writer needs no key that the reader supplies only sometimes",
    "missing-key": "the writer needs no key that the reader never supplies",
}

# C02 is stated for glyph records with an outline section and, where an imported
# outline is present, with its metrics and outline subsections; the writer relies on
# the keys those sections supply.
SCOPED_NEEDS = {
    "num_masters",
    "width",
    "lsb",
    "unknown1",
    "unknown2",
    "unknown3",
    "bbox",
    "num_contours",
}

TT_EXTRA = {"ttinfo"}


def enum_values(ip, name):
    c = ip.glob("vfbLib.enum", name)
    if not isinstance(c, I.Cls):
        raise AnchorLost(f"vfbLib.enum.{name}")
    out = {}
    for n in ip.enum_names(c):
        v = ip.enum_member(c, n)
        if isinstance(v, I.EnumV):
            v = v.val
        if t.isk(v):
            out[n] = t.kv(v)
    return out


def groups(ip):
    F, G, M, T = (enum_values(ip, n) for n in "FGMT")
    g = {}
    for v in F.values():
        g[v] = "C01"
    for v in M.values():
        g[v] = "C01"
    for v in G.values():
        g[v] = "C03"
    for v in T.values():
        g[v] = "C04"
    for n in TT_EXTRA:
        if n in F:
            g[F[n]] = "C04"
    if "Glyph" in G:
        g[G["Glyph"]] = "C02"
    return g


def pairs(project):
    """{group: {(parser name, compiler name): (P, C, [entry names])}}"""
    ip = codec.make_interp(project)
    grp = groups(ip)
    out = {}
    for key, name, pc, cc in codec.registry(project, ip):
        k = t.kv(key) if t.isk(key) else None
        g = grp.get(k, "C01")
        if not isinstance(pc, I.Cls) or not isinstance(cc, I.Cls):
            continue
        nm = t.kv(name) if t.isk(name) else str(k)
        d = out.setdefault(g, {})
        d.setdefault((pc.name, cc.name), (pc, cc, []))[2].append(nm)
    return out


def run_group(project, rep, pid):
    for r, text in RULES.items():
        rep.rule(r, text)
    rep.assume(
        "vfbLib.parsers.value.read_value and vfbLib.compilers.value.write_value are "
        "inverse (decided by C05)"
    )
    rep.assume("counts read from a well-formed record are not negative")
    todo = pairs(project).get(pid)
    if not todo:
        raise AnchorLost(f"no registered entry types in the group of {pid}")
    for (pn, cn), (pc, cc, names) in todo.items():
        label = f"{pn}/{cn}"
        ip = codec.make_interp(project)
        try:
            m = wire.check_pair(ip, pc, cc, codec)
        except AnchorLost:
            raise
        except Exception as ex:
            rep.und("pair", label, f"not analysable: {type(ex).__name__}: {ex}")
            continue
        rep.notes.append(
            f"{label}: {len(m.proven)} proven, {len(m.undecided)} undecided, "
            f"{len(m.violations)} violated; entries: {', '.join(names[:60])}"
        )
        for a in m.assumed:
            rep.assume(a)
        for n, w in m.proven:
            rep.ok("codec", n if n is not None else label)
        for n, w in m.undecided:
            rep.und("codec", n if n is not None else label, str(w)[:200])
        for v in m.violations:
            rule, key = v["key"]
            if pid == "C02" and rule == "needs-key" and key in SCOPED_NEEDS:
                continue
            rep.viol(
                rule,
                f"{label}|{key}",
                v["node"] if v["node"] is not None else label,
                f"{label} ({', '.join(names[:4])}): {v['msg']}",
                v["path"],
            )
    entrycases.check(project, rep, pid)


def font_entries(project, rep):
    run_group(project, rep, "C01")


def glyph_record(project, rep):
    run_group(project, rep, "C02")


def glyph_entries(project, rep):
    run_group(project, rep, "C03")


def truetype_entries(project, rep):
    run_group(project, rep, "C04")
