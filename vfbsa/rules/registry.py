"""C08: the table of entry types is complete, unambiguous and consistently paired."""

import ast
import json
from pathlib import Path

from .. import codec
from .. import interp as I
from .. import terms as t
from ..project import AnchorLost


def table(project):
    """The dict display(s) bound to vfbLib.constants.parser_classes."""
    m = project.modules.get("vfbLib.constants")
    if m is None or m.defs.get("parser_classes", ("", None))[0] != "expr":
        raise AnchorLost("vfbLib.constants.parser_classes")
    return m, m.defs["parser_classes"][1]


def displays(project, m, node, depth=0):
    """Dict displays merged into the table, in order."""
    if depth > 8:
        return
    if isinstance(node, ast.Dict):
        for k, v in zip(node.keys, node.values):
            if k is None:
                yield from displays(project, m, v, depth + 1)
            else:
                yield m, k, v
    elif isinstance(node, ast.Call):
        for a in node.args:
            yield from displays(project, m, a, depth + 1)
    elif isinstance(node, ast.BinOp) and isinstance(node.op, ast.BitOr):
        yield from displays(project, m, node.left, depth + 1)
        yield from displays(project, m, node.right, depth + 1)
    elif isinstance(node, ast.Name):
        r = project.resolve(m.name, node.id)
        if r and r[0] == "expr":
            yield from displays(project, r[1], r[2], depth + 1)


REFERENCE = Path(__file__).with_name("entry_types.json")

_SCALAR = {}


def scalar_kind(project, cls):
    """'int2s', 'int2u', 'float8', 'str' for readers of one plain value, else ''."""
    if not isinstance(cls, I.Cls):
        return ""
    if (project, cls.name) in _SCALAR:
        return _SCALAR[project, cls.name]
    ip = codec.make_interp(project)
    r = ""
    try:
        st, val, items = codec.read_class(ip, cls)
    except AnchorLost:
        raise
    except Exception:
        items = ()
        r = None
    if len(items) == 1 and isinstance(items[0], I.RItem) and isinstance(val, t.T):
        k = items[0].kind
        slot = val
        if k[0] == "int" and slot.op == "slot":
            r = f"int{k[1]}{'s' if k[2] else 'u'}"
        elif k[0] == "float" and slot.op == "slot":
            r = f"float{k[1]}"
        elif k[0] == "raw" and any(
            a.op == "decode" for a in _subterms(val) if isinstance(a, t.T)
        ):
            r = "str"
    elif r is not None and any(isinstance(x, I.TOpq) for x in items):
        r = None
    _SCALAR[project, cls.name] = r
    return r


def _subterms(x):
    if isinstance(x, t.T):
        yield x
        for a in x.args:
            yield from _subterms(a)


def run(project, rep):
    rep.rule("unique-id", "no entry id occurs twice in the table")
    rep.rule("unique-key", "no entry name occurs twice in the table")
    rep.rule("id-range", "every id leaves the size flag bit 0x8000 free")
    rep.rule("parser", "every entry type has a parser that implements parsing")
    rep.rule("compiler", "every entry type has a compiler that implements compiling")
    rep.rule("key-known", "entry names the code looks for are registered names")
    rep.rule("ignore-sets", "both spellings of the minimal-mode skip list agree")
    ip = codec.make_interp(project)
    m, node = table(project)
    seen, keys = {}, {}
    id2key, id2parser = {}, {}
    undec = 0
    base_parse = _base_method(ip, "vfbLib.parsers.base", "BaseParser", "_parse")
    base_comp = _base_method(ip, "vfbLib.compilers.base", "BaseCompiler", "_compile")
    rows = list(displays(project, m, node))
    if not rows:
        raise AnchorLost("no entries found in vfbLib.constants.parser_classes")
    for mod, k, v in rows:
        kid = ip.ev(k, ip.gstate)
        if isinstance(kid, I.EnumV):
            kid = kid.val
        name = pc = cc = None
        if isinstance(v, (ast.Tuple, ast.List)) and len(v.elts) >= 3:
            name, pc, cc = (ip.ev(e, ip.gstate) for e in v.elts[:3])
        else:
            val = ip.ev(v, ip.gstate)
            if isinstance(val, I.Tup) and len(val.items) >= 3:
                name, pc, cc = val.items[:3]
        label = ast.unparse(k)
        if not t.isk(kid) or not isinstance(t.kv(kid), int):
            rep.und("unique-id", k, f"id of {label} not resolved")
            n = None
            undec += 1
        else:
            n = t.kv(kid)
            if isinstance(pc, I.Cls):
                id2parser.setdefault(n, pc)
            if n in seen:
                rep.viol(
                    "unique-id",
                    label,
                    k,
                    f"id {n} ({label}) is registered twice; the entry for {seen[n]} "
                    "is lost",
                )
            else:
                rep.ok("unique-id", k)
            seen.setdefault(n, label)
            if 0 < n < 0x8000:
                rep.ok("id-range", k)
            else:
                rep.viol("id-range", label, k, f"id {n} does not fit the 15 bits of an id")
        if t.isk(name) and isinstance(t.kv(name), str):
            s = t.kv(name)
            if n is not None:
                id2key[n] = s
            if s in keys and keys[s] != n:
                rep.viol(
                    "unique-key",
                    s,
                    v,
                    f"entry name {s!r} is used for ids {keys[s]} and {n}",
                )
            else:
                rep.ok("unique-key", v)
            keys.setdefault(s, n)
        else:
            rep.und("unique-key", v, "name not resolved")
        for what, c, root, meth, base in (
            ("parser", pc, "BaseParser", "_parse", base_parse),
            ("compiler", cc, "BaseCompiler", "_compile", base_comp),
        ):
            if c is None or isinstance(c, I.UnkV):
                rep.und(what, v, f"{what} of {label} not resolved")
                continue
            if not isinstance(c, I.Cls):
                if t.isk(c) and t.kv(c) is None:
                    rep.viol(what, label, v, f"{label} has no {what}")
                else:
                    rep.und(what, v, f"{what} of {label} is not a class")
                continue
            names = [x.name for x in ip.mro(c)]
            if root not in names:
                rep.viol(what, label, v, f"{label}: {c.name} is not derived from {root}")
                continue
            hit = ip.lookup_attr(c, meth)
            if hit is None or what == "compiler" and hit[1] is base:
                rep.viol(what, label, v, f"{label}: {c.name} does not implement {meth}")
            else:
                rep.ok(what, v)
    ref = json.loads(REFERENCE.read_text())
    rep.rule("known-type", "every entry type of the format keeps its id and name")
    rep.rule("scalar-type", "a plain value is read with the width and sign it has")
    for k, (nm, kind) in ref.items():
        n = int(k)
        if n not in id2key:
            if not undec and n not in seen:
                rep.viol(
                    "known-type",
                    nm,
                    node,
                    f"entries with id {n} ({nm}) are no longer recognised",
                )
            continue
        if id2key[n] != nm:
            rep.viol(
                "known-type",
                nm,
                node,
                f"entries with id {n} are named {id2key[n]!r} instead of {nm!r}",
            )
        else:
            rep.ok("known-type", f"id {n}")
        if kind:
            got = scalar_kind(project, id2parser.get(n))
            if got is None or got == "":
                rep.und("scalar-type", f"id {n}", "reader not reduced to one value")
            elif got != kind:
                rep.viol(
                    "scalar-type",
                    nm,
                    id2parser[n].node,
                    f"{nm!r} entries are read as {got}, they hold {kind}",
                )
            else:
                rep.ok("scalar-type", f"id {n}")
    _key_names(project, ip, rep, set(keys))
    _ignore_sets(project, ip, rep, id2key)


def _key_names(project, ip, rep, keys):
    """String constants compared with an entry's name must be registered names."""
    for m, q, fn in project.all_functions():
        for n in ast.walk(fn):
            pairs = []
            if isinstance(n, ast.Compare) and len(n.ops) == 1:
                pairs = [(n.left, n.comparators[0]), (n.comparators[0], n.left)]
            elif isinstance(n, ast.Match):
                for c in n.cases:
                    for x in ast.walk(c.pattern):
                        if isinstance(x, ast.MatchValue):
                            pairs.append((n.subject, x.value))
            for a, b in pairs:
                if not (
                    isinstance(a, ast.Attribute)
                    and a.attr == "key"
                    and isinstance(b, ast.Constant)
                    and isinstance(b.value, str)
                ):
                    continue
                if b.value in keys:
                    rep.ok("key-known", b)
                else:
                    rep.viol(
                        "key-known",
                        f"{q}|{b.value}",
                        b,
                        f"{q} looks for entries named {b.value!r}, no type has that name",
                    )


def _base_method(ip, mod, cls, meth):
    c = ip.glob(mod, cls)
    if not isinstance(c, I.Cls):
        raise AnchorLost(f"{mod}.{cls}")
    hit = ip.lookup_attr(c, meth)
    return hit[1] if hit else None


def elements(project, m, node, depth=0):
    """Element expressions of set((...)), frozenset((...)), {...}, (...)"""
    if depth > 6:
        return None
    if isinstance(node, (ast.Tuple, ast.List, ast.Set)):
        return list(node.elts)
    if isinstance(node, ast.Call) and len(node.args) == 1:
        return elements(project, m, node.args[0], depth + 1)
    return None


def _ignore_sets(project, ip, rep, id2key):
    m = project.modules["vfbLib.constants"]
    a = m.defs.get("ignore_minimal")
    b = m.defs.get("ignore_minimal_keys")
    if not a or not b or a[0] != "expr" or b[0] != "expr":
        return
    ea, eb = elements(project, m, a[1]), elements(project, m, b[1])
    if ea is None or eb is None:
        rep.und("ignore-sets", a[1], "not a literal set")
        return
    names, ids = set(), set()
    for e in ea:
        v = ip.ev(e, ip.gstate)
        if not t.isk(v):
            rep.und("ignore-sets", e, "element not resolved")
            return
        names.add(t.kv(v))
    for e in eb:
        v = ip.ev(e, ip.gstate)
        v = v.val if isinstance(v, I.EnumV) else v
        if not t.isk(v):
            rep.und("ignore-sets", e, "element not resolved")
            return
        ids.add(t.kv(v))
    via = {id2key.get(i) for i in ids}
    for x in sorted(names | {v for v in via if v}):
        if x in names and x in via:
            rep.ok("ignore-sets", a[1])
        elif x in names:
            rep.viol(
                "ignore-sets",
                x,
                a[1],
                f"{x!r} is skipped by name in minimal mode but its id is not",
            )
        else:
            rep.viol(
                "ignore-sets",
                x,
                b[1],
                f"the id of {x!r} is skipped in minimal mode but its name is not",
            )
