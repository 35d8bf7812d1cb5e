"""Abstract heaps ("scenes") for code that maps one object graph to another.

A scene fixes the *shape* of a source document (which entries, how many masters, which
node types, which names) and leaves every value symbolic: a value is the provenance leaf
`<path@master>`.  The exporting code is interpreted abstractly on that heap, and the
resulting heap is read back as a tree of terms over the leaves.  Rules compare trees;
the statement that last wrote a construct is reported as the violating site.
"""

import ast
import colorsys

from . import codec, terms, wire
from . import interp as I
from . import interp_expr as X
from .project import AnchorLost, loc
from .terms import NONE, TRUE, K, T, isk, kv

ANY = object()  # "any value" in an expected tree


class Heap(dict):
    """A heap which remembers the statement that wrote each part of each object."""

    __slots__ = ("ip",)

    def copy(self):
        h = Heap(self)
        h.ip = self.ip
        return h

    def __setitem__(self, oid, new):
        old = self.get(oid)
        dict.__setitem__(self, oid, new)
        ip = self.ip
        cur = ip.cur
        m = getattr(cur, "_mod", None)
        if m is not None and m.name in ip.model_names:
            cur = next(
                (
                    n
                    for n in reversed(ip.callnodes)
                    if getattr(n, "_mod", None) is not None
                    and n._mod.name not in ip.model_names
                ),
                cur,
            )
        if cur is None:
            return
        w = ip.wrote
        w[oid] = cur
        if isinstance(new, I.InstO):
            was = dict(old.attrs) if isinstance(old, I.InstO) else {}
            for k, v in new.attrs:
                if k not in was or was[k] != v:
                    w[oid, k] = cur
        elif isinstance(new, I.DictO):
            was = (
                {e.key: e.val for e in old.entries if isinstance(e, I.DE)}
                if isinstance(old, I.DictO)
                else {}
            )
            for e in new.entries:
                if isinstance(e, I.DE) and (e.key not in was or was[e.key] != e.val):
                    w[oid, e.key] = cur
        if ip.watch is not None:
            ip.watch(oid, old, new, cur)


def app(name, *args, ty=None):
    """An uninterpreted library function: all that is known is what it depends on."""
    return terms.mk("app", name, *args, ty=ty)


def _h_escape(ip, args, kw, st, node):
    import html

    x = args[0]
    if not isinstance(x, T):
        return NotImplemented
    if isk(x) and isinstance(kv(x), str):
        return K(html.escape(kv(x)))
    if x.op == "str" and terms.typeof(x.args[0]) in ("int", "float", "bool"):
        return x
    return app("html.escape", x, ty="str")


def _h_re(fn):
    def h(ip, args, kw, st, node):
        import re

        if len(args) < 2 or not all(isinstance(a, T) and isk(a) for a in args):
            return NotImplemented
        return _match(ip, st, getattr(re, fn)(*[kv(a) for a in args]))

    return h


def _match(ip, st, r):
    if r is None:
        return NONE
    if isinstance(r, str):
        return K(r)
    if isinstance(r, list):
        return ip.new_list(st, [K(x) for x in r])
    return ip.alloc(st, I.InstO(MATCH, (("m", r),)))


def _m_match(ip, v, name, args, st):
    m = st.heap[v.id].get("m")
    vals = [kv(a) for a in args]
    r = getattr(m, name)(*vals)
    if isinstance(r, tuple):
        return I.Tup(tuple(K(x) for x in r))
    return K(r)


MATCH = I.Cls(
    "$ext",
    "$Match",
    ast.ClassDef(name="$Match", bases=[], keywords=[], body=[], decorator_list=[]),
)

# what fontTools indents after / before
INDENT = {
    "_indentRE": r"^FDEF|IF|ELSE\[ \]\t.+",
    "_unindentRE": r"^ELSE|ENDF|EIF\[ \]\t.+",
}


def _h_indent(rx):
    def h(ip, args, kw, st, node):
        import re

        if not isinstance(args[0], T) or not isk(args[0]):
            return NotImplemented
        return _match(ip, st, re.match(rx, kv(args[0])))

    return h


def _h_hls(ip, args, kw, st, node):
    a = list(args) + [kw[k] for k in ("h", "l", "s")[len(args) :] if k in kw]
    if len(a) != 3 or not all(isinstance(x, T) for x in a):
        return NotImplemented
    if all(isk(x) for x in a):
        return I.Tup(tuple(K(x) for x in colorsys.hls_to_rgb(*map(kv, a))))
    return I.Tup(tuple(app(f"hls_to_rgb[{i}]", *a, ty="float") for i in range(3)))


def _h_dehex(ip, args, kw, st, node):
    if isinstance(args[0], T) and isk(args[0]) and isinstance(kv(args[0]), str):
        return K(bytes.fromhex("".join(kv(args[0]).split())))
    return NotImplemented


def _h_iter_unpack(ip, args, kw, st, node):
    import struct

    if all(isinstance(a, T) and isk(a) for a in args):
        rows = struct.iter_unpack(kv(args[0]), kv(args[1]))
        return ip.new_list(st, [I.Tup(tuple(K(x) for x in r)) for r in rows])
    return NotImplemented


# what fontTools makes of these programs
ASSEMBLY = {
    bytes.fromhex("b0002cb00158201b21592d"): [
        "PUSHB[ ]\t/* 1 value pushed */",
        "0",
        "FDEF[ ]\t/* FunctionDefinition */",
        "PUSHB[ ]\t/* 1 value pushed */",
        "1",
        "IF[ ]\t/* If */",
        "DUP[ ]\t/* DuplicateTopStack */",
        "ELSE[ ]\t/* Else */",
        "POP[ ]\t/* PopTopStack */",
        "EIF[ ]\t/* EndIf */",
        "ENDF[ ]\t/* EndFunctionDefinition */",
    ],
    bytes.fromhex("b80003858d00"): [
        "PUSHW[ ]\t/* 1 value pushed */",
        "3",
        "SCANCTRL[ ]\t/* ScanConversionControl */",
        "SCANTYPE[ ]\t/* ScanType */",
        "SVTCA[0]\t/* SetFPVectorToAxis */",
    ],
}


def _m_program(ip, v, name, args, st):
    if name == "getAssembly":
        b = st.heap[v.id].get("b")
        if isinstance(b, T) and isk(b) and kv(b) in ASSEMBLY:
            return ip.new_list(st, [K(x) for x in ASSEMBLY[kv(b)]])
    return codec.hook_program_method(ip, v, name, args, st)


def _h_b64(ip, args, kw, st, node):
    if isinstance(args[0], T):
        return app("b64encode", args[0], ty="bytes")
    return NotImplemented


# ------------------------------------------------------------------- file names


def _split(x):
    """(stem, suffix) of a file name."""
    if isk(x):
        from pathlib import PurePosixPath

        p = PurePosixPath(kv(x))
        return K(p.stem), K(p.suffix)
    if x.op == "cat" and isk(x.args[-1]) and "." in str(kv(x.args[-1])):
        head, dot, tail = str(kv(x.args[-1])).rpartition(".")
        return terms.cat(*x.args[:-1], K(head)), K(dot + tail)
    if x.op == "cat" and x.args[-1].op == "app" and x.args[-1].args[0] == "suffix":
        return terms.cat(*x.args[:-1]), x.args[-1]
    return app("stem", x, ty="str"), app("suffix", x, ty="str")


def _h_path(ip, args, kw, st, node):
    x = args[0]
    if not isinstance(x, T):
        return NotImplemented
    if isk(x):
        a, _, b = str(kv(x)).rpartition("/")
        return I.Tup((K(a), K(b)))
    if x.op == "cat":
        for i in reversed(range(len(x.args))):
            y = x.args[i]
            if isk(y) and "/" in str(kv(y)):
                a, _, b = str(kv(y)).rpartition("/")
                return I.Tup(
                    (terms.cat(*x.args[:i], K(a)), terms.cat(K(b), *x.args[i + 1 :]))
                )
            if not isk(y) and not (y.op == "app" and y.args[0] in ("stem", "suffix", "name")):
                break
    return I.Tup((app("folder", x, ty="str"), app("name", x, ty="str")))


def _h_join(ip, args, kw, st, node):
    a, b = args
    if not (isinstance(a, T) and isinstance(b, T)):
        return NotImplemented
    if isk(a) and kv(a) in ("", "."):
        return b
    # the parts of one path belong together again
    if a.op == "app" and a.args[0] == "folder":
        x = a.args[1]
        n = app("name", x, ty="str")
        if b in (n, terms.cat(app("stem", n, ty="str"), app("suffix", n, ty="str"))):
            return x
    return terms.cat(a, K("/"), b)


def _h_stem(i):
    def h(ip, args, kw, st, node):
        return _split(args[0])[i] if isinstance(args[0], T) else NotImplemented

    return h


def _h_basename(i):
    def h(ip, args, kw, st, node):
        x = args[0]
        if not isinstance(x, T):
            from .interp_expr import dunder

            x = dunder(ip, x, "__fspath__", [], st)
        if not isinstance(x, T):
            return NotImplemented
        r = _h_path(ip, [x], {}, st, node)
        return r.items[i] if isinstance(r, I.Tup) else r

    return h


def _h_exists(ip, args, kw, st, node):
    if not isinstance(args[0], T) or wire.has_unknown(args[0]):
        return NotImplemented
    return K(args[0] in ip.existing)


class Effect:
    """One file operation: what is written where, and under which assumptions."""

    __slots__ = ("kind", "path", "what", "how", "site", "facts", "over")

    def __init__(self, kind, path, what, how, site, facts, over):
        self.kind, self.path, self.what, self.how = kind, path, what, how
        self.site, self.facts, self.over = site, facts, over


def _h_record(ip, args, kw, st, node):
    kind, path, what, how = args
    site = next(
        (
            n
            for n in reversed(ip.callnodes)
            if getattr(n, "_mod", None) is not None
            and n._mod.name not in ip.model_names
        ),
        node,
    )
    known = isinstance(path, T) and not wire.has_unknown(path)
    over = path in ip.existing if known else None
    ip.effects.append(
        Effect(kv(kind), path if known else None, what, how, site, dict(st.facts), over)
    )
    return NONE


def _h_given(ip, args, kw, st, node):
    flags, action, nargs, typ, default = args
    names = []
    for g in ip.segs_of(flags, st) or ():
        names.append(kv(g.v))
    ip.options.append((tuple(names), action, node))
    for n in names:
        if n in ip.given:
            return ip.given[n]
    return default


def _h_print(ip, args, kw, st, node):
    ip.prints.append((node, dict(st.facts)))
    return NONE


DATETIME = I.Cls(
    "$ext",
    "$Datetime",
    ast.ClassDef(name="$Datetime", bases=[], keywords=[], body=[], decorator_list=[]),
)


def _h_fromtimestamp(ip, args, kw, st, node):
    tz = args[1] if len(args) > 1 else kw.get("tz", NONE)
    if not args or not isinstance(args[0], T):
        return NotImplemented
    utc = isinstance(tz, I.Ext) and tz.name in (
        "datetime.UTC",
        "datetime.timezone.utc",
    )
    zone = K("utc" if utc else "local" if tz is NONE else "?")
    return ip.alloc(st, I.InstO(DATETIME, (("ts", args[0]), ("zone", zone))))


def _m_datetime(ip, v, name, args, st):
    from datetime import datetime, timezone

    o = st.heap[v.id]
    ts, zone = o.get("ts"), o.get("zone")
    if name == "strftime" and len(args) == 1 and isinstance(args[0], T) and isk(args[0]):
        if isk(ts) and kv(zone) == "utc":
            return K(datetime.fromtimestamp(kv(ts), timezone.utc).strftime(kv(args[0])))
        return app("strftime", ts, zone, args[0], ty="str")
    return I.U


SCENE_HOOKS = {
    "ext:datetime.datetime.fromtimestamp": _h_fromtimestamp,
    "spec.effects:record": _h_record,
    "spec.args:given": _h_given,
    "builtins.print": _h_print,
    "spec.path:split_path": _h_path,
    "spec.path:split_stem": _h_stem(0),
    "spec.path:split_suffix": _h_stem(1),
    "spec.path:join": _h_join,
    "spec.path:exists": _h_exists,
    "ext:os.path.exists": _h_exists,
    "ext:os.path.basename": _h_basename(1),
    "ext:os.path.dirname": _h_basename(0),
    "ext:html.escape": _h_escape,
    "ext:colorsys.hls_to_rgb": _h_hls,
    "ext:fontTools.misc.textTools.deHexStr": _h_dehex,
    "ext:struct.iter_unpack": _h_iter_unpack,
    "ext:base64.b64encode": _h_b64,
}
for _f in ("search", "match", "fullmatch", "sub", "split", "findall"):
    SCENE_HOOKS[f"ext:re.{_f}"] = _h_re(_f)
for _n, _rx in INDENT.items():
    SCENE_HOOKS[f"ext:fontTools.ttLib.tables.ttProgram.{_n}.match"] = _h_indent(_rx)


class Scene:
    def __init__(self, project):
        self.p = project.with_models()
        self.ip = codec.make_interp(self.p)
        self.ip.hooks.update(SCENE_HOOKS)
        self.ip.inst_methods["$Match"] = _m_match
        self.ip.inst_methods["$Program"] = _m_program
        self.ip.inst_methods["$Datetime"] = _m_datetime
        self.ip.wrote = {}
        self.ip.existing = set()
        self.ip.effects, self.ip.options, self.ip.given = [], [], {}
        self.ip.prints = []
        self.ip.watch = None
        self.ip.model_names = set(self.p.modules) - set(project.modules)
        self.st = I.State()
        h = Heap()
        h.ip = self.ip
        self.st.heap = h
        self.nleaf = 0
        self.prefix = ""

    # ------------------------------------------------------------------ values

    def leaf(self, path, ty="int", rng=(-3000, 3000)):
        sid = f"<{self.prefix}{path}>"
        terms.SLOT[sid] = {"range": rng if ty == "int" else None}
        self.nleaf += 1
        return terms.slot(sid, (), ty)

    def mm(self, path, n, ty="int", rng=(-3000, 3000)):
        return [self.leaf(f"{path}@{m}", ty, rng) for m in range(n)]

    def lit(self, v):
        ip, st = self.ip, self.st
        if isinstance(v, dict):
            return ip.new_dict(
                st,
                [(k if isinstance(k, T) else K(k), self.lit(x)) for k, x in v.items()],
            )
        if isinstance(v, list):
            return ip.new_list(st, [self.lit(x) for x in v])
        if isinstance(v, tuple):
            return I.Tup(tuple(self.lit(x) for x in v))
        if v is None or isinstance(v, (bool, int, float, str, bytes)):
            return K(v)
        return v

    def inst(self, dotted, **attrs):
        mod, _, name = dotted.partition(":")
        c = self.ip.glob(mod, name)
        if not isinstance(c, I.Cls):
            raise AnchorLost(f"class {dotted} not found")
        return self.ip.alloc(
            self.st, I.InstO(c, tuple((k, self.lit(v)) for k, v in attrs.items()))
        )

    def new(self, dotted, *args, **kw):
        mod, _, name = dotted.partition(":")
        c = self.ip.glob(mod, name)
        if not isinstance(c, I.Cls):
            raise AnchorLost(f"class {dotted} not found")
        return self.ip.call_cls(
            c,
            [self.lit(a) for a in args],
            {k: self.lit(v) for k, v in kw.items()},
            self.st,
            None,
        )

    def func(self, dotted, *args, **kw):
        mod, _, name = dotted.partition(":")
        f = self.ip.glob(mod, name)
        if not isinstance(f, I.Fn):
            raise AnchorLost(f"function {dotted} not found")
        return X.call_value(
            self.ip,
            f,
            [self.lit(a) for a in args],
            {k: self.lit(v) for k, v in kw.items()},
            self.st,
            None,
        )

    def call(self, obj, name, *args, **kw):
        f = self.ip.attr(obj, name, self.st)
        return X.call_value(
            self.ip,
            f,
            [self.lit(a) for a in args],
            {k: self.lit(v) for k, v in kw.items()},
            self.st,
            None,
        )

    def get(self, obj, name):
        return self.ip.attr(obj, name, self.st)

    def enum(self, name):
        c = self.ip.glob("vfbLib.enum", name)
        out = {}
        for x in self.ip.enum_names(c):
            m = self.ip.enum_member(c, x)
            out[x] = kv(m) if isinstance(m, T) else kv(m.val)
        return out

    def items(self, v):
        """The element values of a list/tuple of known length."""
        if isinstance(v, I.Tup):
            return list(v.items)
        o = self.ip.obj(self.st, v)
        if isinstance(o, I.ListO) and all(isinstance(g, I.One) for g in o.segs):
            return [g.v for g in o.segs]
        return None

    # ------------------------------------------------------------------- trees

    def tree(self, v, seen=()):
        return tree(self.ip, self.st, v, seen)

    def site(self, node, key=None):
        """Source position of the statement that wrote (that part of) the object."""
        oid = getattr(node, "oid", None)
        w = self.ip.wrote
        if oid is None:
            return None
        if key is not None:
            for k in (key, K(key) if not isinstance(key, T) else key):
                if (oid, k) in w:
                    return w[oid, k]
        return w.get(oid)


# ------------------------------------------------------------------------ trees


class Node:
    __slots__ = ("kind", "val", "oid", "name")

    def __init__(self, kind, val, oid=None, name=None):
        self.kind, self.val, self.oid, self.name = kind, val, oid, name

    def __repr__(self):
        return show(self)


def tree(ip, st, v, seen=()):
    if isinstance(v, T):
        return Node("leaf", v)
    if isinstance(v, I.Tup):
        return Node("tup", [("one", tree(ip, st, x, seen)) for x in v.items])
    if isinstance(v, I.IteV):
        return Node("ite", (v.c, tree(ip, st, v.a, seen), tree(ip, st, v.b, seen)))
    if isinstance(v, I.EnumV):
        return Node("leaf", v.val) if isinstance(getattr(v, "val", None), T) else Node("opq", v)
    if isinstance(v, I.Ref):
        if v.id in seen:
            return Node("ref", v.id)
        o = ip.obj(st, v)
        seen = seen + (v.id,)
        if isinstance(o, I.ListO):
            if o.order == "sorted" and sum(isinstance(g, I.One) for g in o.segs) > 1:
                return Node("opq", o, v.id)  # in an order which is not known
            return Node("list", [_seg(ip, st, g, seen) for g in o.segs], v.id)
        if isinstance(o, I.DictO):
            return Node("dict", [_ent(ip, st, e, seen) for e in o.entries], v.id)
        if isinstance(o, I.InstO):
            return Node(
                "inst",
                [(k, tree(ip, st, x, seen)) for k, x in o.attrs],
                v.id,
                o.cls.name,
            )
        if isinstance(o, I.SetO):
            return Node("opq", o, v.id)
        return Node("opq", o, v.id)
    return Node("opq", v)


def _seg(ip, st, g, seen):
    if isinstance(g, I.One):
        return ("one", tree(ip, st, g.v, seen))
    if isinstance(g, I.Rep):
        return ("rep", g.lid, [_seg(ip, st, x, seen) for x in g.segs])
    return (
        "opt",
        g.c,
        [_seg(ip, st, x, seen) for x in g.a],
        [_seg(ip, st, x, seen) for x in g.b],
    )


def _ent(ip, st, e, seen):
    if isinstance(e, I.DE):
        return ("one", tree(ip, st, e.key, seen), tree(ip, st, e.val, seen), e.guard)
    return ("rep", e.lid, [_ent(ip, st, x, seen) for x in e.entries])


def show(n, depth=6):
    if n is ANY:
        return "any value"
    if depth < 0:
        return "…"
    if n.kind == "leaf":
        return terms.show(n.val)
    if n.kind == "inst":
        return f"{n.name}(…)"
    if n.kind == "dict":
        return (
            "{"
            + ", ".join(
                f"{show(e[1], 1)}: {show(e[2], depth - 1)}" if e[0] == "one" else "…"
                for e in n.val
            )
            + "}"
        )
    if n.kind in ("list", "tup"):
        b = "[]" if n.kind == "list" else "()"
        return (
            b[0]
            + ", ".join(show(s[1], depth - 1) if s[0] == "one" else "…" for s in n.val)
            + b[1]
        )
    if n.kind == "ite":
        return f"({show(n.val[1], depth - 1)} if {terms.show(n.val[0])} else {show(n.val[2], depth - 1)})"
    return f"<{n.kind}>"


def get(n, key):
    """Attribute of an instance node / value of a dict key / list index, or None."""
    if n is None:
        return None
    if n.kind == "inst":
        return next((v for k, v in n.val if k == key), None)
    if n.kind == "dict":
        k = key if isinstance(key, T) else K(key)
        for e in n.val:
            if e[0] == "one" and e[1].kind == "leaf" and e[1].val is k:
                return e[2]
        return None
    if n.kind in ("list", "tup") and isinstance(key, int):
        if all(s[0] == "one" for s in n.val) and -len(n.val) <= key < len(n.val):
            return n.val[key][1]
    return None


def path(n, *keys):
    for k in keys:
        n = get(n, k)
    return n


def leaves(n, acc=None):
    """All terms below a tree (keys and guards included)."""
    if acc is None:
        acc = []
    if n.kind == "leaf":
        acc.append(n.val)
    elif n.kind in ("list", "tup"):
        for s in n.val:
            _seg_leaves(s, acc)
    elif n.kind == "dict":
        for e in n.val:
            _ent_leaves(e, acc)
    elif n.kind == "inst":
        for _, v in n.val:
            leaves(v, acc)
    elif n.kind == "ite":
        acc.append(n.val[0])
        leaves(n.val[1], acc)
        leaves(n.val[2], acc)
    return acc


def _seg_leaves(s, acc):
    if s[0] == "one":
        leaves(s[1], acc)
    elif s[0] == "rep":
        for x in s[2]:
            _seg_leaves(x, acc)
    else:
        acc.append(s[1])
        for x in s[2] + s[3]:
            _seg_leaves(x, acc)


def _ent_leaves(e, acc):
    if e[0] == "one":
        leaves(e[1], acc)
        leaves(e[2], acc)
        if isinstance(e[3], T):
            acc.append(e[3])
    else:
        for x in e[2]:
            _ent_leaves(x, acc)


def has_unknown(n):
    if n.kind in ("opq", "ref"):
        return True
    if n.kind == "inst":
        return any(has_unknown(v) for _, v in n.val)
    if n.kind in ("list", "tup"):
        return any(s[0] != "one" or has_unknown(s[1]) for s in n.val)
    if n.kind == "dict":
        return any(
            e[0] != "one" or has_unknown(e[1]) or has_unknown(e[2]) for e in n.val
        )
    if n.kind == "ite":
        return wire.has_unknown(n.val[0]) or any(has_unknown(x) for x in n.val[1:])
    return wire.has_unknown(n.val)


def source_ids(x):
    """Paths of the provenance leaves a term is made of."""
    return {a.args[0][1:-1] for a in terms.atoms(x) if a.op == "slot"}


# ------------------------------------------------------------------- comparison


class Diff:
    """Walks two trees; collects equal leaves, open questions and differences."""

    def __init__(self, scene, rename=None, ignore=()):
        self.scene = scene
        self.rename = rename or (lambda x: x)
        self.ignore = set(ignore)
        self.same, self.open, self.bad = [], [], []

    def miss(self, path, node, key, msg):
        self.bad.append((path, self.scene.site(node, key) if node else None, msg))

    def term(self, path, a, b, owner=None, key=None, facts=()):
        a = self.rename(a)
        if a is b:
            self.same.append(path)
            return
        if wire.has_unknown(a) or wire.has_unknown(b):
            self.open.append((path, "the value is not determined by the analysis"))
            return
        w = wire.differ(a, b, facts)
        if isinstance(w, dict):
            self.bad.append(
                (
                    path,
                    self.scene.site(owner, key) if owner else None,
                    f"expected {terms.show(a)}, found {terms.show(b)}"
                    + (f" (differs e.g. for {w})" if w else ""),
                )
            )
        elif w is False:
            self.same.append(path)
        else:
            self.open.append((path, f"cannot compare {terms.show(a)} with {terms.show(b)}"))

    def walk(self, path, A, B, owner=None, key=None, facts=()):
        """A: expected, B: found."""
        if A is ANY:
            self.same.append(path)
            return
        if any(path == i or path.startswith(i + ".") for i in self.ignore):
            return
        if A is None:
            self.miss(path, owner, key, f"unexpected {show(B, 2)}")
            return
        if B is None:
            self.miss(path, owner, None, f"missing; expected {show(A, 2)}")
            return
        if A.kind == "leaf" and B.kind == "leaf":
            self.term(path, A.val, B.val, owner, key, facts)
            return
        if A.kind == "opq" or B.kind == "opq":
            self.open.append((path, "the construct is not determined by the analysis"))
            return
        if A.kind == "ref" or B.kind == "ref":
            self.open.append((path, "cyclic structure"))
            return
        if B.kind == "ite" or A.kind == "ite":
            self.cases(path, A, B, owner, key, facts)
            return
        ka = "list" if A.kind == "tup" else A.kind
        kb = "list" if B.kind == "tup" else B.kind
        if ka != kb:
            if "leaf" in (ka, kb):
                x = A if ka == "leaf" else B
                if wire.has_unknown(x.val):
                    self.open.append((path, "unknown value"))
                    return
            self.miss(path, owner, key, f"expected {show(A, 2)}, found {show(B, 2)}")
            return
        if ka == "list":
            self.seq(path, A, B, owner, key, facts)
        elif ka == "dict":
            self.map(path, A, B, facts)
        else:
            if A.name != B.name:
                self.miss(path, owner, key, f"expected a {A.name}, found a {B.name}")
                return
            names = [k for k, _ in A.val] + [k for k, _ in B.val if get(A, k) is None]
            for k in names:
                self.walk(f"{path}.{k}" if path else k, get(A, k), get(B, k), B, k, facts)

    def cases(self, path, A, B, owner, key, facts):
        if A.kind == "ite" and B.kind == "ite":
            c = self.rename(A.val[0])
            if c is B.val[0]:
                self.walk(path, A.val[1], B.val[1], owner, key, facts + ((c, True),))
                self.walk(path, A.val[2], B.val[2], owner, key, facts + ((c, False),))
                return
        for src, first in ((A, True), (B, False)):
            if src.kind != "ite":
                continue
            c = self.rename(src.val[0]) if first else src.val[0]
            if wire.has_unknown(c):
                self.open.append((path, "unknown condition"))
                return
            for pos, val in ((1, True), (2, False)):
                fs = facts + ((c, val),)
                if wire.satisfiable(_conj(fs)) is False:
                    continue
                if first:
                    self.walk(path, src.val[pos], B, owner, key, fs)
                else:
                    self.walk(path, A, src.val[pos], owner, key, fs)
            return

    def seq(self, path, A, B, owner, key, facts):
        sa, sb = A.val, B.val
        if all(s[0] == "one" for s in sa) and all(s[0] == "one" for s in sb):
            if len(sa) != len(sb):
                self.miss(
                    path,
                    B,
                    None,
                    f"expected {len(sa)} items {show(A, 2)}, found {len(sb)}: {show(B, 2)}",
                )
                return
            if not sa:
                self.same.append(path)
            for i, (x, y) in enumerate(zip(sa, sb)):
                self.walk(f"{path}[{i}]", x[1], y[1], B if B.oid else owner, key, facts)
            return
        if len(sa) == len(sb) and all(x[0] == y[0] for x, y in zip(sa, sb)):
            for i, (x, y) in enumerate(zip(sa, sb)):
                p = f"{path}[{i}]"
                if x[0] == "one":
                    self.walk(p, x[1], y[1], B, None, facts)
                elif x[0] == "opt":
                    self.term(p + "?", x[1], y[1], B, None, facts)
                    self.seq(p + "+", _sub(x[2], A), _sub(y[2], B), owner, key, facts)
                    self.seq(p + "-", _sub(x[3], A), _sub(y[3], B), owner, key, facts)
                elif x[1] == y[1]:
                    self.seq(p + "*", _sub(x[2], A), _sub(y[2], B), owner, key, facts)
                else:
                    self.open.append((p, "repetition"))
            return
        self.open.append((path, "sequences of different shape"))

    def map(self, path, A, B, facts):
        rep = any(e[0] != "one" for e in A.val + B.val)
        names_a, names_b = {}, {}
        for src, out, ren in ((A, names_a, self.rename), (B, names_b, lambda x: x)):
            for e in src.val:
                if e[0] != "one":
                    continue
                out[_key(e[1], ren)] = e
        if rep or None in names_a or None in names_b:
            self.open.append((path, "keys are not determined by the analysis"))
            return
        for k in list(names_a) + [k for k in names_b if k not in names_a]:
            p = f"{path}[{k}]"
            ea, eb = names_a.get(k), names_b.get(k)
            if ea is None or eb is None:
                e = ea or eb
                g = e[3]
                if isinstance(g, T) and not isk(g) and wire.satisfiable(g) is not True:
                    self.open.append((p, "conditional key"))
                elif any(path_hit(p, i) for i in self.ignore):
                    pass
                else:
                    site = None
                    if eb is not None:
                        site = e[1].val if e[1].kind == "leaf" else None
                    self.miss(
                        p,
                        B,
                        site,
                        f"missing; expected {show(ea[2], 2)}"
                        if ea
                        else f"unexpected {show(eb[2], 2)}",
                    )
                continue
            ga = ea[3] if isinstance(ea[3], T) else TRUE
            gb = eb[3] if isinstance(eb[3], T) else TRUE
            kt = eb[1].val if eb[1].kind == "leaf" else None
            if self.rename(ga) is not gb:
                self.term(p + "?", ga, gb, B, kt, facts)
            fs = facts if gb is TRUE else facts + ((gb, True),)
            self.walk(p, ea[2], eb[2], B, kt, fs)
        if not A.val and not B.val:
            self.same.append(path)


def path_hit(p, i):
    return p == i or p.startswith(i + ".") or p.startswith(i + "[")


def _sub(segs, like):
    return Node("list", segs, like.oid)


def _key(n, ren):
    if n.kind == "leaf":
        x = ren(n.val)
        if wire.has_unknown(x):
            return None
        return repr(kv(x)) if isk(x) else terms.show(x)
    if n.kind == "tup":
        parts = [_key(s[1], ren) for s in n.val]
        return None if None in parts else "(" + ", ".join(parts) + ")"
    return None


def _conj(facts):
    return terms.and_(*[c if v else terms.not_(c) for c, v in facts])


def renamer(old, new):
    """Leaves `…@old` become `…@new`."""
    memo = {}

    def r(x):
        if not isinstance(x, T):
            return x
        m = {}
        for a in terms.atoms(x):
            if a.op == "slot" and a.args[0].endswith(f"@{old}>"):
                sid = a.args[0][: -len(f"@{old}>")] + f"@{new}>"
                m[a] = terms.slot(sid, a.args[1], a.ty)
        if not m:
            return x
        if x not in memo:
            memo[x] = terms.subst(x, m)
        return memo[x]

    return r


def expect(scene, v):
    """Expected tree from Python literals, terms and ANY."""
    if v is ANY or isinstance(v, Node):
        return v
    if isinstance(v, T):
        return Node("leaf", v)
    if isinstance(v, dict):
        return Node(
            "dict",
            [
                ("one", expect(scene, k), expect(scene, x), TRUE)
                if not isinstance(x, Guarded)
                else ("one", expect(scene, k), expect(scene, x.v), x.c)
                for k, x in v.items()
            ],
        )
    if isinstance(v, list):
        return Node("list", [("one", expect(scene, x)) for x in v])
    if isinstance(v, tuple):
        return Node("tup", [("one", expect(scene, x)) for x in v])
    return Node("leaf", K(v))


class Guarded:
    def __init__(self, c, v):
        self.c, self.v = c, v


def where(project, dotted):
    """Anchor position of a function, for obligations without a better site."""
    try:
        return loc(project.func(dotted))
    except AnchorLost:
        return dotted


def is_ast(x):
    return isinstance(x, ast.AST)
