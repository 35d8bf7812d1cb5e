"""Runs the wire-effect interpreter over registered parser/compiler classes."""

import ast

from . import interp as I
from . import terms as t
from .interp_expr import VFB
from .project import AnchorLost
from .terms import FALSE, NONE, TRUE, T, mk

ENC_S = (-(2**31), 2**31 - 1)
ENC_U = (-1131, 2**32 - 1)


def hook_read_value(self, args, kw, st, node):
    signed = kw.get("signed", args[1] if len(args) > 1 else TRUE)
    stream = args[0]
    sg = True if signed is TRUE else False if signed is FALSE else None
    if sg is None:
        return NotImplemented
    return self.stream_read(
        stream, None, st, node, kind=("enc", sg), rng=ENC_S if sg else ENC_U, ty="int"
    )


def _hook_write(long):
    def h(self, args, kw, st, node):
        from dataclasses import replace

        value = args[0] if args else kw.get("value")
        stream = args[1] if len(args) > 1 else kw.get("stream")
        signed = args[2] if len(args) > 2 else kw.get("signed", TRUE)
        sg = True if signed is TRUE else False if signed is FALSE else None
        o = self.obj(st, stream)
        if not isinstance(o, I.StreamO):
            return NONE
        kind = ("enc5" if long else "enc", sg)
        st.heap[stream.id] = replace(o, items=o.items + (I.W(kind, value, self.site(node)),))
        return NONE

    return h


PROGRAM = "fontTools.ttLib.tables.ttProgram.Program"


def hook_program(self, args, kw, st, node):
    return self.alloc(st, I.InstO(I.Cls("$ext", "$Program", _NOCLASS), ()))


_NOCLASS = ast.ClassDef(name="$Program", bases=[], keywords=[], body=[], decorator_list=[])


def hook_program_method(self, v, name, args, st):
    """TrueType programs: assembly and bytecode are mutually inverse."""
    o = st.heap[v.id]
    a = args[0] if args and isinstance(args[0], T) else None
    if name == "fromBytecode":
        st.heap[v.id] = o.set("b", a if a is not None else t.opaque("bytecode"))
        return NONE
    if name == "fromAssembly":
        if a is None:
            b = t.opaque("assembly")
        else:
            b = a.args[0] if a.op == "asm" else mk("bytecode", a, ty="bytes")
        st.heap[v.id] = o.set("b", b)
        return NONE
    b = o.get("b")
    if b is None:
        return I.U
    if name == "getAssembly":
        return mk("asm", b, ty="list") if b.op != "bytecode" else b.args[0]
    if name == "getBytecode":
        return b
    return I.U


def make_interp(project):
    t.SLOT.clear()
    ip = I.Interp(project)
    ip.hooks["ext:" + PROGRAM] = hook_program
    ip.inst_methods["$Program"] = hook_program_method
    ip.hooks["vfbLib.parsers.value:read_value"] = hook_read_value
    ip.hooks["vfbLib.compilers.value:write_value"] = _hook_write(False)
    ip.hooks["vfbLib.compilers.value:write_value_long"] = _hook_write(True)
    return ip


class ReadResult:
    pass


def read_class(ip, cls):
    """Analyse cls()._parse() on an arbitrary stream."""
    st = I.State()
    r = ip.call_cls(cls, [], {}, st, None)
    stream = ip.alloc(st, I.StreamO("r", (), "in"))
    o = st.heap[r.id].set("stream", stream).set("vfb", VFB)
    st.heap[r.id] = o
    hit = ip.lookup_attr(cls, "_parse")
    if hit is None:
        raise AnchorLost(f"{cls.name}._parse")
    val = ip.call_fn(I.Fn("_parse", hit[1], hit[0]), [r], {}, st, hit[1])
    return st, val, st.heap[stream.id].items


def write_class(ip, cls, val, st):
    st = st.copy()
    st.frames = [{}]
    st.loops = ()
    r = ip.call_cls(cls, [], {}, st, None)
    stream = ip.alloc(st, I.StreamO("w", (), "out"))
    o = st.heap[r.id].set("stream", stream).set("vfb", VFB)
    st.heap[r.id] = o
    hit = ip.lookup_attr(cls, "_compile")
    if hit is None:
        raise AnchorLost(f"{cls.name}._compile")
    ip.call_fn(I.Fn("_compile", hit[1], hit[0]), [r, val], {}, st, hit[1])
    return st, st.heap[stream.id].items


def registry(project, ip):
    """[(id, key, parser Cls|None, compiler Cls|None, node)]"""
    v = ip.glob("vfbLib.constants", "parser_classes")
    o = ip.obj(ip.gstate, v)
    if not isinstance(o, I.DictO):
        raise AnchorLost("vfbLib.constants.parser_classes")
    out = []
    for e in o.entries:
        vals = None
        if isinstance(e.val, I.Tup):
            vals = list(e.val.items)
        else:
            lo = ip.obj(ip.gstate, e.val)
            if isinstance(lo, I.ListO):
                vals = [g.v for g in lo.segs]
        if vals is None or len(vals) < 3:
            continue
        out.append((e.key, *vals[:3]))
    return out


# ------------------------------------------------------------------ printing


def show_items(items, ind=0):
    p = "  " * ind
    for it in items:
        if isinstance(it, I.RItem):
            print(p + f"R s{it.sid} {it.kind}")
            if it.kind[0] == "seq":
                show_items(it.kind[1], ind + 1)
        elif isinstance(it, I.W):
            e = it.expr
            print(p + f"W {it.kind} {t.show(e) if isinstance(e, T) else e}")
        elif isinstance(it, I.TRep):
            print(p + f"REP {t.short_lid(it.lid)} x {t.show(it.count) if isinstance(it.count, T) else it.count}")
            show_items(it.items, ind + 1)
        elif isinstance(it, I.TAlt):
            print(p + f"IF {t.show(it.c)}")
            show_items(it.a, ind + 1)
            if it.b:
                print(p + "ELSE")
                show_items(it.b, ind + 1)
        elif isinstance(it, I.TTag):
            print(p + f"TAGS {it.lid} {it.item}")
            for c, items2, k in it.cases:
                print(p + f" case {c} -> {k}")
                show_items(items2, ind + 2)
            if it.other is not None:
                print(p + " other")
                show_items(it.other, ind + 2)
        else:
            print(p + repr(it))


def show_val(ip, st, v, ind=0, seen=()):
    p = "  " * ind
    if isinstance(v, I.Ref):
        if v.id in seen:
            print(p + "<cycle>")
            return
        o = ip.obj(st, v)
        seen = seen + (v.id,)
        if isinstance(o, I.ListO):
            print(p + "LIST " + o.order)
            show_segs(ip, st, o.segs, ind + 1, seen)
        elif isinstance(o, I.DictO):
            print(p + "DICT")
            show_ents(ip, st, o.entries, ind + 1, seen)
        else:
            print(p + repr(o)[:200])
    elif isinstance(v, I.Tup):
        print(p + "TUP")
        for x in v.items:
            show_val(ip, st, x, ind + 1, seen)
    elif isinstance(v, I.IteV):
        print(p + "ITE " + t.show(v.c))
        show_val(ip, st, v.a, ind + 1, seen)
        show_val(ip, st, v.b, ind + 1, seen)
    else:
        print(p + (t.show(v) if isinstance(v, T) else repr(v)[:150]))


def show_segs(ip, st, segs, ind, seen):
    p = "  " * ind
    for g in segs:
        if isinstance(g, I.One):
            show_val(ip, st, g.v, ind, seen)
        elif isinstance(g, I.Rep):
            print(p + f"* {t.short_lid(g.lid)} x {t.show(g.count) if isinstance(g.count, T) else g.count}")
            show_segs(ip, st, g.segs, ind + 1, seen)
        else:
            print(p + "? " + t.show(g.c))
            show_segs(ip, st, g.a, ind + 1, seen)
            if g.b:
                print(p + ": else")
                show_segs(ip, st, g.b, ind + 1, seen)


def show_ents(ip, st, ents, ind, seen):
    p = "  " * ind
    for e in ents:
        if isinstance(e, I.DE):
            k = t.show(e.key) if isinstance(e.key, T) else repr(e.key)
            g = "" if e.guard is TRUE else f"  [if {t.show(e.guard)}]"
            if isinstance(e.val, T):
                print(p + f"{k}: {t.show(e.val)}{g}")
            else:
                print(p + f"{k}:{g}")
                show_val(ip, st, e.val, ind + 1, seen)
        else:
            print(p + f"* {t.short_lid(e.lid)}")
            show_ents(ip, st, e.entries, ind + 1, seen)
