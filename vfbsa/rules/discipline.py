"""C09-C12: what must hold on the reading and writing paths whatever the data.

C09 damaged data are reported, C10 reading and converting ends, C11 a failure does not
destroy an existing output file, C12 multi-byte numbers have an explicit byte order.
"""

import ast

from .. import codec
from .. import interp as I
from .. import scene as sc
from .. import terms as t
from ..flow import (
    CONT,
    FUNCS,
    NEXT,
    RAISE,
    RET,
    Index,
    TooMany,
    certain,
    event_exprs,
    own_nodes,
    paths,
)
from ..project import AnchorLost
from ..terms import NONE, TRUE, K, T, mk
from . import damage
from .container import call, classes, meth

RULES9 = {
    "remainder": "an entry reader that leaves bytes of the entry unread ends with an "
    "exception, whatever the bytes are",
    "complete": "an entry reader that consumed its entry returns what it read",
    "short-read": "a read of a fixed number of bytes raises when the data end early",
    "sized-site": "every sized read outside the primitives is checked for its length "
    "or handed to struct, which checks it",
    "reraise": "a parse error leaves VfbEntry.decompile and Vfb.decompile as an "
    "exception, marks the Vfb, and leaves the entry's data as they were",
    "handler": "no exception handler on the reading path swallows an error that a read "
    "inside it may raise, except the end of a list that is read to the end of the data",
    "unknown-tag": "a tag the reader does not know raises or is kept in the result",
    "table": "a code looked up in a table of names raises or is kept when it is unknown",
    "cut-file": "a file that ends within an entry is refused",
    "negative-size": "a read of a negative number of bytes is refused",
    "file-header": "a file with a different signature or version is refused",
}
RULES10 = {
    "progress": "every way back to the head of a loop that runs until the data say so "
    "has consumed data by a read that raises at the end of the data",
    "ranking": "every other loop has a counter, shrinking list or shrinking number",
    "stable-iter": "no loop extends the collection it iterates over",
    "recursion": "no function calls itself without a smaller argument",
}
RULES11 = {
    "built-first": "between opening an output file and writing its last byte, only "
    "finished data are written, nothing that can fail for other reasons runs",
    "input-read-only": "files the user passes as input are opened for reading only",
}
RULES12 = {
    "struct-order": "every struct format of more than one byte names its byte order",
    "int-order": "every int/bytes conversion wider than one byte names its byte order",
    "no-native": "no native-order primitives (array, sys.byteorder, memoryview.cast)",
    "little": "fixed-width fields of all entries are little-endian; only the 32-bit "
    "form of encoded values is big-endian",
}

READER_MODS = ("vfbLib.parsers.", "vfbLib.vfb.entry", "vfbLib.vfb.header")


def in_reader(m):
    return any(m.name == x or m.name.startswith(x) for x in READER_MODS)


def is_read(call_):
    """A `<stream>.read(...)` call."""
    return (
        isinstance(call_, ast.Call)
        and isinstance(call_.func, ast.Attribute)
        and call_.func.attr in ("read", "read1", "readinto", "getvalue")
        and call_.func.attr != "getvalue"
    )


def consumers(project, ix):
    """Functions of the package that read from a stream, directly or not."""
    direct = {
        f for f in ix.funs if any(is_stream_read(n, f, ix) for n in own_nodes(f.node))
    }
    return _closure(ix, direct)


def is_stream_read(n, f, ix):
    if not is_read(n):
        return False
    v = n.func.value
    name = v.attr if isinstance(v, ast.Attribute) else getattr(v, "id", "")
    return "stream" in name.lower() or name in ("buffer", "buf", "f", "fp", "data", "io")


def calls_of(ix, f):
    """(call, targets) without the ambiguous stream methods."""
    for n in own_nodes(f.node):
        if isinstance(n, ast.Call):
            yield n, targets(ix, n, f)


AMBIG = {
    "read",
    "write",
    "items",
    "keys",
    "get",
    "values",
    "append",
    "pop",
    "copy",
    "close",
    "compile",
    "split",
    "strip",
    "join",
    "update",
    "clear",
    "add",
}


def targets(ix, n, f):
    ts = ix.targets(n, f)
    if ts is None:
        return None
    if isinstance(n.func, ast.Attribute) and n.func.attr in AMBIG and ts:
        v = n.func.value
        c = ix.klass(f)
        if c is not None and isinstance(v, ast.Name) and v.id == ix.self_name(f):
            return ts
        if isinstance(v, ast.Call) or ix.static(n.func, f.mod) is not None:
            return ts
        if ix.local_classes(v, f):
            return ts
        return None
    return ts


def _closure(ix, base):
    out = set(base)
    changed = True
    g = {f: [ts for _, ts in calls_of(ix, f) if ts] for f in ix.funs}
    while changed:
        changed = False
        for f in ix.funs:
            if f not in out and any(t_ in out for ts in g[f] for t_ in ts):
                out.add(f)
                changed = True
    return out


# ------------------------------------------------------------------ C09


FILLS = (b"\x00", b"\xff", b" ", b"A", b"\n")


def make(project):
    ip = codec.make_interp(project)
    ip.unroll = 4000
    ip.budget = 10**7
    return ip


def reg_parsers(project, ip):
    out = {}
    for k, n, pc, cc in codec.registry(project, ip):
        if isinstance(pc, I.Cls):
            out.setdefault((pc.mod, pc.name), pc)
    return list(out.values())


def qual(hit, name):
    return f"{hit[1]._mod.name}:{hit[0].name}.{name}"


def errors(project, rep):
    for r, x in RULES9.items():
        rep.rule(r, x)
    rep.assume("struct.unpack raises when the buffer has not the size of the format")
    ix = Index(project)
    parse_remainder(project, rep)
    short_reads(project, rep, ix)
    sized_sites(project, rep, ix)
    reraise(project, rep)
    handlers(project, rep, ix)
    unknown_tags(project, rep, ix)
    tables(project, rep, ix)
    file_header(project, rep)
    cut_file(project, rep)
    damage.check(project, rep)


def parse_remainder(project, rep):
    ip = make(project)
    parsers = reg_parsers(project, ip)
    if not parsers:
        raise AnchorLost("registered parsers")
    groups = {}
    for c in parsers:
        hit = ip.lookup_attr(c, "parse")
        if hit is None:
            raise AnchorLost(f"{c.name}.parse")
        groups.setdefault(id(hit[1]), (hit, []))[1].append(c)
    for hit, cs in groups.values():
        bad = None
        for n in (1, 2, 10):
            for left in sorted({0, 1, n}):
                for fill in FILLS if left else FILLS[1:2]:
                    r = run_parse(project, cs[0], n, left, fill)
                    if r is None:
                        continue
                    bad = bad or (r, n, left, fill)
        for c in cs:
            if bad is None:
                rep.ok("remainder", f"{hit[1]._mod.path}:{hit[1].lineno} for {c.name}")
        if bad is not None:
            r, n, left, fill = bad
            if r == "unknown":
                rep.und("remainder", hit[1], "not analysable")
            elif r == "accepted":
                rep.viol(
                    "remainder",
                    f"{hit[0].name}.parse",
                    hit[1],
                    f"{hit[0].name}.parse accepts an entry although {left} of its "
                    f"{n} bytes (e.g. {fill!r}) were not read by the parser",
                )
            else:
                rep.viol(
                    "complete",
                    f"{hit[0].name}.parse",
                    hit[1],
                    f"{hit[0].name}.parse does not return what the parser read "
                    f"although the entry was read completely ({r})",
                )


def run_parse(project, cls, n, left, fill):
    """None if the outcome is right."""
    ip = make(project)
    h = ip.lookup_attr(cls, "_parse")
    want = mk("sym", "parsed", ty="obj")

    def hook(ip_, args, kw, st, node):
        s = ip_.attr(args[0], "stream", st)
        if n - left:
            ip_.method(s, "read", [K(n - left)], {}, st, node)
        return want

    ip.hooks[qual(h, "_parse")] = hook
    st = I.State()
    p = ip.call_cls(cls, [], {}, st, None)
    s = ip.alloc(st, I.ScriptO(((K(fill * n), n), (K(b"next entry"), 10))))
    hit = ip.lookup_attr(cls, "parse")
    try:
        v = ip.call_fn(I.Fn("parse", hit[1], hit[0]), [p, s, K(n), NONE], {}, st, hit[1])
    except I.Raised:
        return None if left else "raises"
    except (I.CaseSplit, RecursionError):
        return "unknown"
    if left:
        return "accepted" if v == want or not isinstance(v, I.UnkV) else "unknown"
    return None if v == want else "unknown" if isinstance(v, I.UnkV) else "other value"


# -- primitives


def primitives(project, ix):
    """[(Fun, class or None)] reading primitives: methods named read_* of the stream
    reader and the module-level value reader."""
    out = []
    for f in ix.funs:
        if f.parent is not None or not in_reader(f.mod):
            continue
        if not f.node.name.startswith("read_"):
            continue
        if f.cls is not None and f.cls.name == "StreamReader":
            out.append(f)
        elif f.cls is None and f.mod.name == "vfbLib.parsers.value":
            out.append(f)
    return out


SIZED = {"read_bytes": 5, "read_str": 5, "read_doubles": 2}


def run_primitive(project, f, have, size=None, fill=b"\x41"):
    """'raised' | ('value', consumed) | 'unknown'"""
    ip = make(project)
    for h in list(ip.hooks):
        if h.endswith(":read_value"):
            del ip.hooks[h]
    st = I.State()
    s = ip.alloc(st, I.ScriptO(((K((fill * (have or 1))[:have]), have),)))
    args = []
    if f.cls is not None:
        c = ip.glob(f.cls.mod.name, f.cls.name)
        p = ip.call_cls(c, [], {}, st, None)
        st.heap[p.id] = st.heap[p.id].set("stream", s)
        args.append(p)
        hit = ip.lookup_attr(c, f.node.name)
        fn = I.Fn(f.node.name, hit[1], hit[0])
    else:
        args.append(s)
        fn = I.Fn(f.node.name, f.node, None)
    if size is not None:
        args.append(K(size))
    try:
        v = ip.call_fn(fn, args, {}, st, f.node)
    except I.Raised:
        return "raised"
    except (I.CaseSplit, RecursionError):
        return "unknown"
    o = st.heap.get(s.id)
    pos = o.pos if isinstance(o, I.ScriptO) else None
    if isinstance(v, I.UnkV) or ip.notes:
        return "unknown"
    return ("value", pos)


def short_reads(project, rep, ix):
    prims = primitives(project, ix)
    if len(prims) < 8:
        raise AnchorLost("reading primitives of StreamReader")
    for f in prims:
        name = f.node.name
        if name == "read_str_all":
            continue
        if name in ("read_value", "read_str_with_len"):
            encoded_prefixes(project, rep, f)
            continue
        size = SIZED.get(name)
        if name in ("read_bytes", "read_str"):
            negative_sizes(project, rep, f)
        need = None
        if size is not None:
            need = size * (8 if name == "read_doubles" else 1)
        else:
            for w in (1, 2, 4, 8):
                if str(8 * w) in name:
                    need = w
            if name == "read_double":
                need = 8
        if need is None:
            if name.startswith("_"):
                continue
            # a new primitive: find its width
            for w in range(1, 17):
                r = run_primitive(project, f, w)
                if isinstance(r, tuple):
                    need = w
                    break
            if need is None:
                rep.und("short-read", f.node, f"width of {name} unknown")
                continue
        for k in range(need):
            r = run_primitive(project, f, k, size)
            if r == "raised":
                rep.ok("short-read", f"{name}: {k} of {need} bytes")
            elif r == "unknown":
                rep.und("short-read", f.node, f"{name} with {k} of {need} bytes")
            else:
                rep.viol(
                    "short-read",
                    f"{f.qual}",
                    f.node,
                    f"{name} returns a value although only {k} of the {need} "
                    "bytes it needs are there",
                )
                break


def negative_sizes(project, rep, f):
    for n in (-1, -5):
        r = run_primitive(project, f, 4, n)
        if r == "raised":
            rep.ok("negative-size", f"{f.qual}: {n}")
        elif r == "unknown":
            rep.und("negative-size", f.node, f"{f.qual}: {n}")
        else:
            rep.viol(
                "negative-size",
                f.qual,
                f.node,
                f"{f.qual} returns a value for the negative size {n}",
            )
            return


def encoded_prefixes(project, rep, f):
    """Cut-off encoded values: lead bytes 0xF7-0xFF without their tail."""
    name = f.node.name
    tails = [(0, b"")]
    tails += [(2, bytes([b])) for b in (0xF7, 0xFA, 0xFB, 0xFE)]
    tails += [(5, b"\xff" + b"\x01" * k) for k in range(4)]
    if name == "read_str_with_len":
        tails = [(0, b""), (3, b"\x8e" + b"A" * 2), (2, b"\xf7")]
    for need, data in tails:
        r = run_on(project, f, data)
        if r == "raised":
            rep.ok(
                "short-read", f"{f.mod.name}:{f.qual} on cut-off {data.hex() or 'nothing'}"
            )
        elif r == "unknown":
            rep.und("short-read", f.node, f"{name} on {data.hex()}")
        else:
            rep.viol(
                "short-read",
                f"{f.mod.name}:{f.qual}",
                f.node,
                f"{name} returns a value for the cut-off encoding {data.hex()}",
            )
            break


def run_on(project, f, data):
    ip = make(project)
    for h in list(ip.hooks):
        if h.endswith(":read_value"):
            del ip.hooks[h]
    st = I.State()
    s = ip.alloc(st, I.ScriptO(((K(data), len(data)),)))
    if f.cls is not None:
        c = ip.glob(f.cls.mod.name, f.cls.name)
        p = ip.call_cls(c, [], {}, st, None)
        st.heap[p.id] = st.heap[p.id].set("stream", s)
        args, fn = [p], I.Fn(f.node.name, f.node, c)
    else:
        args, fn = [s], I.Fn(f.node.name, f.node, None)
    try:
        v = ip.call_fn(fn, args, {}, st, f.node)
    except I.Raised:
        return "raised"
    except (I.CaseSplit, RecursionError):
        return "unknown"
    if isinstance(v, I.UnkV):
        return "unknown"
    return ("value", v)


# -- other sized reads


def sized_sites(project, rep, ix):
    prims = {id(f.node) for f in primitives(project, ix)}
    for f in ix.funs:
        if not in_reader(f.mod) or id(f.node) in prims:
            continue
        par = parents(f.node)
        for n in own_nodes(f.node):
            if not (is_read(n) and is_stream_read(n, f, ix)) or not (n.args or n.keywords):
                continue
            where = n
            if f.node.name == "parse":
                # the slice of the file that belongs to an entry
                continue
            up = par.get(id(n))
            if isinstance(up, ast.Call) and _callee(up) == "unpack":
                rep.ok("sized-site", where)
                continue
            if length_checked(n, up, f.node):
                rep.ok("sized-site", where)
                continue
            if counted_by_nbytes(n, f.node, par):
                rep.ok("sized-site", where)
                continue
            rep.und("sized-site", where, "length of the data read here is not checked")


def _callee(c):
    f = c.func
    return f.attr if isinstance(f, ast.Attribute) else getattr(f, "id", None)


def parents(root):
    out = {}
    for n in ast.walk(root):
        for c in ast.iter_child_nodes(n):
            out[id(c)] = n
    return out


def length_checked(n, up, fnode):
    if not isinstance(up, (ast.Assign, ast.NamedExpr)):
        return False
    tg = up.targets[0] if isinstance(up, ast.Assign) else up.target
    if not isinstance(tg, ast.Name):
        return False
    for s in ast.walk(fnode):
        if isinstance(s, (ast.If, ast.While)) and any(
            isinstance(c, ast.Call)
            and _callee(c) == "len"
            and c.args
            and isinstance(c.args[0], ast.Name)
            and c.args[0].id == tg.id
            for c in ast.walk(s.test)
        ):
            if any(isinstance(x, ast.Raise) for b in (s.body, s.orelse) for x in b):
                return True
    return False


def counted_by_nbytes(n, fnode, par):
    """`for _ in range(<nbytes> // w): read(w)` cannot read less than w."""
    if not n.args:
        return False
    w = ast.dump(n.args[0])
    x = n
    while id(x) in par:
        x = par[id(x)]
        gens = []
        if isinstance(x, ast.For):
            gens = [x.iter]
        elif isinstance(x, (ast.ListComp, ast.GeneratorExp)):
            gens = [g.iter for g in x.generators]
        for g in gens:
            for c in ast.walk(g):
                if (
                    isinstance(c, ast.BinOp)
                    and isinstance(c.op, ast.FloorDiv)
                    and ast.dump(c.right) == w
                    and any(
                        isinstance(y, ast.Attribute) and y.attr == "nbytes"
                        for y in ast.walk(c.left)
                    )
                ):
                    return True
    return False


# -- decompile re-raises


def new_entry(ip, st, E, v, key, data):
    e = ip.call_cls(E, [v], {}, st, None)
    ip.assign_attr(e, "id", key, st)
    ip.assign_attr(e, "data", data, st)
    return e


def reraise(project, rep):
    ip = make(project)
    E, H, V = classes(ip)
    node = meth(ip, E, "decompile")[1]

    def fail(ip_, args, kw, st, n):
        raise I.Raised(exc, n)

    cls = [c for c in reg_parsers(project, ip)]
    seen = {}
    for c in cls:
        hit = ip.lookup_attr(c, "parse")
        seen.setdefault(id(hit[1]), (c, hit))
    reg = {}
    for k, n, pc, cc in codec.registry(project, ip):
        if isinstance(pc, I.Cls) and t.isk(k):
            reg.setdefault((pc.mod, pc.name), k)
    d = mk("sym", "entry data", ty="bytes")
    ip.chunk_len[d] = 9
    for c, hit in seen.values():
        for exc in (
            "EOFError",
            "ValueError",
            "AssertionError",
            "KeyError",
            "struct.error",
            "UnicodeDecodeError",
            "IndexError",
            "TypeError",
            "OverflowError",
            None,
        ):
            ip.hooks[qual(hit, "parse")] = fail
            st = I.State()
            v = ip.call_cls(V, [], {}, st, None)
            key = reg[(c.mod, c.name)]
            e = new_entry(ip, st, E, v, key, d)
            out = st
            raised = False
            try:
                call(ip, st, e, "decompile")
            except I.Raised as x:
                raised = True
                out = x.st or st
            except (I.CaseSplit, RecursionError):
                rep.und("reraise", node, "not analysable")
                continue
            label = exc or "any exception"
            if not raised:
                rep.viol(
                    "reraise",
                    "swallowed",
                    node,
                    f"VfbEntry.decompile returns normally although the parser "
                    f"raised {label}",
                )
                continue
            flag = out.heap[v.id].get("any_errors")
            if flag not in (TRUE, K(1)):
                if isinstance(flag, T) and t.isk(flag):
                    rep.viol(
                        "reraise",
                        "any_errors",
                        node,
                        f"a parse error ({label}) does not set Vfb.any_errors",
                    )
                    continue
                rep.und("reraise", node, "Vfb.any_errors unknown")
                continue
            o = out.heap[e.id]
            data = o.get("_data") or o.get("data")
            if data != d:
                rep.viol(
                    "reraise",
                    "data",
                    node,
                    f"a parse error ({label}) replaces the entry's data",
                )
                continue
            rep.ok("reraise", f"{c.name}: {label}")
    # the whole file
    vnode = meth(ip, V, "decompile")[1]
    for pos in range(3):
        ip.hooks = {k: h for k, h in ip.hooks.items() if not k.endswith("Parser.parse")}

        def third(ip_, args, kw, st, n, count=[0]):
            count[0] += 1
            if count[0] == pos + 1:
                raise I.Raised("ValueError", n)
            return mk("sym", f"parsed {count[0]}", ty="obj")

        for c, hit in seen.values():
            ip.hooks[qual(hit, "parse")] = third
        hd = meth(ip, H, "decompile")
        ip.hooks[qual(hd, "decompile")] = lambda *a: NONE
        st = I.State()
        v = ip.call_cls(V, [], {}, st, None)
        key = next(iter(reg.values()))
        for i in range(3):
            e = new_entry(ip, st, E, v, key, d)
            call(ip, st, v, "add_entry", e)
        raised = False
        out = st
        try:
            call(ip, st, v, "decompile")
        except I.Raised as x:
            raised, out = True, x.st or st
        except (I.CaseSplit, RecursionError):
            rep.und("reraise", vnode, "not analysable")
            continue
        flag = out.heap[v.id].get("any_errors")
        if not raised:
            rep.viol(
                "reraise",
                "Vfb.decompile",
                vnode,
                f"Vfb.decompile returns normally although entry {pos} of 3 could "
                "not be parsed",
            )
        elif flag not in (TRUE, K(1)):
            rep.viol(
                "reraise",
                "Vfb.decompile flag",
                vnode,
                "Vfb.any_errors is not set after a parse error",
            )
        else:
            rep.ok("reraise", f"Vfb.decompile, entry {pos} fails")


# -- handlers


def handlers(project, rep, ix):
    cons = consumers(project, ix)
    for f in ix.funs:
        if f not in cons and not in_reader(f.mod):
            continue
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Try):
                continue
            body = list(n.body)
            reads = reading_calls(body, f, ix, cons)
            lookups = [x for b in body for x in ast.walk(b) if isinstance(x, ast.Subscript)]
            if not reads:
                continue
            for h in n.handlers:
                if always_raises(h.body):
                    rep.ok("handler", h)
                    continue
                names = handler_types(h)
                if names == {"EOFError"}:
                    if whole_entry_reader(f):
                        rep.ok("handler", h)
                    elif repeated(reads, n, f):
                        rep.viol(
                            "handler",
                            f"{f.qual}:EOFError",
                            h,
                            f"{f.qual}: the end of the data in the middle of a "
                            "record is taken for the end of the list",
                        )
                    else:
                        rep.ok("handler", h)
                    continue
                if f.qual.startswith("yuri") or not in_reader(f.mod):
                    continue
                rep.viol(
                    "handler",
                    f"{f.qual}:{'/'.join(sorted(names)) or 'all'}",
                    h,
                    f"{f.qual}: an error raised while reading "
                    f"({', '.join(sorted(names)) or 'any exception'}) is swallowed",
                )


def handler_types(h):
    if h.type is None:
        return set()
    ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return {x.attr if isinstance(x, ast.Attribute) else getattr(x, "id", "?") for x in ns}


def reading_calls(body, f, ix, cons):
    out = []
    for b in body:
        for n in [b, *own_nodes(ast.Module(body=[b], type_ignores=[]))]:
            if isinstance(n, ast.Call):
                if is_read(n) and is_stream_read(n, f, ix):
                    out.append(n)
                    continue
                ts = targets(ix, n, f)
                if ts and any(x in cons for x in ts):
                    out.append(n)
    seen, res = set(), []
    for n in out:
        if id(n) not in seen:
            seen.add(id(n))
            res.append(n)
    return res


def always_raises(body):
    try:
        ps = paths(body)
    except TooMany:
        return False
    return all(x == RAISE for _, x in ps)


def whole_entry_reader(f):
    """The file reader: the end of the file where an entry would begin is its end."""
    return f.mod.name == "vfbLib.vfb.vfb"


def repeated(reads, tr, f):
    """More than one read is guarded, or one inside a loop of the try body."""
    if len(reads) > 1:
        return True
    for n in ast.walk(tr):
        if isinstance(
            n,
            (ast.For, ast.While, ast.ListComp, ast.GeneratorExp, ast.SetComp, ast.DictComp),
        ):
            inner = {id(x) for x in ast.walk(n)}
            if any(id(r) in inner for r in reads):
                return True
    return False


# -- unknown tags


def const_of(e, f, ix):
    """Integer constants an expression may denote, or None."""
    if isinstance(e, ast.Constant):
        return {e.value}
    if isinstance(e, (ast.Tuple, ast.List, ast.Set)):
        out = set()
        for x in e.elts:
            c = const_of(x, f, ix)
            if c is None:
                return None
            out |= c
        return out
    if isinstance(e, ast.Attribute) and isinstance(e.value, ast.Name):
        if e.value.id == ix.self_name(f):
            k = ix.klass(f)
            for c in k.mro() if k else ():
                for s in c.node.body:
                    if isinstance(s, ast.Assign) and any(
                        isinstance(x, ast.Name) and x.id == e.attr for x in s.targets
                    ):
                        return const_of(s.value, f, ix)
        return None
    r = ix.static(e, f.mod) if isinstance(e, (ast.Name, ast.Attribute)) else None
    if r and r[0] == "expr":
        return const_of(r[2], f, ix)
    return None


def pattern_consts(p, f, ix):
    if isinstance(p, ast.MatchValue):
        return const_of(p.value, f, ix)
    if isinstance(p, ast.MatchOr):
        out = set()
        for x in p.patterns:
            c = pattern_consts(x, f, ix)
            if c is None:
                return None
            out |= c
        return out
    return None


def byte_reader(call_, f, ix):
    """read_uint8 and the like."""
    if not isinstance(call_, ast.Call):
        return False
    return _callee(call_) in ("read_uint8", "read_int8")


def unknown_tags(project, rep, ix):
    found = 0
    for f in ix.funs:
        if not f.mod.name.startswith("vfbLib.parsers"):
            continue
        for loop in own_nodes(f.node):
            if not isinstance(loop, (ast.While, ast.For)):
                continue
            for s in loop.body:
                tg = None
                if (
                    isinstance(s, ast.Assign)
                    and len(s.targets) == 1
                    and isinstance(s.targets[0], ast.Name)
                    and byte_reader(s.value, f, ix)
                ):
                    tg = s.targets[0].id
                if tg is None:
                    continue
                rest = loop.body[loop.body.index(s) + 1 :]
                ok, node, dispatch = default_paths(rest, tg, f, ix)
                if not dispatch:
                    continue
                found += 1
                if ok is True:
                    rep.ok("unknown-tag", loop)
                elif ok is None:
                    rep.und("unknown-tag", loop, "dispatch not understood")
                else:
                    rep.viol(
                        "unknown-tag",
                        f"{f.qual}",
                        node or loop,
                        f"{f.qual}: an unknown tag is neither reported by an "
                        "exception nor kept in the result",
                    )


def default_paths(stmts, tag, f, ix):
    """(True/False/None, node, has dispatch)"""
    try:
        ps = paths(stmts)
    except TooMany:
        return None, None, True
    dispatch = False
    ok, where = True, None
    aliases = {tag}
    for s in stmts:
        for n in ast.walk(s):
            if isinstance(n, ast.Assign) and len(n.targets) == 1:
                if isinstance(n.targets[0], ast.Name) and mentions(n.value, aliases):
                    aliases.add(n.targets[0].id)
    known = set()
    for ev, ex in ps:
        for e in ev:
            if e[0] == "t":
                cs = tag_test(e[1], {tag}, f, ix)
                if cs is not None:
                    dispatch = True
            elif e[0] == "m" and mentions(e[1].subject, {tag}):
                dispatch = True
    if not dispatch:
        return True, None, False
    for ev, ex in ps:
        feasible = True
        for e in ev:
            if e[0] == "t":
                r = tag_test(e[1], {tag}, f, ix)
                if r is not None and r != e[2]:
                    feasible = False
            elif e[0] == "m" and mentions(e[1].subject, {tag}):
                i = e[2]
                if i is None:
                    continue
                c = e[1].cases[i]
                if pattern_consts(c.pattern, f, ix) is not None:
                    feasible = False
                elif not isinstance(c.pattern, ast.MatchAs):
                    return None, e[1], True
            if not feasible:
                break
        if not feasible:
            continue
        if ex == RAISE:
            continue
        kept = any(
            e[0] == "s"
            and isinstance(e[1], (ast.Expr, ast.Assign, ast.AugAssign))
            and stores(e[1], aliases)
            for e in ev
        )
        if not kept:
            ok = False
            where = next((e[1] for e in reversed(ev) if e[0] == "s"), None)
    return ok, where, True


def mentions(e, names):
    return any(isinstance(n, ast.Name) and n.id in names for n in ast.walk(e))


def stores(s, names):
    """The statement puts something that depends on the tag into a container."""
    if isinstance(s, ast.Expr):
        c = s.value
        return (
            isinstance(c, ast.Call)
            and isinstance(c.func, ast.Attribute)
            and c.func.attr in ("append", "add", "extend", "update", "insert", "setdefault")
            and any(mentions(a, names) for a in c.args)
        )
    tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
    return any(
        isinstance(tg, ast.Subscript)
        and mentions(tg.slice, names)
        or isinstance(tg, (ast.Subscript, ast.Attribute))
        and mentions(s.value, names)
        for tg in tgs
    )


def tag_test(e, names, f, ix):
    """Outcome of a test for a tag that is none of the constants; None: unrelated."""
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        r = tag_test(e.operand, names, f, ix)
        return None if r is None else not r
    if isinstance(e, ast.BoolOp):
        rs = [tag_test(v, names, f, ix) for v in e.values]
        if all(r is None for r in rs):
            return None
        if isinstance(e.op, ast.Or):
            return True if True in rs else False if None not in rs else None
        return False if False in rs else True if None not in rs else None
    if isinstance(e, ast.Compare) and len(e.ops) == 1:
        a, b, op = e.left, e.comparators[0], e.ops[0]
        if isinstance(b, ast.Name) and b.id in names:
            a, b = b, a
        if isinstance(a, ast.Name) and a.id in names:
            if const_of(b, f, ix) is None:
                return None
            if isinstance(op, (ast.Eq, ast.In, ast.Is)):
                return False
            if isinstance(op, (ast.NotEq, ast.NotIn, ast.IsNot)):
                return True
    return None


# -- name tables


def tables(project, rep, ix):
    for f in ix.funs:
        if not f.mod.name.startswith("vfbLib.parsers"):
            continue
        for n in own_nodes(f.node):
            if (
                isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute)
                and n.func.attr == "get"
                and 1 <= len(n.args) <= 2
            ):
                if not constant_table(n.func.value, f, ix):
                    continue
                names = {x.id for x in ast.walk(n.args[0]) if isinstance(x, ast.Name)}
                if len(n.args) == 2 and mentions(n.args[1], names):
                    rep.ok("table", n)
                elif absent_checked(n, f):
                    rep.ok("table", n)
                else:
                    rep.viol(
                        "table",
                        f"{f.qual}:{ast.unparse(n.func.value)}",
                        n,
                        f"{f.qual}: a code missing from "
                        f"{ast.unparse(n.func.value)} is replaced by "
                        f"{ast.unparse(n.args[1]) if len(n.args) == 2 else None}",
                    )
            elif (
                isinstance(n, ast.Subscript)
                and isinstance(n.ctx, ast.Load)
                and constant_table(n.value, f, ix)
            ):
                rep.ok("table", n)


def absent_checked(n, f):
    """`x = T.get(k)` followed by a test of x."""
    for s in own_nodes(f.node):
        if (
            isinstance(s, ast.Assign)
            and s.value is n
            and isinstance(s.targets[0], ast.Name)
        ):
            x = s.targets[0].id
            return any(
                isinstance(i, ast.If) and mentions(i.test, {x}) for i in own_nodes(f.node)
            )
        if isinstance(s, ast.NamedExpr) and s.value is n:
            return True
    return False


def constant_table(e, f, ix):
    root = e
    while isinstance(root, ast.Attribute):
        root = root.value
    if not isinstance(root, ast.Name) or ix.is_local(root.id, f):
        return False
    r = ix.static(e, f.mod)
    if not r or r[0] != "expr":
        return False
    v = r[2]
    return isinstance(v, (ast.Dict, ast.DictComp)) or (
        isinstance(v, ast.Call) and _callee(v) == "dict"
    )


# -- file header


def file_header(project, rep):
    ip = make(project)
    c = ip.glob("vfbLib.parsers.header", "VfbHeaderParser")
    if not isinstance(c, I.Cls):
        raise AnchorLost("VfbHeaderParser")
    node = meth(ip, c, "parse")[1]
    good = bytes.fromhex("1a574c46" + "31" + "30" + "03" + "00") + (12).to_bytes(
        4, "little"
    )

    def run(data):
        ip = make(project)
        c = ip.glob("vfbLib.parsers.header", "VfbHeaderParser")
        st = I.State()
        s = ip.alloc(st, I.ScriptO(((K(data), len(data)),)))
        try:
            p = ip.call_cls(c, [s], {}, st, None)
            v = call(ip, st, p, "parse")
        except I.Raised:
            return "raised"
        except (I.CaseSplit, RecursionError):
            return "unknown"
        return "unknown" if isinstance(v, I.UnkV) else "value"

    r = run(good)
    if r != "value":
        if r == "unknown":
            rep.und("file-header", node, "not analysable")
        else:
            rep.viol("file-header", "refused", node, "a valid file header is refused")
        return
    for i, what in enumerate(
        ("signature",) * 4 + ("app version", "file version", "major version")
    ):
        for x in (0, 1, 0xFF, good[i] ^ 1, (good[i] + 1) & 0xFF):
            if x == good[i]:
                continue
            r = run(good[:i] + bytes([x]) + good[i + 1 :])
            if r == "raised":
                rep.ok("file-header", f"{node.name}: byte {i} ({what}) = {x}")
            elif r == "unknown":
                rep.und("file-header", node, f"byte {i}")
            else:
                rep.viol(
                    "file-header",
                    what,
                    node,
                    f"a file whose {what} has byte {i} = {x:#x} is accepted",
                )
    for n in range(len(good)):
        r = run(good[:n])
        if r == "raised":
            rep.ok("file-header", f"{node.name}: {n} bytes")
        elif r == "value":
            rep.viol(
                "file-header",
                "short",
                node,
                f"a file of {n} bytes is accepted as a VFB header",
            )
        else:
            rep.und("file-header", node, f"{n} bytes")


def cut_file(project, rep):
    def header(n):
        return bytes.fromhex("1a574c4631300300") + n.to_bytes(4, "little")

    long = b"x" * 0x10001
    entries = [
        (1038).to_bytes(2, "little") + (3).to_bytes(2, "little") + b"Abc",
        (1038 | 0x8000).to_bytes(2, "little") + len(long).to_bytes(4, "little") + long,
        (9999).to_bytes(2, "little") + (2).to_bytes(2, "little") + b"\0\1",
    ]
    whole = header(12)
    ends = {12}
    cuts = set()
    for e in entries:
        at = len(whole)
        whole += e
        ends.add(len(whole))
        cuts |= {*range(at, at + 10), len(whole) - 2, len(whole) - 1, len(whole)}
    for n in sorted(c for c in cuts if c <= len(whole)):
        s = sc.Scene(project)
        s.ip.unroll = 50
        try:
            v = s.new("vfbLib.vfb.vfb:Vfb", timing=K(False))
            stream = s.ip.alloc(s.st, I.ScriptO(((K(whole[:n]), n),)))
            s.call(v, "read_stream", stream)
            got = s.tree(s.ip.attr(v, "entries", s.st))
            r = "value" if got.kind == "list" and not s.ip.notes else "unknown"
        except I.Raised:
            r = "raised"
        except (I.CaseSplit, RecursionError):
            r = "unknown"
        where = sc.where(project, "vfbLib.vfb.vfb:Vfb.read_stream")
        if r == "unknown":
            rep.und("cut-file", where, f"{n} bytes")
        elif n in ends:
            held = sum(1 for e in sorted(ends) if e <= n) - 1
            if r == "raised" or len(got.val) == held:
                rep.ok("cut-file", f"ends after entry {held}")
            else:
                rep.viol(
                    "cut-file",
                    f"after entry {held}",
                    where,
                    f"{len(got.val)} entries are read from a file with {held}",
                )
        elif r == "raised":
            rep.ok("cut-file", f"{n} bytes")
        else:
            rep.viol(
                "cut-file",
                "cut",
                where,
                f"a file that ends within an entry (after {n} bytes) is accepted",
            )


# ------------------------------------------------------------------ C10


def termination(project, rep):
    for r, x in RULES10.items():
        rep.rule(r, x)
    rep.assume("collections taken from the file are finite; `for` over a count ends")
    ix = Index(project)
    prog = progress_functions(project, ix, rep)
    cons = consumers(project, ix)
    n = 0
    for f in ix.funs:
        for loop in own_nodes(f.node):
            if isinstance(loop, ast.While):
                n += 1
                while_loop(loop, f, ix, prog, cons, rep)
            elif isinstance(loop, ast.For):
                stable_iter(loop, f, rep)
    recursion(ix, rep)


def stable_iter(loop, f, rep):
    it = loop.iter
    while isinstance(it, ast.Call) and _callee(it) in ("enumerate", "iter", "reversed"):
        if not it.args:
            break
        it = it.args[0]
    if not isinstance(it, (ast.Name, ast.Attribute, ast.Subscript)):
        rep.ok("stable-iter", loop)
        return
    src = ast.dump(_as_load(it))
    for s in loop.body:
        for n in ast.walk(s):
            if (
                isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute)
                and n.func.attr in ("append", "extend", "insert", "add")
                and ast.dump(_as_load(n.func.value)) == src
            ):
                # growing by a bounded number and leaving is fine
                if leaves_after(n, loop):
                    continue
                rep.viol(
                    "stable-iter",
                    f"{f.qual}:{ast.unparse(it)}",
                    n,
                    f"{f.qual} extends {ast.unparse(it)} while iterating over it",
                )
                return
    rep.ok("stable-iter", loop)


def leaves_after(n, loop):
    par = parents(loop)
    x = n
    while id(x) in par:
        up = par[id(x)]
        for part in ("body", "orelse"):
            b = getattr(up, part, None)
            if isinstance(b, list) and x in b:
                rest = b[b.index(x) + 1 :]
                if any(isinstance(r, (ast.Break, ast.Return, ast.Raise)) for r in rest):
                    return True
        x = up
    return False


def _as_load(e):
    import copy

    e = copy.deepcopy(e)
    for n in ast.walk(e):
        if hasattr(n, "ctx"):
            n.ctx = ast.Load()
    return e


def progress_functions(project, ix, rep):
    """Functions that consume at least one byte or raise, whatever the data."""
    prog = set()
    for f in primitives(project, ix):
        name = f.node.name
        if name in (
            "read_bytes",
            "read_str",
            "read_doubles",
            "read_str_all",
            "read_str_with_len",
        ) or name.startswith("_"):
            continue
        r0 = run_on(project, f, b"")
        ok = r0 == "raised"
        if ok:
            for data in (b"\x8b" * 9, b"\x01" * 9, b"\xf7" * 9, b"\xff" * 9):
                r = consumed_on(project, f, data)
                if r == "raised":
                    continue
                if r is None or r < 1:
                    ok = False
        if ok:
            prog.add(f)
    if len(prog) < 5:
        # every loop would be reported: say which primitive lost the property
        for f in primitives(project, ix):
            if f.node.name in ("read_uint8", "read_value") and f not in prog:
                rep.viol(
                    "progress",
                    f"{f.mod.name}:{f.qual}",
                    f.node,
                    f"{f.qual} does not raise at the end of the data",
                )
    changed = True
    while changed:
        changed = False
        for f in ix.funs:
            if f in prog:
                continue
            if not in_reader(f.mod):
                continue
            if certain_progress(f, ix, prog):
                prog.add(f)
                changed = True
    return prog


def consumed_on(project, f, data):
    ip = make(project)
    for h in list(ip.hooks):
        if h.endswith(":read_value"):
            del ip.hooks[h]
    st = I.State()
    s = ip.alloc(st, I.ScriptO(((K(data), len(data)),)))
    if f.cls is not None:
        c = ip.glob(f.cls.mod.name, f.cls.name)
        p = ip.call_cls(c, [], {}, st, None)
        st.heap[p.id] = st.heap[p.id].set("stream", s)
        args, fn = [p], I.Fn(f.node.name, f.node, c)
    else:
        args, fn = [s], I.Fn(f.node.name, f.node, None)
    try:
        ip.call_fn(fn, args, {}, st, f.node)
    except I.Raised:
        return "raised"
    except (I.CaseSplit, RecursionError):
        return None
    o = st.heap.get(s.id)
    return o.pos if isinstance(o, I.ScriptO) else None


def certain_progress(f, ix, prog):
    try:
        ps = paths(f.node.body)
    except TooMany:
        return False
    rel = [p for p in ps if p[1] in (NEXT, RET)]
    return bool(rel) and all(path_reads(ev, f, ix, prog) for ev, _ in rel)


def path_reads(ev, f, ix, prog):
    for e in ev:
        if e[0] == "x":
            continue
        for x in event_exprs(e):
            if isinstance(x, ast.Call):
                ts = targets(ix, x, f)
                if ts and all(t_ in prog for t_ in ts):
                    return True
    return False


def while_loop(loop, f, ix, prog, cons, rep):
    forever = isinstance(loop.test, ast.Constant) and bool(loop.test.value)
    reads = reading_calls(loop.body, f, ix, cons)
    try:
        ps = paths(loop.body)
    except TooMany:
        rep.und("progress", loop, "too many paths")
        return
    back = [(ev, x) for ev, x in ps if x in (NEXT, CONT)]
    if not back:
        rep.ok("ranking", loop)
        return
    if not forever and any(
        isinstance(x, ast.Call)
        and (ts := targets(ix, x, f))
        and all(t_ in prog for t_ in ts)
        for x in certain(loop.test)
    ):
        rep.ok("progress", loop)
        return
    bad = [ev for ev, _ in back if not path_reads(ev, f, ix, prog)]
    if not bad:
        rep.ok("progress", loop)
        return
    r = ranking(loop, back, f)
    if r is True:
        rep.ok("ranking", loop)
        return
    if r is not None:
        rep.viol("ranking", f"{f.qual}", loop, f"{f.qual}: {r}")
        return
    if forever and reads:
        bad = [ev for ev in bad if not opaque_call(ev, f, ix)]
        if not bad:
            rep.und("progress", loop, "a call of a computed function may read")
            return
        node = None
        for e in bad[0]:
            node = (
                e[1] if not isinstance(e[1], ast.AST) or hasattr(e[1], "lineno") else node
            )
        steps = [f"line {getattr(e[1], 'lineno', '?')}" for e in bad[0]]
        rep.viol(
            "progress",
            f"{f.qual}",
            loop,
            f"{f.qual}: a way back to the head of the loop reads nothing that "
            "raises at the end of the data",
            steps,
        )
        return
    rep.und("ranking", loop, "no measure recognised")


def opaque_call(ev, f, ix):
    """A call on the path whose callee is computed (table, parameter, local name)."""
    for e in ev:
        if e[0] == "x":
            continue
        for x in event_exprs(e):
            if not isinstance(x, ast.Call):
                continue
            if isinstance(x.func, ast.Attribute):
                v = x.func.value
                if (
                    ix.targets(x, f) is None
                    and isinstance(v, ast.Name)
                    and ("stream" in v.id or v.id == ix.self_name(f))
                    and x.func.attr not in ("read", "seek", "tell", "append")
                ):
                    return True
                continue
            if not isinstance(x.func, ast.Name) or (
                ix.is_local(x.func.id, f) and ix.targets(x, f) is None
            ):
                return True
    return False


def ranking(loop, back, f):
    """True: ends; None: unknown; a text: certainly endless for some value."""
    t_ = loop.test
    names = {n.id for n in ast.walk(t_) if isinstance(n, ast.Name)}
    # shrinking collection: while xs ...: xs.pop()
    for x in names:
        if all(any(pops(e, x) for e in ev) for ev, _ in back):
            if tests_truth(t_, x):
                return True
    # counters
    for x in names:
        steps = [step_of(ev, x) for ev, _ in back]
        if any(s is None for s in steps):
            continue
        kinds = {k for k, _ in steps}
        if kinds <= {"sub"} and bounded_below(t_, x):
            return True
        if kinds <= {"add"} and bounded_above(t_, x):
            return True
        if kinds <= {"add"} and membership(t_, x, loop):
            return True
        if kinds <= {"shr", "div"}:
            if bounded_below(t_, x):
                return True
            if isinstance(t_, ast.Name) or not bounded_below(t_, x):
                if guarded_nonneg(loop, x, f):
                    return True
                return (
                    f"the loop never ends when {x} is negative, and nothing before "
                    "it excludes that"
                )
    if membership_rebuilt(loop, back):
        return True
    return None


def pops(e, x):
    if e[0] != "s":
        return False
    for n in ast.walk(e[1]):
        if (
            isinstance(n, ast.Call)
            and isinstance(n.func, ast.Attribute)
            and n.func.attr in ("pop", "popleft", "popitem")
            and isinstance(n.func.value, ast.Name)
            and n.func.value.id == x
        ):
            return True
        if isinstance(n, ast.Delete):
            for tg in n.targets:
                if (
                    isinstance(tg, ast.Subscript)
                    and isinstance(tg.value, ast.Name)
                    and (tg.value.id == x)
                ):
                    return True
        if (
            isinstance(n, ast.Assign)
            and isinstance(n.targets[0], ast.Name)
            and (n.targets[0].id == x)
        ):
            v = n.value
            if (
                isinstance(v, ast.Subscript)
                and isinstance(v.slice, ast.Slice)
                and isinstance(v.value, ast.Name)
                and v.value.id == x
            ):
                return True
    return False


def tests_truth(t_, x):
    if isinstance(t_, ast.Name):
        return t_.id == x
    if isinstance(t_, ast.BoolOp) and isinstance(t_.op, ast.And):
        return any(tests_truth(v, x) for v in t_.values)
    if isinstance(t_, ast.Call) and _callee(t_) in ("len", "bool"):
        return any(isinstance(a, ast.Name) and a.id == x for a in t_.args)
    if isinstance(t_, ast.Compare):
        return tests_truth(t_.left, x)
    return False


def step_of(ev, x):
    """('add'|'sub'|'shr'|'div', k) net effect on x along the path, None: unknown/none."""
    out = None
    for e in ev:
        if e[0] not in ("s",):
            continue
        s = e[1]
        st = None
        if (
            isinstance(s, ast.AugAssign)
            and isinstance(s.target, ast.Name)
            and s.target.id == x
        ):
            st = op_step(s.op, s.value)
        elif isinstance(s, (ast.Assign, ast.AnnAssign)):
            tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
            if any(isinstance(tg, ast.Name) and tg.id == x for tg in tgs):
                v = s.value
                if (
                    isinstance(v, ast.BinOp)
                    and isinstance(v.left, ast.Name)
                    and v.left.id == x
                ):
                    st = op_step(v.op, v.right)
                else:
                    return None
                if st is None:
                    return None
        if st is not None:
            if out is not None and out[0] != st[0]:
                return None
            out = st
    return out


def op_step(op, v):
    if not (isinstance(v, ast.Constant) and isinstance(v.value, int)):
        # a non-constant step: only trusted next to a constant one of the same kind
        return None
    k = v.value
    if isinstance(op, ast.Add) and k > 0 or isinstance(op, ast.Sub) and k < 0:
        return ("add", abs(k))
    if isinstance(op, ast.Sub) and k > 0 or isinstance(op, ast.Add) and k < 0:
        return ("sub", abs(k))
    if isinstance(op, ast.RShift) and k > 0:
        return ("shr", k)
    if isinstance(op, ast.FloorDiv) and k > 1:
        return ("div", k)
    return None


def _cmp(t_, x):
    """(operator type, other side) with x on the left."""
    flip = {ast.Lt: ast.Gt, ast.Gt: ast.Lt, ast.LtE: ast.GtE, ast.GtE: ast.LtE}
    if isinstance(t_, ast.BoolOp) and isinstance(t_.op, ast.And):
        for v in t_.values:
            r = _cmp(v, x)
            if r:
                return r
    if isinstance(t_, ast.Compare) and len(t_.ops) == 1:
        a, b = t_.left, t_.comparators[0]
        if isinstance(a, ast.Name) and a.id == x:
            return type(t_.ops[0]), b
        if isinstance(b, ast.Name) and b.id == x:
            return flip.get(type(t_.ops[0]), type(t_.ops[0])), a
    return None


def bounded_below(t_, x):
    r = _cmp(t_, x)
    return bool(r and r[0] in (ast.Gt, ast.GtE) and not mentions(r[1], {x}))


def bounded_above(t_, x):
    r = _cmp(t_, x)
    return bool(r and r[0] in (ast.Lt, ast.LtE) and not mentions(r[1], {x}))


def membership(t_, x, loop):
    """`while f(x) in C` with C unchanged in the loop."""
    if not (
        isinstance(t_, ast.Compare) and len(t_.ops) == 1 and isinstance(t_.ops[0], ast.In)
    ):
        return False
    if not mentions(t_.left, {x}):
        return False
    c = ast.dump(_as_load(t_.comparators[0]))
    return not grows(loop, c)


def grows(loop, dumped):
    for s in loop.body:
        for n in ast.walk(s):
            if (
                isinstance(n, ast.Call)
                and isinstance(n.func, ast.Attribute)
                and n.func.attr
                in ("add", "append", "update", "setdefault", "extend", "insert")
                and ast.dump(_as_load(n.func.value)) == dumped
            ):
                return True
            if isinstance(n, (ast.Assign, ast.AugAssign)):
                tgs = n.targets if isinstance(n, ast.Assign) else [n.target]
                for tg in tgs:
                    base = tg.value if isinstance(tg, ast.Subscript) else tg
                    if ast.dump(_as_load(base)) == dumped:
                        return True
    return False


def membership_rebuilt(loop, back):
    """`while name in C: i += 1; name = f(i)`."""
    t_ = loop.test
    if not (
        isinstance(t_, ast.Compare)
        and len(t_.ops) == 1
        and isinstance(t_.ops[0], ast.In)
        and isinstance(t_.left, ast.Name)
    ):
        return False
    name = t_.left.id
    if grows(loop, ast.dump(_as_load(t_.comparators[0]))):
        return False
    for ev, _ in back:
        ok = False
        for e in ev:
            if (
                e[0] == "s"
                and isinstance(e[1], ast.Assign)
                and any(isinstance(tg, ast.Name) and tg.id == name for tg in e[1].targets)
            ):
                used = {n.id for n in ast.walk(e[1].value) if isinstance(n, ast.Name)}
                for u in used - {name}:
                    s = step_of(ev, u)
                    if s is not None and s[0] == "add":
                        ok = True
        if not ok:
            return False
    return True


def guarded_nonneg(loop, x, f):
    """Before the loop x is tested for negative values (raise/return) or made
    non-negative."""
    for s in own_nodes(f.node):
        if getattr(s, "lineno", 0) >= loop.lineno:
            continue
        if isinstance(s, ast.If):
            r = _cmp(s.test, x)
            if (
                r
                and r[0] in (ast.Lt, ast.LtE)
                and isinstance(r[1], ast.Constant)
                and (r[1].value in (0, -1))
            ):
                try:
                    if all(e in (RAISE, RET) for _, e in paths(s.body)):
                        return True
                except TooMany:
                    pass
                if any(
                    isinstance(b, (ast.Assign, ast.AugAssign))
                    and mentions(
                        b.targets[0] if isinstance(b, ast.Assign) else b.target, {x}
                    )
                    for b in s.body
                ):
                    return True
        if isinstance(s, ast.Assert):
            r = _cmp(s.test, x)
            if r and r[0] in (ast.GtE, ast.Gt):
                return True
        if isinstance(s, (ast.Assign, ast.AugAssign)):
            tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
            if isinstance(tg, ast.Name) and tg.id == x:
                v = s.value
                if (
                    isinstance(v, ast.BinOp)
                    and isinstance(v.op, ast.BitAnd)
                    or isinstance(v, ast.Call)
                    and _callee(v) in ("abs", "len")
                    or isinstance(s, ast.AugAssign)
                    and (isinstance(s.op, ast.BitAnd))
                ):
                    return True
    return False


def recursion(ix, rep):
    """Direct self-calls; the argument must shrink structurally."""
    for f in ix.funs:
        selfcalls = []
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            ts = targets(ix, n, f)
            if ts and f in ts and len(ts) == 1:
                selfcalls.append(n)
            elif (
                ts
                and f in ts
                and isinstance(n.func, ast.Attribute)
                and isinstance(n.func.value, ast.Name)
                and n.func.value.id == ix.self_name(f)
                and f.cls is not None
            ):
                selfcalls.append(n)
        for n in selfcalls:
            if any(
                isinstance(a, (ast.Subscript, ast.Attribute, ast.Name, ast.BinOp))
                for a in list(n.args) + [k.value for k in n.keywords]
            ):
                rep.und("recursion", n, f"{f.qual} calls itself")
            else:
                # other receivers (delegation) are no recursion
                if isinstance(n.func, ast.Attribute) and not (
                    isinstance(n.func.value, ast.Name)
                    and n.func.value.id == ix.self_name(f)
                ):
                    rep.ok("recursion", n)
                else:
                    rep.viol("recursion", f.qual, n, f"{f.qual} calls itself unchanged")
    rep.ok("recursion", f"{len(ix.funs)} functions examined for self-calls")


# ------------------------------------------------------------------ C11

OPENERS = {"builtins.open", "io.open", "codecs.open", "gzip.open", "bz2.open"}
SERIALIZERS = {
    "json.dump",
    "json.dumps",
    "orjson.dumps",
    "yaml.dump",
    "yaml.safe_dump",
    "tomli_w.dump",
    "tomli_w.dumps",
    "pickle.dump",
    "pickle.dumps",
    "plistlib.dump",
    "plistlib.dumps",
    "struct.pack",
    "csv.writer",
}
HARMLESS = {
    "len",
    "str",
    "repr",
    "print",
    "isinstance",
    "bytes",
    "bytearray",
    "range",
    "enumerate",
    "zip",
    "iter",
    "list",
    "tuple",
    "sorted",
    "reversed",
    "memoryview",
    "min",
    "max",
    "bool",
    "hash",
    "id",
    "type",
    "super",
    "cast",
    "time",
}
HARMLESS_M = {
    "getvalue",
    "getbuffer",
    "join",
    "hex",
    "tell",
    "flush",
    "close",
    "items",
    "values",
    "keys",
    "append",
    "extend",
    "debug",
    "info",
    "warning",
    "error",
    "exception",
    "splitlines",
    "rstrip",
    "strip",
    "lstrip",
    "copy",
    "get",
    "fileno",
    "isatty",
}
HANDLE_M = {
    "write",
    "writelines",
    "flush",
    "close",
    "fileno",
    "seek",
    "tell",
    "truncate",
    "__enter__",
    "__exit__",
}
LIB_WRITERS = {"save", "json_dump", "write_text", "write_bytes", "saveXML", "write"}


def open_mode(n, f, ix):
    """(path expression, mode text or None) of a call that opens a file, else None."""
    d = ix.dotted(n, f)
    if d in OPENERS:
        path = n.args[0] if n.args else kw_of(n, "file") or kw_of(n, "filename")
        m = n.args[1] if len(n.args) > 1 else kw_of(n, "mode")
    elif isinstance(n.func, ast.Attribute) and n.func.attr == "open" and d is None:
        path, m = n.func.value, n.args[0] if n.args else kw_of(n, "mode")
    else:
        return None
    if m is None:
        return path, "r"
    v = const_text(m, f, ix)
    return path, v


def kw_of(n, name):
    for k in n.keywords:
        if k.arg == name:
            return k.value
    return None


def const_text(e, f, ix):
    if isinstance(e, ast.Constant):
        return e.value if isinstance(e.value, (str, bytes)) else None
    if isinstance(e, ast.Name) and not ix.is_local(e.id, f):
        r = ix.static(e, f.mod)
        if r and r[0] == "expr" and isinstance(r[2], ast.Constant):
            return r[2].value
    return None


def atomic(project, rep):
    for r, x in RULES11.items():
        rep.rule(r, x)
    rep.assume("writing finished bytes fails only when the disk does")
    rep.assume(
        "ufoLib2, fontTools.designspaceLib and ufonormalizer write their files "
        "themselves and are not examined"
    )
    ix = Index(project)
    opened = 0
    for f in ix.funs:
        par = parents(f.node)
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            m = open_mode(n, f, ix)
            if m is None:
                continue
            opened += 1
            path, mode = m
            if mode is None:
                rep.und("built-first", n, "mode of open() not constant")
                continue
            if not set("wax+") & set(mode):
                rep.ok("input-read-only", n)
                continue
            if "x" not in mode:
                check_after_open(n, f, ix, par, rep)
    if not opened:
        raise AnchorLost("calls that open files")
    input_paths(project, rep, ix)


def check_after_open(n, f, ix, par, rep):
    up = par.get(id(n))
    handle, rest, extra = None, None, []
    if isinstance(up, ast.withitem):
        w = par[id(up)]
        handle = up.optional_vars.id if isinstance(up.optional_vars, ast.Name) else None
        i = w.items.index(up)
        extra = [x.context_expr for x in w.items[i + 1 :]]
        rest = w.body
    elif isinstance(up, ast.Assign) and isinstance(up.targets[0], ast.Name):
        handle = up.targets[0].id
        blk = block_of(up, par)
        rest = blk[blk.index(up) + 1 :] if blk else None
    elif isinstance(up, ast.Attribute) and isinstance(par.get(id(up)), ast.Call):
        c = par[id(up)]
        extra = list(c.args)
        rest, handle = [], "<open>"
    if handle is None or rest is None:
        rep.und("built-first", n, "use of the open file not recognised")
        return
    if any(
        isinstance(x, ast.Call)
        and _callee(x) in ("replace", "rename", "move", "NamedTemporaryFile", "mkstemp")
        and not isinstance(getattr(x.func, "value", None), ast.Constant)
        and len(x.args) < 2 + (_callee(x) in ("replace", "rename", "move"))
        for x in own_nodes(f.node)
    ):
        rep.und("built-first", n, "written through a temporary file")
        return
    out = []
    for e in extra:
        classify(e, {handle}, f, ix, out, 0)
    last = -1
    for i, s in enumerate(rest):
        if any(isinstance(x, ast.Name) and x.id == handle for x in ast.walk(s)):
            last = i
    for s in rest[: last + 1]:
        classify(s, {handle}, f, ix, out, 0)
    bad = [o for o in out if o[0] == "bad"]
    if bad:
        _, node, why = bad[0]
        rep.viol(
            "built-first",
            f"{f.qual}",
            node,
            f"{f.qual} opens its output file first and then {why}; when that fails, "
            "the previous file is already lost",
            [f"open: line {n.lineno}", f"then: line {getattr(node, 'lineno', '?')}"],
        )
    elif out:
        rep.und("built-first", n, "; ".join(sorted({o[2] for o in out})))
    else:
        rep.ok("built-first", n)


def block_of(s, par):
    up = par.get(id(s))
    for part in ("body", "orelse", "finalbody"):
        b = getattr(up, part, None)
        if isinstance(b, list) and s in b:
            return b
    return None


def classify(root, handles, f, ix, out, depth):
    todo = [root]
    while todo:
        n = todo.pop()
        if isinstance(n, FUNCS + (ast.Lambda, ast.ClassDef)):
            continue
        todo.extend(ast.iter_child_nodes(n))
        if isinstance(n, ast.Raise):
            out.append(("bad", n, "raises an exception of its own"))
        elif isinstance(n, ast.Assert):
            if not (isinstance(n.test, ast.Call) and _callee(n.test) == "isinstance"):
                out.append(("und", n, "an assertion"))
        elif isinstance(n, ast.Call):
            classify_call(n, handles, f, ix, out, depth)


def classify_call(n, handles, f, ix, out, depth):
    d = ix.dotted(n, f)
    fn = n.func
    if (
        isinstance(fn, ast.Attribute)
        and isinstance(fn.value, ast.Name)
        and fn.value.id in handles
    ):
        if fn.attr not in HANDLE_M:
            out.append(("und", n, f"method {fn.attr} of the file"))
        return
    m = open_mode(n, f, ix)
    if m is not None:
        if m[1] is not None and not set("wax+") & set(m[1]):
            out.append(("bad", n, "opens and reads another file"))
        return
    if d in SERIALIZERS:
        out.append(("bad", n, f"serialises the data with {d}"))
        return
    ts = targets(ix, n, f)
    if ts:
        for g in ts:
            if depth >= 4:
                out.append(("und", n, f"call of {g.qual}"))
                continue
            hs = handle_params(n, g, handles)
            if hs:
                sub = []
                for s in g.node.body:
                    classify(s, hs, g, ix, sub, depth + 1)
                for o in sub:
                    if o[0] == "bad":
                        out.append(("bad", n, f"calls {g.qual}, which {o[2]}"))
                        break
                else:
                    out.extend(sub[:1])
            else:
                why = may_fail(g, ix, set())
                if why:
                    out.append(("bad", n, f"calls {g.qual}, which {why}"))
                else:
                    out.append(("und", n, f"call of {g.qual}"))
        return
    name = _callee(n)
    if isinstance(fn, ast.Name) and name in HARMLESS:
        return
    if isinstance(fn, ast.Attribute) and name in HARMLESS_M:
        return
    if isinstance(fn, ast.Attribute) and name == "encode":
        a = n.args[0] if n.args else None
        v = const_text(a, f, ix) if a is not None else "utf-8"
        if isinstance(v, str) and v.lower().replace("_", "-") in ("utf-8", "utf8"):
            return
    out.append(("und", n, f"call of {ast.unparse(fn)}"))


def handle_params(n, g, handles):
    a = g.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if g.cls is not None and isinstance(n.func, ast.Attribute):
        ps = ps[1:]
    out = set()
    for i, x in enumerate(n.args):
        if isinstance(x, ast.Name) and x.id in handles and i < len(ps):
            out.add(ps[i])
    for k in n.keywords:
        if isinstance(k.value, ast.Name) and k.value.id in handles and k.arg:
            out.add(k.arg)
    return out


def may_fail(g, ix, seen):
    """Why a function of the package may raise on user data, or None."""
    if g in seen:
        return None
    seen.add(g)
    for n in own_nodes(g.node):
        if isinstance(n, ast.Raise):
            return f"may raise (line {n.lineno} of {g.qual})"
        if isinstance(n, ast.Call):
            d = ix.dotted(n, g)
            if d in SERIALIZERS:
                return f"serialises data ({d} in {g.qual})"
            for h in targets(ix, n, g) or []:
                why = may_fail(h, ix, seen)
                if why:
                    return why
    return None


# -- the input file is only read


def input_paths(project, rep, ix):
    """Functions that write to a path parameter, and what reaches that parameter."""
    writes = {}  # Fun -> {param}
    sites = []  # (call, path expr, fun)
    for f in ix.funs:
        for n in own_nodes(f.node):
            if not isinstance(n, ast.Call):
                continue
            m = open_mode(n, f, ix)
            if m is not None and m[1] and set("wax+") & set(m[1]):
                sites.append((n, m[0], f))
            elif (
                m is None and isinstance(n.func, ast.Attribute) and ix.dotted(n, f) is None
            ):
                if n.func.attr in ("write_text", "write_bytes", "unlink", "touch") and (
                    targets(ix, n, f) is None
                ):
                    sites.append((n, n.func.value, f))
                elif (
                    n.func.attr in ("save", "json_dump")
                    and n.args
                    and not targets(ix, n, f)
                ):
                    sites.append((n, n.args[0], f))
    changed = True
    while changed:
        changed = False
        for n, e, f in sites:
            a = f.node.args
            ps = {x.arg for x in a.posonlyargs + a.args + a.kwonlyargs}
            used = {x.id for x in ast.walk(e) if isinstance(x, ast.Name)} & ps
            direct = path_root(e, f)
            for p in used:
                if direct == p and p not in writes.setdefault(f, set()):
                    writes[f].add(p)
                    changed = True
        for f in ix.funs:
            for n in own_nodes(f.node):
                if not isinstance(n, ast.Call):
                    continue
                ts = ix.targets(n, f)
                for g in ts or []:
                    for p in writes.get(g, ()):
                        e = arg_of(n, g, p)
                        if e is not None and (n, e, f) not in sites:
                            sites.append((n, e, f))
                            changed = True
    if not sites:
        raise AnchorLost("places that write files")
    for n, e, f in sites:
        bad = input_expr(e, f, ix, 0)
        if bad:
            rep.viol(
                "input-read-only",
                f"{f.qual}",
                n,
                f"{f.qual} writes to {ast.unparse(e)}, the path of its input file",
            )
        else:
            rep.ok("input-read-only", n)


def path_root(e, f):
    """Name of the variable an expression passes through unchanged."""
    while True:
        if isinstance(e, ast.Call) and _callee(e) in (
            "str",
            "Path",
            "fspath",
            "abspath",
            "resolve",
            "absolute",
        ):
            if isinstance(e.func, ast.Attribute) and not e.args:
                e = e.func.value
            elif e.args:
                e = e.args[0]
            else:
                return None
            continue
        break
    return e.id if isinstance(e, ast.Name) else None


def arg_of(n, g, p):
    a = g.node.args
    ps = [x.arg for x in a.posonlyargs + a.args]
    if g.cls is not None and isinstance(n.func, ast.Attribute):
        ps = ps[1:]
    elif g.node.name == "__init__":
        ps = ps[1:]
    if p in ps and ps.index(p) < len(n.args):
        x = n.args[ps.index(p)]
        return None if isinstance(x, ast.Starred) else x
    return kw_of(n, p)


def input_expr(e, f, ix, depth):
    """The expression is the input path itself."""
    while isinstance(e, ast.Call) and _callee(e) in (
        "str",
        "Path",
        "fspath",
        "resolve",
        "absolute",
        "expanduser",
    ):
        if isinstance(e.func, ast.Attribute) and not e.args:
            e = e.func.value
        elif e.args:
            e = e.args[0]
        else:
            return False
    if isinstance(e, ast.Subscript):
        e = e.value
    if isinstance(e, ast.Attribute) and e.attr in ("vfb_path", "inputpath"):
        return True
    if isinstance(e, ast.Name) and depth < 5:
        vals = []
        for s in own_nodes(f.node):
            if isinstance(s, (ast.Assign, ast.AnnAssign)):
                tgs = s.targets if isinstance(s, ast.Assign) else [s.target]
                if any(isinstance(tg, ast.Name) and tg.id == e.id for tg in tgs):
                    vals.append(s.value)
        if len(vals) == 1 and vals[0] is not None:
            return input_expr(vals[0], f, ix, depth + 1)
    return False


# ------------------------------------------------------------------ C12

STRUCT = {"pack", "unpack", "calcsize", "pack_into", "unpack_from", "iter_unpack", "Struct"}
BYTE_CODES = set("xcbB?sp0123456789 ")


def byteorder(project, rep):
    for r, x in RULES12.items():
        rep.rule(r, x)
    ix = Index(project)
    for f in ix.funs + [Modcode(m) for m in project.modules.values()]:
        for n in own_nodes(f.node):
            if isinstance(n, ast.Call):
                d = ix.dotted(n, f)
                if d and d.startswith("struct.") and d[7:] in STRUCT:
                    struct_site(n, f, ix, rep)
                elif d and (
                    d.startswith("array.") or d in ("numpy.frombuffer", "numpy.fromfile")
                ):
                    native_array(n, f, ix, rep)
                elif (
                    isinstance(n.func, ast.Attribute)
                    and n.func.attr in ("from_bytes", "to_bytes")
                    and not ix.methods.get(n.func.attr)
                ):
                    int_site(n, f, ix, rep)
                elif (
                    isinstance(n.func, ast.Attribute)
                    and n.func.attr == "cast"
                    and any(
                        isinstance(x, ast.Call) and _callee(x) == "memoryview"
                        for x in ast.walk(n.func.value)
                    )
                ):
                    rep.viol(
                        "no-native",
                        f"{f.qual}:cast",
                        n,
                        f"{f.qual} reinterprets bytes in the byte order of the machine",
                    )
    wire_orders(project, rep)
    value_orders(project, rep, ix)


class Modcode:
    """The statements of a module outside functions, as a function-like object."""

    parent = cls = None

    def __init__(self, mod):
        self.mod, self.qual, self.local = mod, "<module>", {}
        self.node = ast.FunctionDef(
            name="<module>",
            args=ast.arguments(
                posonlyargs=[], args=[], kwonlyargs=[], kw_defaults=[], defaults=[]
            ),
            body=[s for s in mod.tree.body if not isinstance(s, FUNCS)],
            decorator_list=[],
        )
        body = []
        for s in self.node.body:
            body.extend(
                [x for x in s.body if not isinstance(x, FUNCS)]
                if isinstance(s, ast.ClassDef)
                else [s]
            )
        self.node.body = body
        self.node._locals = set()


def struct_site(n, f, ix, rep):
    e = n.args[0] if n.args else kw_of(n, "format")
    fmts = list(formats(e, f, ix, 0, ())) if e is not None else [None]
    for x in fmts:
        if x is None:
            rep.und("struct-order", n, "format not recognised")
            return
    for text, whole in fmts:
        if text[:1] in ("<", ">", "!"):
            continue
        if not text and not whole:
            rep.und("struct-order", n, "start of the format not known")
            return
        if whole and set(text) <= BYTE_CODES:
            continue
        rep.viol(
            "struct-order",
            f"{f.qual}:{text}",
            n,
            f"{f.qual}: the format {text!r}{'' if whole else '...'} uses the byte order "
            "(and alignment) of the machine",
        )
        return
    rep.ok("struct-order", n)


def formats(e, f, ix, depth, seen):
    """(leading text, is it the whole format) of each possible value; None: unknown."""
    if depth > 8 or e is None:
        yield None
        return
    if isinstance(e, ast.Constant):
        v = e.value
        if isinstance(v, bytes):
            v = v.decode("latin-1")
        yield (v, True) if isinstance(v, str) else None
    elif isinstance(e, ast.JoinedStr):
        text = ""
        for p in e.values:
            if isinstance(p, ast.Constant):
                text += p.value
                continue
            if text:
                yield (text, False)
                return
            sub = list(formats(p.value, f, ix, depth + 1, seen))
            if len(sub) == 1 and sub[0] and sub[0][1]:
                text += sub[0][0]
                continue
            for s in sub:
                yield (s[0], False) if s and s[0] else None
            return
        yield (text, True)
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Add):
        for a in formats(e.left, f, ix, depth + 1, seen):
            if a is None:
                yield None
            elif not a[1] or a[0][:1] in ("<", ">", "!"):
                yield (a[0], False)
            else:
                for b in formats(e.right, f, ix, depth + 1, seen):
                    yield None if b is None else (a[0] + b[0], b[1])
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mult):
        for x, y in ((e.left, e.right), (e.right, e.left)):
            if isinstance(x, ast.Constant) and isinstance(x.value, str):
                yield (x.value, set(x.value) <= BYTE_CODES)
                return
        yield from formats(e.left, f, ix, depth + 1, seen)
    elif isinstance(e, ast.BinOp) and isinstance(e.op, ast.Mod):
        for a in formats(e.left, f, ix, depth + 1, seen):
            if a and not a[0].startswith("%"):
                yield (a[0].partition("%")[0], False)
            else:
                yield None
    elif isinstance(e, ast.IfExp):
        yield from formats(e.body, f, ix, depth + 1, seen)
        yield from formats(e.orelse, f, ix, depth + 1, seen)
    elif (
        isinstance(e, ast.Call)
        and isinstance(e.func, ast.Attribute)
        and e.func.attr in ("format", "join")
    ):
        for a in formats(e.func.value, f, ix, depth + 1, seen):
            if a and a[0] and not a[0].startswith("{") and e.func.attr == "format":
                yield (a[0].partition("{")[0], False)
            else:
                yield None
    elif isinstance(e, ast.Subscript):
        yield from table_values(e.value, f, ix, depth, seen)
    elif (
        isinstance(e, ast.Attribute)
        and isinstance(e.value, ast.Name)
        and (e.value.id == ix.self_name(f) or e.value.id == "cls")
    ):
        c = ix.klass(f)
        vals = []
        for k in [*c.mro(), *c.below()] if c else []:
            for s in k.node.body:
                tgs = (
                    s.targets
                    if isinstance(s, ast.Assign)
                    else ([s.target] if isinstance(s, ast.AnnAssign) and s.value else [])
                )
                if any(isinstance(tg, ast.Name) and tg.id == e.attr for tg in tgs):
                    vals.append((s.value, k.mod))
        if not vals:
            yield None
        for v, m in vals:
            if isinstance(v, ast.Call) and _callee(v) == "Struct" and v.args:
                v = v.args[0]
            yield from formats(v, Modcode(m), ix, depth + 1, seen)
    elif isinstance(e, ast.Name):
        if ix.is_local(e.id, f):
            yield from local_formats(e, f, ix, depth, seen)
        else:
            r = ix.static(e, f.mod)
            if r and r[0] == "expr":
                yield from formats(r[2], Modcode(r[1]), ix, depth + 1, seen)
            else:
                yield None
    else:
        yield None


def table_values(e, f, ix, depth, seen):
    r = ix.static(e, f.mod) if not ix._shadowed(e, f) else None
    v = r[2] if r and r[0] == "expr" else e
    m = r[1] if r and r[0] == "expr" else None
    g = Modcode(m) if m is not None else f
    if isinstance(v, ast.Dict):
        for x in v.values:
            yield from formats(x, g, ix, depth + 1, seen)
    elif isinstance(v, (ast.Tuple, ast.List)):
        for x in v.elts:
            yield from formats(x, g, ix, depth + 1, seen)
    elif isinstance(v, ast.Name) and ix.is_local(v.id, f):
        vals = assigned(v.id, f)
        if vals and all(isinstance(x, (ast.Dict, ast.Tuple, ast.List)) for x in vals):
            for x in vals:
                yield from table_values(x, f, ix, depth + 1, seen)
        else:
            yield None
    else:
        yield None


def assigned(name, f):
    out = []
    for s in own_nodes(f.node):
        tgs = (
            s.targets
            if isinstance(s, ast.Assign)
            else ([s.target] if isinstance(s, (ast.AnnAssign, ast.NamedExpr)) else [])
        )
        for tg in tgs:
            if isinstance(tg, ast.Name) and tg.id == name and s.value is not None:
                out.append(s.value)
            elif isinstance(tg, ast.Tuple) and any(
                isinstance(x, ast.Name) and x.id == name for x in tg.elts
            ):
                i = [isinstance(x, ast.Name) and x.id == name for x in tg.elts].index(True)
                v = s.value
                out.append(
                    v.elts[i] if isinstance(v, ast.Tuple) and i < len(v.elts) else None
                )
        if (
            isinstance(s, (ast.For, ast.AugAssign))
            and any(isinstance(x, ast.Name) and x.id == name for x in ast.walk(s.target))
            and not isinstance(s, ast.AugAssign)
        ):
            out.append(None)
    return out


def local_formats(e, f, ix, depth, seen):
    if (id(f.node), e.id) in seen:
        return
    seen = seen + ((id(f.node), e.id),)
    a = f.node.args
    ps = a.posonlyargs + a.args
    vals = assigned(e.id, f)
    found = False
    for v in vals:
        found = True
        yield from formats(v, f, ix, depth + 1, seen)
    names = [x.arg for x in ps]
    if e.id in names or e.id in [x.arg for x in a.kwonlyargs]:
        # every call in the package
        i = names.index(e.id) if e.id in names else None
        dfl = None
        if i is not None and i >= len(names) - len(a.defaults):
            dfl = a.defaults[i - (len(names) - len(a.defaults))]
        elif i is None:
            dfl = a.kw_defaults[[x.arg for x in a.kwonlyargs].index(e.id)]
        if dfl is not None:
            found = True
            yield from formats(dfl, f, ix, depth + 1, seen)
        for g in ix.funs:
            for n in own_nodes(g.node):
                if isinstance(n, ast.Call):
                    ts = ix.targets(n, g)
                    if ts and f in ts:
                        x = arg_of(n, f, e.id)
                        if x is not None:
                            found = True
                            yield from formats(x, g, ix, depth + 1, seen)
    if not found:
        yield None


def int_site(n, f, ix, rep):
    is_from = n.func.attr == "from_bytes"
    o = kw_of(n, "byteorder") or (n.args[1] if len(n.args) > 1 else None)
    if o is None:
        # the documented default is big-endian on every machine
        rep.ok("int-order", n)
        return
    v = const_text(o, f, ix)
    if v is None and isinstance(o, ast.Name):
        vs = [const_text(x, f, ix) if x is not None else None for x in assigned(o.id, f)]
        if vs and None not in vs and len(set(vs)) == 1:
            v = vs[0]
    if v in ("little", "big"):
        rep.ok("int-order", n)
    elif is_native(o, f, ix):
        w = None if is_from else (n.args[0] if n.args else kw_of(n, "length"))
        if isinstance(w, ast.Constant) and w.value == 1:
            rep.ok("int-order", n)
            return
        rep.viol(
            "int-order",
            f.qual,
            n,
            f"{f.qual} uses the byte order of the machine it runs on",
        )
    else:
        rep.und("int-order", n, f"byte order {ast.unparse(o)} not constant")


def is_native(o, f, ix):
    for x in ast.walk(o):
        if isinstance(x, (ast.Attribute, ast.Name)):
            r = ix.static(x, f.mod)
            if r is not None and r[0] == "ext" and r[1] == "sys.byteorder":
                return True
            if (
                r is not None
                and r[0] == "expr"
                and r[2] is not o
                and is_native(r[2], Modcode(r[1]), ix)
            ):
                return True
            if isinstance(x, ast.Name) and ix.is_local(x.id, f):
                if any(
                    v is not None
                    and v is not o
                    and any(
                        isinstance(y, ast.Attribute) and y.attr == "byteorder"
                        for y in ast.walk(v)
                    )
                    for v in assigned(x.id, f)
                ):
                    return True
    return False


def native_array(n, f, ix, rep):
    code = const_text(n.args[0], f, ix) if n.args else None
    if code in ("b", "B"):
        rep.ok("no-native", n)
    elif code is None:
        rep.und("no-native", n, "element type not constant")
    else:
        rep.viol(
            "no-native",
            f.qual,
            n,
            f"{f.qual} uses an array of {code!r}, which has the byte order of the machine",
        )


def wire_orders(project, rep):
    """Every fixed-width number in every registered entry is little-endian."""
    ip = codec.make_interp(project)
    done = set()
    n = 0
    for key, name, pc, cc in codec.registry(project, ip):
        for c, rd in ((pc, True), (cc, False)):
            if not isinstance(c, I.Cls) or c in done:
                continue
            done.add(c)
            ip2 = codec.make_interp(project)
            try:
                if rd:
                    _, _, items = codec.read_class(ip2, c)
                else:
                    st = I.State()
                    if isinstance(pc, I.Cls):
                        st, v, _ = codec.read_class(ip2, pc)
                    else:
                        v = t.opaque("value")
                    _, items = codec.write_class(ip2, c, v, st)
            except AnchorLost:
                raise
            except Exception as ex:
                rep.und("little", c.node, f"{c.name}: {type(ex).__name__}")
                continue
            n += 1
            for kind, site in ordered(items):
                o = kind[-1]
                if o == "little":
                    rep.ok("little", f"{c.name}: {kind[0]}{8 * kind[1]}")
                else:
                    rep.viol(
                        "little",
                        f"{c.name}:{kind[0]}{8 * kind[1]}",
                        site if site is not None else c.node,
                        f"{c.name} {'reads' if rd else 'writes'} a {8 * kind[1]}-bit "
                        f"number in {o} byte order",
                    )
                    break
    if n < 20:
        raise AnchorLost("registered readers and writers")


def ordered(items):
    """(kind, site) of the fixed-width numbers wider than a byte in a wire program."""
    todo = list(items)
    while todo:
        it = todo.pop(0)
        if isinstance(it, (I.RItem, I.W)):
            k = it.kind
            if k[0] == "int" and k[1] != 1 and isinstance(k[1], int):
                yield ("int", k[1], k[3]), getattr(it, "node", None)
            elif k[0] == "float":
                yield ("float", k[1], k[2]), getattr(it, "node", None)
            elif k[0] == "seq":
                todo.extend(k[1])
        elif isinstance(it, I.TRep):
            todo.extend(it.items)
        elif isinstance(it, I.TAlt):
            todo.extend(it.a)
            todo.extend(it.b or ())
        elif isinstance(it, I.TTag):
            for c in it.cases:
                todo.extend(c[1])
            todo.extend(it.other or ())


def value_orders(project, rep, ix):
    """The 2-byte and 5-byte forms of encoded values have their high byte first."""
    rv = ix.by_name.get(("vfbLib.parsers.value", "read_value"))
    if rv is None:
        raise AnchorLost("vfbLib.parsers.value.read_value")
    for data, want in (
        (b"\xf7\x00", 108),
        (b"\xf8\x01", 365),
        (b"\xfb\x02", -110),
        (b"\xff\x00\x00\x12\x34", 0x1234),
        (b"\xff\x00\x01\x00\x00", 65536),
    ):
        r = run_on(project, rv, data)
        if isinstance(r, tuple) and isinstance(r[1], T) and t.isk(r[1]):
            if t.kv(r[1]) == want:
                rep.ok("little", f"read_value({data.hex()})")
            else:
                rep.viol(
                    "little",
                    "read_value",
                    rv.node,
                    f"read_value reads {data.hex()} as {t.kv(r[1])}, not {want}",
                )
                return
        else:
            rep.und("little", rv.node, f"read_value({data.hex()})")
