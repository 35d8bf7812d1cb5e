"""C06, C07: the container around the entries.

C06 extracts the reader and the writer of the entry header symbolically and composes
them for every case their conditions distinguish.

C07 interprets reading, the operations a user may perform in between, and writing on a
stream of known layout whose entry data are unknown byte strings, one entry per
registered type.  Parsers and compilers are uninterpreted functions (their inverse
relation is decided by C01-C04).
"""

import itertools

from .. import codec
from .. import interp as I
from .. import terms as t
from ..project import AnchorLost
from ..terms import K, T, mk

FRAMING = {
    "frame-roundtrip": "the entry header written for a type number and data size, fed "
    "to the entry reader, yields the same number and size and is consumed completely",
    "frame-data": "the reader takes exactly `size` bytes as the entry's data",
    "frame-fixed": "an entry type whose size the reader computes itself is written "
    "with exactly that size",
    "frame-fresh": "the header describes the data the entry holds now, whatever was "
    "written before",
    "frame-order": "a file is the file header followed by header and data of every "
    "entry, in order",
    "file-header": "the file header is read back with the same fields, and the reader "
    "continues where the entries begin",
}

PASS = {
    "verbatim": "an entry nobody decompiled is written with the bytes that were read",
    "recompiled": "a decompiled entry is written through the compiler registered for "
    "its type, from what its parser returned for the entry's own data",
    "all-entries": "every entry that was read is written exactly once, in file order",
    "dropped": "only the entry types the caller asked to drop are left out",
    "no-side-effect": "inspecting a file (keys, dict view, compiling) does not change "
    "what is written",
    "re-read": "reading again replaces everything that was read before",
    "lazy": "reading decompiles no entry besides the ones the rest of the reading "
    "depends on",
}


def classes(ip):
    out = []
    for m, n in (
        ("vfbLib.vfb.entry", "VfbEntry"),
        ("vfbLib.vfb.header", "VfbHeader"),
        ("vfbLib.vfb.vfb", "Vfb"),
    ):
        c = ip.glob(m, n)
        if not isinstance(c, I.Cls):
            raise AnchorLost(f"{m}.{n}")
        out.append(c)
    return out


def meth(ip, cls, name):
    hit = ip.lookup_attr(cls, name)
    if hit is None:
        raise AnchorLost(f"{cls.name}.{name}")
    return hit


def call(ip, st, obj, name, *args, **kw):
    c = ip.obj(st, obj).cls
    hit = meth(ip, c, name)
    return ip.call_fn(I.Fn(name, hit[1], hit[0]), [obj, *args], kw, st, hit[1])


class Bad(Exception):
    pass


# ------------------------------------------------------------------ C06


def emit(items, env, out):
    """Flatten written items into a list of byte values and ('D', term) markers."""
    for it in items:
        if isinstance(it, I.TAlt):
            emit(it.a if t.evaluate(it.c, env) else it.b, env, out)
        elif isinstance(it, I.W):
            k = it.kind
            if k[0] == "int":
                v = t.evaluate(it.expr, env)
                try:
                    b = int(v).to_bytes(k[1], k[3] or "little", signed=k[2])
                except OverflowError:
                    raise Bad(f"{v} does not fit {k[1]} byte(s)")
                out.extend(b)
            elif isinstance(it.expr, T) and t.isk(it.expr):
                out.extend(t.kv(it.expr))
            elif isinstance(it.expr, T):
                out.append(("D", it.expr))
            else:
                raise t.CannotEval(None)
        elif isinstance(it, I.TRep):
            n = t.evaluate(it.count, env) if isinstance(it.count, T) else it.count
            for _ in range(int(n)):
                emit(it.items, env, out)
        else:
            raise t.CannotEval(None)


def absorb(items, env, data, pos, raws):
    """Let read items consume bytes; slots get their values in env."""
    for it in items:
        if isinstance(it, I.TAlt):
            pos = absorb(it.a if t.evaluate(it.c, env) else it.b, env, data, pos, raws)
        elif isinstance(it, I.RItem):
            k = it.kind
            if k[0] == "int":
                chunk = data[pos : pos + k[1]]
                if len(chunk) < k[1] or not all(isinstance(x, int) for x in chunk):
                    raise Bad(f"the reader expects {k[1]} more header byte(s)")
                env[it.term] = int.from_bytes(bytes(chunk), k[3] or "little", signed=k[2])
                pos += k[1]
            elif k[0] == "raw":
                n = t.evaluate(k[1], env) if isinstance(k[1], T) else k[1]
                raws.append((n, data[pos:]))
                pos = len(data)
            else:
                raise t.CannotEval(None)
        else:
            raise t.CannotEval(None)
    return pos


def framing(project, rep):
    for r, text in FRAMING.items():
        rep.rule(r, text)
    ip = codec.make_interp(project)
    E, H, V = classes(ip)
    fixed = fixed_sizes(project, ip)
    reg = sorted({t.kv(k) for k, *_ in codec.registry(project, ip) if t.isk(k)})

    # reader
    st = I.State()
    v = ip.call_cls(V, [], {}, st, None)
    nm = mk("sym", "num_masters", ty="int")
    st.heap[v.id] = st.heap[v.id].set("num_masters", nm)
    e = ip.call_cls(E, [v], {}, st, None)
    s = ip.alloc(st, I.StreamO("r", (), "in"))
    call(ip, st, e, "read", s)
    ritems = st.heap[s.id].items
    o = st.heap[e.id]
    rid, rdata = o.get("_id") or o.get("id"), o.get("_data") or o.get("data")
    rnode = meth(ip, E, "read")[1]
    if not ritems or not isinstance(rid, T):
        rep.und("frame-roundtrip", rnode, "entry reader not analysable")
        return

    # writer
    D, ID = mk("sym", "D", ty="bytes"), mk("sym", "id", ty="int")
    st2 = I.State()
    v2 = ip.call_cls(V, [], {}, st2, None)
    e2 = entry(ip, st2, E, v2, ID, D)
    h = ip.attr(e2, "header", st2)
    hnode = meth(ip, E, "header")[1]
    witems = h.items if isinstance(h, I.TraceB) else None
    if witems is None:
        rep.und("frame-roundtrip", hnode, "entry header not analysable")
        return
    blen = t.blen(D)
    points = {
        0,
        1,
        2,
        10,
        0xFF,
        0x100,
        0x7FFF,
        0x8000,
        0xFFFE,
        0xFFFF,
        0x10000,
        0x10001,
        0xFFFFFF,
        0x7FFFFFFF,
        0x80000000,
        0xFFFFFFFF,
    }
    for c in consts(witems):
        for d in (-1, 0, 1):
            if 0 <= c + d <= 0xFFFFFFFF:
                points.add(c + d)
    ids = set(reg) | {0, 1, 2, 0xFF, 0x100, 0x3FFF, 0x4000, 0x7FFE, 0x7FFF}
    if rep.tier == "thorough":
        ids = set(range(0x8000))
    for i in sorted(ids):
        bad = None
        try:
            for n in sorted(points):
                env = {ID: i, blen: n, nm: 1}
                out = []
                emit(witems, env, out)
                env2, raws = {nm: 1}, []
                absorb(ritems, env2, out, 0, raws)
                got = t.evaluate(rid, env2)
                if got != i:
                    bad = (
                        "frame-roundtrip",
                        f"type {i} with {n} bytes of data is read back as type {got}",
                    )
                    break
                if len(raws) != 1:
                    bad = ("frame-data", f"entry {i}: {len(raws)} data reads")
                    break
                size, rest = raws[0]
                if rest:
                    bad = (
                        "frame-roundtrip",
                        f"type {i} with {n} bytes of data: the "
                        f"reader leaves {len(rest)} header byte(s) unread",
                    )
                    break
                if i in fixed:
                    continue
                if size != n:
                    bad = (
                        "frame-data",
                        f"type {i} with {n} bytes of data is read back with {size} bytes",
                    )
                    break
        except Bad as ex:
            bad = ("frame-roundtrip", f"type {i} with {n} bytes of data: {ex}")
        except (t.CannotEval, TypeError) as ex:
            rep.und("frame-roundtrip", hnode, f"type {i}: {ex}")
            continue
        if bad:
            rep.viol(bad[0], "VfbEntry.header", hnode, bad[1])
        else:
            rep.ok("frame-roundtrip", f"entry type {i} x {len(points)} sizes")
    if rdata is not None and isinstance(rdata, T) and rdata.op == "slot":
        rep.ok("frame-data", rnode)
    else:
        rep.viol(
            "frame-data",
            "VfbEntry.read",
            rnode,
            "the entry's data is not the byte string that was read",
        )

    # entry types whose size the reader computes
    for i, (want, cnode) in fixed.items():
        env = {nm: None}
        for m, given in itertools.product((1, 2, 4, 8, 16), (0, 7, 0xFFFE)):
            try:
                env2, raws = {nm: m}, []
                out = list(i.to_bytes(2, "little")) + list(given.to_bytes(2, "little"))
                absorb(ritems, env2, out, 0, raws)
                size = raws[0][0]
                w = (
                    t.evaluate(want, {a: m for a in t.atoms(want)})
                    if isinstance(want, T)
                    else want
                )
            except (Bad, t.CannotEval, IndexError) as ex:
                rep.und("frame-fixed", rnode, str(ex))
                continue
            if size != w:
                rep.viol(
                    "frame-fixed",
                    f"type {i}",
                    rnode,
                    f"entry type {i} is compiled to {w} bytes for {m} master(s) "
                    f"but read with {size} if its length is given as {given}",
                )
            else:
                rep.ok("frame-fixed", f"{rnode.name}: type {i}, {m} masters, {given}")

    # histories: header asked for, then the entry changes
    def expected(ident, data):
        s3 = I.State()
        v3 = ip.call_cls(V, [], {}, s3, None)
        return sig(ip.attr(entry(ip, s3, E, v3, ident, data), "header", s3))

    D2, ID2 = mk("sym", "D2", ty="bytes"), K(reg[3])
    for label, change in (
        ("data replaced", lambda s_, e_: ip.assign_attr(e_, "data", D2, s_)),
        ("type replaced", lambda s_, e_: ip.assign_attr(e_, "id", ID2, s_)),
    ):
        s3 = I.State()
        v3 = ip.call_cls(V, [], {}, s3, None)
        e3 = entry(ip, s3, E, v3, K(reg[1]), D)
        ip.attr(e3, "header", s3)
        change(s3, e3)
        got = sig(ip.attr(e3, "header", s3))
        want = expected(
            ID2 if label == "type replaced" else K(reg[1]),
            D2 if label == "data replaced" else D,
        )
        if got is None or want is None:
            rep.und("frame-fresh", hnode, label)
        elif got != want:
            rep.viol(
                "frame-fresh",
                label,
                hnode,
                f"after the {label}, the header still describes the previous one",
            )
        else:
            rep.ok("frame-fresh", hnode)

    # whole file
    wnode = meth(ip, V, "write_bytes")[1]
    for n in range(4):
        for empty in (False, True):
            s3 = I.State()
            v3 = ip.call_cls(V, [], {}, s3, None)
            es, want = [], [("bytes", "H")]
            for k in range(n):
                d = mk("sym", f"D{k}", ty="bytes")
                if empty and k == 1:
                    d = t.NONE
                ident = K(reg[k])
                es.append(entry(ip, s3, E, v3, ident, d))
                want.append((ident, d))
            h3 = ip.call_cls(H, [], {}, s3, None)
            s3.heap[h3.id] = s3.heap[h3.id].set("_data", mk("sym", "H", ty="bytes"))
            s3.heap[v3.id] = (
                s3.heap[v3.id].set("header", h3).set("entries", ip.new_list(s3, es))
            )
            exp = [("b", mk("sym", "H", ty="bytes"))]
            ok = True
            for k in range(n):
                ident, d = want[k + 1]
                x = expected(ident, d)
                if x is None:
                    ok = False
                    break
                exp.extend(x)
                if d is not t.NONE:
                    exp.append(("b", d))
            out = ip.alloc(s3, I.StreamO("w", (), "out"))
            try:
                call(ip, s3, v3, "write_bytes", out)
            except I.Raised:
                rep.viol(
                    "frame-order",
                    "Vfb.write_bytes",
                    wnode,
                    f"writing {n} compiled entries fails",
                )
                continue
            got = sig(I.TraceB(s3.heap[out.id].items))
            if not ok or got is None:
                rep.und("frame-order", wnode, f"{n} entries")
            elif tuple(exp) != got:
                rep.viol(
                    "frame-order",
                    "Vfb.write_bytes",
                    wnode,
                    f"a file of {n} entries is written as {short(got)}, expected "
                    f"{short(exp)}",
                )
            else:
                rep.ok("frame-order", wnode)
    header(project, rep, H)


def short(x):
    return ", ".join(str(y[1] if y[0] == "b" else y[0])[:24] for y in x)[:200]


def sig(v):
    """Comparable form of a byte value."""
    if not isinstance(v, I.TraceB):
        if isinstance(v, T):
            return (("b", v),)
        return None
    return tuple(_sig(x) for x in v.items)


def _sig(x):
    if isinstance(x, I.W):
        if isinstance(x.expr, T) and t.isk(x.expr) and x.kind[0] == "int":
            k = x.kind
            return ("b", K(int(t.kv(x.expr)).to_bytes(k[1], k[3] or "little", signed=k[2])))
        if x.kind[0] == "bytes":
            return ("b", x.expr)
        return (x.kind, x.expr)
    if isinstance(x, I.TAlt):
        return ("if", x.c, tuple(_sig(y) for y in x.a), tuple(_sig(y) for y in x.b))
    return ("?", repr(x))


def consts(items):
    out = set()

    def term(x):
        if isinstance(x, tuple):
            for y in x:
                term(y)
        elif isinstance(x, T):
            if t.isk(x) and isinstance(t.kv(x), int):
                out.add(t.kv(x))
            for y in x.args:
                term(y)

    def go(its):
        for it in its:
            if isinstance(it, I.TAlt):
                term(it.c)
                go(it.a)
                go(it.b)
            elif isinstance(it, I.W) and isinstance(it.expr, T):
                term(it.expr)
            elif isinstance(it, I.RItem) and isinstance(it.kind[1], T):
                term(it.kind[1])

    go(items)
    return out


def entry(ip, st, E, v, ident, data):
    e = ip.call_cls(E, [v], {}, st, None)
    st.heap[e.id] = st.heap[e.id].set("_data", data).set("_id", ident)
    return e


def fixed_sizes(project, ip):
    """{entry type: (compiled size as a term of the masters, compiler node)}"""
    out = {}
    for key, name, pc, cc in codec.registry(project, ip):
        if not t.isk(key) or not isinstance(pc, I.Cls) or pc.name != "MMKernPairParser":
            continue
        ip2 = codec.make_interp(project)
        st, val, items = codec.read_class(ip2, pc)
        n = K(0)
        for it in items:
            n = t.add(n, width(it))
        out[t.kv(key)] = (n, pc.node)
    return out


def width(it):
    if isinstance(it, I.RItem) and it.kind[0] == "int":
        return K(it.kind[1])
    if isinstance(it, I.TRep):
        n = K(0)
        for x in it.items:
            n = t.add(n, width(x))
        return t.mul(it.count, n)
    raise AnchorLost("size of the MM kern pair")


def header(project, rep, _):
    ip = codec.make_interp(project)
    E, H, V = classes(ip)
    st = I.State()
    h = ip.call_cls(H, [], {}, st, None)
    s = ip.alloc(st, I.StreamO("r", (), "in"))
    node = meth(ip, H, "read")[1]
    call(ip, st, h, "read", s)
    ritems = st.heap[s.id].items
    call(ip, st, h, "compile")
    out = st.heap[h.id].get("_data") or st.heap[h.id].get("data")
    if not isinstance(out, I.TraceB):
        rep.und("file-header", node, "file header not analysable")
        return
    reads = [x for x in ritems if isinstance(x, I.RItem)]
    seeks = [x for x in ritems if isinstance(x, I.TOpq)]
    facts = [(c, b) for c, b in st.facts.items()]
    fixed_vals = {}
    for c, b in facts:
        pass
    try:
        for seed in (0, 1, 5, 127, 128, 255):
            # feed the written header to the reader
            env = {x.term: seed for x in reads}
            data = []
            emit(out.items, env, data)
            env2, raws = {}, []
            pos = absorb(reads, env2, data, 0, raws)
            for x in reads:
                for y in atoms_of(out.items):
                    if y is x.term and env2[x.term] != env[x.term]:
                        rep.viol(
                            "file-header",
                            "field",
                            node,
                            "a field of the file header is written at another "
                            "position than it is read from",
                        )
                        return
            target = env2[reads[-1].term]
            # signature and constants must satisfy the reader's own checks
            for c, b in facts:
                if set(t.atoms(c)) <= set(env2):
                    if bool(t.evaluate(c, env2)) != bool(
                        t.kv(b) if isinstance(b, T) else b
                    ):
                        rep.viol(
                            "file-header",
                            "check",
                            node,
                            "the written file header fails the reader's checks",
                        )
                        return
            for x in seeks:
                arg = getattr(x, "arg", None)
                if arg is not None:
                    target = t.evaluate(arg, env2)
            if target != len(data):
                rep.viol(
                    "file-header",
                    "offset",
                    node,
                    f"the file header is {len(data)} bytes long but says that "
                    f"entries begin at {target}",
                )
                return
            rep.ok("file-header", f"{node.name}: version byte {seed}")
    except (t.CannotEval, Bad) as ex:
        rep.und("file-header", node, str(ex))


def atoms_of(items):
    out = set()
    for it in items:
        if isinstance(it, I.W) and isinstance(it.expr, T):
            out |= set(t.atoms(it.expr))
    return out


# ------------------------------------------------------------------ C07

HDR = b"\x1aWLF10\x03\x00" + (12).to_bytes(4, "little")
HDR_WRITTEN = HDR[:8] + (44).to_bytes(4, "little") + bytes(32)
FL_VERSION, MASTER_COUNT, TT_STEMS = "FLVersion", "MasterCount", "TrueTypeStems"


class World:
    """A VFB object and a file with one entry per given type."""

    def __init__(self, project, ids, masters=1, end=True):
        self.ip = ip = codec.make_interp(project)
        ip.unroll = 4000
        ip.budget = 10**8
        self.E, self.H, self.V = classes(ip)
        ip.hooks["vfbLib.parsers.base:BaseParser.parse"] = self.parse
        ip.hooks["vfbLib.compilers.base:BaseCompiler.compile"] = self.compile
        self.ids = list(ids)
        self.masters = masters
        self.data = []
        self.log = []
        self.notes = []
        self.reg = {
            t.kv(k): (n, pc, cc) for k, n, pc, cc in codec.registry(project, ip) if t.isk(k)
        }
        self.count_id = enum_value(ip, "F", MASTER_COUNT)
        self.end_id = enum_value(ip, "F", "BlockFileDataEnd")
        if end:
            self.ids.append(self.end_id)
        self.chunks = [(K(HDR), len(HDR))]
        for k, i in enumerate(self.ids):
            n = 20 + k
            if self.fixed(i):
                n = 8 + 2 * masters
            d = mk("sym", f"data of entry {k} (type {i})", ty="bytes")
            self.data.append(d)
            ip.chunk_len[d] = n
            self.chunks.append((K(i.to_bytes(2, "little") + n.to_bytes(2, "little")), 4))
            self.chunks.append((d, n))

    def fixed(self, i):
        p = self.reg.get(i, (None, None, None))[1]
        return isinstance(p, I.Cls) and p.name == "MMKernPairParser"

    # -- uninterpreted parsers and compilers
    def parse(self, ip, args, kw, st, node):
        cls = ip.obj(st, args[0]).cls
        src = args[1] if len(args) > 1 else kw.get("stream")
        o = ip.obj(st, src)
        d = None
        if isinstance(o, I.ScriptO) and len(o.chunks) == 1 and o.pos == 0:
            d = o.chunks[0][0]
        if d is None:
            return t.opaque("parse")
        self.log.append((cls, d, node))
        if self.count_id is not None and d in self.data:
            if self.ids[self.data.index(d)] == self.count_id:
                return K(self.masters)
        return self.dec(cls, d)

    def dec(self, cls, d):
        return mk("dec", cls.name, d, ty="obj")

    def compile(self, ip, args, kw, st, node):
        cls = ip.obj(st, args[0]).cls
        data = args[1] if len(args) > 1 else kw.get("data")
        if not isinstance(data, T):
            data = t.opaque("data")
        r = mk("comp", cls.name, data, ty="bytes")
        ip.chunk_len[r] = 7
        return r

    # -- actions
    def new(self, **kw):
        st = I.State()
        v = self.ip.call_cls(self.V, [], kw, st, None)
        return st, v

    def read(self, st, v):
        s = self.ip.alloc(st, I.ScriptO(tuple(self.chunks)))
        call(self.ip, st, v, "read_bytes", s)

    def write(self, st, v):
        out = self.ip.alloc(st, I.StreamO("w", (), "out"))
        call(self.ip, st, v, "write_bytes", out)
        return sig(I.TraceB(st.heap[out.id].items))

    def headers(self, entries):
        """Expected file contents for [(type, data term)]."""
        ip = self.ip
        exp = [("b", K(HDR_WRITTEN))]
        for i, d in entries:
            st = I.State()
            v = ip.call_cls(self.V, [], {}, st, None)
            e = entry(ip, st, self.E, v, K(i), d)
            exp.extend(sig(ip.attr(e, "header", st)) or ())
            exp.append(("b", d))
        return norm(exp)


def enum_value(ip, cls, name):
    c = ip.glob("vfbLib.enum", cls)
    if not isinstance(c, I.Cls):
        raise AnchorLost(f"vfbLib.enum.{cls}")
    v = ip.enum_member(c, name)
    if isinstance(v, I.EnumV):
        v = v.val
    if not (isinstance(v, T) and t.isk(v)):
        raise AnchorLost(f"vfbLib.enum.{cls}.{name}")
    return t.kv(v)


def norm(xs):
    """Merge neighbouring constant bytes."""
    out = []
    for x in xs:
        if (
            x[0] == "b"
            and isinstance(x[1], T)
            and t.isk(x[1])
            and out
            and out[-1][0] == "b"
            and t.isk(out[-1][1])
        ):
            out[-1] = ("b", K(t.kv(out[-1][1]) + t.kv(x[1])))
        else:
            out.append(x)
    return tuple(out)


def unclear(xs):
    """The written bytes contain something the analysis could not follow."""
    for x in xs:
        if x[0] == "?":
            return True
        if x[0] == "if":
            if unclear(x[2]) or unclear(x[3]):
                return True
        elif not isinstance(x[1], T) or t.opaque_term(x[1]):
            return True
    return False


def passthrough(project, rep):
    for r, text in PASS.items():
        rep.rule(r, text)
    rep.assume("parsers and compilers have no effect besides their result (C13, C14)")
    ip = codec.make_interp(project)
    E, H, V = classes(ip)
    reg = {t.kv(k): (n, pc, cc) for k, n, pc, cc in codec.registry(project, ip) if t.isk(k)}
    special = [
        enum_value(ip, "F", FL_VERSION),
        enum_value(ip, "F", MASTER_COUNT),
        enum_value(ip, "T", TT_STEMS),
    ]
    end = enum_value(ip, "F", "BlockFileDataEnd")
    unknown = next(i for i in range(9000, 0x8000) if i not in reg)
    rest = [i for i in sorted(reg) if i not in special and i != end]
    order = special[:2] + [i for i in rest] + special[2:] + [unknown]
    rnode = meth(ip, V, "read_stream")[1]
    wnode = meth(ip, V, "write_bytes")[1]

    def check(label, rule, build, touched, ids=None, masters=1, drop=(), node=wnode):
        w = World(project, ids or order, masters)
        try:
            got = build(w)
        except I.Raised as ex:
            rep.viol(
                rule,
                label,
                ex.node if ex.node is not None else node,
                f"{label}: an exception ({ex.what}) escapes on a well-formed file",
            )
            return None
        except I.CaseSplit:
            rep.und(rule, node, f"{label}: depends on unknown data")
            return None
        want = []
        for i, d in zip(w.ids, w.data):
            if i in drop:
                continue
            info = w.reg.get(i)
            if touched(i):
                pc = info[1] if info else ip.glob("vfbLib.parsers.base", "BaseParser")
                cc = (
                    info[2]
                    if info
                    else ip.glob("vfbLib.compilers.base", "HexStringCompiler")
                )
                if not isinstance(pc, I.Cls) or not isinstance(cc, I.Cls):
                    want.append((i, d, None))
                    continue
                val = K(w.masters) if i == w.count_id else w.dec(pc, d)
                want.append((i, d, mk("comp", cc.name, val, ty="bytes")))
            else:
                want.append((i, d, d))
        if w.ip.notes or w.ip.endless:
            if w.ip.endless:
                rep.viol(
                    "all-entries",
                    label,
                    w.ip.endless[0],
                    f"{label}: reading does not stop at the end of the file",
                )
                return None
            rep.und(rule, node, f"{label}: {w.ip.notes[:2]}")
            return None
        if got is None or unclear(got):
            rep.und(rule, node, label)
            return None
        exp = w.headers([(i, x if x is not None else d) for i, d, x in want])
        g = norm(got)
        if g == exp:
            for i, d, x in want:
                rep.ok(rule, f"{label}: entry type {i}")
            return w
        # say what is different
        for n, (a, b) in enumerate(zip(g, exp)):
            if a != b:
                rep.viol(
                    rule,
                    label,
                    node,
                    f"{label}: item {n} of the written file is {show(a)}, "
                    f"expected {show(b)}",
                )
                return w
        rep.viol(
            "all-entries",
            label,
            node,
            f"{label}: {len(g)} items written, {len(exp)} expected",
        )
        return w

    def rw(*steps, **kw):
        def build(w):
            st, v = w.new(**kw)
            w.read(st, v)
            w.read_log = list(w.log)
            for s in steps:
                s(w, st, v)
            return w.write(st, v)

        return build

    lazy = lambda i: i in special  # noqa: E731
    every = lambda i: True  # noqa: E731

    w = check("read, write", "verbatim", rw(), lazy, node=wnode)
    if w is not None:
        early = {w.ids[w.data.index(d)] for _, d, _ in w.read_log if d in w.data}
        extra = early - set(special)
        if extra:
            rep.viol(
                "lazy", "read", rnode, f"reading decompiles entry types {sorted(extra)[:5]}"
            )
        else:
            rep.ok("lazy", rnode)
    check(
        "read, decompile, write",
        "recompiled",
        rw(lambda w, st, v: call(w.ip, st, v, "decompile")),
        every,
    )
    check(
        "read, decompile, compile, decompile twice, write",
        "recompiled",
        rw(
            lambda w, st, v: call(w.ip, st, v, "decompile"),
            lambda w, st, v: call(w.ip, st, v, "decompile"),
        ),
        every,
    )
    check(
        "read, compile, write",
        "no-side-effect",
        rw(lambda w, st, v: call(w.ip, st, v, "compile")),
        lazy,
    )
    check(
        "read, dict view, write",
        "no-side-effect",
        rw(lambda w, st, v: call(w.ip, st, v, "as_dict")),
        lazy,
    )
    check("read, write, write", "no-side-effect", rw(lambda w, st, v: w.write(st, v)), lazy)
    check(
        "read, decompile, write, write",
        "no-side-effect",
        rw(
            lambda w, st, v: call(w.ip, st, v, "decompile"), lambda w, st, v: w.write(st, v)
        ),
        every,
    )
    check("read without the end marker, write", "all-entries", rw(), lazy, ids=order)
    # without BlockFileDataEnd
    check_noend(project, rep, rep_ids=order[:6], lazy=lazy, rw=rw, reg=reg, node=rnode)
    for masters in (1, 2, 4):
        check(
            f"read, write ({masters} masters)",
            "verbatim",
            rw(),
            lazy,
            ids=order[:2]
            + [
                i
                for i in rest
                if reg[i][1] is not None and reg[i][1].name == "MMKernPairParser"
            ]
            + rest[:3],
            masters=masters,
        )
    # dropping
    for x in rest[:: max(1, len(rest) // (12 if rep.tier == "quick" else 400))]:

        def build(w, x=x):
            st = I.State()
            v = w.ip.call_cls(w.V, [], {"drop_keys": make_set(w.ip, st, x)}, st, None)
            w.read(st, v)
            return w.write(st, v)

        check(
            f"read without type {x}, write",
            "dropped",
            build,
            lazy,
            drop={x},
            ids=order[:2] + [x] + [i for i in rest[:4] if i != x] + [x],
        )
    # options that select how data are shown must not change what is written
    for opt in ("minimal", "unicode_strings"):
        check(f"read ({opt}), write", "verbatim", rw(**{opt: t.TRUE}), lazy)
    # access through the glyph dictionary
    glyph_history(project, rep, check, rw, reg, special, order)

    # read twice
    def twice(w):
        st, v = w.new()
        w.read(st, v)
        call(w.ip, st, v, "decompile")
        w.read(st, v)
        return w.write(st, v)

    check("read, decompile, read again, write", "re-read", twice, lazy, ids=order[:30])

    def added(w):
        st, v = w.new()
        w.read(st, v)
        extra = mk("sym", "data of an added entry", ty="bytes")
        e = entry(w.ip, st, w.E, v, K(rest[0]), extra)
        call(w.ip, st, v, "add_entry", e)
        w.ids.append(rest[0])
        w.data.append(extra)
        return w.write(st, v)

    check("read, add an entry, write", "all-entries", added, lazy, ids=order[:12])


def check_noend(project, rep, rep_ids, lazy, rw, reg, node):
    w = World(project, rep_ids, end=False)
    label = "file ends without end marker"
    try:
        got = rw()(w)
    except I.Raised:
        rep.viol("all-entries", label, node, f"{label}: an exception escapes")
        return
    except I.CaseSplit:
        rep.und("all-entries", node, label)
        return
    if w.ip.endless:
        rep.viol(
            "all-entries",
            label,
            w.ip.endless[0],
            "reading does not stop at the end of a file that lacks the final block marker",
        )
        return
    rep.ok("all-entries", f"{label}: reading stops")


def glyph_history(project, rep, check, rw, reg, special, order):
    ip = codec.make_interp(project)
    glyph = enum_value(ip, "G", "Glyph")

    def names(w, st, v):
        call(w.ip, st, v, "keys")

    related = {
        enum_value(ip, "G", "Links"),
        enum_value(ip, "G", "HintingOptions"),
        enum_value(ip, "F", "PostScriptHintingOptions"),
    }
    base = order[:2] + [glyph] + [i for i in order[2:] if i != glyph]
    check(
        "read, glyph names, write",
        "no-side-effect",
        rw(names),
        lambda i: i in special or i == glyph or i in related,
        ids=base,
    )
    check(
        "read, decompile, glyph names, write",
        "no-side-effect",
        rw(lambda w, st, v: call(w.ip, st, v, "decompile"), names),
        lambda i: True,
        ids=base,
    )


def make_set(ip, st, x):
    return ip.call_builtin("set", [ip.new_list(st, [K(x)])], {}, st, None)


def show(x):
    if x[0] == "b" and isinstance(x[1], T):
        if t.isk(x[1]):
            return repr(t.kv(x[1]))[:80]
        return t.show(x[1])[:120]
    return str(x)[:120]
