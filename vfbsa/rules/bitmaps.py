"""C27: bitmaps survive being written and read again.

Bitmaps with symbolic bytes, in chosen patterns of equal and different neighbours, are
compiled by abstract interpretation. What was written is handed, byte by byte, to the
parser, and the parsed structure is compared with the original one.
"""

from .. import codec, terms
from .. import interp as I
from .. import interp_expr as X
from .. import scene as sc
from ..terms import K, T, isk, kv, mk
from .entrycases import opened

VFB = "vfbLib.vfb.vfb:Vfb"
GLYPH = (
    "vfbLib.parsers.bitmap:GlyphBitmapsParser",
    "vfbLib.compilers.bitmap:GlyphBitmapsCompiler",
)
BACK = (
    "vfbLib.parsers.bitmap:BackgroundBitmapParser",
    "vfbLib.compilers.bitmap:BackgroundBitmapCompiler",
)

# Lengths of runs of equal bytes. Neighbouring runs differ.
LENGTHS = [1, 2, 3, 4, 126, 127, 128, 129, 130, 131, 255, 256, 257, 258, 384, 385]


def patterns():
    for n in LENGTHS:
        yield [n]
        yield [1] * n
        yield [2] * (n // 2) + [1] * (n % 2)
    for n in (3, 127, 128, 129, 256, 257):
        yield [1, n, 1]
        yield [n, n]
        yield [n, 1, n]
        yield [1] * 127 + [n] + [1] * 3
        yield [1] * 128 + [n] + [2]
        yield [1] * 127 + [2] + [n]
        yield [n] + [1] * 129
    yield [1, 2, 3, 4, 3, 2, 1]
    yield [3, 2, 3, 1, 3]


class Tape:
    """What a compiler wrote, as a stream for a parser."""

    def __init__(self, items):
        self.chunks, self.size, self.bad = [], 0, None
        for w in items:
            if not isinstance(w, I.W) or not isinstance(w.expr, T):
                self.bad = w
                return
            k, x = w.kind, w.expr
            if k[0] in ("enc", "enc5"):
                self.put(mk("encoded", k[0], x, K(k[1]), ty="bytes"), 1)
            elif k[0] == "bytes" and isk(x):
                self.put(x, len(kv(x)))
            elif k[0] == "int" and isk(x):
                try:
                    b = int(kv(x)).to_bytes(k[1], k[3] or "little", signed=bool(k[2]))
                except OverflowError:
                    self.bad = w
                    return
                self.put(K(b), k[1])
            elif k[0] == "int" and k[1] == 1 and not k[2]:
                self.put(mk("tobytes1", x, ty="bytes"), 1)
            else:
                self.bad = w
                return

    def put(self, x, n):
        self.chunks.append((x, n))
        self.size += n

    def stream(self, s):
        return s.ip.alloc(s.st, I.ScriptO(tuple(self.chunks)))


def read_encoded(ip, args, kw, st, node):
    """Reading a number which was written as such."""
    stream = args[0] if args else kw.get("stream")
    signed = kw.get("signed", args[1] if len(args) > 1 else terms.TRUE)
    o = ip.obj(st, stream)
    if not isinstance(o, I.ScriptO):
        return codec.hook_read_value(ip, args, kw, st, node)
    at = 0
    for x, n in o.chunks:
        if at == o.pos:
            break
        at += n
    else:
        raise I.Raised("EOFError", node)
    if x.op != "encoded":
        return terms.opaque("a number is read where none was written")
    X._script_method(ip, stream, o, "read", [K(n)], {}, st, node)
    kind, v, sg = x.args
    if sg is signed or kind == "enc" and nonnegative(v):
        return v
    return terms.opaque("a number is read with another sign convention")


def nonnegative(v):
    return terms.le(K(0), v) is terms.TRUE


def groupby(ip, args, kw, st, node):
    segs = ip.segs_of(args[0], st) if len(args) == 1 and not kw else None
    if segs is None or not all(isinstance(g, I.One) for g in segs):
        return NotImplemented
    groups = []
    for g in segs:
        if groups:
            c = st.simp(ip.eqv(groups[-1][0], g.v, st))
            if not isk(c):
                raise I.CaseSplit(c, None)
            if kv(c):
                groups[-1].append(g.v)
                continue
        groups.append([g.v])
    return ip.new_list(st, [I.Tup((x[0], ip.new_list(st, x))) for x in groups])


class Round:
    """One bitmap, or more of them, written and read again."""

    def __init__(self, project, platform):
        s = self.s = sc.Scene(project)
        s.ip.hooks["ext:itertools.groupby"] = groupby
        s.ip.hooks["vfbLib.parsers.value:read_value"] = read_encoded
        s.ip.join_chunks = True
        self.vfb = s.new(VFB)
        o = s.st.heap[self.vfb.id]
        s.st.heap[self.vfb.id] = o.set("writer_platform", K(platform))
        self.n = 0

    def byte(self):
        """A byte which differs from the ones before and after it."""
        self.n += 1
        return self.s.leaf(f"byte{self.n}", rng=((0, 127), (128, 255))[self.n % 2])

    def rows(self, runs, width):
        data = []
        for n in runs:
            data += [self.byte()] * n
        row = (width + 15) // 16 * 2
        if not data:
            return []
        while len(data) % row:
            data.append(self.byte())
        return [data[i : i + row] for i in range(0, len(data), row)]

    def glyph(self, i, runs, width):
        s = self.s
        data = self.rows(runs, width)
        return {
            "ppm": s.leaf(f"ppm{i}", rng=(1, 3000)),
            "origin": (s.leaf(f"x{i}"), s.leaf(f"y{i}")),
            "adv": (s.leaf(f"adv{i}", rng=(0, 3000)), s.leaf(f"vadv{i}", rng=(0, 3000))),
            "size_pixels": (width, len(data)),
            "bitmap": {"data": data},
        }

    def back(self, i, runs, width):
        s = self.s
        data = self.rows(runs, width)
        return {
            "origin": (s.leaf(f"x{i}"), s.leaf(f"y{i}")),
            "size_units": (s.leaf(f"w{i}", rng=(0, 3000)), s.leaf(f"h{i}", rng=(0, 3000))),
            "size_pixels": (width, len(data)),
            "bitmap": {"data": data},
        }

    def written(self, compiler, v):
        s = self.s
        return s.call(s.new(compiler), "compile", v, self.vfb)

    def read(self, parser, tape):
        s = self.s
        return s.call(s.new(parser), "parse", tape.stream(s), tape.size, self.vfb)


def once(rep, project, where, label, kind, platform, shapes, file=False):
    parser, compiler = GLYPH if kind == "glyph" else BACK
    r = Round(project, platform)
    s = r.s
    if kind == "glyph":
        want = [r.glyph(i, *x) for i, x in enumerate(shapes)]
    else:
        want = r.back(0, *shapes[0])
    v = s.lit(want)
    before = s.tree(v)
    w, rd = where
    stage = ["written", w]
    try:
        out = r.written(compiler, v)
        if not isinstance(out, I.TraceB):
            rep.und("bitmap", label, "the compiled bytes are not known")
            return
        tape = Tape(out.items)
        if tape.bad is not None:
            n = getattr(tape.bad, "node", None)
            if isinstance(tape.bad, I.W) and isk(tape.bad.expr):
                rep.viol(
                    "bitmap",
                    label,
                    n or w,
                    f"{terms.show(tape.bad.expr)} is written as {tape.bad.kind}: does not fit",
                )
            else:
                rep.und("bitmap", label, "what is written is not known")
            return
        after = s.tree(v)
        stage = ["read", rd]
        if file:
            version = {"platform": platform, "version": [5, 2, 1, 0]}
            r.vfb = opened(s, [("F", "FLVersion", version), ("F", "MasterCount", 1)])
        back = r.read(parser, tape)
        got = s.tree(back)
        stage = ["written again", w]
        out = r.written(compiler, back)
        again = Tape(out.items) if isinstance(out, I.TraceB) else None
    except I.Raised as ex:
        rep.viol(
            "bitmap",
            label,
            ex.node if ex.node is not None else stage[1],
            f"{ex.what} is raised when the bitmap is {stage[0]}",
        )
        return
    except I.CaseSplit as ex:
        rep.und("bitmap", label, f"depends on {terms.show(ex.term)}")
        return
    d = sc.Diff(s)
    d.walk("", before, after)
    report(rep, "bitmap-kept", label, w, d)
    d = sc.Diff(s)
    if kind == "glyph":
        exp = [no_preview(x) for x in want]
    else:
        exp = no_preview(want)
    d.walk("", sc.expect(s, exp), got)
    report(rep, "bitmap", label, rd, d)
    if again is None or again.bad is not None or any(map(unknown, again.chunks)):
        rep.und("bitmap-again", label, "what is written the second time is not known")
    elif again.chunks != tape.chunks:
        rep.viol(
            "bitmap-again", label, w, f"{label}: written with other bytes the second time"
        )
    else:
        rep.ok("bitmap-again", label)


def unknown(chunk):
    return terms.opaque_term(chunk[0])


def no_preview(x):
    return {**x, "bitmap": {**x["bitmap"], "preview": sc.ANY}}


def report(rep, rule, label, where, d):
    if d.bad:
        p, site, msg = d.bad[0]
        rep.viol(rule, label, site or where, f"{label}: {p}: {msg}")
    elif d.open:
        p, why = d.open[0]
        rep.und(rule, label, f"{p}: {why}")
    else:
        rep.ok(rule, label)


def check(project, rep):
    rep.rule(
        "bitmap",
        "a bitmap which is compiled and parsed again has the same size, position and rows",
    )
    rep.rule("bitmap-kept", "compiling a bitmap does not change it")
    rep.rule(
        "bitmap-again", "a bitmap which was parsed is written with the same bytes again"
    )
    where = {
        k: [
            sc.where(project, f"{c}.{m}") for c, m in ((x[1], "_compile"), (x[0], "_parse"))
        ]
        for k, x in (("glyph", GLYPH), ("background", BACK))
    }
    for runs in patterns():
        for platform in ("macos", "windows"):
            for kind in ("glyph", "background"):
                once(
                    rep,
                    project,
                    where[kind],
                    f"{kind} {platform} {name_of(runs)}",
                    kind,
                    platform,
                    [(runs, 16)],
                )
    for width in (1, 8, 9, 15, 16, 17, 31, 32, 33, 48, 49, 255, 256, 257):
        for kind in ("glyph", "background"):
            for runs in ([1] * 5, [7, 1, 1], [1, 1, 3, 2]):
                once(
                    rep,
                    project,
                    where[kind],
                    f"{kind} {width} pixels wide {name_of(runs)}",
                    kind,
                    "macos",
                    [(runs, width)],
                )
    for kind in ("glyph", "background"):
        for width in (0, 5, 16):
            label = f"{kind} {width} pixels wide without rows"
            once(rep, project, where[kind], label, kind, "macos", [([], width)])
    for platform in ("macos", "windows"):
        for shapes in ([], [([1, 3], 9), ([4, 1, 1], 17)], [([3], 8)] * 3):
            label = f"{len(shapes)} bitmaps {platform}"
            once(rep, project, where["glyph"], label, "glyph", platform, shapes)
        for kind in ("glyph", "background"):
            label = f"{kind} of a {platform} file"
            once(rep, project, where[kind], label, kind, platform, [([1, 3], 9)], True)


def name_of(runs):
    out, i = [], 0
    while i < len(runs):
        n = 1
        while i + n < len(runs) and runs[i + n] == runs[i]:
            n += 1
        out.append(str(runs[i]) if n == 1 else f"{runs[i]}\u00d7{n}")
        i += n
    return "+".join(out)
