"""C09: damaged entries are refused or kept, never silently read as something else.

The tapes of the entry cases (what the compilers write for structures of chosen shape)
are cut off, continued, and given unknown tag bytes.  The parser must then raise, or
return a structure which is written as exactly those damaged bytes again.
"""

from .. import interp as I
from .. import interp_expr as X
from .. import scene as sc
from .. import terms
from ..terms import K, T, isk, kv, mk
from . import bitmaps
from . import entrycases as ec

PER_PARSER = 7
CUTS = 16
ODD = (0xEE, 0x63)
# Text of any length; padding and empty lines are removed on purpose
FREE = ("text:StringParser", "text:OpenTypeStringParser")


def check(project, rep):
    rep.rule("cut-entry", "a cut-off entry is refused, or kept as the shorter entry it is")
    rep.rule("long-entry", "surplus data are refused or kept")
    rep.rule("undecodable", "bytes that are no text in the encoding are refused or kept")
    rep.rule("odd-number", "a negative number is not taken for another one")
    rep.rule("odd-byte", "an unknown tag or constant is refused or kept")
    groups = {}
    for cases in ec.CASES.values():
        for case in cases:
            if len(case) < 6 or not isinstance(case[5], list):  # again, of a file
                groups.setdefault((case[1], case[2]), []).append(case)
    for (parser, _), cases in groups.items():
        some = spread(cases, PER_PARSER)
        bad = []
        for case in some:
            one(project, rep, bad, case is some[-1], *case)
        report(project, rep, parser, bad)
    runs(project, rep)


# Runs which ask for more bytes than the image has
RUNS = (
    b"\x00",
    b"\xff",
    b"\x01\x05",
    b"\x00\x07\x03\x01\x02",
    b"\xfe\x02\x80",
    b"\x7f\x01",
)
GOOD = (b"\x00\x05", b"\xff\x07", b"\x01\x05\x06")


def runs(project, rep):
    """Images whose run-length codes do not fit the number of their bytes."""
    rep.rule("cut-run", "an image that ends within a run of bytes is refused or kept")
    for name, head in (
        ("BackgroundBitmap", (0, 0, 0, 0, 8, 1)),
        ("GlyphBitmaps", (1, 12, 0, 0, 9, 9, 8, 1)),
    ):
        parser = f"vfbLib.parsers.bitmap:{name}Parser"
        compiler = f"vfbLib.compilers.bitmap:{name}Compiler"
        bad = []
        for data in GOOD + RUNS:
            raw = bytes(n + 0x8B for n in (*head, len(data))) + data
            c = ec.Case(project)
            s = c.s
            del s.ip.hooks["vfbLib.parsers.value:read_value"]
            s.ip.hooks["ext:itertools.groupby"] = bitmaps.groupby
            if data in GOOD:
                try:
                    read(s, parser, [(K(raw), len(raw))], c.vfb)
                except (I.Raised, I.CaseSplit, RecursionError):
                    return  # reported by C27
                continue
            r = attempt(s, parser, compiler, [(K(raw), len(raw))], c.vfb)
            if r is True:
                rep.ok("cut-run", f"{name}: {data.hex()}")
            elif r is False:
                bad.append(("cut-run", "run", [data.hex()], name))
            else:
                rep.und("cut-run", name, f"{data.hex()}: not determined")
        report(project, rep, f"bitmap:{name}Parser", bad)


def read_number(ip, args, kw, st, node):
    v = ec.read_encoded(ip, args, kw, st, node)
    if isinstance(v, T) and terms.opaque_term(v):
        raise ec.Unknown("a number is read where none was written")
    return v


def spread(xs, n):
    if len(xs) <= n:
        return xs
    return [xs[i * (len(xs) - 1) // (n - 1)] for i in range(n)]


def one(
    project, rep, bad, extra, label, parser, compiler, make, want=None, vfb=None, facts=None
):
    parser, compiler = f"vfbLib.parsers.{parser}", f"vfbLib.compilers.{compiler}"
    c = ec.Case(project)
    s = c.s
    s.ip.hooks["vfbLib.parsers.value:read_value"] = read_number
    s.ip.unroll = 400
    if vfb:
        c.set(**vfb)
    v = s.lit(make(c))
    try:
        out = s.call(s.new(compiler), "compile", v, c.vfb)
        whole = ec.Tape(X._as_items(s.ip, out, s.st)).chunks
        back = read(s, parser, whole, c.vfb)
        if written(s, compiler, back, c.vfb) != whole:
            return
    except (I.Raised, I.CaseSplit, ec.Unfit, ec.Unknown, RecursionError):
        return  # reported by C01-C04
    base = s.st.copy()
    accepted = {}
    for rule, group, what, chunks in damages(whole, extra):
        if rule != "undecodable" and name_of(parser) in FREE:
            continue
        s.st = base.copy()
        if rule == "odd-number":
            r = other_number(s, parser, whole, group, chunks, c.vfb)
            group = "number"
        else:
            r = attempt(s, parser, compiler, chunks, c.vfb)
        if r is True:
            rep.ok(rule, f"{label}: {what}")
        elif r is False:
            accepted.setdefault((rule, group), []).append(what)
    bad.extend((rule, group, what, label) for (rule, group), what in accepted.items())


def name_of(parser):
    return parser.removeprefix("vfbLib.parsers.")


def report(project, rep, parser, bad):
    name = parser.split(":")[1]
    where = sc.where(project, f"vfbLib.parsers.{parser}._parse")
    groups = {}
    for rule, group, what, label in bad:
        groups.setdefault((rule, group), []).extend((label, w) for w in what)
    for rule, group, limit, all_ in (("odd-byte", "tag", 64, "any tag"),):
        found = [k for k in groups if k[0] == rule and k[1].startswith(group)]
        if len(found) > limit:
            groups[rule, all_] = [x for k in found for x in groups.pop(k)]
    for (rule, group), found in groups.items():
        label, what = found[0]
        rep.viol(
            rule,
            f"{name}|{group}",
            where,
            f"{name} accepts an entry ({label}) with {what}, although its result does "
            "not contain what was read",
        )


def damages(whole, extra):
    """(rule, group, description, chunks)"""
    ks = range(len(whole))
    if len(whole) > CUTS:
        ks = sorted({*range(CUTS // 2), *range(len(whole) - CUTS // 2, len(whole))})
    for k in ks:
        yield "cut-entry", "cut", f"only {k} of {len(whole)} items", whole[:k]
    for x in (K(b"\0"), K(b"AB"), mk("encoded", "enc", K(5), K(True), ty="bytes")):
        n = len(kv(x)) if isk(x) else 1
        what = terms.show(x) if isk(x) else "number"
        yield "long-entry", f"surplus {what}", f"surplus {what}", [*whole, (x, n)]
    for k in ks:
        x, n = whole[k]
        if isk(x) and n > 1:
            bad = (K(b"\x81" * n), n)
            yield (
                "undecodable",
                "text",
                "undefined bytes",
                [*whole[:k], bad, *whole[k + 1 :]],
            )
    for k in ks:
        x, n = whole[k]
        if not isk(x) or n > 4:
            continue
        for i in {0, n - 1}:
            for odd in ODD:
                b = kv(x)[:i] + bytes([odd]) + kv(x)[i + 1 :]
                if kv(x) != b:
                    yield (
                        "odd-byte",
                        f"in place of {kv(x).hex()}",
                        f"{b.hex()} in place of {kv(x).hex()}",
                        [*whole[:k], (K(b), n), *whole[k + 1 :]],
                    )
    for k in ks:
        x, n = whole[k]
        if x.op == "encoded" and isk(x.args[1]) and kv(x.args[1]) > 0:
            neg = mk("encoded", x.args[0], K(-1), x.args[2], ty="bytes")
            yield (
                "odd-number",
                k,
                f"-1 in place of the number {kv(x.args[1])} at {k}",
                [*whole[:k], (neg, 1), *whole[k + 1 :]],
            )
    at = [k for k in ks if isk(whole[k][0]) and whole[k][1] == 1]
    for k in sorted({at[0], at[-1]}) if extra and at else ():
        for b in range(256):
            x = (K(bytes([b])), 1)
            what = f"tag {b:02x}"
            yield "odd-byte", what, f"additional {what}", [*whole[:k], x, *whole[k:]]


def read(s, parser, chunks, vfb):
    stream = s.ip.alloc(s.st, I.ScriptO(tuple(chunks)))
    size = sum(n for _, n in chunks)
    return s.call(s.new(parser), "parse", stream, K(size), vfb)


def written(s, compiler, v, vfb):
    out = s.call(s.new(compiler), "compile", v, vfb)
    return ec.Tape(X._as_items(s.ip, out, s.st)).chunks


def other_number(s, parser, whole, k, chunks, vfb):
    """False if the negative number is taken for another, valid one."""
    base = s.st.copy()

    def tree(chunks):
        s.st = base.copy()
        try:
            r = s.tree(read(s, parser, chunks, vfb))
        except I.Raised:
            return None
        if sc.has_unknown(r):
            raise ec.Unknown("result")
        return sc.show(r, 12)

    try:
        got, clean = tree(chunks), tree(whole)
        if got is None:
            return True
        if got == clean or "\u2026" in got:
            return None
        x, n = whole[k]
        for v in range(1, 12):  # a negative count is an empty list
            y = mk("encoded", x.args[0], K(v), x.args[2], ty="bytes")
            try:
                if tree([*whole[:k], (y, n), *whole[k + 1 :]]) == got:
                    return False
            except (I.CaseSplit, ec.Unknown, RecursionError):
                pass
    except (I.CaseSplit, ec.Unknown, RecursionError):
        return None
    return True


def attempt(s, parser, compiler, chunks, vfb):
    """True: refused or kept; False: misread; None: not known."""
    try:
        got = read(s, parser, chunks, vfb)
        if sc.has_unknown(s.tree(got)):
            return None
    except I.Raised:
        return True
    except (I.CaseSplit, ec.Unknown, RecursionError):
        return None
    try:
        again = written(s, compiler, got, vfb)
    except (I.CaseSplit, ec.Unknown, RecursionError):
        return None
    except (I.Raised, ec.Unfit):
        return False
    return flat(again) == flat(chunks)


def flat(chunks):
    """Chunks with neighbouring constants joined."""
    out = []
    for x, n in chunks:
        if isk(x) and out and isinstance(out[-1], bytes):
            out[-1] += kv(x)
        elif isk(x):
            out.append(kv(x))
        else:
            out.append(x)
    return out
