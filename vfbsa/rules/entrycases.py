"""C01-C04: entries of chosen shapes survive being written and read again.

Complements the alignment of reader and writer: structures whose shape is fixed and
whose numbers are symbolic are compiled by abstract interpretation, and what was
written is handed to the parser as a tape of typed items.  This decides what the
alignment leaves open, and fields the reader skips although FontLab needs them.
"""

from .. import codec, terms
from .. import interp as I
from .. import interp_expr as X
from .. import scene as sc
from ..terms import K, T, isint, isk, kv, mk

VFB = "vfbLib.vfb.vfb:Vfb"
I32 = (-(2**31), 2**31 - 1)
U32 = (0, 2**32 - 1)
I16 = (-(2**15), 2**15 - 1)
U16 = (0, 2**16 - 1)
U8 = (0, 255)
COORD = (-(2**20), 2**20)


class Unfit(Exception):
    def __init__(self, what, node):
        self.what, self.node = what, node


class Unknown(Exception):
    pass


class Tape:
    """What a compiler wrote, as typed chunks of known size."""

    def __init__(self, items):
        self.chunks = []
        for w in items:
            self.item(w)

    def item(self, w):
        if not isinstance(w, I.W) or not isinstance(w.expr, T):
            raise Unknown(f"{type(w).__name__} is written")
        k, x = w.kind, w.expr
        if terms.opaque_term(x):
            raise Unknown("a value which is not determined is written")
        if k[0] in ("enc", "enc5"):
            lo, hi = I32 if k[1] else U32 if k[0] == "enc5" else (-1131, U32[1])
            self.fit(x, lo, hi, w)
            self.chunks.append((mk("encoded", k[0], x, K(k[1]), ty="bytes"), 1))
        elif k[0] == "bytes" and isk(x):
            if kv(x):
                self.chunks.append((x, len(kv(x))))
        elif k[0] == "int":
            _, n, signed, order = k
            full = 1 << 8 * n
            lo, hi = (-(full >> 1), (full >> 1) - 1) if signed else (0, full - 1)
            self.fit(x, lo, hi, w)
            self.chunks.append((X.tobytes(x, n, order, signed), n))
        elif k[0] == "float":
            self.chunks.append((mk("packf", x, k[1], k[2], ty="bytes"), k[1]))
        else:
            raise Unknown(f"{k[0]} is written")

    def fit(self, x, lo, hi, w):
        a, b = terms.le(K(lo), x), terms.le(x, K(hi))
        if a is terms.FALSE or b is terms.FALSE:
            raise Unfit(f"{terms.show(x)} does not fit into {lo}\u2026{hi}", w.node)
        if a is not terms.TRUE or b is not terms.TRUE:
            raise Unknown(f"whether {terms.show(x)} fits into {lo}\u2026{hi} is not known")

    @property
    def size(self):
        return sum(n for _, n in self.chunks)

    def stream(self, s):
        return s.ip.alloc(s.st, I.ScriptO(tuple(self.chunks)))


def encoded_len(v):
    """Number of bytes of an encoded number, None when it is not known."""
    for lo, hi, n in ((-107, 107, 1), (-1131, 1131, 2)):
        if terms.le(K(lo), v) is terms.TRUE and terms.le(v, K(hi)) is terms.TRUE:
            return n if n == 1 or isk(v) else None
    return 5 if isk(v) else None


def byte_len(items):
    n = 0
    for w in items:
        if not isinstance(w, I.W) or not isinstance(w.expr, T):
            return None
        k = w.kind
        if k[0] == "enc5":
            n += 5
        elif k[0] == "enc":
            m = encoded_len(w.expr)
            if m is None:
                return None
            n += m
        elif k[0] == "int":
            n += k[1]
        elif k[0] == "float":
            n += k[1]
        elif k[0] == "bytes" and isint(k[1]):
            n += int(kv(k[1]))
        else:
            return None
    return n


def read_encoded(ip, args, kw, st, node):
    stream = args[0] if args else kw.get("stream")
    signed = kw.get("signed", args[1] if len(args) > 1 else terms.TRUE)
    o = ip.obj(st, stream)
    if not isinstance(o, I.ScriptO):
        return codec.hook_read_value(ip, args, kw, st, node)
    at = 0
    for x, n in o.chunks:
        if at == o.pos and n:
            break
        at += n
    else:
        raise I.Raised("EOFError", node)
    if x.op != "encoded":
        if isk(x) and kv(x)[:1] == b"\xff" and isk(signed):
            # The long form, written byte by byte
            X._script_method(ip, stream, o, "read", [K(1)], {}, st, node)
            b = X._script_method(
                ip, stream, ip.obj(st, stream), "read", [K(4)], {}, st, node
            )
            if isk(b) and len(kv(b)) == 4:
                return K(int.from_bytes(kv(b), "big", signed=bool(kv(signed))))
        if isk(x) and kv(x)[:1] == b"\0":
            X._script_method(ip, stream, o, "read", [K(1)], {}, st, node)
            raise I.Raised("EOFError", node)
        return terms.opaque("a number is read where none was written")
    X._script_method(ip, stream, o, "read", [K(1)], {}, st, node)
    _, v, sg = x.args
    if sg is signed or (
        terms.le(K(-1131), v) is terms.TRUE and terms.le(v, K(I32[1])) is terms.TRUE
    ):
        return v
    full = K(1 << 32)
    if kv(sg):
        return terms.ite(terms.lt(v, K(-1131)), terms.add(v, full), v)
    return terms.ite(terms.lt(v, K(1 << 31)), v, terms.sub(v, full))


class Case:
    """One structure, written and read again."""

    def __init__(self, project):
        s = self.s = sc.Scene(project)
        s.ip.hooks["vfbLib.parsers.value:read_value"] = read_encoded
        s.ip.hooks["ext:" + codec.PROGRAM] = codec.hook_program
        s.ip.inst_methods["$Program"] = codec.hook_program_method
        s.ip.join_chunks = True
        s.ip.trace_len = byte_len
        s.ip.unroll = 4000
        self.n = 0
        self.vfb = s.new(VFB)

    def set(self, **kw):
        s = self.s
        for k, v in kw.items():
            s.st.heap[self.vfb.id] = s.st.heap[self.vfb.id].set(k, s.lit(v))

    def num(self, rng=I32):
        self.n += 1
        return self.s.leaf(f"n{self.n}", rng=rng)

    def file(self, *entries):
        """The entries are parsed by a font which has read a file with these ones."""
        self.vfb = opened(self.s, entries)

    def nums(self, n, rng=I32):
        return [self.num(rng) for _ in range(n)]

    def real(self):
        self.n += 1
        return self.s.leaf(f"f{self.n}", "float")

    def reals(self, n):
        return [self.real() for _ in range(n)]


def opened(s, entries):
    """A font that has read a file of decompiled entries [(group, name, data)]."""
    rest = [(s.enum(g)[name], s.lit(data)) for g, name, data in entries]

    def read(ip, args, kw, st, node):
        if not rest:
            raise I.Raised("EOFError", node, st)
        key, data = rest.pop(0)
        X.assign_attr(ip, args[0], "id", s.lit(key), st, node)
        st.heap[args[0].id] = st.heap[args[0].id].set("_data", data)
        return terms.NONE

    hooks = s.ip.hooks
    was, unroll = dict(hooks), s.ip.unroll
    s.ip.unroll = max(unroll, 100)
    hooks["vfbLib.vfb.entry:VfbEntry.read"] = read
    hooks["vfbLib.vfb.header:VfbHeader.read"] = lambda *a: terms.NONE
    vfb = s.new(VFB, timing=False)
    s.call(vfb, "read_bytes", s.lit([]))
    hooks.clear()
    hooks.update(was)
    s.ip.unroll = unroll
    return vfb


TEXTS = ["", "A", "Ab C", "\u20ac\xe4\xf6", "x" * 107, "y" * 108, "z" * 1132]


def check(project, rep, pid):
    rep.rule("case", "what was compiled is parsed as the same structure")
    rep.rule("case-kept", "compiling does not change the structure it is given")
    rep.rule("case-again", "a structure which was parsed is written in the same way again")
    rep.rule("case-count", "counts which the parser skips state what follows")
    for label, parser, compiler, make, *more in CASES.get(pid, ()):
        once(rep, project, label, parser, compiler, make, *more)


def once(rep, project, label, parser, compiler, make, want=None, vfb=None, facts=None):
    parser, compiler = f"vfbLib.parsers.{parser}", f"vfbLib.compilers.{compiler}"
    w, rd = sc.where(project, f"{compiler}._compile"), sc.where(project, f"{parser}._parse")
    c = Case(project)
    s = c.s
    if isinstance(vfb, dict):
        c.set(**vfb)
    elif vfb:
        try:
            c.file(*vfb)
        except I.Raised as ex:
            rep.viol("case", f"{label}|file", ex.node or rd, f"{label}: {ex.what}")
            return
        except I.CaseSplit as ex:
            rep.und("case", label, f"file: depends on {terms.show(ex.term)}")
            return
    data = make(c)
    exp = data if want is None else want(data) if callable(want) else want
    v = s.lit(data)
    before = s.tree(v)
    stage = ["written", w]
    try:
        out = s.call(s.new(compiler), "compile", v, c.vfb)
        if not isinstance(out, I.TraceB) and not (isinstance(out, T) and isk(out)):
            rep.und("case", label, "the compiled bytes are not known")
            return
        items = X._as_items(s.ip, out, s.st)
        tape = Tape(items)
        after = s.tree(v)
        stage = ["read", rd]
        back = s.call(s.new(parser), "parse", tape.stream(s), K(tape.size), c.vfb)
        got = s.tree(back)
        stage = ["written again", w]
        out = s.call(s.new(compiler), "compile", back, c.vfb)
        again = Tape(X._as_items(s.ip, out, s.st))
    except I.Raised as ex:
        rep.viol(
            "case",
            f"{label}|raised",
            ex.node if ex.node is not None else stage[1],
            f"{label}: {ex.what} is raised when the structure is {stage[0]}",
        )
        return
    except Unfit as ex:
        rep.viol("case", f"{label}|unfit", ex.node or w, f"{label}: {ex.what}")
        return
    except Unknown as ex:
        rep.und("case", label, f"{stage[0]}: {ex}")
        return
    except I.CaseSplit as ex:
        rep.und("case", label, f"{stage[0]}: depends on {terms.show(ex.term)}")
        return
    d = sc.Diff(s)
    d.walk("", before, after)
    report(rep, "case-kept", label, w, d)
    d = sc.Diff(s)
    d.walk("", sc.expect(s, exp), got)
    report(rep, "case", label, rd, d)
    if again.chunks != tape.chunks:
        rep.viol("case-again", label, w, f"{label}: written in another way the second time")
    else:
        rep.ok("case-again", label)
    if facts is not None:
        d = sc.Diff(s)
        facts(d, tape.chunks, data)
        report(rep, "case-count", label, w, d)


def report(rep, rule, label, where, d):
    if d.bad:
        p, site, msg = d.bad[0]
        rep.viol(rule, label, site or where, f"{label}: {p}: {msg}")
    elif d.open:
        p, why = d.open[0]
        rep.und(rule, label, f"{p}: {why}")
    else:
        rep.ok(rule, label)


# ----------------------------------------------------------------- the cases


def numbers(n, rng=I32):
    return lambda c: c.nums(n, rng)


def const(v):
    return lambda c: v


def one(rng):
    return lambda c: c.num(rng)


SIZES = (0, 1, 2, 5)


def font_cases():
    B = "base:"
    for n in SIZES:
        yield (
            f"value list {n}",
            B + "EncodedValueListWithCountParser",
            B + "EncodedValueListWithCountCompiler",
            numbers(n),
        )
    for i, text in enumerate([*TEXTS, "A\nB\n\n", " spaced ", "\xa0\xff", "a\tb\r\n"]):
        yield f"string {i}", "text:StringParser", "text:StringCompiler", const(text)
        yield (
            f"encoding {i}",
            B + "GlyphEncodingParser",
            B + "GlyphEncodingCompiler",
            lambda c, text=text: (c.num(U16), text),
        )
    for i, text in enumerate(["", "A", "LUCA", "\xe4b", "TOOLONG"]):
        yield f"vendor {i}", "text:StringParser", "text:VendorIdCompiler", const(text)
    for n in SIZES:
        for k, f in (("kerning", 2), ("metrics", 3)):
            yield (
                f"{k} class flags {n}",
                f"base:OpenType{k.title()}ClassFlagsParser",
                f"base:OpenType{k.title()}ClassFlagsCompiler",
                lambda c, n=n, f=f: {
                    f"{TEXTS[i % 4]}{i}": tuple(c.nums(f)) for i in range(n)
                },
            )
    for mode in ("names_or_index", "unicode_ranges", "codepages", "2", "17", "-1"):
        yield (
            f"mapping mode {mode}",
            B + "MappingModeParser",
            B + "MappingModeCompiler",
            lambda c, mode=mode: {
                "mapping_mode": mode,
                "m2": c.num(),
                "m3": c.num(),
                "mapping_id": c.num(),
            },
        )
    for p, r in (("Int16", U16), ("SignedInt16", I16), ("SignedInt32", I32)):
        yield p, f"numeric:{p}Parser", f"numeric:{p}Compiler", one(r)
    yield "double", "numeric:DoubleParser", "numeric:DoubleCompiler", lambda c: c.real()
    for n in SIZES:
        yield (
            f"doubles {n}",
            "numeric:DoubleListParser",
            "numeric:DoubleListCompiler",
            lambda c, n=n: c.reals(n),
        )
        yield (
            f"ints {n}",
            "numeric:IntListParser",
            "numeric:IntListCompiler",
            numbers(n, U32),
        )
    yield (
        "panose",
        "numeric:PanoseParser",
        "numeric:PanoseCompiler",
        numbers(10, (-128, 127)),
    )
    for bits in ([], [0], [1, 5, 31], [32, 63, 64, 100], [127], list(range(128))):
        yield (
            f"unicode ranges {len(bits)}:{bits[-1:]}",
            "numeric:UnicodeRangesParser",
            "numeric:UnicodeRangesCompiler",
            const(bits),
        )
    for bits in (
        [],
        ["use_custom_opentype_export_options"],
        ["use_default_opentype_export_options", "use_custom_cmap_encoding", 3, 9, 15],
        [4],
    ):
        yield (
            f"export options {bits}",
            "options:ExportOptionsParser",
            "options:ExportOptionsCompiler",
            const(bits),
        )
    yield from option_cases()
    yield from name_cases()
    yield from mm_cases()
    yield from misc_cases()
    for lines in (
        [""],
        ["A", ""],
        ["feature liga {", "  sub f i by f_i;", "} liga;", ""],
        ["a", "", "", "b", ""],
        ["a", "  ", "# \xe4\u20ac", ""],
        ["x  ", "\ty", ""],
    ):
        yield (
            f"features {lines}",
            "text:OpenTypeStringParser",
            "text:OpenTypeStringCompiler",
            const(lines),
        )


AUTOHINT = (
    "generate_triple_hints",
    "generate_delta_instructions",
    "direct_links_to_center_of_the_glyph_where_possible",
    "interpolate_positions_of_cusp_points",
    "interpolate_positions_of_double_links",
    "add_link_to_rsb",
)
EXPAND = (
    "limit_action",
    "limit_codepage",
    "limit_cmap_10",
    "limit_font_window",
    "limit_count",
    "limit_keep",
    "apply_to_assistance",
)


OPTIONS = (
    "fit_ascender fit_descender auto_metrics_left auto_metrics_right "
    "auto_metrics_close auto_hinting_min_h_len auto_hinting_min_v_len "
    "auto_hinting_min_h_width auto_hinting_min_v_width auto_hinting_max_h_width "
    "auto_hinting_max_v_width duplicate_place_x paste_place_x opentype_name_records "
    "codepage_for_cmap_1_0 dont_ignore_unicode_indexes head_bbox_savings "
    "export_hinted_truetype_font autohint_unhinted_glyphs "
    "keep_existing_truetype_instructions export_visual_truetype_hints "
    "apply_bbox_savings auto_win_asc_desc add_characters export_embedded_bitmaps "
    "copy_hdmx_data_from_base_to_composite_glyph dont_automatically_reorder_glyphs "
    "export_ot export_volt write_kern_feature t1_terminal t1_pfm t1_afm t1_autohint "
    "t1_unicode optimize_align optimize_reduce t1_encoding ot_write_gdef t1_use_os2 "
    "subrize t1_sort export_kern_table t1_fs_type expand_kern_codepage "
    "expand_kern_count decompose duplicate_place_y paste_place_y "
)


def option_cases():
    P, C = "options:FontOptionsParser", "options:FontOptionsCompiler"
    yield "options none", P, C, const({})
    yield (
        "options plain",
        P,
        C,
        lambda c: {
            "fit_ascender": c.num(),
            "t1_encoding": c.num(),
            "paste_place_y": c.num(),
            "opentype_name_records": c.num(),
            "99": c.num(),
            "52": c.num(),
            "expand_kern_codepage": c.num(),
            "expand_kern_count": c.num(),
            "decompose": c.num(),
        },
    )
    for k in OPTIONS.split():
        yield f"option {k}", P, C, lambda c, k=k: {k: c.num()}
    for v in (0.0, 0.0625, 0.5, 1.0, 2.25, 1.2345, 0.7, -0.29):
        yield f"options ratio {v}", P, C, const({"auto_hinting_h_ratio": v})
        yield f"options v ratio {v}", P, C, const({"auto_hinting_v_ratio": v})
    for on in range(len(AUTOHINT)):
        for prec in (0, 3, 7):
            d = {k: int(i == on) for i, k in enumerate(AUTOHINT)}
            d = {"single_link_attachment_precision": prec, **d}
            yield f"autohinting {on} {prec}", P, C, const({"autohinting_options": d})
    for v in (0, 1):
        d = dict.fromkeys(AUTOHINT, v)
        d = {"single_link_attachment_precision": 5, **d}
        yield f"autohinting all {v}", P, C, const({"autohinting_options": d})
        d = dict.fromkeys(EXPAND, v)
        yield f"expand kern all {v}", P, C, const({"expand_kern_flags": d})
    for on in range(len(EXPAND)):
        d = {k: int(i == on) for i, k in enumerate(EXPAND)}
        yield f"expand kern {on}", P, C, const({"expand_kern_flags": d})


def name_cases():
    P, C = "text:NameRecordsParser", "text:NameRecordsCompiler"
    texts = [
        "",
        "A",
        "Abc Def",
        "\xe4\u20ac\xdf",
        "\u4e2d\u6587",
        "\U0001f600x",
        "\u2014\u2122",
    ]
    mac = ["", "Abc", "\xe4\xdf\xd1", "\u2014\u2122\u20ac"]
    for i, t in enumerate(texts):
        yield (
            f"name windows {i}",
            P,
            C,
            lambda c, t=t: [(c.num(), 3, 1, 1033, t)],
        )
        for plat, enc in ((0, 3), (3, 0), (3, 10), (1, 1), (1, 7), (3, 1)):
            yield f"name {plat} {enc} {i}", P, C, const([(4, plat, enc, 0, t)])
    for i, t in enumerate(mac):
        for lang in (0, 2, 11, 1033):
            yield f"name mac {i} {lang}", P, C, const([(1, 1, 0, lang, t)])
    yield "names none", P, C, const([])
    yield (
        "names several",
        P,
        C,
        const(
            [
                (1, 3, 1, 1033, "B"),
                (1, 1, 0, 0, "\xe4"),
                (2, 3, 1, 1031, "\xe4"),
                (1, 3, 1, 1033, "B"),
                (0, 0, 3, 0, ""),
            ]
        ),
    )


def mm_cases():
    for n in SIZES:
        yield (
            f"axis mappings {n}",
            "mm:AxisMappingsParser",
            "mm:AxisMappingsCompiler",
            lambda c, n=n: [tuple(c.reals(2)) for _ in range(n)],
        )
    for n in (10, 11, 20, 40):
        yield (
            f"axis mappings {n}",
            "mm:AxisMappingsParser",
            "mm:AxisMappingsCompiler",
            lambda c, n=n: [tuple(c.reals(2)) for _ in range(n)],
        )
    yield (
        "axis mappings count",
        "mm:AxisMappingsCountParser",
        "mm:AxisMappingsCountCompiler",
        numbers(4, U32),
    )
    yield (
        "master location",
        "mm:MasterLocationParser",
        "mm:MasterLocationCompiler",
        lambda c: (c.num(U32), tuple(c.reals(4))),
    )
    for sizes in ((), (0,), (2,), (1, 0, 3), (2, 2, 2, 2)):
        yield (
            f"interpolations {sizes}",
            "mm:AnisotropicInterpolationsParser",
            "mm:AnisotropicInterpolationsCompiler",
            lambda c, sizes=sizes: [[tuple(c.nums(2)) for _ in range(n)] for n in sizes],
        )
    for n in (0, 1, 2):
        yield (
            f"instances {n}",
            "mm:PrimaryInstancesParser",
            "mm:PrimaryInstancesCompiler",
            lambda c, n=n: [
                {"name": TEXTS[i + 1], "values": (0.0, 0.0001 * (i + 1), 0.29, 700.0)}
                for i in range(n)
            ],
        )
    for v in (0.57, 1.15, 612.3456, -0.0001, -12.5, 1000.0, 0.0003, 4.35):
        yield (
            f"instance at {v}",
            "mm:PrimaryInstancesParser",
            "mm:PrimaryInstancesCompiler",
            const([{"name": "I", "values": (v, 0.0, v, 1.0)}]),
        )


def misc_cases():
    for platform in ("macos", "windows"):
        for version in ((5, 2, 2, 128), (5, 0, 4, 127), (0, 1, 2, 3), (3, 0, 0, 0)):
            yield (
                f"version {platform} {version}",
                "flversion:FLVersionParser",
                "flversion:FLVersionCompiler",
                lambda c, p=platform, v=version: {
                    "platform": p,
                    "version": v,
                    "owner": c.num(),
                },
            )
    for n in SIZES:
        yield (
            f"cmaps {n}",
            "cmap:CustomCmapParser",
            "cmap:CustomCmapCompiler",
            lambda c, n=n: [
                {
                    "language_id": c.num(),
                    "platform_id": c.num(),
                    "encoding_id": c.num(),
                    "format": c.num(),
                    "option": c.num(),
                    "page_name": TEXTS[i % 4],
                }
                for i in range(n)
            ],
        )
    for name, file in (("Typeface-Regular", "T\xe4xt.f"), ("\xe4" * 16, "ABCDEF")):
        yield (
            f"PCLT {file}",
            "pclt:PcltParser",
            "pclt:PcltCompiler",
            lambda c, name=name, file=file: {
                "font_number": c.num(U32),
                "pitch": c.num(),
                "x_height": c.num(),
                "style": c.num(),
                "type_family": c.num(),
                "cap_height": c.num(),
                "symbol_set": c.num(),
                "typeface": name,
                "character_complement": c.nums(8, U8),
                "file_name": file,
                "stroke_weight": c.num((-128, 127)),
                "width_type": c.num((-128, 127)),
                "serif_style": c.num(U8),
            },
        )
    for tag, data in (("TSI0", ""), ("cvt ", "00ff10"), ("VOLT", "5465c4")):
        yield (
            f"table {tag}",
            "binary:BinaryTableParser",
            "binary:BinaryTableCompiler",
            const({"tag": tag, "data": data}),
        )
    for data in ("00", "ff007f80", "0d0a"):
        yield f"hex {data}", "base:BaseParser", "base:HexStringCompiler", const(data)
    for n in (1, 2, 4, 16):
        yield (
            f"kern pair {n}",
            "fl3:MMKernPairParser",
            "fl3:MMKernPairCompiler",
            lambda c, n=n: {"l": c.num(U32), "r": c.num(U32), "values": c.nums(n, I16)},
            None,
            {"num_masters": n},
        )
        yield (
            f"kern pair {n} of a file",
            "fl3:MMKernPairParser",
            "fl3:MMKernPairCompiler",
            lambda c, n=n: {"l": c.num(U32), "r": c.num(U32), "values": c.nums(n, I16)},
            None,
            [
                ("F", "FLVersion", {"platform": "macos", "version": [5, 2, 1, 0]}),
                ("F", "MasterCount", n),
                ("T", "TrueTypeStems", {"ttStemsV": [], "ttStemsH": []}),
            ],
        )
    yield (
        "PostScript info",
        "ps:PostScriptInfoParser",
        "ps:PostScriptInfoCompiler",
        lambda c: {
            "font_matrix": tuple(c.reals(6)),
            "force_bold": c.num(),
            "blue_values": c.nums(14),
            "other_blues": c.nums(10),
            "family_blues": c.nums(14),
            "family_other_blues": c.nums(10),
            "blue_scale": c.real(),
            "blue_shift": c.num(U32),
            "blue_fuzz": c.num(U32),
            "std_hw": c.num(U32),
            "std_vw": c.num(U32),
            "stem_snap_h": c.nums(12, U32),
            "stem_snap_v": c.nums(12, U32),
            "bounding_box": {k: c.num(I16) for k in ("xMin", "yMin", "xMax", "yMax")},
            "adv_width_min": c.num(),
            "adv_width_max": c.num(),
            "adv_width_avg": c.num(),
            "ascender": c.num(),
            "descender": c.num(),
            "x_height": c.num(),
            "cap_height": c.num(),
        },
    )
    yield from ps_options("Global", ("generate_flex",), [1, 7, 15])
    yield from guide_cases("global")
    yield from property_cases()
    yield from outline_cases(
        "global mask", "glyph:GlobalMaskParser", "glyph:GlobalMaskCompiler"
    )


def ps_options(kind, names, other):
    P, C = (
        f"ps:PostScript{kind}HintingOptionsParser",
        f"ps:PostScript{kind}HintingOptionsCompiler",
    )
    for on in ((), *((n,) for n in names), names):
        for bits in ([], other[:1], other):
            yield (
                f"{kind} hinting {on} {bits}",
                P,
                C,
                const({**dict.fromkeys(on, 1), "other": bits}),
            )


def guide_cases(kind):
    for n in (1, 2, 16):
        for h, v in ((0, 0), (1, 0), (0, 1), (2, 3)):
            yield (
                f"{kind} guides {n} {h} {v}",
                "guides:GlobalGuidesParser",
                "guides:GuidesCompiler",
                lambda c, n=n, h=h, v=v: {
                    d: [
                        [{"pos": c.num(), "angle": 0.0} for _ in range(n)] for _ in range(k)
                    ]
                    for d, k in (("h", h), ("v", v))
                },
                None,
                {"num_masters": n},
            )


def property_cases():
    def guide(c, i, color, name):
        d = {"index": i}
        if color:
            d["color"] = color
        if name:
            d["name"] = name
        return d

    for color in (None, "#000000", "#000001", "#010000", "#0a0b0c", "#ff8000", "#ffffff"):
        for name in ("", "Guide", "\u20ac"):
            yield (
                f"guide properties {color} {name}",
                "guides:GuidePropertiesParser",
                "guides:GuidePropertiesCompiler",
                lambda c, color=color, name=name: {
                    "h": [guide(c, 1, color, name), guide(c, 3, None, "")],
                    "v": [guide(c, 2, color, name)],
                },
            )
    for h, v in ((0, 0), (0, 2), (2, 0)):
        yield (
            f"guide properties {h} {v}",
            "guides:GuidePropertiesParser",
            "guides:GuidePropertiesCompiler",
            lambda c, h=h, v=v: {
                k: [guide(c, i + 1, "#123456", "G") for i in range(n)]
                for k, n in (("h", h), ("v", v))
            },
        )


# ---------------------------------------------------------------- glyph cases

POINTS = {"move": 1, "line": 1, "qcurve": 1, "curve": 3}
SHAPES = (
    (),
    ("move",),
    ("move", "line", "line"),
    ("move", "curve", "line"),
    ("move", "qcurve", "qcurve", "line", "move", "curve", "curve"),
)


def nodes(c, shape, masters, flags=None):
    return [
        {
            "type": k,
            "flags": c.num((0, 15)) if flags is None else flags,
            "points": [
                [(c.num(COORD), c.num(COORD)) for _ in range(POINTS[k])]
                for _ in range(masters)
            ],
        }
        for k in shape
    ]


def outline(c, shape, masters):
    return {
        "num_masters": masters,
        "nodes": nodes(c, shape, masters, 9 if masters > 4 else 3),
    }


def num_values(data):
    """Twice the number of values which follow the number of nodes."""
    return 2 * sum(1 + 2 * sum(map(len, n["points"])) for n in data.get("nodes", ()))


def outline_cases(label, P, C):
    for masters in (1, 2, 3, 16):
        for shape in SHAPES:
            yield (
                f"{label} {masters} {'-'.join(shape)}",
                P,
                C,
                lambda c, m=masters, s=shape: outline(c, s, m),
                None,
                None,
                lambda d, chunks, data: expected(
                    d, chunks, 0, data["num_masters"], num_values(data), len(data["nodes"])
                ),
            )


def expected(d, chunks, at, *values):
    """The numbers at these positions of the tape."""
    for i, v in enumerate(values):
        x = chunks[at + i][0] if at + i < len(chunks) else None
        if x is None or x.op != "encoded":
            d.bad.append((f"number {i}", None, f"expected {v}, found no number"))
            continue
        d.term(f"number {i}", K(v) if not isinstance(v, T) else v, x.args[1])


def glyph_facts(d, chunks, data):
    """Counts which the reader skips, at the place where the section starts."""
    at = [i for i, (x, n) in enumerate(chunks) if isk(x) and kv(x) == b"\x08"]
    if not at:
        d.bad.append(("outline", None, "no outline section"))
        return
    expected(
        d,
        chunks,
        at[0] + 1,
        data["num_masters"],
        num_values(data),
        len(data.get("nodes", ())),
    )
    tth = data.get("tth")
    if tth:
        at = [i for i, (x, n) in enumerate(chunks) if isk(x) and kv(x) == b"\x0a"]
        if not at:
            d.bad.append(("instructions", None, "no instructions"))
            return
        at = at[-1] if len(at) > 1 else at[0]
        size = tth_size(tth)
        expected(d, chunks, at + 1, size, len(tth))


def tth_size(tth):
    n = small(len(tth)) + 3
    for cmd in tth:
        n += 1 + sum(small(v) for v in cmd["params"].values())
    return n


def small(v):
    return 1 if -107 <= v <= 107 else 2 if -1131 <= v <= 1131 else 5


def glyph(c, masters=1, shape=("move", "line", "line"), **more):
    return {
        "name": "A.alt",
        "num_masters": masters,
        "nodes": nodes(c, shape, masters, 9),
        "metrics": [tuple(c.nums(2)) for _ in range(masters)],
        **more,
    }


def hints(c, masters, h, v, masks=()):
    d = {
        k: [[{"pos": c.num(), "width": c.num()} for _ in range(masters)] for _ in range(n)]
        for k, n in (("h", h), ("v", v))
    }
    if masks:
        d["hintmasks"] = [(k, c.num()) for k in masks]
    return d


def component(c, masters):
    return {
        "gid": c.num(),
        "offsetX": c.nums(masters),
        "offsetY": c.nums(masters),
        "scaleX": c.reals(masters),
        "scaleY": c.reals(masters),
    }


def imported(c, contours, points, code, hdmx):
    d = {
        "width": c.num(U32),
        "lsb": c.num(),
        "unknown1": c.num(),
        "unknown2": c.num(),
        "unknown3": c.num(),
        "bbox": c.nums(4),
        "num_contours": contours,
        "endpoints": c.nums(max(contours, 0), U32),
    }
    if points:
        d["nodes"] = [
            {"flags": f, "on": f & 1, "point": (c.num(COORD), c.num(COORD))} for f in points
        ]
    d["instructions"] = mk("asm", K(code), ty="list") if code else []
    d["hdmx"] = c.nums(hdmx, U8)
    return d


def record_cases():
    P, C = "glyph:GlyphParser", "glyph:GlyphCompiler"

    def case(label, make, masters=1, want=None):
        return label, P, C, make, want, {"num_masters": masters}, glyph_facts

    for m in (1, 2, 4):
        for shape in SHAPES:
            yield case(
                f"glyph {m} {'-'.join(shape)}",
                lambda c, m=m, shape=shape: glyph(c, m, shape),
                m,
            )
        for h, v in ((0, 1), (1, 0), (2, 3)):
            for masks in ((), ("h",), ("v", "r", "h", "v")):
                yield case(
                    f"hints {m} {h} {v} {masks}",
                    lambda c, m=m, h=h, v=v, k=masks: glyph(
                        c, m, hints=hints(c, m, h, v, k)
                    ),
                    m,
                )
        yield case(
            f"hintmasks {m}",
            lambda c, m=m: glyph(c, m, hints=hints(c, m, 0, 0, ("r", "r"))),
            m,
        )
        for n in (1, 2, 3):
            yield case(
                f"components {m} {n}",
                lambda c, m=m, n=n: glyph(
                    c, m, (), components=[component(c, m) for _ in range(n)]
                ),
                m,
            )
            yield case(
                f"kerning {m} {n}",
                lambda c, m=m, n=n: glyph(
                    c, m, kerning={7 * i + 1: c.nums(m) for i in range(n)}
                ),
                m,
            )
            yield case(
                f"guides {m} {n}",
                lambda c, m=m, n=n: glyph(
                    c,
                    m,
                    guides={
                        d: [
                            [{"pos": c.num(), "angle": 0.0} for _ in range(m)]
                            for _ in range(k)
                        ]
                        for d, k in (("h", n), ("v", n - 1))
                    },
                ),
                m,
            )
    for name in ("A", ".notdef", "\xe4\u20ac", "n" * 200):
        yield case(f"name {name[:9]}", lambda c, name=name: {**glyph(c), "name": name})
    for cmds in ((0,), (1, 2), (3, 4, 0), tuple(range(6)), tuple(range(14)) * 9):
        yield case(
            f"instructions {cmds[:9]} {len(cmds)}", lambda c, k=cmds: tth_glyph(c, k)
        )
    for i, cmd in enumerate(COMMANDS):
        yield case(f"instruction {cmd[0]}", lambda c, i=i: tth_glyph(c, (i, i)))
    for contours, points in ((0, ()), (1, (1, 0, 1)), (2, (1, 1, 1, 255, 64)), (1, (0,))):
        for hdmx in (0, 3):
            for code in (b"", b"\xb0\x01\x2d" * (50 * hdmx + 1)):
                yield case(
                    f"imported {contours} {len(points)} {hdmx} {len(code)}",
                    lambda c, k=contours, p=points, h=hdmx, code=code: glyph(
                        c, imported=imported(c, k, p, code, h)
                    ),
                    want=no_code,
                )
    yield case(
        "all sections",
        lambda c: glyph(
            c,
            2,
            hints=hints(c, 2, 1, 1, ("v",)),
            guides={"h": [[{"pos": c.num(), "angle": 0.0}] * 2], "v": []},
            components=[component(c, 2)],
            kerning={1: c.nums(2)},
            imported=imported(c, 1, (1, 0), b"", 1),
        ),
        2,
        no_code,
    )


def no_code(d):
    """An empty program may be read as any empty value."""
    if d["imported"]["instructions"]:
        return d
    return {**d, "imported": {**d["imported"], "instructions": sc.ANY}}


COMMANDS = [
    ("AlignTop", "pt", "zone"),
    ("AlignBottom", "pt", "zone"),
    ("SingleLinkH", "pt1", "pt2", "stem", "align"),
    ("SingleLinkV", "pt1", "pt2", "stem", "align"),
    ("DoubleLinkH", "pt1", "pt2", "stem"),
    ("DoubleLinkV", "pt1", "pt2", "stem"),
    ("AlignH", "pt", "align"),
    ("AlignV", "pt", "align"),
    ("InterpolateH", "pti", "pt1", "pt2", "align"),
    ("InterpolateV", "pti", "pt1", "pt2", "align"),
    ("MDeltaH", "pt", "shift", "ppm1", "ppm2"),
    ("MDeltaV", "pt", "shift", "ppm1", "ppm2"),
    ("FDeltaH", "pt", "shift", "ppm1", "ppm2"),
    ("FDeltaV", "pt", "shift", "ppm1", "ppm2"),
]


def tth_glyph(c, which):
    g = glyph(c)
    values = (3, -1, 0, 108, 1131, 1132, -1131, 107, -107, -4000)
    tth = []
    for i, w in enumerate(which):
        name, *params = COMMANDS[w]
        tth.append(
            {
                "cmd": name,
                "params": {p: values[(i + j) % len(values)] for j, p in enumerate(params)},
            }
        )
    g["tth"] = tth
    return g


def glyph_entry_cases():
    G = "glyph:"
    for m in (1, 2, 3, 16):
        for n in SIZES:
            yield (
                f"anchors {m} {n}",
                G + "GlyphAnchorsParser",
                G + "GlyphAnchorsCompiler",
                lambda c, m=m, n=n: [{"x": c.nums(m), "y": c.nums(m)} for _ in range(n)],
                None,
                {"num_masters": m},
            )
        yield (
            f"mask metrics {m}",
            G + "MaskMetricsMMParser",
            G + "MaskMetricsMMCompiler",
            lambda c, m=m: [tuple(c.nums(2)) for _ in range(m - 1)],
            None,
            {"num_masters": m},
        )
    for n in SIZES:
        yield (
            f"anchor properties {n}",
            G + "GlyphAnchorsSuppParser",
            G + "GlyphAnchorsSuppCompiler",
            lambda c, n=n: [{"hue": c.num(), "data": c.num()} for _ in range(n)],
        )
        yield (
            f"sketch {n}",
            G + "GlyphSketchParser",
            G + "GlyphSketchCompiler",
            lambda c, n=n: [tuple(c.nums(3)) for _ in range(n)],
        )
        yield (
            f"vsb {n}",
            "base:EncodedValueListParser",
            "base:EncodedValueListCompiler",
            numbers(n),
        )
        yield (
            f"unicodes {n}",
            G + "GlyphUnicodeParser",
            G + "GlyphUnicodesCompiler",
            numbers(n, U16),
        )
        yield (
            f"more unicodes {n}",
            G + "GlyphUnicodeSuppParser",
            G + "GlyphUnicodesSuppCompiler",
            numbers(n, U32),
        )
    yield (
        "sketch order",
        G + "GlyphSketchParser",
        G + "GlyphSketchCompiler",
        const([(3, 1, 2), (1, 9, 9), (3, 1, 2), (0, 0, 0)]),
    )
    for x, y in ((0, 0), (1, 0), (0, 2), (3, 3)):
        yield (
            f"links {x} {y}",
            G + "LinkParser",
            G + "LinksCompiler",
            lambda c, x=x, y=y: {
                k: [tuple(c.nums(2)) for _ in range(n)] for k, n in (("x", x), ("y", y))
            },
        )
    yield (
        "links repeated",
        G + "LinkParser",
        G + "LinksCompiler",
        const({"x": [(5, 1), (5, 2), (1, 5), (5, 1)], "y": [(3, 3), (-1, 2), (-1, 4)]}),
    )
    yield (
        "origin",
        G + "GlyphOriginParser",
        G + "GlyphOriginCompiler",
        lambda c: {"x": c.num(I16), "y": c.num(I16)},
    )
    yield (
        "single mask metrics",
        G + "MaskMetricsParser",
        G + "MaskMetricsCompiler",
        lambda c: tuple(c.nums(2, I16)),
    )
    yield from ps_options(
        "Glyph", ("hint_replacement", "horizontal_3_stem", "vertical_3_stem"), [0, 17, 28]
    )
    yield from gdef_cases()
    yield from property_cases()
    for w in ([1.0], [0.25, 0.75], [0.07, 0.29, 0.57, 0.07], [0.0, 1.0]):
        for shape in SHAPES[:4]:
            yield (
                f"mask {w} {'-'.join(shape)}",
                G + "MaskParser",
                G + "MaskCompiler",
                lambda c, w=w, shape=shape: {
                    "weight_vector": w,
                    **outline(c, shape, len(w)),
                },
                None,
                {"num_masters": len(w)},
                lambda d, chunks, data: expected(
                    d,
                    chunks,
                    1 + len(data["weight_vector"]),
                    data["num_masters"],
                    num_values(data),
                    len(data["nodes"]),
                ),
            )


def gdef_cases():
    P, C = "glyph:GlyphGDEFParser", "glyph:GlyphGDEFCompiler"
    for k in ("base", "ligature", "mark", "component"):
        yield f"GDEF {k}", P, C, const({"glyph_class": k})
    yield "GDEF nothing", P, C, const({})
    yield "GDEF unassigned", P, C, const({"glyph_class": "unassigned"}), {}
    yield "GDEF None", P, C, const({"glyph_class": None}), {}
    for n in (1, 2, 3):
        yield (
            f"GDEF anchors {n}",
            P,
            C,
            lambda c, n=n: {
                "anchors": [
                    {"x": c.num(), "y": c.num(), **({"name": f"a{i} "} if i != 1 else {})}
                    for i in range(n)
                ]
            },
        )
        yield (
            f"GDEF carets {n}",
            P,
            C,
            lambda c, n=n: {"carets": [tuple(c.nums(2)) for _ in range(n)]},
        )
        yield (
            f"GDEF classes {n}",
            P,
            C,
            lambda c, n=n: {"glyph_class": "mark", "ot_classes": c.nums(n)},
        )
    yield "GDEF zero caret", P, C, const({"carets": [(0, 0)]})
    yield "GDEF caret order", P, C, const({"carets": [(300, -1), (100, 2), (300, -1)]})
    yield (
        "GDEF all",
        P,
        C,
        lambda c: {
            "glyph_class": "ligature",
            "anchors": [{"x": c.num(), "y": c.num(), "name": "top"}],
            "carets": [tuple(c.nums(2))],
            "ot_classes": c.nums(2),
        },
    )


# ------------------------------------------------------------- TrueType cases

INFO = (
    "max_zones max_twilight_points max_storage max_function_defs max_instruction_defs "
    "max_stack_elements head_units_per_em head_mac_style head_lowest_rec_ppem "
    "head_creation head_creation2 head_font_direction_hint os2_us_weight_class "
    "os2_us_width_class os2_fs_type os2_y_subscript_x_size os2_y_subscript_y_size "
    "os2_y_subscript_x_offset os2_y_subscript_y_offset os2_y_superscript_x_size "
    "os2_y_superscript_y_size os2_y_superscript_x_offset os2_y_superscript_y_offset "
    "os2_y_strikeout_size os2_y_strikeout_position os2_s_family_class "
    "os2_s_typo_ascender os2_s_typo_descender os2_s_typo_line_gap os2_fs_selection "
    "os2_us_win_ascent os2_us_win_descent"
).split() + ["Average Width"]


def truetype_cases():
    T_ = "truetype:TrueType"
    P, C = T_ + "InfoParser", T_ + "InfoCompiler"
    yield "info none", P, C, const({})
    yield "info all", P, C, lambda c: {k: c.num() for k in INFO}
    for k in INFO:
        yield f"info {k}", P, C, lambda c, k=k: {k: c.num()}
        yield f"info {k} is 0", P, C, const({k: 0})
    yield "info panose", P, C, lambda c: {"OpenTypeOS2Panose": c.nums(10, U8)}
    for k in ("Hdmx PPMs 1", "Hdmx PPMs 2"):
        for n in (0, 1, 3):
            yield f"info {k} {n}", P, C, lambda c, k=k, n=n: {k: c.nums(n, U8)}
    yield (
        "info codepages",
        P,
        C,
        lambda c: {
            "Codepages": {
                "os2_ul_code_page_range1": c.num(U32),
                "os2_ul_code_page_range2": c.num(U32),
            }
        },
    )
    for flags in ([], [0], [1, 3, 15], list(range(16))):
        for options in (
            [],
            ["use_custom_tt_values"],
            ["create_vdmx", "add_null_cr_space"],
            ["use_custom_tt_values", "3", "9", "15"],
            ["add_null_cr_space", "4", "5"],
        ):
            yield (
                f"info flags {flags} {options}",
                P,
                C,
                const({"head_flags": {"flags": flags, "options": options}}),
            )
    counts = ((0, 0), (1, 0), (0, 1), (2, 3), (3, 1))
    for v, h in counts:
        yield (
            f"stems {v} {h}",
            T_ + "StemsParser",
            T_ + "StemsCompiler",
            lambda c, v=v, h=h: {
                k: [
                    {"value": c.num(), "name": TEXTS[i], "round": {6: c.num()}}
                    for i in range(n)
                ]
                for k, n in (("ttStemsV", v), ("ttStemsH", h))
            },
        )
        for kind, rounds in (("", (2, 3, 4, 5)), ("1", (1,)), ("23", (2, 3))):
            yield (
                f"stem ppems {kind} {v} {h}",
                f"{T_}StemPpems{kind}Parser",
                f"{T_}StemPpems{kind}Compiler",
                lambda c, v=v, h=h, r=rounds: {
                    k: [{"stem": i, "round": {x: c.num() for x in r}} for i in range(n)]
                    for k, n in (("ttStemsV", v), ("ttStemsH", h))
                },
                None,
                {"ttStemsV_count": v, "ttStemsH_count": h},
            )
            yield (
                f"stem ppems {kind} {v} {h} of a file",
                f"{T_}StemPpems{kind}Parser",
                f"{T_}StemPpems{kind}Compiler",
                lambda c, v=v, h=h, r=rounds: {
                    k: [{"stem": i, "round": {x: c.num() for x in r}} for i in range(n)]
                    for k, n in (("ttStemsV", v), ("ttStemsH", h))
                },
                None,
                [
                    ("F", "MasterCount", 2),
                    (
                        "T",
                        "TrueTypeStems",
                        {
                            k: [{"value": 1, "name": "", "round": {6: 1}}] * n
                            for k, n in (("ttStemsV", v), ("ttStemsH", h))
                        },
                    ),
                    ("F", "FLVersion", {"platform": "windows", "version": [5, 2, 1, 0]}),
                ],
            )
        yield (
            f"zones {v} {h}",
            T_ + "ZonesParser",
            T_ + "ZonesCompiler",
            lambda c, v=v, h=h: {
                k: [
                    {"position": c.num(), "value": c.num(), "name": TEXTS[i]}
                    for i in range(n)
                ]
                for k, n in (("ttZonesT", v), ("ttZonesB", h))
            },
        )
    for side, other in (("ttZonesT", "ttZonesB"), ("ttZonesB", "ttZonesT")):
        yield (
            f"zones only {side}",
            T_ + "ZonesParser",
            T_ + "ZonesCompiler",
            lambda c, side=side: {side: [{"position": c.num(), "value": 9, "name": "Z"}]},
            lambda d, other=other: {**d, other: []},
        )
    for d in (
        {},
        {0: {9: 1}},
        {0: {9: -1, 10: 1}, 2: {9: 0}},
        {1: {20: 0}, 7: {11: -8, 12: 8}},
        {3: {0: 0}},
    ):
        yield (
            f"zone deltas {d}",
            T_ + "ZoneDeltasParser",
            T_ + "ZoneDeltasCompiler",
            const(d),
        )
    yield (
        "zone delta",
        T_ + "ZoneDeltasParser",
        T_ + "ZoneDeltasCompiler",
        lambda c: {4: {12: c.num()}, 5: {12: c.num(), 13: c.num()}},
    )
    for n in SIZES:
        yield (
            f"vdmx {n}",
            "truetype:VdmxParser",
            "truetype:VdmxCompiler",
            lambda c, n=n: [
                {"pelHeight": c.num(), "max": c.num(), "min": c.num()} for _ in range(n)
            ],
        )
        yield (
            f"gasp {n}",
            "truetype:GaspParser",
            "truetype:GaspCompiler",
            lambda c, n=n: [{"maxPpem": c.num(U16), "flags": c.num(U16)} for _ in range(n)],
        )


CASES = {
    "C01": list(font_cases()),
    "C02": list(record_cases()),
    "C03": list(glyph_entry_cases()),
    "C04": list(truetype_cases()),
}
