"""C13-C21: the UFO export, decided on abstract source documents.

A document fixes the shape of a VFB (entries, masters, node types, names); all values are
provenance leaves.  `VfbToUfoBuilder` and everything below it is interpreted abstractly
on it; the resulting fonts are compared, as trees of terms over the leaves, with each
other and with the reviewed correspondence tables below.
"""

from .. import interp as I
from .. import scene as sc
from .. import terms as t
from ..project import AnchorLost
from ..terms import K, T

BUILDER = "vfbLib.ufo.builder:VfbToUfoBuilder"
VFB = "vfbLib.vfb.vfb:Vfb"
ENTRY = "vfbLib.vfb.entry:VfbEntry"

PS_LISTS = (
    "blue_values",
    "other_blues",
    "family_blues",
    "family_other_blues",
    "stem_snap_h",
    "stem_snap_v",
)


class Doc:
    """Builds entries; every value is a leaf named after its place."""

    def __init__(self, s, masters=4, axes=2):
        self.s, self.M, self.axes = s, masters, axes
        self.F, self.G, self.Ms, self.T = (s.enum(n) for n in "FGMT")
        self.entries = []
        self.leafs = {}
        self.ps_nums = 0
        self.labels = None

    def key(self, name):
        group, _, n = name.partition(".")
        table = {"F": self.F, "G": self.G, "M": self.Ms, "T": self.T}[group]
        if n not in table:
            raise AnchorLost(f"entry key {name} not found")
        return table[n]

    def label(self, k):
        """The name of the entry type with ID `k` in the table of the library."""
        if self.labels is None:
            ip = self.s.ip
            self.labels = {}
            ref = ip.glob("vfbLib.constants", "parser_classes")
            if isinstance(ref, I.Ref):
                for e in ip.obj(self.s.st, ref).entries:
                    key = getattr(e, "key", None)
                    v = getattr(e, "val", None)
                    if isinstance(v, I.Tup) and isinstance(key, T):
                        self.labels[key] = v.items[0]
        return self.labels.get(self.s.lit(k), K(str(k)))

    def add(self, name, data):
        s = self.s
        k = self.key(name)
        e = s.inst(
            ENTRY,
            _id=k,
            key=self.label(k),
            _data=data,
            temp_masters=None,
            parser=None,
            compiler=None,
        )
        self.entries.append(e)
        return e

    def L(self, path, ty="int", rng=(-3000, 3000)):
        x = self.leafs[path] = self.s.leaf(path, ty, rng)
        return x

    def mm(self, path, ty="int", rng=(-3000, 3000)):
        return [self.L(f"{path}@{m}", ty, rng) for m in range(self.M)]

    def v(self, path):
        """The leaf of that name."""
        return self.leafs[path]

    # -------------------------------------------------------------- structures

    def nodes(self, g, kinds, flags=()):
        out = []
        for i, ty in enumerate(kinds):
            n = 3 if ty == "curve" else 1
            out.append(
                {
                    "type": ty,
                    "flags": flags[i] if i < len(flags) else 0,
                    "points": [
                        [
                            (self.L(f"{g}.n{i}.x{k}@{m}"), self.L(f"{g}.n{i}.y{k}@{m}"))
                            for k in range(n)
                        ]
                        for m in range(self.M)
                    ],
                }
            )
        return out

    def hints(self, g, h=2, v=2, masks=None):
        d = {
            ax: [
                [
                    {
                        "pos": self.L(f"{g}.{ax}{j}.pos@{m}"),
                        "width": self.L(f"{g}.{ax}{j}.width@{m}"),
                    }
                    for m in range(self.M)
                ]
                for j in range(n)
            ]
            for ax, n in (("h", h), ("v", v))
        }
        if masks is not None:
            d["hintmasks"] = list(masks)
        return d

    def guides(self, g, h=2, v=2):
        return {
            ax: [
                [
                    {
                        "pos": self.L(f"{g}.guide.{ax}{j}.pos@{m}"),
                        "angle": self.L(f"{g}.guide.{ax}{j}.angle@{m}", "float"),
                    }
                    for m in range(self.M)
                ]
                for j in range(n)
            ]
            for ax, n in (("h", h), ("v", v))
        }

    def component(self, g, i, gid):
        return {
            "gid": gid,
            "offsetX": self.mm(f"{g}.c{i}.dx"),
            "offsetY": self.mm(f"{g}.c{i}.dy"),
            "scaleX": self.mm(f"{g}.c{i}.sx", "float"),
            "scaleY": self.mm(f"{g}.c{i}.sy", "float"),
        }

    def metrics(self, g):
        return [(self.L(f"{g}.w@{m}"), self.L(f"{g}.h@{m}")) for m in range(self.M)]

    def glyph(self, name, nodes=None, comps=None, kern=None, guides=None, **more):
        d = {"name": name, "num_masters": self.M, "metrics": self.metrics(name)}
        d["nodes"] = nodes if nodes is not None else []
        if comps:
            d["components"] = comps
        if kern:
            d["kerning"] = {k: self.mm(f"{name}.k{k}") for k in kern}
        if guides:
            d["guides"] = guides
        d.update(more)
        self.add("G.Glyph", d)
        return d

    # ------------------------------------------------------------------ sources

    def vfb(self, **attrs):
        s = self.s
        lst = s.ip.alloc(s.st, I.ListO(tuple(I.One(e) for e in self.entries)))
        a = dict(minimal=False, num_masters=self.M)
        a.update(attrs)
        return s.inst(VFB, entries=lst, **a)

    def masters(self):
        self.add("F.MasterCount", self.M)
        self.add("F.AxisCount", self.axes)
        for n in ("Weight", "Width", "Optical Size", "Custom")[: self.axes]:
            self.add("F.AxisName", n)
        for m in range(self.M):
            self.add("M.MasterName", f"Master{m}")
            self.add(
                "M.MasterLocation",
                (m + 1, tuple(self.L(f"loc{a}@{m}", "float") for a in range(4))),
            )

    def ps_info(self, nums=2):
        self.ps_nums = nums
        for n in PS_LISTS:
            self.add(f"F.{n}_num", nums)
        for m in range(self.M):
            d = {
                k: self.L(f"ps.{k}@{m}")
                for k in (
                    "ascender",
                    "descender",
                    "x_height",
                    "cap_height",
                    "blue_shift",
                    "blue_fuzz",
                    "force_bold",
                )
            }
            d["blue_scale"] = self.L(f"ps.blue_scale@{m}", "float")
            for n in PS_LISTS:
                d[n] = [self.L(f"ps.{n}{j}@{m}") for j in range(4)]
            self.add("M.PostScriptInfo", d)

    def stems(self):
        T = {}
        dup = {
            "ttStemsH": [(20, 30, 40, 50)],
            "ttStemsV": [(21, 31, 41, 51), (22, 32, 42, 52)],
        }
        ppm6 = {"ttStemsH": [60], "ttStemsV": [61, 62]}
        ppm1 = {"ttStemsH": [10], "ttStemsV": [11, 12]}
        names = {"ttStemsH": ["H: a"], "ttStemsV": ["V: a", ""]}
        self.add(
            "T.TrueTypeStemPPEMs",
            {
                d: [
                    {"stem": i, "round": dict(zip((2, 3, 4, 5), r))}
                    for i, r in enumerate(dup[d])
                ]
                for d in dup
            },
        )
        self.add(
            "T.TrueTypeStems",
            {
                d: [
                    {
                        "value": self.L(f"stem.{d}{i}.width"),
                        "name": names[d][i],
                        "round": {6: ppm6[d][i]},
                    }
                    for i in range(len(names[d]))
                ]
                for d in names
            },
        )
        self.add(
            "T.TrueTypeStemPPEMs1",
            {
                d: [{"stem": i, "round": {1: r}} for i, r in enumerate(ppm1[d])]
                for d in ppm1
            },
        )
        return T

    def zones(self):
        self.add(
            "T.TrueTypeZones",
            {
                d: [
                    {
                        "position": self.L(f"zone.{n}.pos"),
                        "value": self.L(f"zone.{n}.width"),
                        "name": n,
                    }
                    for n in ns
                ]
                for d, ns in (
                    ("ttZonesT", ["top1", "top2"]),
                    ("ttZonesB", ["bot1", "bot2"]),
                )
            },
        )
        self.add(
            "T.TrueTypeZoneDeltas",
            {1: {12: self.L("delta.bot2.12")}, 2: {13: self.L("delta.top1.13")}},
        )


FONT_TEXT = (
    "F.full_name F.font_name F.family_name F.weight F.copyright F.notice F.source "
    "F.trademark F.designer F.designer_url F.vendor_url F.width F.License F.LicenseURL "
    "F.apple_name F.SampleText F.vendor F.tt_u_id F.tt_version F.note "
    "F.pref_family_name F.style_name F.pref_style_name"
).split()
FONT_INT = (
    "F.underline_position F.underline_thickness F.unique_id F.fond_id F.version_major "
    "F.version_minor F.year F.upm F.default_character T.hhea_ascender T.hhea_descender "
    "T.hhea_line_gap F.weight_code F.is_fixed_pitch"
).split()
TTINFO_INT = (
    "max_zones max_twilight_points max_storage max_function_defs max_instruction_defs "
    "max_stack_elements head_units_per_em os2_us_weight_class os2_us_width_class "
    "head_lowest_rec_ppem head_font_direction_hint os2_y_subscript_x_size "
    "os2_y_subscript_y_size os2_y_subscript_x_offset os2_y_subscript_y_offset "
    "os2_y_superscript_x_size os2_y_superscript_y_size os2_y_superscript_x_offset "
    "os2_y_superscript_y_offset os2_y_strikeout_size os2_y_strikeout_position "
    "os2_s_family_class os2_s_typo_ascender os2_s_typo_descender os2_s_typo_line_gap "
    "os2_fs_selection os2_us_win_ascent os2_us_win_descent"
).split()

TTH = [
    ("AlignTop", {"pt": 0, "zone": 1}),
    ("AlignBottom", {"pt": 1, "zone": 1}),
    ("SingleLinkH", {"pt1": 0, "pt2": 1, "stem": 0, "align": 0}),
    ("SingleLinkV", {"pt1": 2, "pt2": 3, "stem": 1, "align": 1}),
    ("SingleLinkV", {"pt1": 2, "pt2": 3, "stem": -2, "align": -1}),
    ("DoubleLinkH", {"pt1": 3, "pt2": 2, "stem": -1}),
    ("DoubleLinkV", {"pt1": 3, "pt2": 2, "stem": 0}),
    ("AlignH", {"pt": 4, "align": 2}),
    ("AlignV", {"pt": 5, "align": 3}),
    ("InterpolateH", {"pti": 0, "pt1": 1, "pt2": 2, "align": 4}),
    ("InterpolateV", {"pti": 3, "pt1": 4, "pt2": 5, "align": -1}),
]


def font_info(d):
    for k in FONT_TEXT:
        d.add(k, d.L(k, "str"))
    for k in FONT_INT:
        d.add(k, d.L(k))
    d.add("F.italic_angle", d.L("F.italic_angle", "float"))
    d.add("F.panose", [d.L(f"panose{i}") for i in range(10)])
    d.add("F.unicoderanges", [d.L(f"urange{i}") for i in range(2)])
    d.add(
        "F.fontnames",
        [
            (
                d.L("rec.nid"),
                d.L("rec.pid"),
                d.L("rec.eid"),
                d.L("rec.lid"),
                d.L("rec.s", "str"),
            )
        ],
    )
    info = {
        k: d.L(f"tt.{k}", rng=(0, 65535) if k == "os2_s_family_class" else (-3000, 3000))
        for k in TTINFO_INT
    }
    info["Average Width"] = d.L("tt.avg")
    info["head_flags"] = {"flags": [d.L("tt.flag0"), d.L("tt.flag1")], "options": []}
    d.add("F.ttinfo", info)
    d.add("T.gasp", [{"maxPpem": d.L("gasp.max"), "flags": 5}])


def full(s, masters=4, axes=2, nums=2):
    d = Doc(s, masters, axes)
    d.masters()
    font_info(d)
    d.ps_info(nums)
    d.add("F.GlobalGuides", d.guides("font"))
    d.add(
        "F.GlobalGuideProperties",
        {"h": [{"index": 2, "name": "gname", "color": "#ff0080"}], "v": []},
    )
    d.stems()
    d.zones()
    for k in ("T.stemsnaplimit", "T.zoneppm", "T.codeppm", "T.dropoutppm"):
        d.add(k, d.L(k))
    d.add("F.customdata", d.L("F.customdata", "str"))
    d.add("F.MetricsClassFlags", {".m": d.L("metricsflag")})
    d.add("F.KerningClassFlags", {"_L": (1024, 0), "_R": (2048, 0)})
    d.add("F.GlyphClass", "_L: A' B")
    d.add("F.GlyphClass", "_R: B' A")
    d.add("F.GlyphClass", ".m: A B")
    d.add("F.GlyphClass", "lc: A B")
    d.add("F.features", ["feature liga {", "} liga;"])

    # --- an outline glyph with everything attached
    d.glyph(
        "A",
        d.nodes(
            "A",
            [
                "move",
                "line",
                "curve",
                "line",
                "move",
                "qcurve",
                "qcurve",
                "line",
                "move",
                "line",
                "line",
            ],
            [0, 1, 1, 0, 0, 0, 0, 0, 8],
        ),
        kern=[1],
        guides=d.guides("A"),
        hints=d.hints("A", masks=[("h", 0), ("v", 1), ("r", 2), ("h", 1), ("v", 0)]),
        tth=[{"cmd": c, "params": dict(p)} for c, p in TTH]
        + [
            {
                "cmd": c,
                "params": {
                    "pt": 6,
                    "shift": d.L(f"{c}.shift"),
                    "ppm1": d.L(f"{c}.ppm1"),
                    "ppm2": d.L(f"{c}.ppm2"),
                },
            }
            for c in ("MDeltaH", "MDeltaV", "FDeltaH", "FDeltaV")
        ],
    )
    d.add("G.Links", {"x": [(0, 1), (1, -1)], "y": [(1, 2), (2, -2)]})
    d.add("G.unicodes", [d.L("A.u0"), d.L("A.u1")])
    d.add("G.UnicodesNonBMP", [d.L("A.u2")])
    d.add("G.customdata", d.L("A.custom", "str"))
    d.add("G.note", d.L("A.note", "str"))
    d.add(
        "G.GDEFData",
        {
            "anchors": [
                {"name": "top", "x": d.L("A.a0.x"), "y": d.L("A.a0.y")},
                {"x": d.L("A.a1.x"), "y": d.L("A.a1.y")},
            ]
        },
    )
    d.add(
        "G.AnchorsMM",
        [{"x": d.mm(f"A.am{i}.x"), "y": d.mm(f"A.am{i}.y")} for i in range(2)],
    )
    d.add(
        "G.GuideProperties",
        {"h": [{"index": 1, "name": "hname"}], "v": [{"index": 2, "name": "vname"}]},
    )
    d.add(
        "G.Bitmaps",
        [
            {
                "ppm": d.L("bm.ppm"),
                "origin": (d.L("bm.ox"), d.L("bm.oy")),
                "adv": (d.L("bm.ax"), d.L("bm.ay")),
                "size_pixels": (d.L("bm.w"), d.L("bm.h")),
                "bitmap": {"data": [[d.L("bm.r0")], [d.L("bm.r1")]], "preview": ["x"]},
            }
        ],
    )
    d.add(
        "G.image",
        {
            "origin": (d.L("bg.ox"), d.L("bg.oy")),
            "size_units": (d.L("bg.ux"), d.L("bg.uy")),
            "size_pixels": (d.L("bg.w"), d.L("bg.h")),
            "bitmap": {"data": [[d.L("bg.r0")]], "preview": ["x"]},
        },
    )
    d.add("G.mask", {"nodes": d.nodes("A.mask", ["move", "line", "line"])})
    d.add("G.MaskMetrics", (d.L("A.mw@0"), d.L("A.mh@0")))
    d.add(
        "G.MaskMetricsMM",
        [(d.L(f"A.mw@{m}"), d.L(f"A.mh@{m}")) for m in range(1, d.M)],
    )
    # --- a second outline, hints in one set, and a composite of both
    d.glyph(
        "B",
        d.nodes("B", ["move", "line", "line"]),
        kern=[0, 1, 2],
        hints=d.hints("B", 1, 1),
        imported={"instructions": ["SVTCA[0]", "IUP[0]"]},
    )
    d.glyph(
        "C",
        comps=[d.component("C", 0, 0), d.component("C", 1, 1)],
        kern=[0],
        tth=[
            {"cmd": "AlignH", "params": {"pt": 11, "align": 0}},
            {"cmd": "SingleLinkH", "params": {"pt1": 14, "pt2": 15, "stem": -1}},
        ],
    )
    return d


class Export:
    """A document run through the builder."""

    def __init__(
        self,
        project,
        doc=full,
        opts=None,
        vfb=None,
        masters=4,
        axes=2,
        call=True,
        silent=True,
    ):
        self.s = sc.Scene(project)
        self.doc = doc(self.s, masters, axes)
        self.vfb = self.doc.vfb(**(vfb or {}))
        self.b = self.s.new(BUILDER, self.vfb, **(opts or {}))
        self.fonts = None
        if call:
            self.masters = self.s.call(self.b, "get_ufo_masters", silent)
            self.fonts = self.s.items(self.masters)

    def trees(self):
        return [self.s.tree(f) for f in self.fonts]


# ------------------------------------------------------------------ shared helpers


def guarded(rep, rule, where, fn):
    """Run one analysis; a definite exception of the analysed code is a violation."""
    try:
        return fn()
    except I.Raised as r:
        rep.viol(
            rule,
            f"raises-{r.kind if hasattr(r, 'kind') else r.args[0]}",
            real_site(r) or where,
            f"the export of a well-formed document ends in {r.args[0] if r.args else r}",
        )
    except (RecursionError, I.CaseSplit) as e:
        rep.und(rule, where, f"analysis gave up: {type(e).__name__}")
    return None


def real_site(r):
    """Where an exception leaves the analysed code, if not in a model of a library."""
    n = getattr(r, "node", None)
    mod = getattr(n, "_mod", None)
    return n if mod is not None and "/models/" not in str(mod.path) else None


def settle(rep, rule, d, default, tag=""):
    """Turn a finished tree comparison into obligations."""
    for p in d.same:
        rep.ok(rule, f"{tag}{p}")
    for p, why in d.open:
        rep.und(rule, f"{tag}{p}", why)
    for p, site, msg in d.bad:
        rep.viol(rule, f"{tag}{p}", site or default, f"{tag}{p}: {msg}")


def generic(p):
    return p


VARIANTS = [
    ("default", {}, {}),
    ("no-pshints", {"pshints": False}, {}),
    ("minimal", {"minimal": True}, {"minimal": True}),
    ("base64", {"base64": True}, {}),
]

# the same for fonts of other sizes
SIZES = VARIANTS + [
    ("all-values", {}, {}, {"doc": lambda s, m, a: full(s, m, a, 4)}),
    ("single", {}, {}, {"masters": 1, "axes": 0}),
    (
        "single-all",
        {},
        {},
        {"masters": 1, "axes": 0, "doc": lambda s, m, a: full(s, m, a, 4)},
    ),
    ("one-axis", {}, {}, {"masters": 2, "axes": 1}),
]


# leaves which are deliberately not part of a master UFO
NOT_IN_UFO = ("loc",)


def master_leaves(doc):
    return [sid for sid in t.SLOT if sid.endswith("@0>")]


# ------------------------------------------------------------------ C13


def masters(project, rep):
    rule = "master-selection"
    rep.rule(
        rule,
        "the UFO of master i is the UFO of master 0 with every per-master value taken "
        "from index i instead of 0; no value of another master appears in it",
    )
    rep.rule(
        "master-values",
        "every per-master value of the document reaches the UFO of its master",
    )
    where = sc.where(project, "vfbLib.ufo.builder:VfbToUfoBuilder.get_ufo_master")
    for name, opts, vfb in VARIANTS:
        e = guarded(rep, rule, where, lambda: Export(project, full, opts, vfb))
        if e is None:
            continue
        if not e.fonts or len(e.fonts) != e.doc.M:
            n = None if e.fonts is None else len(e.fonts)
            if n is None:
                rep.und(rule, where, "the number of exported masters is not determined")
            else:
                rep.viol(
                    rule,
                    f"{name}:count",
                    where,
                    f"{e.doc.M} masters, but {n} fonts exported",
                )
            continue
        trees = e.trees()
        first = trees[0]
        seen = set()
        for x in sc.leaves(first):
            seen |= sc.source_ids(x)
        foreign = sorted(p for p in seen if "@" in p and not p.endswith("@0"))
        for p in foreign:
            rep.viol(
                rule,
                f"{name}:foreign:{p.split('@')[0]}",
                where,
                f"the first master's UFO contains {p}, a value of another master",
            )
        for i in range(1, len(trees)):
            d = sc.Diff(e.s, sc.renamer(0, i))
            d.walk("", first, trees[i])
            # one report per place, not per master
            settle(rep, rule, d, where, f"{name}:")
        if name == "default":
            for sid in sorted(s for s in t.SLOT if s.endswith("@0>")):
                p = sid[1:-1]
                base = p[:-2]
                if base.startswith("loc"):
                    continue
                if base.startswith("ps.") and base[-1] in "23" and base[3:-1] in PS_LISTS:
                    continue  # beyond the stored number of values
                if p in seen:
                    rep.ok("master-values", p)
                elif sc.has_unknown(first):
                    rep.und("master-values", p, "the UFO is not fully determined")
                else:
                    rep.viol(
                        "master-values",
                        base,
                        where,
                        f"the per-master value {p} does not appear in the exported UFO",
                    )


# ------------------------------------------------------------------ C14


def reach(ip, st, v, acc=None, path="", skip=()):
    """Mutable objects reachable from a value: id -> access path."""
    if acc is None:
        acc = {}
    stack = [(v, path)]
    while stack:
        v, p = stack.pop()
        if isinstance(v, I.Tup):
            for i, x in enumerate(v.items):
                stack.append((x, f"{p}[{i}]"))
        elif isinstance(v, I.IteV):
            stack += [(v.a, p), (v.b, p)]
        elif isinstance(v, I.Ref):
            if v.id in acc:
                continue
            o = ip.obj(st, v)
            acc[v.id] = p
            if isinstance(o, I.ListO):
                stack += [(x, f"{p}[]") for x in _seg_vals(o.segs)]
            elif isinstance(o, I.DictO):
                for k, x in _ent_vals(o.entries):
                    stack.append((k, f"{p}<key>"))
                    ks = t.show(k) if isinstance(k, T) else "…"
                    stack.append((x, f"{p}[{ks}]"))
            elif isinstance(o, I.InstO):
                for k, x in o.attrs:
                    if k not in skip:
                        stack.append((x, f"{p}.{k}"))
    return acc


def _seg_vals(segs):
    for g in segs:
        if isinstance(g, I.One):
            yield g.v
        elif isinstance(g, I.Rep):
            yield from _seg_vals(g.segs)
        else:
            yield from _seg_vals(g.a)
            yield from _seg_vals(g.b)


def _ent_vals(entries):
    for e in entries:
        if isinstance(e, I.DE):
            yield e.key, e.val
        else:
            yield from _ent_vals(e.entries)


class Before(Export):
    """As Export, with the state of the source kept from before the export."""

    def __init__(self, project, doc=full, opts=None, vfb=None, masters=4, axes=2):
        self.s = sc.Scene(project)
        self.doc = doc(self.s, masters, axes)
        self.vfb = self.doc.vfb(**(vfb or {}))
        self.before = self.s.tree(self.vfb)
        self.b = self.s.new(BUILDER, self.vfb, **(opts or {}))
        self.built = self.s.tree(self.vfb)
        self.masters = self.s.call(self.b, "get_ufo_masters", True)
        self.fonts = self.s.items(self.masters)
        self.after = self.s.tree(self.vfb)


def untouched(project, rep):
    rule, again = "source-untouched", "repeatable"
    rep.rule(rule, "building and exporting leaves every object of the Vfb as it was")
    rep.rule(
        again,
        "exporting a second time, from the same builder or a new one, gives the same UFOs "
        "and the same designspace",
    )
    where = sc.where(project, BUILDER + ".build")
    for name, opts, vfb, *size in SIZES:
        kw = {"doc": full, **(size[0] if size else {})}
        e = guarded(rep, rule, where, lambda: Before(project, opts=opts, vfb=vfb, **kw))
        if e is None or not e.fonts:
            rep.und(rule, where, "export not determined")
            continue
        d = sc.Diff(e.s)
        d.walk("vfb", e.before, e.after)
        settle(rep, rule, d, where, f"{name}:")
        first = e.trees()
        wh2 = sc.where(project, BUILDER + ".get_ufo_masters")

        def more():
            m2 = e.s.items(e.s.call(e.b, "get_ufo_masters", True))
            b2 = e.s.new(BUILDER, e.vfb, **opts)
            m3 = e.s.items(e.s.call(b2, "get_ufo_masters", True))
            return m2, m3

        r = guarded(rep, again, wh2, more)
        if r is None:
            continue
        for what, fonts in zip(("same-builder", "new-builder"), r):
            if fonts is None or len(fonts) != len(first):
                if fonts is None:
                    rep.und(again, wh2, "number of fonts not determined")
                else:
                    rep.viol(
                        again, f"{name}:{what}:count", wh2, "a different number of fonts"
                    )
                continue
            for i, f in enumerate(fonts):
                d = sc.Diff(e.s)
                d.walk(f"{what}:", first[i], e.s.tree(f))
                settle(rep, again, d, wh2, f"{name}:")
        # fonts handed out earlier do not change either
        for i, f in enumerate(e.fonts):
            d = sc.Diff(e.s)
            d.walk("earlier:", first[i], e.s.tree(f))
            settle(rep, again, d, wh2, f"{name}:")
        tree = e.s.tree(e.vfb)
        d = sc.Diff(e.s)
        d.walk("vfb-again", e.before, tree)
        settle(rep, rule, d, where, f"{name}:")


# ------------------------------------------------------------------ C15


def isolation(project, rep):
    rule = "no-shared-state"
    rep.rule(
        rule,
        "no mutable object of one exported font is part of another font, of the source "
        "Vfb, or of module or class level state",
    )
    where = sc.where(project, BUILDER + ".get_ufo_master")
    for name, opts, vfb, *size in SIZES:
        kw = {"doc": full, **(size[0] if size else {})}
        e = guarded(rep, rule, where, lambda: Export(project, opts=opts, vfb=vfb, **kw))
        if e is None or not e.fonts:
            rep.und(rule, where, "export not determined")
            continue
        ip, st = e.s.ip, e.s.st
        src = reach(ip, st, e.vfb, path="vfb")
        glob = set(ip.gstate.heap)
        fonts = [reach(ip, st, f, path="font") for f in e.fonts]
        for i, f in enumerate(fonts):
            for oid, p in f.items():
                if oid in src:
                    site = ip.wrote.get(oid)
                    rep.viol(
                        rule,
                        f"{name}:source:{p}",
                        site or where,
                        f"{p} of an exported font is the object {src[oid]} of the source",
                    )
                elif oid in glob:
                    rep.viol(
                        rule,
                        f"{name}:global:{p}",
                        where,
                        f"{p} of an exported font is an object of module or class level",
                    )
                elif any(oid in g for j, g in enumerate(fonts) if j != i):
                    rep.viol(
                        rule,
                        f"{name}:master:{p}",
                        ip.wrote.get(oid) or where,
                        f"{p} is one object shared by the fonts of several masters",
                    )
                else:
                    rep.ok(rule, f"{name}:{p}")
