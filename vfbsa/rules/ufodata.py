"""C16-C20: what the exported UFO says, against reviewed correspondence tables.

The expected side is written here, over the same provenance leaves, from the meaning of
the VFB entries; the found side is the abstract result of `VfbToUfoBuilder`.
"""

from .. import scene as sc
from .. import terms as t
from ..scene import ANY, Guarded
from ..terms import NONE, K
from . import ufo
from .ufo import Export, full, guarded, settle

B = "vfbLib.ufo.builder:VfbToUfoBuilder"
TTLIB = "com.fontlab.v2.tth"
TTPROG = "com.fontlab.ttprogram"
TTINST = "public.truetype.instructions"
PSHINTS = "com.adobe.type.autohint.v2"


class X:
    """Expected values for master `m` of an export."""

    def __init__(self, e, m, minimal=False, pshints=True, base64=False):
        self.e, self.s, self.d, self.m = e, e.s, e.doc, m
        self.minimal, self.pshints, self.base64 = minimal, pshints, base64

    def v(self, path):
        return self.d.v(path)

    def at(self, path):
        return self.d.v(f"{path}@{self.m}")

    def spec(self, fn, *args):
        return self.s.tree(self.s.func(f"spec.ufo:{fn}", *args))

    # ------------------------------------------------------------------- pieces

    def guide(self, base, ax, j, **more):
        pos = self.at(f"{base}.guide.{ax}{j}.pos")
        angle = self.spec("guide_angle", self.at(f"{base}.guide.{ax}{j}.angle"), ax == "v")
        x, y = (pos, 0) if ax == "v" else (0, pos)
        return {"angle": angle, "x": x, "y": y, **more}

    def pt(self, g, i, k=0, ty=None, smooth=False):
        return (
            self.at(f"{g}.n{i}.x{k}"),
            self.at(f"{g}.n{i}.y{k}"),
            ty,
            smooth,
            ANY,
        )

    def component(self, base, g, i):
        return (
            base,
            (
                self.spec("scale", self.at(f"{g}.c{i}.sx")),
                0,
                0,
                self.spec("scale", self.at(f"{g}.c{i}.sy")),
                self.at(f"{g}.c{i}.dx"),
                self.at(f"{g}.c{i}.dy"),
            ),
        )

    # --------------------------------------------------------------------- info

    def info(self):
        v, at = self.v, self.at
        psn = self.d.ps_nums

        def cut(name):
            if not self.pshints:
                return [] if "stem" not in name else None
            if not psn:
                return [] if "stem" not in name else None
            return [at(f"ps.{name}{j}") for j in range(psn)]

        def ps(x, default=None):
            return x if self.pshints else default

        out = {
            "familyName": v("F.pref_family_name"),
            "styleName": v("F.pref_style_name"),
            "styleMapFamilyName": v("F.family_name"),
            "styleMapStyleName": "regular",
            "versionMajor": v("F.version_major"),
            "versionMinor": v("F.version_minor"),
            "year": v("F.year"),
            "copyright": v("F.copyright"),
            "trademark": v("F.trademark"),
            "unitsPerEm": v("F.upm"),
            "italicAngle": v("F.italic_angle"),
            "note": None if self.minimal else v("F.note"),
            "ascender": at("ps.ascender"),
            "descender": at("ps.descender"),
            "xHeight": at("ps.x_height"),
            "capHeight": at("ps.cap_height"),
            "openTypeGaspRangeRecords": [
                {"rangeMaxPPEM": v("gasp.max"), "rangeGaspBehavior": [0, 2]}
            ],
            "openTypeHeadFlags": [v("tt.flag0"), v("tt.flag1")],
            "openTypeHeadLowestRecPPEM": v("tt.head_lowest_rec_ppem"),
            "openTypeHheaAscender": v("T.hhea_ascender"),
            "openTypeHheaDescender": v("T.hhea_descender"),
            "openTypeHheaLineGap": v("T.hhea_line_gap"),
            "openTypeNameDescription": v("F.notice"),
            "openTypeNameDesigner": v("F.designer"),
            "openTypeNameDesignerURL": v("F.designer_url"),
            "openTypeNameLicense": v("F.License"),
            "openTypeNameLicenseURL": v("F.LicenseURL"),
            "openTypeNameManufacturer": v("F.source"),
            "openTypeNameManufacturerURL": v("F.vendor_url"),
            "openTypeNamePreferredFamilyName": v("F.pref_family_name"),
            "openTypeNamePreferredSubfamilyName": v("F.pref_style_name"),
            "openTypeNameRecords": [
                {
                    "nameID": v("rec.nid"),
                    "platformID": v("rec.pid"),
                    "encodingID": v("rec.eid"),
                    "languageID": v("rec.lid"),
                    "string": v("rec.s"),
                }
            ],
            "openTypeNameSampleText": v("F.SampleText"),
            "openTypeNameUniqueID": v("F.tt_u_id"),
            "openTypeNameVersion": v("F.tt_version"),
            "openTypeOS2FamilyClass": self.spec("family_class", v("tt.os2_s_family_class")),
            "openTypeOS2Panose": [v(f"panose{i}") for i in range(10)],
            "openTypeOS2Selection": [],
            "openTypeOS2Type": [],
            "openTypeOS2CodePageRanges": [],
            "openTypeOS2UnicodeRanges": [v("urange0"), v("urange1")],
            "openTypeOS2VendorID": v("F.vendor"),
            "openTypeOS2WeightClass": self.spec("clamp_weight", v("F.weight_code")),
            "openTypeOS2WidthClass": v("tt.os2_us_width_class"),
            "macintoshFONDFamilyID": v("F.fond_id"),
            "macintoshFONDName": v("F.apple_name"),
            "widthName": v("F.width"),
            "postscriptFontName": v("F.font_name"),
            "postscriptFullName": v("F.full_name"),
            "postscriptWeightName": v("F.style_name"),
            "postscriptUniqueID": v("F.unique_id"),
            "postscriptDefaultCharacter": v("F.default_character"),
            "postscriptIsFixedPitch": self.spec("flag", v("F.is_fixed_pitch")),
            "postscriptNominalWidthX": self.spec("average", v("tt.avg")),
            "postscriptUnderlineThickness": v("F.underline_thickness"),
            "postscriptUnderlinePosition": self.spec(
                "underline", v("F.underline_position"), v("F.underline_thickness")
            ),
            "postscriptBlueValues": cut("blue_values"),
            "postscriptOtherBlues": cut("other_blues"),
            "postscriptFamilyBlues": cut("family_blues"),
            "postscriptFamilyOtherBlues": cut("family_other_blues"),
            "postscriptStemSnapH": cut("stem_snap_h"),
            "postscriptStemSnapV": cut("stem_snap_v"),
            "postscriptBlueScale": ps(at("ps.blue_scale")),
            "postscriptBlueShift": ps(at("ps.blue_shift")),
            "postscriptBlueFuzz": ps(at("ps.blue_fuzz")),
            "postscriptForceBold": self.spec("flag", at("ps.force_bold"))
            if self.pshints
            else False,
            "guidelines": []
            if self.minimal
            else [
                self.guide("font", "h", 0),
                self.guide("font", "h", 1, color="1.0000,0.0000,0.5020,1", name="gname"),
                self.guide("font", "v", 0),
                self.guide("font", "v", 1),
            ],
        }
        for a, b in (
            ("SubscriptXSize", "subscript_x_size"),
            ("SubscriptYSize", "subscript_y_size"),
            ("SubscriptXOffset", "subscript_x_offset"),
            ("SubscriptYOffset", "subscript_y_offset"),
            ("SuperscriptXSize", "superscript_x_size"),
            ("SuperscriptYSize", "superscript_y_size"),
            ("SuperscriptXOffset", "superscript_x_offset"),
            ("SuperscriptYOffset", "superscript_y_offset"),
            ("StrikeoutSize", "strikeout_size"),
            ("StrikeoutPosition", "strikeout_position"),
        ):
            out[f"openTypeOS2{a}"] = v(f"tt.os2_y_{b}")
        for a, b in (
            ("TypoAscender", "s_typo_ascender"),
            ("TypoDescender", "s_typo_descender"),
            ("TypoLineGap", "s_typo_line_gap"),
            ("WinAscent", "us_win_ascent"),
            ("WinDescent", "us_win_descent"),
        ):
            out[f"openTypeOS2{a}"] = v(f"tt.os2_{b}")
        return out

    def maxp(self):
        names = (
            ("maxZones", "max_zones"),
            ("maxTwilightPoints", "max_twilight_points"),
            ("maxStorage", "max_storage"),
            ("maxFunctionDefs", "max_function_defs"),
            ("maxInstructionDefs", "max_instruction_defs"),
            ("maxStackElements", "max_stack_elements"),
        )
        vals = {a: self.v(f"tt.{b}") for a, b in names}
        used = t.not_(t.and_(*[t.eq(x, K(0)) for x in vals.values()]))
        return used, {"formatVersion": "1", **vals}


def runs(project, rep, rule, where, doc=full, variants=ufo.VARIANTS, **kw):
    """(variant name, export, options) for every option set the analysis completes."""
    for name, opts, vfb in variants:
        e = guarded(rep, rule, where, lambda: Export(project, doc, opts, vfb, **kw))
        if e is None:
            continue
        if not e.fonts:
            rep.und(rule, where, "the exported fonts are not determined")
            continue
        yield name, e, opts


def compare(rep, rule, s, default, pairs, tag=""):
    d = sc.Diff(s)
    for path, want, found in pairs:
        w = sc.expect(s, want)
        if found is None and w is not ANY and w.kind == "leaf" and w.val is NONE:
            d.same.append(path)
            continue
        d.walk(path, w, found)
    settle(rep, rule, d, default, tag)


# ------------------------------------------------------------------------ C17


def info(project, rep):
    rule = "info-field"
    rep.rule(
        rule,
        "every UFO font info field has the value of the VFB entry with the same meaning "
        "(reviewed table of fields), and the documented default if there is none",
    )
    where = sc.where(project, "vfbLib.ufo.builder:VfbToUfoBuilder.get_master_info")
    for name, e, opts in runs(project, rep, rule, where):
        for m, f in enumerate(e.fonts):
            x = X(e, m, opts.get("minimal", False), opts.get("pshints", True))
            tree = e.s.tree(f)
            found = sc.get(tree, "info")
            want = x.info()
            compare(
                rep,
                rule,
                e.s,
                where,
                [(f"info.{k}", w, sc.get(found, k)) for k, w in want.items()],
                f"{name}:",
            )
            # values which went somewhere else
            for k, n in found.val:
                if k in want or k in INTERNAL or not is_info_field(k):
                    continue
                if n.kind == "leaf" and n.val is NONE:
                    continue
                ids = set()
                for l in sc.leaves(n):
                    ids |= sc.source_ids(l)
                if ids:
                    rep.viol(
                        rule,
                        f"{name}:info.{k}",
                        e.s.site(found, k) or where,
                        f"info.{k} has the value of {sorted(ids)}, but no entry belongs there",
                    )
    cases(project, rep, rule, where)
    glyph_cases().font_guides(project, rep, rule, where)


# (entries, expected fields): how coded values are spelled out
STYLES = {
    0: ([], "regular"),
    1: ([], "italic"),
    32: ([], "bold"),
    33: ([], "bold italic"),
    64: ([], "regular"),
    192: ([7], "regular"),
    96: ([], "regular"),
    0x1E: ([1, 2, 3, 4], "regular"),
    0x3F: ([1, 2, 3, 4], "bold italic"),
    0xF00: ([8, 9, 10, 11], "regular"),
    0x1A1: ([7, 8], "bold italic"),
}


def case_docs():
    for style, (sel, name) in STYLES.items():
        yield (
            f"style-{style}",
            1,
            [("F.font_style", style)],
            {"openTypeOS2Selection": sel, "styleMapStyleName": name},
        )
    yield (
        "tt-bits",
        1,
        [
            (
                "F.ttinfo",
                {
                    "os2_fs_type": 0x0304,
                    "Codepages": {
                        "os2_ul_code_page_range1": 0x80000005,
                        "os2_ul_code_page_range2": 0x80000003,
                    },
                },
            ),
            ("T.gasp", [{"maxPpem": 8, "flags": 2}, {"maxPpem": 65535, "flags": 15}]),
        ],
        {
            "openTypeOS2Type": [2, 8, 9],
            "openTypeOS2CodePageRanges": [0, 2, 31, 32, 33, 63],
            "openTypeGaspRangeRecords": [
                {"rangeMaxPPEM": 8, "rangeGaspBehavior": [1]},
                {"rangeMaxPPEM": 65535, "rangeGaspBehavior": [0, 1, 2, 3]},
            ],
        },
    )
    for low, high, want in (
        (0, 1, [32]),
        (0, 0x80000001, [32, 63]),
        (1, 0, [0]),
        (0x80000000, 0, [31]),
        (0, 0, []),
        (0x20000000, 0x10000, [29, 48]),
        (0xFFFFFFFF, 0xFFFFFFFF, list(range(64))),
    ):
        pages = {"os2_ul_code_page_range1": low, "os2_ul_code_page_range2": high}
        yield (
            f"codepages {low} {high}",
            1,
            [("F.ttinfo", {"Codepages": pages})],
            {"openTypeOS2CodePageRanges": want},
        )
    for bits, want in ((0, []), (1, [0]), (0x208, [3, 9]), (0x8000, [15])):
        yield (
            f"type {bits}",
            1,
            [("F.ttinfo", {"os2_fs_type": bits})],
            {"openTypeOS2Type": want},
        )
    yield (
        "empty",
        1,
        [],
        {
            "openTypeOS2Type": [],
            "openTypeOS2CodePageRanges": [],
            "openTypeGaspRangeRecords": [],
            "openTypeOS2Selection": [],
            "openTypeOS2WeightClass": 400,
            "openTypeOS2WidthClass": 5,
            "postscriptUnderlinePosition": 0,
            "postscriptUnderlineThickness": 0,
            "italicAngle": 0,
            "familyName": "Untitled",
            "styleName": "Regular",
        },
    )
    for nums in (0, 1, 4):
        yield f"blues-{nums}", nums, [], {}
    for stamp, date in CREATED:
        yield (
            f"created {stamp}",
            1,
            [("F.ttinfo", {"head_creation": stamp})],
            {"openTypeHeadCreated": date},
        )
    for lo, hi, shift in (
        (-(1 << 31), -1, (1 << 32) - EPOCH),
        (EPOCH, (1 << 31) - 1, -EPOCH),
    ):
        yield (
            f"created from {lo}",
            1,
            [
                (
                    "F.ttinfo",
                    lambda d, lo=lo, hi=hi: {"head_creation": d.L("created", rng=(lo, hi))},
                )
            ],
            {
                "openTypeHeadCreated": lambda e, shift=shift: sc.app(
                    "strftime",
                    t.add(e.doc.v("created"), K(shift)),
                    K("utc"),
                    K("%Y/%m/%d %H:%M:%S"),
                    ty="str",
                )
            },
        )


# Seconds since the beginning of 1904, as a signed number of 32 bits, in the time zone
# that FontLab uses.
EPOCH = 2082841200
CREATED = [
    (x - (1 << 32 if x >= 1 << 31 else 0), date)
    for x, date in (
        (0, "1970/01/01 00:00:00"),
        (1, "1970/01/01 00:00:00"),
        (EPOCH - 1, "1970/01/01 00:00:00"),
        (EPOCH, "1970/01/01 00:00:00"),
        (EPOCH + 1, "1970/01/01 00:00:01"),
        ((1 << 31) - 1, "1972/01/19 04:14:07"),
        (1 << 31, "1972/01/19 04:14:08"),
        (EPOCH + 951827696, "2000/02/29 12:34:56"),
        (EPOCH + 1704067199, "2023/12/31 23:59:59"),
        ((1 << 32) - 1, "2040/02/06 07:28:15"),
    )
]


def cases(project, rep, rule, where):
    for name, nums, entries, want in case_docs():

        def doc(s, masters, axes):
            d = ufo.Doc(s, masters, axes)
            d.masters()
            d.ps_info(nums)
            for k, v in entries:
                d.add(k, v(d) if callable(v) else v)
            return d

        for _, e, opts in runs(
            project, rep, rule, where, doc, [(name, {}, {})], masters=2, axes=1
        ):
            for m, f in enumerate(e.fonts):
                found = sc.get(e.s.tree(f), "info")
                pairs = [
                    (f"info.{k}", w(e) if callable(w) else w, sc.get(found, k))
                    for k, w in want.items()
                ]
                for lst in ufo.PS_LISTS:
                    w = [e.doc.v(f"ps.{lst}{j}@{m}") for j in range(nums)]
                    k = PS_FIELDS[lst]
                    x = sc.get(found, k)
                    if not nums and (x is None or x.kind == "leaf" and x.val is NONE):
                        continue
                    pairs.append((f"info.{k}", w, x))
                compare(rep, rule, e.s, where, pairs, f"{name}:")


PS_FIELDS = {
    "blue_values": "postscriptBlueValues",
    "other_blues": "postscriptOtherBlues",
    "family_blues": "postscriptFamilyBlues",
    "family_other_blues": "postscriptFamilyOtherBlues",
    "stem_snap_h": "postscriptStemSnapH",
    "stem_snap_v": "postscriptStemSnapV",
}

INTERNAL = {"lib", "mapping", "mapping_int"}
OTHER_FIELDS = (
    "openTypeHeadCreated openTypeHheaCaretOffset openTypeHheaCaretSlopeRise "
    "openTypeHheaCaretSlopeRun openTypeNameCompatibleFullName "
    "openTypeNameWWSFamilyName openTypeNameWWSSubfamilyName openTypeVheaCaretOffset "
    "openTypeVheaCaretSlopeRise openTypeVheaCaretSlopeRun openTypeVheaVertTypoAscender "
    "openTypeVheaVertTypoDescender openTypeVheaVertTypoLineGap postscriptDefaultWidthX "
    "postscriptSlantAngle postscriptWindowsCharacterSet woffMajorVersion "
    "woffMinorVersion"
).split()


def is_info_field(name):
    return name in OTHER_FIELDS


# ------------------------------------------------------------------------ C18


# contours of the document's outlines: (node, point of the node, type, smooth)
SHAPES = {
    "A": [
        [
            (0, 0, "line", False),
            (1, 0, "line", True),
            (2, 1, None, False),
            (2, 2, None, False),
            (2, 0, "curve", True),
            (3, 0, "line", False),
        ],
        [
            (4, 0, "line", False),
            (5, 0, None, False),
            (6, 0, None, False),
            (7, 0, "qcurve", False),
        ],
        [(8, 0, "move", False), (9, 0, "line", False), (10, 0, "line", False)],
    ],
    "A.mask": [[(0, 0, "line", False), (1, 0, "line", False), (2, 0, "line", False)]],
    "B": [[(0, 0, "line", False), (1, 0, "line", False), (2, 0, "line", False)]],
    "C": [],
}


def layer(tree, name):
    n = sc.path(tree, "layers", "layers")
    return sc.path(sc.get(n, name), "glyphs")


def outline(x, g, shapes=SHAPES):
    return [[x.pt(g, i, k, ty, sm) for i, k, ty, sm in c] for c in shapes[g]]


class Glyphs(X):
    def glyph(self, n):
        v, at = self.v, self.at
        g = {
            "name": n,
            "width": at(f"{n}.w"),
            "height": at(f"{n}.h"),
            "unicodes": [],
            "anchors": [],
            "guidelines": [],
            "note": None,
            "contours": outline(self, n),
            "components": [],
        }
        if n == "A":
            g["unicodes"] = [v("A.u0"), v("A.u1"), v("A.u2")]
            g["anchors"] = [
                {"name": "top", "x": at("A.am0.x"), "y": at("A.am0.y")},
                {"x": at("A.am1.x"), "y": at("A.am1.y")},
            ]
            if not self.minimal:
                g["note"] = v("A.note")
                g["guidelines"] = [
                    self.guide("A", "h", 0, name="hname"),
                    self.guide("A", "h", 1),
                    self.guide("A", "v", 0),
                    self.guide("A", "v", 1, name="vname"),
                ]
        if n == "C":
            g["components"] = [
                self.component("A", "C", 0),
                self.component("B", "C", 1),
            ]
        return g

    def lib(self, n):
        v = self.v
        lib = {}
        if n == "A":
            lib["com.fontlab.v5.userData"] = v("A.custom")
            if not self.minimal:
                lib["com.fontlab.v5.bitmaps"] = [
                    {
                        "imageData": [[v("bm.r1")], [v("bm.r0")]],
                        "bitDepth": 1,
                        "horiAdvance": v("bm.ax"),
                        "vertAdvance": v("bm.ay"),
                        "width": v("bm.w"),
                        "height": v("bm.h"),
                        "horiBearingX": v("bm.ox"),
                        "horiBearingY": t.add(v("bm.h"), v("bm.oy")),
                        "ppemX": v("bm.ppm"),
                        "ppemY": v("bm.ppm"),
                    }
                ]
                lib["com.fontlab.v5.background"] = {
                    "origin": (v("bg.ox"), v("bg.oy")),
                    "size_units": (v("bg.ux"), v("bg.uy")),
                    "size_pixels": (v("bg.w"), v("bg.h")),
                    "bitmap": {"data": [[v("bg.r0")]]},
                }
        return lib


HINT_KEYS = (TTPROG, TTINST, PSHINTS)


def without(n, *keys):
    """A dict node without some constant keys."""
    if n is None or n.kind != "dict":
        return n
    drop = {K(k) for k in keys}
    return sc.Node(
        "dict",
        [e for e in n.val if e[0] != "one" or e[1].kind != "leaf" or e[1].val not in drop],
        n.oid,
    )


ATTRS = {"anchors": "_anchors", "guidelines": "_guidelines", "lib": "_lib"}


def attr(n, k):
    x = sc.get(n, ATTRS.get(k, k))
    return x if x is not None else sc.get(n, k)


def glyphs(project, rep):
    rule = "glyph-data"
    rep.rule(
        rule,
        "advance, code points, contours, components, anchors, guides, note, mask and lib "
        "of every exported glyph are those of its VFB glyph (reviewed table), at the "
        "values of the master",
    )
    where = sc.where(project, "vfbLib.ufo.paths:UfoMasterGlyph.build")
    for name, e, opts in runs(project, rep, rule, where):
        for m, f in enumerate(e.fonts):
            x = Glyphs(e, m, opts.get("minimal", False), opts.get("pshints", True))
            tree = e.s.tree(f)
            tag = f"{name}:"
            fg = layer(tree, "public.default")
            pairs = []
            for n in "ABC":
                found = sc.get(fg, n)
                if found is None:
                    continue  # C16
                want = x.glyph(n)
                pairs += [(f"{n}.{k}", w, attr(found, k)) for k, w in want.items()]
                pairs.append(
                    (f"{n}.lib", x.lib(n), without(attr(found, "lib"), *HINT_KEYS))
                )
            bg = sc.get(sc.path(tree, "layers", "layers"), "public.background")
            if x.minimal:
                pairs.append(("background", None, bg))
            elif bg is None:
                rep.viol(
                    rule, f"{tag}background", where, "the mask of glyph A is not exported"
                )
            else:
                mg = sc.get(bg, "glyphs")
                mask = sc.get(mg, "A")
                for k, w in (
                    ("width", x.at("A.mw")),
                    ("height", x.at("A.mh")),
                    ("contours", outline(x, "A.mask")),
                    ("components", []),
                ):
                    pairs.append((f"mask.A.{k}", w, sc.get(mask, k)))
                if mg is not None and mg.kind == "dict" and mask is not None:
                    rest = without(mg, "A")
                    pairs.append(("mask", {}, rest))
            lib = sc.get(tree, "lib")
            pairs.append(
                (
                    "lib.userData",
                    x.v("F.customdata"),
                    sc.get(lib, "com.fontlab.v5.userData"),
                )
            )
            compare(rep, rule, e.s, where, pairs, tag)
    closings(project, rep, rule, where)
    outline_forms().contours(project, rep, rule, where)
    glyph_cases().glyphs(project, rep, rule, where)


def outline_forms():
    from . import outline

    return outline


def glyph_cases():
    from . import glyphcases

    return glyphcases


# contours whose last point is, or is not, their first point
def closing(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()

    def g(name, kinds, flags=(), same=None, apart=None, tth=None, **more):
        n = d.nodes(name, kinds, flags)
        for m in range(d.M):
            if same is not None:
                a, b = same
                n[b]["points"][m][0] = n[a]["points"][m][0]
            if apart is not None:
                a, b = apart
                for i, x in ((a, 10), (b, 20)):
                    n[i]["points"][m][0] = (x, n[i]["points"][m][0][1])
        if tth:
            more["tth"] = [{"cmd": "AlignH", "params": {"pt": i, "align": 0}} for i in tth]
        d.glyph(name, n, **more)

    g("J", ["move", "line", "curve"], [0, 0, 1], same=(0, 2))
    g("K", ["move", "line", "curve"], [1, 0, 0], apart=(0, 2), tth=(0, 2))
    g("L", ["move", "line", "line"], [0, 0, 0], same=(0, 2))
    g("M", ["move", "curve", "line"], [8, 0, 1], same=(0, 2))
    g("N", ["move", "line", "curve"], [0, 0, 0], same=(0, 2), tth=(0,))
    g("O", ["move", "line", "curve"], [0, 0, 0], same=(0, 2), tth=(2, 1))
    g("P", ["move", "line", "curve"], [0, 0, 0], same=(0, 2), tth=(0, 1, 2))
    g("Q", ["move", "qcurve", "qcurve"], [1, 0, 0])
    g(
        "R",
        ["move", "line", "curve", "move", "line", "curve"],
        [0] * 6,
        same=(0, 2),
        apart=(3, 5),
        hints=d.hints("R", 2, 2, [("h", 0), ("r", 2), ("v", 0), ("r", 4), ("h", 1)]),
    )
    g(
        "S",
        ["move", "line", "curve"],
        same=(0, 2),
        hints=d.hints("S", 2, 2, [("h", 0), ("r", 2), ("v", 0)]),
    )
    g("T", ["move", "line", "curve"], [8, 0, 0], same=(0, 2), tth=(0, 2))
    g("U", ["move", "qcurve", "line", "qcurve", "line"], [0, 0, 1, 0, 1], same=(0, 4))
    g("V", ["move", "qcurve", "line", "qcurve"], [0] * 4, same=(0, 3))
    g("W", ["move", "qcurve", "line"], [8, 0, 0], same=(0, 2))
    return d


def closed(i, smooth_last=False):
    return [
        (i, 0, "curve", smooth_last),
        (i + 1, 0, "line", False),
        (i + 2, 1, None, False),
        (i + 2, 2, None, False),
    ]


def ended(i, ty="line", s0=False, s2=False):
    return [
        (i, 0, ty, s0),
        (i + 1, 0, "line", False),
        (i + 2, 1, None, False),
        (i + 2, 2, None, False),
        (i + 2, 0, "curve", s2),
    ]


CLOSED = {
    "J": [closed(0, True)],
    "K": [ended(0, "line", True)],
    "L": [[(0, 0, "line", False), (1, 0, "line", False), (2, 0, "line", False)]],
    "M": [
        [
            (0, 0, "move", False),
            (1, 1, None, False),
            (1, 2, None, False),
            (1, 0, "curve", False),
            (2, 0, "line", True),
        ]
    ],
    "N": [closed(0)],
    "O": [closed(0)],
    "P": [closed(0)],
    "Q": [[(0, 0, "qcurve", True), (1, 0, None, False), (2, 0, None, False)]],
    "S": [closed(0)],
    "T": [ended(0, "move")],
    "U": [
        [
            (0, 0, "line", False),
            (1, 0, None, False),
            (2, 0, "qcurve", True),
            (3, 0, None, False),
            (4, 0, "qcurve", True),
        ]
    ],
    "V": [
        [
            (0, 0, "qcurve", False),
            (1, 0, None, False),
            (2, 0, "qcurve", False),
            (3, 0, None, False),
        ]
    ],
    "W": [[(0, 0, "move", False), (1, 0, None, False), (2, 0, "qcurve", False)]],
}


class Closed(X):
    def pt(self, g, i, k=0, ty=None, smooth=False):
        x, y, *rest = super().pt(g, i, k, ty, smooth)
        src = self.same.get(g, {}).get(i)
        if k == 0 and src is not None:
            x, y, *rest = super().pt(g, src, 0, ty, smooth)
        if k == 0 and g == "K" and i in (0, 2):
            x = {0: 10, 2: 20}[i]
        return (x, y, *rest)

    same = {g: {2: 0} for g in "JLMNOPSTW"} | {"U": {4: 0}, "V": {3: 0}}


def closings(project, rep, rule, where):
    for name, e, opts in runs(project, rep, rule, where, closing, [("closing", {}, {})]):
        for m, f in enumerate(e.fonts):
            x = Closed(e, m)
            tree = e.s.tree(f)
            fg = layer(tree, "public.default")
            compare(
                rep,
                rule,
                e.s,
                where,
                [
                    (
                        f"{n}.contours",
                        outline(x, n, CLOSED),
                        attr(sc.get(fg, n), "contours"),
                    )
                    for n in CLOSED
                    if sc.get(fg, n) is not None
                ],
                "closing:",
            )


# ------------------------------------------------------------------------ C19


def flat(x):
    """A string term as text, with \\x01<n>\\x01 for the non-constant parts."""
    parts = []

    def go(y):
        if t.isk(y) and isinstance(t.kv(y), (str, bytes)):
            v = t.kv(y)
            return v if isinstance(v, str) else v.decode("latin-1")
        if y.op == "cat":
            return "".join(go(a) for a in y.args)
        if y.op == "str":
            y = y.args[0]
        parts.append(y)
        return f"\x01{len(parts) - 1}\x01"

    return go(x), parts


def unwrap(x):
    """The text inside a base64 or bytes conversion."""
    while isinstance(x, t.T) and x.op in ("app", "encode") and x.args:
        inner = [a for a in x.args if isinstance(a, t.T)]
        if not inner:
            return x
        x = inner[0]
    return x


def program(node):
    """[(code, {attribute: str or term})] of a TrueType hint program, or None."""
    import html
    import re

    if node is None or node.kind != "leaf":
        return None
    text, parts = flat(unwrap(node.val))
    out = []
    for body in re.findall(r"<ttc\s+(.*?)\s*/>", text):
        at = {}
        for k, v in re.findall(r'(\w+)="([^"]*)"', body):
            m = re.fullmatch("\x01(\\d+)\x01", v)
            at[k] = parts[int(m.group(1))] if m else html.unescape(v)
        out.append((at.pop("code", None), at))
    return out


def names_of(glyph, shape):
    """node index -> point name, from an exported outline of the expected shape."""
    cs = attr(glyph, "contours")
    out, all_names = {}, []
    if cs is None or cs.kind != "list":
        return None
    for ci, c in enumerate(shape):
        for pi, (i, k, _, _) in enumerate(c):
            nm = sc.path(cs, ci, pi, 4)
            if nm is None or nm.kind != "leaf" or not t.isk(nm.val):
                return None
            v = t.kv(nm.val)
            if v is not None:
                all_names.append(v)
            if k == 0:
                out[i] = v
    return out, all_names


ALIGN = {0: "round", 1: "left", 2: "right", 3: "center", 4: "double"}
CODES = {
    "AlignTop": "alignt",
    "AlignBottom": "alignb",
    "SingleLinkH": "singleh",
    "SingleLinkV": "singlev",
    "DoubleLinkH": "doubleh",
    "DoubleLinkV": "doublev",
    "AlignH": "alignh",
    "AlignV": "alignv",
    "InterpolateH": "interpolateh",
    "InterpolateV": "interpolatev",
    "MDeltaH": "mdeltah",
    "MDeltaV": "mdeltav",
    "FDeltaH": "fdeltah",
    "FDeltaV": "fdeltav",
}
ZONES = {"AlignTop": ["top1", "top2"], "AlignBottom": ["bot1", "bot2"]}


def wanted(e, cmds, point, stems):
    """The commands in terms of final point and stem names."""
    out = []
    for code, p in cmds:
        a = {}
        for src, dst in (
            ("pt", "point"),
            ("pti", "point"),
            ("pt1", "point1"),
            ("pt2", "point2"),
        ):
            if src in p:
                a[dst] = point(p[src])
        if "zone" in p:
            a["zone"] = ZONES[code][p["zone"]]
        if "stem" in p:
            if p["stem"] <= -2:
                a["round"] = "true"
            elif p["stem"] >= 0:
                a["stem"] = stems[code[-1]][p["stem"]]
        if p.get("align", -1) >= 0:
            a["align"] = ALIGN[p["align"]]
        if "shift" in p:
            a.update(delta=p["shift"], ppm1=p["ppm1"], ppm2=p["ppm2"])
        out.append((CODES[code], a))
    return out


def match_program(rep, rule, tag, where, want, found):
    if found is None:
        rep.und(rule, tag, "the hinting program is not determined")
        return
    if len(want) != len(found):
        rep.viol(
            rule,
            f"{tag}:count",
            where,
            f"{tag}: {len(want)} commands, {len(found)} exported",
        )
        return
    for i, (w, f) in enumerate(zip(want, found)):
        p = f"{tag}[{i}]:{w[0]}"
        if w[0] != f[0] or set(w[1]) != set(f[1]):
            rep.viol(rule, p, where, f"{p}: expected {w}, exported {f}")
            continue
        bad = {
            k: (x, f[1][k]) for k, x in w[1].items() if x is not f[1][k] and x != f[1][k]
        }
        if bad:
            rep.viol(rule, p, where, f"{p}: {bad} (expected, exported)")
        else:
            rep.ok(rule, p)


def stem_names(tree):
    """direction -> stem names in order, from the font lib, found by their width."""
    d = sc.path(sc.get(tree, "lib"), TTLIB, "stems")
    if d is None or d.kind != "dict":
        return None
    by = {}
    for e in d.val:
        if e[0] != "one" or e[1].kind != "leaf":
            return None
        w = sc.get(e[2], "width")
        if w is not None and w.kind == "leaf":
            for i in sc.source_ids(w.val):
                by.setdefault(i, t.kv(e[1].val))
    return by


# programs of the font, in hexadecimal, and their assembly
FPGM = "b0 00 2c b0 01 58 20 1b 21 59 2d"
PREP = "b8 00 03 85 8d 00"
INDENTS = {FPGM: [0, 0, 0, 1, 1, 1, 2, 1, 2, 1, 0], PREP: [0] * 5}


def assembly(prog):
    lines = sc.ASSEMBLY[bytes.fromhex(prog.replace(" ", ""))]
    return "\n" + "".join("  " * n + x + "\n" for n, x in zip(INDENTS[prog], lines))


# entries and what the font lib says of them
IMPORTED = [
    ([], {}),
    (
        [("T.cvt", "01 00 ff ff 00 80 ff 7f 10 27")],
        {"controlValue": {"0": 1, "1": -1, "2": -32768, "3": 32767, "4": 10000}},
    ),
    ([("T.fpgm", FPGM)], {"fontProgram": assembly(FPGM)}),
    ([("T.prep", PREP)], {"controlValueProgram": assembly(PREP)}),
    (
        [("T.cvt", "05 00"), ("T.prep", FPGM), ("T.fpgm", PREP)],
        {
            "controlValue": {"0": 5},
            "controlValueProgram": assembly(FPGM),
            "fontProgram": assembly(PREP),
        },
    ),
]


def imported(project, rep, rule, where):
    """Control values and programs of fonts made from TrueType files."""
    for i, (entries, want) in enumerate(IMPORTED):

        def doc(s, masters, axes):
            d = ufo.Doc(s, masters, axes)
            d.masters()
            d.ps_info()
            for k, v in entries:
                d.add(k, v)
            return d

        for _, e, opts in runs(
            project, rep, rule, where, doc, [("imported", {}, {})], masters=2, axes=1
        ):
            for f in e.fonts:
                found = sc.get(sc.get(e.s.tree(f), "lib"), TTINST)
                label = f"programs{i}"
                if not want:
                    if found is None:
                        rep.ok(rule, label)
                    else:
                        rep.viol(rule, label, where, "programs of a font without any")
                    continue
                w = {"formatVersion": "1", **want}
                compare(rep, rule, e.s, where, [(label, w, found)])


def hints(project, rep):
    tt, ps, fl = "tt-hints", "ps-hints", "font-hints"
    rep.rule(
        tt,
        "every TrueType command is exported once, in order, with the names of the points, "
        "zones and stems it refers to in the VFB",
    )
    rep.rule(
        ps,
        "every PostScript hint and link is exported in the hint set of its point, with the "
        "position and width of the master; the point names exist",
    )
    rep.rule(fl, "TrueType stems, zones, deltas, tables and settings reach the font lib")
    where = sc.where(project, "vfbLib.ufo.tth:TTGlyphHints.get_tt_glyph_hints")
    wps = sc.where(project, "vfbLib.ufo.pshints:build_ps_glyph_hints")
    wlib = sc.where(project, "vfbLib.ufo.builder:VfbToUfoBuilder.build_tt_stems_lib")
    imported(project, rep, fl, wlib)
    for name, e, opts in runs(project, rep, tt, where):
        pshints = opts.get("pshints", True)
        for m, f in enumerate(e.fonts):
            x = X(e, m, opts.get("minimal", False), pshints)
            tree = e.s.tree(f)
            font_lib(rep, fl, wlib, e, x, tree, name)
            fg = layer(tree, "public.default")
            by = stem_names(tree)
            nm = {}
            for n in "AB":
                r = names_of(sc.get(fg, n), SHAPES[n])
                if r is None:
                    rep.und(tt, f"{name}:{n}", "point names not determined")
                    continue
                nm[n], every = r
                dup = sorted({y for y in every if every.count(y) > 1})
                if dup:
                    rep.viol(
                        tt,
                        f"{name}:{n}:names",
                        where,
                        f"points of {n} share the names {dup}",
                    )
                else:
                    rep.ok(tt, f"{name}:{n}:unique-names")
            if len(nm) == 2 and by is not None:
                stems = {
                    d: [by.get(f"stem.ttStems{d}{i}.width") for i in range(k)]
                    for d, k in (("H", 1), ("V", 2))
                }
                cmds = ufo.TTH + [
                    (
                        c,
                        {
                            "pt": 6,
                            "shift": x.v(f"{c}.shift"),
                            "ppm1": x.v(f"{c}.ppm1"),
                            "ppm2": x.v(f"{c}.ppm2"),
                        },
                    )
                    for c in ("MDeltaH", "MDeltaV", "FDeltaH", "FDeltaV")
                ]
                want = wanted(e, cmds, lambda i: nm["A"][i], stems)
                la = attr(sc.get(fg, "A"), "lib")
                match_program(
                    rep, tt, f"{name}:A", where, want, program(sc.get(la, TTPROG))
                )
                # composite: points 0-10 are A's, 11-13 B's, then the side bearings
                want = wanted(
                    e,
                    [
                        ("AlignH", {"pt": 11, "align": 0}),
                        ("SingleLinkH", {"pt1": 14, "pt2": 15, "stem": -1}),
                    ],
                    lambda i: {14: "lsb", 15: "rsb"}.get(i) or f"{nm['B'][i - 11]}-1",
                    stems,
                )
                lc = attr(sc.get(fg, "C"), "lib")
                match_program(
                    rep, tt, f"{name}:C", where, want, program(sc.get(lc, TTPROG))
                )
            # imported instructions
            lb = attr(sc.get(fg, "B"), "lib")
            inst = sc.get(lb, TTINST)
            compare(
                rep,
                tt,
                e.s,
                where,
                [
                    ("B.instructions.formatVersion", "1", sc.get(inst, "formatVersion")),
                    (
                        "B.instructions.assembly",
                        "\nSVTCA[0]\nIUP[0]\n",
                        sc.get(inst, "assembly"),
                    ),
                ],
                f"{name}:",
            )
            h = sc.get(inst, "id")
            if h is None:
                rep.viol(
                    tt, f"{name}:B.id", where, "the instructions of B have no outline hash"
                )
            else:
                ids = set()
                for leaf in sc.leaves(h):
                    ids |= sc.source_ids(leaf)
                want_ids = {f"B.w@{m}"} | {
                    f"B.n{i}.{c}0@{m}" for i in range(3) for c in "xy"
                }
                if ids == want_ids:
                    rep.ok(tt, f"{name}:B.id")
                elif sc.has_unknown(h):
                    rep.und(tt, f"{name}:B.id", "hash input not determined")
                else:
                    rep.viol(
                        tt,
                        f"{name}:B.id",
                        where,
                        f"the hash of B covers {sorted(ids)} instead of {sorted(want_ids)}",
                    )
            # PostScript hints
            for n, sets in (
                ("A", [(0, ["h0", "v1"]), (2, ["h1", "v0"])]),
                ("B", [(0, ["h0", "v0"])]),
                ("C", []),
            ):
                found = sc.get(attr(sc.get(fg, n), "lib"), PSHINTS)
                if not pshints or not sets:
                    if found is None:
                        rep.ok(ps, f"{name}:{n}:none")
                    else:
                        rep.viol(ps, f"{name}:{n}:extra", wps, f"unexpected hints in {n}")
                    continue
                if n not in nm:
                    continue
                want = [(nm[n][i], [stem(x, n, h) for h in hs]) for i, hs in sets]
                hint_sets(rep, ps, f"{name}:{n}", wps, e, want, found)
    links(project, rep, ps, wps)
    plain(project, rep, ps, wps)
    hashes(project, rep, tt, where)
    zone_names(project, rep, tt, fl, wlib)
    outline_forms().hints(project, rep, tt, ps, where, wps)
    composites(project, rep, tt, where)
    renamed(project, rep, tt, ps, where, wps)
    stem_cases(project, rep, fl, tt, wlib)


def stem(x, g, h):
    kind = f"{h[0]}stem"
    return x.spec("stem", kind, x.at(f"{g}.{h}.pos"), x.at(f"{g}.{h}.width")).val


def hint_sets(rep, rule, tag, where, e, want, found):
    """want: [(point name, [stem terms])]"""
    lst = sc.get(found, "hintSetList")
    if (
        lst is None
        or lst.kind not in ("list", "tup")
        or any(z[0] != "one" for z in lst.val)
    ):
        if found is None:
            rep.viol(rule, f"{tag}:missing", where, f"{tag}: no hint sets exported")
        else:
            rep.und(rule, tag, "hint sets not determined")
        return
    if len(lst.val) != len(want):
        rep.viol(
            rule,
            f"{tag}:count",
            where,
            f"{tag}: {len(want)} hint sets, {len(lst.val)} exported",
        )
        return
    for i, (name, stems) in enumerate(want):
        hs = lst.val[i][1]
        p = f"{tag}.set{i}"
        d = sc.Diff(e.s)
        if name is None:
            d.bad.append((f"{p}.pointTag", None, "its point has no name in the outline"))
        d.walk(
            f"{p}.pointTag", sc.expect(e.s, name), sc.get(hs, "pointTag"), hs, "pointTag"
        )
        got = sc.get(hs, "stems")
        if (
            got is None
            or got.kind not in ("list", "tup")
            or any(z[0] != "one" for z in got.val)
        ):
            d.open.append((p, "stems not determined"))
        else:
            left = [z[1] for z in got.val]
            for w in stems:
                ids = sc.source_ids(w)
                g = next(
                    (q for q in left if q.kind == "leaf" and sc.source_ids(q.val) == ids),
                    None,
                )
                if g is None:
                    d.bad.append((f"{p}.stem{sorted(ids)}", None, f"missing {t.show(w)}"))
                    continue
                left.remove(g)
                d.term(f"{p}.stem{sorted(ids)}", w, g.val)
            for g in left:
                d.bad.append((f"{p}.extra", None, f"unexpected stem {sc.show(g)}"))
        settle(rep, rule, d, where)


def font_lib(rep, rule, where, e, x, tree, name):
    v = x.v
    lib = sc.get(tree, "lib")
    used, maxp = x.maxp()
    pairs = [("font-lib.instructions", maxp, sc.get(lib, TTINST))]
    if sc.get(lib, TTINST) is None:
        pairs = []
        rep.viol(rule, f"{name}:maxp", where, "the maxp values are not exported")
    tth = sc.get(lib, TTLIB)
    H, V = (20, 30, 40, 50), [(21, 31, 41, 51), (22, 32, 42, 52)]

    def rounds(px2, px6, px1):
        return {**{str(p): i + 2 for i, p in enumerate(px2)}, str(px6): 6, str(px1): 1}

    by = stem_names(tree) or {}
    stems = {}
    for d, i, r in (
        ("H", 0, rounds(H, 60, 10)),
        ("V", 0, rounds(V[0], 61, 11)),
        ("V", 1, rounds(V[1], 62, 12)),
    ):
        n = by.get(f"stem.ttStems{d}{i}.width")
        if n is None:
            rep.viol(rule, f"{name}:stem{d}{i}", where, f"stem {d}{i} is not exported")
            continue
        stems[n] = {
            "horizontal": d == "V",
            "width": v(f"stem.ttStems{d}{i}.width"),
            "round": r,
        }
    if "H: a" not in stems or "V: a" not in stems or "" in stems:
        rep.viol(rule, f"{name}:stem-names", where, f"stem names {sorted(stems)}")
    zones = {
        n: {
            "position": v(f"zone.{n}.pos"),
            "top": n.startswith("top"),
            "width": v(f"zone.{n}.width"),
        }
        for n in ("top1", "top2", "bot1", "bot2")
    }
    zones["bot2"]["delta"] = {"12": v("delta.bot2.12")}
    zones["top1"]["delta"] = {"13": v("delta.top1.13")}

    def unless(path, default):
        return Guarded(t.not_(t.eq(v(path), K(default))), v(path))

    want = {
        "stems": stems,
        "zones": zones,
        "stemsnaplimit": unless("T.stemsnaplimit", 68),
        "zoneppm": unless("T.zoneppm", 48),
        "codeppm": v("T.codeppm"),
        "dropoutppm": unless("T.dropoutppm", 255),
    }
    pairs.append(("font-lib.tth", want, tth))
    compare(rep, rule, e.s, where, pairs, f"{name}:")


def linked(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    d.glyph("A", d.nodes("A", ["move", "line", "curve", "line"]), hints=d.hints("A", 1, 1))
    d.add("G.Links", {"x": [(0, 1), (3, -1)], "y": [(1, 2), (2, -2)]})
    d.glyph("B", d.nodes("B", ["move", "line", "line"]))
    d.add("G.Links", {"x": [(2, 1)], "y": []})
    d.glyph("C", d.nodes("C", ["move", "line", "line"]))
    d.glyph(
        "D",
        d.nodes("D", ["move", "line", "line"]),
        hints=d.hints("D", 1, 1, [("v", 0), ("h", 0), ("r", -3), ("h", 0)]),
    )
    for g, h, v, masks, more in MASKED:
        d.glyph(g, d.nodes(g, ["move", "line", "line"]), hints=d.hints(g, h, v, masks))
        if more:
            d.add("G.Links", more)
    return d


# glyph, number of hints, masks, links
MASKED = [
    ("E", 0, 2, [("v", 1), ("r", 1), ("v", 0)], None),
    ("F", 2, 0, [("h", 1), ("r", 2), ("h", 0)], None),
    ("G", 1, 0, [("h", 1), ("r", 2), ("h", 0), ("v", 0)], {"x": [(0, 1)], "y": [(1, 2)]}),
    ("H", 1, 2, [("h", 0), ("v", 7), ("h", 3), ("r", 1), ("v", 1), ("h", 0)], None),
    ("I", 1, 1, [("r", 1), ("h", 0), ("r", 2), ("v", 0)], None),
    ("J", 1, 1, [("h", 0), ("r", 1), ("v", 0), ("r", 1), ("h", 0)], None),
    ("K", 1, 1, [("h", 0), ("r", -1), ("v", 0)], None),
]
MASKED_SETS = {
    "E": [(0, ["v1"]), (1, ["v0"])],
    "F": [(0, ["h1"]), (2, ["h0"])],
    "G": [(0, [("y", 1, 2)]), (2, ["h0", ("x", 0, 1)])],
    "H": [(0, ["h0"]), (1, ["v1", "h0"])],
    "I": [(1, ["h0"]), (2, ["v0"])],
    "J": [(0, ["h0"]), (1, ["h0"])],
    "K": [(0, ["v0"])],
}


LINKED = {
    "A": [
        [
            (0, 0, "line", False),
            (1, 0, "line", False),
            (2, 1, None, False),
            (2, 2, None, False),
            (2, 0, "curve", False),
            (3, 0, "line", False),
        ]
    ],
    **{g: [[(i, 0, "line", False) for i in range(3)]] for g in "BCDEFGHIJK"},
}


def links(project, rep, rule, where):
    for name, e, opts in runs(project, rep, rule, where, linked, [("links", {}, {})]):
        for m, f in enumerate(e.fonts):
            x = X(e, m)
            fg = layer(e.s.tree(f), "public.default")

            def c(g, i, ax):
                return x.at(f"{g}.n{i}.{ax}0")

            def link(kind, pos, width):
                return x.spec("plain_stem", kind, pos, width).val

            sets = {
                "A": [
                    (
                        0,
                        [
                            stem(x, "A", "h0"),
                            stem(x, "A", "v0"),
                            link(
                                "vstem",
                                c("A", 0, "x"),
                                t.sub(c("A", 1, "x"), c("A", 0, "x")),
                            ),
                            link("vstem", t.add(c("A", 3, "x"), K(21)), K(-21)),
                            link(
                                "hstem",
                                c("A", 1, "y"),
                                t.sub(c("A", 2, "y"), c("A", 1, "y")),
                            ),
                            link("hstem", c("A", 2, "y"), K(-20)),
                        ],
                    )
                ],
                "B": [
                    (
                        0,
                        [
                            link(
                                "vstem",
                                c("B", 2, "x"),
                                t.sub(c("B", 1, "x"), c("B", 2, "x")),
                            )
                        ],
                    )
                ],
                "C": [],
                "D": [
                    (0, [stem(x, "D", "v0"), stem(x, "D", "h0")]),
                    (2, [stem(x, "D", "h0")]),
                ],
            }

            def hint(g, y):
                if isinstance(y, str):
                    return stem(x, g, y)
                ax, i, j = y
                kind = {"x": "vstem", "y": "hstem"}[ax]
                return link(kind, c(g, i, ax), t.sub(c(g, j, ax), c(g, i, ax)))

            for g, want in MASKED_SETS.items():
                sets[g] = [(i, [hint(g, y) for y in hs]) for i, hs in want]
            for g, want in sets.items():
                r = names_of(sc.get(fg, g), LINKED[g])
                found = sc.get(attr(sc.get(fg, g), "lib"), PSHINTS)
                if not want:
                    if found is None:
                        rep.ok(rule, f"links:{g}:none")
                    else:
                        rep.viol(
                            rule, f"links:{g}:extra", where, f"unexpected hints in {g}"
                        )
                    continue
                if r is None:
                    rep.und(rule, f"links:{g}", "point names not determined")
                    continue
                hint_sets(
                    rep,
                    rule,
                    f"links:{g}",
                    where,
                    e,
                    [(r[0][i], hs) for i, hs in want],
                    found,
                )


# hints, links and positions of which the signs are known, for two masters
PLAIN_POINTS = [[(100, 700), (50, 0), (400, 350)], [(-20, -10), (80, 500), (80, 20)]]
PLAIN_HINTS = {"h": [[(10, 30), (40, -30)], [(0, -20), (7, -21)]], "v": [[(9, 0), (5, -1)]]}
PLAIN_LINKS = {"x": [(0, 1), (1, 2), (2, -1)], "y": [(2, 0), (0, 1), (1, -2)]}


def plain_hints(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    n = d.nodes("A", ["move", "line", "line"])
    for i in range(3):
        n[i]["points"] = [[PLAIN_POINTS[m][i]] for m in range(masters)]
    hints = {
        ax: [[{"pos": p, "width": w} for p, w in h[:masters]] for h in hs]
        for ax, hs in PLAIN_HINTS.items()
    }
    d.glyph("A", n, hints=hints)
    d.add("G.Links", PLAIN_LINKS)
    return d


def plain_stems(m):
    """The stems of a master: negative widths turned round, those of ghosts kept."""
    out = set()
    for ax, hs in PLAIN_HINTS.items():
        for pos, width in (h[m] for h in hs):
            if width < 0 and width not in (-20, -21):
                pos, width = pos + width, -width
            out.add(f"{ax}stem {pos} {width}")
    for i, (ax, links) in enumerate(PLAIN_LINKS.items()):
        kind = "vh"[i]
        for a, b in links:
            at = PLAIN_POINTS[m][a][i]
            if b == -1:
                out.add(f"{kind}stem {at + 21} -21")
            elif b == -2:
                out.add(f"{kind}stem {at} -20")
            else:
                out.add(f"{kind}stem {at} {PLAIN_POINTS[m][b][i] - at}")
    return out


def plain(project, rep, rule, where):
    for name, e, opts in runs(
        project, rep, rule, where, plain_hints, [("plain", {}, {})], masters=2, axes=1
    ):
        for m, f in enumerate(e.fonts):
            g = sc.get(layer(e.s.tree(f), "public.default"), "A")
            got = sc.path(attr(g, "lib"), PSHINTS, "hintSetList", 0, "stems")
            label = f"plain:{m}"
            items = got.val if got is not None and got.kind in ("list", "tup") else [()]
            if not all(
                z and z[0] == "one" and z[1].kind == "leaf" and t.isk(z[1].val)
                for z in items
            ):
                rep.und(rule, label, "stems not determined")
                continue
            found = {t.kv(z[1].val) for z in items}
            want = plain_stems(m)
            if found == want:
                rep.ok(rule, label)
            else:
                rep.viol(
                    rule,
                    label,
                    where,
                    f"hints of master {m}: {sorted(want - found)} missing, "
                    f"{sorted(found - want)} unexpected",
                )


# a name that the text of a program cannot hold as it is
TOPZONE = 't"<&lt;>'


def same_zones(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    d.add(
        "T.TrueTypeZones",
        {
            k: [
                {"position": d.L(f"z{a}{n}.p"), "value": d.L(f"z{a}{n}.w"), "name": n}
                for n in ns
            ]
            for k, a, ns in (
                ("ttZonesT", "T", ["cap", "base", TOPZONE]),
                ("ttZonesB", "B", ["base", "over"]),
            )
        },
    )
    d.add("T.TrueTypeZoneDeltas", {i: {9: d.L(f"delta{i}")} for i in (1, 2, 4)})
    d.glyph(
        "A",
        d.nodes("A", ["move", "line", "line"]),
        tth=[
            {"cmd": f"Align{a}", "params": {"pt": i, "zone": z}}
            for a, i, z in (("Top", 0, 0), ("Top", 1, 2), ("Bottom", 2, 1))
        ],
    )
    return d


def zone_names(project, rep, tt, rule, where):
    """Zones of which two have the same name: the others are not mixed up."""
    for name, e, opts in runs(project, rep, rule, where, same_zones, [("zones", {}, {})]):
        x = X(e, 0)
        tree = e.s.tree(e.fonts[0])
        zones = sc.path(tree, "lib", TTLIB, "zones")
        pairs = []
        for side, n, i in (("T", "cap", 2), ("T", TOPZONE, 4), ("B", "over", 1)):
            want = {
                "position": x.v(f"z{side}{n}.p"),
                "width": x.v(f"z{side}{n}.w"),
                "top": side == "T",
                "delta": {"9": x.v(f"delta{i}")},
            }
            pairs.append((f"zone {n}", want, sc.get(zones, n)))
        compare(rep, rule, e.s, where, pairs, "same zones:")
        prog = program(
            sc.get(attr(sc.get(layer(tree, "public.default"), "A"), "lib"), TTPROG)
        )
        if prog is None:
            rep.und(tt, "same zones", "program not determined")
            continue
        got = [p[1].get("zone") for p in prog]
        if got == ["cap", TOPZONE, "over"]:
            rep.ok(tt, "same zones")
        else:
            rep.viol(tt, "same zones", where, f"zones 0, 2 and 1 are named {got}")


# composites whose hints refer to points of every component
BASES = {"dot": 3, "stem": 4, "bent": 3}
COMPOSITES = {
    "colon": ["dot", "stem", "dot", "dot"],
    "Zcolon": ["stem", "stem"],
    "colon.bent": ["dot", "bent", "stem"],
}


def composed(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    order = ["colon", "dot", "Zcolon", "stem", "colon.bent", "bent"]
    for n in order:
        if n in BASES:
            kinds = ["move", "line", "curve"] if n == "bent" else ["move"]
            kinds += ["line"] * (BASES[n] - len(kinds))
            nodes = d.nodes(n, kinds)
            if n == "bent":
                for m in range(d.M):
                    nodes[2]["points"][m][0] = nodes[0]["points"][m][0]
            more = {}
            if n != "bent":
                more["tth"] = [{"cmd": "AlignV", "params": {"pt": 1, "align": 0}}]
            d.glyph(n, nodes, **more)
            continue
        comps = [d.component(n, i, order.index(b)) for i, b in enumerate(COMPOSITES[n])]
        total = sum(BASES[b] for b in COMPOSITES[n])
        d.glyph(
            n,
            comps=comps,
            tth=[
                {"cmd": "AlignH", "params": {"pt": i, "align": 0}} for i in range(total + 2)
            ],
        )
    return d


def composites(project, rep, rule, where):
    shapes = {b: [[(i, 0, "line", False) for i in range(n)]] for b, n in BASES.items()}
    shapes["bent"] = [closed(0)]
    for name, e, opts in runs(project, rep, rule, where, composed, [("composed", {}, {})]):
        for m, f in enumerate(e.fonts):
            fg = layer(e.s.tree(f), "public.default")
            names = {b: names_of(sc.get(fg, b), shapes[b]) for b in BASES}
            if None in names.values():
                rep.und(rule, "composed", "point names not determined")
                continue
            for g, bases in COMPOSITES.items():
                want = []
                for i, b in enumerate(bases):
                    nm = dict(names[b][0])
                    if b == "bent":
                        nm[2] = nm[0]
                    want += [f"{nm[j]}-{i}" for j in range(BASES[b])]
                want += ["lsb", "rsb"]
                lib = attr(sc.get(fg, g), "lib")
                match_program(
                    rep,
                    rule,
                    f"composed:{g}",
                    where,
                    [("alignh", {"point": p, "align": "round"}) for p in want],
                    program(sc.get(lib, TTPROG)),
                )


def hashed(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    code = {"instructions": ["SVTCA[0]"]}
    d.glyph("comp", comps=[d.component("comp", i, 2) for i in range(2)], imported=code)
    d.glyph("nested", comps=[d.component("nested", 0, 0)], imported=code)
    d.glyph("base", d.nodes("base", ["move", "line", "line"]))
    return d


def hashes(project, rep, rule, where):
    """The outline hash of composites with instructions covers their components."""
    for name, e, opts in runs(project, rep, rule, where, hashed, [("hashed", {}, {})]):
        for m, f in enumerate(e.fonts):
            fg = layer(e.s.tree(f), "public.default")
            base = {f"base.n{i}.{c}0@{m}" for i in range(3) for c in "xy"}
            for g, more in (("comp", ()), ("nested", ("comp",))):
                at = f"hashed:{g}:{m}"
                h = sc.path(attr(sc.get(fg, g), "lib"), TTINST, "id")
                if h is None:
                    rep.viol(rule, at, where, f"the instructions of {g} have no hash")
                    continue
                ids = set()
                for leaf in sc.leaves(h):
                    ids |= sc.source_ids(leaf)
                want = base | {f"{g}.w@{m}"}
                for c in ("comp.c0", "comp.c1", *(["nested.c0"] if more else ())):
                    want |= {f"{c}.{k}@{m}" for k in ("dx", "dy", "sx", "sy")}
                if ids == want:
                    rep.ok(rule, at)
                elif sc.has_unknown(h):
                    rep.und(rule, at, "hash input not determined")
                else:
                    rep.viol(
                        rule,
                        at,
                        where,
                        f"the hash of {g} covers {sorted(ids ^ want)} or does not",
                    )


def renamed(project, rep, tt, ps, where, wps):
    """Points which the closepath optimisation drops."""
    for name, e, opts in runs(project, rep, tt, where, closing, [("closing", {}, {})]):
        for m, f in enumerate(e.fonts):
            x = X(e, m)
            fg = layer(e.s.tree(f), "public.default")
            shapes = dict(CLOSED, R=[closed(0), ended(3)])
            for g, cmds in (
                ("K", (0, 2)),
                ("N", (0,)),
                ("O", (2, 1)),
                ("P", (0, 1, 2)),
                ("T", (0, 2)),
            ):
                r = names_of(sc.get(fg, g), shapes[g])
                if r is None:
                    rep.und(tt, f"closing:{g}", "point names not determined")
                    continue
                nm = dict(r[0])
                if g in "NOP":
                    nm[2] = nm[0]
                want = [("alignh", {"point": nm[i], "align": "round"}) for i in cmds]
                lib = attr(sc.get(fg, g), "lib")
                match_program(
                    rep, tt, f"closing:{g}", where, want, program(sc.get(lib, TTPROG))
                )
            for g, want in (
                ("R", [(0, ["h0"]), (0, ["v0"]), (4, ["h1"])]),
                ("S", [(0, ["h0"]), (0, ["v0"])]),
            ):
                r = names_of(sc.get(fg, g), shapes[g])
                if r is None:
                    rep.und(ps, f"closing:{g}", "point names not determined")
                    continue
                found = sc.get(attr(sc.get(fg, g), "lib"), PSHINTS)
                hint_sets(
                    rep,
                    ps,
                    f"closing:{g}",
                    wps,
                    e,
                    [(r[0][i], [stem(x, g, h) for h in hs]) for i, hs in want],
                    found,
                )


def stem_cases(project, rep, fl, tt, where):
    """Stems with equal, missing and clashing names, and clashing rounding."""

    def doc(s, masters, axes):
        d = ufo.Doc(s, masters, axes)
        d.masters()
        d.ps_info()
        names = {"ttStemsH": ["X", "X", "", ""], "ttStemsV": ["X", "", "Y"]}
        d.add(
            "T.TrueTypeStemPPEMs",
            {
                k: [
                    {"stem": i, "round": {2: 20, 3: 20, 4: 30, 5: 40}}
                    for i in range(len(v))
                ]
                for k, v in names.items()
            },
        )
        d.add(
            "T.TrueTypeStems",
            {
                k: [
                    {
                        "value": d.L(f"stem.{k}{i}.width"),
                        "name": n,
                        "round": {6: 40 if i else 50},
                    }
                    for i, n in enumerate(v)
                ]
                for k, v in names.items()
            },
        )
        d.add(
            "T.TrueTypeStemPPEMs1",
            {
                k: [{"stem": i, "round": {1: 20 if i else 10}} for i in range(len(v))]
                for k, v in names.items()
            },
        )
        d.glyph(
            "A",
            d.nodes("A", ["move", "line", "line"]),
            tth=[
                {"cmd": f"SingleLink{k[-1]}", "params": {"pt1": 0, "pt2": 1, "stem": i}}
                for k, v in names.items()
                for i in (*range(len(v)), -3, len(v), 9)
            ],
        )
        return d

    for name, e, opts in runs(project, rep, fl, where, doc, [("stems", {}, {})]):
        for f in e.fonts[:1]:
            tree = e.s.tree(f)
            by = stem_names(tree)
            if by is None:
                rep.und(fl, "stems", "stem names not determined")
                continue
            want = {
                f"stem.ttStems{d}{i}.width": d
                for d, n in (("H", 4), ("V", 3))
                for i in range(n)
            }
            lost = sorted(set(want) - set(by))
            if lost:
                rep.viol(fl, "stems:lost", where, f"stems not exported: {lost}")
                continue
            rep.ok(fl, "stems:all")
            d = sc.path(sc.get(tree, "lib"), TTLIB, "stems")
            pairs = []
            for k, n in by.items():
                first = k[len("stem.ttStemsH")] == "0"
                r = {"20": 3, "30": 4, "40": 5, "50": 6, "10": 1}
                if not first:
                    r = {"20": 3, "30": 4, "40": 6}
                pairs.append((f"{k}.round", r, sc.path(d, n, "round")))
                pairs.append(
                    (f"{k}.horizontal", want[k] == "V", sc.path(d, n, "horizontal"))
                )
            compare(rep, fl, e.s, where, pairs, "stems:")
            fg = layer(tree, "public.default")
            r = names_of(sc.get(fg, "A"), SHAPES["B"])
            if r is None:
                continue
            cmds = [
                (
                    f"single{d.lower()}",
                    {"point1": r[0][0], "point2": r[0][1]}
                    | (
                        {"stem": by[f"stem.ttStems{d}{i}.width"]}
                        if i is not None
                        else {"round": "true"}
                    ),
                )
                for d, n in (("H", 4), ("V", 3))
                for i in (*range(n), None, 0, 0)  # no such stem: the first
            ]
            lib = attr(sc.get(fg, "A"), "lib")
            match_program(rep, tt, "stems:A", where, cmds, program(sc.get(lib, TTPROG)))
