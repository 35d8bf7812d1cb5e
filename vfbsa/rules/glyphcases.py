"""
Glyph data in other quantities and with other details than the standard document.

Every glyph of one document is a case: what is added after the glyph entry, and the
attributes the exported glyph has. The guides of the font are cases of documents of
their own.
"""

from colorsys import hls_to_rgb

from .. import scene as sc
from .. import terms as t
from . import ufo
from .ufodata import X, attr, compare, layer, runs

TRI = ["move", "line", "line"]
USER = "com.fontlab.v5.userData"
BITMAPS = "com.fontlab.v5.bitmaps"
BACKGROUND = "com.fontlab.v5.background"


def hue(v):
    return "%0.4f,%0.4f,%0.4f,1" % hls_to_rgb(v / 255, 0.8, 0.76)


def color(v):
    r, g, b = (int(v[i : i + 2], 16) / 255 for i in (1, 3, 5))
    return f"{r:0.4f},{g:0.4f},{b:0.4f},1"


# ------------------------------------------------------------------- code points


def unicodes(bmp, non):
    def add(d, n):
        if bmp is not None:
            d.add("G.unicodes", [d.L(f"{n}.u{i}") for i in range(bmp)])
        if non is not None:
            d.add("G.UnicodesNonBMP", [d.L(f"{n}.x{i}") for i in range(non)])

    def want(x, n):
        out = [x.v(f"{n}.u{i}") for i in range(bmp or 0)]
        return {"unicodes": out + [x.v(f"{n}.x{i}") for i in range(non or 0)]}

    return add, want


def coded(bmp, non):
    """Known code points: the first one is the main one, whatever their values."""

    def add(d, n):
        d.add("G.unicodes", bmp)
        d.add("G.UnicodesNonBMP", non)

    return add, lambda x, n: {"unicodes": [*bmp, *non]}


# ----------------------------------------------------------------------- anchors


def anchors(names, moved):
    """names: one per anchor, None for an anchor without name; moved: those in AnchorsMM."""

    def add(d, n):
        out = []
        for i, name in enumerate(names):
            a = {"x": d.L(f"{n}.a{i}.x"), "y": d.L(f"{n}.a{i}.y")}
            out.append(a if name is None else {"name": name, **a})
        d.add("G.GDEFData", {"anchors": out})
        if moved is not None:
            d.add(
                "G.AnchorsMM",
                [
                    {"x": d.mm(f"{n}.m{i}.x"), "y": d.mm(f"{n}.m{i}.y")}
                    for i in range(moved)
                ],
            )

    def want(x, n):
        out = []
        for i, name in enumerate(names):
            if i < (moved or 0):
                a = {"x": x.at(f"{n}.m{i}.x"), "y": x.at(f"{n}.m{i}.y")}
            else:
                a = {"x": x.v(f"{n}.a{i}.x"), "y": x.v(f"{n}.a{i}.y")}
            out.append(a if name is None else {"name": name, **a})
        return {"anchors": out}

    return add, want


def gdef_only():
    """GDEF data without anchors."""

    def add(d, n):
        d.add("G.GDEFData", {"glyph_class": "base"})

    return add, lambda x, n: {"anchors": []}


# ------------------------------------------------------------------------ guides

# (number of horizontal and vertical guides, properties)
GUIDES = {
    "plain": (2, 2, [], []),
    "h-only": (3, 0, [(3, "c", None), (1, "a", "#ff8001")], []),
    "v-only": (0, 2, [], [(1, None, "#0180ff"), (2, "b", "#000000")]),
    "second": (1, 2, [(1, "x", "#FFAA10")], [(2, "x", "#10ffaa")]),
    "missing": (1, 1, [(2, "no", None), (1, "yes", None)], [(7, "no", "#ffffff")]),
    "none": (0, 0, [], []),
    "twice": (2, 1, [(2, "p", None), (2, "q", "#123456")], [(1, "p", None)]),
}


def properties(h, v):
    return {
        ax: [
            {
                "index": i,
                **({} if name is None else {"name": name}),
                **({} if c is None else {"color": c}),
            }
            for i, name, c in ps
        ]
        for ax, ps in (("h", h), ("v", v))
    }


def expected_guides(x, tag, case):
    nh, nv, ph, pv = GUIDES[case]
    out = []
    for ax, n, ps in (("h", nh, ph), ("v", nv, pv)):
        for j in range(n):
            more = {}
            for i, name, c in ps:
                if i == j + 1:
                    if name is not None:
                        more["name"] = name
                    if c is not None:
                        more["color"] = color(c)
            out.append(x.guide(tag, ax, j, **more))
    return out


def guides(case):
    nh, nv, ph, pv = GUIDES[case]

    def add(d, n):
        if ph or pv:
            d.add("G.GuideProperties", properties(ph, pv))

    def want(x, n):
        return {"guidelines": expected_guides(x, n, case)}

    return add, want, lambda d, n: {"guides": d.guides(n, nh, nv)}


# --------------------------------------------------------------- bitmaps and images


def bitmaps(*rows):
    keys = ("ppm", "ox", "oy", "ax", "ay", "w", "h")

    def add(d, n):
        out = []
        for i, k in enumerate(rows):
            z = {a: d.L(f"{n}.b{i}.{a}") for a in keys}
            out.append(
                {
                    "ppm": z["ppm"],
                    "origin": (z["ox"], z["oy"]),
                    "adv": (z["ax"], z["ay"]),
                    "size_pixels": (z["w"], z["h"]),
                    "bitmap": {"data": [[d.L(f"{n}.b{i}.r{r}")] for r in range(k)]},
                }
            )
        d.add("G.Bitmaps", out)

    def want(x, n):
        out = []
        for i, k in enumerate(rows):
            z = {a: x.v(f"{n}.b{i}.{a}") for a in keys}
            out.append(
                {
                    "imageData": [[x.v(f"{n}.b{i}.r{r}")] for r in reversed(range(k))],
                    "bitDepth": 1,
                    "horiAdvance": z["ax"],
                    "vertAdvance": z["ay"],
                    "width": z["w"],
                    "height": z["h"],
                    "horiBearingX": z["ox"],
                    "horiBearingY": t.add(z["h"], z["oy"]),
                    "ppemX": z["ppm"],
                    "ppemY": z["ppm"],
                }
            )
        return {"lib": {BITMAPS: out}}

    return add, want


# ------------------------------------------------------------------------- marks


def mark(v):
    return (lambda d, n: d.add("G.mark", v)), lambda x, n: {
        "lib": {"public.markColor": hue(v)}
    }


# ------------------------------------------------------------------ text and masks


def text(note, data):
    def add(d, n):
        if note is not None:
            d.add("G.note", note)
        if data is not None:
            d.add("G.customdata", data)

    def want(x, n):
        return {"note": note, "lib": {} if data is None else {USER: data}}

    return add, want


def mask(metrics):
    """A mask; its metrics in no entry, in the first entry only, or in both."""

    def add(d, n):
        d.add("G.mask", {"nodes": d.nodes(f"{n}.mask", TRI)})
        if metrics:
            d.add("G.MaskMetrics", (d.L(f"{n}.mw@0"), d.L(f"{n}.mh@0")))
            d.add(
                "G.MaskMetricsMM",
                [(d.L(f"{n}.mw@{m}"), d.L(f"{n}.mh@{m}")) for m in range(1, d.M)],
            )

    def want(x, n):
        w, h = (f"{n}.mw", f"{n}.mh") if metrics else (f"{n}.w", f"{n}.h")
        return {
            "mask": {
                "width": x.at(w),
                "height": x.at(h),
                "contours": [
                    [x.pt(f"{n}.mask", i, 0, "line", False) for i in range(len(TRI))]
                ],
                "components": [],
            }
        }

    return add, want


# -------------------------------------------------------------------- components


def components(*gids):
    def add(d, n):
        pass

    def want(x, n):
        return {
            "components": [x.component(NAMES[g], n, i) for i, g in enumerate(gids)],
            "contours": [],
        }

    def more(d, n):
        return {
            "nodes": [],
            "components": [d.component(n, i, g) for i, g in enumerate(gids)],
        }

    return add, want, more


def both(gid):
    """An outline and a component."""

    def want(x, n):
        return {
            "components": [x.component(NAMES[gid], n, 0)],
            "contours": [[x.pt(n, i, 0, "line", False) for i in range(len(TRI))]],
        }

    return (
        lambda d, n: None,
        want,
        lambda d, n: {"components": [d.component(n, 0, gid)]},
    )


CASES = {
    "u-bmp": unicodes(1, None),
    "u-three": unicodes(3, None),
    "u-non": unicodes(None, 1),
    "u-non2": unicodes(None, 2),
    "u-both": unicodes(1, 1),
    "u-many": unicodes(2, 3),
    "u-none": unicodes(None, None),
    "u-empty": unicodes(0, 0),
    "u-order": coded([0x3A9, 0x2126, 0xE000, 0x41], [0x1F601, 0x10FFFF, 0x1F600]),
    "a-names": anchors(["top_1", "_bottom", "caret.1", "a b", "Top"], 5),
    "a-empty": anchors(["", None, "x"], 3),
    "a-few": anchors(["top", "bottom", "left"], 1),
    "a-fixed": anchors(["top", None], None),
    "a-same": anchors(["top", "top"], 2),
    "a-zero": anchors([], 0),
    "a-gdef": gdef_only(),
    **{f"g-{k}": guides(k) for k in GUIDES},
    "b-two": bitmaps(2, 3),
    "b-three": bitmaps(1, 4, 1),
    "b-blank": bitmaps(0),
    "b-none": bitmaps(),
    **{f"m-{v}": mark(v) for v in (1, 2, 85, 127, 128, 200, 254, 255)},
    "t-empty": text("", ""),
    "t-note": text("a\nb", None),
    "t-data": text(None, "x=1"),
    "t-both": text(" n ", "\tü"),
    "k-plain": mask(False),
    "k-metrics": mask(True),
    "c-one": components(0),
    "c-same": components(1, 1),
    "c-self-later": components(2, 0, 1),
    "c-last": components(-1),
    "c-both": both(3),
}
NAMES = list(CASES)
CASES["c-last"] = components(len(NAMES) - 1)
DEFAULT = {
    "unicodes": [],
    "anchors": [],
    "guidelines": [],
    "note": None,
    "components": [],
}
IN_MINIMAL = ("unicodes", "anchors", "components", "contours")


def document(s, masters, axes):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    for n, (add, want, *more) in CASES.items():
        d.glyph(
            n,
            **{"nodes": d.nodes(n, TRI), **(more[0](d, n) if more else {})},
        )
        add(d, n)
    return d


def glyphs(project, rep, rule, where):
    variants = [("cases", {}, {}), ("cases-minimal", {"minimal": True}, {"minimal": True})]
    for name, e, opts in runs(
        project, rep, rule, where, document, variants, masters=2, axes=1
    ):
        minimal = opts.get("minimal", False)
        for m, f in enumerate(e.fonts):
            x = X(e, m, minimal, True)
            layers = e.s.tree(f)
            fg = layer(layers, "public.default")
            bg = None if minimal else layer(layers, "public.background")
            pairs = []
            for n, (add, want, *_) in CASES.items():
                found = sc.get(fg, n)
                if found is None:
                    continue  # C16
                out = {
                    **DEFAULT,
                    "width": x.at(f"{n}.w"),
                    "height": x.at(f"{n}.h"),
                    "contours": [[x.pt(n, i, 0, "line", False) for i in range(len(TRI))]],
                    "lib": {},
                    **want(x, n),
                }
                back = out.pop("mask", None)
                for k, w in out.items():
                    if minimal and k not in IN_MINIMAL:
                        continue
                    pairs.append((f"{n}.{k}", w, attr(found, k)))
                if not minimal:
                    g = sc.get(bg, n)
                    if back is None:
                        pairs.append((f"{n}.mask", None, g))
                    elif g is None:
                        rep.viol(rule, f"{name}:{n}", where, f"glyph {n} has no mask")
                    else:
                        pairs += [
                            (f"{n}.mask.{k}", w, sc.get(g, k)) for k, w in back.items()
                        ]
            compare(rep, rule, e.s, where, pairs, f"{name}:")


def font_guides(project, rep, rule, where):
    for case, (nh, nv, ph, pv) in GUIDES.items():

        def doc(s, masters, axes):
            d = ufo.Doc(s, masters, axes)
            d.masters()
            d.ps_info()
            d.add("F.GlobalGuides", d.guides("font", nh, nv))
            if ph or pv:
                d.add("F.GlobalGuideProperties", properties(ph, pv))
            return d

        for _, e, opts in runs(
            project, rep, rule, where, doc, [(f"guides-{case}", {}, {})], masters=2, axes=1
        ):
            for m, f in enumerate(e.fonts):
                x = X(e, m)
                found = sc.path(e.s.tree(f), "info", "guidelines")
                want = expected_guides(x, "font", case)
                if not want and (found is None or found.kind == "leaf"):
                    continue
                compare(
                    rep,
                    rule,
                    e.s,
                    where,
                    [("info.guidelines", want, found)],
                    f"guides-{case}:",
                )
