"""C18, C19: contours of every short form, closing on their start point or not."""

from itertools import product

from .. import scene as sc
from . import ufo
from .ufodata import (
    CODES,
    PSHINTS,
    TTPROG,
    X,
    attr,
    compare,
    hint_sets,
    layer,
    match_program,
    names_of,
    outline,
    program,
    runs,
    stem,
    stem_names,
    wanted,
)

# relation of the last node to the first one, per master
RELATIONS = {
    "same": ("same", "same"),
    "x": ("x", "x"),
    "y": ("y", "y"),
    "apart": ("apart", "apart"),
    "first": ("same", "apart"),
    "others": ("apart", "same"),
}
OPEN = 8
MOVES = (0, 1, 2, 3, 4, 5)
FLAGS = (0, 1, 2, 3, 5, 4, 9, 7)


def forms(longest):
    """The node types after the first node of a contour."""
    for n in range(1, longest + 1):
        for ks in product(("line", "curve", "qcurve"), repeat=n):
            if any(a == "qcurve" and b == "curve" for a, b in zip(ks, ks[1:])):
                continue
            yield ks


class Contour:
    def __init__(self, kinds, flags, relation):
        self.kinds, self.flags, self.relation = ("move", *kinds), flags, relation
        self.last = len(kinds)

    def open(self):
        return bool(self.flags[0] & OPEN)

    def merged(self, m):
        """The last node of a closed contour is its first one again."""
        same = RELATIONS[self.relation][m] == "same"
        return same and not self.open() and self.kinds[-1] == "curve"

    def shape(self, m, base=0):
        """(node, index of its point, UFO type, smooth) in the order of the UFO."""
        pts, quadratic = [], False
        for i, k in enumerate(self.kinds):
            smooth = bool(self.flags[i] & 1)
            if k == "curve":
                pts += [(base + i, 1, None, False), (base + i, 2, None, False)]
                pts.append((base + i, 0, "curve", smooth))
            elif k == "qcurve":
                pts.append((base + i, 0, None, False))
            else:
                pts.append((base + i, 0, "qcurve" if quadratic else "line", smooth))
            quadratic = k == "qcurve"
        first = pts[0]
        if self.open():
            pts[0] = (first[0], 0, "move", first[3])
        elif self.merged(m):
            pts = [pts[-1]] + pts[1:-1]
        elif quadratic:
            pts[0] = (first[0], 0, "qcurve", first[3])
        return pts


def sketches():
    """{glyph name: [contours]}"""
    out, n = {}, 0
    for relation in RELATIONS:
        for move in (0, OPEN):
            for kinds in forms(3 if relation in ("same", "apart") else 2):
                flags = [MOVES[n % 6] | move]
                flags += [FLAGS[(n + 3 * i) % 8] for i in range(len(kinds))]
                out[f"s{n}"] = [Contour(kinds, flags, relation)]
                n += 1
    out["pair"] = [
        Contour(("line", "curve"), (0, 0, 1), "same"),
        Contour(("qcurve", "line", "qcurve"), (1, 0, 1, 0), "apart"),
        Contour(("curve",), (9, 1), "same"),
        Contour(("line", "curve"), (0, 0, 0), "first"),
        Contour(("line", "line"), (0, 1, 1), "same"),
    ]
    return out


def place(d, name, contours):
    """The nodes of a glyph, and the terms of the coordinates: [node][point][master]"""
    nodes = []
    for c in contours:
        base = len(nodes)
        new = d.nodes(f"{name}.{base}", c.kinds, c.flags)
        for m in range(d.M):
            rel = RELATIONS[c.relation][m]
            a, b = new[0]["points"][m], new[c.last]["points"][m]
            lo = [d.L(f"{name}.{base}.a{z}@{m}", rng=(-900, -1)) for z in "xy"]
            hi = [d.L(f"{name}.{base}.b{z}@{m}", rng=(0, 900)) for z in "xy"]
            a[0] = tuple(lo)
            b[0] = (
                lo[0] if rel in ("same", "x") else hi[0],
                lo[1] if rel in ("same", "y") else hi[1],
            )
        nodes += new
    d.placed[name] = nodes
    return nodes


class Placed(X):
    def pt(self, g, i, k=0, ty=None, smooth=False):
        x, y = self.d.placed[g][i]["points"][self.m][k]
        return (x, y, ty, smooth, sc.ANY)

    def shape(self, g, contours):
        out, base = [], 0
        for c in contours:
            out.append(c.shape(self.m, base))
            base += len(c.kinds)
        return out


def drawing(every, more=None):
    def doc(s, masters, axes):
        d = ufo.Doc(s, masters, axes)
        d.placed = {}
        d.masters()
        d.ps_info()
        d.stems()
        d.zones()
        for name, cs in every.items():
            nodes = place(d, name, cs)
            d.glyph(name, nodes, **(more(d, name, cs) if more else {}))
        return d

    return doc


def parts(every, n=40):
    names = list(every)
    for i in range(0, len(names), n):
        yield {k: every[k] for k in names[i : i + n]}


def contours(project, rep, rule, where):
    for i, every in enumerate(parts(sketches())):
        for name, e, _ in runs(
            project,
            rep,
            rule,
            where,
            drawing(every),
            [(f"forms{i}", {}, {})],
            masters=2,
            axes=1,
        ):
            for m, f in enumerate(e.fonts):
                x = Placed(e, m)
                fg = layer(e.s.tree(f), "public.default")
                pairs = []
                for g, cs in every.items():
                    found = sc.get(fg, g)
                    if found is not None:
                        want = outline(x, g, {g: x.shape(g, cs)})
                        label = " ".join(cs[0].kinds) + f" {cs[0].flags} {cs[0].relation}"
                        pairs.append((f"{g} ({label})", want, attr(found, "contours")))
                compare(rep, rule, e.s, where, pairs, f"forms{i}@{m}:")


# ---------------------------------------------------------------------------- C19


INTERPOLATE = ("InterpolateH", "InterpolateV")


def commands(a, b, c):
    """Every command, with the points in every role."""
    out = []
    for p, q, r in ((a, b, c), (b, c, a)):
        out += [
            ("AlignTop", {"pt": p, "zone": 1}),
            ("AlignBottom", {"pt": p, "zone": 0}),
            ("AlignH", {"pt": p, "align": 0}),
            ("AlignV", {"pt": p, "align": 3}),
            ("SingleLinkH", {"pt1": p, "pt2": q, "stem": 0, "align": 0}),
            ("SingleLinkV", {"pt1": p, "pt2": q, "stem": 1, "align": 1}),
            ("DoubleLinkH", {"pt1": p, "pt2": q, "stem": -1}),
            ("DoubleLinkV", {"pt1": p, "pt2": q, "stem": 0}),
            ("InterpolateH", {"pti": p, "pt1": q, "pt2": r, "align": 4}),
            ("InterpolateV", {"pti": p, "pt1": q, "pt2": r, "align": -1}),
        ]
        out += [
            (k, {"pt": p, "shift": 1, "ppm1": 10, "ppm2": 20})
            for k in ("MDeltaH", "MDeltaV", "FDeltaH", "FDeltaV")
        ]
    out += [(k, {"pti": c, "pt1": a, "pt2": b, "align": 2}) for k in INTERPOLATE]
    assert {k for k, _ in out} == set(CODES)
    return out


def hinted():
    out, n = {}, 0
    for relation in ("same", "apart", "first", "others"):
        for move in (0, OPEN):
            for kinds in (
                ("curve",),
                ("line", "curve"),
                ("line", "line"),
                ("qcurve", "line"),
                ("line", "qcurve"),
            ):
                flags = [move] + [0] * len(kinds)
                c = Contour(kinds, flags, relation)
                second = Contour(("line", "line"), (0, 0, 0), "x")
                out[f"t{n}"] = [c, second] if n % 2 else [second, c]
                n += 1
    return out


def roles(contours):
    """First and last node of the contour that may be merged, and another node."""
    c, d = contours
    if d.relation == "x":
        return 0, c.last, len(c.kinds) + 1
    return len(c.kinds), len(c.kinds) + d.last, 1


def hints(project, rep, tt, ps, where, wps):
    every = hinted()

    def tth(d, name, cs):
        return {"tth": [{"cmd": k, "params": dict(p)} for k, p in commands(*roles(cs))]}

    def masks(d, name, cs):
        a, b, c = roles(cs)
        return {
            "hints": d.hints(
                name,
                2,
                2,
                [("h", 0), ("r", a), ("v", 0), ("r", b), ("h", 1), ("r", c), ("v", 1)],
            )
        }

    def both(d, name, cs):
        a, b, c = roles(cs)
        return {
            "tth": [{"cmd": k, "params": dict(p)} for k, p in commands(b, c, c)[:6]],
            "hints": d.hints(name, 1, 1, [("h", 0), ("r", a), ("v", 0)]),
        }

    for label, more in (("tt", tth), ("ps", masks), ("both", both)):
        for some in parts(every, 10):
            for _, e, _ in runs(
                project,
                rep,
                tt,
                where,
                drawing(some, more),
                [(f"ends-{label}", {}, {})],
                masters=2,
                axes=1,
            ):
                for m, f in enumerate(e.fonts):
                    judge(rep, tt, ps, where, wps, label, e, m, f, some)


def judge(rep, tt, ps, where, wps, label, e, m, f, every):
    x = Placed(e, m)
    tree = e.s.tree(f)
    fg = layer(tree, "public.default")
    by = stem_names(tree) or {}
    stems = {
        d: [by.get(f"stem.ttStems{d}{i}.width") for i in range(k)]
        for d, k in (("H", 1), ("V", 2))
    }
    for g, cs in every.items():
        a, b, c = roles(cs)
        tag = f"ends-{label}:{g}@{m}"
        r = names_of(sc.get(fg, g), x.shape(g, cs))
        if r is None:
            rep.und(tt, tag, "point names not determined")
            continue
        nm = dict(r[0])
        base = 0
        for ct in cs:
            if ct.merged(m):
                nm[base] = nm[base + ct.last]
            base += len(ct.kinds)
        dup = sorted({y for y in r[1] if r[1].count(y) > 1})
        if dup:
            rep.viol(tt, f"{tag}:names", where, f"points of {g} share the names {dup}")
        lib = attr(sc.get(fg, g), "lib")
        if label != "ps":
            cmds = commands(a, b, c) if label == "tt" else commands(b, c, c)[:6]
            want = wanted(e, cmds, lambda i: nm.get(i), stems)
            want = [
                (k, {z: str(y) if isinstance(y, int) else y for z, y in p.items()})
                for k, p in want
            ]
            match_program(rep, tt, tag, where, want, program(sc.get(lib, TTPROG)))
        if label != "tt":
            if label == "ps":
                sets = [(0, ["h0"]), (a, ["v0"]), (b, ["h1"]), (c, ["v1"])]
                if a == 0:
                    sets = [(0, ["v0"])] + sets[2:]
            else:
                sets = [(0, ["h0"]), (a, ["v0"])] if a else [(0, ["v0"])]
            want = [(nm.get(i), [stem(x, g, h) for h in hs]) for i, hs in sets]
            hint_sets(rep, ps, tag, wps, e, want, sc.get(lib, PSHINTS))
