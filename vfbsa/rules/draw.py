"""C26: what the drawing interface of a glyph draws, and what is stored by drawing.

Glyphs with symbolic coordinates are drawn, by abstract interpretation, onto pens which
only record the calls. The calls are compared with those which follow from the nodes and
components of the glyph. Outlines which are drawn into a glyph must come out again.
"""

from .. import interp as I
from .. import scene as sc
from ..project import AnchorLost
from ..terms import K
from . import ufo

ANY = sc.ANY
from .ufodata import X, compare

VFB = "vfbLib.vfb.vfb:Vfb"
GLYPH = "vfbLib.vfb.glyph:VfbGlyph"
MASTER = "vfbLib.vfb.glyph:VfbGlyphMaster"

M, L, C, Q = "move", "line", "curve", "qcurve"

# name, node types, node flags, nodes with the same position, components
OUTLINES = [
    ("lines", [M, L, L], [1, 0, 1], None, 0),
    ("two contours", [M, L, L, M, L, L, L], [0, 1, 0, 1], None, 0),
    ("curves", [M, C, L, C, L], [0, 1, 3, 0], None, 0),
    ("explicit closing line", [M, L, L, L], [0, 0, 0, 1], (0, 3), 0),
    ("closing curve", [M, L, C], [0, 0, 1], (0, 2), 0),
    ("open", [M, L, C], [8, 0, 1], None, 0),
    ("open, closed", [M, L, L, M, L, L], [9, 0, 0, 0, 1, 0], None, 0),
    ("closed, open", [M, L, L, M, L, C], [1, 0, 0, 8, 1, 0], None, 0),
    ("quadratic", [M, Q, Q, L, Q, L, L], [1, 0, 0, 1], None, 0),
    ("quadratic to the start", [M, L, Q, Q], [1, 0, 0, 0], None, 0),
    (
        "quadratics to the start",
        [M, Q, L, Q, M, Q, Q, M, L, L],
        [0, 0, 1, 0, 1, 0, 0, 0, 1],
        None,
        0,
    ),
    ("open quadratic", [M, Q, Q, L, M, L, Q], [8, 0, 0, 0, 0, 0, 0], None, 0),
    ("one point", [M], [8], None, 0),
    ("components", [], [], None, 2),
    ("outline and component", [M, L, L, L], [0, 0, 0, 0], None, 1),
    ("empty", [], [], None, 0),
]


class Drawn:
    """A font object with the outlines above."""

    def __init__(self, project, masters=4, only=None):
        s = self.s = sc.Scene(project)
        d = self.doc = self.d = ufo.Doc(s, masters, 0)
        d.masters()
        self.same = {}
        for name, kinds, flags, same, comps in OUTLINES:
            if only is not None and name not in only:
                continue
            n = d.nodes(name, kinds, flags)
            if same:
                a, b = same
                self.same[name] = {b: a}
                for m in range(masters):
                    n[b]["points"][m][0] = n[a]["points"][m][0]
            elif kinds and kinds[-1] == C:
                # neither equal nor different by assumption only
                for m in range(masters):
                    n[0]["points"][m][0] = (10, n[0]["points"][m][0][1])
                    n[-1]["points"][m][0] = (20, n[-1]["points"][m][0][1])
            d.glyph(
                name, n, [d.component(name, i, i) for i in range(comps)] if comps else None
            )
        self.ready()

    def ready(self):
        s, d = self.s, self.d
        self.vfb = s.new(VFB)
        parser = s.ip.glob("vfbLib.parsers.base", "BaseParser")
        compiler = s.ip.glob("vfbLib.compilers.glyph", "GlyphCompiler")
        glyph = s.enum("G")["Glyph"]
        for e in d.entries:
            o = s.st.heap[e.id].set("parser", parser)
            if s.lit(glyph) == dict(o.attrs)["_id"]:
                o = o.set("compiler", compiler)
            s.st.heap[e.id] = o
            s.call(self.vfb, "add_entry", e)
        o = s.st.heap[self.vfb.id]
        s.st.heap[self.vfb.id] = o.set("num_masters", s.lit(d.M))

    def glyph(self, name):
        return self.s.call(self.vfb, "__getitem__", name)

    def master(self, name, m):
        ms = self.s.items(self.s.call(self.vfb, "get_masters"))
        return self.s.call(ms[m], "__getitem__", name)

    def set(self, obj, **kw):
        s = self.s
        for k, v in kw.items():
            s.st.heap[obj.id] = s.st.heap[obj.id].set(k, s.lit(v))

    def drawn(self, g, method="draw"):
        pen = self.s.new("spec.pens:" + ("Segments" if method == "draw" else "Points"))
        self.s.call(g, method, pen)
        return self.s.tree(self.s.get(pen, "drawn"))


# ------------------------------------------------------------------ what is expected


def contours(nodes):
    """The nodes (number, type, flags, points), contour by contour."""
    out = []
    for n in nodes:
        if n[1] == M:
            out.append([])
        out[-1].append(n)
    return out


def segments(nodes, comps):
    """The calls of a segment pen which draw the nodes."""
    out = []
    for c in contours(nodes):
        start = c[0][3][0]
        out.append(("moveTo", start))
        off = []
        for _, ty, _, pts in c[1:]:
            if ty == C:
                out.append(("curveTo", pts[1], pts[2], pts[0]))
            elif ty == Q:
                off.append(pts[0])
            elif off:
                out.append(("qCurveTo", *off, pts[0]))
                off = []
            else:
                out.append(("lineTo", pts[0]))
        is_open = c[0][2] & 8
        if off:
            out.append(("qCurveTo", *off, start))
        out.append(("endPath" if is_open else "closePath",))
    return out + [("addComponent", n, t) for n, t in comps]


def points(nodes, comps, same):
    """The calls of a point pen which draw the nodes."""
    out = []
    for c in contours(nodes):
        p = []
        off = False
        for i, ty, flags, pts in c:
            smooth = bool(flags & 1)
            if ty == C:
                p += [(pts[1], None, False), (pts[2], None, False), (pts[0], C, smooth)]
            elif ty == Q:
                p.append((pts[0], None, False))
            else:
                p.append((pts[0], Q if ty == L and off else ty, smooth))
            off = ty == Q
        if not c[0][2] & 8:
            first, last = p[0], p[-1]
            if last[1] is None:
                p[0] = (first[0], Q, first[2])
            elif last[1] == C and same.get(c[-1][0]) == c[0][0]:
                p = [last] + p[1:-1]
            elif len(p) > 1:
                p[0] = (first[0], L, first[2])
        out.append(("beginPath",))
        out += [("addPoint", *x) for x in p]
        out.append(("endPath",))
    return out + [("addComponent", n, t) for n, t in comps]


def nodes_of(e, name, m):
    """The nodes of a glyph as they are in the scene, for master m."""
    s = e.s
    k = next(o for o in OUTLINES if o[0] == name)
    out = []
    x = X(e, m)
    for i, ty in enumerate(k[1]):
        src = e.same.get(name, {}).get(i, i)
        pts = [x.pt(name, src, 0)[:2]]
        if ty == C:
            pts = [x.pt(name, i, j)[:2] for j in range(3)]
            if src != i:
                pts[0] = x.pt(name, src, 0)[:2]
        if not e.same.get(name) and k[1][-1] == C and i in (0, len(k[1]) - 1):
            pts[0] = (10 if i == 0 else 20, pts[0][1])
        out.append((i, ty, k[2][i] if i < len(k[2]) else 0, pts))
    return out, x


def scaled(e, name, m, exact):
    """Components: as stored, or with the scale as it is written to a UFO."""
    k = next(o for o in OUTLINES if o[0] == name)
    x = X(e, m)
    out = []
    for i in range(k[4]):
        n, t = x.component(e.order[i], name, i)
        if exact:
            t = (x.at(f"{name}.c{i}.sx"), 0, 0, x.at(f"{name}.c{i}.sy"), *t[4:])
        out.append((n, t))
    return out


def check(rep, rule, e, where, tag, want, fn):
    found = ufo.guarded(rep, rule, where, fn)
    if found is not None:
        compare(rep, rule, e.s, where, [("calls", want, found)], tag + " ")


def drawing(project, rep):
    rule = "draw-segments"
    prule = "draw-points"
    rep.rule(
        rule,
        "`draw` emits the nodes of the selected master in order, closed or open, then the "
        "components",
    )
    rep.rule(prule, "`drawPoints` emits the same outline as points with their smoothness")
    wd = sc.where(project, GLYPH + ".draw")
    wp = sc.where(project, GLYPH + ".drawPoints")
    wm = sc.where(project, MASTER + ".drawPoints")
    e = Drawn(project)
    e.order = [o[0] for o in OUTLINES]
    for name in e.order:
        for m in range(e.d.M):
            nodes, x = nodes_of(e, name, m)
            g = ufo.guarded(rep, rule, wd, lambda: e.glyph(name))
            if g is None:
                continue
            e.set(g, master_index=m)
            check(
                rep,
                rule,
                e,
                wd,
                f"{name}, master {m}:",
                segments(nodes, scaled(e, name, m, True)),
                lambda: e.drawn(g),
            )
            e.set(g, master_index=0)
            want = points(nodes, scaled(e, name, m, False), e.same.get(name, {}))
            if m == 0:
                check(
                    rep,
                    prule,
                    e,
                    wp,
                    f"{name}:",
                    want,
                    lambda: e.drawn(g, "drawPoints"),
                )
            check(
                rep,
                prule,
                e,
                wm,
                f"{name}, of master {m}:",
                want,
                lambda: e.drawn(e.master(name, m), "drawPoints"),
            )


# ------------------------------------------------------------------- storing outlines

# contours as the point pen protocol has them: (segment type, ...) per contour
STORED = [
    ("a triangle", [[L, L, L]], 0),
    ("two polygons", [[L, L, L], [L, L, L, L]], 0),
    ("an open path", [[M, L, L]], 0),
    ("an open and a closed path", [[M, L], [L, L, L]], 0),
    ("a closed and an open path", [[L, L, L], [M, L]], 0),
    ("quadratic curves", [[L, None, None, Q, L, None, Q]], 0),
    ("a quadratic curve to the start", [[Q, L, None, None]], 0),
    ("quadratic curves to the start", [[Q, None, None, Q, None], [Q, L, None], [L, L]], 0),
    ("an open quadratic curve", [[M, None, None, Q, L, None, Q], [L, L, L]], 0),
    ("components", [], 2),
    ("a triangle and a component", [[L, L, L]], 1),
]


class Store:
    """An outline with coordinates of its own for each master."""

    def __init__(self, e, name, shapes, comps, tag="new", symbolic=True):
        self.e, self.name, self.shapes, self.comps = e, name, shapes, comps
        self.tag, self.symbolic = tag, symbolic
        self.cache = {}
        self.between = False  # points which are not on the grid
        self.off = 0

    def xy(self, m, c, i):
        if not self.symbolic:
            x, y = 1000 * m + 100 * c + 7 * i, 10 * i * (4 - i) + m
            if self.between:
                return (self.off - x, y - self.off)
            return (x, y)
        return tuple(self.leaf(f"{c}.{i}.{a}@{m}", "int") for a in "xy")

    def leaf(self, path, ty):
        if path not in self.cache:
            self.cache[path] = self.e.s.leaf(f"{self.tag} {self.name}.{path}", ty)
        return self.cache[path]

    def outline(self, m):
        return [
            [(self.xy(m, c, i), k) for i, k in enumerate(ks)]
            for c, ks in enumerate(self.shapes)
        ]

    def components(self, m, exact=True):
        out = []
        for i in range(self.comps):
            v = [self.leaf(f"c{i}.{a}@{m}", "float") for a in ("sx", "sy")]
            o = [self.leaf(f"c{i}.{a}@{m}", "int") for a in ("dx", "dy")]
            if not exact:
                v = [self.e.s.tree(self.e.s.func("spec.ufo:scale", x)) for x in v]
            out.append((self.e.order[i], (v[0], 0, 0, v[1], *o)))
        return out

    def calls(self, m):
        """The same outline as calls of a segment pen."""
        out = []
        for c in self.outline(m):
            (start, kind), *rest = c
            out.append(("moveTo", start))
            off = []
            for pt, k in rest:
                off.append(pt)
                if k is None:
                    continue
                out.append(("qCurveTo" if k == Q else "lineTo", *off))
                off = []
            if off:
                out.append(("qCurveTo", *off, start))
            out.append(("endPath",) if kind == M else ("closePath",))
        return out + [("addComponent", *x) for x in self.components(m)]

    def points(self, m):
        """... and as calls of a point pen; what is smooth is up to the pen."""
        out = []
        for c in self.outline(m):
            out.append(("beginPath",))
            out += [("addPoint", pt, k, ANY) for pt, k in c]
            out.append(("endPath",))
        return out + [("addComponent", *x) for x in self.components(m, False)]

    def write(self, g, m, how, clear=True):
        s = self.e.s
        if clear:
            s.call(g, "clearContours")
        pen = s.call(g, how)
        self.off = 0.375 if self.between else 0
        if how == "getPen":
            s.func("spec.pens:perform", pen, self.calls(m))
        else:
            s.func("spec.pens:points", pen, self.outline(m))
            comps = [("addComponent", *c) for c in self.components(m)]
            s.func("spec.pens:perform", pen, comps)
        self.off = 0


def storing(project, rep):
    rule = "draw-stored"
    rep.rule(
        rule,
        "an outline drawn into a glyph, in each master, is the outline which the glyph "
        "then has",
    )
    where = sc.where(project, GLYPH + ".getPointPen")
    wm = sc.where(project, MASTER + ".getPointPen")
    for masters, orders in (
        (1, [(0,)]),
        (2, [(0, 1), (1, 0)]),
        (4, [(0, 1, 2, 3), (2, 0, 3, 1)]),
    ):
        for order in orders:
            for how in ("getPen", "getPointPen"):
                for kind in ("font", "masters"):
                    if kind == "font" and masters > 1:
                        continue
                    stored(
                        project,
                        rep,
                        rule,
                        (where, wm)[kind == "masters"],
                        masters,
                        order,
                        how,
                        kind,
                    )


def stored(project, rep, rule, where, masters, order, how, kind):
    e = Drawn(project, masters, only=("lines", "components"))
    s = e.s
    e.order = ["lines", "components"]
    keep = s.ip.glob("spec.compilers", "Keeping")
    if not isinstance(keep, I.Cls):
        raise AnchorLost("the model of the glyph compiler is missing")
    for name, shapes, comps in [("points off the grid", [[L, L, L], [M, L]], 0), *STORED]:
        tag = f"{name}, {how} of {kind if kind == 'font' else f'masters {order}'}:"

        def run(m):
            return e.master("lines", m) if kind == "masters" else e.glyph("lines")

        grid = name != "points off the grid"
        symbolic = how == "getPointPen" and grid
        want = Store(e, name, shapes, comps, f"{masters}{order}", symbolic)
        want.between = not grid

        def write():
            # look at the old outline first, as a converter does
            for m in order:
                e.drawn(run(m), "drawPoints")
            if comps:
                g = s.get(e.glyph("lines"), "entry")
                o = s.get(g, "data")
                s.call(o, "pop", "components", None)
            for m in order:
                want.write(run(m), m, how)
            entry = s.get(e.glyph("lines"), "entry")
            e.set(entry, compiler=keep)
            s.call(entry, "compile")
            return True

        if not ufo.guarded(rep, rule, where, write):
            continue
        for m in range(masters):
            check(
                rep,
                rule,
                e,
                where,
                f"{tag} points of master {m}",
                want.points(m),
                lambda: e.drawn(run(m), "drawPoints"),
            )
            g = e.glyph("lines")
            e.set(g, master_index=m)
            check(
                rep,
                rule,
                e,
                where,
                f"{tag} segments of master {m}",
                want.calls(m),
                lambda: e.drawn(g),
            )
            e.set(g, master_index=0)


def fresh(project, rep):
    """A glyph without an outline need not be cleared before drawing."""
    rule = "draw-stored"
    where = sc.where(project, GLYPH + ".getPointPen")
    for masters, order in ((1, (0,)), (2, (1, 0)), (3, (2, 1, 0)), (4, (1, 0, 3, 2))):
        for how in ("getPen", "getPointPen"):
            e = Drawn(project, masters, only=("empty",))
            s = e.s
            e.order = ["empty"]
            keep = s.ip.glob("spec.compilers", "Keeping")
            want = Store(e, "fresh", [[L, L, L], [M, L]], 0, "fresh", how != "getPen")
            tag = f"drawn into an empty glyph, {how} of masters {order}:"

            def write():
                for m in order:
                    want.write(e.master("empty", m), m, how, False)
                entry = s.get(e.glyph("empty"), "entry")
                e.set(entry, compiler=keep)
                s.call(entry, "compile")
                return True

            if not ufo.guarded(rep, rule, where, write):
                continue
            for m in range(masters):
                check(
                    rep,
                    rule,
                    e,
                    where,
                    f"{tag} points of master {m}",
                    want.points(m),
                    lambda: e.drawn(e.master("empty", m), "drawPoints"),
                )


def again(project, rep):
    rule = "draw-again"
    rep.rule(
        rule,
        "clearing a glyph leaves its components only; drawing once more replaces what "
        "was drawn before",
    )
    where = sc.where(project, GLYPH + ".clearContours")
    wm = sc.where(project, MASTER + ".clearContours")
    for masters in (1, 4):
        names = ["lines", "outline and component"]
        for kind in ("font", "masters"):
            e = Drawn(project, masters, only=names)
            e.order = names
            s = e.s
            w = wm if kind == "masters" else where
            keep = s.ip.glob("spec.compilers", "Keeping")

            def clear():
                for n in names:
                    data = s.get(s.get(e.glyph(n), "entry"), "data")
                    s.ip.setitem(data, K("hints"), s.lit({"h": [], "v": []}), s.st)
                    for m in range(masters):
                        g = e.master(n, m) if kind == "masters" else e.glyph(n)
                        s.call(g, "clearContours")
                    entry = s.get(e.glyph(n), "entry")
                    e.set(entry, compiler=keep)
                    s.call(entry, "compile")
                return True

            if not ufo.guarded(rep, rule, w, clear):
                continue
            for n in names:
                tag = f"{n}, cleared through its {kind}:"
                data = s.tree(s.get(s.get(e.glyph(n), "entry"), "data"))
                if sc.get(data, "hints") is None:
                    rep.ok(rule, f"{tag} hints")
                else:
                    rep.viol(
                        rule, f"{tag} hints", w, f"{tag} its hints refer to no outline"
                    )
                g = e.glyph(n)
                compare(
                    rep, rule, s, w, [("contours", 0, s.tree(s.call(g, "__len__")))], tag
                )
                for m in range(masters):
                    e.set(g, master_index=m)
                    comps = scaled(e, n, m, True)
                    check(
                        rep,
                        rule,
                        e,
                        w,
                        f"{tag} master {m}:",
                        comps_only(comps),
                        lambda: e.drawn(g),
                    )
                    e.set(g, master_index=0)
                    comps = scaled(e, n, m, False)
                    check(
                        rep,
                        rule,
                        e,
                        w,
                        f"{tag} points of master {m}:",
                        comps_only(comps),
                        lambda: e.drawn(e.master(n, m), "drawPoints"),
                    )

            # draw, compile, then draw something else
            first = Store(e, "first", [[L, L, L], [Q, None]], 0, "first")
            second = Store(e, "second", [[L, L, L, L]], 0, "second")
            for later in ("font", "masters"):
                tag = f"drawn into the {kind}, then into the {later}:"

                def twice():
                    g = e.glyph("lines")
                    entry = s.get(g, "entry")
                    for m in range(masters):
                        first.write(
                            e.master("lines", m) if kind == "masters" else g,
                            m,
                            "getPointPen",
                        )
                    s.call(entry, "compile")
                    e.drawn(g, "drawPoints")
                    if later == "font":
                        second.write(g, 0, "getPointPen")
                    else:
                        for m in range(masters):
                            second.write(e.master("lines", m), m, "getPointPen")
                    s.call(entry, "compile")
                    return True

                if not ufo.guarded(rep, rule, w, twice):
                    continue
                for m in range(masters):
                    check(
                        rep,
                        rule,
                        e,
                        w,
                        f"{tag} points of master {m}",
                        second.points(0 if later == "font" else m),
                        lambda: e.drawn(e.master("lines", m), "drawPoints"),
                    )
                check(
                    rep,
                    rule,
                    e,
                    w,
                    f"{tag} segments",
                    second.calls(0),
                    lambda: e.drawn(e.glyph("lines")),
                )
                check(
                    rep,
                    rule,
                    e,
                    w,
                    f"{tag} points",
                    second.points(0),
                    lambda: e.drawn(e.glyph("lines"), "drawPoints"),
                )


def comps_only(comps):
    return [("addComponent", *c) for c in comps]


def interface(project, rep):
    rule = "draw-interface"
    rep.rule(
        rule, "the font, its masters and glyphs tell their names, numbers and units per em"
    )
    where = sc.where(project, VFB + ".__getitem__")
    e = Drawn(project, 2)
    s, d = e.s, e.d
    upm = d.add("F.upm", d.L("F.upm"))
    o = s.st.heap[upm.id].set("parser", s.ip.glob("vfbLib.parsers.base", "BaseParser"))
    s.st.heap[upm.id] = o
    s.call(e.vfb, "add_entry", upm)
    names = [o[0] for o in OUTLINES]

    def ask(tag, want, fn):
        check_value(rep, rule, s, where, tag, want, fn)

    fonts = [("font", e.vfb)]
    ms = ufo.guarded(rep, rule, where, lambda: s.items(s.call(e.vfb, "get_masters")))
    fonts += [(f"master {m}", x) for m, x in enumerate(ms or ())]
    if ms is not None:
        ask("number of masters", 2, lambda: len(ms))
    for tag, f in fonts:
        ask(f"{tag}: glyph names", names, lambda: listed(s, s.call(f, "keys")))
        ask(f"{tag}: glyph order", names, lambda: s.get(f, "glyph_order"))
        ask(f"{tag}: known glyph", True, lambda: s.call(f, "__contains__", names[1]))
        ask(f"{tag}: unknown glyph", False, lambda: s.call(f, "__contains__", "unknown"))
        ask(f"{tag}: number of masters", 2, lambda: s.get(f, "num_masters"))
        ask(
            f"{tag}: units per em",
            d.v("F.upm"),
            lambda: s.get(s.get(f, "info"), "unitsPerEm"),
        )
        for name, kinds, *_ in OUTLINES:
            g = ufo.guarded(rep, rule, where, lambda: s.call(f, "__getitem__", name))
            if g is None:
                continue
            ask(f"{tag}: contours of {name}", kinds.count(M), lambda: s.call(g, "__len__"))
            ask(f"{tag}: name of {name}", name, lambda: s.get(g, "name"))
            e.drawn(g, "drawPoints")
            ask(f"{tag}: name of {name}, when drawn", name, lambda: s.get(g, "name"))


def listed(s, v):
    out = s.func("spec.pens:listed", v)
    return out


def check_value(rep, rule, s, where, tag, want, fn):
    v = ufo.guarded(rep, rule, where, fn)
    if v is not None:
        found = sc.expect(s, v) if isinstance(v, int) else s.tree(v)
        compare(rep, rule, s, where, [("", want, found)], tag)


def check_all(project, rep):
    drawing(project, rep)
    storing(project, rep)
    fresh(project, rep)
    again(project, rep)
    interface(project, rep)
