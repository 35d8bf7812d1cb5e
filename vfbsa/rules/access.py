"""C28: glyphs are found under their names, with the hints that belong to them.

Files are given as sequences of entries of which the bytes say only which glyph, links
or options they stand for; the dictionary interface of the font is interpreted on them.
Hints and links with symbolic positions are compared with those of the entries.
"""

from .. import scene as sc
from ..terms import K
from . import ufo
from .draw import VFB, check_value, listed

# glyph names of a file, and the names under which they are found
FILES = [
    ("no glyphs", [], []),
    ("one glyph", ["a"], ["a"]),
    ("different names", ["b", "a", "c", "A"], ["b", "a", "c", "A"]),
    ("a name twice", ["a", "b", "a", "c"], ["a", "b", None, "c"]),
    ("a name three times", ["a", "a", "b", "a"], ["a", None, "b", None]),
    ("two names twice", ["a", "b", "b", "a"], ["a", "b", None, None]),
    ("five equal names", ["a", "a", "a", "a", "a"], ["a", None, None, None, None]),
    ("names with a number", ["a#1", "a", "a", "a"], ["a#1", "a", None, None]),
    ("a name of that kind", ["a", "a", "a#1", "a#1"], ["a", None, None, None]),
    ("empty names", ["", "a", ""], ["", "a", None]),
]
FOLLOW = ("", "L", "O", "LO", "OL")


class Files:
    """A font of glyph entries, each of them followed by links and options."""

    def __init__(self, project, names, shift, options):
        s = self.s = sc.Scene(project)
        s.ip.join_chunks = True
        d = self.d = ufo.Doc(s, 1 + shift % 3, 0)
        self.vfb = s.new(VFB)
        self.want = []
        if options:
            self.options = self.add("F.PostScriptHintingOptions", b"P", "MarkParser")
        for key in ("G.Links", "G.HintingOptions")[: shift % 3]:
            self.add(key, b"stray", "MarkParser")
        for i, name in enumerate(names):
            g = self.add("G.Glyph", name.encode(), "GlyphParser")
            marks = [None, None]
            for what in FOLLOW[(i + shift) % len(FOLLOW)]:
                key = "G.Links" if what == "L" else "G.HintingOptions"
                mark = f"{what}{i}"
                marks["LO".index(what)] = mark
                self.add(key, mark.encode(), "MarkParser")
            self.want.append((g, *marks))
        o = s.st.heap[self.vfb.id]
        s.st.heap[self.vfb.id] = o.set("num_masters", K(d.M))

    def add(self, key, data, parser):
        s = self.s
        e = self.d.add(key, data)
        p = s.ip.glob("spec.access", parser)
        s.st.heap[e.id] = s.st.heap[e.id].set("parser", p)
        s.call(self.vfb, "add_entry", e)
        return e


def names_of(project, rep):
    rule = "glyph-name"
    rep.rule(rule, "every glyph of a file is found once, in order, under its own name")
    after = "glyph-entries"
    rep.rule(after, "links and hinting options belong to the glyph they follow")
    where = sc.where(project, VFB + "._decompile_glyphs")
    firsts = ("keys", "items", "__contains__", "__getitem__", "getGlyphMaster")
    n = 0
    for tag, names, wanted in FILES:
        for first in firsts:
            n += 1
            if first in ("__getitem__", "getGlyphMaster") and not names:
                continue
            e = Files(project, names, n, n % 2)
            s = e.s
            how = f"{tag}, {first} first"
            one = ufo.guarded(rep, rule, where, lambda: asked(s, e, first, names))
            if one is None:
                continue
            keys = ufo.guarded(
                rep, rule, where, lambda: s.tree(listed(s, s.call(e.vfb, "keys")))
            )
            keys = literal(keys)
            if keys is None:
                rep.und(rule, where, f"{how}: the names are not determined")
                continue
            bad = wrong(keys, wanted)
            if bad:
                rep.viol(rule, tag, where, f"{how}: {bad}, the names are {keys}")
                continue
            rep.ok(rule, f"{how}: names")
            want = {"keys": keys, "items": keys, "__contains__": bool(names)}
            check_value(
                rep, rule, s, where, f"{how}: answer", want.get(first, True), lambda: one
            )

            def ask(r, what, want, fn):
                check_value(rep, r, s, where, f"{how}: {what}", want, fn)

            fonts = [("font", e.vfb)]
            fonts += [("master", x) for x in s.items(s.call(e.vfb, "get_masters"))]
            for f, font in fonts:
                ask(rule, f"order of the {f}", keys, lambda: s.get(font, "glyph_order"))
                ask(
                    rule,
                    f"items of the {f}",
                    keys,
                    lambda: s.func("spec.access:firsts", font),
                )
                for k in [*keys, "unknown", "a#9"]:
                    ask(
                        rule,
                        f"{k!r} in the {f}",
                        k in keys,
                        lambda: s.call(font, "__contains__", k),
                    )
                if e.d.entries and n % 2:
                    ask(
                        after,
                        f"options of the {f}",
                        "P",
                        lambda: s.func(
                            "spec.access:mark", s.get(font, "ps_hinting_options")
                        ),
                    )
            for k, (entry, links, options) in zip(keys, e.want):
                ask(
                    rule,
                    f"glyph {k!r}",
                    True,
                    lambda: s.func("spec.access:holds", e.vfb, k, entry),
                )
                for m, font in enumerate(s.items(s.call(e.vfb, "get_masters"))):
                    ask(
                        rule,
                        f"glyph {k!r} of master {m}",
                        (True, m),
                        lambda: s.func("spec.access:of_master", font, k, entry),
                    )
                for attr, mark in (("links_entry", links), ("ps_hinting_options", options)):
                    ask(
                        after,
                        f"{attr} of {k!r}",
                        mark,
                        lambda: s.func(
                            "spec.access:mark", s.get(s.call(e.vfb, "__getitem__", k), attr)
                        ),
                    )


def asked(s, e, first, names):
    """The first access, which reads the glyphs, and whether it finds the first one."""
    args = {"keys": (), "items": (), "getGlyphMaster": (*names[:1], 0)}
    v = s.call(e.vfb, first, *args.get(first, (names or ["x"])[:1]))
    if first == "keys":
        return listed(s, v)
    if first == "items":
        return s.func("spec.access:first_of", v)
    if first == "__contains__":
        return v
    return s.func("spec.access:is_entry", v, e.want[0][0])


def literal(tree):
    if tree is None or tree.kind != "list":
        return None
    out = []
    for kind, *rest in tree.val:
        x = rest[0]
        if kind != "one" or x.kind != "leaf":
            return None
        v = sc.kv(x.val) if sc.isk(x.val) else None
        if not isinstance(v, str):
            return None
        out.append(v)
    return out


def wrong(keys, wanted):
    if len(keys) != len(wanted):
        return f"{len(wanted)} glyphs are found under {len(keys)} names"
    if len(set(keys)) != len(keys):
        return "a name is given twice"
    for k, w in zip(keys, wanted):
        if w is not None and k != w:
            return f"the glyph {w!r} is found as {k!r}"
    return None


# ---------------------------------------------------------------------------- hints

H, V, R = "h", "v", "r"

# name, stems, links by axis (from, to node), hint masks
HINTED = [
    ("nothing", 0, 0, None, None),
    ("stems", 2, 3, None, None),
    ("horizontal stems", 2, 0, None, None),
    ("vertical stems", 0, 1, None, None),
    ("no links", 1, 1, ([], []), None),
    ("links", 0, 0, ([(0, 1), (2, 1)], [(3, 2)]), None),
    ("links of x", 0, 0, ([(1, 3)], []), None),
    ("links of y", 0, 0, ([], [(1, 3), (0, 2)]), None),
    ("bottom ghost", 0, 0, ([(0, -1)], [(1, -1), (2, 0)]), None),
    ("top ghost", 0, 0, ([(2, -2), (1, 0)], [(3, -2)]), None),
    ("stems and links", 1, 2, ([(0, 3)], [(1, 2), (0, -2)]), None),
    ("masks", 2, 2, None, [(H, 0), (V, 0), (R, 2), (H, 1), (V, 1)]),
    ("masks for three nodes", 2, 1, None, [(H, 1), (R, 1), (V, 0), (R, 3), (H, 0), (V, 0)]),
    ("masks from a node", 1, 1, None, [(R, 2), (V, 0), (H, 0)]),
    ("masks of links", 1, 0, ([(0, 1)], [(1, 2)]), [(H, 1), (R, 1), (V, 0), (H, 0)]),
    ("masks with an empty set", 1, 1, None, [(H, 0), (R, 1), (R, 2), (V, 0)]),
    ("one mask", 2, 1, None, [(H, 1)]),
]


def hints(project, rep):
    rule = "glyph-hints"
    rep.rule(rule, "a glyph gives its stems, links and hint sets for the selected master")
    where = sc.where(project, "vfbLib.vfb.glyph:VfbGlyph.resolve_hints")
    masters = 3
    for tag, h, v, links, masks in HINTED:
        for m in range(masters):
            s = sc.Scene(project)
            d = ufo.Doc(s, masters, 0)
            vfb = s.new(VFB)
            s.st.heap[vfb.id] = s.st.heap[vfb.id].set("num_masters", K(masters))
            more = {}
            if h or v or masks:
                more["hints"] = d.hints("A", h, v, masks)
            d.glyph("A", d.nodes("A", ["move", "line", "curve", "line"]), **more)
            if links is not None:
                d.add("G.Links", {"x": links[0], "y": links[1]})
            for e in d.entries:
                p = s.ip.glob("spec.access", "MarkParser")
                s.st.heap[e.id] = s.st.heap[e.id].set("parser", p)
                s.call(vfb, "add_entry", e)
            g = ufo.guarded(rep, rule, where, lambda: s.call(vfb, "__getitem__", "A"))
            if g is None:
                continue
            s.st.heap[g.id] = s.st.heap[g.id].set("master_index", K(m))

            def spec(fn, *args):
                return s.tree(s.func(f"spec.access:{fn}", *args))

            def stem(ax, j):
                at = f"A.{ax}{j}"
                return spec(
                    "stem", f"{ax}stem", d.v(f"{at}.pos@{m}"), d.v(f"{at}.width@{m}")
                )

            def link(ax, i, j):
                kind = "hstem" if ax == "y" else "vstem"
                src = d.v(f"A.n{i}.{ax}0@{m}")
                if j == -1:
                    return spec("bottom", kind, src)
                if j == -2:
                    return spec("top", kind, src)
                return spec("link", kind, src, d.v(f"A.n{j}.{ax}0@{m}"))

            lx, ly = links or ([], [])
            linked = {H: [link("y", *x) for x in ly], V: [link("x", *x) for x in lx]}
            own = {
                H: [stem("h", j) for j in range(h)],
                V: [stem("v", j) for j in range(v)],
            }
            want = {k: own[k] + linked[k] for k in (H, V)}
            sets, at, cur = {}, 0, []
            for k, i in masks or ():
                if k == R:
                    if cur:
                        sets[at] = cur
                    at, cur = i, []
                else:
                    cur.append(want[k][i])
            if cur:
                sets[at] = cur
            if not masks:
                sets = {0: want[H] + want[V]}
            for name, w in (
                ("resolve_links", linked),
                ("resolve_hints", want),
                ("resolve_hint_sets", sets),
            ):
                check_value(
                    rep,
                    rule,
                    s,
                    sc.where(project, f"vfbLib.vfb.glyph:VfbGlyph.{name}"),
                    f"{tag}, master {m}, {name}",
                    w,
                    lambda: s.call(g, name),
                )


def check_all(project, rep):
    names_of(project, rep)
    hints(project, rep)
