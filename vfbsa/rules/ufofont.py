"""C16, C20, C21: the glyph set, kerning and groups, and the designspace of an export."""

from .. import scene as sc
from .. import terms as t
from ..scene import ANY, Guarded
from ..terms import K
from . import ufo
from .ufo import guarded
from .ufodata import X, attr, compare, layer, names_of, program, runs

B = "vfbLib.ufo.builder:VfbToUfoBuilder"
TTPROG = "com.fontlab.ttprogram"


def put(d, tag, name, nodes=None, comps=(), kern=(), **more):
    """A glyph whose leaves are called after `tag`, not after its name."""
    data = {
        "name": name,
        "num_masters": d.M,
        "metrics": d.metrics(tag),
        "nodes": nodes if nodes is not None else [],
    }
    if comps:
        data["components"] = [d.component(tag, i, gid) for i, gid in enumerate(comps)]
    if kern:
        data["kerning"] = {k: d.mm(f"{tag}.k{k}") for k in kern}
    data.update(more)
    d.add("G.Glyph", data)


# ------------------------------------------------------------------------ C16

NAMES = [
    ["A", "B", "C"],
    ["A", "B", "A"],
    ["A", "A", "B"],
    ["A", "B", "A", "A"],
    ["A", "A#0", "A", "A"],
    ["A", "A", "A#0"],
    ["A", "B", "A", "B", "C", "B"],
    [".notdef", "space", ".notdef"],
    ["", "", "A"],
    ["", "A", "", "A"],
    ["A", "", "a", "A#0"],
    [],
]


def named(names):
    n = len(names)

    def doc(s, masters, axes):
        d = ufo.Doc(s, masters, axes)
        d.masters()
        d.ps_info()
        for i, name in enumerate(names):
            put(
                d,
                f"g{i}",
                name,
                d.nodes(f"g{i}", ["move", "line", "line"]),
                kern=range(n),
                tth=[{"cmd": "AlignH", "params": {"pt": 1, "align": 0}}],
            )
            d.add("G.unicodes", [d.L(f"g{i}.u")])
            d.add("G.note", d.L(f"g{i}.note", "str"))
            d.add("G.customdata", d.L(f"g{i}.data", "str"))
            d.add("G.mask", {"nodes": d.nodes(f"g{i}.mask", ["move", "line", "line"])})
        if n:
            put(d, f"g{n}", "composite", comps=list(range(n)))
        return d

    return doc


def glyph_set(project, rep):
    rule, ref = "each-glyph-once", "glyph-references"
    rep.rule(
        rule,
        "every glyph of the font is exported once, in order, under a name that no other "
        "glyph has; the first glyph with a name keeps it",
    )
    rep.rule(
        ref,
        "glyph order, components, kerning, masks and the entries which follow a glyph go to "
        "the exported glyph made of it, also if it was renamed",
    )
    rep.rule(
        "master-count", "a font with n axes is exported as 2 to the power of n masters"
    )
    where = sc.where(project, f"{B}.build_mm_glyph")
    for names in NAMES:
        case = " ".join(names) or "empty"
        every = names + (["composite"] if names else [])
        for _, e, opts in runs(
            project, rep, rule, where, named(names), [(case, {}, {})], masters=2, axes=1
        ):
            for m, f in enumerate(e.fonts):
                one_font(rep, rule, ref, where, e, m, f, case, every)
    counts(project, rep)


def one_font(rep, rule, ref, where, e, m, f, case, every):
    x = X(e, m)
    tree = e.s.tree(f)
    fg = layer(tree, "public.default")
    if fg is None or fg.kind != "dict" or any(z[0] != "one" for z in fg.val):
        rep.und(rule, case, "the set of glyphs is not determined")
        return
    # which glyphs carry the values of which source glyph
    found = {}
    order = []
    for z in fg.val:
        if z[1].kind != "leaf" or not t.isk(z[1].val):
            rep.und(rule, case, "a glyph name is not determined")
            return
        name = t.kv(z[1].val)
        w = sc.get(z[2], "width")
        ids = sc.source_ids(w.val) if w is not None and w.kind == "leaf" else set()
        order.append(name)
        for i in ids:
            found.setdefault(i, []).append((name, z[2]))
    final = []
    for i, name in enumerate(every):
        here = found.pop(f"g{i}.w@{m}", [])
        if len(here) != 1:
            rep.viol(
                rule,
                f"count:{len(here)}",
                where,
                f"glyph {i} of the names [{case}] is exported {len(here)} times",
            )
            final.append(None)
            continue
        n, node = here[0]
        final.append(n)
        if every.index(name) == i and n != name and not name.endswith("#0"):
            rep.viol(
                rule, "renamed", where, f"[{case}]: glyph {i} {name} is exported as {n}"
            )
        elif sc.get(node, "name") is not None and sc.get(node, "name").val is not K(n):
            rep.viol(rule, "name", where, f"[{case}]: glyph {n} has another name inside")
        else:
            rep.ok(rule, f"{case}:{i}")
        if i == len(every) - 1 and name == "composite":
            continue
        pairs = [
            (f"glyph{i}.unicodes", [x.v(f"g{i}.u")], attr(node, "unicodes")),
            (f"glyph{i}.note", x.v(f"g{i}.note"), attr(node, "note")),
            (
                f"glyph{i}.data",
                x.v(f"g{i}.data"),
                sc.get(attr(node, "lib"), "com.fontlab.v5.userData"),
            ),
        ]
        compare(rep, ref, e.s, where, pairs, f"{case}:")
        outline = attr(node, "contours")
        ids = set()
        for leaf in sc.leaves(outline) if outline is not None else ():
            ids |= sc.source_ids(leaf)
        want = {f"g{i}.n{j}.{c}0@{m}" for j in range(3) for c in "xy"}
        tt = names_of(node, [[(j, 0, "line", False) for j in range(3)]])
        prog = program(sc.get(attr(node, "lib"), TTPROG))
        if ids != want:
            rep.viol(
                ref,
                "outline",
                where,
                f"[{case}]: the outline of {n} is not that of glyph {i}",
            )
        elif tt is None or prog is None:
            rep.und(ref, f"{case}:{i}:hints", "not determined")
        elif [p[1].get("point") for p in prog] != [tt[0][1]]:
            rep.viol(ref, "hints", where, f"[{case}]: the hints of glyph {i} are {prog}")
        else:
            rep.ok(ref, f"{case}:{i}")
    if found:
        rep.viol(rule, "extra", where, f"[{case}]: unexpected glyphs {sorted(found)}")
    if None in final:
        return
    if order != final:
        rep.viol(
            rule, "order", where, f"[{case}]: glyphs are exported in the order {order}"
        )
    pairs = [("glyphOrder", final, sc.path(tree, "lib", "public.glyphOrder"))]
    n = len(every) - 1
    if n >= 0:
        comps = attr(sc.get(fg, final[-1]), "components")
        want = [x.component(final[i], f"g{n}", i) for i in range(n)]
        pairs.append(("components", want, comps))
    kern = {}
    for i in range(n):
        for j in range(n):
            v = x.at(f"g{i}.k{j}")
            kern[final[i], final[j]] = Guarded(t.not_(t.eq(v, K(0))), v)
    pairs.append(("kerning", kern, sc.get(tree, "kerning")))
    compare(rep, ref, e.s, where, pairs, f"{case}:")
    bg = sc.path(sc.get(tree, "layers"), "layers", "public.background", "glyphs")
    for i in range(n):
        mask = sc.get(bg, final[i]) if bg is not None else None
        ids = set()
        for leaf in sc.leaves(sc.get(mask, "contours")) if mask is not None else ():
            ids |= sc.source_ids(leaf)
        if ids == {f"g{i}.mask.n{j}.{c}0@{m}" for j in range(3) for c in "xy"}:
            rep.ok(ref, f"{case}:{i}:mask")
        else:
            rep.viol(
                ref,
                "mask",
                where,
                f"[{case}]: the mask of {final[i]} is not that of glyph {i}",
            )


def counts(project, rep):
    where = sc.where(project, f"{B}.fix_masters_count")
    for axes in range(5):
        n = 2**axes
        for have in sorted({0, 1, n - 1, n} & set(range(n + 1))):

            def doc(s, masters, ax):
                d = ufo.Doc(s, n, axes)
                d.add("F.MasterCount", n)
                d.add("F.AxisCount", axes)
                for a in ("Weight", "Width", "Optical Size", "Custom")[:axes]:
                    d.add("F.AxisName", a)
                for m in range(n):
                    if m < have:
                        d.add("M.MasterName", f"Master{m}")
                    d.add(
                        "M.MasterLocation",
                        (m + 1, tuple(d.L(f"loc{a}@{m}", "float") for a in range(4))),
                    )
                d.ps_info()
                put(d, "g0", "A", d.nodes("g0", ["move", "line", "line"]))
                return d

            case = f"{axes} axes, {have} of {n} masters named"
            e = guarded(rep, "master-count", where, lambda: ufo.Export(project, doc))
            if e is None:
                continue
            if e.fonts is None:
                rep.und("master-count", case, "number of fonts not determined")
                continue
            if len(e.fonts) != n:
                rep.viol(
                    "master-count",
                    f"{axes}",
                    where,
                    f"{case}: {len(e.fonts)} fonts exported",
                )
                continue
            for m, f in enumerate(e.fonts):
                g = sc.get(layer(e.s.tree(f), "public.default"), "A")
                w = attr(g, "width")
                if w is None or w.val is not e.doc.v(f"g0.w@{m}"):
                    rep.viol(
                        "master-count",
                        "wrong",
                        where,
                        f"{case}: font {m} is not that master",
                    )
                else:
                    rep.ok("master-count", f"{case}:{m}")


# ------------------------------------------------------------------------ C20

FIRST, SECOND = 1024, 2048
GLYPHS = ["A", "B", "C", "D", "E", "F", "G"]

# name: (class entries, flags).  No class has a key glyph that is an ordinary member of an
# earlier class of its side: what its kerning becomes is not settled by the format.
GROUPS = {
    "sides": (
        [
            "_L: A' B",
            "_R: C' D",
            "_both: E' F",
            "lc: A B C",
            ".m: D E",
            "_none: G'",
            "_zero: G'",
        ],
        {
            "_L": (FIRST, 0),
            "_R": (SECOND, 0),
            "_both": (FIRST + SECOND, 7),
            "_zero": (5, 0),
            "lc": (FIRST, 0),
        },
    ),
    "key-not-first": (
        ["_L: B A'  C ", "_R: C D'", "up: C' D", ".n: F' E"],
        {"_L": (FIRST + 1, 0), "_R": (SECOND + 4, 0)},
    ),
    "two-keys": (
        ["_L: A' B' C", "_R: D' E F'"],
        {"_L": (FIRST, 0), "_R": (SECOND, 0)},
    ),
    "keys-unsorted": (
        ["_L: C B' A'", "_R: F' E' D", "_both: D E'"],
        {"_L": (FIRST, 0), "_R": (SECOND, 0), "_both": (FIRST, 0)},
    ),
    "swallowed": (
        ["_L: A' B C", "_M: B' C", "_R: D' E' F", "_S: E'"],
        {"_L": (FIRST, 0), "_M": (FIRST, 0), "_R": (SECOND, 0), "_S": (SECOND, 0)},
    ),
    "no-key": (
        ["_L: A B", "_R: C D"],
        {"_L": (FIRST, 0), "_R": (SECOND, 0)},
    ),
    "overlap": (
        ["_L: A' B C", "_M: D' B A", "_N: A' E", "_R: C' D", "_S: F' C D"],
        {
            "_L": (FIRST, 0),
            "_M": (FIRST, 0),
            "_N": (FIRST, 0),
            "_R": (SECOND, 0),
            "_S": (SECOND, 0),
        },
    ),
    "missing": (
        ["_L: X' A B", "_R: C' Y", "_X: X' Y", "lc: A Y B", "gone: X Y", ".m: Y", "nil:"],
        {"_L": (FIRST, 0), "_R": (SECOND, 0), "_X": (FIRST + SECOND, 0)},
    ),
    "repeated": (
        ["lc: A B A", ".m: C C", "_L: B A' B C", "_R: D' E E"],
        {"_L": (FIRST, 0), "_R": (SECOND, 0)},
    ),
    "malformed": (
        ["nocolon A B", "lc: A", "lc: B", "_L: A' B", "_L: C'"],
        {"_L": (FIRST + SECOND, 0)},
    ),
    "none": ([], {}),
}

G_OPTIONS = [
    ("default", {}, {}),
    ("keep", {"move_groups": False}, {}),
    ("add", {"add_kerning_groups": True}, {}),
    ("add-keep", {"move_groups": False, "add_kerning_groups": True}, {}),
    ("minimal", {"minimal": True}, {"minimal": True}),
]


def grouped(classes, flags):
    def doc(s, masters, axes):
        d = ufo.Doc(s, masters, axes)
        d.masters()
        d.ps_info()
        d.add("F.KerningClassFlags", flags)
        for c in classes:
            d.add("F.GlyphClass", c)
        d.add("F.features", ["feature liga {", "} liga;"])
        n = len(GLYPHS)
        for g in GLYPHS:
            put(d, g, g, d.nodes(g, ["move", "line", "line"]), kern=range(n))
        return d

    return doc


def reference(classes, flags, minimal):
    """The groups, their order, and the key glyph of each, from the raw class entries."""
    raw = {}
    for c in classes:
        if ":" not in c:
            continue
        name, members = c.split(":")
        raw.setdefault(name, members.split())
    full, order, keys = {}, [], {}
    for name, members in raw.items():
        ks = [g.strip("'") for g in members if g.endswith("'")]
        every = ks + [g for g in members if not g.endswith("'")]
        if minimal:
            left = [g for g in every if g in GLYPHS]
            if every and not left:
                continue
        else:
            left = every
        gone = not any(g in GLYPHS for g in every)
        key = next((k for k in ks if k in GLYPHS or gone), None)
        if name.startswith("_"):
            fl = flags.get(name, (0,))[0]
            names = [
                f"public.kern{i}.{name}" for bit, i in ((FIRST, 1), (SECOND, 2)) if fl & bit
            ]
        else:
            names = [name]
        for n in names:
            full[n] = left
            order.append(n)
            if key is not None:
                keys[n] = key
    # a glyph is in one kerning group per side: the first one
    final = {}
    for n, left in full.items():
        side = n[:12] if n.startswith("public.kern") else None
        if side is None:
            final[n] = left
            continue
        left = list(dict.fromkeys(left))
        mine = [g for g in left if not any(g in final[o] for o in final if o[:12] == side)]
        if mine:
            final[n] = mine
    return full, final, order, keys


def kerning(project, rep):
    grp, krn, fea = "groups", "kerning", "feature-classes"
    rep.rule(
        grp,
        "every class is exported under its name, kerning classes once per side their flags "
        "name, with its members, the key glyph first; no glyph is in two kerning groups of "
        "one side",
    )
    rep.rule(
        krn,
        "every kerning pair is exported once with the value of the master: pairs of key "
        "glyphs as pairs of their groups; zero is kept for exceptions to group kerning "
        "and left out otherwise",
    )
    rep.rule(
        fea,
        "the features have the feature code, after the definitions of the classes that "
        "were moved or added there; kerning groups stay in the groups; positioning rules use "
        "the exported names of the kerning classes, everything else is unchanged",
    )
    where = sc.where(project, "vfbLib.ufo.groups:transform_groups")
    wk = sc.where(project, "vfbLib.ufo.kerning:UfoKerning._make_name_based_kerning")
    wf = sc.where(project, f"{B}.get_ufo_masters")
    feature_text(project, rep, fea)
    for case, (classes, flags) in GROUPS.items():
        for name, e, opts in runs(
            project, rep, grp, where, grouped(classes, flags), G_OPTIONS, masters=2, axes=1
        ):
            minimal = opts.get("minimal", False)
            move = opts.get("move_groups", True)
            add = opts.get("add_kerning_groups", False)
            full, final, order, keys = reference(classes, flags, minimal)
            for m, f in enumerate(e.fonts):
                x = X(e, m)
                tree = e.s.tree(f)
                tag = f"{case}/{name}:"
                moved = [n for n in full if not n.startswith((".", "public.kern")) and move]
                want = {n: g for n, g in final.items() if n not in moved}
                compare(
                    rep,
                    grp,
                    e.s,
                    where,
                    [
                        ("groups", want, sc.get(tree, "groups")),
                        ("order", order or None, sc.path(tree, "lib", "public.groupOrder")),
                        (
                            "keys",
                            keys or None,
                            sc.path(tree, "lib", "com.lucasfonts.vfblib.groupKeyGlyphs"),
                        ),
                    ],
                    tag,
                )
                pairs = {}
                for left in GLYPHS:
                    for j, right in enumerate(GLYPHS):
                        v = x.at(f"{left}.k{j}")
                        a, free_a = side(final, keys, "public.kern1", left)
                        b, free_b = side(final, keys, "public.kern2", right)
                        pairs[a, b] = (
                            Guarded(t.not_(t.eq(v, K(0))), v) if free_a and free_b else v
                        )
                compare(
                    rep, krn, e.s, wk, [("kerning", pairs, sc.get(tree, "kerning"))], tag
                )
                lines = [
                    f"@{n} = [{' '.join(g)}];\n"
                    for n, g in full.items()
                    if n in moved or n.startswith("public.kern") and add
                ]
                text = "".join(lines) + "\n\nfeature liga {\n} liga;"
                if add and any(
                    full[n] != final.get(n) for n in full if n.startswith("public.kern")
                ):
                    text = ANY  # which definition of an overlapping class is left open
                compare(
                    rep,
                    fea,
                    e.s,
                    wf,
                    [("features", text, sc.path(tree, "features", "text"))],
                    tag,
                )


# lines of feature code and what has to become of them
LINES = [
    ("feature kern {", None),
    ("  pos @_L @_R -20;", "  pos @public.kern1._L @public.kern2._R -20;"),
    ("\tenum pos A @_R 10;", "\tenum pos A @public.kern2._R 10;"),
    ("pos @_R B <0 0 5 0>; # @_L @_R", "pos @public.kern1._R B <0 0 5 0>; # @_L @_R"),
    ("  pos A B -10;", None),
    ("  pos @lc @_L 5;", "  pos @lc @public.kern2._L 5;"),
    ("# pos @_L @_R -20;", None),
    ("  sub @_L by @_R;", None),
    ("", None),
    ("  # a # b", None),
    ("  pos A B -10; # a # b", None),
    ("} kern;", None),
]


def feature_text(project, rep, rule):
    where = sc.where(project, "vfbLib.ufo.features:rename_kern_classes_in_feature_code")

    def doc(lines):
        def f(s, masters, axes):
            d = ufo.Doc(s, masters, axes)
            d.masters()
            d.ps_info()
            if lines is not None:
                d.add("F.features", lines)
            return d

        return f

    cases = [("none", None, ""), ("all", [a for a, _ in LINES], None)]
    cases += [(a, [a], None) for a, _ in LINES]
    new = {a: b if b is not None else a for a, b in LINES}
    for case, lines, want in cases:
        if want is None:
            text = "\n".join(new[a] for a in lines)
            want = f"\n\n{text}" if text else ""
        for _, e, _o in runs(
            project, rep, rule, where, doc(lines), [(case, {}, {})], masters=1, axes=0
        ):
            for f in e.fonts:
                found = sc.path(e.s.tree(f), "features", "text")
                compare(rep, rule, e.s, where, [("text", want, found)], f"line {case!r}:")


def side(final, keys, prefix, g):
    """The name of a glyph on one side of a pair; whether it is no exception."""
    for n, members in final.items():
        if n.startswith(prefix) and g in members:
            if keys.get(n) == g:
                return n, True
            return g, False
    return g, True


# ------------------------------------------------------------------------ C21

TAGS = {"Weight": "wght", "Width": "wdth", "Optical Size": "opsz", "Serif": "SERF"}

# axis names, number of mappings per axis, number of instances
SPACES = {
    "one axis": (["Weight"], [3], 3),
    "one axis, unmapped": (["Weight"], [0], 1),
    "one axis, all mappings": (["Custom"], [10], 0),
    "two axes": (["Width", "Weight"], [2, 4], 2),
    "two axes, one unmapped": (["Optical Size", "Width"], [0, 3], 1),
    "three axes": (["Serif", "Rnd", "Optical Size"], [1, 2, 3], 1),
    "four axes": (["Weight", "Width", "Optical Size", "slope"], [2, 0, 2, 2], 1),
    "no mapping entries": (["Weight", "Width"], None, 1),
}


def spaced(names, counts, instances):
    def doc(s, masters, axes):
        n = len(names)
        d = ufo.Doc(s, 2**n, n)
        d.add("F.family_name", d.L("F.family_name", "str"))
        d.add("F.pref_family_name", d.L("F.pref_family_name", "str"))
        d.add(
            "F.PrimaryInstances",
            [
                {
                    "name": d.L(f"inst{i}.name", "str"),
                    "values": tuple(d.L(f"inst{i}.v{a}", "float") for a in range(4)),
                }
                for i in range(instances)
            ],
        )
        d.add("F.MasterCount", d.M)
        d.add("F.AxisCount", n)
        for a in names:
            d.add("F.AxisName", a)
        if counts is not None:
            d.add("F.AxisMappingsCount", counts + [0] * (4 - n))
            d.add(
                "F.AxisMappings",
                [
                    tuple(d.L(f"map{a}.{i}.{c}", "float") for c in "ud")
                    for a in range(4)
                    for i in range(10)
                ],
            )
        for m in range(d.M):
            d.add("M.MasterName", f" Master{m} ")
            d.add(
                "M.MasterLocation",
                (m + 1, tuple(d.L(f"loc{a}@{m}", "float") for a in range(4))),
            )
        d.ps_info()
        put(d, "g0", "A", d.nodes("g0", ["move", "line", "line"]))
        return d

    return doc


def designspace(project, rep):
    axs, src, ins, fil = "axes", "sources", "instances", "files"
    rep.rule(
        axs,
        "every axis has its tag, its name, the mappings the font has for it and a range: "
        "from the lowest to the highest mapped coordinate",
    )
    rep.rule(
        src,
        "every master is a source, at its own location, of its own name",
    )
    rep.rule(
        ins,
        "every primary instance is an instance of its own name and file, at its own "
        "location; labels are given to a single axis",
    )
    rep.rule(
        fil,
        "the file a source names, seen from the designspace file, is the file the same "
        "export writes for that master; fonts without axes give no designspace",
    )
    where = sc.where(project, f"{B}.get_designspace")
    ww = sc.where(project, f"{B}.write")
    for case, (names, counts, instances) in SPACES.items():
        e = guarded(
            rep,
            src,
            where,
            lambda: ufo.Export(project, spaced(names, counts, instances), call=False),
        )
        if e is None:
            continue
        for out in ("ufo", "json", "ufoz"):
            one_space(rep, e, case, names, counts, instances, out, where, ww)
    no_space(project, rep, fil, ww)


def one_space(rep, e, case, names, counts, instances, out, where, ww):
    s, d = e.s, e.doc
    s.ip.effects.clear()
    target = s.leaf(f"{case}.{out}", "str")
    path = s.new("pathlib:Path", target)
    opts = {} if out == "ufo" else {out: True}
    r = guarded(
        rep, "files", ww, lambda: (s.call(e.b, "write", path, silent=True, **opts),)
    )
    if r is None:
        return
    log = list(s.ip.effects)
    if any(x.path is None or x.facts for x in log):
        rep.und("files", f"{case}/{out}", "the written files are not determined")
        return
    fonts = [x for x in log if x.kind in ("ufo", "json")]
    spaces = [x for x in log if x.kind == "designspace"]
    if len(spaces) != 1 or len(fonts) != d.M:
        rep.viol(
            "files",
            f"count:{len(spaces)}:{len(fonts) == d.M}",
            ww,
            f"{case}: {len(spaces)} designspaces and {len(fonts)} fonts are written for "
            f"{d.M} masters",
        )
        return
    tree = s.tree(spaces[0].what)
    sources = sc.get(tree, "sources")
    if sources is None or sources.kind != "list":
        rep.und("sources", case, "not determined")
        return
    if len(sources.val) != d.M:
        rep.viol("sources", "count", where, f"{case}: {len(sources.val)} sources")
        return
    folder = s.get(s.new("pathlib:Path", spaces[0].path), "parent")
    for m in range(d.M):
        node = sc.get(sources, m)
        fn = sc.get(node, "filename")
        if fn is None or fn.kind != "leaf":
            rep.viol("files", "missing", where, f"{case}: source {m} has no file name")
            continue
        if sc.has_unknown(fn):
            rep.und("files", f"{case}/{out}:{m}", "the file name is not determined")
        elif not hits(s, folder, fn.val, fonts[m].path):
            rep.viol(
                "files",
                "reference",
                s.site(node, "filename") or where,
                f"{case}/{out}: source {m} names the file {t.show(fn.val)}, but "
                f"{t.show(fonts[m].path)} is written",
            )
        else:
            rep.ok("files", f"{case}/{out}:{m}")
    if len({x.path for x in fonts}) != len(fonts):
        rep.viol("files", "same", ww, f"{case}: two masters are written to one file")
    if out != "ufo":
        return
    v, spec = d.v, lambda f, *a: s.tree(s.func(f"spec.ufo:{f}", *a))
    fam = t.ite(
        t.truthy(v("F.pref_family_name")), v("F.pref_family_name"), v("F.family_name")
    )
    for m in range(d.M):
        compare(
            rep,
            "sources",
            s,
            where,
            [
                (
                    f"source{m}",
                    {
                        "name": f"Master{m}",
                        "familyName": fam,
                        "styleName": ANY,
                        "filename": ANY,
                        "location": {
                            a: spec("per_mille", v(f"loc{i}@{m}"))
                            for i, a in enumerate(names)
                        },
                    },
                    sc.get(sources, m),
                )
            ],
            f"{case}:",
        )
    axes = sc.get(tree, "axes")
    for i, a in enumerate(names):
        n = counts[i] if counts is not None else 0
        us = [v(f"map{i}.{j}.u") for j in range(n)]
        ds = [v(f"map{i}.{j}.d") for j in range(n)]
        ax = sc.get(axes, i)
        labels = []
        if len(names) == 1:
            labels = [
                (v(f"inst{j}.name"), spec("times_one", v(f"inst{j}.v0")))
                for j in range(instances)
            ]
        found = sc.get(ax, "axisLabels")
        compare(
            rep,
            "axes",
            s,
            where,
            [
                ("tag", TAGS.get(a, a.upper()[:4]), sc.get(ax, "tag")),
                ("name", a, sc.get(ax, "name")),
                (
                    "map",
                    [spec("axis_map", u, x) for u, x in zip(us, ds)],
                    sc.get(ax, "map"),
                ),
                ("minimum", spec("lowest", us) if us else 0, sc.get(ax, "minimum")),
                ("default", spec("lowest", us) if us else 0, sc.get(ax, "default")),
                ("maximum", spec("highest", us) if us else 1000, sc.get(ax, "maximum")),
            ],
            f"{case}:{i}:",
        )
        if found is None or found.kind != "list" or len(found.val) != len(labels):
            rep.viol("instances", "labels", where, f"{case}: labels {sc.show(found)}")
            continue
        for j, (name, value) in enumerate(labels):
            x = sc.get(found, j)
            compare(
                rep,
                "instances",
                s,
                where,
                [
                    ("name", name, sc.get(x, "name")),
                    ("value", value, sc.get(x, "userValue")),
                ],
                f"{case}:label{j}:",
            )
    if axes is None or axes.kind != "list" or len(axes.val) != len(names):
        rep.viol("axes", "count", where, f"{case}: axes {sc.show(axes)}")
    found = sc.get(tree, "instances")
    if found is None or found.kind != "list" or len(found.val) != instances:
        rep.viol("instances", "count", where, f"{case}: instances {sc.show(found)}")
        return
    for j in range(instances):
        style = v(f"inst{j}.name")
        compare(
            rep,
            "instances",
            s,
            where,
            [
                (
                    f"instance{j}",
                    {
                        "familyName": fam,
                        "styleName": style,
                        "filename": spec("instance_file", fam, style),
                        "name": f"instance_{j}",
                        "styleMapFamilyName": spec("instance_map_name", fam, style),
                        "styleMapStyleName": ANY,
                        "userLocation": {
                            a: spec("times_one", v(f"inst{j}.v{i}"))
                            for i, a in enumerate(names)
                        },
                    },
                    sc.get(found, j),
                )
            ],
            f"{case}:",
        )


def hits(s, folder, name, path):
    """The file `name` in `folder` is the file `path`."""
    p = s.ip.binop
    import ast

    q = p(ast.Div(), folder, s.new("pathlib:Path", name), s.st)
    return s.func("spec.effects:text", q) is path


def no_space(project, rep, rule, where):
    for axes in (0,):
        e = guarded(
            rep,
            rule,
            where,
            lambda: ufo.Export(project, named(["A"]), masters=1, axes=axes),
        )
        if e is None:
            continue
        s = e.s
        s.ip.effects.clear()
        path = s.new("pathlib:Path", s.leaf("out", "str"))
        if (
            guarded(rep, rule, where, lambda: (s.call(e.b, "write", path, silent=True),))
            is None
        ):
            continue
        kinds = [x.kind for x in s.ip.effects if x.kind != "normalize"]
        if kinds == ["ufo"]:
            rep.ok(rule, "no axes")
        else:
            rep.viol(rule, "no-axes", where, f"a font without axes is written as {kinds}")
