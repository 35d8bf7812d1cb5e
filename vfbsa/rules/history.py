"""C25: conversions depend on nothing but the file and the options.

`history` interprets two conversions one after the other in one abstract process, with
different documents and options, and compares the second with the same conversion in a
fresh process. Module and class level objects, class attributes and parameter defaults
persist between the two, as they do in a running program.
"""

import re

from .. import scene as sc
from . import cli, purity, ufo
from .tth import CASES, MAIN, Hinted

PREFIX = "earlier "


def earlier(s, fn):
    """Run `fn` with values that can be told from those of the later run."""
    s.prefix = PREFIX
    try:
        return fn()
    finally:
        s.prefix = ""
        s.ip.wrote, s.ip.sidkeys = {}, {}


def small(s, masters=1, axes=0):
    d = ufo.Doc(s, masters, axes)
    d.masters()
    d.ps_info()
    d.glyph("A", d.nodes("A", ["move", "line", "line"]))
    return d


def export(s, doc, opts, vfb, masters, axes):
    d = doc(s, masters, axes)
    b = s.new(ufo.BUILDER, d.vfb(**vfb), **opts)
    return s.call(b, "get_ufo_masters", True)


# document, options, number of masters and axes of the earlier and the later export
EXPORTS = [
    ("full, full", (ufo.full, {}, {}, 4, 2), (ufo.full, {}, {}, 4, 2)),
    ("full, small", (ufo.full, {}, {}, 4, 2), (small, {}, {}, 1, 0)),
    ("small, full", (small, {}, {}, 1, 0), (ufo.full, {}, {}, 4, 2)),
    ("full, single", (ufo.full, {}, {}, 4, 2), (ufo.full, {}, {}, 1, 0)),
    ("single, full", (ufo.full, {}, {}, 1, 0), (ufo.full, {}, {}, 4, 2)),
]


def compare(rep, rule, s, case, where, alone, after):
    if alone is None or after is None:
        return
    d = sc.Diff(s)
    d.walk("", alone, after)
    ufo.settle(rep, rule, d, where, f"{case}: ")


def exports(project, rep):
    rule = "history-ufo"
    rep.rule(
        rule, "the UFOs of a font do not depend on the fonts exported earlier, or on how"
    )
    where = sc.where(project, ufo.BUILDER + ".build")
    runs = list(EXPORTS)
    for name, opts, vfb in ufo.VARIANTS:
        if opts or vfb:
            runs.append((f"{name}, default", (ufo.full, opts, vfb, 1, 0), EXPORTS[3][2]))
            runs.append((f"default, {name}", EXPORTS[3][2], (ufo.full, opts, vfb, 1, 0)))
    fresh = {}
    for case, first, second in runs:
        s = sc.Scene(project)

        def both():
            earlier(s, lambda: export(s, *first))
            return s.tree(export(s, *second))

        key = (second[0], repr(second[1:]))
        if key not in fresh:
            a = sc.Scene(project)
            fresh[key] = ufo.guarded(rep, rule, where, lambda: a.tree(export(a, *second)))
        out = ufo.guarded(rep, rule, where, both)
        compare(rep, rule, s, case, where, fresh[key], out)


def hinting(project, rep):
    rule = "history-tth"
    rep.rule(rule, "the hinting export of a font does not depend on earlier exports")
    where = sc.where(project, MAIN)

    def one(s, case):
        doc = Hinted(**CASES[case])(s)
        parser = s.ip.glob("vfbLib.parsers.base", "BaseParser")
        for e in doc.entries:
            s.st.heap[e.id] = s.st.heap[e.id].set("parser", parser)
        return s.func(MAIN, doc.vfb())

    for first, second in (
        ("everything", "everything"),
        ("everything", "empty lists"),
        ("everything", "only the 6 px PPEMs"),
        ("names used twice", "everything"),
        ("everything", "no stems"),
        ("everything", "no zones"),
        ("no settings", "everything"),
        ("everything", "no settings"),
    ):
        s, a = sc.Scene(project), sc.Scene(project)

        def both():
            earlier(s, lambda: one(s, first))
            return s.tree(one(s, second))

        alone = ufo.guarded(rep, rule, where, lambda: a.tree(one(a, second)))
        after = ufo.guarded(rep, rule, where, both)
        compare(rep, rule, s, f"{first}, {second}", where, alone, after)


def renumbered(text, start):
    """Number the unnamed values of a run by their first use; keep those before it."""
    seen = {}

    def name(m):
        n = int(m.group(1))
        return m.group(0) if n < start else f"v{seen.setdefault(n, len(seen))}"

    return re.sub(r"\bs(\d+)\b", name, text)


def tools(project, rep):
    rule = "history-tools"
    rep.rule(
        rule,
        "what a tool reads and writes does not depend on earlier runs in the same process",
    )
    win = lambda s: cli.text_doc(s, "windows")
    mac = lambda s: cli.text_doc(s, "macos")
    J, U = cli.JSON, cli.UFO
    runs = [
        ("mac, windows", (J, cli.on(), mac), (J, cli.on(), win)),
        ("windows, mac", (J, cli.on(), win), (J, cli.on(), mac)),
        ("-u, windows", (J, cli.on("-u"), win), (J, cli.on(), win)),
        ("mac, windows -u", (J, cli.on(), mac), (J, cli.on("-u"), win)),
        ("minimal, full", (J, cli.on("-m"), cli.single), (J, cli.on(), cli.single)),
        ("full, minimal", (J, cli.on(), cli.single), (J, cli.on("-m"), cli.single)),
        ("minimal UFO, JSON", (U, cli.on("-m"), cli.single), (J, cli.on(), cli.single)),
        ("UFO, TTH", (U, cli.on(), cli.single), (cli.TTH, cli.on(), cli.single)),
        ("quadratic, JSON", (cli.QU, cli.on(), cli.single), (J, cli.on(), cli.single)),
        (
            "drop, keep",
            (J, cli.on("-d"), cli.single),
            (J, cli.on(), cli.single),
        ),
    ]
    for case, first, second in runs:

        def run(x, s):
            tool, given, doc = x
            return cli.Run(project, tool, given, ["in.vfb"], doc, scene=s)

        def outcome(r, start):
            text = [str(cli.frozen(d[3])) for d in r.dumps.values()]
            return (
                [(x.kind, str(x.path), str(x.how)) for x in r.log],
                sorted(renumbered(x, start) for x in text),
                str(r.raised),
            )

        where = sc.where(project, second[0])
        s = sc.Scene(project)
        try:
            alone = run(second, sc.Scene(project))
            earlier(s, lambda: run(first, s))
            start = s.ip.next_sid
            after = run(second, s)
        except (RecursionError, cli.I.CaseSplit) as e:
            rep.und(rule, case, f"analysis gave up: {type(e).__name__}")
            continue
        x, y = outcome(alone, 0), outcome(after, start)
        for i, what in enumerate(("effects", "data", "result")):
            if x[i] == y[i]:
                rep.ok(rule, f"{case}: {what}")
            else:
                rep.viol(
                    rule,
                    f"{case}: {what}",
                    where,
                    f"{case}: the {what} of the second run depend on the first",
                )


VFB = ufo.VFB


def old_font(s):
    """A font with everything that a Vfb object keeps."""
    d = cli.text_doc(s, "windows")
    d.add("F.upm", d.L("F.upm"))
    d.stems()
    d.add("F.PostScriptHintingOptions", {"other": []})
    d.glyph("A", d.nodes("A", ["move", "line", "line"]))
    d.add("G.Links", {"x": [(0, 1)], "y": []})
    d.add("G.HintingOptions", {"other": []})
    return d


def bare(s):
    """A font without any of it."""
    d = ufo.Doc(s, 1, 0)
    d.add("F.full_name", s.leaf("full_name", "bytes"))
    d.glyph("A", d.nodes("A", ["move", "line"]))
    d.glyph("B", d.nodes("B", ["move", "line"]))
    return d


def opened(project, s, doc):
    """A run that has read `doc`, for its hooks, and a Vfb object of the same file."""
    r = cli.Run(project, cli.JSON, cli.on(), ["in.vfb"], doc, scene=s)
    return r, s.new(VFB, r.path("in.vfb"), timing=False)


def content(s, e):
    """The data of an entry, if there is one."""
    return s.get(e, "data") if isinstance(e, cli.I.Ref) else e


def used(s, v):
    """Use what is kept in a Vfb; the results."""
    s.call(v, "decompile")
    upm = s.get(s.get(v, "info"), "unitsPerEm")
    glyphs = []
    for pair in s.items(s.call(v, "items")) or []:
        name, g = s.items(pair)
        parts = [s.get(g, a) for a in ("entry", "links_entry", "ps_hinting_options")]
        glyphs.append([name, *[content(s, e) for e in parts]])
    attr = [
        s.get(v, a)
        for a in (
            "num_masters",
            "encoding",
            "writer_platform",
            "ttStemsV_count",
            "ttStemsH_count",
            "glyph_order",
            "lib",
            "any_errors",
        )
    ]
    kept = content(s, s.get(v, "ps_hinting_options"))
    return s.tree(s.lit([upm, glyphs, *attr, kept, s.call(v, "as_dict")]))


def reread(project, rep, rule, how, where, whc):
    s, a = sc.Scene(project), sc.Scene(project)

    def fill(s, v):
        # any object stands for the stream; its contents are those of the document
        s.call(v, how, *([s.lit([])] if how == "read_bytes" else []))

    def once():
        if how == "read":
            return used(a, opened(project, a, bare)[1])
        cli.Run(project, cli.JSON, cli.on(), ["in.vfb"], bare, scene=a)
        v = a.new(VFB, timing=False)
        fill(a, v)
        return used(a, v)

    def again():
        r, v = earlier(s, lambda: opened(project, s, old_font))
        earlier(s, lambda: used(s, v))
        lib = s.get(v, "lib")  # as fontTools.cu2qu does it
        s.st.heap[lib.id] = s.ip.obj(s.st, s.lit({"curve_type": "quadratic"}))
        start = s.ip.next_sid
        r.doc = bare(s)
        fill(s, v)
        return used(s, v), start

    alone = ufo.guarded(rep, rule, where, once)
    after = ufo.guarded(rep, rule, where, again)
    if alone is not None and after is not None:
        same(rep, rule, s, f"{how} again", whc, alone, after[0], after[1])


def objects(project, rep):
    rule, inter = "history-reread", "history-interleaved"
    rep.rule(rule, "a Vfb object that reads a second file equals a new one of this file")
    rep.rule(inter, "an open Vfb is not affected by other files that are opened later")
    where = sc.where(project, VFB + ".read")
    whc = sc.where(project, VFB + ".clear")
    for how in ("read", "read_bytes"):
        reread(project, rep, rule, how, where, whc)
    docs = {
        "windows": lambda s: cli.text_doc(s, "windows"),
        "mac": lambda s: cli.text_doc(s, "macos"),
        "bare": bare,
        "everything": old_font,
    }
    for first, second in (
        ("windows", "mac"),
        ("mac", "windows"),
        ("bare", "everything"),
        ("everything", "bare"),
    ):
        s, a = sc.Scene(project), sc.Scene(project)

        def between():
            _, v = opened(project, s, docs[first])

            def other():
                _, w = opened(project, s, docs[second])
                used(s, w)

            earlier(s, other)
            return used(s, v)

        alone = ufo.guarded(
            rep, inter, where, lambda: used(a, opened(project, a, docs[first])[1])
        )
        after = ufo.guarded(rep, inter, where, between)
        if alone is not None and after is not None:
            same(rep, inter, s, f"{first}, then {second}", where, alone, after, 0)


def same(rep, rule, s, case, where, alone, after, start):
    """Two trees are equal up to the numbers of unnamed values."""
    x, y = alone.val, after.val
    names = (
        "unitsPerEm glyphs num_masters encoding writer_platform ttStemsV_count "
        "ttStemsH_count glyph_order lib any_errors ps_hinting_options as_dict"
    ).split()
    if len(x) != len(names) or len(y) != len(names):
        rep.und(rule, case, "the objects are not determined")
        return
    for n, (_, p), (_, q) in zip(names, x, y):
        p, q = (str(cli.frozen(z)) for z in (p, q))
        if renumbered(p, 0) == renumbered(q, start):
            rep.ok(rule, f"{case}: {n}")
        else:
            rep.viol(
                rule,
                f"{case}: {n}",
                where,
                f"{case}: {n} of the Vfb depends on the other file",
            )


def history(project, rep):
    objects(project, rep)
    exports(project, rep)
    hinting(project, rep)
    tools(project, rep)


def reproducible(project, rep):
    history(project, rep)
    purity.purity(project, rep)
