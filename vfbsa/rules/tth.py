"""C24: the hinting export of vfb2tth, interpreted on abstract documents.

The result of `extract_truetype_hinting` is compared with the hints of the document,
command by command and value by value. Stems and zones are found in the result by the
values that only they carry, so that no assumption on the names of duplicates is needed.
"""

from .. import scene as sc
from .. import terms as t
from . import ufo
from .ufodata import ALIGN, CODES, compare

MAIN = "vfbLib.tth:extract_truetype_hinting"
SIDES = ("ttZonesB", "ttZonesT")
DIRS = ("ttStemsH", "ttStemsV")
ZONES = {"ttZonesT": ["top1", "top2"], "ttZonesB": ["bot1", "bot2"]}
STEMS = {"ttStemsH": ["H a"], "ttStemsV": ["V a", "V b"]}
HEAD = ("head_lowest_rec_ppem", "head_units_per_em")
PPMS = ("stemsnaplimit", "zoneppm", "codeppm")


class Hinted:
    """A document with the given stems, zones and commands."""

    def __init__(
        self,
        stems=STEMS,
        zones=ZONES,
        deltas={1: (12, 14), 2: (13,)},
        ppms={"ttStemsH": [(20, 30, 40, 50)], "ttStemsV": [(21, 31, 41, 51)]},
        px1={"ttStemsV": {1: 12, 0: 11}},
        px6={"ttStemsH": [60], "ttStemsV": [61, 62]},
        cmds=None,
        without=(),
        glyphs=("A", "a.alt"),
    ):
        self.stems, self.zones, self.deltas = stems, zones, deltas
        self.ppms, self.px1, self.px6 = ppms, px1, px6
        self.without, self.names = without, glyphs
        self.cmds = cmds

    # ----------------------------------------------------------------- document

    def commands(self, d, g):
        if self.cmds is not None:
            return [(c, dict(p)) for c, p in self.cmds]
        out = []
        for c in CODES:
            p = lambda n: d.L(f"{g}.{c}.{n}", rng=(0, 500))
            if c in ("AlignTop", "AlignBottom"):
                side = "ttZonesT" if c == "AlignTop" else "ttZonesB"
                for z in range(len(self.zones.get(side, ()))):
                    out.append((c, {"pt": p(f"pt{z}"), "zone": z}))
            elif c in ("AlignH", "AlignV"):
                for a in (-1, *ALIGN):
                    out.append((c, {"pt": p(f"pt{a}"), "align": a}))
            elif "Link" in c:
                for i in (-2, -1, *range(len(self.stems.get(f"ttStems{c[-1]}", ())))):
                    a = {"align": i % 5} if c.startswith("Single") else {}
                    out.append((c, {"pt1": p(f"p{i}"), "pt2": p(f"q{i}"), "stem": i, **a}))
            elif "Interpolate" in c:
                for a in (-1, 2):
                    x = {k: p(f"{k}{a}") for k in ("pti", "pt1", "pt2")}
                    out.append((c, {**x, "align": a}))
            else:
                x = {k: d.L(f"{g}.{c}.{k}") for k in ("shift", "ppm1", "ppm2")}
                out.append((c, {"pt": p("pt"), **x}))
        return out

    def __call__(self, s):
        d = ufo.Doc(s, 1, 0)
        d.masters()
        add = lambda k, v: None if k in self.without else d.add(f"T.{k}", v)
        if "ttinfo" not in self.without:
            info = {k: d.L(f"tt.{k}") for k in (*HEAD, "max_zones")}
            d.add("F.ttinfo", info)
        add(
            "gasp",
            [{"maxPpem": m, "flags": d.L(f"gasp{m}", rng=(0, 15))} for m in (8, 65535)],
        )
        add(
            "TrueTypeStemPPEMs",
            {
                k: [
                    {"stem": i, "round": dict(zip((2, 3, 4, 5), r))}
                    for i, r in enumerate(v)
                ]
                for k, v in self.ppms.items()
            },
        )
        add(
            "TrueTypeStems",
            {
                k: [
                    {
                        "value": d.L(f"width.{k}.{i}"),
                        "name": n,
                        "round": {6: self.px6[k][i]},
                    }
                    for i, n in enumerate(v)
                ]
                for k, v in self.stems.items()
            },
        )
        add(
            "TrueTypeStemPPEMs1",
            {
                k: [{"stem": i, "round": {1: r}} for i, r in v.items()]
                for k, v in self.px1.items()
            },
        )
        add(
            "TrueTypeZones",
            {
                k: [
                    {
                        "position": d.L(f"pos.{k}.{i}"),
                        "value": d.L(f"height.{k}.{i}"),
                        "name": n,
                    }
                    for i, n in enumerate(v)
                ]
                for k, v in self.zones.items()
            },
        )
        add(
            "TrueTypeZoneDeltas",
            {z: {p: d.L(f"delta.{z}.{p}") for p in ps} for z, ps in self.deltas.items()},
        )
        for k in PPMS:
            add(k, d.L(f"T.{k}"))
        self.programs = {}
        for g in self.names:
            cmds = self.programs[g] = self.commands(d, g)
            d.glyph(
                g,
                d.nodes(g, ["move", "line", "line"]),
                tth=[{"cmd": c, "params": dict(p)} for c, p in cmds],
            )
        d.glyph("plain", d.nodes("plain", ["move", "line", "line"]))
        return d

    # -------------------------------------------------------------- expectation

    def rounds(self, k, i):
        """{ppm as text: pixels}; the bigger pixel number of two at one ppm."""
        r = {}

        def at(ppm, px):
            r[str(ppm)] = max(px, r.get(str(ppm), 0))

        if "TrueTypeStemPPEMs1" not in self.without and i in self.px1.get(k, {}):
            at(self.px1[k][i], 1)
        if "TrueTypeStemPPEMs" not in self.without:
            rows = self.ppms.get(k, [])
            if i < len(rows):
                for px, ppm in zip((2, 3, 4, 5), rows[i]):
                    at(ppm, px)
        at(self.px6[k][i], 6)
        return r

    def wanted(self, d, names):
        """The expected result, given the exported names of stems and zones."""
        v, gone = d.v, self.without
        font = {}
        if "gasp" not in gone:
            font["gasp"] = {str(m): v(f"gasp{m}") for m in (8, 65535)}
        if "ttinfo" not in gone:
            font |= {k: v(f"tt.{k}") for k in HEAD}
        font |= {k: v(f"T.{k}") for k in PPMS if k not in gone}
        stems = {
            names[k, i]: {
                "round": self.rounds(k, i),
                "width": v(f"width.{k}.{i}"),
                "horizontal": k == "ttStemsV",
            }
            for k, ns in self.stems.items()
            for i in range(len(ns))
        }
        if stems and "TrueTypeStems" not in gone:
            font["stems"] = stems
        zones, order = {}, []
        for k in SIDES:
            for i in range(len(self.zones.get(k, ()))):
                order.append(names[k, i])
                zones[names[k, i]] = {
                    "position": v(f"pos.{k}.{i}"),
                    "width": v(f"height.{k}.{i}"),
                    "top": k == "ttZonesT",
                }
        if "TrueTypeZoneDeltas" not in gone:
            for z, ps in self.deltas.items():
                zones[order[z]]["deltas"] = {str(p): v(f"delta.{z}.{p}") for p in ps}
        if zones and "TrueTypeZones" not in gone:
            font["zones"] = zones
        glyphs = {g: [self.command(*c, names) for c in p] for g, p in self.programs.items()}
        return {"font": font, "glyphs": {g: p for g, p in glyphs.items() if p}}

    def command(self, code, p, names):
        a = {"code": CODES[code]}
        for src, dst in (
            ("pt", "point"),
            ("pti", "point"),
            ("pt1", "point1"),
            ("pt2", "point2"),
        ):
            if src in p:
                a[dst] = p[src]
        if "zone" in p:
            a["zone"] = names["ttZonesT" if code == "AlignTop" else "ttZonesB", p["zone"]]
        if "stem" in p:
            if p["stem"] <= -2:
                a["round"] = True
            elif p["stem"] >= 0:
                a["stem"] = names[f"ttStems{code[-1]}", p["stem"]]
        if p.get("align", -1) >= 0:
            a["align"] = ALIGN[p["align"]]
        if "shift" in p:
            a |= {"delta": p["shift"], "ppm1": p["ppm1"], "ppm2": p["ppm2"]}
        return a


def exported(tree, what, attr, found, prefix):
    """Add (list, index) -> exported name for the stems or zones of the result."""
    d = sc.path(tree, "font", what)
    if d is None or d.kind != "dict":
        return
    for e in d.val:
        if e[0] != "one" or e[1].kind != "leaf" or not t.isk(e[1].val):
            continue
        w = sc.get(e[2], attr)
        if w is None or w.kind != "leaf":
            continue
        for x in sc.source_ids(w.val):
            parts = x.split(".")
            if parts[0] == prefix:
                found.setdefault((parts[1], int(parts[2])), t.kv(e[1].val))


DUP = {"ttStemsH": ["x", "x", ""], "ttStemsV": ["x", "", "x#1", "y"]}
DUPZ = {"ttZonesT": ["z", "z", "w"], "ttZonesB": ["z", "z#1", "v"]}
SIX = {"ttStemsH": [60, 61, 62], "ttStemsV": [63, 64, 65, 66]}
NONE = {"ttStemsH": [], "ttStemsV": []}
CASES = {
    "everything": {},
    "names used twice": dict(stems=DUP, zones=DUPZ, px6=SIX, px1={}, ppms={}, deltas={}),
    "names used twice, with values": dict(
        stems=DUP,
        zones=DUPZ,
        px6=SIX,
        px1={"ttStemsH": {1: 11}, "ttStemsV": {2: 12}},
        ppms={
            "ttStemsV": [(20, 30, 40, 50), (21, 31, 41, 51), (22, 32, 42, 52)],
            "ttStemsH": [(23, 33, 43, 53), (24, 34, 44, 54)],
        },
        deltas={0: (9,), 3: (10, 11), 5: (12,)},
    ),
    "no stems": dict(stems={}, ppms={}, px1={}, without=("TrueTypeStems",)),
    "empty lists": dict(
        stems=NONE,
        zones={k: [] for k in SIDES},
        ppms=NONE,
        px1={k: {} for k in DIRS},
        deltas={},
    ),
    "no zones": dict(zones={}, deltas={}, without=("TrueTypeZones", "TrueTypeZoneDeltas")),
    "top zones only": dict(
        zones={"ttZonesT": ["a", "b"], "ttZonesB": []}, deltas={0: (9,)}
    ),
    "bottom zones only": dict(
        zones={"ttZonesT": [], "ttZonesB": ["a", "b"]}, deltas={1: (9,)}
    ),
    "no zone deltas": dict(deltas={}, without=("TrueTypeZoneDeltas",)),
    "no stem PPEMs": dict(without=("TrueTypeStemPPEMs",)),
    "no 1 px PPEMs": dict(without=("TrueTypeStemPPEMs1",)),
    "only the 6 px PPEMs": dict(without=("TrueTypeStemPPEMs", "TrueTypeStemPPEMs1")),
    "no settings": dict(without=("gasp", "ttinfo", *PPMS)),
    "two values at one PPEM": dict(
        stems={"ttStemsH": ["a"], "ttStemsV": ["b", "c"]},
        px6={"ttStemsH": [50], "ttStemsV": [51, 62]},
        ppms={"ttStemsH": [(20, 30, 50, 50)], "ttStemsV": [(12, 12, 41, 51)]},
        px1={"ttStemsV": {0: 12, 1: 62}, "ttStemsH": {0: 20}},
    ),
    "no commands": dict(cmds=[]),
    "no hinted glyphs": dict(glyphs=()),
}


def hinting(project, rep):
    rule = "tth-export"
    rep.rule(
        rule,
        "the TrueType hinting export has every stem, zone, setting and command of the font",
    )
    for case, opts in CASES.items():
        h = Hinted(**opts)
        s = sc.Scene(project)
        doc = h(s)
        parser = s.ip.glob("vfbLib.parsers.base", "BaseParser")
        for e in doc.entries:  # decompiled, but of a known type
            s.st.heap[e.id] = s.st.heap[e.id].set("parser", parser)
        at = sc.where(project, MAIN)
        out = ufo.guarded(rep, rule, at, lambda: s.func(MAIN, doc.vfb()))
        if out is None:
            continue
        tree = s.tree(out)
        names = {}
        exported(tree, "stems", "width", names, "width")
        exported(tree, "zones", "position", names, "pos")
        lost = False
        for lists, key in ((h.stems, "TrueTypeStems"), (h.zones, "TrueTypeZones")):
            own = [n for ns in lists.values() for n in ns]
            for k, ns in lists.items():
                for i, n in enumerate(ns):
                    p = f"{case}: {k}[{i}] {n!r}"
                    if key in h.without:
                        names.setdefault((k, i), n)
                    elif (k, i) not in names:
                        lost = True
                        rep.viol(rule, p, at, f"{p} is not in the export")
                    elif own.count(n) == 1 and not n:
                        rep.ok(rule, p)
                    elif own.count(n) == 1 and names[k, i] != n:
                        # a made-up name of another one must not take its name
                        made = [x for x in own if own.count(x) > 1]
                        if any(n.startswith(x) for x in made):
                            rep.ok(rule, p)
                        else:
                            rep.viol(rule, p, at, f"{p} is called {names[k, i]!r}")
                    else:
                        rep.ok(rule, p)
        if lost:
            continue
        want = h.wanted(doc, names)
        for part in ("font", "glyphs"):
            a, b = want[part], sc.get(tree, part)
            pairs = [
                (f"{part}.{k}", a[k], sc.get(b, k) if b is not None else None) for k in a
            ]
            more = [
                t.kv(e[1].val)
                for e in (b.val if b is not None and b.kind == "dict" else ())
                if e[0] == "one" and t.isk(e[1].val) and t.kv(e[1].val) not in a
            ]
            for k in more:
                p = f"{case}: {part}.{k}"
                rep.viol(rule, p, at, f"{p} is exported, but not in the font")
            for p, x, y in pairs:
                if y is None:
                    rep.viol(rule, f"{case}: {p}", at, f"{case}: {p} is not exported")
            compare(rep, rule, s, at, [q for q in pairs if q[2] is not None], f"{case}: ")
