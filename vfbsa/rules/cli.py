"""C22-C24: the command line tools, interpreted from their entry points.

Each run interprets a tool's function abstractly with one set of given options on one
abstract document; reading and writing of files, the console, and the (de)serializers of
other packages are recorded in order instead of modelled in detail.
"""

import ast

from .. import flow
from .. import interp as I
from .. import interp_expr as X
from .. import scene as sc
from .. import terms as t
from ..terms import NONE, TRUE, K, T
from . import discipline, ufo

ENTRY = "vfbLib.vfb.entry:VfbEntry"


class Run:
    """One abstract run of a tool."""

    def __init__(
        self, project, dotted, given, existing=(), doc=None, raw=False, scene=None, **facts
    ):
        s = self.s = scene or sc.Scene(project)
        ip = s.ip
        self.facts = facts
        self.calls = []
        self.dumps = {}
        self.raw = raw
        ip.unroll = 4000
        self.doc = doc(s) if doc else ufo.full(s, 2, 1)
        self.files = {}
        self.hook()
        ip.existing = set()
        ip.effects, ip.options, ip.prints = [], [], []
        ip.given = {k: self.value(v) for k, v in given.items()}
        self.existing = existing
        for x in existing:
            ip.existing.add(x(self) if callable(x) else self.path(x))
        self.raised = None
        self.where = sc.where(project, dotted)
        mod, _, name = dotted.partition(":")
        fn = ip.glob(mod, name)
        if not isinstance(fn, I.Fn):
            raise sc.AnchorLost(f"function {dotted} not found")
        try:
            s.func(dotted)
        except I.Raised as r:
            self.raised = r.what
        self.log = ip.effects
        self.prints = ip.prints

    # ------------------------------------------------------------------- values

    def path(self, name):
        if name not in self.files:
            x = self.files[name] = self.s.leaf(name, "str")
            self.s.ip.nonempty.add(x)
        return self.files[name]

    def value(self, v):
        if isinstance(v, str):
            return self.path(v)
        if isinstance(v, list):
            return self.s.lit([self.path(x) if isinstance(x, str) else x for x in v])
        return self.s.lit(v)

    def data(self, name, i):
        """The binary data of entry `i` of a file."""
        return self.s.leaf(f"{name}:{i}", "bytes")

    def spec(self, fn, *args):
        return self.s.func(
            f"spec.cli:{fn}",
            *[self.files.get(a, K(a)) if isinstance(a, str) else a for a in args],
        )

    # -------------------------------------------------------------------- hooks

    def hook(self):
        ip, s = self.s.ip, self.s
        entries = {}
        numbered = {e.id: i for i, e in enumerate(self.doc.entries)}

        def read(ip, args, kw, st, node):
            me, stream = args[0], args[1]
            # every time a file is opened, it is read from its start
            e = next(entries.setdefault(stream, iter(self.doc.entries)), None)
            if e is None:
                raise I.Raised("EOFError", node, st)
            src = st.heap[e.id]
            data = src.get("_data")
            if isinstance(data, T) and t.typeof(data) == "bytes":
                # binary data for the parser of this entry type
                X.assign_attr(ip, me, "id", src.get("_id"), st, node)
                st.heap[me.id] = st.heap[me.id].set("_data", data)
                return NONE
            o = st.heap[me.id]
            for k in ("_id", "key"):
                o = o.set(k, src.get(k))
            if self.raw:
                path = st.heap[stream.id].get("path")
                name = next((n for n, p in self.files.items() if p is path), "?")
                data = self.data(name, numbered[e.id])
            o = o.set("_data", data)
            o = o.set("parser", ip.glob("vfbLib.parsers.base", "BaseParser"))
            o = o.set("compiler", ip.glob("vfbLib.compilers.base", "BaseCompiler"))
            st.heap[me.id] = o
            return NONE

        def change(name, ty, when):
            def h(ip, args, kw, st, node):
                me = args[0]
                o = st.heap[me.id]
                x = o.get("_data")
                if isinstance(x, T) and (t.typeof(x) == "bytes") == when:
                    st.heap[me.id] = o.set("_data", sc.app(name, x, ty=ty))
                return TRUE

            return h

        ip.hooks[f"{ENTRY}.read"] = read
        if self.raw:
            ip.hooks[f"{ENTRY}.decompile"] = change("parsed", "str", True)
            ip.hooks[f"{ENTRY}.compile"] = change("compiled", "bytes", False)
        ip.hooks["vfbLib.vfb.header:VfbHeader.read"] = lambda *a: NONE
        for n in ("decompile", "compile"):
            ip.hooks[f"vfbLib.vfb.header:VfbHeader.{n}"] = lambda *a: NONE
        ip.hooks["vfbLib.vfb.header:VfbHeader.as_dict"] = lambda *a: K("header")
        ip.hooks["vfbLib.vfb.vfb:Vfb.write_bytes"] = self.write_bytes
        for n in ("basicConfig",):
            ip.hooks[f"ext:logging.{n}"] = self.call(n)
            ip.hooks[f"logging.{n}"] = self.call(n)
        for n in ("font_to_quadratic", "fonts_to_quadratic"):
            ip.hooks[f"ext:fontTools.cu2qu.ufo.{n}"] = self.call(n, "modified")
        for n in ("orjson.dumps", "json.dumps", "tomli_w.dumps", "yaml.dump"):
            ip.hooks[f"ext:{n}"] = self.dump(n)
        ip.hooks["orjson:dumps"] = self.dump("orjson.dumps")
        for n in ("ext:sys.exit", "builtins.exit", "builtins.quit"):
            ip.hooks[n] = self.exit
        for n in ("builtins.open", "ext:io.open", "ext:codecs.open"):
            ip.hooks[n] = self.open
        for n in ("builtins.print", "ext:sys.stdout.write", "ext:sys.stdout.writelines"):
            ip.hooks[n] = self.print
        ip.str_hooks["splitlines"] = self.lines
        ip.hooks["spec.effects:compared"] = self.compared
        ip.hooks["vfbLib.parsers.value:read_value"] = self.read_value
        for n in ("write_value", "write_value_long"):
            ip.hooks[f"vfbLib.compilers.value:{n}"] = self.call(n)

    def call(self, name, fact=None):
        def h(ip, args, kw, st, node):
            self.calls.append((name, args, kw))
            if fact is None:
                return NONE
            return K(self.facts.get(fact, True))

        return h

    def dump(self, name):
        def h(ip, args, kw, st, node):
            x = sc.app(name, K(len(self.dumps)), ty="bytes" if name[0] == "o" else "str")
            opt = kw.get("option")
            self.dumps[x] = (name, args[0], opt, self.s.tree(args[0]))
            return x

        return h

    def write_bytes(self, ip, args, kw, st, node):
        self.calls.append(("write_bytes", args[:1], {}))
        w = ip.attr(args[1], "write", st)
        X.call_value(ip, w, [sc.app("vfb", ty="bytes")], {}, st, node)
        return NONE

    def lines(self, ip, v, args, kw, st, node):
        return self.s.lit([sc.app("lines", v, ty="str")])

    def compared(self, ip, args, kw, st, node):
        kind, *both = args
        parts = []
        for x in both:
            segs = [x] if isinstance(x, T) else [g.v for g in ip.segs_of(x, st) or ()]
            parts.append(segs[0] if len(segs) == 1 else t.opaque("lines"))
        return sc.app(t.kv(kind), *parts, ty="str")

    def exit(self, ip, args, kw, st, node):
        self.calls.append(("exit", args, kw))
        raise I.Raised("SystemExit", node, st)

    def open(self, ip, args, kw, st, node):
        path = args[0]
        mode = args[1] if len(args) > 1 else kw.get("mode", K("r"))
        return ip.call_cls(ip.glob("spec.files", "File"), [path, mode], {}, st, node)

    def read_value(self, ip, args, kw, st, node):
        if self.called("read_value"):
            raise I.Raised("EOFError", node, st)
        self.calls.append(("read_value", args, kw))
        return sc.app("value", K(0), ty="int")

    def print(self, ip, args, kw, st, node):
        self.calls.append(("print", args, kw))
        if "file" not in kw or kw["file"] is NONE:
            ip.prints.append((node, dict(st.facts)))
        return NONE

    # ------------------------------------------------------------------- result

    def called(self, name):
        return [c for c in self.calls if c[0] == name]

    @property
    def open_question(self):
        """Why the outcome is not determined, if it is not."""
        for x in self.log:
            if x.path is None:
                return "the path of a written file is not determined"
            if x.facts:
                return "a file is written or not depending on unknown values"
        for n in self.s.ip.notes:
            return str(n)
        return None

    def writes(self, *kinds):
        return [x for x in self.log if not kinds or x.kind in kinds]

    def signature(self):
        s = self.s
        log = tuple(
            (x.kind, x.path, freeze(s, x.what, self.dumps), freeze(s, x.how, self.dumps))
            for x in self.log
        )
        calls = tuple(
            (
                n,
                tuple(freeze(s, a, self.dumps) for a in args),
                tuple(sorted((k, freeze(s, v, self.dumps)) for k, v in kw.items())),
            )
            for n, args, kw in self.calls
            if n != "print"
        )
        prints = tuple(
            (
                tuple(freeze(s, a, self.dumps) for a in args),
                tuple(sorted((k, freeze(s, v, self.dumps)) for k, v in kw.items())),
            )
            for n, args, kw in self.calls
            if n == "print"
        )
        return self.raised, log, calls, prints


def freeze(s, v, dumps, hidden=()):
    """A comparable picture of a value."""
    if v is None:
        return None
    if isinstance(v, T):
        if v in dumps:
            name, what, opt, tree = dumps[v]
            return (name, frozen(tree))
        return v
    return frozen(s.tree(v), hidden)


def frozen(n, hidden=()):
    k = n.kind
    if k == "leaf":
        return n.val
    if k == "inst":
        return (
            k,
            n.name,
            tuple(sorted((a, frozen(x, hidden)) for a, x in n.val if a not in hidden)),
        )
    if k in ("list", "tup"):
        return (k, tuple(seg(x, hidden) for x in n.val))
    if k == "dict":
        return (k, tuple(ent(x, hidden) for x in n.val))
    if k == "ite":
        return (k, n.val[0], frozen(n.val[1], hidden), frozen(n.val[2], hidden))
    return (k,)


def seg(x, hidden):
    if x[0] == "one":
        return frozen(x[1], hidden)
    return (x[0], str(x[1]))


def ent(x, hidden):
    if x[0] == "one":
        return (frozen(x[1], hidden), frozen(x[2], hidden), x[3])
    return (x[0], str(x[1]))


def attempt(rep, rule, project, dotted, *a, **k):
    """One run, if its outcome is determined; a run on real text may depend on it."""
    text = k.pop("text", False)
    where = sc.where(project, dotted)
    try:
        r = Run(project, dotted, *a, **k)
    except (RecursionError, I.CaseSplit) as e:
        rep.und(rule, where, f"analysis gave up: {type(e).__name__}")
        return None
    q = r.open_question
    if q is not None and not text:
        rep.und(rule, where, q)
        return None
    return r


# ------------------------------------------------------------------- the tools

UFO = "vfbLib.cmdline:vfb2ufo"
JSON = "vfbLib.cmdline:vfb2json"
TTH = "vfbLib.tth:vfb2tth"
QU = "vfbLib.cu2qu:vfbcu2qu"
DIFF = "vfbLib.diff:diffvfb"
YURI = "vfbLib.value:yuri"

IN = {"inputpath": ["in.vfb"]}


def on(*opts, **more):
    d = dict(IN)
    for o in opts:
        d[o] = True
    d.update(more)
    return d


def single(s):
    return hinted(s, 1, 0)


def hinted(s, masters=1, axes=0):
    return ufo.full(s, masters, axes)


# where the output of a run goes
PLACES = {
    "beside": {},
    "in a folder": {"-p": ["dir"]},
    "to a given file": {"outputpath": "out.ufo"},
}


def place(r, how, suffix):
    """The path of the output of a run."""
    r.path("in.vfb")
    if how == "in a folder":
        r.path("dir")
        return r.spec("in_folder", "dir", "in.vfb", suffix)
    if how == "to a given file":
        r.path("out.ufo")
        if suffix == ".json":
            return r.spec("suffixed", "out.ufo", suffix)
        return r.spec("as_is", "out.ufo")
    return r.spec("beside", "in.vfb", suffix)


def outputs(r, out):
    """The paths of the masters and the designspace of an export."""
    n = r.doc.M
    fonts = [r.spec("master", out, i) for i in range(n)]
    return fonts, r.spec("suffixed", out, ".designspace")


# ------------------------------------------------------------------------ C22

FORMATS = [("ufo", [], ".ufo"), ("ufoz", ["-z"], ".ufoz"), ("json", ["-j"], ".json")]


def overwrite(project, rep):
    kept, forced = "existing-kept", "force-replaces"
    rep.rule(
        kept,
        "a run without -fo fails if any of its output files exists, before any file is "
        "written",
    )
    rep.rule(forced, "a run with -fo replaces existing output files, all of them")
    for fmt, opts, suffix in FORMATS:
        for masters in (1, 4):
            axes = 2 if masters == 4 else 0
            n = masters
            targets = [("font", i) for i in range(n)] + ([("ds", 0)] if n > 1 else [])
            for how in PLACES:
                some = targets if how == "beside" else targets[-2:]
                for kind, i in some:

                    def there(r, kind=kind, i=i, suffix=suffix, how=how):
                        fonts, ds = outputs(r, place(r, how, suffix))
                        return ds if kind == "ds" else fonts[i]

                    for force in (False, True):
                        one_target(
                            project,
                            rep,
                            forced if force else kept,
                            UFO,
                            on(*opts, *(["-fo"] if force else []), **PLACES[how]),
                            there,
                            lambda s, n=n, axes=axes: ufo.full(s, n, axes),
                            f"vfb3ufo {fmt} {kind}{i} of {n} {how}",
                            force,
                            n + (1 if n > 1 else 0),
                        )
    for force in (False, True):
        one_target(
            project,
            rep,
            forced if force else kept,
            QU,
            on(*(["-fo"] if force else [])),
            lambda r: r.path("in.vfb") and r.spec("beside", "in.vfb", ".qu.vfb"),
            None,
            "vfbcu2qu",
            force,
            1,
        )
        one_target(
            project,
            rep,
            forced if force else kept,
            QU,
            on(*(["-fo"] if force else []), outputpath="out.vfb"),
            lambda r: r.path("out.vfb") and r.spec("as_is", "out.vfb"),
            None,
            "vfbcu2qu to a given file",
            force,
            1,
        )
        # the result would replace the source
        one_target(
            project,
            rep,
            forced if force else kept,
            QU,
            on(*(["-fo"] if force else []), outputpath="in.vfb"),
            lambda r: r.path("in.vfb"),
            None,
            "vfbcu2qu onto its input",
            force,
            1,
        )


def one_target(project, rep, rule, tool, given, there, doc, case, force, want):
    r = attempt(rep, rule, project, tool, given, existing=["in.vfb", there], doc=doc)
    if r is None:
        return
    files = r.writes("ufo", "json", "designspace", "open")
    over = [x for x in r.log if x.over and x.kind != "normalize"]
    if force:
        if r.raised is not None:
            rep.viol(rule, f"{case}:fails", r.where, f"{case}: fails with {r.raised}")
        elif len(files) != want or not over:
            rep.viol(
                rule,
                f"{case}:not-written",
                r.where,
                f"{case}: {len(files)} of {want} files are written",
            )
        else:
            rep.ok(rule, case)
    elif over:
        rep.viol(
            rule,
            f"{case}:replaced",
            over[0].site,
            f"{case}: the existing file {t.show(over[0].path)} is written without -fo",
        )
    elif r.raised is None:
        rep.viol(rule, f"{case}:succeeds", r.where, f"{case}: exists, but the run succeeds")
    elif files:
        rep.viol(
            rule,
            f"{case}:partial",
            files[0].site,
            f"{case}: {len(files)} files are written before the existing one is found",
        )
    else:
        rep.ok(rule, case)


# ------------------------------------------------------------------------ C23

# tool, option -> (options given besides it, existing files, why it has no effect if alone)
EFFECT = [
    (UFO, "-p", ["dir"], {}, {}),
    (UFO, "outputpath", "o.ufo", {}, {}),
    (UFO, "-fo", True, {}, {"existing": "out"}),
    (UFO, "-g", True, {}, {}),
    (UFO, "-j", True, {}, {}),
    (UFO, "-k", True, {}, {}),
    (UFO, "-ttx", True, {}, {}),
    (UFO, "-64", True, {}, {}),
    (UFO, "-s", True, {}, {}),
    (UFO, "-n", True, {}, {}),
    (UFO, "-nops", True, {}, {}),
    (UFO, "-v", True, {}, {}),
    (UFO, "-z", True, {}, {}),
    (UFO, "-m", True, {}, {}),
    (UFO, "-u", True, {}, {}),
    (JSON, "-d", True, {}, {}),
    (JSON, "--header", True, {}, {}),
    (JSON, "-m", True, {}, {}),
    (JSON, "-p", ["dir"], {}, {}),
    (JSON, "-r", True, {}, {}),
    (JSON, "-u", True, {}, {}),
    (QU, "-p", ["dir"], {}, {}),
    (QU, "-fo", True, {}, {"existing": "qu"}),
    (QU, "outputpath", "o.vfb", {}, {}),
    (QU, "-m", [0.5], {}, {}),
    (DIFF, "--html", "x.html", {"file1": ["a.vfb"], "file2": ["b.vfb"]}, {}),
    (YURI, "-e", True, {"hexstring": ["h"]}, {}),
    (YURI, "-l", True, {"hexstring": ["h"], "-e": True}, {}),
    (YURI, "-s", True, {"hexstring": ["h"]}, {}),
    (TTH, "-f", K("toml"), {}, {}),
    (TTH, "-p", ["dir"], {}, {}),
]


def effects(project, rep):
    rule = "option-has-effect"
    rep.rule(rule, "giving an option changes what is written, printed or computed")
    base = {}
    for tool, opt, val, more, ex in EFFECT:
        given = {**(IN if tool not in (DIFF, YURI) else {}), **more}
        existing = ["in.vfb", "a.vfb", "b.vfb"]
        suffix = {"out": ".ufo", "qu": ".qu.vfb"}.get(ex.get("existing"))
        if suffix:
            existing.append(
                lambda r, x=suffix: r.path("in.vfb") and r.spec("beside", "in.vfb", x)
            )
        kw = {"doc": tiny if tool == YURI else text_doc if opt == "-u" else single}
        kw["raw"] = tool in (JSON, DIFF) and opt != "-u"
        kw["text"] = opt == "-u"
        k = (tool, tuple(more), suffix, opt == "-u")
        if k not in base:
            base[k] = attempt(rep, rule, project, tool, given, existing, **kw)
        r = attempt(rep, rule, project, tool, {**given, opt: val}, existing, **kw)
        if r is None or base[k] is None:
            continue
        name = tool.partition(":")[2]
        if not any(opt in flags for flags, _, _ in r.s.ip.options):
            rep.viol(rule, f"{name} {opt}:gone", r.where, f"{name} has no option {opt}")
        elif r.signature() == base[k].signature():
            rep.viol(rule, f"{name} {opt}:none", r.where, f"{name}: {opt} has no effect")
        else:
            rep.ok(rule, f"{name} {opt}")


class Judge:
    """Obligations about one run."""

    def __init__(self, rep, rule, r, case):
        self.rep, self.rule, self.r, self.case = rep, rule, r, case

    def must(self, what, good, msg, site=None):
        if good:
            self.rep.ok(self.rule, f"{self.case} {what}")
        else:
            self.rep.viol(
                self.rule,
                f"{self.case}:{what}",
                site or self.r.where,
                f"{self.case}: {msg}",
            )
        return good

    def finished(self):
        r = self.r
        return self.must("runs", r.raised is None, f"the run ends in {r.raised}")

    def files(self, want):
        """`want`: {path: [(kind, how)]}, in this order for each path."""
        got = {}
        for x in self.r.log:
            how = t.kv(x.how) if isinstance(x.how, T) and t.isk(x.how) else x.how
            if x.kind in ("open", "data"):
                if x.kind == "open" and "w" not in how:
                    continue
                how = None
            got.setdefault(x.path, []).append((x.kind, how))
        for path, ops in want.items():
            have = got.pop(path, [])
            self.must(
                f"writes {t.show(path)}",
                have == ops,
                f"{t.show(path)} should be written with {ops}, but is with {have}",
            )
        self.must(
            "nothing else",
            not got,
            "also writes " + ", ".join(t.show(p) for p in got if p is not None),
        )

    def written(self, path):
        """The values written to a file."""
        return [x.what for x in self.r.log if x.path is path and x.kind != "open"]


def tiny(s):
    d = ufo.Doc(s, 1, 0)
    return d


def text_doc(s, platform="windows"):
    d = ufo.Doc(s, 1, 0)
    d.add("F.FLVersion", {"platform": platform, "version": [5, 2, 1, 0]})
    d.masters()
    d.add("F.full_name", s.leaf("full_name", "bytes"))
    d.add("F.copyright", s.leaf("copyright", "bytes"))
    return d


# options of vfb3ufo -> arguments of the builder, of the Vfb object
BUILDER_ARGS = {
    "-g": ({"move_groups": False}, {}),
    "-k": ({"add_kerning_groups": True}, {}),
    "-64": ({"base64": True}, {}),
    "-nops": ({"pshints": False}, {}),
    "-m": ({"minimal": True}, {"minimal": True}),
}

DEBUG = ("logging.DEBUG", "'DEBUG'", "10")

UFO_RUNS = [
    (),
    ("-g",),
    ("-k",),
    ("-64",),
    ("-nops",),
    ("-m",),
    ("-j",),
    ("-z",),
    ("-n",),
    ("-s",),
    ("-v",),
    ("-fo",),
    ("-p",),
    ("outputpath",),
    ("-j", "-z"),
    ("-j", "-p"),
    ("-j", "outputpath"),
    ("-z", "-n"),
    ("-z", "-p"),
    ("-z", "outputpath"),
    ("-p", "outputpath"),
    ("-g", "-k"),
    ("-m", "-64", "-nops"),
    ("-m", "-z"),
    ("-m", "-j"),
    ("-m", "-s"),
    ("-m", "-g"),
    ("-g", "-z"),
    ("-k", "-j"),
    ("-k", "-nops"),
    ("-64", "-z"),
    ("-64", "-j"),
    ("-nops", "-z"),
    ("-nops", "-n"),
    ("-n", "-j"),
    ("-fo", "-z"),
    ("-fo", "-j"),
    ("-s", "-z"),
    ("-s", "-j"),
    ("-v", "-s"),
    ("-u", "-z"),
    ("-g", "-k", "-64", "-nops", "-m", "-n"),
]


def ufo_runs(project, rep):
    rule, content = "ufo-files", "ufo-content"
    rep.rule(
        rule,
        "vfb3ufo writes one file per master and a designspace for more than one, at the "
        "given place and in the given format, and nothing else",
    )
    rep.rule(content, "the fonts written are those of the builder with the given options")
    exported = {}
    for masters, axes in ((1, 0), (2, 1)):
        for opts in UFO_RUNS:
            more = {}
            how = "beside"
            for o in opts:
                if o == "-p":
                    more["-p"], how = ["dir"], "in a folder"
                elif o == "outputpath":
                    more["outputpath"], how = "out.ufo", "to a given file"
            if "outputpath" in more:
                how = "to a given file"
            given = on(*[o for o in opts if o not in ("-p", "outputpath")], **more)
            r = attempt(
                rep,
                rule,
                project,
                UFO,
                given,
                ["in.vfb"],
                lambda s, m=masters, a=axes: ufo.full(s, m, a),
            )
            if r is None:
                continue
            case = f"vfb3ufo {' '.join(opts) or 'plain'} of {masters}"
            j = Judge(rep, rule, r, case)
            if not j.finished():
                continue
            json, zipped = "-j" in opts, "-z" in opts
            suffix = ".json" if json else ".ufoz" if zipped else ".ufo"
            fonts, ds = outputs(r, place(r, how, suffix))
            want = {}
            for path in fonts:
                if json:
                    want[path] = [("json", None if zipped else 2)]
                else:
                    want[path] = [("ufo", "zip" if zipped else None)]
                    if not zipped and "-n" not in opts:
                        want[path].append(("normalize", None))
            if masters > 1:
                want[ds] = [("designspace", None)]
            j.files(want)
            # the fonts themselves
            args, facts = {}, {}
            for o in opts:
                a, f = BUILDER_ARGS.get(o, ({}, {}))
                args.update(a)
                facts.update(f)
            silent = "-s" in opts
            k = (masters, silent, tuple(sorted(args.items())))
            if k not in exported:
                e = ufo.Export(project, ufo.full, args, facts, masters, axes, silent=silent)
                exported[k] = [frozen(x) for x in e.trees()]
            jc = Judge(rep, content, r, case)
            for i, (path, font) in enumerate(zip(fonts, exported[k])):
                got = [x.what for x in r.log if x.path is path and x.kind != "normalize"]
                jc.must(
                    f"font {i}",
                    len(got) == 1 and frozen(r.s.tree(got[0])) == font,
                    f"font {i} differs from the result of the builder with {args}",
                )
            if "-v" in opts:
                level = [str(kw.get("level")) for _, _, kw in r.called("basicConfig")]
                good = len(level) == 1 and any(x in level[0] for x in DEBUG)
                jc.must("debug output", good, f"the logging level is {level}")


JSON_RUNS = [
    (),
    ("-d",),
    ("-r",),
    ("-d", "-r"),
    ("-m",),
    ("-u",),
    ("--header",),
    ("--header", "-d"),
    ("--header", "-r"),
    ("-p",),
    ("-p", "-d"),
    ("-p", "-r"),
    ("-m", "-r"),
    ("-m", "-d"),
    ("-m", "-p"),
    ("-u", "-r"),
    ("-u", "-d"),
    ("-m", "-u"),
    ("--header", "-m"),
    ("-m", "-r", "-d", "-u"),
]

# entries that are needed while the file is read
EARLY = ("F.FLVersion", "F.MasterCount", "T.TrueTypeStems")


def json_runs(project, rep):
    rule = "json-content"
    rep.rule(
        rule,
        "vfb2json writes every entry of the file once and in order, decompiled, or as "
        "binary data with -d, after a round trip with -r; only the header with --header",
    )
    for opts in JSON_RUNS:
        given = on(
            *[o for o in opts if o != "-p"], **({"-p": ["dir"]} if "-p" in opts else {})
        )
        r = attempt(rep, rule, project, JSON, given, ["in.vfb"], single, raw=True)
        if r is None:
            continue
        case = f"vfb2json {' '.join(opts) or 'plain'}"
        j = Judge(rep, rule, r, case)
        if not j.finished():
            continue
        path = place(r, "in a folder" if "-p" in opts else "beside", ".vfb.json")
        j.files({path: [("open", None), ("data", None)]})
        got = j.written(path)
        if not j.must(
            "one document",
            len(got) == 1 and got[0] in r.dumps,
            "the file contains something else than one JSON document",
        ):
            continue
        how, _, option, tree = r.dumps[got[0]]
        any_key(j, how, option)
        j.must(
            "header",
            leaf(sc.get(tree, "header")) is K("header"),
            "the header is not written",
        )
        entries_as(j, r, sc.get(tree, "entries"), "in.vfb", opts)


def leaf(n):
    return n.val if n is not None and n.kind == "leaf" else None


def entries_as(j, r, node, name, opts=()):
    """Whether the entries of a dumped document are those of the file."""
    s = r.s
    n = 0 if "--header" in opts else len(r.doc.entries)
    items = None
    if node is not None and node.kind == "list":
        items = []
        for x in node.val:
            if x[0] == "opt" and [] in x[2:]:
                when = t.show(x[1])[:120]
                j.must("entries", False, f"an entry is left out depending on {when}")
                return
            items.append(x[1] if x[0] == "one" else None)
    if items is None or None in items:
        j.rep.und(j.rule, j.r.where, f"{j.case}: the list of entries is not determined")
        return
    if not j.must("number of entries", len(items) == n, f"{len(items)} of {n} entries"):
        return
    for i, (e, item) in enumerate(zip(r.doc.entries, items)):
        src = s.st.heap[e.id]
        raw = r.data(name, i)
        parsed = sc.app("parsed", raw, ty="str")
        after = sc.app("compiled", parsed, ty="bytes")
        early = any(src.get("_id") is s.lit(r.doc.key(k)) for k in EARLY)
        if "-d" in opts:
            ok = [t.hex_(after if "-r" in opts else raw)]
            if early and "-r" not in opts:
                ok.append(parsed)
        elif "-r" in opts:
            ok = [sc.app("parsed", after, ty="str")]
        else:
            ok = [parsed]
        good = leaf(sc.get(item, "key")) is src.get("key")
        j.must(f"entry {i} key", good, f"entry {i} is written with another key")
        x = leaf(sc.get(item, "decompiled"))
        j.must(
            f"entry {i} data",
            x in ok,
            f"entry {i} should be {t.show(ok[0])}, but is {t.show(x) if x is not None else x}",
        )


DIR, OUT, ERR, FO = {"-p": ["dir"]}, {"outputpath": "out.vfb"}, {"-m": [0.5]}, {"-fo": True}
QU_RUNS = [
    *(
        (o, True)
        for o in ({}, ERR, DIR, OUT, FO, DIR | ERR, OUT | ERR, DIR | OUT, OUT | FO)
    ),
    *((o, False) for o in ({}, ERR, DIR, OUT, FO, OUT | FO)),
]


def qu_runs(project, rep):
    rule = "cu2qu"
    rep.rule(
        rule,
        "vfbcu2qu converts all masters with the given tolerance and writes the result to "
        "the given place, or nothing if nothing was modified",
    )
    ways = {}
    for masters in (1, 2):
        for opts, modified in QU_RUNS:
            given = {**IN, **opts}
            r = attempt(
                rep,
                rule,
                project,
                QU,
                given,
                ["in.vfb"],
                lambda s, m=masters: ufo.full(s, m, m - 1),
                modified=modified,
            )
            if r is None:
                continue
            case = f"vfbcu2qu {' '.join(opts) or 'plain'}{'' if modified else ', same,'}"
            case += f" of {masters}"
            j = Judge(rep, rule, r, case)
            if not j.finished():
                continue
            if not modified:
                j.files({})
            else:
                if "outputpath" in given:
                    path = r.spec("as_is", "out.vfb")
                elif "-p" in given:
                    r.path("dir")
                    path = r.spec("in_folder", "dir", "in.vfb", ".vfb")
                else:
                    path = r.spec("beside", "in.vfb", ".qu.vfb")
                j.files({path: [("open", None), ("data", None)]})
                j.must(
                    "data",
                    written_as(j.written(path), sc.app("vfb", ty="bytes")),
                    "the converted file is not written",
                )
            calls = [c for c in r.calls if c[0].endswith("to_quadratic")]
            if not j.must("converts once", len(calls) == 1, f"{len(calls)} conversions"):
                continue
            name, args, kw = calls[0]
            limit = kw.get("max_err_em", NONE)
            j.must(
                "tolerance",
                limit is (K(0.5) if "-m" in given else NONE),
                f"max_err_em is {limit}",
            )
            for k in ("reverse_direction", "all_quadratic"):
                ways.setdefault(k, {}).setdefault(kw.get(k, NONE), case)
                j.must(
                    f"{k}",
                    len(ways[k]) == 1,
                    f"{k} differs between {' and '.join(ways[k].values())}",
                )
            fonts = [args[0]]
            if name == "fonts_to_quadratic":
                fonts = r.s.items(args[0])
            where = []
            for f in fonts:
                o = r.s.st.heap[f.id]
                i = o.get("master_index")
                where.append(t.kv(i) if isinstance(i, T) and t.isk(i) else None)
            j.must(
                "masters",
                where == list(range(masters)),
                f"the converted masters are {where} of {masters}",
            )


def written_as(values, want):
    """Whether the values written to a file are `want`."""
    if len(values) != 1:
        return False
    x = values[0]
    if isinstance(x, I.TraceB):
        return [getattr(i, "expr", None) for i in x.items] == [want]
    return x is want


def diff_runs(project, rep):
    rule = "diff"
    rep.rule(
        rule,
        "vfbdiff compares the first with the second file, entry by entry, and prints the "
        "differences or writes them to the given HTML file",
    )
    for html in (False, True):
        given = {"file1": ["a.vfb"], "file2": ["b.vfb"]}
        if html:
            given["--html"] = "x.html"
        r = attempt(rep, rule, project, DIFF, given, ["a.vfb", "b.vfb"], single, raw=True)
        if r is None:
            continue
        case = "vfbdiff --html" if html else "vfbdiff"
        j = Judge(rep, rule, r, case)
        if not j.finished():
            continue
        if html:
            path = r.path("x.html")
            j.files({path: [("open", None), ("data", None)]})
            out = j.written(path)
        else:
            j.files({})
            out = [a[0] for _, a, _ in r.called("print") if a]
        text = [x for x in out if isinstance(x, T) and x.op == "app" and len(x.args) == 5]
        if not j.must("output", len(text) == len(out) == 1, "no differences are shown"):
            continue
        kind, a, b, na, nb = text[0].args
        j.must(
            "names", (na, nb) == (r.path("a.vfb"), r.path("b.vfb")), "names are mixed up"
        )
        ways = []
        for side, name in ((a, "a.vfb"), (b, "b.vfb")):
            dumped = [d for d in r.dumps if d in parts(side)]
            if not j.must(f"{name} input", len(dumped) == 1, f"does not show {name}"):
                continue
            how, _, option, tree = r.dumps[dumped[0]]
            ways.append((how, option))
            any_key(j, how, option)
            entries_as(j, r, sc.get(tree, "entries"), name)
        j.must("same way", len(set(ways)) < 2, "the files are shown in different ways")


def any_key(j, how, option):
    """Entries have numbers as keys of dictionaries, which orjson refuses by default."""
    if how == "orjson.dumps" and (
        option is None or isinstance(option, T) and t.isk(option)
    ):
        bits = t.kv(option) if option is not None else 0
        j.must("keys", bool((bits or 0) & 4), "data with numbers as keys are refused")


def parts(x, depth=0):
    yield x
    if isinstance(x, T) and depth < 8:
        for a in x.args:
            if isinstance(a, T):
                yield from parts(a, depth + 1)


def yuri_runs(project, rep):
    rule = "yuri"
    rep.rule(
        rule,
        "yuri encodes every given number, or decodes all values of the given data, signed "
        "with -s, in the long notation with -l",
    )
    for opts in ((), ("-s",), ("-e",), ("-e", "-s"), ("-e", "-l"), ("-e", "-l", "-s")):
        given = {"hexstring": ["x", "y"], **{o: True for o in opts}}
        r = attempt(rep, rule, project, YURI, given, [], tiny)
        if r is None:
            continue
        case = f"yuri {' '.join(opts) or 'plain'}"
        j = Judge(rep, rule, r, case)
        if not j.finished():
            continue
        signed = K("-s" in opts)
        calls = [c for c in r.calls if c[0] not in ("print", "exit")]
        if "-e" in opts:
            fn = "write_value_long" if "-l" in opts else "write_value"
            j.must("notation", {c[0] for c in calls} == {fn}, f"does not use {fn}")
            vals = [named(c, 0, "value") for c in calls]
            want = [mk_int(r.path(n)) for n in ("x", "y")]
            j.must("numbers", vals == want, "does not encode each given number once")
            sign = [named(c, 2, "signed", TRUE) for c in calls]
        else:
            j.must("decodes", {c[0] for c in calls} == {"read_value"}, "does not decode")
            sign = [named(c, 1, "signed", TRUE) for c in calls]
        j.must("sign", set(sign) == {signed}, f"signed is {set(sign)}")
        j.must("prints", len(r.called("print")) == 1, "does not print the result")


def named(call, i, name, default=None):
    _, args, kw = call
    return args[i] if len(args) > i else kw.get(name, default)


def mk_int(x):
    return t.mk("parseint", x, ty="int")


def tth_runs(project, rep):
    rule = "tth-files"
    rep.rule(
        rule,
        "vfb2tth writes the TrueType hints to one file, in the given format and place",
    )
    lib = {"json": "orjson.dumps", "toml": "tomli_w.dumps", "yaml": "yaml.dump"}
    base = None
    for form in (None, "json", "toml", "yaml"):
        for folder in (False, True):
            given = dict(IN)
            if form:
                given["-f"] = K(form)
            if folder:
                given["-p"] = ["dir"]
            r = attempt(rep, rule, project, TTH, given, ["in.vfb"], single)
            if r is None:
                continue
            f = form or "json"
            case = f"vfb2tth {f}{'' if form else ' by default'}{' in folder' if folder else ''}"
            j = Judge(rep, rule, r, case)
            if not j.finished():
                continue
            path = place(r, "in a folder" if folder else "beside", f".tth.{f}")
            j.files({path: [("open", None), ("data", None)]})
            vals = j.written(path)
            dumped = [d for d in r.dumps for v in vals if d in parts(v)]
            if not j.must("content", len(dumped) == 1, "no hints are written"):
                continue
            name, _, option, tree = r.dumps[dumped[0]]
            any_key(j, name, option)
            j.must("format", name == lib[f], f"written with {name}")
            x = frozen(tree)
            if base is None:
                base = x
            j.must("same data", x == base, "the content depends on the format")


def unicode_runs(project, rep):
    rule = "text-encoding"
    rep.rule(
        rule,
        "text is decoded as Unicode with -u and in files written on a Mac, else as "
        "Windows-1252",
    )
    for platform in ("windows", "macos"):
        for force in (False, True):
            r = attempt(
                rep,
                rule,
                project,
                JSON,
                on(*(["-u"] if force else [])),
                ["in.vfb"],
                lambda s, p=platform: text_doc(s, p),
                text=True,
            )
            if r is None:
                continue
            case = f"{platform}{' -u' if force else ''}"
            j = Judge(rep, rule, r, case)
            if not j.finished() or len(r.dumps) != 1:
                continue
            tree = next(iter(r.dumps.values()))[3]
            want = "utf-8" if force or platform == "macos" else "cp1252"
            for name in ("full_name", "copyright"):
                raw = r.s.leaf(name, "bytes")
                x = next(
                    (
                        leaf(sc.get(e[1], "decompiled"))
                        for e in sc.get(tree, "entries").val
                        if e[0] == "one" and leaf(sc.get(e[1], "key")) is K(name)
                    ),
                    None,
                )
                if x is None:
                    rep.und(rule, case, f"the entry {name} is not determined")
                    continue
                enc = encodings(x, raw)
                j.must(
                    f"text {name}",
                    enc == {want},
                    f"text should be decoded as {want}, but is as {', '.join(sorted(enc))}",
                )


def encodings(x, raw):
    out = set()
    for p in parts(x):
        if p.op == "decode":
            e = p.args[1]
            out.add(t.kv(e).lower() if t.isk(e) else "?")
    return out


def missing(project, rep):
    rule = "missing-input"
    rep.rule(rule, "if the input file does not exist, a tool fails and writes nothing")
    for tool in (UFO, JSON, QU, TTH, DIFF):
        name = tool.partition(":")[2]
        given = {"file1": ["a.vfb"], "file2": ["b.vfb"]} if tool == DIFF else IN
        for there in ([], ["a.vfb"]) if tool == DIFF else ([],):
            r = attempt(rep, rule, project, tool, given, there, single)
            if r is None:
                continue
            j = Judge(rep, rule, r, f"{name}{' second' if there else ''}")
            codes = [c[1][0] if c[1] else NONE for c in r.called("exit")]
            ok = r.raised is not None and not any(c in (K(0), NONE) for c in codes)
            j.must("fails", ok, "the run succeeds without its input file")
            j.files({})


OUTPUT = ("builtins.print", "sys.stdout.write", "sys.stdout.writelines", "pprint.pprint")
WORDS = ("silent", "quiet", "verbose", "timing")


def silent(project, rep):
    rule = "silent-mode"
    rep.rule(rule, "vfb3ufo -s prints nothing, and writes what it writes without -s")
    ix = flow.Index(project)
    seen = {}
    quiet = True
    hidden = cached(ix)
    for masters, axes in ((1, 0), (2, 1)):
        for opts in [o for o in UFO_RUNS if "-s" not in o and "outputpath" not in o]:
            runs = []
            for extra in ([], ["-s"]):
                more = {"-p": ["dir"]} if "-p" in opts else {}
                r = attempt(
                    rep,
                    rule,
                    project,
                    UFO,
                    on(*[o for o in opts if o != "-p"], *extra, **more),
                    ["in.vfb"],
                    lambda s, m=masters, a=axes: ufo.full(s, m, a),
                )
                if r is None:
                    break
                runs.append(r)
            if len(runs) < 2:
                continue
            case = f"vfb3ufo -s {' '.join(opts)} of {masters}"
            loud, r = runs
            j = Judge(rep, rule, r, case)
            j.must("runs", loud.raised == r.raised, f"the run ends in {r.raised}")
            sites = [n for n, _ in r.prints]
            for n in sites:
                quiet = False
                rep.viol(rule, f"{case}:prints", n, f"{case}: prints in silent mode")
            for n, _ in loud.prints:
                seen[id(n)] = n
            if not sites:
                rep.ok(rule, f"{case} prints nothing")
            a = [(x.kind, x.path, freeze(loud.s, x.what, {}, hidden)) for x in loud.log]
            b = [(x.kind, x.path, freeze(r.s, x.what, {}, hidden)) for x in r.log]
            j.must("same files", a == b, "writes something else than without -s")
    # output in places which none of these runs has reached
    if not quiet:
        return
    for f, n in reached(project, ix):
        name = ix.dotted(n, f) or ""
        if name not in OUTPUT or id(n) in seen or to_stderr(n):
            continue
        what = f"{f.qual}: output that is not part of the runs above"
        conds = guards(n, f)
        if any(w in c for c in conds for w in WORDS):
            rep.und(rule, n, what + " may depend on the mode")
        else:
            rep.viol(rule, f"{f}:prints", n, f"{f.qual}: prints in silent mode")


def cached(ix):
    """Names of attributes that only keep a computed value."""
    out = set()
    for f in ix.funs:
        for d in f.node.decorator_list:
            x = d.func if isinstance(d, ast.Call) else d
            if getattr(x, "id", getattr(x, "attr", "")) == "cached_property":
                out.add(f.node.name)
    return out


def reached(project, ix):
    """The calls in functions that vfb3ufo may reach.

    A call of a method on an unknown object may reach the methods of that name of the
    classes which a reached function creates objects of.
    """
    mod, _, name = UFO.partition(":")
    done, made, waiting = set(), set(), []
    todo = [ix.by_name[mod, name]]

    def may(m):
        k = ix.klass(m)
        return k is None or any(k in c.mro() for c in made)

    while todo:
        f = todo.pop()
        done.add(f)
        waiting.extend(f.local.values())
        hints = {
            id(x)
            for n in flow.own_nodes(f.node)
            if isinstance(n, ast.AnnAssign)
            for x in ast.walk(n.annotation)
        }
        for n in flow.own_nodes(f.node):
            if id(n) in hints:
                continue
            if isinstance(n, (ast.Name, ast.Attribute)) and isinstance(n.ctx, ast.Load):
                k = ix.klass_of(n, f.mod)
                if k is not None:
                    made.add(k)
            if isinstance(n, ast.Call):
                waiting.extend(discipline.targets(ix, n, f) or ())
            elif isinstance(n, ast.Attribute):
                # properties
                waiting.extend(
                    m for m in ix.methods.get(n.attr, ()) if m.node.decorator_list
                )
        if not todo:
            todo = list({m for m in waiting if m not in done and may(m)})
    for f in sorted(done, key=repr):
        for n in flow.own_nodes(f.node):
            if isinstance(n, ast.Call):
                yield f, n


def to_stderr(n):
    return any(k.arg == "file" and "stderr" in ast.unparse(k.value) for k in n.keywords)


def guards(n, f):
    up = discipline.parents(f.node)
    out = []
    x = n
    while x is not f.node and x is not None:
        p = up.get(id(x)) if isinstance(up, dict) else None
        if isinstance(p, (ast.If, ast.While, ast.IfExp)):
            out.append(ast.unparse(p.test))
        elif isinstance(p, ast.BoolOp):
            out.append(ast.unparse(p))
        if isinstance(p, ast.stmt) or p is f.node:
            for part in ("body", "orelse"):
                block = getattr(p, part, None)
                if isinstance(block, list) and x in block:
                    for s in block[: block.index(x)]:
                        if isinstance(s, ast.If):
                            out.append(ast.unparse(s.test))
        x = p
    return out


def options(project, rep):
    effects(project, rep)
    ufo_runs(project, rep)
    json_runs(project, rep)
    qu_runs(project, rep)
    diff_runs(project, rep)
    yuri_runs(project, rep)
    tth_runs(project, rep)
    unicode_runs(project, rep)
    missing(project, rep)
    silent(project, rep)
