"""C25: no hash order, clock, environment or kept state in the results.

`order` propagates the unordered kinds - sets, sequences in the order of a set, choices
among the elements of a set - through locals, parameters, results and attributes, and
reports where a sequence in set order leaves a function for data, files or libraries.
`ambient` lists the calls that depend on more than the input, and follows their values.
`state` lists the writes to objects that outlive a call.
"""

import ast

from .. import flow

SET, SEQ, CHOICE = "set", "sequence in set order", "element chosen by set order"
RANK = {None: 0, CHOICE: 1, SET: 2, SEQ: 3}

SET_METHODS = {"union", "intersection", "difference", "symmetric_difference", "copy"}
SET_EFFECTS = {
    "add",
    "discard",
    "remove",
    "update",
    "clear",
    "difference_update",
    "intersection_update",
    "symmetric_difference_update",
}
INSENSITIVE = {
    "len",
    "sorted",
    "set",
    "frozenset",
    "sum",
    "min",
    "max",
    "any",
    "all",
    "bool",
    "isinstance",
    "print",
    "type",
    "id",
    "hash",
    "repr",
}
SEQUENCES = {"list", "tuple", "reversed", "enumerate", "iter", "map", "filter", "zip"}
LOGS = {"debug", "info", "warning", "error", "critical", "exception", "log", "warn"}


def join(*kinds):
    return max(kinds, key=RANK.get, default=None)


def is_log(call, fn, ix):
    f = call.func
    if isinstance(f, ast.Name) and f.id == "print":
        return True
    if isinstance(f, ast.Attribute) and f.attr in LOGS:
        d = ix.dotted(call, fn) or ""
        if d.startswith("logging."):
            return True
        r = ix.static(f.value, fn.mod) if isinstance(f.value, ast.Name) else None
        if r is not None and r[0] == "expr":
            return "getLogger" in ast.unparse(r[2])
    return False


class Order:
    """Fixpoint over the kinds of parameters, results, attributes and globals."""

    def __init__(self, ix):
        self.ix = ix
        self.params, self.returns, self.attrs, self.globs = {}, {}, {}, {}
        self.hits, self.seen = {}, 0
        self.called = set()
        for m in ix.p.modules.values():
            for s in m.tree.body:
                if isinstance(s, (ast.Assign, ast.AnnAssign)) and s.value is not None:
                    self.module_value(m, s)
        for _ in range(8):
            before = (dict(self.params), dict(self.returns), dict(self.attrs))
            self.hits, self.seen = {}, 0
            for f in ix.funs:
                Walk(self, f).function()
            if before == (self.params, self.returns, self.attrs):
                break

    def module_value(self, m, s):
        v = s.value
        if isinstance(v, (ast.Set, ast.SetComp)) or (
            isinstance(v, ast.Call)
            and isinstance(v.func, ast.Name)
            and v.func.id in ("set", "frozenset")
        ):
            for t in s.targets if isinstance(s, ast.Assign) else [s.target]:
                if isinstance(t, ast.Name):
                    self.globs[m.name, t.id] = SET

    def add(self, table, key, kind):
        if kind is not None:
            table[key] = join(table.get(key), kind)

    def hit(self, node, kind, what, fn):
        self.hits.setdefault(id(node), (node, kind, what, fn))


def names_in(e):
    return {n.id for n in ast.walk(e) if isinstance(n, ast.Name)}


class Walk:
    def __init__(self, order, fn):
        self.o, self.ix, self.fn = order, order.ix, fn
        self.env = {}
        self.loop = []  # names bound by enclosing loops over unordered values
        a = fn.node.args
        self.names = [x.arg for x in a.posonlyargs + a.args + a.kwonlyargs]
        for x in a.posonlyargs + a.args + a.kwonlyargs:
            k = order.params.get((id(fn.node), x.arg))
            if k is None and x.annotation is not None and annotated(x.annotation):
                k = SET
            self.env[x.arg] = k

    def function(self):
        self.block(self.fn.node.body)

    # --------------------------------------------------------------- statements

    def block(self, body):
        for s in body:
            self.stmt(s)

    def both(self, *blocks):
        start, ends = dict(self.env), []
        for b in blocks:
            self.env = dict(start)
            self.block(b)
            ends.append(self.env)
        keys = {k for e in ends for k in e}
        self.env = {k: join(*(e.get(k) for e in ends)) for k in keys}

    def stmt(self, s):
        if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef, ast.ClassDef)):
            return
        if isinstance(s, ast.Assign):
            k = self.ev(s.value)
            for t in s.targets:
                self.bind(t, k, s.value)
        elif isinstance(s, ast.AnnAssign):
            k = self.ev(s.value) if s.value is not None else None
            if s.value is not None or k is not None:
                self.bind(s.target, k, s.value)
        elif isinstance(s, ast.AugAssign):
            k = self.ev(s.value)
            old = self.ev(s.target, load=True)
            if isinstance(s.target, ast.Name):
                new = join(old, k if k != SET or old is None else old)
                if isinstance(s.op, ast.Add) and self.from_loop(s.value):
                    # text and lists grow in the order of the loop, numbers do not
                    new = join(new, SEQ) if self.is_text(s.value) else new
                self.env[s.target.id] = new
            elif isinstance(s.op, ast.Add) and self.from_loop(s.value):
                if self.is_text(s.value):
                    self.o.hit(s, SEQ, "is collected in set order", self.fn)
        elif isinstance(s, ast.Expr):
            self.ev(s.value)
        elif isinstance(s, ast.Return):
            if s.value is not None:
                k = self.ev(s.value)
                if k is None and self.from_loop(s.value):
                    k = CHOICE
                self.o.add(self.o.returns, id(self.fn.node), k)
        elif isinstance(s, ast.If):
            self.ev(s.test)
            self.both(s.body, s.orelse)
        elif isinstance(s, (ast.For, ast.AsyncFor)):
            self.for_loop(s)
        elif isinstance(s, ast.While):
            self.ev(s.test)
            self.both(s.body, [])
            self.both(s.body, [])
            self.block(s.orelse)
        elif isinstance(s, (ast.With, ast.AsyncWith)):
            for i in s.items:
                self.ev(i.context_expr)
            self.block(s.body)
        elif isinstance(s, (ast.Try,)):
            self.both(s.body, [])
            for h in s.handlers:
                self.both(h.body, [])
            self.both(s.orelse, [])
            self.block(s.finalbody)
        elif isinstance(s, ast.Match):
            self.ev(s.subject)
            self.both(*[c.body for c in s.cases], [])
        elif isinstance(s, ast.Delete):
            pass
        else:
            for c in ast.iter_child_nodes(s):
                if isinstance(c, ast.expr):
                    self.ev(c)

    def for_loop(self, s):
        k = self.ev(s.iter)
        targets = {n.id for n in ast.walk(s.target) if isinstance(n, ast.Name)}
        for t in targets:
            self.env[t] = None
        if k in (SET, SEQ):
            self.o.seen += 1
            self.loop.append(targets)
        for _ in range(2):
            self.both(s.body, [])
        if k in (SET, SEQ):
            self.loop.pop()
            for t in targets:
                self.env[t] = CHOICE
            for n in ast.walk(s):
                if isinstance(n, ast.Assign):
                    for t in n.targets:
                        if isinstance(t, ast.Name) and names_in(n.value) & targets:
                            self.env[t.id] = join(self.env.get(t.id), CHOICE)
        self.block(s.orelse)

    def from_loop(self, e):
        return any(names_in(e) & names for names in self.loop)

    def is_text(self, e):
        return not isinstance(e, (ast.Constant, ast.Name)) and not (
            isinstance(e, ast.Call) and isinstance(e.func, ast.Name) and e.func.id == "len"
        )

    def bind(self, t, k, value):
        if isinstance(t, ast.Name):
            self.env[t.id] = k
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = (
                value.elts
                if isinstance(value, (ast.Tuple, ast.List))
                and len(value.elts) == len(t.elts)
                else [None] * len(t.elts)
            )
            for x, v in zip(t.elts, vals):
                self.bind(x, self.ev(v) if v is not None else k, v)
        elif isinstance(t, ast.Starred):
            self.bind(t.value, k, value)
        elif isinstance(t, ast.Attribute):
            if k == SET:
                self.o.add(self.o.attrs, t.attr, SET)
            elif k is not None:
                self.o.hit(t, k, f"is stored as .{t.attr}", self.fn)
        elif isinstance(t, ast.Subscript):
            self.ev(t.slice)
            root = t.value
            if isinstance(root, ast.Name) and root.id not in self.names:
                if k is not None:
                    self.env[root.id] = join(self.env.get(root.id), k)
                if self.from_loop(t.slice) and self.env.get(root.id) is None:
                    self.env[root.id] = SEQ  # a dict in set order
            else:
                if k is not None and k != SET:
                    self.o.hit(t, k, f"is stored in {ast.unparse(root)}", self.fn)
                elif self.from_loop(t.slice):
                    # values of existing keys may well be changed in any order
                    self.o.hit(t, CHOICE, f"orders {ast.unparse(root)}", self.fn)

    # -------------------------------------------------------------- expressions

    def ev(self, e, load=False):
        k = self.kind(e)
        if k is not None:
            self.o.seen += 1
        return k

    def kind(self, e):
        if e is None or isinstance(e, ast.Constant):
            return None
        if isinstance(e, ast.Name):
            if e.id in self.env:
                return self.env[e.id]
            g = self.fn.parent
            if self.ix.is_local(e.id, self.fn):
                return None
            r = self.ix.static(e, self.fn.mod)
            if r is not None and r[0] == "expr":
                for (m, n), k in self.o.globs.items():
                    if n == e.id and m == r[1].name:
                        return k
            return None if g is None else None
        if isinstance(e, (ast.Set, ast.SetComp)):
            for c in ast.iter_child_nodes(e):
                if isinstance(c, ast.expr):
                    self.kind(c)
            return SET
        if isinstance(e, (ast.ListComp, ast.GeneratorExp, ast.DictComp)):
            ks = [self.kind(g.iter) for g in e.generators]
            return SEQ if any(k in (SET, SEQ) for k in ks) else None
        if isinstance(e, ast.BinOp):
            a, b = self.kind(e.left), self.kind(e.right)
            if isinstance(e.op, (ast.Sub, ast.BitOr, ast.BitAnd, ast.BitXor)):
                if SET in (a, b) or is_keys(e.left) or is_keys(e.right):
                    return SET
            return SEQ if SEQ in (a, b) else join(a, b) if CHOICE in (a, b) else None
        if isinstance(e, (ast.BoolOp,)):
            return join(*(self.kind(v) for v in e.values))
        if isinstance(e, ast.IfExp):
            self.kind(e.test)
            return join(self.kind(e.body), self.kind(e.orelse))
        if isinstance(e, ast.NamedExpr):
            k = self.kind(e.value)
            self.env[e.target.id] = k
            return k
        if isinstance(e, ast.Compare):
            for x in (e.left, *e.comparators):
                self.kind(x)
            return None
        if isinstance(e, ast.UnaryOp):
            k = self.kind(e.operand)
            return None if isinstance(e.op, ast.Not) else k
        if isinstance(e, ast.Attribute):
            self.kind(e.value)
            return SET if self.o.attrs.get(e.attr) == SET else None
        if isinstance(e, ast.Subscript):
            k = self.kind(e.value)
            if k == SEQ:
                return SEQ if isinstance(e.slice, ast.Slice) else CHOICE
            return None
        if isinstance(e, (ast.JoinedStr, ast.FormattedValue)):
            parts = e.values if isinstance(e, ast.JoinedStr) else [e.value]
            ks = [self.kind(p) for p in parts]
            return SEQ if SEQ in ks or SET in ks else None
        if isinstance(e, (ast.Tuple, ast.List)):
            ks = [self.kind(x) for x in e.elts]
            for x, k in zip(e.elts, ks):
                if isinstance(x, ast.Starred) and k == SET:
                    return SEQ
            return SEQ if SEQ in ks else None
        if isinstance(e, ast.Starred):
            return self.kind(e.value)
        if isinstance(e, ast.Dict):
            ks = [self.kind(v) for v in e.values]
            return SEQ if SEQ in ks else None
        if isinstance(e, (ast.Yield, ast.YieldFrom)):
            if e.value is not None:
                k = self.kind(e.value)
                if k == SEQ or isinstance(e, ast.YieldFrom) and k == SET:
                    self.o.hit(e, SEQ, "is yielded", self.fn)
                elif isinstance(e, ast.Yield) and self.from_loop(e.value):
                    self.o.hit(e, SEQ, "is yielded in set order", self.fn)
            return None
        if isinstance(e, ast.Call):
            return self.call(e)
        for c in ast.iter_child_nodes(e):
            if isinstance(c, ast.expr):
                self.kind(c)
        return None

    def call(self, e):
        f = e.func
        args = [(a, self.kind(a)) for a in e.args] + [
            (k.value, self.kind(k.value)) for k in e.keywords
        ]
        top = join(*(k for _, k in args))
        if is_log(e, self.fn, self.ix):
            return None
        if isinstance(f, ast.Name) and not self.ix.is_local(f.id, self.fn):
            n = f.id
            if n in ("set", "frozenset"):
                return SET
            if n in INSENSITIVE:
                return None
            if n in SEQUENCES:
                return SEQ if top in (SET, SEQ) else top
            if n == "next":
                return CHOICE if top in (SET, SEQ) else None
            if n in ("str", "format", "dict"):
                return SEQ if top in (SET, SEQ) else top
        if isinstance(f, ast.Attribute):
            own = self.kind(f.value)
            if own == SET:
                if f.attr in SET_METHODS:
                    return SET
                if f.attr == "pop":
                    return CHOICE
                if f.attr in SET_EFFECTS or f.attr.startswith("is"):
                    return None
            if f.attr in ("append", "extend", "insert", "appendleft"):
                from_loop = any(self.from_loop(a) for a, _ in args)
                grown = (
                    SEQ
                    if from_loop or top == SEQ or (top == SET and f.attr == "extend")
                    else CHOICE
                    if top == CHOICE
                    else None
                )
                if grown is not None:
                    if isinstance(f.value, ast.Name) and f.value.id not in self.names:
                        self.env[f.value.id] = join(self.env.get(f.value.id), grown)
                    else:
                        self.o.hit(e, grown, f"goes into {ast.unparse(f.value)}", self.fn)
                return None
            if f.attr == "sort" and isinstance(f.value, ast.Name):
                self.env[f.value.id] = None
                return None
            if f.attr == "join":
                return SEQ if top in (SET, SEQ) else None
            if f.attr == "fromkeys":
                return SEQ if top in (SET, SEQ) else None
            if f.attr in ("index", "count", "get", "startswith", "endswith"):
                return None
            if f.attr in ("difference", "update", "issubset", "isdisjoint", "union"):
                # of another set, or of a dict, whose order then is that of the argument
                if top == SET and f.attr != "update":
                    return SET
            if own == SEQ and f.attr in ("copy", "items", "keys", "values", "encode"):
                return SEQ
        targets = self.ix.targets(e, self.fn)
        if targets:
            k = None
            for g in targets:
                self.o.called.add(id(g.node))
                self.pass_args(e, g)
                k = join(k, self.o.returns.get(id(g.node)))
            return k
        if top == SEQ:
            self.o.hit(e, SEQ, f"is given to {ast.unparse(f)}", self.fn)
        elif top in (SET, CHOICE):
            self.o.hit(e, CHOICE, f"is given to {ast.unparse(f)}", self.fn)
        return None

    def pass_args(self, e, g):
        a = g.node.args
        names = [x.arg for x in a.posonlyargs + a.args]
        if g.cls is not None and "staticmethod" not in {
            getattr(d, "id", None) for d in g.node.decorator_list
        }:
            names = names[1:]
        for n, x in zip(names, e.args):
            self.o.add(self.o.params, (id(g.node), n), self.kind(x))
        for k in e.keywords:
            if k.arg:
                self.o.add(self.o.params, (id(g.node), k.arg), self.kind(k.value))


def annotated(a):
    if isinstance(a, ast.Constant) and isinstance(a.value, str):
        try:
            a = ast.parse(a.value, mode="eval").body
        except SyntaxError:
            return False
    if isinstance(a, ast.BinOp):
        return annotated(a.left) or annotated(a.right)
    if isinstance(a, ast.Subscript):
        a = a.value
    return isinstance(a, ast.Name) and a.id in ("set", "frozenset", "Set")


def is_keys(e):
    return (
        isinstance(e, ast.Call)
        and isinstance(e.func, ast.Attribute)
        and e.func.attr in ("keys", "items")
    )


def order(project, rep, ix):
    rule = "set-order"
    rep.rule(
        rule, "no sequence in the order of a set gets into data, files or library calls"
    )
    o = Order(ix)
    hits = list(o.hits.values())
    public = [
        (f.node, k, "is returned", f)
        for f in ix.funs
        if (k := o.returns.get(id(f.node))) in (SEQ, CHOICE) and id(f.node) not in o.called
    ]
    for node, kind, what, fn in hits + public:
        key = f"{fn.qual}:{what}"
        if kind == SEQ:
            rep.viol(rule, key, node, f"{fn.qual}: a {SEQ} {what}")
        else:
            rep.und(rule, key, f"a value that may depend on set order {what}")
    for f in ix.funs:
        if not any(h[3] is f for h in hits):
            rep.ok(rule, f"{f.mod.name}:{f.qual}")
    rep.notes.append(f"{o.seen} unordered expressions followed")


# ------------------------------------------------------------------------- ambient

CLOCK = "the clock or the time zone"
AMBIENT = {
    "time.": CLOCK,
    "datetime.datetime.now": CLOCK,
    "datetime.datetime.today": CLOCK,
    "datetime.datetime.utcnow": CLOCK,
    "datetime.date.today": CLOCK,
    "random.": "chance",
    "secrets.": "chance",
    "uuid.": "chance",
    "os.urandom": "chance",
    "numpy.random": "chance",
    "os.environ": "the environment",
    "os.getenv": "the environment",
    "os.getpid": "the process",
    "os.getcwd": "the working directory",
    "pathlib.Path.cwd": "the working directory",
    "pathlib.Path.home": "the user",
    "os.path.expanduser": "the user",
    "os.getlogin": "the user",
    "getpass.": "the user",
    "platform.": "the platform",
    "socket.": "the machine",
    "locale.": "the locale",
    "tempfile.": "a temporary name",
    "builtins.id": "memory addresses",
    "builtins.hash": "the hash seed",
    "os.listdir": "the order of a directory",
    "os.scandir": "the order of a directory",
    "os.walk": "the order of a directory",
    "glob.": "the order of a directory",
    "sys.getrefcount": "memory",
    "threading.": "the scheduling of threads",
    "concurrent.futures.": "the scheduling of threads",
    "multiprocessing.": "the scheduling of processes",
}
DIRS = ("iterdir", "glob", "rglob", "walk")
PASSING = {"round", "int", "float", "str", "abs", "format", "max", "min"}


def ambient_calls(ix, f):
    for n in flow.own_nodes(f.node):
        if isinstance(n, ast.Call):
            d = ix.dotted(n, f) or ""
            why = next(
                (
                    w
                    for p, w in AMBIENT.items()
                    if d == p or p[-1] == "." and d.startswith(p)
                ),
                None,
            )
            if d.startswith("os.environ"):
                why = AMBIENT["os.environ"]
            if why is None and isinstance(n.func, ast.Attribute) and n.func.attr in DIRS:
                if not ix.targets(n, f):
                    why = AMBIENT["os.listdir"]
            if why is None and d.endswith("fromtimestamp"):
                if len(n.args) < 2 and not any(k.arg == "tz" for k in n.keywords):
                    why = CLOCK
            if why:
                yield n, d or n.func.attr, why
        elif isinstance(n, ast.Subscript):
            if ast.unparse(n.value) == "os.environ":
                yield n, "os.environ", AMBIENT["os.environ"]


class Follow:
    """Does a value only end in log messages?"""

    def __init__(self, ix):
        self.ix = ix
        self.par = {}
        for m in ix.p.modules.values():
            for n in ast.walk(m.tree):
                for c in ast.iter_child_nodes(n):
                    self.par[id(c)] = n

    def ends(self, n, f, seen=()):
        """The nodes where the value of `n` is used for anything but logging."""
        p = self.par.get(id(n))
        if p is None or isinstance(p, ast.Expr):
            return []
        if isinstance(
            p,
            (
                ast.BinOp,
                ast.UnaryOp,
                ast.JoinedStr,
                ast.FormattedValue,
                ast.Tuple,
                ast.IfExp,
            ),
        ):
            return self.ends(p, f, seen)
        if isinstance(p, ast.keyword):
            return self.ends(p, f, seen)
        if isinstance(p, ast.Call):
            if p.func is n:
                return self.ends(p, f, seen)
            if is_log(p, f, self.ix):
                return []
            if isinstance(p.func, ast.Name) and p.func.id in ("sorted", "len", "set"):
                return [] if self.listing else self.ends(p, f, seen)
            if isinstance(p.func, ast.Name) and p.func.id in PASSING:
                return self.ends(p, f, seen)
            return [p]
        if isinstance(p, ast.Attribute) and p.value is n:
            return self.ends(p, f, seen)
        if isinstance(p, (ast.Assign, ast.AnnAssign, ast.NamedExpr)):
            ts = p.targets if isinstance(p, ast.Assign) else [p.target]
            out = []
            for t in ts:
                if isinstance(t, ast.Name):
                    if (t.id, id(f.node)) in seen:
                        continue
                    for x in ast.walk(f.node):
                        if isinstance(x, ast.Name) and x.id == t.id:
                            if isinstance(x.ctx, ast.Load):
                                out += self.ends(x, f, (*seen, (t.id, id(f.node))))
                elif isinstance(t, ast.Attribute):
                    if t.attr in seen:
                        continue
                    for g in self.ix.funs:
                        for x in flow.own_nodes(g.node):
                            if isinstance(x, ast.Attribute) and x.attr == t.attr:
                                if isinstance(x.ctx, ast.Load):
                                    out += self.ends(x, g, (*seen, t.attr))
                else:
                    out.append(t)
            return out
        return [p]


def text_open(n, f, ix):
    """Is this a text file opened without an encoding?"""
    d = ix.dotted(n, f) or ""
    attr = n.func.attr if isinstance(n.func, ast.Attribute) else None
    kw = {k.arg: k.value for k in n.keywords}
    if d in ("builtins.open", "io.open"):
        mode = n.args[1] if len(n.args) > 1 else kw.get("mode")
        enc = n.args[3] if len(n.args) > 3 else kw.get("encoding")
    elif attr == "open" and not ix.targets(n, f) and not d:
        mode = n.args[0] if n.args else kw.get("mode")
        enc = n.args[2] if len(n.args) > 2 else kw.get("encoding")
    elif attr in ("read_text", "write_text") and not ix.targets(n, f):
        at = 0 if attr == "read_text" else 1
        enc = n.args[at] if len(n.args) > at else kw.get("encoding")
        return enc is None
    else:
        return None
    if mode is None:
        return enc is None
    if isinstance(mode, ast.Constant) and isinstance(mode.value, str):
        return "b" not in mode.value and enc is None
    return None


def ambient(project, rep, ix):
    rule, files = "ambient", "text-files"
    rep.rule(
        rule,
        "clock, chance, environment, memory addresses and directory order only show in "
        "log messages",
    )
    rep.rule(files, "text files are opened with a given encoding, not that of the system")
    fo = Follow(ix)
    for f in ix.funs:
        hit = False
        for n, d, why in ambient_calls(ix, f):
            hit = True
            fo.listing = why == AMBIENT["os.listdir"]
            ends = fo.ends(n, f)
            key = f"{f.qual}:{d}"
            if not ends:
                rep.ok(rule, key)
                continue
            x = ends[0]
            where = x if hasattr(x, "lineno") else n
            if isinstance(x, (ast.If, ast.While, ast.Compare, ast.Assert)):
                rep.und(rule, key, f"a decision depends on {why}")
            else:
                rep.viol(
                    rule,
                    key,
                    where,
                    f"{f.qual}: a value that depends on {why} ({d}) is used for more "
                    "than log messages",
                )
        if not hit:
            rep.ok(rule, f"{f.mod.name}:{f.qual}")
        for n in flow.own_nodes(f.node):
            if isinstance(n, ast.Call):
                t = text_open(n, f, ix)
                key = f"{f.qual}:{ast.unparse(n.func)}"
                if t:
                    rep.viol(
                        files,
                        key,
                        n,
                        f"{f.qual}: a text file is opened with the encoding of the system",
                    )
                elif t is False:
                    rep.ok(files, key)


# --------------------------------------------------------------------------- state

MUTATE = {
    "append",
    "extend",
    "insert",
    "remove",
    "pop",
    "clear",
    "sort",
    "reverse",
    "update",
    "setdefault",
    "popitem",
    "add",
    "discard",
    "difference_update",
    "intersection_update",
    "symmetric_difference_update",
    "appendleft",
    "popleft",
}
MAKERS = {"list", "dict", "set", "defaultdict", "OrderedDict", "deque", "Counter"}
CACHES = ("lru_cache", "cache")


def mutable(e):
    if isinstance(
        e, (ast.List, ast.Dict, ast.Set, ast.ListComp, ast.DictComp, ast.SetComp)
    ):
        return True
    return (
        isinstance(e, ast.Call)
        and (getattr(e.func, "id", None) or getattr(e.func, "attr", None)) in MAKERS
    )


def root_of(e):
    """The base of a chain of subscripts, and whether there are any."""
    deep = False
    while isinstance(e, ast.Subscript):
        e, deep = e.value, True
    return e, deep


def mutations(f):
    """(object expression, node) of every in-place change in a function."""
    for n in flow.own_nodes(f.node):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute):
            if n.func.attr in MUTATE:
                yield n.func.value, n
        elif isinstance(n, (ast.Assign, ast.AnnAssign, ast.AugAssign, ast.Delete)):
            ts = n.targets if isinstance(n, (ast.Assign, ast.Delete)) else [n.target]
            for t in ts:
                for x in ast.walk(t):
                    if isinstance(x, ast.Subscript) and not isinstance(x.ctx, ast.Load):
                        yield x.value, n
            if isinstance(n, ast.AugAssign) and isinstance(
                n.target, (ast.Name, ast.Attribute)
            ):
                if mutable(n.value):
                    yield n.target, n


class State:
    def __init__(self, ix):
        self.ix = ix
        self.own = {}  # attribute -> classes that set it on instances
        for f in ix.funs:
            c = ix.klass(f)
            if c is None:
                continue
            me = ix.self_name(f)
            for n in flow.own_nodes(f.node):
                if (
                    isinstance(n, ast.Attribute)
                    and isinstance(n.ctx, ast.Store)
                    and isinstance(n.value, ast.Name)
                    and n.value.id == me
                    and "classmethod" not in decorators(f)
                ):
                    self.own.setdefault(n.attr, set()).add(c)

    def shared(self, e, f, depth=0):
        """Why the object `e` outlives the call of `f`, or None."""
        ix = self.ix
        e, _ = root_of(e)
        if isinstance(e, ast.Name):
            if ix.is_local(e.id, f):
                d = default_of(e.id, f)
                if d is not None and mutable(d) and not rebound(e.id, f):
                    return f"the default of the parameter {e.id}"
                if depth < 4:
                    return self.alias(e.id, f, depth)
                return None
            r = ix.static(e, f.mod)
            if r is not None and r[0] in ("expr", "item"):
                return f"the module level object {e.id}"
            return None
        if isinstance(e, ast.Attribute):
            r = None if ix._shadowed(e.value, f) else ix.static(e, f.mod)
            if r is not None and r[0] == "expr":
                return f"the module level object {ast.unparse(e)}"
            k = None if ix._shadowed(e.value, f) else ix.klass_of(e.value, f.mod)
            if k is None and isinstance(e.value, ast.Name):
                c = ix.klass(f)
                if c is not None and e.value.id == ix.self_name(f):
                    k = c
                    if "classmethod" not in decorators(f) and any(
                        x in k.mro() or k in x.mro() for x in self.own.get(e.attr, ())
                    ):
                        return None  # an attribute of the instance
            if k is not None:
                for c in k.mro():
                    v = class_value(c, e.attr)
                    if v is not None:
                        return (
                            f"the class attribute {c.name}.{e.attr}" if mutable(v) else None
                        )
        if isinstance(e, ast.Call) and isinstance(e.func, ast.Attribute):
            # an element of a shared container
            if e.func.attr in ("get", "setdefault", "values", "items") and depth < 4:
                return self.shared(e.func.value, f, depth + 1)
        return None

    def alias(self, name, f, depth):
        """A local that only ever is (part of) a shared object."""
        out = None
        for n in flow.own_nodes(f.node):
            if isinstance(n, ast.Assign):
                if any(isinstance(t, ast.Name) and t.id == name for t in n.targets):
                    if not isinstance(
                        n.value, (ast.Name, ast.Attribute, ast.Subscript, ast.Call)
                    ):
                        return None
                    w = self.shared(n.value, f, depth + 1)
                    if w is None:
                        return None
                    out = w
                elif any(
                    isinstance(x, ast.Name) and x.id == name
                    for t in n.targets
                    for x in ast.walk(t)
                    if isinstance(getattr(x, "ctx", None), ast.Store)
                ):
                    return None
            elif isinstance(n, (ast.For, ast.comprehension)):
                if any(
                    isinstance(x, ast.Name) and x.id == name for x in ast.walk(n.target)
                ):
                    w = self.shared(n.iter, f, depth + 1)
                    if w is None:
                        return None
                    out = w
            elif isinstance(n, (ast.NamedExpr, ast.AnnAssign, ast.AugAssign)):
                if isinstance(n.target, ast.Name) and n.target.id == name:
                    w = (
                        self.shared(n.value, f, depth + 1)
                        if n.value is not None and not isinstance(n, ast.AugAssign)
                        else None
                    )
                    if w is None:
                        return None
                    out = w
        a = f.node.args
        if any(x.arg == name for x in a.posonlyargs + a.args + a.kwonlyargs):
            return None
        return out


def decorators(f):
    return {
        getattr(d, "attr", None) or getattr(d, "id", None)
        for x in f.node.decorator_list
        for d in [x.func if isinstance(x, ast.Call) else x]
    }


def default_of(name, f):
    a = f.node.args
    pos = a.posonlyargs + a.args
    for x, d in zip(pos[len(pos) - len(a.defaults) :], a.defaults):
        if x.arg == name:
            return d
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg == name:
            return d
    return None


def rebound(name, f):
    return any(
        isinstance(n, ast.Name) and n.id == name and isinstance(n.ctx, ast.Store)
        for n in flow.own_nodes(f.node)
    )


def class_value(c, attr):
    for s in c.node.body:
        if isinstance(s, ast.Assign):
            if any(isinstance(t, ast.Name) and t.id == attr for t in s.targets):
                return s.value
        elif isinstance(s, ast.AnnAssign) and s.value is not None:
            if isinstance(s.target, ast.Name) and s.target.id == attr:
                return s.value
    return None


def state(project, rep, ix):
    rule = "kept-state"
    rep.rule(
        rule,
        "no function changes module or class level objects, parameter defaults, or global "
        "names",
    )
    st = State(ix)
    for f in ix.funs:
        bad = []
        for e, n in mutations(f):
            why = st.shared(e, f)
            if why:
                bad.append((n, f"changes {why}"))
        glob = {
            x for n in flow.own_nodes(f.node) if isinstance(n, ast.Global) for x in n.names
        }
        for n in flow.own_nodes(f.node):
            if isinstance(n, ast.Name) and n.id in glob and not isinstance(n.ctx, ast.Load):
                bad.append((n, f"changes the global {n.id}"))
            if isinstance(n, ast.Attribute) and isinstance(n.ctx, ast.Store):
                v = n.value
                if not ix._shadowed(v, f):
                    if ix.klass_of(v, f.mod) is not None:
                        bad.append((n, f"sets the class attribute {ast.unparse(n)}"))
                    r = ix.static(v, f.mod)
                    if r is not None and r[0] == "mod":
                        bad.append((n, f"sets {ast.unparse(n)}"))
                if "classmethod" in decorators(f) and isinstance(v, ast.Name):
                    if v.id == ix.self_name(f):
                        bad.append((n, f"sets the class attribute {ast.unparse(n)}"))
                if ast.unparse(v) in ("self.__class__", "type(self)"):
                    bad.append((n, f"sets the class attribute {ast.unparse(n)}"))
        for n, what in bad:
            memo = is_memo(n, f)
            if memo:
                rep.und(
                    rule, f"{f.qual}:{what}", "looks like a cache; see the history rules"
                )
            else:
                rep.viol(rule, f"{f.qual}:{what}", n, f"{f.qual} {what}")
        if not bad:
            rep.ok(rule, f"{f.mod.name}:{f.qual}")


def is_memo(n, f):
    """A store under a key whose presence is tested before: a cache."""
    if not isinstance(n, ast.Assign) or not isinstance(n.targets[0], ast.Subscript):
        return False
    t = n.targets[0]
    for x in flow.own_nodes(f.node):
        if isinstance(x, ast.Compare) and isinstance(x.ops[0], (ast.In, ast.NotIn)):
            if ast.dump(x.left) == ast.dump(t.slice) and ast.unparse(
                x.comparators[0]
            ) == ast.unparse(t.value):
                return True
        if isinstance(x, ast.Call) and isinstance(x.func, ast.Attribute):
            if x.func.attr == "get" and ast.unparse(x.func.value) == ast.unparse(t.value):
                return True
    return False


def purity(project, rep):
    ix = flow.Index(project)
    order(project, rep, ix)
    ambient(project, rep, ix)
    state(project, rep, ix)
