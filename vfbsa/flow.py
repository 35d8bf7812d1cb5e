"""Functions, classes and call targets of the analysed package; paths of a body.

Call targets are resolved by scope, by the class hierarchy for `self.m()` and
`super().m()`, and by method name over all classes otherwise (an over-approximation:
every class of the package that defines the method is a candidate).
"""

import ast

FUNCS = (ast.FunctionDef, ast.AsyncFunctionDef)


class Fun:
    def __init__(self, mod, qual, node, cls, parent):
        self.mod, self.qual, self.node, self.cls, self.parent = (
            mod, qual, node, cls, parent,
        )
        self.local = {}  # nested functions

    def __repr__(self):
        return f"{self.mod.name}:{self.qual}"


class Klass:
    def __init__(self, mod, node):
        self.mod, self.node, self.name = mod, node, node.name
        self.bases, self.methods, self.subs = [], {}, []

    def __repr__(self):
        return f"{self.mod.name}:{self.name}"

    def mro(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop(0)
            if c in out:
                continue
            out.append(c)
            todo = c.bases + todo
        return out

    def find(self, name):
        for c in self.mro():
            if name in c.methods:
                return c.methods[name]
        return None

    def below(self):
        out, todo = [], [self]
        while todo:
            c = todo.pop()
            if c not in out:
                out.append(c)
                todo.extend(c.subs)
        return out


class Index:
    def __init__(self, project):
        self.p = project
        self.funs, self.classes = [], {}
        self.by_node, self.owner = {}, {}
        self.by_name, self.methods = {}, {}
        for m in project.modules.values():
            self._scan(m, m.tree.body, "", None, None)
        for c in self.classes.values():
            for b in c.node.bases:
                k = self.klass_of(b, c.mod)
                if k is not None:
                    c.bases.append(k)
                    k.subs.append(c)
        for f in self.funs:
            for n in own_nodes(f.node):
                self.owner[id(n)] = f

    def _scan(self, m, body, pre, cls, parent):
        for n in body:
            if isinstance(n, FUNCS):
                f = Fun(m, pre + n.name, n, cls, parent)
                self.funs.append(f)
                self.by_node[id(n)] = f
                self.by_name[(m.name, f.qual)] = f
                if parent is not None:
                    parent.local[n.name] = f
                elif cls is not None:
                    # property setters share the getter's name
                    key = n.name
                    if any(
                        isinstance(d, ast.Attribute) and d.attr == "setter"
                        for d in n.decorator_list
                    ):
                        key = n.name + ".setter"
                    cls.methods[key] = f
                    self.methods.setdefault(n.name, []).append(f)
                self._scan(m, n.body, f"{pre}{n.name}.", None, f)
            elif isinstance(n, ast.ClassDef):
                k = Klass(m, n)
                self.classes[(m.name, n.name)] = k
                self._scan(m, n.body, f"{pre}{n.name}.", k, parent)
            else:
                for part in ("body", "orelse", "finalbody"):
                    b = getattr(n, part, None)
                    if isinstance(b, list):
                        self._scan(m, b, pre, cls, parent)
                for h in getattr(n, "handlers", []):
                    self._scan(m, h.body, pre, cls, parent)
                for c in getattr(n, "cases", []):
                    self._scan(m, c.body, pre, cls, parent)

    # ------------------------------------------------------------ resolution
    def klass_of(self, expr, mod):
        r = self.static(expr, mod)
        if r and r[0] == "def" and isinstance(r[2], ast.ClassDef):
            return self.classes.get((r[1].name, r[2].name))
        return None

    def static(self, expr, mod):
        """Module-level meaning of a dotted name."""
        if isinstance(expr, ast.Name):
            return self.p.resolve(mod.name, expr.id)
        if isinstance(expr, ast.Attribute):
            r = self.static(expr.value, mod)
            if r is None:
                return None
            if r[0] == "mod":
                if r[1] in self.p.modules:
                    return self.p.resolve(r[1], expr.attr)
                return ("ext", f"{r[1]}.{expr.attr}")
            if r[0] == "ext":
                return ("ext", f"{r[1]}.{expr.attr}")
            return None
        return None

    def dotted(self, call, fn):
        """'json.dumps' for calls of things outside the package, else None."""
        f = call.func
        root = f
        while isinstance(root, ast.Attribute):
            root = root.value
        if isinstance(root, ast.Name):
            r = self.local_import(root.id, fn)
            if r is not None:
                rest = []
                x = f
                while isinstance(x, ast.Attribute):
                    rest.append(x.attr)
                    x = x.value
                return ".".join([r] + rest[::-1])
            if self.is_local(root.id, fn):
                return None
        r = self.static(f, fn.mod)
        if r is not None and r[0] == "ext":
            return r[1]
        if r is None and isinstance(f, ast.Name):
            return "builtins." + f.id
        return None

    def local_import(self, name, fn):
        while fn is not None:
            for n in own_nodes(fn.node):
                if isinstance(n, ast.Import):
                    for a in n.names:
                        if (a.asname or a.name.split(".")[0]) == name:
                            return a.name if a.asname else a.name.split(".")[0]
                elif isinstance(n, ast.ImportFrom) and not n.level:
                    for a in n.names:
                        if (a.asname or a.name) == name:
                            return f"{n.module}.{a.name}"
            fn = fn.parent
        return None

    def is_local(self, name, fn):
        while fn is not None:
            if name in local_names(fn.node):
                return True
            fn = fn.parent
        return False

    def targets(self, call, fn):
        """Functions of the package the call may reach; None: unknown/outside."""
        f = call.func
        if isinstance(f, ast.Name):
            g = fn
            while g is not None:
                if f.id in g.local:
                    return [g.local[f.id]]
                g = g.parent
            if self.is_local(f.id, fn):
                imp = self.local_import(f.id, fn)
                if imp is None:
                    return None
                m, _, n = imp.rpartition(".")
                r = self.p.resolve(m, n) if m in self.p.modules else None
            else:
                r = self.p.resolve(fn.mod.name, f.id)
            return self._as_funs(r)
        if not isinstance(f, ast.Attribute):
            return None
        v = f.value
        if isinstance(v, ast.Call) and isinstance(v.func, ast.Name) and v.func.id == "super":
            c = self.klass(fn)
            if c is not None:
                for b in c.mro()[1:]:
                    if f.attr in b.methods:
                        return [b.methods[f.attr]]
            return []
        c = self.klass(fn)
        if c is not None and isinstance(v, ast.Name) and v.id == self.self_name(fn):
            out = []
            for k in [c] + c.below():
                m = k.find(f.attr)
                if m is not None and m not in out:
                    out.append(m)
            return out or None
        r = self.static(f, fn.mod) if not self._shadowed(v, fn) else None
        if r is not None:
            if r[0] == "ext":
                return []
            return self._as_funs(r)
        k = self.klass_of(v, fn.mod) if not self._shadowed(v, fn) else None
        if k is not None:
            m = k.find(f.attr)
            return [m] if m else None
        ks = self.local_classes(v, fn)
        if ks:
            out = []
            for k in ks:
                m = k.find(f.attr)
                if m is not None and m not in out:
                    out.append(m)
            return out or None
        ms = self.methods.get(f.attr)
        return list(ms) if ms else None

    def local_classes(self, v, fn):
        """Classes of a local variable that only ever holds fresh objects (or None)."""
        if not isinstance(v, ast.Name) or v.id not in local_names(fn.node):
            return None
        a = fn.node.args
        if any(x.arg == v.id for x in a.posonlyargs + a.args + a.kwonlyargs):
            return None
        out, stores, seen = [], 0, 0
        for n in own_nodes(fn.node):
            if isinstance(n, ast.Name) and n.id == v.id and isinstance(n.ctx, ast.Store):
                stores += 1
            tgs = n.targets if isinstance(n, ast.Assign) else (
                [n.target] if isinstance(n, ast.AnnAssign) else []
            )
            if len(tgs) != 1 or not (isinstance(tgs[0], ast.Name) and tgs[0].id == v.id):
                continue
            seen += 1
            x = n.value
            if x is None or isinstance(x, ast.Constant) and x.value is None:
                continue
            if not isinstance(x, ast.Call):
                return None
            k = None if self._shadowed(x.func, fn) else self.klass_of(x.func, fn.mod)
            if k is None:
                return None
            if k not in out:
                out.append(k)
        return out if out and stores == seen else None

    def _shadowed(self, v, fn):
        while isinstance(v, ast.Attribute):
            v = v.value
        return not isinstance(v, ast.Name) or self.is_local(v.id, fn)

    def _as_funs(self, r):
        if r is None or r[0] != "def":
            return [] if r and r[0] == "ext" else None
        node = r[2]
        if isinstance(node, FUNCS):
            return [self.by_node[id(node)]]
        k = self.classes.get((r[1].name, node.name))
        if k is None:
            return None
        m = k.find("__init__")
        return [m] if m else []

    def klass(self, fn):
        while fn is not None:
            if fn.cls is not None:
                return fn.cls
            fn = fn.parent
        return None

    def self_name(self, fn):
        while fn is not None:
            if fn.cls is not None:
                a = fn.node.args
                xs = a.posonlyargs + a.args
                return xs[0].arg if xs else None
            fn = fn.parent
        return None


def own_nodes(fnode):
    """Nodes of a function without those of nested functions and classes."""
    todo = list(fnode.body) if hasattr(fnode, "body") else [fnode]
    if isinstance(fnode, ast.Lambda):
        todo = [fnode.body]
    while todo:
        n = todo.pop()
        yield n
        if isinstance(n, FUNCS + (ast.ClassDef,)):
            continue
        todo.extend(ast.iter_child_nodes(n))


def local_names(fnode):
    c = getattr(fnode, "_locals", None)
    if c is not None:
        return c
    out = set()
    a = fnode.args
    for x in a.posonlyargs + a.args + a.kwonlyargs + [a.vararg, a.kwarg]:
        if x is not None:
            out.add(x.arg)
    glob = set()
    for n in own_nodes(fnode):
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        elif isinstance(n, (ast.Import, ast.ImportFrom)):
            for x in n.names:
                out.add(x.asname or x.name.split(".")[0])
        elif isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        elif isinstance(n, FUNCS + (ast.ClassDef,)):
            out.add(n.name)
        elif isinstance(n, (ast.MatchAs, ast.MatchStar)) and n.name:
            out.add(n.name)
        elif isinstance(n, (ast.Global, ast.Nonlocal)):
            glob.update(n.names)
    out -= glob
    fnode._locals = out
    return out


# ------------------------------------------------------------------ paths


class TooMany(Exception):
    pass


NEXT, CONT, BRK, RET, RAISE = "next", "continue", "break", "return", "raise"


def paths(stmts, limit=4000):
    """All acyclic paths of a statement list: (events, exit).

    Events: ('s', stmt) a simple statement, ('t', test, outcome), ('m', subject, case or
    None), ('l', loop) a whole inner loop, ('w', with), ('x', handler) an exception
    taken by the handler before the first statement of the try body finished.
    """
    acc = [((), NEXT)]
    for s in stmts:
        new = []
        for ev, ex in acc:
            if ex != NEXT:
                new.append((ev, ex))
                continue
            for e2, x2 in _stmt(s, limit):
                new.append((ev + e2, x2))
            if len(new) > limit:
                raise TooMany
        acc = new
    return acc


def _stmt(s, limit):
    if isinstance(s, ast.If):
        return [((("t", s.test, True),) + e, x) for e, x in paths(s.body, limit)] + [
            ((("t", s.test, False),) + e, x) for e, x in paths(s.orelse, limit)
        ]
    if isinstance(s, ast.Match):
        out = []
        wild = False
        for i, c in enumerate(s.cases):
            out += [((("m", s, i),) + e, x) for e, x in paths(c.body, limit)]
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and c.guard is None:
                wild = True
                break
        if not wild:
            out.append(((("m", s, None),), NEXT))
        return out
    if isinstance(s, (ast.For, ast.While, ast.AsyncFor)):
        out = [((("l", s),), NEXT)]
        # an inner loop may leave the function
        for n in own_nodes(ast.Module(body=s.body, type_ignores=[])):
            if isinstance(n, ast.Return):
                out.append(((("l", s),), RET))
                break
        if s.orelse:
            out = [
                (e + e2, x2)
                for e, x in out
                if x == NEXT
                for e2, x2 in paths(s.orelse, limit)
            ] + [o for o in out if o[1] != NEXT]
        return out
    if isinstance(s, (ast.With, ast.AsyncWith)):
        return [((("w", s),) + e, x) for e, x in paths(s.body, limit)]
    if isinstance(s, (ast.Try, getattr(ast, "TryStar", ast.Try))):
        body = paths(list(s.body) + list(s.orelse), limit)
        for h in s.handlers:
            body = body + [((("x", h, s),) + e, x) for e, x in paths(h.body, limit)]
        if s.finalbody:
            fin = paths(s.finalbody, limit)
            body = [
                (e + e2, x if x2 == NEXT else x2) for e, x in body for e2, x2 in fin
            ]
        return body
    if isinstance(s, ast.Return):
        return [((("s", s),), RET)]
    if isinstance(s, ast.Raise):
        return [((("s", s),), RAISE)]
    if isinstance(s, ast.Break):
        return [((), BRK)]
    if isinstance(s, ast.Continue):
        return [((), CONT)]
    return [((("s", s),), NEXT)]


def certain(e):
    """Sub-expressions that are evaluated whenever `e` is (calls come out inner first)."""
    if e is None or isinstance(e, FUNCS + (ast.Lambda, ast.ClassDef)):
        return
    if isinstance(e, ast.BoolOp):
        yield from certain(e.values[0])
    elif isinstance(e, ast.IfExp):
        yield from certain(e.test)
    elif isinstance(e, (ast.ListComp, ast.SetComp, ast.DictComp, ast.GeneratorExp)):
        yield from certain(e.generators[0].iter)
    elif isinstance(e, ast.Compare):
        yield from certain(e.left)
        yield from certain(e.comparators[0])
    else:
        for c in ast.iter_child_nodes(e):
            yield from certain(c)
    yield e


def event_exprs(ev):
    """Expressions certainly evaluated by an event."""
    k = ev[0]
    if k == "s":
        yield from certain(ev[1])
    elif k == "t":
        yield from certain(ev[1])
    elif k == "m":
        yield from certain(ev[1].subject)
    elif k == "l":
        n = ev[1]
        yield from certain(n.test if isinstance(n, ast.While) else n.iter)
    elif k == "w":
        for i in ev[1].items:
            yield from certain(i.context_expr)
