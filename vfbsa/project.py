"""Loading and name resolution for the analysed package (source only)."""

import ast
import hashlib
from pathlib import Path


class AnchorLost(Exception):
    """A construct the analysis is anchored in is no longer there."""


class Module:
    def __init__(self, name, path, tree, src):
        self.name, self.path, self.tree, self.src = name, path, tree, src
        self.defs = {}
        self._collect(tree.body)

    def _collect(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
                self.defs[n.name] = ("def", n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.defs[t.id] = ("expr", n.value)
                    elif isinstance(t, ast.Tuple):
                        for i, e in enumerate(t.elts):
                            if isinstance(e, ast.Name):
                                self.defs[e.id] = ("item", (n.value, i))
            elif isinstance(n, ast.AnnAssign):
                if isinstance(n.target, ast.Name) and n.value is not None:
                    self.defs[n.target.id] = ("expr", n.value)
            elif isinstance(n, ast.Import):
                for a in n.names:
                    self.defs[a.asname or a.name.split(".")[0]] = (
                        "mod",
                        a.name if a.asname else a.name.split(".")[0],
                    )
            elif isinstance(n, ast.ImportFrom):
                base = n.module or ""
                if n.level:
                    parts = self.name.split(".")
                    parts = parts[: len(parts) - n.level]
                    base = ".".join(parts + ([base] if base else []))
                for a in n.names:
                    self.defs[a.asname or a.name] = ("from", (base, a.name))
            elif isinstance(n, (ast.If, ast.Try)):
                # TYPE_CHECKING blocks, version switches: later definition wins only
                # if not already bound
                saved = dict(self.defs)
                self._collect(n.body)
                for k, v in saved.items():
                    self.defs[k] = v
                if isinstance(n, ast.If):
                    self._collect_if_absent(n.orelse)
                else:
                    for h in n.handlers:
                        self._collect_if_absent(h.body)

    def _collect_if_absent(self, body):
        saved = dict(self.defs)
        self._collect(body)
        self.defs.update(saved)


class Project:
    def __init__(self, root="/repo/src", package="vfbLib", overrides=None):
        self.root = Path(root)
        self.package = package
        self.modules = {}
        for p in sorted((self.root / package).rglob("*.py")):
            rel = p.relative_to(self.root).with_suffix("")
            parts = list(rel.parts)
            if parts[-1] == "__init__":
                parts = parts[:-1]
            src = (overrides or {}).get(str(p))
            if src is None:
                src = p.read_text(encoding="utf-8")
            name = ".".join(parts)
            tree = ast.parse(src, str(p))
            m = Module(name, p, tree, src)
            if p.name == "__init__.py":
                m.is_pkg = True
            self.modules[name] = m
        for m in self.modules.values():
            for n in ast.walk(m.tree):
                n._mod = m
        if not self.modules:
            raise AnchorLost(f"no sources below {self.root / package}")

    def with_models(self, root=None):
        """The same sources with the library models in vfbsa/models added."""
        root = Path(root or Path(__file__).parent / "models")
        if getattr(self, "_modelled", (None,))[0] == root:
            return self._modelled[1]
        other = Project.__new__(Project)
        other.root, other.package = self.root, self.package
        other.modules = dict(self.modules)
        for p in sorted(root.rglob("*.py")):
            name = ".".join(p.relative_to(root).with_suffix("").parts)
            src = p.read_text(encoding="utf-8")
            m = Module(name, p, ast.parse(src, str(p)), src)
            for n in ast.walk(m.tree):
                n._mod = m
            other.modules[name] = m
        self._modelled = (root, other)
        return other

    def digest(self):
        h = hashlib.sha256()
        for n, m in sorted(self.modules.items()):
            h.update(n.encode())
            h.update(m.src.encode())
        return h.hexdigest()

    def resolve(self, modname, name, depth=0):
        """('def', module, node) | ('expr', module, node) | ('mod', dotted) |
        ('ext', dotted) | None"""
        m = self.modules.get(modname)
        if m is None or depth > 12:
            return ("ext", f"{modname}.{name}")
        d = m.defs.get(name)
        if d is None:
            sub = f"{modname}.{name}"
            if sub in self.modules:
                return ("mod", sub)
            return None
        kind, v = d
        if kind in ("def", "expr", "item"):
            return (kind, m, v)
        if kind == "mod":
            return ("mod", v)
        base, orig = v
        if base in self.modules:
            r = self.resolve(base, orig, depth + 1)
            return r
        if f"{base}.{orig}" in self.modules:
            return ("mod", f"{base}.{orig}")
        return ("ext", f"{base}.{orig}")

    def func(self, dotted):
        """'vfbLib.vfb.vfb:Vfb.write' -> FunctionDef node"""
        mod, q = dotted.split(":")
        m = self.modules.get(mod)
        if m is None:
            raise AnchorLost(f"module {mod} not found")
        body = m.tree.body
        node = None
        for part in q.split("."):
            node = next(
                (
                    n
                    for n in body
                    if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and n.name == part
                ),
                None,
            )
            if node is None:
                raise AnchorLost(f"{dotted} not found")
            body = node.body
        return node

    def all_functions(self):
        for m in self.modules.values():
            stack = [(m.tree.body, "")]
            while stack:
                body, pre = stack.pop()
                for n in body:
                    if isinstance(n, (ast.FunctionDef, ast.AsyncFunctionDef)):
                        yield m, pre + n.name, n
                        stack.append((n.body, pre + n.name + "."))
                    elif isinstance(n, ast.ClassDef):
                        stack.append((n.body, pre + n.name + "."))
                    elif isinstance(n, (ast.If, ast.Try, ast.With, ast.For, ast.While)):
                        stack.append((n.body, pre))
                        stack.append((getattr(n, "orelse", []), pre))


def loc(node):
    m = getattr(node, "_mod", None)
    p = m.path if m else "?"
    return f"{p}:{getattr(node, 'lineno', '?')}"
