#!/usr/bin/env python3
"""Development tool: mutate /repo's source in memory, see which checks react.

mutate.py --mode break|same --files GLOB... --checks C01,C02 [--tests] [--limit N]

"break" applies small faults, "same" applies behaviour-preserving rewrites (on
which every check has to stay quiet).  Never writes to /repo; --tests runs the
repository's tests for unreported faults in a scratch copy below /tmp.
"""

import argparse
import ast
import copy
import glob
import importlib
import json
import multiprocessing as mp
import os
import random
import subprocess
import sys
from pathlib import Path

sys.path.insert(0, str(Path(__file__).resolve().parent.parent))
sys.setrecursionlimit(20000)

SWAP = {
    "read_uint8": "read_int8", "read_int8": "read_uint8", "read_uint16": "read_int16",
    "read_int16": "read_uint16", "read_uint32": "read_int32",
    "read_int32": "read_uint32", "write_uint8": "write_uint16",
    "write_uint16": "write_uint32", "write_int16": "write_uint16",
    "write_int32": "write_uint32", "write_uint32": "write_int32",
    "write_doubles": "write_double", "append": "extend", "write_value": "write_uint8",
    "read_value": "read_uint8",
}
CMP = {ast.Eq: ast.NotEq, ast.NotEq: ast.Eq, ast.Lt: ast.LtE, ast.LtE: ast.Lt,
       ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.In: ast.NotIn, ast.NotIn: ast.In,
       ast.Is: ast.IsNot, ast.IsNot: ast.Is}
BIN = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Add, ast.Div: ast.Mult,
       ast.BitAnd: ast.BitOr, ast.BitOr: ast.BitAnd, ast.LShift: ast.RShift,
       ast.RShift: ast.LShift, ast.FloorDiv: ast.Mult, ast.Mod: ast.Mult,
       ast.Pow: ast.Mult}


def strip_doc(tree):
    pass


def is_doc(parent, node):
    return isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant) and \
        isinstance(node.value.value, str)


def break_sites(tree):
    """yield (lineno, description, mutator(tree copy node) ) by node index"""
    nodes = list(ast.walk(tree))
    skip = set()
    for n in nodes:
        if isinstance(n, ast.If) and isinstance(n.test, ast.Name) and \
                n.test.id == "TYPE_CHECKING":
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, (ast.Expr,)) and isinstance(n.value, ast.Constant):
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and \
                isinstance(n.func.value, ast.Name) and n.func.value.id == "logger":
            for x in ast.walk(n):
                skip.add(x)
        if isinstance(n, (ast.FunctionDef,)):
            for a in list(ast.walk(n.args)) if n.args else []:
                if isinstance(a, ast.arg) and a.annotation is not None:
                    for x in ast.walk(a.annotation):
                        skip.add(x)
            if n.returns is not None:
                for x in ast.walk(n.returns):
                    skip.add(x)
        if isinstance(n, ast.AnnAssign):
            for x in ast.walk(n.annotation):
                skip.add(x)
        if isinstance(n, ast.Assert) or isinstance(n, ast.Raise):
            for x in ast.walk(n):
                skip.add(x)
    for i, n in enumerate(nodes):
        if n in skip:
            continue
        ln = getattr(n, "lineno", 0)
        if isinstance(n, ast.Constant):
            if isinstance(n.value, bool):
                yield i, ln, f"bool {n.value}->{not n.value}", ("const", not n.value)
            elif isinstance(n.value, int):
                yield i, ln, f"int {n.value}+1", ("const", n.value + 1)
                if n.value > 1:
                    yield i, ln, f"int {n.value}-1", ("const", n.value - 1)
            elif isinstance(n.value, float):
                yield i, ln, f"float {n.value}*2", ("const", n.value * 2)
            elif isinstance(n.value, str) and n.value and len(n.value) < 40:
                yield i, ln, f"str {n.value!r}+x", ("const", n.value + "x")
        elif isinstance(n, ast.Attribute) and n.attr in SWAP:
            yield i, ln, f"{n.attr}->{SWAP[n.attr]}", ("attr", SWAP[n.attr])
        elif isinstance(n, ast.Compare) and type(n.ops[0]) in CMP:
            yield i, ln, f"cmp {type(n.ops[0]).__name__}", ("cmp",)
        elif isinstance(n, ast.BinOp) and type(n.op) in BIN:
            yield i, ln, f"binop {type(n.op).__name__}", ("bin",)
        elif isinstance(n, ast.BoolOp):
            yield i, ln, "and<->or", ("bool",)
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, (ast.Not, ast.USub)):
            yield i, ln, "drop unary", ("unary",)
        elif isinstance(n, ast.IfExp):
            yield i, ln, "ifexp swap", ("ifexp",)
        elif isinstance(n, ast.Call):
            if isinstance(n.func, ast.Name) and n.func.id == "round":
                yield i, ln, "round->int", ("round",)
            if isinstance(n.func, ast.Name) and n.func.id in ("deepcopy", "copy",
                                                              "sorted", "set", "list",
                                                              "bool", "abs"):
                yield i, ln, f"drop {n.func.id}()", ("unwrap",)
            for j, kw in enumerate(n.keywords):
                if kw.arg:
                    yield i, ln, f"drop kw {kw.arg}", ("dropkw", j)
        for fld in ("body", "orelse", "finalbody"):
            b = getattr(n, fld, None)
            if not isinstance(b, list):
                continue
            for j, s in enumerate(b):
                if not isinstance(s, ast.stmt) or s in skip:
                    continue
                if isinstance(s, (ast.Expr, ast.Assign, ast.AugAssign, ast.If, ast.For,
                                  ast.Break, ast.Continue, ast.With, ast.Delete)) and \
                        not is_doc(n, s):
                    if isinstance(n, (ast.Module, ast.ClassDef)) and \
                            isinstance(s, (ast.If,)):
                        continue
                    yield i, s.lineno, f"delete {type(s).__name__}", ("del", fld, j)
                if j + 1 < len(b) and isinstance(s, (ast.Expr, ast.Assign)) and \
                        isinstance(b[j + 1], (ast.Expr, ast.Assign)) and \
                        not is_doc(n, s):
                    yield i, s.lineno, "swap with next", ("swp", fld, j)


def apply_break(tree, i, m):
    tree = copy.deepcopy(tree)
    nodes = list(ast.walk(tree))
    n = nodes[i]
    k = m[0]
    if k == "const":
        n.value = m[1]
    elif k == "attr":
        n.attr = m[1]
    elif k == "cmp":
        n.ops[0] = CMP[type(n.ops[0])]()
    elif k == "bin":
        n.op = BIN[type(n.op)]()
    elif k == "bool":
        n.op = ast.Or() if isinstance(n.op, ast.And) else ast.And()
    elif k == "unary":
        n.op = ast.UAdd() if isinstance(n.op, ast.USub) else n.op
        if isinstance(n.op, ast.Not):
            n.operand = ast.UnaryOp(ast.Not(), n.operand)
    elif k == "ifexp":
        n.body, n.orelse = n.orelse, n.body
    elif k == "round":
        n.func.id = "int"
        n.args = n.args[:1]
    elif k == "unwrap":
        n.func = ast.Lambda(
            args=ast.arguments([], [ast.arg("v")], None, [], [], None, []),
            body=ast.Name("v", ast.Load()))
        if len(n.args) != 1:
            return None
        n.keywords = []
    elif k == "dropkw":
        del n.keywords[m[1]]
    elif k == "del":
        b = getattr(n, m[1])
        b[m[2]] = ast.Pass()
    elif k == "swp":
        b = getattr(n, m[1])
        b[m[2]], b[m[2] + 1] = b[m[2] + 1], b[m[2]]
    ast.fix_missing_locations(tree)
    return ast.unparse(tree)


# ---------------------------------------------------------------- same behaviour


class Fresh:
    n = 0

    @classmethod
    def name(cls, p="tmp"):
        cls.n += 1
        return f"_{p}{cls.n}"


def functions(tree):
    return [n for n in ast.walk(tree) if isinstance(n, ast.FunctionDef)]


def local_names(fn):
    args = {a.arg for a in fn.args.args + fn.args.kwonlyargs + fn.args.posonlyargs}
    out = set()
    bad = set()
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
            out.add(n.id)
        if isinstance(n, (ast.Global, ast.Nonlocal)):
            bad |= set(n.names)
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)) and n is not fn:
            bad |= {x.id for x in ast.walk(n) if isinstance(x, ast.Name)}
        if isinstance(n, ast.MatchAs) and n.name or isinstance(n, ast.ExceptHandler) \
                and n.name:
            bad.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                bad.add((a.asname or a.name).split(".")[0])
    return out - args - bad


def r_rename(fn):
    m = {n: n + "_renamed" for n in local_names(fn)}
    if not m:
        return False
    for n in ast.walk(fn):
        if isinstance(n, ast.Name) and n.id in m:
            n.id = m[n.id]
    return True


class _Temps(ast.NodeTransformer):
    """f(a, g(x)) as a statement -> t = g(x); f(a, t), when evaluation order allows"""

    done = False

    def visit_FunctionDef(self, n):
        n.body = self.block(n.body)
        return n

    def block(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, self.block(b))
            if isinstance(s, ast.Match):
                for c in s.cases:
                    c.body = self.block(c.body)
            if isinstance(s, ast.Try):
                for h in s.handlers:
                    h.body = self.block(h.body)
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    len(s.value.args) == 1 and not s.value.keywords and \
                    not isinstance(s.value.args[0], (ast.Constant, ast.Starred)) and \
                    isinstance(s.value.func, (ast.Name, ast.Attribute)) and not any(
                        isinstance(x, ast.Call) for x in ast.walk(s.value.func)):
                t = Fresh.name()
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value.args[0]))
                s.value.args[0] = ast.Name(t, ast.Load())
                self.done = True
            elif isinstance(s, ast.Return) and s.value is not None and \
                    not isinstance(s.value, (ast.Constant, ast.Name)):
                t = Fresh.name("ret")
                out.append(ast.Assign([ast.Name(t, ast.Store())], s.value))
                s.value = ast.Name(t, ast.Load())
                self.done = True
            elif isinstance(s, ast.If) and not isinstance(
                    s.test, (ast.Name, ast.Constant)):
                t = Fresh.name("cond")
                if not any(isinstance(x, ast.NamedExpr) for x in ast.walk(s.test)):
                    out.append(ast.Assign([ast.Name(t, ast.Store())], s.test))
                    s.test = ast.Name(t, ast.Load())
                    self.done = True
            out.append(s)
        return out


def r_temps(fn):
    v = _Temps()
    v.visit_FunctionDef(fn)
    return v.done


def r_invert(fn):
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.If) and n.orelse and not (
                len(n.orelse) == 1 and isinstance(n.orelse[0], ast.If)):
            n.test = ast.UnaryOp(ast.Not(), n.test)
            n.body, n.orelse = n.orelse, n.body
            done = True
    return done


def r_index(fn):
    """for x in xs -> i = 0.. over list(xs)"""
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.For) and not n.orelse and isinstance(n.iter, ast.Name):
            s = Fresh.name("seq")
            i = Fresh.name("i")
            get = ast.Assign([n.target], ast.Subscript(
                ast.Name(s, ast.Load()), ast.Name(i, ast.Load()), ast.Load()))
            it = n.iter
            n.iter = ast.parse(f"range(len({s}))", mode="eval").body
            n.target = ast.Name(i, ast.Store())
            n.body = [get] + n.body
            n._pre = ast.Assign([ast.Name(s, ast.Store())],
                                ast.Call(ast.Name("list", ast.Load()), [it], []))
            done = True
    if done:
        class Ins(ast.NodeTransformer):
            def generic_visit(self, n):
                super().generic_visit(n)
                for f in ("body", "orelse", "finalbody"):
                    b = getattr(n, f, None)
                    if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                        o = []
                        for s in b:
                            if hasattr(s, "_pre"):
                                o.append(s._pre)
                            o.append(s)
                        setattr(n, f, o)
                return n
        Ins().visit(fn)
    return done


class _Comp(ast.NodeTransformer):
    done = False

    def block(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, self.block(b))
            if isinstance(s, ast.Match):
                for c in s.cases:
                    c.body = self.block(c.body)
            tgt = None
            if isinstance(s, (ast.Assign, ast.Return)) and \
                    isinstance(s.value, ast.ListComp) and \
                    len(s.value.generators) == 1:
                tgt = s.value
            if tgt is not None:
                g = tgt.generators[0]
                t = Fresh.name("lst")
                out.append(ast.Assign([ast.Name(t, ast.Store())], ast.List([], ast.Load())))
                b = [ast.Expr(ast.Call(ast.Attribute(ast.Name(t, ast.Load()), "append",
                                                     ast.Load()), [tgt.elt], []))]
                for c in reversed(g.ifs):
                    b = [ast.If(c, b, [])]
                out.append(ast.For(g.target, g.iter, b, []))
                s.value = ast.Name(t, ast.Load())
                self.done = True
            out.append(s)
        return out


def r_comp(fn):
    v = _Comp()
    fn.body = v.block(fn.body)
    return v.done


class _IfExp(ast.NodeTransformer):
    done = False

    def block(self, body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, self.block(b))
            if isinstance(s, ast.Match):
                for c in s.cases:
                    c.body = self.block(c.body)
            if isinstance(s, ast.Assign) and isinstance(s.value, ast.IfExp) and \
                    len(s.targets) == 1 and isinstance(s.targets[0], ast.Name):
                e = s.value
                out.append(ast.If(e.test, [ast.Assign(s.targets, e.body)],
                                  [ast.Assign(s.targets, e.orelse)]))
                self.done = True
                continue
            if isinstance(s, ast.Expr) and isinstance(s.value, ast.Call) and \
                    len(s.value.args) == 1 and isinstance(s.value.args[0], ast.IfExp):
                e = s.value.args[0]
                a, b = copy.deepcopy(s), copy.deepcopy(s)
                a.value.args[0], b.value.args[0] = e.body, e.orelse
                out.append(ast.If(e.test, [a], [b]))
                self.done = True
                continue
            out.append(s)
        return out


def r_ifexp(fn):
    v = _IfExp()
    fn.body = v.block(fn.body)
    return v.done


def r_dictlit(fn):
    """x = {k: v, ...} -> x = {}; x[k] = v"""
    done = [False]

    def block(body):
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, block(b))
            if isinstance(s, ast.Match):
                for c in s.cases:
                    c.body = block(c.body)
            if isinstance(s, (ast.Assign, ast.AnnAssign)) and isinstance(
                    s.value, ast.Dict) and s.value.keys and None not in s.value.keys:
                tg = s.targets[0] if isinstance(s, ast.Assign) else s.target
                if isinstance(tg, ast.Name) and not any(
                        isinstance(x, ast.Name) and x.id == tg.id
                        for x in ast.walk(s.value)):
                    d = s.value
                    s.value = ast.Dict([], [])
                    out.append(s)
                    for k, v in zip(d.keys, d.values):
                        out.append(ast.Assign([ast.Subscript(
                            ast.Name(tg.id, ast.Load()), k, ast.Store())], v))
                    done[0] = True
                    continue
            out.append(s)
        return out

    fn.body = block(fn.body)
    return done[0]


def r_elif(fn):
    """if/elif chains: `else: if` nesting is the same tree; use early dispatch instead:
    match -> if/elif"""
    done = False

    def conv(s):
        subj = s.subject
        pre = []
        if not isinstance(subj, ast.Name):
            t = Fresh.name("subj")
            pre = [ast.Assign([ast.Name(t, ast.Store())], subj)]
            subj = ast.Name(t, ast.Load())

        def test(p):
            if isinstance(p, ast.MatchValue):
                return ast.Compare(subj, [ast.Eq()], [p.value])
            if isinstance(p, ast.MatchSingleton):
                return ast.Compare(subj, [ast.Is()], [ast.Constant(p.value)])
            if isinstance(p, ast.MatchOr):
                ts = [test(q) for q in p.patterns]
                return None if None in ts else ast.BoolOp(ast.Or(), ts)
            return None

        chain = []
        tail = []
        for c in s.cases:
            if c.guard is not None:
                return None
            if isinstance(c.pattern, ast.MatchAs) and c.pattern.pattern is None and \
                    c.pattern.name is None:
                tail = c.body
                break
            t = test(c.pattern)
            if t is None:
                return None
            chain.append((t, c.body))
        for t, b in reversed(chain):
            tail = [ast.If(t, b, tail)]
        return pre + tail

    def block(body):
        nonlocal done
        out = []
        for s in body:
            for fld in ("body", "orelse", "finalbody"):
                b = getattr(s, fld, None)
                if isinstance(b, list) and b and isinstance(b[0], ast.stmt):
                    setattr(s, fld, block(b))
            if isinstance(s, ast.Match):
                for c in s.cases:
                    c.body = block(c.body)
                r = conv(s)
                if r is not None:
                    out.extend(r)
                    done = True
                    continue
            out.append(s)
        return out

    fn.body = block(fn.body)
    return done


def r_earlyguard(fn):
    """if a: return  <rest>  ->  if a: return else: <rest>"""
    done = False
    for i, s in enumerate(fn.body):
        if isinstance(s, ast.If) and not s.orelse and isinstance(
                s.body[-1], (ast.Return, ast.Raise)) and fn.body[i + 1:]:
            s.orelse = fn.body[i + 1:]
            fn.body = fn.body[: i + 1]
            done = True
            break
    return done


def r_extract(fn, cls=None):
    """Extract one loop body / if body that only reads names into a helper method."""
    if cls is None or not fn.args.args or fn.args.args[0].arg != "self":
        return False
    if any(isinstance(d, ast.Name) and d.id in ("classmethod", "staticmethod",
                                                "property") for d in fn.decorator_list):
        return False
    locs = local_names(fn) | {a.arg for a in fn.args.args}
    for n in ast.walk(fn):
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if n is fn or not isinstance(b, list) or not b or \
                    not isinstance(b[0], ast.stmt):
                continue
            if any(isinstance(x, (ast.Return, ast.Break, ast.Continue, ast.Yield,
                                  ast.FunctionDef, ast.Lambda))
                   for s in b for x in ast.walk(s)):
                continue
            stores = {x.id for s in b for x in ast.walk(s)
                      if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Store)}
            inside = {x for s in b for x in ast.walk(s)}
            used_out = {x.id for x in ast.walk(fn)
                        if isinstance(x, ast.Name) and x not in inside}
            if stores & used_out:
                continue
            if len(b) < 2:
                continue
            loads = {x.id for s in b for x in ast.walk(s)
                     if isinstance(x, ast.Name) and isinstance(x.ctx, ast.Load)}
            # comprehension variables are stores too
            params = sorted((loads & locs) - stores - {"self"})
            if any(isinstance(x, ast.Name) and isinstance(x.ctx, ast.Del)
                   for s in b for x in ast.walk(s)):
                continue
            name = Fresh.name("helper")
            h = ast.FunctionDef(
                name=name,
                args=ast.arguments([], [ast.arg("self")] + [ast.arg(p) for p in params],
                                   None, [], [], None, []),
                body=list(b), decorator_list=[], returns=None, type_params=[])
            setattr(n, fld, [ast.Expr(ast.Call(
                ast.Attribute(ast.Name("self", ast.Load()), name, ast.Load()),
                [ast.Name(p, ast.Load()) for p in params], []))])
            cls.body.append(h)
            return True
    return False


def r_nop(fn):
    fn.body.insert(1 if is_doc(fn, fn.body[0]) and len(fn.body) > 1 else 0,
                   ast.parse("_unused = 0").body[0])
    return True


def r_while(fn):
    """while True: if c: break; rest  stays; for _ in range(n) -> while"""
    done = False
    for n in ast.walk(fn):
        for fld in ("body", "orelse"):
            b = getattr(n, fld, None)
            if not isinstance(b, list) or not b or not isinstance(b[0], ast.stmt):
                continue
            for j, s in enumerate(b):
                if isinstance(s, ast.For) and not s.orelse and isinstance(
                        s.target, ast.Name) and isinstance(s.iter, ast.Call) and \
                        isinstance(s.iter.func, ast.Name) and \
                        s.iter.func.id == "range" and len(s.iter.args) == 1 and not any(
                            isinstance(x, ast.Continue) for x in ast.walk(s)):
                    i, k = Fresh.name("k"), Fresh.name("n")
                    w = ast.parse(
                        f"{i} = 0\n{k} = 0\nwhile {i} < {k}:\n    {s.target.id} = {i}\n"
                        f"    {i} += 1").body
                    w[1].value = s.iter.args[0]
                    w[2].body = [w[2].body[0]] + s.body + [w[2].body[1]]
                    b[j:j + 1] = w
                    done = True
                    break
    return done


def r_ternary(fn):
    """x = a; if c: x = b  left; reorder commutative compare a == b -> b == a"""
    done = False
    for n in ast.walk(fn):
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Eq, ast.NotEq)) and isinstance(
                n.comparators[0], ast.Constant):
            n.left, n.comparators[0] = n.comparators[0], n.left
            done = True
        elif isinstance(n, ast.Compare) and len(n.ops) == 1 and isinstance(
                n.ops[0], (ast.Lt, ast.Gt)):
            n.left, n.comparators[0] = n.comparators[0], n.left
            n.ops[0] = ast.Gt() if isinstance(n.ops[0], ast.Lt) else ast.Lt()
            done = True
    return done


def r_getattr_local(fn):
    """alias a bound method used >= 2 times: self.write_value -> w = self.write_value"""
    from collections import Counter
    c = Counter()
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and n.func.value.id == "self":
            c[n.func.attr] += 1
    if any(isinstance(n, (ast.FunctionDef, ast.Lambda)) and n is not fn
           for n in ast.walk(fn)):
        return False
    names = [k for k, v in c.items() if v >= 2]
    if not names:
        return False
    k = names[0]
    t = Fresh.name("m")
    for n in ast.walk(fn):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Attribute) and isinstance(
                n.func.value, ast.Name) and n.func.value.id == "self" and \
                n.func.attr == k:
            n.func = ast.Name(t, ast.Load())
    pos = 1 if is_doc(fn, fn.body[0]) and len(fn.body) > 1 else 0
    fn.body.insert(pos, ast.parse(f"{t} = self.{k}").body[0])
    return True


SAME = {
    "rename": r_rename, "temps": r_temps, "invert": r_invert, "index": r_index,
    "comp": r_comp, "ifexp": r_ifexp, "dictlit": r_dictlit, "match2if": r_elif,
    "guard": r_earlyguard, "extract": r_extract, "nop": r_nop, "while": r_while,
    "flipcmp": r_ternary, "alias": r_getattr_local,
}


def same_variants(src):
    base = ast.parse(src)
    fns = functions(base)
    for rn, rf in SAME.items():
        for i in range(len(fns)):
            tree = copy.deepcopy(base)
            fn = functions(tree)[i]
            cls = next((c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)
                        and fn in c.body), None)
            try:
                ok = rf(fn, cls) if rn == "extract" else rf(fn)
            except Exception as ex:  # a rewrite that does not apply
                print("rewrite error", rn, fn.name, ex, file=sys.stderr)
                continue
            if ok:
                ast.fix_missing_locations(tree)
                yield fn.lineno, f"{rn} {cls.name + '.' if cls else ''}{fn.name}", \
                    ast.unparse(tree)
        # everything at once
        tree = copy.deepcopy(base)
        n = 0
        for fn in functions(tree):
            cls = next((c for c in ast.walk(tree) if isinstance(c, ast.ClassDef)
                        and fn in c.body), None)
            try:
                n += bool(rf(fn, cls) if rn == "extract" else rf(fn))
            except Exception:
                pass
        if n:
            ast.fix_missing_locations(tree)
            yield 0, f"{rn} ALL ({n})", ast.unparse(tree)


# ---------------------------------------------------------------- running


def run_checks(args):
    path, desc, src, checks = args
    from vfbsa.limits import bounded
    from vfbsa.project import AnchorLost, Project
    from vfbsa.report import Report
    from vfbsa.rules import PROPERTIES
    import contextlib
    import io
    res = {}
    try:
        compile(src, path, "exec")
    except SyntaxError as ex:
        return path, desc, {"SYNTAX": str(ex)}
    for c in checks:
        mod, fn, floor = PROPERTIES[c]
        rep = Report(c, "quick", 1)
        try:
            p = Project(overrides={path: src})
            with contextlib.redirect_stdout(io.StringIO()):
                with bounded(rep, LIMIT, 4 << 30):
                    getattr(importlib.import_module(f"vfbsa.rules.{mod}"), fn)(p, rep)
            known = rep.known()
            v = [x for x in rep.violations if x["key"] not in known]
            if v:
                res[c] = ("VIOL", f"{v[0]['where']} {v[0]['key']} {v[0]['message']}"[:300])
            elif not rep.complete:
                res[c] = ("TIME", "")
            elif rep.decided() < floor:
                res[c] = ("FLOOR", str(rep.decided()))
            else:
                res[c] = ("ok", f"{len(rep.discharged)}/{len(rep.undecided)}")
        except AnchorLost as ex:
            res[c] = ("LOST", str(ex))
        except Exception:
            import traceback
            res[c] = ("CRASH", traceback.format_exc()[-400:])
    return path, desc, res


def run_tests(args):
    path, desc, src, wid = args
    import shutil
    root = f"/tmp/mut/{os.getpid()}"
    if not os.path.exists(root):
        os.makedirs("/tmp/mut", exist_ok=True)
        shutil.copytree("/repo", root, ignore=shutil.ignore_patterns(".git"))
    dst = root + path[len("/repo"):]
    orig = open(path).read()
    open(dst, "w").write(src)
    try:
        env = dict(os.environ, PYTHONPATH=root + "/src", PYTHONDONTWRITEBYTECODE="1",
                   PYTHONHASHSEED="0", PATH="/opt/venv/bin:/usr/bin:/bin",
                   LANG="C.UTF-8", TZ="UTC")
        r = subprocess.run(
            ["/opt/venv/bin/python", "-m", "pytest", "-q", "-x", "-p",
             "no:cacheprovider", "--timeout=60", "--ignore=Tests/Data",
             "--ignore=Scripts"] + DESEL, cwd=root, env=env, capture_output=True,
            text=True, timeout=300)
        return path, desc, r.returncode == 0, r.stdout[-200:]
    except subprocess.TimeoutExpired:
        return path, desc, False, "timeout"
    finally:
        open(dst, "w").write(orig)


DESEL = []
LIMIT = 300


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument("--mode", default="break")
    ap.add_argument("--files", nargs="+", required=True)
    ap.add_argument("--checks", required=True)
    ap.add_argument("--tests", action="store_true")
    ap.add_argument("--limit", type=int, default=0)
    ap.add_argument("--seed", type=int, default=1)
    ap.add_argument("--only", default="")
    ap.add_argument("--out", default="/tmp/mutants.json")
    ap.add_argument("-j", type=int, default=8)
    a = ap.parse_args()
    files = sorted({f for g in a.files for f in glob.glob(
        f"/repo/src/vfbLib/{g}", recursive=True)})
    jobs = []
    for f in files:
        src = open(f).read()
        if a.mode == "break":
            tree = ast.parse(src)
            base = ast.unparse(tree)
            for i, ln, d, m in break_sites(tree):
                s = apply_break(tree, i, m)
                if s and s != base:
                    jobs.append((f, f"{ln} {d}", s))
        else:
            for ln, d, s in same_variants(src):
                jobs.append((f, f"{ln} {d}", s))
    if a.only:
        jobs = [j for j in jobs if a.only in j[1]]
    if a.limit and len(jobs) > a.limit:
        random.Random(a.seed).shuffle(jobs)
        jobs = jobs[: a.limit]
    checks = a.checks.split(",")
    print(len(jobs), "variants", flush=True)
    src_of = {(f, d): s for f, d, s in jobs}
    out = []
    with mp.Pool(a.j, maxtasksperchild=2) as pool:
        for path, desc, res in pool.imap_unordered(
                run_checks, [(f, d, s, checks) for f, d, s in jobs], chunksize=1):
            out.append((path, desc, res))
            with open(a.out + "l", "a") as f:
                f.write(json.dumps((path, desc, res)) + "\n")
    rep = lambda r: any(v[0] == "VIOL" for v in r.values() if isinstance(v, tuple))
    odd = [(p, d, r) for p, d, r in out if any(
        isinstance(v, tuple) and v[0] in ("LOST", "CRASH", "FLOOR", "TIME") for v in r.values())]
    hit = [x for x in out if rep(x[2])]
    print("reported", len(hit), "of", len(out), "odd", len(odd))
    if a.mode == "same":
        for p, d, r in sorted(hit + odd):
            print(p.split("vfbLib/")[1], d, {k: v for k, v in r.items() if v[0] != "ok"})
    else:
        for p, d, r in sorted(odd):
            print("ODD", p.split("vfbLib/")[1], d,
                  {k: v for k, v in r.items() if v[0] != "ok"})
        miss = [x for x in out if not rep(x[2]) and "SYNTAX" not in x[2]]
        if a.tests:
            surv = []
            with mp.Pool(a.j) as pool:
                for p, d, ok, tail in pool.imap_unordered(
                        run_tests, [(p, d, src_of[(p, d)], 0) for p, d, _ in miss]):
                    if ok:
                        surv.append((p, d))
            print("unreported", len(miss), "of which pass the tests", len(surv))
            for p, d in sorted(surv):
                print("MISS", p.split("vfbLib/")[1], d)
        else:
            for p, d, r in sorted(miss, key=lambda x: (x[0], int(x[1].split()[0]))):
                print("MISS", p.split("vfbLib/")[1], d)
    json.dump([(p, d, r) for p, d, r in out], open(a.out, "w"))


if __name__ == "__main__":
    main()
