"""Abstract interpreter: wire-effect inference.

One pass over the source of a reader or a writer yields, without running it,
  * the grammar of what it consumes from / produces on its byte streams, and
  * the returned structure, whose leaves are terms over the consumed values.
Unknown branches are analysed separately and joined (no path enumeration); loops
are summarised once by a repetition with loop-carried values as symbols.
Anything outside the supported fragment becomes `unknown`, never a guess.
"""

import ast
from dataclasses import dataclass, field, replace

from . import terms as t
from .project import Project
from .terms import FALSE, NONE, TRUE, K, T, isint, isk, kv, mk

# ------------------------------------------------------------------- values


@dataclass(frozen=True)
class Ref:
    id: int


@dataclass(frozen=True)
class Tup:
    items: tuple


@dataclass(frozen=True)
class Cls:
    mod: str
    name: str
    node: object = field(compare=False, hash=False)


@dataclass(frozen=True)
class Fn:
    name: str
    node: object
    cls: object = None
    closure: tuple = ()


@dataclass(frozen=True)
class Bound:
    self: object
    fn: object


@dataclass(frozen=True)
class BM:  # builtin method
    self: object
    name: str


@dataclass(frozen=True)
class Ext:
    name: str


@dataclass(frozen=True)
class ModV:
    name: str


@dataclass(frozen=True)
class RangeV:
    start: T
    stop: T
    step: int = 1


@dataclass(frozen=True)
class IteV:
    c: T
    a: object
    b: object


@dataclass(frozen=True)
class TraceB:
    items: tuple


@dataclass(frozen=True)
class SuperV:
    self: object
    cls: object


@dataclass(frozen=True)
class EnumV:
    cls: object
    val: T


@dataclass(frozen=True)
class UnkV:
    why: str = ""


U = UnkV()
UNDEF = UnkV("undefined")


# ------------------------------------------------------------ heap contents


@dataclass(frozen=True)
class One:
    v: object


@dataclass(frozen=True)
class Rep:
    lid: tuple
    count: object
    segs: tuple


@dataclass(frozen=True)
class Opt:
    c: T
    a: tuple
    b: tuple


@dataclass(frozen=True)
class ListO:
    segs: tuple
    order: str = ""


@dataclass(frozen=True)
class DE:
    key: object
    val: object
    guard: T = TRUE


@dataclass(frozen=True)
class DR:
    lid: tuple
    count: object
    entries: tuple


@dataclass(frozen=True)
class DictO:
    entries: tuple


@dataclass(frozen=True)
class SetO:
    bits: T  # set of bit numbers of an int term
    items: object = None  # or a tuple of constants


@dataclass(frozen=True)
class InstO:
    cls: object
    attrs: tuple  # ((name, value), ...)

    def get(self, n):
        for k, v in self.attrs:
            if k == n:
                return v
        return None

    def set(self, n, v):
        out = tuple((k, v if k == n else w) for k, w in self.attrs)
        if not any(k == n for k, _ in self.attrs):
            out += ((n, v),)
        return replace(self, attrs=out)


@dataclass(frozen=True)
class StreamO:
    mode: str
    items: tuple
    name: str = ""


@dataclass(frozen=True)
class ScriptO:
    """A stream of known layout: chunks are (value, length); pos is a byte offset."""

    chunks: tuple
    pos: int = 0


@dataclass(frozen=True)
class UnkO:
    why: str = ""


# ---------------------------------------------------------------- trace items


class RItem:
    __slots__ = ("sid", "kind", "term", "node", "used_raw")

    def __init__(self, sid, kind, term, node):
        self.sid, self.kind, self.term, self.node = sid, kind, term, node
        self.used_raw = False

    def __repr__(self):
        return f"R{self.sid}:{self.kind}"


@dataclass(frozen=True)
class W:
    kind: tuple
    expr: object
    node: object = field(compare=False, hash=False, default=None)


@dataclass(frozen=True)
class TRep:
    lid: tuple
    count: object
    items: tuple


@dataclass(frozen=True)
class TAlt:
    c: T
    a: tuple
    b: tuple


@dataclass(frozen=True)
class TTag:
    lid: tuple
    cases: tuple  # ((const, items, 'next'|'end'), ...)
    other: object  # items or None
    item: object = None  # kind of the tag read


@dataclass(frozen=True)
class TOpq:
    why: str
    arg: object = None


# ------------------------------------------------------------------ control


class Raised(Exception):
    def __init__(self, what=None, node=None, st=None):
        self.what, self.node, self.st = what, node, st


class CaseSplit(Exception):
    def __init__(self, term, consts):
        self.term, self.consts = term, consts


class Leaf:
    __slots__ = ("kind", "st", "val", "node")

    def __init__(self, kind, st, val=None, node=None):
        self.kind, self.st, self.val, self.node = kind, st, val, node


class Br:
    __slots__ = ("c", "a", "b")

    def __init__(self, c, a, b):
        self.c, self.a, self.b = c, a, b


class State:
    __slots__ = ("heap", "frames", "facts", "loops", "owner", "force", "eqs", "ctx")

    def __init__(self):
        self.heap, self.frames, self.facts = {}, [{}], {}
        self.loops, self.owner, self.force = (), {}, None
        self.eqs = {}
        self.ctx = ()

    def copy(self):
        s = State()
        s.heap = self.heap.copy()
        s.frames = [dict(f) for f in self.frames]
        s.facts = dict(self.facts)
        s.eqs = dict(self.eqs)
        s.loops, s.owner, s.force = self.loops, dict(self.owner), self.force
        s.ctx = self.ctx
        return s

    def become(self, o):
        self.heap, self.frames, self.facts = o.heap, o.frames, o.facts
        self.loops, self.owner, self.force = o.loops, o.owner, o.force
        self.eqs = o.eqs
        self.ctx = o.ctx

    def assume(self, c, val=True):
        if isk(c):
            return bool(kv(c)) == val
        if c.op == "not":
            return self.assume(c.args[0], not val)
        if c.op == "and" and val:
            return all([self.assume(x, True) for x in c.args])
        if c.op == "or" and not val:
            return all([self.assume(x, False) for x in c.args])
        self.facts[c] = K(val)
        if c.op == "eq" and val and isk(c.args[1]):
            self.eqs[c.args[0]] = c.args[1]
        return True

    def simp(self, v):
        if not self.facts and not self.eqs:
            return v
        if isinstance(v, T):
            if v.op == "k":
                return v
            m = dict(self.facts)
            m.update(self.eqs)
            return t.subst(v, m)
        if isinstance(v, IteV):
            c = self.simp(v.c)
            if isk(c):
                return self.simp(v.a if kv(c) else v.b)
            return v
        return v


_COUNTER_CACHE = {}


def before_end(c, pos):
    """The condition says that this position is not the end of the entry."""
    end = mk("nbytes", ty="int")
    if c.op == "not":
        return c.args[0] in (t.eq(pos, end), t.le(end, pos))
    return c in (t.lt(pos, end), t.not_(t.eq(pos, end)))


def counter_form(s):
    """`while i < n: ...; i += 1` -> (i, equivalent for loop, n) or None."""
    if s in _COUNTER_CACHE:
        return _COUNTER_CACHE[s]
    _COUNTER_CACHE[s] = r = _counter_form(s)
    return r


def _counter_form(s):
    c = s.test
    if s.orelse or not isinstance(c, ast.Compare) or len(c.ops) != 1:
        return None
    a, op, b = c.left, c.ops[0], c.comparators[0]
    if isinstance(op, ast.Gt):
        a, b = b, a
    elif not isinstance(op, ast.Lt):
        return None
    if not isinstance(a, ast.Name):
        return None
    i = a.id
    incs = 0
    for x in s.body:
        if (
            isinstance(x, ast.AugAssign)
            and isinstance(x.op, ast.Add)
            and isinstance(x.target, ast.Name)
            and x.target.id == i
            and isinstance(x.value, ast.Constant)
            and x.value.value == 1
        ) or (
            isinstance(x, ast.Assign)
            and len(x.targets) == 1
            and isinstance(x.targets[0], ast.Name)
            and x.targets[0].id == i
            and ast.unparse(x.value) in (f"{i} + 1", f"1 + {i}")
        ):
            incs += 1
    stores = {}
    mutated = set()
    for x in ast.walk(ast.Module(s.body, [])):
        if isinstance(x, ast.Name) and not isinstance(x.ctx, ast.Load):
            stores[x.id] = stores.get(x.id, 0) + 1
        elif isinstance(x, (ast.Continue, ast.Break)):
            return None
        elif isinstance(x, (ast.Attribute, ast.Subscript)) and not isinstance(
            x.ctx, ast.Load
        ):
            mutated.add(ast.unparse(x))
            mutated.add(ast.unparse(x.value))
        elif (
            isinstance(x, ast.Call)
            and isinstance(x.func, ast.Attribute)
            and x.func.attr
            in ("append", "extend", "insert", "pop", "remove", "clear", "update", "add")
        ):
            mutated.add(ast.unparse(x.func.value))
    if incs != 1 or stores.get(i) != 1:
        return None
    bb = b
    if (
        isinstance(bb, ast.Call)
        and isinstance(bb.func, ast.Name)
        and bb.func.id == "len"
        and len(bb.args) == 1
    ):
        bb = bb.args[0]
        if ast.unparse(bb) in mutated:
            return None
    x = bb
    while isinstance(x, ast.Attribute):
        if ast.unparse(x) in mutated:
            return None
        x = x.value
    if not isinstance(x, (ast.Name, ast.Constant)):
        return None
    if isinstance(x, ast.Name) and x.id in stores:
        return None
    hid = f"${i}"
    pre = ast.Assign([ast.Name(i, ast.Store())], ast.Name(hid, ast.Load()))
    loop = ast.For(
        ast.Name(hid, ast.Store()),
        ast.Call(ast.Name("range", ast.Load()), [ast.Name(i, ast.Load()), b], []),
        [pre] + s.body,
        [],
    )
    for n in (pre, loop):
        ast.copy_location(n, s)
        ast.fix_missing_locations(n)
    for n in ast.walk(loop):
        if not hasattr(n, "_mod"):
            n._mod = getattr(s, "_mod", None)
    return i, loop, b


class Interp:
    def __init__(self, proj: Project, max_depth=40):
        self.p = proj
        self.next_id = 1
        self.next_sid = 1
        self.depth = 0
        self.max_depth = max_depth
        self.ritems = {}
        self.lv = {}  # lv term -> (init, step)
        self.lv_by_lid = {}
        self.counts = {}  # lid -> count term
        self.notes = []
        self.needs = []  # (guard, key, node): key read although it may be absent
        self.raises = []
        self.missing = []
        self.in_try = 0
        self.gcache = {}
        self.gstate = State()
        self.cls_writes = []
        self.cls_state = {}
        self.reader_lvs = frozenset()
        self.calls_seen = set()
        self.budget = 400000
        self.splitdepth = 0
        self.cur = None  # the statement being interpreted
        self.stablekeys = {}
        self.sidkeys = {}
        self.sidlog = None
        self.forced = {}
        self.callstack = ()
        self.callnodes = ()
        self.inst_methods = {}
        self.str_hooks = {}
        self.unroll = 0  # iterations of endless loops over streams of known layout
        self.nonempty = set()  # values known to be true
        self.endless = []
        self.tells = 0
        self.tell = None  # position of a stream which was asked for last
        self.trace_len = None  # length of written items
        self.join_chunks = False  # reads across chunks keep them apart
        self.chunk_len = {}  # length of symbolic chunks of streams of known layout
        self.hooks = {}  # dotted function name -> python callable(interp, args, kw, st, node)

    # --------------------------------------------------------------- helpers

    def note(self, msg, node=None):
        self.notes.append((msg, getattr(node, "lineno", None)))

    def alloc(self, st, obj):
        i = self.next_id
        self.next_id += 1
        st.heap[i] = obj
        st.owner[i] = st.loops
        return Ref(i)

    def new_list(self, st, vals=()):
        return self.alloc(st, ListO(tuple(One(v) for v in vals)))

    def new_dict(self, st, pairs=()):
        return self.alloc(st, DictO(tuple(DE(k, v) for k, v in pairs)))

    LOW = {
        "vfbLib.compilers.base",
        "vfbLib.parsers.base",
        "vfbLib.compilers.value",
        "vfbLib.parsers.value",
        "vfbLib.helpers",
    }

    def site(self, node):
        """The innermost construct outside the stream primitives."""
        for n in (node,) + tuple(reversed(self.callnodes)):
            m = getattr(n, "_mod", None)
            if m is not None and m.name not in self.LOW:
                return n
        return node

    def position(self, st):
        return tuple(
            len(o.items) for o in st.heap.values() if isinstance(o, StreamO)
        )

    def stable(self, node, st):
        """A number for this program point in this context, the same when the
        point is analysed again."""
        key = (self.callstack, id(node), st.loops, st.ctx, self.position(st))
        if key not in self.stablekeys:
            self.stablekeys[key] = len(self.stablekeys) + 1
        return self.stablekeys[key]

    def fresh(self, ty="bool"):
        self.nsym = getattr(self, "nsym", 0) + 1
        return mk("sym", "u", self.nsym, ty=ty)

    def obj(self, st, v):
        if isinstance(v, Ref):
            o = st.heap.get(v.id)
            if o is None:
                o = self.gstate.heap.get(v.id)
            return o
        return None

    def ixs(self, st):
        return tuple(mk("ix", lid, ty="int") for lid in st.loops)

    # ------------------------------------------------------------ statements

    def run(self, stmts, st):
        stmts = list(stmts)
        i = 0
        while i < len(stmts):
            s = stmts[i]
            rest = stmts[i + 1 :]
            self.budget -= 1
            if self.budget < 0:
                raise RecursionError("analysis budget exhausted")
            snap = st.copy()
            try:
                if isinstance(s, ast.If):
                    c = self.cond(s.test, st)
                    c = st.simp(c)
                    if isk(c):
                        stmts = list(s.body if kv(c) else s.orelse) + rest
                        i = 0
                        continue
                    stT, stF = st.copy(), st.copy()
                    okT = stT.assume(c, True)
                    okF = stF.assume(c, False)
                    tT = self.run(s.body, stT) if okT else Leaf("raise", stT)
                    tF = self.run(s.orelse, stF) if okF else Leaf("raise", stF)
                    r = self.join(c, tT, tF)
                    if isinstance(r, Leaf) and r.kind == "next":
                        if r.st is not st:
                            st.become(r.st)
                        i += 1
                        continue
                    return self.cont(r, rest)
                elif isinstance(s, ast.Match):
                    r = self.do_match(s, st)
                else:
                    r = self.stmt(s, st)
            except CaseSplit as cs:
                r = self.split(cs, s, snap)
            except Raised as e:
                self.raises.append((e.what, getattr(e.node, "lineno", None)))
                if e.st is not None and e.st is not st:
                    # effects of the callee up to the exception
                    e.st.frames = e.st.frames[: len(snap.frames)]
                    st.become(e.st)
                    st.loops, st.ctx = snap.loops, snap.ctx
                return Leaf("raise", st, e.what, e.node)
            if r is None:
                i += 1
                continue
            if isinstance(r, Leaf) and r.kind == "next":
                if r.st is not st:
                    st.become(r.st)
                i += 1
                continue
            return self.cont(r, rest)
        return Leaf("next", st)

    def split(self, cs, s, snap):
        """Run one statement separately for each case of a distinction."""
        if self.splitdepth > 300:
            raise RecursionError("too many nested distinctions")
        self.splitdepth += 1
        try:
            return self.split_cases(cs, s, snap)
        finally:
            self.splitdepth -= 1

    def split_cases(self, cs, s, snap):
        if cs.consts is None:
            stT, stF = snap.copy(), snap.copy()
            okT, okF = stT.assume(cs.term, True), stF.assume(cs.term, False)
            tT = self.run([s], stT) if okT else Leaf("raise", stT)
            tF = self.run([s], stF) if okF else Leaf("raise", stF)
            return self.join(cs.term, tT, tF)
        if cs.term.op == "slot":
            dom = t.SLOT.setdefault(cs.term.args[0], {})
            ks = tuple(cs.consts)
            dom["dom"] = ks if "dom" not in dom else tuple(k for k in dom["dom"] if k in ks)
        leaves = []
        for c in cs.consts:
            s2 = snap.copy()
            if s2.assume(t.eq(cs.term, c)):
                leaves.append((t.eq(cs.term, c), self.run([s], s2)))
        leaves = [
            (c, tr) for c, tr in leaves if not (isinstance(tr, Leaf) and tr.kind == "raise")
        ]
        if not leaves:
            return Leaf("raise", snap)
        r = leaves[-1][1]
        for c, tr in reversed(leaves[:-1]):
            r = self.join(c, tr, r)
        return r

    def cont(self, tree, rest):
        if isinstance(tree, Br):
            tree = self.collapse_next(tree)
        if isinstance(tree, Leaf):
            if tree.kind == "next":
                return self.run(rest, tree.st) if rest else tree
            return tree
        return self.join(tree.c, self.cont(tree.a, rest), self.cont(tree.b, rest))

    def collapse_next(self, tree):
        return tree

    def join(self, c, a, b):
        """Join two outcome trees; dead (raising) outcomes are dropped."""
        if isinstance(a, Leaf) and a.kind == "raise":
            return b
        if isinstance(b, Leaf) and b.kind == "raise":
            return a
        if isinstance(a, Leaf) and isinstance(b, Leaf) and a.kind == b.kind:
            st = self.merge_states(c, a.st, b.st)
            val = self.merge_vals(c, a.val, b.val, a.st, b.st, st)
            return Leaf(a.kind, st, val, a.node)
        # (leaf next, br(...)) etc. stay a tree
        return Br(c, a, b)

    def collapse(self, tree, kinds):
        """Fold a tree whose leaves are all in `kinds` into one (state, value)."""
        if isinstance(tree, Leaf):
            return tree
        a, b = self.collapse(tree.a, kinds), self.collapse(tree.b, kinds)
        if isinstance(a, Leaf) and isinstance(b, Leaf):
            if a.kind == "raise":
                return b
            if b.kind == "raise":
                return a
            if a.kind in kinds and b.kind in kinds:
                st = self.merge_states(tree.c, a.st, b.st)
                va = a.val if a.val is not None else NONE
                vb = b.val if b.val is not None else NONE
                return Leaf(kinds[0], st, self.merge_vals(tree.c, va, vb, a.st, b.st, st))
        return Br(tree.c, a, b)

    def stmt(self, s, st):
        k = type(s).__name__
        self.cur = s
        if k == "Expr":
            if isinstance(s.value, ast.Constant):
                return None
            self.ev(s.value, st)
            return None
        if k == "Assign":
            v = self.ev(s.value, st)
            for tg in s.targets:
                self.assign(tg, v, st)
            return None
        if k == "AnnAssign":
            if s.value is not None:
                self.assign(s.target, self.ev(s.value, st), st)
            return None
        if k == "AugAssign":
            cur = self.ev(_load(s.target), st)
            rhs = self.ev(s.value, st)
            if isinstance(s.op, ast.Add) and isinstance(cur, Ref):
                self.method(cur, "extend", [rhs], {}, st, s)
                return None
            self.assign(s.target, self.binop(s.op, cur, rhs, st), st)
            return None
        if k == "Return":
            v = self.ev(s.value, st) if s.value is not None else NONE
            return Leaf("return", st, v, s)
        if k == "Pass" or k in ("Import", "ImportFrom", "Global", "Nonlocal"):
            if k in ("Import", "ImportFrom"):
                self.local_import(s, st)
            return None
        if k == "Raise":
            raise Raised(_name(s.exc), s)
        if k == "Assert":
            c = st.simp(self.cond(s.test, st))
            if c is FALSE:
                raise Raised("AssertionError", s)
            if not isk(c):
                st.assume(c, True)
            return None
        if k == "Break":
            return Leaf("break", st)
        if k == "Continue":
            return Leaf("continue", st)
        if k == "For":
            return self.do_for(s, st)
        if k == "While":
            return self.do_while(s, st)
        if k == "Try":
            return self.do_try(s, st)
        if k == "With":
            for it in s.items:
                v = self.ev(it.context_expr, st)
                if it.optional_vars is not None:
                    self.assign(it.optional_vars, v, st)
            return self.run(s.body, st)
        if k in ("FunctionDef",):
            st.frames[-1][s.name] = Fn(s.name, s, None, tuple(st.frames[-1].items()))
            return None
        if k == "Delete":
            for tg in s.targets:
                self.delete(tg, st, s)
            return None
        if k == "ClassDef":
            return None
        self.note(f"unsupported statement {k}", s)
        return None

    def delete(self, tg, st, node):
        from . import interp_expr as X

        if isinstance(tg, (ast.Tuple, ast.List)):
            for x in tg.elts:
                self.delete(x, st, node)
            return
        if isinstance(tg, ast.Name):
            st.frames[-1].pop(tg.id, None)
            return
        b = self.ev(tg.value, st)
        o = self.obj(st, b)
        if isinstance(tg, ast.Attribute):
            if isinstance(o, InstO):
                if any(a == tg.attr for a, _ in o.attrs):
                    st.heap[b.id] = InstO(
                        o.cls, tuple((a, v) for a, v in o.attrs if a != tg.attr)
                    )
                    return
        elif isinstance(o, DictO):
            key = self.ev(tg.slice, st)
            X._dict_method(self, b, o, "pop", [key], {}, st, node)
            return
        elif isinstance(o, ListO) and isinstance(tg.slice, ast.Slice):
            segs = list(self.simp_segs(o.segs, st))
            at = [
                self.ev(x, st) if x is not None else t.NONE
                for x in (tg.slice.lower, tg.slice.upper, tg.slice.step)
            ]
            if all(isinstance(g, One) for g in segs) and all(
                isinstance(x, T) and isk(x) for x in at
            ):
                del segs[slice(*[kv(x) for x in at])]
                st.heap[b.id] = ListO(tuple(segs))
                return
            if at == [t.NONE] * 3:
                st.heap[b.id] = ListO(())
                return
            st.heap[b.id] = UnkO("del")
            return
        elif isinstance(o, ListO):
            X._list_method(self, b, o, "pop", [self.ev(tg.slice, st)], {}, st, node)
            return
        self.note("unsupported del", node)
        if isinstance(b, Ref):
            st.heap[b.id] = UnkO("del")

    def local_import(self, s, st):
        for a in s.names:
            if isinstance(s, ast.ImportFrom):
                base = s.module or ""
                if base in self.p.modules:
                    st.frames[-1][a.asname or a.name] = self.glob(base, a.name)
                else:
                    st.frames[-1][a.asname or a.name] = Ext(f"{base}.{a.name}")
            else:
                st.frames[-1][a.asname or a.name.split(".")[0]] = Ext(a.name)

    def do_match(self, s, st):
        subj = st.simp(self.ev(s.subject, st)) if True else None
        return self._match(subj, s.cases, st)

    def _match(self, subj, cases, st):
        if not cases:
            return None
        c0 = cases[0]
        c = self.pat(subj, c0.pattern, st)
        if c is None:
            self.note("unsupported pattern", c0.pattern)
            c = mk("sym", "pattern", id(c0), ty="bool")
        if c0.guard is not None:
            c = t.and_(c, self.cond(c0.guard, st))
        c = st.simp(c)
        if c is TRUE:
            return self.run(c0.body, st)
        if c is FALSE:
            return self._match(subj, cases[1:], st)
        a, b = st.copy(), st.copy()
        a.assume(c, True)
        b.assume(c, False)
        ta = self.run(c0.body, a)
        tb = self._match(subj, cases[1:], b) or Leaf("next", b)
        return self.join(c, ta, tb)

    def pat(self, subj, p, st):
        if isinstance(p, ast.MatchValue):
            v = self.ev(p.value, st)
            return self.eqv(subj, v, st)
        if isinstance(p, ast.MatchSingleton):
            return self.is_none(subj, st) if p.value is None else t.eq(subj, K(p.value))
        if isinstance(p, ast.MatchOr):
            cs = [self.pat(subj, q, st) for q in p.patterns]
            if any(c is None for c in cs):
                return None
            return t.or_(*cs)
        if isinstance(p, ast.MatchAs):
            if p.pattern is None:
                if p.name:
                    st.frames[-1][p.name] = subj
                return TRUE
            c = self.pat(subj, p.pattern, st)
            if p.name:
                st.frames[-1][p.name] = subj
            return c
        return None

    def do_try(self, s, st):
        snap = st.copy()
        nneeds = len(self.needs)
        if s.handlers:
            self.in_try += 1
        try:
            r = self.run(s.body, st)
            r = self.collapse(r, ("next",))
            gs = [g for g, _, _ in self.needs[nneeds:] if isinstance(g, T)]
            if s.handlers and gs:
                # a lookup that may fail: body and handler are alternatives
                del self.needs[nneeds:]
                g = t.and_(*gs)
                a, b = snap.copy(), snap.copy()
                a.assume(g, True)
                b.assume(g, False)
                h = s.handlers[0]
                ra = self.run(list(s.body) + list(s.orelse), a)
                if h.name:
                    b.frames[-1][h.name] = U
                rb = self.run(h.body, b)
                del self.needs[nneeds:]
                r = self.join(g, ra, rb)
                if s.finalbody:
                    r = self.cont(r, s.finalbody)
                return r
        finally:
            if s.handlers:
                self.in_try -= 1
        if isinstance(r, Leaf) and r.kind == "raise":
            # definite exception: the first handler that catches it
            h = next((h for h in s.handlers if _catches(h, r.val)), None)
            if h is not None:
                if r.st is not st:
                    st.become(r.st)
                st.frames = st.frames[: len(snap.frames)]
                st.loops, st.ctx = snap.loops, snap.ctx
                if h.name:
                    st.frames[-1][h.name] = U
                caught = (r.val, r.node)
                r = self.run(h.body, st)
                if isinstance(r, Leaf) and r.kind == "raise" and r.val is None:
                    r.val, r.node = caught
        elif isinstance(r, Leaf) and r.kind == "next":
            if s.orelse:
                r = self.run(s.orelse, r.st)
        if s.finalbody:
            r = self.cont(r, s.finalbody)
        return r

    # ----------------------------------------------------------------- loops

    def do_for(self, s, st):
        it = self.ev(s.iter, st)
        segs = self.segs_of(it, st, s)
        if segs is None:
            self.havoc_loop(s.body, st, f"loop over unknown", s)
            return None

        def body(state, v):
            self.assign(s.target, v, state)
            return self.run(s.body, state)

        return self.iterate(list(segs), body, st, s.orelse)

    def iterate(self, segs, body, st, orelse=()):
        """Runs body over segments; returns tree with next/return leaves."""
        i = 0
        while i < len(segs):
            g = segs[i]
            rest = segs[i + 1 :]
            if isinstance(g, One):
                tree = body(st, g.v)
                tree = self.collapse(tree, ("next", "continue"))
                if isinstance(tree, Leaf) and tree.kind in ("next", "continue"):
                    if tree.st is not st:
                        st.become(tree.st)
                    i += 1
                    continue
                return self._iter_cont(tree, rest, body, orelse)
            if isinstance(g, Opt):
                c = st.simp(g.c)
                if isk(c):
                    segs = list(g.a if kv(c) else g.b) + rest
                    i = 0
                    continue
                a, b = st.copy(), st.copy()
                a.assume(c, True)
                b.assume(c, False)
                ta = self.iterate(list(g.a), body, a)
                tb = self.iterate(list(g.b), body, b)
                ta = Leaf("next", a) if ta is None else ta
                tb = Leaf("next", b) if tb is None else tb
                r = self.join(c, ta, tb)
                if isinstance(r, Leaf) and r.kind == "next":
                    st.become(r.st)
                    i += 1
                    continue
                return self._iter_cont(r, rest, body, orelse)
            if isinstance(g, Rep):
                self.exec_rep(g.lid, g.count, g.segs, body, st)
                i += 1
                continue
            raise AssertionError(g)
        return Leaf("next", st)

    def _iter_cont(self, tree, rest, body, orelse):
        if isinstance(tree, Br):
            return self.join(
                tree.c,
                self._iter_cont(tree.a, rest, body, orelse),
                self._iter_cont(tree.b, rest, body, orelse),
            )
        if tree.kind in ("next", "continue"):
            return self.iterate(rest, body, tree.st, orelse)
        if tree.kind == "break":
            return Leaf("next", tree.st)
        return tree

    def exec_rep(self, lid, count, segs, body, st, preset=None, extra_assume=None):
        """Summarise the repetition of `body` over segs (count times)."""
        if lid in st.loops:
            k = 1
            while ("dup", lid, k) in st.loops:
                k += 1
            new = ("dup", lid, k)
            segs = tuple(
                self.inst_seg(g, {mk("ix", lid, ty="int"): mk("ix", new, ty="int")}, st)
                for g in segs
            )
            lid = new
        self.counts[lid] = count
        base = st.copy()
        gen = dict(preset or {})
        cand_used = {}
        lvs = {}
        e = h = None
        for attempt in range(10):
            h = base.copy()
            for oid, o in list(h.heap.items()):
                if isinstance(o, StreamO):
                    h.heap[oid] = replace(o, items=())
            self.apply_gen(h, gen, base)
            h.loops = base.loops + (lid,)
            if extra_assume is not None:
                extra_assume(h)
            head = h.copy()
            tree = self.iterate(list(segs), body, h) if segs is not None else body(h, None)
            tree = self.collapse(tree, ("next", "continue"))
            if isinstance(tree, Br) or tree.kind not in ("next", "continue", "raise"):
                # early exit of a symbolic loop
                self.note(f"early exit in summarised loop {lid}")
                tree = self.force_next(tree)
                for oid, o in tree.st.heap.items():
                    if isinstance(o, StreamO) and oid in base.heap:
                        tree.st.heap[oid] = replace(o, items=o.items + (TOpq("early exit"),))
            if tree.kind == "raise":
                self.note(f"loop body always raises: {lid}")
                return
            e = tree.st
            fresh = self.find_changes(base, head, e, gen, lid, lvs)
            if fresh:
                gen.update(fresh)
                continue
            # congruence with already known loop-carried values of the same loop
            if self.try_congruence(lid, lvs, gen, head, e, cand_used):
                continue
            break
        else:
            self.note(f"loop did not stabilise: {lid}")
        # record LVs
        for lvt, (init, path) in lvs.items():
            step = self.value_at(path, e)
            self.lv[lvt] = (init, step)
            self.lv_by_lid.setdefault(lid, [])
            if lvt not in self.lv_by_lid[lid]:
                self.lv_by_lid[lid].append(lvt)
        self.finish_rep(lid, count, base, head, e, gen, lvs, st)

    def force_next(self, tree):
        if isinstance(tree, Leaf):
            return Leaf("next", tree.st, tree.val) if tree.kind != "raise" else tree
        a, b = self.force_next(tree.a), self.force_next(tree.b)
        if a.kind == "raise":
            return b
        if b.kind == "raise":
            return a
        return Leaf("next", self.merge_states(tree.c, a.st, b.st))

    # -- generalisation of loop-carried locations

    def apply_gen(self, st, gen, base):
        for loc, v in gen.items():
            if loc[0] == "v":
                st.frames[-1][loc[1]] = v
            elif loc[0] == "a":
                o = st.heap.get(loc[1])
                if isinstance(o, InstO):
                    st.heap[loc[1]] = o.set(loc[2], v)
            elif loc[0] == "h":
                st.heap[loc[1]] = v
            elif loc[0] == "x":
                st.heap[loc[1]] = v
                st.owner[loc[1]] = st.owner.get(loc[2], ())

    def mklv(self, lid, path, init, ixs, lvs):
        lvt = mk("lv", lid, path, tuple(ixs), ty=t.typeof(init))
        lvs[lvt] = (init, path)
        return lvt

    def find_changes(self, base, head, e, gen, lid, lvs):
        fresh = {}
        hf, ef = head.frames[-1], e.frames[-1]
        bf = base.frames[-1]
        for name, ev_ in ef.items():
            if name not in bf:
                continue
            hv = hf.get(name)
            if hv == ev_ or ("v", name) in gen:
                continue
            g = self.gen_value(bf[name], ev_, lid, ("v", name), (), base, e, lvs, fresh)
            fresh[("v", name)] = g
        for oid, bo in base.heap.items():
            eo = e.heap.get(oid)
            ho = head.heap.get(oid)
            if eo is ho or eo == ho or isinstance(eo, StreamO):
                continue
            if lid in base.owner.get(oid, ()):  # element template of this very loop
                continue
            if isinstance(bo, InstO) and isinstance(eo, InstO):
                for n, v in eo.attrs:
                    b0 = bo.get(n)
                    if b0 is None or ho.get(n) == v or ("a", oid, n) in gen:
                        continue
                    fresh[("a", oid, n)] = self.gen_value(
                        b0, v, lid, ("a", oid, n), (), base, e, lvs, fresh
                    )
                continue
            if ("h", oid) in gen:
                continue
            if isinstance(bo, ListO) and isinstance(eo, ListO):
                if eo.segs[: len(ho.segs)] == ho.segs:
                    continue  # append-only
                if (
                    len(bo.segs) == 1
                    and isinstance(bo.segs[0], Rep)
                    and bo.segs[0].lid == lid
                ):
                    continue  # pointwise update
                g = self.gen_list(bo, eo, lid, ("h", oid), (), base, e, lvs, fresh)
                fresh[("h", oid)] = g
            elif isinstance(bo, DictO) and isinstance(eo, DictO):
                ents = list(bo.entries)
                bad = False
                changed = False
                hk = {x.key: x for x in ho.entries if isinstance(x, DE)}
                for x in eo.entries:
                    if not isinstance(x, DE):
                        continue
                    if x.key in hk:
                        if hk[x.key] != x:
                            changed = True
                            ents = [
                                DE(
                                    y.key,
                                    self.gen_value(
                                        y.val,
                                        x.val,
                                        lid,
                                        ("d", oid, x.key),
                                        (),
                                        base,
                                        e,
                                        lvs,
                                        fresh,
                                    ),
                                    y.guard
                                    if y.guard is x.guard
                                    else mk("sym", "guard", lid, x.key, ty="bool"),
                                )
                                if isinstance(y, DE) and y.key == x.key
                                else y
                                for y in ents
                            ]
                    elif isk(x.key):
                        changed = True
                        ents.append(
                            DE(
                                x.key,
                                mk("lv", lid, ("d", oid, x.key), (), ty=t.typeof(x.val) if isinstance(x.val, T) else None),
                                mk("sym", "seen", lid, x.key, ty="bool"),
                            )
                        )
                if changed:
                    fresh[("h", oid)] = DictO(tuple(ents))
            elif isinstance(bo, SetO) or isinstance(bo, UnkO):
                fresh[("h", oid)] = UnkO("set changed in loop")
        return fresh

    def gen_value(self, bv, ev_, lid, path, ixs, base, e, lvs, fresh):
        if isinstance(bv, T) and isinstance(ev_, T):
            return self.mklv(lid, path, bv, ixs, lvs)
        if isinstance(bv, Ref) and isinstance(ev_, Ref):
            bo, eo = self.obj(base, bv), self.obj(e, ev_)
            if isinstance(bo, ListO) and isinstance(eo, ListO):
                g = self.gen_list(bo, eo, lid, path + ("*",), ixs, base, e, lvs, fresh)
                i = self.next_id
                self.next_id += 1
                fresh[("x", i, bv.id)] = g
                return Ref(i)
        if isinstance(bv, Tup) and isinstance(ev_, Tup) and len(bv.items) == len(ev_.items):
            return Tup(
                tuple(
                    self.gen_value(a, b, lid, path + (n,), ixs, base, e, lvs, fresh)
                    if a != b
                    else a
                    for n, (a, b) in enumerate(zip(bv.items, ev_.items))
                )
            )
        return UnkV("loop-carried")

    def gen_list(self, bo, eo, lid, path, ixs, base, e, lvs, fresh):
        if len(bo.segs) != len(eo.segs):
            return UnkO("loop-carried list")
        out = []
        for n, (a, b) in enumerate(zip(bo.segs, eo.segs)):
            if isinstance(a, One) and isinstance(b, One):
                out.append(
                    a
                    if a == b
                    else One(
                        self.gen_value(a.v, b.v, lid, path + (n,), ixs, base, e, lvs, fresh)
                    )
                )
            elif isinstance(a, Rep) and isinstance(b, Rep) and a.lid == b.lid:
                if len(a.segs) != 1 or len(b.segs) != 1:
                    return UnkO("loop-carried list")
                x, y = a.segs[0], b.segs[0]
                if not (isinstance(x, One) and isinstance(y, One)):
                    return UnkO("loop-carried list")
                v = self.gen_value(
                    x.v,
                    y.v,
                    lid,
                    path + (n, "rep"),
                    ixs + (mk("ix", a.lid, ty="int"),),
                    base,
                    e,
                    lvs,
                    fresh,
                )
                out.append(Rep(a.lid, a.count, (One(v),)))
            else:
                return UnkO("loop-carried list")
        return ListO(tuple(out))

    def value_at(self, path, e):
        """Value of a generalised location in state e."""
        try:
            if path[0] == "v":
                v, rest = e.frames[-1].get(path[1]), path[2:]
            elif path[0] == "a":
                v, rest = e.heap[path[1]].get(path[2]), path[3:]
            elif path[0] == "h":
                v, rest = e.heap[path[1]], path[2:]
            elif path[0] == "d":
                o = e.heap[path[1]]
                v = next(x.val for x in o.entries if isinstance(x, DE) and x.key == path[2])
                rest = path[3:]
            else:
                return U
            for step in rest:
                if isinstance(v, Ref):
                    v = e.heap.get(v.id)
                if step == "*":
                    continue
                if step == "rep":
                    v = v.segs[0].v if isinstance(v, Rep) else U
                elif isinstance(v, ListO):
                    g = v.segs[step]
                    v = g.v if isinstance(g, One) else g
                elif isinstance(v, Tup):
                    v = v.items[step]
                else:
                    return U
            return v
        except Exception:
            return U

    def try_congruence(self, lid, lvs, gen, head, e, used):
        known = [x for x in self.lv_by_lid.get(lid, []) if x not in lvs]
        if not known:
            return False
        mapping = {}
        taken = set(used.values())
        for f, (init, path) in list(lvs.items()):
            if f in used or f in used.values():
                continue
            step = self.value_at(path, e)
            if not isinstance(step, T):
                continue
            for r in known:
                if r in taken or r in mapping.values():
                    continue
                ri, rs = self.lv[r]
                if ri is not init or not isinstance(rs, T):
                    continue
                if len(r.args[2]) != len(f.args[2]):
                    continue
                ren = dict(zip(f.args[2], r.args[2]))
                s2 = t.subst(step, {f: r, **ren})
                if s2 is rs:
                    mapping[f] = t.subst(r, {v: k for k, v in ren.items()})
                    break
        if not mapping:
            return False
        for f, r in mapping.items():
            used[f] = r
            del lvs[f]
        memo = {}

        def sub(v):
            if isinstance(v, T):
                return t.subst(v, mapping, memo)
            if isinstance(v, Tup):
                return Tup(tuple(sub(x) for x in v.items))
            if isinstance(v, ListO):
                return ListO(tuple(sub(g) for g in v.segs))
            if isinstance(v, One):
                return One(sub(v.v))
            if isinstance(v, Rep):
                return Rep(v.lid, v.count, tuple(sub(g) for g in v.segs))
            if isinstance(v, DictO):
                return DictO(
                    tuple(DE(x.key, sub(x.val), x.guard) if isinstance(x, DE) else x for x in v.entries)
                )
            return v

        for k in list(gen):
            gen[k] = sub(gen[k])
        return True

    def finish_rep(self, lid, count, base, head, e, gen, lvs, st):
        out = base.copy()
        finmap = {}
        for lvt, (init, path) in lvs.items():
            step = self.value_at(path, e)
            finmap[lvt] = self.final_value(lid, count, lvt, init, step)
        # reused (congruent) LVs
        for v in gen.values():
            for x in t.atoms(self._terms_in(v)):
                if x.op == "lv" and x.args[0] == lid and x not in finmap:
                    i, s = self.lv.get(x, (None, None))
                    finmap[x] = (
                        self.final_value(lid, count, x, i, s) if i is not None else mk("fin", x)
                    )
        memo = {}

        def fin(v):
            if isinstance(v, T):
                return t.subst(v, finmap, memo) if finmap else v
            if isinstance(v, Tup):
                return Tup(tuple(fin(x) for x in v.items))
            if isinstance(v, One):
                return One(fin(v.v))
            if isinstance(v, Rep):
                return Rep(v.lid, v.count, tuple(fin(g) for g in v.segs))
            if isinstance(v, ListO):
                return ListO(tuple(fin(g) for g in v.segs))
            if isinstance(v, DictO):
                return DictO(
                    tuple(
                        DE(x.key, fin(x.val), t.TRUE if False else x.guard)
                        if isinstance(x, DE)
                        else x
                        for x in v.entries
                    )
                )
            return v

        # new heap objects
        for oid, o in e.heap.items():
            if oid not in base.heap:
                out.heap[oid] = o
                out.owner[oid] = e.owner.get(oid, ())
        # frames
        bf, ef = base.frames[-1], e.frames[-1]
        for n, v in ef.items():
            if n in bf:
                if ("v", n) in gen:
                    out.frames[-1][n] = fin(gen[("v", n)])
                elif bf[n] != v:
                    out.frames[-1][n] = UnkV("loop")
            else:
                out.frames[-1][n] = UnkV(f"value of {n} after loop")
        for oid, bo in base.heap.items():
            eo, ho = e.heap.get(oid), head.heap.get(oid)
            if eo is ho or eo == ho:
                if ("h", oid) in gen:
                    out.heap[oid] = fin(gen[("h", oid)])
                continue
            if isinstance(eo, StreamO):
                if eo.items:
                    out.heap[oid] = replace(
                        bo, items=bo.items + (TRep(lid, count, eo.items),)
                    )
                continue
            if lid in base.owner.get(oid, ()):
                out.heap[oid] = eo
                continue
            if isinstance(bo, InstO):
                o2 = bo
                for n, v in eo.attrs:
                    if ("a", oid, n) in gen:
                        o2 = o2.set(n, fin(gen[("a", oid, n)]))
                    elif bo.get(n) is None:
                        o2 = o2.set(n, v)
                out.heap[oid] = o2
                continue
            if ("h", oid) in gen:
                g = gen[("h", oid)]
                out.heap[oid] = fin(g)
                continue
            if isinstance(bo, ListO) and isinstance(eo, ListO):
                if eo.segs[: len(ho.segs)] == ho.segs:
                    suf = eo.segs[len(ho.segs) :]
                    out.heap[oid] = replace(
                        bo, segs=bo.segs + (Rep(lid, count, suf),)
                    )
                else:
                    out.heap[oid] = eo  # pointwise
                continue
            if isinstance(bo, DictO) and isinstance(eo, DictO):
                hk = set(x for x in ho.entries)
                new = tuple(x for x in eo.entries if x not in hk)
                out.heap[oid] = DictO(bo.entries + self.lift_entries(lid, count, new))
                continue
            out.heap[oid] = UnkO("changed in loop")
        out.loops = base.loops
        st.become(out)

    def _terms_in(self, v):
        if isinstance(v, T):
            return (v,)
        if isinstance(v, Tup):
            return tuple(x for i in v.items for x in self._terms_in(i))
        if isinstance(v, One):
            return self._terms_in(v.v)
        if isinstance(v, (Rep, ListO)):
            return tuple(x for g in v.segs for x in self._terms_in(g))
        if isinstance(v, DictO):
            return tuple(
                x for d in v.entries if isinstance(d, DE) for x in self._terms_in(d.val)
            )
        return ()

    def lift_entries(self, lid, count, new):
        """Dict entries added once per iteration of lid."""
        out, rest = [], []
        for x in new:
            if not isinstance(x, DE) or not isinstance(x.key, T):
                rest.append(x)
                continue
            tab, var = _table_key(x.key)
            if tab is None:
                if isk(x.key):
                    out.append(DE(x.key, x.val, mk("sym", "seen", lid, x.key, ty="bool")))
                else:
                    rest.append(x)
                continue
            for k, v in tab:
                out.append(DE(v, self.at_value(lid, k, x.val), mk("present", lid, k, ty="bool")))
            if x.key.op == "ite":
                rest.append(DE(x.key.args[2], x.val, t.not_(x.key.args[0])))
        if rest:
            out.append(DR(lid, count, tuple(rest)))
        return tuple(out)

    def at_value(self, lid, k, v):
        if isinstance(v, T):
            return v if isk(v) else mk("at", lid, k, v, ty=t.typeof(v))
        return U

    def final_value(self, lid, count, lvt, init, step):
        if isinstance(step, T) and isinstance(init, T):
            if step is lvt:
                return init
            if step.op == "cat" and step.args and step.args[0] is lvt and init is K(""):
                return mk("strjoin", lid, t.cat(*step.args[1:]), ty="str")
            ix = mk("ix", lid, ty="int")
            if lid[0] == "bits":
                want = t.pow_(K(2), ix)
                d = t.sub(step, lvt) if t.typeof(step) == "int" else None
                if d is want or step is t.bor(lvt, want) or step is t.bor(want, lvt):
                    if isint(init) and kv(init) == 0 or d is want:
                        return t.add(init, lid[1])
            if t.typeof(step) == "int" and t.typeof(init) == "int":
                d = t.sub(step, lvt)
                if isint(d) and isinstance(count, T):
                    return t.add(init, t.mul(count, d))
        return mk("fin", lvt, ty=lvt.ty)

    def havoc_loop(self, body, st, why, node):
        """Loop we cannot summarise: everything it may touch becomes unknown."""
        self.note(why, node)
        s = st.copy()
        try:
            for n in ast.walk(ast.Module(body=list(body), type_ignores=[])):
                if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                    s.frames[-1][n.id] = U
            tree = self.force_next(self.run(body, s))
            e = tree.st
        except (Raised, CaseSplit):
            e = s
        for n, v in e.frames[-1].items():
            if st.frames[-1].get(n) != v:
                st.frames[-1][n] = U
        for oid, o in e.heap.items():
            b = st.heap.get(oid)
            if b is None or b == o:
                continue
            if isinstance(b, StreamO):
                st.heap[oid] = replace(b, items=b.items + (TOpq(why),))
            elif isinstance(b, InstO):
                ob = b
                for n, v in o.attrs:
                    if b.get(n) != v:
                        ob = ob.set(n, U)
                st.heap[oid] = ob
            else:
                st.heap[oid] = UnkO(why)

    def do_while(self, s, st):
        test = s.test
        forever = isinstance(test, ast.Constant) and bool(test.value)
        if forever and self.unroll:
            return self.do_unrolled(s, st)
        if forever:
            # `while True: try: ... except EOFError: ...`
            body = [x for x in s.body if not _is_doc(x)]
            tries = [x for x in body if isinstance(x, ast.Try)]
            for tr in tries:
                eofh = [h for h in tr.handlers if _catches(h, "EOFError")]
                if eofh and _exits(eofh[0].body):
                    pre = body[: body.index(tr)]
                    post = body[body.index(tr) + 1 :]
                    stm = pre + list(tr.body) + list(tr.orelse) + post
                    lid = ("eof", self.stable(tr, st))
                    self.exec_rep(
                        lid, mk("count", lid, ty="int"), None, lambda h, _: self.run(stm, h), st
                    )
                    for p_ in pre:
                        pass
                    r = self.run(eofh[0].body, st)
                    return self._loop_exit(r)
            return self.tag_loop(s, st)
        self.tell = None
        c = st.simp(self.cond(test, st))
        if c is FALSE:
            return self.run(s.orelse, st) if s.orelse else None
        if self.tell is not None and before_end(c, self.tell) and not s.orelse:
            # `while stream.tell() < <size of the stream>: ...`
            lid = ("eof", self.stable(s, st))
            n = mk("count", lid, ty="int")
            return self.exec_rep(lid, n, None, lambda h, _: self.run(s.body, h), st)
        cf = counter_form(s)
        if cf is not None and isinstance(st.frames[-1].get(cf[0]), T):
            name, loop, bound = cf
            r = self.do_for(loop, st)
            v = self.ev(bound, st)
            if isinstance(v, T) and not (isinstance(r, Leaf) and r.kind != "next"):
                st.frames[-1][name] = v
            return r
        # concrete unrolling when the condition stays constant
        if c is TRUE:
            cur = st.copy()
            for _ in range(300):
                tree = self.run(s.body, cur)
                tree = self.collapse(tree, ("next", "continue"))
                if isinstance(tree, Leaf) and tree.kind in ("next", "continue"):
                    cur = tree.st
                    c = cur.simp(self.cond(test, cur))
                    if c is FALSE:
                        st.become(cur)
                        return None
                    if c is not TRUE:
                        break
                elif isinstance(tree, Leaf):
                    if tree.st is not st:
                        st.become(tree.st)
                    return None if tree.kind == "break" else tree
                else:
                    break
        return self.sym_while(s, st)

    def do_unrolled(self, s, st):
        for _ in range(self.unroll):
            tree = self.collapse(self.run(s.body, st), ("next", "continue", "break"))
            if not isinstance(tree, Leaf):
                self.note("a loop over known entries depends on unknown values", s)
                return self.force_next(tree)
            if tree.st is not st:
                st.become(tree.st)
            if tree.kind in ("next", "continue"):
                continue
            if tree.kind == "break":
                return None
            return tree
        self.note("loop does not end", s)
        self.endless.append(s)
        return None

    def _loop_exit(self, r):
        if isinstance(r, Leaf):
            if r.kind in ("break", "continue"):
                return Leaf("next", r.st)
            return r
        return Br(r.c, self._loop_exit(r.a), self._loop_exit(r.b))

    def sym_while(self, s, st):
        lid = ("while", self.stable(s, st))
        probe = st.copy()
        heads = {}

        def body(h, _):
            heads["c"] = h.simp(self.cond(s.test, h))
            h.assume(heads["c"], True)
            return self.run(s.body, h)

        lvs_before = set(self.lv)
        nn = len(self.notes)
        try:
            self.exec_rep(lid, mk("count", lid, ty="int"), None, body, probe)
        except (Raised, CaseSplit):
            self.havoc_loop(s.body, st, "while", s)
            return None
        lvs = [x for x in self.lv if x not in lvs_before]
        c = heads.get("c")
        # counter idiom: i < N, i += 1
        for f in lvs:
            init, step = self.lv[f]
            if not isinstance(step, T) or t.typeof(step) != "int":
                continue
            if t.sub(step, f) is K(1) and c.op == "lt" and c.args[0] is f:
                n = c.args[1]
                if not any(a.op == "lv" and a.args[0] == lid for a in t.atoms(n)):
                    cnt = t.sub(n, init)
                    l2 = self.range_lid(cnt, st)
                    ix = mk("ix", l2, ty="int")
                    path = f.args[1]
                    del self.notes[nn:]
                    self.exec_rep(
                        l2,
                        cnt,
                        None,
                        lambda h, _: self.run(s.body, h),
                        st,
                        preset={path: t.add(init, ix)} if path[0] == "v" else None,
                    )
                    if path[0] == "v":
                        st.frames[-1][path[1]] = n
                    return None
        # bit enumeration idiom
        for f in lvs:
            init, step = self.lv[f]
            if (
                step is t.shr(f, K(1))
                and c is t.truthy(f)
                and isinstance(init, T)
            ):
                for g in lvs:
                    gi, gs = self.lv[g]
                    if g is f or not isinstance(gs, T) or t.sub(gs, g) is not K(1):
                        continue
                    bitc = t.truthy(t.band(f, K(1)))
                    done = False
                    for oid, o in probe.heap.items():
                        b = st.heap.get(oid)
                        if isinstance(o, ListO) and isinstance(b, ListO) and o != b:
                            suf = o.segs[len(b.segs) :]
                            if (
                                len(suf) == 1
                                and isinstance(suf[0], Rep)
                                and suf[0].lid == lid
                                and len(suf[0].segs) == 1
                                and isinstance(suf[0].segs[0], Opt)
                            ):
                                op = suf[0].segs[0]
                                val = None
                                if op.c is bitc and op.a == (One(g),) and not op.b:
                                    val = 1
                                elif op.c is t.not_(bitc) and op.b == (One(g),) and not op.a:
                                    val = 1
                                if val:
                                    bl = ("bits", init)
                                    el = t.add(gi, mk("ix", bl, ty="int"))
                                    st.heap[oid] = replace(
                                        b,
                                        segs=b.segs
                                        + (Rep(bl, mk("count", bl, ty="int"), (One(el),)),),
                                    )
                                    done = True
                    if done:
                        del self.notes[nn:]
                        for n in list(st.frames[-1]):
                            if ("v", n) in (f.args[1], g.args[1]):
                                st.frames[-1][n] = UnkV("after bit loop")
                        return None
        self.havoc_loop(s.body, st, "while loop", s)
        return None

    def range_lid(self, n, st):
        k = 0
        while ("range", n, k) in st.loops:
            k += 1
        return ("range", n, k)

    # -- tag-dispatched read loops

    def tag_loop(self, s, st):
        lid = ("tag", self.stable(s, st))
        base = st.copy()
        consts, tagterm = self.probe_tags(s, base, lid)
        if consts is None or not consts:
            self.havoc_loop(s.body, st, "while True loop without recognised tag", s)
            # the function may only leave through return: unknown afterwards
            if not any(isinstance(n, ast.Break) for n in ast.walk(s)):
                return Leaf("return", st, U)
            return None
        st.become(self.tag_loop_run(s, base, lid, consts, tagterm))
        end = self._tag_end
        if end is None:
            self.note("tag loop without end", s)
            return None
        kind, val = end
        if kind == "return":
            return Leaf("return", st, val)
        return None

    def probe_tags(self, s, base, lid):
        """Constants the first value read in each iteration is compared with."""
        h = base.copy()
        for oid, o in list(h.heap.items()):
            if isinstance(o, StreamO):
                h.heap[oid] = replace(o, items=())
        h.loops = base.loops + (lid,)
        mark = []
        saved_log, self.sidlog = self.sidlog, mark
        saved_watch = self._eqwatch
        nn, nr = len(self.notes), len(self.raises)
        h.force = ("probe", lid)
        h.ctx = base.ctx + ((lid, "probe"),)
        seen = []
        self._eqwatch = seen
        try:
            self.run(s.body, h)
        except (Raised, CaseSplit, RecursionError):
            pass
        self._eqwatch = saved_watch
        del self.notes[nn:], self.raises[nr:]
        first = None
        self.sidlog = saved_log
        if mark:
            first = self.ritems[mark[0]]
        if first is None:
            return None, None
        consts = []
        for a, k in seen:
            if a.op == "slot" and a.args[0] == first.sid and isint(k) and k not in consts:
                consts.append(k)
        # order: as encountered
        return consts, first

    _eqwatch = None

    def tag_loop_run(self, s, base, lid, consts, first):
        ix_states = {}
        self._tag_end = None
        kind0 = first.kind

        def one(c, pre):
            h = base.copy()
            for oid, o in list(h.heap.items()):
                if isinstance(o, StreamO):
                    h.heap[oid] = replace(o, items=())
            # attributes / variables provided by other tags
            for oid, n, v in pre:
                o = h.heap.get(oid)
                if isinstance(o, InstO) and o.get(n) is None:
                    h.heap[oid] = o.set(n, v)
            h.loops = base.loops if c is not None else base.loops + (lid,)
            h.force = ("tag", c, lid, tuple(consts))
            h.ctx = base.ctx + ((lid, c),)
            head = h.copy()
            tree = self.run(s.body, h)
            tree = self.collapse(tree, ("next", "continue"))
            return head, tree

        pre = []
        results = {}
        for rnd in range(3):
            results = {}
            newpre = []
            for c in consts + [None]:
                head, tree = one(c, pre)
                results[c] = (head, tree)
                if isinstance(tree, Leaf) and tree.kind != "raise":
                    for oid, o in tree.st.heap.items():
                        b = base.heap.get(oid)
                        if isinstance(o, InstO) and isinstance(b, InstO):
                            for n, v in o.attrs:
                                if b.get(n) is None and not any(
                                    x[0] == oid and x[1] == n for x in newpre
                                ):
                                    newpre.append((oid, n, v))
            if {(a, b) for a, b, _ in newpre} == {(a, b) for a, b, _ in pre}:
                # one more round with final values only if terms changed
                if newpre == pre:
                    break
            # carry heap objects referenced by pre values along
            for _, tree in results.values():
                if isinstance(tree, Leaf):
                    for oid, o in tree.st.heap.items():
                        if oid not in base.heap and not isinstance(o, StreamO):
                            base.heap.setdefault(oid, o)
                            base.owner.setdefault(oid, tree.st.owner.get(oid, ()))
            pre = newpre
        cases, other = [], None
        out = base.copy()
        endstates = []
        for c in consts + [None]:
            head, tree = results[c]
            end = False
            if isinstance(tree, Br):
                ks = _kinds(tree)
                self.note(f"tag case {c} with mixed exits {ks}", s)
                tree = self.force_next(tree)
                for oid, o in tree.st.heap.items():
                    if isinstance(o, StreamO) and oid in base.heap:
                        tree.st.heap[oid] = replace(o, items=o.items + (TOpq("mixed exits"),))
            if tree.kind == "raise":
                continue
            if tree.kind in ("break", "return"):
                end = True
            e = tree.st
            items = ()
            for oid, o in e.heap.items():
                if isinstance(o, StreamO) and oid in base.heap and o.items:
                    items = items + o.items
                    sid = oid
            if c is None:
                other = (items, head, e)
            else:
                cases.append((c, items, "end" if end else "next"))
            if end:
                endstates.append((c, tree, head))
                continue
            if c is None:
                continue
            guard = mk("present", lid, c, ty="bool")
            self.apply_guarded(out, head, e, guard, base)
        if other is not None:
            items, head, e = other
            # plain repetition of the untagged case
            self.counts[lid] = mk("count", lid, ty="int")
            self.finish_rep(lid, self.counts[lid], base, head, e, {}, {}, tmp := base.copy())
            for oid, o in tmp.heap.items():
                b = base.heap.get(oid)
                if isinstance(o, StreamO):
                    continue
                if b is None or b != o:
                    out.heap[oid] = o
                    out.owner[oid] = tmp.owner.get(oid, ())
            other = items
        # the trace
        streams = [oid for oid, o in base.heap.items() if isinstance(o, StreamO)]
        target = None
        for c in consts + [None]:
            head, tree = results[c]
            if isinstance(tree, Leaf) and tree.kind != "raise":
                for oid in streams:
                    if tree.st.heap[oid].items:
                        target = oid
        if target is not None:
            o = base.heap[target]
            out.heap[target] = replace(
                o,
                items=o.items
                + (TTag(lid, tuple(cases), other if other is None else tuple(other), kind0),),
            )
        out.loops = base.loops
        out.force = base.force
        out.ctx = base.ctx
        if endstates:
            c, tree, head = endstates[0]
            val = tree.val
            if tree.kind == "return":
                # evaluate the returned value in the final state: references stay valid
                self._tag_end = ("return", val if val is not None else NONE)
            else:
                self._tag_end = ("break", None)
        return out

    def apply_guarded(self, out, head, e, guard, base):
        for oid, o in e.heap.items():
            if oid not in base.heap:
                out.heap[oid] = o
                out.owner[oid] = e.owner.get(oid, ())
                continue
            h = head.heap.get(oid)
            if o is h or o == h or isinstance(o, StreamO):
                continue
            cur = out.heap[oid]
            if isinstance(o, InstO):
                for n, v in o.attrs:
                    if h.get(n) != v:
                        old = cur.get(n)
                        cur = cur.set(
                            n, v if old is None else self.merge_vals(guard, v, old, e, out, out)
                        )
                out.heap[oid] = cur
            elif isinstance(o, DictO) and isinstance(cur, DictO):
                hs = set(h.entries)
                ents = list(cur.entries)
                for x in o.entries:
                    if x in hs:
                        continue
                    if isinstance(x, DE):
                        prev = next(
                            (y for y in ents if isinstance(y, DE) and y.key == x.key), None
                        )
                        if prev is None:
                            ents.append(DE(x.key, x.val, t.and_(guard, x.guard)))
                        else:
                            ents[ents.index(prev)] = DE(
                                x.key,
                                self.merge_vals(
                                    t.and_(guard, x.guard), x.val, prev.val, e, out, out
                                ),
                                t.or_(prev.guard, t.and_(guard, x.guard)),
                            )
                    else:
                        ents.append(x)
                out.heap[oid] = DictO(tuple(ents))
            elif isinstance(o, ListO) and isinstance(cur, ListO):
                if o.segs[: len(h.segs)] == h.segs:
                    out.heap[oid] = ListO(
                        cur.segs + (Opt(guard, o.segs[len(h.segs) :], ()),)
                    )
                else:
                    out.heap[oid] = UnkO("tag list")
            else:
                out.heap[oid] = UnkO("tag")
        bf = base.frames[-1]
        for n, v in e.frames[-1].items():
            if head.frames[-1].get(n) != v:
                old = out.frames[-1].get(n)
                out.frames[-1][n] = (
                    v if old is None else self.merge_vals(guard, v, old, e, out, out)
                )

    # ----------------------------------------------------------------- merge

    def merge_states(self, c, a, b):
        if a is b:
            return a
        s = State()
        s.loops, s.force, s.ctx = a.loops, a.force, a.ctx
        s.owner = {**b.owner, **a.owner}
        # facts common to both
        s.facts = {k: v for k, v in a.facts.items() if b.facts.get(k) is v}
        s.eqs = {k: v for k, v in a.eqs.items() if b.eqs.get(k) is v}
        s.heap = b.heap.copy()
        put = dict.__setitem__  # a merge writes nothing of its own
        for oid, o in a.heap.items():
            if oid not in b.heap:
                put(s.heap, oid, o)
                continue
            ob = b.heap[oid]
            if o is ob or o == ob:
                put(s.heap, oid, o)
            else:
                put(s.heap, oid, self.merge_obj(c, o, ob, a, b, s))
        s.frames = []
        for fa, fb in zip(a.frames, b.frames):
            f = {}
            for n in list(fa) + [x for x in fb if x not in fa]:
                va, vb = fa.get(n), fb.get(n)
                if va is None:
                    f[n] = vb
                elif vb is None:
                    f[n] = va
                elif va == vb:
                    f[n] = va
                else:
                    f[n] = self.merge_vals(c, va, vb, a, b, s)
            s.frames.append(f)
        return s

    def merge_vals(self, c, x, y, a, b, s):
        if x is y or x == y:
            return x
        if x is None or y is None:
            return x if y is None else y
        if isinstance(x, T) and isinstance(y, T):
            return t.ite(c, x, y)
        if isinstance(x, Tup) and isinstance(y, Tup) and len(x.items) == len(y.items):
            return Tup(
                tuple(self.merge_vals(c, p, q, a, b, s) for p, q in zip(x.items, y.items))
            )
        if isinstance(x, UnkV) or isinstance(y, UnkV):
            return U
        if isinstance(x, Ref) and isinstance(y, Ref):
            ox, oy = self.obj(a, x), self.obj(b, y)
            if type(ox) is type(oy) and isinstance(ox, (ListO, DictO)):
                return self.alloc(s, self.merge_obj(c, ox, oy, a, b, s))
        return IteV(c, x, y)

    def merge_obj(self, c, x, y, a, b, s):
        if type(x) is not type(y):
            return UnkO("merge")
        if isinstance(x, ListO):
            if (
                len(x.segs) == len(y.segs)
                and all(
                    (isinstance(p, One) and isinstance(q, One))
                    or (
                        isinstance(p, Rep)
                        and isinstance(q, Rep)
                        and p.lid == q.lid
                        and len(p.segs) == len(q.segs) == 1
                        and isinstance(p.segs[0], One)
                        and isinstance(q.segs[0], One)
                    )
                    or p == q
                    for p, q in zip(x.segs, y.segs)
                )
            ):
                out = []
                for p, q in zip(x.segs, y.segs):
                    if p == q:
                        out.append(p)
                    elif isinstance(p, One):
                        out.append(One(self.merge_vals(c, p.v, q.v, a, b, s)))
                    else:
                        out.append(
                            Rep(
                                p.lid,
                                p.count,
                                (One(self.merge_vals(c, p.segs[0].v, q.segs[0].v, a, b, s)),),
                            )
                        )
                return ListO(tuple(out), x.order)
            n = 0
            while n < len(x.segs) and n < len(y.segs) and x.segs[n] == y.segs[n]:
                n += 1
            ra, rb = x.segs[n:], y.segs[n:]
            o = self.norm_opt(c, ra, rb)
            return ListO(x.segs[:n] + o, x.order)
        if isinstance(x, DictO):
            ents = []
            yk = {e.key: e for e in y.entries if isinstance(e, DE)}
            ydr = [e for e in y.entries if isinstance(e, DR)]
            for e in x.entries:
                if isinstance(e, DR):
                    ents.append(e)
                    continue
                f = yk.get(e.key)
                if f is None:
                    ents.append(DE(e.key, e.val, t.and_(c, e.guard)))
                elif f == e:
                    ents.append(e)
                else:
                    g = t.ite(c, e.guard, f.guard)
                    if e.guard is FALSE:
                        v = f.val
                    elif f.guard is FALSE:
                        v = e.val
                    else:
                        v = self.merge_vals(c, e.val, f.val, a, b, s)
                    ents.append(DE(e.key, v, g))
            xk = {e.key for e in x.entries if isinstance(e, DE)}
            for e in y.entries:
                if isinstance(e, DE) and e.key not in xk:
                    ents.append(DE(e.key, e.val, t.and_(t.not_(c), e.guard)))
                elif isinstance(e, DR) and e not in ents:
                    ents.append(e)
            return DictO(tuple(ents))
        if isinstance(x, InstO):
            o = x
            for n, v in y.attrs:
                w = x.get(n)
                if w is None:
                    o = o.set(n, v)
                elif w != v:
                    o = o.set(n, self.merge_vals(c, w, v, a, b, s))
            return o
        if isinstance(x, StreamO):
            n = 0
            while n < len(x.items) and n < len(y.items) and _same(x.items[n], y.items[n]):
                n += 1
            ra, rb = x.items[n:], y.items[n:]
            k = 0
            while (
                k < len(ra)
                and k < len(rb)
                and _same(ra[-1 - k], rb[-1 - k])
                and not isinstance(ra[-1 - k], RItem)
            ):
                k += 1
            suf = ra[len(ra) - k :]
            ra, rb = ra[: len(ra) - k], rb[: len(rb) - k]
            return replace(x, items=x.items[:n] + self.norm_alt(c, ra, rb) + suf)
        if isinstance(x, SetO):
            if x.items is None and y.items is None:
                return SetO(t.ite(c, x.bits, y.bits))
            return UnkO("set merge")
        return UnkO("merge")

    def norm_alt(self, c, ra, rb):
        if not ra and not rb:
            return ()
        if c.op == "not":
            return self.norm_alt(c.args[0], rb, ra)
        # zero-length in the other branch
        for x, y, cond in ((ra, rb, c), (rb, ra, t.not_(c))):
            if not y and x:
                z = self.zero_items(x)
                if z is not None:
                    nz = t.not_(t.eq(z, K(0)))
                    if cond is nz or cond is t.lt(K(0), z) or cond is t.truthy(z):
                        return tuple(x)
        return (TAlt(c, tuple(ra), tuple(rb)),)

    def zero_items(self, items):
        """The count term whose zero makes `items` empty, if all items share it."""
        z = None
        for it in items:
            if isinstance(it, TRep):
                n = it.count
            elif isinstance(it, RItem) and it.kind[0] == "raw":
                n = it.kind[1]
            else:
                return None
            if not isinstance(n, T) or (z is not None and n is not z):
                return None
            z = n
        return z

    def norm_opt(self, c, ra, rb):
        if not ra and not rb:
            return ()
        if c.op == "not":
            return self.norm_opt(c.args[0], rb, ra)
        for x, y, cond in ((ra, rb, c), (rb, ra, t.not_(c))):
            if not y and len(x) == 1 and isinstance(x[0], Rep) and isinstance(x[0].count, T):
                z = x[0].count
                if cond is t.truthy(z) or cond is t.lt(K(0), z):
                    return tuple(x)
        return (Opt(c, tuple(ra), tuple(rb)),)

    # ----------------------------------------------------------- iteration

    def segs_of(self, v, st, node=None):
        """Segments of an iterable value, or None."""
        v = st.simp(v)
        if isinstance(v, Tup):
            return tuple(One(x) for x in v.items)
        if isinstance(v, IteV):
            a, b = self.segs_of(v.a, st), self.segs_of(v.b, st)
            if a is None or b is None:
                return None
            return (Opt(v.c, a, b),)
        if isinstance(v, RangeV):
            a, b = v.start, v.stop
            if isint(a) and isint(b):
                r = range(kv(a), kv(b), v.step)
                if len(r) <= 4096:
                    return tuple(One(K(i)) for i in r)
                return None
            if v.step != 1:
                return None
            n = t.sub(b, a)
            if n.op == "ite" and isint(n.args[1]) and isint(n.args[2]):
                return (
                    Opt(
                        n.args[0],
                        self.segs_of(RangeV(a, t.add(a, n.args[1])), st),
                        self.segs_of(RangeV(a, t.add(a, n.args[2])), st),
                    ),
                )
            d = _decision(n)
            if d is not None:
                raise CaseSplit(d, None)
            n2 = self.canon_count(n)
            lid = self.range_lid(n2, st)
            self.counts[lid] = n2
            return (Rep(lid, n2, (One(t.add(a, mk("ix", lid, ty="int"))),)),)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                return self.simp_segs(o.segs, st)
            if isinstance(o, DictO):
                return self.dict_segs(o, st, lambda e: e.key)
            if isinstance(o, SetO):
                if o.items is not None:
                    return tuple(One(x) for x in o.items)
                lid = ("bits", o.bits)
                return (
                    Rep(lid, mk("count", lid, ty="int"), (One(mk("ix", lid, ty="int")),)),
                )
            if isinstance(o, InstO):
                it = self.dunder(v, "__iter__", [], st)
                return None if it is None or it == v else self.segs_of(it, st)
            return None
        if isinstance(v, T):
            if isk(v) and isinstance(kv(v), (str, bytes)):
                return tuple(One(K(x)) for x in kv(v))
            if v.op == "strjoin":
                lid, ch = v.args
                if self.one_char(ch):
                    return (Rep(lid, self.counts.get(lid), (One(ch),)),)
            ch = t._chars(v)
            if ch is not None:
                return tuple(One(x) for x in ch)
            if v.op == "ite":
                a, b = self.segs_of(v.args[1], st), self.segs_of(v.args[2], st)
                if a is not None and b is not None:
                    return (Opt(v.args[0], a, b),)
        if isinstance(v, Cls) and self.is_enum(v):
            return tuple(One(self.enum_member(v, n)) for n in self.enum_names(v))
        return None

    def canon_count(self, n):
        """Two loops whose counts are equal after the loop identity of lists."""
        return n

    def one_char(self, ch):
        if ch.op in ("chr", "hexn"):
            return True
        if ch.op == "ite":
            return self.one_char(ch.args[1]) and self.one_char(ch.args[2])
        if ch.op == "decode" and ch.args[0].op == "tobytes1":
            return True
        return isk(ch) and isinstance(kv(ch), str) and len(kv(ch)) == 1

    def simp_segs(self, segs, st):
        if not st.facts:
            return segs
        out = []
        for g in segs:
            if isinstance(g, Opt):
                c = st.simp(g.c)
                if isk(c):
                    out += self.simp_segs(g.a if kv(c) else g.b, st)
                    continue
            out.append(g)
        return tuple(out)

    def dict_segs(self, o, st, f):
        out = []
        for e in o.entries:
            if isinstance(e, DE):
                g = st.simp(e.guard)
                if g is TRUE:
                    out.append(One(f(e)))
                elif g is not FALSE:
                    out.append(Opt(g, (One(f(e)),), ()))
            else:
                out.append(
                    Rep(
                        e.lid,
                        e.count,
                        tuple(
                            One(f(x)) if x.guard is TRUE else Opt(x.guard, (One(f(x)),), ())
                            for x in e.entries
                        ),
                    )
                )
        return tuple(out)

    def length(self, v, st):
        v = st.simp(v)
        if isinstance(v, Tup):
            return K(len(v.items))
        if isinstance(v, TraceB):
            return mk("sym", "tracelen", id(v), ty="int")
        if isinstance(v, IteV):
            return t.ite(v.c, self.length(v.a, st), self.length(v.b, st))
        if isinstance(v, RangeV):
            return t.sub(v.stop, v.start)
        if isinstance(v, Ref):
            o = self.obj(st, v)
            if isinstance(o, ListO):
                return self.seg_len(self.simp_segs(o.segs, st), st)
            if isinstance(o, DictO):
                return self.seg_len(self.dict_segs(o, st, lambda e: e.key), st)
            return mk("sym", "len", v.id, ty="int")
        if isinstance(v, T):
            ty = t.typeof(v)
            if v.op == "strjoin":
                lid, ch = v.args
                if self.one_char(ch) and isinstance(self.counts.get(lid), T):
                    return self.counts[lid]
            if ty == "bytes":
                return t.blen(v)
            if ty == "str":
                return t.slen(v)
            if ty == "list":
                return mk("len", v, ty="int")
        return mk("unk", ty="int")

    def seg_len(self, segs, st):
        r = K(0)
        for g in segs:
            if isinstance(g, One):
                r = t.add(r, K(1))
            elif isinstance(g, Rep):
                inner = self.seg_len(g.segs, st)
                if isint(inner) and isinstance(g.count, T):
                    r = t.add(r, t.mul(g.count, inner))
                else:
                    r = t.add(r, mk("sym", "replen", g.lid, ty="int"))
            elif isinstance(g, Opt):
                r = t.add(
                    r, t.ite(st.simp(g.c), self.seg_len(g.a, st), self.seg_len(g.b, st))
                )
        return r

    # instantiate a template value at another index
    def inst(self, v, m, st, memo=None):
        if memo is None:
            memo = {}
        if isinstance(v, T):
            return t.subst(v, m)
        if isinstance(v, Tup):
            return Tup(tuple(self.inst(x, m, st, memo) for x in v.items))
        if isinstance(v, IteV):
            return IteV(t.subst(v.c, m), self.inst(v.a, m, st, memo), self.inst(v.b, m, st, memo))
        if isinstance(v, Ref):
            if v.id in memo:
                return memo[v.id]
            o = self.obj(st, v)
            if isinstance(o, (ListO, DictO)):
                memo[v.id] = v
                n = self.inst_obj(o, m, st, memo)
                if n == o:
                    return v
                r = self.alloc(st, n)
                memo[v.id] = r
                return r
        return v

    def inst_seg(self, g, m, st, memo=None):
        if isinstance(g, One):
            return One(self.inst(g.v, m, st, memo))
        if isinstance(g, Rep):
            return Rep(
                t.subst(g.lid, m) if True else g.lid,
                t.subst(g.count, m) if isinstance(g.count, T) else g.count,
                tuple(self.inst_seg(x, m, st, memo) for x in g.segs),
            )
        return Opt(
            t.subst(g.c, m),
            tuple(self.inst_seg(x, m, st, memo) for x in g.a),
            tuple(self.inst_seg(x, m, st, memo) for x in g.b),
        )

    def inst_obj(self, o, m, st, memo):
        if isinstance(o, ListO):
            return ListO(tuple(self.inst_seg(g, m, st, memo) for g in o.segs), o.order)
        if isinstance(o, DictO):
            return DictO(
                tuple(
                    DE(
                        self.inst(e.key, m, st, memo),
                        self.inst(e.val, m, st, memo),
                        t.subst(e.guard, m),
                    )
                    if isinstance(e, DE)
                    else DR(
                        e.lid,
                        e.count,
                        tuple(
                            DE(
                                self.inst(x.key, m, st, memo),
                                self.inst(x.val, m, st, memo),
                                t.subst(x.guard, m),
                            )
                            for x in e.entries
                        ),
                    )
                    for e in o.entries
                )
            )
        return o

    from .interp_expr import (  # noqa: E402
        assign,
        assign_attr,
        attr,
        binop,
        call,
        call_builtin,
        call_cls,
        call_ext,
        call_fn,
        compare,
        cond,
        contains,
        dunder,
        enum_member,
        enum_names,
        eqv,
        ev,
        format_value,
        getitem,
        glob,
        is_enum,
        is_none,
        lookup_attr,
        method,
        mro,
        setitem,
        stream_read,
        stream_write,
        term_method,
        truth,
    )


def _decision(n):
    """A condition on which an integer term takes two constant values."""
    if n.op == "lin":
        for x, _ in n.args[1]:
            if x.op == "ite":
                return x.args[0]
    return None


def _same(a, b):
    return a is b or (not isinstance(a, RItem) and a == b)


def _load(tg):
    n = ast.copy_location(type(tg)(**{f: getattr(tg, f) for f in tg._fields}), tg)
    n.ctx = ast.Load()
    return n


def _name(e):
    if isinstance(e, ast.Call):
        e = e.func
    if isinstance(e, ast.Name):
        return e.id
    if isinstance(e, ast.Attribute):
        return e.attr
    return None


def _bases(name):
    import builtins

    c = getattr(builtins, name or "", None)
    if isinstance(c, type) and issubclass(c, BaseException):
        return {b.__name__ for b in c.__mro__}
    if name == "struct.error":
        return {"error", "Exception", "BaseException"}
    return {name, "Exception", "BaseException"}


def _catches(h, name):
    """Whether the handler catches the exception type; unknown types are caught."""
    if h.type is None or name is None:
        return True
    ns = h.type.elts if isinstance(h.type, ast.Tuple) else [h.type]
    return bool(_bases(name) & {_name(n) for n in ns})


def _exits(body):
    return bool(body) and any(isinstance(x, (ast.Return, ast.Break)) for x in body)


def _is_doc(x):
    return isinstance(x, ast.Expr) and isinstance(x.value, ast.Constant)


def _kinds(tree):
    if isinstance(tree, Leaf):
        return {tree.kind}
    return _kinds(tree.a) | _kinds(tree.b)


def _table_key(k):
    """(table, variable) if k is table[var] or table.get(var, str(var))."""
    if not isinstance(k, T):
        return None, None
    if k.op == "map" and all(isk(a) and isk(b) for a, b in k.args[0]):
        return k.args[0], k.args[1]
    if k.op == "ite" and k.args[0].op == "in" and k.args[1].op == "map":
        return k.args[1].args[0], k.args[1].args[1]
    return None, None
