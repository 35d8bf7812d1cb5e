"""Expression half of the wire-effect interpreter (methods of interp.Interp)."""

import ast
import struct

from . import terms as t
from .terms import FALSE, NONE, TRUE, K, T, isint, isk, kv, mk


def _I():
    from . import interp

    return interp


class _Lazy:
    def __getattr__(self, n):
        v = getattr(_I(), n)
        setattr(self, n, v)  # nothing in there is rebound
        return v


I = _Lazy()

BUILTINS = set(dir(__builtins__) if not isinstance(__builtins__, dict) else __builtins__)
VFB = mk("attr", "vfb")
VFB_ATTRS = {
    "num_masters": "int",
    "ttStemsV_count": "int",
    "ttStemsH_count": "int",
    "writer_platform": "str",
    "encoding": "str",
}
STR_METHODS_BOOL = {"startswith", "endswith", "isdigit", "isalpha", "isupper", "islower"}


# ------------------------------------------------------------------ globals


def glob(self, mod, name):
    key = (mod, name)
    if key in self.gcache:
        return self.gcache[key]
    self.gcache[key] = I.U
    r = self.p.resolve(mod, name)
    v = I.U
    if r is None:
        v = I.Ext("builtins." + name) if name in BUILTINS else I.U
    elif r[0] == "def":
        n = r[2]
        if isinstance(n, ast.ClassDef):
            v = I.Cls(r[1].name, n.name, n)
        else:
            v = I.Fn(n.name, n)
    elif r[0] in ("expr", "item"):
        node = r[2] if r[0] == "expr" else r[2][0]
        gs = self.gstate
        gs.frames.append({})
        saved = self.callstack
        self.callstack = ()
        try:
            v = self.ev(node, gs)
            if r[0] == "item":
                v = self.getitem(v, K(r[2][1]), gs, node)
        except (I.Raised, I.CaseSplit, RecursionError, AttributeError, TypeError):
            v = I.U
        finally:
            self.callstack = saved
            gs.frames.pop()
    elif r[0] == "mod":
        v = I.ModV(r[1]) if r[1] in self.p.modules else I.Ext(r[1])
    else:
        v = I.Ext(r[1])
    self.gcache[key] = v
    return v


# ------------------------------------------------------------------ classes


def mro(self, cls):
    """Linearised project classes (simple left-to-right depth-first merge)."""
    out, ext = [], []

    def go(c):
        if c in out:
            return
        out.append(c)
        for b in c.node.bases:
            if isinstance(b, ast.Subscript):
                b = b.value
            n = b.id if isinstance(b, ast.Name) else None
            if n is not None:
                v = self.glob(c.mod, n)
            else:
                v = I.Ext(ast.unparse(b))
            if isinstance(v, I.Cls):
                go(v)
            elif isinstance(v, I.Ext):
                ext.append(v.name)

    go(cls)
    # a base shared by several parents comes last
    self._ext_bases = ext
    return out


def ext_bases(self, cls):
    mro(self, cls)
    return list(self._ext_bases)


def is_enum(self, cls):
    return any(
        b.split(".")[-1] in ("Enum", "IntEnum", "IntFlag", "Flag", "StrEnum")
        for b in ext_bases(self, cls)
    )


def enum_names(self, cls):
    return [
        s.targets[0].id
        for s in cls.node.body
        if isinstance(s, ast.Assign)
        and isinstance(s.targets[0], ast.Name)
        and not s.targets[0].id.startswith("_")
    ]


def enum_member(self, cls, name):
    for s in cls.node.body:
        if (
            isinstance(s, ast.Assign)
            and isinstance(s.targets[0], ast.Name)
            and s.targets[0].id == name
        ):
            gs = self.gstate
            sib = {}
            for n in ast.walk(s.value):
                # members defined earlier in the class body are visible by name
                if isinstance(n, ast.Name) and n.id != name:
                    w = enum_member(self, cls, n.id)
                    if w is not None:
                        sib[n.id] = w
            gs.frames.append(sib)
            try:
                v = self.ev(s.value, gs)
            except Exception:
                v = I.U
            finally:
                gs.frames.pop()
            eb = [b.split(".")[-1] for b in ext_bases(self, cls)]
            if "IntEnum" in eb or "IntFlag" in eb:
                return v if isinstance(v, T) else I.U
            return I.EnumV(cls, v) if isinstance(v, T) else I.U
    return None


def _enum_table(self, cls):
    """((name, value), ...) constants."""
    out = []
    for n in self.enum_names(cls):
        m = self.enum_member(cls, n)
        v = m.val if isinstance(m, I.EnumV) else m
        if not isinstance(v, T):
            return None
        out.append((K(n), v))
    return tuple(out)


def lookup_attr(self, cls, name, after=None):
    """(class, node) of the definition of `name` in the class hierarchy."""
    seq = self.mro(cls)
    if after is not None and after in seq:
        seq = seq[seq.index(after) + 1 :]
    for c in seq:
        hit = None
        for s in c.node.body:
            if isinstance(s, (ast.FunctionDef, ast.AsyncFunctionDef)) and s.name == name:
                if any(
                    isinstance(d, ast.Attribute) and d.attr in ("setter", "deleter")
                    for d in s.decorator_list
                ):
                    continue
                hit = s
            elif isinstance(s, ast.Assign):
                for tg in s.targets:
                    if isinstance(tg, ast.Name) and tg.id == name:
                        hit = s
            elif isinstance(s, ast.AnnAssign):
                if isinstance(s.target, ast.Name) and s.target.id == name and s.value:
                    hit = s
        if hit is not None:
            return c, hit
    return None


def _decos(fn):
    out = []
    for d in fn.decorator_list:
        if isinstance(d, ast.Call):
            d = d.func
        out.append(d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "?"))
    return out


# ------------------------------------------------------------------- attrs


def attr(self, v, name, st, node=None):
    v = st.simp(v)
    if isinstance(v, I.ModV):
        r = self.glob(v.name, name)
        if r is I.U and f"{v.name}.{name}" in self.p.modules:
            return I.ModV(f"{v.name}.{name}")
        return r
    if isinstance(v, I.Ext):
        if v.name == "nbuf":
            return mk("nbytes", ty="int") if name == "nbytes" else I.U
        return I.Ext(f"{v.name}.{name}")
    if isinstance(v, T) and v.op == "buffer" and name == "nbytes":
        return v.args[0]
    if isinstance(v, I.IteV):
        raise I.CaseSplit(v.c, None)
    if isinstance(v, I.UnkV):
        return I.UnkV("attribute of unknown")
    if isinstance(v, I.SuperV):
        hit = self.lookup_attr(v.cls[0], name, after=v.cls[1])
        if hit is None:
            return I.BM(v, name)
        return _bind(self, v.self, hit, st, node, v.cls[0])
    if isinstance(v, I.EnumV):
        if name == "value":
            return v.val
        if name == "name":
            tab = _enum_table(self, v.cls)
            if tab is None:
                return I.U
            r = t.lookup(tuple((b, a) for a, b in tab), v.val)
            return r if r is not None else I.U
        return I.U
    if isinstance(v, I.Cls):
        if self.is_enum(v):
            m = self.enum_member(v, name)
            if m is not None:
                return m
        if name == "__name__":
            return K(v.name)
        set_ = _written(self, v, name, st)
        if set_ is not None:
            return set_
        hit = self.lookup_attr(v, name)
        if hit is None:
            return I.BM(v, name)
        c, s = hit
        if isinstance(s, ast.FunctionDef):
            d = _decos(s)
            if "classmethod" in d:
                return I.Bound(v, I.Fn(s.name, s, c))
            return I.Fn(s.name, s, c)
        return _class_value(self, c, s, st)
    if isinstance(v, I.Ref):
        o = self.obj(st, v)
        if isinstance(o, I.InstO):
            a = o.get(name)
            if a is not None:
                return st.simp(a)
            if name == "__class__":
                return o.cls
            set_ = _written(self, o.cls, name, st)
            if set_ is not None:
                return set_
            hit = self.lookup_attr(o.cls, name)
            if hit is None:
                if o.cls.name == "$stub":
                    return I.U
                return I.BM(v, name)
            return _bind(self, v, hit, st, node, o.cls)
        if isinstance(o, I.UnkO):
            return I.BM(v, name)
        return I.BM(v, name)
    if isinstance(v, T):
        if v.op == "attr" and t.typeof(v) not in ("int", "str"):
            ty = VFB_ATTRS.get(name) if v is VFB else None
            return mk("attr", v.args + (name,) if v is not VFB else ("vfb", name), ty=ty)
        return I.BM(v, name)
    return I.BM(v, name)


def _written(self, cls, name, st):
    """An attribute that was assigned to a class at run time."""
    if not self.cls_state:
        return None
    for c in self.mro(cls):
        r = self.cls_state.get((c.mod, c.name))
        if r is not None:
            v = self.obj(st, r).get(name)
            if v is not None:
                return st.simp(v)
        if any(_defines(x, name) for x in c.node.body):
            return None  # the body of a more specific class counts
    return None


def _defines(s, name):
    """Does this statement of a class body bind `name`?"""
    if isinstance(s, (ast.FunctionDef, ast.ClassDef)):
        return s.name == name
    if isinstance(s, ast.AnnAssign) and s.value is None:
        return False
    return any(
        isinstance(x, ast.Name) and x.id == name and isinstance(x.ctx, ast.Store)
        for x in ast.walk(s)
    )


def _class_value(self, c, s, st):
    key = ("$class", c.mod, c.name, id(s))
    if key not in self.gcache:
        gs = self.gstate
        # names of the class body are visible to later class-level expressions
        frame = {}
        for x in c.node.body:
            if x is s:
                break
            if isinstance(x, ast.Assign) and isinstance(x.targets[0], ast.Name):
                k2 = ("$class", c.mod, c.name, id(x))
                if k2 in self.gcache:
                    frame[x.targets[0].id] = self.gcache[k2]
        gs.frames.append(frame)
        try:
            self.gcache[key] = self.ev(s.value, gs)
        except (I.Raised, I.CaseSplit, RecursionError, AttributeError, TypeError):
            self.gcache[key] = I.U
        finally:
            gs.frames.pop()
    return self.gcache[key]


def _bind(self, selfv, hit, st, node, dyncls):
    c, s = hit
    if isinstance(s, ast.FunctionDef):
        d = _decos(s)
        fn = I.Fn(s.name, s, c)
        if "property" in d or "cached_property" in d:
            r = self.call_fn(fn, [selfv], {}, st, node)
            if {"cached_property", "lru_cache", "cache"} & set(d):
                o = self.obj(st, selfv)
                if isinstance(o, I.InstO):
                    st.heap[selfv.id] = o.set(s.name, r)
            return r
        if "staticmethod" in d:
            return fn
        if "classmethod" in d:
            return I.Bound(dyncls, fn)
        return I.Bound(selfv, fn)
    return _class_value(self, c, s, st)


# ------------------------------------------------------------- expressions


def ev(self, e, st):
    self.budget -= 1
    if self.budget < 0:
        raise RecursionError("analysis budget exhausted")
    k = type(e).__name__
    if k == "Constant":
        if e.value is Ellipsis:
            return I.U
        return K(e.value)
    if k == "Name":
        f = st.frames[-1]
        if e.id in f:
            v = st.simp(f[e.id])
            return v
        m = getattr(e, "_mod", None)
        if m is None:
            return I.U
        v = self.glob(m.name, e.id)
        if isinstance(v, I.Ext) and v.name == "typing.TYPE_CHECKING":
            return FALSE
        return v
    if k == "Attribute":
        return self.attr(self.ev(e.value, st), e.attr, st, e)
    if k == "Call":
        return self.call(e, st)
    if k == "BinOp":
        a = self.ev(e.left, st)
        b = self.ev(e.right, st)
        return self.binop(e.op, a, b, st)
    if k == "UnaryOp":
        if isinstance(e.op, ast.Not):
            return t.not_(self.cond(e.operand, st))
        v = self.ev(e.operand, st)
        if not isinstance(v, T):
            return I.U
        if isinstance(e.op, ast.USub):
            return t.neg(v)
        if isinstance(e.op, ast.Invert):
            return t.invert(v)
        return v
    if k == "Compare":
        return self.compare(e, st)
    if k == "BoolOp":
        return _boolval(self, e, st)
    if k == "IfExp":
        c = st.simp(self.cond(e.test, st))
        if isk(c):
            return self.ev(e.body if kv(c) else e.orelse, st)
        a, b = st.copy(), st.copy()
        va = vb = None
        if a.assume(c, True):
            try:
                va = self.ev(e.body, a)
            except I.Raised:
                va = None
        if b.assume(c, False):
            try:
                vb = self.ev(e.orelse, b)
            except I.Raised:
                vb = None
        if va is None and vb is None:
            raise I.Raised("IfExp", e)
        if va is None:
            st.become(b)
            return vb
        if vb is None:
            st.become(a)
            return va
        s = self.merge_states(c, a, b)
        v = self.merge_vals(c, va, vb, a, b, s)
        st.become(s)
        return v
    if k in ("List", "Tuple", "Set"):
        vals = []
        segs = []
        for x in e.elts:
            if isinstance(x, ast.Starred):
                sg = self.segs_of(self.ev(x.value, st), st, x)
                if sg is None:
                    return self.alloc(st, I.UnkO("starred")) if k == "List" else I.U
                segs += list(sg)
            else:
                segs.append(I.One(self.ev(x, st)))
        if all(isinstance(g, I.One) for g in segs):
            vals = [g.v for g in segs]
            if k == "Tuple":
                return I.Tup(tuple(vals))
            if k == "Set":
                return self.alloc(st, I.SetO(K(0), tuple(vals)))
            return self.new_list(st, vals)
        if k == "Set":
            return self.alloc(st, I.UnkO("set"))
        return self.alloc(st, I.ListO(tuple(segs)))
    if k == "Dict":
        r = self.alloc(st, I.DictO(()))
        for kk, vv in zip(e.keys, e.values):
            if kk is None:
                self.method(r, "update", [self.ev(vv, st)], {}, st, e)
            else:
                kv_ = self.ev(kk, st)
                self.setitem(r, kv_, self.ev(vv, st), st, e)
        return r
    if k == "Subscript":
        base = self.ev(e.value, st)
        if isinstance(e.slice, ast.Slice):
            sl = e.slice
            lo = self.ev(sl.lower, st) if sl.lower else NONE
            hi = self.ev(sl.upper, st) if sl.upper else NONE
            step = self.ev(sl.step, st) if sl.step else NONE
            return _slice(self, base, lo, hi, step, st)
        return self.getitem(base, self.ev(e.slice, st), st, e)
    if k == "JoinedStr":
        parts = []
        for x in e.values:
            if isinstance(x, ast.Constant):
                parts.append(K(x.value))
            else:
                parts.append(self.format_value(x, st))
        if all(isinstance(p, T) for p in parts):
            return t.cat(*parts) if parts else K("")
        return I.U
    if k == "FormattedValue":
        return self.format_value(e, st)
    if k in ("ListComp", "SetComp", "GeneratorExp", "DictComp"):
        return _comp(self, e, st, k)
    if k == "Lambda":
        return I.Fn("<lambda>", e, None, tuple(st.frames[-1].items()))
    if k == "NamedExpr":
        v = self.ev(e.value, st)
        self.assign(e.target, v, st)
        return v
    if k == "Starred":
        return self.ev(e.value, st)
    if k in ("Yield", "YieldFrom"):
        acc = st.frames[-1].get("$yield")
        if acc is not None:
            v = self.ev(e.value, st) if e.value is not None else NONE
            self.method(acc, "append" if k == "Yield" else "extend", [v], {}, st, e)
        return NONE
    if k == "Await":
        return I.U
    self.note(f"unsupported expression {k}", e)
    return I.U


def _boolval(self, e, st):
    """Value of and/or, operands after the first evaluated under assumption."""
    isand = isinstance(e.op, ast.And)
    v = self.ev(e.values[0], st)
    for i, x in enumerate(e.values[1:]):
        c = st.simp(self.truth(v, st))
        if isk(c):
            if bool(kv(c)) != isand:
                return v
            v = self.ev(x, st)
            continue
        s2 = st.copy()
        s1 = st.copy()
        s1.assume(c, not isand)
        if not s2.assume(c, isand):
            return v
        rest = ast.copy_location(ast.BoolOp(op=e.op, values=e.values[i + 1 :]), e)
        rest._mod = getattr(e, "_mod", None)
        try:
            w = self.ev(rest if len(rest.values) > 1 else x, s2)
        except I.Raised:
            return v
        if isinstance(v, T) and isinstance(w, T):
            if t.typeof(v) == "bool" and t.typeof(w) == "bool":
                r = t.and_(v, w) if isand else t.or_(v, w)
            else:
                r = t.ite(c, w, v) if isand else t.ite(c, v, w)
            s = self.merge_states(c, *((s2, s1) if isand else (s1, s2)))
        else:
            s = self.merge_states(c, *((s2, s1) if isand else (s1, s2)))
            if isand:
                r = self.merge_vals(c, w, v, s2, s1, s)
            else:
                r = self.merge_vals(c, v, w, s1, s2, s)
        st.become(s)
        return r
    return v


def cond(self, e, st):
    """Truth of an expression as a bool term."""
    if isinstance(e, ast.BoolOp):
        isand = isinstance(e.op, ast.And)
        cs = []
        cur = st
        for i, x in enumerate(e.values):
            c = cur.simp(self.cond(x, cur))
            if isk(c) and bool(kv(c)) != isand:
                cs.append(c)
                break
            cs.append(c)
            if i + 1 < len(e.values):
                if cur is st:
                    cur = st.copy()
                if not cur.assume(c, isand):
                    break
        return (t.and_ if isand else t.or_)(*cs)
    if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
        return t.not_(self.cond(e.operand, st))
    return self.truth(self.ev(e, st), st)


def truth(self, v, st):
    v = st.simp(v)
    if isinstance(v, T):
        if v in self.nonempty:
            return TRUE
        if v.op == "attr":
            ty = t.typeof(v)
            if v is VFB:
                return TRUE
            if ty is None:
                return mk("truthy", v, ty="bool")
        if v.op in ("unk", "opq"):
            return self.fresh()
        return t.truthy(v)
    if isinstance(v, I.Tup):
        return K(bool(v.items))
    if isinstance(v, I.IteV):
        return t.ite(v.c, self.truth(v.a, st), self.truth(v.b, st))
    if isinstance(v, I.RangeV):
        return t.lt(v.start, v.stop)
    if isinstance(v, I.UnkV):
        return self.fresh()
    if isinstance(v, I.TraceB):
        n = self.length(v, st)
        return t.not_(t.eq(n, K(0)))
    if isinstance(v, I.Ref):
        o = self.obj(st, v)
        if isinstance(o, I.ListO):
            return _segs_nonempty(self, self.simp_segs(o.segs, st), st)
        if isinstance(o, I.DictO):
            return _segs_nonempty(self, self.dict_segs(o, st, lambda e: e.key), st)
        if isinstance(o, I.SetO):
            if o.items is not None:
                return K(bool(o.items))
            return t.not_(t.eq(o.bits, K(0)))
        if isinstance(o, (I.InstO, I.StreamO)):
            return TRUE
        return self.fresh()
    return TRUE


def _segs_nonempty(self, segs, st):
    cs = []
    for g in segs:
        if isinstance(g, I.One):
            return TRUE
        if isinstance(g, I.Rep):
            inner = _segs_nonempty(self, g.segs, st)
            if inner is TRUE and isinstance(g.count, T):
                if g.lid[0] == "bits":
                    cs.append(t.not_(t.eq(g.lid[1], K(0))))
                else:
                    cs.append(t.not_(t.eq(g.count, K(0))))
            else:
                cs.append(mk("sym", "nonempty", g.lid, ty="bool"))
        else:
            cs.append(
                t.ite(
                    st.simp(g.c),
                    _segs_nonempty(self, g.a, st),
                    _segs_nonempty(self, g.b, st),
                )
            )
    return t.or_(*cs) if cs else FALSE


def is_none(self, v, st):
    v = st.simp(v)
    if isinstance(v, T):
        if isk(v):
            return K(kv(v) is None)
        if v.op == "ite":
            return t.ite(v.args[0], self.is_none(v.args[1], st), self.is_none(v.args[2], st))
        if v.op in ("unk", "opq"):
            return self.fresh()
        if v.op == "map":
            ks = [k for k, x in v.args[0] if x is NONE]
            return t.or_(*[t.eq(v.args[1], k) for k in ks]) if ks else FALSE
        return FALSE
    if isinstance(v, I.IteV):
        return t.ite(v.c, self.is_none(v.a, st), self.is_none(v.b, st))
    if isinstance(v, I.UnkV):
        return self.fresh()
    return FALSE


def eqv(self, a, b, st):
    a, b = st.simp(a), st.simp(b)
    if isinstance(a, T) and isinstance(b, T):
        if self._eqwatch is not None:
            if isk(b):
                self._eqwatch.append((a, b))
            elif isk(a):
                self._eqwatch.append((b, a))
        if a.op in ("unk", "opq") or b.op in ("unk", "opq"):
            return self.fresh()
        return t.eq(a, b)
    if a == b and not isinstance(a, I.UnkV):
        return TRUE
    if isinstance(a, I.EnumV) and isinstance(b, I.EnumV):
        return t.eq(a.val, b.val) if a.cls == b.cls else FALSE
    if isinstance(a, I.IteV):
        return t.ite(a.c, self.eqv(a.a, b, st), self.eqv(a.b, b, st))
    if isinstance(b, I.IteV):
        return self.eqv(b, a, st)
    if isinstance(a, I.UnkV) or isinstance(b, I.UnkV):
        return self.fresh()
    if isinstance(a, T) and isk(a) or isinstance(b, T) and isk(b):
        # a number, string, bytes or None against a container or an instance
        other = b if isinstance(a, T) else a
        if isinstance(other, I.Tup) or isinstance(
            self.obj(st, other), (I.ListO, I.DictO, I.SetO, I.InstO)
        ):
            return FALSE
    sa, sb = self.segs_of(a, st), self.segs_of(b, st)
    if isinstance(a, T) and isk(a) and kv(a) is None or isinstance(b, T) and isk(b) and kv(b) is None:
        return FALSE
    if sa is not None and sb is not None:
        oa, ob = self.obj(st, a), self.obj(st, b)
        if isinstance(oa, I.DictO) or isinstance(ob, I.DictO):
            if not sb:
                return t.not_(self.truth(a, st))
            if not sa:
                return t.not_(self.truth(b, st))
            return _dict_eq(self, oa, ob, st)
        if not sb:
            return t.not_(self.truth(a, st))
        if not sa:
            return t.not_(self.truth(b, st))
        if all(isinstance(g, I.One) for g in sa + sb):
            if len(sa) != len(sb):
                return FALSE
            return t.and_(*[self.eqv(x.v, y.v, st) for x, y in zip(sa, sb)])
    return self.fresh()


def _dict_eq(self, oa, ob, st):
    if not isinstance(oa, I.DictO) or not isinstance(ob, I.DictO):
        return FALSE if oa is not None and ob is not None else self.fresh()
    da, db = {}, {}
    for o, d in ((oa, da), (ob, db)):
        for e in o.entries:
            if not isinstance(e, I.DE) or not isk(e.key) or e.key in d:
                return self.fresh()
            d[e.key] = e
    cs = []
    for k in list(da) + [k for k in db if k not in da]:
        ea, eb = da.get(k), db.get(k)
        ga = ea.guard if ea is not None else FALSE
        gb = eb.guard if eb is not None else FALSE
        if ea is None or eb is None:
            cs.append(t.not_(gb if ea is None else ga))
            continue
        same = self.eqv(ea.val, eb.val, st)
        if ga is gb:
            cs.append(t.or_(t.not_(ga), same))
        else:
            cs.append(t.or_(t.and_(ga, gb, same), t.and_(t.not_(ga), t.not_(gb))))
    return t.and_(*cs)


def compare(self, e, st):
    left = self.ev(e.left, st)
    cs = []
    for op, r in zip(e.ops, e.comparators):
        right = self.ev(r, st)
        cs.append(_cmp(self, op, left, right, st))
        left = right
    return t.and_(*cs)


def _cmp(self, op, a, b, st):
    if isinstance(op, (ast.Eq, ast.NotEq)):
        c = self.eqv(a, b, st)
        return c if isinstance(op, ast.Eq) else t.not_(c)
    if isinstance(op, (ast.Is, ast.IsNot)):
        a, b = st.simp(a), st.simp(b)
        if isinstance(b, T) and b is NONE:
            c = self.is_none(a, st)
        elif isinstance(a, T) and a is NONE:
            c = self.is_none(b, st)
        elif isinstance(a, T) and isinstance(b, T):
            c = t.eq(a, b)
        else:
            c = K(a == b) if not isinstance(a, I.UnkV) else self.fresh()
        return c if isinstance(op, ast.Is) else t.not_(c)
    if isinstance(op, (ast.In, ast.NotIn)):
        c = self.contains(a, b, st)
        return c if isinstance(op, ast.In) else t.not_(c)
    a, b = st.simp(a), st.simp(b)
    if isinstance(a, I.IteV):
        return t.ite(a.c, _cmp(self, op, a.a, b, st), _cmp(self, op, a.b, b, st))
    if isinstance(b, I.IteV):
        return t.ite(b.c, _cmp(self, op, a, b.a, st), _cmp(self, op, a, b.b, st))
    special = {ast.Lt: "__lt__", ast.Gt: "__gt__", ast.LtE: "__le__", ast.GtE: "__ge__"}
    r = dunder(self, a, special.get(type(op), "?"), [b], st)
    if r is not None:
        return self.truth(r, st)
    if not (isinstance(a, T) and isinstance(b, T)):
        return self.fresh()
    if a.op in ("unk", "opq") or b.op in ("unk", "opq"):
        return self.fresh()
    if isinstance(op, ast.Lt):
        return t.lt(a, b)
    if isinstance(op, ast.Gt):
        return t.lt(b, a)
    if isinstance(op, ast.LtE):
        return t.le(a, b)
    if isinstance(op, ast.GtE):
        return t.le(b, a)
    return self.fresh()


def _const_keys(self, o, st):
    """[(key, guard)] of a dict whose keys are all plain entries, else None."""
    out = []
    for x in o.entries:
        if not isinstance(x, I.DE):
            return None
        out.append((x.key, st.simp(x.guard)))
    return out


def contains(self, x, c, st):
    x, c = st.simp(x), st.simp(c)
    r = dunder(self, c, "__contains__", [x], st)
    if r is not None:
        return self.truth(r, st)
    if isinstance(c, I.IteV):
        return t.ite(c.c, self.contains(x, c.a, st), self.contains(x, c.b, st))
    if isinstance(c, I.RangeV) and isinstance(x, T):
        if c.step == 1:
            return t.and_(t.le(c.start, x), t.lt(x, c.stop))
        return self.fresh()
    if isinstance(c, T):
        if isk(c) and isk(x):
            try:
                return K(kv(x) in kv(c))
            except TypeError:
                return self.fresh()
        return self.fresh()
    if isinstance(c, I.Cls) and self.is_enum(c):
        tab = _enum_table(self, c)
        if tab is not None and isinstance(x, T):
            return t.or_(*[t.eq(x, v) for _, v in tab])
        return self.fresh()
    if isinstance(c, I.BM) and c.name in ("keys", "__members__"):
        if c.name == "__members__" and isinstance(c.self, I.Cls):
            tab = _enum_table(self, c.self)
            if tab is not None and isinstance(x, T):
                return t.in_table(tab, x)
        return self.fresh()
    o = self.obj(st, c)
    if isinstance(o, I.DictO):
        if isinstance(x, T) and isk(x):
            cs, sure = [], True
            for e in o.entries:
                if isinstance(e, I.DE):
                    if isinstance(e.key, T) and isk(e.key):
                        if e.key is x:
                            return st.simp(e.guard)
                    else:
                        sure = False
                        cs.append(t.and_(e.guard, self.eqv(e.key, x, st)))
                else:
                    sure = False
            if sure:
                return FALSE
            if cs and all(isinstance(e, I.DE) for e in o.entries):
                return t.or_(*cs)
            return self.fresh()
        if isinstance(x, T):
            ks = _const_keys(self, o, st)
            if ks is not None and all(isinstance(k, T) and g is TRUE for k, g in ks):
                if not ks:
                    return FALSE
                if any(k is x for k, _ in ks):
                    return TRUE
                if all(isk(k) for k, _ in ks):
                    return t.in_table(tuple((k, TRUE) for k, _ in ks), x)
            return self.fresh()
        if isinstance(x, I.Tup):
            cs = []
            for e in o.entries:
                if not isinstance(e, I.DE):
                    return self.fresh()
                cs.append(t.and_(st.simp(e.guard), self.eqv(e.key, x, st)))
            return t.or_(*cs) if cs else FALSE
        return self.fresh()
    if isinstance(o, I.SetO):
        if o.items is not None:
            return t.or_(*[self.eqv(x, i, st) for i in o.items]) if o.items else FALSE
        if isinstance(x, T):
            return _bit_test(o.bits, x)
        return self.fresh()
    segs = self.segs_of(c, st)
    if segs is None:
        return self.fresh()
    cs = []
    for g in segs:
        if isinstance(g, I.One):
            cs.append(self.eqv(x, g.v, st))
        elif isinstance(g, I.Rep) and g.lid[0] == "bits" and len(g.segs) == 1:
            el = g.segs[0]
            if isinstance(el, I.One) and isinstance(el.v, T) and isinstance(x, T):
                off = t.sub(el.v, mk("ix", g.lid, ty="int"))
                if isint(off):
                    cs.append(_bit_test(g.lid[1], t.sub(x, off)))
                    continue
            return self.fresh()
        else:
            return self.fresh()
    return t.or_(*cs) if cs else FALSE


def _bit_test(u, x):
    if isint(x):
        n = int(kv(x))
        return t.truthy(t.band(u, K(1 << n))) if n >= 0 else FALSE
    return t.truthy(t.band(u, t.pow_(K(2), x)))


# -------------------------------------------------------------- subscripts


def _split_opt(self, segs, st):
    for g in segs:
        if isinstance(g, I.Opt):
            raise I.CaseSplit(g.c, None)


def dunder(self, v, name, args, st):
    """Result of a special method defined by the object's class, or None."""
    o = self.obj(st, v) if isinstance(v, I.Ref) else None
    if not isinstance(o, I.InstO):
        return None
    hit = self.lookup_attr(o.cls, name)
    if hit is None or not isinstance(hit[1], ast.FunctionDef):
        return None
    return self.call_fn(I.Fn(name, hit[1], hit[0]), [v] + list(args), {}, st, hit[1])


def getitem(self, base, key, st, node=None):
    base, key = st.simp(base), st.simp(key)
    r = dunder(self, base, "__getitem__", [key], st)
    if r is not None:
        return r
    if isinstance(base, I.UnkV):
        return I.U
    if isinstance(base, I.IteV):
        raise I.CaseSplit(base.c, None)
    if isinstance(base, I.Tup):
        if isinstance(key, T) and isint(key):
            try:
                return base.items[int(kv(key))]
            except IndexError:
                raise I.Raised("IndexError", node)
        return _index_ones(self, list(base.items), key, st)
    if isinstance(base, I.Cls):
        if self.is_enum(base):
            if isinstance(key, T) and isk(key):
                m = self.enum_member(base, kv(key))
                if m is None:
                    raise I.Raised("KeyError", node)
                return m
            tab = _enum_table(self, base)
            if tab is not None and isinstance(key, T):
                v = t.lookup(tab, key)
                if v is None:
                    raise I.Raised("KeyError", node)
                m = self.enum_member(base, kv(tab[0][0]))
                return I.EnumV(base, v) if isinstance(m, I.EnumV) else v
        return base
    if isinstance(base, I.BM) and base.name == "__members__":
        return self.getitem(base.self, key, st, node)
    if isinstance(base, I.RangeV):
        return t.add(base.start, key) if isinstance(key, T) and base.step == 1 else I.U
    if isinstance(base, T):
        if isk(base):
            if isinstance(key, T) and isk(key):
                try:
                    return K(kv(base)[kv(key)])
                except Exception:
                    raise I.Raised("IndexError", node)
            return I.U
        ch = t._chars(base)
        if ch is not None and isinstance(key, T) and isint(key):
            try:
                return ch[int(kv(key))]
            except IndexError:
                raise I.Raised("IndexError", node)
        return t.opaque("index")
    if isinstance(base, I.Ext):
        return base
    o = self.obj(st, base)
    if isinstance(o, I.DictO):
        return _dict_get(self, base, o, key, st, node)
    if isinstance(o, I.ListO):
        segs = self.simp_segs(o.segs, st)
        if all(isinstance(g, I.One) for g in segs):
            if isinstance(key, T) and isint(key):
                n = int(kv(key))
                if -len(segs) <= n < len(segs):
                    return segs[n].v
                raise I.Raised("IndexError", node)
            return _index_ones(self, [g.v for g in segs], key, st)
        if isinstance(key, T):
            if isint(key):
                n = int(kv(key))
                if n < 0:
                    m = -1
                    for g in reversed(segs):
                        if not isinstance(g, I.One):
                            if isinstance(g, I.Opt):
                                raise I.CaseSplit(g.c, None)
                            return I.U
                        if m == n:
                            return g.v
                        m -= 1
                    raise I.Raised("IndexError", node)
                m = 0
                for g in segs:
                    if isinstance(g, I.One):
                        if m == n:
                            return g.v
                        m += 1
                        continue
                    if isinstance(g, I.Opt):
                        raise I.CaseSplit(g.c, None)
                    if len(g.segs) == 1 and isinstance(g.segs[0], I.One):
                        if g.lid[0] in ("bits",):
                            return I.U
                        # element n-m, provided it exists
                        return self.inst(
                            g.segs[0].v, {mk("ix", g.lid, ty="int"): K(n - m)}, st
                        )
                    return I.U
                raise I.Raised("IndexError", node)
            # symbolic
            k = 0
            while k < len(segs) and isinstance(segs[k], I.One):
                k += 1
            if k == len(segs) - 1 and isinstance(segs[k], I.Rep):
                g = segs[k]
                if len(g.segs) == 1 and isinstance(g.segs[0], I.One) and g.lid[0] != "bits":
                    off = t.sub(key, K(k))
                    return self.inst(g.segs[0].v, {mk("ix", g.lid, ty="int"): off}, st)
            _split_opt(self, segs, st)
        return I.U
    return I.U


def _index_ones(self, items, key, st):
    if isinstance(key, T) and not isk(key) and items:
        if all(isinstance(x, T) for x in items):
            r = t.lookup(tuple((K(i), x) for i, x in enumerate(items)), key)
            return r if r is not None else I.U
        raise I.CaseSplit(key, [K(i) for i in range(len(items))])
    return I.U


def _dict_get(self, base, o, key, st, node):
    if not isinstance(key, T):
        if isinstance(key, I.EnumV) or isinstance(key, I.Tup):
            absent = isinstance(key, I.Tup)
            for e in o.entries:
                if isinstance(e, I.DE) and e.key == key:
                    g = st.simp(e.guard)
                    if g is not TRUE:
                        self.needs.append((g, key, node))
                    return e.val
                if absent and not (
                    isinstance(e, I.DE) and self.eqv(e.key, key, st) is FALSE
                ):
                    absent = False
            if absent:
                raise I.Raised("KeyError", node)
        return I.U
    for e in o.entries:
        if isinstance(e, I.DE) and e.key is key:
            g = st.simp(e.guard)
            if g is FALSE:
                raise I.Raised("KeyError", node)
            if g is not TRUE:
                self.needs.append((g, key, node))
            return st.simp(e.val)
    for e in o.entries:
        if isinstance(e, I.DR):
            for x in e.entries:
                if x.key is key and e.lid in st.loops:
                    return st.simp(x.val)
    if isk(key):
        if any(not (isinstance(e, I.DE) and isinstance(e.key, T) and isk(e.key)) for e in o.entries):
            return I.U
        if not self.in_try:
            self.missing.append((dict(st.facts), kv(key), node))
        raise I.Raised("KeyError", node)
    ks = _const_keys(self, o, st)
    if ks and all(isinstance(k, T) and isk(k) for k, g in ks):
        if all(isinstance(e.val, T) and st.simp(e.guard) is TRUE for e in o.entries):
            r = t.lookup(tuple((e.key, e.val) for e in o.entries), key)
            if r is None:
                raise I.Raised("KeyError", node)
            return r
        raise I.CaseSplit(key, [k for k, _ in ks])
    return I.U


def _slice(self, base, lo, hi, step, st):
    base = st.simp(base)
    if isinstance(base, I.IteV):
        raise I.CaseSplit(base.c, None)
    lo, hi, step = st.simp(lo), st.simp(hi), st.simp(step)

    def c(x):
        return isinstance(x, T) and isk(x)

    if isinstance(base, T):
        if c(lo) and c(hi) and c(step) and kv(step) in (None, 1):
            return t.str_slice(base, kv(lo), kv(hi))
        if isk(base) and c(lo) and c(hi) and c(step):
            return K(kv(base)[kv(lo) : kv(hi) : kv(step)])
        return t.opaque("slice")
    if isinstance(base, I.Tup):
        if c(lo) and c(hi) and c(step):
            return I.Tup(base.items[kv(lo) : kv(hi) : kv(step)])
        return I.U
    o = self.obj(st, base)
    if isinstance(o, I.ListO) and c(lo) and c(hi) and c(step):
        segs = self.simp_segs(o.segs, st)
        l, h, sp = kv(lo), kv(hi), kv(step)
        if all(isinstance(g, I.One) for g in segs):
            return self.alloc(st, I.ListO(tuple(segs[l:h:sp])))
        if l in (None, 0) and h is None and sp in (None, 1):
            return self.alloc(st, I.ListO(tuple(segs), o.order))
        if sp in (None, 1):
            pre = 0
            while pre < len(segs) and isinstance(segs[pre], I.One):
                pre += 1
            post = 0
            while post < len(segs) and isinstance(segs[-1 - post], I.One):
                post += 1
            a = l or 0
            if 0 <= a <= pre and (h is None or (h < 0 and -h <= post)):
                return self.alloc(st, I.ListO(tuple(segs[a:h])))
            if h is not None and 0 <= a <= h <= pre:
                return self.alloc(st, I.ListO(tuple(segs[a:h])))
        _split_opt(self, segs, st)
        return self.alloc(st, I.UnkO("slice"))
    return I.U


def setitem(self, base, key, v, st, node=None):
    base, key = st.simp(base), st.simp(key)
    if isinstance(base, I.IteV):
        raise I.CaseSplit(base.c, None)
    if not isinstance(base, I.Ref):
        return
    o = self.obj(st, base)
    if isinstance(o, I.DictO):
        ents = list(o.entries)
        for i, e in enumerate(ents):
            if isinstance(e, I.DE) and e.key == key:
                ents[i] = I.DE(key, v)
                st.heap[base.id] = I.DictO(tuple(ents))
                return
        ents.append(I.DE(key, v))
        st.heap[base.id] = I.DictO(tuple(ents))
        return
    if isinstance(o, I.ListO):
        segs = list(self.simp_segs(o.segs, st))
        if isinstance(key, T) and isint(key):
            n = int(kv(key))
            if all(isinstance(g, I.One) for g in segs) or (
                0 <= n < len(segs) and all(isinstance(g, I.One) for g in segs[: n + 1])
            ):
                if not -len(segs) <= n < len(segs):
                    raise I.Raised("IndexError", node)
                segs[n] = I.One(v)
                st.heap[base.id] = I.ListO(tuple(segs), o.order)
                return
        elif isinstance(key, T):
            if len(segs) == 1 and isinstance(segs[0], I.Rep):
                g = segs[0]
                if (
                    len(g.segs) == 1
                    and isinstance(g.segs[0], I.One)
                    and key is mk("ix", g.lid, ty="int")
                    and g.lid in st.loops
                ):
                    st.heap[base.id] = I.ListO(
                        (I.Rep(g.lid, g.count, (I.One(v),)),), o.order
                    )
                    return
            if segs and all(isinstance(g, I.One) for g in segs):
                raise I.CaseSplit(key, [K(i) for i in range(len(segs))])
        _split_opt(self, segs, st)
        st.heap[base.id] = I.UnkO("item assignment")
        return
    if isinstance(o, I.UnkO):
        return
    st.heap[base.id] = I.UnkO("item assignment")


def setter_of(self, cls, name):
    if not isinstance(cls, I.Cls):
        return None
    for c in self.mro(cls):
        for n in c.node.body:
            if (
                isinstance(n, ast.FunctionDef)
                and n.name == name
                and any(
                    isinstance(d, ast.Attribute) and d.attr == "setter"
                    for d in n.decorator_list
                )
            ):
                return c, n
    return None


def assign_attr(self, b, name, v, st, node=None):
    b = st.simp(b)
    if isinstance(b, I.IteV):
        raise I.CaseSplit(b.c, None)
    o = self.obj(st, b)
    if isinstance(o, I.InstO):
        hit = setter_of(self, o.cls, name)
        if hit is not None:
            self.call_fn(I.Fn(name, hit[1], hit[0]), [b, v], {}, st, hit[1])
            return
        st.heap[b.id] = o.set(name, v)
    elif isinstance(b, I.Cls):
        self.cls_writes.append((b, name, v, node))
        r = self.cls_state.get((b.mod, b.name))
        if r is None:
            r = self.alloc(self.gstate, I.InstO(b, ()))
            self.cls_state[b.mod, b.name] = r
        st.heap[r.id] = self.obj(st, r).set(name, v)


def assign(self, tg, v, st):
    k = type(tg).__name__
    if k == "Name":
        st.frames[-1][tg.id] = v
        return
    if k == "Starred":
        return self.assign(tg.value, v, st)
    if k in ("Tuple", "List"):
        v = st.simp(v)
        if isinstance(v, I.IteV):
            raise I.CaseSplit(v.c, None)
        segs = self.segs_of(v, st) if not isinstance(v, I.UnkV) else None
        n = len(tg.elts)
        star = [i for i, x in enumerate(tg.elts) if isinstance(x, ast.Starred)]
        if segs is not None and all(isinstance(g, I.One) for g in segs):
            vals = [g.v for g in segs]
            if star:
                i = star[0]
                after = n - i - 1
                if len(vals) < n - 1:
                    raise I.Raised("ValueError", tg)
                for x, y in zip(tg.elts[:i], vals[:i]):
                    self.assign(x, y, st)
                self.assign(tg.elts[i], self.new_list(st, vals[i : len(vals) - after]), st)
                for x, y in zip(tg.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(x, y, st)
                return
            if len(vals) != n:
                raise I.Raised("ValueError", tg)
            for x, y in zip(tg.elts, vals):
                self.assign(x, y, st)
            return
        if segs is not None:
            _split_opt(self, segs, st)
            if len(segs) == 1 and isinstance(segs[0], I.Rep) and not star:
                g = segs[0]
                if len(g.segs) == 1 and isinstance(g.segs[0], I.One) and g.lid[0] != "bits":
                    for i, x in enumerate(tg.elts):
                        self.assign(
                            x,
                            self.inst(g.segs[0].v, {mk("ix", g.lid, ty="int"): K(i)}, st),
                            st,
                        )
                    return
        for x in tg.elts:
            self.assign(x, I.U, st)
        return
    if k == "Attribute":
        self.assign_attr(self.ev(tg.value, st), tg.attr, v, st, tg)
        return
    if k == "Subscript":
        b = self.ev(tg.value, st)
        if isinstance(tg.slice, ast.Slice):
            o = self.obj(st, b)
            if isinstance(o, I.ListO):
                sl = tg.slice
                if sl.lower is None and sl.upper is None and sl.step is None:
                    sg = self.segs_of(v, st)
                    st.heap[b.id] = I.ListO(sg) if sg is not None else I.UnkO("slice")
                else:
                    st.heap[b.id] = I.UnkO("slice assignment")
            return
        self.setitem(b, self.ev(tg.slice, st), v, st, tg)
        return
    self.note(f"unsupported target {k}", tg)


# ------------------------------------------------------------------- binop


OPERATORS = {
    "Add": "add",
    "Sub": "sub",
    "Mult": "mul",
    "Div": "truediv",
    "FloorDiv": "floordiv",
    "Mod": "mod",
    "BitOr": "or",
    "BitAnd": "and",
    "BitXor": "xor",
}


def binop(self, op, a, b, st):
    a, b = st.simp(a), st.simp(b)
    n = type(op).__name__
    if isinstance(a, T) and isinstance(b, T):
        if a.op in ("unk", "opq") or b.op in ("unk", "opq"):
            return t.opaque("unknown operand")
        f = {
            "Add": t.add,
            "Sub": t.sub,
            "Mult": t.mul,
            "Div": t.truediv,
            "FloorDiv": t.floordiv,
            "Mod": t.mod,
            "LShift": t.shl,
            "RShift": t.shr,
            "BitAnd": t.band,
            "BitOr": t.bor,
            "Pow": t.pow_,
        }.get(n)
        if n == "Add":
            ta, tb = t.typeof(a), t.typeof(b)
            if ta is None and a.op == "ite" or tb is None and b.op == "ite":
                d = t._distribute2(t.add, a, b)
                if d is not None:
                    return d
        if n == "BitXor":
            if isint(b) and isint(a):
                return K(kv(a) ^ kv(b))
            return mk("xor", a, b, ty="int")
        if f is None:
            return t.opaque(n)
        return f(a, b)
    for x in (a, b):
        if isinstance(x, I.IteV):
            raise I.CaseSplit(x.c, None)
    if n in OPERATORS:
        r = dunder(self, a, f"__{OPERATORS[n]}__", [b], st)
        if r is None:
            r = dunder(self, b, f"__r{OPERATORS[n]}__", [a], st)
        if r is not None:
            return r
    if n == "Mod" and isinstance(a, T) and isk(a) and isinstance(kv(a), str):
        if isinstance(b, I.Tup) and all(isinstance(x, T) for x in b.items):
            if all(isk(x) for x in b.items):
                return K(kv(a) % tuple(kv(x) for x in b.items))
            if len(b.items) == 1:
                return t.fmt_percent(kv(a), b.items[0])
        return t.opaque("format")
    if n == "Add":
        if isinstance(a, I.TraceB) or isinstance(b, I.TraceB):
            return I.TraceB(_as_items(self, a, st) + _as_items(self, b, st))
        if isinstance(a, I.Tup) and isinstance(b, I.Tup):
            return I.Tup(a.items + b.items)
        sa, sb = self.segs_of(a, st), self.segs_of(b, st)
        if sa is not None and sb is not None:
            return self.alloc(st, I.ListO(tuple(sa) + tuple(sb)))
        return I.U
    if n == "Mult":
        if isinstance(a, T):
            a, b = b, a
        if isinstance(a, I.Tup) and isinstance(b, T) and isint(b):
            return I.Tup(a.items * int(kv(b)))
        segs = self.segs_of(a, st)
        if segs is not None and isinstance(b, T) and t.typeof(b) in ("int", None):
            if isint(b):
                return self.alloc(st, I.ListO(tuple(segs) * max(0, int(kv(b)))))
            if all(isinstance(g, I.One) for g in segs):
                lid = self.range_lid(b, st)
                self.counts[lid] = b
                return self.alloc(st, I.ListO((I.Rep(lid, b, tuple(segs)),)))
        return I.U
    if n in ("Sub", "BitAnd", "BitOr", "BitXor"):
        oa, ob = self.obj(st, a), self.obj(st, b)
        if isinstance(oa, I.DictO) and isinstance(ob, I.DictO) and n == "BitOr":
            r = self.alloc(st, oa)
            self.method(r, "update", [b], {}, st, None)
            return r
        if isinstance(oa, I.SetO) and isinstance(ob, I.SetO):
            if oa.items is not None and ob.items is not None:
                z = _set_algebra(n, oa.items, ob.items)
                return self.alloc(st, z or I.UnkO("set op"))
            if oa.items is None and ob.items is not None and n == "Sub":
                bits = oa.bits
                for i in ob.items:
                    if not isint(i):
                        return I.U
                    bits = t.band(bits, K(~(1 << int(kv(i)))))
                return self.alloc(st, I.SetO(bits))
        return self.alloc(st, I.UnkO("set op"))
    return I.U


# -------------------------------------------------------------------- strings


def format_value(self, e, st):
    v = self.ev(e.value, st)
    spec = ""
    if e.format_spec is not None:
        sp = self.ev(e.format_spec, st)
        if not (isinstance(sp, T) and isk(sp)):
            return t.opaque("format spec")
        spec = kv(sp)
    if not isinstance(v, T):
        v = dunder(self, v, "__str__", [], st)
    if not isinstance(v, T):
        return t.opaque("format")
    if v.op in ("unk", "opq"):
        return t.opaque("format")
    if spec == "":
        return t.str_(v)
    if isk(v):
        try:
            return K(format(kv(v), spec))
        except Exception:
            return t.opaque("format")
    return t.fmt_spec(v, spec)


# ------------------------------------------------------------ comprehensions


def _comp(self, e, st, kind):
    isdict = kind == "DictComp"
    tmp = self.alloc(st, I.DictO(()) if isdict else I.ListO(()))
    names = {
        n.id
        for g in e.generators
        for n in ast.walk(g.target)
        if isinstance(n, ast.Name)
    }
    saved = {n: st.frames[-1].get(n) for n in names}

    def rec(i, s):
        if i == len(e.generators):
            if isdict:
                k = self.ev(e.key, s)
                self.setitem(tmp, k, self.ev(e.value, s), s, e)
            else:
                v = self.ev(e.elt, s)
                self.method(tmp, "append", [v], {}, s, e)
            return I.Leaf("next", s)
        g = e.generators[i]
        segs = self.segs_of(self.ev(g.iter, s), s, g.iter)
        if segs is None:
            s.heap[tmp.id] = I.UnkO("comprehension over unknown")
            return I.Leaf("next", s)

        def body(s2, v):
            try:
                self.assign(g.target, v, s2)
                c = t.and_(*[self.cond(x, s2) for x in g.ifs]) if g.ifs else TRUE
                c = s2.simp(c)
                if c is TRUE:
                    return rec(i + 1, s2)
                if c is FALSE:
                    return I.Leaf("next", s2)
                a, b = s2.copy(), s2.copy()
                a.assume(c, True)
                b.assume(c, False)
                return self.join(c, rec(i + 1, a), I.Leaf("next", b))
            except I.CaseSplit as cs:
                if cs.consts is None:
                    a, b = s2.copy(), s2.copy()
                    okA, okB = a.assume(cs.term, True), b.assume(cs.term, False)
                    ta = body(a, v) if okA else I.Leaf("raise", a)
                    tb = body(b, v) if okB else I.Leaf("raise", b)
                    return self.join(cs.term, ta, tb)
                raise
            except I.Raised as ex:
                return I.Leaf("raise", s2, ex.what, ex.node)

        return self.iterate(list(segs), body, s) or I.Leaf("next", s)

    tree = rec(0, st)
    tree = self.collapse(tree, ("next", "continue"))
    if isinstance(tree, I.Leaf) and tree.kind == "raise":
        raise I.Raised(tree.val, e)
    if isinstance(tree, I.Br):
        tree = self.force_next(tree)
    if tree.st is not st:
        st.become(tree.st)
    for n, v in saved.items():
        if v is None:
            st.frames[-1].pop(n, None)
        else:
            st.frames[-1][n] = v
    if kind == "SetComp":
        return _to_set(self, tmp, st)
    return tmp


def _to_set(self, v, st):
    segs = self.segs_of(v, st)
    if segs is not None:
        if all(isinstance(g, I.One) for g in segs):
            vals = []
            for g in segs:
                if g.v not in vals:
                    vals.append(g.v)
            return self.alloc(st, I.SetO(K(0), tuple(vals)))
        if len(segs) == 1 and isinstance(segs[0], I.Rep) and segs[0].lid[0] == "bits":
            g = segs[0]
            if len(g.segs) == 1 and isinstance(g.segs[0], I.One):
                if g.segs[0].v is mk("ix", g.lid, ty="int"):
                    return self.alloc(st, I.SetO(g.lid[1]))
    return self.alloc(st, I.UnkO("set"))


# ---------------------------------------------------------------------- calls


def call(self, e, st):
    # super()
    if isinstance(e.func, ast.Name) and e.func.id == "super" and not e.args:
        f = st.frames[-1]
        selfv, defcls = f.get("$self"), f.get("$cls")
        if selfv is None or defcls is None:
            return I.U
        o = self.obj(st, selfv)
        dyn = o.cls if isinstance(o, I.InstO) else (selfv if isinstance(selfv, I.Cls) else defcls)
        return I.SuperV(selfv, (dyn, defcls))
    fv = self.ev(e.func, st)
    args, kw = [], {}
    for a in e.args:
        if isinstance(a, ast.Starred):
            sv = self.ev(a.value, st)
            segs = self.segs_of(sv, st)
            if segs is not None and all(isinstance(g, I.One) for g in segs):
                args += [g.v for g in segs]
            else:
                if segs is not None:
                    _split_opt(self, segs, st)
                if (
                    segs is not None
                    and len(segs) == 1
                    and isinstance(segs[0], I.Rep)
                    and len(segs[0].segs) == 1
                ):
                    args.append(I.Tup(("*", sv)))
                else:
                    args.append(I.U)
        else:
            args.append(self.ev(a, st))
    for k in e.keywords:
        v = self.ev(k.value, st)
        if k.arg is None:
            o = self.obj(st, v)
            if isinstance(o, I.DictO):
                for x in o.entries:
                    if isinstance(x, I.DE) and isinstance(x.key, T) and isk(x.key):
                        kw[kv(x.key)] = x.val
            continue
        kw[k.arg] = v
    return call_value(self, fv, args, kw, st, e)


def call_value(self, fv, args, kw, st, e):
    fv = st.simp(fv)
    if isinstance(fv, I.IteV):
        raise I.CaseSplit(fv.c, None)
    if isinstance(fv, I.Bound):
        return self.call_fn(fv.fn, [fv.self] + args, kw, st, e)
    if isinstance(fv, I.Fn):
        return self.call_fn(fv, args, kw, st, e)
    if isinstance(fv, I.Cls):
        return self.call_cls(fv, args, kw, st, e)
    if isinstance(fv, I.BM):
        return self.method(fv.self, fv.name, args, kw, st, e)
    if isinstance(fv, I.Ext):
        if fv.name.startswith("builtins."):
            return self.call_builtin(fv.name[9:], args, kw, st, e)
        return self.call_ext(fv.name, args, kw, st, e)
    if isinstance(fv, T) and fv.op == "attr":
        return I.UnkV("call of vfb attribute")
    # unknown callee: arguments may be modified
    for a in args:
        _escape(self, a, st)
    return I.UnkV("call of unknown")


def _escape(self, v, st, depth=0):
    if depth > 3:
        return
    if isinstance(v, I.Ref) and v.id in st.heap:
        o = st.heap[v.id]
        if isinstance(o, (I.ListO, I.DictO, I.SetO)):
            st.heap[v.id] = I.UnkO("escaped")
        elif isinstance(o, I.StreamO):
            from dataclasses import replace

            st.heap[v.id] = replace(o, items=o.items + (I.TOpq("escaped stream"),))


def _is_gen(node):
    r = getattr(node, "_is_gen", None)
    if r is None:
        r = any(isinstance(n, (ast.Yield, ast.YieldFrom)) for n in ast.walk(node))
        node._is_gen = r
    return r


def call_fn(self, fn, args, kw, st, node=None):
    n = fn.node
    m = getattr(n, "_mod", None)
    key = f"{m.name if m else ''}:{(fn.cls.name + '.') if fn.cls else ''}{fn.name}"
    self.calls_seen.add(key)
    h = self.hooks.get(key)
    if h is not None:
        r = h(self, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if self.depth > self.max_depth or (id(n) in self.callstack and self.callstack.count(id(n)) > 3):
        self.note(f"recursion limit in {fn.name}", node)
        for a in args:
            _escape(self, a, st)
        return I.U
    frame = dict(fn.closure)
    a = n.args
    names = [x.arg for x in a.posonlyargs + a.args]
    defaults = [None] * (len(names) - len(a.defaults)) + list(a.defaults)
    pos = list(args)
    for i, nm in enumerate(names):
        if i < len(pos):
            frame[nm] = pos[i]
        elif nm in kw:
            frame[nm] = kw[nm]
        elif defaults[i] is not None:
            frame[nm] = _default(self, defaults[i], st, not fn.closure)
        else:
            frame[nm] = I.U
    if a.vararg:
        frame[a.vararg.arg] = I.Tup(tuple(pos[len(names) :]))
    for x, d in zip(a.kwonlyargs, a.kw_defaults):
        if x.arg in kw:
            frame[x.arg] = kw[x.arg]
        elif d is not None:
            frame[x.arg] = _default(self, d, st, not fn.closure)
        else:
            frame[x.arg] = I.U
    if a.kwarg:
        used = set(names) | {x.arg for x in a.kwonlyargs}
        frame[a.kwarg.arg] = self.alloc(
            st, I.DictO(tuple(I.DE(K(k), v) for k, v in kw.items() if k not in used))
        )
    if fn.cls is not None and names:
        frame["$cls"] = fn.cls
        frame["$self"] = frame.get(names[0])
    saved_cs = self.callstack
    self.callstack = saved_cs + (id(node) if node is not None else 0, id(n))
    saved_cn, saved_cur = self.callnodes, self.cur
    self.callnodes = saved_cn + (node,)
    self.depth += 1
    st.frames.append(frame)
    nf = len(st.frames)
    try:
        if isinstance(n, ast.Lambda):
            v = self.ev(n.body, st)
            st.frames.pop()
            return v
        gen = _is_gen(n)
        if gen:
            frame["$yield"] = self.alloc(st, I.ListO(()))
        yref = frame.get("$yield")
        tree = self.run(n.body, st)
        tree = self.collapse(tree, ("return", "next"))
        if isinstance(tree, I.Br):
            self.note(f"cannot join outcomes of {fn.name}", node)
            tree = self.force_next(tree)
        if tree.kind == "raise":
            raise I.Raised(tree.val, tree.node, tree.st)
        if tree.st is not st:
            st.become(tree.st)
        del st.frames[nf - 1 :]
        if gen:
            return yref
        return tree.val if tree.val is not None and tree.kind == "return" else (
            tree.val if tree.val is not None else NONE
        )
    except I.Raised:
        del st.frames[nf - 1 :]
        raise
    except I.CaseSplit:
        del st.frames[nf - 1 :]
        raise
    finally:
        self.depth -= 1
        self.callstack = saved_cs
        self.callnodes = saved_cn
        self.cur = saved_cur


def _default(self, d, st, once=False):
    """The value of a parameter default; one object for all calls of a function."""
    key = ("$default", id(d))
    if once and isinstance(d, (ast.List, ast.Dict, ast.Set, ast.Call)):
        if key not in self.gcache:
            gs = self.gstate
            gs.frames.append({})
            try:
                self.gcache[key] = self.ev(d, gs)
            except (I.Raised, I.CaseSplit, RecursionError, AttributeError, TypeError):
                self.gcache[key] = I.U
            finally:
                gs.frames.pop()
        return self.gcache[key]
    gs = st.copy()
    gs.frames.append({})
    try:
        return self.ev(d, gs) if isinstance(d, (ast.Constant, ast.Name, ast.UnaryOp, ast.Tuple, ast.Attribute)) else self.ev(d, st)
    except I.Raised:
        return I.U


def call_cls(self, cls, args, kw, st, node):
    eb = ext_bases(self, cls)
    short = {b.split(".")[-1] for b in eb}
    h = self.hooks.get(f"{cls.mod}:{cls.name}")
    if h is not None:
        r = h(self, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if "TypedDict" in short:
        return self.call_builtin("dict", args, kw, st, node)
    if self.is_enum(cls):
        v = args[0] if args else I.U
        if not isinstance(v, T):
            return I.U
        tab = _enum_table(self, cls)
        if isk(v) and tab is not None and not any(x is v for _, x in tab):
            raise I.Raised("ValueError", node)
        m = self.enum_member(cls, kv(tab[0][0])) if tab else None
        return I.EnumV(cls, v) if isinstance(m, I.EnumV) or m is None else v
    if "NamedTuple" in short:
        fields = [
            s.target.id
            for s in cls.node.body
            if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
        ]
        vals = list(args) + [kw.get(f, I.U) for f in fields[len(args) :]]
        return I.Tup(tuple(vals))
    if short & {"Exception", "BaseException", "ValueError", "KeyError"}:
        return I.Ext("exception")
    r = self.alloc(st, I.InstO(cls, ()))
    hit = self.lookup_attr(cls, "__init__")
    if hit is not None:
        self.call_fn(I.Fn("__init__", hit[1], hit[0]), [r] + args, kw, st, node)
    elif any(
        (d.attr if isinstance(d, ast.Attribute) else getattr(d, "id", "")) == "dataclass"
        for d in [x.func if isinstance(x, ast.Call) else x for x in cls.node.decorator_list]
    ):
        o = st.heap[r.id]
        fields = [
            s for s in cls.node.body if isinstance(s, ast.AnnAssign) and isinstance(s.target, ast.Name)
        ]
        for i, f in enumerate(fields):
            nm = f.target.id
            if i < len(args):
                v = args[i]
            elif nm in kw:
                v = kw[nm]
            elif isinstance(f.value, ast.Constant):
                v = K(f.value.value)
            else:
                v = I.U
            o = o.set(nm, v)
        st.heap[r.id] = o
    return r


# -- streams


def _sid(self, st, node, extra=()):
    key = (self.callstack, id(node), st.loops, st.ctx, self.position(st), extra)
    if key not in self.sidkeys:
        self.sidkeys[key] = self.next_sid
        self.next_sid += 1
    return self.sidkeys[key]


def stream_read(self, ref, n, st, node, kind=None, rng=None, ty="bytes"):
    """Consume from a reader stream; returns the slot term."""
    from dataclasses import replace

    o = self.obj(st, ref)
    if not isinstance(o, I.StreamO) or o.mode != "r":
        return t.opaque("read")
    kind = kind or ("raw", n)
    sid = _sid(self, st, node, (kind,))
    if self.sidlog is not None:
        self.sidlog.append(sid)
    term = t.slot(sid, self.ixs(st), ty)
    it = self.ritems.get(sid)
    if it is None or it.kind[0] != kind[0]:
        if it is None:
            it = I.RItem(sid, kind, term, self.site(node))
            self.ritems[sid] = it
    info = t.SLOT.setdefault(sid, {})
    if kind[0] == "raw":
        if n is not None:
            info["blen"] = n
    if rng is not None:
        info["range"] = rng
    force, st.force = st.force, None
    if force is not None and force[0] == "tag":
        self.forced[sid] = force
        if force[1] is not None and (kind[0] != "raw" or isinstance(n, T) and isk(n)):
            # the tag itself is described by the dispatch item
            if kind[0] != "raw":
                return force[1]
            return term
        st.heap[ref.id] = replace(o, items=o.items + (it,))
        if kind[0] != "raw":
            for c in force[3]:
                st.assume(t.eq(term, c), False)
        return term
    st.heap[ref.id] = replace(o, items=o.items + (it,))
    return term


def _refine(self, term, kind, rng, ty, st):
    """A raw read of constant size is interpreted as a number."""
    if not (isinstance(term, T) and term.op == "slot"):
        return None
    it = self.ritems.get(term.args[0])
    if it is None:
        return None
    if it.kind[0] == "raw":
        n = it.kind[1]
        if not (isinstance(n, T) and isint(n) and int(kv(n)) == kind[1]):
            return None
        it.kind = kind
    elif it.kind != kind:
        return None
    new = t.slot(term.args[0], term.args[1], ty)
    it.term = t.slot(term.args[0], it.term.args[1], ty)
    if rng is not None:
        t.SLOT.setdefault(term.args[0], {})["range"] = rng
    f = self.forced.get(term.args[0])
    if f is not None:
        if f[1] is not None:
            return f[1]
        for c in f[3]:
            st.assume(t.eq(new, c), False)
    return new


def _intrange(n, signed):
    return (-(1 << (8 * n - 1)), (1 << (8 * n - 1)) - 1) if signed else (0, (1 << (8 * n)) - 1)


def _as_items(self, v, st):
    """Trace items for a byte value."""
    v = st.simp(v)
    if isinstance(v, I.TraceB):
        return v.items
    if isinstance(v, I.IteV):
        a, b = _as_items(self, v.a, st), _as_items(self, v.b, st)
        return self.norm_alt(v.c, a, b)
    if not isinstance(v, T):
        return (I.TOpq("unknown bytes"),)
    if isk(v):
        if kv(v) == b"":
            return ()
        return (I.W(("bytes", K(len(kv(v)))), v),)
    if v.op == "bcat":
        return tuple(x for p in v.args for x in _as_items(self, p, st))
    if v.op == "tobytes":
        x, n, order, signed = v.args
        return (I.W(("int", n, signed, order), x),)
    if v.op == "tobytes1":
        return (I.W(("int", 1, False, ""), v.args[0]),)
    if v.op == "packf":
        x, n, order = v.args
        return (I.W(("float", n, order), x),)
    if v.op == "bjoin":
        lid, x = v.args
        return (I.TRep(lid, self.counts.get(lid), _as_items(self, x, st)),)
    return (I.W(("bytes", t.blen(v)), v),)


def stream_write(self, ref, v, st, node):
    from dataclasses import replace

    o = self.obj(st, ref)
    if not isinstance(o, I.StreamO):
        return
    items = _as_items(self, v, st)
    items = tuple(
        I.W(x.kind, x.expr, self.site(node)) if isinstance(x, I.W) and x.node is None else x
        for x in items
    )
    st.heap[ref.id] = replace(o, items=o.items + items)


def tobytes(x, n, order, signed):
    if isk(x) and isint(x):
        try:
            return K(int(kv(x)).to_bytes(n, order or "little", signed=signed))
        except OverflowError:
            raise I.Raised("OverflowError", None)
    if n == 1 and not signed:
        return mk("tobytes1", x, ty="bytes")
    return mk("tobytes", x, n, "" if n == 1 else order, signed, ty="bytes")


# ----------------------------------------------------------- builtin methods


def term_method(self, v, name, args, kw, st, node):
    if isk(v) and all(isinstance(a, T) and isk(a) for a in args) and not kw:
        c = kv(v)
        if isinstance(c, (str, bytes, int, float)) and hasattr(c, name):
            try:
                r = getattr(c, name)(*[kv(a) for a in args])
            except Exception as ex:
                raise I.Raised(type(ex).__name__, node)
            if isinstance(r, (str, bytes, int, float, bool, type(None))):
                return K(r)
            if isinstance(r, (list, tuple)):
                return self.new_list(st, [K(x) for x in r])
    if name == "to_bytes":
        n = args[0] if args else kw.get("length", K(1))
        order = kw.get("byteorder", args[1] if len(args) > 1 else K("big"))
        signed = kw.get("signed", FALSE)
        if isinstance(n, T) and isint(n) and isk(order) and isk(signed):
            return tobytes(v, int(kv(n)), kv(order), bool(kv(signed)))
        return t.opaque("to_bytes")
    if name in ("encode", "decode"):
        return _recode(name, v, args, kw, node)
    if name in ("strip", "lstrip", "rstrip"):
        side = {"strip": "both", "lstrip": "l", "rstrip": "r"}[name]
        ch = args[0] if args else NONE
        if isinstance(ch, T) and isk(ch):
            return t.strip(v, kv(ch), side)
        return t.opaque("strip")
    if name == "hex":
        return t.hex_(v)
    if name == "bit_length":
        return mk("bitlen", v, ty="int")
    if name == "join":
        return _join(self, v, args[0], st)
    if name in STR_METHODS_BOOL:
        if all(isinstance(a, T) for a in args) and t.typeof(v) == "str" and not kw:
            return mk("strb", name, v, tuple(args), ty="bool")
        return self.fresh()
    if name == "format":
        return t.opaque("format")
    if name in ("lower", "upper", "title", "replace", "removeprefix", "removesuffix"):
        if all(isinstance(a, T) for a in args):
            return mk("strm", name, v, tuple(args), ty="str")
        return t.opaque(name)
    if name == "is_integer":
        return mk("isint", v, ty="bool")
    if name in self.str_hooks:
        return self.str_hooks[name](self, v, args, kw, st, node)
    if name in ("split", "splitlines", "rsplit"):
        return self.alloc(st, I.UnkO(name))
    return t.opaque(name)


def _recode(name, v, args, kw, node):
    enc = args[0] if args else kw.get("encoding", K("utf-8"))
    errors = args[1] if len(args) > 1 else kw.get("errors", K("strict"))
    if not isinstance(enc, T) or not isinstance(errors, T):
        return t.opaque(name)
    if isk(v) and isk(enc) and isk(errors):
        try:
            return K(getattr(kv(v), name)(kv(enc), kv(errors)))
        except UnicodeError as ex:
            raise I.Raised(type(ex).__name__, node)
        except (LookupError, TypeError, AttributeError):
            return t.opaque(name)
    if not isk(errors) or kv(errors) != "strict":
        # loses what the encoding lacks: not the inverse of the other direction
        if not isk(enc) or not isk(errors):
            return t.opaque(name)
        enc = K(f"{kv(enc)}|{kv(errors)}")
    return t.encode(v, enc) if name == "encode" else t.decode(v, enc)


def _join(self, sep, lst, st):
    segs = self.segs_of(lst, st)
    if segs is None:
        return t.opaque("join")
    isb = isk(sep) and isinstance(kv(sep), bytes)
    if all(isinstance(g, I.One) and isinstance(g.v, (T, I.TraceB)) for g in segs):
        if isb:
            if kv(sep) != b"":
                return t.opaque("join")
            out = K(b"")
            if any(isinstance(g.v, I.TraceB) for g in segs):
                return I.TraceB(tuple(x for g in segs for x in _as_items(self, g.v, st)))
            for g in segs:
                out = t.bcat(out, g.v)
            return out
        parts = []
        for i, g in enumerate(segs):
            if i:
                parts.append(sep)
            parts.append(g.v)
        return t.cat(*parts) if parts else K("")
    if len(segs) == 1 and isinstance(segs[0], I.Rep) and len(segs[0].segs) == 1:
        g = segs[0]
        x = g.segs[0]
        if isinstance(x, I.One) and isinstance(x.v, T) and isk(sep) and not kv(sep):
            self.counts.setdefault(g.lid, g.count)
            return mk("bjoin" if isb else "strjoin", g.lid, x.v, ty="bytes" if isb else "str")
    return t.opaque("join")


def method(self, v, name, args, kw, st, node):
    v = st.simp(v)
    if isinstance(v, I.UnkV):
        for a in args:
            _escape(self, a, st)
        return I.U
    if isinstance(v, I.IteV):
        raise I.CaseSplit(v.c, None)
    if isinstance(v, T):
        if v.op in ("unk", "opq"):
            return I.U
        if v.op == "attr" and t.typeof(v) not in ("int", "str"):
            return I.U
        return self.term_method(v, name, args, kw, st, node)
    if isinstance(v, I.Tup):
        if name == "index" and args:
            for i, x in enumerate(v.items):
                if x == args[0]:
                    return K(i)
        if name == "count":
            return self.fresh("int")
        return I.U
    if isinstance(v, I.SuperV):
        return NONE
    if isinstance(v, I.Cls):
        if self.is_enum(v) and name == "__members__":
            return I.U
        return I.U
    if isinstance(v, I.RangeV):
        return I.U
    o = self.obj(st, v)
    if isinstance(o, I.StreamO):
        return _stream_method(self, v, o, name, args, kw, st, node)
    if isinstance(o, I.ScriptO):
        return _script_method(self, v, o, name, args, kw, st, node)
    if isinstance(o, I.ListO):
        return _list_method(self, v, o, name, args, kw, st, node)
    if isinstance(o, I.DictO):
        return _dict_method(self, v, o, name, args, kw, st, node)
    if isinstance(o, I.SetO):
        return _set_method(self, v, o, name, args, kw, st, node)
    if isinstance(o, I.InstO):
        h = self.inst_methods.get(o.cls.name)
        if h is not None:
            return h(self, v, name, args, st)
        self.note(f"unknown method {name}", node)
        for a in args:
            _escape(self, a, st)
        return I.U
    # unknown object: absorbs
    if isinstance(o, I.UnkO):
        for a in args:
            _escape(self, a, st)
        return I.U
    return I.U


def _stream_method(self, v, o, name, args, kw, st, node):
    if name == "getbuffer" and o.mode == "r":
        return I.Ext("nbuf")
    if name in ("read", "read1", "getbuffer"):
        if o.mode == "r":
            n = args[0] if args else kw.get("size")
            if isinstance(n, T) and (n is NONE or isint(n) and int(kv(n)) < 0):
                n = None
            if n is not None and not isinstance(n, T):
                return t.opaque("read size")
            return self.stream_read(v, n, st, node)
        if name == "getbuffer":
            return I.TraceB(o.items)
        return t.opaque("read back")
    if name == "write":
        if args:
            self.stream_write(v, args[0], st, node)
        return NONE
    if name == "getvalue":
        if o.mode == "w":
            return I.TraceB(o.items)
        return self.stream_read(v, None, st, node)
    if name in ("close", "flush"):
        return NONE
    if name == "seek" and o.mode == "w":
        return NONE
    if name == "tell":
        if o.mode == "w":
            return mk("sym", "tracelen", id(I.TraceB(o.items)), ty="int")
        self.tells += 1
        self.tell = mk("tell", self.tells, ty="int")
        return self.tell
    from dataclasses import replace

    st.heap[v.id] = replace(o, items=o.items + (I.TOpq(f"stream.{name}", args[0] if args else None),))
    return I.U


def chunk_size(p):
    """Number of bytes of a piece of a stream, None when it is not known."""
    if isk(p):
        return len(kv(p))
    if p.op in ("tobytes1", "encoded"):
        return 1
    if p.op in ("tobytes", "packf"):
        return p.args[1]
    return None


def _script_method(self, v, o, name, args, kw, st, node):
    from dataclasses import replace

    total = sum(n for _, n in o.chunks)
    if name == "tell":
        return K(o.pos)
    if name == "getbuffer":
        return mk("buffer", K(total), ty="bytes")
    if name == "seek":
        if len(args) == 1 and isinstance(args[0], T) and isint(args[0]):
            st.heap[v.id] = replace(o, pos=int(kv(args[0])))
            return args[0]
        return I.U
    if name in ("close", "flush"):
        return NONE
    if name != "read":
        return I.U
    n = args[0] if args else kw.get("size")
    if n is None or n is NONE:
        want = total - o.pos
    elif isinstance(n, T) and isint(n):
        want = int(kv(n))
        if want < 0:
            want = total - o.pos
    else:
        self.note("read of unknown size", node)
        return t.opaque("read size")
    want = max(0, min(want, total - o.pos))
    parts, at, end = [], 0, o.pos + want
    for val, size in o.chunks:
        a, b = max(o.pos, at), min(end, at + size)
        if a < b:
            if isk(val):
                parts.append(K(kv(val)[a - at : b - at]))
            elif b - a == size:
                parts.append(val)
            else:
                self.note("read crosses an entry's data", node)
                parts.append(t.opaque("part"))
        at += size
    st.heap[v.id] = replace(o, pos=end)
    if not parts:
        return K(b"")
    if len(parts) == 1:
        return parts[0]
    if all(isk(x) for x in parts):
        return K(b"".join(kv(x) for x in parts))
    if self.join_chunks:
        return mk("chunks", *parts, ty="bytes")
    self.note("read crosses an entry's data", node)
    return t.opaque("part")


def _list_method(self, v, o, name, args, kw, st, node):

    def put(segs):
        st.heap[v.id] = I.ListO(tuple(segs), o.order)

    if name == "append":
        put(o.segs + (I.One(args[0]),))
        return NONE
    if name == "extend":
        sg = self.segs_of(args[0], st)
        if sg is None:
            st.heap[v.id] = I.UnkO("extend")
        else:
            put(o.segs + tuple(sg))
        return NONE
    if name == "insert":
        segs = self.simp_segs(o.segs, st)
        n = args[0]
        if isinstance(n, T) and isint(n):
            i = int(kv(n))
            if i == 0 or all(isinstance(g, I.One) for g in segs):
                segs = list(segs)
                segs.insert(i, I.One(args[1]))
                put(segs)
                return NONE
        st.heap[v.id] = I.UnkO("insert")
        return NONE
    if name == "pop":
        segs = list(self.simp_segs(o.segs, st))
        i = args[0] if args else K(-1)
        if isinstance(i, T) and isint(i):
            i = int(kv(i))
            if all(isinstance(g, I.One) for g in segs):
                if not segs or not -len(segs) <= i < len(segs):
                    raise I.Raised("IndexError", node)
                r = segs.pop(i)
                put(segs)
                return r.v
            if i == -1 and isinstance(segs[-1], I.One) or i == 0 and isinstance(segs[0], I.One):
                r = segs.pop(i)
                put(segs)
                return r.v
            _split_opt(self, segs, st)
        st.heap[v.id] = I.UnkO("pop")
        return I.U
    if name == "copy":
        return self.alloc(st, o)
    if name == "clear":
        st.heap[v.id] = I.ListO(())
        return NONE
    if name == "reverse":
        segs = self.simp_segs(o.segs, st)
        if all(isinstance(g, I.One) for g in segs):
            put(tuple(reversed(segs)))
        else:
            st.heap[v.id] = I.UnkO("reverse")
        return NONE
    if name == "sort":
        r = _sorted(self, v, kw, st)
        st.heap[v.id] = self.obj(st, r) if isinstance(r, I.Ref) else I.UnkO("sort")
        return NONE
    if name == "count" and len(args) == 1:
        segs = self.simp_segs(o.segs, st)
        if all(isinstance(g, I.One) and isinstance(g.v, T) and isk(g.v) for g in segs):
            if isinstance(args[0], T) and isk(args[0]):
                return K(sum(g.v == args[0] for g in segs))
        return I.U
    if name == "index":
        segs = self.simp_segs(o.segs, st)
        if all(isinstance(g, I.One) for g in segs):
            for i, g in enumerate(segs):
                if g.v == args[0]:
                    return K(i)
            vals = [g.v for g in segs]
            if isinstance(args[0], T) and all(isinstance(x, T) and isk(x) for x in vals):
                tab = {}
                for i, x in enumerate(vals):
                    tab.setdefault(x, K(i))
                r = t.lookup(tuple(tab.items()), args[0])
                if r is not None:
                    return r
        return self.fresh("int")
    if name == "count":
        return self.fresh("int")
    if name == "remove":
        segs = self.simp_segs(o.segs, st)
        for i, g in enumerate(segs):
            if isinstance(g, I.One) and g.v == args[0]:
                put(segs[:i] + segs[i + 1 :])
                return NONE
        st.heap[v.id] = I.UnkO("remove")
        return NONE
    st.heap[v.id] = I.UnkO(name)
    return I.U


def _dict_method(self, v, o, name, args, kw, st, node):
    if name in ("get", "setdefault", "pop"):
        key = args[0]
        dflt = args[1] if len(args) > 1 else NONE
        g = self.contains(key, v, st)
        g = st.simp(g)
        if name == "setdefault":
            if g is TRUE:
                return self.getitem(v, key, st, node)
            if g is FALSE:
                self.setitem(v, key, dflt, st, node)
                return dflt
            raise I.CaseSplit(g, None)
        if g is TRUE:
            r = self.getitem(v, key, st, node)
        elif g is FALSE:
            if name == "pop" and len(args) < 2:
                raise I.Raised("KeyError", node)
            r = dflt
        else:
            n = len(self.needs)
            s2 = st.copy()
            s2.assume(g, True)
            if g.op == "sym":
                r = I.U
            else:
                val = self.getitem(v, key, s2, node)
                del self.needs[n:]
                if name == "pop" and len(args) < 2:
                    r = val
                    self.needs.append((g, key, node))
                elif isinstance(val, I.UnkV):
                    r = I.U
                elif isinstance(val, T) and isinstance(dflt, T):
                    r = t.ite(g, val, dflt)
                else:
                    r = I.IteV(g, val, dflt)
        if name == "pop":
            o = self.obj(st, v)
            st.heap[v.id] = I.DictO(
                tuple(e for e in o.entries if not (isinstance(e, I.DE) and e.key == key))
            )
        return r
    if name == "keys":
        return self.alloc(st, I.ListO(self.dict_segs(o, st, lambda e: e.key)))
    if name == "values":
        return self.alloc(st, I.ListO(self.dict_segs(o, st, lambda e: e.val)))
    if name == "items":
        return self.alloc(st, I.ListO(self.dict_segs(o, st, lambda e: I.Tup((e.key, e.val)))))
    if name == "copy":
        return self.alloc(st, o)
    if name == "clear":
        st.heap[v.id] = I.DictO(())
        return NONE
    if name == "update":
        src = list(args)
        for a in src:
            ao = self.obj(st, a)
            if isinstance(ao, I.DictO):
                for e in ao.entries:
                    if isinstance(e, I.DE) and st.simp(e.guard) is TRUE:
                        self.setitem(v, e.key, e.val, st, node)
                    elif isinstance(e, I.DE):
                        cur = self.obj(st, v)
                        if isinstance(cur, I.DictO) and not any(
                            isinstance(x, I.DE) and x.key == e.key for x in cur.entries
                        ):
                            st.heap[v.id] = I.DictO(cur.entries + (e,))
                        else:
                            st.heap[v.id] = I.UnkO("update")
                            return NONE
                    else:
                        cur = self.obj(st, v)
                        if isinstance(cur, I.DictO):
                            st.heap[v.id] = I.DictO(cur.entries + (e,))
            else:
                st.heap[v.id] = I.UnkO("update")
        for k, x in kw.items():
            self.setitem(v, K(k), x, st, node)
        return NONE
    st.heap[v.id] = I.UnkO(name)
    return I.U


def _set_algebra(n, x, y):
    """The set operation on known elements, or None where equality is not decided."""
    x, y = list(x), list(y)
    if not all(isinstance(i, T) and isk(i) for i in x + y) and n != "BitOr":
        return None
    if n == "Sub":
        z = [i for i in x if i not in y]
    elif n == "BitAnd":
        z = [i for i in x if i in y]
    elif n == "BitXor":
        z = [i for i in x if i not in y] + [i for i in y if i not in x]
    else:
        z = x + [i for i in y if i not in x]
    return I.SetO(K(0), tuple(z))


SET_OPS = {
    "union": "BitOr",
    "update": "BitOr",
    "difference": "Sub",
    "difference_update": "Sub",
    "intersection": "BitAnd",
    "intersection_update": "BitAnd",
    "symmetric_difference": "BitXor",
    "symmetric_difference_update": "BitXor",
}


def _set_method(self, v, o, name, args, kw, st, node):
    if name in SET_OPS and not kw:
        r = o if o.items is not None else None
        for a in args:
            b = self.obj(st, a)
            if not isinstance(b, I.SetO):
                b = self.obj(st, _to_set(self, a, st))
            if r is not None and isinstance(b, I.SetO) and b.items is not None:
                r = _set_algebra(SET_OPS[name], r.items, b.items)
            else:
                r = None
        if name.endswith("update"):
            st.heap[v.id] = r or I.UnkO(name)
            return NONE
        return self.alloc(st, r or I.UnkO(name))
    if name == "clear":
        st.heap[v.id] = I.SetO(K(0), ())
        return NONE
    if name in ("issubset", "issuperset", "isdisjoint") and o.items is not None and args:
        b = self.obj(st, args[0])
        if not isinstance(b, I.SetO):
            b = self.obj(st, _to_set(self, args[0], st))
        if isinstance(b, I.SetO) and b.items is not None:
            if name == "isdisjoint":
                z = _set_algebra("BitAnd", o.items, b.items)
            else:
                x, y = (o, b) if name == "issubset" else (b, o)
                z = _set_algebra("Sub", x.items, y.items)
            if z is not None:
                return FALSE if z.items else TRUE
        return self.fresh()
    if name in ("discard", "remove", "add") and args:
        x = args[0]
        if o.items is not None:
            if name == "add":
                items = o.items if x in o.items else o.items + (x,)
            else:
                items = tuple(i for i in o.items if i != x)
            st.heap[v.id] = I.SetO(K(0), items)
            return NONE
        if isinstance(x, T) and isint(x):
            b = 1 << int(kv(x))
            if name == "add":
                nb = t.add(t.band(o.bits, K(~b)), K(b))
            else:
                nb = t.band(o.bits, K(~b))
            st.heap[v.id] = I.SetO(nb)
            return NONE
        st.heap[v.id] = I.UnkO("set")
        return NONE
    if name == "copy":
        return self.alloc(st, o)
    st.heap[v.id] = I.UnkO(name)
    return I.U


# ------------------------------------------------------------------ builtins


def _sorted(self, v, kw, st):
    o = self.obj(st, v)
    if isinstance(o, I.SetO) and o.items is None:
        segs = self.segs_of(v, st)
        return self.alloc(st, I.ListO(tuple(segs)))
    segs = self.segs_of(v, st)
    if segs is None:
        return self.alloc(st, I.UnkO("sorted"))
    if (
        not kw
        and len(segs) == 1
        and isinstance(segs[0], I.Rep)
        and segs[0].lid[0] == "bits"
    ):
        return self.alloc(st, I.ListO(tuple(segs)))
    if (
        not kw
        and len(segs) <= 16
        and segs
        and all(
            isinstance(g, I.One)
            and isinstance(self.obj(st, g.v), I.InstO)
            and self.lookup_attr(self.obj(st, g.v).cls, "__lt__") is not None
            for g in segs
        )
    ):
        out = []
        for g in segs:
            i = len(out)
            while i:
                c = self.truth(dunder(self, g.v, "__lt__", [out[i - 1]], st), st)
                if not (isinstance(c, T) and isk(c)):
                    return self.alloc(st, I.ListO(tuple(segs), "sorted"))
                if c is FALSE:
                    break
                i -= 1
            out.insert(i, g.v)
        return self.new_list(st, out)
    if all(isinstance(g, I.One) for g in segs):
        keys = _sort_keys(self, segs, kw, st)
        if keys is not None:
            try:
                ix = sorted(range(len(segs)), key=keys.__getitem__)
            except TypeError:
                ix = None
            rev = kw.get("reverse", FALSE)
            if ix is not None and isinstance(rev, T) and isk(rev):
                if kv(rev):  # equal items keep their order
                    ix = sorted(range(len(segs)), key=keys.__getitem__, reverse=True)
                return self.new_list(st, [segs[i].v for i in ix])
    return self.alloc(st, I.ListO(tuple(segs), "sorted"))


def _sort_keys(self, segs, kw, st):
    """Python values of the sort keys, None unless all are known."""
    if set(kw) - {"key", "reverse"}:
        return None
    fn = kw.get("key")
    out = []
    for g in segs:
        v = g.v
        if fn is not None and fn is not NONE:
            v = call_value(self, fn, [v], {}, st, None)
        v = plain(self, v, st)
        if v is UNPLAIN:
            return None
        out.append(v)
    return out


UNPLAIN = object()


def plain(self, v, st):
    """The Python value of a wholly known tuple, list, number or string."""
    if isinstance(v, T):
        return kv(v) if isk(v) else UNPLAIN
    if isinstance(v, I.Tup):
        xs = [plain(self, x, st) for x in v.items]
        return UNPLAIN if UNPLAIN in xs else tuple(xs)
    o = self.obj(st, v) if isinstance(v, I.Ref) else None
    if isinstance(o, I.ListO) and all(isinstance(g, I.One) for g in o.segs):
        xs = [plain(self, g.v, st) for g in o.segs]
        return UNPLAIN if UNPLAIN in xs else xs
    return UNPLAIN


def call_builtin(self, name, args, kw, st, node):
    args = [st.simp(a) for a in args]
    h = self.hooks.get("builtins." + name)
    if h is not None:
        r = h(self, args, kw, st, node)
        if r is not NotImplemented:
            return r
    for a in args:
        if isinstance(a, I.IteV) and name not in ("isinstance", "print", "bool"):
            raise I.CaseSplit(a.c, None)
    a0 = args[0] if args else None
    if name == "len" and isinstance(a0, I.TraceB) and self.trace_len:
        n = self.trace_len(a0.items)
        if n is not None:
            return K(n)
    if name == "len":
        if isinstance(a0, I.UnkV):
            return self.fresh("int")
        o = self.obj(st, a0)
        if isinstance(o, I.UnkO):
            return self.fresh("int")
        return self.length(a0, st)
    if name == "range":
        ts = args
        if not all(isinstance(x, T) for x in ts):
            return I.U
        if len(ts) == 1:
            return I.RangeV(K(0), ts[0])
        step = 1
        if len(ts) == 3:
            if not isint(ts[2]):
                return I.U
            step = int(kv(ts[2]))
        if step == 0:
            raise I.Raised("ValueError", node)
        return I.RangeV(ts[0], ts[1], step)
    if name == "int":
        if not args:
            return K(0)
        if not isinstance(a0, T):
            return I.U
        if len(args) > 1 or "base" in kw:
            b = args[1] if len(args) > 1 else kw["base"]
            return t.int_base(a0, kv(b)) if isk(b) else t.opaque("int")
        if t.typeof(a0) == "str" and not isk(a0):
            if a0.op == "str":
                return t.trunc(a0)
            return mk("parseint", a0, ty="int")
        if isk(a0):
            try:
                return K(int(kv(a0)))
            except Exception as ex:
                raise I.Raised(type(ex).__name__, node)
        return t.trunc(a0)
    if name == "float":
        if isinstance(a0, T):
            if isk(a0):
                try:
                    return K(float(kv(a0)))
                except Exception:
                    return t.opaque("float")
            if t.typeof(a0) == "float":
                return a0
            return mk("tofloat", a0, ty="float")
        return I.U
    if name == "str":
        if not args:
            return K("")
        if isinstance(a0, T):
            if len(args) > 1 or "encoding" in kw:
                return t.decode(a0, args[1] if len(args) > 1 else kw["encoding"])
            return t.str_(a0)
        r = dunder(self, a0, "__str__", [], st)
        return r if isinstance(r, T) else t.opaque("str")
    if name == "bool":
        return self.truth(a0, st) if args else FALSE
    if name in ("list", "tuple"):
        if not args:
            return self.new_list(st) if name == "list" else I.Tup(())
        segs = self.segs_of(a0, st)
        if segs is None:
            return self.alloc(st, I.UnkO("list"))
        if name == "tuple" and all(isinstance(g, I.One) for g in segs):
            return I.Tup(tuple(g.v for g in segs))
        o = self.obj(st, a0)
        return self.alloc(st, I.ListO(tuple(segs), getattr(o, "order", "")))
    if name == "dict":
        r = self.alloc(st, I.DictO(()))
        if args:
            o = self.obj(st, a0)
            if isinstance(o, I.DictO):
                st.heap[r.id] = o
            else:
                segs = self.segs_of(a0, st)
                ok = segs is not None
                for g in segs or ():
                    if isinstance(g, I.One):
                        kv2 = self.segs_of(g.v, st)
                        if kv2 and len(kv2) == 2 and all(isinstance(x, I.One) for x in kv2):
                            self.setitem(r, kv2[0].v, kv2[1].v, st, node)
                            continue
                    elif isinstance(g, I.Rep) and len(g.segs) == 1 and isinstance(g.segs[0], I.One):
                        kv2 = self.segs_of(g.segs[0].v, st)
                        if kv2 and len(kv2) == 2 and all(isinstance(x, I.One) for x in kv2):
                            cur = self.obj(st, r)
                            st.heap[r.id] = I.DictO(
                                cur.entries
                                + self.lift_entries(
                                    g.lid, g.count, (I.DE(kv2[0].v, kv2[1].v),)
                                )
                            )
                            continue
                    ok = False
                if not ok:
                    st.heap[r.id] = I.UnkO("dict()")
                    return r
        for k, x in kw.items():
            self.setitem(r, K(k), x, st, node)
        return r
    if name in ("set", "frozenset"):
        if not args:
            return self.alloc(st, I.SetO(K(0), ()))
        o = self.obj(st, a0)
        if isinstance(o, I.SetO):
            return self.alloc(st, o)
        return _to_set(self, a0, st)
    if name == "zip":
        return _zip(self, args, st)
    if name == "enumerate":
        start = args[1] if len(args) > 1 else kw.get("start", K(0))
        segs = self.segs_of(a0, st)
        if segs is None or not isinstance(start, T):
            return self.alloc(st, I.UnkO("enumerate"))
        out, pos = [], start
        for g in segs:
            if isinstance(g, I.One):
                out.append(I.One(I.Tup((pos, g.v))))
                pos = t.add(pos, K(1))
            elif (
                isinstance(g, I.Rep)
                and len(g.segs) == 1
                and isinstance(g.segs[0], I.One)
                and g.lid[0] != "bits"
                and isinstance(g.count, T)
            ):
                ix = mk("ix", g.lid, ty="int")
                out.append(
                    I.Rep(g.lid, g.count, (I.One(I.Tup((t.add(pos, ix), g.segs[0].v))),))
                )
                pos = t.add(pos, g.count)
            elif isinstance(g, I.Opt):
                raise I.CaseSplit(g.c, None)
            else:
                return self.alloc(st, I.UnkO("enumerate"))
        return self.alloc(st, I.ListO(tuple(out)))
    if name in ("iter",):
        segs = self.segs_of(a0, st)
        if segs is None:
            return a0
        return self.alloc(st, I.ListO(tuple(segs), "iter"))
    if name == "next":
        o = self.obj(st, a0)
        if isinstance(o, I.ListO):
            segs = self.simp_segs(o.segs, st)
            if not segs:
                if len(args) > 1:
                    return args[1]
                raise I.Raised("StopIteration", node)
            if isinstance(segs[0], I.One):
                st.heap[a0.id] = I.ListO(tuple(segs[1:]), o.order)
                return segs[0].v
        return I.U
    if name == "reversed":
        if isinstance(a0, I.RangeV) and isint(a0.start) and isint(a0.stop):
            r = range(int(kv(a0.start)), int(kv(a0.stop)), a0.step)
            return self.new_list(st, [K(i) for i in reversed(r)])
        segs = self.segs_of(a0, st)
        if segs is not None and all(isinstance(g, I.One) for g in segs):
            return self.alloc(st, I.ListO(tuple(reversed(segs))))
        return self.alloc(st, I.UnkO("reversed"))
    if name == "sorted":
        return _sorted(self, a0, kw, st)
    if name == "sum":
        segs = self.segs_of(a0, st)
        r = args[1] if len(args) > 1 else K(0)
        if segs is None:
            return t.opaque("sum")
        for g in segs:
            if isinstance(g, I.One) and isinstance(g.v, T):
                r = t.add(r, g.v)
            elif isinstance(g, I.Opt):
                raise I.CaseSplit(g.c, None)
            elif (
                isinstance(g, I.Rep)
                and g.lid[0] == "bits"
                and len(g.segs) == 1
                and isinstance(g.segs[0], I.One)
                and g.segs[0].v is t.pow_(K(2), mk("ix", g.lid, ty="int"))
            ):
                r = t.add(r, g.lid[1])
            else:
                return t.opaque("sum")
        return r
    if name in ("min", "max"):
        vals = args
        if len(args) == 1:
            segs = self.segs_of(a0, st)
            if segs is None or not all(isinstance(g, I.One) for g in segs):
                return t.opaque(name)
            vals = [g.v for g in segs]
        if not vals or not all(isinstance(x, T) for x in vals):
            return t.opaque(name)
        r = vals[0]
        for x in vals[1:]:
            r = t.ite(t.lt(x, r) if name == "min" else t.lt(r, x), x, r)
        return r
    if name == "abs":
        if isinstance(a0, T):
            if isk(a0):
                return K(abs(kv(a0)))
            r = t.slot_range(a0)
            if r and r[0] >= 0:
                return a0
            return mk("abs", a0, ty=t.typeof(a0))
        return I.U
    if name == "round":
        if not isinstance(a0, T):
            return t.opaque("round")
        if len(args) == 1:
            return t.round_(a0)
        if not (isinstance(args[1], T) and isk(args[1])):
            return t.opaque("round")
        if isint(a0):
            return K(round(kv(a0), kv(args[1])))
        return mk("roundn", a0, args[1], ty=t.typeof(a0))
    if name == "ord":
        return t.ord_(a0) if isinstance(a0, T) else I.U
    if name == "chr":
        if isinstance(a0, T) and isint(a0) and not 0 <= kv(a0) < 0x110000:
            raise I.Raised("ValueError", node)
        return t.chr_(a0) if isinstance(a0, T) else I.U
    if name == "hex":
        return K(hex(kv(a0))) if isinstance(a0, T) and isint(a0) else t.opaque("hex")
    if name in ("bytes", "bytearray"):
        if not args:
            return K(b"")
        if isinstance(a0, I.TraceB):
            return a0
        if isinstance(a0, T):
            if isint(a0):
                return K(bytes(int(kv(a0))))
            if t.typeof(a0) == "bytes":
                return a0
            if t.typeof(a0) == "str" and len(args) > 1:
                return t.encode(a0, args[1])
            if t.typeof(a0) == "int":
                return t.mul(K(b"\0"), a0)
            return t.opaque("bytes")
        segs = self.segs_of(a0, st)
        if segs is not None and all(isinstance(g, I.One) and isinstance(g.v, T) for g in segs):
            r = K(b"")
            for g in segs:
                r = t.bcat(r, tobytes(g.v, 1, "", False))
            return r
        if (
            segs is not None
            and len(segs) == 1
            and isinstance(segs[0], I.Rep)
            and len(segs[0].segs) == 1
            and isinstance(segs[0].segs[0], I.One)
            and isinstance(segs[0].segs[0].v, T)
        ):
            g = segs[0]
            self.counts.setdefault(g.lid, g.count)
            return mk("bjoin", g.lid, tobytes(g.segs[0].v, 1, "", False), ty="bytes")
        return t.opaque("bytes")
    if name == "isinstance":
        return _isinstance(self, a0, args[1], st)
    if name == "hasattr":
        o = self.obj(st, a0)
        if isinstance(o, I.InstO) and isinstance(args[1], T) and isk(args[1]):
            nm = kv(args[1])
            return K(o.get(nm) is not None or self.lookup_attr(o.cls, nm) is not None)
        return self.fresh()
    if name == "getattr":
        if isinstance(args[1], T) and isk(args[1]):
            nm = kv(args[1])
            o = self.obj(st, a0)
            if isinstance(o, I.InstO) and len(args) > 2:
                if o.get(nm) is None and self.lookup_attr(o.cls, nm) is None:
                    return args[2]
            return self.attr(a0, nm, st, node)
        return I.U
    if name == "setattr":
        o = self.obj(st, a0)
        if isinstance(o, I.InstO) and isinstance(args[1], T) and isk(args[1]):
            st.heap[a0.id] = o.set(kv(args[1]), args[2])
        elif isinstance(a0, I.Cls) and isinstance(args[1], T) and isk(args[1]):
            self.assign_attr(a0, kv(args[1]), args[2], st, node)
        return NONE
    if name == "print":
        return NONE
    if name in ("any", "all"):
        segs = self.segs_of(a0, st)
        if segs is None or not all(isinstance(g, I.One) for g in segs):
            return self.fresh()
        cs = [self.truth(g.v, st) for g in segs]
        if not cs:
            return K(name == "all")
        return (t.or_ if name == "any" else t.and_)(*cs)
    if name == "map":
        segs = self.segs_of(args[1], st) if len(args) == 2 else None
        if segs is None:
            return self.alloc(st, I.UnkO("map"))
        out = self.alloc(st, I.ListO(()))

        def body(s, v):
            r = call_value(self, a0, [v], {}, s, node)
            self.method(out, "append", [r], {}, s, node)
            return I.Leaf("next", s)

        tree = self.collapse(self.iterate(list(segs), body, st), ("next", "continue"))
        if isinstance(tree, I.Leaf) and tree.kind == "raise":
            raise I.Raised(tree.val, node)
        if isinstance(tree, I.Leaf) and tree.st is not st:
            st.become(tree.st)
        return out
    if name == "divmod":
        if isinstance(a0, T) and isinstance(args[1], T):
            return I.Tup((t.floordiv(a0, args[1]), t.mod(a0, args[1])))
        return I.U
    if name == "pow":
        return self.binop(ast.Pow(), a0, args[1], st)
    if name == "type":
        o = self.obj(st, a0)
        return o.cls if isinstance(o, I.InstO) else I.U
    if name == "object":
        return I.U
    if name.endswith("Error") or name == "Exception":
        return I.Ext("exception")
    if name in ("bytes.fromhex", "bytearray.fromhex"):
        return t.unhex(a0) if isinstance(a0, T) else I.U
    if name == "bytes.hex":
        return t.hex_(a0) if isinstance(a0, T) else I.U
    if name == "int.from_bytes":
        return _from_bytes(self, args, kw, st, node)
    if name == "dict.fromkeys":
        segs = self.segs_of(a0, st)
        if segs is not None and all(isinstance(g, I.One) for g in segs):
            r = self.alloc(st, I.DictO(()))
            for g in segs:
                self.setitem(r, g.v, args[1] if len(args) > 1 else NONE, st, node)
            return r
        return self.alloc(st, I.UnkO("fromkeys"))
    if "." in name:
        # str.strip(x, ...) style
        return self.method(a0, name.split(".")[-1], args[1:], kw, st, node) if args else I.U
    return I.U


def _from_bytes(self, args, kw, st, node):
    b = args[0]
    order = kw.get("byteorder", args[1] if len(args) > 1 else K("big"))
    signed = kw.get("signed", FALSE)
    if isinstance(b, T) and isinstance(order, T) and isk(order) and isinstance(signed, T) and isk(signed):
        sg = bool(kv(signed))
        if isk(b):
            return K(int.from_bytes(kv(b), kv(order), signed=sg))
        if b.op == "slot":
            n = t.blen(b)
            if isint(n):
                w = int(kv(n))
                r = _refine(
                    self,
                    b,
                    ("int", w, sg, "" if w == 1 else kv(order)),
                    _intrange(w, sg),
                    "int",
                    st,
                )
                if r is not None:
                    return r
        if b.op == "tobytes1":
            x = b.args[0]
            return t.ite(t.lt(x, K(128)), x, t.sub(x, K(256))) if sg else x
        if b.op == "tobytes":
            x, n, o, s2 = b.args
            if o == ("" if n == 1 else kv(order)):
                lim, full = 1 << (8 * n - 1), 1 << 8 * n
                if s2 == sg:
                    return x
                if s2:  # the same bits without sign
                    return t.ite(t.lt(x, K(0)), t.add(x, K(full)), x)
                return t.ite(t.lt(x, K(lim)), x, t.sub(x, K(full)))
    return t.opaque("from_bytes")


def _isinstance(self, v, c, st):
    v = st.simp(v)
    names = []
    cs = c.items if isinstance(c, I.Tup) else (c,)
    for x in cs:
        if isinstance(x, I.Ext):
            names.append(x.name.split(".")[-1])
        elif isinstance(x, I.Cls):
            names.append(x.name)
    if isinstance(v, I.IteV):
        return t.ite(v.c, _isinstance(self, v.a, c, st), _isinstance(self, v.b, c, st))
    if isinstance(v, T):
        if isk(v) and kv(v) is None:
            return FALSE
        if v.op == "ite" and t.typeof(v) is None:
            return t.ite(
                v.args[0],
                _isinstance(self, v.args[1], c, st),
                _isinstance(self, v.args[2], c, st),
            )
        ty = t.typeof(v)
        if ty is None:
            return self.fresh()
        return K(ty in names or (ty == "bool" and "int" in names))
    if isinstance(v, I.Tup):
        return K("tuple" in names)
    o = self.obj(st, v)
    if isinstance(o, I.ListO):
        return K("list" in names or "Sequence" in names or "Iterable" in names)
    if isinstance(o, I.DictO):
        return K("dict" in names or "Mapping" in names)
    if isinstance(o, I.InstO):
        return K(any(k.name in names for k in self.mro(o.cls)))
    if isinstance(v, I.TraceB):
        return K("bytes" in names)
    return self.fresh()


def _zip(self, args, st):
    if not args:
        return self.new_list(st)
    o0 = self.obj(st, args[0])
    if (
        len(args) > 1
        and isinstance(o0, I.ListO)
        and o0.order == "iter"
        and all(a == args[0] for a in args)
    ):
        # one iterator consumed k at a time
        k = len(args)
        segs = self.segs_of(args[0], st)
        st.heap[args[0].id] = I.ListO((), "iter")
        if all(isinstance(g, I.One) for g in segs):
            vals = [g.v for g in segs]
            return self.new_list(
                st, [I.Tup(tuple(vals[i : i + k])) for i in range(0, len(vals) - k + 1, k)]
            )
        g = segs[0]
        if (
            len(segs) == 1
            and isinstance(g, I.Rep)
            and len(g.segs) == 1
            and isinstance(g.segs[0], I.One)
            and isinstance(g.count, T)
            and g.lid[0] != "bits"
        ):
            n = t.floordiv(g.count, K(k))
            lid = self.range_lid(n, st)
            self.counts[lid] = n
            ix = mk("ix", lid, ty="int")
            vals = [
                self.inst(
                    g.segs[0].v,
                    {mk("ix", g.lid, ty="int"): t.add(t.mul(ix, K(k)), K(j))},
                    st,
                )
                for j in range(k)
            ]
            return self.alloc(st, I.ListO((I.Rep(lid, n, (I.One(I.Tup(tuple(vals))),)),)))
        return self.alloc(st, I.UnkO("zip"))
    segl = [self.segs_of(a, st) for a in args]
    if any(s is None for s in segl):
        return self.alloc(st, I.UnkO("zip"))
    if all(all(isinstance(g, I.One) for g in s) for s in segl):
        return self.new_list(st, [I.Tup(tuple(g.v for g in row)) for row in zip(*segl)])
    if all(
        len(s) == 1
        and isinstance(s[0], I.Rep)
        and len(s[0].segs) == 1
        and isinstance(s[0].segs[0], I.One)
        and s[0].lid[0] != "bits"
        for s in segl
    ):
        lid = segl[0][0].lid
        ix = mk("ix", lid, ty="int")
        vals = [segl[0][0].segs[0].v]
        for s in segl[1:]:
            vals.append(self.inst(s[0].segs[0].v, {mk("ix", s[0].lid, ty="int"): ix}, st))
        return self.alloc(
            st, I.ListO((I.Rep(lid, segl[0][0].count, (I.One(I.Tup(tuple(vals))),)),))
        )
    # a constant sequence against one repetition: elements of the repetition
    ones = [s for s in segl if all(isinstance(g, I.One) for g in s)]
    if ones:
        n = min(len(s) for s in ones)
        rows = []
        for i in range(n):
            row = []
            for s, a in zip(segl, args):
                if all(isinstance(g, I.One) for g in s):
                    row.append(s[i].v)
                else:
                    row.append(self.getitem(a, K(i), st, None))
            rows.append(I.Tup(tuple(row)))
        return self.new_list(st, rows)
    for s in segl:
        _split_opt(self, s, st)
    return self.alloc(st, I.UnkO("zip"))


# ---------------------------------------------------------------- externals

STRUCT_INT = {"b": (1, True), "B": (1, False), "h": (2, True), "H": (2, False),
              "i": (4, True), "I": (4, False), "l": (4, True), "L": (4, False),
              "q": (8, True), "Q": (8, False)}


def _parse_fmt(fmt):
    """[(code, count)] and byte order of a constant struct format."""
    order = "native"
    if fmt and fmt[0] in "<>!=@":
        order = {"<": "little", ">": "big", "!": "big", "=": "native", "@": "native"}[fmt[0]]
        fmt = fmt[1:]
    out, num = [], ""
    for c in fmt:
        if c.isdigit():
            num += c
        elif c.isspace():
            continue
        else:
            out.append((c, int(num) if num else 1))
            num = ""
    return order, out


def _term_fmt(fmt):
    """Symbolic formats: (order, code, count term)."""
    if fmt.op == "mulu" or fmt.op == "mul":
        for a, b in (fmt.args, fmt.args[::-1]):
            if isk(a) and isinstance(kv(a), str) and len(kv(a)) == 1:
                return "native", kv(a), b
    if fmt.op == "cat":
        parts = list(fmt.args)
        order = "native"
        if isk(parts[0]) and kv(parts[0]) and kv(parts[0])[0] in "<>!=@":
            order = {"<": "little", ">": "big", "!": "big"}.get(kv(parts[0])[0], "native")
            rest = kv(parts[0])[1:]
            parts = ([K(rest)] if rest else []) + parts[1:]
        if len(parts) == 2 and parts[0].op == "str" and isk(parts[1]) and len(kv(parts[1])) == 1:
            return order, kv(parts[1]), parts[0].args[0]
        if len(parts) == 1 and parts[0].op in ("mul", "mulu"):
            r = _term_fmt(parts[0])
            if r:
                return order, r[1], r[2]
    return None


def call_ext(self, name, args, kw, st, node):
    args = [st.simp(a) for a in args]
    for a in args:
        if isinstance(a, I.IteV):
            raise I.CaseSplit(a.c, None)
    short = name.split(".")[-1]
    h = self.hooks.get("ext:" + name)
    if h is not None:
        r = h(self, args, kw, st, node)
        if r is not NotImplemented:
            return r
    if name in ("struct.pack",):
        return _pack(self, args, st, node)
    if name in ("struct.unpack", "struct.unpack_from"):
        return _unpack(self, args, st, node)
    if name == "struct.calcsize" and isinstance(args[0], T) and isk(args[0]):
        return K(struct.calcsize(kv(args[0])))
    if name == "io.BytesIO" and args and isinstance(args[0], T) and self.join_chunks:
        x = args[0]
        parts = x.args if x.op == "chunks" else (x,)
        sizes = [chunk_size(p) for p in parts]
        if None not in sizes:
            return self.alloc(st, I.ScriptO(tuple(zip(parts, sizes))))
    if name == "io.BytesIO" and self.unroll and args and isinstance(args[0], T):
        n = self.chunk_len.get(args[0])
        if n is None and isk(args[0]):
            n = len(kv(args[0]))
        if n is not None:
            return self.alloc(st, I.ScriptO(((args[0], n),)))
    if name == "io.BytesIO":
        if not args:
            return self.alloc(st, I.StreamO("w", ()))
        a = args[0]
        if isinstance(a, T) and a.op == "slot":
            return self.alloc(st, I.StreamO("r", (), ("sub", a.args[0])))
        if isinstance(a, I.TraceB):
            return self.alloc(st, I.StreamO("w", a.items))
        return self.alloc(st, I.UnkO("BytesIO"))
    if name.startswith("logging.") or ".getLogger" in name or name == "exception":
        if short == "getLogger":
            return I.Ext("logging.logger")
        return NONE
    if name.startswith("math.") and args and all(isinstance(a, T) for a in args):
        if all(isk(a) for a in args):
            import math

            try:
                return K(getattr(math, short)(*[kv(a) for a in args]))
            except Exception as ex:
                raise I.Raised(type(ex).__name__, node)
        if short in ("tan", "atan2", "radians", "degrees"):
            return mk(short, *args, ty="float")
        if short in ("floor", "ceil", "trunc"):
            return mk("trunc" if short == "trunc" else short, *args, ty="int")
        return mk("math_" + short, *args, ty="float")
    if name in ("copy.deepcopy", "copy.copy") and args:
        v = args[0]
        if isinstance(v, I.Ref):
            o = self.obj(st, v)
            if isinstance(o, (I.ListO, I.DictO, I.InstO)):
                return _deepcopy(self, v, st) if short == "deepcopy" else self.alloc(st, o)
        elif short == "deepcopy":
            return _deepcopy(self, v, st)
        return v
    if name == "typing.cast" and len(args) == 2:
        return args[1]
    if name == "itertools.chain" or name == "itertools.chain.from_iterable":
        lists = args
        if name.endswith("from_iterable"):
            sg = self.segs_of(args[0], st)
            if sg is None:
                return self.alloc(st, I.UnkO("chain"))
            out = []
            for g in sg:
                if isinstance(g, I.One):
                    s2 = self.segs_of(g.v, st)
                    if s2 is None:
                        return self.alloc(st, I.UnkO("chain"))
                    out += list(s2)
                elif isinstance(g, I.Rep) and len(g.segs) == 1 and isinstance(g.segs[0], I.One):
                    s2 = self.segs_of(g.segs[0].v, st)
                    if s2 is None:
                        return self.alloc(st, I.UnkO("chain"))
                    out.append(I.Rep(g.lid, g.count, tuple(s2)))
                else:
                    return self.alloc(st, I.UnkO("chain"))
            return self.alloc(st, I.ListO(tuple(out)))
        out = []
        for a in lists:
            s2 = self.segs_of(a, st)
            if s2 is None:
                return self.alloc(st, I.UnkO("chain"))
            out += list(s2)
        return self.alloc(st, I.ListO(tuple(out)))
    if name == "itertools.count":
        return I.U
    if name in ("binascii.hexlify", "binascii.b2a_hex") and isinstance(args[0], T):
        return t.encode(t.hex_(args[0]), K("ascii"))
    if name in ("binascii.unhexlify", "binascii.a2b_hex") and isinstance(args[0], T):
        return t.unhex(args[0])
    if name == "collections.OrderedDict":
        return self.call_builtin("dict", args, kw, st, node)
    if name in ("functools.partial",):
        return I.U
    for a in args:
        _escape(self, a, st)
    return I.U


def _deepcopy(self, v, st, memo=None):
    memo = {} if memo is None else memo
    if isinstance(v, I.Tup):
        return I.Tup(tuple(_deepcopy(self, x, st, memo) for x in v.items))
    if isinstance(v, I.IteV):
        return I.IteV(v.c, _deepcopy(self, v.a, st, memo), _deepcopy(self, v.b, st, memo))
    if not isinstance(v, I.Ref):
        return v
    if v.id in memo:
        return memo[v.id]
    o = self.obj(st, v)
    if isinstance(o, I.InstO):
        r = self.alloc(st, o)
        memo[v.id] = r
        st.heap[r.id] = I.InstO(
            o.cls, tuple((k, _deepcopy(self, x, st, memo)) for k, x in o.attrs)
        )
        return r

    def seg(g):
        if isinstance(g, I.One):
            return I.One(_deepcopy(self, g.v, st, memo))
        if isinstance(g, I.Rep):
            return I.Rep(g.lid, g.count, tuple(seg(x) for x in g.segs))
        return I.Opt(g.c, tuple(seg(x) for x in g.a), tuple(seg(x) for x in g.b))

    def ent(e):
        if isinstance(e, I.DE):
            return I.DE(e.key, _deepcopy(self, e.val, st, memo), e.guard)
        return I.DR(e.lid, e.count, tuple(ent(x) for x in e.entries))

    if isinstance(o, I.ListO):
        n = I.ListO(tuple(seg(g) for g in o.segs), o.order)
    elif isinstance(o, I.DictO):
        n = I.DictO(tuple(ent(e) for e in o.entries))
    else:
        return v
    r = self.alloc(st, n)
    st.owner[r.id] = st.owner.get(v.id, st.loops)
    memo[v.id] = r
    return r


def _packone(x, code, order, node):
    if code in STRUCT_INT:
        n, sg = STRUCT_INT[code]
        o = "" if n == 1 else order
        if isk(x) and order != "native":
            return tobytes(x, n, order, sg)
        if n == 1 and not sg:
            return mk("tobytes1", x, ty="bytes")
        return mk("tobytes", x, n, o, sg, ty="bytes")
    if code in "fd":
        return mk("packf", x, 8 if code == "d" else 4, order, ty="bytes")
    if code == "c":
        return x
    return None


def _pack(self, args, st, node):
    fmt = args[0]
    if not isinstance(fmt, T):
        return t.opaque("pack")
    vals = args[1:]
    if not isk(fmt):
        tf = _term_fmt(fmt)
        if tf and len(vals) == 1 and isinstance(vals[0], I.Tup) and vals[0].items[:1] == ("*",):
            segs = self.segs_of(vals[0].items[1], st)
            g = segs[0]
            order, code, cnt = tf
            if isinstance(g, I.Rep) and isinstance(g.segs[0], I.One) and isinstance(g.segs[0].v, T):
                b = _packone(g.segs[0].v, code, order, node)
                if b is not None:
                    return I.TraceB((I.TRep(g.lid, g.count, _as_items(self, b, st)),))
        return t.opaque("pack format")
    order, codes = _parse_fmt(kv(fmt))
    flat = []
    for c, n in codes:
        if c == "s":
            flat.append((c, n))
        elif c == "x":
            flat.append(("x", n))
        else:
            flat += [(c, 1)] * n
    out = K(b"")
    vi = 0
    if len(vals) == 1 and isinstance(vals[0], I.Tup) and vals[0].items[:1] == ("*",):
        lst = vals[0].items[1]
        vals = [self.getitem(lst, K(i), st, node) for i in range(sum(c != "x" for c, _ in flat))]
    if len(vals) != sum(c != "x" for c, _ in flat):
        if any(isinstance(v, I.UnkV) for v in vals):
            return t.opaque("pack")
        raise I.Raised("struct.error", node)
    for c, n in flat:
        if c == "x":
            out = t.bcat(out, K(b"\0" * n))
            continue
        x = vals[vi]
        vi += 1
        if not isinstance(x, T):
            b = t.opaque("pack value") if c not in STRUCT_INT and c not in "fd" else _packone(
                t.opaque("pack value"), c, order, node
            )
        elif c == "s":
            b = x if isint(t.blen(x)) and int(kv(t.blen(x))) == n else mk("packs", x, n, ty="bytes")
        else:
            b = _packone(x, c, order, node)
        if b is None:
            return t.opaque("pack code")
        out = t.bcat(out, b)
    return out


def _unpack_parts(self, fmt, b, st, node):
    """Values which were packed one by one."""
    order, codes = _parse_fmt(fmt)
    parts = list(b.args) if b.op in ("chunks", "bcat") else [b]
    sizes = [chunk_size(p) for p in parts]
    if None in sizes or order == "native":
        return I.U
    want = []
    for c, n in codes:
        if c in STRUCT_INT:
            want += [(c, STRUCT_INT[c][0])] * n
        elif c in "fd":
            want += [(c, 8 if c == "d" else 4)] * n
        else:
            return I.U
    if sum(sizes) != sum(n for _, n in want):
        raise I.Raised("struct.error", node)
    out = []
    for c, n in want:
        if not parts:
            return I.U
        p = parts.pop(0)
        if isk(p) and len(kv(p)) > n:
            parts.insert(0, K(kv(p)[n:]))
            p = K(kv(p)[:n])
        if chunk_size(p) != n or p.op == "encoded":
            return I.U
        if isk(p):
            code = {"little": "<", "big": ">"}[order] + c
            out.append(K(struct.unpack(code, kv(p))[0]))
        elif c in "fd":
            if p.op != "packf" or p.args[2] != order:
                return I.U
            out.append(p.args[0])
        else:
            sg = K(STRUCT_INT[c][1])
            out.append(_from_bytes(self, [p, K(order)], {"signed": sg}, st, node))
    return I.Tup(tuple(out))


def _unpack(self, args, st, node):
    fmt, b = args[0], args[1]
    if not (isinstance(fmt, T) and isinstance(b, T)):
        return I.U
    if b.op != "slot":
        if isk(fmt) and isk(b):
            try:
                return I.Tup(tuple(K(x) for x in struct.unpack(kv(fmt), kv(b))))
            except struct.error:
                raise I.Raised("struct.error", node)
        if isk(fmt):
            return _unpack_parts(self, kv(fmt), b, st, node)
        return I.U
    sid = b.args[0]
    it = self.ritems.get(sid)
    if it is None or it.kind[0] not in ("raw", "seq"):
        if not (it is not None and isk(fmt)):
            return I.U
    if not isk(fmt):
        tf = _term_fmt(fmt)
        if tf is None:
            return I.U
        order, code, cnt = tf
        if code in STRUCT_INT:
            n, sg = STRUCT_INT[code]
            kind = ("int", n, sg, "" if n == 1 else order)
            rng, ty = _intrange(n, sg), "int"
        elif code in "fd":
            n = 8 if code == "d" else 4
            kind, rng, ty = ("float", n, order), None, "float"
        else:
            return I.U
        lid = self.range_lid(cnt, st)
        self.counts[lid] = cnt
        ss = _sub_sid(self, sid, 0)
        term = t.slot(ss, self.ixs(st) + (mk("ix", lid, ty="int"),), ty)
        if rng:
            t.SLOT.setdefault(ss, {})["range"] = rng
        sub = self.ritems.get(ss) or I.RItem(ss, kind, term, node)
        self.ritems[ss] = sub
        it.kind = ("seq", (I.TRep(lid, cnt, (sub,)),), it.kind[1] if it.kind[0] == "raw" else it.kind[2])
        return self.alloc(st, I.ListO((I.Rep(lid, cnt, (I.One(term),)),)))
    order, codes = _parse_fmt(kv(fmt))
    flat = []
    for c, n in codes:
        if c in ("s", "x"):
            flat.append((c, n))
        else:
            flat += [(c, 1)] * n
    size = 0
    for c, n in flat:
        size += STRUCT_INT[c][0] if c in STRUCT_INT else (8 if c == "d" else 4 if c == "f" else n)
    bl = t.blen(b)
    if isint(bl) and int(kv(bl)) != size:
        raise I.Raised("struct.error", node)
    if len(flat) == 1 and isint(bl):
        c, n = flat[0]
        if c in STRUCT_INT:
            w, sg = STRUCT_INT[c]
            r = _refine(self, b, ("int", w, sg, "" if w == 1 else order), _intrange(w, sg), "int", st)
            return I.Tup((r,)) if r is not None else I.U
        if c in "fd":
            w = 8 if c == "d" else 4
            r = _refine(self, b, ("float", w, order), None, "float", st)
            return I.Tup((r,)) if r is not None else I.U
        if c == "s":
            return I.Tup((b,))
    subs, vals = [], []
    for i, (c, n) in enumerate(flat):
        ss = _sub_sid(self, sid, i)
        if c in STRUCT_INT:
            w, sg = STRUCT_INT[c]
            kind, ty = ("int", w, sg, "" if w == 1 else order), "int"
            t.SLOT.setdefault(ss, {})["range"] = _intrange(w, sg)
        elif c in "fd":
            kind, ty = ("float", 8 if c == "d" else 4, order), "float"
        else:
            kind, ty = ("raw", K(n)), "bytes"
            t.SLOT.setdefault(ss, {})["blen"] = K(n)
        term = t.slot(ss, b.args[1], ty)
        sub = self.ritems.get(ss) or I.RItem(ss, kind, term, node)
        self.ritems[ss] = sub
        subs.append(sub)
        if c != "x":
            vals.append(term)
    it.kind = ("seq", tuple(subs), it.kind[1] if it.kind[0] == "raw" else it.kind[2])
    return I.Tup(tuple(vals))


def _sub_sid(self, sid, i):
    key = ("sub", sid, i)
    if key not in self.sidkeys:
        self.sidkeys[key] = self.next_sid
        self.next_sid += 1
    return self.sidkeys[key]
