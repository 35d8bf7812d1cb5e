"""Decides reader/writer inversion from the two inferred wire grammars.

Input: the grammar R a reader consumes (slots), the structure D it returns (terms
over slots), and the grammar W the writer produces when given D (terms over the
same slots).  The writer inverts the reader iff reading W back with R yields D
again.  The two grammars are aligned item by item; every aligned pair is one
obligation.  Anything the alignment cannot decide is counted as undecided and
never reported.
"""

import ast

from . import interp as I
from . import terms as t
from .terms import FALSE, TRUE, K, T, isint, isk, kv, mk

NM = ("vfb", "num_masters")
NM_TEXT = "a record's master count equals the font's master count"


class Leaf:
    __slots__ = ("path", "term", "guards")

    def __init__(self, path, term, guards):
        self.path, self.term, self.guards = path, term, guards


def leaves(ip, st, val):
    out = []
    seen = set()

    def add(path, v, g):
        if isinstance(v, T):
            if not isk(v):
                out.append(Leaf(path, v, g))
            return
        if isinstance(v, I.Ref):
            if v.id in seen:
                return
            o = ip.obj(st, v)
            if isinstance(o, I.ListO):
                segs(path, o.segs, g)
            elif isinstance(o, I.DictO):
                ents(path, o.entries, g)
            elif isinstance(o, I.SetO) and isinstance(o.bits, T):
                add(path + "{}", o.bits, g)
            elif isinstance(o, I.UnkO):
                out.append(Leaf(path, t.UNK, g))
            return
        if isinstance(v, I.Tup):
            for i, x in enumerate(v.items):
                add(f"{path}[{i}]", x, g)
            return
        if isinstance(v, I.IteV):
            add(path + "?", v.c, g)
            add(path, v.a, g + ((v.c, True),))
            add(path, v.b, g + ((v.c, False),))
            return
        if isinstance(v, I.EnumV):
            add(path, v.val, g)
            return
        out.append(Leaf(path, t.UNK, g))

    def segs(path, ss, g):
        for i, s in enumerate(ss):
            if isinstance(s, I.One):
                add(f"{path}[{i}]", s.v, g)
            elif isinstance(s, I.Rep):
                if isinstance(s.count, T):
                    add(path + ".len", s.count, g)
                segs(path + "[*]", s.segs, g)
            elif isinstance(s, I.Opt):
                add(path + "?", s.c, g)
                segs(path, s.a, g + ((s.c, True),))
                segs(path, s.b, g + ((s.c, False),))

    def ents(path, es, g):
        for e in es:
            if isinstance(e, I.DE):
                k = kv(e.key) if isinstance(e.key, T) and isk(e.key) else "*"
                if isinstance(e.key, T):
                    add(f"{path}.<key>", e.key, g)
                g2 = g
                if e.guard is not TRUE:
                    add(f"{path}.{k}?", e.guard, g)
                    g2 = g + ((e.guard, True),)
                add(f"{path}.{k}", e.val, g2)
            elif isinstance(e, I.DR):
                if isinstance(e.count, T):
                    add(path + ".len", e.count, g)
                ents(path, e.entries, g)

    add("", val, ())
    return out


def slot_ids(x, acc=None):
    return {a.args[0] for a in t.atoms(x) if a.op == "slot"} | {
        s
        for a in t.atoms(x)
        if a.op == "at"
        for s in slot_ids(a.args[2])
    } | {s for a in t.atoms(x) if a.op == "count" for s in _lid_slots(a.args[0])}


def _lid_slots(lid):
    out = set()

    def walk(x):
        if isinstance(x, T):
            out.update(slot_ids(x))
        elif isinstance(x, tuple):
            for y in x:
                walk(y)

    walk(lid)
    return out


def inst_subst(x, sid, ixs, e):
    """Replace every instance slot sid[ixs'] in x by e with ixs := ixs'."""
    m = {}
    for a in t.atoms(x):
        if a.op == "slot" and a.args[0] == sid:
            if a.args[1] == ixs:
                m[a] = e
            elif len(a.args[1]) == len(ixs) and all(i.op == "ix" for i in ixs):
                m[a] = t.subst(e, dict(zip(ixs, a.args[1])))
            else:
                return None
    return t.subst(x, m) if m else x


class Ctx:
    __slots__ = ("st", "bind", "written", "opq", "path", "absent")

    def __init__(self):
        self.st = I.State()
        self.bind = {}
        self.written = {}
        self.opq = None
        self.path = ()
        self.absent = ()

    def copy(self):
        c = Ctx()
        c.st = self.st.copy()
        c.bind = dict(self.bind)
        c.written = {k: dict(v) for k, v in self.written.items()}
        c.opq, c.path, c.absent = self.opq, self.path, self.absent
        return c

    def assume(self, c, val=True):
        c = self.st.simp(c)
        if isk(c):
            return bool(kv(c)) == val
        ok = self.st.assume(c, val)
        self._derive(c, val)
        self.path += ((c, val),)
        return ok

    def _derive(self, c, val):
        if c.op == "not":
            return self._derive(c.args[0], not val)
        if c.op == "and" and val or c.op == "or" and not val:
            for x in c.args:
                self._derive(x, val)
            return
        if c.op == "truthy" and not val:
            ty = t.typeof(c.args[0])
            z = {"bytes": b"", "str": "", "int": 0}.get(ty)
            if z is not None:
                self.st.eqs[c.args[0]] = K(z)

    def simp(self, x):
        return self.st.simp(x) if isinstance(x, T) else x

    def rsub(self, x):
        """A reader-side term, as seen when the written data is read back."""
        if not isinstance(x, T):
            return x
        for sid, (ixs, e) in self.bind.items():
            y = inst_subst(x, sid, ixs, e)
            if y is None:
                return t.opaque("index")
            x = y
        return self.st.simp(x)


def _ite(c, a, b):
    return t.ite(c, a, b)


def join(c, a, b):
    """Merge the contexts reached under c and under not c."""
    if a is None:
        return b
    if b is None:
        return a
    out = a.copy()
    out.st.facts = {k: v for k, v in a.st.facts.items() if b.st.facts.get(k) is v}
    out.st.eqs = {k: v for k, v in a.st.eqs.items() if b.st.eqs.get(k) is v}
    out.path = tuple(p for p in a.path if p in b.path)
    out.bind = {}
    for sid in set(a.bind) | set(b.bind):
        x, y = a.bind.get(sid), b.bind.get(sid)
        ixs = (x or y)[0]
        ty = t.SLOT.get(sid, {}).get("ty")
        s = mk("slot", sid, ixs, ty=ty) if x is None or y is None else None
        if s is not None:
            s = next(
                (q for q in t._INTERN.values() if q.op == "slot" and q.args == (sid, ixs)),
                s,
            )
        ea = x[1] if x else s
        eb = y[1] if y else s
        out.bind[sid] = (ixs, ea if ea is eb else _ite(c, ea, eb))
    out.written = {}
    for lid in set(a.written) | set(b.written):
        wa, wb = a.written.get(lid, {}), b.written.get(lid, {})
        out.written[lid] = {}
        for k in list(wa) + [k for k in wb if k not in wa]:
            ca, cb = wa.get(k, FALSE), wb.get(k, FALSE)
            out.written[lid][k] = (
                ca if ca is cb else t.or_(t.and_(c, ca), t.and_(t.not_(c), cb))
            )
    out.opq = a.opq or b.opq
    return out


def has_unknown(x):
    return t.has_op(x, {"opq", "unk", "fin", "sym"})


class Matcher:
    def __init__(self, ip, name, D, R, W, needs=()):
        self.ip, self.name = ip, name
        self.D, self.R, self.W = D, R, W
        self.needs = needs
        self.proven = []  # (node, what)
        self.undecided = []
        self.violations = []
        self.assumed = set()
        self.budget = 4000
        self.by_sid = {}
        for lf in D:
            for s in slot_ids(lf.term):
                self.by_sid.setdefault(s, []).append(lf)
        self.countslots = set()
        self.casesids = {}
        self._scan(R, None)

    # ---------------------------------------------------------------- helpers
    def _scan(self, items, case):
        for it in items:
            if isinstance(it, I.RItem):
                if case is not None:
                    self.casesids[it.sid] = case
                if it.kind[0] == "raw" and isinstance(it.kind[1], T):
                    self.countslots |= slot_ids(it.kind[1])
                if it.kind[0] == "seq":
                    self._scan(it.kind[1], case)
            elif isinstance(it, I.TRep):
                if isinstance(it.count, T):
                    self.countslots |= slot_ids(it.count)
                self._scan(it.items, case)
            elif isinstance(it, I.TAlt):
                self._scan(it.a, case)
                self._scan(it.b, case)
            elif isinstance(it, I.TTag):
                for k, items2, _ in it.cases:
                    self._scan(items2, (it.lid, k))
                if it.other:
                    self._scan(it.other, (it.lid, None))

    def ok(self, node, what):
        self.proven.append((node, what))

    def und(self, node, what):
        self.undecided.append((node, what))

    def viol(self, ctx, rule, node, msg, key):
        if ctx.opq or any(has_unknown(c) for c in ctx.st.facts):
            self.und(node, f"{rule}: {msg}")
            return
        for v in self.violations:
            if v["key"] == (rule, key):
                return
        self.violations.append(
            dict(
                rule=rule,
                key=(rule, key),
                node=node,
                msg=msg,
                path=[(t.show(c), b) for c, b in ctx.path],
            )
        )

    def shape(self, ctx, r, w, msg):
        if isinstance(r, I.TOpq) or isinstance(w, I.TOpq):
            self.und(self.nodeof(w) or self.nodeof(r), "opaque item")
            ctx.opq = ctx.opq or "opaque item"
            return
        rn, wn = self.nodeof(r), self.nodeof(w)
        node = wn or rn
        self.viol(
            ctx,
            "shape",
            node,
            f"{msg}: reader {self.desc(r)}, writer {self.desc(w)}",
            self.srckey(node),
        )
        ctx.opq = ctx.opq or "shape mismatch"

    def srckey(self, node):
        try:
            return ast.unparse(node)[:120] if node is not None else "?"
        except Exception:
            return "?"

    def nodeof(self, it):
        if isinstance(it, (I.RItem, I.W)):
            return it.node
        if isinstance(it, I.TRep):
            for x in it.items:
                n = self.nodeof(x)
                if n is not None:
                    return n
        if isinstance(it, I.TAlt):
            for x in it.a + it.b:
                n = self.nodeof(x)
                if n is not None:
                    return n
        if isinstance(it, I.TTag):
            for _, items, _ in it.cases:
                for x in items:
                    n = self.nodeof(x)
                    if n is not None:
                        return n
        return None

    def desc(self, it):
        if it is None:
            return "nothing"
        if isinstance(it, I.RItem):
            n = it.kind[1] if len(it.kind) > 1 else ""
            if it.kind[0] in ("int", "float", "enc"):
                return " ".join(str(x) for x in it.kind)
            return f"{it.kind[0]} {t.show(n) if isinstance(n, T) else n if it.kind[0] == 'raw' else ''}"
        if isinstance(it, I.W):
            e = t.show(it.expr) if isinstance(it.expr, T) else "?"
            k = " ".join(t.show(x) if isinstance(x, T) else str(x) for x in it.kind)
            return f"{k} <- {e[:80]}"
        if isinstance(it, I.TRep):
            return f"repetition x {t.show(it.count) if isinstance(it.count, T) else it.count}"
        if isinstance(it, I.TAlt):
            return f"conditional on {t.show(it.c)[:80]}"
        return type(it).__name__

    # ------------------------------------------------------------- normalise
    def norm_r(self, R, ctx):
        while R:
            r = R[0]
            if isinstance(r, I.RItem) and r.kind[0] == "seq":
                R = tuple(r.kind[1]) + R[1:]
            elif isinstance(r, I.RItem) and r.kind[0] == "raw" and r.kind[1] is not None:
                n = ctx.rsub(r.kind[1])
                if isint(n) and kv(n) <= 0:
                    R = R[1:]
                else:
                    break
            elif isinstance(r, I.TRep):
                n = ctx.rsub(r.count)
                if isint(n) and kv(n) <= 0 or not r.items:
                    R = R[1:]
                else:
                    break
            elif isinstance(r, I.TAlt):
                c = ctx.rsub(r.c)
                if isk(c):
                    R = (r.a if kv(c) else r.b) + R[1:]
                elif self.empty(r):
                    R = R[1:]
                else:
                    break
            else:
                break
        return R

    def empty(self, it):
        if isinstance(it, I.TAlt):
            return all(self.empty(x) for x in it.a + it.b)
        if isinstance(it, I.TRep):
            return all(self.empty(x) for x in it.items)
        return False

    def norm_w(self, W, ctx):
        while W:
            w = W[0]
            if isinstance(w, I.W) and w.kind[0] == "bytes":
                n = w.kind[1]
                n = ctx.simp(n) if isinstance(n, T) else n
                if n == 0 or isinstance(n, T) and isint(n) and kv(n) == 0:
                    W = W[1:]
                elif isinstance(w.expr, T) and isk(w.expr) and len(kv(w.expr)) == 0:
                    W = W[1:]
                else:
                    break
            elif isinstance(w, I.TRep):
                n = ctx.simp(w.count)
                if isinstance(n, T) and isint(n) and kv(n) <= 0 or not w.items:
                    W = W[1:]
                else:
                    break
            elif isinstance(w, I.TAlt):
                c = ctx.simp(w.c)
                if isk(c):
                    W = (w.a if kv(c) else w.b) + W[1:]
                elif self.empty(w):
                    W = W[1:]
                else:
                    break
            else:
                break
        return W

    # -------------------------------------------------------------- alignment
    def run(self, R, W, ctx):
        """-> [(ctx, remaining R, remaining W)]; stops when one is exhausted."""
        while True:
            if ctx.opq:
                return [(ctx, (), ())]
            self.budget -= 1
            if self.budget < 0:
                ctx.opq = "budget"
                continue
            R = self.norm_r(R, ctx)
            W = self.norm_w(W, ctx)
            if not R or not W:
                return [(ctx, R, W)]
            r, w = R[0], W[0]
            if isinstance(r, I.TOpq) or isinstance(w, I.TOpq):
                ctx.opq = getattr(r, "why", None) or getattr(w, "why", None) or "opaque"
                self.und(self.nodeof(w) or self.nodeof(r), "opaque item")
                continue
            if isinstance(r, I.TTag):
                return self.tags(r, R[1:], W, ctx)
            if isinstance(w, I.TTag):
                ctx.opq = "writer dispatch"
                continue
            if isinstance(w, I.TAlt):
                res = self.alt(
                    ctx, ctx.simp(w.c), lambda cx, br: self.run(R, w.a if br else w.b, cx)
                )
                return self.cont_w(res, W[1:])
            if isinstance(r, I.TAlt):
                res = self.alt(
                    ctx, ctx.rsub(r.c), lambda cx, br: self.run(r.a if br else r.b, W, cx)
                )
                return self.cont_r(res, R[1:])
            if isinstance(r, I.RItem) and r.kind[0] == "raw" and r.kind[1] is None:
                return self.rest(r, R[1:], W, ctx)
            if isinstance(r, I.TRep) and isinstance(w, I.TRep):
                n = self.rep(r, w, R[1:], W[1:], ctx)
                if n is None:
                    return [(ctx, R, W)] if not ctx.opq else [(ctx, (), ())]
                ctx, R, W = n
                continue
            if isinstance(r, I.TRep):
                n = ctx.rsub(r.count)
                if isint(n) and kv(n) <= 64:
                    R = self.unroll_r(r, int(kv(n))) + R[1:]
                    continue
                self.shape(ctx, r, w, "reader repeats where the writer does not")
                continue
            if isinstance(w, I.TRep):
                n = ctx.simp(w.count)
                if isint(n) and kv(n) <= 64:
                    W = self.unroll_w(w, int(kv(n))) + W[1:]
                    continue
                self.shape(ctx, r, w, "writer repeats where the reader does not")
                continue
            n = self.item(r, R[1:], w, W[1:], ctx)
            if n is None:
                continue
            R, W = n

    def alt(self, ctx, c, f):
        """Run f under c and under not c -> (c, outcomes_true, outcomes_false)"""
        out = []
        for br in (True, False):
            cx = ctx.copy()
            if not cx.assume(c, br):
                out.append([])
                continue
            out.append(f(cx, br))
        return (c, out[0], out[1])

    def cont_w(self, res, Wrest):
        c, A, B = res
        outs, groups = [], []
        for side, o in ((True, A), (False, B)):
            for cx, Rr, Wr in o:
                if cx.opq:
                    outs.append((cx, (), ()))
                elif Wr:
                    outs.append((cx, Rr, Wr + Wrest))
                else:
                    Rr = self.norm_r(Rr, cx)
                    for g in groups:
                        if self.same(g[1], Rr) and g[2] != side:
                            g[0] = join(c, g[0], cx) if g[2] else join(c, cx, g[0])
                            g[2] = None
                            break
                    else:
                        groups.append([cx, Rr, side])
        for cx, Rr, _ in groups:
            outs.extend(self.run(Rr, Wrest, cx))
        return outs

    def cont_r(self, res, Rrest):
        c, A, B = res
        outs, groups = [], []
        for side, o in ((True, A), (False, B)):
            for cx, Rr, Wr in o:
                if cx.opq:
                    outs.append((cx, (), ()))
                elif Rr:
                    outs.append((cx, Rr + Rrest, Wr))
                else:
                    Wr = self.norm_w(Wr, cx)
                    for g in groups:
                        if self.same(g[1], Wr) and g[2] != side:
                            g[0] = join(c, g[0], cx) if g[2] else join(c, cx, g[0])
                            g[2] = None
                            break
                    else:
                        groups.append([cx, Wr, side])
        for cx, Wr, _ in groups:
            outs.extend(self.run(Rrest, Wr, cx))
        return outs

    @staticmethod
    def same(a, b):
        return len(a) == len(b) and all(x is y or x == y for x, y in zip(a, b))

    def rename(self, items, m):
        out = []
        for it in items:
            if isinstance(it, I.W):
                e = t.subst(it.expr, m) if isinstance(it.expr, T) else it.expr
                kind = tuple(t.subst(x, m) if isinstance(x, T) else x for x in it.kind)
                out.append(I.W(kind, e, it.node))
            elif isinstance(it, I.TRep):
                cnt = t.subst(it.count, m) if isinstance(it.count, T) else it.count
                out.append(I.TRep(it.lid, cnt, self.rename(it.items, m)))
            elif isinstance(it, I.TAlt):
                out.append(
                    I.TAlt(t.subst(it.c, m), self.rename(it.a, m), self.rename(it.b, m))
                )
            elif isinstance(it, I.RItem):
                kind = it.kind
                if kind[0] == "raw" and isinstance(kind[1], T):
                    kind = ("raw", t.subst(kind[1], m))
                elif kind[0] == "seq":
                    kind = ("seq", self.rename(kind[1], m)) + kind[2:]
                out.append(I.RItem(it.sid, kind, t.subst(it.term, m), it.node))
            else:
                out.append(it)
        return tuple(out)

    def ixof(self, items, lid):
        return mk("ix", lid, ty="int")

    def unroll_r(self, r, n):
        out = ()
        for i in range(n):
            out += self.rename(r.items, {self.ixof(r.items, r.lid): K(i)})
        return out

    unroll_w = unroll_r

    def equal(self, a, b, ctx, node, what):
        """True / False(with witness reported) / None"""
        if a is b:
            return True
        if has_unknown(a) or has_unknown(b):
            return None
        w = self.differ(a, b, ctx)
        if isinstance(w, dict):
            return False
        return None

    def differ(self, a, b, ctx, extra=()):
        facts = [(c, bool(kv(v))) for c, v in ctx.st.facts.items()]
        facts += [(t.eq(x, k), True) for x, k in ctx.st.eqs.items() if x.op in t.ATOM_OPS]
        facts += list(extra)
        return differ(a, b, facts)

    def rep(self, r, w, R, W, ctx):
        cr = ctx.rsub(r.count)
        cw = ctx.simp(w.count)
        node = self.nodeof(w) or self.nodeof(r)
        if not (isinstance(cr, T) and isinstance(cw, T)):
            ctx.opq = "count"
            self.und(node, "loop count")
            return None
        if cr is not cw and self.is_nm(cw) and self.plain_count(cr):
            # the font's master count and the record's own master count
            self.assumed.add(NM_TEXT)
            ctx.st.eqs[cw] = cr
            cw = cr
        elif cr is not cw and self.is_nm(cr) and self.plain_count(cw):
            self.assumed.add(NM_TEXT)
            cr = cw
        if cr is not cw:
            g = self.grouped(r, w, cr, cw, ctx)
            if g is not None:
                return self.group(r, w, g, R, W, ctx)
            if isint(cr) and isint(cw) and kv(cr) <= 64 and kv(cw) <= 64:
                return (
                    ctx,
                    self.unroll_r(r, int(kv(cr))) + R,
                    self.unroll_w(w, int(kv(cw))) + W,
                )
            e = self.equal(cr, cw, ctx, node, "loop count")
            if e is False:
                self.viol(
                    ctx,
                    "count",
                    node,
                    f"the writer emits {t.show(cw)} elements, the reader expects {t.show(cr)}",
                    self.srckey(node),
                )
                ctx.opq = "count"
                return None
            self.und(node, f"loop count {t.show(cr)} vs {t.show(cw)}")
            ctx.opq = "count"
            return None
        self.ok(node, "element count")
        body = w.items
        if r.lid != w.lid:
            body = self.rename(body, {mk("ix", w.lid, ty="int"): mk("ix", r.lid, ty="int")})
        outs = self.run(r.items, body, ctx.copy())
        good = None
        for cx, Rr, Wr in outs:
            if cx.opq:
                ctx.opq = cx.opq
                return None
            Rr, Wr = self.norm_r(Rr, cx), self.norm_w(Wr, cx)
            if Rr or Wr:
                self.shape(
                    cx,
                    Rr[0] if Rr else None,
                    Wr[0] if Wr else None,
                    "element layouts differ",
                )
                ctx.opq = "shape"
                return None
            good = self.merge(good, cx, ctx)
            if good is None:
                ctx.opq = "join"
                return None
        if good is None:
            ctx.opq = "no path"
            return None
        return good, R, W

    def merge(self, a, b, base):
        if a is None:
            return b
        # condition distinguishing b from a
        pb = [p for p in b.path if p not in base.path]
        c = t.and_(*[x if v else t.not_(x) for x, v in pb]) if pb else TRUE
        if c is TRUE:
            return b
        return join(c, b, a)

    def is_nm(self, c):
        return c.op == "attr" and c.args[0] == NM

    def plain_count(self, c):
        return c.op == "slot"

    def grouped(self, r, w, cr, cw, ctx):
        """Reader: one item per index; writer: k items per index, end-bounded."""
        if len(r.items) == 1 and isinstance(r.items[0], I.RItem):
            k = len(w.items)
            if k > 1 and all(isinstance(x, I.W) for x in w.items):
                if cr is t.mul(cw, K(k)):
                    return k
                ats = {a.op for a in t.atoms(cr)} | (
                    {"blen"} if t.has_op(cr, {"blen"}) else set()
                )
                if ats <= {"nbytes", "blen", "slot"} and t.has_op(cr, {"blen", "nbytes"}):
                    d = t.floordiv(cr, K(k)) if k & (k - 1) == 0 else None
                    if d is cw:
                        return k
        return None

    def group(self, r, w, k, R, W, ctx):
        ixr = mk("ix", r.lid, ty="int")
        ixw = mk("ix", w.lid, ty="int")
        items = ()
        for i in range(k):
            items += self.rename(
                r.items, {ixr: t.add(t.mul(ixw, K(k)), K(i))}
            )
        outs = self.run(items, w.items, ctx.copy())
        good = None
        for cx, Rr, Wr in outs:
            if cx.opq:
                ctx.opq = cx.opq
                return None
            if Rr or Wr:
                self.shape(cx, Rr[0] if Rr else None, Wr[0] if Wr else None, "layouts differ")
                ctx.opq = "shape"
                return None
            good = self.merge(good, cx, ctx)
        if good is None:
            ctx.opq = "join"
            return None
        self.ok(self.nodeof(w), "element count")
        return good, R, W

    def rest(self, r, R, W, ctx):
        R2 = self.norm_r(R, ctx)
        if R2:
            ctx.opq = "items after rest"
            return [(ctx, (), ())]
        if len(W) == 1 and isinstance(W[0], I.W) and W[0].kind[0] == "bytes":
            self.value(r, W[0].expr, W[0], ctx)
            return [(ctx, (), ())]
        ctx.opq = "rest"
        self.und(r.node, "remaining bytes")
        return [(ctx, (), ())]

    def item(self, r, R, w, W, ctx):
        """-> (R, W) or None when ctx became opaque."""
        rk, wk = r.kind, w.kind
        e = w.expr
        if not isinstance(e, T):
            if rk[0] in ("int", "enc", "float") and wk[0] in ("int", "enc", "float"):
                if rk[0] != wk[0] or rk[0] == "int" and rk[1] != wk[1]:
                    self.shape(ctx, r, w, "encodings differ")
                    return None
                self.und(w.node, "value")
                return R, W
            ctx.opq = "value"
            self.und(w.node, "value")
            return None
        e = ctx.simp(e)
        if rk[0] == "int" and wk[0] == "int":
            n, m = rk[1], wk[1]
            if n != m:
                if (
                    n > m
                    and not self.norm_r(R, ctx)
                    and not self.norm_w(W, ctx)
                    and rk[3] == "little"
                    and not rk[2]
                ):
                    pass
                else:
                    self.shape(ctx, r, w, "field widths differ")
                    return None
            elif n > 1 and rk[3] != wk[3]:
                self.shape(ctx, r, w, "byte orders differ")
                return None
            self.sign(r, w, rk[2], wk[2], ctx)
            self.value(r, e, w, ctx)
            return R, W
        if rk[0] == "enc" and wk[0] in ("enc", "enc5"):
            self.sign(r, w, rk[1], wk[1], ctx)
            self.value(r, e, w, ctx)
            return R, W
        if rk[0] == "float" and wk[0] == "float":
            if rk[1] != wk[1] or rk[2] != wk[2]:
                self.shape(ctx, r, w, "float encodings differ")
                return None
            self.value(r, e, w, ctx)
            return R, W
        if rk[0] == "int" and wk[0] == "bytes":
            if isk(e):
                b = kv(e)
                if len(b) < rk[1]:
                    ctx.opq = "split"
                    return None
                v = K(int.from_bytes(b[: rk[1]], rk[3] or "little", signed=bool(rk[2])))
                self.value(r, v, w, ctx)
                tail = b[rk[1] :]
                if tail:
                    W = (I.W(("bytes", K(len(tail))), K(tail), w.node),) + W
                return R, W
            if e.op == "tobytes1" and rk[1] == 1:
                self.value(r, e.args[0], w, ctx)
                return R, W
            n = wk[1] if isinstance(wk[1], T) else K(wk[1])
            n = ctx.simp(n)
            if isint(n) and kv(n) != rk[1]:
                self.shape(ctx, r, w, "field widths differ")
                return None
            self.und(w.node, "bytes as int")
            if isint(n):
                return R, W
            ctx.opq = "bytes"
            return None
        if rk[0] == "enc" and wk[0] == "bytes" and isk(e):
            b = kv(e)
            if len(b) == 1 and b[0] == 0xFF:
                ints = W[:4]
                if len(ints) == 4 and all(
                    isinstance(x, I.W) and x.kind[0] == "int" and x.kind[1] == 1 for x in ints
                ):
                    v = K(0)
                    for x in ints:
                        if not isinstance(x.expr, T):
                            ctx.opq = "value"
                            return None
                        v = t.add(t.mul(v, K(256)), ctx.simp(x.expr))
                    self.value(r, v, w, ctx)
                    return R, W[4:]
            if len(b) == 1 and 0x20 <= b[0] <= 0xF6:
                self.value(r, K(b[0] - 0x8B), w, ctx)
                return R, W
            if len(b) == 1 and b[0] < 0x20:
                self.viol(
                    ctx,
                    "shape",
                    w.node,
                    f"the writer emits byte 0x{b[0]:02X} where the reader expects an "
                    f"encoded integer, which cannot begin with it",
                    self.srckey(w.node),
                )
                ctx.opq = "shape mismatch"
                return None
            if 2 <= len(b) and 0xF7 <= b[0] <= 0xFE:
                v = (
                    0x100 * b[0] - 0xF694 + b[1]
                    if b[0] <= 0xFA
                    else -0x100 * b[0] + 0xFA94 - b[1]
                )
                self.value(r, K(v), w, ctx)
                if len(b) > 2:
                    W = (I.W(("bytes", K(len(b) - 2)), K(b[2:]), w.node),) + W
                return R, W
            if len(b) >= 5 and b[0] == 0xFF:
                v = int.from_bytes(b[1:5], "big", signed=bool(rk[1]))
                self.value(r, K(v), w, ctx)
                if len(b) > 5:
                    W = (I.W(("bytes", K(len(b) - 5)), K(b[5:]), w.node),) + W
                return R, W
            if len(b) > 1 and 0x20 <= b[0] <= 0xF6:
                self.value(r, K(b[0] - 0x8B), w, ctx)
                return R, (I.W(("bytes", K(len(b) - 1)), K(b[1:]), w.node),) + W
            ctx.opq = "encoded constant"
            self.und(w.node, "constant bytes as encoded integer")
            return None
        if rk[0] == "raw" and wk[0] == "bytes":
            n = ctx.rsub(rk[1])
            m = wk[1] if isinstance(wk[1], T) else K(wk[1])
            m = ctx.simp(m)
            if n is not m:
                if isint(n) and isint(m) and isk(e) and kv(m) > kv(n):
                    b = kv(e)
                    self.value(r, K(b[: kv(n)]), w, ctx)
                    return R, (
                        I.W(("bytes", K(len(b) - kv(n))), K(b[kv(n) :]), w.node),
                    ) + W
                eq = self.equal(n, m, ctx, w.node, "length")
                if eq is False:
                    self.viol(
                        ctx,
                        "length",
                        w.node,
                        f"the writer emits {t.show(m)} bytes, the reader expects {t.show(n)}",
                        self.srckey(w.node),
                    )
                    ctx.opq = "length"
                    return None
                self.und(w.node, f"length {t.show(n)} vs {t.show(m)}")
                ctx.opq = "length"
                return None
            self.value(r, e, w, ctx)
            return R, W
        if "raw" == rk[0] or wk[0] == "bytes":
            ctx.opq = "raw"
            self.und(w.node, f"{self.desc(r)} vs {self.desc(w)}")
            return None
        self.shape(ctx, r, w, "encodings differ")
        return None

    def sign(self, r, w, rs, ws, ctx):
        if rs == ws or rs is None or ws is None:
            return
        rng = t.SLOT.get(r.sid, {}).get("range")
        dom = t.SLOT.get(r.sid, {}).get("dom")
        if dom:
            vals = [kv(k) for k in dom if isint(k)]
            if vals and min(vals) >= 0:
                return
        if r.sid in self.countslots:
            return
        if isinstance(w.expr, T) and isk(ctx.simp(w.expr)):
            return
        if r.sid not in self.by_sid:
            return
        er = t.slot_range(ctx.simp(w.expr)) if isinstance(w.expr, T) else None
        wrng = None
        if w.kind[0] == "int":
            b = 8 * w.kind[1]
            wrng = (-(1 << (b - 1)), (1 << (b - 1)) - 1) if ws else (0, (1 << b) - 1)
        else:
            wrng = (-(2**31), 2**31 - 1) if ws else (-1131, 2**32 - 1)
        if er is None or rng is None:
            self.und(w.node, "sign")
            return
        if er[0] >= wrng[0] and er[1] <= wrng[1]:
            return
        if not self.all_table_guarded(r.sid):
            self.viol(
                ctx,
                "sign",
                w.node,
                f"reader takes the field as {'signed' if rs else 'unsigned'}, "
                f"the writer stores it as {'signed' if ws else 'unsigned'}",
                self.srckey(w.node),
            )

    def all_table_guarded(self, sid):
        """Every use of the slot in D goes through a lookup of known constants."""
        for lf in self.by_sid.get(sid, ()):
            x = lf.term
            if x.op == "map" and x.args[1].op == "slot":
                continue
            if x.op in ("eq", "not", "in"):
                continue
            return False
        return True

    # ------------------------------------------------------------------ values
    def value(self, r, e, w, ctx):
        S = r.term
        node = w.node or r.node
        if not isinstance(e, T):
            self.und(node, "value")
            return
        e = ctx.simp(e)
        tgt = S
        if ctx.absent:
            lid, k, mode = ctx.absent[-1]
            if mode == "at":
                tgt = mk("at", lid, k, S, ty=t.typeof(S))
        if e is tgt or e is S:
            self.ok(node, self.lname(S))
            return
        es = ctx.simp(tgt)
        if e is es:
            self.ok(node, self.lname(S))
            return
        p = self.finite(tgt, e, ctx)
        if p is True:
            self.ok(node, self.lname(S))
            return
        sid = S.args[0]
        used = self.by_sid.get(sid, [])
        if not used and sid not in self.countslots and not self.rcond(sid):
            self.ok(node, self.lname(S) + " (not part of the data)")
            return
        if self.is_nm(e) and sid in self.countslots:
            self.assumed.add(NM_TEXT)
            ctx.st.eqs[e] = tgt
            self.ok(node, self.lname(S))
            return
        if has_unknown(e):
            self.und(node, self.lname(S))
            # the slot is written from something the analysis does not know
            if tgt is S:
                ctx.bind[sid] = (S.args[1], t.opaque("value"))
            return
        if tgt is S:
            ctx.bind[sid] = (S.args[1], e)
        # data read back must be unchanged
        bad = und = False
        for lf in used:
            x = lf.term
            if ctx.absent and ctx.absent[-1][2] == "present":
                lid, k, _ = ctx.absent[-1]
                pr = mk("present", lid, k, ty="bool")
                old = ctx.simp(t.subst(x, {pr: FALSE}))
                x2 = t.subst(x, {pr: TRUE})
            else:
                old, x2 = ctx.simp(x), x
            if tgt is S:
                new = inst_subst(x2, sid, S.args[1], e)
            else:
                new = t.subst(x2, {tgt: e})
            if new is None:
                und = True
                continue
            new = ctx.simp(new)
            if new is old:
                continue
            if has_unknown(new) or has_unknown(old):
                und = True
                continue
            extra = [(ctx.simp(c), v) for c, v in lf.guards]
            if any(isk(c) and bool(kv(c)) != v for c, v in extra):
                continue  # not part of the data in this context
            extra = [(c, v) for c, v in extra if not isk(c)]
            if any(has_unknown(c) for c, _ in extra):
                und = True
                continue
            d = self.differ(old, new, ctx, extra)
            if isinstance(d, dict):
                f = self.finite_leaf(old, new, ctx, extra)
                if f is True:
                    continue
                bad = True
                self.viol(
                    ctx,
                    "value",
                    node,
                    f"{lf.path or 'value'}: read as {t.show(old)[:120]}, after write and "
                    f"re-read {t.show(new)[:120]}; e.g. {d}",
                    self.srckey(node),
                )
                break
            f = self.finite_leaf(old, new, ctx, extra)
            if f is not True:
                und = True
        if bad:
            return
        if und:
            self.und(node, self.lname(S))
        else:
            self.ok(node, self.lname(S))

    def rcond(self, sid):
        def scan(items):
            for it in items:
                if isinstance(it, I.TAlt):
                    if sid in slot_ids(it.c) or scan(it.a) or scan(it.b):
                        return True
                elif isinstance(it, I.TRep):
                    if scan(it.items):
                        return True
                elif isinstance(it, I.TTag):
                    if any(scan(x) for _, x, _ in it.cases) or it.other and scan(it.other):
                        return True
            return False

        return scan(self.R)

    def lname(self, S):
        for lf in self.by_sid.get(S.args[0], ()):
            return lf.path
        return f"slot {S.args[0]}"

    def domain(self, S):
        info = t.SLOT.get(S.args[0], {}) if S.op == "slot" else {}
        dom = info.get("dom")
        if dom and all(isint(k) for k in dom):
            return [int(kv(k)) for k in dom]
        r = info.get("range")
        if r and r[1] - r[0] <= 70000:
            return list(range(r[0], r[1] + 1))
        return None

    def finite(self, S, e, ctx):
        """Enumerate the constants of a finite field: e == S for all of them?"""
        if S.op != "slot":
            return None
        ats = t.atoms(e)
        if ats - {S}:
            return None
        d = self.domain(S)
        if d is None:
            return None
        facts = [(c, bool(kv(v))) for c, v in ctx.st.facts.items() if t.atoms(c) == {S}]
        for v in d:
            val = {S: v}
            try:
                if any(bool(t.evaluate(c, val)) != b for c, b in facts):
                    continue
            except (t.CannotEval, t.EvalUndef):
                pass
            try:
                if t.evaluate(e, val) != v:
                    return False
            except t.CannotEval:
                return None
            except t.EvalUndef:
                return False
        return True

    def finite_leaf(self, a, b, ctx, extra):
        ats = t.atoms(a) | t.atoms(b)
        if len(ats) != 1:
            return None
        (S,) = ats
        d = self.domain(S)
        if d is None:
            return None
        facts = [(c, bool(kv(v))) for c, v in ctx.st.facts.items()] + list(extra)
        facts = [(c, v) for c, v in facts if t.atoms(c) == {S}]
        for v in d:
            val = {S: v}
            try:
                if any(bool(t.evaluate(c, val)) != f for c, f in facts):
                    continue
                va = t.evaluate(a, val)
            except t.EvalUndef:
                continue
            except t.CannotEval:
                return None
            try:
                if t.evaluate(b, val) != va:
                    return False
            except t.CannotEval:
                return None
            except t.EvalUndef:
                return False
        return True

    # -------------------------------------------------------------------- tags
    def tags(self, tag, Rrest, W, ctx):
        outs = self.sections(tag, W, ctx)
        res = []
        for cx, state, Wr in outs:
            if cx.opq:
                res.append((cx, (), ()))
                continue
            if state == "open":
                if any(k2 == "end" for _, _, k2 in tag.cases):
                    self.viol(
                        cx,
                        "end-tag",
                        self.nodeof(tag),
                        "the writer does not emit the terminating tag the reader waits for",
                        "end",
                    )
                    cx.opq = "end tag"
                    res.append((cx, (), ()))
                    continue
            self.coverage(tag, cx)
            res.extend(self.run(Rrest, Wr, cx))
        return res

    def tagconst(self, tag, w):
        if not isinstance(w, I.W) or not isinstance(w.expr, T):
            return None
        k = tag.item
        if k is None:
            return None
        if w.kind[0] == "bytes" and isk(w.expr) and isinstance(kv(w.expr), bytes):
            b = kv(w.expr)
            if k[0] == "int" and len(b) >= k[1]:
                v = int.from_bytes(b[: k[1]], k[3] or "little", signed=bool(k[2]))
                return v, b[k[1] :]
        if w.kind[0] == "int" and isint(w.expr) and k[0] == "int" and w.kind[1] == k[1]:
            return int(kv(w.expr)), b""
        if w.kind[0] in ("enc", "enc5") and isint(w.expr) and k[0] == "enc":
            return int(kv(w.expr)), b""
        return None

    def sections(self, tag, W, ctx):
        """-> [(ctx, 'open'|'closed', remaining W)] at a section boundary."""
        while True:
            if ctx.opq:
                return [(ctx, "open", ())]
            self.budget -= 1
            if self.budget < 0:
                ctx.opq = "budget"
                continue
            W = self.norm_w(W, ctx)
            if not W:
                return [(ctx, "open", ())]
            w = W[0]
            if isinstance(w, I.TAlt):
                c, A, B = self.alt(
                    ctx,
                    ctx.simp(w.c),
                    lambda cx, br: self.sections(tag, w.a if br else w.b, cx),
                )
                outs, opens = [], []
                for side, o in ((True, A), (False, B)):
                    for cx, state, Wr in o:
                        if cx.opq:
                            outs.append((cx, "open", ()))
                        elif state == "open":
                            opens.append((side, cx))
                        else:
                            outs.append((cx, state, Wr + W[1:]))
                a = [cx for s, cx in opens if s]
                b = [cx for s, cx in opens if not s]
                if len(a) == 1 and len(b) == 1:
                    outs.extend(self.sections(tag, W[1:], join(c, a[0], b[0])))
                else:
                    for cx in a + b:
                        outs.extend(self.sections(tag, W[1:], cx))
                return outs
            if isinstance(w, I.TRep):
                n = ctx.simp(w.count)
                if isinstance(n, T) and isint(n) and kv(n) <= 300:
                    W = self.unroll_w(w, int(kv(n))) + W[1:]
                    continue
                if tag.other is not None and w.lid == tag.lid:
                    cx = ctx.copy()
                    o = self.run(tuple(tag.other), w.items, cx)
                    if any(x[0].opq for x in o):
                        ctx.opq = "other"
                        continue
                    ctx.written.setdefault(tag.lid, {})["*"] = TRUE
                    W = W[1:]
                    continue
                ctx.opq = "repetition of sections"
                self.und(self.nodeof(w), "repeated sections")
                continue
            k = self.tagconst(tag, w)
            if k is None:
                ctx.opq = "tag"
                self.und(self.nodeof(w), "section tag")
                continue
            k, tail = k
            if tail:
                W = (I.W(("bytes", K(len(tail))), K(tail), w.node),) + W[1:]
            else:
                W = W[1:]
            case = next((c for c in tag.cases if self.ck(c[0]) == k), None)
            if case is None:
                if tag.other is None:
                    self.viol(
                        ctx,
                        "unknown-tag",
                        w.node,
                        f"the writer emits section tag {k}, which the reader does not know",
                        f"tag {k}",
                    )
                    ctx.opq = "tag"
                    continue
                if not self.has_key(tag, k) and not self.default_ok(tag):
                    self.viol(
                        ctx,
                        "unknown-tag",
                        w.node,
                        f"the writer emits section tag {k}, which the reader does not know",
                        f"tag {k}",
                    )
                    ctx.opq = "tag"
                    continue
                items = tuple(
                    it
                    for it in tag.other
                    if not (isinstance(it, I.RItem) and it.sid in self.ip.forced)
                )
                mode = "at"
            else:
                items, mode = case[1], "present"
            pr = mk("present", tag.lid, K(k), ty="bool")
            prs = ctx.simp(pr)
            self.order(tag, k, items, ctx, w)
            if case is not None and case[2] == "end":
                outs = self.run(items, W, ctx)
                self.ok(w.node, f"end tag {k}")
                return [(cx, "closed", Wr) for cx, Rr, Wr in outs]
            if isk(prs) or mode == "at":
                cxs = [(ctx, ((tag.lid, K(k), "at"),) if mode == "at" else ())]
            elif not self.optional(tag, k):
                # the section always accompanies the data it belongs to
                ctx.assume(pr, True)
                cxs = [(ctx, ())]
            else:
                ca, cb = ctx.copy(), ctx.copy()
                ca.assume(pr, True)
                cb.assume(pr, False)
                cxs = [(ca, ()), (cb, ((tag.lid, K(k), "present"),))]
            done = []
            for cx, ab in cxs:
                cx.absent = cx.absent + ab
                for c2, Rr, Wr in self.run(items, W, cx):
                    if c2.opq:
                        done.append((c2, None))
                        continue
                    Rr = self.norm_r(Rr, c2)
                    if Rr:
                        self.shape(c2, Rr[0], None, f"section {k} is cut short")
                        done.append((c2, None))
                        continue
                    c2.absent = c2.absent[: len(c2.absent) - len(ab)] if ab else c2.absent
                    c2.written.setdefault(tag.lid, {})[k] = TRUE
                    done.append((c2, Wr))
            self.ok(w.node, f"section tag {k}")
            live = [(c2, Wr) for c2, Wr in done if Wr is not None]
            outs = [(c2, "open", ()) for c2, Wr in done if Wr is None]
            if not live:
                return outs
            if len(live) == 2 and len(cxs) == 2 and self.same(live[0][1], live[1][1]):
                live = [(join(pr, live[0][0], live[1][0]), live[0][1])]
            if len(live) == 1:
                if outs:
                    return outs + self.sections(tag, live[0][1], live[0][0])
                ctx, W = live[0]
                continue
            for c2, Wr in live:
                outs.extend(self.sections(tag, Wr, c2))
            return outs

    def ck(self, c):
        if isinstance(c, T):
            return kv(c) if isk(c) else None
        return c

    def present_atoms(self, tag):
        out = {}
        for lf in self.D:
            for x in (lf.term,) + tuple(c for c, _ in lf.guards):
                for a in t.atoms(x):
                    if a.op == "present" and a.args[0] == tag.lid and isk(a.args[1]):
                        out.setdefault(kv(a.args[1]), []).append(lf)
        return out

    def has_key(self, tag, k):
        return k in self.present_atoms(tag)

    def default_ok(self, tag):
        """`other` keeps unknown sections under their number."""
        return any(
            a.op == "slot" and self.casesids.get(a.args[0]) == (tag.lid, None)
            for lf in self.D
            for a in t.atoms(lf.term)
        )

    def optional(self, tag, k):
        """The data can tell whether section k was there."""
        return k in self.present_atoms(tag)

    def order(self, tag, k, items, ctx, w):
        """Sections whose fields the reader needs for this one come first."""
        used = set()

        def scan(its):
            for it in its:
                if isinstance(it, I.TRep):
                    if isinstance(it.count, T):
                        used.update(slot_ids(it.count))
                    scan(it.items)
                elif isinstance(it, I.TAlt):
                    used.update(slot_ids(it.c))
                    scan(it.a)
                    scan(it.b)
                elif isinstance(it, I.RItem):
                    if it.kind[0] == "raw" and isinstance(it.kind[1], T):
                        used.update(slot_ids(it.kind[1]))
                    elif it.kind[0] == "seq":
                        scan(it.kind[1])

        scan(items)
        for sid in used:
            c = self.casesids.get(sid)
            if c is None or c[0] != tag.lid or c[1] is None:
                continue
            j = self.ck(c[1])
            if j == k:
                continue
            if j not in ctx.written.get(tag.lid, {}):
                self.viol(
                    ctx,
                    "section-order",
                    w.node,
                    f"section {k} is written before section {j}, whose fields the reader "
                    f"needs to decode it",
                    f"{k} before {j}",
                )
            else:
                self.ok(w.node, f"section {k} after {j}")

    def vacuous(self, c):
        """The condition implies that the section carries nothing."""
        if c is FALSE:
            return True
        if c.op == "and":
            return any(self.vacuous(x) for x in c.args)
        if c.op == "or":
            return all(self.vacuous(x) for x in c.args)
        if c.op == "eq" and isint(c.args[1]) and kv(c.args[1]) == 0:
            s = slot_ids(c.args[0])
            return bool(s) and s <= self.countslots
        if c.op == "lt" and isint(c.args[1]) and kv(c.args[1]) <= 1:
            s = slot_ids(c.args[0])
            return bool(s) and s <= self.countslots
        if c.op == "not":
            x = c.args[0]
            if x.op == "present":
                return True
            if x.op == "truthy":
                return t.typeof(x.args[0]) in ("str", "bytes", "list")
        return False

    def coverage(self, tag, ctx):
        written = ctx.written.get(tag.lid, {})
        for c, items, kind in tag.cases:
            k = self.ck(c)
            if kind == "end" or k is None:
                continue
            self._cover(tag, k, items, written, ctx)
        if tag.other is not None:
            for k in self.present_atoms(tag):
                if not any(self.ck(c[0]) == k for c in tag.cases):
                    self._cover(tag, k, tag.other, written, ctx)
            if self.default_ok(tag) and "*" not in written:
                self.viol(
                    ctx,
                    "unknown-sections",
                    self.nodeof(tag) or self.nodeof_items(tag.other),
                    "sections the reader keeps under their number are not written back",
                    "*",
                )

    def nodeof_items(self, items):
        for it in items:
            n = self.nodeof(it)
            if n is not None:
                return n
        return None

    def _cover(self, tag, k, items, written, ctx):
        if not any(
            self.casesids.get(s) is not None and s in self.by_sid
            for s in self._sids(items)
        ) and not self.has_key(tag, k):
            return  # the reader discards the section
        cond = written.get(k, FALSE)
        pr = mk("present", tag.lid, K(k), ty="bool")
        if ctx.simp(pr) is FALSE:
            return
        node = self.nodeof_items(items)
        res = ctx.simp(t.subst(t.and_(pr, t.not_(cond)), {pr: TRUE}))
        if isk(res) and not kv(res):
            self.ok(node, f"section {k} is written back")
            return
        if cond is not FALSE and has_unknown(res):
            self.und(node, f"section {k} coverage")
            return
        if cond is not FALSE and self.vacuous(self.push(res)):
            self.ok(node, f"section {k} is written back unless empty")
            return
        if cond is FALSE:
            self.viol(
                ctx,
                "section-dropped",
                node,
                f"section {k} is decoded but never written back",
                f"section {k}",
            )
            return
        sat = satisfiable(res)
        if sat is None:
            self.und(node, f"section {k} coverage")
            return
        if sat is False:
            self.und(node, f"section {k} coverage")
            return
        self.viol(
            ctx,
            "section-dropped",
            node,
            f"section {k} is not written back when {t.show(res)[:160]}",
            f"section {k}",
        )

    def push(self, c, neg=False):
        """Negation normal form."""
        if c.op == "not":
            return self.push(c.args[0], not neg)
        if c.op in ("and", "or"):
            op = c.op if not neg else ("or" if c.op == "and" else "and")
            args = [self.push(x, neg) for x in c.args]
            return t.and_(*args) if op == "and" else t.or_(*args)
        return t.not_(c) if neg else c

    def _sids(self, items):
        for it in items:
            if isinstance(it, I.RItem):
                yield it.sid
                if it.kind[0] == "seq":
                    yield from self._sids(it.kind[1])
            elif isinstance(it, I.TRep):
                yield from self._sids(it.items)
            elif isinstance(it, I.TAlt):
                yield from self._sids(it.a)
                yield from self._sids(it.b)
            elif isinstance(it, I.TTag):
                for _, x, _ in it.cases:
                    yield from self._sids(x)

    # --------------------------------------------------------------------- all
    def need(self, g, key, node):
        k = kv(key) if isinstance(key, T) and isk(key) else t.show(key)
        if has_unknown(g):
            self.und(node, f"key {k!r}")
            return
        self.viol(
            Ctx(),
            "needs-key",
            node,
            f"the writer fails without key {k!r}, which the reader supplies only when "
            f"{t.show(g)[:120]}",
            f"{k}",
        )

    def base_ctx(self):
        """Element counts are not negative; sections the writer cannot do without
        are there (reported separately as obligations on `needs`)."""
        cx = Ctx()
        for sid in self.countslots:
            r = t.SLOT.get(sid, {}).get("range")
            if r and r[0] < 0:
                t.SLOT[sid]["range"] = (0, r[1])
        for x in list(t._INTERN.values()):
            if x.op == "lt" and x.args[0].op == "slot" and isint(x.args[1]):
                if x.args[0].args[0] in self.countslots:
                    n = kv(x.args[1])
                    if n <= 0:
                        cx.st.eqs[x] = FALSE
                    elif n == 1:
                        cx.st.eqs[x] = t.eq(x.args[0], K(0))
        for g, _, _ in self.needs:
            if g.op == "present":
                cx.st.facts[g] = TRUE
        return cx

    def check(self):
        outs = self.run(tuple(self.R), tuple(self.W), self.base_ctx())
        for cx, Rr, Wr in outs:
            if cx.opq:
                self.und(None, f"stopped: {cx.opq}")
                continue
            Rr, Wr = self.norm_r(Rr, cx), self.norm_w(Wr, cx)
            if Rr and not Wr:
                r = Rr[0]
                if isinstance(r, I.RItem) and r.kind[0] == "raw" and r.kind[1] is None:
                    # nothing written, the reader gets no bytes
                    self.value(r, K(b""), I.W(("bytes", K(0)), K(b""), r.node), cx)
                    continue
                self.shape(cx, r, None, "the reader expects more than the writer emits")
            elif Wr:
                self.shape(cx, None, Wr[0], "the writer emits more than the reader consumes")
        return self


def satisfiable(c):
    """True when a sample valuation makes c true; None when not evaluable."""
    ats = sorted(t.atoms(c), key=lambda x: x.uid)
    for n in range(200):
        try:
            val = {x: t.sample_for(x, n + 17 * i) for i, x in enumerate(ats)}
            if t.evaluate(c, val):
                return True
        except t.CannotEval:
            return None
        except t.EvalUndef:
            continue
    return False


def _samples(ats, n):
    val = {}
    for i, x in enumerate(ats):
        s = x
        while s.op == "at":
            s = s.args[2]
        dom = t.SLOT.get(s.args[0], {}).get("dom") if s.op == "slot" else None
        if dom and all(isk(k) for k in dom):
            val[x] = kv(dom[(n + i) % len(dom)])
        else:
            val[x] = t.sample_for(x, n + 17 * i)
    return val


def differ(a, b, facts=(), rounds=400):
    ats = set()
    for x in (a, b):
        ats |= t.atoms(x)
    fs = []
    for c, v in facts:
        ca = t.atoms(c)
        if ca & ats or not ca:
            fs.append((c, v))
            ats |= ca
        # facts about unrelated fields restrict nothing here
    pins = {}
    for c, v in fs:
        if v and c.op == "eq" and isk(c.args[1]) and c.args[0] in ats:
            pins[c.args[0]] = kv(c.args[1])
    order = sorted(ats, key=lambda x: x.uid)
    seen = False
    special = list(t.boundaries(a, b, order))
    for n in range(rounds + len(special)):
        try:
            val = _samples(order, n)
        except t.CannotEval:
            return None
        if n >= rounds:
            val[special[n - rounds][0]] = special[n - rounds][1]
        val.update(pins)
        try:
            if any(bool(t.evaluate(c, val)) != v for c, v in fs):
                continue
            va = t.evaluate(a, val)
        except t.CannotEval:
            return None
        except t.EvalUndef:
            continue
        try:
            vb = t.evaluate(b, val)
        except t.CannotEval:
            return None
        except t.EvalUndef:
            vb = "<error>"
        seen = True
        if va != vb or (isinstance(va, float) != isinstance(vb, float)):
            return {t.show(x): v for x, v in val.items()}
    return False if seen else None


def check_pair(ip, pcls, ccls, codec):
    """Analyse reader and writer class, align, return a Matcher (or an error str)."""
    ip.notes, ip.needs = [], []
    st, val, R = codec.read_class(ip, pcls)
    D = leaves(ip, st, val)
    ip.notes, ip.needs, ip.missing = [], [], []
    st2, W = codec.write_class(ip, ccls, val, st)
    m = Matcher(ip, f"{pcls.name}/{ccls.name}", D, R, W, list(ip.needs))
    seen = set()
    for facts, key, node in ip.missing:
        if any(has_unknown(c) for c in facts) or (key, node) in seen:
            continue
        seen.add((key, node))
        cx = Ctx()
        m.viol(
            cx,
            "missing-key",
            node,
            f"the writer needs key {key!r}, which the reader never supplies",
            m.srckey(node),
        )
    m.check()
    for g, key, node in m.needs:
        m.need(g, key, node)
    return m
