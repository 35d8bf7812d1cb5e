"""Hash-consed value terms with a normalising constructor set.

A term denotes a value computed by the analysed program as a function of the
values read from the wire ("slots").  Terms are compared by identity after
normalisation (global value numbering).  `evaluate` gives the meaning of a term
under a valuation of its atoms; it is only used to *confirm* that two different
normal forms are really different before anything is reported.
"""

from fractions import Fraction
from math import atan2, degrees, radians, tan

_INTERN = {}


class T:
    __slots__ = ("op", "args", "uid", "ty")

    def __repr__(self):
        return show(self)


def mk(op, *args, ty=None):
    key = (op, args, ty)
    t = _INTERN.get(key)
    if t is None:
        t = T()
        t.op, t.args, t.ty, t.uid = op, args, ty, len(_INTERN)
        _INTERN[key] = t
    return t


class _Key:
    """Typed constant key: 1, True and 1.0 stay distinct."""

    __slots__ = ("v", "t")

    def __init__(self, v):
        self.v, self.t = v, type(v).__name__

    def __hash__(self):
        return hash((self.t, repr(self.v)))

    def __eq__(self, o):
        return isinstance(o, _Key) and o.t == self.t and repr(o.v) == repr(self.v)

    def __repr__(self):
        return repr(self.v)


def K(v):
    return mk("k", _Key(v))


TRUE, FALSE, NONE = K(True), K(False), K(None)
UNK = mk("unk")


def isk(t):
    return isinstance(t, T) and t.op == "k"


def kv(t):
    return t.args[0].v


def isnum(t):
    return isk(t) and isinstance(kv(t), (int, float)) and not isinstance(kv(t), bool)


def isint(t):
    return isk(t) and isinstance(kv(t), int)


def opaque(why="?"):
    return mk("opq", why)


_LIDS = {}


def short_lid(lid):
    if lid not in _LIDS:
        _LIDS[lid] = f"{lid[0][0]}{len(_LIDS)}"
    return _LIDS[lid]


def show(t, d=0):
    if not isinstance(t, T):
        return repr(t)
    if t.op == "k":
        return repr(kv(t))
    if d > 5:
        return "…"
    if t.op == "ix":
        return short_lid(t.args[0])
    if t.op == "slot":
        return f"s{t.args[0]}" + (
            "[" + ",".join(show(a, d + 1) for a in t.args[1]) + "]" if t.args[1] else ""
        )
    if t.op == "lin":
        c, terms = t.args
        s = " + ".join(
            (show(a, d + 1) if k == 1 else f"{k}*{show(a, d + 1)}") for a, k in terms
        )
        return f"({s}{' + ' + str(c) if c else ''})"
    if t.op == "bits":
        u, m, sh = t.args
        return f"(({show(u, d + 1)} & {hex(m)}) >> {sh})"
    if t.op == "map":
        return f"table[{show(t.args[1], d + 1)}]"
    return (
        t.op
        + "("
        + ", ".join(
            show(a, d + 1) if isinstance(a, T) else repr(a)[:40] for a in t.args
        )
        + ")"
    )


# --------------------------------------------------------------------- slots

SLOT = {}  # sid -> dict(kind=..., width=, signed=, lo=, hi=, blen=term)


def slot(sid, ixs, ty):
    return mk("slot", sid, tuple(ixs), ty=ty)


def slot_range(t):
    """(lo, hi) or None for an int-valued term."""
    if isint(t):
        v = int(kv(t))
        return v, v
    if t.op == "slot":
        return SLOT.get(t.args[0], {}).get("range")
    if t.op == "bits":
        u, m, sh = t.args
        if m >= 0:
            hi = (m >> sh) if sh >= 0 else (m << -sh)
            return 0, hi
    if t.op == "ite":
        a, b = slot_range(t.args[1]), slot_range(t.args[2])
        if a and b:
            return min(a[0], b[0]), max(a[1], b[1])
    if t.op in ("blen", "len", "count"):
        return 0, 1 << 40
    if t.op == "map":
        vals = [v for _, v in t.args[0]]
        if vals and all(isint(v) for v in vals):
            iv = [int(kv(v)) for v in vals]
            return min(iv), max(iv)
    if t.op == "lin":
        c, terms = t.args
        lo = hi = c
        for a, k in terms:
            r = slot_range(a)
            if r is None:
                return None
            x, y = r[0] * k, r[1] * k
            lo += min(x, y)
            hi += max(x, y)
        return lo, hi
    return None


def typeof(t):
    if not isinstance(t, T):
        return None
    if t.op == "k":
        return type(kv(t)).__name__
    if t.ty:
        return t.ty
    if t.op in ("lin", "bits", "ord", "count", "blen", "len", "trunc", "round", "ix"):
        return "int"
    if t.op in ("decode", "hex", "strip", "chr", "strjoin", "cat", "str", "hexn"):
        return "str"
    if t.op in ("encode", "unhex", "bytecode", "bcat"):
        return "bytes"
    if t.op in ("fdiv", "fmul", "tan", "atan2", "degrees", "radians", "fadd"):
        return "float"
    if t.op in ("eq", "lt", "not", "and", "or", "truthy", "in", "present", "isint", "strb"):
        return "bool"
    if t.op == "asm":
        return "list"
    if t.op == "map":
        ts = {typeof(v) for _, v in t.args[0]}
        return ts.pop() if len(ts) == 1 else None
    if t.op == "ite":
        a, b = typeof(t.args[1]), typeof(t.args[2])
        return a if a == b else None
    return None


# ---------------------------------------------------------------- arithmetic


def _lin_parts(t):
    if isint(t):
        return Fraction(int(kv(t))), {}
    if t.op == "lin":
        return t.args[0], dict(t.args[1])
    if t.op == "bits":
        u, m, sh = t.args
        return Fraction(0), {mk("bits", u, m, 0): Fraction(1) / (Fraction(2) ** sh)}
    if t.op == "ite":
        # ite(bit, v, 0) with bit a single-bit test becomes a bits term
        pass
    return Fraction(0), {t: Fraction(1)}


def _full_mask(u):
    r = slot_range(u)
    if r and r[0] >= 0:
        return (1 << int(r[1]).bit_length()) - 1
    return -1


def bits(u, m, sh):
    """(u & m) >> sh, sh may be negative (shift left)."""
    if isint(u):
        v = int(kv(u)) & m
        return K(v >> sh if sh >= 0 else v << -sh)
    if u.op == "bits":
        u2, m2, sh2 = u.args
        # ((u2 & m2) >> sh2) & m = (u2 & m2 & (m << sh2)) >> sh2
        mm = m << sh2 if sh2 >= 0 else m >> -sh2
        return bits(u2, m2 & mm, sh + sh2)
    if u.op == "ite":
        c, a, b = u.args
        return ite(c, bits(a, m, sh), bits(b, m, sh))
    if u.op == "lin":
        # aligned sums of bit fields of one term
        c, terms = u.args
        if c == 0 and all(a.op == "bits" for a, _ in terms):
            pass
    full = _full_mask(u)
    if sh > 0:
        m &= -1 << sh
    m &= full
    if full == -1 and sh > 0 and m == (-1 << sh):
        return mk("bits", u, m, sh, ty="int")
    if m == 0:
        return K(0)
    if m == full and sh == 0:
        return u
    return mk("bits", u, m, sh, ty="int")


def _mklin(c, parts):
    # merge bit-field atoms of the same base and coefficient with disjoint masks
    changed = True
    while changed:
        changed = False
        by = {}
        for a, k in list(parts.items()):
            if k == 0:
                del parts[a]
                continue
            if a.op == "bits":
                u, m, sh = a.args
                key = (u, k)
                if key in by:
                    b = by[key]
                    m2 = b.args[1]
                    if m & m2 == 0:
                        del parts[a], parts[b]
                        full = _full_mask(u)
                        if (m | m2) & full == full:
                            parts[u] = parts.get(u, 0) + k
                        else:
                            n = mk("bits", u, m | m2, 0, ty="int")
                            parts[n] = parts.get(n, 0) + k
                        changed = True
                        break
                else:
                    by[key] = a
    if not parts:
        return K(int(c)) if c.denominator == 1 else K(float(c))
    if c == 0 and len(parts) == 1:
        (a, k), = parts.items()
        if a.op == "bits":
            u, m, _ = a.args
            n = k.numerator
            d = k.denominator
            if n == 1 and d & (d - 1) == 0:
                return bits(u, m, d.bit_length() - 1)
            if d == 1 and n & (n - 1) == 0 and n > 0 and m != _full_mask(u):
                pass
        if k == 1:
            return a
    items = tuple(sorted(parts.items(), key=lambda x: x[0].uid))
    return mk("lin", c, items, ty="int")


def isintlike(t):
    return isinstance(t, T) and typeof(t) in ("int", "bool")


def isfloaty(t):
    return isinstance(t, T) and typeof(t) == "float"


def _distribute2(f, a, b):
    if isinstance(a, T) and a.op == "ite":
        return ite(a.args[0], f(a.args[1], b), f(a.args[2], b))
    if isinstance(b, T) and b.op == "ite":
        return ite(b.args[0], f(a, b.args[1]), f(a, b.args[2]))
    return None


def add(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) + kv(b))
        except Exception:
            return opaque("add")
    ta, tb = typeof(a), typeof(b)
    if ta == "str" or tb == "str":
        return cat(a, b)
    if ta == "bytes" or tb == "bytes":
        return bcat(a, b)
    if ta == "float" or tb == "float":
        return mk("fadd", a, b)
    if ta in ("list", "tuple") or tb in ("list", "tuple"):
        return opaque("list add")
    ca, pa = _lin_parts(a)
    cb, pb = _lin_parts(b)
    for k, v in pb.items():
        pa[k] = pa.get(k, 0) + v
    return _mklin(ca + cb, pa)


def scale(a, n):
    c, p = _lin_parts(a)
    n = Fraction(n)
    return _mklin(c * n, {k: v * n for k, v in p.items()})


def neg(a):
    if isk(a):
        return K(-kv(a))
    if isfloaty(a):
        return mk("fmul", K(-1.0), a)
    return scale(a, -1)


def sub(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) - kv(b))
        except Exception:
            return opaque("sub")
    if isfloaty(a) or isfloaty(b):
        return mk("fadd", a, neg(b))
    return add(a, neg(b))


def mul(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) * kv(b))
        except Exception:
            return opaque("mul")
    if isfloaty(a) or isfloaty(b):
        if isk(b):
            a, b = b, a
        return mk("fmul", a, b)
    if isk(a) and isinstance(kv(a), bytes):
        return mk("brep", a, b, ty="bytes")
    if isk(b) and isinstance(kv(b), bytes):
        return mk("brep", b, a, ty="bytes")
    if isint(a):
        a, b = b, a
    if isint(b):
        if a.op == "ite":
            c, x, y = a.args
            return ite(c, mul(x, b), mul(y, b))
        return scale(a, int(kv(b)))
    if (isk(a) and isinstance(kv(a), float)) or (isk(b) and isinstance(kv(b), float)):
        if isk(b):
            a, b = b, a
        return mk("fmul", a, b)
    if typeof(a) == "int" and typeof(b) == "int":
        x, y = sorted((a, b), key=lambda t: t.uid)
        return mk("mul", x, y, ty="int")
    return mk("mulu", a, b)


def floordiv(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) // kv(b))
        except Exception:
            return opaque("floordiv")
    if isint(b) and typeof(a) == "int":
        n = int(kv(b))
        if n > 0 and n & (n - 1) == 0:
            return shr(a, K(n.bit_length() - 1))
    if a.op == "nbytes" and isint(b):
        return mk("nbdiv", a, b, ty="int")
    return mk("floordiv", a, b, ty="int")


def mod(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) % kv(b))
        except Exception:
            return opaque("mod")
    if isk(a) and isinstance(kv(a), str):
        return fmt_percent(kv(a), b)
    if isint(b) and typeof(a) == "int":
        n = int(kv(b))
        if n > 0 and n & (n - 1) == 0:
            return bits(a, n - 1, 0)
    return mk("mod", a, b, ty="int")


def truediv(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) / kv(b))
        except Exception:
            return opaque("div")
    d = _distribute2(truediv, a, b)
    if d is not None:
        return d
    return mk("fdiv", a, b, ty="float")


def shl(a, b):
    if isk(a) and isk(b):
        return K(kv(a) << kv(b))
    if isint(b):
        return mul(a, K(1 << int(kv(b))))
    if isint(a) and kv(a) == 1:
        return pow_(K(2), b)
    return mk("shl", a, b, ty="int")


def shr(a, b):
    if isk(a) and isk(b):
        return K(kv(a) >> kv(b))
    if isint(b):
        n = int(kv(b))
        if a.op == "lin":
            c, terms = a.args
            m = 1 << n
            if all((k / m).denominator == 1 for _, k in terms) and (c / m).denominator == 1:
                return _mklin(c / m, {t: k / m for t, k in terms})
            return mk("shrl", a, n, ty="int")
        return bits(a, -1 << n, n)
    return mk("shr", a, b, ty="int")


def band(a, b):
    if isk(a) and isk(b):
        return K(kv(a) & kv(b))
    if isint(a):
        a, b = b, a
    if isint(b):
        if a.op == "lin":
            return mk("andl", a, int(kv(b)), ty="int")
        return bits(a, int(kv(b)), 0)
    return mk("band", a, b, ty="int")


def bor(a, b):
    if isk(a) and isk(b):
        return K(kv(a) | kv(b))
    # disjoint fields: or == add
    ca, pa = _lin_parts(a)
    cb, pb = _lin_parts(b)

    def foot(c, p):
        if c < 0 or c.denominator != 1:
            return None
        f = int(c)
        for t, k in p.items():
            if k <= 0:
                return None
            if t.op == "bits":
                m = t.args[1]
                if m < 0:
                    return None
            else:
                r = slot_range(t)
                if r is None or r[0] < 0:
                    return None
                m = (1 << int(r[1]).bit_length()) - 1
            v = m * k
            if v.denominator != 1:
                return None
            if f & int(v):
                return None
            f |= int(v)
        return f

    fa, fb = foot(ca, pa), foot(cb, pb)
    if fa is not None and fb is not None and fa & fb == 0:
        return add(a, b)
    d = _distribute2(bor, a, b)
    if d is not None:
        return d
    return mk("bor", a, b, ty="int")


def invert(a):
    if isk(a):
        return K(~kv(a))
    return sub(neg(a), K(1))


def pow_(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) ** kv(b))
        except Exception:
            return opaque("pow")
    if isint(a) and kv(a) == 2:
        return mk("pow2", b, ty="int")
    return mk("pow", a, b, ty="int")


def round_(a):
    if isk(a):
        return K(round(kv(a)))
    if typeof(a) == "int":
        return a
    if a.op == "ite":
        return ite(a.args[0], round_(a.args[1]), round_(a.args[2]))
    # round(c * (t / c)) -> t for |t| < 2**31, integer c
    if a.op == "fmul":
        c, x = a.args
        if not isk(c) and isk(x):
            c, x = x, c
        if isk(c):
            if x.op == "fdiv" and isk(x.args[1]) and kv(x.args[1]) == kv(c):
                if typeof(x.args[0]) == "int":
                    return x.args[0]
            if x.op == "tan" and x.args[0].op == "radians":
                y = x.args[0].args[0]
                if y.op == "degrees" and y.args[0].op == "atan2":
                    n, d = y.args[0].args
                    if isk(d) and kv(d) == kv(c) and typeof(n) == "int":
                        return n
    return mk("round", a, ty="int")


def trunc(a):
    if isk(a):
        try:
            return K(int(kv(a)))
        except Exception:
            return opaque("int()")
    if typeof(a) == "int":
        return a
    if typeof(a) == "bool":
        return ite(a, K(1), K(0))
    if a.op == "ite":
        return ite(a.args[0], trunc(a.args[1]), trunc(a.args[2]))
    if a.op == "str" and typeof(a.args[0]) == "int":
        return a.args[0]
    if a.op == "round":
        return a
    return mk("trunc", a, ty="int")


# ----------------------------------------------------------------- conditions


def not_(c):
    if isk(c):
        return K(not kv(c))
    if c.op == "not":
        return c.args[0]
    return mk("not", c, ty="bool")


def _flat(op, cs):
    out = []
    for c in cs:
        if c.op == op:
            for x in c.args:
                if x not in out:
                    out.append(x)
        elif c not in out:
            out.append(c)
    return out


def and_(*cs):
    cs = _flat("and", cs)
    cs = [c for c in cs if c is not TRUE]
    if any(c is FALSE for c in cs):
        return FALSE
    for c in cs:
        if not_(c) in cs:
            return FALSE
    # x == k makes x != k2 redundant
    known = {c.args[0]: c.args[1] for c in cs if c.op == "eq" and isk(c.args[1])}
    if known:
        red = []
        for c in cs:
            if c.op == "not" and c.args[0].op == "eq" and isk(c.args[0].args[1]):
                k = known.get(c.args[0].args[0])
                if k is not None and k is not c.args[0].args[1]:
                    continue
            if c.op == "eq" and isk(c.args[1]) and known.get(c.args[0]) is not c.args[1]:
                return FALSE
            red.append(c)
        cs = red
    # absorption with or
    out = []
    for c in cs:
        if c.op == "or":
            if any(x in cs for x in c.args):
                continue
            c2 = or_(*[x for x in c.args if not_(x) not in cs])
            if c2 is not c:
                return and_(*[x for x in cs if x is not c], c2)
        out.append(c)
    cs = out
    if not cs:
        return TRUE
    if len(cs) == 1:
        return cs[0]
    return mk("and", *sorted(cs, key=lambda t: t.uid), ty="bool")


def or_(*cs):
    cs = _flat("or", cs)
    cs = [c for c in cs if c is not FALSE]
    if any(c is TRUE for c in cs):
        return TRUE
    for c in cs:
        if not_(c) in cs:
            return TRUE
    if not cs:
        return FALSE
    out = []
    for c in cs:
        if c.op == "and" and any(x in cs for x in c.args):
            continue
        out.append(c)
    cs = out
    if len(cs) == 1:
        return cs[0]
    # (a and c) or (a and not c) -> a
    if len(cs) == 2 and cs[0].op == "and" and cs[1].op == "and":
        x, y = set(cs[0].args), set(cs[1].args)
        d1, d2 = x - y, y - x
        if len(d1) == 1 and len(d2) == 1 and not_(next(iter(d1))) in d2:
            return and_(*(x & y))
    return mk("or", *sorted(cs, key=lambda t: t.uid), ty="bool")


WRITTEN = {"tobytes1", "encoded", "tobytes", "packf", "chunks"}


def eq(a, b):
    if a is b:
        return TRUE
    if isk(a) and isk(b):
        return K(kv(a) == kv(b))
    if isk(a):
        a, b = b, a
    if a.op == "ite":
        c, x, y = a.args
        if isk(b) or b.op != "ite":
            ex, ey = eq(x, b), eq(y, b)
            if isk(ex) or isk(ey):
                return ite(c, ex, ey)
    if isk(b):
        if a.op == "map":
            keys = [k for k, v in a.args[0] if v is b]
            return or_(*[eq(a.args[1], k) for k in keys]) if keys else FALSE
        ta, tb = typeof(a), typeof(b)
        if ta and tb and ta != tb and {ta, tb} - {"int", "bool", "float"}:
            return FALSE
        if tb == "bytes" and a.op in WRITTEN:
            n = blen(a)
            if isk(n) and kv(n) != len(kv(b)):
                return FALSE
        if isnum(b):
            r = slot_range(a)
            if r and not (r[0] <= kv(b) <= r[1]):
                return FALSE
            if a.op == "lin":
                c, terms = a.args
                if len(terms) == 1:
                    t, k = terms[0]
                    v = (Fraction(kv(b)) - c) / k
                    if v.denominator == 1:
                        return eq(t, K(int(v)))
                    return FALSE
    else:
        if typeof(a) == "int" and typeof(b) == "int" and not isk(a):
            d = sub(a, b)
            if isk(d):
                return K(kv(d) == 0)
            ra, rb = slot_range(a), slot_range(b)
            if ra and rb and (ra[1] < rb[0] or rb[1] < ra[0]):
                return FALSE
        a, b = sorted((a, b), key=lambda t: t.uid)
    return mk("eq", a, b, ty="bool")


def lt(a, b):
    if isk(a) and isk(b):
        try:
            return K(kv(a) < kv(b))
        except Exception:
            return opaque("lt")
    if a is b:
        return FALSE
    if a.op == "ite":
        c, x, y = a.args
        return ite(c, lt(x, b), lt(y, b))
    if b.op == "ite":
        c, x, y = b.args
        return ite(c, lt(a, x), lt(a, y))
    ra, rb = slot_range(a), slot_range(b)
    if ra and rb:
        if ra[1] < rb[0]:
            return TRUE
        if ra[0] >= rb[1]:
            return FALSE
    # integers: canonical form  d < 0  with  a < K   (K - a)
    if typeof(a) == "int" and typeof(b) == "int":
        if isint(a):
            # k < b   <=>  not (b < k+1)
            return not_(lt(b, K(kv(a) + 1)))
        if isint(b) and kv(b) == 1 and ra and ra[0] == 0:
            return eq(a, K(0))
        if isint(b) and a.op == "lin" and len(a.args[1]) == 1:
            c, ((t, k),) = a.args
            if k == 1:
                return lt(t, K(int(kv(b) - c)))
    return mk("lt", a, b, ty="bool")


def le(a, b):
    return not_(lt(b, a))


def truthy(t):
    if isk(t):
        return K(bool(kv(t)))
    ty = typeof(t)
    if ty == "bool":
        return t
    if ty == "int":
        return not_(eq(t, K(0)))
    if t.op == "ite":
        return ite(t.args[0], truthy(t.args[1]), truthy(t.args[2]))
    if t.op == "map":
        keys = [k for k, v in t.args[0] if isk(v) and not kv(v)]
        if all(isk(v) for _, v in t.args[0]):
            return not_(or_(*[eq(t.args[1], k) for k in keys]))
    if t.op == "cat":
        if any(isk(p) and kv(p) for p in t.args):
            return TRUE
        if any(p.op == "hexn" for p in t.args):
            return TRUE
    if t.op in ("decode", "encode", "hex", "unhex", "asm", "bytecode"):
        return truthy(t.args[0])
    if ty == "bytes" and t.op == "slot":
        bl = blen(t)
        if not (isinstance(bl, T) and bl.op == "blen"):
            return not_(eq(bl, K(0)))
    return mk("truthy", t, ty="bool")


def ite(c, a, b):
    if isk(c):
        return a if kv(c) else b
    if a is b:
        return a
    if c.op == "not":
        return ite(c.args[0], b, a)
    if a is TRUE and b is FALSE:
        return c
    if a is FALSE and b is TRUE:
        return not_(c)
    if a is TRUE and typeof(b) == "bool":
        return or_(c, b)
    if a is FALSE and typeof(b) == "bool":
        return and_(not_(c), b)
    if b is FALSE and typeof(a) == "bool":
        return and_(c, a)
    if b is TRUE and typeof(a) == "bool":
        return or_(not_(c), a)
    if a.op == "ite" and a.args[0] is c:
        return ite(c, a.args[1], b)
    if b.op == "ite" and b.args[0] is c:
        return ite(c, a, b.args[2])
    # ite(c1, x, ite(c2, x, y)) -> ite(c1 or c2, x, y)
    if b.op == "ite" and b.args[1] is a:
        return ite(or_(c, b.args[0]), a, b.args[2])
    if b.op == "ite" and b.args[2] is a:
        return ite(or_(c, not_(b.args[0])), a, b.args[1])
    if c.op == "eq":
        x, k = c.args
        if isk(k):
            b2 = subst(b, {x: k})
            if b2 is a:
                return b
            # a single bit: eq(bits(u, m, s), 0)
            if kv(k) == 0 and x.op == "bits":
                u, m, sh = x.args
                if m > 0 and m & (m - 1) == 0:
                    # ite(bit clear, a, b)
                    if isint(a) and isint(b):
                        w = Fraction(int(kv(b)) - int(kv(a)), m)
                        return add(a, _mklin(Fraction(0), {mk("bits", u, m, 0, ty="int"): w}))
                    if typeof(a) == "int" and typeof(b) == "int":
                        d = sub(b, a)
                        if isint(d):
                            w = Fraction(int(kv(d)), m)
                            return add(
                                a, _mklin(Fraction(0), {mk("bits", u, m, 0, ty="int"): w})
                            )
                        # ite(bit clear, e, e without bit) -> e without bit
                        if b is bits(a, ~m, 0) and _base(a) is u:
                            return b
            # empty string and zero-length read
            if kv(k) == 0 and isk(a) and kv(a) in ("", b""):
                bb = b.args[0] if b.op == "decode" else b
                if bb.op == "slot" and blen(bb) is x:
                    return b
    if c.op == "truthy":
        x = c.args[0]
        if a is x and isk(b) and not kv(b):
            if typeof(x) == type(kv(b)).__name__:
                return x
    if typeof(a) == "bool" and typeof(b) == "bool":
        return or_(and_(c, a), and_(not_(c), b))
    return mk("ite", c, a, b)


def _base(t):
    while t.op == "bits":
        t = t.args[0]
    return t


# --------------------------------------------------------------------- tables


def table(pairs):
    """pairs: iterable of (T, T)."""
    return tuple(pairs)


def in_table(tab, x):
    if isk(x):
        return K(any(k is x for k, _ in tab))
    if x.op == "ite":
        return ite(x.args[0], in_table(tab, x.args[1]), in_table(tab, x.args[2]))
    if x.op == "map":
        # which of x's keys map into tab
        ks = [k for k, v in x.args[0] if any(k2 is v for k2, _ in tab)]
        if len(ks) == len(x.args[0]):
            return TRUE
        return mk("in", tuple((k, TRUE) for k in ks), x.args[1], ty="bool") if ks else FALSE
    if x.op == "str" and typeof(x.args[0]) == "int":
        if not any(
            isk(k) and isinstance(kv(k), str) and kv(k).lstrip("-").isdigit() for k, _ in tab
        ):
            return FALSE
    return mk("in", tuple((k, TRUE) for k, _ in tab), x, ty="bool")


def lookup(tab, x):
    """tab[x], x known to be a key."""
    if isk(x):
        for k, v in tab:
            if k is x:
                return v
        return None
    if x.op == "ite":
        a, b = lookup(tab, x.args[1]), lookup(tab, x.args[2])
        if a is None:
            return b
        if b is None:
            return a
        return ite(x.args[0], a, b)
    if x.op == "map":
        inner = []
        for k, v in x.args[0]:
            w = next((v2 for k2, v2 in tab if k2 is v), None)
            if w is not None and isinstance(w, T):
                inner.append((k, w))
        if inner and all(k is w for k, w in inner):
            return x.args[1]
        return mk("map", tuple(inner), x.args[1]) if inner else None
    if x.op == "str":
        # keys of a table are never stringified numbers here
        if not any(isk(k) and isinstance(kv(k), str) and kv(k).isdigit() for k, _ in tab):
            return None
    if not all(isinstance(v, T) for _, v in tab):
        return None
    return mk("map", tuple(tab), x)


# -------------------------------------------------------------------- strings


def cat(*parts):
    out = []
    for p in parts:
        if p.op == "cat":
            ps = p.args
        else:
            ps = (p,)
        for q in ps:
            if isk(q) and kv(q) == "":
                continue
            if out and isk(out[-1]) and isk(q):
                out[-1] = K(str(kv(out[-1])) + str(kv(q)))
            else:
                out.append(q)
    if not out:
        return K("")
    if len(out) == 1 and typeof(out[0]) == "str":
        return out[0]
    return mk("cat", *out, ty="str")


def bcat(a, b):
    if isk(a) and kv(a) == b"":
        return b
    if isk(b) and kv(b) == b"":
        return a
    return mk("bcat", a, b, ty="bytes")


def fmt_percent(fmt, x):
    if fmt == "%06x" and isinstance(x, T) and typeof(x) == "int":
        return cat(*[mk("hexn", bits(x, 0xF << (4 * i), 4 * i), ty="str") for i in range(5, -1, -1)])
    return mk("pct", fmt, x, ty="str")


def fmt_spec(x, spec):
    if spec == "06x" and typeof(x) == "int":
        return fmt_percent("%06x", x)
    return mk("fmt", x, spec, ty="str")


def str_(x):
    if isk(x):
        return K(str(kv(x)))
    if typeof(x) == "str":
        return x
    return mk("str", x, ty="str")


def _chars(t):
    """List of single-character terms of a cat, or None."""
    if isk(t) and isinstance(kv(t), str):
        return [K(c) for c in kv(t)]
    if t.op in ("hexn", "chr"):
        return [t]
    if t.op == "cat":
        out = []
        for p in t.args:
            c = _chars(p)
            if c is None:
                return None
            out += c
        return out
    return None


def str_slice(t, lo, hi):
    if isk(t):
        return K(kv(t)[lo:hi])
    if t.op == "ite":
        return ite(t.args[0], str_slice(t.args[1], lo, hi), str_slice(t.args[2], lo, hi))
    c = _chars(t)
    if c is None:
        return mk("slice", t, lo, hi, ty=typeof(t))
    return cat(*c[lo:hi])


def int_base(t, base):
    if isk(t):
        try:
            return K(int(kv(t), base))
        except Exception:
            return opaque("int base")
    c = _chars(t)
    if base == 16 and c:
        r = K(0)
        for i, ch in enumerate(reversed(c)):
            if ch.op == "hexn":
                v = ch.args[0]
            elif isk(ch) and kv(ch) in "0123456789abcdefABCDEF":
                v = K(int(kv(ch), 16))
            else:
                return mk("intb", t, base, ty="int")
            r = add(r, mul(v, K(16**i)))
        return r
    return mk("intb", t, base, ty="int")


def decode(b, enc):
    if isk(b):
        try:
            return K(kv(b).decode(kv(enc)))
        except Exception:
            return opaque("decode")
    if b.op == "ite":
        return ite(b.args[0], decode(b.args[1], enc), decode(b.args[2], enc))
    if b.op == "encode" and b.args[1] is enc:
        return b.args[0]
    if b.op == "bcat":
        return cat(decode(b.args[0], enc), decode(b.args[1], enc))
    return mk("decode", b, enc, ty="str")


def encode(s, enc):
    if isk(s):
        try:
            return K(kv(s).encode(kv(enc)))
        except Exception:
            return opaque("encode")
    if s.op == "ite":
        return ite(s.args[0], encode(s.args[1], enc), encode(s.args[2], enc))
    if s.op == "decode" and s.args[1] is enc:
        return s.args[0]
    return mk("encode", s, enc, ty="bytes")


def hex_(b):
    if isk(b):
        return K(kv(b).hex())
    if b.op == "unhex":
        return b.args[0]
    return mk("hex", b, ty="str")


def unhex(s):
    if isk(s):
        return K(bytes.fromhex(kv(s)))
    if s.op == "hex":
        return s.args[0]
    if s.op == "ite":
        return ite(s.args[0], unhex(s.args[1]), unhex(s.args[2]))
    return mk("unhex", s, ty="bytes")


def strip(s, chars, side="both"):
    if isk(s):
        f = {"both": str.strip, "l": str.lstrip, "r": str.rstrip}[side]
        return K(f(kv(s), chars))
    if s.op == "ite":
        return ite(
            s.args[0], strip(s.args[1], chars, side), strip(s.args[2], chars, side)
        )
    if s.op == "strip" and s.args[1] == chars and s.args[2] == side:
        return s
    if s.op == "cat" and side in ("both", "r") and chars:
        last = s.args[-1]
        if last.op == "decode" and last.args[0].op == "brep":
            z = last.args[0].args[0]
            if all(chr(c) in chars for c in kv(z)):
                return strip(cat(*s.args[:-1]), chars, side)
    return mk("strip", s, chars, side, ty="str")


def chr_(c):
    if isk(c):
        return K(chr(kv(c)))
    if c.op == "ord":
        return c.args[0]
    return mk("chr", c, ty="str")


def ord_(s):
    if isk(s):
        try:
            return K(ord(kv(s)))
        except Exception:
            return opaque("ord")
    if s.op == "chr":
        return s.args[0]
    if s.op == "ite":
        return ite(s.args[0], ord_(s.args[1]), ord_(s.args[2]))
    if s.op == "tobytes1":
        return s.args[0]
    return mk("ord", s, ty="int")


def blen(b):
    if isk(b):
        return K(len(kv(b)))
    if b.op == "slot":
        bl = SLOT.get(b.args[0], {}).get("blen")
        if bl is not None:
            return bl
    if b.op == "ite":
        return ite(b.args[0], blen(b.args[1]), blen(b.args[2]))
    if b.op in ("tobytes1", "encoded"):
        return K(1)
    if b.op in ("tobytes", "packf"):
        return K(b.args[1])
    if b.op == "buffer":
        return b.args[0]
    if b.op == "chunks":
        n = K(0)
        for x in b.args:
            n = add(n, blen(x))
        return n
    if b.op == "brep":
        return mul(blen(b.args[0]), b.args[1])
    if b.op == "bcat":
        return add(blen(b.args[0]), blen(b.args[1]))
    return mk("blen", b, ty="int")


def slen(s):
    """len() of a str term."""
    if isk(s):
        return K(len(kv(s)))
    c = _chars(s)
    if c is not None:
        return K(len(c))
    if s.op == "ite":
        return ite(s.args[0], slen(s.args[1]), slen(s.args[2]))
    return mk("len", s, ty="int")


# --------------------------------------------------------------- substitution

_REBUILD = {}


def _rb(op):
    def d(f):
        _REBUILD[op] = f
        return f

    return d


def rebuild(t, args):
    """Re-apply the normalising constructor of t.op to new args."""
    op = t.op
    if op == "lin":
        c, terms = args
        r = K(int(c)) if c.denominator == 1 else None
        acc = None
        if r is None:
            acc = (c, {})
            for a, k in terms:
                ca, pa = _lin_parts(a)
                for x, v in pa.items():
                    acc[1][x] = acc[1].get(x, 0) + v * k
            return _mklin(c, acc[1])
        for a, k in terms:
            if not isk(a) and typeof(a) not in ("int", "bool", None):
                return opaque("lin")
            if isk(a) and not isint(a):
                return opaque("lin")
            r = add(r, scale(a, k)) if a.op != "ite" else _add_ite(r, a, k)
        return r
    f = _CONS.get(op)
    if f is not None:
        return f(*args)
    return mk(op, *args, ty=t.ty)


def _add_ite(r, a, k):
    return add(r, scale(a, k))


_CONS = {
    "bits": bits,
    "fadd": lambda a, b: add(a, b) if isk(a) and isk(b) else mk("fadd", a, b),
    "fmul": lambda a, b: mul(a, b) if isk(a) and isk(b) else mk("fmul", a, b),
    "fdiv": truediv,
    "mul": mul,
    "mulu": mul,
    "floordiv": floordiv,
    "mod": mod,
    "round": round_,
    "trunc": trunc,
    "not": not_,
    "and": and_,
    "or": or_,
    "eq": eq,
    "lt": lt,
    "truthy": truthy,
    "ite": ite,
    "cat": cat,
    "bcat": bcat,
    "decode": decode,
    "encode": encode,
    "hex": hex_,
    "unhex": unhex,
    "strip": strip,
    "chr": chr_,
    "ord": ord_,
    "blen": blen,
    "len": slen,
    "str": str_,
    "slice": str_slice,
    "intb": int_base,
    "map": lambda tab, x: lookup(tab, x) or opaque("lookup"),
    "in": lambda tab, x: in_table(tab, x),
    "bor": bor,
    "band": band,
    "shr": shr,
    "shl": shl,
    "pow2": lambda b: pow_(K(2), b),
    "andl": lambda a, m: band(a, K(m)),
    "shrl": lambda a, n: shr(a, K(n)),
    "brep": lambda a, b: mul(a, b),
}


def subst(t, m, memo=None):
    if memo is None:
        memo = {}
    if not isinstance(t, T):
        if isinstance(t, tuple):
            return tuple(subst(x, m, memo) for x in t)
        return t
    if t in m:
        return m[t]
    if t.op in ("k", "unk", "opq"):
        return t
    if t in memo:
        return memo[t]
    if t.op in ("map", "in"):
        na = (t.args[0], subst(t.args[1], m, memo))
    else:
        na = tuple(subst(a, m, memo) for a in t.args)
    r = t if na == t.args else rebuild(t, na)
    memo[t] = r
    return r


def atoms(t, acc=None, seen=None):
    """slot / lv / sym leaves."""
    if acc is None:
        acc, seen = set(), set()
    if isinstance(t, tuple):
        for x in t:
            atoms(x, acc, seen)
        return acc
    if not isinstance(t, T) or t in seen:
        return acc
    seen.add(t)
    if t.op in ATOM_OPS:
        acc.add(t)
        return acc
    args = t.args[1:] if t.op in ("map", "in") else t.args
    for a in args:
        atoms(a, acc, seen)
    return acc


ATOM_OPS = {"slot", "lv", "fin", "sym", "ix", "present", "count", "nbytes", "at", "attr"}


def has_op(t, ops, seen=None):
    if seen is None:
        seen = set()
    if isinstance(t, tuple):
        return any(has_op(x, ops, seen) for x in t)
    if not isinstance(t, T) or t in seen:
        return False
    seen.add(t)
    if t.op in ops:
        return True
    args = t.args[1:] if t.op in ("map", "in") else t.args
    return any(has_op(a, ops, seen) for a in args)


def opaque_term(t):
    return has_op(t, {"opq", "unk", "fin", "tell"})


# ----------------------------------------------------------------- evaluation


class CannotEval(Exception):
    pass


class EvalUndef(Exception):
    """The term has no value under this valuation (program would raise)."""


def evaluate(t, val):
    memo = dict(val)

    def ev(t):
        if isinstance(t, tuple):
            return tuple(ev(x) for x in t)
        if not isinstance(t, T):
            return t
        if t in memo:
            return memo[t]
        r = _ev(t)
        memo[t] = r
        return r

    def _ev(t):
        op, a = t.op, t.args
        if op == "k":
            return kv(t)
        if op in ATOM_OPS:
            if t in val:
                return val[t]
            raise CannotEval(t)
        try:
            if op == "lin":
                r = a[0]
                for x, k in a[1]:
                    r += Fraction(ev(x)) * k
                return int(r) if r.denominator == 1 else float(r)
            if op == "bits":
                v = ev(a[0]) & a[1]
                return v >> a[2] if a[2] >= 0 else v << -a[2]
            if op == "ite":
                return ev(a[1]) if ev(a[0]) else ev(a[2])
            if op == "not":
                return not ev(a[0])
            if op == "and":
                return all(ev(x) for x in a)
            if op == "or":
                return any(ev(x) for x in a)
            if op == "eq":
                return ev(a[0]) == ev(a[1])
            if op == "lt":
                return ev(a[0]) < ev(a[1])
            if op == "truthy":
                return bool(ev(a[0]))
            if op == "map":
                k = ev(a[1])
                for kk, v in a[0]:
                    if kv(kk) == k:
                        return ev(v)
                raise EvalUndef
            if op == "in":
                k = ev(a[1])
                return any(kv(kk) == k for kk, _ in a[0])
            if op == "fmul" or op == "mul" or op == "mulu" or op == "brep":
                return ev(a[0]) * ev(a[1])
            if op == "fadd":
                return ev(a[0]) + ev(a[1])
            if op == "fdiv":
                return ev(a[0]) / ev(a[1])
            if op == "floordiv":
                return ev(a[0]) // ev(a[1])
            if op == "mod":
                return ev(a[0]) % ev(a[1])
            if op == "tan":
                return tan(ev(a[0]))
            if op == "radians":
                return radians(ev(a[0]))
            if op == "degrees":
                return degrees(ev(a[0]))
            if op == "atan2":
                return atan2(ev(a[0]), ev(a[1]))
            if op == "round":
                return round(ev(a[0]))
            if op == "roundn":
                return round(ev(a[0]), kv(a[1]))
            if op == "isint":
                return ev(a[0]).is_integer()
            if op == "strb":
                return getattr(ev(a[1]), a[0])(*[ev(x) for x in a[2]])
            if op == "trunc":
                return int(ev(a[0]))
            if op == "abs":
                return abs(ev(a[0]))
            if op == "pow2":
                return 2 ** ev(a[0])
            if op == "bor":
                return ev(a[0]) | ev(a[1])
            if op == "band":
                return ev(a[0]) & ev(a[1])
            if op == "andl":
                return ev(a[0]) & a[1]
            if op == "shr":
                return ev(a[0]) >> ev(a[1])
            if op == "shl":
                return ev(a[0]) << ev(a[1])
            if op == "shrl":
                return ev(a[0]) >> a[1]
            if op == "cat":
                return "".join(str(ev(x)) for x in a)
            if op == "bcat":
                return ev(a[0]) + ev(a[1])
            if op == "hexn":
                return "0123456789abcdef"[ev(a[0])]
            if op == "str":
                return str(ev(a[0]))
            if op == "slice":
                return ev(a[0])[a[1] : a[2]]
            if op == "intb":
                return int(ev(a[0]), a[1])
            if op == "decode":
                return ev(a[0]).decode(ev(a[1]))
            if op == "encode":
                return ev(a[0]).encode(ev(a[1]))
            if op == "hex":
                return ev(a[0]).hex()
            if op == "unhex":
                return bytes.fromhex(ev(a[0]))
            if op == "strip":
                f = {"both": str.strip, "l": str.lstrip, "r": str.rstrip}[a[2]]
                return f(ev(a[0]), a[1])
            if op == "chr":
                return chr(ev(a[0]))
            if op == "ord":
                return ord(ev(a[0]))
            if op in ("blen", "len"):
                return len(ev(a[0]))
            if op == "tobytes1":
                return bytes([ev(a[0])])
            if op == "pct":
                return a[0] % ev(a[1])
            if op == "fmt":
                return format(ev(a[0]), a[1])
            if op == "app":  # an uninterpreted function of the library
                return ("app", a[0]) + tuple(ev(x) for x in a[1:])
        except (CannotEval, EvalUndef):
            raise
        except Exception as e:
            raise EvalUndef from e
        raise CannotEval(t)

    return ev(t)


SAMPLES = (
    [0, 1, -1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 100, 107, 108, 127, 128, 200, 255]
    + [256, 300, 511, 1000, 1131, 1132, 9999, 10000, 32767, 32768, 65535, 65536]
    + [-2, -100, -107, -108, -128, -1000, -1131, -1132, -32768, -65536]
    + [0x123456, 0xFFFFFF, 0x7FFFFFFF, -0x80000000, 0x07654321]
    + [i * 37 - 4000 for i in range(217)]
    + [i for i in range(1, 9000, 41)]
)
TEXT_SAMPLES = ["", "a", "abc", "A B", "xyz\xe9", "Regular", " pad ", "<&>", "a#1"]
TEXT_SAMPLES += ["top_1", "_bottom", "caret.1", "a:b", "x\ny", "it's", "@_A", "1", "-"]
FLOAT_SAMPLES = [0.0, 1.0, -1.5, 0.25, 1e-3, 12345.678, 1 / 3, 0.57, -0.29, 0.1234567891]
FLOAT_SAMPLES += [-20.0, -21.0, 2.675, 1e-9, -45.126, 90.0, 179.994, 180.0, -180.0, 359.996]
FLOAT_SAMPLES += [360.0, 400.5, -100.25, 0.5, 1.5, 2.5, -0.5, 1000.0, 999.9996, -7.0]
STR_SAMPLES = [b"", b"a", b"abc", b"A B", b"xyz\xe9", b"\x00ab\x00", b"abcd", b"q" * 16]


def sample_for(atom, n):
    """n-th sample for an atom, or raise CannotEval."""
    h = (atom.uid * 7919) % 211
    if atom.op in ("slot", "at"):
        ty = typeof(atom)
        s = atom
        while s.op == "at":
            s = s.args[2]
        info = SLOT.get(s.args[0], {}) if s.op == "slot" else {}
        if ty == "int":
            r = info.get("range")
            for k in range(len(SAMPLES)):
                v = SAMPLES[(n * (1 + h % 5) + h + k) % len(SAMPLES)]
                if n < len(SAMPLES) // 2 and k == 0:
                    v = SAMPLES[(n + h) % len(SAMPLES)]
                if r is None or r[0] <= v <= r[1]:
                    return v
            return r[0]
        if ty == "float":
            return FLOAT_SAMPLES[(n + h) % len(FLOAT_SAMPLES)]
        if ty == "bytes":
            return STR_SAMPLES[(n + h) % len(STR_SAMPLES)]
        if ty == "str":
            return TEXT_SAMPLES[(n + h) % len(TEXT_SAMPLES)]
    if atom.op in ("lv", "ix", "count", "nbytes", "sym", "attr"):
        ty = typeof(atom)
        if ty in ("int", None) and atom.op != "sym" or ty == "int":
            v = SAMPLES[(n * 3 + h) % len(SAMPLES)]
            return abs(v) if atom.op in ("ix", "count", "nbytes") else v
    if atom.op == "present":
        return bool((n + h) % 3)
    raise CannotEval(atom)


def constants(x, acc=None, seen=None):
    """The int, float and str constants of a term."""
    acc, seen = (set() if acc is None else acc), (set() if seen is None else seen)
    if isinstance(x, (tuple, list)):
        for y in x:
            constants(y, acc, seen)
    elif isinstance(x, T):
        if x.uid in seen:
            return acc
        seen.add(x.uid)
        if isk(x):
            if isinstance(kv(x), (int, float, str)) and not isinstance(kv(x), bool):
                acc.add(kv(x))
        else:
            constants(x.args, acc, seen)
    elif isinstance(x, (int, float)) and not isinstance(x, bool):
        acc.add(x)
    return acc


def boundaries(a, b, ats, most=400):
    """(atom, value): values around the constants of the terms."""
    cs = constants(a) | constants(b)
    nums = sorted(c for c in cs if isinstance(c, (int, float)) and abs(c) < 1 << 40)
    n = 0
    for x in ats:
        ty = typeof(x)
        if x.op not in ("slot", "at"):
            continue
        s = x
        while s.op == "at":
            s = s.args[2]
        info = SLOT.get(s.args[0], {}) if s.op == "slot" else {}
        if info.get("dom"):
            continue
        r = info.get("range")
        if ty in ("int", "float"):
            vals = [z for c in nums for z in (c, c + 1, c - 1, -c)]
            if ty == "int":
                vals = [int(z) for z in vals if z == int(z)]
            else:
                vals = [float(z) for z in vals]
        elif ty == "str":
            vals = sorted(c for c in cs if isinstance(c, str))
        else:
            continue
        for v in dict.fromkeys(vals):
            if r is not None and not r[0] <= v <= r[1]:
                continue
            n += 1
            if n > most:
                return
            yield x, v


def differ(a, b, rounds=260):
    """True if a valuation separates the terms, False if none was found,
    None if the terms cannot be evaluated."""
    ats = sorted(atoms(a) | atoms(b), key=lambda t: t.uid)
    seen_ok = False
    special = list(boundaries(a, b, ats))
    for n in range(rounds + len(special)):
        try:
            val = {x: sample_for(x, n + 17 * i) for i, x in enumerate(ats)}
        except CannotEval:
            return None
        if n >= rounds:
            val[special[n - rounds][0]] = special[n - rounds][1]
        try:
            va = evaluate(a, val)
            vb = evaluate(b, val)
        except CannotEval:
            return None
        except EvalUndef:
            continue
        seen_ok = True
        if va != vb:
            return {show(x): v for x, v in val.items()}
    return False if seen_ok else None
