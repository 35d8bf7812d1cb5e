"""C05: the encoded-integer reader and writer are inverse on the whole 32-bit range.

Both functions are interpreted abstractly on an arbitrary value / an arbitrary byte
stream; the result is a decision tree over linear terms.  All case distinctions compare
the value with constants, so the tree is decided exhaustively on the window that
contains those constants, and by term identity outside it.
"""

from .. import interp as I
from .. import terms as t
from ..project import AnchorLost
from ..scene import Diff, Scene, expect

LO, HI, UHI = -(2**31), 2**31 - 1, 2**32 - 1


class Stuck(Exception):
    pass


def writer(project, via, signed, long):
    t.SLOT.clear()
    ip = I.Interp(project)
    st = I.State()
    s = ip.alloc(st, I.StreamO("w", (), "out"))
    v = t.mk("sym", "v", ty="int")
    kw = {} if signed is None else {"signed": t.K(signed)}
    if via == "function":
        name = "write_value_long" if long else "write_value"
        f = ip.glob("vfbLib.compilers.value", name)
        if not isinstance(f, I.Fn):
            raise AnchorLost(f"vfbLib.compilers.value.{name}")
        ip.call_fn(f, [v, s], kw, st, f.node)
        node = f.node
    else:
        c = ip.glob("vfbLib.compilers.base", "StreamWriter")
        if not isinstance(c, I.Cls):
            raise AnchorLost("StreamWriter")
        r = ip.call_cls(c, [], {}, st, None)
        st.heap[r.id] = st.heap[r.id].set("stream", s)
        hit = ip.lookup_attr(c, "write_value")
        if hit is None:
            raise AnchorLost("StreamWriter.write_value")
        if long:
            kw["shortest"] = t.K(False)
        ip.call_fn(I.Fn("write_value", hit[1], hit[0]), [r, v], kw, st, hit[1])
        node = hit[1]
    return (
        v,
        st.heap[s.id].items,
        [(c, t.kv(b) if isinstance(b, t.T) else bool(b)) for c, b in st.facts.items()],
        node,
    )


def reader(project, via, signed):
    t.SLOT.clear()
    ip = I.Interp(project)
    st = I.State()
    s = ip.alloc(st, I.StreamO("r", (), "in"))
    kw = {} if signed is None else {"signed": t.K(signed)}
    if via == "function":
        f = ip.glob("vfbLib.parsers.value", "read_value")
        if not isinstance(f, I.Fn):
            raise AnchorLost("vfbLib.parsers.value.read_value")
        val = ip.call_fn(f, [s], kw, st, f.node)
        node = f.node
    else:
        c = ip.glob("vfbLib.parsers.base", "StreamReader")
        if not isinstance(c, I.Cls):
            raise AnchorLost("StreamReader")
        r = ip.call_cls(c, [], {}, st, None)
        st.heap[r.id] = st.heap[r.id].set("stream", s)
        hit = ip.lookup_attr(c, "read_value")
        if hit is None:
            raise AnchorLost("StreamReader.read_value")
        val = ip.call_fn(I.Fn("read_value", hit[1], hit[0]), [r], kw, st, hit[1])
        node = hit[1]
    if not isinstance(val, t.T):
        raise Stuck("the reader's result is not a term")
    return (
        st.heap[s.id].items,
        val,
        [(c, t.kv(b) if isinstance(b, t.T) else bool(b)) for c, b in st.facts.items()],
        node,
    )


def encode(items, v, x):
    """Bytes written for value x, or 'overflow'."""
    out = []
    for it in items:
        if isinstance(it, I.TAlt):
            r = encode(it.a if t.evaluate(it.c, {v: x}) else it.b, v, x)
            if r == "overflow":
                return r
            out += r
        elif isinstance(it, I.W):
            e = t.evaluate(it.expr, {v: x}) if isinstance(it.expr, t.T) else None
            k = it.kind
            if k[0] == "int" and isinstance(e, int):
                try:
                    out += e.to_bytes(k[1], k[3] or "little", signed=k[2])
                except OverflowError:
                    return "overflow"
            elif k[0] in ("bytes", "raw") and isinstance(e, bytes):
                out += e
            else:
                raise Stuck(f"written item {k}")
        else:
            raise Stuck(type(it).__name__)
    return out


def decode(items, val, facts, data):
    """(value, bytes left) or ('raise', None)"""
    env = {}
    pos = 0

    def go(its):
        nonlocal pos
        for it in its:
            if isinstance(it, I.TAlt):
                go(it.a if t.evaluate(it.c, env) else it.b)
            elif isinstance(it, I.RItem) and it.kind[0] == "int":
                k = it.kind
                b = data[pos : pos + k[1]]
                if len(b) < k[1]:
                    raise IndexError
                pos += k[1]
                env[it.term] = int.from_bytes(bytes(b), k[3] or "little", signed=k[2])
            else:
                raise Stuck(f"read item {type(it).__name__}")

    try:
        go(items)
    except IndexError:
        return "short", None
    for c, truth in facts:
        try:
            if bool(t.evaluate(c, env)) != truth:
                return "raise", None
        except t.CannotEval:
            continue
    return t.evaluate(val, env), len(data) - pos


def consts(items, facts=()):
    out = set()

    def walk(x):
        if isinstance(x, t.T):
            if t.isk(x):
                if isinstance(t.kv(x), int):
                    out.add(abs(t.kv(x)))
                return
            for a in x.args:
                walk(a)

    def go(its):
        for it in its:
            if isinstance(it, I.TAlt):
                walk(it.c)
                go(it.a)
                go(it.b)

    go(items)
    return out


def leaf(items, v, x):
    """Straight-line items selected for value x."""
    out = []
    for it in items:
        if isinstance(it, I.TAlt):
            out += leaf(it.a if t.evaluate(it.c, {v: x}) else it.b, v, x)
        else:
            out.append(it)
    return out


def size_of(x):
    if -107 <= x <= 107:
        return 1
    if -1131 <= x <= 1131:
        return 2
    return 5


def spec(b0, b1, tail, signed):
    """Type 1 charstring number encoding."""
    if b0 <= 246:
        return b0 - 139, 1
    if b0 <= 250:
        return (b0 - 247) * 256 + b1 + 108, 2
    if b0 <= 254:
        return -(b0 - 251) * 256 - b1 - 108, 2
    return int.from_bytes(bytes(tail), "big", signed=signed), 5


def run(project, rep):
    rep.rule("identity", "reading back a written value yields the value")
    rep.rule("consumed", "reading back a written value consumes exactly its bytes")
    rep.rule("range", "no value of the 32-bit range overflows its encoding")
    rep.rule("shortest", "the shortest of the three forms is chosen")
    rep.rule("long", "the long form is five bytes for every value")
    rep.rule("spec", "every first byte is decoded as the published encoding says")
    rep.rule("reserved", "reserved first bytes 0..31 are rejected")
    rep.rule("bits", "integers and lists of bit positions are converted without loss")
    _bits(project, rep)
    extra = 4000 if rep.tier == "quick" else 70000
    for via in ("function", "method"):
        for signed in (None, True, False):
            eff = True if signed is None else signed
            name = f"{via}, signed={'default' if signed is None else signed}"
            try:
                ritems, rval, rfacts, rnode = reader(project, via, signed)
            except Stuck as ex:
                rep.und("identity", name, str(ex))
                continue
            try:
                _reader_spec(rep, name, ritems, rval, rfacts, rnode, eff, rep.tier)
            except (Stuck, t.CannotEval, t.EvalUndef) as ex:
                rep.und("spec", rnode, f"{name}: {ex}")
            rs = dict(t.SLOT)
            for long in (False, True):
                v, witems, wfacts, wnode = writer(project, via, signed, long)
                t.SLOT.update(rs)
                try:
                    _pair(
                        rep,
                        f"{name}{', long form' if long else ''}",
                        (ritems, rval, rfacts, rnode),
                        (v, witems, wfacts, wnode),
                        eff,
                        long,
                        extra,
                    )
                except (Stuck, t.CannotEval, t.EvalUndef) as ex:
                    rep.und("identity", wnode, f"{name}: {type(ex).__name__} {ex}")


def _reader_spec(rep, name, items, val, facts, node, signed, tier):
    bad = ok = 0
    seconds = range(256)
    for b0 in range(256):
        for b1 in seconds if 247 <= b0 <= 254 else (0, 1, 127, 128, 255):
            tail = [b1, 0x12, 0x34, 0x56]
            got, left = decode(items, val, facts, [b0] + tail)
            if b0 < 32:
                if got != "raise":
                    rep.viol(
                        "reserved",
                        "first byte",
                        node,
                        f"{name}: reserved first byte {b0:#x} is decoded as {got!r}",
                    )
                    bad += 1
                continue
            want, n = spec(b0, b1, tail, signed)
            if got != want or left != 5 - n:
                rep.viol(
                    "spec",
                    f"{_form(b0)}",
                    node,
                    f"{name}: bytes {bytes([b0] + tail[: n - 1]).hex(' ')} decode to "
                    f"{got!r} ({'?' if left is None else 5 - left} bytes), the encoding "
                    f"says {want} ({n} bytes)",
                )
                bad += 1
                break
            ok += 1
        if bad > 3:
            break
    if not bad:
        for b0 in range(256):
            rep.ok("reserved" if b0 < 32 else "spec", f"{name}: first byte {b0:#04x}")


def _form(b0):
    return (
        "one byte"
        if b0 < 247
        else "two bytes, positive"
        if b0 < 251
        else "two bytes, negative"
        if b0 < 255
        else "long"
    )


def _pair(rep, name, r, w, signed, long, extra):
    ritems, rval, rfacts, rnode = r
    v, witems, wfacts, wnode = w
    lo, hi = (LO, HI) if signed else (0, UHI)
    win = max([c for c in consts(witems) if c < 2**24] + [1200]) + 2
    win = max(win, extra)
    big = [c for c in consts(witems) if c >= 2**24]
    probes = list(range(max(lo, -win), min(hi, win) + 1))
    edge = [lo, lo + 1, hi, hi - 1, 2**31, 2**31 - 1, -(2**31), 2**16, 2**24]
    edge += [-(2**16), -(2**24)]
    for c in big:
        edge += [c - 1, c, c + 1, -c, -c - 1, -c + 1]
    edge = [x for x in edge if lo <= x <= hi]
    bad = 0
    for x in probes + edge:
        data = encode(witems, v, x)
        if data == "overflow":
            rep.viol("range", "overflow", wnode, f"{name}: {x} does not fit its encoding")
            bad += 1
            break
        if any(
            c_ in (True, False) and bool(t.evaluate(c, {v: x})) != c_
            for c, c_ in wfacts
            if t.atoms(c) <= {v}
        ):
            rep.viol("range", "rejected", wnode, f"{name}: {x} is rejected")
            bad += 1
            break
        n = 5 if long else size_of(x)
        if len(data) != n:
            rep.viol(
                "long" if long else "shortest",
                "size",
                wnode,
                f"{name}: {x} is written in {len(data)} bytes instead of {n}",
            )
            bad += 1
            break
        got, left = decode(ritems, rval, rfacts, data)
        if got != x or isinstance(got, bool):
            rep.viol(
                "identity",
                "value",
                wnode,
                f"{name}: {x} is written as {bytes(data).hex(' ')} and read back as "
                f"{got!r}",
                [f"reader: {rep.where(rnode)}", f"writer: {rep.where(wnode)}"],
            )
            bad += 1
            break
        if left:
            rep.viol(
                "consumed",
                "length",
                rnode,
                f"{name}: reading {x} back leaves {left} of its bytes",
            )
            bad += 1
            break
    if bad:
        return
    rep.ok("range", f"{name}: all of [{lo}, {hi}]")
    rep.ok("long" if long else "shortest", f"{name}: window +-{win}")
    rep.ok("consumed", f"{name}: window +-{win}")
    rep.ok("identity", f"{name}: window +-{win} exhaustively")
    # outside the window one leaf on each side; identical terms on both sides
    for x in sorted({max(lo, -win - 1), min(hi, win + 1)}):
        if abs(x) <= win:
            continue
        its = leaf(witems, v, x)
        last = its[-1]
        if (
            isinstance(last, I.W)
            and last.kind[0] == "int"
            and last.kind[1] == 4
            and bool(last.kind[2]) == bool(signed)
            and last.expr is v
        ):
            rep.ok("identity", f"{name}: beyond the window, value {x} and outwards")
        else:
            rep.und("identity", wnode, f"{name}: form beyond {x} checked at edges only")


HELPERS = "vfbLib.helpers"


def _bits(project, rep):
    """Lists of bit positions and integers, on every single bit and mixed patterns."""
    lists = [[], *([b] for b in range(128))]
    lists += [[a, b] for a in range(0, 64, 5) for b in range(a + 1, 64, 7)]
    lists += [list(range(n)) for n in (2, 8, 16, 17, 32, 33, 64)]
    lists += [list(range(a, 64, k)) for a in (0, 1, 2) for k in (2, 3, 8)]
    cases = [("intListToBinary", {}, b, sum(1 << x for x in b)) for b in lists]
    for start in (None, 0, 1, 32):
        kw = {} if start is None else {"start": start}
        cases += [
            ("binaryToIntList", kw, sum(1 << x for x in b), [x + (start or 0) for x in b])
            for b in lists
        ]
    for name in ("intListToBinary", "binaryToIntList"):
        try:
            node = project.func(f"{HELPERS}:{name}")
        except AnchorLost:
            continue
        s, n = Scene(project), 0
        for fn, kw, arg, want in cases:
            if fn != name:
                continue
            what = f"{name} of {arg}" + "".join(f", {k}={v}" for k, v in kw.items())
            if n % 40 == 39:
                s = Scene(project)
            n += 1
            try:
                got = s.tree(s.func(f"{HELPERS}:{name}", arg, **kw))
            except (I.Unsupported, I.CaseSplit) as ex:
                rep.und("bits", node, f"{what}: {ex}")
                break
            except I.Raised as ex:
                rep.viol("bits", name, node, f"{what} raises {ex.what}")
                break
            d = Diff(s)
            d.walk("", expect(s, want), got)
            if d.open:
                rep.und("bits", node, f"{what}: {d.open[0]}")
                break
            if d.bad:
                shown = want if name == "intListToBinary" else f"the bits {want}"
                rep.viol("bits", name, node, f"{what} is not {shown}")
                break
            rep.ok("bits", what)
