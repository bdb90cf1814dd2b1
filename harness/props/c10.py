"""C10: bit views and bit-aware byte arrays behave like a list of bits (least significant bit first)."""
from array import array
from common import call, expect, expect_same, must_raise


# ------------------------------------------------------------------ model
def to_bits(data):
    return [(b >> i) & 1 for b in bytearray(data) for i in range(8)]


def to_bytes(bits):
    return bytes(bytearray(number(bits[i:i + 8]) for i in range(0, len(bits), 8)))


def number(bits):
    return sum(b << i for i, b in enumerate(bits))


def int_bits(n, width):
    return [(n >> i) & 1 for i in range(width)]


def clamp(k, n):
    return max(k + n, 0) if k < 0 else min(k, n)


def nbytes(n):
    return (n + 7) // 8


def value_bits(v, width):
    """bits of a value; None when it has to be refused"""
    if v[0] in ("view", "array"):
        return to_bits(v[1])[v[2]:v[3]]
    if v[0] == "int":
        if v[1] < 0 or v[1] >> width:
            return None
        return int_bits(v[1], width)
    if v[0] in ("list", "gen"):
        if any(not 0 <= x <= 255 for x in v[1]):
            return None
        return to_bits(v[1])
    if v[0] in ("none", "float", "object"):
        return None
    return to_bits(v[1])


def apply(bits, op):
    """-> (new bits, error?)  for mutating operations"""
    n = len(bits)
    name = op[0]
    if name == "setslice":
        a, b = span(op, n)
        v = value_bits(op[4], b - a)
        return (None if v is None else bits[:a] + v + bits[b:])
    if name == "setindex":
        k = op[1]
        if k >= n or k < -8 * nbytes(n):
            return None
        a = clamp(k, n)
        b = min(a + 8, n)
        v = value_bits(op[3], b - a)
        return None if v is None else bits[:a] + v + bits[b:]
    if name == "delslice":
        a, b = span(op, n)
        return bits[:a] + bits[b:]
    if name in ("delindex", "pop"):
        k = op[1]
        if k >= n or k < -8 * nbytes(n):
            return None
        a = clamp(k, n)
        return bits[:a] + bits[min(a + 8, n):]
    if name in ("insert", "append"):
        a = clamp(op[1], n) if name == "insert" else n
        v = value_bits(op[-1], 8)
        return None if v is None else bits[:a] + v + bits[a:]
    if name in ("extend", "iadd", "add"):
        return bits + value_bits(op[-1], 8)
    if name in ("extend_self", "iadd_self", "add_self", "set_self"):
        mine = bits if op[-1] is None else bits[op[-1][0]:op[-1][1]]
        if name == "set_self":
            a, b = span(op, n)
            return bits[:a] + mine + bits[b:]
        return bits + mine
    if name == "radd":
        return value_bits(op[-1], 8) + bits
    if name == "zfill":
        return bits + [0] * max(0, op[1] - n)
    if name == "clear":
        return []
    if name == "remove":
        vals = list(to_bytes(bits))
        if op[1] not in vals:
            return None
        a = 8 * vals.index(op[1])
        return bits[:a] + bits[a + 8:]
    if name == "reverse":
        return to_bits(to_bytes(bits)[::-1])
    raise AssertionError(name)


def span(op, n):
    a = 0 if op[1] is None else clamp(op[1], n)
    b = n if op[2] is None else clamp(op[2], n)
    return a, b


# ------------------------------------------------------------------ generator
def _pos(d, n, p):
    """one of the ways to write position p of a sequence of n bits"""
    k = d.int(0, 5)
    if k == 0 and p - n < 0:
        return p - n
    if k == 1 and p == n:
        return n + d.int(0, 20)
    if k == 1 and p == 0 and n:
        return -n - d.int(1, 20)
    return p


def _slice(d, n):
    if d.chance(1, 3):
        p = 8 * d.int(0, n // 8)
        q = min(n, p + 8 * d.int(0, 4))
    else:
        p = d.int(0, n)
        q = d.int(p, min(n, p + 40)) if d.chance(3, 4) else d.int(p, n)
    a = None if p == 0 and d.chance(1, 4) else _pos(d, n, p)
    b = None if q == n and d.chance(1, 4) else _pos(d, n, q)
    return p, q, a, b


def _value(d, width, resize=True):
    k = d.int(0, 13)
    if k <= 3:  # int, mostly fitting
        if d.chance(1, 8):
            return ["int", d.choice([-1, -128, 1 << width, (1 << width) + d.int(0, 300)])]
        if width == 0:
            k = 4
        else:
            return ["int", d.uint(width)]
    if k <= 8:
        n = width if d.chance(2, 3) or not resize else d.int(0, 40)
        off = d.int(0, 9)
        size = nbytes(off + n) + d.int(0, 2)
        return [d.choice(["view", "array"]), d.bytes(size, size), off, off + n]
    n = width // 8 if (d.chance(2, 3) or not resize) else d.int(0, 6)
    if k in (9, 10):
        return [d.choice(["bytes", "bytearray"]), d.bytes(n, n)]
    vals = list(d.bytes(n, n))
    if k == 13:
        j = d.int(0, 4)
        if j == 0:
            return ["none"]
        if j == 1:
            return ["float"]
        return ["list", vals + [d.choice([256, 1000, -1])]]
    return [d.choice(["list", "gen"]), vals]


def _part(d, n):
    """of the array itself: everything, or a view of some of its bits"""
    if d.bool():
        return None
    p = d.int(0, n)
    return [p, d.int(p, n)]


READS = ["index", "slice", "iter", "bitstr", "bytearray", "contains", "count", "find", "reversed", "nested"]
WRITES = ["setslice", "setslice", "setslice", "setindex", "delslice", "delindex", "insert", "append", "extend", "iadd",
          "add", "radd", "zfill", "pop", "clear", "reverse", "sub", "subset", "extend_self", "iadd_self", "add_self", "set_self", "remove"]


def gen(d):
    big = d.chance(1, 10)
    size = d.int(0, 300 if big else 7)
    data = d.bytes(size, size)
    total = 8 * size
    start = d.choice([0, 0, d.int(0, total), 8 * d.int(0, size)])
    stop = d.choice([None, total, d.int(start, total)])
    kind = d.choice(["array", "array", "view"])
    bits = to_bits(data)[start:stop]
    ops = []
    for _ in range(d.int(1, 8)):
        n = len(bits)
        name = d.choice(READS if kind == "view" or d.chance(1, 4) else WRITES)
        fl = d.bool()
        if name in ("index", "delindex", "setindex", "pop"):
            if d.chance(1, 8):
                k = d.choice([n, n + 8, n + 1, -8 * nbytes(n) - 8, -8 * nbytes(n) - 1])
            elif n == 0:
                continue
            else:
                k = d.int(0, n - 1) if d.chance(1, 2) else 8 * d.int(0, (n - 1) // 8)
                if d.chance(1, 4):
                    k = -d.int(1, 8 * nbytes(n)) if d.bool() else -8 * d.int(1, nbytes(n))
            op = [name, k, fl]
            if name == "setindex":
                a = clamp(k, n)
                v = _value(d, max(0, min(8, n - a)), False)
                if v[0] == "int" and a >= n:
                    v = ["int", 1]
                op.append(v)
        elif name.endswith("_self") and name != "set_self":
            if n > 200:
                continue
            op = [name, _part(d, n)]
        elif name in ("slice", "setslice", "set_self", "delslice", "sub", "subset", "nested"):
            if name == "set_self" and n > 200:
                continue
            p, q, a, b = _slice(d, n)
            op = [name, a, b, fl]
            if name == "set_self":
                op.append(_part(d, n))
            elif name == "setslice":
                op.append(_value(d, q - p))
            elif name == "subset":
                if q == p:
                    continue
                op.append(d.uint(min(8, q - p)))
            elif name == "nested":
                m = 8 * nbytes(n)
                p = d.int(0, m)
                op = [name, p, d.int(p, m), fl]
        elif name == "insert":
            op = [name, _pos(d, n, d.int(0, n)), fl, _value(d, 8)]
        elif name == "append":
            op = [name, _value(d, 8)]
        elif name in ("extend", "iadd"):
            v = _value(d, 8 * d.int(0, 4))
            if v[0] in ("int", "none", "float", "object") or value_bits(v, 8) is None:
                v = ["bytes", d.bytes(0, 3)]
            op = [name, v]
        elif name in ("add", "radd"):
            off = d.int(0, 9)
            m = d.int(0, 30)
            op = [name, [d.choice(["view", "array"]), d.bytes(nbytes(off + m), nbytes(off + m)), off, off + m]]
        elif name == "zfill":
            op = [name, max(0, n + d.int(-9, 30)), fl]
        elif name in ("contains", "count", "find", "remove"):
            op = [name, d.int(0, 255) if not n or d.bool() else to_bytes(bits)[d.int(0, nbytes(n) - 1)]]
        elif name == "reverse":
            if n % 8:
                continue
            op = [name]
        else:
            op = [name]
        ops.append(op)
        if name in WRITES and name not in ("sub", "subset", "add", "radd", "add_self"):
            new = apply(bits, op)
            if new is not None:
                bits = new
    return dict(kind=kind, data=data, start=start, stop=stop, src=d.choice(["bytearray", "bytearray", "bytes", "bytes", "memory", "array"]) if kind == "view"
                else "bytearray", ops=ops)


def classify(case):
    labels = set(op[0] for op in case["ops"])
    labels.add(case["kind"])
    if case["start"] % 8:
        labels.add("unaligned-start")
    if case["stop"] is not None and case["stop"] % 8:
        labels.add("unaligned-stop")
    return labels, len(case["data"]) > 0 and len(case["ops"]) > 0


# ------------------------------------------------------------------ check
def off(e, fl):
    if e is None:
        return None
    return e // 8 if e % 8 == 0 and fl else e / 8.0


def make_value(v, sources=None):
    """sources: gets (byte array behind a view, its bytes)"""
    from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray
    if v[0] == "view":
        data = bytearray(v[1]) if v[3] % 2 else v[1]
        if sources is not None:
            sources.append((data, bytes(v[1])))
        return BitView(data, v[2] / 8.0, v[3] / 8.0)
    if v[0] == "array":
        return BitAwareByteArray(bytearray(v[1]), v[2] / 8.0, v[3] / 8.0)
    if v[0] == "bytearray":
        return bytearray(v[1])
    if v[0] == "gen":
        return (x for x in v[1])
    if v[0] == "none":
        return None
    if v[0] == "float":
        return 1.5
    return v[1]


def itself(v, op):
    from infi.instruct.buffer.io_buffer import BitView
    return v if op[-1] is None else BitView(v, op[-1][0] / 8.0, op[-1][1] / 8.0)


def verify(v, bits, what):
    n = len(bits)
    expect_same(call("length", v.length), n / 8.0, "%s: length()", what)
    expect_same(call("len", len, v), nbytes(n), "%s: len()", what)
    expect_same(bytes(call("to_bytes", v.to_bytes)), to_bytes(bits), "%s: to_bytes()", what)


def check(case):
    from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray
    data, start, stop = case["data"], case["start"], case["stop"]
    src = {"bytearray": bytearray, "bytes": bytes, "memory": lambda b: memoryview(bytearray(b)), "array": lambda b: array("B", b)}[case["src"]](data)
    cls = BitView if case["kind"] == "view" else BitAwareByteArray
    if stop is None:
        v = call("create", cls, src) if start == 0 else call("create", cls, src, start / 8.0)
    else:
        v = call("create", cls, src, start / 8.0, stop / 8.0)
    allbits = to_bits(data)
    bits = allbits[start:stop]
    end = len(allbits) if stop is None else stop
    resized = False
    copies, sources = [], []
    verify(v, bits, "new")
    for i, op in enumerate(case["ops"]):
        what = "after %r" % (case["ops"][:i + 1],) if i < 4 else "op %d %r" % (i, op)
        name, n = op[0], len(bits)
        if name in ("index", "pop", "delindex"):
            k = op[1]
            key = off(k, op[2])
            if name == "index":
                f = lambda: v[key]
            elif name == "pop":
                f = lambda: v.pop(key)
            else:
                f = lambda: v.__delitem__(key)
            if k >= n or k < -8 * nbytes(n):
                must_raise("%s [%r] of %d bits" % (name, key, n), IndexError, f)
            else:
                r = call(what, f)
                a = clamp(k, n)
                if name != "delindex":
                    expect_same(r, number(bits[a:a + 8]), "%s: value", what)
                if name != "index":
                    bits = bits[:a] + bits[a + 8:]
                    resized = True
        elif name == "slice":
            a, b = span(op, n)
            s = call(what, lambda: v[off(op[1], op[3]):off(op[2], op[3])])
            verify(s, bits[a:b], what)
            expect_same(call("to_bitstr", s.to_bitstr), "".join(str(x) for x in reversed(bits[a:b])), "%s: to_bitstr", what)
            expect_same(bytes(call("to_bytearray", s.to_bytearray)), to_bytes(bits[a:b]), "%s: to_bytearray", what)
            copies.append((s, bits[a:b], what))
        elif name == "iter":
            expect_same(call(what, lambda: list(v)), list(to_bytes(bits)), "iteration")
        elif name == "bitstr":
            expect_same(call(what, v.to_bitstr), "".join(str(x) for x in reversed(bits)), "to_bitstr")
        elif name == "bytearray":
            r = call(what, v.to_bytearray)
            expect(isinstance(r, bytearray), "to_bytearray gave %s", type(r))
            expect_same(bytes(r), to_bytes(bits), "to_bytearray")
        elif name == "contains":
            expect_same(call(what, lambda: op[1] in v), op[1] in to_bytes(bits), what)
        elif name == "count":
            expect_same(call(what, lambda: v.count(op[1])), list(to_bytes(bits)).count(op[1]), what)
        elif name == "find":
            vals = list(to_bytes(bits))
            if op[1] in vals:
                expect_same(call(what, lambda: v.index(op[1])), vals.index(op[1]), what)
            else:
                must_raise(what, ValueError, v.index, op[1])
        elif name == "reversed":
            # documented by Sequence as v[len-1], ..., v[0]
            expect_same(call(what, lambda: list(reversed(v))), list(to_bytes(bits))[::-1], what)
        elif name == "nested":
            w = call(what, lambda: BitView(v)[op[1] / 8.0:op[2] / 8.0])
            padded = bits + [0] * (8 * nbytes(n) - n)
            expect_same(bytes(call("to_bytes", w.to_bytes)), to_bytes(padded[op[1]:op[2]]), what)
        elif name in ("sub", "subset"):
            a, b = span(op, n)
            s = call(what, lambda: v[off(op[1], op[3]):off(op[2], op[3])])
            if name == "subset":
                call(what, lambda: s.__setitem__(0, op[4]))
                w = min(8, b - a)
                copies.append((s, int_bits(op[4], w) + bits[a + w:b], what))
            else:
                copies.append((s, bits[a:b], what))
        elif name == "add_self":
            s = call(what, lambda: v + itself(v, op))
            verify(s, apply(bits, op), what + " sum")
            copies.append((s, apply(bits, op), what))
        elif name in ("add", "radd"):
            other = make_value(op[1], sources)
            obits = value_bits(op[1], 8)
            s = call(what, (lambda: v + other) if name == "add" else (lambda: other + v))
            verify(s, apply(bits, op), what + " sum")
            verify(other, obits, what + " other operand")
            copies.append((s, apply(bits, op), what))
            copies.append((other, obits, what))
        else:
            new = apply(bits, op)
            if name == "setslice":
                f = lambda: v.__setitem__(slice(off(op[1], op[3]), off(op[2], op[3])), make_value(op[4], sources))
            elif name == "setindex":
                f = lambda: v.__setitem__(off(op[1], op[2]), make_value(op[3]))
            elif name == "delslice":
                f = lambda: v.__delitem__(slice(off(op[1], op[3]), off(op[2], op[3])))
            elif name == "insert":
                f = lambda: v.insert(off(op[1], op[2]), make_value(op[3]))
            elif name == "append":
                f = lambda: v.append(make_value(op[1]))
            elif name == "extend":
                f = lambda: v.extend(make_value(op[1], sources))
            elif name == "extend_self":
                f = lambda: v.extend(itself(v, op))
            elif name == "iadd_self":
                f = lambda: v.__iadd__(itself(v, op))
            elif name == "set_self":
                f = lambda: v.__setitem__(slice(off(op[1], op[3]), off(op[2], op[3])), itself(v, op))
            elif name == "iadd":
                f = lambda: v.__iadd__(make_value(op[1], sources))
            elif name == "zfill":
                f = lambda: v.zfill(off(op[1], op[2]))
            elif name == "clear":
                f = v.clear
            elif name == "remove":
                f = lambda: v.remove(op[1])
            else:
                f = v.reverse
            if new is None:
                must_raise(what, Exception, f)
            else:
                r = call(what, f)
                if name in ("iadd", "iadd_self"):
                    expect(r is v, "%s: += gave another object", what)
                resized = resized or len(new) != n
                bits = new
        verify(v, bits, what)
        if case["src"] == "bytearray":
            now = to_bits(src)
            expect(now[:start] == allbits[:start], "%s: bits before the view changed: %r", what, bytes(src))
            if not resized:
                expect(now[end:] == allbits[end:], "%s: bits after the view changed: %r", what, bytes(src))
        for s, b in sources:
            expect_same(bytes(s), b, "%s: the bytes behind another operand", what)
        for s, b, w in copies:
            verify(s, b, "slice or operand taken %s, later" % w)
