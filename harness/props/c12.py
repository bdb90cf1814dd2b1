"""C12: bytes_ref / .bits expressions denote exactly the bits they say."""
from common import call, expect, expect_same, must_raise


# expression:  ["i", n, ref]  ["s", a, b|None, refa, refb]  ["l", [byte expr...], tuple?]  ["b", byte expr, sel]  ["+", e1, e2]
# sel:         ["i", n, ref]  ["s", a|None, b|None, refa, refb]  ["l", [sel...], tuple?]
def _byte(d, depth, allow_open, big):
    k = d.int(0, 5 if depth > 0 else 3)
    top = 300 if big else 6
    if k <= 1:
        return ["i", d.int(0, top), d.chance(1, 4)]
    if k <= 3:
        a = d.int(0, top)
        if d.chance(1, 8):
            a = None
        if allow_open and d.chance(1, 3):
            return ["s", a, None, a is not None and d.chance(1, 5), False]
        return ["s", a, (a or 0) + d.int(0, 5), a is not None and d.chance(1, 5), d.chance(1, 5)]
    n = d.int(1, 4)
    return ["l", [_byte(d, depth - 1, allow_open and i == n - 1, big) for i in range(n)], d.bool()]


def _sel(d, depth, size, is_open, allow_open):
    k = d.int(0, 6 if depth > 0 else 5)
    top = size + (20 if is_open else 0)
    if k <= 1:
        n = d.int(0, max(0, top - 1))
        if d.chance(1, 10):
            n = top + d.int(0, 3)
        return ["i", n, d.chance(1, 4)]
    if k <= 5:
        a = d.int(0, max(0, top))
        b = d.int(a, max(a, top))
        if d.chance(1, 10):
            b = top + d.int(1, 9)
        if d.chance(1, 20):
            a = min(a + d.int(0, 12), b)
        if d.chance(1, 8):
            a = None
        if d.chance(1, 5) and (allow_open or not is_open):
            b = None
        return ["s", a, b, a is not None and d.chance(1, 5), b is not None and d.chance(1, 5)]
    n = d.int(1, 4)
    return ["l", [_sel(d, depth - 1, size, is_open, allow_open and i == n - 1) for i in range(n)], d.bool()]


def _expr(d, depth, allow_open, big):
    k = d.int(0, 7)
    if depth > 0 and k >= 6:
        return ["+", _expr(d, depth - 1, False, big), _expr(d, depth - 1, allow_open, big)]
    if k >= 2:
        parent = _byte(d, 2, True, big)
        fin, tail = denote(parent)
        return ["b", parent, _sel(d, 1, len(fin), tail is not None, allow_open)]
    return _byte(d, 2, allow_open, big)


def gen(d):
    big = d.chance(1, 8)
    return {"expr": _expr(d, 2, True, big), "data": d.bytes(0, 24), "value": d.uint(96)}


class Refused(Exception):
    pass


class Either(Exception):
    """an empty selection beyond the end: may be refused, may be empty"""


def denote(e):
    """-> (finite list of bit positions, start of an infinite tail or None)"""
    if e[0] == "i":
        return list(range(e[1] * 8, e[1] * 8 + 8)), None
    if e[0] == "s":
        a = e[1] or 0
        if e[2] is None:
            return [], a * 8
        return list(range(a * 8, e[2] * 8)), None
    if e[0] == "l":
        return cat([denote(x) for x in e[1]])
    if e[0] == "+":
        return cat([denote(e[1]), denote(e[2])])
    fin, tail = denote(e[1])
    return select(fin, tail, e[2])


def cat(parts):
    fin, tail = [], None
    for f, t in parts:
        assert tail is None
        fin = fin + f
        tail = t
    return fin, tail


def at(fin, tail, n):
    if n < len(fin):
        return fin[n]
    if tail is None:
        raise Refused()
    return tail + n - len(fin)


def select(fin, tail, sel):
    if sel[0] == "i":
        return [at(fin, tail, sel[1])], None
    if sel[0] == "s":
        a = sel[1] or 0
        if tail is None and a > len(fin):
            if a == sel[2]:
                raise Either()
            raise Refused()
        if sel[2] is None:
            return fin[a:], (None if tail is None else tail + max(0, a - len(fin)))
        return [at(fin, tail, n) for n in range(a, sel[2])], None
    return cat([select(fin, tail, s) for s in sel[1]])


def build(e, parts=None):
    """parts: gets every (expression, reference) made on the way"""
    from infi.instruct.buffer import bytes_ref
    if e[0] == "+":
        r = build(e[1], parts) + build(e[2], parts)
    elif e[0] == "b":
        r = build(e[1], parts).bits[index(e[2])]
    else:
        r = bytes_ref[index(e)]
    if parts is not None:
        parts.append((e, r))
    return r


def index(e):
    from infi.instruct.buffer.reference import Reference, NumericCastReference

    def ref(v, on):
        return NumericCastReference(Reference.to_ref(v)) if on else v
    if e[0] == "i":
        return ref(e[1], e[2])
    if e[0] == "s":
        if len(e) == 3:
            return slice(e[1], e[2])
        return slice(ref(e[1], e[3]), ref(e[2], e[4]))
    seq = [index(x) for x in e[1]]
    return tuple(seq) if e[2] else seq


def kinds(e, out):
    out.add(e[0])
    for x in e[1:]:
        if isinstance(x, list) and x and isinstance(x[0], str):
            kinds(x, out)
        elif isinstance(x, list):
            for y in x:
                kinds(y, out)
    return out


def classify(case):
    k = kinds(case["expr"], set())
    labels = set("node-" + x for x in k)
    try:
        fin, tail = denote(case["expr"])
        labels.add("open" if tail is not None else "closed")
        if any(b != a + 1 for a, b in zip(fin, fin[1:])):
            labels.add("scattered")
        if len(fin) != len(set(fin)):
            labels.add("overlapping")
    except Refused:
        labels.add("refused")
    except Either:
        labels.add("empty-beyond")
    return labels, len(k) > 1 or "s" in k


def flatten(result):
    fin, tail = [], None
    for r in result:
        expect(tail is None, "a range follows an open range in %r", list(result))
        a, b = r.start * 8, r.stop
        expect(a == int(a), "range not on a bit boundary: %r", r)
        if b is None:
            tail = int(a)
        else:
            expect(b * 8 == int(b * 8), "range not on a bit boundary: %r", r)
            fin.extend(range(int(a), int(b * 8)))
    return norm(fin, tail)


def norm(fin, tail):
    fin = list(fin)
    while tail is not None and fin and fin[-1] == tail - 1:
        tail -= 1
        fin.pop()
    return fin, tail


def check(case):
    from infi.instruct.buffer import Buffer, le_uint_field, bytearray_field
    from infi.instruct.buffer.reference import Context
    e = case["expr"]
    try:
        want = norm(*denote(e))
    except Refused:
        must_raise("a selection outside its parent: %r" % (e,), Exception, lambda: list(build(e).deref(Context())))
        # and through a field, at whatever point the position is first needed
        def through_field():
            cls = type(Buffer)("T", (Buffer,), {"f": le_uint_field(where=build(e))})
            return cls(f=0).pack()
        must_raise("a field placed by a selection outside its parent", Exception, through_field)
        return
    except Either:
        return
    parts = []
    ref = call("building %r" % (e,), build, e, parts)
    result = call("resolving %r" % (e,), ref.deref, Context())
    got = flatten(result)
    expect(got == want, "%r resolves to bits %r, expected %r", e, got, want)
    again = flatten(call("resolving again", ref.deref, Context()))
    expect(again == want, "%r resolves differently the second time: %r", e, again)
    check_parts(parts)
    fin, tail = want
    expect_same(result.is_open(), tail is not None, "is_open of %r", e)
    if tail is None:
        expect_same(result.byte_length(), len(fin) / 8.0, "byte_length of %r", e)

    # the same bits, seen through a field
    n = len(fin)
    if tail is not None or not 1 <= n <= 96 or len(set(fin)) != n:
        return
    size = max(fin) // 8 + 1
    data = (case["data"] * (size // max(1, len(case["data"])) + 1) + b"\0" * size)[:size] if case["data"] else bytes(size)
    number = sum(((data[p // 8] >> (p % 8)) & 1) << i for i, p in enumerate(fin))
    value = case["value"] & ((1 << n) - 1)
    image = bytearray(size)
    for i, p in enumerate(fin):
        image[p // 8] |= ((value >> i) & 1) << (p % 8)
    cls = call("class", lambda: type(Buffer)("T", (Buffer,), {"f": le_uint_field(where=build(e))}))
    o = cls()
    call("unpack", o.unpack, data)
    expect_same(o.f, number, "int unpacked at %r from %r", e, data)
    compare(call("pack", cls(f=value).pack), image, "int %d packed at %r" % (value, e))
    if n % 8 == 0:
        cls = call("class", lambda: type(Buffer)("T", (Buffer,), {"f": bytearray_field(where=build(e))}))
        o = cls()
        call("unpack", o.unpack, data)
        expect_same(bytes(o.f), number.to_bytes(n // 8, "little"), "bytes unpacked at %r", e)
        packed = call("pack", cls(f=bytearray(value.to_bytes(n // 8, "little"))).pack)
        compare(packed, image, "bytes packed at %r" % (e,))


def check_parts(parts):
    """what went into an expression still denotes what it did, also after being combined again"""
    from infi.instruct.buffer.reference import Context

    def verify(x, r, what):
        try:
            d = norm(*denote(x))
        except (Refused, Either):
            return None
        got = flatten(call("resolving a part", r.deref, Context()))
        expect(got == d, "%s %r resolves to bits %r, expected %r", what, x, got, d)
        return d
    for x, r in parts[:-1]:
        verify(x, r, "a part of an expression")
    for (x, a), (y, b) in list(zip(parts, parts[1:]))[-2:]:
        e = ["+", x, y]
        try:
            if denote(x)[1] is not None:
                continue
            denote(y)
        except (Refused, Either):
            continue
        verify(e, call("adding", lambda: a + b), "a sum of two parts")
        verify(x, a, "a summand")
        verify(y, b, "a summand")
        verify(["+", x, x], call("adding", lambda: a + a), "a doubled part")
        verify(x, a, "a part after doubling it")


def compare(packed, image, what):
    # an empty range past the last bit may or may not extend the buffer with zeros
    packed = bytes(packed)
    expect_same(packed[:len(image)], bytes(image), what)
    expect(not any(packed[len(image):]), "%s: bits set outside the position: %r", what, packed)
