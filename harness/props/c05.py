"""C05: static size, instance size, size returned by unpack and number of packed bytes agree.

A class (fixed layout, possibly of fractional size, or dynamic; possibly with a declared size) is measured alone and
inside containers: a counted list and a nested field, both followed by a further field.
"""
from common import call, expect, expect_same, short, Discard, Violation
import bufdyn as bd
import bufstatic as bs


def gen(d):
    case = dict(declared=None, small=False, trailing=d.bytes(0, 5), count=d.int(0, 4), z=d.int(0, 65535), gap=d.choice([0, 0, 1, 5]), form=d.int(0, 3))
    if d.chance(1, 2):
        k = d.int(0, 3)
        if k == 0:  # bit-sized
            types = [{"k": "int", "bits": d.int(1, 12), "sign": "unsigned", "endian": "native", "f": True} for _ in range(d.int(1, 3))]
            case["layout"] = bs.gen_layout(d, 0, types=types, gaps=d.bool())
        else:
            case["layout"] = bs.gen_layout(d, 1, 4)
        case["layout"]["byte_size"] = None
        sub = dict(case["layout"])
        if d.chance(1, 3):
            case["declared"] = d.int(0, 6)
        make = lambda: bs.gen_values(d, sub)
    else:
        case["spec"] = bd.gen_spec(d, 1, True)
        if d.chance(1, 3) and not any(p["p"] in ("total", "tail", "trailer") for p in case["spec"]["parts"]):
            case["declared"] = d.int(0, 6)
        make = lambda: bd.gen_values(d, case["spec"])
    if d.chance(1, 4):
        size = d.int(1, 9)
        case["clip"] = [d.int(0, 4), size, bytes(97 + d.int(0, 3) for _ in range(d.int(0, size)))]
    case["small"] = d.chance(1, 5)
    case["values"] = make()
    case["second"] = make()
    case["items"] = [make() for _ in range(case["count"])]
    return case


def classify(case):
    static = "layout" in case
    l = ["static" if static else "dynamic"]
    if static:
        n = bs.natural_bits(case["layout"])
        l.append("fractional" if n % 8 else "whole")
    else:
        l += sorted(bd.labels(case["spec"]))
    if case["declared"] is not None:
        l.append("declared-larger" if case["declared"] else "declared-exact")
    if case["small"]:
        l.append("declared-too-small")
    l.append("items-%d" % case["count"])
    return l, not static or bs.natural_bits(case["layout"]) % 8 != 0 or case["declared"] is not None or case["count"] > 0


def check(case):
    from infi.instruct.buffer import Buffer
    static = "layout" in case
    second = case.get("second", case["values"])
    if static:
        layout = case["layout"]
        natural = (bs.natural_bits(layout) + 7) // 8
        encode = lambda v: bs.pack(layout, v)
        make_class = lambda size: bs.Real(dict(layout, byte_size=size))
    else:
        spec = case["spec"]
        if not all(bd.representable(spec, v) for v in [case["values"], second] + case["items"]):
            raise Discard()
        encode = lambda v: bd.encode(spec, v)
        make_class = lambda size: bd.Real(spec, extra={"byte_size": size} if size is not None else None)
    everything = [encode(v) for v in [case["values"]] + case["items"]]
    other = encode(second)
    declared = None if case["declared"] is None else max(len(x) for x in everything + [other]) + case["declared"]
    if declared == 0:
        declared = None
    padded = lambda x: x + b"\0" * (declared - len(x)) if declared is not None else x
    real = call("declaring the class", make_class, declared)
    cls = real.cls
    if declared is not None:
        expect_same(cls.byte_size, declared, "byte_size of a class that declares it")
    elif static:
        expect(cls.byte_size == bs.natural_bits(layout) / 8.0, "byte_size is %s, the layout takes %d bits", short(cls.byte_size), bs.natural_bits(layout))
    elif cls.byte_size is not None:
        for x in everything:
            expect_same(-(-cls.byte_size // 1), len(x), "byte_size of the class, against the bytes it packs to")

    o = call("constructor", real.make, case["values"])
    want = padded(everything[0])
    n = call("calc_byte_size", o.calc_byte_size)
    expect(n == len(want) and isinstance(n, int), "calc_byte_size() of %s is %s, but it takes %d bytes", short(case["values"]), short(n), len(want))
    expect_same(bytes(call("pack", o.pack)), want, "pack of %s", short(case["values"]))
    expect_same(call("calc_byte_size after pack", o.calc_byte_size), len(want), "calc_byte_size() after pack")
    # the same object with other values
    for v, x in ((second, padded(other)), (case["values"], want)):
        bs.morph(o, real.make(v))
        expect_same(call("calc_byte_size of a changed object", o.calc_byte_size), len(x), "calc_byte_size() of an object changed to %s", short(v))
        expect_same(bytes(call("pack of a changed object", o.pack)), x, "pack of an object changed to %s", short(v))
        r = call("constructor", real.make, second if v is case["values"] else case["values"])
        call("calc_byte_size", r.calc_byte_size)
        bs.morph(r, real.make(v))
        expect_same(bytes(call("pack of a changed object", r.pack)), x, "pack of an object changed to %s after its size was taken", short(v))
    trailing = case["trailing"] if static or not bd.is_open(spec) else b""
    for data in (want, want + trailing):
        p = call("constructor", cls)
        expect_same(call("unpack", p.unpack, data), len(want), "size returned by unpack of %s", short(data))
        real.verify(p, case["values"], "unpacked")
        expect_same(call("calc_byte_size after unpack", p.calc_byte_size), len(want), "calc_byte_size() of the unpacked object")

    if case["small"] and len(everything[0]) > 1:
        tight = call("declaring a class with a small size", make_class, len(everything[0]) - 1)
        q = call("constructor", tight.make, case["values"])
        try:
            got = q.pack()
        except Exception:
            pass
        else:
            raise Violation("declared size %d is too small for %s, but packing gave %s" % (len(everything[0]) - 1, short(case["values"]), short(got)))

    if "clip" in case:
        clipped(case)
    if not static and bd.is_open(spec):
        return
    contained(case, real, [padded(x) for x in everything])


def contained(case, real, everything):
    import infi.instruct.buffer as B
    z = case["z"]
    zb = z.to_bytes(2, "big")
    count = B.uint_field(where=B.bytes_ref[0], set_before_pack=lambda self: len(self.items))
    items = B.list_field(type=real.cls, n=count, where=B.bytes_ref[1:])
    end = B.be_uint_field(where=B.bytes_ref[B.after_ref(items):B.after_ref(items) + 2])
    Container = type(B.Buffer)("Container", (B.Buffer,), dict(count=count, items=items, end=end))
    c = call("constructor", Container, items=[real.make(v) for v in case["items"]], end=z)
    want = bytes(bytearray([case["count"]])) + b"".join(everything[1:]) + zb
    measure(c, Container, want, "a container of %d" % case["count"], lambda p: (
        expect_same(len(p.items), case["count"], "number of elements"),
        [real.verify(x, v, "element %d" % i) for i, (x, v) in enumerate(zip(p.items, case["items"]))],
        expect_same(p.end, z, "the field after the list")))
    inner = B.buffer_field(type=real.cls, where=B.bytes_ref[1:])
    head = B.uint_field(where=B.bytes_ref[0])
    end2 = B.be_uint_field(where=B.bytes_ref[B.after_ref(inner):B.after_ref(inner) + 2])
    Holder = type(B.Buffer)("Holder", (B.Buffer,), dict(head=head, inner=inner, end=end2))
    h = call("constructor", Holder, head=7, inner=real.make(case["values"]), end=z)
    measure(h, Holder, b"\x07" + everything[0] + zb, "a holder", lambda p: (
        expect_same(p.head, 7, "head"), real.verify(p.inner, case["values"], "inner"), expect_same(p.end, z, "the field after the nested buffer")))
    selected(case, real, everything)


def selected(case, real, everything):
    """elements and a nested buffer that a selector reads, with or without something after each: the size it says counts"""
    import infi.instruct.buffer as B
    gap, form, z = case.get("gap", 0), case.get("form", 0), case["z"]
    cls = real.cls

    def choose(self, buffer, *args, **kwargs):
        if form == 0 and not gap:
            return cls
        if form == 1 and not case["items"]:
            return None
        o = cls()
        n = o.unpack(buffer) + gap
        return (o, n) if form % 2 else [o, n]
    count = B.uint_field(where=B.bytes_ref[0])
    items = B.list_field(type=cls, n=count, unpack_selector=choose, where=B.bytes_ref[1:])
    a = B.after_ref(items)
    inner = B.buffer_field(type=cls, unpack_selector=choose, where=B.bytes_ref[a:])
    b = B.after_ref(inner)
    end = B.be_uint_field(where=B.bytes_ref[b:b + 2])
    Selected = type(B.Buffer)("Selected", (B.Buffer,), dict(a_count=count, items=items, inner=inner, end=end))
    data = bytes(bytearray([case["count"]])) + b"".join(x + b"\xee" * gap for x in everything[1:])
    nothing = form == 1 and not case["items"]
    data += (b"" if nothing else everything[0] + b"\xdd" * gap) + z.to_bytes(2, "big")
    p = call("constructor", Selected)
    n = call("unpack with a selector", p.unpack, data + b"\x77")
    expect_same(len(p.items), case["count"], "number of selected elements")
    for i, (x, v) in enumerate(zip(p.items, case["items"])):
        real.verify(x, v, "selected element %d" % i)
    if nothing:
        expect(p.inner is None, "a selector that returns None left %s", short(p.inner))
    else:
        real.verify(p.inner, case["values"], "the selected buffer")
    expect_same(p.end, z, "the field after selected buffers, with %d bytes after each", gap)
    expect_same(n, len(data), "size returned by unpack with a selector")


def clipped(case):
    """packed at a constant position, read up to where the input ends: unpack says how far it read"""
    import infi.instruct.buffer as B
    at, size, text = case["clip"]
    have = B.input_buffer_length
    stop = B.min_ref(at + size, have) if case["form"] % 2 else B.min_ref(have, at + size)
    kw = dict(where_when_pack=B.bytes_ref[at:at + size], where_when_unpack=B.bytes_ref[at:stop])
    x = B.bytearray_field(**kw) if case["form"] < 2 else B.str_field(encoding="latin-1", padding=b"\0", **kw)
    attrs = dict(x=x)
    if at:
        attrs["head"] = B.uint_field(where=B.bytes_ref[0:at])
    Clipped = type(B.Buffer)("Clipped", (B.Buffer,), attrs)
    plain = lambda v: v.encode("latin-1") if isinstance(v, str) else bytes(v)
    value = text.decode("latin-1") if case["form"] >= 2 else bytearray(text + b"~" * (size - len(text)))
    o = call("constructor", Clipped, x=value, **(dict(head=7) if at else {}))
    want = (b"\x07" + bytes(at - 1) if at else b"") + plain(value) + b"\0" * (size - len(value))
    expect_same(call("calc_byte_size", o.calc_byte_size), at + size, "calc_byte_size() of a class that reads less when there is less")
    expect_same(bytes(call("pack", o.pack)), want, "pack")
    for n in sorted(set([at + 1, at + len(text), at + size - 1, at + size])):
        if n > at:
            p = Clipped()
            expect_same(call("unpack", p.unpack, want[:n]), n, "size returned by unpack of the first %d of %d bytes", n, len(want))
            got = plain(p.x)
            expect_same(got.ljust(n - at, b"\0"), want[at:n], "what was read of the first %d bytes", n)
    p = Clipped()
    expect_same(call("unpack", p.unpack, want + case["trailing"]), at + size, "size returned by unpack with bytes after the end")


def measure(o, cls, want, what, verify):
    expect_same(call("calc_byte_size of " + what, o.calc_byte_size), len(want), "calc_byte_size() of %s", what)
    expect_same(bytes(call("pack of " + what, o.pack)), want, "pack of %s", what)
    p = cls()
    expect_same(call("unpack of " + what, p.unpack, want + b"\x55\xaa"), len(want), "size returned by unpack of %s", what)
    verify(p)
    expect_same(call("calc_byte_size of unpacked " + what, p.calc_byte_size), len(want), "calc_byte_size() of unpacked %s", what)
