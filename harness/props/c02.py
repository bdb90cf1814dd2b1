"""C02: unpacking decodes exactly the declared bits of any input."""
from array import array
from common import call, expect, expect_same, short
import bufstatic as bs

KINDS = ["bytes", "bytearray", "view", "view-middle", "view-unaligned", "bit-array", "memory", "view-memory", "view-view", "array"]


def gen(d):
    big = d.chance(1, 8)
    layout = bs.gen_layout(d, 1, 6, big=big)
    for f in layout["fields"]:  # fewer elements wanted than there is room for
        if f["t"].get("n") and d.chance(1, 6):
            f["t"]["nn"] = d.int(0, f["t"]["count"])
    size = bs.layout_size(layout)
    pattern = d.bytes(1, 16)
    return dict(layout=layout, values=bs.gen_values(d, layout), other=bs.gen_values(d, layout),
                noise=pattern, noise2=d.bytes(1, 16), trailing=d.bytes(0, 5), kind=d.choice(KINDS), kind2=d.choice(KINDS),
                shift=d.int(1, 7), raw=d.bytes(min(size, 64), min(size, 64)), dirty=d.choice(["fresh", "packed", "assigned"]))


def classify(case):
    l = bs.labels(case["layout"])
    l.add("input-" + case["kind"])
    l.add("object-" + case["dirty"])
    return l, len(case["layout"]["fields"]) > 1 or "split" in l or "unaligned" in l


def stretch(pattern, size):
    return (pattern * (size // len(pattern) + 1))[:size] if size else b""


def make_input(kind, data, shift):
    """-> (input object, function returning its current content for comparison, mutable backing or None)"""
    from infi.instruct.buffer.io_buffer import BitView, BitAwareByteArray
    if kind == "bytes":
        return data, None
    if kind == "bytearray":
        b = bytearray(data)
        return b, b
    if kind == "view":
        b = bytearray(data)
        return BitView(b), b
    if kind == "bit-array":
        b = bytearray(data)
        return BitAwareByteArray(b), b
    if kind == "memory":
        b = bytearray(data)
        return memoryview(b), b
    if kind == "array":
        b = array("B", data)
        return b, b
    if kind == "view-memory":
        b = bytearray(b"\x5a" * 2 + data + b"\xa5" * 2)
        return BitView(memoryview(b)[1:-1], 1, 1 + len(data)), b
    if kind == "view-view":
        b = bytearray(b"\x5a" * 2 + data + b"\xa5" * 2)
        return BitView(BitView(b, 1, len(b)), 1, 1 + len(data)), b
    if kind == "view-middle":
        b = bytearray(b"\x5a" * 3 + data + b"\xa5" * 2)
        return BitView(b, 3, 3 + len(data)), b
    b = bytearray(bs.from_bits([1, 0] * 8 + [1] * shift + bs.to_bits(data) + [1] * (8 - shift)))
    return BitView(b, 2 + shift / 8.0, 2 + shift / 8.0 + len(data)), b


def check(case):
    layout, values, other = case["layout"], case["values"], case["other"]
    real = call("declaring the class", bs.Real, layout)
    size = bs.layout_size(layout)
    o = call("constructor", real.cls) if case["dirty"] == "fresh" else call("constructor", real.make, other)
    if case["dirty"] == "packed":
        call("pack", o.pack)

    def unpack(obj, vals, noise, trailing, kind, what):
        data = bs.pack(layout, vals, stretch(noise, size)) + trailing
        inp, backing = make_input(kind, data, case["shift"])
        before = bytes(backing) if backing is not None else None
        call(what, obj.unpack, inp)
        real.verify(obj, vals, "%s from %s %s" % (what, kind, short(data)))
        if backing is not None:
            expect(bytes(backing) == before, "%s modified its input: %s -> %s", what, short(before), short(bytes(backing)))
        return backing

    backing = unpack(o, values, case["noise"], case["trailing"], case["kind"], "unpack")
    if backing is not None:
        for i in range(len(backing)):
            backing[i] ^= 0xff
        real.verify(o, values, "values after the input was overwritten")
    # the same bits among other surroundings, other input type, new object
    o2 = call("constructor", real.cls)
    unpack(o2, values, case["noise2"], b"", case["kind2"], "unpack of a new object")
    # the object reused for other data; values taken earlier stay
    kept = dict((f["name"], getattr(o, f["name"])) for f in layout["fields"])
    unpack(o, other, case["noise"], case["trailing"] + b"x", case["kind2"], "unpack of a used object")
    for f in layout["fields"]:
        real.verify_field(f, kept[f["name"]], values[f["name"]], "value kept from before the object was reused")
    real.verify(o2, values, "another object, later")
    # changing unpacked values of one object does not reach the others
    for f in layout["fields"]:
        v = getattr(o, f["name"])
        if isinstance(v, (list, bytearray)):
            del v[:]
    real.verify(o2, values, "another object after values were emptied")
    if bs.canonical(layout):
        data = stretch(case["raw"], size)
        o3 = call("constructor", real.cls)
        call("unpack", o3.unpack, data)
        expect_same(bytes(call("pack", o3.pack)), data, "pack of what was unpacked")
