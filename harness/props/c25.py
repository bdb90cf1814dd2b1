"""C25: a Buffer used as a part of a Struct behaves as on its own.

A fixed-size buffer class (any layout, also of fractional or declared size, or with hooks and conditions) behind the
adapter, alone, in a field, an optional field or in any kind of array between other fields, over several kinds of stream:
bytes are the model's, values those of unpacking directly, and the stream is left right behind; any input is treated as
unpack treats it.  Buffers without a fixed size can be written and measured, but refuse to be read from a stream; buffers without any bytes
read nothing.
"""
import io
from common import call, expect, expect_same, short, same, Discard, Violation
import bufdyn as bd
import bufstatic as bs
import structmodel as sm
from props import c07


def gen(d):
    kind = d.weighted([(10, "static"), (2, "hooks"), (4, "dynamic"), (1, "empty")])
    case = dict(kind=kind, how=d.choice(["alone", "field", "optional", "fixed", "var", "sum"]), pre=d.int(0, 255), post=d.int(0, 65535),
                tail=d.bytes(0, 4), stream=d.choice(["bytesio", "tell", "notell", "pipe"]), twice=d.bool(), cut=d.int(0, 10 ** 6),
                sz=d.choice(["UBInt8", "ULInt16", "UBInt32"]), context=d.bool())
    if case["how"] == "sum" and case["sz"] == "UBInt8":
        case["sz"] = "UBInt16"
    n = d.int(0, 3) if case["how"] in ("fixed", "var", "sum") else 1
    if kind == "static":
        if d.chance(1, 3):
            types = [{"k": "int", "bits": d.int(1, 12), "sign": "unsigned", "endian": "native", "f": True} for _ in range(d.int(1, 3))]
            case["layout"] = bs.gen_layout(d, 0, types=types, gaps=d.bool())
        else:
            case["layout"] = bs.gen_layout(d, 1, 4)
        case["values"] = [bs.gen_values(d, case["layout"]) for _ in range(n)]
        size = bs.layout_size(case["layout"])
        case["raw"] = [d.bytes(size, size) for _ in range(n)]
        case["second"] = [bs.gen_values(d, case["layout"]) for _ in range(n)]
    elif kind == "empty":
        case["fields"] = d.list(lambda: d.choice(["bytes", "str", "list", "unsized"]), 0, 3)
        case["declared"] = d.bool()
        case["raw"] = [b""] * n
    elif kind == "hooks":
        case["c07"] = c07.gen(d, False)
        case["c07"]["dynamic"] = False
        case["raw"] = [d.bytes(60, 60) for _ in range(n)]
    else:
        case["spec"] = bd.gen_spec(d, 1, True)
        case["values"] = [bd.gen_values(d, case["spec"]) for _ in range(n)]
        case["second"] = [bd.gen_values(d, case["spec"]) for _ in range(n)]
    return case


def classify(case):
    l = {case["kind"], "how-" + case["how"], case["stream"]}
    if case["kind"] == "static":
        n = bs.natural_bits(case["layout"])
        l.add("declared" if case["layout"].get("byte_size") is not None else "fractional" if n % 8 else "whole")
    return l, case["how"] != "alone" or case["kind"] != "static" or "fractional" in l or "declared" in l


class Outer(object):
    """the struct around the adapter"""

    def __init__(self, case, adapter, n):
        import infi.instruct as I
        from infi.instruct.struct.optional import OptionalField
        from infi.instruct import array
        how = case["how"]
        self.case, self.how, self.n = case, how, n
        size = getattr(I, case["sz"])
        if how == "field":
            part = I.Field("part", adapter)
        elif how == "optional":
            part = OptionalField("part", adapter, lambda obj, stream, context: obj.pre & 1)
        elif how == "fixed":
            part = I.FixedSizeArray("part", n, adapter)
        elif how == "var":
            part = I.VarSizeArray("part", size, adapter)
        else:
            part = I.SumSizeArray("part", size, adapter)
        self.cls = type(I.Struct)("Outer", (I.Struct,), {"_fields_": [I.UBInt8("pre"), part, I.UBInt16("post")]})

    def wrap(self, objs):
        part = objs if self.how in ("fixed", "var", "sum") else objs[0]
        if self.how == "optional" and not self.case["pre"] & 1:
            part = None
        return call("constructor", self.cls, pre=self.case["pre"], part=part, post=self.case["post"])

    def bytes(self, chunks):
        body = b"".join(chunks)
        if self.how == "optional" and not self.case["pre"] & 1:
            body = b""
        head = b""
        if self.how in ("var", "sum"):
            head = sm.enc_num(self.case["sz"], len(chunks) if self.how == "var" else len(body))
        return bytes([self.case["pre"]]) + head + body + sm.enc_num("UBInt16", self.case["post"])

    def parts(self, o):
        expect_same((o.pre, o.post), (self.case["pre"], self.case["post"]), "the fields around the buffer")
        if self.how in ("fixed", "var", "sum"):
            expect(isinstance(o.part, list), "the array is %s", short(o.part))
            return o.part
        if self.how == "optional" and not self.case["pre"] & 1:
            expect(o.part is None, "the absent part is %s", short(o.part))
            return []
        return [o.part]


def context(case):
    from infi.instruct.base import ReadOnlyContext
    return [ReadOnlyContext({"x": 1})] if case["context"] else []


def open_stream(case, data):
    return {"bytesio": io.BytesIO, "tell": sm.TellStream, "notell": sm.Stream, "pipe": sm.PipeStream}[case["stream"]](data)


def rest(stream):
    return stream.read(1 << 20)


def check(case):
    from infi.instruct.buffer import compat
    kind = case["kind"]
    if kind == "static":
        real = call("declaring the class", bs.Real, case["layout"])
        cls, size = real.cls, bs.layout_size(case["layout"])
        make, encode, verify = real.make, lambda v: bs.pack(case["layout"], v), real.verify
    elif kind == "dynamic":
        if not all(bd.representable(case["spec"], v) for v in case["values"]):
            raise Discard()
        real = call("declaring the class", bd.Real, case["spec"])
        cls, size = real.cls, real.cls.byte_size
        make, encode, verify = real.make, lambda v: bd.encode(case["spec"], v), real.verify
        if size is not None:
            raise Discard()
    elif kind == "empty":
        cls = call("declaring the class", empty_class, case)
        size = 0
        expect_same(cls.byte_size, 0, "size of a buffer without bytes")
        full = lambda: call("constructor", cls, **dict(("f%d" % i, EMPTY[k]()) for i, k in enumerate(case["fields"])))
        adapter = compat.buffer_to_struct_adapter(cls)
        check_write(case, adapter, [full() for _ in case["raw"]], case["raw"])
        check_read(case, adapter, cls, case["raw"], lambda i, o: compare(cls, o, full(), "a buffer without bytes"))
        return
    else:
        cls = call("declaring the class", lambda: c07.build(case["c07"])[0])
        size = cls.byte_size
        if size is None:
            raise Discard()
        size = int(-(-size // 1))
        case["raw"] = [x[:size] for x in case["raw"]]
    adapter = call("buffer_to_struct_adapter", compat.buffer_to_struct_adapter, cls)
    if kind == "dynamic":
        return check_dynamic(case, adapter, cls, make, encode, verify)
    if kind == "static":
        objs = [make(v) for v in case["values"]]
        chunks = [encode(v) for v in case["values"]]
        check_write(case, adapter, objs, chunks)
        check_changed(case, adapter, make, encode)
        check_longer(case, adapter, cls, size, [dict((f["name"], real.value(f, v[f["name"]])) for f in case["layout"]["fields"]) for v in case["values"]])
        check_read(case, adapter, cls, chunks, lambda i, o: verify(o, case["values"][i], "buffer %d read through the adapter" % i))
    # any input
    direct = []
    for raw in case["raw"]:
        direct.append(outcome(lambda: unpacked(cls, raw)))
    good = [i for i, r in enumerate(direct) if r[0] == "ok"]
    if len(good) == len(direct):
        check_read(case, adapter, cls, case["raw"], lambda i, o: compare(cls, o, direct[i][1], "buffer %d" % i))
    else:
        for i, raw in enumerate(case["raw"]):
            for what, fn in (("create_from_string", lambda: adapter.create_from_string(raw)),
                             ("create_from_stream", lambda: adapter.create_from_stream(open_stream(case, raw + b"xyz"), *context(case)))):
                got = outcome(fn)
                expect(got[0] == direct[i][0], "%s(%s) %s, but unpack %s", what, short(raw), short(got), short(direct[i]))
    # truncated input
    for raw in case["raw"][:1]:
        part = raw[:case["cut"] % (len(raw) + 1)]
        want = outcome(lambda: unpacked(cls, part))
        got = outcome(lambda: adapter.create_from_stream(open_stream(case, part), *context(case)))
        expect(got[0] == want[0], "reading from a stream of %s %s, but unpack %s", short(part), short(got), short(want))
        if got[0] == "ok":
            compare(cls, got[1], want[1], "buffer read from a short stream")


EMPTY = {"bytes": bytearray, "str": str, "list": list, "unsized": list}


def empty_class(case):
    """a Buffer that takes no room at all"""
    import infi.instruct.buffer as B
    where = B.bytes_ref[0:0]
    make = {"bytes": lambda: B.bytearray_field(where=where), "str": lambda: B.str_field(where=where),
            "list": lambda: B.list_field(type=B.b_uint16, where=where, n=0), "unsized": lambda: B.list_field(type=B.b_uint16, where=where)}
    attrs = dict(("f%d" % i, make[k]()) for i, k in enumerate(case["fields"]))
    if case["declared"]:
        attrs["byte_size"] = 0
    return type(B.Buffer)("Empty", (B.Buffer,), attrs)


def outcome(fn):
    try:
        return "ok", fn()
    except Exception as e:
        return "raised", type(e).__name__


def unpacked(cls, data):
    o = cls()
    o.unpack(data)
    return o


def names_of(cls):
    from props import c23
    return c23.field_names(cls)


def compare(cls, got, want, what):
    expect(type(got) is cls, "%s is %s", what, short(got))
    expect_same(call("repr", repr, got), repr(want), what)
    for n in names_of(cls):
        a, b = getattr(got, n), getattr(want, n)
        if not isinstance(b, list) and not hasattr(b, "pack"):  # (those are compared by their text)
            expect(same(a, b) and type(a) is type(b), "%s: %s is %s instead of %s", what, n, short(a), short(b))


def check_changed(case, adapter, make, encode):
    """a buffer measured or written once, and then given other values"""
    values, second = case["values"], case.get("second", case["values"])
    if case["kind"] == "dynamic" and not all(bd.representable(case["spec"], v) for v in second):
        return
    objs = [make(v) for v in values]
    outer = Outer(case, adapter, len(objs)) if case["how"] != "alone" else None
    s = outer.wrap(objs) if outer else None
    for o in objs:
        call("sizeof", adapter.sizeof, o)
    if outer:
        call("sizeof of the struct", outer.cls.sizeof, s)
    for now in (second, values):
        chunks = [encode(v) for v in now]
        for o, v, chunk in zip(objs, now, chunks):
            bs.morph(o, make(v))
            sink = sm.Sink(b"")
            call("write_to_stream", adapter.write_to_stream, o, sink, *context(case))
            expect_same(sink.data, chunk, "write_to_stream of a changed buffer")
            expect_same(call("sizeof", adapter.sizeof, o), len(chunk), "sizeof of a changed buffer")
            expect_same(bytes(call("write_to_string", adapter.write_to_string, o, *context(case))), chunk, "write_to_string of a changed buffer")
        if outer and (case["how"] != "sum" or sum(map(len, chunks)) < 65536):
            want = outer.bytes(chunks)
            expect_same(call("to_bytes of the struct", s.to_bytes), want, "bytes of the struct with changed buffers")
            expect_same(call("sizeof of the struct", outer.cls.sizeof, s), len(want), "sizeof of the struct with changed buffers")


def check_longer(case, adapter, cls, size, values):
    """an object of a subclass with more fields is written as a whole"""
    import infi.instruct.buffer as B
    sub = type(B.Buffer)("Longer", (cls,), {"appended": B.uint_field(where=B.bytes_ref[size:size + 2], endian="big")})
    if sub.byte_size != size + 2:
        return  # (the size was declared)
    from_values = lambda v: sub(appended=0x1234, **v)
    objs = [call("constructor", from_values, v) for v in values]
    check_write(case, adapter, objs, [bytes(call("pack", o.pack)) for o in objs])
    for o in objs:
        expect_same(call("sizeof", adapter.sizeof, o), size + 2, "sizeof of an object of a longer subclass")


def check_write(case, adapter, objs, chunks):
    for o, chunk in zip(objs, chunks):
        direct = bytes(call("pack", o.pack))
        expect_same(direct, chunk, "pack")
        expect_same(bytes(call("write_to_string", adapter.write_to_string, o, *context(case))), chunk, "write_to_string")
        sink = sm.Sink(b"before")
        call("write_to_stream", adapter.write_to_stream, o, sink, *context(case))
        expect_same(sink.data, b"before" + chunk, "write_to_stream")
        expect_same(call("sizeof", adapter.sizeof, o), len(chunk), "sizeof")
        expect_same(call("to_repr", adapter.to_repr, o, *context(case)), repr(o), "to_repr")
    if case["how"] == "alone":
        return
    outer = Outer(case, adapter, len(objs))
    s = outer.wrap(objs)
    want = outer.bytes(chunks)
    for _ in range(2):
        expect_same(call("sizeof of the struct", outer.cls.sizeof, s), len(want), "sizeof of the struct")
        expect_same(call("to_bytes of the struct", s.to_bytes), want, "bytes of the struct")
        sink = sm.Sink(b"before")
        call("write_to_stream of the struct", outer.cls.write_to_stream, s, sink, *context(case))
        expect_same(sink.data, b"before" + want, "write_to_stream of the struct")
    text = call("repr of the struct", repr, s)
    for o in outer.parts(s):
        expect(repr(o) in text, "repr of the struct does not show %s: %s", short(o), short(text, 1000))


def check_read(case, adapter, cls, chunks, verify):
    for i, chunk in enumerate(chunks):
        o = call("create_from_string", adapter.create_from_string, chunk)
        expect(type(o) is cls, "create_from_string gives %s", short(o))
        verify(i, o)
    stream = open_stream(case, b"".join(chunks) + case["tail"])
    objs = []
    for i, chunk in enumerate(chunks):
        objs.append(call("create_from_stream", adapter.create_from_stream, stream, *context(case)))
        expect(type(objs[-1]) is cls, "create_from_stream gives %s", short(objs[-1]))
    expect_same(rest(stream), case["tail"], "what is left in the stream after %d buffers", len(chunks))
    for i, o in enumerate(objs):
        verify(i, o)
    if case["how"] == "alone" or (case["how"] == "sum" and not all(chunks)):
        return
    outer = Outer(case, adapter, len(chunks))
    data = outer.bytes(chunks)
    n = 2 if case["twice"] else 1
    stream = open_stream(case, data * n + case["tail"])
    results = [call("create_from_stream of the struct", outer.cls.create_from_stream, stream, *context(case)) for _ in range(n)]
    expect_same(rest(stream), case["tail"], "what is left in the stream after %d structs", n)
    results.append(call("create_from_string of the struct", outer.cls.create_from_string, data, *context(case)))
    for r in results:
        parts = outer.parts(r)
        absent = case["how"] == "optional" and not case["pre"] & 1
        expect_same(len(parts), 0 if absent else len(chunks), "number of buffers in the struct")
        for i, o in enumerate(parts):
            expect(type(o) is cls, "a buffer in the struct is %s", short(o))
            verify(i, o)
        if case["kind"] == "static":
            expect_same(call("sizeof of what was read", outer.cls.sizeof, r), len(data), "sizeof of what was read")


def check_dynamic(case, adapter, cls, make, encode, verify):
    objs = [make(v) for v in case["values"]]
    chunks = [encode(v) for v in case["values"]]
    check_write(case, adapter, objs, chunks)
    check_changed(case, adapter, make, encode)
    for i, chunk in enumerate(chunks):
        o = call("create_from_string", adapter.create_from_string, chunk)
        expect(type(o) is cls, "create_from_string gives %s", short(o))
        verify(o, case["values"][i], "a buffer read from a string")
    for chunk in chunks:
        stream = open_stream(case, chunk + case["tail"])
        refused("reading a buffer without a fixed size from a stream", adapter.create_from_stream, stream, *context(case))
        expect_same(rest(stream), chunk + case["tail"], "what is left in the stream after refusing")
    if case["how"] == "alone" or not chunks:
        return
    outer = Outer(case, adapter, len(chunks))
    if case["how"] == "optional" and not case["pre"] & 1:
        return
    if case["how"] == "sum" and not any(chunks):
        return
    refused("reading a struct with a buffer without a fixed size", outer.cls.create_from_string, outer.bytes(chunks))


def refused(what, fn, *args):
    try:
        r = fn(*args)
    except Exception:
        return
    raise Violation("%s was accepted and gave %s" % (what, short(r)))
