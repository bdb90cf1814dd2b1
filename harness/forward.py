"""Arguments and context given to a reading call reach every nested part: used by C19, C20 and C22.

A leaf struct is wrapped 1-4 times (plain field, mapping or function selector, selector default, the three kinds of array,
lazy group, optional part), each level with or without a user constructor; reading with positional and keyword arguments
must call each constructor once with exactly these, and each marshal with these and with the context of the call.
"""
from common import call, expect, expect_same, short

FIXED = ["field", "sel", "default", "fsel", "farr", "lazy"]
ALL = FIXED + ["varr", "sarr", "opt", "custom"]
MULTI = ("farr", "varr", "sarr")


def gen(d, must=None):
    n = d.int(1, 4)
    wraps = []
    for _ in range(n):
        fixed = all(w["w"] in FIXED for w in wraps)
        wraps.append(dict(w=d.choice(ALL if fixed else [w for w in ALL if w != "lazy"]), pre=d.bool(), suf=d.bool(), init=d.chance(2, 3), count=d.int(1, 3)))
    if must and not any(w["w"] in must for w in wraps):
        wraps[0]["w"] = d.choice(must)
    return dict(mode="forward", wraps=wraps, args=d.int(0, 2), kw=[k for k in ("x1", "x2", "x3") if d.bool()], how=d.choice(["string", "stream", "marshal"]),
                context=d.bool(), leaf_init=d.chance(3, 4), first=d.int(0, 255), retry=d.bool())


def classify(case):
    return {"forward"} | set("wrap-" + w["w"] for w in case["wraps"]), bool(case["args"] or case["kw"] or case["context"])


def check(case):
    import infi.instruct as I
    from infi.instruct.base import Marshal, ReadOnlyContext, FixedSizer, MinMax, EMPTY_CONTEXT
    made, seen = [], []

    class Recorder(FixedSizer, Marshal):
        size = 1

        def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
            b = stream.read(1)
            seen.append((context.get("x", "unset"), type(context.get("struct", None)).__name__, args, kwargs))
            return bytearray(b)[0]

        def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
            stream.write(bytes(bytearray([obj])))

    class Through(Marshal):
        """a user's own marshal that reads what another one reads"""
        def __init__(self, inner):
            self.inner = inner

        def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
            return self.inner.create_from_stream(stream, context, *args, **kwargs)

        def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
            return self.inner.write_to_stream(obj, stream, context)

        def sizeof(self, obj):
            return self.inner.sizeof(obj)

    def declare(name, fields, init):
        attrs = {"_fields_": fields}
        if init:
            def __init__(self, *args, **kw):
                made.append((name, args, kw))
            attrs["__init__"] = __init__
        return call("declaring a struct", type(I.Struct), name, (I.Struct,), attrs)

    cls = declare("Leaf", [I.Field("v", Recorder())], case["leaf_init"])
    data, counts = bytes(bytearray([case["first"]])), [1]
    names = ["Leaf"]
    for i, w in enumerate(case["wraps"]):
        k = w["w"]
        count = w["count"] if k in MULTI else 1
        body = data * count
        key = bytearray(data)[0]
        if k in ("field", "custom"):
            part = [I.Field("part", cls if k == "field" else Through(cls))]
        elif k == "sel":
            part = [I.Field("part", I.StructSelector(I.UBInt8Marshal, {key: cls}))]
        elif k == "default":
            other = declare("Other%d" % i, [I.FixedSizeBuffer("o", len(data))], False)
            part = [I.Field("part", I.StructSelector(I.UBInt8Marshal, {key ^ 1: other}, cls))]
        elif k == "fsel":
            part = [I.SelectStructByFunc("part", lambda obj, stream, context, cls=cls: cls, MinMax(len(data), len(data)))]
        elif k == "farr":
            part = [I.FixedSizeArray("part", count, cls)]
        elif k == "varr":
            part = [I.VarSizeArray("part", I.UBInt8Marshal, cls)]
            body = bytes(bytearray([count])) + body
        elif k == "sarr":
            part = [I.SumSizeArray("part", I.UBInt32Marshal, cls)]
            body = bytes(bytearray([0, 0, len(body) >> 8, len(body) & 255])) + body
        elif k == "opt":
            part = [I.OptionalField("part", cls, lambda obj, stream, context: True)]
        else:
            part = [I.Lazy(I.Field("part", cls))]
        if w["pre"]:
            part.insert(0, I.UBInt8("pre"))
            body = b"\x07" + body
        if w["suf"]:
            part.append(I.UBInt8("suf"))
            body += b"\x09"
        names.append("Level%d" % i)
        cls = declare(names[-1], part, w["init"])
        counts = [c * count for c in counts] + [1]
        data = body
    args = tuple("pos%d" % i for i in range(case["args"]))
    kwargs = dict((k, {"x1": None, "x2": [1], "x3": 0}[k]) for k in case["kw"])
    ctx = ReadOnlyContext({"x": 41}) if case["context"] else EMPTY_CONTEXT
    want_args = [(n, args, kwargs) for n, c, init in zip(names, counts, [case["leaf_init"]] + [w["init"] for w in case["wraps"]]) if init for _ in range(c)]
    for turn in range(2 if case["retry"] else 1):
        del made[:], seen[:]
        if case["how"] == "string":
            o = call("create_from_string", cls.create_from_string, data, ctx, *args, **kwargs)
        elif case["how"] == "stream":
            import io
            o = call("create_from_stream", cls.create_from_stream, io.BytesIO(data), ctx, *args, **kwargs)
        else:
            o = call("create_from_string of a marshal", Through(cls).create_from_string, data, ctx, *args, **kwargs)
        objs = [o]
        for i, w in reversed(list(enumerate(case["wraps"]))):
            inner = []
            for x in objs:
                p = call("reading part", getattr, x, "part")
                inner.extend(p if w["w"] in MULTI else [p])
            objs = inner
        expect_same([call("reading v", getattr, x, "v") for x in objs], [case["first"]] * counts[0], "the leaves")
        same_calls = len(made) == len(want_args) and all(
            a[0] == b[0] and a[1] == b[1] and set(a[2]) == set(b[2]) and all(a[2][k] is b[2][k] for k in a[2])
            for a, b in zip(sorted(made, key=lambda m: m[0]), sorted(want_args, key=lambda m: m[0])))
        expect(same_calls, "the constructors were called with %s, expected %s", short(made), short(want_args))
        want_seen = (41 if case["context"] else "unset", "Leaf", args, kwargs)
        expect(len(seen) == counts[0] and all(s == want_seen for s in seen), "the marshal of the leaves was called with %s, expected %s each time",
               short(seen), short(want_seen))
        expect_same(call("to_bytes", o.to_bytes), data, "bytes written")
