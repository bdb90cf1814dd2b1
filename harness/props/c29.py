"""C29: marshals, containers, structs and list element types written by users compose like the built-in ones.

A struct is made of users' own marshals (variable-length integers with and without size bounds, decimal text, masked
fixed-size numbers, a wrapper that adds a checksum) as fields, array elements, size and count prefixes, mapped values,
selector keys, constants and optional or lazy parts, of users' field containers and of structs whose marshalling methods
are overridden.  Bytes, values, consumption, sizes and bounds follow the model; every value is read and written by its
marshal exactly once, in order, with the settings and the struct of the call; an error one of them raises reaches the
caller and leaves nothing behind.  The same for the element types of a Buffer's list field.
"""
import io
import sys
from common import call, expect, expect_same, short, first_line, Violation
import structmodel as sm

SETTING = "ctx-setting"


# ------------------------------------------------------------------ generating
class G(object):
    def __init__(self, d):
        self.d, self.n = d, 0

    def id(self):
        self.n += 1
        return self.n

    def leaf(self, fixed=False):
        d = self.d
        k = "xor" if fixed else d.choice(["varint", "varint", "dec", "xor"])
        m = dict(k=k, id=self.id(), text=d.bool())
        if k == "xor":
            m.update(n=d.int(1, 3), mask=d.int(0, 255), sizer=d.bool())
        else:
            m.update(bounds=d.bool())
        return m

    def count(self):
        return self.leaf() if self.d.chance(4, 5) else dict(k="num")

    def marshal(self, depth, fixed=False):
        d = self.d
        kinds = [(4, "leaf"), (2, "crc"), (1, "num")]
        if depth:
            kinds += [(1, "farr"), (1, "map"), (2, "nest")]
            if not fixed:
                kinds += [(2, "vbuf"), (1, "vstr"), (2, "varr"), (2, "sarr"), (2, "sel")]
        k = d.weighted(kinds)
        if k == "leaf":
            return self.leaf(fixed)
        if k == "crc":
            return dict(k="crc", id=self.id(), m=self.marshal(depth - 1 if depth else 0, fixed), text=d.bool())
        if k == "num":
            return dict(k="num")
        if k == "farr":
            return dict(k=k, n=d.int(0, 3), elem=self.marshal(depth - 1, fixed))
        if k == "map":
            n = d.int(1, 4)
            return dict(k=k, m=self.leaf(True), keys=["key%d" % i for i in range(n)], codes=d.perm(list(range(n))))
        if k == "nest":
            return dict(k=k, spec=self.struct(depth - 1, d.int(1, 3), fixed))
        if k in ("vbuf", "vstr"):
            return dict(k=k, size=dict(self.count(), args=False))
        if k in ("varr", "sarr"):
            elem = self.marshal(depth - 1)
            if k == "sarr" and elem["k"] not in ("varint", "dec", "xor", "num", "crc"):  # (its elements must have bytes)
                elem = dict(k="crc", id=self.id(), m=elem, text=d.bool())
            return dict(k=k, size=dict(self.count(), args=k == "varr"), elem=elem)
        key = dict(self.leaf(), args=False)
        return dict(k=k, key=key, codes=d.perm([0, 1, 3, 200])[:d.int(1, 3)], cases=[self.struct(depth - 1, d.int(0, 2)) for _ in range(3)])

    def field(self, depth, fixed=False):
        d = self.d
        k = d.weighted([(6, "f"), (0 if fixed else 2, "opt"), (1, "const"), (2 if depth else 0, "lazy"), (2 if depth else 0, "box")])
        f = dict(k=k, name="f%d" % self.id())
        if k == "const":
            f.update(m=self.leaf(fixed))
            f.update(value=self.value(f["m"]))
        elif k in ("lazy", "box"):
            f.update(id=self.id(), fields=[self.field(depth - 1, fixed or k == "lazy") for _ in range(d.int(1, 3))])
        else:
            f.update(m=self.marshal(depth, fixed))
            if k == "opt":
                f.update(present=d.bool())
        return f

    def struct(self, depth, n, fixed=False):
        return dict(name="S%d" % self.id(), fields=[self.field(depth, fixed) for _ in range(n)], own=self.d.chance(1, 3))

    # values
    def value(self, m):
        d, k = self.d, m["k"]
        if k in ("varint", "dec"):
            return d.choice([0, 1, 9, 10, 127, 128, 255, 256, 16383, 16384, 999999]) if d.bool() else d.int(0, 1 << 30)
        if k == "xor":
            return d.int(0, 256 ** m["n"] - 1)
        if k == "num":
            return d.int(0, 65535)
        if k == "crc":
            return self.value(m["m"])
        if k == "farr":
            return [self.value(m["elem"]) for _ in range(m["n"])]
        if k == "map":
            return d.choice(m["keys"])
        if k == "nest":
            return self.values(m["spec"])
        if k in ("vbuf", "vstr"):
            n = d.choice([0, 1, 3, 9, 10, 127, 128, 200]) if d.chance(2, 3) else d.int(0, 300)
            return bytes(bytearray([d.int(1, 255)])) * min(n, self.limit(m["size"]))
        if k in ("varr", "sarr"):
            n = d.choice([0, 1, 2, 3, 4])
            if d.chance(1, 12) and m["elem"]["k"] in ("xor", "num") and self.limit(m["size"]) > 600:
                n = d.choice([127, 128, 130])
            return [self.value(m["elem"]) for _ in range(n)]
        i = d.int(0, len(m["codes"]) - 1)
        return dict(i=i, v=self.values(m["cases"][i]))

    def limit(self, m):
        return 256 ** m["n"] - 1 if m["k"] == "xor" else 65535

    def values(self, spec):
        out = {}
        for f in each(spec["fields"]):
            if f["k"] == "const":
                continue
            out[f["name"]] = None if f["k"] == "opt" and not f["present"] else self.value(f["m"])
        return out


def each(fields):
    for f in fields:
        if f["k"] in ("lazy", "box"):
            for g in each(f["fields"]):
                yield g
        else:
            yield f


def gen(d):
    g = G(d)
    if d.chance(1, 5):
        elem = d.choice(["varint", "dec", "xor", "index", "prev"])
        n = d.choice([0, 1, 2, 3, 5, 130])
        vals = [d.int(0, 255) if elem in ("xor", "index", "prev") else d.choice([0, 1, 127, 128, 16384, d.int(0, 1 << 30)]) for _ in range(n)]
        return dict(mode="list", elem=elem, values=vals, where=d.choice(["open", "count", "sized", "after"]), start=d.int(0, 3), fault=d.choice([None, None, None, d.int(0, 9)]),
                    trailing=d.bytes(0, 4), selector=d.bool())
    spec = g.struct(d.choice([0, 1, 2]), d.int(1, 5))
    return dict(mode="struct", spec=spec, values=g.values(spec), tail=d.bytes(0, 4), stream=d.choice(["tell", "notell", "pipe", "bytesio"]),
                setting=d.choice([None, 0, 7]), fault=d.choice([None, None, d.int(0, 12)]), swap=d.bool(),
                args=d.choice([None, [[], {"tag": 1}], [[5], {}], [["p", 2], {"tag": None, "more": "x"}]]))


def labels(spec, out):
    out.add("own") if spec["own"] else None

    def m_(m, where):
        if "id" in m:
            out.add("%s-%s" % (m["k"], where))
        for key, w in (("m", "wrapped"), ("elem", "elem"), ("size", "size"), ("key", "key")):
            if key in m:
                m_(m[key], w)
        if "spec" in m:
            labels(m["spec"], out)
        for c in m.get("cases", ()):
            labels(c, out)

    def fs(fields):
        for f in fields:
            if f["k"] in ("lazy", "box"):
                out.add(f["k"])
                fs(f["fields"])
            else:
                m_(f["m"], f["k"])
    fs(spec["fields"])


def classify(case):
    if case["mode"] == "list":
        return ["list-" + case["elem"], "list"], len(case["values"]) > 0
    out = set()
    labels(case["spec"], out)
    return out | {"fault"} if case["fault"] is not None else out, bool(out)


# ------------------------------------------------------------------ model
INF = 1 << 80


def varint(v):
    out = bytearray()
    while True:
        b = v & 127
        v >>= 7
        out.append(b | (128 if v else 0))
        if not v:
            return bytes(out)


def leaf_bytes(m, v):
    if m["k"] == "varint":
        return varint(v)
    if m["k"] == "dec":
        return b"%d;" % v
    return bytes(bytearray(((v >> (8 * i)) & 255) ^ m["mask"] for i in reversed(range(m["n"]))))


class Model(object):
    """encodes; log: what the marshals of the user are asked to write and to read, in order"""

    def __init__(self):
        self.writes, self.reads = [], []

    def mark(self, m, v, struct):
        self.writes.append([m["id"], v, struct])
        self.reads.append([m["id"], v, struct])

    def enc(self, m, v, st):
        k = m["k"]
        if k in ("varint", "dec", "xor"):
            self.mark(m, v, st)
            return leaf_bytes(m, v)
        if k == "num":
            return bytes(bytearray([v >> 8, v & 255]))
        if k == "crc":
            b = self.enc(m["m"], v, st)
            self.writes.append([m["id"], "crc", st])
            self.reads.append([m["id"], "crc", st])
            return b + bytes(bytearray([sum(bytearray(b)) % 256]))
        if k == "farr":
            return b"".join(self.enc(m["elem"], x, st) for x in v)
        if k == "map":
            return self.enc(m["m"], m["codes"][m["keys"].index(v)], st)
        if k == "nest":
            return self.struct(m["spec"], v)
        if k in ("vbuf", "vstr"):
            return self.enc(m["size"], len(v), st) + v
        if k == "varr":
            return self.enc(m["size"], len(v), st) + b"".join(self.enc(m["elem"], x, st) for x in v)
        if k == "sarr":
            sub = Model()
            total = len(b"".join(sub.enc(m["elem"], x, st) for x in v))
            b = self.enc(m["size"], total, st)
            return b + b"".join(self.enc(m["elem"], x, st) for x in v)
        # a selected struct: the key is its first field, and was peeked before
        self.reads.append([m["key"]["id"], m["codes"][v["i"]], st])
        return self.struct(m["cases"][v["i"]], v["v"], (m["key"], m["codes"][v["i"]]))

    def struct(self, spec, vals, key=None):
        b = b""
        if key:
            b = self.enc(key[0], key[1], spec["name"])
        b += self.fields(spec, spec["fields"], vals)
        return b"<" + b + b">" if spec["own"] and not key else b

    def fields(self, spec, fields, vals):
        out = b""
        for f in fields:
            if f["k"] == "lazy":
                out += self.fields(spec, f["fields"], vals)
            elif f["k"] == "box":
                b = self.fields(spec, f["fields"], vals)
                out += b + bytes(bytearray([sum(bytearray(b)) % 256]))
            elif f["k"] == "const":
                out += self.enc(f["m"], f["value"], spec["name"])
            elif f["k"] == "opt" and not f["present"]:
                pass
            else:
                out += self.enc(f["m"], vals[f["name"]], spec["name"])
        return out


def plus(a, b):
    return a[0] + b[0], a[1] + b[1]


def bounds(m):
    """the shortest and longest encoding of any value"""
    k = m["k"]
    if k in ("varint", "dec"):
        return ((1, 5) if k == "varint" else (2, 11)) if m["bounds"] else (0, INF)
    if k == "xor":
        return m["n"], m["n"]
    if k == "num":
        return 2, 2
    if k == "crc":
        return plus(bounds(m["m"]), (1, 1))
    if k == "farr":
        a, b = bounds(m["elem"])
        return a * m["n"], b * m["n"]
    if k == "map":
        return bounds(m["m"])
    if k == "nest":
        return struct_bounds(m["spec"])
    if k == "sel":
        both = [plus(bounds(m["key"]), struct_bounds(dict(c, own=False))) for c in m["cases"][:len(m["codes"])]]
        return min(b[0] for b in both), max(b[1] for b in both)
    lo, hi = bounds(m["size"])
    most = {"varint": (1 << 35) - 1, "dec": 10 ** 10 - 1, "num": 65535}.get(m["size"]["k"])
    if most is None:
        most = 256 ** m["size"]["n"] - 1
    return lo, hi + (most * bounds(m["elem"])[1] if k == "varr" else most)


def struct_bounds(spec):
    return plus(fields_bounds(spec["fields"]), (2, 2) if spec["own"] else (0, 0))


def fields_bounds(fields):
    out = (0, 0)
    for f in fields:
        if f["k"] in ("lazy", "box"):
            b = plus(fields_bounds(f["fields"]), (1, 1) if f["k"] == "box" else (0, 0))
        else:
            b = bounds(f["m"])
            if f["k"] == "opt":
                b = 0, b[1]
        out = plus(out, b)
    return out


def exact(m):
    """whether the bounds can be told exactly (the library estimates those of prefixed data)"""
    return m["k"] not in ("vbuf", "vstr", "varr", "sarr") and all(exact(m[x]) for x in ("m", "elem", "key") if x in m) and \
        ("spec" not in m or exact_fields(m["spec"]["fields"])) and all(exact_fields(c["fields"]) for c in m.get("cases", ()))


def exact_fields(fields):
    return all(exact_fields(f["fields"]) if "fields" in f else exact(f["m"]) for f in fields)


# ------------------------------------------------------------------ the real thing
class Custom(Exception):
    """what a user's marshal raises"""


class Real(object):
    def __init__(self, case, setting):
        import infi.instruct as I
        import infi.instruct.struct
        from infi.instruct import base, string, array, mapping
        self.I, self.base, self.S = I, base, sys.modules["infi.instruct.struct"]
        self.mods = dict(string=string, array=array, mapping=mapping)
        self.writes, self.reads, self.setting, self.fault, self.calls, self.failing = [], [], setting, None, 0, None
        self.classes, self.made = {}, {}
        self.repr_fails = False
        self.args = None

    def visit(self, log, m, v, context):
        expect(context.get(SETTING, None) == self.setting, "a marshal's context has %s for a setting of the call, expected %s", short(context.get(SETTING, None)), short(self.setting))
        st = context.get("struct", None)
        log.append([m["id"], v, type(st).__name__])

    def step(self, kind):
        if kind != self.failing:
            return
        self.calls += 1
        if self.fault is not None and self.calls > self.fault:
            raise Custom("call %d" % self.calls)

    def leaf(self, m):
        R, base, MinMax = self, self.base, self.I.MinMax
        k = m["k"]

        class Leaf(base.Marshal):
            def write_to_stream(self, obj, stream, context=base.EMPTY_CONTEXT):
                R.step("write")
                R.visit(R.writes, m, obj, context)
                stream.write(leaf_bytes(m, obj))

            def create_from_stream(self, stream, context=base.EMPTY_CONTEXT, *args, **kwargs):
                R.step("read")
                v = self.decode(stream)
                R.visit(R.reads, m, v, context)
                if m.get("args", True) and R.args is not None:
                    expect_same([list(args), kwargs], R.args, "arguments of the call that a marshal gets")
                return v

            def one(self, stream):
                b = bytearray(stream.read(1))
                if len(b) != 1:
                    raise Custom("end of the stream")
                return b[0]

            def decode(self, stream):
                v = shift = 0
                if k == "varint":
                    while True:
                        b = self.one(stream)
                        v |= (b & 127) << shift
                        shift += 7
                        if b < 128:
                            return v
                if k == "dec":
                    text = ""
                    while not text.endswith(";"):
                        text += chr(self.one(stream))
                    return int(text[:-1])
                for _ in range(m["n"]):
                    v = v * 256 + (self.one(stream) ^ m["mask"])
                return v

            def sizeof(self, obj):
                return len(leaf_bytes(m, obj))

        body = {}
        if m["text"]:
            body["to_repr"] = lambda self, obj, context=base.EMPTY_CONTEXT: R.text(m, obj)
        if k == "xor":
            if m["sizer"]:
                body.update(size=m["n"], sizeof=lambda self, obj: self.size, min_max_sizeof=lambda self: MinMax(self.size, self.size))
            else:
                body.update(min_max_sizeof=lambda self: MinMax(m["n"], m["n"]))
        elif m["bounds"]:
            body.update(min_max_sizeof=lambda self: MinMax(1, 5) if k == "varint" else MinMax(2, 11))
        return type("Leaf%d" % m["id"], (Leaf,), body)()

    def text(self, m, v):
        if self.repr_fails:
            raise Custom("to_repr")
        return "#%s.%d#" % (v, m["id"])

    def marshal(self, m):
        """a selector's key marshal is also the first field of the structs it selects, so each is made once"""
        if id(m) not in self.made:
            self.made[id(m)] = self.make(m)
        return self.made[id(m)]

    def make(self, m):
        R, base, k, I = self, self.base, m["k"], self.I
        mods = self.mods
        if k in ("varint", "dec", "xor"):
            return self.leaf(m)
        if k == "num":
            return I.UBInt16Marshal
        if k == "crc":
            inner = self.marshal(m["m"])

            class Crc(base.Marshal):
                def write_to_stream(self, obj, stream, context=base.EMPTY_CONTEXT):
                    out = io.BytesIO()
                    inner.write_to_stream(obj, out, context)
                    R.step("write")
                    R.visit(R.writes, m, "crc", context)
                    stream.write(out.getvalue() + bytes(bytearray([sum(bytearray(out.getvalue())) % 256])))

                def create_from_stream(self, stream, context=base.EMPTY_CONTEXT, *args, **kwargs):
                    tee = Tee(stream)
                    v = inner.create_from_stream(tee, context, *args, **kwargs)
                    R.step("read")
                    R.visit(R.reads, m, "crc", context)
                    if bytearray(stream.read(1)) != bytearray([sum(bytearray(tee.seen)) % 256]):
                        raise Custom("checksum")
                    return v

                def sizeof(self, obj):
                    return inner.sizeof(obj) + 1

                def min_max_sizeof(self):
                    return inner.min_max_sizeof() + I.MinMax(1, 1)

                def to_repr(self, obj, context=base.EMPTY_CONTEXT):
                    return inner.to_repr(obj, context)
            return Crc()
        if k == "farr":
            return mods["array"].FixedSizeArrayMarshal(m["n"], self.marshal(m["elem"]))
        if k == "map":
            return mods["mapping"].FixedSizeMappingMarshal(dict(zip(m["keys"], m["codes"])), self.marshal(m["m"]))
        if k == "nest":
            return self.struct(m["spec"])
        if k == "vbuf":
            return mods["string"].VarSizeBufferMarshal(self.marshal(m["size"]))
        if k == "vstr":
            return mods["string"].VarSizeStringMarshal(self.marshal(m["size"]))
        if k == "varr":
            return mods["array"].VarSizeArrayMarshal(self.marshal(m["size"]), self.marshal(m["elem"]))
        if k == "sarr":
            return mods["array"].SumSizeArrayMarshal(self.marshal(m["size"]), self.marshal(m["elem"]))
        return I.StructSelector(self.marshal(m["key"]), dict((c, self.struct(s, m["key"])) for c, s in zip(m["codes"], m["cases"])))

    def fields(self, fields):
        I = self.I
        out = []
        for f in fields:
            if f["k"] == "f":
                out.append(I.Field(f["name"], self.marshal(f["m"])))
            elif f["k"] == "opt":
                out.append(I.OptionalField(f["name"], self.marshal(f["m"]), lambda o, s, c, f=f: f["present"]))
            elif f["k"] == "const":
                out.append(I.ConstField(f["name"], f["value"], self.marshal(f["m"])))
            elif f["k"] == "lazy":
                out.append(I.Lazy(*self.fields(f["fields"])))
            else:
                out.append(self.box(self.fields(f["fields"])))
        return out

    def box(self, fields):
        I, base = self.I, self.base

        class Box(self.S.FieldListContainer):
            def write_fields(self, obj, stream, context=base.EMPTY_CONTEXT):
                out = io.BytesIO()
                super(Box, self).write_fields(obj, out, context)
                stream.write(out.getvalue() + bytes(bytearray([sum(bytearray(out.getvalue())) % 256])))

            def read_fields(self, obj, stream, context=base.EMPTY_CONTEXT, *args, **kwargs):
                tee = Tee(stream)
                super(Box, self).read_fields(obj, tee, context, *args, **kwargs)
                if bytearray(stream.read(1)) != bytearray([sum(bytearray(tee.seen)) % 256]):
                    raise Custom("checksum")

            def sizeof(self, obj):
                return super(Box, self).sizeof(obj) + 1

            def min_max_sizeof(self):
                return super(Box, self).min_max_sizeof() + I.MinMax(1, 1)
        return Box(fields)

    def struct(self, spec, key=None):
        if spec["name"] in self.classes:
            return self.classes[spec["name"]]
        I = self.I
        fields = ([I.Field("key", self.marshal(key))] if key else []) + self.fields(spec["fields"])
        attrs = {"_fields_": fields}
        if spec["own"] and not key:
            class Framed(I.Struct):
                _fields_ = fields

                @classmethod
                def write_to_stream(cls, obj, stream, *args, **kwargs):
                    stream.write(b"<")
                    super(Framed, cls).write_to_stream(obj, stream, *args, **kwargs)
                    stream.write(b">")

                @classmethod
                def create_from_stream(cls, stream, *args, **kwargs):
                    if stream.read(1) != b"<":
                        raise Custom("no start")
                    obj = super(Framed, cls).create_from_stream(stream, *args, **kwargs)
                    if stream.read(1) != b">":
                        raise Custom("no end")
                    return obj

                @classmethod
                def sizeof(cls, obj):
                    return super(Framed, cls).sizeof(obj) + 2

                @classmethod
                def min_max_sizeof(cls):
                    return super(Framed, cls).min_max_sizeof() + I.MinMax(2, 2)
            cls = Framed
            cls.__name__ = str(spec["name"])
        else:
            cls = type(I.Struct)(str(spec["name"]), (I.Struct,), attrs)
        self.classes[spec["name"]] = cls
        return cls

    def value(self, m, v):
        k = m["k"]
        if k == "crc":
            return self.value(m["m"], v)
        if k in ("farr", "varr", "sarr"):
            return [self.value(m["elem"], x) for x in v]
        if k == "nest":
            return self.object(m["spec"], v)
        if k == "sel":
            return self.object(m["cases"][v["i"]], v["v"], key=m["codes"][v["i"]])
        return v

    def object(self, spec, vals, **key):
        kw = dict(key)
        for f in each(spec["fields"]):
            if f["k"] != "const" and vals[f["name"]] is not None:
                kw[f["name"]] = self.value(f["m"], vals[f["name"]])
        return call("constructor of %s" % spec["name"], self.classes[spec["name"]], **kw)

    def extract(self, spec, o):
        out = {}
        for f in each(spec["fields"]):
            v = getattr(o, f["name"])
            if f["k"] == "const":
                expect_same(v, f["value"], "the constant " + f["name"])
            else:
                out[f["name"]] = None if v is None else self.plain(f["m"], v)
        return out

    def plain(self, m, v):
        k = m["k"]
        if k == "crc":
            return self.plain(m["m"], v)
        if k in ("farr", "varr", "sarr"):
            return [self.plain(m["elem"], x) for x in v]
        if k == "nest":
            expect(type(v) is self.classes[m["spec"]["name"]], "a nested struct is %s", short(v))
            return self.extract(m["spec"], v)
        if k == "sel":
            for i, c in enumerate(m["cases"][:len(m["codes"])]):
                if type(v) is self.classes[c["name"]]:
                    expect_same(v.key, m["codes"][i], "the key of the selected struct")
                    return dict(i=i, v=self.extract(c, v))
            expect(False, "a selected struct is %s", short(v))
        return v


class Tee(object):
    """passes reads on and remembers what was read; has tell() when what it reads from has"""

    def __init__(self, stream):
        self.stream, self.seen = stream, b""
        if hasattr(stream, "tell"):
            self.tell = stream.tell

    def read(self, n):
        out = self.stream.read(n)
        self.seen += out
        return out


def texts(m, v, out):
    k = m["k"]
    if k in ("varint", "dec", "xor"):
        out.append("#%s.%d#" % (v, m["id"]) if m["text"] else repr(v))
    elif k == "num":
        out.append("%d" % v)
    elif k == "crc":
        texts(m["m"], v, out)
    elif k in ("farr", "varr", "sarr"):
        for x in v:
            texts(m["elem"], x, out)
    elif k == "nest":
        struct_texts(m["spec"], v, out)
    elif k == "sel":
        texts(m["key"], m["codes"][v["i"]], out)
        struct_texts(m["cases"][v["i"]], v["v"], out)
    else:
        out.append(repr(v))


def struct_texts(spec, vals, out):
    for f in each(spec["fields"]):
        out.append(f["name"] + "=")
        if f["k"] == "const":
            texts(f["m"], f["value"], out)
        elif vals[f["name"]] is not None:
            texts(f["m"], vals[f["name"]], out)


def raised(what, fn, fault, calls):
    """an injected error comes out as it is, or as the cause of what comes out"""
    try:
        fn()
    except Violation:
        raise
    except Exception as e:
        x = e
        while x is not None and not isinstance(x, Custom):
            x = x.__cause__ or x.__context__
        expect(x is not None, "%s: a marshal of the user failed, but what came out is %s: %s", what, type(e).__name__, first_line(e))
        return True
    return False


def check(case):
    if case["mode"] == "list":
        return check_list(case)
    spec, vals = case["spec"], case["values"]
    R = Real(case, case["setting"])
    cls = call("declaring the classes", R.struct, spec)
    ctx = R.base.ReadOnlyContext({SETTING: case["setting"]}) if case["setting"] is not None else R.base.EMPTY_CONTEXT
    M = Model()
    want = M.struct(spec, vals)
    what = short(vals)
    o = R.object(spec, vals)

    # sizes
    lo, hi = struct_bounds(spec)
    mm = call("min_max_sizeof", cls.min_max_sizeof)
    if exact_fields(spec["fields"]):
        expect_same(tuple(mm), (min(lo, sys.maxsize), min(hi, sys.maxsize)), "the size bounds")
    expect(mm.min <= len(want) <= mm.max and mm.min <= lo and mm.max >= min(hi, sys.maxsize), "the size bounds are %s, those of the values (%d, %d)", mm, lo, hi)
    expect_same(call("sizeof", cls.sizeof, o), len(want), "sizeof %s", what)
    expect(not R.writes and not R.reads, "measuring reads or writes: %s", short(R.writes + R.reads))

    # writing
    for way in ("string", "stream"):
        del R.writes[:]
        if way == "string":
            got = call("write_to_string", cls.write_to_string, o, ctx)
        else:
            sink = sm.Sink(b"before")
            call("write_to_stream", cls.write_to_stream, o, sink, ctx)
            expect(sink.data.startswith(b"before"), "earlier bytes are changed")
            got = sink.data[6:]
        expect_same(got, want, "bytes of %s written to a %s", what, way)
        expect_same(R.writes, M.writes, "what the marshals are asked to write for %s", what)
    expect(not R.reads, "writing reads: %s", short(R.reads))

    # printing
    names = []
    struct_texts(spec, vals, names)
    text = call("to_repr", cls.to_repr, o, ctx)
    for t in names:
        expect(t in text, "%s is not in the printed %s", t, text)
    R.repr_fails = True
    text = call("to_repr with a failing marshal", cls.to_repr, o, ctx)
    R.repr_fails = False
    for f in each(spec["fields"]):
        expect(f["name"] in text, "%s is not in the printed %s", f["name"], text)

    # reading
    lazy = has_lazy(spec["fields"])
    R.args = case.get("args")
    args, kwargs = R.args or [[], {}]
    for kind in (case["stream"], "string"):
        del R.reads[:], R.writes[:]
        if kind == "string":
            p = call("create_from_string", cls.create_from_string, want, ctx, *args, **kwargs)
        else:
            stream = {"tell": sm.TellStream, "notell": sm.Stream, "pipe": sm.PipeStream, "bytesio": io.BytesIO}[kind](want + case["tail"])
            p = call("create_from_stream", cls.create_from_stream, stream, ctx, *args, **kwargs)
            expect_same(stream.read(1000), case["tail"], "what is left in the stream after %s", what)
        expect_same(call("the values", R.extract, spec, p), vals, "values read back")
        if not lazy:
            expect_same(R.reads, M.reads, "what the marshals read of %s", what)
        expect(not R.writes, "reading writes: %s", short(R.writes))
        expect_same(call("write_to_string of what was read", cls.write_to_string, p, ctx), want, "bytes of what was read")
        # (lazy parts are read when they are needed, at the latest now)
        expect_same(sorted(map(repr, R.reads)), sorted(map(repr, M.reads)), "what the marshals read of %s", what)
        expect_same(call("sizeof what was read", cls.sizeof, p), len(want), "sizeof what was read")

    # parts on their own
    for f in spec["fields"]:
        if f["k"] != "f" or vals[f["name"]] is None:
            continue
        alone = Model()
        raw, v = alone.enc(f["m"], vals[f["name"]], "NoneType"), R.value(f["m"], vals[f["name"]])
        part = R.marshal(f["m"])
        del R.reads[:], R.writes[:]
        expect_same(call("writing a part on its own", part.write_to_string, v, ctx), raw, "bytes of %s on its own", f["name"])
        expect_same(R.writes, alone.writes, "what the marshals are asked to write for %s on its own", f["name"])
        got = call("reading a part on its own", part.create_from_string, raw, ctx, *args, **kwargs)
        expect_same(R.plain(f["m"], got), vals[f["name"]], "%s read on its own", f["name"])
        if not lazy:
            expect_same(R.reads, alone.reads, "what the marshals read for %s on its own", f["name"])
    R.args = None

    # failing marshals
    if case["fault"] is not None:
        def attempt(what, fn, n):
            R.calls, R.fault, R.failing = 0, case["fault"], "write" if what.startswith("write") else "read"
            failed = raised(what, fn, case["fault"], n)
            R.fault = None
            expect(failed == (n > case["fault"]), "%s: %s although call %d of %d of the marshals failed", what, "an error" if failed else "no error", case["fault"] + 1, n)
        def all_of(p):
            R.extract(spec, p)
            cls.write_to_string(p, ctx)  # (reads the lazy parts that have only constants)
        total = len(M.writes)
        reads = len(M.reads)
        attempt("write_to_string", lambda: cls.write_to_string(o, ctx), total)
        attempt("create_from_string", lambda: all_of(cls.create_from_string(want, ctx)), reads)
        del R.reads[:], R.writes[:]
        expect_same(call("write_to_string after a failure", cls.write_to_string, o, ctx), want, "bytes written after a failure")
        p = call("create_from_string after a failure", cls.create_from_string, want, ctx)
        expect_same(call("the values", R.extract, spec, p), vals, "values read after a failure")


def has_lazy(fields):
    for f in fields:
        if f["k"] == "lazy" or f["k"] == "box" and has_lazy(f["fields"]):
            return True
        if "m" in f and lazy_in(f["m"]):
            return True
    return False


def lazy_in(m):
    return any(lazy_in(m[x]) for x in ("m", "elem") if x in m) or ("spec" in m and has_lazy(m["spec"]["fields"])) or any(has_lazy(c["fields"]) for c in m.get("cases", ()))


# ------------------------------------------------------------------ element types of lists
def check_list(case):
    import infi.instruct.buffer as B
    kind, vals = case["elem"], case["values"]
    faults = [None, 0]

    def step():
        faults[1] += 1
        if faults[0] is not None and faults[1] > faults[0]:
            raise Custom("call %d" % faults[1])

    def enc(v, i):
        if kind == "varint":
            return varint(v)
        if kind == "dec":
            return b"%d;" % v
        if kind == "xor":
            return bytes(bytearray([v ^ 85, v]))
        if kind == "index":
            return bytes(bytearray([v ^ (i & 255)]))
        return bytes(bytearray([(v + (vals[i - 1] if i else 0)) % 256]))
    seen, packed = [], []
    want = b"".join(enc(v, i) for i, v in enumerate(vals))

    def pack(v, **kwargs):
        step()
        packed.append(v)
        return bytes_to_view(enc(v, len(packed) - 1))

    def bytes_to_view(b):
        from infi.instruct.buffer.io_buffer import BitView
        return BitView(b)

    def unpack(buffer, index, n, container, **kwargs):
        step()
        seen.append([index, n, list(container)])
        raw = bytearray(buffer)
        if kind == "varint":
            v = shift = used = 0
            while True:
                b = raw[used]
                used += 1
                v |= (b & 127) << shift
                shift += 7
                if b < 128:
                    return v, used
        if kind == "dec":
            used = bytes(raw).index(b";") + 1
            return int(bytes(raw)[:used - 1]), used
        if kind == "xor":
            return raw[0] ^ 85, 2
        if kind == "index":
            return raw[0] ^ (index & 255), 1
        return (raw[0] - (container[-1] if container else 0)) % 256, 1

    start, where = case["start"], case["where"]
    count = B.uint_field(endian="big", where=B.bytes_ref[start:start + 2])
    at = start + 2
    end = at + len(want) if where == "sized" else None
    kw = dict(n=B.num_ref(count)) if where in ("count", "after") else {}
    if case["selector"]:
        kw.update(unpack_selector=lambda obj, buffer, **k: unpack(buffer, **k))
    x = B.list_field(type=(pack, unpack), where=B.bytes_ref[at:end], **kw)
    attrs = dict(a=count, x=x)
    if where == "after":
        attrs["z"] = B.uint_field(where=B.bytes_ref[B.after_ref(x) + 0:B.after_ref(x) + 1], default=77)
    Cls = type(B.Buffer)("Cls", (B.Buffer,), attrs)
    o = call("constructor", Cls, a=len(vals), x=list(vals))
    whole = b"\0" * start + bytes(bytearray([len(vals) >> 8, len(vals) & 255])) + want + (b"\x4d" if where == "after" else b"")
    got = call("pack", o.pack)
    expect_same(bytes(got), whole, "packed %s", short(vals))
    expect_same(packed, list(vals), "the values given to the packer of the elements")
    data = whole + (case["trailing"] if where != "open" else b"")
    n = len(vals) if "n" in kw else None
    size = len(whole) if where != "open" else len(data)

    def unpacked(p):
        del seen[:]
        used = call("unpack", p.unpack, data)
        expect_same(used, size, "the size returned by unpack")
        expect_same([p.a, p.x], [len(vals), list(vals)], "unpacked")
        expect_same(seen, [[i, n, list(vals[:i])] for i in range(len(vals))], "index, n and container given to the unpacker of the elements")
    p = call("constructor", Cls)
    unpacked(p)
    if case["fault"] is not None:
        for what, fn in (("pack", o.pack), ("unpack", lambda: Cls().unpack(data))):
            del packed[:]
            faults[:] = [case["fault"], 0]
            failed = raised(what, fn, case["fault"], len(vals))
            faults[:] = [None, 0]
            expect(failed == (len(vals) > case["fault"]), "%s: %s although call %d of %d failed", what, "an error" if failed else "no error", case["fault"] + 1, len(vals))
        del packed[:]
        expect_same(bytes(call("pack after a failure", o.pack)), whole, "packed after a failure")
        unpacked(p)
