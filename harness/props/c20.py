"""C20: selectors choose the struct by peeked content without losing bytes.

selector: a mapping or function selector over random structs (nested selectors included), used directly, as a field between others
          or in an array, on streams with and without tell(): what is read equals reading the chosen class directly from
          the same bytes, the stream ends right after it, and it writes back the same bytes
keysize:  a mapping selector whose key is longer than the chosen struct is refused when bytes of the key are left over
pointer:  a mapping selector whose key is an earlier field of the struct peeks nothing; the key may be absent from its case
key:      keys outside the mapping - also when the mapping lists the same key in another type - use the default or are refused with a library error
peek:     a function that peeks any sequence of sizes (0, beyond the end) sees the stream's bytes in order from the
          struct's first one; peeking more than the chosen struct reads is refused, anything else reads it from its start
"""
import io
from common import call, expect, expect_same, must_raise, short
import forward
import structmodel as sm


def gen(d):
    if d.chance(1, 12):
        return dict(forward.gen(d, ["sel", "fsel", "default"]), stream="bytesio")
    g = sm.G(d)
    mode = d.weighted([(4, "selector"), (3, "key"), (4, "peek"), (2, "keysize"), (2, "pointer")])
    case = dict(mode=mode, tail=d.bytes(0, 5), before=d.bytes(0, 3), stream=d.choice(["tell", "notell", "bytesio"]))
    if mode == "peek":
        case["sizes"] = [d.int(1, 6) if d.chance(4, 5) else d.choice([0, 0, 30]) for _ in range(d.int(0, 4))]
        case["size"] = d.int(0, 12)
        case["data"] = d.bytes(case["size"], case["size"])
        case["how"] = d.choice(["direct", "field", "array"])
        case["parts"] = d.int(1, 3)
        if d.chance(3, 5):  # a struct of any kind; what is peeked may end anywhere inside it
            spec = g.struct(1, lo=1, hi=3)
            if d.bool():
                m = {"k": d.choice(["sarr", "sarr", "varr", "vstr"]), "sz": "UBInt8"}
                m = dict(g.pad(), **m) if m["k"] == "vstr" else dict(m, elem=g.num())
                spec["fields"].insert(0, {"k": "val", "name": g.name(), "m": m, "via": "field"})
            case["spec"], case["value"] = spec, g.svalue(spec)
            case["data"] = sm.enc_struct(spec, case["value"])
            case["size"] = n = len(case["data"])
            if n > 12 and d.bool():
                case["sizes"].append(d.int(0, n - 1))
        return case
    if mode == "pointer":
        case["sizes"] = [d.choice([0, 0, 1, 2, 5]) for _ in range(d.int(1, 4))]
        case["keys"] = d.list(lambda: d.int(0, 5), 1, 3)
        case["default"] = d.bool()
        case["data"] = d.bytes(40, 40)
        case["far"] = d.bool()
        return case
    if mode == "keysize":
        case["key"] = d.choice(["UBInt8", "ULInt16", "UBInt16", "UBInt32", "SLInt64", 1, 2, 3, 5])
        case["size"] = d.int(0, 9)
        case["data"] = d.bytes(case["size"], case["size"])
        case["default"] = d.bool()
        return case
    m = g.selector(d.choice(["sel", "sel", "fsel"]) if mode == "selector" else "sel", d.choice([0, 1, 1, 2]))
    case["m"] = m
    case["wrap"] = d.choice(["direct", "field", "array"])
    case["values"] = [g.value(m) for _ in range(d.int(1, 3))]
    if mode == "key":
        case["lookalike"] = d.bool()
        key = m["key"]
        known = [c[0] for c in m["cases"]]
        v = sm.gen_num(d, key["t"]) if key["k"] == "num" else d.bytes(key["size"], key["size"])
        if v in known:
            v = g.unavoided({"m": key, "avoid": known})
        if endless(m.get("default")):
            case["mode"] = "selector"
        case["key"] = v
        case["rest"] = d.bytes(0, 20)
    return case


def endless(x):
    """does x hold an array of any length whose elements may be empty: arbitrary bytes would then ask for billions of them"""
    if isinstance(x, dict):
        if x.get("k") in ("varr", "sarr"):
            e = x["elem"]
            if not (e["k"] in ("num", "map", "vbuf", "vstr", "varr", "sarr") or sm.m_fixed(e)):
                return True
        x = list(x.values())
    return isinstance(x, list) and any(endless(y) for y in x)


def classify(case):
    if case["mode"] == "forward":
        return forward.classify(case)
    l = {case["mode"], case["stream"]}
    if case["mode"] == "peek":
        n = sum(min(s, case["size"]) for s in case["sizes"])
        l |= sm.labels(case["spec"]) if "spec" in case else set()
        return l | {"how-" + case["how"], "leftover" if n > case["size"] else "consumed"}, bool(case["sizes"])
    if case["mode"] in ("keysize", "pointer"):
        return l, True
    return l | sm.m_labels(case["m"]) | {"wrap-" + case["wrap"]}, True


def streams(case, data):
    if case["stream"] == "bytesio":
        return [io.BytesIO(data)]
    return [sm.TellStream(data), sm.Stream(data), sm.PipeStream(data)]


def pos(stream):
    return stream.tell() if isinstance(stream, io.BytesIO) else stream.pos


def wrapper(case):
    """spec of the struct the selector is used in"""
    if case["wrap"] == "array":
        m = {"k": "farr", "n": len(case["values"]), "elem": case["m"]}
        fields = [{"k": "val", "name": "a", "m": m, "via": "field"}]
    else:
        fields = [{"k": "val", "name": "a", "m": case["m"], "via": "field"}]
    num = {"k": "num", "t": "UBInt16"}
    fields = [{"k": "val", "name": "x", "m": num, "via": "macro"}] + fields + [{"k": "val", "name": "y", "m": num, "via": "macro"}]
    return {"name": "W", "fields": fields, "form": "list"}


def check(case):
    import infi.instruct as I
    if case["mode"] == "forward":
        return forward.check(case)
    if case["mode"] == "peek":
        return check_peek(case, I)
    if case["mode"] == "keysize":
        return check_keysize(case, I)
    if case["mode"] == "pointer":
        return check_pointer(case, I)
    spec = wrapper(case)
    real = call("declaring the classes", sm.Real, spec)
    m = case["m"]
    marshal = real.marshal(m)
    if case["mode"] == "key" and case.get("lookalike"):
        marshal = lookalikes(case, I, real)
    if case["mode"] == "key":
        return check_key(case, I, real, marshal)
    values = case["values"]
    if case["wrap"] == "direct":
        blobs = [sm.enc(m, v) for v in values]
        for s in streams(case, case["before"] + b"".join(blobs) + case["tail"]):
            s.read(len(case["before"]))
            end = len(case["before"])
            for v, blob in zip(values, blobs):
                end += len(blob)
                o = call("reading %s" % short(blob), marshal.create_from_stream, s)
                verify(real, m, v, blob, o)
                expect_same(pos(s), end, "position in the stream after the selected struct")
                expect_same(call("write_to_string", marshal.write_to_string, o), blob, "selected struct written back")
                expect_same(call("sizeof", marshal.sizeof, o), len(blob), "size of the selected struct")
            expect_same(s.read(100000), case["tail"], "rest of the stream")
        return
    groups = [values] if case["wrap"] == "array" else values
    for v in groups:
        vals = {"x": 0x1234, "a": v, "y": 0xabcd}
        blob = sm.enc_struct(spec, vals)
        for s in streams(case, case["before"] + blob + case["tail"]):
            s.read(len(case["before"]))
            o = call("reading", real.cls.create_from_stream, s)
            expect_same(pos(s), len(case["before"] + blob), "position in the stream after the struct")
            expect_same((o.x, o.y), (0x1234, 0xabcd), "fields around the selector")
            for x, y in zip(v if case["wrap"] == "array" else [v], o.a if case["wrap"] == "array" else [o.a]):
                verify(real, m, x, sm.enc(m, x), y)
            expect_same(call("to_bytes", o.to_bytes), blob, "written back")


def verify(real, m, v, blob, o):
    sp = sm.case_of(m, v)
    cls = real.classes[sp["name"]]
    expect(type(o) is cls, "the bytes %s were read as %s instead of %s", short(blob), short(o), cls.__name__)
    want = sm.canon_struct(sp, v["v"])
    expect_same(real.extract(sp, o), want, "values of the selected struct")
    direct = call("reading the class directly", cls.create_from_string, blob)
    expect_same(real.extract(sp, direct), want, "values read directly")


def lookalikes(case, I, real):
    """the selector, with more keys: other spellings of the key that is read from the stream are other keys"""
    m, k = case["m"], case["key"]
    cases = dict((c[0], real.classes[c[1]["name"]]) for c in m["cases"])
    extra = [str(k), repr(k), (k,), str(k).encode("ascii"), "%s" % (k,)]
    if isinstance(k, bytes):
        extra += [k.decode("latin-1"), int.from_bytes(k, "big"), int.from_bytes(k, "little"), tuple(k), k + b"\0", b"\0" + k]
    else:
        extra += [bytes(bytearray([k % 256])), hex(k), -k, k + 256, k + 0.5, None, k & 0xff, k & 0xffff, k + (1 << 32)]
    for x in extra:
        if x != k:
            cases.setdefault(x, next(iter(cases.values())))
    return I.StructSelector(real.marshal(m["key"]), cases, *([real.classes[m["default"]["name"]]] if m.get("default") else []))


def check_key(case, I, real, marshal):
    m = case["m"]
    data = case["before"] + sm.enc(m["key"], case["key"]) + case["rest"]
    for s in streams(case, data):
        s.read(len(case["before"]))
        if m.get("default") is None:
            must_raise("a key that is not in the mapping", I.InstructError, marshal.create_from_stream, s)
            continue
        cls = real.classes[m["default"]["name"]]
        try:
            want, err = cls.create_from_string(data[len(case["before"]):]), None
        except Exception as e:
            err = e
        try:
            got = marshal.create_from_stream(s)
        except Exception as e:
            expect(err is not None, "key %s: reading the default class by the selector fails: %s", case["key"], short(e))
            continue
        expect(err is None, "key %s: the selector reads what the default class refuses (%s)", case["key"], short(err))
        expect(type(got) is cls, "key %s was read as %s, not as the default", case["key"], short(got))
        texts = []
        for o in (got, want):
            try:
                texts.append(o.to_bytes())
            except Exception:
                texts.append(None)  # a broken constant inside a lazy group
        expect_same(texts[0], texts[1], "bytes of the struct read by default")
        if texts[0] is not None:
            expect_same(real.extract(m["default"], got), real.extract(m["default"], want), "values of the struct read by default")


def check_keysize(case, I):
    from infi.instruct.string import FixedSizeBufferMarshal
    n, key = case["size"], case["key"]
    ksize = key if isinstance(key, int) else sm.num_info(key)[0]
    Target = type(I.Struct)("Target", (I.Struct,), {"_fields_": [I.FixedSizeBuffer("p", n)]})
    Other = type(I.Struct)("Other", (I.Struct,), {"_fields_": [I.FixedSizeBuffer("q", 30)]})
    body = case["data"] + case["tail"]
    if len(body) < ksize:
        value = b"" if isinstance(key, int) else 0
    else:
        value = body[:ksize] if isinstance(key, int) else sm.dec_num(key, body[:ksize])
    other = value + b"!" if isinstance(key, int) else value ^ 1
    marshal = I.StructSelector(FixedSizeBufferMarshal(key) if isinstance(key, int) else getattr(I, key),
                               {other: Other} if case["default"] else {value: Target, other: Other}, *([Target] if case["default"] else []))
    for s in streams(case, case["before"] + body):
        s.read(len(case["before"]))
        if len(body) < ksize or ksize > n:
            must_raise("a struct of %d bytes with a key of %d bytes" % (n, ksize), I.InstructError, marshal.create_from_stream, s)
            continue
        o = call("reading a struct of %d bytes with a key of %d bytes" % (n, ksize), marshal.create_from_stream, s)
        expect(type(o) is Target, "%s was read as %s", short(body), short(o))
        expect_same(o.p, case["data"], "bytes of the selected struct")
        expect_same(s.read(1000), case["tail"], "rest of the stream")


def check_pointer(case, I):
    make = lambda name, n: type(I.Struct)(name, (I.Struct,), {"_fields_": [I.FixedSizeBuffer("p", n)] if n else []})
    targets = [make("T%d" % i, n) for i, n in enumerate(case["sizes"])]
    other = make("Other", 3)
    marshal = I.StructSelector(I.ReadPointer("k"), dict(enumerate(targets)), *([other] if case["default"] else []))
    fields = [I.UBInt8("k")] + [I.ULInt16("between")] * case["far"] + [I.Field("a", marshal), I.UBInt8("z")]
    Outer = type(I.Struct)("Outer", (I.Struct,), {"_fields_": fields})
    for k in case["keys"]:
        if k < len(targets):
            cls, n = targets[k], case["sizes"][k]
        else:
            cls, n = other, 3
        blob = bytes(bytearray([k])) + b"\1\2" * case["far"] + case["data"][:n] + b"\x99"
        for s in streams(case, case["before"] + blob + case["tail"]):
            s.read(len(case["before"]))
            if cls is other and not case["default"]:
                must_raise("a key that is not in the mapping", I.InstructError, Outer.create_from_stream, s)
                continue
            o = call("reading with key %d" % k, Outer.create_from_stream, s)
            expect(type(o.a) is cls, "key %d was read as %s", k, short(o.a))
            expect_same((o.k, o.z), (k, 0x99), "fields around the selected struct")
            expect_same(getattr(o.a, "p", b""), case["data"][:n], "bytes of the selected struct")
            expect_same(s.read(1000), case["tail"], "rest of the stream")
            expect_same(call("to_bytes", o.to_bytes), blob, "written back")
            expect_same(call("sizeof", Outer.sizeof, o), len(blob), "sizeof")


def check_peek(case, I):
    from infi.instruct.struct.selector import FuncStructSelectorMarshal
    n = case["size"]
    spec = case.get("spec")
    if spec:
        real = call("declaring the classes", sm.Real, spec)
        Target, want = real.cls, sm.canon_struct(spec, case["value"])
    else:
        cuts = [n * i // case["parts"] for i in range(case["parts"] + 1)]
        fields = [I.FixedSizeBuffer("p%d" % i, b - a) for i, (a, b) in enumerate(zip(cuts, cuts[1:]))]
        Target = type(I.Struct)("Target", (I.Struct,), {"_fields_": fields})
    seen = []

    def choose(obj, stream, context):
        seen.append((obj, [stream.read(s) for s in case["sizes"]]))
        return Target
    if case["how"] == "direct":
        marshal = FuncStructSelectorMarshal(I.StructFunc(choose))
        head = b""
    else:
        f = I.SelectStructByFunc("a", choose) if case["how"] == "field" else \
            I.FixedSizeArray("a", 2, FuncStructSelectorMarshal(I.StructFunc(choose), (0, 100)))
        marshal = type(I.Struct)("Outer", (I.Struct,), {"_fields_": [I.UBInt8("first"), f]})
        head = b"\x7b"
    count = 2 if case["how"] == "array" else 1
    body = (case["data"] * count) + case["tail"]
    for s in streams(case, case["before"] + head + body):
        del seen[:]
        s.read(len(case["before"]))
        peeked, at = [], 0
        for size in case["sizes"]:
            peeked.append(body[at:at + size])
            at += len(peeked[-1])
        if at > n:
            must_raise("a function that peeked %d bytes of a %d bytes struct" % (at, n), I.InstructError, marshal.create_from_stream, s)
            expect_same(seen[0][1], peeked, "bytes seen while peeking %s", case["sizes"])
            continue
        o = call("reading with peeks of %s" % case["sizes"], marshal.create_from_stream, s)
        expect_same(len(seen), count, "number of calls of the function")
        for i, (obj, got) in enumerate(seen):
            if i == 0:
                expect_same(got, peeked, "bytes seen while peeking %s", case["sizes"])
            if case["how"] != "direct":
                expect(obj is o and obj.first == 0x7b, "the function is given %s instead of the struct being read", short(obj))
        items = o.a if case["how"] == "array" else [o.a] if case["how"] == "field" else [o]
        for x in items:
            if spec:
                expect_same(real.extract(spec, x), want, "values of the struct read after peeking %s", case["sizes"])
            else:
                got = b"".join(getattr(x, "p%d" % i) for i in range(case["parts"]))
                expect_same(got, case["data"], "bytes of the struct read after peeking %s", case["sizes"])
            expect_same(call("to_bytes", x.to_bytes), case["data"], "written back")
        expect_same(s.read(1000), case["tail"], "rest of the stream")
