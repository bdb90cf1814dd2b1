"""C27: ill-formed declarations are refused when they are made, well-formed ones are accepted.

Each case is one declaration of a random kind, well-formed or broken in one of the ways its kind can be; a predicate over
the description says which.  A refused subclass leaves its base class as it was.
"""
from common import call, expect, short
from itertools import combinations

KINDS = ["bits", "posbits", "mixed", "lazy", "const", "fields", "mapping", "selector", "default", "padding", "where", "listtype", "index", "overlap", "after", "bitsize", "negative", "slice"]
# parts of a struct: name -> whether it has a fixed size
PARTS = {"num": True, "fstr": True, "fbuf": True, "farr": True, "pad": True, "bits": True, "nest": True, "nestempty": True, "selsame": True, "map": True,
         "fsame": True, "lazy": True, "const": True, "constnest": True,
         "vstr": False, "vbuf": False, "varr": False, "sarr": False, "opt": False, "nestvar": False, "selvar": False, "fvar": False, "farrvar": False,
         "ptrstr": False, "list": False}
NAMES = {True: sorted(k for k, v in PARTS.items() if v), False: sorted(k for k, v in PARTS.items() if not v)}
FIELD_MACROS = ["int_field", "uint_field", "be_int_field", "le_int_field", "be_uint_field", "le_uint_field", "float_field", "bytearray_field", "str_field",
                "json_field", "buffer_field", "list_field"]


def gen(d):
    k = d.choice(KINDS)
    case = dict(kind=k, sub=d.bool())
    good = d.bool()
    if k == "bits":
        widths = [[d.choice(["field", "field", "flag", "pad"]), d.int(1, 20) if d.chance(3, 4) else d.int(1, 70)] for _ in range(d.int(1, 6))]
        if good:
            left = -sum(1 if t == "flag" else w for t, w in widths) % 8
            if left:
                widths.insert(d.int(0, len(widths)), ["field", left])
        case.update(widths=widths, lazy=d.chance(1, 4), var=d.choice([None, None, None, "vstr", "opt"]))
    elif k in ("posbits", "bitsize"):
        n = d.int(1, 4)
        slices, pos = [], d.int(0, 3)
        for _ in range(d.int(n, 6)):
            w = d.int(1, 12)
            slices.append([pos, pos + w])
            pos += w + d.choice([0, 0, 1, 3])
        if good and slices[-1][1] % 8:
            slices[-1][1] += -slices[-1][1] % 8
        order = d.perm(list(range(len(slices))))
        groups = [[slices[i] for i in order[j::n]] for j in range(n)]
        case.update(groups=groups, single=d.bool())
        if k == "bitsize":
            top = max(s[1] for s in slices)
            case.update(size=d.choice([top, top + -top % 8, top + 8 + -top % 8, top - 1, (top - 1) // 8 * 8, 8, 16]))
    elif k == "negative":
        n = d.int(0, 30) if good else -d.int(1, 30)
        case.update(of=d.choice(["bit", "bitpad", "pad", "fbuf", "fstr", "farr"]), size=n, more=-n % 8 + 8 * d.int(0, 6) if n < 0 else -n % 8, first=d.bool())
    elif k == "slice":
        a, w = d.int(0, 20), d.int(0, 9)
        case.update(slice=[a, a + w, d.choice([None, None, 1])] if good else
                    d.choice([[a + w + 1, a, None], [-1 - a, w, None], [-1 - a - w, -1 - a, None], [a, a + w, 2], [a, a + w, 3], [a + w + 1, a, -1], [a, -1 - w, None]]),
                    others=d.int(0, 2), single=d.bool(), first=d.bool())
    elif k == "mixed":
        case.update(parts=[d.choice(["pos", "seq", "flag", "pad"]) for _ in range(d.int(1, 4))])
    elif k == "lazy":
        parts = [d.choice(NAMES[True]) for _ in range(d.int(1, 4))]
        if not good:
            parts.insert(d.int(0, len(parts)), d.choice(NAMES[False]))
        case.update(parts=parts, deep=d.choice([0, 0, 1, 2]))
    elif k == "const":
        case.update(value=d.choice(["struct", "int", "bytes", "none", "class", "list", "float"]), marshal=d.bool())
    elif k == "fields":
        case.update(how=d.choice(["missing", "inherited", "list", "tuple", "container", "empty", "mixin"]))
    elif k == "mapping":
        n = d.int(0, 5)
        vals = d.perm(list(range(n)))
        if not good and n > 1:
            i, j = d.choice(list(combinations(range(n), 2)))
            vals[i] = vals[j]
        case.update(values=vals, marshal=d.choice(["num", "num", "num", "fbuf", "vstr", "varr"]))
    elif k == "selector":
        n = d.int(0, 4)
        items = ["struct"] * n
        if not good:
            items.insert(d.int(0, n), d.choice(["marshal", "instance", "int", "none", "buffer", "class", "str", "field", "list"]))
        case.update(items=items, default=d.bool())
    elif k == "default":
        case.update(of=d.choice(["fbuf", "fstr", "farr"]), size=d.int(0, 6), have=d.int(0, 6))
        if good:
            case["have"] = case["size"]
    elif k == "padding":
        case.update(char=b"x" if good else d.bytes(0, 3), size=d.int(0, 5))
    elif k == "where":
        case.update(macro=d.choice(FIELD_MACROS), given=[d.bool(), d.bool(), d.bool()], ref=d.bool())
        if good:
            case["given"] = d.choice([[True, False, False], [False, True, True]])
    elif k == "listtype":
        case.update(type=d.choice(["int8", "str", "buffer", "made"]) if good else d.choice(["int", "none", "text", "class", "struct", "list", "instance", "module", "func"]))
    elif k == "index":
        ok = lambda: d.choice([["n", d.int(0, 9)], ["s", d.int(0, 4), d.int(4, 9), None], ["s", None, d.int(0, 9), 1], ["s", d.int(0, 9), None, None], ["ref"], ["sref", d.int(0, 5)]])
        bad = lambda: d.choice([["n", -d.int(1, 5)], ["s", d.int(5, 9), d.int(0, 4), None], ["s", 0, 4, d.choice([2, -1, 0])], ["s", -d.int(1, 9), d.int(0, 9), None],
                                ["s", 0, -d.int(1, 9), None], ["x", d.choice(["text", "none", "float", "nonnum", "bytes", "dict"])]])
        items = [ok() for _ in range(d.int(0 if not good else 1, 2))]
        if not good:
            items.insert(d.int(0, len(items)), bad())
        case.update(items=items, bits=d.bool(), nested=d.bool())
    elif k == "overlap":
        n, pos, rs = d.int(2, 6), d.int(0, 8), []
        for _ in range(n):
            w = d.choice([0, 1, 3, 8, 8, 16, 24])
            rs.append([pos, pos + w])
            pos += w + d.choice([0, 0, 1, 8])
        if not good:
            i = d.int(0, n - 1)
            full = [j for j in range(n) if rs[j][1] > rs[j][0]]
            if full:
                j = d.choice(full)
                a = d.int(rs[j][0], rs[j][1] - 1)
                rs[i if i != j else (i + 1) % n] = [a, a + d.int(1, 20)]
        case.update(ranges=d.perm(rs), dynamic=d.bool(), split=d.bool())
    else:
        case.update(parts=["field"] * d.int(0, 2), form=d.choice(["list", "tuple"]))
        if not good:
            case["parts"].insert(d.int(0, len(case["parts"])), d.choice(["int", "text", "expr", "ref", "none"]))
    return case


def bits_of(rs):
    out = []
    for a, b in rs:
        out.extend(range(a, b))
    return out


def well_formed(case):
    k = case["kind"]
    if k == "bits":
        return not case["var"] and sum(1 if t == "flag" else w for t, w in case["widths"]) % 8 == 0
    if k == "posbits":
        return max(s[1] for g in case["groups"] for s in g) % 8 == 0
    if k == "bitsize":
        return case["size"] % 8 == 0 and case["size"] >= max(s[1] for g in case["groups"] for s in g)
    if k == "negative":
        return case["size"] >= 0
    if k == "slice":
        a, b, step = case["slice"]
        return 0 <= a <= b and step in (None, 1)
    if k == "mixed":
        return len(set("pos" if p == "pos" else "seq" for p in case["parts"])) == 1
    if k == "lazy":
        return all(PARTS[p] for p in case["parts"])
    if k == "const":
        return case["marshal"] or case["value"] == "struct"
    if k == "fields":
        return case["how"] != "missing"
    if k == "mapping":
        return case["marshal"] in ("num", "fbuf") and len(set(case["values"])) == len(case["values"])
    if k == "selector":
        return all(i == "struct" for i in case["items"])
    if k == "default":
        return case["have"] <= case["size"] if case["of"] == "fstr" else case["have"] == case["size"]
    if k == "padding":
        return len(case["char"]) == 1
    if k == "where":
        return case["given"] in ([True, False, False], [False, True, True])
    if k == "listtype":
        return case["type"] in ("int8", "str", "buffer", "made")
    if k == "index":
        for i in case["items"]:
            if i[0] == "n" and i[1] < 0 or i[0] == "x":
                return False
            if i[0] == "s" and ((i[1] or 0) < 0 or (i[2] or 0) < 0 or i[3] not in (None, 1) or (i[1] is not None and i[2] is not None and i[1] > i[2])):
                return False
        return bool(case["items"])
    if k == "overlap":
        b = bits_of(case["ranges"])
        return len(b) == len(set(b))
    return all(p == "field" for p in case["parts"])


def classify(case):
    return ["kind-" + case["kind"], "well-formed" if well_formed(case) else "ill-formed"], True


# ------------------------------------------------------------------ declaring
class Lib(object):
    def __init__(self):
        import infi.instruct as I
        import infi.instruct.buffer as B
        self.I, self.B, self.n = I, B, 0
        self.Fixed = self.struct("Fixed", [I.UBInt16("v", 1)])
        self.Fixed2 = self.struct("Fixed2", [I.FixedSizeBuffer("v", 2)])
        self.Other = self.struct("Other", [I.UBInt32("v")])
        self.Empty = self.struct("Empty", [])
        self.Var = self.struct("Var", [I.VarSizeString("v", I.UBInt8Marshal)])

    def struct(self, name, fields, base=None):
        return type(self.I.Struct)(name, (base or self.I.Struct,), {"_fields_": fields})

    def buffer(self, name, attrs, base=None):
        return type(self.B.Buffer)(name, (base or self.B.Buffer,), attrs)

    def part(self, k):
        I = self.I
        self.n += 1
        n = "p%d" % self.n
        key = I.UBInt8Marshal
        return {
            "num": lambda: I.UBInt32(n), "fstr": lambda: I.FixedSizeString(n, 4), "fbuf": lambda: I.FixedSizeBuffer(n, 0),
            "farr": lambda: I.FixedSizeArray(n, 3, self.Fixed), "pad": lambda: I.BytePadding(3), "bits": lambda: I.BitFields(I.BitField(n, 8)),
            "nest": lambda: I.Field(n, self.Fixed), "nestempty": lambda: I.Field(n, self.Empty),
            "selsame": lambda: I.Field(n, I.StructSelector(key, {1: self.Fixed, 2: self.Fixed2})),
            "map": lambda: I.MappingField(n, key, {"a": 1}), "fsame": lambda: I.SelectStructByFunc(n, lambda o, s, c: self.Fixed, I.MinMax(2, 2)),
            "lazy": lambda: I.Lazy(I.UBInt8(n)), "const": lambda: I.ConstField(n, 5, key), "constnest": lambda: I.ConstField(n, self.Fixed()),
            "vstr": lambda: I.VarSizeString(n, key), "vbuf": lambda: I.VarSizeBuffer(n, key), "varr": lambda: I.VarSizeArray(n, key, self.Fixed),
            "sarr": lambda: I.SumSizeArray(n, key, self.Fixed), "opt": lambda: I.OptionalField(n, key, lambda o, s, c: True),
            "nestvar": lambda: I.Field(n, self.Var), "selvar": lambda: I.Field(n, I.StructSelector(key, {1: self.Fixed, 2: self.Other})),
            "fvar": lambda: I.SelectStructByFunc(n, lambda o, s, c: self.Fixed), "farrvar": lambda: I.FixedSizeArray(n, 2, self.Var),
            "ptrstr": lambda: I.VarSizeString(n, I.ReadPointer("x")), "list": lambda: I.VarSizeArray(n, I.UBInt32Marshal, key),
        }[k]()


def declare(case, lib):
    """makes the declaration; for the kinds of Struct and Buffer classes returns what was declared"""
    I, B, k = lib.I, lib.B, case["kind"]
    if k == "bits":
        items = []
        for i, (t, w) in enumerate(case["widths"]):
            items.append(I.BitField("b%d" % i, w) if t == "field" else I.BitFlag("b%d" % i) if t == "flag" else I.BitPadding(w))
        if case["var"]:
            items.insert(0, lib.part(case["var"]))
        g = I.BitFields(*items)
        return [I.Lazy(g) if case["lazy"] else g]
    if k in ("posbits", "bitsize"):
        items = []
        for i, g in enumerate(case["groups"]):
            s = I.Bits[tuple(slice(a, b) for a, b in g)] if len(g) > 1 or not case["single"] else slice(*g[0])
            items.append(I.BitField("b%d" % i, s))
        if k == "bitsize":
            from infi.instruct.struct.bit import PositionalBitFieldListContainer
            return [PositionalBitFieldListContainer(case["size"], items)]
        return [I.BitFields(*items)]
    if k == "negative":
        n = case["size"]
        if case["of"] in ("bit", "bitpad"):
            item = I.BitField("n", n) if case["of"] == "bit" else I.BitPadding(n)
            return [I.BitFields(*([item, I.BitField("m", case["more"])] if case["first"] else [I.BitField("m", case["more"]), item]))]
        return [{"pad": lambda: I.BytePadding(n), "fbuf": lambda: I.FixedSizeBuffer("n", n), "fstr": lambda: I.FixedSizeString("n", n),
                 "farr": lambda: I.FixedSizeArray("n", n, lib.Fixed)}[case["of"]]()]
    if k == "slice":
        items = [I.BitField("s", slice(*case["slice"]) if case["single"] else I.Bits[slice(*case["slice"]), 32:33])]
        for i in range(case["others"]):
            items.insert(0 if case["first"] else len(items), I.BitField("o%d" % i, I.Bits[40 + i:41 + i]))
        items.append(I.BitField("end", I.Bits[47:48]))
        return [I.BitFields(*items)]
    if k == "mixed":
        items = []
        for i, p in enumerate(case["parts"]):
            items.append({"pos": lambda: I.BitField("b%d" % i, I.Bits[8 * i:8 * i + 8]), "seq": lambda: I.BitField("b%d" % i, 8),
                          "flag": lambda: I.BitFields, "pad": lambda: I.BitPadding(8)}[p]() if p != "flag" else I.BitField("b%d" % i, 16))
        return [I.BitFields(*items)]
    if k == "lazy":
        items = [lib.part(p) for p in case["parts"]]
        if case["deep"] == 1:
            return [I.Lazy(I.Field("n", lib.struct("Deep", items)))]
        if case["deep"] == 2:
            return [I.Lazy(I.UBInt8("z"), I.FixedSizeArray("n", 2, lib.struct("Deep", items)))]
        return [I.Lazy(*items)]
    if k == "const":
        v = {"struct": lambda: lib.Fixed(), "int": lambda: 5, "bytes": lambda: b"ab", "none": lambda: None, "class": lambda: lib.Fixed, "list": lambda: [1],
             "float": lambda: 1.5}[case["value"]]()
        m = {"struct": lib.Fixed, "int": I.UBInt8Marshal, "float": I.BFloat64Marshal}.get(case["value"], I.UBInt8Marshal)
        if case["value"] == "struct":
            return [I.ConstField("c", v)]
        return [I.ConstField("c", v, m) if case["marshal"] else I.ConstField("c", v)]
    if k == "fields":
        meta, S = type(I.Struct), I.Struct
        h = case["how"]
        if h == "missing":
            return meta("Decl", (S,), {})
        if h == "inherited":
            return meta("Decl", (lib.Fixed,), {})
        if h == "mixin":
            return meta("Decl", (type("Mixin", (object,), {"_fields_": [I.UBInt8("m")]}), S), {})
        f = [I.UBInt8("a"), I.UBInt8("b")]
        return meta("Decl", (S,), {"_fields_": {"list": f, "tuple": tuple(f), "empty": [], "container": I.Lazy(*f)}[h]})
    if k == "mapping":
        from infi.instruct.string import FixedSizeBufferMarshal, VarSizeStringMarshal
        from infi.instruct.array import VarSizeArrayMarshal
        m = {"num": I.UBInt8Marshal, "fbuf": FixedSizeBufferMarshal(1), "vstr": VarSizeStringMarshal(I.UBInt8Marshal),
             "varr": VarSizeArrayMarshal(I.UBInt8Marshal, I.UBInt8Marshal)}[case["marshal"]]
        val = (lambda v: v) if case["marshal"] == "num" else (lambda v: bytes(bytearray([65 + v])))
        return [I.MappingField("m", m, dict(("key%d" % i, val(v)) for i, v in enumerate(case["values"])))]
    if k == "selector":
        class Plain(object):
            pass
        E = lib.buffer("E", dict(v=B.uint_field(where=B.bytes_ref[0])))
        values = {"marshal": I.UBInt16Marshal, "instance": lib.Fixed(), "int": 1, "none": None, "buffer": E, "class": Plain, "str": "Fixed",
                  "field": I.UBInt8("f"), "list": [lib.Fixed]}
        structs = [lib.Fixed, lib.Fixed2, lib.Other, lib.Var, lib.Empty]
        mapping = dict((i, structs[i % 5] if t == "struct" else values[t]) for i, t in enumerate(case["items"]))
        return [I.Field("s", I.StructSelector(I.UBInt8Marshal, mapping, *([lib.Other] if case["default"] else [])))]
    if k == "default":
        n, have = case["size"], case["have"]
        if case["of"] == "fbuf":
            return [I.FixedSizeBuffer("d", n, default=b"a" * have)]
        if case["of"] == "fstr":
            return [I.FixedSizeString("d", n, default=b"a" * have)]
        return [I.FixedSizeArray("d", n, I.UBInt8Marshal, default=[1] * have)]
    if k == "padding":
        return [I.BytePadding(case["size"], case["char"])]
    if k == "where":
        hdr = B.uint_field(where=B.bytes_ref[0])
        at = lambda: B.bytes_ref[1 + B.num_ref(hdr) * 0:5 + B.num_ref(hdr) * 0] if case["ref"] else B.bytes_ref[1:5]
        kw = dict((n, at()) for n, g in zip(("where", "where_when_pack", "where_when_unpack"), case["given"]) if g)
        E = lib.buffer("E", dict(v=B.uint_field(where=B.bytes_ref[0:4])))
        if case["macro"] == "buffer_field":
            kw["type"] = E
        elif case["macro"] == "list_field":
            kw["type"] = B.uint8
        return dict(hdr=hdr, x=getattr(B, case["macro"])(**kw))
    if k == "listtype":
        class Plain(object):
            pass
        E = lib.buffer("E", dict(v=B.uint_field(where=B.bytes_ref[0])))
        t = {"int8": B.int8, "str": B.str_type_factory(byte_size=1), "buffer": E, "made": (B.uint16[0], B.uint16[1]), "int": 1, "none": None, "text": "uint8",
             "class": Plain, "struct": lib.Fixed, "list": list(B.uint8), "instance": E(), "module": B, "func": B.uint_field}[case["type"]]
        return dict(x=B.list_field(type=t, where=B.bytes_ref[0:4]))
    if k == "index":
        hdr = B.uint_field(where=B.bytes_ref[0])
        num = B.num_ref(hdr)
        bad = {"text": "1", "none": None, "float": 1.5, "nonnum": B.self_ref.hdr, "bytes": b"1", "dict": {}}

        def ix(i):
            if i[0] == "n":
                return i[1]
            if i[0] == "s":
                return slice(i[1], i[2], i[3])
            if i[0] == "ref":
                return num * 0
            if i[0] == "sref":
                return slice(num * 0, num * 0 + i[1]) if not case["bits"] else slice(0, i[1])
            return bad[i[1]]
        items = [ix(i) for i in case["items"]]
        parent = B.bytes_ref[1:40].bits if case["bits"] else B.bytes_ref
        # one at a time: together they may overlap
        fields = dict(hdr=hdr)
        for i, it in enumerate(items):
            loc = it if not case["nested"] else [it]
            fields["x%d" % i] = B.bytearray_field(where=parent[loc])
        return fields
    if k == "overlap":
        hdr = B.uint_field(where=B.bytes_ref[40])
        rs = case["ranges"]

        def one(r):
            a, b = r
            if a % 8 == 0 and b % 8 == 0:
                return B.bytes_ref[a // 8 + (B.num_ref(hdr) * 0 if case["dynamic"] else 0):b // 8 + (B.num_ref(hdr) * 0 if case["dynamic"] else 0)]
            return B.bytes_ref[0 + (B.num_ref(hdr) * 0 if case["dynamic"] else 0):30].bits[a:b]
        w = one(rs[0])
        if not case["dynamic"] and not case["split"]:
            w = B.bytes_ref[0:30].bits[[slice(a, b) for a, b in rs]]
        else:
            for r in rs[1:]:
                w = w + one(r)
        return dict(hdr=hdr, x=B.bytearray_field(where=w))
    hdr = B.uint_field(where=B.bytes_ref[0])
    other = B.uint_field(where=B.bytes_ref[1])
    items = [{"field": other, "int": 1, "text": "hdr", "expr": hdr + 1, "ref": B.self_ref.hdr, "none": None}[p] for p in case["parts"]]
    return dict(hdr=hdr, other=other, x=B.uint_field(where=B.bytes_ref[2], unpack_after=items if case["form"] == "list" else tuple(items)))


def check(case):
    lib = Lib()
    I, B = lib.I, lib.B
    sbase = lib.struct("SBase", [I.UBInt8("base1", 3), I.UBInt8("base2", 4)])
    bbase = lib.buffer("BBase", dict(base1=B.uint_field(where=B.bytes_ref[60], default=3), base2=B.uint_field(where=B.bytes_ref[61], default=4)))
    ok = well_formed(case)
    try:
        made = declare(case, lib)
        if isinstance(made, list):
            cls = lib.struct("Decl", (list(sbase._fields_) if case["sub"] else []) + made, sbase if case["sub"] else None)
        elif isinstance(made, dict):
            cls = lib.buffer("Decl", made, bbase if case["sub"] else None)
            if case["kind"] == "overlap" and case["dynamic"]:  # only known when the positions are
                o = cls(hdr=1, x=bytearray(200))
                o.pack()
        else:
            cls = made
    except Exception as e:
        expect(not ok, "a well-formed declaration is refused: %s: %s", type(e).__name__, str(e))
    else:
        expect(ok, "an ill-formed declaration is accepted: %s", short(cls))
        if case["kind"] in ("bits", "posbits", "bitsize"):
            size = (sum(1 if t == "flag" else w for t, w in case["widths"]) if case["kind"] == "bits" else
                    max(s[1] for g in case["groups"] for s in g) if case["kind"] == "posbits" else case["size"]) // 8 + (2 if case["sub"] else 0)
            got = call("min_max_sizeof", cls.min_max_sizeof)
            expect(tuple(got) == (size, size), "the size of a group of bits is %s, expected %d", short(got), size)
    expect(call("to_bytes of the base", sbase().to_bytes) == b"\3\4", "the base struct is written as %s", short(sbase().to_bytes()))
    expect(bytes(call("pack of the base", bbase().pack)) == b"\0" * 60 + b"\3\4" and bbase.byte_size == 62, "the base buffer is packed as %s", short(bbase().pack()))
    p = call("constructor of the base", bbase)
    expect(call("unpack of the base", p.unpack, b"\7" * 62) == 62 and (p.base1, p.base2) == (7, 7), "the base buffer is unpacked as %s", short(p))
