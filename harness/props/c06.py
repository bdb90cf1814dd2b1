"""C06: Buffers reject what cannot be packed or unpacked, naming the class and the field."""
from common import call, expect, expect_same, must_raise, short, first_line, Violation
import bufstatic as bs

WRONG = {"int": ["none", "str", "float", "list", "object", "bytes", "silent"], "float": ["none", "str", "list", "object", "bytes", "silent"],
         "bytes": ["none", "str", "object", "float", "badlist", "int", "silent"], "buf": ["none", "number", "str", "silent"],
         "list": ["none", "number", "object", "silent"], "json": ["object", "silent", "set", "bytes", "bytearray", "complex", "in-list", "in-dict", "key"]}


def bad_int(d, lo, hi):
    k = d.int(0, 5)
    if k == 0:
        return hi + 1
    if k == 1:
        return lo - 1
    if k == 2:
        return hi + 1 + d.int(0, 300)
    if k == 3:
        return lo - 1 - d.int(0, 300)
    if k == 4:
        return (hi + 1) << d.int(0, 70)
    return -(1 << d.int(d.int(0, 8), 70)) + min(0, lo) * 2 - 1


def value_fault(d, t):
    """-> fault for a value of this type, or None"""
    k = t["k"]
    if k == "int" and d.chance(2, 3):
        return ["value", bad_int(d, *bs.int_domain(t))]
    if k == "bytes" and d.chance(1, 2):
        n = d.int(0, t["size"] - 1)
        return ["value", d.bytes(n, n)]
    if k == "str":
        if t["enc"] == "ascii":
            return ["value", "a\xe9"[d.int(0, 1):]]
        if t["enc"] == "latin-1":
            return ["value", "\u20ac"]
        return ["value", d.choice(["\ud800", "a\udfff", "\udc80b"])]  # no encoding has lone surrogates
    if k == "list" and d.chance(2, 3):
        good = bs.gen_value(d, t)
        i = d.int(0, len(good) - 1)
        if d.bool():
            return ["value", good[:i]]
        if t["elem"]["e"] == "int":
            size, signed, _ = bs.elem_int(t["elem"]["name"])
            lo, hi = (-(1 << (8 * size - 1)), (1 << (8 * size - 1)) - 1) if signed else (0, (1 << (8 * size)) - 1)
            return ["value", good[:i] + [bad_int(d, lo, hi)] + good[i + 1:]]
        if t["elem"]["e"] == "buf":
            f = layout_fault(d, t["elem"]["sub"])
            if f is not None:
                return ["elem", i, good, f]
        return ["value", good[:i]]
    if k == "buf" and d.chance(2, 3):
        f = layout_fault(d, t["sub"])
        if f is not None:
            return ["nested", bs.gen_value(d, t), f]
    return ["wrong", d.choice(WRONG[k])]


def layout_fault(d, layout):
    """-> [field index, fault] or None"""
    i = d.int(0, len(layout["fields"]) - 1)
    f = value_fault(d, layout["fields"][i]["t"])
    return None if f is None else [i, f]


def layouts(layout):
    yield layout
    for f in layout["fields"]:
        t = f["t"]
        sub = t["sub"] if t["k"] == "buf" else t["elem"].get("sub") if t["k"] == "list" else None
        for x in layouts(sub) if sub else ():
            yield x


def gen(d):
    layout = bs.gen_layout(d, 1, 5, big=d.chance(1, 10))
    case = dict(layout=layout, values=bs.gen_values(d, layout), fault=None)
    for x in layouts(layout):  # classes with a __repr__ of their own
        if d.chance(1, 8):
            x["repr"] = d.choice(["fails", "formats", "braces"])
    k = d.int(0, 6)
    if k <= 3:
        case["fault"] = layout_fault(d, layout)
    if case["fault"] is not None:
        case["mode"] = "pack"
    elif k == 6:
        case["mode"] = "overlap"
        i = d.int(0, len(layout["fields"]) - 1)
        f = dict(layout["fields"][i])
        p = d.choice(bs.positions(f))
        f["expr"] = ["+", f["expr"], bs.gen_expr(d, [(max(0, p - d.int(0, 9)), p + d.int(1, 9))])]
        case["field"] = f
        case["at"] = i
    else:
        case["mode"] = "truncate"
        n = bs.layout_size(layout)
        case["length"] = d.int(max(0, n - 4), n - 1) if d.bool() else d.int(0, n - 1)
        case["noise"] = d.bytes(1, 9)
        case["kind"] = d.choice(["bytes", "bytearray", "view-middle", "view-unaligned"])
        case["reuse"] = d.bool()
    return case


def classify(case):
    l = {case["mode"]}
    if case["mode"] == "pack":
        i, f = case["fault"]
        l.add("fault-%s-%s" % (case["layout"]["fields"][i]["t"]["k"], f[0]))
    if case["mode"] == "truncate":
        l.add("input-" + case["kind"])
        l |= set("repr-" + x["repr"] for x in layouts(case["layout"]) if x.get("repr"))
        l.add("strict" if strict(case["layout"], case["length"]) else "lenient")
        return l, "strict" in l
    return l, True


def strict(layout, length):
    """fields that need bits beyond the input and have to refuse"""
    out = []
    for f in layout["fields"]:
        ps = bs.positions(f)
        have = [p for p in ps if p < 8 * length]
        if len(have) == len(ps):
            continue
        if f["t"]["k"] in ("int", "float", "str", "json"):
            out.append(f["name"])
        elif f["t"]["k"] == "buf":
            # the nested layout sees the bits that are there, in order (a whole number of bytes or not)
            n, rest = len(have), len(have) % 8
            sub = f["t"]["sub"]
            if rest == 0 and strict(sub, n // 8):
                out.append(f["name"])
    return out


class Unpackable(object):
    def __repr__(self):
        return "<unpackable>"


class Silent(Unpackable):
    def __repr__(self):
        raise ValueError("no repr")


def wrong(kind, t):
    return {"none": None, "str": "abc", "float": 1.5, "list": [1], "object": Unpackable(), "silent": Silent(), "bytes": b"\1", "badlist": [300] * 400, "set": set(["a"]), "bytearray": bytearray(b"ab"),
            "complex": 1j, "in-list": [1, [set(["a"])]], "in-dict": {"a": {"b": b"c"}}, "key": {(1, 2): 3},
            "number": 7, "int": t.get("size", 1) + 3}[kind]


def broken_value(real, f, fault):
    t = f["t"]
    if fault[0] == "value":
        if t["k"] == "list" and t["elem"]["e"] == "buf":
            return [real.subs[f["name"]].make(x) for x in fault[1]]
        return bytearray(fault[1]) if t["k"] == "bytes" else fault[1]
    if fault[0] == "wrong":
        return wrong(fault[1], t)
    sub = real.subs[f["name"]]
    if fault[0] == "nested":
        return broken_object(sub, fault[1], fault[2])
    i, good, inner = fault[1], fault[2], fault[3]
    return [broken_object(sub, x, inner) if j == i else sub.make(x) for j, x in enumerate(good)]


def broken_object(real, values, fault):
    i, inner = fault
    o = real.make(values)
    f = real.layout["fields"][i]
    setattr(o, f["name"], broken_value(real, f, inner))
    return o


def refused(what, fn, cls, names):
    from infi.instruct import InstructError
    from infi.instruct.buffer.buffer import InstructBufferError
    try:
        r = fn()
    except InstructBufferError as e:
        expect(isinstance(e, InstructError), "%s: not an InstructError", what)
        expect(e.attr_name in names, "%s: the error names field %r, expected %s", what, e.attr_name, sorted(names))
        if isinstance(cls, type):
            expect(e.clazz is cls or e.clazz == cls.__name__, "%s: the error names class %r", what, e.clazz)
        expect(e.attr_name in str(e), "%s: the message does not name the field", what)
        return
    except Exception as e:
        raise Violation("%s raised %s (%s) instead of a buffer error" % (what, type(e).__name__, first_line(e)))
    raise Violation("%s was accepted and gave %s" % (what, short(bytes(r) if isinstance(r, bytearray) else r)))


def check(case):
    layout, values = case["layout"], case["values"]
    if case["mode"] == "overlap":
        lay = dict(layout, fields=[case["field"] if i == case["at"] else f for i, f in enumerate(layout["fields"])])
        name = case["field"]["name"]

        def use():
            real = bs.Real(lay)
            return real.make(values).pack()

        def use2():
            real = bs.Real(lay)
            return real.cls().unpack(bs.pack(layout, values) + bytes(400))
        refused("packing a field with overlapping positions %r" % (case["field"]["expr"],), use, "Layout", [name])
        refused("unpacking a field with overlapping positions %r" % (case["field"]["expr"],), use2, "Layout", [name])
        return
    real = call("declaring the class", bs.Real, layout)
    if case["mode"] == "pack":
        o = call("constructor", real.make, values)
        i, fault = case["fault"]
        f = layout["fields"][i]
        bad = broken_value(real, f, fault)
        setattr(o, f["name"], bad)
        refused("packing %s=%s as %s" % (f["name"], short(bad), f["t"]), o.pack, real.cls, [f["name"]])
        refused("packing it again", o.pack, real.cls, [f["name"]])
        setattr(o, f["name"], real.value(f, values[f["name"]]))
        expect_same(bytes(call("pack after the value was corrected", o.pack)), bs.pack(layout, values), "pack after the value was corrected")
        return
    from props.c02 import make_input, stretch
    n = bs.layout_size(layout)
    data = bs.pack(layout, values, stretch(case["noise"], n))
    names = strict(layout, case["length"])
    if not names:
        return
    touched = [f["name"] for f in layout["fields"] if max(bs.positions(f)) >= 8 * case["length"]]
    o = call("constructor", real.make, values) if case["reuse"] else call("constructor", real.cls)
    inp, _ = make_input(case["kind"], data[:case["length"]], 3)
    refused("unpacking %d of %d bytes (fields %s do not fit)" % (case["length"], n, names), lambda: o.unpack(inp), real.cls, touched)
    call("unpack of the whole data afterwards", o.unpack, data)
    real.verify(o, values, "unpack of the whole data after a refusal")
