"""C17: Struct size reports match the bytes - sizeof, bounds and fixed size.

A random struct with three value sets (ordinary, everything empty, everything as long as it gets): for the struct, every
nested struct class and every field's marshal, sizeof equals the number of bytes written, the reported bounds enclose
it (and the length of input with strippable padding) and never change, and what is reported as fixed size always has
that size; a class made of fixed-size parts only is reported as such.
"""
import sys
from common import call, expect, expect_same, short
import structmodel as sm


class Extreme(sm.G):
    """Generates the shortest or longest value of every variable-size part (8-bit sizes only)."""
    mode = "max"

    def value(self, m, small=False):
        k = m["k"]
        if k in ("vstr", "vbuf", "varr", "sarr"):
            if self.mode == "min":
                return [] if k in ("varr", "sarr") else b""
            if m.get("sz", "").endswith("Int8"):
                top = sm.num_range(m["sz"])[1]
                if k == "vbuf":
                    return b"x" * top
                if k == "vstr":
                    v = b"x" * top
                    return v if sm.strip(v, m) == v else b"yz" * (top // 2)
                size = sm.m_fixed(m["elem"])
                if size and m["elem"]["k"] in ("num", "fbuf", "pstr", "map"):
                    return [self.value(m["elem"])] * (top if k == "varr" else top // size)
                x = self.value(m["elem"])
                n = len(sm.enc(m["elem"], x))
                if n == 0:
                    return [] if k == "sarr" else [x] * min(top, 3)
                if k == "sarr":
                    return [x] * (top // n)
                return [x] * (top if top * n < 20000 else 2)
        return sm.G.value(self, m)


def gen(d):
    g = Extreme(d)
    spec = g.struct(d.choice([0, 1, 2, 2, 3]), d.chance(1, 5), 0, 5)
    values = [sm.G.svalue(g, spec)]
    for mode in ("min", "max"):
        g.mode = mode
        values.append(g.svalue(spec))
    plain = sm.G(d)
    values[0] = plain.svalue(spec)
    return dict(spec=spec, values=values, sub=d.bytes(0, 5))


def classify(case):
    l = sm.labels(case["spec"])
    fixed = sm.s_fixed(case["spec"]) is not None
    return l | {"fixed" if fixed else "variable"}, bool(case["spec"]["fields"])


def bounds(what, thing):
    mm = call("min_max_sizeof of %s" % what, thing.min_max_sizeof)
    lo, hi = mm.min, mm.max
    expect(isinstance(lo, int) and isinstance(hi, int) and 0 <= lo <= hi <= sys.maxsize, "%s reports the bounds %s", what, short(tuple(mm)))
    if hasattr(thing, "is_fixed_size"):
        expect_same(bool(call("is_fixed_size of %s" % what, thing.is_fixed_size)), lo == hi, "is_fixed_size of %s with the bounds %s" % (what, (lo, hi)))
    return lo, hi


def m_max(m):
    """a size that some value can have (a lower bound of the largest one)"""
    k = m["k"]
    size = sm.m_fixed(m)
    if size is not None:
        return size
    if k in ("vstr", "vbuf", "varr") and m.get("sz"):
        n = sm.num_range(m["sz"])[1]
        return sm.num_info(m["sz"])[0] + n * (m_max(m["elem"]) if k == "varr" else 1)
    if k == "sarr" and m.get("sz"):
        e = sm.m_fixed(m["elem"])
        return sm.num_info(m["sz"])[0] + (sm.num_range(m["sz"])[1] // e * e if e else 0)
    if k == "farr":
        return m["n"] * m_max(m["elem"])
    return max([sum(f_max(f) for f in sp["fields"]) for sp in sm.specs_of(m)] + [0])


def f_max(f):
    size = sm.f_fixed(f)
    return size if size is not None else 0 if f["k"] == "ptr" else m_max(f["m"])


def subclass(real, sub):
    """where a struct of a class is expected, an object of a subclass is measured as it is written"""
    I = real.I
    cls = type(I.Struct)("Sub", (real.cls,), {"_fields_": [I.ULInt16("sub_x", 0), I.VarSizeBuffer("sub_y", I.UBInt8)]})
    holder = type(I.Struct)("Holder", (I.Struct,), {"_fields_": [I.Field("h", real.cls), I.VarSizeArray("l", I.UBInt8, real.cls)]})
    o = call("constructor of a subclass", cls, sub_x=7, sub_y=sub)
    n = 3 + len(sub)
    expect_same(len(call("to_bytes", o.to_bytes)), n, "number of bytes of a subclass object")
    for c in (real.cls, cls):
        expect_same(call("sizeof", c.sizeof, o), n, "sizeof of a subclass object, by %s", c.__name__)
        expect_same(len(call("write_to_string", c.write_to_string, o)), n, "bytes of a subclass object, by %s", c.__name__)
    h = call("constructor", holder, h=o, l=[o, o])
    expect_same(len(call("to_bytes", h.to_bytes)), 3 * n + 1, "bytes of a struct with subclass objects")
    expect_same(call("sizeof", holder.sizeof, h), 3 * n + 1, "sizeof of a struct with subclass objects")


def check(case):
    spec = case["spec"]
    real = call("declaring the classes", sm.Real, spec)
    before = dict((n, bounds("class " + n, c)) for n, c in real.classes.items())
    fields = {}

    def visit_fields(fs):
        for f in fs:
            if f["k"] == "lazy":
                visit_fields(f["fields"])
            rf = real.field(f)
            fields[id(f)] = (f, rf, bounds("a field", rf))
            top = min(f_max(f), sys.maxsize)
            expect(fields[id(f)][2][1] >= top, "the %s field %s can take %s bytes, its bounds are %s", f["k"], f.get("name"), top, fields[id(f)][2])
            want = sm.f_fixed(f)
            if want is not None:
                expect_same(fields[id(f)][2], (want, want), "bounds of the fixed-size %s field %s", f["k"], f.get("name"))
    visit_fields(spec["fields"])
    seen = {}

    def one(name, got, size, what):
        lo, hi = before[name]
        expect(lo <= size <= hi, "%s takes %d bytes, outside the reported bounds %s of class %s", what, size, (lo, hi), name)

    def visit(sp, vals, obj, raw):
        n = len(sm.enc_struct(sp, vals))
        if not raw:
            expect_same(call("sizeof", type(obj).sizeof, obj), n, "sizeof of %s", short(obj))
        one(sp["name"], None, n, "a written %s" % sp["name"])
        try:
            m = len(sm.enc_struct(sp, vals, True))
        except OverflowError:
            m = n
        one(sp["name"], None, m, "a readable %s" % sp["name"])
        for f, const in sm.named(sp):
            if "m" in f and not const and vals[f["name"]] is not None:
                visit_m(f["m"], vals[f["name"]], getattr(obj, f["name"]), raw)

    def visit_m(m, v, obj, raw):
        if m["k"] == "nest":
            visit(m["spec"], v, obj, raw)
        elif m["k"] in ("sel", "fsel"):
            visit(sm.case_of(m, v), v["v"], obj, raw)
        elif m["k"] in ("farr", "varr", "sarr"):
            for x, y in list(zip(v, obj))[:4]:
                visit_m(m["elem"], x, y, raw)

    subclass(real, case.get("sub", b"q"))
    for vals in case["values"]:
        o = real.new(vals)
        visit(spec, vals, o, False)
        want = sm.enc_struct(spec, vals)
        expect_same(len(call("to_bytes", o.to_bytes)), len(want), "number of bytes written")
        expect_same(call("sizeof", real.cls.sizeof, o), len(want), "sizeof after writing")
        for other in case["values"]:
            if other is not vals:  # the same object, with other contents
                real.morph(spec, o, other)
                n = len(sm.enc_struct(spec, other))
                expect_same(call("sizeof", real.cls.sizeof, o), n, "sizeof of a changed object")
                expect_same(len(call("to_bytes", o.to_bytes)), n, "number of bytes written of a changed object")
                real.morph(spec, o, vals)
                expect_same(call("sizeof", real.cls.sizeof, o), len(want), "sizeof of an object changed back")
        r = call("create_from_string", real.cls.create_from_string, want)
        expect_same(call("sizeof", real.cls.sizeof, r), len(want), "sizeof of a struct that was read")
        visit(spec, sm.canon_struct(spec, vals), r, False)
        for f, rf, (lo, hi) in [x for x in fields.values()]:
            size = len(sm.enc_fields([f], vals))
            expect(lo <= size <= hi, "field %s takes %d bytes, outside its bounds %s", f.get("name", f["k"]), size, (lo, hi))
            got = call("sizeof of field %s" % f.get("name", f["k"]), rf.sizeof, o)
            expect_same(got, size, "sizeof of the %s field %s", f["k"], f.get("name"))
            if "m" in f and f["k"] in ("val", "opt") and vals[f["name"]] is not None:
                m = rf.marshal
                expect_same(call("marshal sizeof", m.sizeof, getattr(o, f["name"])), size, "size of the value of %s", f["name"])
                if f["k"] == "val":
                    expect_same(bounds("marshal", m), (lo, hi), "bounds of the marshal of %s", f["name"])
        for n, c in real.classes.items():
            expect_same(bounds("class " + n, c), before[n], "bounds of class %s after using an object", n)
    for sp in specs(spec):
        top = min(sum(f_max(f) for f in sp["fields"]), sys.maxsize)
        expect(before[sp["name"]][1] >= top, "class %s can take %s bytes, its bounds are %s", sp["name"], top, before[sp["name"]])
        size = sm.s_fixed(sp)
        if size is not None:
            expect_same(before[sp["name"]], (size, size), "bounds of the fixed-size class %s", sp["name"])


def specs(spec):
    yield spec

    def of_m(m):
        for k in ("m", "elem", "key"):
            if isinstance(m.get(k), dict):
                for x in of_m(m[k]):
                    yield x
        for sp in sm.specs_of(m):
            for x in specs(sp):
                yield x
    for f, const in sm.named(spec):
        if "m" in f:
            for x in of_m(f["m"]):
                yield x
