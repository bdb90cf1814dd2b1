"""C18: Struct bit fields pack and unpack exactly their own bits.

1-3 groups of sequential or positional bit fields (any widths, splits, order, padding, constants, also inside a lazy
group) between byte fields, written with in-range and out-of-range values and read from arbitrary bytes, against a model
of bit positions; groups that do not fill whole bytes must be refused when declared.
"""
from common import call, expect, expect_same, must_raise, short, Discard
import structmodel as sm


def gen(d):
    if d.chance(1, 6):
        return gen_partial(d)
    g = sm.G(d)
    fields = []
    for _ in range(d.int(1, 3)):
        if d.chance(1, 3):
            fields.append({"k": "val", "name": g.name(), "m": {"k": "num", "t": "UBInt8"}, "via": "macro"})
        f = g.bits() if d.bool() else g.pbits()
        if d.chance(1, 3):
            f = {"k": "lazy", "fields": [f]}
        fields.append(f)
    spec = {"name": "S0", "fields": fields, "form": "list"}
    for f, slots in groups(spec):
        for i, s in slots:
            if i.get("kind") not in ("pad", "const") and d.chance(1, 4):
                i["default"] = d.uint(len(s))
    values, wild = [g.svalue(spec) for _ in range(2)], []
    names = [i["name"] for f, slots in groups(spec) for i, s in slots if i.get("kind") not in ("pad", "const")]
    widths = dict((i["name"], len(s)) for f, slots in groups(spec) for i, s in slots if "name" in i)
    for _ in range(2):
        if names:
            n = d.choice(names)
            w = widths[n]
            wild.append([n, d.choice([1 << w, (1 << w) + 1, (1 << (w + 1)) - 1, (1 << 70) + 3, -1, -2, -(1 << w), 255, 256, 0x1234567])])
    size = sm.s_fixed(spec)
    return dict(mode="fields", spec=spec, values=values, wild=wild, raws=[d.bytes(size, size) for _ in range(2)], flags=d.bool())


def gen_partial(d):
    widths = [d.int(1, 12) for _ in range(d.int(1, 5))]
    if sum(widths) % 8 == 0:
        widths[0] += d.int(1, 7)
    pos = d.bool()
    if pos:
        end = d.int(1, 40)
        end += end % 8 == 0
        cuts = sorted(set([0, end] + [d.int(0, end) for _ in range(d.int(0, 3))]))
        return dict(mode="refuse", positional=True, slices=d.perm([[a, b] for a, b in zip(cuts, cuts[1:])]))
    return dict(mode="refuse", positional=False, widths=widths, pads=[d.chance(1, 4) for _ in widths])


def groups(spec):
    for f in sm.flat(spec)["fields"]:
        if f["k"] in ("bits", "pbits"):
            yield f, sm.bit_slots(f)


def classify(case):
    if case["mode"] == "refuse":
        return ["refuse", "positional" if case["positional"] else "sequential"], True
    l = sm.labels(case["spec"])
    if case["wild"]:
        l.add("out-of-range")
    n = sum(len(s) for f, s in groups(case["spec"]))
    return l, n > 1


def check(case):
    import infi.instruct as I
    if case["mode"] == "refuse":
        if case["positional"]:
            fields = [I.BitField("f%d" % i, slice(a, b)) for i, (a, b) in enumerate(case["slices"])]
        else:
            fields = [I.BitPadding(w) if p else I.BitField("f%d" % i, w) for i, (w, p) in enumerate(zip(case["widths"], case["pads"]))]
        must_raise("a bit field group that is not a whole number of bytes", I.InstructError, I.BitFields, *fields)
        return
    spec = case["spec"]
    real = call("declaring the classes", sm.Real, spec)
    cls, size = real.cls, sm.s_fixed(spec)
    expect_same(tuple(cls.min_max_sizeof()), (size, size), "size bounds")
    fresh = call("constructor", cls)
    for f, slots in groups(spec):
        for i, s in slots:
            if i.get("default") is not None:
                expect_same(getattr(fresh, i["name"]), i["default"], "default of %s", i["name"])
            if i.get("kind") == "const":
                expect_same(getattr(fresh, i["name"]), i["value"], "constant %s", i["name"])
                must_raise("setting constant %s" % i["name"], I.InstructError, setattr, fresh, i["name"], i["value"] + 1)
    for vals in case["values"]:
        o = real.new(vals)
        want = sm.enc_struct(spec, vals)
        expect_same(call("to_bytes", o.to_bytes), want, "written bytes of %s", short(vals))
        expect_same(call("sizeof", cls.sizeof, o), size, "sizeof")
        r = call("create_from_string", cls.create_from_string, want)
        expect_same(real.extract(spec, r), sm.canon_struct(spec, vals), "values read back")
        if case["flags"]:
            for f, slots in groups(spec):
                for i, s in slots:
                    if i.get("kind") == "flag":
                        setattr(o, i["name"], bool(vals[i["name"]]))
            expect_same(call("to_bytes", o.to_bytes), want, "written bytes with bool flags")
        for name, v in case["wild"]:
            o = real.new(dict(vals, **{name: v}))
            try:
                got = o.to_bytes()
            except Exception:
                continue  # refusing is fine
            mask = own_bits(spec, name)
            expect_same(len(got), size, "number of bytes written with %s=%d", name, v)
            a, b = (int.from_bytes(x, "little") & ~mask for x in (got, want))
            expect_same(a, b, "bits outside %s written with %s=%d", name, name, v)
    for raw in case["raws"]:
        raw = with_consts(spec, raw)
        r = call("create_from_string", cls.create_from_string, raw)
        want = dec(spec, raw)
        expect_same(real.extract(spec, r), want, "values read from %s", short(raw))
        expect_same(call("to_bytes", r.to_bytes), sm.enc_struct(spec, want), "bytes written for the struct read from %s", short(raw))


def offsets(spec):
    at = 0
    for f in sm.flat(spec)["fields"]:
        yield f, at
        at += sm.f_fixed(f)


def own_bits(spec, name):
    for f, at in offsets(spec):
        if f["k"] in ("bits", "pbits"):
            for i, slots in sm.bit_slots(f):
                if i.get("name") == name:
                    return sum(1 << (8 * at + b) for b in slots)


def dec(spec, raw):
    out = {}
    for f, at in offsets(spec):
        if f["k"] == "val":
            out[f["name"]] = raw[at]
        else:
            out.update(sm.dec_bits(f, raw[at:at + sm.f_fixed(f)]))
    return out


def with_consts(spec, raw):
    acc = int.from_bytes(raw, "little")
    for f, at in offsets(spec):
        if f["k"] == "bits":
            for i, slots in sm.bit_slots(f):
                if i["kind"] == "const":
                    for j, b in enumerate(slots):
                        acc &= ~(1 << (8 * at + b))
                        acc |= ((i["value"] >> j) & 1) << (8 * at + b)
    return acc.to_bytes(len(raw), "little")
