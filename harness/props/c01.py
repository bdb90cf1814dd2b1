"""C01: packing puts every field exactly in its declared bits."""
from common import call, expect, expect_same, short
import bufstatic as bs


def gen(d):
    big = d.chance(1, 8)
    layout = bs.gen_layout(d, 1, 6, big=big)
    return dict(layout=layout, values=bs.gen_values(d, layout), other=bs.gen_values(d, layout), assign=d.bool())


def classify(case):
    l = bs.labels(case["layout"])
    return l, len(case["layout"]["fields"]) > 1 or "split" in l or "unaligned" in l


def check(case):
    layout, values = case["layout"], case["values"]
    real = call("declaring the class", bs.Real, layout)
    want = bs.pack(layout, values)
    if case["assign"]:
        o = call("constructor", real.cls)
        for f in layout["fields"]:
            setattr(o, f["name"], real.value(f, values[f["name"]]))
    else:
        o = call("constructor", real.make, values)
    got = call("pack", o.pack)
    expect(isinstance(got, (bytes, bytearray)), "pack() gave %s", type(got))
    diff(layout, values, bytes(got), want, "pack")
    diff(layout, values, bytes(call("pack again", o.pack)), want, "second pack")
    real.verify(o, values, "object after pack")
    # the same object with other values, and a new object: nothing stays from the earlier pack
    for f in layout["fields"]:
        setattr(o, f["name"], real.value(f, case["other"][f["name"]]))
    diff(layout, case["other"], bytes(call("pack of the changed object", o.pack)), bs.pack(layout, case["other"]), "pack after assignment")
    # one field changed: only its bits change
    f = layout["fields"][0]
    setattr(o, f["name"], real.value(f, values[f["name"]]))
    mixed = dict(case["other"])
    mixed[f["name"]] = values[f["name"]]
    diff(layout, mixed, bytes(call("pack after one assignment", o.pack)), bs.pack(layout, mixed), "pack after one assignment")


def diff(layout, values, got, want, what):
    if got == want:
        return
    expect_same(len(got), len(want), "%s of %s: length", what, short(values))
    g, w = bs.to_bits(got), bs.to_bits(want)
    bad = [i for i in range(len(g)) if g[i] != w[i]]
    owner = [f["name"] for f in layout["fields"] if bad[0] in bs.positions(f)]
    expect(False, "%s of %s: bit %d (%s) is %d; got %s, expected %s", what, short(values), bad[0],
           "field " + owner[0] if owner else "no field", g[bad[0]], short(got), short(want))
