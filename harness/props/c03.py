"""C03: variable-size Buffers round trip."""
from common import call, expect, expect_same, short, Discard
import bufdyn as bd


def gen(d):
    spec = bd.gen_spec(d, 1, True, big=d.chance(1, 6))
    return dict(spec=spec, values=bd.gen_values(d, spec), other=bd.gen_values(d, spec), trailing=d.bytes(0, 4), assign=d.bool())


def classify(case):
    l = bd.labels(case["spec"])
    return l, len(case["spec"]["parts"]) > 1


def check(case):
    spec, values = case["spec"], case["values"]
    if not bd.representable(spec, values) or not bd.representable(spec, case["other"]):
        raise Discard()
    real = call("declaring the class", bd.Real, spec)
    o = call("constructor", real.make, values, case["assign"])
    want = bd.encode(spec, values)
    got = bytes(call("pack", o.pack))
    expect_same(got, want, "packed bytes of %s", short(values))
    real.verify(o, values, "object after pack")
    trailing = b"" if bd.is_open(spec) else case["trailing"]
    p = call("constructor", real.cls)
    call("unpack of %s" % short(got + trailing), p.unpack, got + trailing)
    real.verify(p, values, "unpacked from %s" % short(got + trailing))
    expect_same(bytes(call("pack of the unpacked object", p.pack)), want, "pack of the unpacked object")
    # the same objects again, for other values
    other = bd.encode(spec, case["other"])
    q = call("constructor", real.make, case["other"])
    expect_same(bytes(call("pack", q.pack)), other, "packed bytes of %s", short(case["other"]))
    call("unpack into a used object", p.unpack, other)
    real.verify(p, case["other"], "unpacked into a used object")
    expect_same(bytes(call("pack again", p.pack)), other, "pack of the reused object")
