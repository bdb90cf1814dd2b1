"""C15: Struct wire format - fields in order, and reading inverts writing.

One random struct tree with two value sets: built through the constructor, by assignment or by re-using an object,
written in every public way and compared with the model's encoding, then read back (into equal values) and re-written.
"""
from array import array
from common import call, expect, expect_same, short
import structmodel as sm


def gen(d):
    case = sm.gen_case(d, depth=d.choice([0, 1, 2, 2, 3]), hi=6)
    case["how"] = [d.choice(["kwargs", "assign"]), d.choice(["kwargs", "assign", "reuse", "morph"])]
    return case


def classify(case):
    l = sm.labels(case["spec"])
    return l, len(list(sm.named(case["spec"]))) > 1 or bool(l & {"nest", "sel", "fsel", "varr", "sarr", "farr"})


def check(case):
    spec = case["spec"]
    real = call("declaring the classes", sm.Real, spec)
    cls = real.cls
    o = None
    for vals, how in zip(case["values"], case["how"]):
        want, canon = sm.enc_struct(spec, vals), sm.canon_struct(spec, vals)
        if how == "reuse":
            kw = real.kwargs(spec, vals)
            for n in kw:
                call("assignment of %s" % n, setattr, o, n, kw[n])
        elif how == "morph":
            real.morph(spec, o, vals)
        else:
            o = real.new(vals, how)
        for i in range(2):
            expect_same(call("write_to_string", cls.write_to_string, o), want, "written bytes of %s", short(vals))
        expect_same(call("to_bytes", o.to_bytes), want, "to_bytes()")
        sink = sm.Sink(b"before")
        call("write_to_stream", cls.write_to_stream, o, sink)
        expect_same(sink.data, b"before" + want, "bytes written to a stream")
        r = call("create_from_string of %s" % short(want), cls.create_from_string, want)
        expect_same(real.extract(spec, r), canon, "values read from %s", short(want))
        expect_same(call("write_to_string", cls.write_to_string, r), want, "bytes written for the struct that was read")
        expect_same(real.extract(spec, r), canon, "values after writing the struct that was read")
        r = call("create_from_string of an array", cls.create_from_string, array("B", want))
        expect_same(real.extract(spec, r), canon, "values read from an array")
        r = call("create_from_stream", cls.create_from_stream, sm.TellStream(want))
        expect_same(call("to_bytes", r.to_bytes), want, "bytes of an unexamined struct that was read")
