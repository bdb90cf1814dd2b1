"""C16: reading a Struct consumes exactly its own bytes, in order.

Up to four structs of up to two classes are written back to back into one stream (compared with the model), followed by
arbitrary bytes, and read back one by one from streams with and without tell(): every requested read must lie inside
the struct being read, the position afterwards is its end, lazily read values come from its own bytes, and different
trailing bytes make no difference.  Strings also come with padding that writing would have stripped.
"""
import io
from common import call, expect, expect_same, short, Discard
import structmodel as sm


def gen(d):
    g = sm.G(d)
    specs = [g.struct(d.choice([0, 1, 2, 2, 3]), False, 0, 5) for _ in range(d.int(1, 2))]
    seq = []
    for _ in range(d.int(1, 4)):
        i = d.int(0, len(specs) - 1)
        seq.append([i, g.svalue(specs[i]), d.bool()])
    return dict(specs=specs, seq=seq, tails=[d.bytes(0, 6), d.bytes(0, 12)], before=d.bytes(0, 3), late=d.bool(),
                stream=d.choice(["tell", "notell", "pipe", "bytesio"]), close=d.bool())


def classify(case):
    l = set()
    for sp in case["specs"]:
        l |= sm.labels(sp)
    return l | {case["stream"], "items-%d" % len(case["seq"])}, len(case["seq"]) > 1 and any(sp["fields"] for sp in case["specs"])


def check(case):
    reals = [call("declaring the classes", sm.Real, sp) for sp in case["specs"]]
    sink = sm.Sink(case["before"])
    wires, canons = [], []
    for i, vals, raw in case["seq"]:
        sp = case["specs"][i]
        want = sm.enc_struct(sp, vals)
        o = reals[i].new(vals)
        at = len(sink.data)
        call("write_to_stream", reals[i].cls.write_to_stream, o, sink)
        expect_same(sink.data[:at], sink.data[:at], "earlier bytes")
        expect_same(sink.data[at:], want, "bytes appended for %s", short(vals))
        try:
            wires.append(sm.enc_struct(sp, vals, True) if raw else want)
        except OverflowError:
            wires.append(want)
        canons.append(sm.canon_struct(sp, vals))
    for tail in case["tails"]:
        for kind in ("tell", "notell", "pipe") if case["stream"] != "bytesio" else ("bytesio",):
            data = case["before"] + b"".join(wires) + tail
            stream = {"tell": sm.TellStream, "notell": sm.Stream, "pipe": sm.PipeStream, "bytesio": io.BytesIO}[kind](data)
            stream.read(len(case["before"]))
            end = len(case["before"])
            objs = []
            for (i, vals, raw), wire, canon in zip(case["seq"], wires, canons):
                what = "struct %d of the %s stream %s" % (len(objs), kind, short(data))
                start, end = end, end + len(wire)
                seen = len(getattr(stream, "reads", ()))
                o = call("reading " + what, reals[i].cls.create_from_stream, stream)
                pos = stream.tell() if kind == "bytesio" else stream.pos
                expect(pos == end, "%s: the stream is at %d after reading, the struct ends at %d", what, pos, end)
                for p, n in getattr(stream, "reads", ())[seen:]:
                    expect(n is not None and n >= 0 and p + n <= end, "%s: read(%r) at %d asks for more than the struct, which ends at %d",
                           what, n, p, end)
                if not case["late"]:
                    expect_same(reals[i].extract(case["specs"][i], o), canon, "values of " + what)
                objs.append(o)
            rest = stream.read(1000000)
            expect_same(rest, tail, "what is left in the stream")
            if case["close"]:
                stream.close()
            for (i, vals, raw), canon, o in zip(case["seq"], canons, objs):
                expect_same(reals[i].extract(case["specs"][i], o), canon, "values of a struct of the %s stream %s", kind, short(data))
                expect_same(call("to_bytes", o.to_bytes), sm.enc_struct(case["specs"][i], vals), "bytes of a struct that was read")
