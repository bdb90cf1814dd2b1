"""C21: Structs refuse truncated, mismatched or unrepresentable data.

A random struct (as C15) with one value set:
prefix  every strict prefix of its bytes (up to 40 cut points) is refused, whatever kind of stream
site    one part of the bytes - at any depth - is replaced: a constant, a mapping code or selector key that is not listed, a
        negative or too large length or count, a total size that cuts an element; reading is refused
value   one value - at any depth - is replaced by one that cannot be represented (or is missing: None, also in fields with
        a default), in a new object or in one that was written before; writing is refused
"""
import io
from common import call, expect, expect_same, short, Discard
import structmodel as sm


def gen(d):
    case = sm.gen_case(d, depth=d.choice([0, 1, 2, 2, 3]), hi=5, lo=1, values=1)
    case["pick"] = d.int(0, 10 ** 6)
    case["how"] = d.int(0, 7)
    case["mode"] = d.weighted([(3, "prefix"), (4, "site"), (4, "value")])
    case["assign"] = d.bool()
    g = sm.G(d)
    for f, const in sm.named(case["spec"]):
        if f.get("k") == "val" and not const and "m" in f and d.chance(1, 4):
            f["default"] = g.value(f["m"])
    return case


def classify(case):
    spec, vals = case["spec"], case["values"][0]
    l = sm.labels(spec) | {case["mode"]}
    if case["mode"] == "prefix":
        return l, len(sm.enc_struct(spec, vals)) > 0
    if case["mode"] == "site":
        s = broken_sites(spec, vals)
        return l | {"site:" + x[0] for x in s}, bool(s)
    v = bad_values(spec, vals)
    return l | {"value:" + x[0] for x in v}, bool(v)


def code_not_in(m, codes):
    v = code_value_not_in(m, codes)
    return sm.enc_num(m["t"], v) if m["k"] == "num" and v is not None else v


def code_value_not_in(m, codes):
    if m["k"] == "num":
        lo, hi = sm.num_range(m["t"])
        for v in list(range(0, 40)) + [lo, hi]:
            if v not in codes:
                return v
    else:
        for i in range(40):
            v = bytes([i]) * m["size"]
            if v not in codes:
                return v


def lengths(spec, vals):
    """the signed numbers that are the length of a later part"""
    at = 0
    for f in spec["fields"]:
        size = len(sm.enc_fields([f], vals))
        if f["k"] == "val" and f["m"]["k"] == "num" and sm.num_info(f["m"]["t"])[1] == "signed" and \
                any(g["k"] == "ptr" and g["len"] == f["name"] for g in spec["fields"]):
            yield "lengths", f["m"]["t"], at, at + size, f
        at += size


def broken_sites(spec, vals):
    """[(what, start, end, replacement)]"""
    data = sm.enc_struct(spec, vals)
    out = []
    for kind, x, a, b, top in list(sm.sites(spec, vals)) + list(lengths(spec, vals)):
        if kind in ("const", "key") and b > a and (kind == "const" or x.get("const")):
            if x["m"]["k"] in ("num", "fbuf") and (x["m"]["k"] == "fbuf" or "Float" not in x["m"]["t"]) and kind == "const":
                for i in set([a, b - 1]):
                    out.append(("const", i, i + 1, bytes([data[i] ^ 0x41])))
            elif x["m"]["k"] == "num" and kind == "const":
                out.append(("const", a, b, sm.enc_num(x["m"]["t"], 1.5 if x["value"] != 1.5 else 2.5)))
                low = a if sm.num_info(x["m"]["t"])[2] == "little" else b - 1
                out.append(("const", low, low + 1, bytes([data[low] ^ 1])))  # the nearest other number
            elif x["m"]["k"] in ("pstr",) and x["m"]["size"] and kind == "const":
                v = b"Q" * x["m"]["size"]
                if v != x["value"]:
                    out.append(("const", a, b, v))
            elif x["m"]["k"] == "nest" and kind == "const":
                for f, const in sm.named(x["m"]["spec"]):  # a constant struct with another number in it
                    v = x["value"].get(f["name"]) if not const and f.get("k") == "val" and f["m"]["k"] == "num" and not f.get("flag") else None
                    if v is None or v != v:
                        continue
                    raw = bytearray(sm.enc_num(f["m"]["t"], v))
                    raw[0 if sm.num_info(f["m"]["t"])[2] == "little" else -1] ^= 1
                    other = sm.dec_num(f["m"]["t"], bytes(raw))
                    if other == other and other != v:
                        out.append(("const-struct", a, b, sm.enc(x["m"], dict(x["value"], **{f["name"]: other}))))
        elif kind == "bits":
            for i, slots in sm.bit_slots(x):
                if i["kind"] == "const" and slots:
                    p = slots[-1]
                    out.append(("const-bits", a + p // 8, a + p // 8 + 1, bytes([data[a + p // 8] ^ (1 << p % 8)])))
        elif kind == "lengths":
            size = sm.num_info(x)[0]
            out.append(("negative-length", a, a + size, sm.enc_num(x, -1)))
        elif kind == "m-map" and b > a:
            new = code_not_in(x["m"], [v for _, v in x["map"]])
            if new is not None:
                out.append(("mapping", a, b, new))
        elif kind == "m-sel" and x.get("default") is None:
            size = sm.m_fixed(x["key"])
            new = code_not_in(x["key"], [c[0] for c in x["cases"]])
            if new is not None and size <= b - a:
                out.append(("selector", a, a + size, new))
        elif kind in ("m-vstr", "m-vbuf", "m-varr", "m-sarr") and x.get("sz"):
            size = sm.num_info(x["sz"])[0]
            lo, hi = sm.num_range(x["sz"])
            if lo < 0:
                out.append(("negative-size", a, a + size, sm.enc_num(x["sz"], -1)))
            if hi < 1 << 16 and kind != "m-varr":
                out.append(("long-size", a, a + size, sm.enc_num(x["sz"], hi)) if hi > len(data) else ("none",) * 4)
            if kind == "m-sarr" and sm.m_fixed(x["elem"]) == 0:
                out.append(("empty-element", a, a + size, sm.enc_num(x["sz"], 3)))
            if kind == "m-sarr" and b - a > size:
                e = sm.m_fixed(x["elem"])
                if e is not None and e > 1:
                    out.append(("split-element", a, a + size, sm.enc_num(x["sz"], sm.dec_num(x["sz"], data[a:a + size]) - 1)))
    return [x for x in out if x[0] != "none"]


# ---------------------------------------------------------------- values that cannot be written
class Path(object):
    pass


def bad_for(m, v):
    """[(what, bad value)] for one marshal"""
    k = m["k"]
    if k == "num":
        size, kind, _ = sm.num_info(m["t"])
        if kind == "float":
            return [("float-type", "x"), ("float-range", 1e300)] if size == 4 else [("float-type", "x")]
        lo, hi = sm.num_range(m["t"])
        return [("int-high", hi + 1), ("int-low", lo - 1), ("int-type", "7"), ("int-float", 1.5), ("int-huge", 1 << 200)]
    if k == "pstr":
        out = [("string-long", b"Z" * (m["size"] + 1))]
        if m["dir"] == "none" and m["size"]:
            out.append(("string-short", b"Z" * (m["size"] - 1)))
        return out
    if k == "fbuf":
        return [("buffer-long", b"Z" * (m["size"] + 1))] + ([("buffer-short", b"Z" * (m["size"] - 1))] if m["size"] else [])
    if k in ("vstr", "vbuf") and m.get("sz"):
        hi = sm.num_range(m["sz"])[1]
        return [("string-too-long-for-prefix", b"Z" * (hi + 1))] if hi < 1 << 16 else []
    if k == "farr":
        return [("array-short", v[:-1])] * (len(v) > 0) + ([("array-long", v + v[-1:])] if v else [])
    if k == "varr" and m.get("sz"):
        hi = sm.num_range(m["sz"])[1]
        return [("array-too-long-for-prefix", v[:1] * (hi + 1))] if hi < 300 and v else []
    if k == "map":
        keys = [k for k, _ in m["map"]]
        codes = [c for _, c in m["map"]]
        other = code_value_not_in(m["m"], codes + keys)
        return ([("mapping-key", "no such key"), ("mapping-none", None)] + [("mapping-code", c) for c in codes if c not in keys][:2] +
                [("mapping-unlisted-code", other)] * (other is not None))
    return []


def bad_values(spec, vals):
    """[(what, values with one bad one)] - the values are model values; only the bad one is not encodable"""
    def of_m(m, v):
        for what, bad in bad_for(m, v):
            yield what, bad
        if m["k"] in ("farr", "varr", "sarr"):
            for i, x in enumerate(v):
                for what, bad in of_m(m["elem"], x):
                    yield what, v[:i] + [bad] + v[i + 1:]
        elif m["k"] == "nest":
            for what, bad in of_s(m["spec"], v):
                yield what, bad
        elif m["k"] in ("sel", "fsel"):
            for what, bad in of_s(sm.case_of(m, v), v["v"]):
                yield what, {"i": v["i"], "v": bad}

    def of_s(sp, vs):
        for f, const in sm.named(sp):
            if const or "m" not in f or vs[f["name"]] is None:
                continue
            for what, bad in of_m(f["m"], vs[f["name"]]):
                if bad is None and f["k"] == "opt":
                    continue  # that is how an optional field is left out
                yield what, dict(vs, **{f["name"]: bad})
            if f["k"] == "val":
                yield "missing", dict(vs, **{f["name"]: None})
    return list(of_s(spec, vals))


def refused(real, data, what):
    for make in (io.BytesIO, sm.TellStream, sm.Stream, sm.PipeStream):
        try:
            o = real.cls.create_from_stream(make(data))
        except Exception:
            continue
        try:
            shown = o.to_bytes()
        except Exception as e:
            shown = "<%s>" % type(e).__name__
        expect(False, "%s: %s was read from a %s and gives %s", what, short(data), make.__name__, short(shown))
    try:
        real.cls.create_from_string(data)
    except Exception:
        return
    expect(False, "%s: create_from_string accepts %s", what, short(data))


def check(case):
    spec, vals = case["spec"], case["values"][0]
    real = call("declaring the classes", sm.Real, spec)
    data = sm.enc_struct(spec, vals)
    o = real.new(vals)
    expect_same(call("to_bytes", o.to_bytes), data, "written bytes")
    if case["mode"] == "prefix":
        cuts = range(len(data)) if len(data) <= 40 else sorted(set(list(range(12)) + list(range(len(data) - 12, len(data))) +
                                                             [case["pick"] * 7919 * i % len(data) for i in range(16)]))
        for n in cuts:
            refused(real, data[:n], "the first %d of %d bytes" % (n, len(data)))
    elif case["mode"] == "site":
        found = broken_sites(spec, vals)
        if found:
            what, a, b, new = found[case["pick"] % len(found)]
            bad = data[:a] + new + data[b:]
            if what == "split-element":
                bad += b"\0" * 20
            lazily_refused(real, bad, "%s at %d of %s" % (what, a, short(data)))
    else:
        found = bad_values(spec, vals)
        if found:
            what, bad = found[case["pick"] % len(found)]
            try:
                if case["assign"]:
                    real.morph(spec, o, bad)  # the object that was just written
                else:
                    o = real.new(bad)
                got = o.to_bytes()
            except Exception:
                return
            expect(False, "%s: %s was written as %s", what, short(bad), short(got))


def lazily_refused(real, data, what):
    """mismatches inside lazy groups are only seen when the group is looked at"""
    has_lazy = "lazy" in deep_labels(real.spec)
    if not has_lazy:
        return refused(real, data, what)
    for make in (io.BytesIO, sm.Stream):
        try:
            o = real.cls.create_from_stream(make(data))
            got = o.to_bytes()
        except Exception:
            continue
        expect(False, "%s: %s was read and written back as %s", what, short(data), short(got))


def deep_labels(spec):
    return sm.labels(spec)
