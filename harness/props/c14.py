"""C14: scalar encodings - width, byte order, sign, text, padding, JSON - at aligned and unaligned positions.

One field per class, at any bit offset.  Values are packed against an independent codec and decoded back; raw bit
patterns and padded/stripped forms are decoded against it too.
"""
import json
import math
import struct
from common import call, expect, expect_same, same, short, Discard
import bufstatic as bs

ENCODINGS = ["ascii", "latin-1", "utf-8", "utf-16-be", "utf-16-le", "utf-32-be", "cp1252", "cp037", "koi8-r", "shift_jis"]
MARKED = ["utf-16", "utf-32", "utf-8-sig"]  # a mark comes before the text
STATES = ["utf-7", "iso2022_jp", "hz", "unicode_escape"]  # characters depend on what comes before, or are longer
ONE_BYTE = ("ascii", "latin-1", "cp1252", "cp037", "koi8-r")
ALPHA = {"ascii": "abcXYZ 019*#\0~", "latin-1": "ab \xe9\xff\xa0*#0", "utf-8": "ab \xe9\u20ac\U0001f600*#0", "utf-16-be": "ab \xe9\u20ac\u4e2d\U0001f600#",
         "utf-16-le": "ab\xe9\u20ac\u4e2d\U0001f600", "utf-32-be": "ab\u20ac\U0001f600", "cp1252": "ab \u20ac\u2019\xe9", "cp037": "abcXYZ 019*#",
         "koi8-r": "ab \u0436\u044f0", "utf-16": "ab \xe9\u20ac\U0001f600", "utf-32": "ab\u20ac\U0001f600", "utf-8-sig": "ab \xe9\u20ac0",
         "utf-7": "ab\xe9\u20ac\u4e2d", "iso2022_jp": "ab\u3042\u8868", "hz": "ab\u4e2d\u6587", "unicode_escape": "ab\xe9\u20ac\n", "shift_jis": "ab \u3042\uff71\u8868"}


def gen_str_type(d, factory=False):
    enc = d.choice(ENCODINGS) if d.chance(2, 3) else "ascii"
    if d.chance(1, 5):  # the defaults of the library
        return {"k": "str", "size": d.int(1, 12), "enc": "ascii", "just": "left", "pad": b" ", "strip": b"\0", "omit": True}
    if d.chance(1, 5):
        enc = d.choice(MARKED + STATES)
        padc = d.choice([b" ", b"*", b"_"] + [b"\0"] * (enc not in MARKED))
        return {"omit": d.bool(), "k": "str", "size": d.int(4, 24), "enc": enc, "just": d.choice(["left", "left", "right", "center"]),
                "pad": padc, "strip": d.choice([b"#", padc, b""] + [b"\0"] * (enc not in MARKED))}
    padc = d.choice([b" ", b" ", b"\0", b"*", b"0", b"\xff"])
    return {"omit": d.bool(), "k": "str", "size": d.int(1, 12), "enc": enc, "just": d.choice(["left", "left", "right", "center"]),
            "pad": padc, "strip": d.choice([b"\0", b"\0", b"#", b"\0#", padc, b" ", b""])}


def gen(d):
    kind = d.weighted([(6, "int"), (2, "float"), (5, "str"), (1, "bytes"), (2, "json"), (5, "list")])
    case = dict(off=d.choice([0, 0, 8, 24]) if d.bool() else d.int(0, 30), noise=d.bytes(12, 12), just_default=d.bool())
    if kind == "int":
        t = bs.gen_int(d)
        case["kw"] = d.bool()
    elif kind == "float":
        t = {"k": "float", "size": d.choice([4, 8]), "endian": d.choice(["little", "big", "native"])}
        case["kw"] = d.bool()
    elif kind == "str":
        t = gen_str_type(d)
    elif kind == "bytes":
        t = {"k": "bytes", "size": d.int(1, 20), "drop": d.choice([0, 0, d.int(1, 7)])}
    elif kind == "json":
        t = {"k": "json", "size": d.int(4, 80)}
    else:
        e = {"e": "int", "name": d.choice(bs.ELEM_NAMES)} if d.chance(2, 3) else dict(gen_str_type(d), e="str")
        if e["e"] == "str":
            e["size"] = d.int(4, 12) if e["enc"] in MARKED + STATES else d.int(1, 6)
        t = {"k": "list", "elem": e, "count": d.int(1, 5), "n": d.bool()}
    case["t"] = t
    case["values"] = [value(d, t) for _ in range(3)]
    n = nbits(t)
    case["raws"] = []
    if kind in ("int", "float", "bytes") or (kind == "list" and t["elem"]["e"] == "int"):
        for _ in range(3):
            raw = d.bytes((n + 7) // 8, (n + 7) // 8)
            if kind == "float" and d.chance(1, 3):
                special = d.choice([0, 0x7ff0000000000000, 0xfff0000000000000, 1 << 63, 1, 0x7ff8000000000000, 0x000fffffffffffff]) if t["size"] == 8 else \
                    d.choice([0, 0x7f800000, 0xff800000, 1 << 31, 1, 0x7fc00000, 0x007fffff])
                raw = special.to_bytes(t["size"], order(t["endian"]))
            case["raws"].append([raw])
    elif kind == "str":
        for _ in range(3):
            case["raws"].append(padded_form(d, t))
        if t["enc"] in ONE_BYTE:
            for _ in range(2):
                r = trimmed_form(d, t)
                if r is not None:
                    case["raws"].append(r)
    elif kind == "json":
        for _ in range(2):
            v = value(d, t)
            text = json.dumps(v, separators=d.choice([(",", ":"), (", ", ": ")]), ensure_ascii=True).encode("ascii")
            pad = t["size"] - len(text)
            left = d.int(0, pad) if d.bool() and pad > 0 else 0
            raw = d.choice([b" ", b"\n", b"\t"]) * left + text + d.choice([b" ", b"\0"]) * (pad - left)
            if pad - left >= 2 and d.bool():
                raw = raw[:-1] + b"\0"
            case["raws"].append([raw, v])
    return case


def order(endian):
    import sys
    return {"native": sys.byteorder, "big": "big", "little": "little"}[endian]


def padded_form(d, t):
    """[raw bytes, the text they hold]: the text, padding bytes and then bytes to be stripped on the outside"""
    v = value(d, t)
    data = v.encode(t["enc"])
    drop = t["pad"] + t["strip"]
    if (data.lstrip(drop) if t["just"] == "right" else data.rstrip(drop) if t["just"] == "left" else data.strip(drop)) != data:
        return [bs.from_bits(bs.encode(t, v)), v]  # only the packed form is unambiguous
    room = t["size"] - len(data)

    def outer(n):
        m = d.int(0, n) if t["strip"] else 0
        return t["pad"] * (n - m), bytes(bytearray(d.choice(bytearray(t["strip"])) for _ in range(m)))
    if t["just"] == "left":
        a, b = outer(room)
        return [data + a + b, v]
    if t["just"] == "right":
        a, b = outer(room)
        return [b + a + data, v]
    k = d.int(0, room)
    a, b = outer(k)
    a2, b2 = outer(room - k)
    return [b + a + data + a2 + b2, v]


def trimmed_form(d, t):
    """[raw bytes, the text they hold]: any mix of padding, strip and other characters; strip characters go first"""
    letters = "ab01x".encode(t["enc"])
    pool = list(bytearray(t["pad"] + t["strip"])) * 2 + list(bytearray(letters))
    raw = bytes(bytearray(d.choice(pool) for _ in range(t["size"])))
    out = raw
    if t["just"] in ("left", "center"):
        out = out.rstrip(t["strip"]) if t["strip"] else out
    if t["just"] in ("right", "center"):
        out = out.lstrip(t["strip"]) if t["strip"] else out
    if t["just"] in ("left", "center"):
        out = out.rstrip(t["pad"])
    if t["just"] in ("right", "center"):
        out = out.lstrip(t["pad"])
    try:
        return [raw, out.decode(t["enc"])]
    except UnicodeError:
        return None


def nbits(t):
    if t["k"] == "list":
        e = t["elem"]
        return 8 * t["count"] * (bs.elem_size(e) if e["e"] == "int" else e["size"])
    return bs.nbits(t)


def value(d, t):
    if t["k"] == "str":
        return fit(t, d.text(ALPHA[t["enc"]], 0, t["size"]))
    if t["k"] == "list" and t["elem"]["e"] == "str":
        return [fit(t["elem"], d.text(ALPHA[t["elem"]["enc"]], 0, t["elem"]["size"])) for _ in range(t["count"])]
    return bs.gen_value(d, t)


def fit(t, s):
    s = bs.fit_str(t, s)
    # the whole text must also survive decoding after trimming (multi-byte encodings)
    return s


def encode(t, v):
    """list of bits"""
    if t["k"] == "list":
        out = b""
        for x in v:
            out += bs.encode_elem(t["elem"], x) if t["elem"]["e"] == "int" else bs.from_bits(bs.encode(t["elem"], x))
        return bs.to_bits(out)
    return bs.encode(t, v)


def decode(t, bits):
    k = t["k"]
    if k == "int":
        signed, o = bs.int_order(t)
        n = sum(b << i for i, b in enumerate(bits))
        if o == "big":
            n = int.from_bytes(n.to_bytes(t["bits"] // 8, "little"), "big")
        return n - (1 << t["bits"]) if signed and n >> (t["bits"] - 1) else n
    raw = bs.from_bits(bits)
    if k == "float":
        return struct.unpack(bs.float_format(t), raw)[0]
    if k == "bytes":
        return raw
    size, signed, o = bs.elem_int(t["elem"]["name"])
    return [int.from_bytes(raw[i:i + size], o, signed=signed) for i in range(0, len(raw), size)]


def classify(case):
    t = case["t"]
    l = [t["k"], "aligned" if case["off"] % 8 == 0 else "unaligned"]
    if t["k"] == "int":
        l += ["int-" + t["endian"], "int-" + t["sign"], "width-native" if t["bits"] in (8, 16, 32, 64) else "width-bytes" if t["bits"] % 8 == 0 else "width-bits"]
    if t["k"] == "str":
        l += ["enc-" + t["enc"], "just-" + t["just"]]
    if t["k"] == "list":
        l += ["list-" + t["elem"]["e"]]
    return l, any(v not in (0, "", []) for v in case["values"])


def build(case):
    import infi.instruct.buffer as B
    t, off = case["t"], case["off"]
    n = nbits(t)
    lo, hi = off // 8, (off + n + 7) // 8
    if off % 8 == 0 and n % 8 == 0:
        where = B.bytes_ref[lo:hi]
    else:
        where = B.bytes_ref[lo:hi].bits[off - 8 * lo:off - 8 * lo + n]
    kw = dict(where=where)
    k = t["k"]
    if k == "int":
        if case["kw"] and n % 8 == 0:
            kw["byte_size"] = n // 8
        f = bs.make_int_field(t, kw)
    elif k == "float":
        if case.get("kw"):
            kw["byte_size"] = t["size"]
        f = B.float_field(**dict(kw, **bs.given(dict(endian=t["endian"]), dict(endian="native"), case["just_default"])))
    elif k == "str":
        f = B.str_field(**dict(kw, **bs.str_args(t)))
    elif k == "bytes":
        f = B.bytearray_field(**kw)
    elif k == "json":
        f = B.json_field(**kw)
    else:
        e = t["elem"]
        et = getattr(B, e["name"]) if e["e"] == "int" else B.str_type_factory(byte_size=e["size"], **bs.str_args(e))
        if t["n"]:
            kw["n"] = t["count"]
        f = B.list_field(type=et, **kw)
    return type(B.Buffer)("Scalar", (B.Buffer,), {"x": f})


def lib(t, v):
    import copy
    return bytearray(v) if t["k"] == "bytes" else copy.deepcopy(v)


def plain(v):
    return bytes(v) if isinstance(v, bytearray) else v


def check(case):
    t, off = case["t"], case["off"]
    n = nbits(t)
    cls = call("declaring the class", build, case)
    size = (off + n + 7) // 8

    def embed(bits):
        data = bs.to_bits((bytes(case["noise"]) * 40)[:size + 2])
        data[off:off + n] = bits
        return bs.from_bits(data)

    for v in case["values"]:
        bits = encode(t, v)
        want = bs.from_bits([0] * off + bits + [0] * (8 * size - off - n))
        got = bytes(call("pack of %s" % short(v), lambda: cls(x=lib(t, v)).pack()))
        expect_same(got, want, "%s packed as %s at bit %d", short(v), describe(t), off)
        for data in (want, embed(bits)):
            o = cls()
            call("unpack of %s" % short(v), o.unpack, data)
            expect(same(plain(o.x), v) and not isinstance(o.x, bytes if t["k"] != "bytes" else ()), "%s as %s at bit %d unpacked as %s", short(v), describe(t), off, short(o.x))
    for raw, *rest in case["raws"]:
        bits = bs.to_bits(raw)[:n]
        want = rest[0] if rest else decode(t, bits)
        o = cls()
        call("unpack of raw %s" % short(bs.from_bits(bits)), o.unpack, embed(bits))
        expect(same(plain(o.x), want), "raw %s as %s at bit %d unpacked as %s, expected %s", short(bs.from_bits(bits)), describe(t), off, short(o.x), short(want))
        if t["k"] in ("int", "bytes", "list") or (t["k"] == "float" and want == want):
            expect_same(bytes(call("pack of %s" % short(want), o.pack)), bs.from_bits([0] * off + bits + [0] * (8 * size - off - n)), "packing back %s", short(want))


def describe(t):
    return " ".join("%s=%s" % (k, t[k]) for k in sorted(t))
