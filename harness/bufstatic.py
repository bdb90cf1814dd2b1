"""Fixed-position Buffer layouts: generator, builder and bit-level reference model.

A layout is {"fields": [{"name", "t": type, "expr": position expression (props/c12.py), ...}], "byte_size": None|int}.
A type is one of
  {"k": "int", "bits", "sign", "endian", "f": factory}      {"k": "float", "size", "endian"}
  {"k": "str", "size", "enc", "just", "pad", "strip"}        {"k": "bytes", "size", "drop"}     {"k": "json", "size"}
  {"k": "buf", "sub": layout, "bits"}                        {"k": "list", "elem": elem, "count", "n": bool}
with elem {"e": "int", "name"} / {"e": "str", "size", "just", "pad"} / {"e": "buf", "sub"}.
Values are JSON-able: ints, floats, str, bytes (byte arrays), lists, {field: value} (nested buffers).
"""
import copy
import struct
import sys
from common import HarnessError, expect, same, short
from props import c12 as rx

ENCODINGS = ["ascii", "ascii", "latin-1", "utf-8", "utf-16-le"]
ELEM_NAMES = [p + s + "int" + w for p in ("", "n_", "b_", "l_") for s in ("", "u") for w in ("8", "16", "32", "64")]


# names that mean something elsewhere
CLASS_NAMES = ["Buffer", "Buffer", "BufferType", "Struct", "_Hidden", "bytearray", "Layout2"]


# ------------------------------------------------------------------ bits
def to_bits(data):
    return [(b >> i) & 1 for b in bytearray(data) for i in range(8)]


def from_bits(bits):
    bits = list(bits) + [0] * (-len(bits) % 8)
    return bytes(bytearray(sum(bits[i + j] << j for j in range(8)) for i in range(0, len(bits), 8)))


# ------------------------------------------------------------------ types
def nbits(t):
    k = t["k"]
    if k == "int" or k == "buf":
        return t["bits"]
    if k == "list":
        return 8 * t["count"] * elem_size(t["elem"])
    return 8 * t["size"] - t.get("drop", 0)


def elem_size(e):
    if e["e"] == "int":
        return int(e["name"].lstrip("nbl_").lstrip("uint")) // 8
    if e["e"] == "str":
        return e["size"]
    return layout_size(e["sub"])


def natural_bits(layout):
    """number of bits up to and including the last one used"""
    return max(max(positions(f)) + 1 for f in layout["fields"])


def layout_size(layout):
    """the size in whole bytes"""
    if layout.get("byte_size") is not None:
        return layout["byte_size"]
    return (natural_bits(layout) + 7) // 8


def positions(field):
    fin, tail = rx.denote(field["expr"])
    if tail is not None:
        raise HarnessError("open position in a static layout")
    return fin


def int_order(t):
    """(signed?, 'little'|'big' or None when the width is not whole bytes)"""
    signed = t["sign"] == "signed" and t["bits"] in (8, 16, 32, 64)
    if t["bits"] % 8:
        return signed, None
    return signed, {"native": sys.byteorder, "big": "big", "little": "little"}[t["endian"]]


def int_domain(t):
    signed, _ = int_order(t)
    return (-(1 << (t["bits"] - 1)), (1 << (t["bits"] - 1)) - 1) if signed else (0, (1 << t["bits"]) - 1)


def elem_int(name):
    order = {"b": "big", "l": "little"}.get(name[0] if "_" in name else "", sys.byteorder)
    return elem_size({"e": "int", "name": name}), "uint" not in name, order


def float_format(t):
    return {"native": "=", "big": ">", "little": "<"}[t["endian"]] + ("f" if t["size"] == 4 else "d")


def pad(data, size, just, fill):
    data = bytearray(data)
    if just == "left":
        return data + fill * (size - len(data))
    if just == "right":
        return fill * (size - len(data)) + data
    return data.center(size, fill)


def encode(t, v):
    """-> list of nbits(t) bits"""
    k = t["k"]
    if k == "int":
        n = t["bits"]
        _, order = int_order(t)
        v &= (1 << n) - 1
        if order == "big":
            return to_bits(v.to_bytes(n // 8, "big"))
        return [(v >> i) & 1 for i in range(n)]
    if k == "float":
        return to_bits(struct.pack(float_format(t), v))
    if k == "str":
        return to_bits(pad(v.encode(t["enc"]), t["size"], t["just"], t["pad"]))
    if k == "bytes":
        return to_bits(v)[:nbits(t)]
    if k == "json":
        import json
        return to_bits(pad(json.dumps(v).encode("ascii"), t["size"], "left", b" "))
    if k == "buf":
        return (pack_bits(t["sub"], v) + [0] * 8)[:t["bits"]]
    out = b""
    for x in v:
        out += encode_elem(t["elem"], x)
    return to_bits(out)


def encode_elem(e, v):
    if e["e"] == "int":
        size, signed, order = elem_int(e["name"])
        return v.to_bytes(size, order, signed=signed)
    if e["e"] == "str":
        return bytes(pad(v.encode("ascii"), e["size"], e["just"], e["pad"]))
    return pack(e["sub"], v)


def pack_bits(layout, values, base=None):
    bits = [0] * (8 * layout_size(layout)) if base is None else to_bits(base)
    for f in layout["fields"]:
        for p, b in zip(positions(f), encode(f["t"], values[f["name"]])):
            bits[p] = b
    return bits


def pack(layout, values, base=None):
    return from_bits(pack_bits(layout, values, base))


def covered(layout):
    return set(p for f in layout["fields"] for p in positions(f))


def canonical(layout):
    """pack(unpack(x)) == x for every x of the right size?"""
    used = covered(layout)
    if len(used) != 8 * layout_size(layout):
        return False
    return all(f["t"]["k"] in ("int", "bytes") or
               (f["t"]["k"] == "list" and f["t"]["elem"]["e"] == "int" and "nn" not in f["t"]) for f in layout["fields"])


# ------------------------------------------------------------------ generator
def gen_int(d, small=False):
    k = d.int(0, 5)
    if k <= 1:
        bits = d.int(1, 7)
    elif k == 2:
        bits = d.int(1, 20)
    elif k == 3:
        bits = 8 * d.int(1, 8 if small else 20)
    elif k == 4:
        bits = d.choice([8, 16, 32, 64])
    else:
        bits = d.int(1, 64 if small else 140)
    sign = d.choice(["unsigned", "signed"])
    endian = d.choice(["little", "big", "native"])
    return {"k": "int", "bits": bits, "sign": sign, "endian": endian, "f": d.bool()}


def gen_type(d, depth, big=False):
    k = d.weighted([(8, "int"), (1, "float"), (2, "str"), (2, "bytes"), (1, "json"), (2 if depth else 0, "buf"), (2, "list")])
    if k == "int":
        t = gen_int(d)
        t["bs"] = d.bool()
        return t
    if k == "float":
        return {"k": "float", "size": d.choice([4, 8]), "endian": d.choice(["little", "big", "native"]), "bs": d.bool()}
    top = 300 if big and d.chance(1, 3) else 9
    if k == "str":
        padc = d.choice([b" ", b" ", b"\0", b"*", b"0"])
        enc = d.choice(ENCODINGS)
        size = d.int(1, top)
        if enc == "utf-16-le":
            size += size % 2
            padc = b"\0"
        elif d.chance(1, 4):  # the defaults of the library
            return {"k": "str", "size": size, "enc": "ascii", "just": "left", "pad": b" ", "strip": b"\0", "omit": True}
        return {"omit": d.bool(), "k": "str", "size": size, "enc": enc, "just": d.choice(["left", "left", "right"]) if enc != "utf-16-le" else "left",
                "pad": padc, "strip": d.choice([b"\0", b"\0", b"#", b"\0#", padc])}
    if k == "bytes":
        t = {"k": "bytes", "size": d.int(1, top)}
        if d.chance(1, 4):  # not a whole number of bytes
            t["drop"] = d.int(1, 7)
        return t
    if k == "json":
        return {"k": "json", "size": d.int(4, 60)}
    if k == "buf":
        sub = gen_layout(d, depth - 1, 4)
        n = natural_bits(sub) if sub.get("byte_size") is None and d.bool() else 8 * layout_size(sub)
        return {"k": "buf", "sub": sub, "bits": n, "bs": d.bool()}
    e = d.choice(["int", "int", "str", "buf"] if depth else ["int", "int", "str"])
    if e == "int":
        elem = {"e": "int", "name": d.choice(ELEM_NAMES)}
    elif e == "str":
        elem = {"e": "str", "size": d.int(1, 4), "just": d.choice(["left", "right"]), "pad": d.choice([b" ", b"\0"]), "omit": d.bool()}
    else:
        elem = {"e": "buf", "sub": gen_layout(d, depth - 1, 3)}
    return {"k": "list", "elem": elem, "count": d.int(1, 40 if big and e != "buf" else 4) if not big or e != "int" or d.chance(3, 4) else d.int(41, 300), "n": d.bool()}


NAMES = ["a", "b", "c", "f_a", "f_b", "z", "z1", "z10", "z2", "B", "A", "_x", "_a", "value", "length", "name", "first", "last",
         "size", "data", "obj", "field", "ctx", "n", "index", "buffer", "type", "x", "y", "k", "m", "t1", "u", "w", "zz", "aa"]


def gen_names(d, n):
    pool = NAMES if n <= len(NAMES) else NAMES + ["g%d" % i for i in range(n)]
    if d.bool():
        return ["f%d" % i for i in range(n)]
    return d.perm(pool)[:n]


def gen_expr(d, ranges):
    """a position expression denoting exactly these (start, stop) bit ranges, in order"""
    def single(a, b):
        if a % 8 == 0 and b % 8 == 0 and d.chance(3, 4):
            if b - a == 8 and d.bool():
                return ["i", a // 8, False]
            return ["s", a // 8, b // 8, False, False]
        lo = d.int(max(0, a // 8 - 2), a // 8)
        if d.chance(1, 8):
            parent = ["s", lo, None, False, False]
        else:
            hi = d.int((b + 7) // 8, (b + 7) // 8 + 2)
            parent = ["s", lo, hi, False, False] if hi > lo + 1 or d.bool() else ["i", lo, False]
        if b - a == 1 and d.bool():
            return ["b", parent, ["i", a - 8 * lo, False]]
        return ["b", parent, ["s", a - 8 * lo, b - 8 * lo]]

    if len(ranges) == 1:
        return single(*ranges[0])
    if all(a % 8 == 0 and b % 8 == 0 for a, b in ranges) and d.bool():
        return ["l", [["i", a // 8, False] if b - a == 8 and d.bool() else ["s", a // 8, b // 8, False, False]
                      for a, b in ranges], d.bool()]
    if d.chance(1, 3):
        lo = min(a for a, _ in ranges) // 8
        hi = (max(b for _, b in ranges) + 7) // 8
        return ["b", ["s", lo, hi, False, False],
                ["l", [["i", a - 8 * lo, False] if b - a == 1 else ["s", a - 8 * lo, b - 8 * lo] for a, b in ranges], d.bool()]]
    e = single(*ranges[0])
    for r in ranges[1:]:
        e = ["+", e, single(*r)]
    return e


def gen_layout(d, depth=1, max_fields=6, types=None, big=False, gaps=True):
    n = d.int(1, max_fields)
    if types is None and max_fields > 3 and d.chance(1, 25):  # many fields
        types = [gen_int(d, True) for _ in range(d.int(8, 24))]
    elif depth and d.chance(1, 20):
        depth += 2
        n = min(n, 2)
    ts = [types[i] if types else gen_type(d, depth, big) for i in range(n if types is None else len(types))]
    n = len(ts)
    chunks = []  # (field, part, bits)
    for i, t in enumerate(ts):
        total = nbits(t)
        parts = d.weighted([(18, 1), (6, 2), (6, 3), (1, 8)])
        if total < 2:
            parts = 1
        rest = total
        for j in range(parts):
            if j == parts - 1 or rest < 2:
                m = rest
            elif rest >= 16 and d.bool():
                m = 8 * d.int(1, rest // 8 - 1)
            else:
                m = d.int(1, rest - 1)
            chunks.append((i, j, m))
            rest -= m
            if rest == 0:
                break
    chunks = d.perm(chunks)
    pos = d.int(0, 20) if gaps and d.chance(1, 3) else 0
    if big and d.chance(1, 2):
        pos += 8 * d.int(0, 300)
    far = d.int(0, len(chunks) - 1) if gaps and big and d.chance(1, 5) else None
    placed = {}
    for i, j, m in chunks:
        if gaps and d.chance(1, 4):
            pos += d.int(1, 12)
        if far == 0:  # one wide gap
            pos += 8 * d.weighted([(4, 255), (2, 1023), (2, 4095), (2, 4096), (2, 8192), (1, 16390), (1, 65530)])
        far = far - 1 if far is not None else None
        if gaps and m % 8 == 0 and d.chance(2, 3):
            pos += -pos % 8
        placed.setdefault(i, {})[j] = (pos, pos + m)
        pos += m
    names = gen_names(d, n)
    fields = []
    for i, t in enumerate(ts):
        ranges = [placed[i][j] for j in sorted(placed[i])]
        fields.append({"name": names[i], "t": t, "expr": gen_expr(d, ranges)})
    layout = {"fields": d.perm(fields), "byte_size": None}
    if gaps and d.chance(1, 4):
        layout["byte_size"] = layout_size(layout) + d.int(0, 4)
    if d.chance(1, 25):
        layout["name"] = d.choice(CLASS_NAMES)
    return layout


def gen_text(d, enc, size, pad_, strip):
    alpha = {"ascii": "abcXYZ 019*#\0~", "latin-1": "abc \xe9\xff\xa0*#0", "utf-8": "ab \xe9\u20ac\U0001f600*#0",
             "utf-16-le": "abc\xe9\u20ac\u4e2d"}[enc]
    return d.text(alpha, 0, size)


def gen_str(d, t):
    s = gen_text(d, t["enc"], t["size"], t["pad"], t["strip"])
    return fit_str(t, s)


def fit_str(t, s):
    """makes s a value that a field of this type can represent"""
    while len(s.encode(t["enc"])) > t["size"]:
        s = s[:-1]
    while s and not str_survives(t, s):
        s = s[1:] if t["just"] == "right" or (t["just"] == "center" and str_survives(t, s[1:])) else s[:-1]
    return s


def str_survives(t, s):
    """is s what is left after padding it to the field size, then removing strip characters, then padding characters?"""
    raw = s.encode(t["enc"])
    if raw.decode(t["enc"]) != s:
        return False
    fill = t["pad"] * (t["size"] - len(raw))
    if t["just"] == "left":
        out = (raw + fill).rstrip(t["strip"]).rstrip(t["pad"])
    elif t["just"] == "right":
        out = (fill + raw).lstrip(t["strip"]).lstrip(t["pad"])
    else:  # (each side separately: where the filling is split is not part of the format)
        if raw.strip(t["strip"] + t["pad"]) != raw:
            return False
        out = (fill + raw + fill).strip(t["strip"]).strip(t["pad"])
    return out == raw


def gen_value(d, t):
    k = t["k"]
    if k == "int":
        signed, _ = int_order(t)
        return d.sint(t["bits"]) if signed else d.uint(t["bits"])
    if k == "float":
        v = d.float(32 if t["size"] == 4 else 64)
        return v
    if k == "str":
        return gen_str(d, t)
    if k == "bytes":
        return from_bits(to_bits(d.bytes(t["size"], t["size"]))[:nbits(t)])
    if k == "json":
        import json
        for _ in range(3):
            v = d.json(2)
            if len(json.dumps(v)) <= t["size"]:
                return v
        return 0
    if k == "buf":
        return gen_values(d, t["sub"])
    return [gen_elem(d, t["elem"]) for _ in range(t["count"])]


def gen_elem(d, e):
    if e["e"] == "int":
        size, signed, _ = elem_int(e["name"])
        return d.sint(8 * size) if signed else d.uint(8 * size)
    if e["e"] == "str":
        return fit_str({"enc": "ascii", "size": e["size"], "pad": e["pad"], "strip": b"\0", "just": e["just"]},
                       d.text("abcXYZ 01", 0, e["size"]))
    return gen_values(d, e["sub"])


def gen_values(d, layout):
    return dict((f["name"], gen_value(d, f["t"])) for f in layout["fields"])


# ------------------------------------------------------------------ real classes
class Reprs(object):
    """what a class may define as its __repr__"""

    def fails(self):
        raise ValueError("no repr")

    def formats(self):
        return "%x" % sum(getattr(self, f.attr_name()) for f in self._all_fields())

    def braces(self):
        return "{x} {0} %s"


class Real(object):
    """the library class of a layout, with the classes of its nested layouts"""

    def __init__(self, layout, name="Layout", extra=None, base=None):
        from infi.instruct.buffer import Buffer
        name = layout.get("name", name)
        self.layout = layout
        self.subs = {}
        attrs = {}
        for f in layout["fields"]:
            attrs[f["name"]] = self.field(f)
        if layout.get("byte_size") is not None:
            attrs["byte_size"] = layout["byte_size"]
        if layout.get("repr"):
            attrs["__repr__"] = getattr(Reprs, layout["repr"])
        if extra:
            attrs.update(extra)
        self.attrs = attrs
        self.cls = type(Buffer)(name, (base or Buffer,), attrs)

    def field(self, f, **kw):
        """kw: further arguments of the field (pack_if, default, ...)"""
        import infi.instruct.buffer as B
        t = f["t"]
        kw = dict(kw)
        if "where" not in kw and "where_when_pack" not in kw:
            kw["where"] = rx.build(f["expr"])
        k = t["k"]
        if t.get("bs") and nbits(t) % 8 == 0:
            kw["byte_size"] = nbits(t) // 8
        if k == "int":
            return make_int_field(t, kw)
        if k == "float":
            return B.float_field(**dict(kw, **given(dict(endian=t["endian"]), dict(endian="native"), t.get("bs"))))
        if k == "str":
            return B.str_field(**dict(kw, **str_args(t)))
        if k == "bytes":
            return B.bytearray_field(**kw)
        if k == "json":
            return B.json_field(**kw)
        if k == "buf":
            self.subs[f["name"]] = sub = Real(t["sub"], "Sub")
            return B.buffer_field(type=sub.cls, **kw)
        e = t["elem"]
        if t.get("n"):
            kw["n"] = t.get("nn", t["count"])
        return B.list_field(type=self.elem_type(f["name"], e), **kw)

    def elem_type(self, name, e):
        import infi.instruct.buffer as B
        if e["e"] == "int":
            return getattr(B, e["name"])
        if e["e"] == "str":
            return B.str_type_factory(byte_size=e["size"], **given(dict(padding=e["pad"], justify=e["just"]), STR_DEFAULTS, e.get("omit")))
        self.subs[name] = sub = Real(e["sub"], "Elem")
        return sub.cls

    def value(self, f, v):
        """library value for a model value"""
        t = f["t"]
        if v is None:
            return None
        if t["k"] == "bytes":
            return bytearray(v)
        if t["k"] == "buf":
            return self.subs[f["name"]].make(v)
        if t["k"] == "list" and t["elem"]["e"] == "buf":
            return [self.subs[f["name"]].make(x) for x in v]
        return copy.deepcopy(v) if isinstance(v, (list, dict)) else v

    def make(self, values):
        return self.cls(**dict((f["name"], self.value(f, values[f["name"]])) for f in self.layout["fields"]
                               if f["name"] in values))

    def verify(self, obj, values, what):
        for f in self.layout["fields"]:
            self.verify_field(f, getattr(obj, f["name"]), values[f["name"]], what)

    def verify_field(self, f, got, want, what):
        verify_value(f["t"], got, want, "%s: field %s" % (what, f["name"]), self.subs.get(f["name"]))


def morph(o, other):
    """gives a buffer object the values of another one, in place where that is possible"""
    from infi.instruct.buffer import Buffer
    for n in sorted(vars(other)):
        if n not in vars(o):
            setattr(o, n, getattr(other, n))
            continue
        a, b = getattr(o, n), getattr(other, n)
        if isinstance(a, list) and isinstance(b, list):
            for i in range(min(len(a), len(b))):
                if isinstance(a[i], Buffer) and type(a[i]) is type(b[i]):
                    morph(a[i], b[i])
                else:
                    a[i] = b[i]
            del a[len(b):]
            a.extend(b[len(a):])
        elif isinstance(a, bytearray) and isinstance(b, bytearray):
            a[:] = b
        elif isinstance(a, Buffer) and type(a) is type(b):
            morph(a, b)
        else:
            setattr(o, n, b)


STR_DEFAULTS = dict(encoding="ascii", padding=b" ", strip=b"\0", justify="left")


def given(args, defaults, omit):
    """args, without those that have the library's default value when omit"""
    return dict((k, v) for k, v in args.items() if not omit or defaults[k] != v)


def str_args(t):
    return given(dict(encoding=t["enc"], padding=t["pad"], strip=t["strip"], justify=t["just"]), STR_DEFAULTS, t.get("omit"))


def make_int_field(t, kw):
    import infi.instruct.buffer as B
    if not t.get("f"):
        return B.int_field(endian=t["endian"], sign=t["sign"], **kw)
    name = {"big": "be_", "little": "le_", "native": ""}[t["endian"]] + ("u" if t["sign"] == "unsigned" else "") + "int_field"
    return getattr(B, name)(**kw)


def verify_value(t, got, want, what, sub=None):
    if want is None:
        expect(got is None, "%s is %s, expected None", what, short(got))
        return
    k = t["k"]
    if k == "bytes":
        expect(isinstance(got, (bytes, bytearray)) and bytes(got) == want, "%s is %s, expected %s", what, short(got), short(want))
    elif k == "buf":
        expect(isinstance(got, sub.cls), "%s is %s, expected a nested buffer", what, short(got))
        sub.verify(got, want, what)
    elif k == "list":
        want = want[:t.get("nn")]
        expect(isinstance(got, list) and len(got) == len(want), "%s is %s, expected %s", what, short(got), short(want))
        if t["elem"]["e"] == "buf":
            for i, (g, w) in enumerate(zip(got, want)):
                expect(isinstance(g, sub.cls), "%s[%d] is %s", what, i, short(g))
                sub.verify(g, w, "%s[%d]" % (what, i))
        else:
            expect(same(got, want), "%s is %s, expected %s", what, short(got), short(want))
    else:
        expect(same(got, want) and not isinstance(got, bytes), "%s is %s, expected %s", what, short(got), short(want))


def labels(layout, out=None, depth=0):
    out = set() if out is None else out
    for f in layout["fields"]:
        t = f["t"]
        out.add("kind-" + t["k"])
        ps = positions(f)
        if any(b != a + 1 for a, b in zip(ps, ps[1:])):
            out.add("split")
        if ps[0] % 8:
            out.add("unaligned")
        if len(ps) > 64:
            out.add("wide")
        if max(ps) > 255 * 8:
            out.add("offset>255")
        if t["k"] == "buf":
            out.add("nested")
            labels(t["sub"], out, depth + 1)
        if t["k"] == "list":
            out.add("list-" + t["elem"]["e"])
    if layout.get("byte_size") is not None:
        out.add("declared-size")
    if len(covered(layout)) == 8 * layout_size(layout):
        out.add("fully-covered")
    return out
