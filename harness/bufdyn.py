"""Sequential, reference-positioned Buffer layouts: generator, builder and cursor-style reference model.

A spec is {"parts": [...], "form": int}; every part directly follows the one before it, in whole bytes:
  scalar   {"name", "t": static type}                              fixed size, perhaps in two pieces ("split")
  bits     {"size", "fields": [{"name", "t": int, "a", "b"}]}       bit group
  len      {"name", "t": int, "of", "mul", "add", "auto"}           mul * len(of) + add
  total    {"name", "t": int, "add"}                                total size + add
  data     {"name", "kind": str|bytes, "len": len field}            variable size, perhaps in two pieces ("split")
  list     {"name", "elem", "len": len field | None, "count"}       elements counted by a field or by a constant
  lens     {"name", "of", "len"} + strs {"name", "lens", "len"}     lengths list + list of strings read with a selector
  nested   {"name", "sub"}                                          self-delimiting nested buffer
  select   {"name", "tag", "subs"}                                  nested buffer chosen by an earlier field
  peek     {"name", "subs", "len"}                                  list of buffers chosen by their first byte
  cond     {"name", "t", "flag", "eq"}                              present when an earlier field has a value
  tail     {"name", "kind", "total": field | None}                  the rest (of the buffer, or up to the total size)
  trailer  {"name", "t"}                                            at the end of the input
sub/elem: {"s": static layout} or {"d": spec} (or static elem of bufstatic).
"""
import random
from common import HarnessError, expect, same, short
import bufstatic as bs

UINT = {"k": "int", "sign": "unsigned", "f": True}


def uint(d, bits=None, endian=None):
    return dict(UINT, bits=bits or d.choice([8, 16, 32, 24]), endian=endian or d.choice(["big", "little", "native"]))


# ------------------------------------------------------------------ generator
def gen_spec(d, depth=1, top=True, big=False, tag=None):
    names = iter(bs.gen_names(d, 40) if False else _names(d))
    parts = []
    later = []  # parts that may be placed now
    if tag is not None:
        parts.append({"p": "scalar", "name": next(names), "t": dict(UINT, bits=8, endian="big"), "const": tag})
    tags = []
    has_total = None
    count = d.int(1, 5)
    if top and d.chance(1, 20):
        count, depth = d.int(6, 14), 0
    elif top and depth and d.chance(1, 20):
        count, depth = min(count, 2), depth + 2
    for _ in range(count):
        k = d.weighted([(3, "scalar"), (2, "bits"), (4, "data"), (4, "list"), (3 if depth else 0, "nested"),
                        (2 if depth else 0, "select"), (2 if depth else 0, "peek"), (3, "cond"), (1, "strs"),
                        (1 if top and not has_total else 0, "total")])
        if k == "scalar":
            t = gen_scalar(d, depth)
            parts.append({"p": "scalar", "name": next(names), "t": t})
            if t["k"] != "buf" and bs.nbits(t) > 8 and d.chance(1, 4):
                parts[-1]["split"] = {"low": d.int(1, bs.nbits(t) // 8 - 1), "gap": d.choice([0, 0, 1, 2]), "swap": d.bool(), "list": d.bool()}
        elif k == "bits":
            parts.append(gen_bits(d, names))
        elif k == "total":
            has_total = next(names)
            parts.append({"p": "total", "name": has_total, "t": uint(d, d.choice([16, 32])), "add": d.choice([0, -4, 3, -1])})
        elif k == "data":
            kind = d.choice(["str", "bytes"])
            wide = big and d.bool()
            n = {"p": "len", "name": next(names), "t": uint(d, d.choice([16, 32]) if wide else None), "mul": d.choice([1, 1, 2]),
                 "add": d.choice([0, 0, 1, 3]), "auto": d.weighted([(3, "len"), (1, "lambda"), (1, "member"), (1, "manual")])}
            item = {"p": "data", "kind": kind, "name": next(names), "len": n["name"], "max": 300 if wide else 8}
            if kind == "str":
                item["just"] = d.choice(["left", "right"])
            if d.chance(1, 4):
                item["split"] = {"high": d.int(1, 3), "gap": d.choice([0, 1, 1, 2]), "swap": d.bool(), "list": d.bool()}
            n["of"] = item["name"]
            parts.append(n)
            later.append(item)
        elif k == "list":
            elem = gen_elem(d, depth)
            if d.chance(1, 4) and "d" not in elem:
                later.append({"p": "list", "name": next(names), "elem": elem, "len": None, "count": d.int(1, 4)})
                open_split(d, later[-1], bs.elem_size(elem) * later[-1]["count"])
            else:
                wide = big and elem.get("e") == "int" and d.bool()
                n = {"p": "len", "name": next(names), "t": uint(d, 16 if wide else None), "mul": d.choice([1, 1, 2]),
                     "add": d.choice([0, 0, 1]), "auto": d.weighted([(3, "len"), (1, "lambda"), (1, "member"), (1, "manual")])}
                item = {"p": "list", "name": next(names), "elem": elem, "len": n["name"], "count": None, "max": 300 if wide else 4}
                n["of"] = item["name"]
                parts.append(n)
                later.append(item)
        elif k == "strs":
            n = {"p": "len", "name": next(names), "t": uint(d), "mul": 1, "add": 0, "auto": "len"}
            a, b = next(names), next(names)
            n["of"] = b
            parts.append(n)
            parts.append({"p": "lens", "name": a, "of": b, "len": n["name"]})
            later.append({"p": "strs", "name": b, "lens": a, "len": n["name"]})
        elif k == "nested":
            later.append({"p": "nested", "name": next(names), "sub": gen_sub(d, depth - 1)})
            open_split(d, later[-1], min_sub(later[-1]["sub"]))
        elif k == "select":
            t = {"p": "scalar", "name": next(names), "t": uint(d, d.choice([8, 16]))}
            parts.append(t)
            tags.append(t["name"])
            later.append({"p": "select", "name": next(names), "tag": t["name"],
                          "subs": [gen_sub(d, depth - 1) for _ in range(d.int(1, 3))]})
        elif k == "peek":
            n = {"p": "len", "name": next(names), "t": uint(d), "mul": 1, "add": 0, "auto": "len"}
            item = {"p": "peek", "name": next(names), "len": n["name"],
                    "subs": [{"d": gen_spec(d, 0, False, tag=i)} for i in range(d.int(1, 2))]}
            n["of"] = item["name"]
            parts.append(n)
            later.append(item)
        elif k == "cond":
            t = {"p": "scalar", "name": next(names), "t": uint(d, d.choice([8, 16]))}
            parts.append(t)
            later.append({"p": "cond", "name": next(names), "t": gen_scalar(d, 0), "flag": t["name"], "eq": d.int(0, 2)})
        if later and d.chance(2, 3):
            parts.append(later.pop(d.int(0, len(later) - 1)))
    while later:
        parts.append(later.pop(d.int(0, len(later) - 1)))
    if top and d.chance(1, 3):
        kind = d.choice(["str", "bytes", "list"])
        tail = {"p": "tail", "name": next(names), "kind": kind, "total": has_total}
        if kind == "list":
            tail["elem"] = gen_elem(d, depth)
        elif has_total is None and d.chance(1, 3):
            open_split(d, tail, 3)
        if has_total is None and kind != "list" and "osplit" not in tail and d.chance(1, 3):
            parts.append(dict(tail, bounded=True))
            parts.append({"p": "trailer", "name": next(names), "t": gen_scalar(d, 0)})
        else:
            parts.append(tail)
    for p in parts:
        p["form"] = d.int(0, 1000) if d.chance(3, 4) else 0
    spec = {"parts": parts, "style": d.int(0, 1000)}
    if d.chance(1, 25):
        spec["name"] = d.choice(bs.CLASS_NAMES)
    return spec


def open_split(d, p, least):
    """a closed range, a gap and an open range"""
    if least > 1 and d.chance(1, 3):
        p["osplit"] = {"low": d.int(1, least - 1), "gap": d.choice([0, 1, 1, 2])}


def min_sub(sub):
    return min_size(sub["d"]) if "d" in sub else bs.layout_size(sub["s"])


def min_size(spec):
    n = 0
    for p in spec["parts"]:
        k = p["p"]
        if k in ("scalar", "len", "total", "trailer"):
            n += bs.nbits(p["t"]) // 8
        elif k == "bits":
            n += p["size"]
        elif k == "nested":
            n += min_sub(p["sub"])
        elif k == "select":
            n += min(min_sub(x) for x in p["subs"])
    return n


def _names(d):
    if d.bool():
        i = 0
        while True:
            yield "f%d" % i
            i += 1
    for n in d.perm(bs.NAMES):
        yield n
    i = 0
    while True:
        yield "more%d" % i
        i += 1


def gen_scalar(d, depth):
    k = d.int(0, 9)
    if k <= 4:
        return dict(bs.gen_int(d), bits=8 * d.choice([1, 1, 2, 3, 4, 8, 12]))
    if k == 5:
        return {"k": "float", "size": d.choice([4, 8]), "endian": d.choice(["big", "little", "native"]), "bs": d.bool()}
    if k == 6:
        return {"k": "str", "size": d.int(1, 5), "enc": "ascii", "just": d.choice(["left", "right"]), "pad": b" ", "strip": b"\0", "omit": d.bool()}
    if k == 7:
        return {"k": "bytes", "size": d.int(1, 5)}
    if k == 8 and depth:
        sub = bs.gen_layout(d, 0, 3)
        return {"k": "buf", "sub": sub, "bits": 8 * bs.layout_size(sub), "bs": d.bool()}
    return {"k": "list", "elem": {"e": "int", "name": d.choice(bs.ELEM_NAMES)}, "count": d.int(1, 3), "n": d.bool()}


def gen_bits(d, names):
    size = d.int(1, 3)
    fields, pos = [], 0
    while True:
        if d.chance(1, 4):
            pos += d.int(1, 3)
        w = d.int(1, 9)
        if pos + w > 8 * size:
            break
        fields.append({"name": next(names), "t": dict(UINT, bits=w, endian=d.choice(["little", "big", "native"])), "a": pos, "b": pos + w})
        pos += w
    if not fields or fields[-1]["b"] <= 8 * (size - 1):
        a = fields[-1]["b"] if fields else 0
        b = 8 * (size - 1) + d.int(1, 8)
        fields.append({"name": next(names), "t": dict(UINT, bits=b - a, endian="little"), "a": a, "b": b})
    return {"p": "bits", "size": size, "fields": fields}


def gen_sub(d, depth):
    if d.chance(1, 3):
        return {"s": bs.gen_layout(d, 0, 3)}
    return {"d": gen_spec(d, max(0, depth), False)}


def gen_elem(d, depth):
    k = d.int(0, 5)
    if k <= 2:
        return {"e": "int", "name": d.choice(bs.ELEM_NAMES)}
    if k == 3:
        return {"e": "str", "size": d.int(1, 4), "just": d.choice(["left", "right"]), "pad": d.choice([b" ", b"\0"]), "omit": d.bool()}
    if k == 4 or not depth:
        return {"e": "buf", "sub": bs.gen_layout(d, 0, 3)}
    return {"d": gen_spec(d, 0, False)}


def gen_values(d, spec):
    """values of all fields that are not automatic"""
    out = {}
    parts = spec["parts"]
    for p in parts:
        k = p["p"]
        if k == "scalar":
            out[p["name"]] = p["const"] if "const" in p else bs.gen_value(d, p["t"])
        elif k == "bits":
            for f in p["fields"]:
                out[f["name"]] = bs.gen_value(d, f["t"])
        elif k == "data":
            low = p["split"]["high"] if "split" in p else 0
            v = gen_data(d, p, d.int(low, max(low, fit(parts, p, p["max"]))))
            out[p["name"]] = v if len(v) >= low else b"zyx"[:low] if p["kind"] == "bytes" else "zyx"[:low]
        elif k == "list":
            n = p["count"] if p["count"] is not None else d.int(0, fit(parts, p, p["max"]))
            out[p["name"]] = [gen_elem_value(d, p["elem"]) for _ in range(n)]
        elif k == "strs":
            out[p["name"]] = [bs.fit_str({"enc": "ascii", "size": 6, "pad": b" ", "strip": b" \0", "just": "center"}, d.text("abcXYZ01", 1, 6))
                              for _ in range(d.int(0, 4))]
        elif k == "nested":
            out[p["name"]] = gen_sub_values(d, p["sub"])
        elif k == "select":
            which = d.int(0, len(p["subs"]) - 1)
            out[p["name"]] = [which, gen_sub_values(d, p["subs"][which])]
            out[p["tag"]] = which + len(p["subs"]) * d.int(0, 3)
        elif k == "peek":
            out[p["name"]] = []
            for _ in range(d.int(0, 3)):
                which = d.int(0, len(p["subs"]) - 1)
                out[p["name"]].append([which, gen_sub_values(d, p["subs"][which])])
        elif k == "cond":
            if d.bool():
                out[p["flag"]] = p["eq"]
            v = bs.gen_value(d, p["t"])
            out[p["name"]] = v if out[p["flag"]] == p["eq"] else None
        elif k == "tail":
            if p["kind"] == "list":
                out[p["name"]] = [gen_elem_value(d, p["elem"]) for _ in range(d.int(0, 3))]
            else:
                low = p["osplit"]["low"] + 1 if "osplit" in p else 0
                v = gen_data(d, p, d.int(low, 8))
                out[p["name"]] = v if len(v) >= low else b"zyx"[:low] if p["kind"] == "bytes" else "zyx"[:low]
        elif k == "trailer":
            out[p["name"]] = bs.gen_value(d, p["t"])
    return out


def fit(parts, p, top):
    n = [q for q in parts if q["p"] == "len" and q["name"] == p["len"]][0]
    return min(top, ((1 << n["t"]["bits"]) - 1 - n["add"]) // n["mul"])


def gen_data(d, p, n):
    if p["kind"] == "bytes":
        return d.bytes(n, n)
    s = d.text("abcXYZ 019~", n, n)
    if p.get("just") == "right":
        s = s.lstrip(" ")
    else:
        s = s.rstrip(" ")
    return s


def gen_elem_value(d, e):
    return gen_values(d, e["d"]) if "d" in e else bs.gen_elem(d, e)


def gen_sub_values(d, sub):
    return gen_values(d, sub["d"]) if "d" in sub else bs.gen_values(d, sub["s"])


# ------------------------------------------------------------------ model
def complete(spec, values, total=None):
    """values with the automatic fields filled in"""
    out = dict(values)
    for p in spec["parts"]:
        if p["p"] == "len":
            out[p["name"]] = p["mul"] * len(values[p["of"]]) + p["add"]
        elif p["p"] == "lens":
            out[p["name"]] = [len(x) for x in values[p["of"]]]
        elif p["p"] == "total":
            out[p["name"]] = 0 if total is None else total + p["add"]
    if total is None and any(p["p"] == "total" for p in spec["parts"]):
        return complete(spec, values, len(encode_parts(spec, out)))
    return out


def representable(spec, values):
    """do the automatic fields fit?"""
    full = complete(spec, values)
    return all(0 <= full[p["name"]] < 1 << p["t"]["bits"] for p in spec["parts"] if p["p"] in ("len", "total"))


def encode(spec, values):
    return encode_parts(spec, complete(spec, values))


def encode_parts(spec, full):
    out = b""
    for p in spec["parts"]:
        out += encode_part(p, full)
    return out


def encode_part(p, full):
    out = encode_value(p, full)
    if "osplit" in p:
        q = p["osplit"]
        return out[:q["low"]] + b"\0" * q["gap"] + out[q["low"]:]
    if "split" not in p:
        return out
    q = p["split"]
    high = q["high"] if "high" in q else len(out) - q["low"]
    low, high = (out[high:], out[:high]) if q["swap"] else (out[:len(out) - high], out[len(out) - high:])
    return low + b"\0" * q["gap"] + high


def encode_value(p, full):
    k = p["p"]
    if k in ("scalar", "len", "total", "trailer"):
        return bs.from_bits(bs.encode(p["t"], full[p["name"]]))
    if k == "bits":
        n = 0
        for f in p["fields"]:
            v = bs.encode(f["t"], full[f["name"]])
            n |= sum(b << i for i, b in enumerate(v)) << f["a"]
        return n.to_bytes(p["size"], "little")
    if k == "cond":
        return b"" if full[p["name"]] is None else bs.from_bits(bs.encode(p["t"], full[p["name"]]))
    if k == "data" or (k == "tail" and p["kind"] != "list"):
        v = full[p["name"]]
        return v.encode("ascii") if p["kind"] == "str" else bytes(v)
    if k in ("list", "tail"):
        return b"".join(encode_elem(p["elem"], v) for v in full[p["name"]])
    if k == "lens":
        return bytes(bytearray(full[p["name"]]))
    if k == "strs":
        return "".join(full[p["name"]]).encode("ascii")
    if k == "nested":
        return encode_sub(p["sub"], full[p["name"]])
    if k == "select":
        which, v = full[p["name"]]
        return encode_sub(p["subs"][which], v)
    if k == "peek":
        return b"".join(encode_sub(p["subs"][w], v) for w, v in full[p["name"]])
    raise HarnessError(k)


def encode_elem(e, v):
    return encode(e["d"], v) if "d" in e else bs.encode_elem(e, v)


def encode_sub(sub, v):
    return encode(sub["d"], v) if "d" in sub else bs.pack(sub["s"], v)


def is_open(spec):
    """does decoding depend on where the input ends?"""
    return any(p["p"] == "trailer" or (p["p"] == "tail" and not p["total"]) for p in spec["parts"])


def field_names(spec):
    out = []
    for p in spec["parts"]:
        out.extend(f["name"] for f in p["fields"]) if p["p"] == "bits" else out.append(p["name"])
    return out


def rename(spec, mapping):
    """the same layout with other field names"""
    def conv(p):
        p = dict(p)
        for key in ("name", "of", "len", "lens", "tag", "flag", "total"):
            if p.get(key) is not None and isinstance(p.get(key), str):
                p[key] = mapping[p[key]]
        if "fields" in p:
            p["fields"] = [dict(f, name=mapping[f["name"]]) for f in p["fields"]]
        return p
    return dict(spec, parts=[conv(p) for p in spec["parts"]])


# ------------------------------------------------------------------ real classes
def chosen(cls, buffer, form):
    """what an unpack selector returns: a class, or an (object, size) pair"""
    if form > 1:
        return cls
    o = cls()
    n = o.unpack(buffer)
    return [o, n] if form else (o, n)


class Real(object):
    def __init__(self, spec, name="Dyn", order=None, extra=None, shape=None, hook=None):
        import infi.instruct.buffer as B
        self.spec = spec
        self.B = B
        self.fields = {}   # name -> field object
        self.subs = {}     # field name -> Real / list of Real
        self.info = dict((p["name"], p) for p in spec["parts"] if "name" in p)
        self.hook = hook           # arguments of a field marked as hook
        self.methods = {}
        self.base, self.const, self.terms = None, 0, []   # where the next part starts
        self.last = None                                   # field that ends exactly there
        for p in spec["parts"]:
            self.part(p)
        attrs = dict((k, self.fields[k]) for k in (order or self.fields))
        attrs.update(self.methods)
        attrs.update(extra or {})
        self.cls = hierarchy(spec.get("name", name), attrs, shape)[-1]

    # --- references
    def num(self, name, rnd):
        """a numeric reference to an earlier int field"""
        B = self.B
        k = rnd.randrange(3)
        if k == 0:
            return self.fields[name]
        if k == 1:
            return B.num_ref(getattr(B.self_ref, name))
        return B.num_ref(self.fields[name])

    def length(self, lenname, rnd):
        """the number held (scaled) by a length field"""
        p = self.info[lenname]
        r = self.num(lenname, rnd)
        if p["add"]:
            r = r - p["add"] if rnd.randrange(2) else -p["add"] + r
        if p["mul"] != 1:
            r = r // p["mul"]
        return r

    def term(self, t, rnd):
        B = self.B
        if t[0] == "len":
            if t[1] is not None and rnd.randrange(3) == 0 and t[3]:
                return B.len_ref(getattr(B.self_ref, t[3])) if rnd.randrange(2) else B.len_ref(self.fields[t[3]])
            r = self.length(t[1], rnd)
            return r if t[2] == 1 else (r * t[2] if rnd.randrange(2) else t[2] * r)
        # cond: size * (flag == eq)
        r = self.num(t[1], rnd)
        return (r == t[2]) * t[3] if rnd.randrange(2) else t[3] * (r == t[2])

    def start(self, rnd):
        B = self.B
        if self.last is not None and rnd.randrange(3) == 0:
            return self.twist(B.after_ref(self.fields[self.last]), rnd)
        items = []
        if self.base is not None:
            items.append(B.after_ref(self.fields[self.base]))
        items += [self.term(t, rnd) for t in self.terms]
        c = self.const
        if not items:
            return c
        if c and rnd.randrange(2):
            k = rnd.randrange(c + 1)
            items += [k, c - k]
        else:
            items.append(c)
        if rnd.randrange(2):
            rnd.shuffle(items)
        if rnd.randrange(8) == 0 and len(items) > 1:
            self.methods["calc_position"] = lambda self, *args: sum(args)
            return B.num_ref(B.self_ref.calc_position(*items))
        r = items[0]
        for x in items[1:]:
            r = r + x
        return self.twist(r, rnd)

    def twist(self, r, rnd):
        B = self.B
        k = rnd.randrange(12)
        if isinstance(r, int) or k > 6:
            return r
        if k == 0:
            return (r + 5) - 5
        if k == 1:
            return (r * 2) // 2
        if k == 2:
            return -(-r)
        if k == 3:
            return B.max_ref(r, 0)
        if k == 4:
            return B.min_ref(r, r + 1)
        if k == 5:
            return B.num_ref(r)
        return 0 - (0 - r)

    def advance(self, name, const=0, term=None, reset=False):
        if reset:
            self.base, self.const, self.terms = name, 0, []
        else:
            self.const += const
            if term is not None:
                self.terms = self.terms + [term]
        self.last = name

    def where(self, s, e, rnd):
        """s, e: functions giving start and stop"""
        B = self.B
        if e is None:
            if rnd.randrange(3) == 0:
                return dict(where_when_pack=B.bytes_ref[s():], where_when_unpack=B.bytes_ref[s():])
            return dict(where=B.bytes_ref[s():])
        if rnd.randrange(4) == 0:
            return dict(where_when_pack=B.bytes_ref[s():e()], where_when_unpack=B.bytes_ref[s():e()])
        if rnd.randrange(6) == 1:  # counted in bits
            a, n = s(), (e() - s()) * 8
            if rnd.randrange(2):
                return dict(where=B.bytes_ref[a:].bits[0:n])
            b = s() * 8
            return dict(where=B.bytes_ref[0:].bits[b:n + b])
        return dict(where=B.bytes_ref[s():e()])

    def pieces(self, q, s, cut, e, rnd):
        """a position in two pieces: from s to cut and from cut plus a gap to e (functions)"""
        B = self.B
        gap = q["gap"]
        low = slice(s(), cut())
        high = slice(self.plus(cut(), gap, rnd) if gap else cut(), self.plus(e(), gap, rnd) if gap else e())
        a, b = (high, low) if q["swap"] else (low, high)
        return dict(where=B.bytes_ref[a, b] if q["list"] else B.bytes_ref[a] + B.bytes_ref[b])

    def open_where(self, p, s, rnd):
        """from s to the end of the input, perhaps with a gap"""
        if "osplit" not in p:
            return self.where(s, None, rnd)
        B, q = self.B, p["osplit"]
        low = self.plus(s(), q["low"], rnd)
        high = self.plus(s(), q["low"] + q["gap"], rnd)
        make = lambda: B.bytes_ref[s():low] + B.bytes_ref[high:] if rnd.randrange(2) else B.bytes_ref[s():low, high:]
        if rnd.randrange(4) == 0:
            return dict(where_when_pack=make(), where_when_unpack=make())
        return dict(where=make())

    def plus(self, r, n, rnd):
        if isinstance(r, int) or rnd.randrange(2):
            return r + n
        return n + r

    # --- parts
    def part(self, p):
        B, k = self.B, p["p"]
        rnd = random.Random(p["form"]) if p["form"] else Plain()
        s = lambda: self.start(rnd)
        name = p.get("name")
        if k in ("scalar", "len", "total"):
            size = bs.nbits(p["t"]) // 8
            kw = {}
            if k == "len":
                kw = self.auto_len(p, rnd)
            elif k == "total":
                r = B.total_size
                add = p["add"]
                kw["set_before_pack"] = (r + add if rnd.randrange(2) else add + r) if add else (r if rnd.randrange(2) else r + 0)
            if p.get("hook"):
                kw.update(self.hook)
            if "split" in p:
                kw.update(self.pieces(p["split"], s, lambda: self.plus(self.start(rnd), p["split"]["low"], rnd),
                                      lambda: self.plus(self.start(rnd), size, rnd), rnd))
            elif size == 1 and rnd.randrange(2):
                kw["where"] = B.bytes_ref[s()]
            else:
                kw.update(self.where(s, lambda: self.plus(self.start(rnd), size, rnd), rnd))
            self.fields[name] = self.static(p, kw)
            self.advance(name, size + p.get("split", {}).get("gap", 0))
        elif k == "bits":
            for f in p["fields"]:
                r = self.start(rnd)
                parent = B.bytes_ref[r] if p["size"] == 1 and rnd.randrange(2) else B.bytes_ref[r:self.plus(self.start(rnd), p["size"], rnd)]
                pos = parent.bits[f["a"]] if f["b"] - f["a"] == 1 and rnd.randrange(2) else parent.bits[f["a"]:f["b"]]
                self.fields[f["name"]] = bs.make_int_field(f["t"], dict(where=pos))
            self.advance(None, p["size"])
        elif k == "data":
            e = lambda: self.start(rnd) + self.length(p["len"], rnd)
            kw = self.pieces(p["split"], s, lambda: e() - p["split"]["high"], e, rnd) if "split" in p else self.where(s, e, rnd)
            self.fields[name] = self.data(p, kw)
            self.advance(name, p.get("split", {}).get("gap", 0), ["len", p["len"], 1, name])
        elif k == "list":
            self.list(p, rnd)
        elif k == "lens":
            kw = self.where(s, lambda: self.start(rnd) + self.num(p["len"], rnd), rnd)
            of = p["of"]
            self.fields[name] = B.list_field(type=B.uint8, set_before_pack=lambda self: [len(x) for x in getattr(self, of)], **kw)
            self.advance(name, 0, ["len", p["len"], 1, name])
        elif k == "strs":
            lens = p["lens"]

            def choose(self, buffer, index, **kw):
                n = getattr(self, lens)[index]
                return buffer[0:n].to_bytes().decode("ascii"), n
            self.fields[name] = B.list_field(type=B.str_type, unpack_selector=choose, unpack_after=self.fields[lens],
                                             n=self.num(p["len"], rnd), where=B.bytes_ref[s():])
            self.advance(name, reset=True)
        elif k == "nested":
            sub = self.subs[name] = real_of(p["sub"])
            if "s" in p["sub"] and "osplit" not in p and rnd.randrange(2):
                size = bs.layout_size(p["sub"]["s"])
                kw = self.where(s, lambda: self.plus(self.start(rnd), size, rnd), rnd)
                if rnd.randrange(3) == 0:
                    kw["byte_size"] = size
                self.fields[name] = B.buffer_field(type=sub.cls, **kw)
                self.advance(name, size)
            else:
                self.fields[name] = B.buffer_field(type=sub.cls, **self.open_where(p, s, rnd))
                self.advance(name, reset=True)
        elif k == "select":
            subs = self.subs[name] = [real_of(x) for x in p["subs"]]
            tag = p["tag"]

            form = rnd.randrange(5)

            def choose(self, buffer, **kw):
                return chosen(subs[getattr(self, tag) % len(subs)].cls, buffer, form)
            after = self.fields[tag] if rnd.randrange(2) else [self.fields[tag]]
            self.fields[name] = B.buffer_field(type=subs[0].cls, unpack_selector=choose, unpack_after=after, **self.where(s, None, rnd))
            self.advance(name, reset=True)
        elif k == "peek":
            subs = self.subs[name] = [real_of(x) for x in p["subs"]]

            form = rnd.randrange(5)

            def choose(self, buffer, **kw):
                return chosen(subs[buffer[0]].cls, buffer, form)
            self.fields[name] = B.list_field(type=subs[0].cls, unpack_selector=choose, n=self.num(p["len"], rnd), **self.where(s, None, rnd))
            self.advance(name, reset=True)
        elif k == "cond":
            size = bs.nbits(p["t"]) // 8
            flag, eq = p["flag"], p["eq"]

            def cond():
                j = rnd.randrange(4)
                if j <= 1:
                    return self.num(flag, rnd) == eq
                if j == 2:
                    return eq == self.num(flag, rnd)
                self.methods["is_present"] = lambda self, a, b: a == b
                return B.self_ref.is_present(self.fields[flag], eq)
            # (a reference, so that the class has no static size, which would include the absent field)
            dyn = lambda: self.start(rnd) + self.num(flag, rnd) * 0
            kw = self.where(dyn, lambda: self.plus(dyn(), size, rnd), rnd)
            if rnd.randrange(2):
                c = cond()
                kw.update(pack_if=c, unpack_if=c)
            else:
                kw.update(pack_if=cond(), unpack_if=cond())
            self.fields[name] = self.static(p, kw)
            self.advance(None, 0, ["cond", flag, eq, size])
        elif k == "tail":
            if p.get("bounded"):
                kw = dict(where_when_pack=B.bytes_ref[s():], where_when_unpack=B.bytes_ref[s():B.input_buffer_length - self.trailer_size()])
            elif p["total"]:
                add = self.info[p["total"]]["add"]
                total = self.num(p["total"], rnd)
                kw = dict(where_when_pack=B.bytes_ref[s():], where_when_unpack=B.bytes_ref[s():total - add if rnd.randrange(2) else -add + total])
            else:
                kw = self.open_where(p, s, rnd)
            if p["kind"] == "list":
                self.fields[name] = B.list_field(type=self.elem_type(name, p["elem"]), **kw)
            else:
                self.fields[name] = self.data(p, kw)
            self.advance(name, reset=True)
        elif k == "trailer":
            size = bs.nbits(p["t"]) // 8
            prev = B.after_ref(self.fields[self.last])
            end = B.input_buffer_length
            self.fields[name] = self.static(p, dict(where_when_pack=B.bytes_ref[prev:prev + size], where_when_unpack=B.bytes_ref[end - size:end]))
        else:
            raise HarnessError(k)

    def trailer_size(self):
        t = [q for q in self.spec["parts"] if q["p"] == "trailer"]
        return bs.nbits(t[0]["t"]) // 8

    def static(self, p, kw):
        holder = StaticHolder()
        f = holder.field({"name": p["name"], "t": p["t"]}, **kw)
        self.subs[p["name"]] = holder.subs.get(p["name"])
        return f

    def data(self, p, kw):
        if p["kind"] == "str":
            return self.B.str_field(justify=p.get("just", "left"), **kw)
        return self.B.bytearray_field(**kw)

    def auto_len(self, p, rnd):
        B, of, mul, add = self.B, p["of"], p["mul"], p["add"]
        if p["auto"] == "manual":
            return {}
        f = lambda self: mul * len(getattr(self, of)) + add
        if p["auto"] == "lambda":
            return dict(set_before_pack=f)
        if p["auto"] == "member":
            return dict(set_before_pack=B.num_ref(B.member_func_ref(f)) if rnd.randrange(2) else B.member_func_ref(f))
        r = B.len_ref(getattr(B.self_ref, of)) if rnd.randrange(2) else B.len_ref(of)
        if mul != 1:
            r = r * mul
        if add:
            r = r + add if rnd.randrange(2) else add + r
        return dict(set_before_pack=r)

    def elem_type(self, name, e):
        if "d" in e:
            self.subs[name] = sub = Real(e["d"], "DynElem")
            return sub.cls
        holder = StaticHolder()
        t = holder.elem_type(name, e)
        self.subs[name] = holder.subs.get(name)
        return t

    def list(self, p, rnd):
        B, name = self.B, p["name"]
        s = lambda: self.start(rnd)
        t = self.elem_type(name, p["elem"])
        size = None if "d" in p["elem"] else bs.elem_size(p["elem"])
        kw = {}
        closed = size is not None and "osplit" not in p and rnd.randrange(2)
        if p["count"] is not None:
            if closed:
                kw.update(self.where(s, lambda: self.plus(self.start(rnd), size * p["count"], rnd), rnd))
                if rnd.randrange(2):
                    kw["n"] = p["count"]
                self.fields[name] = B.list_field(type=t, **kw)
                return self.advance(name, size * p["count"])
            kw.update(self.open_where(p, s, rnd))
            kw["n"] = p["count"]
        else:
            count = lambda: self.length(p["len"], rnd)
            if closed:
                kw.update(self.where(s, lambda: self.start(rnd) + count() * size, rnd))
                if rnd.randrange(2):
                    kw["n"] = count()
                self.fields[name] = B.list_field(type=t, **kw)
                return self.advance(name, 0, ["len", p["len"], size, None])
            kw.update(self.where(s, None, rnd))
            if rnd.randrange(4) == 0:
                q = self.info[p["len"]]
                lname, mul, add = q["name"], q["mul"], q["add"]
                kw["n"] = B.member_func_ref(lambda self: (getattr(self, lname) - add) // mul)
                kw["unpack_after"] = [self.fields[lname]]
            else:
                kw["n"] = count()
        self.fields[name] = B.list_field(type=t, **kw)
        self.advance(name, reset=True)

    # --- objects
    def assign(self, obj, values):
        """sets the fields that are not automatic"""
        vals = self.kwargs(values)
        for k in vals:
            setattr(obj, k, vals[k])

    def make(self, values, assign=False):
        vals = self.kwargs(values)
        if assign:
            o = self.cls()
            for k in vals:
                setattr(o, k, vals[k])
            return o
        return self.cls(**vals)

    def kwargs(self, values):
        vals = {}
        full = complete(self.spec, values)
        for p in self.spec["parts"]:
            for name in ([f["name"] for f in p["fields"]] if p["p"] == "bits" else [p["name"]]):
                if p["p"] == "len" and p["auto"] == "manual":
                    vals[name] = full[name]
                elif name in values:
                    vals[name] = self.value(p, values[name])
        return vals

    def value(self, p, v):
        k, name = p["p"], p.get("name")
        if v is None:
            return None
        if k in ("scalar", "cond", "trailer", "total", "len"):
            t = p["t"]
            if t["k"] == "bytes":
                return bytearray(v)
            if t["k"] == "buf":
                return self.subs[name].make(v)
            return list(v) if isinstance(v, list) else v
        if k == "data" or (k == "tail" and p["kind"] != "list"):
            return bytearray(v) if p["kind"] == "bytes" else v
        if k in ("list", "tail"):
            sub = self.subs.get(name)
            return [sub.make(x) for x in v] if sub else list(v)
        if k == "nested":
            return self.subs[name].make(v)
        if k == "select":
            return self.subs[name][v[0]].make(v[1])
        if k == "peek":
            return [self.subs[name][w].make(x) for w, x in v]
        return list(v) if isinstance(v, list) else v

    def verify(self, obj, values, what, auto=True):
        """auto: automatic fields have been stored on the object"""
        full = complete(self.spec, values)
        for p in self.spec["parts"]:
            if p["p"] == "bits":
                for f in p["fields"]:
                    bs.verify_value(f["t"], getattr(obj, f["name"]), full[f["name"]], "%s: field %s" % (what, f["name"]))
            elif auto or p["p"] not in ("len", "total", "lens"):
                self.verify_part(p, getattr(obj, p["name"]), full[p["name"]], "%s: field %s" % (what, p["name"]), auto)

    def verify_part(self, p, got, want, what, auto):
        k, name = p["p"], p["name"]
        if want is None:
            expect(got is None, "%s is %s, expected None", what, short(got))
        elif k in ("scalar", "cond", "trailer", "total", "len"):
            bs.verify_value(p["t"], got, want, what, self.subs.get(name))
        elif k == "data" or (k == "tail" and p["kind"] != "list"):
            if p["kind"] == "str":
                expect(same(got, want), "%s is %s, expected %s", what, short(got), short(want))
            else:
                expect(isinstance(got, (bytes, bytearray)) and bytes(got) == want, "%s is %s, expected %s", what, short(got), short(want))
        elif k in ("list", "tail"):
            sub = self.subs.get(name)
            expect(isinstance(got, list) and len(got) == len(want), "%s is %s, expected %s", what, short(got), short(want))
            if sub is None:
                expect(same(got, want), "%s is %s, expected %s", what, short(got), short(want))
            else:
                for i, (g, w) in enumerate(zip(got, want)):
                    verify_sub(sub, g, w, "%s[%d]" % (what, i), auto)
        elif k == "nested":
            verify_sub(self.subs[name], got, want, what, auto)
        elif k == "select":
            verify_sub(self.subs[name][want[0]], got, want[1], what, auto)
        elif k == "peek":
            expect(isinstance(got, list) and len(got) == len(want), "%s is %s, expected %s", what, short(got), short(want))
            for i, (g, w) in enumerate(zip(got, want)):
                verify_sub(self.subs[name][w[0]], g, w[1], "%s[%d]" % (what, i), auto)
        else:
            expect(same(got, want), "%s is %s, expected %s", what, short(got), short(want))


def hierarchy(name, attrs, shape=None):
    """the classes of a hierarchy that declares attrs, the one that has them all last

    shape: None or {"kind": chain|join|mixin|both, "levels": [...]}; the i-th attribute is declared at levels[i]"""
    import infi.instruct.buffer as B
    meta = type(B.Buffer)
    if shape is None:
        return [meta(name, (B.Buffer,), attrs)]
    levels = shape["levels"]
    top = max(levels)
    per = [{} for _ in range(top + 1)]
    for i, k in enumerate(attrs):
        per[levels[i % len(levels)]][k] = attrs[k]
    kind = shape["kind"]
    if kind == "chain":
        out = [meta(name + "0", (B.Buffer,), per[0])]
        for i in range(1, top + 1):
            out.append(meta("%s%d" % (name, i), (out[-1],), per[i]))
        return out
    if kind == "join":
        out = [meta("%s%d" % (name, i), (B.Buffer,), per[i]) for i in range(top)]
        return out + [meta(name, tuple(out) or (B.Buffer,), per[top])]
    if kind == "mixin":  # fields in plain classes
        plain = [type("Mixin%d" % i, (object,), per[i]) for i in range(top)]
        return [meta(name + "Other", tuple(plain) + (B.Buffer,), {}), meta(name, tuple(plain) + (B.Buffer,), per[top])]
    # both: a diamond
    base = meta(name + "0", (B.Buffer,), per[0])
    if top == 0:
        return [base]
    sides = [meta("%s%d" % (name, i), (base,), per[i]) for i in range(1, top)] or [base]
    return [base] + sides + [meta(name, tuple(sides), per[top])]


def gen_shape(d, n):
    return {"kind": d.choice(["chain", "chain", "join", "both", "mixin"]), "levels": [d.int(0, 3) for _ in range(n)] if d.bool() else [d.int(0, 1) for _ in range(n)]}


class StaticHolder(bs.Real):
    def __init__(self):
        self.subs = {}


class Plain(object):
    """the simplest form of everything"""
    def randrange(self, n):
        return n - 1

    def shuffle(self, l):
        pass


def real_of(sub):
    return Real(sub["d"], "DynSub") if "d" in sub else bs.Real(sub["s"], "Sub")


def verify_sub(sub, got, want, what, auto):
    expect(isinstance(got, sub.cls), "%s is %s, expected a %s", what, short(got), sub.cls.__name__)
    if isinstance(sub, Real):
        sub.verify(got, want, what, auto)
    else:
        sub.verify(got, want, what)


def labels(spec, out=None):
    out = set() if out is None else out
    for p in spec["parts"]:
        out.add(p["p"])
        for key in ("split", "osplit"):
            if key in p:
                out.add(key + "-" + p["p"])
        if p["p"] == "len":
            out.add("auto-" + p["auto"])
        for sub in p.get("subs", []) + ([p["sub"]] if "sub" in p else []) + ([p["elem"]] if "elem" in p else []):
            if "d" in sub:
                out.add("nested-dynamic")
                labels(sub["d"], out)
    return out
