"""Reference model of the Struct side: description trees, their codec, and the real classes built from them.

A struct spec is {"name", "fields": [f...], "form": "list"|"tuple"|"container"}.  Field kinds ("k"):
  val    {"name", "m": marshal, "via": "macro"|"field"}        a named value
  key    {"name", "m": marshal, "fixed": value | "avoid": [values], "const": bool}   first field of a selected struct
  const  {"name", "m": marshal, "value": v}
  pad    {"n", "ch"}
  opt    {"name", "m": marshal, "flag": name of an earlier field}   present when the flag is odd
  ptr    {"name", "m": vbuf/vstr/varr marshal without a size of its own, "len": name of an earlier field}
  bits   {"items": [{"kind": "field"|"flag"|"pad"|"const", "name", "n", "value"}]}
  pbits  {"items": [{"name", "slices": [[a, b]...]}], "nbytes"}
  lazy   {"fields": [f...]}                                      fixed size fields only
Marshals ("m"): num, pstr, vstr, fbuf, vbuf, farr, varr, sarr, map, nest, sel, fsel.
A struct value is a dict name -> value; a selector value is {"i": case index (-1: default), "v": struct value}.
"""
import io
import math
import struct as _struct
import sys
from common import call, expect, expect_same, same, short, HarnessError

INTS = ["%s%sInt%d" % (s, e, n) for n in (8, 16, 32, 64) for s in "US" for e in "BLN"]
FLOATS = ["%sFloat%d" % (e, n) for n in (32, 64) for e in "BLN"]
UINTS = [t for t in INTS if t[0] == "U"]


# ---------------------------------------------------------------- numbers
def num_info(t):
    """(size, kind, byteorder)"""
    if "Float" in t:
        e, n = t[0], int(t[6:])
        kind = "float"
    else:
        e, n = t[1], int(t[5:])
        kind = "unsigned" if t[0] == "U" else "signed"
    return n // 8, kind, {"B": "big", "L": "little", "N": sys.byteorder}[e]


def num_range(t):
    size, kind, _ = num_info(t)
    if kind == "unsigned":
        return 0, (1 << 8 * size) - 1
    return -(1 << 8 * size - 1), (1 << 8 * size - 1) - 1


def enc_num(t, v):
    size, kind, order = num_info(t)
    if kind == "float":
        return _struct.pack((">" if order == "big" else "<") + ("f" if size == 4 else "d"), v)
    return int(v).to_bytes(size, order, signed=kind == "signed")


def dec_num(t, raw):
    size, kind, order = num_info(t)
    if kind == "float":
        return _struct.unpack((">" if order == "big" else "<") + ("f" if size == 4 else "d"), raw)[0]
    return int.from_bytes(raw, order, signed=kind == "signed")


def gen_num(d, t):
    size, kind, _ = num_info(t)
    if kind == "float":
        return d.float(8 * size)
    return d.uint(8 * size) if kind == "unsigned" else d.sint(8 * size)


# ---------------------------------------------------------------- strings
DIRS = ["right", "left", "both", "none"]


def strip(v, m):
    if m["dir"] == "none":
        return v
    i, j = 0, len(v)
    if m["dir"] in ("left", "both"):
        while i < j and v[i] in m["pad"]:
            i += 1
    if m["dir"] in ("right", "both"):
        while j > i and v[j - 1] in m["pad"]:
            j -= 1
    return v[i:j]


# ---------------------------------------------------------------- fixed size?
def m_fixed(m):
    """the size of every value, or None"""
    k = m["k"]
    if k == "num":
        return num_info(m["t"])[0]
    if k in ("pstr", "fbuf"):
        return m["size"]
    if k == "map":
        return m_fixed(m["m"])
    if k == "farr":
        e = m_fixed(m["elem"])
        return 0 if m["n"] == 0 else None if e is None else e * m["n"]
    if k == "nest":
        return s_fixed(m["spec"])
    if k == "sel" or (k == "fsel" and m.get("mm")):
        sizes = set(s_fixed(sp) for sp in specs_of(m))
        return sizes.pop() if len(sizes) == 1 else None
    return None


def f_fixed(f):
    k = f["k"]
    if k in ("val", "const", "key"):
        return m_fixed(f["m"])
    if k == "pad":
        return f["n"]
    if k == "bits":
        return sum(i["n"] for i in f["items"]) // 8
    if k == "pbits":
        return f["nbytes"]
    if k == "lazy":
        return sum(f_fixed(x) for x in f["fields"])
    return None


def s_fixed(spec):
    sizes = [f_fixed(f) for f in spec["fields"]]
    return None if None in sizes else sum(sizes)


# ---------------------------------------------------------------- walking
def named(spec_or_fields):
    """(field, is_const) of every named field, bits and lazy groups included, in order"""
    fields = spec_or_fields["fields"] if isinstance(spec_or_fields, dict) else spec_or_fields
    for f in fields:
        if f["k"] == "lazy":
            for x in named(f["fields"]):
                yield x
        elif f["k"] in ("bits", "pbits"):
            for i in f["items"]:
                if i.get("kind") != "pad":
                    yield i, i.get("kind") == "const"
        elif f["k"] != "pad":
            yield f, f["k"] == "const" or bool(f.get("const"))


def flat(spec):
    """the same struct without lazy groups"""
    def go(fields):
        out = []
        for f in fields:
            if f["k"] == "lazy":
                out += go(f["fields"])
            else:
                out.append(f)
        return out
    return dict(spec, fields=go(spec["fields"]))


def m_labels(m):
    out = {m["k"]}
    for x in [m[k] for k in ("m", "elem", "key") if isinstance(m.get(k), dict)]:
        out |= m_labels(x)
    for sp in specs_of(m):
        out |= labels(sp)
    return out


def specs_of(m):
    if m["k"] == "nest":
        return [m["spec"]]
    if m["k"] in ("sel", "fsel"):
        return [c[1] for c in m["cases"]] + ([m["default"]] if m.get("default") else [])
    return []


def labels(spec):
    out = set()
    for f in spec["fields"]:
        if f["k"] in ("val",):
            out |= m_labels(f["m"])
        elif f["k"] == "lazy":
            out.add("lazy")
            out |= labels(f)
        else:
            out.add(f["k"])
            if isinstance(f.get("m"), dict):
                out |= m_labels(f["m"])
    return out


# ---------------------------------------------------------------- encoding
def enc(m, v, raw=False):
    """raw: strings keep the padding characters their value has (valid input, although it is never written this way)"""
    k = m["k"]
    if k == "num":
        return enc_num(m["t"], v)
    if k in ("pstr", "fbuf"):
        v = strip(v, m) if k == "pstr" and not raw else v
        fill = m["size"] - len(v)
        if fill < 0 or (fill and (k == "fbuf" or m["dir"] == "none")):
            raise HarnessError("unencodable string in the model")
        pad = bytes(m["pad"][:1]) * fill if fill else b""
        return pad + v if k == "pstr" and m["dir"] == "left" else v + pad
    if k in ("vstr", "vbuf"):
        v = strip(v, m) if k == "vstr" and not raw else v
        return (enc_num(m["sz"], len(v)) if m.get("sz") else b"") + v
    if k in ("farr", "varr", "sarr"):
        body = b"".join(enc(m["elem"], x, raw) for x in v)
        if k == "farr":
            return body
        return (enc_num(m["sz"], len(body) if k == "sarr" else len(v)) if m.get("sz") else b"") + body
    if k == "map":
        return enc(m["m"], dict((kk, vv) for kk, vv in map(tuple, m["map"]))[v], raw)
    if k == "nest":
        return enc_struct(m["spec"], v, raw)
    return enc_struct(case_of(m, v), v["v"], raw)


def case_of(m, v):
    return m["default"] if v["i"] < 0 else m["cases"][v["i"]][1]


def enc_fields(fields, vals, raw=False):
    out = b""
    for f in fields:
        k = f["k"]
        if k == "const":
            out += enc(f["m"], f["value"], raw)
        elif k == "pad":
            out += f["ch"] * f["n"]
        elif k == "opt":
            if vals.get(f["name"]) is not None:
                out += enc(f["m"], vals[f["name"]], raw)
        elif k == "lazy":
            out += enc_fields(f["fields"], vals, raw)
        elif k in ("bits", "pbits"):
            out += enc_bits(f, vals)
        else:
            out += enc(f["m"], vals[f["name"]], raw)
    return out


def enc_struct(spec, vals, raw=False):
    return enc_fields(spec["fields"], vals, raw)


def sites(spec, vals, at=0, top=None):
    """(kind, field or marshal, start, end, top-level field) of every part of an encoded struct, at any depth"""
    def go(fields, at, top):
        for f in fields:
            t = top or f
            size = len(enc_fields([f], vals))
            yield f["k"], f, at, at + size, t
            if f["k"] == "lazy":
                for x in go(f["fields"], at, t):
                    yield x
            elif f["k"] in ("val", "opt", "ptr", "key") and vals.get(f["name"]) is not None:
                for x in m_sites(f["m"], vals[f["name"]], at, t):
                    yield x
            at += size

    def m_sites(m, v, at, t):
        size = len(enc(m, v))
        yield "m-" + m["k"], m, at, at + size, t
        if m["k"] in ("farr", "varr", "sarr"):
            pos = at + (num_info(m["sz"])[0] if m.get("sz") else 0)
            for x in v:
                for y in m_sites(m["elem"], x, pos, t):
                    yield y
                pos += len(enc(m["elem"], x))
        elif m["k"] == "nest":
            for y in sites(m["spec"], v, at, t):
                yield y
        elif m["k"] in ("sel", "fsel"):
            for y in sites(case_of(m, v), v["v"], at, t):
                yield y
    return go(spec["fields"], at, top)


def bit_slots(f):
    """[(item, [bit positions, low first])]"""
    out, pos = [], 0
    for i in f["items"]:
        if f["k"] == "bits":
            out.append((i, list(range(pos, pos + i["n"]))))
            pos += i["n"]
        else:
            out.append((i, [b for a, z in i["slices"] for b in range(a, z)]))
    return out


def enc_bits(f, vals):
    n = f_fixed(f)
    acc = 0
    for i, slots in bit_slots(f):
        if i.get("kind") == "pad":
            continue
        v = i["value"] if i.get("kind") == "const" else int(vals[i["name"]])
        for j, b in enumerate(slots):
            acc |= ((v >> j) & 1) << b
    return acc.to_bytes(n, "little")


def dec_bits(f, raw):
    acc = int.from_bytes(raw, "little")
    return dict((i["name"], sum(((acc >> b) & 1) << j for j, b in enumerate(slots)))
                for i, slots in bit_slots(f) if i.get("kind") != "pad")


# ---------------------------------------------------------------- canonical (as read back) values
def canon(m, v, raw=False):
    """the value as it is read back (raw: as it was given, with constants added)"""
    k = m["k"]
    if k in ("pstr", "vstr"):
        return v if raw else strip(v, m)
    if k in ("farr", "varr", "sarr"):
        return [canon(m["elem"], x, raw) for x in v]
    if k == "nest":
        return canon_struct(m["spec"], v, raw)
    if k in ("sel", "fsel"):
        return {"i": v["i"], "v": canon_struct(case_of(m, v), v["v"], raw)}
    if k == "num" and num_info(m["t"])[1] != "float":
        return int(v)
    return v


def canon_fields(fields, vals, out, raw=False):
    for f in fields:
        if f["k"] == "lazy":
            canon_fields(f["fields"], vals, out, raw)
        elif f["k"] in ("bits", "pbits"):
            for i in f["items"]:
                if i.get("kind") == "const":
                    out[i["name"]] = i["value"]
                elif i.get("kind") != "pad":
                    out[i["name"]] = int(vals[i["name"]])
        elif f["k"] == "const":
            out[f["name"]] = canon(f["m"], f["value"], raw)
        elif f["k"] == "opt" and vals.get(f["name"]) is None:
            out[f["name"]] = None
        elif f["k"] != "pad":
            out[f["name"]] = canon(f["m"], vals[f["name"]], raw)
    return out


def canon_struct(spec, vals, raw=False):
    return canon_fields(spec["fields"], vals, {}, raw)


# ---------------------------------------------------------------- generating specs
# names that mean something elsewhere: in the library, to Python, or as parts of other names
FIELD_NAMES = ["name", "default", "marshal", "fields", "value", "size", "key", "x", "struct", "n", "type", "data", "a_b", "Zz", "items", "count", "length",
               "mapping", "container", "_private", "index", "offset", "bits", "args", "result", "F1", "f", "ff", "__x"]


class G(object):
    """Generates specs; kinds can be restricted with `only` (a set of field/marshal kinds)."""

    def __init__(self, d, only=None, without=()):
        self.d = d
        self.only = only
        self.without = set(without)
        self.count = 0
        self.names = 0
        self.style = None

    def allowed(self, k):
        return (self.only is None or k in self.only) and k not in self.without

    def name(self):
        self.names += 1
        if self.style is None:
            self.style = self.d.weighted([(5, "plain"), (2, "odd"), (1, "down")])
        if self.style == "odd" and self.names <= len(FIELD_NAMES):
            return FIELD_NAMES[(self.names * 7) % len(FIELD_NAMES)]
        if self.style == "down":
            return "f%d" % (1000 - self.names)
        return "f%d" % self.names

    def sname(self):
        self.count += 1
        if self.count == 1 and self.d.chance(1, 20):
            return self.d.choice(["Struct", "Field", "StructType", "Buffer", "_Hidden", "FieldBase"])
        return "S%d" % self.count

    def num(self, ints=False):
        d = self.d
        return {"k": "num", "t": d.choice(INTS) if ints or d.chance(4, 5) else d.choice(FLOATS)}

    def size_type(self):
        d = self.d
        if d.chance(1, 8):
            return d.choice([t for t in INTS if t[0] == "S"])
        return d.choice(UINTS[:6]) if d.chance(3, 4) else d.choice(UINTS)

    def pad(self):
        d = self.d
        dr = d.choice(["right", "right", "left", "both", "none"])
        return {"pad": d.choice([b"\0", b"\0", b" ", b"*", b"\0 ", b"ab"]), "dir": dr}

    def marshal(self, depth, fixed=False):
        d = self.d
        opts = [(6, "num"), (3, "pstr"), (2, "fbuf"), (2, "map"), (2, "farr")]
        if not fixed:
            opts += [(3, "vstr"), (3, "vbuf"), (2, "varr"), (2, "sarr")]
        if depth > 0:
            opts += [(3, "nest"), (1, "sel"), (1, "fsel")] if fixed else [(3, "nest"), (2, "sel"), (2, "fsel")]
        opts = [o for o in opts if self.allowed(o[1])] or [(1, "num")]
        k = d.weighted(opts)
        if k == "num":
            return self.num()
        if k == "pstr":
            return dict(self.pad(), k=k, size=d.int(0, 6) if d.chance(9, 10) else d.int(7, 40) if d.chance(3, 4) else d.int(60, 140))
        if k == "fbuf":
            return {"k": k, "size": d.int(0, 6) if d.chance(14, 15) else d.int(7, 300)}
        if k == "vstr":
            return dict(self.pad(), k=k, sz=self.size_type())
        if k == "vbuf":
            return {"k": k, "sz": self.size_type()}
        if k == "map":
            return self.mapping()
        if k == "farr":
            elem = self.elem(depth - 1, fixed)
            return {"k": k, "n": d.int(0, 3) if elem["k"] != "num" or d.chance(9, 10) else d.int(4, 300), "elem": elem}
        if k in ("varr", "sarr"):
            return {"k": k, "sz": self.size_type(), "elem": self.elem(depth - 1, False)}
        if k == "nest":
            return {"k": k, "spec": self.struct(depth - 1, fixed)}
        return self.selector(k, depth - 1, fixed)

    def elem(self, depth, fixed):
        return self.marshal(max(depth, 0), fixed)

    def mapping(self):
        d = self.d
        m = self.num(ints=True) if d.chance(3, 4) else {"k": "fbuf", "size": d.int(1, 2)}
        keys = d.perm(["a", "b", "", 0, 1, -5, b"k"])[:d.int(1, 4)]
        seen, out = set(), []
        for key in keys:
            v = gen_num(d, m["t"]) if m["k"] == "num" else d.bytes(m["size"], m["size"])
            if v not in seen:
                seen.add(v)
                out.append([key, v])
        return {"k": "map", "m": m, "map": out}

    def selector(self, k, depth, fixed=False):
        m = self.selector_of_any_size(k, depth, fixed)
        if fixed:
            sizes = [s_fixed(sp) for sp in specs_of(m)]
            for sp, size in zip(specs_of(m), sizes):
                if size < max(sizes):
                    sp["fields"].append({"k": "val", "name": self.name(), "m": {"k": "fbuf", "size": max(sizes) - size}, "via": "field"})
            if k == "fsel":
                m["mm"] = [max(sizes), max(sizes)]
        return m

    def selector_of_any_size(self, k, depth, fixed):
        d = self.d
        n = d.int(1, 3)
        if k == "sel":
            key = self.num(ints=True) if d.chance(3, 4) else {"k": "fbuf", "size": d.int(1, 3)}
            keys, cases = [], []
            for _ in range(n):
                v = gen_num(d, key["t"]) if key["k"] == "num" else d.bytes(key["size"], key["size"])
                if v not in keys:
                    keys.append(v)
            for v in keys:
                sp = self.struct(max(depth, 0), fixed)
                sp["fields"].insert(0, {"k": "key", "name": self.name(), "m": key, "fixed": v, "const": d.chance(1, 3)})
                cases.append([v, sp])
            default = None
            if d.bool():
                default = self.struct(max(depth, 0), fixed)
                default["fields"].insert(0, {"k": "key", "name": self.name(), "m": key, "avoid": keys})
            return {"k": k, "key": key, "cases": cases, "default": default}
        # by function: peeks `peek` bytes in one or several reads, decides by byte number `at`
        peek = d.int(1, 4)
        at = d.int(0, peek - 1)
        cases = []
        for i in range(n):
            sp = self.struct(max(depth, 0), fixed)
            head = [{"k": "key", "name": self.name(), "m": {"k": "num", "t": "UBInt8"}, "avoid": []} for _ in range(peek)]
            head[at] = dict(head[at], mod=[n, i])
            head[at].pop("avoid")
            sp["fields"] = head + sp["fields"]
            cases.append([i, sp])
        return {"k": k, "peek": d.choice(["one", "bytes", "struct", "selector"]), "npeek": peek, "at": at, "cases": cases, "default": None}

    def bits(self):
        d = self.d
        items, total = [], 0
        for _ in range(d.int(1, 6)):
            kind = d.weighted([(5, "field"), (2, "flag"), (2, "pad"), (1, "const")])
            n = 1 if kind == "flag" else d.int(1, 12) if d.chance(4, 5) else d.int(13, 40) if d.chance(4, 5) else 0
            it = {"kind": kind, "n": n}
            if kind != "pad":
                it["name"] = self.name()
            if kind == "const":
                it["value"] = d.uint(n)
            items.append(it)
            total += n
        if total % 8:
            n = 8 - total % 8
            items.insert(d.int(0, len(items)), {"kind": "pad", "n": n} if d.bool() else {"kind": "field", "n": n, "name": self.name()})
        return {"k": "bits", "items": items}

    def pbits(self):
        d = self.d
        nbytes = d.int(1, 5) if d.chance(9, 10) else d.int(6, 12)
        cuts = sorted(set([0, 8 * nbytes] + [d.int(1, 8 * nbytes - 1) for _ in range(d.int(0, 7))]))
        segs = [[a, b] for a, b in zip(cuts, cuts[1:])]
        last = segs[-1]
        segs = [s for s in segs[:-1] if d.chance(3, 4)] + [last]  # gaps, but the last bit names the size
        if d.chance(1, 8):  # no bits at all
            p = d.choice([0, 8 * nbytes, d.int(0, 8 * nbytes)])
            segs.append([p, p])
        segs = d.perm(segs)
        items = []
        while segs:
            k = min(len(segs), d.choice([1, 1, 2, 3]))
            items.append({"name": self.name(), "slices": segs[:k], "list": d.bool()})
            segs = segs[k:]
        f = {"k": "pbits", "items": items, "nbytes": nbytes}
        if d.chance(1, 5):  # with an explicit, larger size
            if d.bool():
                i = [i for i in items if last in i["slices"]][0]
                j = i["slices"].index(last)
                i["slices"][j] = [last[0], d.int(last[0] + 1, last[1])]
            f["nbytes"] += d.int(0, 2)
            f["explicit"] = True
        return f

    def field(self, depth, fixed, fields):
        d = self.d
        opts = [(10, "val"), (2, "const"), (1, "pad"), (3, "bits"), (2, "pbits")]
        ints = [f["name"] for f in fields if f["k"] == "val" and f["m"]["k"] == "num" and "Float" not in f["m"]["t"]]
        small = [f["name"] for f in fields if f["k"] == "val" and f["m"]["k"] == "num" and f["m"]["t"] in INTS and not f.get("flag")]
        if not fixed:
            if ints:
                opts.append((8, "opt"))
            if small:
                opts.append((6, "ptr"))
        opts.append((2, "lazy"))
        k = d.weighted([o for o in opts if self.allowed(o[1])] or [(1, "val")])
        if k == "val":
            return {"k": k, "name": self.name(), "m": self.marshal(depth, fixed), "via": d.choice(["macro", "field"])}
        if k == "const":
            m = d.weighted([(3, self.num()), (1, {"k": "fbuf", "size": d.int(0, 4)}),
                            (1, dict(self.pad(), k="pstr", size=d.int(0, 5)))])
            if fixed is False and d.chance(1, 5):
                m = dict(self.pad(), k="vstr", sz="UBInt8")
            if depth > 0 and self.allowed("cnest") and d.chance(1, 4):
                m = {"k": "nest", "spec": self.struct(depth - 1, fixed)}
            v = self.value(m)
            if v != v:
                v = 0.5
            return {"k": k, "name": self.name(), "m": m, "value": canon(m, v), "via": d.choice(["macro", "class"])}
        if k == "pad":
            return {"k": k, "n": d.int(0, 5) if d.chance(9, 10) else d.choice([d.int(6, 40), 64, 65, d.int(66, 200), 300]), "ch": d.choice([b"\0", b"\xff", b"p"]), "via": d.choice(["BytePadding", "Padding"])}
        if k == "opt":
            return {"k": k, "name": self.name(), "m": self.marshal(depth, fixed), "flag": d.choice(ints)}
        if k == "ptr":
            name = d.choice(small)
            for f in fields:
                if f.get("name") == name:
                    f["flag"] = True  # its value is a small length
            mk = d.choice(["vbuf", "vstr", "varr", "sarr"])
            m = {"k": mk}
            if mk == "vstr":
                m.update(pad=b"", dir="none")
            if mk in ("varr", "sarr"):
                m["elem"] = self.marshal(max(depth - 1, 0), True) if mk == "varr" else {"k": "num", "t": "UBInt8"}
            return {"k": k, "name": self.name(), "m": m, "len": name}
        if k == "bits":
            return self.bits()
        if k == "pbits":
            return self.pbits()
        inner = []
        for _ in range(d.int(0, 3)):
            inner.append(self.field(depth - 1, True, []))
        return {"k": "lazy", "fields": inner}

    def struct(self, depth, fixed=False, lo=0, hi=4):
        d = self.d
        sp = {"name": self.sname(), "fields": [], "form": d.choice(["list", "tuple", "container"])}
        n = d.int(lo, hi)
        if hi > 3 and d.chance(1, 25):  # many fields, or deep
            if d.bool() or not depth:
                n, depth = d.int(7, 20), 0
            else:
                n, depth = min(n, 2), depth + 2
        for _ in range(n):
            sp["fields"].append(self.field(depth, fixed, sp["fields"]))
        return sp

    # ---- values
    def value(self, m, small=False):
        d = self.d
        k = m["k"]
        if k == "num":
            return gen_num(d, m["t"])
        if k == "fbuf":
            return d.bytes(m["size"], m["size"])
        if k == "pstr":
            if m["dir"] == "none":
                return d.bytes(m["size"], m["size"])
            return self.padded(m, m["size"])
        if k in ("vstr", "vbuf"):
            top = 8 if d.chance(9, 10) else 60
            if m.get("sz") in UINTS and not m["sz"].endswith("Int8") and d.chance(1, 12):
                top = 400
            if m.get("sz") in UINTS and not m["sz"].endswith("Int8") and d.chance(1, 20):
                n = d.choice([512, 1023, 1024, 1025, 1500, 2048, 4095, 4096, 4097, 5000, 8193]) if m["sz"].endswith("16") or d.chance(5, 6) else 70000
                x = d.bytes(1, 8)
                return (x * n)[:n]
            if m.get("sz") and m["sz"].endswith("Int8") and d.chance(1, 15):
                return self.padded(dict(m, pad=m.get("pad", b"\0")), 127) if k == "vstr" else d.bytes(100, 127 if m["sz"][0] == "S" else 255)
            return self.padded(m, top) if k == "vstr" else d.bytes(0, top)
        if k == "farr":
            if m["n"] > 8:
                return self.many(m, m["n"])
            return [self.value(m["elem"]) for _ in range(m["n"])]
        if k in ("varr", "sarr"):
            n = d.int(0, 3) if d.chance(9, 10) else d.int(4, 7)
            if k == "varr" and m.get("sz") and d.chance(1, 12):
                return self.many(m, d.int(8, min(300, num_range(m["sz"])[1])))
            out = []
            for _ in range(n):
                x = self.value(m["elem"])
                if k == "sarr":
                    if not enc(m["elem"], x):
                        continue  # an element without bytes cannot be told from no element
                    if m.get("sz") and sum(len(enc(m["elem"], y)) for y in out + [x]) > num_range(m["sz"])[1]:
                        break
                out.append(x)
            return out
        if k == "map":
            return d.choice(m["map"])[0]
        if k == "nest":
            return self.svalue(m["spec"])
        if m.get("default") and d.chance(1, 3):
            i = -1
        else:
            i = d.int(0, len(m["cases"]) - 1)
        return {"i": i, "v": self.svalue(m["default"] if i < 0 else m["cases"][i][1])}

    def many(self, m, n):
        base = [self.value(m["elem"]) for _ in range(2)]
        i = self.d.int(0, n)
        return base[:1] * i + base[1:] * (n - i)

    def padded(self, m, top):
        d = self.d
        if d.bool():
            return d.bytes(0, top)
        alphabet = list(m["pad"] or b"\0") + [97, 255]
        return bytes(d.choice(alphabet) for _ in range(d.int(0, min(top, 12))))

    def svalue(self, spec):
        vals = {}
        self.fvalues(spec["fields"], vals)
        return vals

    def fvalues(self, fields, vals):
        d = self.d
        for f in fields:
            k = f["k"]
            if k == "val":
                vals[f["name"]] = d.int(0, 6) if f.get("flag") else self.value(f["m"])
            elif k == "key":
                if "fixed" in f:
                    v = f["fixed"]
                elif "mod" in f:
                    n, i = f["mod"]
                    v = i + n * d.int(0, (255 - i) // n)
                else:
                    v = self.value(f["m"])
                    for _ in range(9):
                        if v not in f["avoid"]:
                            break
                        v = self.value(f["m"])
                    if v in f["avoid"]:
                        v = self.unavoided(f)
                vals[f["name"]] = v
            elif k == "opt":
                vals[f["name"]] = self.value(f["m"]) if vals[f["flag"]] & 1 else None
            elif k == "ptr":
                n = vals[f["len"]]
                m = f["m"]
                if m["k"] in ("vbuf", "vstr"):
                    vals[f["name"]] = d.bytes(n, n)
                else:
                    vals[f["name"]] = [self.value(m["elem"]) for _ in range(n)]
            elif k in ("bits", "pbits"):
                for i, slots in bit_slots(f):
                    if i.get("kind") not in ("pad", "const"):
                        vals[i["name"]] = d.uint(len(slots))
            elif k == "lazy":
                self.fvalues(f["fields"], vals)

    def unavoided(self, f):
        m = f["m"]
        for i in range(16):
            v = i if m["k"] == "num" else bytes([i]) + b"\0" * (m["size"] - 1)
            if v not in f["avoid"]:
                return v
        raise HarnessError("no free key")


def gen_case(d, depth=2, hi=5, lo=0, values=2, **kw):
    g = G(d, **kw)
    spec = g.struct(depth, False, lo, hi)
    return dict(spec=spec, values=[g.svalue(spec) for _ in range(values)])


# ---------------------------------------------------------------- real classes
class Real(object):
    """The real class of a spec; classes of nested specs are in .classes by (unique) struct name."""

    def __init__(self, spec, eager=False, attrs=None):
        import infi.instruct as I
        import importlib
        S = importlib.import_module("infi.instruct.struct")
        from infi.instruct.struct import bit, const, lazy, optional, selector
        self.I, self.S = I, S
        self.bit, self.const, self.lazy, self.optional, self.selector = bit, const, lazy, optional, selector
        self.eager = eager
        self.classes = {}
        self.attrs = attrs or {}
        self.spec = spec
        self.cls = self.struct(spec)

    # ---- classes
    def struct(self, spec):
        if spec["name"] in self.classes:
            return self.classes[spec["name"]]
        fields = [self.field(f) for f in (flat(spec) if self.eager else spec)["fields"]]
        cls = self.make_class(spec, fields)
        self.classes[spec["name"]] = cls
        return cls

    def make_class(self, spec, fields, bases=None):
        attrs = dict(self.attrs.get(spec["name"], {}))
        attrs["_fields_"] = wrap_fields(self.S, spec.get("form", "list"), fields)
        return type(self.I.Struct)(str(spec["name"]), bases or (self.I.Struct,), attrs)

    def num(self, t):
        return getattr(self.I, t)

    def padargs(self, m):
        out = {}
        if m["pad"] != b"\x00":
            out["padding"] = m["pad"]
        if m["dir"] != "right":
            out["padding_direction"] = getattr(self.I, "PADDING_DIRECTION_" + m["dir"].upper())
        return out

    def marshal(self, m):
        from infi.instruct import string, array, mapping
        k = m["k"]
        if k == "num":
            return context_num(self.I, m["t"]) if m.get("ctx") else self.num(m["t"])
        if k == "pstr":
            return string.PaddedStringMarshal(m["size"], **self.padargs(m))
        if k == "fbuf":
            return string.FixedSizeBufferMarshal(m["size"])
        if k == "vstr":
            return string.VarSizeStringMarshal(self.size(m), **self.padargs(m))
        if k == "vbuf":
            return string.VarSizeBufferMarshal(self.size(m))
        if k == "farr":
            return array.FixedSizeArrayMarshal(m["n"], self.marshal(m["elem"]))
        if k == "varr":
            return array.VarSizeArrayMarshal(self.size(m), self.marshal(m["elem"]))
        if k == "sarr":
            return array.SumSizeArrayMarshal(self.size(m), self.marshal(m["elem"]))
        if k == "map":
            return mapping.FixedSizeMappingMarshal(dict(map(tuple, m["map"])), self.marshal(m["m"]))
        if k == "nest":
            return self.struct(m["spec"])
        if k == "sel":
            cases = dict((c[0], self.struct(c[1])) for c in m["cases"])
            s = self.I.StructSelector(self.marshal(m["key"]), cases, self.struct(m["default"]) if m.get("default") else None)
            cases.clear()  # (what the caller does with the dictionary afterwards is his business)
            return s
        return self.selector.FuncStructSelectorMarshal(self.I.StructFunc(self.chooser(m)), *([tuple(m["mm"])] if m.get("mm") else []))

    def chooser(self, m):
        classes = [self.struct(c[1]) for c in m["cases"]]
        npeek, at, how = m["npeek"], m["at"], m["peek"]
        header = None
        if how == "struct":
            header = type(self.I.Struct)("Header", (self.I.Struct,), {"_fields_": [self.I.FixedSizeBuffer("data", npeek)]})
        elif how == "selector":
            part = type(self.I.Struct)("Part", (self.I.Struct,), {"_fields_": [self.I.FixedSizeBuffer("data", npeek)]})
            other = type(self.I.Struct)("Other", (part,), {})
            header = type(self.I.Struct)("Header", (self.I.Struct,), {"_fields_": [
                self.I.Field("part", self.I.StructSelector(self.I.UBInt8, {0: part, 1: other}, part))]})

        def choose(obj, stream, context):
            if how == "one":
                data = stream.read(npeek)
            elif how == "bytes":
                data = b"".join(stream.read(1) for _ in range(npeek))
            elif how == "selector":
                data = header.create_from_stream(stream, context).part.data
            else:
                data = header.create_from_stream(stream, context).data
            return classes[data[at:at + 1][0] % len(classes)]
        return choose

    def size(self, m):
        return self.I.ReadPointer(m["ptr"]) if m.get("ptr") else self.num(m["sz"])

    # ---- fields
    def field(self, f, default=None):
        I, k = self.I, f["k"]
        if k == "lazy":
            return I.Lazy(*[self.field(x) for x in f["fields"]])
        if k == "pad":
            return getattr(I, f.get("via", "BytePadding"))(f["n"], *([f["ch"]] if f["ch"] != b"\x00" else []))
        if f.get("explicit"):
            return self.bit.PositionalBitFieldListContainer(8 * f["nbytes"], [self.bit_item(k, i) for i in f["items"]])
        if k in ("bits", "pbits"):
            return I.BitFields(*[self.bit_item(k, i) for i in f["items"]])
        m = f["m"]
        if k == "const":
            return self.const_field(f)
        if k == "key" and f.get("const"):
            return I.ConstField(f["name"], f["fixed"], self.marshal(m))
        default = self.real_default(f, default)
        if k == "opt":
            flag = f["flag"]
            return self.optional.OptionalField(f["name"], self.marshal(m), lambda obj, stream, context: getattr(obj, flag) & 1,
                                               default)
        if k == "ptr":
            m = dict(m, ptr=f["len"])
        if f.get("via") == "macro" or k in ("key", "ptr"):
            return self.macro(f["name"], m, default)
        return I.Field(f["name"], self.marshal(m), default)

    def real_default(self, f, default):
        if "default" in f and f["default"] is not None:
            self.marshal(f["m"])  # declares the classes of the value
            return self.real_value(f["m"], f["default"]) if f["k"] != "bit" else f["default"]
        return default

    def const_field(self, f):
        I, m = self.I, f["m"]
        if m["k"] == "nest":
            cls = self.struct(m["spec"])
            value = self.make(m["spec"], f["value"])
            return I.ConstField(f["name"], value) if f.get("via") == "macro" else self.const.ConstField(f["name"], cls, value)
        if f.get("via") == "macro":
            return I.ConstField(f["name"], f["value"], self.marshal(m))
        return self.const.ConstField(f["name"], self.marshal(m), f["value"])

    def macro(self, name, m, default):
        I, k = self.I, m["k"]
        if k == "num" and not m.get("ctx"):
            return self.num(m["t"])(name, default)
        if k == "pstr":
            return I.PaddedString(name, m["size"], default=default, **self.padargs(m))
        if k == "fbuf":
            return I.FixedSizeBuffer(name, m["size"], default)
        if k == "vstr":
            return I.VarSizeString(name, self.size(m), default=default, **self.padargs(m))
        if k == "vbuf":
            return I.VarSizeBuffer(name, self.size(m), default)
        if k == "farr":
            return I.FixedSizeArray(name, m["n"], self.marshal(m["elem"]), default)
        if k == "varr":
            return I.VarSizeArray(name, self.size(m), self.marshal(m["elem"]), default)
        if k == "sarr":
            return I.SumSizeArray(name, self.size(m), self.marshal(m["elem"]), default)
        if k == "map":
            return I.MappingField(name, self.marshal(m["m"]), dict(map(tuple, m["map"])), default)
        if k == "fsel":
            return I.SelectStructByFunc(name, self.chooser(m), default=default, **(dict(min_max_size=tuple(m["mm"])) if m.get("mm") else {}))
        return I.Field(name, self.marshal(m), default)

    def bit_item(self, k, i):
        I = self.I
        default = i.get("default")
        if k == "pbits":
            sl = [slice(a, b) for a, b in i["slices"]]
            if i.get("list"):
                return I.BitField(i["name"], sl if len(sl) > 1 else sl[0], default)
            return I.BitField(i["name"], I.Bits[tuple(sl) if len(sl) > 1 else sl[0]], default)
        if i["kind"] == "flag":
            return I.BitFlag(i["name"], default)
        if i["kind"] == "pad":
            return I.BitPadding(i["n"])
        if i["kind"] == "const":
            return self.const.ConstField(i["name"], self.bit.BitMarshal(i["n"]), i["value"])
        return I.BitField(i["name"], i["n"], default)

    # ---- objects
    def real_value(self, m, v):
        k = m["k"]
        if k in ("farr", "varr", "sarr"):
            return [self.real_value(m["elem"], x) for x in v]
        if k == "nest":
            return self.make(m["spec"], v)
        if k in ("sel", "fsel"):
            return self.make(case_of(m, v), v["v"])
        return v

    def kwargs(self, spec, vals, names=None):
        out = {}
        for f, const in named(spec):
            if const or (names is not None and f["name"] not in names):
                continue
            v = vals[f["name"]]
            out[f["name"]] = v if v is None or "m" not in f else self.real_value(f["m"], v)
        return out

    def make(self, spec, vals):
        return call("constructor of %s" % spec["name"], self.classes[spec["name"]], **self.kwargs(spec, vals))

    def new(self, vals, how="kwargs"):
        kw = self.kwargs(self.spec, vals)
        if how == "kwargs":
            return call("constructor", self.cls, **kw)
        o = call("constructor", self.cls)
        for n in kw:
            call("assignment of %s" % n, setattr, o, n, kw[n])
        return o

    def morph(self, spec, obj, vals):
        """gives an object other values, in place where that is possible"""
        for f, const in named(spec):
            if const:
                continue
            n, v = f["name"], vals[f["name"]]
            cur = call("reading attribute %s" % n, getattr, obj, n)
            if v is None or "m" not in f:
                setattr(obj, n, v)
            else:
                self.morph_value(f["m"], cur, v, lambda x: setattr(obj, n, x))

    def morph_value(self, m, cur, v, put):
        k = m["k"]
        if k in ("farr", "varr", "sarr") and isinstance(cur, list):
            for i, x in enumerate(v[:len(cur)]):
                self.morph_value(m["elem"], cur[i], x, lambda y: cur.__setitem__(i, y))
            del cur[len(v):]
            cur.extend(self.real_value(m["elem"], x) for x in v[len(cur):])
            return
        sp, vals = (m["spec"], v) if k == "nest" else (case_of(m, v), v["v"]) if k in ("sel", "fsel") else (None, None)
        if sp is not None and type(cur) is self.classes[sp["name"]]:
            self.morph(sp, cur, vals)
        else:
            put(self.real_value(m, v))

    def extract(self, spec, obj):
        """the values of a real object, by public attribute access"""
        cls = self.classes[spec["name"]]
        expect(type(obj) is cls, "expected a %s object, got %s", spec["name"], short(obj))
        out = {}
        for f, const in named(spec):
            v = call("reading attribute %s" % f["name"], getattr, obj, f["name"])
            out[f["name"]] = self.plain(f["m"], v) if "m" in f and v is not None else v
        return out

    def plain(self, m, v):
        k = m["k"]
        if k in ("farr", "varr", "sarr"):
            expect(isinstance(v, list), "an array is %s, not a list", type(v).__name__)
            return [self.plain(m["elem"], x) for x in v]
        if k == "nest":
            return self.extract(m["spec"], v)
        if k in ("sel", "fsel"):
            options = [(i, c[1]) for i, c in enumerate(m["cases"])] + ([(-1, m["default"])] if m.get("default") else [])
            for i, sp in options:
                if type(v) is self.classes[sp["name"]]:
                    return {"i": i, "v": self.extract(sp, v)}
            expect(False, "a selected struct is %s", short(v))
        return v


def context_num(I, t):
    """a user's marshal: an int from which the context's "ctx_add" is subtracted when it is read"""
    size = num_info(t)[0]
    lo, hi = num_range(t)

    class ContextNum(I.Marshal):
        def min_max_sizeof(self):
            return I.MinMax(size, size)

        def sizeof(self, obj):
            return size

        def create_from_stream(self, stream, context, *args, **kwargs):
            return (getattr(I, t).create_from_stream(stream, context) - lo - context.get("ctx_add", 0)) % (hi - lo + 1) + lo

        def write_to_stream(self, obj, stream, context):
            getattr(I, t).write_to_stream((obj - lo + context.get("ctx_add", 0)) % (hi - lo + 1) + lo, stream, context)
    return ContextNum()


def wrap_fields(S, form, fields):
    if form == "tuple":
        return tuple(fields)
    if form == "container":
        return S.FieldListContainer(list(fields))
    return list(fields)


class Stream(object):
    """A byte stream that records every read; optionally without tell()."""

    def __init__(self, data):
        self.data = data
        self.pos = 0
        self.reads = []
        self.closed = False

    def read(self, n=-1):
        if self.closed:
            raise ValueError("I/O operation on closed file")
        out = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.reads.append((self.pos, n))
        self.pos += len(out)
        return out

    def write(self, data):
        raise IOError("this stream is for reading")

    def close(self):
        self.closed = True


class TellStream(Stream):
    def tell(self):
        return self.pos


class PipeStream(Stream):
    """Like a file of a pipe or a socket: there is tell() but it fails."""

    def tell(self):
        raise io.UnsupportedOperation("underlying stream is not seekable")

    seek = truncate = tell

    def seekable(self):
        return False


class Sink(object):
    """A byte stream that only accepts appends."""

    def __init__(self, data=b""):
        self.data = data

    def write(self, data):
        expect(isinstance(data, (bytes, bytearray)), "wrote %s to the stream", type(data).__name__)
        self.data += bytes(data)
        return len(data)
