"""C07: conditions, defaults, constructor arguments and before/after hooks apply to exactly their field.

A class has a header byte, 1-3 flag fields and 1-5 further fields, laid out at fixed positions or one after the other
(absent fields then take no room).  The model computes values and bytes for packing and for unpacking separately, as the
two conditions of a field may differ.
"""
import functools
from common import call, expect, expect_same, same, short, must_raise, HarnessError
import bufdyn as bd
import bufstatic as bs

UINT8 = {"k": "int", "bits": 8, "sign": "unsigned", "endian": "big", "f": True}


def gen_type(d, rich):
    k = d.int(0, 8 if rich else 6)
    if k == 7:
        return {"k": "json", "size": d.int(4, 20)}
    if k == 8:
        sub = bs.gen_layout(d, 0, 3)
        return {"k": "buf", "sub": sub, "bits": 8 * bs.layout_size(sub), "bs": d.bool()}
    if k <= 2:
        return dict(bs.gen_int(d), bits=8 * d.choice([1, 1, 2, 4, 8]))
    if k == 3:
        return {"k": "float", "size": d.choice([4, 8]), "endian": d.choice(["big", "little"])}
    if k == 4:
        return {"k": "str", "size": d.int(1, 4), "enc": "ascii", "just": "left", "pad": b" ", "strip": b"\0"}
    if k == 5:
        return {"k": "bytes", "size": d.int(1, 4)}
    return {"k": "list", "elem": {"e": "int", "name": d.choice(bs.ELEM_NAMES)}, "count": d.int(1, 2), "n": d.bool()}


def gen_value(d, t):
    v = bs.gen_value(d, t)
    return 0 if v is None else v  # (None, a JSON value too, stands for no value here)


def gen_cond(d, nflags):
    k = d.weighted([(3, "none"), (2, "const"), (5, "flag"), (2, "method"), (2, "mode")])
    if k == "none":
        return None
    if k == "const":
        return ["const", d.choice([True, False, 0, 1])]
    if k == "mode":
        return ["mode", d.choice(["==", ">"]), d.int(0, 2), d.bool()]
    return [k, d.int(0, nflags - 1), d.choice(["==", "!=", ">", "<", ">=", "<="]), d.int(0, 2), d.int(0, 2)]


def gen(d, rich=True):
    nflags, n = d.int(1, 3), d.int(1, 5)
    names = bs.gen_names(d, 1 + nflags + n)
    fields = [{"name": nm, "t": UINT8, "flag": True, "pack_if": None, "unpack_if": None} for nm in names[1:1 + nflags]]
    for nm in names[1 + nflags:]:
        f = {"name": nm, "t": gen_type(d, rich), "flag": False, "pack_if": gen_cond(d, nflags)}
        f["unpack_if"] = f["pack_if"] if d.chance(2, 3) else gen_cond(d, nflags)
        fields.append(f)
    for i, f in enumerate(fields):
        t = f["t"]
        f["default"] = [gen_value(d, t)] if d.chance(1, 3) and t["k"] not in ("bytes", "buf") else None
        f["arg"] = d.weighted([(3, "given"), (1, "missing"), (1, "none"), (1, "assigned")])
        f["before"] = f["after"] = None
        if d.chance(1, 4):
            f["before"] = d.choice(["const", "lambda", "member", "mode"]) if t["k"] == "int" else d.choice(["const", "lambda", "member"])
            if t["k"] == "buf" and f["before"] == "const":
                f["before"] = "lambda"
            if f["flag"] and i and d.bool():
                f["before"] = "other"
        if d.chance(1, 4):
            f["after"] = d.choice(["wrap", "none", "zero", "inc", "const"]) if t["k"] == "int" and not f["flag"] else "inc" if f["flag"] else d.choice(["wrap", "none"]) if t["k"] != "buf" else "none"
            if t["k"] == "int" and d.chance(1, 4):
                f["after"] = "ref"
        f["value"] = gen_value(d, t) if not f["flag"] else d.int(0, 3)
        f["value2"] = gen_value(d, t) if not f["flag"] else d.int(0, 3)
        f["raw"] = gen_value(d, t) if not f["flag"] else d.int(0, 3)
        f["callable"] = [d.int(0, 5), d.int(0, 5)]
    return dict(hdr=names[0], fields=fields, nflags=nflags, dynamic=d.chance(2, 3), mode=d.int(0, 2), order=d.perm(list(range(len(fields)))),
                unknown=d.choice(["nope", "hdrx", "byte_size", "pack", "__fields__"]), noise=d.bytes(0, 3), forms=[d.int(0, 5) for _ in fields])


def classify(case):
    l = ["dynamic" if case["dynamic"] else "fixed"]
    nt = False
    for f in case["fields"]:
        for w in ("pack_if", "unpack_if"):
            if f[w]:
                l.append("%s-%s" % (w, f[w][0]))
                nt = True
        for w in ("before", "after"):
            if f[w]:
                l.append("%s-%s" % (w, f[w]))
                nt = True
        l.append("arg-" + f["arg"] + ("-default" if f["default"] else ""))
    return sorted(set(l)), nt


def cmp(op, a, b):
    return {"==": a == b, "!=": a != b, ">": a > b, "<": a < b, ">=": a >= b, "<=": a <= b}[op]


# ------------------------------------------------------------------ model
class Model(object):
    def __init__(self, case, attrs):
        self.case, self.fields, self.attrs = case, case["fields"], attrs

    def packed(self, i):
        """value that goes into the bytes on pack"""
        f = self.fields[i]
        b = f["before"]
        if b is None:
            return self.attrs[i]
        if b == "other":
            return (self.packed(0) + 1) % 4
        if b == "mode":
            return self.case["mode"]
        return f["value2"]

    def decoded(self, i):
        f = self.fields[i]
        raw, a = f["raw"], f["after"]
        if a is None:
            return raw
        if a == "wrap":
            return ("wrapped", raw)
        if a == "none":
            return None
        if a == "zero":
            return 0
        if a == "inc":
            return raw + 1
        if a == "const":
            return 17
        j = self.ref_target(i)
        return 40 if j is None else self.decoded(j) + 1

    def ref_target(self, i):
        return 0 if i else None

    def present(self, i, which):
        c = self.fields[i][which]
        if c is None:
            return True
        if c[0] == "const":
            return bool(c[1])
        if c[0] == "mode":
            return cmp(c[1], self.case["mode"], c[2])
        v = self.packed(c[1]) if which == "pack_if" else self.decoded(c[1])
        return cmp(c[2], v, c[3])

    def layout(self, which):
        """[(field index, start)] of the present fields and the total size"""
        pos, out, end = 1, [], 1
        for i, f in enumerate(self.fields):
            n = bs.nbits(f["t"]) // 8
            here = self.present(i, which)
            if here:
                out.append((i, pos))
            if here or not self.case["dynamic"]:
                pos += n
        return out, pos

    def bytes(self, which, hdr, value):
        items, size = self.layout(which)
        data = bytearray(size)
        data[0] = hdr
        for i, p in items:
            raw = bs.from_bits(bs.encode(self.fields[i]["t"], value(i)))
            data[p:p + len(raw)] = raw
        return bytes(data)


# ------------------------------------------------------------------ class
class Holder(bs.Real):
    def __init__(self):
        self.subs = {}


def build(case):
    import infi.instruct.buffer as B
    fields = case["fields"]
    made, attrs = [], {}
    hdr = B.uint_field(where=B.bytes_ref[0])
    attrs[case["hdr"]] = hdr
    attrs["is_it"] = lambda self, a, op, b: cmp(op, a, b)
    holder = Holder()

    def cond(c, form=0):
        if c is None:
            return None
        if c[0] == "const":
            return c[1]
        if c[0] == "mode":
            r = B.member_func_ref(lambda self: cmp(c[1], self.mode, c[2]))
            return B.num_ref(r) if c[3] else r
        name = fields[c[1]]["name"]
        v = [made[c[1]], B.num_ref(made[c[1]]), B.num_ref(getattr(B.self_ref, name))][c[4]]
        if c[0] == "method":
            return B.self_ref.is_it(v, c[2], c[3])
        if c[2] == "==":
            return v == c[3]
        if c[2] == "!=":
            return v != c[3]
        return {">": lambda: v > c[3], "<": lambda: v < c[3], ">=": lambda: v >= c[3], "<=": lambda: v <= c[3]}[c[2]]()

    def start(i, which):
        r = 1
        if case["dynamic"]:
            r = r + B.num_ref(hdr) * 0
        for f in fields[:i]:
            n = bs.nbits(f["t"]) // 8
            c = f[which]
            if not case["dynamic"] or c is None:
                r = r + n
            elif c[0] == "const":
                r = r + (n if c[1] else 0)
            else:
                r = r + B.num_ref(cond(c)) * n
        return r

    for i, f in enumerate(fields):
        n = bs.nbits(f["t"]) // 8
        kw = {}
        if f["pack_if"] == f["unpack_if"]:
            c = cond(f["pack_if"])
            if c is not None or case["forms"][i] % 2:
                kw.update(pack_if=c, unpack_if=c)
        else:
            kw.update(pack_if=cond(f["pack_if"]), unpack_if=cond(f["unpack_if"]))
        a, b = start(i, "pack_if"), start(i, "unpack_if")
        if case["forms"][i] % 3 == 0 and all(x["pack_if"] == x["unpack_if"] for x in fields):
            kw["where"] = B.bytes_ref[a:a + n]
        else:
            kw.update(where_when_pack=B.bytes_ref[a:a + n], where_when_unpack=B.bytes_ref[b:b + n])
        if f["default"] is not None:
            kw["default"] = f["default"][0]
        forms = f.get("callable", [0, 0])
        v2 = functools.partial(lambda f: holder.value(f, f["value2"]), f)
        if f["before"] == "const":
            kw["set_before_pack"] = v2()
        elif f["before"] == "lambda":
            kw["set_before_pack"] = as_callable(lambda self, v2=v2: v2(), forms[0])
        elif f["before"] == "member":
            kw["set_before_pack"] = B.member_func_ref(as_callable(lambda self, v2=v2: v2(), forms[0]))
        elif f["before"] == "mode":
            kw["set_before_pack"] = as_callable(lambda self: self.mode, forms[0])
        elif f["before"] == "other":
            attrs["bump"] = lambda self, v: (v + 1) % 4
            kw["set_before_pack"] = B.num_ref(B.self_ref.bump(made[0])) if case["forms"][i] % 2 else B.self_ref.bump(made[0])
        a = f["after"]
        if a == "ref":
            kw["set_after_unpack"] = made[0] + 1 if i else B.num_ref(B.member_func_ref(lambda self: 40))
        elif a is not None:
            kw["set_after_unpack"] = as_callable({"wrap": lambda v: ("wrapped", bytes(v) if isinstance(v, bytearray) else v), "none": lambda v: None, "zero": lambda v: 0,
                                      "inc": lambda v: v + 1, "const": lambda v: 17}[a], forms[1])
        made.append(holder.field(f, **kw))
    for i in case["order"]:
        attrs[fields[i]["name"]] = made[i]
    return bd.hierarchy("Hooks", attrs, case.get("shape"))[-1], holder


def as_callable(f, form):
    """the same function as another kind of callable"""
    if form == 1:
        return functools.partial(lambda unused, x: f(x), 0)
    if form == 2:
        return Called(f)
    if form == 3:
        return Called(f).method
    if form == 4:
        return Called(f).__call__
    return f


class Called(object):
    def __init__(self, f):
        self.f = f

    def __call__(self, x):
        return self.f(x)

    def method(self, x):
        return self.f(x)


def check_attr(o, f, want, what, holder):
    got = getattr(o, f["name"])
    if f["t"]["k"] == "buf":
        return bs.verify_value(f["t"], got, want, "%s: field %s" % (what, f["name"]), holder.subs[f["name"]])
        return
    if isinstance(got, bytearray):
        got = bytes(got)
    expect(same(got, want) or (isinstance(want, tuple) and isinstance(got, tuple) and same(list(got), list(want))),
           "%s: field %s is %s, expected %s", what, f["name"], short(got), short(want))


def check(case):
    fields = case["fields"]
    cls, holder = call("declaring the class", build, case)
    # construction
    kwargs = {case["hdr"]: 200}
    attrs = []
    for f in fields:
        if f["arg"] == "given":
            kwargs[f["name"]] = holder.value(f, f["value"])
            attrs.append(f["value"])
        elif f["arg"] == "none":
            kwargs[f["name"]] = None
            attrs.append(None)
        else:
            attrs.append(f["default"][0] if f["default"] is not None else None)
    o = call("constructor with %s" % sorted(kwargs), lambda: cls(**kwargs))
    for f, v in zip(fields, attrs):
        check_attr(o, f, v, "new object", holder)
    expect_same(getattr(o, case["hdr"]), 200, "the header of a new object")
    must_raise("constructor with the unknown argument %s" % case["unknown"], Exception, lambda: cls(**dict(kwargs, **{case["unknown"]: 1})))
    for f in fields:
        expect(getattr(cls(), f["name"]) is None if f["default"] is None else True, "a field without default is %s in a new object", short(getattr(cls(), f["name"])))
    o.mode = case["mode"]
    for i, f in enumerate(fields):
        if f["arg"] == "assigned":
            setattr(o, f["name"], holder.value(f, f["value"]))
            attrs[i] = f["value"]
    m = Model(case, attrs)
    # values of present fields must be there; absent ones may be anything, also None
    for i, f in enumerate(fields):
        if attrs[i] is None and f["before"] is None and (f["flag"] or m_present(m, i)):
            setattr(o, f["name"], holder.value(f, f["value"]))
            attrs[i] = f["value"]
    items, size = m.layout("pack_if")
    want = m.bytes("pack_if", 200, m.packed)
    for turn in ("pack", "second pack"):
        expect_same(call("calc_byte_size", o.calc_byte_size), size, "calc_byte_size()")
        expect_same(bytes(call(turn, o.pack)), want, turn)
        for i, f in enumerate(fields):
            if any(j == i for j, _ in items):
                check_attr(o, f, m.packed(i), "after " + turn, holder)
            elif f["before"] is None:
                check_attr(o, f, attrs[i], "after " + turn, holder)
    # unpack, into this object and into a new one
    data = m.bytes("unpack_if", 201, lambda i: fields[i]["raw"])
    items, size = m.layout("unpack_if")
    fresh = cls()
    fresh.mode = case["mode"]
    for what, p in (("unpacked into a new object", fresh), ("unpacked into a used object", o)):
        n = call("unpack", p.unpack, data + case["noise"])
        for i, f in enumerate(fields):
            check_attr(p, f, m.decoded(i) if any(j == i for j, _ in items) else None, what, holder)
        expect_same(getattr(p, case["hdr"]), 201, "header")
        expect_same(n, size, "size returned by unpack")


def m_present(m, i):
    # (flags are always present and their values are in place before any condition is evaluated)
    return m.present(i, "pack_if")
