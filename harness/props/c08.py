"""C08: a subclass is the union of its bases' fields.

static: a fixed layout whose fields are spread over a hierarchy, against the flat class and the model; the bases are
        measured before and after the subclasses are defined
dynamic: a dynamic layout (bufdyn) spread over a hierarchy;  hooks: a C07 class spread over a hierarchy
"""
import re
from common import call, expect, expect_same, short, Discard
import bufdyn as bd
import bufstatic as bs
from props import c03, c07


def gen(d):
    k = d.int(0, 3)
    if k == 0:
        case = c03.gen(d)
        return dict(mode="dynamic", case=case, shape=bd.gen_shape(d, len(bd.field_names(case["spec"])) + 3))
    if k == 1:
        case = c07.gen(d)
        return dict(mode="hooks", case=dict(case, shape=bd.gen_shape(d, len(case["fields"]) + 3)))
    layout = bs.gen_layout(d, 1, 6)
    declared = None
    if d.chance(1, 4):
        declared = [layout.get("byte_size") or bs.layout_size(layout) + d.int(0, 3), d.choice(["base", "last", "middle"]), d.int(0, 3)]
    layout["byte_size"] = None
    shape = bd.gen_shape(d, len(layout["fields"]))
    if shape["kind"] == "mixin":
        declared = None
    return dict(mode="static", layout=layout, shape=shape, declared=declared, values=bs.gen_values(d, layout), other=bs.gen_values(d, layout),
                base_first=d.bool(), bare=d.choice(["no", "no", "last", "join"]))


def classify(case):
    if case["mode"] == "dynamic":
        return ["dynamic", case["shape"]["kind"]] + sorted(bd.labels(case["case"]["spec"])), max(case["shape"]["levels"]) > 0
    if case["mode"] == "hooks":
        return ["hooks", case["case"]["shape"]["kind"]], max(case["case"]["shape"]["levels"]) > 0
    lv = case["shape"]["levels"]
    l = ["static", case["shape"]["kind"], "bare-" + case.get("bare", "no"), "levels-%d" % len(set(lv))]
    if case["declared"]:
        l.append("declared-at-" + case["declared"][1])
    return l, len(set(lv)) > 1


def check(case):
    if case["mode"] == "hooks":
        return c07.check(case["case"])
    if case["mode"] == "static":
        return check_static(case)
    inner = case["case"]
    spec = inner["spec"]
    if not bd.representable(spec, inner["values"]) or not bd.representable(spec, inner["other"]):
        raise Discard()
    real = call("declaring the classes", bd.Real, spec, "Dyn", None, None, case["shape"])
    for values in (inner["values"], inner["other"]):
        want = bd.encode(spec, values)
        o = call("constructor", real.make, values)
        expect_same(call("calc_byte_size", o.calc_byte_size), len(want), "size")
        expect_same(bytes(call("pack", o.pack)), want, "packed bytes of %s", short(values))
        p = call("constructor", real.cls)
        expect_same(call("unpack", p.unpack, want), len(want), "size returned by unpack")
        real.verify(p, values, "unpacked")
        check_repr(o, bd.field_names(spec))


def check_repr(o, names):
    text = call("repr", repr, o)
    for n in names:
        k = len(re.findall(r"(?<![A-Za-z0-9_])%s=" % re.escape(n), text))
        expect(k >= 1, "field %s is not in the printed form %s", n, text)


def part(layout, names):
    return {"fields": [f for f in layout["fields"] if f["name"] in names], "byte_size": None}


def check_static(case):
    import infi.instruct.buffer as B
    layout, shape = case["layout"], case["shape"]
    real = bs.Real.__new__(bs.Real)
    real.layout, real.subs = layout, {}
    attrs = dict((f["name"], real.field(f)) for f in layout["fields"])
    per = {}
    for i, k in enumerate(attrs):
        per.setdefault(shape["levels"][i], []).append(k)
    classes = call("declaring the classes", grow, case, attrs, real)
    real.cls = classes[-1]
    declared = case["declared"]
    flat_layout = dict(layout, byte_size=declared[0] if declared else None)
    flat = call("declaring the flat class", bs.Real, flat_layout)
    expect(real.cls.byte_size == flat.cls.byte_size, "byte_size is %s, of the flat class %s", short(real.cls.byte_size), short(flat.cls.byte_size))
    for values in (case["values"], case["other"]):
        want = bs.pack(flat_layout, values)
        o, f = call("constructor", real.make, values), flat.make(values)
        expect_same(bytes(call("pack", o.pack)), want, "packed bytes of %s", short(values))
        expect_same(bytes(call("flat pack", f.pack)), want, "packed bytes of the flat class of %s", short(values))
        expect_same(call("calc_byte_size", o.calc_byte_size), len(want), "calc_byte_size()")
        p = call("constructor", real.cls)
        expect_same(call("unpack", p.unpack, want + b"\xff"), len(want), "size returned by unpack")
        real.verify(p, values, "unpacked")
        check_repr(p, list(attrs))
        # every field prints as in the flat class (nested objects and order aside)
        simple = [x["name"] for x in layout["fields"] if x["t"]["k"] in ("int", "float")]
        for n in simple:
            expect("%s=%r" % (n, values[n]) in repr(p), "%s=%r is not in the printed form %s", n, values[n], short(repr(p)))


def grow(case, attrs, real):
    """declares the hierarchy, checking that what exists is not changed by what is declared later"""
    import infi.instruct.buffer as B
    layout, shape, declared = case["layout"], case["shape"], case["declared"]
    meta = type(B.Buffer)
    levels = shape["levels"]
    top = max(levels)
    per = [{} for _ in range(top + 1)]
    for i, k in enumerate(attrs):
        per[levels[i]][k] = attrs[k]
    existing = []

    def define(name, bases, own):
        c = meta(name, bases, own)
        names = set()
        for k in c.__mro__:
            names.update(n for n in k.__dict__ if n in attrs)
        existing.append((c, names))
        for k, ns in existing:
            measure(k, ns, "after %s was defined" % name)
        return c

    def measure(c, names, when):
        sub = part(layout, names)
        if declared and c.byte_size == declared[0]:
            sub["byte_size"] = declared[0]
        if not sub["fields"]:
            expect(bytes(c().pack()) == b"\0" * (sub["byte_size"] or 0), "%s: an object without fields packs to %s", when, short(c().pack()))
            return
        o = call("constructor", lambda: c(**dict((f["name"], real.value(f, case["values"][f["name"]])) for f in sub["fields"])))
        want = bs.pack(sub, case["values"])
        expect_same(bytes(call("pack", o.pack)), want, "%s: packed bytes of %s, which has fields %s", when, c.__name__, sorted(names))
        expect(sub["byte_size"] is not None or c.byte_size == bs.natural_bits(sub) / 8.0, "%s: byte_size of %s is %s", when, c.__name__, short(c.byte_size))
        p = c()
        call("unpack", p.unpack, want)
        for f in sub["fields"]:
            real.verify_field(f, getattr(p, f["name"]), case["values"][f["name"]], when)
        for f in layout["fields"]:
            if f["name"] not in names:
                try:
                    c(**{f["name"]: None})
                except Exception:
                    continue
                expect(False, "%s: %s accepts the field %s of another class", when, c.__name__, f["name"])

    if declared:
        per[{"base": 0, "last": top}[declared[1]] if declared[1] != "middle" else declared[2] % (top + 1)]["byte_size"] = declared[0]
    kind = shape["kind"]
    bare = case.get("bare", "no")
    if bare == "join" and kind in ("join", "diamond"):  # a class of several bases, with nothing of its own
        if kind == "join":
            out = [define("Level%d" % i, (B.Buffer,), per[i]) for i in range(top + 1)]
        else:
            base = define("Base", (B.Buffer,), per[0])
            out = [define("Side%d" % i, (base,), per[i]) for i in range(1, top + 1)] or [base]
        return [define("Bare", tuple(out), {})]
    if kind == "chain":
        out = [define("Level0", (B.Buffer,), per[0])]
        for i in range(1, top + 1):
            out.append(define("Level%d" % i, (out[-1],), per[i]))
    elif kind == "join":
        out = [define("Level%d" % i, (B.Buffer,), per[i]) for i in range(top)]
        out.append(define("Join", tuple(out) or (B.Buffer,), per[top]))
    elif kind == "mixin":
        plain = [type("Mixin%d" % i, (object,), per[i]) for i in range(top)]
        out = [define("Other", tuple(plain) + (B.Buffer,), {}), define("Mixed", tuple(plain) + (B.Buffer,), per[top])]
    else:
        out = [define("Base", (B.Buffer,), per[0])]
        if top:
            sides = [define("Side%d" % i, (out[0],), per[i]) for i in range(1, top)] or [out[0]]
            out.append(define("Diamond", tuple(sides), per[top]))
    if bare == "last":
        out.append(define("Bare", (out[-1],), {}))
    return out
