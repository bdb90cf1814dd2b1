"""C22: Struct construction - defaults, arguments, inheritance, isolation.

hierarchy  a random struct (defaults, class values, constants, lazy groups) and a subclass that inherits, extends or
           redefines its fields (also the same name as another kind of field): objects built with any subset of arguments
           have the passed value, else the class's, else an own copy of the default; changing one object in place changes
           no other one; constants stay; the subclass behaves like a freshly declared class and the base as before
init       user constructors on up to three levels with positional, keyword-only, optional and catch-all parameters that
           may share names with fields: they receive what Python would bind, also when reading from a stream
forward    arguments and the context of a reading call reach the constructors and marshals of every nested part
"""
import inspect
from common import call, expect, expect_same, must_raise, short, same
import forward
import structmodel as sm


def gen(d):
    if d.chance(1, 8):
        return forward.gen(d)
    return gen_init(d) if d.chance(2, 5) else gen_hierarchy(d)


def add_defaults(d, g, spec, chance=(1, 2)):
    for f, const in sm.named(spec):
        if const or (f.get("flag") and f.get("k") != "opt") or f.get("k") in ("ptr", "key"):
            continue
        if "m" in f:
            if d.chance(*chance):
                f["default"] = g.value(f["m"])
        elif d.chance(*chance):
            n = f["n"] if "n" in f else sum(b - a for a, b in f["slices"])
            f["default"] = d.uint(n)


def rename(fields, names):
    for f in fields:
        if f["k"] == "lazy":
            rename(f["fields"], names)
        for key in ("name", "flag", "len"):
            if isinstance(f.get(key), str):
                f[key] = names.get(f[key], f[key])
        for i in f.get("items", []):
            if "name" in i:
                i["name"] = names.get(i["name"], i["name"])


def gen_hierarchy(d):
    g = sm.G(d)
    depth = d.choice([0, 1, 1, 2])
    base = g.struct(depth, False, 0, 4)
    add_defaults(d, g, base)
    kind = d.choice(["none", "inherit", "extend", "redefine"])
    sub = None
    if kind == "extend":
        sub = g.struct(depth, False, 0, 3)
    elif kind == "redefine":
        sub = g.struct(depth, False, 1, 4)
        old = [f["name"] for f, c in sm.named(base)]
        new = [f["name"] for f, c in sm.named(sub)]
        if old and new:
            picks = d.perm(old)
            rename(sub["fields"], dict((n, p) for n, p in zip(new, picks) if d.chance(3, 4)))
    if sub is not None:
        add_defaults(d, g, sub)
    final = final_spec(kind, base, sub)
    plain = [f["name"] for f in final["fields"] if f["k"] == "val" and f["m"]["k"] == "num" and not f.get("flag")]
    in_lazy_or_const = [f["name"] for f, c in sm.named(base) if f["name"] not in [x["name"] for x in base["fields"] if x["k"] == "val"]]
    attrs = dict((n, g.value([f for f in final["fields"] if f.get("name") == n][0]["m"])) for n in plain
                 if d.chance(1, 4) and n not in in_lazy_or_const)
    values = [g.svalue(final) for _ in range(2)]
    names = [f["name"] for f, c in sm.named(final) if not c]
    return dict(mode="hierarchy", base=base, kind=kind, sub=sub, attrs=attrs, attrs_on=d.choice(["base", "sub"]), values=values,
                base_values=[g.svalue(base) for _ in range(1)],
                calls=[[d.int(0, 1), [n for n in names if d.bool()]] for _ in range(d.int(1, 3))])


def final_spec(kind, base, sub):
    if kind == "extend":
        return {"name": "Sub", "fields": base["fields"] + sub["fields"], "form": "list"}
    if kind == "redefine":
        return dict(sub, name="Sub")
    return dict(base, name=base["name"] if kind == "none" else "Sub")


def gen_init(d):
    g = sm.G(d)
    spec = g.struct(d.choice([0, 1]), False, 1, 4)
    add_defaults(d, g, spec, (2, 3))
    names = [f["name"] for f, c in sm.named(spec)]
    levels = []
    count = d.int(1, 3)
    for i in range(count):
        if d.chance(1, 3):
            levels.append(None)
            continue
        below = any(levels)  # a user constructor in a base class
        pool = d.perm(names[:3] + ["x1", "x2", "x3"])
        params = []
        for p in pool[:d.int(0, 4)]:
            params.append([p, "kwonly" if d.chance(1, 4) else "pos", not d.chance(1, 3)])
        params.sort(key=lambda p: (p[1] == "kwonly", p[1] == "pos" and not p[2]))
        sup = d.choice(["none", "plain", "pass"])
        fieldish = [p[0] for p in params if p[0] in names]
        if sup == "pass" and (below or not fieldish):
            sup = "plain"
        if below and sup == "plain" and any(p[2] for l in levels if l for p in l["params"]):
            sup = "none"
        levels.append(dict(params=params, star=d.chance(1, 4), kw=d.chance(1, 4), sup=sup,
                           passed=d.choice(fieldish) if sup == "pass" else None))
    vals = [g.svalue(spec) for _ in range(2)]
    calls = []
    for _ in range(d.int(1, 3)):
        user = [l for l in levels if l]
        asked = [p[0] for p in user[-1]["params"]] if user else []
        kw = [n for n in d.perm(names + ["x1", "x2", "x3"]) if d.chance(3, 4) and (n in asked) or d.chance(1, 6)]
        calls.append([d.int(0, 2), kw])
    consts = [f["name"] for f, c in sm.named(spec) if c]
    return dict(mode="init", spec=spec, levels=levels, values=vals, calls=calls)


def classify(case):
    if case["mode"] == "forward":
        return forward.classify(case)
    if case["mode"] == "init":
        l = {"init", "levels-%d" % len(case["levels"])}
        for lv in case["levels"]:
            if lv:
                l |= set(p[1] for p in lv["params"]) | {"super-" + lv["sup"]}
        return l, any(case["levels"])
    l = {"hierarchy", "kind-" + case["kind"]} | sm.labels(case["base"])
    if case["attrs"]:
        l.add("class-values")
    has_default = any("default" in f for f, c in sm.named(final_spec(case["kind"], case["base"], case["sub"])))
    return l | ({"defaults"} if has_default else set()), case["kind"] != "none" or has_default


# ---------------------------------------------------------------- hierarchy
def declare(case):
    real = sm.Real(case["base"], attrs={case["base"]["name"]: case["attrs"] if case["attrs_on"] == "base" or case["kind"] == "none" else {}})
    base = real.cls
    final = final_spec(case["kind"], case["base"], case["sub"])
    if case["kind"] != "none":
        attrs = dict(case["attrs"]) if case["attrs_on"] == "sub" else {}
        if case["kind"] == "extend":
            old = base._fields_
            new = [real.field(f) for f in case["sub"]["fields"]]
            if isinstance(old, tuple):
                attrs["_fields_"] = old + tuple(new)
            elif isinstance(old, list):
                attrs["_fields_"] = old + new
            else:
                attrs["_fields_"] = [old] + new
        elif case["kind"] == "redefine":
            attrs["_fields_"] = sm.wrap_fields(real.S, case["sub"]["form"], [real.field(f) for f in case["sub"]["fields"]])
        sub = type(real.I.Struct)("Sub", (base,), attrs)
        real.cls = real.classes["Sub"] = sub
        real.spec = final
    return real, base, final


def poke(m, v, done):
    """changes a value in place, as deep as possible; True if anything was changed"""
    if m["k"] in ("farr", "varr", "sarr"):
        inner = [poke(m["elem"], x, done) for x in v]
        v.append("poked")
        return True
    if m["k"] == "nest":
        for f, const in sm.named(m["spec"]):
            x = getattr(v, f["name"])
            if const:
                continue
            if "m" in f and x is not None:
                poke(f["m"], x, done)
            setattr(v, f["name"], "poked")
        return True
    return False


def check_hierarchy(case):
    import infi.instruct as I
    real, base, final = call("declaring the classes", declare, case)
    consts = dict((f["name"], (f, sm.canon(f["m"], f["value"]) if "m" in f and "value" in f else f.get("fixed", f.get("value"))))
                  for f, c in sm.named(final) if c)

    def expected(vals, names):
        out = {}
        for f, const in sm.named(final):
            n = f["name"]
            if const:
                out[n] = consts[n][1]
                continue
            elif n in names:
                v = vals[n]
            elif n in case["attrs"]:
                v = case["attrs"][n]
            else:
                v = f.get("default")
            out[n] = sm.canon(f["m"], v, True) if "m" in f and v is not None else v
        return out

    def show(o):
        return dict((f["name"], value_of(real, f, call("reading %s" % f["name"], getattr, o, f["name"]))) for f, c in sm.named(final))
    objs = []
    for i, names in case["calls"] + [[0, []]] * 2:
        vals = case["values"][i]
        kw = real.kwargs(final, vals, names)
        o = call("constructor with %s" % sorted(kw), real.cls, **kw)
        want = expected(vals, names)
        expect_same(show(o), want, "attributes after construction with %s" % sorted(kw))
        for n in kw:
            expect(getattr(o, n) is kw[n] or same(getattr(o, n), kw[n]), "%s is not the passed value", n)
        objs.append((o, want))
        for n, (f, v) in consts.items():
            if "m" in f and f["m"]["k"] == "nest":
                bad = "other"
            else:
                bad = v + b"x" if isinstance(v, bytes) else 12345 if v != 12345 else 54321
            must_raise("assigning %s to constant %s" % (short(bad), n), I.InstructError, setattr, o, n, bad)
            expect_same(value_of(real, f, getattr(o, n)), v, "constant %s", n)
            call("assigning its own value to constant %s" % n, setattr, o, n, getattr(o, n))
    # in-place changes of one object's default values reach no other object
    victim = objs[-1][0]
    for f, const in sm.named(final):
        if not const and "m" in f and getattr(victim, f["name"]) is not None:
            poke(f["m"], getattr(victim, f["name"]), None)
    for o, want in objs[:-1]:
        expect_same(show(o), want, "attributes of an object after another one was changed in place")
    fresh = call("constructor", real.cls)
    expect_same(show(fresh), expected({}, []), "attributes of a new object after another one was changed in place")
    # the subclass is a class like any other, and the base is what it was
    for vals in case["values"]:
        o = real.new(vals)
        data = sm.enc_struct(final, vals)
        expect_same(call("to_bytes", o.to_bytes), data, "written bytes")
        r = call("create_from_string", real.cls.create_from_string, data)
        expect(type(r) is real.cls, "reading gives %s", short(r))
        expect_same(present(final, vals, show(r)), present(final, vals, sm.canon_struct(final, vals)), "values read")
        expect_same(call("sizeof", real.cls.sizeof, o), len(data), "sizeof")
        if len(present(final, vals, vals)) == len(vals):
            expect_same(call("sizeof", real.cls.sizeof, r), len(data), "sizeof of what was read")
        call("repr", repr, r)
    if case["kind"] != "none":
        vals = case["base_values"][0]
        data = sm.enc_struct(case["base"], vals)
        b = call("base constructor", base, **real.kwargs(case["base"], vals))
        expect_same(call("to_bytes of base", b.to_bytes), data, "bytes written by the base class")
        r = call("create_from_string of base", base.create_from_string, data)
        for f, const in sm.named(case["base"]):
            if f.get("k") == "opt" and vals[f["name"]] is None and "default" in f:
                continue
            expect_same(value_of(real, f, getattr(r, f["name"])), sm.canon_struct(case["base"], vals)[f["name"]], "base attribute %s", f["name"])


def present(spec, vals, out):
    """without absent optional parts that have a default"""
    absent = [f["name"] for f, c in sm.named(spec) if f.get("k") == "opt" and vals[f["name"]] is None and "default" in f]
    return dict((n, v) for n, v in out.items() if n not in absent)


def value_of(real, f, v):
    return v if v is None or "m" not in f else real.plain(f["m"], v)


# ---------------------------------------------------------------- user constructors
def make_init(level, i, record, classes):
    pos = [p for p in level["params"] if p[1] == "pos"]
    kwonly = [p for p in level["params"] if p[1] == "kwonly"]
    sig = ["self"] + [p[0] if p[2] else p[0] + "='default'" for p in pos]
    if level["star"]:
        sig.append("*args")
    elif kwonly:
        sig.append("*")
    sig += [p[0] if p[2] else p[0] + "='default'" for p in kwonly]
    if level["kw"]:
        sig.append("**kw")
    body = ["    record.append((%d, dict([%s]), %s, %s))" % (
        i, ", ".join("(%r, %s)" % (p[0], p[0]) for p in level["params"]), "args" if level["star"] else "()", "dict(kw)" if level["kw"] else "{}")]
    if level["sup"] == "plain":
        body.append("    super(classes[%d], self).__init__()" % i)
    elif level["sup"] == "pass":
        body.append("    super(classes[%d], self).__init__(%s=%s)" % (i, level["passed"], level["passed"]))
    ns = dict(record=record, classes=classes)
    exec("def __init__(%s):\n%s\n" % (", ".join(sig), "\n".join(body)), ns)
    return ns["__init__"]


def bind(fn, args, kwargs):
    """(params, extra args, extra keywords) as Python binds them, or None"""
    try:
        b = inspect.signature(fn).bind("self", *args, **kwargs)
    except TypeError:
        return None
    b.apply_defaults()
    a = dict(b.arguments)
    a.pop("self")
    return tuple(a.pop("args", ())), a.pop("kw", {}), a


def check_init(case):
    spec = case["spec"]
    record, classes, inits = [], [], []
    real = call("declaring the fields", sm.Real, spec)
    fields = real.cls._fields_
    prev = real.I.Struct
    for i, level in enumerate(case["levels"]):
        attrs = {"_fields_": fields} if i == 0 else {}
        fn = None
        if level:
            fn = make_init(level, i, record, classes)
            attrs["__init__"] = fn
        prev = call("declaring a class", type(real.I.Struct), "L%d" % i, (prev,), attrs)
        classes.append(prev)
        inits.append(fn)
    cls = prev
    order = [i for i in reversed(range(len(inits))) if inits[i]]  # the user constructors, nearest first
    settable = [f["name"] for f, c in sm.named(spec) if not c]
    for npos, kwnames in case["calls"]:
        vals = case["values"][0]
        given = real.kwargs(spec, vals)
        kwargs = dict((n, given[n] if n in given else "arg-" + n) for n in kwnames)
        args = tuple("pos%d" % i for i in range(npos))
        expect_rec, ok, passed = [], True, {}
        if order:
            i = order[0]
            asked = [p[0] for p in case["levels"][i]["params"]]
            kw = dict((k, v) for k, v in kwargs.items() if k not in settable or k in asked)
            a, nxt = (args, kw), order[1:]
            while True:
                b = bind(inits[i], *a)
                if b is None:
                    ok = False
                    break
                expect_rec.append((i, b[2], b[0], b[1]))
                level = case["levels"][i]
                if level["sup"] == "pass":
                    passed = {level["passed"]: b[2][level["passed"]]}
                if level["sup"] == "none" or not nxt:
                    break
                i, nxt, a = nxt[0], nxt[1:], ((), {})
        data = sm.enc_struct(spec, case["values"][1])
        for how in ("construct", "string", "stream"):
            del record[:]
            what = "%s with %s %s" % (how, args, short(sorted(kwargs)))
            try:
                if how == "construct":
                    o = cls(*args, **kwargs)
                elif how == "string":
                    o = cls.create_from_string(data, real.I.EMPTY_CONTEXT, *args, **kwargs)
                else:
                    o = cls.create_from_stream(sm.Stream(data), real.I.EMPTY_CONTEXT, *args, **kwargs)
            except TypeError as e:
                expect(not ok, "%s: TypeError: %s", what, str(e))
                continue
            except Exception as e:
                expect(False, "%s: %s: %s", what, type(e).__name__, short(e))
            expect(ok, "%s: the arguments do not fit the constructor, but it gave %s", what, short(o))
            rec = [(i, dict(p), a, k) for i, p, a, k in record]
            expect(len(rec) == len(expect_rec) and all(x[0] == y[0] and x[2] == y[2] and same_objects(x[1], y[1]) and same_objects(x[3], y[3])
                                                       for x, y in zip(rec, expect_rec)),
                   "%s: the constructors were called with %s, expected %s", what, short(rec), short(expect_rec))
            for f, const in sm.named(spec):
                n = f["name"]
                got = getattr(o, n)
                if how != "construct":
                    if f.get("k") == "opt" and (n in kwargs or n in passed or "default" in f) and sm.canon_struct(spec, case["values"][1])[n] is None:
                        continue  # an absent part does not overwrite the argument
                    expect_same(value_of(real, f, got), sm.canon_struct(spec, case["values"][1])[n], "%s: %s", what, n)
                elif not const:
                    if n in passed:
                        want = passed[n]
                    elif n in kwargs:
                        want = kwargs[n]
                    else:
                        v = f.get("default")
                        expect_same(value_of(real, f, got), sm.canon(f["m"], v, True) if "m" in f and v is not None else v, "%s: default of %s", what, n)
                        continue
                    expect(got is want or same(got, want), "%s: %s is %s instead of %s", what, n, short(got), short(want))


def same_objects(a, b):
    return set(a) == set(b) and all(a[k] is b[k] or same(a[k], b[k]) for k in a)


def check(case):
    if case["mode"] == "forward":
        forward.check(case)
    elif case["mode"] == "init":
        check_init(case)
    else:
        check_hierarchy(case)
