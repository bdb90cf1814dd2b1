"""C30: Copies of structs and buffers are equal and independent.

A random struct or buffer object (new, assigned, just read - lazy groups not looked at - or used, also after a failed write) is
copied by copy.deepcopy (alone or in a list) or copy.copy, the copy possibly copied again.  Every object has the bytes, size, text and values
of the object it was copied from; then the objects are given other values in a random order - in place where that is
possible for deep copies, by assignment for shallow ones - and each one has exactly the values it was given last.
"""
import copy
from common import call, expect, expect_same, same, Discard
import bufdyn as bd
import bufstatic as bs
import structmodel as sm

def gen(d):
    kind = d.weighted([(3, "struct"), (2, "static"), (2, "dynamic")])
    case = dict(kind=kind, state=d.choice(["new", "read", "assigned", "used", "failed", "looked"]))
    n = d.int(2, 4)
    if kind == "struct":
        case["spec"] = sm.gen_case(d, depth=d.choice([0, 1, 2]), hi=5, values=n)
        case["values"] = case["spec"].pop("values")
        case["spec"] = case["spec"]["spec"]
    elif kind == "static":
        case["spec"] = bs.gen_layout(d, 1, 5)
        case["values"] = [bs.gen_values(d, case["spec"]) for _ in range(n)]
    else:
        case["spec"] = bd.gen_spec(d, d.choice([0, 1, 2]))
        case["values"] = [bd.gen_values(d, case["spec"]) for _ in range(n)]
    # [how, which object is copied, how many values before]
    case["ops"] = d.list(lambda: d.choice([["copy", d.choice(["deepcopy", "deepcopy", "copy", "list"]), d.int(0, 3)],
                                           ["set", d.int(0, 3), d.int(0, n - 1)], ["show", d.int(0, 3), d.choice(["values", "repr", "size", "bytes"])]]), 0, 7)
    case["ops"].insert(0, ["copy", d.choice(["deepcopy", "copy"]), 0])
    return case


def classify(case):
    l = {case["kind"], "state-" + case["state"]} | {op[0] + ("-" + op[1] if op[0] == "copy" else "") for op in case["ops"]}
    if case["kind"] == "struct":
        l |= sm.labels(case["spec"])
    elif case["kind"] == "static":
        l |= bs.labels(case["spec"])
    return l, any(op[0] == "set" for op in case["ops"]) or case["state"] in ("read", "failed")


class Structs(object):
    def __init__(self, spec):
        self.spec = spec
        self.real = call("declaring the classes", sm.Real, spec)
        self.cls = self.real.cls

    def encode(self, v):
        return sm.enc_struct(self.spec, v)

    def new(self, v, assign=False):
        return self.real.new(v, "assign" if assign else "kwargs")

    def read(self, data):
        return call("create_from_string", self.cls.create_from_string, data)

    def write(self, o):
        return call("to_bytes", o.to_bytes)

    def size(self, o):
        return call("sizeof", self.cls.sizeof, o)

    def assign(self, o, v):
        kw = self.real.kwargs(self.spec, v)
        for n in kw:
            call("assignment", setattr, o, n, kw[n])

    def morph(self, o, v):
        self.real.morph(self.spec, o, v)

    def verify(self, o, v, what):
        got = self.real.extract(self.spec, o)
        if not same(got, sm.canon_struct(self.spec, v)):  # (what was read)
            expect_same(got, self.real.extract(self.spec, self.new(v)), "%s: values", what)

    def fail(self, o):
        for f, const in sm.named(self.spec):
            if not const:
                old = getattr(o, f["name"])
                setattr(o, f["name"], object)
                try:
                    o.to_bytes()
                except Exception:
                    pass
                setattr(o, f["name"], old)
                return


class Buffers(object):
    def __init__(self, spec, model, real):
        self.spec, self.model, self.real = spec, model, real
        self.cls = real.cls

    def encode(self, v):
        return self.model(v)

    def new(self, v, assign=False):
        if not assign:
            return call("constructor", self.real.make, v)
        o = call("constructor", self.cls)
        self.assign(o, v)
        return o

    def read(self, data):
        o = call("constructor", self.cls)
        call("unpack", o.unpack, data)
        return o

    def write(self, o):
        return bytes(call("pack", o.pack))

    def size(self, o):
        return call("calc_byte_size", o.calc_byte_size)

    def assign(self, o, v):
        other = self.new(v)
        for n in sorted(vars(other)):
            setattr(o, n, getattr(other, n))

    def morph(self, o, v):
        bs.morph(o, self.new(v))

    def verify(self, o, v, what):
        if self.spec.get("parts") is not None:
            self.real.verify(o, v, what, False)
        else:
            self.real.verify(o, v, what)

    def fail(self, o):
        for n in sorted(vars(o)):
            old = getattr(o, n)
            setattr(o, n, object)
            try:
                o.pack()
            except Exception:
                pass
            setattr(o, n, old)
            return


def copied(how, o):
    if how == "deepcopy":
        return call("copy.deepcopy", copy.deepcopy, o)
    if how == "list":
        return call("copy.deepcopy of a list", copy.deepcopy, [o, o])[1]
    return call("copy.copy", copy.copy, o)


def check(case):
    spec, values = case["spec"], case["values"]
    if case["kind"] == "struct":
        m = Structs(spec)
    elif case["kind"] == "static":
        m = Buffers(spec, lambda v: bs.pack(spec, v), call("declaring the class", bs.Real, spec))
    else:
        if not all(bd.representable(spec, v) for v in values):
            raise Discard()
        m = Buffers(spec, lambda v: bd.encode(spec, v), call("declaring the class", bd.Real, spec))
    state, v = case["state"], values[0]
    want = m.encode(v)
    if state in ("read", "looked"):
        o = m.read(want)
        if state == "looked":
            m.verify(o, v, "what was read")
    else:
        o = m.new(values[1] if state == "used" else v, state == "assigned")
        if state == "used":
            expect_same(m.write(o), m.encode(values[1]), "bytes of the first object")
            m.assign(o, v)
        elif state == "failed":
            m.fail(o)
    # (object, values, set of the objects it may share values with)
    objs = [[o, v, {0}]]
    for op in case["ops"]:
        if op[0] == "copy":
            _, how, i = op
            src = objs[i % len(objs)]
            text = call("repr", repr, src[0])
            new = copied(how, src[0])
            expect(type(new) is m.cls, "%s of a %s is a %s", how, m.cls, type(new))
            expect_same(call("repr", repr, new), text, "text of the %s", how)
            shared = {len(objs)}
            if how == "copy":
                shared |= src[2]
                for x in objs:
                    if x[2] & src[2]:
                        x[2].add(len(objs))
            objs.append([new, src[1], shared])
            expect_same(m.write(new), m.encode(src[1]), "bytes of the %s", how)
        elif op[0] == "set":
            _, i, j = op
            x = objs[i % len(objs)]
            if len(x[2]) > 1:
                m.assign(x[0], values[j])
            else:
                m.morph(x[0], values[j])
            x[1] = values[j]
        else:
            _, i, how = op
            x = objs[i % len(objs)]
            if how == "values":
                m.verify(x[0], x[1], "object %d" % (i % len(objs)))
            elif how == "repr":
                call("repr", repr, x[0])
            elif how == "size":
                expect_same(m.size(x[0]), len(m.encode(x[1])) if case["kind"] != "static" else m.size(m.new(x[1])), "size of object %d" % (i % len(objs)))
            else:
                expect_same(m.write(x[0]), m.encode(x[1]), "bytes of object %d", i % len(objs))
    for i, x in enumerate(objs):
        expect_same(m.write(x[0]), m.encode(x[1]), "bytes of object %d at the end", i)
        m.verify(x[0], x[1], "object %d at the end" % i)
