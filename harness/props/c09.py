"""C09: objects and operations are independent of each other.

A history of operations over up to four objects of up to three classes runs once as it is - some of the operations in
the middle of another object's pack or unpack, through a hook - and then once more per object, with new classes and that
object's operations only.  Every outcome and every state must be the same.
"""
import copy
from common import call, expect, expect_same, same, short, Discard, HarnessError, Violation
import bufdyn as bd
import bufstatic as bs
from props import c23

HOOK_VALUE = 7


def gen(d):
    classes = []
    for _ in range(d.int(1, 3)):
        if d.bool():
            spec = bd.gen_spec(d, 1, True)
            spec["parts"].insert(0, {"p": "scalar", "name": d.choice(["A0", "hook", "zzz"]), "t": dict(bd.UINT, bits=8, endian="big"), "const": HOOK_VALUE,
                                     "hook": True, "form": d.int(0, 1000)})
            classes.append(dict(kind="dynamic", spec=spec, values=[bd.gen_values(d, spec) for _ in range(2)]))
        else:
            layout = bs.gen_layout(d, 1, 4)
            layout["byte_size"] = None
            for f in layout["fields"]:
                f["default"] = [bs.gen_value(d, f["t"])] if d.chance(1, 2) else None
                f["selector"] = d.chance(1, 2)  # (for nested buffers)
                if f["t"]["k"] != "buf" and not (f["t"]["k"] == "list" and f["t"]["elem"]["e"] == "buf") and d.chance(1, 4):
                    f["auto"] = [bs.gen_value(d, f["t"])]  # what it's set to when it's packed
            classes.append(dict(kind="static", layout=layout, hook=d.choice(["A0", "hook", "zzz"]), values=[bs.gen_values(d, layout) for _ in range(2)]))
    slots = [d.int(0, len(classes) - 1) for _ in range(d.int(2, 4))]
    ops = [dict(gen_op(d, i, classes[slots[i]], len(slots)), op="new") for i in range(len(slots)) if d.chance(3, 4)]
    for _ in range(d.int(2, 14)):
        slot = d.int(0, len(slots) - 1)
        op = gen_op(d, slot, classes[slots[slot]], len(slots))
        if op["op"] in ("pack", "unpack", "size") and d.chance(1, 3) and len(slots) > 1:
            others = [i for i in range(len(slots)) if i != slot]
            op["during"] = []
            for _ in range(d.int(1, 2)):
                s = d.choice(others)
                op["during"].append(gen_op(d, s, classes[slots[s]], len(slots)))
        ops.append(op)
    return dict(classes=classes, slots=slots, ops=ops)


def gen_op(d, slot, c, n):
    kind = d.weighted([(5, "pack"), (4, "unpack"), (3, "new"), (2, "set"), (2, "bad"), (3, "mutate"), (2, "size"), (1, "repr"), (2, "result"), (2, "input"),
                       (1, "copy")])
    op = dict(op=kind, slot=slot, v=d.choice([0, 1, None]) if kind == "new" else d.int(0, 1), pick=d.int(0, 7))
    if kind == "unpack":
        op["cut"] = d.int(0, 12) if d.chance(1, 4) else None
        op["extra"] = d.bytes(0, 3)
        op["again"] = d.chance(1, 3)  # the same input object, with other contents
    return op


def classify(case):
    kinds = set("op-" + o["op"] for o in case["ops"])
    if any(o.get("during") for o in case["ops"]):
        kinds.add("interleaved")
    used = [o["slot"] for o in case["ops"]]
    if any(case["slots"][a] == case["slots"][b] for a in used for b in used if a != b):
        kinds.add("same-class")
    return sorted(kinds | set(c["kind"] for c in case["classes"])), len(set(used)) > 1 and len(case["ops"]) > 2


# ------------------------------------------------------------------ classes
class Static(bs.Real):
    def __init__(self, c, hook):
        import infi.instruct.buffer as B
        self.layout, self.subs = c["layout"], {}
        attrs = {}
        for f in self.layout["fields"]:
            kw = {}
            field = None
            auto = dict(set_before_pack=self.value(f, f["auto"][0])) if "auto" in f else {}  # (None is for no value)
            if f["default"] is not None:
                if f["t"]["k"] == "buf" or (f["t"]["k"] == "list" and f["t"]["elem"]["e"] == "buf"):
                    self.field(f)  # (makes the nested class, which the default needs)
                    sub = self.subs[f["name"]]
                    value = self.value(f, f["default"][0])
                    made = bs.Real.elem_type
                    field = self.again(f, sub, value)
                else:
                    field = self.field(f, default=self.value(f, f["default"][0]), **auto)
            attrs[f["name"]] = field if field is not None else self.field(f, **dict(auto, **self.selector(f)))
        size = bs.layout_size(self.layout)
        attrs[c["hook"]] = B.uint_field(where=B.bytes_ref[size], **hook)
        self.hook_name = c["hook"]
        self.cls = type(B.Buffer)("Static", (B.Buffer,), attrs)

    def again(self, f, sub, default):
        import infi.instruct.buffer as B
        where = bs.rx.build(f["expr"])
        if f["t"]["k"] == "buf":
            return B.buffer_field(type=sub.cls, where=where, default=default, **self.selector(f))
        kw = {"n": f["t"]["count"]} if f["t"].get("n") else {}
        return B.list_field(type=sub.cls, where=where, default=default, **dict(kw, **self.selector(f)))

    def selector(self, f):
        """the class of the nested buffers is chosen while they are unpacked (it's always the same one)"""
        nested = f["t"]["k"] == "buf" or (f["t"]["k"] == "list" and f["t"]["elem"]["e"] == "buf")
        return dict(unpack_selector=lambda obj, buffer, **kwargs: self.subs[f["name"]].cls) if nested and f.get("selector") else {}


class World(object):
    """one set of classes with its objects"""
    def __init__(self, case):
        self.case = case
        self.pending = None
        hook = dict(set_before_pack=self.before, set_after_unpack=self.after)
        self.reals = [bd.Real(c["spec"], hook=hook) if c["kind"] == "dynamic" else Static(c, hook) for c in case["classes"]]
        self.objs = [None] * len(case["slots"])
        self.results = [None] * len(case["slots"])
        self.inputs = [None] * len(case["slots"])
        self.logs = [[] for _ in case["slots"]]
        self.done = []

    def before(self, obj):
        self.fire()
        return HOOK_VALUE

    def after(self, value):
        self.fire()
        return value

    def fire(self):
        todo, self.pending = self.pending, None
        for op in todo or []:
            self.step(op)

    def data(self, c, v):
        values = c["values"][v]
        if c["kind"] == "dynamic":
            return bd.encode(c["spec"], values)
        return bs.pack(c["layout"], values) + bytes(bytearray([HOOK_VALUE]))

    def packed(self, c, v):
        """data, with the fields that are set by packing"""
        if c["kind"] == "dynamic":
            return self.data(c, v)
        values = dict(c["values"][v], **dict((f["name"], f["auto"][0]) for f in c["layout"]["fields"] if f.get("auto", [None])[0] is not None))
        return bs.pack(c["layout"], values) + bytes(bytearray([HOOK_VALUE]))

    def step(self, op, during=True):
        slot = op["slot"]
        self.done.append(op)
        saved = self.pending
        self.pending = op.get("during") if during else None
        entry = len(self.logs[slot])
        self.logs[slot].append(None)
        try:
            out = ["ok", self.do(op, slot)]
        except (HarnessError, Violation):
            raise
        except Exception as e:
            out = ["error", type(e).__name__]
        self.pending = saved
        self.logs[slot][entry] = [op["op"], out, snapshot(self.objs[slot])]

    def do(self, op, slot):
        c = self.case["classes"][self.case["slots"][slot]]
        real = self.reals[self.case["slots"][slot]]
        k, o = op["op"], self.objs[slot]
        if k == "new":
            self.objs[slot] = real.cls() if op["v"] is None else real.make(c["values"][op["v"]])
            return None
        if o is None:
            return None
        if k == "pack":
            r = self.results[slot] = o.pack()
            return bytes(r)
        if k == "unpack":
            data = self.data(c, op["v"]) + bytes(op["extra"])
            if c["kind"] == "dynamic" and bd.is_open(c["spec"]):
                data = self.data(c, op["v"])
            if op["cut"] is not None:
                data = data[:op["cut"]]
            if op.get("again") and self.inputs[slot] is not None:
                self.inputs[slot][:] = data
            else:
                self.inputs[slot] = bytearray(data)
            if op["cut"] is None:
                n = call("unpack into a used object", o.unpack, self.inputs[slot])
            else:
                n = o.unpack(self.inputs[slot])
            expect_same(bytes(self.inputs[slot]), data, "the input after unpack")
            if op["cut"] is None:
                real.verify(o, c["values"][op["v"]], "unpacked into a used object")
            return n
        if k == "size":
            return o.calc_byte_size()
        if k == "repr":
            before = snapshot(o)
            text = repr(o)
            expect(same(snapshot(o), before), "printing changed an object from %s to %s", short(before), short(snapshot(o)))
            return text
        if k == "copy":
            self.objs[slot] = copy.deepcopy(o)
            return None
        if k == "result":
            r = self.results[slot]
            if isinstance(r, bytearray):
                r[:] = b"\xee" * (len(r) + 3)
            return None
        if k == "input":
            if self.inputs[slot] is not None:
                self.inputs[slot][:] = b"\xdd" * len(self.inputs[slot])
            return None
        names = sorted(c["values"][0])
        name = names[op["pick"] % len(names)]
        if k == "set":
            other = real.make(c["values"][op["v"]])
            setattr(o, name, getattr(other, name))
            return None
        if k == "bad":
            setattr(o, name, [None, object(), -1 << 300, {"not": "packable"}][op["pick"] % 4] if op["pick"] % 4 != 1 else NotPackable())
            return None
        if k == "mutate":
            for i in range(len(names)):
                if mutate(getattr(o, names[(op["pick"] + i) % len(names)], None), op["pick"] % 2):
                    break
            return None
        raise HarnessError(k)


class NotPackable(object):
    def __repr__(self):
        return "NotPackable"

    def __str__(self):
        raise ValueError("not packable")


def mutate(v, deep=False):
    """changes a value in place (deep: as far inside as possible)"""
    from infi.instruct.buffer import Buffer
    if deep and isinstance(v, (list, dict)):
        inner = list(v.values()) if isinstance(v, dict) else v
        if any(isinstance(x, (list, dict, bytearray)) and mutate(x, True) for x in inner):
            return True
    if isinstance(v, dict):
        v["mutated"] = len(v)
        return True
    if isinstance(v, bytearray) and len(v):
        v[0] ^= 0xff
        return True
    if isinstance(v, list) and v:
        if isinstance(v[0], Buffer):
            return mutate(v[0])
        v[0] = v[-1]
        v.append(v[0])
        return True
    if isinstance(v, Buffer):
        for k in sorted(k for k in vars(v) if k in c23.field_names(type(v))):
            x = getattr(v, k)
            if isinstance(x, int) and not isinstance(x, bool):
                setattr(v, k, x ^ 1)
                return True
            if mutate(x):
                return True
    return False


def snapshot(o):
    from infi.instruct.buffer import Buffer
    if isinstance(o, Buffer):
        names = c23.field_names(type(o))
        return ["obj", type(o).__name__, dict((k, snapshot(v)) for k, v in vars(o).items() if k in names)]
    if isinstance(o, (bytes, bytearray)):
        return ["bytes", type(o).__name__, bytes(o)]
    if isinstance(o, (list, tuple)):
        return [snapshot(x) for x in o]
    if isinstance(o, dict):
        return ["dict"] + sorted((str(k), snapshot(v)) for k, v in o.items())
    if o is None or isinstance(o, (int, float, str)):
        return o
    return ["other", type(o).__name__]


def check(case):
    for c in case["classes"]:
        if c["kind"] == "dynamic" and not all(bd.representable(c["spec"], v) for v in c["values"]):
            raise Discard()
    world = call("declaring the classes", World, case)
    sizes = [r.cls.byte_size for r in world.reals]
    for op in case["ops"]:
        world.step(op)
    # packing twice gives the same bytes; packing does not alter more than automatic values
    for slot in range(len(case["slots"])):
        alone = World(case)
        for op in world.done:
            if op["slot"] == slot:
                alone.step(op, during=False)
        for i, (a, b) in enumerate(zip(world.logs[slot], alone.logs[slot])):
            if not same(a, b):
                expect(False, "operation %d of object %d (%s): among the others %s, on its own %s", i, slot, a[0], short(a[1:]), short(b[1:]))
        a, b = snapshot(world.objs[slot]), snapshot(alone.objs[slot])
        expect(same(a, b), "object %d at the end: among the others %s, on its own %s", slot, short(a), short(b))
    check_pack_is_pure(case, world)
    for c, r, size in zip(case["classes"], world.reals, sizes):
        expect(r.cls.byte_size == size, "byte_size of a class changed from %s to %s", short(size), short(r.cls.byte_size))
        for v in (0, 1):
            o = call("constructor", r.make, c["values"][v])
            expect_same(bytes(call("pack of a new object after the history", o.pack)), world.packed(c, v), "a new object after the history packs to")
            p = call("constructor", r.cls)
            call("unpack into a new object after the history", p.unpack, world.data(c, v))
            r.verify(p, c["values"][v], "a new object after the history")
            q = call("constructor", r.cls)
            call("unpack of the same bytes into another object", q.unpack, world.data(c, v))
            for name in sorted(c["values"][v]):
                mutate(getattr(p, name, None), v)
            r.verify(q, c["values"][v], "an object after another one that was unpacked from the same bytes was changed in place")
        if c["kind"] == "static":
            for how in ("after the history", "after the values of another new object were changed in place", "after another such change"):
                o = call("constructor", r.cls)
                for f in c["layout"]["fields"]:
                    if f["default"] is not None:
                        r.verify_field(f, getattr(o, f["name"]), f["default"][0], "the default of a new object " + how)
                        mutate(getattr(o, f["name"]), how == "after the history")


def check_pack_is_pure(case, world):
    for slot, o in enumerate(world.objs):
        if o is None:
            continue
        try:
            first = bytes(o.pack())
        except Exception:
            continue
        state = snapshot(o)
        try:
            second = bytes(o.pack())
        except Exception as e:
            expect(False, "packing object %d again raised %s", slot, type(e).__name__)
        expect_same(second, first, "packing object %d again", slot)
        expect(same(snapshot(o), state), "packing object %d again changed it from %s to %s", slot, short(state), short(snapshot(o)))
