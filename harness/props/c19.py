"""C19: Lazy groups are observationally the same as eager ones.

A random struct with lazy groups (also nested ones, in nested structs, selected structs and array elements) and the same
struct without them go through the same history - construct, read (from a stream that moves on or closes), get, set
(also unencodable values), mutate in place, write, size, print, copy - and must agree at every step and with the model's
final bytes.  Truncated or mismatched input must fail too: while reading it, or at every access and write afterwards.
"""
import copy
import io
from common import call, expect, expect_same, short, same, Discard, Violation
import forward
import structmodel as sm


def gen(d):
    if d.chance(1, 10):
        return forward.gen(d, ["lazy"])
    g = sm.G(d)
    depth = d.choice([0, 1, 2, 2])
    fields = []
    for _ in range(d.int(1, 4)):
        if d.chance(1, 3):
            fields.append(g.field(depth, False, fields))
        else:
            fields.append({"k": "lazy", "fields": [g.field(depth, True, []) for _ in range(d.int(1, 3))]})
    if d.chance(1, 4):  # only inside a nested struct
        inner = {"name": g.sname(), "fields": fields, "form": "list"}
        fields = [{"k": "val", "name": g.name(), "m": {"k": "nest", "spec": inner}, "via": "field"}]
    if d.chance(1, 2):
        for f in fields:
            if f["k"] == "lazy" and d.bool():
                x = {"k": "val", "name": g.name(), "m": {"k": "num", "t": d.choice(sm.INTS), "ctx": True}, "via": "field"}
                if d.chance(1, 3):
                    x = {"k": "val", "name": g.name(), "via": "field", "m": {"k": "nest", "spec": {"name": g.sname(), "fields": [x], "form": "list"}}}
                f["fields"].insert(d.int(0, len(f["fields"])), x)
    spec = {"name": "S0", "fields": fields, "form": "list"}
    values = [g.svalue(spec) for _ in range(2)]
    for f, const in sm.named(spec):  # defaults
        if not const and "m" in f and f.get("k") == "val" and not f.get("flag") and d.chance(1, 3):
            f["default"] = g.value(f["m"])
    names = [f["name"] for f, const in sm.named(spec)]
    settable = [f for f, const in sm.named(spec) if not const]
    lists = [f["name"] for f in settable if f.get("m", {}).get("k") in ("farr", "varr") and f["m"]["elem"]["k"] == "num"]
    nests = [f for f in settable if f.get("m", {}).get("k") == "nest" and [x for x, c in sm.named(f["m"]["spec"]) if not c and "m" in x]]
    ops, n = [], 0
    mutates = d.bool()
    for _ in range(d.int(2, 14)):
        kinds = [(3, "new"), (6, "read"), (1, "bad")]
        if n:
            kinds = [(1, "new"), (2, "read"), (1, "bad"), (6, "get"), (6, "set"), (3, "write"), (2, "sizeof"), (1, "repr"), (2, "copy")]
            if mutates and (lists or nests):
                kinds.append((3, "mut"))
        k = d.weighted(kinds)
        op = [k]
        if k == "new":
            op += [d.int(0, 1), [f["name"] for f in settable if d.bool()]]
            n += 1
        elif k == "read":
            op += [d.int(0, 1), d.choice(["string", "close", "move", "nostell"]), d.choice([0, 0, 1, 77])]
            n += 1
        elif k == "bad":
            op += [d.int(0, 1), d.choice(["cut", "site", "site"]), d.int(0, 10 ** 6)]
        elif k == "copy":
            op += [d.int(0, n - 1), "deep" if mutates or d.bool() else "shallow"]
            n += 1
        elif k == "get":
            op += [d.int(0, n - 1), d.choice(names)] if names else []
        elif k == "set":
            if not settable:
                continue
            f = d.choice(settable)
            if d.chance(1, 8):
                op += [d.int(0, n - 1), f["name"], "bad", d.choice([None, "text", -(1 << 80), 1 << 80])]
            else:
                tmp = {}
                if f.get("k") == "opt":
                    v = g.value(f["m"]) if d.bool() else None
                elif f.get("k") == "ptr":
                    v = values[d.int(0, 1)][f["name"]]
                else:
                    holder = {"fields": [x for x, c in [(f, 0)]]}
                    if "m" in f:
                        g.fvalues(holder["fields"], tmp)
                        v = tmp[f["name"]]
                    else:
                        v = values[d.int(0, 1)][f["name"]]
                op += [d.int(0, n - 1), f["name"], "ok", v]
        elif k == "mut":
            if nests and (not lists or d.bool()):
                f = d.choice(nests)
                x = d.choice([x for x, c in sm.named(f["m"]["spec"]) if not c and "m" in x])
                tmp = {}
                if x["k"] in ("opt", "ptr"):
                    continue
                g.fvalues([x], tmp)
                op += [d.int(0, n - 1), "nest", f["name"], x["name"], tmp[x["name"]]]
            else:
                op += [d.int(0, n - 1), "list", d.choice(lists), d.choice([0, 1])]
        elif k == "write":
            op += [d.int(0, n - 1), d.choice([0, 0, 1, 5])]
        else:
            op += [d.int(0, n - 1)]
        if len(op) > 1:
            ops.append(op)
    return dict(spec=spec, values=values, ops=ops, mutates=mutates)


def classify(case):
    if case.get("mode") == "forward":
        return forward.classify(case)
    l = set(op[0] for op in case["ops"]) | sm.labels(case["spec"])
    return l, "lazy" in l and len(case["ops"]) > 2 and bool(l & {"read", "set", "copy"})


class Side(object):
    def __init__(self, case, eager):
        self.case, self.spec = case, case["spec"]
        self.eager = eager
        self.real = call("declaring the classes", sm.Real, self.spec, eager)
        self.objs = []
        self.fields = dict((f["name"], f) for f, const in sm.named(self.spec))
        self.later = []

    def val(self, f, v):
        return v if v is None or "m" not in f else self.real.real_value(f["m"], v)

    def plain(self, f, v):
        if isinstance(v, str) or (isinstance(v, int) and abs(v) >= 1 << 80):  # set by a "bad" assignment, or a mapping key
            return v
        return v if v is None or "m" not in f else self.real.plain(f["m"], v)

    def step(self, op):
        """('ok', comparable) or ('error', exception)"""
        try:
            return "ok", self.do(op)
        except Violation:
            raise
        except Exception as e:
            return "error", e

    def do(self, op):
        case, real, k = self.case, self.real, op[0]
        if k == "new":
            vals = case["values"][op[1]]
            kw = dict((n, self.val(self.fields[n], vals[n])) for n in op[2])
            self.objs.append(None)
            self.objs[-1] = real.cls(**kw)
            return None
        if k == "read":
            data = sm.enc_struct(self.spec, case["values"][op[1]])
            self.objs.append(None)
            self.objs[-1] = self.read(data, op[2], *self.context(op[3:]))
            return None
        if k == "copy":
            self.objs.append(None)
            self.objs[-1] = (copy.deepcopy if op[2] == "deep" else copy.copy)(self.objs[op[1]])
            return None
        o = self.objs[op[1]]
        if k == "get":
            return self.plain(self.fields[op[2]], getattr(o, op[2]))
        if k == "set":
            f = self.fields[op[2]]
            setattr(o, op[2], self.val(f, op[4]) if op[3] == "ok" else op[4])
            return None
        if k == "mut":
            if op[2] == "list":
                getattr(o, op[3])[-1] = op[4]
            else:
                f = self.fields[op[3]]
                x = [x for x, c in sm.named(f["m"]["spec"]) if x["name"] == op[4]][0]
                setattr(getattr(o, op[3]), op[4], self.val(x, op[5]))
            return None
        if k == "write":
            return real.cls.write_to_string(o, *self.context(op[2:]))
        if k == "sizeof":
            return real.cls.sizeof(o)
        if k == "repr":
            repr(o)
            return None

    def context(self, add):
        from infi.instruct.base import ReadOnlyContext
        return [ReadOnlyContext({"ctx_add": add[0]})] if add and add[0] else []

    def read(self, data, how, *context):
        cls = self.real.cls
        if how == "string":
            return cls.create_from_string(data, *context)
        if how == "nostell":
            s = sm.Stream(data + b"tail")
            o = cls.create_from_stream(s, *context)
            s.data = b"\xff" * len(s.data)
            s.close()
            return o
        s = io.BytesIO(data + b"tail")
        o = cls.create_from_stream(s, *context)
        expect_same(s.tell(), len(data), "stream position after reading")
        if how == "close":
            s.close()
        else:
            s.read()
            s.seek(0)
            s.write(b"\xff" * len(data))
        return o

    def all(self, o):
        out = {}
        for n in sorted(self.fields):
            try:
                out[n] = ["ok", self.plain(self.fields[n], getattr(o, n))]
            except Violation:
                raise
            except Exception:
                out[n] = ["error"]
        return out


def bad_wire(spec, vals, op):
    """(bytes, names of the lazy fields of the broken group or None)"""
    data = sm.enc_struct(spec, vals)
    if op[2] == "cut" or not data:
        if not data:
            return None
        return data[:op[3] % len(data)]
    found = []
    for kind, x, a, b, top in sm.sites(spec, vals):
        if kind == "const" and b > a and x["m"]["k"] in ("num", "fbuf"):
            found.append((a, b, data[a:a] + bytes([data[a] ^ 1]) + data[a + 1:b]))
        elif kind == "m-map" and x["m"]["k"] == "num" and b > a:
            codes = [v for _, v in x["map"]]
            lo, hi = sm.num_range(x["m"]["t"])
            v = lo
            while v in codes:
                v += 1
            found.append((a, b, sm.enc_num(x["m"]["t"], v)))
    if not found:
        return None
    a, b, new = found[op[3] % len(found)]
    return data[:a] + new + data[b:]


def check(case):
    if case.get("mode") == "forward":
        return forward.check(case)
    spec = case["spec"]
    lazy, eager = Side(case, False), Side(case, True)
    for i, op in enumerate(case["ops"]):
        what = "step %d %s" % (i, short(op, 120))
        if op[0] == "bad":
            data = bad_wire(spec, case["values"][op[1]], op)
            if data is None:
                continue
            e = read_bad(eager, data)
            expect(e is None, "%s: the struct without lazy groups accepts the broken input %s", what, short(data))
            o = read_bad(lazy, data)
            if o is not None:
                for _ in range(2):
                    try:
                        got = o.to_bytes()
                    except Exception:
                        continue
                    expect(False, "%s: broken input %s was read, and written back as %s", what, short(data), short(got))
            continue
        if op[0] != "new" and op[0] != "read" and lazy.objs[op[1]] is None:
            if op[0] == "copy":
                lazy.objs.append(None)
                eager.objs.append(None)
            continue
        (sl, rl), (se, re_) = lazy.step(op), eager.step(op)
        if op[0] == "sizeof" and eager.step(["write", op[1]])[0] == "error":
            continue  # an incomplete struct has no bytes and no size
        expect(sl == se, "%s: lazy gives %s, eager gives %s", what, short((sl, rl)), short((se, re_)))
        if sl == "ok":
            expect_same(rl, re_, "%s: lazy result, compared to eager" % what)
    for j, (a, b) in enumerate(zip(lazy.objs, eager.objs)):
        if a is None:
            continue
        expect_same(lazy.step(["write", j])[0], eager.step(["write", j])[0], "whether object %d can be written in the end", j)
        va, vb = lazy.all(a), eager.all(b)
        expect_same(va, vb, "all values of object %d, lazy and eager" % j)
        texts = []
        for o in (a, b):
            try:
                texts.append(repr(o).replace(",", "").replace(" ", ""))  # an empty group still has its separators
            except Exception:
                texts.append(None)
        expect_same(texts[0], texts[1], "repr of object %d once everything was read, lazy and eager" % j)
        sa, sb = lazy.step(["write", j]), eager.step(["write", j])
        expect_same(sa[0], sb[0], "whether object %d can be written" % j)
        if sa[0] == "ok":
            expect_same(sa[1], sb[1], "bytes of object %d, lazy and eager" % j)
    for side in (lazy, eager):
        for vals in case["values"]:  # and the classes are still what they were
            data = sm.enc_struct(spec, vals)
            o = call("create_from_string", side.real.cls.create_from_string, data)
            expect_same(call("write", side.real.cls.write_to_string, o), data, "bytes of a fresh object")
            expect_same(side.real.extract(spec, o), sm.canon_struct(spec, vals), "values of a fresh object")
            expect_same(side.real.cls.sizeof(o), len(data), "size of a fresh object")


def read_bad(side, data):
    try:
        return side.real.cls.create_from_string(data)
    except Exception:
        return None
