"""C04: positions, counts and values given by references resolve consistently; cycles are reported.

mode layout: a dynamic layout (bufdyn) under two namings, declaration orders and ways of writing the references
mode graph:  2-byte and variable fields whose positions, values and presence depend on each other in random ways
"""
from common import call, expect, expect_same, short, Discard, HarnessError, Violation, first_line
import bufdyn as bd
import bufstatic as bs


def gen(d):
    if d.chance(1, 3):
        spec = bd.gen_spec(d, 1, True)
        names = bd.field_names(spec)
        return dict(mode="layout", spec=spec, values=bd.gen_values(d, spec), values2=bd.gen_values(d, spec), names=d.perm(names) if d.bool() else bs.gen_names(d, len(names)),
                    forms=[d.int(0, 1000) for _ in spec["parts"]], style=d.int(0, 1000), order=d.perm(list(range(len(names)))))
    n = d.int(1, 6)
    fields = []
    for i in range(n):
        f = {"name": i, "gap": gen_terms(d, n, d.chance(1, 2)), "val": None, "cond": None, "len": None,
             "first": d.choice(["const", "after", "after"])}
        if d.chance(1, 2):
            f["val"] = gen_terms(d, n, True)
            f["val"] = f["val"] or [["c", 3]]
        if d.chance(1, 5):
            f["cond"] = [d.int(0, n - 1), d.choice([">", "==", "<="]), d.int(0, 3)]
        f["ushift"] = d.int(1, 3) if d.chance(1, 8) else 0
        f["split"] = [d.choice([0, 1, 2]), d.bool()] if d.chance(1, 4) else None
        fields.append(f)
    if n > 1 and d.chance(1, 2):
        s, k = d.perm(list(range(n)))[:2]
        fields[s].update(len=k, val=None, cond=None, split=None)
        fields[k].update(val=[["l", s]] + sum([[t, ["-"] + t] for t in gen_terms(d, n, True)], []), len=None, cond=None, isn=True, split=None)
    if d.chance(1, 2):
        fields[d.int(0, n - 1)]["big"] = True
    # the end of a field can only be referred to after it has been declared
    for i, f in enumerate(fields):
        for key in ("gap", "val"):
            if f[key] is not None:
                f[key] = [t for t in f[key] if not ((t[1:] if t[0] == "-" else t)[0] == "a" and (t[1:] if t[0] == "-" else t)[1] >= i)] or ([["c", 2]] if key == "val" else [])
    # nobody refers to the value of a conditional or variable field
    used = set()
    for f in fields:
        for t in list(f["gap"]) + (f["val"] or []):
            t = t[1:] if t[0] == "-" else t
            if t[0] in ("v", "f"):
                used.add(t[1])
        if f["cond"]:
            used.add(f["cond"][0])
    bad = set(i for i in range(n) if fields[i]["len"] is not None)
    for f in fields:
        f["gap"] = [t for t in f["gap"] if not (t[0] in ("v", "f") and t[1] in bad)]
        if f["val"] is not None:
            f["val"] = [t for t in f["val"] if not ((t[1:] if t[0] == "-" else t)[0] in ("v", "f") and (t[1:] if t[0] == "-" else t)[1] in bad)] or [["c", 1]]
        if f["cond"] and f["cond"][0] in bad:
            f["cond"] = None
    for i in used:
        fields[i]["cond"] = None
    if Model(dict(fields=fields), True, b"").static():
        for f in fields:
            f["ushift"] = 0
    values = []
    for f in fields:
        values.append(d.bytes(0, 5) if f["len"] is not None else d.int(0, 9))
    return dict(mode="graph", fields=fields, values=values, names=bs.gen_names(d, n), order=d.perm(list(range(n))),
                input=d.bytes(0, 40), fill=d.int(0, 255), scope=d.choice(["field", "self", "num"]))


def gen_terms(d, n, rich):
    out = []
    for _ in range(d.int(0, 2) if rich else 0):
        k = d.weighted([(4, "c"), (4, "v"), (3, "f"), (3, "a"), (2, "t")])
        out.append([k, d.int(0, 3)] if k == "c" else [k] if k == "t" else [k, d.int(0, n - 1)])
    return out


def classify(case):
    if case["mode"] == "layout":
        return ["layout"] + sorted(bd.labels(case["spec"])), len(case["spec"]["parts"]) > 1
    pack, unpack = outcome(case, True, None), outcome(case, False, the_input(case))
    kinds = set("%s-%s" % (w, t[0]) for f in case["fields"] for w in ("gap", "val") for t in (f[w] or []))
    l = ["graph", "pack-cycle" if pack is None else "pack-ok", "unpack-cycle" if unpack is None else "unpack-ok"] + sorted(kinds)
    return l, len(kinds) > 0 and len(case["fields"]) > 1


def check(case):
    (check_layout if case["mode"] == "layout" else check_graph)(case)


# ------------------------------------------------------------------ layout
def check_layout(case):
    spec, values = case["spec"], case["values"]
    again = case.get("values2", values)
    if not bd.representable(spec, values) or not bd.representable(spec, again):
        raise Discard()
    want, want2 = bd.encode(spec, values), bd.encode(spec, again)
    names = bd.field_names(spec)
    if len(set(case["names"])) != len(names):
        raise HarnessError("names")
    m = dict(zip(names, case["names"]))
    spec2 = bd.rename(spec, m)
    spec2 = dict(spec2, style=case["style"], parts=[dict(p, form=f) for p, f in zip(spec2["parts"], case["forms"])])
    values2, again2 = [dict((m[k], v) for k, v in x.items()) for x in (values, again)]
    order = [case["names"][i] for i in case["order"]]
    for what, sp, vals, other, o in (("as generated", spec, values, again, None), ("renamed, in other words", spec2, values2, again2, order)):
        real = call("declaring the class (%s)" % what, bd.Real, sp, "Dyn", o)
        obj = call("constructor", real.make, vals)
        expect_same(call("calc_byte_size (%s)" % what, obj.calc_byte_size), len(want), "size (%s)", what)
        expect_same(bytes(call("pack (%s)" % what, obj.pack)), want, "bytes of %s (%s)", short(vals), what)
        real.verify(obj, vals, "object after pack (%s)" % what)
        p = call("constructor", real.cls)
        n = call("unpack (%s)" % what, p.unpack, want)
        real.verify(p, vals, "unpacked (%s)" % what)
        expect_same(n, len(want), "size returned by unpack (%s)", what)
        # nothing is left of earlier values and positions when an object is used again
        n = call("unpack into a used object (%s)" % what, p.unpack, want2)
        real.verify(p, other, "unpacked into a used object (%s)" % what)
        expect_same(n, len(want2), "size returned by unpack into a used object (%s)", what)
        real.assign(obj, other)
        expect_same(bytes(call("pack (%s)" % what, obj.pack)), want2, "bytes of a used object with %s (%s)", short(other), what)


# ------------------------------------------------------------------ graph: model
class Cycle(Exception):
    pass


def the_input(case):
    return bytes(case["input"]) + bytes(bytearray([case["fill"]])) * 700


class Model(object):
    def __init__(self, case, pack, data):
        self.case, self.fields, self.packing, self.data = case, case["fields"], pack, data
        self.memo, self.busy = {}, set()

    def get(self, *node):
        if node in self.memo:
            return self.memo[node]
        if node in self.busy:
            raise Cycle()
        self.busy.add(node)
        try:
            r = self.memo[node] = getattr(self, node[0])(*node[1:])
        finally:
            self.busy.discard(node)
        return r

    def width(self, i):
        return 1 if self.fields[i].get("isn") else 2

    def V(self, i):
        f = self.fields[i]
        if self.packing:
            if f["val"] is None:
                return self.case["values"][i]
            return self.terms(f["val"], False)
        a = self.get("P", i)
        b = self.get("E", i)
        raw = self.order(i, self.data[a:b])
        return raw if f["len"] is not None else int.from_bytes(raw, "big" if f.get("big") else "little")

    def order(self, i, raw):
        """the bytes of a field in the order of its pieces"""
        sp = self.fields[i].get("split")
        return raw if sp is None else raw[-1:] + raw[:1] if sp[1] else raw[:1] + raw[-1:]

    def P(self, i):
        f = self.fields[i]
        if f["first"] == "const" or i == 0:
            base = 8 * i
        else:
            base = self.get("E", i - 1)
        return base + self.terms(f["gap"], True) + (0 if self.packing or f["len"] is not None else f.get("ushift", 0))

    def E(self, i):
        """end of the field"""
        f = self.fields[i]
        # (a constant position is literal; otherwise start and stop are evaluated together)
        start = self.get("P", i)
        if f["len"] is None:
            return start + self.width(i) + (f["split"][0] if f.get("split") else 0)
        return start + self.get("V", f["len"])

    def C(self, i):
        c = self.fields[i]["cond"]
        if c is None:
            return True
        v = self.get("V", c[0])
        return {">": v > c[2], "==": v == c[2], "<=": v <= c[2]}[c[1]]

    def T(self):
        ends = [0]
        if self.static():
            # a class of constant positions has a constant size, whatever is present
            return max(self.get("E", i) for i in range(len(self.fields)))
        for i in range(len(self.fields)):
            if self.get("C", i):
                if not self.packing:
                    self.get("V", i)
                ends.append(self.get("E", i))
        return max(ends)

    def static(self):
        return all((f["first"] == "const" or i == 0) and all(t[0] == "c" for t in f["gap"]) and f["len"] is None for i, f in enumerate(self.fields))

    def terms(self, terms, gap):
        total = 0
        for t in terms:
            sign = 1
            if t[0] == "-":
                sign, t = -1, t[1:]
            k = t[0]
            if k == "c":
                x = t[1]
            elif k == "v":
                x = min(self.get("V", t[1]), 3)
            elif k == "f":
                x = min(self.get("V", t[1]) + 1, 4)
            elif k == "a":
                x = self.get("E", t[1])
                x = min(x, 2) if gap else x
            elif k == "t":
                x = self.get("T")
                x = min(x, 1) if gap else x
            elif k == "l":
                x = len(self.get("V", t[1]))
            total += sign * x
        return total


def outcome(case, pack, data):
    """None for a cycle, else the model with all nodes evaluated"""
    m = Model(case, pack, data)
    try:
        for i in range(len(case["fields"])):
            if m.get("C", i):
                m.get("V", i)
                m.get("E", i)
        m.get("T")
    except Cycle:
        return None
    return m


# ------------------------------------------------------------------ graph: real class
def build(case):
    import infi.instruct.buffer as B
    fields, names = case["fields"], case["names"]
    # references to fields that are not declared yet go through self_ref
    made = {}

    def value(i):
        if case["scope"] == "field" and i in made:
            return made[i]
        return B.num_ref(getattr(B.self_ref, names[i])) if case["scope"] != "num" or i not in made else B.num_ref(made[i])

    def after(i):
        return B.after_ref(made[i])

    def term(t, gap):
        if t[0] == "-":
            return 0 - term(t[1:], gap)
        k = t[0]
        if k == "c":
            return t[1]
        if k == "v":
            return B.min_ref(value(t[1]), 3)
        if k == "f":
            return B.num_ref(B.self_ref.helper(value(t[1])))
        if k == "a":
            return B.min_ref(after(t[1]), 2) if gap else after(t[1])
        if k == "t":
            return B.min_ref(B.total_size, 1) if gap else B.total_size
        return B.len_ref(getattr(B.self_ref, names[t[1]]))

    def total(terms, gap):
        r = 0
        for t in terms:
            x = term(t, gap)
            r = x if isinstance(r, int) and r == 0 else r + x
        return r

    for i, f in enumerate(fields):
        start = 8 * i if f["first"] == "const" or i == 0 else B.after_ref(made[i - 1])
        g = total(f["gap"], True)
        if not (isinstance(g, int) and g == 0):
            start = start + g
        kw = {}
        if f["cond"]:
            v = value(f["cond"][0])
            kw["pack_if"] = kw["unpack_if"] = {">": lambda: v > f["cond"][2], "==": lambda: v == f["cond"][2], "<=": lambda: v <= f["cond"][2]}[f["cond"][1]]()
        if f["len"] is not None:
            made[i] = B.bytearray_field(where=B.bytes_ref[start:start + value(f["len"])], **kw)
            continue
        if f["val"] is not None:
            v = total(f["val"], False)
            kw["set_before_pack"] = v
        make = B.be_uint_field if f.get("big") else B.le_uint_field
        def place(start):
            if not f.get("split"):
                return B.bytes_ref[start:start + (1 if f.get("isn") else 2)]
            gap, swap = f["split"]
            low, high = B.bytes_ref[start:start + 1], B.bytes_ref[start + 1 + gap:start + 2 + gap]
            return high + low if swap else low + high
        if f.get("ushift"):  # read from another place than it is written to
            made[i] = make(where_when_pack=place(start), where_when_unpack=place(start + f["ushift"]), **kw)
        else:
            made[i] = make(where=place(start), **kw)
    attrs = dict((names[i], made[i]) for i in case["order"])
    attrs["helper"] = lambda self, v: min(v + 1, 4)
    return type(B.Buffer)("Graph", (B.Buffer,), attrs)


def check_graph(case):
    fields, names = case["fields"], case["names"]
    cls = call("declaring the class", build, case)
    m = outcome(case, True, None)
    if m is not None:
        # keep to values that can be encoded, and to fields that do not overlap
        ends = sorted((m.get("P", i), m.get("E", i)) for i in range(len(fields)) if m.get("C", i))
        for i, f in enumerate(fields):
            if m.get("C", i) and f["len"] is None and not 0 <= m.get("V", i) < 1 << 8 * m.width(i):
                raise Discard()
        overlap = any(a[1] > b[0] for a, b in zip(ends, ends[1:]))
    obj = call("constructor", cls, **dict((names[i], bytearray(v) if isinstance(v, bytes) else v) for i, v in enumerate(case["values"])
                                          if fields[i]["val"] is None))
    if m is None:
        must_cycle("pack", obj.pack)
    else:
        got = bytes(call("pack", obj.pack))
        want = bytearray(m.get("T"))
        if not overlap:
            for i, f in enumerate(fields):
                if m.get("C", i):
                    v = m.get("V", i)
                    raw = v if f["len"] is not None else v.to_bytes(m.width(i), "big" if f.get("big") else "little")
                    a, b = m.get("P", i), m.get("E", i)
                    if f.get("split"):
                        want[a:a + 1], want[b - 1:b] = (raw[1:], raw[:1]) if f["split"][1] else (raw[:1], raw[1:])
                    else:
                        want[a:b] = raw
            expect_same(got, bytes(want), "packed bytes")
        expect_same(len(got), len(want), "packed length")
        for i, f in enumerate(fields):
            if f["val"] is not None and m.get("C", i):
                expect_same(getattr(obj, names[i]), m.get("V", i), "automatic value of %s after pack", names[i])
        expect_same(call("calc_byte_size", obj.calc_byte_size), m.get("T"), "calc_byte_size()")
    data = the_input(case)
    u = outcome(case, False, data)
    o = cls()
    if u is None:
        must_cycle("unpack", o.unpack, data)
        return
    n = call("unpack", o.unpack, data)
    for i, f in enumerate(fields):
        v = getattr(o, names[i])
        if not u.get("C", i):
            expect(v is None, "%s is %s after unpack, expected None", names[i], short(v))
        else:
            expect_same(bytes(v) if isinstance(v, bytearray) else v, u.get("V", i), "%s after unpack", names[i])
    expect_same(n, u.get("T"), "size returned by unpack")


def must_cycle(what, fn, *args):
    from infi.instruct.buffer.reference import CyclicReferenceError
    try:
        r = fn(*args)
    except Exception as e:
        seen, todo = [], [e]
        while todo:
            x = todo.pop()
            if x is None or any(x is y for y in seen):
                continue
            seen.append(x)
            todo += [x.__cause__, x.__context__]
        expect(any(isinstance(x, CyclicReferenceError) for x in seen), "%s of a cyclic definition raised %s, not caused by a cyclic-reference error: %s",
               what, type(e).__name__, first_line(e))
        return
    raise Violation("%s of a cyclic definition was accepted and gave %s" % (what, short(r)))
