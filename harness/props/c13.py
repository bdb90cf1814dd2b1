"""C13: reference expressions compute what the Python expression computes; memoised, isolated, cycle-safe."""
import operator
from common import call, expect, same, short, Violation, first_line

OPS = {"+": operator.add, "-": operator.sub, "*": operator.mul, "/": operator.truediv, "//": operator.floordiv,
       "<": operator.lt, "<=": operator.le, ">": operator.gt, ">=": operator.ge, "==": operator.eq, "!=": operator.ne}
FUNCS = {
    "lin": lambda a, b=0, c=0: a * 3 + b - c,
    "first": lambda a, *rest, **kw: a,
    "div": lambda a, b=1, c=1: a / b / c,
    "kw": lambda a, b=1, c=2: a if c > b else b,
}


class Boom(Exception):
    pass


# ------------------------------------------------------------------ generator
def _number(d):
    k = d.int(0, 9)
    if k <= 4:
        return d.int(-9, 9)
    if k == 5:
        return d.sint(64)
    if k == 6:
        return d.bool()
    if k == 7:
        return d.choice([0.0, 0.125, 0.5, -1.5, 3.0, 1e300])
    if k == 8:
        return d.float()
    return d.int(0, 1000)


def gen(d):
    if d.chance(1, 4):
        return gen_graph(d)
    if d.chance(1, 6):
        return gen_call(d)
    nodes = []
    for i in range(d.int(1, 3)):
        nodes.append(["leaf", [_number(d), _number(d)]])
    nodes.append(["seq", [d.choice(["", "abc", "x" * d.int(0, 300)]), list(range(d.int(0, 5)))]])
    for i in range(d.int(1, 9)):
        numeric = [j for j, n in enumerate(nodes) if n[0] != "seq"]
        recent = numeric[-4:]
        pick = lambda: d.choice(recent if d.chance(2, 3) else numeric)
        k = d.int(0, 13)
        if k <= 6:
            nodes.append(["bin", d.choice(sorted(OPS)), pick(), pick()])
        elif k == 7:
            nodes.append(["neg", pick()])
        elif k == 8:
            nodes.append(["const", _number(d)])
        elif k == 9:
            nodes.append(["cast", pick()])
        elif k == 10:
            nodes.append([d.choice(["min", "max"]), [pick() for _ in range(d.int(2, 4))]])
        elif k == 11:
            nodes.append(["len", [j for j, n in enumerate(nodes) if n[0] == "seq"][0]])
        elif k == 12:
            kw = dict((name, pick()) for name in ("b", "c") if d.bool())
            nodes.append(["func", d.choice(sorted(FUNCS)), pick(), kw, d.bool()])
        else:
            nodes.append(["leaf", [_number(d), _number(d)]])
    steps = []
    for _ in range(d.int(1, 6)):
        steps.append([len(nodes) - 1 - (d.int(0, len(nodes) - 1) if d.bool() else 0), d.int(0, 1), d.chance(1, 4)])
    return dict(kind="expr", nodes=nodes, boom=d.int(0, 2), steps=steps)


def gen_call(d):
    """a call of a method or function with any arguments, as a hook or directly"""
    def arg():
        k = d.int(0, 4)
        if k == 0:
            return ["field", d.int(0, 1), d.int(0, 3)]
        if k == 1:
            return ["attr", d.choice(["mode", "text"])]
        return ["value", d.choice([None, 0, 1, True, False, -1, 2.5, "", "f0", "text", b"", b"a", [], [1, None], [[]]])]
    return dict(kind="call", args=[arg() for _ in range(d.int(0, 3))], kwargs=dict((k, arg()) for k in ("a", "b", "obj", "args", "name") if d.chance(1, 3)),
                how=d.choice(["direct", "pack", "unpack"]), ref_func=d.bool(), values=[d.int(0, 255), d.int(0, 255)], result=d.int(0, 255))


def gen_graph(d):
    n = d.int(1, 7)
    deps = []
    back = d.chance(1, 2)
    for i in range(n):
        deps.append([d.int(0, n - 1) if back and d.chance(1, 4) else d.int(0, max(0, i - 1))
                     for _ in range(d.int(0, 3))] if (i or back) else [])
        if not back:
            deps[-1] = [j for j in deps[-1] if j < i]
    steps = [[d.int(0, n - 1), d.int(0, 1)] for _ in range(d.int(1, 8))]
    return dict(kind="graph", deps=deps, values=[d.int(-5, 5) for _ in range(2 * n)], steps=steps)


def classify(case):
    if case["kind"] == "call":
        return {"call", "call-" + case["how"]}, bool(case["args"] or case["kwargs"])
    if case["kind"] == "graph":
        cyc = any(reaches_cycle(case["deps"], s[0]) for s in case["steps"])
        return {"graph", "cyclic" if cyc else "acyclic"}, any(case["deps"])
    labels = set("node-" + n[0] for n in case["nodes"])
    labels.update("op" + n[1] for n in case["nodes"] if n[0] == "bin")
    m = Model(case)
    for node, ctx, boom in case["steps"]:
        labels.add("error" if m.errors(node, ctx) else "value")
        if boom:
            labels.add("transient-failure")
    return labels, any(n[0] in ("bin", "neg", "min", "max", "func", "len", "cast") for n in case["nodes"])


# ------------------------------------------------------------------ expressions
class Model(object):
    def __init__(self, case):
        self.nodes = case["nodes"]
        self.memo = {}

    def children(self, i):
        n = self.nodes[i]
        if n[0] == "bin":
            return [n[2], n[3]]
        if n[0] in ("neg", "cast", "len"):
            return [n[1]]
        if n[0] in ("min", "max"):
            return n[1]
        if n[0] == "func":
            return [n[2]] + [n[3][k] for k in sorted(n[3])]
        return []

    def below(self, i):
        seen, todo = set(), [i]
        while todo:
            j = todo.pop()
            if j not in seen:
                seen.add(j)
                todo.extend(self.children(j))
        return seen

    def value(self, i, ctx):
        """-> (value, None) or (None, own error class or True when an operand has no value)"""
        if (i, ctx) not in self.memo:
            self.memo[i, ctx] = self._value(i, ctx)
        return self.memo[i, ctx]

    def _value(self, i, ctx):
        n = self.nodes[i]
        if n[0] in ("leaf", "seq"):
            return n[1][ctx], None
        if n[0] == "const":
            return n[1], None
        vals = []
        for j in self.children(i):
            v, e = self.value(j, ctx)
            if e is not None:
                return None, True
            vals.append(v)
        try:
            if n[0] == "bin":
                return OPS[n[1]](*vals), None
            if n[0] == "neg":
                return -vals[0], None
            if n[0] == "cast":
                return vals[0], None
            if n[0] == "len":
                return len(vals[0]), None
            if n[0] in ("min", "max"):
                return (min if n[0] == "min" else max)(*vals), None
            return FUNCS[n[1]](vals[0], **dict(zip(sorted(n[3]), vals[1:]))), None
        except Exception as e:
            return None, type(e)

    def errors(self, i, ctx):
        out = set()
        for j in self.below(i):
            e = self.value(j, ctx)[1]
            if isinstance(e, type):
                out.add(e)
        return out


def build(case, counts):
    from infi.instruct.buffer import num_ref, min_ref, max_ref, len_ref
    from infi.instruct.buffer.reference import Reference, FuncCallReference

    class Leaf(Reference):
        def __init__(self, index, numeric):
            super(Leaf, self).__init__(numeric)
            self.index = index

        def evaluate(self, ctx):
            counts[self.index, ctx.which, "try"] = counts.get((self.index, ctx.which, "try"), 0) + 1
            if ctx.boom and self.index == case["boom"]:
                raise Boom()
            counts[self.index, ctx.which] = counts.get((self.index, ctx.which), 0) + 1
            return case["nodes"][self.index][1][ctx.which]

        def __safe_repr__(self):
            return "leaf%d" % self.index

    class FuncLeaf(Reference):
        """a reference to a function"""
        def __init__(self, fn):
            super(FuncLeaf, self).__init__(False)
            self.fn = fn

        def evaluate(self, ctx):
            return self.fn

        def __safe_repr__(self):
            return "func"

    refs = []

    def wrap(i):
        return Reference.to_ref(refs[i]) if not isinstance(refs[i], Reference) else refs[i]

    for i, n in enumerate(case["nodes"]):
        if n[0] in ("leaf", "seq"):
            refs.append(Leaf(i, n[0] == "leaf"))
        elif n[0] == "const":
            refs.append(n[1])
        elif n[0] == "bin":
            a, b = refs[n[2]], refs[n[3]]
            if not isinstance(a, Reference) and not isinstance(b, Reference):
                a = wrap(n[2])
            refs.append(OPS[n[1]](a, b))
        elif n[0] == "neg":
            refs.append(-wrap(n[1]))
        elif n[0] == "cast":
            refs.append(num_ref(wrap(n[1])))
        elif n[0] == "len":
            refs.append(len_ref(refs[n[1]]))
        elif n[0] in ("min", "max"):
            refs.append((min_ref if n[0] == "min" else max_ref)(*[refs[j] for j in n[1]]))
        else:
            fn = counted(counts, i, FUNCS[n[1]])
            refs.append(FuncCallReference(True, FuncLeaf(fn) if n[4] else fn, refs[n[2]],
                                          **dict((k, refs[j]) for k, j in n[3].items())))
        expect(n[0] == "const" or isinstance(refs[-1], Reference), "%r is not a reference: %r", n, refs[-1])
        if n[0] in ("bin", "neg", "cast", "len", "min", "max"):
            expect(refs[-1].is_numeric(), "%r is not numeric", n)
    return [r if isinstance(r, Reference) else Reference.to_ref(r) for r in refs]


def counted(counts, i, f):
    def fn(*args, **kw):
        counts[i, "calls"] = counts.get((i, "calls"), 0) + 1
        return f(*args, **kw)
    return fn


def check(case):
    if case["kind"] == "graph":
        return check_graph(case)
    if case["kind"] == "call":
        return check_call(case)
    from infi.instruct.buffer.reference import Context

    class Ctx(Context):
        def __init__(self, which):
            super(Ctx, self).__init__()
            self.which, self.boom = which, False

    m = Model(case)
    counts = {}
    refs = call("building %r" % (case["nodes"],), build, case, counts)
    ctxs = [Ctx(0), Ctx(1)]
    seen = {}
    for node, c, boom in case["steps"]:
        ctx = ctxs[c]
        ctx.boom = boom
        what = "node %d of %r in context %d" % (node, case["nodes"], c)
        allowed = m.errors(node, c)
        if boom and case["boom"] in m.below(node) and not counts.get((case["boom"], c)):
            if case["nodes"][case["boom"]][0] in ("leaf", "seq"):
                allowed = allowed | {Boom}
        try:
            got = refs[node].deref(ctx)
        except Exception as e:
            expect(type(e) in allowed, "%s raised %s (%s), expected %s", what, type(e).__name__, first_line(e),
                   "one of %s" % sorted(x.__name__ for x in allowed) if allowed else short(m.value(node, c)[0]))
        else:
            expect(not allowed, "%s gave %s, expected one of %s", what, short(got), sorted(x.__name__ for x in allowed))
            want = m.value(node, c)[0]
            expect(type(got) is type(want) and same(got, want), "%s gave %s, expected %s", what, short(got), short(want))
            if (node, c) in seen:
                expect(got is seen[node, c] or same(got, seen[node, c]), "%s changed within the operation", what)
            seen[node, c] = got
        for i, n in enumerate(case["nodes"]):
            if n[0] in ("leaf", "seq"):
                expect(counts.get((i, c), 0) <= 1, "%s: leaf %d evaluated %d times", what, i, counts.get((i, c), 0))
            if n[0] == "func" and not m.value(i, 0)[1] and not m.value(i, 1)[1]:
                expect(counts.get((i, "calls"), 0) <= 2, "%s: function of node %d called %d times in two operations",
                       what, i, counts.get((i, "calls"), 0))


# ------------------------------------------------------------------ calls
def check_call(case):
    import infi.instruct.buffer as B
    from infi.instruct.buffer.reference import Reference, FuncCallReference, Context, PackContext
    calls = []

    def record(*args, **kwargs):
        calls.append((args, kwargs))
        return case["result"]

    f0, f1 = [B.uint_field(where=B.bytes_ref[i]) for i in range(2)]
    made = [f0, f1]

    def ref(a):
        if a[0] == "value":
            return a[1]
        if a[0] == "attr":
            return getattr(B.self_ref, a[1])
        s = getattr(B.self_ref, "f%d" % a[1])
        return [made[a[1]], B.num_ref(made[a[1]]), s, B.num_ref(s)][a[2]]

    def val(a):
        return {"value": lambda: a[1], "attr": lambda: {"mode": 77, "text": "some"}[a[1]], "field": lambda: case["values"][a[1]]}[a[0]]()

    args, kwargs = [ref(a) for a in case["args"]], dict((k, ref(a)) for k, a in case["kwargs"].items())
    want = tuple(val(a) for a in case["args"]), dict((k, val(a)) for k, a in case["kwargs"].items())
    attrs = dict(f0=f0, f1=f1, mode=77, text="some", rec=lambda self, *a, **k: record(*a, **k))
    what = "a call of %s with %s %s" % (case["how"], short(case["args"]), short(case["kwargs"]))
    if case["how"] == "direct":
        r = FuncCallReference(False, Reference.to_ref(record) if case["ref_func"] else record, *args, **kwargs)
    else:
        r = getattr(B.self_ref, "rec")(*args, **kwargs)
    if case["how"] != "unpack":
        attrs["x"] = B.uint_field(where=B.bytes_ref[2], set_before_pack=r)
    else:
        attrs["x"] = B.uint_field(where=B.bytes_ref[2], set_after_unpack=r)
    cls = call("declaring the class", type(B.Buffer), "Calls", (B.Buffer,), attrs)
    data = bytes(bytearray(case["values"] + [case["result"]]))
    if case["how"] == "unpack":
        o = cls()
        call(what + " in unpack", o.unpack, data[:2] + b"\x55")
    else:
        o = cls(f0=case["values"][0], f1=case["values"][1])
        got = bytes(call(what + " in pack", o.pack))
        expect(got == data, "%s: packed %s, expected %s", what, short(got), short(data))
    expect(o.x == case["result"], "%s gave %s", what, short(o.x))
    expect(len(calls) == 1 and same(list(calls[0][0]), list(want[0])) and same(calls[0][1], want[1]), "%s: called with %s, expected %s", what, short(calls), short(want))


# ------------------------------------------------------------------ dependency graphs
def reaches_cycle(deps, root):
    state = {}

    def visit(i):
        if state.get(i) == 1:
            return True
        if state.get(i) == 2:
            return False
        state[i] = 1
        r = any(visit(j) for j in deps[i])
        state[i] = 2
        return r
    return visit(root)


def check_graph(case):
    from infi.instruct import InstructError
    from infi.instruct.buffer.reference import Context, Reference, CyclicReferenceError
    deps, values = case["deps"], case["values"]
    n = len(deps)
    counts = {}

    class Ctx(Context):
        def __init__(self, which):
            super(Ctx, self).__init__()
            self.which = which

    class Node(Reference):
        def __init__(self, index):
            super(Node, self).__init__(True)
            self.index = index

        def evaluate(self, ctx):
            r = values[ctx.which * n + self.index]
            for j in deps[self.index]:
                r += nodes[j].deref(ctx)
            counts[self.index, ctx.which] = counts.get((self.index, ctx.which), 0) + 1
            return r

        def __safe_repr__(self):
            return "node%d" % self.index

    nodes = [Node(i) for i in range(n)]

    def model(i, c):
        return values[c * n + i] + sum(model(j, c) for j in deps[i])

    ctxs = [Ctx(0), Ctx(1)]
    for root, c in case["steps"]:
        what = "node %d of graph %r in context %d" % (root, deps, c)
        if reaches_cycle(deps, root):
            try:
                r = nodes[root].deref(ctxs[c])
            except CyclicReferenceError as e:
                expect(isinstance(e, InstructError), "the cyclic reference error is not an InstructError")
                call("str of the error", str, e)
            except Exception as e:
                raise Violation("%s raised %s instead of a cyclic reference error" % (what, type(e).__name__))
            else:
                raise Violation("%s depends on itself but gave %s" % (what, short(r)))
        else:
            r = call(what, nodes[root].deref, ctxs[c])
            expect(r == model(root, c), "%s gave %r, expected %r", what, r, model(root, c))
        for i in range(n):
            expect(counts.get((i, c), 0) <= 1, "%s: node %d evaluated %d times", what, i, counts.get((i, c), 0))
