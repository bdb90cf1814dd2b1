"""C28: contexts are mappings with copies of their own, and using one never changes it.

A history over a pool of contexts (read-only and writable, made empty, from a dict or as a copy of another one) against
plain dicts: get with defaults, put, update, remove, writable copies, the dict of a context (then changed by the caller),
and reading, writing, printing and sizing structs with it, whose marshals put values into the context they are given.
"""
from common import call, expect, same, short, first_line

KEYS = ["a", "b", "int_repr_format", "struct", "", 0, None]
VALUES = [None, 0, 1, "", "text", False, True, [], [1], {"k": 1}, 2.5, b"x", ()]


def gen(d):
    ops, n = [], 0
    keys = lambda: d.choice(range(len(KEYS)))
    pairs = lambda: [[keys(), d.choice(range(len(VALUES)))] for _ in range(d.choice([0, 0, 1, 2, 3]))]
    for _ in range(d.int(2, 12)):
        k = d.weighted([(5, "new")] if not n else [(2, "new"), (3, "copy"), (3, "put"), (2, "update"), (2, "remove"), (2, "dict"), (3, "use")])
        if k == "new":
            ops.append([k, d.choice(["ro", "rw", "ro-empty", "rw-empty", "rw-none", "empty"]), pairs()])
            n += 1
        elif k == "copy":
            ops.append([k, d.int(0, n - 1), pairs(), d.choice(["arg", "noarg", "kw"])])
            n += 1
        elif k == "put":
            ops.append([k, d.int(0, n - 1), keys(), d.choice(range(len(VALUES)))])
        elif k == "update":
            ops.append([k, d.int(0, n - 1), pairs()])
        elif k == "remove":
            ops.append([k, d.int(0, n - 1), keys()])
        elif k == "dict":
            ops.append([k, d.int(0, n - 1), pairs()])
        else:
            ops.append([k, d.int(0, n - 1), d.choice(["read", "write", "print", "sizeof", "bytes"]), keys(), d.choice(range(len(VALUES))), d.bool()])
    return dict(ops=ops, cls_context=pairs() if d.bool() else None, nested=d.bool())


def classify(case):
    l = set(op[0] for op in case["ops"]) | set("new-" + op[1] for op in case["ops"] if op[0] == "new") | set("use-" + op[2] for op in case["ops"] if op[0] == "use")
    return l, len(case["ops"]) > 2


def mk(pairs):
    out = {}
    for k, v in pairs:
        out[KEYS[k]] = VALUES[v]
    return out


def equal(a, b):
    return len(a) == len(b) and all(k in b and (a[k] is b[k] or same(a[k], b[k])) for k in a)


def check(case):
    import infi.instruct as I
    from infi.instruct.base import ReadOnlyContext, WritableContext, EMPTY_CONTEXT, Marshal, FixedSizer
    seen, current = [], [None, None]

    class Meddler(FixedSizer, Marshal):
        size = 1

        def touch(self, context):
            seen.append(context.get_dict())
            if current[0] is not None:
                context.put(*current)

        def create_from_stream(self, stream, context=EMPTY_CONTEXT, *args, **kwargs):
            self.touch(context)
            return bytearray(stream.read(1))[0]

        def write_to_stream(self, obj, stream, context=EMPTY_CONTEXT):
            self.touch(context)
            stream.write(bytes(bytearray([obj])))

        def to_repr(self, obj, context=EMPTY_CONTEXT):
            self.touch(context)
            return "%d" % obj

    meta = type(I.Struct)
    attrs = {"_fields_": [I.Field("x", Meddler())]}
    cls_context = mk(case["cls_context"]) if case["cls_context"] is not None else None
    if cls_context is not None:
        attrs["_context_"] = dict(cls_context)
    cls = inner = meta("Inner", (I.Struct,), attrs)
    if case["nested"]:
        cls = meta("Outer", (I.Struct,), {"_fields_": [I.Field("i", inner), I.UBInt8("y"), I.Field("j", inner)]})
    data = b"\1\2\3" if case["nested"] else b"\1"
    make = lambda: cls(i=inner(x=1), y=2, j=inner(x=3)) if case["nested"] else cls(x=1)
    pool = []

    def verify(what):
        for i, (c, model, kind) in enumerate(pool):
            got = call("get_dict", c.get_dict)
            expect(isinstance(got, dict) and equal(got, model), "after %s: context %d has %s, expected %s", what, i, short(got), short(model))
            for k in KEYS + ["absent"]:
                marker = object()
                g = call("get(%r)" % (k,), c.get, k, marker)
                expect((g is marker) if k not in model else (g is model[k] or same(g, model[k])), "after %s: get(%r) of context %d is %s, expected %s", what, k, i,
                       short(g), short(model.get(k, "the default")))
            text = call("repr", repr, c)
            expect(isinstance(text, str) and all(str(k) in text for k in model), "the printed form of a context is %s", short(text))
        expect(EMPTY_CONTEXT.get_dict() == {}, "after %s: the empty context has %s", what, short(EMPTY_CONTEXT.get_dict()))
        if cls_context is not None:
            expect(equal(inner._context_, cls_context), "after %s: the context of the class is %s, expected %s", what, short(inner._context_), short(cls_context))

    for op in case["ops"]:
        what = short(op)
        k = op[0]
        if k == "new":
            m = mk(op[2])
            if op[1] == "ro":
                pool.append((call("ReadOnlyContext", ReadOnlyContext, dict(m)), m, "ro"))
            elif op[1] == "rw":
                pool.append((call("WritableContext", WritableContext, dict(m)), m, "rw"))
            elif op[1] == "ro-empty":
                pool.append((call("ReadOnlyContext", ReadOnlyContext), {}, "ro"))
            elif op[1] == "empty":
                pool.append((EMPTY_CONTEXT, {}, "ro"))
            else:
                pool.append((call("WritableContext", WritableContext, *([None] if op[1] == "rw-none" else [])), {}, "rw"))
        elif k == "copy":
            c, m, _ = pool[op[1]]
            extra = mk(op[2]) if op[3] != "noarg" else {}
            given = dict(extra)
            new = call("writable_copy", c.writable_copy, *([] if op[3] == "noarg" else [given]))
            expect(equal(given, extra), "writable_copy changed its argument to %s", short(given))
            pool.append((new, dict(m, **{}), "rw"))
            pool[-1][1].update(extra)
        elif k == "dict":
            c, m, _ = pool[op[1]]
            got = call("get_dict", c.get_dict)
            expect(equal(got, m), "get_dict is %s, expected %s", short(got), short(m))
            got.update(mk(op[2]))
            got["absent"] = 1
            if op[2] == []:
                got.clear()
        elif k == "use":
            c, m, _ = pool[op[1]]
            current[:] = [KEYS[op[3]] if KEYS[op[3]] not in ("struct",) else "a", VALUES[op[4]]]
            if current[0] is None or not op[5]:
                current[:] = [None, None]
            del seen[:]
            o = make()
            how = op[2]
            if how == "read":
                o = call("create_from_string", cls.create_from_string, data, c)
                expect(call("to_bytes", o.to_bytes) == data, "read %s", short(o))
            elif how == "write":
                got = call("write_to_string", cls.write_to_string, o, c)
                expect(got == data, "written %s, expected %s", short(got), short(data))
            elif how == "print":
                # (the settings of a number's format may be anything here; what is printed is decided by C23)
                call("to_repr", cls.to_repr, o, c)
            elif how == "sizeof":
                expect(call("sizeof", cls.sizeof, o) == len(data), "sizeof")
            else:
                expect(call("to_bytes", o.to_bytes) == data, "to_bytes")
            for s in seen[:2 if case["nested"] else 1] if how in ("read", "write", "print") else []:
                want = dict(cls_context or {})
                want.update(m)
                got = dict((x, v) for x, v in s.items() if x != "struct")
                want.pop("struct", None)
                expect(equal(got, want), "%s: the marshal's context is %s, expected %s", what, short(got), short(want))
        else:
            c, m, kind = pool[op[1]]
            if kind == "ro":
                continue
            if k == "put":
                call("put", c.put, KEYS[op[2]], VALUES[op[3]])
                m[KEYS[op[2]]] = VALUES[op[3]]
            elif k == "update":
                given = mk(op[2])
                call("update", c.update, given)
                expect(equal(given, mk(op[2])), "update changed its argument to %s", short(given))
                m.update(mk(op[2]))
            else:
                key = KEYS[op[2]]
                if key in m:
                    call("remove(%r)" % (key,), c.remove, key)
                    del m[key]
                else:
                    try:
                        c.remove(key)
                    except Exception:
                        pass
                    else:
                        expect(False, "removing the absent %r is accepted", key)
        verify(what)
