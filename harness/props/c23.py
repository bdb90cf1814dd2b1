"""C23: printing is total and reflects context settings; context reaches every nested part.

struct   a random struct in a random state (new, partly set, wrongly set, read but not looked at, read and looked at, read from
         altered bytes) is printed with formats from class contexts and/or the call: it never fails, changes nothing, and shows
         every name with its value, in declaration order, recursively
context  the same with marshals that record the context they are given, over writing, reading (also late, by lazy groups) and
         printing: call values everywhere, else class values; the caller's and the classes' contexts are not modified
buffer   a random Buffer (fixed, dynamic, conditional) in a random state: every name with its value, nothing changed
"""
import re
from common import call, expect, expect_same, same, short
import bufdyn as bd
import bufstatic as bs
import structmodel as sm
from props import c07

INT_FORMATS = ["%d", "0x%x", "%05d", "<%o>", "%X", "int:%d"]
FLOAT_FORMATS = ["%f", "%.3f", "%e", "%g", "float:%.1f"]
KEYS = ["int_repr_format", "float_repr_format", "k1", "k2"]
BAD = [None, "text", b"bytes", -1, 1.5, 1 << 90, [], [None], [1, "x"], {}, True]


def gen(d):
    k = d.weighted([(3, "struct"), (3, "context"), (2, "buffer")])
    return gen_buffer(d) if k == "buffer" else gen_struct(d, k)


def gen_ctx(d, keys):
    out = {}
    for k in keys:
        if d.chance(2, 5):
            out[k] = d.choice(INT_FORMATS if k[0] == "i" else FLOAT_FORMATS) if k.endswith("format") else d.int(1, 9)
    return out


def gen_struct(d, mode):
    case = sm.gen_case(d, depth=d.choice([0, 1, 2, 2]), hi=4, without=("cnest",) if mode == "context" else ())
    spec = case["spec"]
    attrs, free = {}, {}

    def walk(sp, keys):
        c = gen_ctx(d, keys) if d.chance(1, 2) else {}
        if c:
            attrs[sp["name"]] = c
        rest = [k for k in keys if k not in c]
        for f in sp["fields"]:
            for m in marshals(f):
                for sub in subspecs(m):
                    walk(sub, rest)
    walk(spec, KEYS)
    names = [f["name"] for f, c in sm.named(spec) if not c]
    case.update(mode=mode, class_ctx=attrs, ctxs=[gen_ctx(d, KEYS) for _ in range(2)], writable=d.bool(),
                inherit=d.chance(1, 4),
                state=d.choice(["new", "partial", "bad", "read", "read", "looked", "altered"]) if mode == "struct" else "context",
                names=[n for n in names if d.bool()], bad=[d.int(0, len(BAD) - 1) for _ in range(4)], at=d.int(0, 10 ** 6), flip=d.int(1, 255),
                via=d.choice(["string", "stream"]))
    return case


def marshals(f):
    """every marshal of a field, nested fields included"""
    if f["k"] == "lazy":
        return [m for x in f["fields"] for m in marshals(x)]
    return [f["m"]] if isinstance(f.get("m"), dict) else []


def subspecs(m):
    out = list(sm.specs_of(m))
    for k in ("m", "elem", "key"):
        if isinstance(m.get(k), dict):
            out += subspecs(m[k])
    return out


def gen_buffer(d):
    case = dict(mode="buffer", kind=d.choice(["static", "dynamic", "conditional"]), state=d.choice(["new", "partial", "full", "packed", "unpacked", "bad"]),
                bad=[d.int(0, len(BAD) - 1) for _ in range(4)])
    if case["kind"] == "static":
        case["layout"] = bs.gen_layout(d, 1)
        case["values"] = bs.gen_values(d, case["layout"])
        names = [f["name"] for f in case["layout"]["fields"]]
    elif case["kind"] == "dynamic":
        case["spec"] = bd.gen_spec(d, 1, True)
        case["values"] = bd.gen_values(d, case["spec"])
        names = list(bd.field_names(case["spec"]))
    else:
        case["c07"] = c07.gen(d, False)
        case["values"] = {}
        names = []
    case["names"] = [n for n in names if d.bool()]
    return case


def classify(case):
    if case["mode"] == "buffer":
        return ["buffer", case["kind"], "state-" + case["state"]], True
    l = {case["mode"], "state-" + case["state"]} | sm.labels(case["spec"])
    if case["class_ctx"]:
        l.add("class-context")
    return l, bool(case["spec"]["fields"])


# ---------------------------------------------------------------- expected text
def tokens(m, v, ctx, cc, looked):
    """the texts that have to appear, in order, for a value"""
    k = m["k"]
    if k == "num":
        return [number(m["t"], v, ctx)]
    if k in ("pstr", "fbuf", "vstr", "vbuf", "map"):
        return [repr(v)]
    if k in ("farr", "varr", "sarr"):
        return [t for x in v for t in tokens(m["elem"], x, ctx, cc, looked)]
    if k == "nest":
        return struct_tokens(m["spec"], v, ctx, cc, looked)
    return struct_tokens(sm.case_of(m, v), v["v"], ctx, cc, looked)


def number(t, v, ctx):
    if sm.num_info(t)[1] == "float":
        return ctx.get("float_repr_format", "%f") % v
    return ctx.get("int_repr_format", "%d") % v


def struct_tokens(spec, vals, ctx, cc, looked):
    ctx = dict(cc.get(spec["name"], {}), **ctx)
    out = [spec["name"] + "("]

    def go(fields, vals):
        for f in fields:
            k = f["k"]
            if k == "lazy":
                if looked:
                    go(f["fields"], vals)
            elif k in ("bits", "pbits"):
                for i in f["items"]:
                    if i.get("kind") == "pad":
                        continue
                    v = i["value"] if i.get("kind") == "const" else vals.get(i["name"])
                    out.append(i["name"] + "=" + ("" if v is None or isinstance(v, Unknown) else number("UBInt8", v, ctx)))
            elif k != "pad":
                v = f["value"] if k == "const" else f["fixed"] if f.get("const") else vals.get(f["name"])
                if isinstance(v, Unknown):
                    out.append(f["name"] + "=")
                    continue
                ts = tokens(f["m"], v, ctx, cc, True if k == "const" else looked) if v is not None else []
                if ts:
                    out.append(f["name"] + "=" + (ts[0] if f["m"]["k"] not in ("farr", "varr", "sarr") else ""))
                    out.extend(ts[1:] if f["m"]["k"] not in ("farr", "varr", "sarr") else ts)
                else:
                    out.append(f["name"] + "=")
    go(spec["fields"], vals)
    return out


class Unknown(object):
    """a value that only has to be printed somehow"""


def verify_text(text, toks, what):
    expect(isinstance(text, str), "%s is %s", what, short(text))
    at = 0
    for t in toks:
        while True:
            i = text.find(t, at)
            expect(i >= 0, "%s does not show %s after position %d: %s", what, short(t), at, short(text, 2000))
            end = i + len(t)
            if (re.match(r"\w", t[-1:]) and re.match(r"[\w.]", text[end:end + 1])) or (re.match(r"\w", t[:1]) and i and re.match(r"[\w.]", text[i - 1])):
                at = i + 1
                continue
            at = end
            break


# ---------------------------------------------------------------- structs
class Recorder(sm.Real):
    """marshals of numbers note every context they are given"""

    def __init__(self, spec, attrs):
        self.log = []
        self.owners = []
        super(Recorder, self).__init__(spec, attrs=attrs)

    def struct(self, spec):
        if spec["name"] in self.classes:
            return self.classes[spec["name"]]
        self.owners.append(spec["name"])
        try:
            return super(Recorder, self).struct(spec)
        finally:
            self.owners.pop()

    def num(self, t):
        return recording(sm.Real.num(self, t), self.log, tuple(self.owners))

    def macro(self, name, m, default):
        if m["k"] == "num":
            return self.I.Field(name, self.num(m["t"]), default)
        return super(Recorder, self).macro(name, m, default)


def recording(marshal, log, owners):
    from infi.instruct.base import Marshal, FixedSizer

    class Recording(FixedSizer, Marshal):
        def __init__(self):
            self.size = marshal.min_max_sizeof().min

        def create_from_stream(self, stream, context=None, *args, **kwargs):
            log.append((owners, "read", context))
            return marshal.create_from_stream(stream, context, *args, **kwargs)

        def write_to_stream(self, obj, stream, context=None):
            log.append((owners, "write", context))
            return marshal.write_to_stream(obj, stream, context)

        def to_repr(self, obj, context=None):
            log.append((owners, "print", context))
            return marshal.to_repr(obj, context)
    return Recording()


class Wrong(object):
    """attribute values that cannot be written"""

    def __init__(self, real, spec):
        self.real, self.spec = real, spec

    def apply(self, o, case):
        vals = dict(case["values"][0])
        for j, n in enumerate(case["names"]):
            setattr(o, n, BAD[case["bad"][j % 4]])
            vals[n] = Unknown()
        return vals


def caller_context(case, ctx):
    from infi.instruct.base import ReadOnlyContext, WritableContext
    return (WritableContext if case["writable"] else ReadOnlyContext)(dict(ctx))


def check_struct(case):
    spec, cc = case["spec"], case["class_ctx"]
    class_dicts = dict((n, dict(c)) for n, c in cc.items())
    attrs = dict((n, {"_context_": class_dicts[n]}) for n in cc)
    recording_ = case["mode"] == "context"
    real = call("declaring the classes", Recorder if recording_ else sm.Real, spec, attrs=attrs)
    if case["inherit"]:
        real.cls = real.classes[spec["name"]] = type(real.I.Struct)(spec["name"], (real.cls,), {})
    if recording_:
        check_context(case, real)
    else:
        o, vals, looked = make_state(case, real)
        if o is None:
            return
        before = snapshot(o)
        for ctx in [None] + case["ctxs"]:
            toks = struct_tokens(spec, vals, ctx or {}, cc, looked)
            if ctx is None:
                text = call("repr of a struct (%s)" % case["state"], repr, o)
                verify_text(text, toks, "repr")
                expect(call("repr", repr, o) == text, "printing twice gives different texts")
            else:
                c = caller_context(case, ctx)
                text = call("to_repr of a struct (%s) with %s" % (case["state"], ctx), real.cls.to_repr, o, c)
                verify_text(text, toks, "to_repr with %s" % ctx)
                expect(same(c.get_dict(), ctx), "the caller's context became %s", short(c.get_dict()))
            if looked:
                for name, n in names_shown(toks).items():
                    got = len(re.findall(r"\b%s=" % name, text))
                    expect(got >= n, "%s is shown %d times instead of %d: %s", name, got, n, short(text, 2000))
        expect(snapshot(o) == before, "printing changed the object")
        if looked and case["state"] in ("read", "looked"):
            expect_same(real.extract(spec, o), sm.canon_struct(spec, case["values"][0]), "values after printing")
        if case["state"] in ("read", "looked"):
            expect_same(call("to_bytes", o.to_bytes), sm.enc_struct(spec, case["values"][0]), "bytes after printing")
    for n, c in cc.items():
        expect(same(class_dicts[n], c), "the context of class %s became %s", n, short(class_dicts[n]))


def names_shown(toks):
    out = {}
    for t in toks:
        m = re.match(r"(f\d+)=", t)
        if m:
            out[m.group(1)] = out.get(m.group(1), 0) + 1
    return out


def snapshot(o):
    return sorted((k, short(v, 3000)) for k, v in vars(o).items())


def make_state(case, real):
    spec, state = case["spec"], case["state"]
    vals = case["values"][0]
    consts = set(f["name"] for f, c in sm.named(spec) if c)
    if state == "new":
        return call("constructor", real.cls), {}, True
    if state == "partial":
        return call("constructor", real.cls, **real.kwargs(spec, vals, case["names"])), \
            dict((n, canon_given(spec, n, vals)) for n in case["names"]), True
    if state == "bad":
        o = real.new(vals)
        return o, dict(canon_all(spec, vals), **dict((n, v) for n, v in Wrong(real, spec).apply(o, case).items() if isinstance(v, Unknown))), True
    data = sm.enc_struct(spec, vals)
    if state == "altered":
        if not data:
            return None, None, None
        i = case["at"] % len(data)
        data = data[:i] + bytes([data[i] ^ case["flip"]]) + data[i + 1:]
        try:
            o = real.cls.create_from_string(data)
        except Exception:
            return None, None, None
        call("repr of a struct read from %s" % short(data), repr, o)
        for f, c in sm.named(spec):
            try:
                getattr(o, f["name"])
            except Exception:
                pass
        call("repr of a struct read from %s" % short(data), repr, o)
        return None, None, None
    o = call("create_from_string", real.cls.create_from_string, data)
    if state == "looked":
        expect_same(real.extract(spec, o), sm.canon_struct(spec, vals), "values read")
    # only what was read is known: strings are stripped
    return o, sm.canon_struct(spec, vals), state == "looked"


def canon_given(spec, name, vals):
    return canon_all(spec, vals)[name]


def canon_all(spec, vals):
    return sm.canon_struct(spec, vals, True)


# ---------------------------------------------------------------- context
def check_context(case, real):
    spec, cc, log = case["spec"], case["class_ctx"], real.log
    vals = case["values"][0]
    data = sm.enc_struct(spec, vals)

    def verify(ctx, what):
        """the recorded contexts of one operation"""
        seen_contexts = log[:]
        del log[:]
        for owners, kind, seen in seen_contexts:
            if kind == "print" and not what.startswith("printing"):
                continue  # by the message of an assertion of the check
            expect(seen is not None, "%s: a number of %s was %s without a context", what, owners[-1], kind)
            want = {}
            for n in reversed(owners):
                want.update(cc.get(n, {}))
            want.update(ctx)
            got = dict((k, seen.get(k, None)) for k in KEYS)
            expect(same(got, dict((k, want.get(k)) for k in KEYS)), "%s: a number of %s saw the context %s instead of %s", what, owners[-1], short(got), short(want))
            st = seen.get("struct", None)
            expect(type(st).__name__ == owners[-1], "%s: a number of %s saw the struct %s", what, owners[-1], type(st).__name__)

    o = real.new(vals)
    del log[:]
    for ctx in case["ctxs"]:
        c = caller_context(case, ctx)
        what = "writing with %s" % ctx
        if case["via"] == "string":
            got = call(what, real.cls.write_to_string, o, c)
        else:
            sink = sm.Sink()
            call(what, real.cls.write_to_stream, o, sink, c)
            got = sink.data
        expect_same(got, data, what)
        verify(ctx, what)
        expect(same(c.get_dict(), ctx), "%s: the caller's context became %s", what, short(c.get_dict()))
        what = "reading with %s" % ctx
        if case["via"] == "string":
            r = call(what, real.cls.create_from_string, data, c)
        else:
            r = call(what, real.cls.create_from_stream, sm.Stream(data), c)
        expect(same(c.get_dict(), ctx), "%s: the caller's context became %s", what, short(c.get_dict()))
        if case["writable"]:
            for k in KEYS:
                c.put(k, "changed later")  # what is read late was called with the context of the call
        expect_same(real.extract(spec, r), sm.canon_struct(spec, vals), what)
        verify(ctx, what)
        what = "printing with %s" % ctx
        c = caller_context(case, ctx)
        text = call(what, real.cls.to_repr, r, c)
        verify(ctx, what)
        verify_text(text, struct_tokens(spec, sm.canon_struct(spec, vals), ctx, cc, True), what)
        expect(same(c.get_dict(), ctx), "%s: the caller's context became %s", what, short(c.get_dict()))
    call("repr", repr, o)
    verify({}, "printing without a context")
    call("to_bytes", o.to_bytes)
    verify({}, "writing without a context")


# ---------------------------------------------------------------- buffers
def check_buffer(case):
    from infi.instruct.buffer import Buffer
    state, kind = case["state"], case["kind"]
    if kind == "conditional":
        cls = call("declaring the class", lambda: c07.build(case["c07"])[0])
        o = call("constructor", cls)
        objs = [o]
        if state != "new":
            p = cls()
            p.mode = case["c07"]["mode"]
            try:
                p.unpack(bytes(bytearray(64)))
            except Exception:
                pass  # what was read so far is printed
            objs.append(p)
    else:
        real = call("declaring the class", bs.Real, case["layout"]) if kind == "static" else call("declaring the class", bd.Real, case["spec"])
        if kind == "dynamic" and not bd.representable(case["spec"], case["values"]):
            return
        cls = real.cls
        if state == "new" or state == "unpacked":
            o = call("constructor", cls)
        else:
            o = call("constructor", real.make, case["values"])
        if state == "partial":
            p = call("constructor", cls)
            for n in case["names"]:
                setattr(p, n, getattr(o, n))
            o = p
        elif state == "bad":
            for j, n in enumerate(case["names"]):
                setattr(o, n, BAD[case["bad"][j % 4]])
        elif state == "packed":
            call("pack", o.pack)
        elif state == "unpacked":
            data = bs.pack(case["layout"], case["values"]) if kind == "static" else bd.encode(case["spec"], case["values"])
            call("unpack", o.unpack, data)
        objs = [o]
    for o in objs:
        verify_buffer(o, "a %s buffer (%s)" % (kind, state), 0)


def verify_buffer(o, what, depth):
    from infi.instruct.buffer import Buffer
    names = field_names(type(o))
    before = dict((n, short(getattr(o, n), 3000)) for n in names)
    text = call("repr of " + what, repr, o)
    expect(isinstance(text, str), "repr of %s is %s", what, short(text))
    for n in names:
        v = getattr(o, n)
        expect(re.search(r"(?<!\w)%s=%s" % (n, re.escape(repr(v))), text) is not None,
               "repr of %s does not show %s=%s: %s", what, n, short(v), short(text, 2000))
    expect(type(o).__name__ in text, "repr of %s does not name its class: %s", what, short(text, 2000))
    expect(before == dict((n, short(getattr(o, n), 3000)) for n in names), "printing changed %s", what)
    expect_same(call("repr of " + what, repr, o), text, "second repr of %s", what)
    for n in names:
        v = getattr(o, n)
        for x in v if isinstance(v, list) else [v]:
            if isinstance(x, Buffer) and depth < 3:
                verify_buffer(x, "field %s of %s" % (n, what), depth + 1)


def field_names(cls):
    """the declared names, from the class bodies"""
    from infi.instruct.buffer.reference import FieldReference
    out = []
    for c in cls.__mro__:
        for n, v in vars(c).items():
            if isinstance(v, FieldReference) and n not in out:
                out.append(n)
    return out


def check(case):
    if case["mode"] == "buffer":
        check_buffer(case)
    else:
        check_struct(case)
