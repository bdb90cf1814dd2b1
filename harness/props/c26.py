"""C26: threads that work on different objects do not disturb each other.

Two or three threads run histories of operations on objects of their own, of classes they share (fixed and dynamic
buffers with hooks, structs with lazy groups, selectors, user marshals and user constructors).  A scheduler lets one thread
run at a time and hands over after a generated number of executed lines of the library, so every schedule is
deterministic.  Every outcome and every state must be the same as when each object's operations run alone.
"""
import os
import sys
import threading
from common import call, expect, expect_same, same, short, Discard, HarnessError, REPO_SRC
import bufdyn as bd
import bufstatic as bs
import structmodel as sm
from props import c09

LIB = os.path.join(REPO_SRC, "infi", "instruct") + os.sep


def gen(d):
    kind = d.choice(["buffer", "buffer", "struct"])
    threads = d.int(2, 3)
    if kind == "buffer":
        classes = []
        for _ in range(d.int(1, 2)):
            if d.chance(2, 3):
                spec = bd.gen_spec(d, 1, True)
                classes.append(dict(kind="dynamic", spec=spec, values=[bd.gen_values(d, spec) for _ in range(2)]))
                spec["parts"].insert(0, {"p": "scalar", "name": d.choice(["A0", "hook", "zzz"]), "t": dict(bd.UINT, bits=8, endian="big"),
                                         "const": c09.HOOK_VALUE, "hook": True, "form": d.int(0, 1000)})
                for v in classes[-1]["values"]:
                    v[spec["parts"][0]["name"]] = c09.HOOK_VALUE
            else:
                layout = bs.gen_layout(d, 1, 4)
                layout["byte_size"] = None
                for f in layout["fields"]:
                    f["default"] = [bs.gen_value(d, f["t"])] if d.chance(1, 2) else None
                classes.append(dict(kind="static", layout=layout, hook=d.choice(["A0", "hook", "zzz"]), values=[bs.gen_values(d, layout) for _ in range(2)]))
    else:
        g = sm.G(d)
        spec = g.struct(d.choice([0, 1, 2]), False, 1, 5)
        classes = [dict(kind="struct", spec=spec, values=[g.svalue(spec) for _ in range(2)])]
    slots = [d.int(0, len(classes) - 1) for _ in range(threads)]
    ops = []
    for t in range(threads):
        mine = []
        for i in range(d.int(1, 3)):
            c = classes[slots[t]]
            if kind == "buffer":
                op = c09.gen_op(d, t, c, threads)
            else:
                op = dict(op=d.choice(["read", "read", "write", "new", "set", "sizeof", "repr"]), slot=t, v=d.int(0, 1), pick=d.int(0, 7),
                          cut=d.int(0, 12) if d.chance(1, 5) else None)
            if i == 0 and op["op"] not in ("new", "read"):
                mine.append(dict(op="new", slot=t, v=d.int(0, 1), pick=0, cut=None))
            mine.append(op)
        ops.append(mine)
    schedule = []
    for _ in range(d.int(2, 12)):
        schedule.append([d.choice([d.int(1, 12), d.int(1, 60), d.int(1, 400)]), d.int(0, 1)])
    return dict(kind=kind, classes=classes, slots=slots, ops=ops, schedule=schedule)


def classify(case):
    labels = {case["kind"], "threads-%d" % len(case["slots"])}
    for c in case["classes"]:
        labels.add("class-" + c["kind"])
    for mine in case["ops"]:
        labels |= set("op-" + o["op"] for o in mine)
    if len(set(case["slots"])) < len(case["slots"]):
        labels.add("shared-class")
    return sorted(labels), "shared-class" in labels


# ------------------------------------------------------------------ scheduler
class Scheduler(object):
    """Runs tasks in threads, one at a time; hands over after a given number of lines of the library."""

    def __init__(self, tasks, schedule):
        self.tasks, self.schedule = tasks, schedule
        self.live = list(range(len(tasks)))
        self.turns = [threading.Semaphore(0) for _ in tasks]
        self.over = threading.Semaphore(0)
        self.at = 0
        self.left = schedule[0][0]
        self.switches = 0
        self.errors = []

    def run(self):
        ts = [threading.Thread(target=self.body, args=(i,)) for i in range(len(self.tasks))]
        for t in ts:
            t.daemon = True
            t.start()
        self.turns[0].release()
        while not self.over.acquire(timeout=0.5):  # (a timeout, so that the signal of a hang is handled)
            pass
        for t in ts:
            t.join(5)
        for e in self.errors:
            raise e

    def body(self, i):
        self.turns[i].acquire()

        def line(frame, event, arg):
            if event == "line":
                self.tick(i)
            return line

        def enter(frame, event, arg):
            return line if frame.f_code.co_filename.startswith(LIB) else None
        sys.settrace(enter)
        try:
            self.tasks[i]()
        except BaseException as e:
            self.errors.append(e)
        finally:
            sys.settrace(None)
            k = self.live.index(i)
            self.live.remove(i)
            if self.live:
                self.turns[self.live[k % len(self.live)]].release()
            else:
                self.over.release()

    def tick(self, i):
        self.left -= 1
        if self.left > 0:
            return
        self.at = (self.at + 1) % len(self.schedule)
        self.left, step = self.schedule[self.at]
        if len(self.live) > 1:
            k = (self.live.index(i) + 1 + step) % len(self.live)
            j = self.live[k]
            if j != i:
                self.switches += 1
                self.turns[j].release()
                self.turns[i].acquire()


# ------------------------------------------------------------------ worlds
class StructWorld(object):
    def __init__(self, case):
        self.case = case
        c = case["classes"][0]
        self.spec = c["spec"]
        self.real = sm.Real(self.spec)
        self.objs = [None] * len(case["slots"])
        self.logs = [[] for _ in case["slots"]]

    def step(self, op):
        slot = op["slot"]
        try:
            out = ["ok", self.do(op, slot)]
        except HarnessError:
            raise
        except Exception as e:
            out = ["error", type(e).__name__]
        self.logs[slot].append([op["op"], out])

    def do(self, op, slot):
        cls, vals = self.real.cls, self.case["classes"][0]["values"][op["v"]]
        k, o = op["op"], self.objs[slot]
        if k == "new":
            self.objs[slot] = self.real.new(vals)
        elif k == "read":
            data = sm.enc_struct(self.spec, vals)
            if op["cut"] is not None:
                data = data[:op["cut"]]
            s = sm.TellStream(data + b"tail") if op["pick"] & 1 and op["cut"] is None else sm.Stream(data)
            self.objs[slot] = cls.create_from_stream(s)
            return s.pos
        elif o is None:
            return None
        elif k == "write":
            return cls.write_to_string(o)
        elif k == "sizeof":
            return cls.sizeof(o)
        elif k == "repr":
            return repr(o)
        elif k == "set":
            fields = [f for f, const in sm.named(self.spec) if not const and f.get("k") not in ("ptr", "opt", "key") and not f.get("flag")
                      and f["name"] not in [x.get("len") for x, c in sm.named(self.spec)]]
            if fields:
                f = fields[op["pick"] % len(fields)]
                v = vals[f["name"]]
                setattr(o, f["name"], v if "m" not in f else self.real.real_value(f["m"], v))
        return None

    def state(self, slot):
        o = self.objs[slot]
        return None if o is None else self.real.extract(self.spec, o)


class BufferWorld(c09.World):
    def state(self, slot):
        return c09.snapshot(self.objs[slot])


def check(case):
    for c in case["classes"]:
        if c["kind"] == "dynamic" and not all(bd.representable(c["spec"], v) for v in c["values"]):
            raise Discard()
    make = StructWorld if case["kind"] == "struct" else BufferWorld
    world = call("declaring the classes", make, case)
    alone = make(case)

    def task(ops):
        def run():
            for op in ops:
                world.step(op)
        return run
    Scheduler([task(ops) for ops in case["ops"]], case["schedule"]).run()
    for slot, ops in enumerate(case["ops"]):
        for op in ops:
            alone.step(op)
        for i, (a, b) in enumerate(zip(world.logs[slot], alone.logs[slot])):
            expect(same(a, b), "operation %d of thread %d (%s): among the others %s, on its own %s", i, slot, a[0], short(a[1:]), short(b[1:]))
        expect_same(state_of(world, slot), state_of(alone, slot), "object of thread %d", slot)
    if case["kind"] == "struct":
        for vals in case["classes"][0]["values"]:
            o = call("constructor after the threads", world.real.new, vals)
            expect_same(call("writing a new object after the threads", world.real.cls.write_to_string, o), sm.enc_struct(world.spec, vals), "a new object after the threads")
        return
    for c, r in zip(case["classes"], world.reals):
        for v in (0, 1):
            o = call("constructor after the threads", r.make, c["values"][v])
            expect_same(bytes(call("pack of a new object after the threads", o.pack)), world.data(c, v), "a new object after the threads packs to")


def state_of(world, slot):
    try:
        return world.state(slot)
    except Exception as e:
        return ["error", type(e).__name__]
